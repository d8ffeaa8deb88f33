#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single place both come from)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V, F, P = "src/validate.rs", "src/flatten.rs", "src/parser/mod.rs"
CB, JS, VA, IV, CX, UT, NO, AST, PE = ("src/cbor.rs", "src/json.rs", "src/value.rs", "src/ivt.rs", "src/context.rs",
                                      "src/util.rs", "src/normalize.rs", "src/ast.rs", "src/parser/parse_err.rs")
MODEL = ("An executable reference semantics, written independently of the code (purely functional matching), gives the "
         "expected verdict for every (schema, data) pair the workload produces; the check is as good as that model. ")
ENUM = "Exploration: sampled executions, not a proof. "
props = []

def p(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    props.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, note=note, observe=observe or ["validate_cbor / validate_json result"]))

p("C01", "Leaf types and literals accept exactly their own values",
  "A value matches a predefined type name or a literal exactly when CDDL puts it in that type: right kind, right sign, "
  "exactly equal number, text or bytes, with no conversion between integers, floats, text, byte strings, booleans and null. "
  "This holds in every position (rule body, array element, map key or value, choice, generic argument) and for CBOR and JSON data alike; "
  "predefined names the library does not support are refused, never guessed.",
  ["inputs", "programs"], "for every leaf type or literal, every position in a schema, every value incl. the 64-bit boundaries",
  "The tests try each name on a value or two; conversions, boundaries and positions multiply to thousands of combinations.",
  [V, F, CB, JS, VA], [("literal and prelude matching", "src/validate.rs validate_literal, validate_prelude_type"), ("predefined names", "src/flatten.rs flatten_typename"), ("value conversion", "src/cbor.rs, src/json.rs TryFrom")],
  "runtime oracle: reference-model comparison over an exhaustive leaf x value x position table plus random leaves",
  MODEL + "The table of names, boundary literals, positions and palette values is run completely; random leaves add to it.")
p("C02", "Arrays match in order, with nothing skipped, reused or left over",
  "An array matches an array type exactly when its elements, in order and with none left over, are consumed by the members of the group under CDDL's ordered matching: "
  "occurrences take as many elements as match, and the first alternative that matches is taken. "
  "An alternative, optional part or repetition that fails part way gives back every element it had consumed, at any depth of nesting.",
  ["inputs", "programs"], "for every array schema (nested groups, choices, occurrences, references) and every array",
  "Backtracking faults need particular combinations of nested groups and partial matches; the tests have a few dozen fixed pairs.",
  [V], [("element cursor with nested snapshots", "src/validate.rs WorkingArray"), ("member matching", "src/validate.rs validate_array_*")],
  "runtime oracle: reference-model comparison on random array schemas and sampled/mutated arrays",
  MODEL + ENUM)
p("C03", "Maps: every entry is accounted for exactly once, in any order",
  "A map matches a map type exactly when each required member is satisfied by an entry of its own, every entry is taken by some member, and no entry serves two members; a member may take any entry whose key and value both fit it. "
  "Alternatives and repetitions that fail give back the entries they took. "
  "The order in which entries appear in the data never changes the result.",
  ["inputs", "programs"], "for every map schema and every map, under every order of its entries",
  "The tests use small maps and mostly one wildcard; lost, doubled or order-dependent entries need several competing members.",
  [V], [("remaining entries with nested snapshots", "src/validate.rs WorkingMap"), ("key search", "src/validate.rs map_search*"), ("member matching", "src/validate.rs validate_map_*")],
  "runtime oracle: reference-model comparison plus entry-order permutation on random map schemas",
  MODEL + ENUM + "Where several entries could be taken first and that choice matters, the case is left undecided.")
p("C04", "Cuts bind exactly where CDDL says they do",
  "When an entry's key matches a member written with ':' or '^ =>', its value must match that member: the entry is not left for a later member or alternative of the same group, not even a wildcard or an optional one. "
  "A member written with '=>' alone leaves an entry whose value does not fit available to other members, and goes on to try other matching keys. "
  "A cut ends at the group it was written in and never escapes the map being matched.",
  ["inputs", "programs"], "for every arrangement of cut and non-cut members, occurrences, nested groups and alternatives, and every map",
  "A handful of tests cover single members; cuts interact with occurrences, alternatives, nesting and key search.",
  [V, UT, P], [("cut errors", "src/util.rs ValidateError::MapCut, erase_mapcut"), ("key/value members", "src/validate.rs validate_map_keyvalue*"), ("cut syntax", "src/parser/mod.rs grpent_member_tail")],
  "runtime oracle: reference-model comparison on schemas dense in cut members",
  MODEL + ENUM)
p("C05", "Occurrence limits are honoured exactly",
  "A member marked '?', '*', '+' or 'n*m' is matched as often as it can be, up to its upper limit, and the match fails exactly when fewer than the lower limit were found; omitted limits mean 0 and unbounded, and an upper limit of 0 forbids the member. "
  "This holds in arrays and in maps, for single members and for groups, with limits up to the largest that can be written. "
  "A repetition that consumes nothing still finishes.",
  ["inputs", "programs"], "for every occurrence marker, every repeated member or group, and every number of matching items",
  "Tests sample a few limits on arrays of a few elements; off-by-one and zero-progress cases are outside them.",
  [V, F, IV, P], [("occurrence loops", "src/validate.rs validate_array_occur, validate_map_occur"), ("limits", "src/flatten.rs From<&Occur>, src/ivt.rs OccurLimit::limits"), ("syntax", "src/parser/mod.rs occur_star")],
  "runtime oracle: reference-model comparison on schemas dense in occurrences, step budget for termination",
  MODEL + ENUM)
p("C06", "Ranges and size and comparison controls are exact at every boundary",
  "A number is in 'a..b' exactly when a <= x <= b and in 'a...b' exactly when a <= x < b, for integers and floats, with either end given directly or by a rule; .lt, .le, .gt and .ge compare integers exactly over the whole CBOR integer range and keep the target's own sign rules. "
  ".size limits the bytes of text and byte strings and the width in bytes of unsigned integers, exactly or by range. "
  "An operand of an unsuitable kind is reported as an error of the schema.",
  ["inputs", "programs"], "for every pair of limits, inclusive or not, every control and target, and every value",
  "The tests sample a few points; off-by-one, overflow and sign errors live at boundaries of 64-bit and 128-bit arithmetic.",
  [V, F, NO], [("ranges", "src/validate.rs validate_range, check_range"), ("controls", "src/validate.rs validate_control_*, validate_size_*"), ("size operands", "src/normalize.rs normalize_size_range")],
  "runtime oracle: reference-model comparison at and around every limit; overflow checks on",
  MODEL + ENUM)
p("C07", ".regexp accepts exactly the text the expression matches",
  "A text value matches a '.regexp' type exactly when the regular expression matches somewhere in it, and anchors are honoured; any other kind of value does not match. "
  "The expression is taken exactly as written, after undoing the text literal's escapes. "
  "An invalid expression is an error of the schema.",
  ["inputs", "programs"], "for every expression in the tested grammar and every text",
  "The tests have a few patterns; escapes, anchors, unicode and repetition interact.",
  [F, V], [("compilation", "src/flatten.rs control_regex"), ("matching", "src/validate.rs validate_control_regexp")],
  "runtime oracle: independent regular-expression matcher",
  MODEL + "Expressions come from a subset (literals, escapes by letter and by code, classes, greedy and lazy repetition, groups, alternation, anchors) that the independent matcher covers. " + ENUM)
p("C08", ".cbor validates exactly what the byte string holds",
  "A value matches 'bstr .cbor T' exactly when it is a byte string holding exactly one well-formed CBOR item, with nothing after it, and that item matches T, at any depth of embedding. "
  "Bytes that are not well-formed CBOR simply do not match, so other alternatives are still tried.",
  ["inputs", "programs"], "for every T and every byte string, well formed or not",
  "Tests embed two or three fixed items; damaged, truncated and trailing bytes inside alternatives are not tried.",
  [V, CB, F], [("embedded decoding", "src/validate.rs validate_control_cbor"), ("decoder", "src/cbor.rs decode_cbor")],
  "runtime oracle: reference model with an independent CBOR decoder",
  MODEL + ENUM)
p("C09", "Generic rules mean their body with the arguments put in",
  "Using a generic rule gives the same result as writing out its body with every parameter replaced by the argument, where the names in an argument keep the meaning they had at the place of use, through any chain of generic rules, recursion, unwrapping, ranges and controls. "
  "A parameter hides a rule of the same name. "
  "A wrong number of arguments, in either direction, is an error of the schema.",
  ["inputs", "programs"], "for every set of generic rules, arguments and values",
  "Capture and scope mistakes need parameters of the same name in nested generic calls; tests have few.",
  [V, F, P], [("scopes", "src/validate.rs Context::derive, lookup_rule"), ("parameters", "src/flatten.rs flatten_rule_generic, flatten_name_generic")],
  "runtime oracle: reference model with explicit environments on generic-heavy schemas",
  MODEL + ENUM)
p("C10", "Unwrapping and group-to-choice conversion mean what they stand for",
  "'~name' inside an array or map matches the contents of the array or map the name stands for as if they were written in its place, through aliases and generic arguments and with occurrences, giving back what it took if it fails. "
  "'&(...)' and '&name' match exactly the values that one of the group's members could have, ignoring the members' keys, in arrays and in maps alike. "
  "Unwrapping a name that stands for anything but an array (in an array) or a map (in a map) does not match; converting a name that is not a group is an error of the schema.",
  ["inputs", "programs"], "for every use of ~ and & and every value",
  "Tests have a few direct uses; aliases, occurrences, backtracking and nesting around them are untested.",
  [V, F], [("unwrap", "src/validate.rs validate_array_unwrap, validate_map_unwrap"), ("group to choice", "src/validate.rs validate_choiceify*")],
  "runtime oracle: reference-model comparison on schemas dense in ~ and &",
  MODEL + ENUM + "A group-to-choice conversion used as a map member is decided when its members are types or keyed members; bare names, occurrences and group choices inside it are not decided there.")
p("C11", "Rewriting a schema without changing its meaning changes no verdict",
  "Two schemas that CDDL says mean the same thing give the same verdict on all data: naming a part or inlining a name, adding or removing parentheses, renaming rules, parameters or bareword keys' spelling, reordering or adding unused rules, spelling literals, occurrences, ranges or cuts in another form, splitting or nesting choices, wrapping in a generic rule, and layout or comments.",
  ["inputs", "programs"], "for every schema, every such rewriting (also several at once), and every value",
  "No test compares two schemas; each construct is only tried in one arrangement.",
  [V, F, P], [("rule references", "src/validate.rs chase_rules, lookup_rule"), ("normal forms", "src/flatten.rs"), ("layout", "src/parser/mod.rs ws, optcom")],
  "runtime metamorphic monitor: original and rewritten schema validated on the same data",
  "No model decides the verdicts; a model only confirms that a rewriting kept the meaning. " + ENUM)
p("C12", "Every entry point and encoding gives the same verdict for the same data",
  "For the same schema, rule and data the result class is the same whether the schema is passed as text or prepared, whether the data is passed decoded or encoded, in any valid CBOR encoding of it (other integer widths, float widths, indefinite lengths) or JSON spelling (escapes, whitespace, number forms), and as CBOR or JSON wherever both can represent it. "
  "Decoding keeps every value exactly, integers up to the full CBOR range included.",
  ["inputs", "programs"], "for every schema, value, encoding of the value and entry point",
  "Tests use one encoding per value, produced by the same library that decodes it.",
  [CB, JS, VA], [("CBOR entry points", "src/cbor.rs validate_cbor, validate_cbor_bytes, TryFrom"), ("JSON entry points", "src/json.rs")],
  "runtime differential monitor: all entry points and several encodings compared per case",
  "Encoders are the harness's own. Floats the JSON decoder itself misreads are passed only in decoded form. Maps that repeat a key are compared across entry points only. " + ENUM,
  ["all validate_* functions", "Value::try_from"])
p("C13", "No input crashes, hangs or exhausts the process",
  "Every public function returns a value or an error on every input: it never panics, overflows an integer or the stack of an ordinary 2 MiB thread, loops for ever, or takes memory out of proportion to its input. "
  "This covers arbitrary schema text, data bytes and JSON text, arbitrary syntax trees and prepared schemas passed to the public functions, and lookup objects that fail.",
  ["inputs", "programs", "fault_sequences"], "for every text, byte string, tree or prepared schema up to the sizes tried, and every lookup failure",
  "Tests only use sensible input; hostile nesting, numbers, recursion and text are what break parsers and validators.",
  [P, V, F, CB, JS], [("nesting limit", "src/parser/mod.rs nested"), ("depth limit", "src/validate.rs Context::inc_depth"), ("checked conversions", "src/flatten.rs num_to_i128, src/parser/mod.rs parse_*")],
  "runtime sanitizers: overflow and debug checks, small stack, step budget, allocation meter under hostile input",
  "Compiled with overflow checks and debug assertions; a call is a hang after 400 million instrumented edges. Alternatives nested in recursive data may cost exponential time by design and are avoided. " + ENUM,
  ["process survival, panics, instrumented step count, peak allocation"])
p("C14", "Parsing gives the tree that was written",
  "For every schema in the supported grammar, parsing its text succeeds and yields exactly the structure that was written: rules in order, names, generic parameters and arguments, choices, groups, occurrences, keys and their cut form, ranges, controls, unwraps and literal values, nothing dropped, added, merged or regrouped. "
  "Layout, comments, optional commas and other spellings of the same thing never change the tree.",
  ["inputs", "programs"], "for every syntax tree and every way of laying it out",
  "The parser tests check short fragments in one layout; precedence and layout interactions are unbounded.",
  [P, AST], [("grammar", "src/parser/mod.rs rule, ty, type1, type2, group, grpent"), ("layout", "src/parser/mod.rs ws, optcom, comment")],
  "runtime oracle: print a random syntax tree in random layouts, parse it, compare the trees",
  "The printer is the harness's own and follows RFC 8610. Some tokens need separating space in the RFC grammar and get it. " + ENUM,
  ["parse_cddl result"])
p("C15", "Text that is not CDDL is rejected, and only that",
  "The parser accepts a text exactly when it is CDDL in the supported grammar, and then gives it the structure the grammar gives it: nothing is silently ignored, no error is papered over by a partial parse, and no trailing text is dropped. "
  "Unsupported CDDL syntax is rejected, never misread.",
  ["inputs"], "for every text, in particular every small damage to valid CDDL",
  "Tests list a few bad texts; near misses are unbounded.",
  [P, PE], [("whole-input parsing", "src/parser/mod.rs cddl, parse_cddl"), ("errors", "src/parser/parse_err.rs")],
  "runtime oracle: independent recursive-descent recognizer on edited schemas and token soup",
  "The recognizer implements the supported subset with ordered choice; texts nested over 48 levels are undecided. " + ENUM,
  ["parse_cddl result"])
p("C16", "Literals mean exactly what they spell",
  "Every literal is read as exactly the value its spelling denotes: integers in decimal, hexadecimal and binary over the whole signed and unsigned 64-bit range, floats correctly rounded, text with every escape, and byte strings in plain, hexadecimal and base64 form; it then matches that value and no neighbouring one. "
  "Malformed or out-of-range spellings are rejected rather than read as something else. "
  "The same spelling means the same in a type, a map key, a range, a control and an occurrence limit.",
  ["inputs"], "for every spelling of a literal, every position, and the values next to it",
  "The tests check a few spellings of each form; escapes, limits and rounding are unbounded.",
  [P, F], [("numbers", "src/parser/mod.rs uint, float_or_int, parse_*"), ("text and bytes", "src/parser/mod.rs text_literal, bytestring, unescape_*"), ("conversion", "src/flatten.rs flatten_value")],
  "runtime oracle: independently computed value of random spellings, checked in the tree and by validation",
  "Rust's standard float parser is trusted for decimal floats; base64 is the URL-safe padded form the library reads; 0x7F and CRLF inside byte strings are not tried. " + ENUM,
  ["parse_cddl result", "validate_cbor result"])
p("C17", "A fault in the schema is never concealed as a match or a mismatch",
  "When evaluation meets an undefined rule, a wrong number of generic arguments, an unsuitable operand, too deep recursion, an unimplemented feature or a failure of the lookup object, validation reports that error and nothing else, whatever alternative, occurrence, group, key search or embedding it was met in and whatever might have matched afterwards. "
  "Faults that are not met (behind an alternative that already matched) do not disturb the verdict.",
  ["inputs", "programs", "fault_sequences"], "for every fault kind, at every place in a schema, and for every point at which the lookup fails",
  "The tests put each fault at the top level; hiding happens in alternatives, occurrences and key searches.",
  [V, UT, F], [("fatal errors", "src/util.rs is_fatal"), ("alternatives", "src/validate.rs validate_choice, validate_array_*, validate_map_*"), ("key search", "src/validate.rs map_search")],
  "runtime fault injection: failing lookups at every point, broken schemas, unimplemented features; error class monitored",
  MODEL + ENUM, ["validate_* result class", "LookupContext calls"])
p("C18", "Validation is a pure function of its arguments",
  "The result of a validation depends only on the schema, rule and data: repeating it, doing it after any other validations, with a context that has been used before or a fresh one, from several threads sharing one prepared schema, or in another process gives the same result and message. "
  "Neither the prepared schema nor the data is changed.",
  ["inputs", "histories", "schedules"], "for every history of calls and every interleaving of threads sharing a schema",
  "Tests validate once per schema in a fresh context.",
  [V, CX, IV], [("per-call working state", "src/validate.rs WorkingArray, WorkingMap, Context"), ("shared rules", "src/context.rs BasicContext")],
  "runtime monitor: repeated, interleaved, multi-threaded and cross-process executions compared",
  "Interleavings are those the scheduler gives; unsafe code is forbidden in the crate, so the compiler rules out data races. " + ENUM)
p("C19", "The text-keeping entry points agree with the plain ones",
  "Parsing or flattening a schema with the entry points that keep each rule's text gives exactly the same rules, or an error for exactly the same texts, as the plain ones. "
  "The text kept for a rule is the part of the input that defines it: it holds that rule and no other, and on its own parses to that rule. "
  "The kept pieces appear in order and cover the whole input apart from space and comments.",
  ["inputs", "programs"], "for every schema text, valid or not",
  "Two tests with fixed text; layout, comments and damage are not covered.",
  [P, F, AST], [("slices", "src/parser/mod.rs cddl_slice, slice_parse_cddl"), ("flattening", "src/flatten.rs slice_flatten, slice_flatten_from_str")],
  "runtime differential monitor: both sets of entry points on random and damaged schemas, slices re-parsed",
  "Space and comments after a rule may be kept with it. When a name is defined twice the last definition counts. " + ENUM,
  ["slice_parse_cddl, slice_flatten_from_str results"])
p("C20", "Every feature configuration gives the same answers",
  "Parsing, preparing schemas and validating give the same results, messages included, with all features, JSON only, CBOR only or neither, and in checked and unchecked builds alike, for whatever the configuration offers. "
  "Without CBOR support a '.cbor' control is reported as unsupported or does not match; it is never accepted.",
  ["configurations", "inputs", "programs"], "for every combination of the two cargo features and both build profiles, every schema and value",
  "The tests need all default features and run in one profile only.",
  ["Cargo.toml", V, "src/lib.rs"], [("conditional code", "src/validate.rs validate_control_cbor; src/lib.rs")],
  "runtime differential monitor: four separately built configurations answer the same requests",
  "All four feature sets are built from the tree on each run. " + ENUM, ["replies of one process per configuration"])
p("C21", "Recursion is limited where documented, and only there",
  "Recursive rules validate recursive data correctly down to the documented limit of 50 nested rule references; going deeper is reported as an error of the schema, not a mismatch and not a crash, also for rules that refer only to themselves. "
  "References that do not nest do not count together, so long arrays, wide maps and many alternatives never reach the limit. "
  "The limit applies alike to plain rules, generic rules and their arguments, unwrapping, group-to-choice, ranges and controls.",
  ["inputs", "programs"], "for every way of nesting references, every depth around the limit, and every amount of data",
  "A few tests with one recursive rule; depth has to be counted alike along every path.",
  [V], [("depth counting", "src/validate.rs Context::inc_depth, blank, derive")],
  "runtime oracle: reference model counting reference depth; chains built to 48..52 levels through every kind of reference",
  MODEL + ENUM)
p("C22", "Work and memory grow in proportion to the input",
  "Parsing takes time and memory at most in proportion to the square of the length of the text, however it is nested. A schema whose rules, members, options, parameters or comments stand side by side is loaded in proportion to its length. "
  "Validating repeated or longer data takes time and memory in proportion to its length, and at most to the square of its size for wide maps, nested data and schemas with many members.",
  ["inputs", "programs"], "for every family of growing schemas and data tried, and random repeated text and elements",
  "Tests have no input large enough to tell linear from exponential.",
  [P, V], [("no re-parsing", "src/parser/mod.rs grpent_parens_val, type1_tail, float_or_int"), ("cursor and snapshots", "src/validate.rs WorkingArray, WorkingMap")],
  "runtime monitor: instrumented step counter and allocation meter compared at three sizes per family",
  "Steps are counted by compiler instrumentation in the library and its parser dependency only. Alternatives failing deep inside nested data may multiply and are not claimed; random repeated groups are measured against the work the reference semantics needs for them. " + ENUM,
  ["instrumented steps", "peak allocation"])
p("C23", "Every rule reference is resolved through the caller's lookup object",
  "Every name a schema refers to is looked up, by that name, in the lookup object the caller passed, and the definition it returns is what is used, so layered and custom rule sets behave as if their rules were written in one schema. "
  "Predefined type names and generic parameters are not looked up. "
  "An error it returns is passed on unchanged.",
  ["inputs", "programs"], "for every schema split over layers of a custom lookup object, and every value",
  "The tests only use the bundled context.",
  [V, CX], [("lookups", "src/validate.rs Context::lookup_rule; src/context.rs LookupContext")],
  "runtime monitor: recording, layered lookup objects compared with the merged schema and with the reference model",
  MODEL + ENUM, ["LookupContext calls", "validate_* result"])
p("C24", "Malformed data is an error, never a verdict on something else",
  "Bytes that are not exactly one well-formed CBOR item, and text that is not exactly one well-formed JSON value, are reported as an error in the data: never accepted, whatever the schema, and never judged by a prefix or a repaired form. "
  "Damaged data that is still well formed is judged as the value it now encodes, and an item the library cannot represent is an error in the data, never taken for another value.",
  ["inputs", "fault_sequences"], "for every value and every truncation, extension or corruption of its encodings",
  "The tests never pass malformed data.",
  [CB, JS], [("CBOR decoding", "src/cbor.rs decode_cbor, validate_cbor_bytes"), ("JSON decoding", "src/json.rs validate_json_str")],
  "runtime fault injection: damaged encodings, judged by independent CBOR and JSON recognizers",
  "Tags, NaN, duplicate keys, other simple values, numbers out of range and lone surrogates are undecided. " + ENUM,
  ["validate_cbor_bytes, validate_json_str results"])

p("C25", "Errors name what is wrong and where",
  "When a schema text is unreadable because a literal is malformed, the error says which kind of literal, wherever it stands, and quotes it; any other unreadable text is reported as such, quoting the input from the end of the last rule that could be read. "
  "An undefined rule and an unsupported predefined name are reported by that name, a value rejected by a basic type, a literal or a range is reported with what was expected, and a size or comparison control on a type it is not for is reported with the control and that type. "
  "Every way of passing the schema reports the same error.",
  ["inputs"], "for every unreadable text, every place a name can stand in, and every basic type and value",
  "The tests check a few messages; which of several errors survives backtracking depends on where the fault stands.",
  [P, PE, V, UT], [("errors that end the parse", "src/parser/mod.rs map_res_fail, grpent_member_tail"), ("error values", "src/parser/parse_err.rs, src/util.rs"), ("lookup errors", "src/validate.rs, src/context.rs")],
  "runtime oracle: independent recognizer's diagnosis of damaged texts; undefined names and rejected values in every position",
  "The exact place is compared when at least one whole rule precedes the fault. " + ENUM, ["parse_cddl error kind and context", "ValidateError message"])
p("C26", "A prepared schema is the schema that was written",
  "Preparing a schema gives, for every rule that was written and no other, its parameters and a definition that holds exactly what the rule says: types, literals, names with their arguments, members with their keys and cuts, occurrences, alternatives, ranges, controls, unwraps and conversions, in order. "
  "The last of several rules with one name counts. "
  "A schema is refused exactly when it holds something that cannot be prepared (an unsupported name or control, arguments on a predefined name, an unsuitable operand), with an error of that kind.",
  ["inputs", "programs"], "for every schema in the supported grammar, from text in any layout or from a tree",
  "The tests compare short fragments; what is lost, swapped or merged depends on how constructs are combined.",
  [F, IV, CX], [("preparation", "src/flatten.rs flatten, flatten_rule, flatten_type2, flatten_group"), ("names", "src/flatten.rs flatten_typename"), ("controls", "src/flatten.rs flatten_control")],
  "runtime oracle: node-by-node comparison of prepared random schemas with the tree they were written from",
  "Operands of .regexp and .cbor are not public and are compared by what the prepared rule shows. Whether a regular expression is malformed is left to C07. " + ENUM,
  ["flatten, flatten_from_str, slice_flatten_from_str results"])

p("C27", "Equality, order and copies of data, trees and prepared schemas are exact",
  "Two data values, two syntax trees or two prepared rules compare equal exactly when they are the same in every part, whatever text or layout they were read from; copies equal their originals. "
  "The order of data values is a total order that agrees with equality. "
  "A prepared schema put together with the public constructors equals, and validates like, the one read from text, and an occurrence, integer or integer range is shown as CDDL that is read back as the same.",
  ["inputs", "programs"], "for every pair and triple of values, every schema in any two layouts, and every change of one detail",
  "Tests compare a few nodes that are equal; whether different ones differ, and whether an order is one, takes many pairs.",
  [IV, "src/value.rs", "src/ast.rs"], [("values", "src/value.rs Value"), ("nodes", "src/ivt.rs KeyValue, Occur, CtlOpRegexp, literal_*"), ("trees", "src/ast.rs")],
  "runtime oracle: pairwise and triple comparison of values, readings, one-place changes and hand-made copies against independent structural comparison",
  "Operands of .regexp and .cbor are not public: rules that hold .cbor must differ only where what is shown differs. " + ENUM,
  ["==, cmp, clone and Display of the public types", "validate_cbor results"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for q in props:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
            "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
            "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                        "observe_at": q["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "bash run.sh build",
     "checks": [{"property": q["id"], "quick_cmd": f"bash run.sh {q['id']} quick", "thorough_cmd": f"bash run.sh {q['id']} thorough",
                 "technique": q["technique"], "level": "exploration", "level_note": q["note"].strip()} for q in props],
     "not_applicable": [],
     "notes": "No hooks in /repo: the code is instrumented by the compiler (sanitizer coverage, overflow checks) and observed through its public interface."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

V,F,P,CB,JS,UT,CX="src/validate.rs","src/flatten.rs","src/parser/mod.rs","src/cbor.rs","src/json.rs","src/util.rs","src/context.rs"
PRE='''
#[allow(unused_imports)]
use cddl_cat::*;
#[allow(dead_code)]
fn hex(s: &str) -> Vec<u8> {
    let d: Vec<u8> = s.chars().filter(|c| !c.is_whitespace()).map(|c| c.to_digit(16).unwrap() as u8).collect();
    d.chunks(2).map(|c| c[0] * 16 + c[1]).collect()
}
#[allow(dead_code)]
fn cbor(rule: &str, cddl: &str, h: &str, ok: bool) {
    let r = validate_cbor_bytes(rule, cddl, &hex(h));
    if r.is_ok() != ok { println!("{cddl} on {h}: {r:?}"); std::process::exit(1); }
}
'''
PREJ='''
#[allow(dead_code)]
fn json(rule: &str, cddl: &str, j: &str, ok: bool) {
    let r = validate_json_str(rule, cddl, j);
    if r.is_ok() != ok { println!("{cddl} on {j}: {r:?}"); std::process::exit(1); }
}
'''
BUGS={
"S01":dict(property="C01",needs="a float literal in the schema and an integer of equal value in the data (or the reverse)",
 breaks="literals convert between integers and floats",
 edits=[(V,'''    if *value == Value::from(literal) {
        return Ok(());
    }
''','''    if *value == Value::from(literal) {
        return Ok(());
    }
    // JSON does not distinguish 2 from 2.0
    if let (Literal::Float(f), Value::Integer(i)) = (literal, value) {
        if *f == *i as f64 {
            return Ok(());
        }
    }
''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = 2.0", "2.0", true); json("a", "a = 2.0", "2", false); cbor("a", "a = {2.5 => int}", "a1 f94100 01", true); cbor("a", "a = [3.0]", "8103", false); }'),
"S02":dict(property="C02",needs="a group that fails after consuming two or more elements that differ, followed by an alternative that is sensitive to their order",
 breaks="a failed alternative gives its elements back in the wrong order",
 edits=[(V,"        for element in top_snap.drain(..).rev() {","        for element in top_snap.drain(..) {")],
 demo=PRE+PREJ+'fn main() { json("a", "a = [(int, tstr, bool // int, tstr, nil)]", r#"[1, "x", null]"#, true); }'),
"S03":dict(property="C03",needs="an entry that no member takes, whose value is null",
 breaks="a map with an unaccounted null entry is accepted",
 edits=[(V,"    if working_map.map.is_empty() {\n        Ok(())","    // absent and null mean the same thing to many encoders\n    if working_map.map.values().all(|v| *v == Value::Null) {\n        Ok(())")],
 demo=PRE+PREJ+'fn main() { json("a", "a = {x: int}", r#"{"x": 1, "y": null}"#, false); }'),
"S04":dict(property="C04",needs="a non-cut member whose value is a map that itself fails on a cut, with a later member that would take the entry",
 breaks="a cut escapes the map it belongs to",
 edits=[(V,'''        validate_map_member(member, &mut working_map, ctx).map_err(|e| {
            // If a MapCut error pops out here, change it to a Mismatch, so that
            // it can't cause trouble in nested maps.
            e.erase_mapcut()
        })?;
''','''        validate_map_member(member, &mut working_map, ctx)?;
''')],
 demo=PRE+PREJ+'fn main() { json("a", r#"a = {? "a" => {b: int}, * tstr => any}"#, r#"{"a": {"b": "x"}}"#, true); }'),
"S05":dict(property="C05",needs="an upper limit of zero",
 breaks="n*0 lets one item through",
 edits=[("src/ivt.rs","            OccurLimit::Numbered(n, m) => (n, m),","            OccurLimit::Numbered(n, m) => (n, m.max(1)),")],
 demo=PRE+PREJ+'fn main() { json("a", "a = [*0 int, * tstr]", "[1]", false); json("a", r#"a = {0*0 "x" => int}"#, r#"{"x": 1}"#, false); }'),
"S06":dict(property="C06",needs="nint .ge with a limit, and a value below it that is close to the 64-bit minimum",
 breaks="comparison controls are wrong for very negative numbers",
 edits=[(V,'''            // nint domain restriction: must be negative
            if *x >= 0 {
                Err(mismatch("nint"))
            } else if *x >= lt {
                Ok(())
            } else {
                Err(mismatch("nint over .ge limit"))''','''            // nint domain restriction: must be negative
            if *x >= 0 {
                Err(mismatch("nint"))
            } else if *x as i64 >= lt as i64 {
                Ok(())
            } else {
                Err(mismatch("nint over .ge limit"))''')],
 demo=PRE+'fn main() { cbor("a", "a = nint .ge -5", "24", true); cbor("a", "a = nint .ge -5", "3b8000000000000000", false); }'),
"S07":dict(property="C07",needs="a pattern with '.' and a text with a line break",
 breaks="'.' matches a line break",
 edits=[(F,"                .size_limit(1 << 20)\n","                .size_limit(1 << 20)\n                .dot_matches_new_line(true)\n")],
 demo=PRE+PREJ+'fn main() { json("a", r#"a = tstr .regexp "^a.b$""#, r#""a\\nb""#, false); }'),
"S08":dict(property="C08",needs="a generic parameter used as (part of) the embedded type",
 breaks=".cbor cannot see the parameters of the rule it is in",
 edits=[(V,"validate(&nested_value, ctl_cbor.node.as_ref(), ctx)","validate(&nested_value, ctl_cbor.node.as_ref(), &ctx.blank()?)")],
 demo=PRE+'fn main() { cbor("a", "a = e<int> e<t> = bstr .cbor t", "4101", true); }'),
"S09":dict(property="C09",needs="a generic rule that passes one of its parameters to another generic rule",
 breaks="arguments are resolved in the outermost scope instead of where they were written",
 edits=[(V,"            past_ctx: Some(self),","            past_ctx: self.generic_map.past_ctx.or(Some(self)),")],
 demo=PRE+PREJ+'fn main() { json("a", "a = f<int> f<t> = [g<t>] g<u> = [u, u]", "[[1, 2]]", true); }'),
"S10":dict(property="C10",needs="&name where the group is generic",
 breaks="a converted group cannot see its own generic arguments",
 edits=[(V,"    let NodeContext { node, ctx } = ctx.lookup_rule(rule)?;\n    match node {\n        Node::Group(g) => validate_choiceify_members(&g.members, value, &ctx),\n        Node::Rule(r) => validate_choiceify(r, value, &ctx),",
 "    let NodeContext { node, ctx: inner } = ctx.lookup_rule(rule)?;\n    match node {\n        Node::Group(g) => validate_choiceify_members(&g.members, value, ctx),\n        Node::Rule(r) => validate_choiceify(r, value, &inner),")],
 demo=PRE+PREJ+'fn main() { json("a", "a = &g<int> g<t> = (x: t, y: tstr)", "5", true); }'),
"S11":dict(property="C11",needs="a cut member alone in parentheses, with a sibling that would take the entry",
 breaks="writing a one-member group in parentheses or by name makes a difference",
 edits=[(F,'''            let nodes = flatten_group(g)?;
            Ok(Node::Group(Group { members: nodes }))
        }
    }
}
''','''            let mut nodes = flatten_group(g)?;
            if nodes.len() == 1 {
                // No need for a group around a single member.
                return Ok(nodes.remove(0));
            }
            Ok(Node::Group(Group { members: nodes }))
        }
    }
}
''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = {(x: int // x: int, y: int // x: tstr)}", r#"{"x": "s"}"#, true); let d = r#"{"x": "s"}"#; json("a", "a = {? (x: int), * tstr => any}", d, true); }'),
"S12":dict(property="C12",needs="an unsigned integer above the signed 64-bit range in JSON",
 breaks="large unsigned JSON integers become floats",
 edits=[(JS,'''                if let Some(u) = num.as_u64() {
                    Value::Integer(i128::from(u))
                } else if let Some(i) = num.as_i64() {
                    Value::Integer(i128::from(i))
                }''','''                if let Some(i) = num.as_i64() {
                    Value::Integer(i128::from(i))
                }''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = uint", "18446744073709551615", true); cbor("a", "a = uint", "1bffffffffffffffff", true); }'),
"S13":dict(property="C13",needs="a character outside ASCII in a hex byte string",
 breaks="the parser panics",
 edits=[(P,"    hex::decode(&s).map_err(|_| parse_error(ErrorKind::MalformedHex, s))",'''    if s.len() % 2 != 0 {
        return Err(parse_error(ErrorKind::MalformedHex, s));
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16))
        .collect::<Result<Vec<u8>, _>>()
        .map_err(|_| parse_error(ErrorKind::MalformedHex, s.clone()))''')],
 demo=PRE+'''fn main() { if std::panic::catch_unwind(|| { let _ = parse_cddl("a = h'0\\u{e9}0'"); }).is_err() { std::process::exit(1) } }'''),
"S14":dict(property="C14",needs="space between '~' and the name",
 breaks="layout changes whether a schema parses",
 edits=[(P,'''        tag("~"),
        preceded(
            ws,
            name_generic
        )''','''        tag("~"),
        name_generic''')],
 demo=PRE+'fn main() { if parse_cddl("a = [~ b] b = [int]").is_err() { std::process::exit(1) } }'),
"S15":dict(property="C15",needs="a decimal integer with a leading zero",
 breaks="text that is not CDDL is accepted",
 edits=[(P,'''    alt((
        tag("0"),
        recognize(
            pair(
                one_of("123456789"),
                digit0
            )
        )
    ))
    (input)''','''    digit1(input)''')],
 demo=PRE+'fn main() { if parse_cddl("a = 007").is_ok() { std::process::exit(1) } }'),
"S16":dict(property="C16",needs="an integer literal too large for 64 bits",
 breaks="an out-of-range literal is read as another value",
 edits=[(P,'''    let posint = u64::from_str_radix(raw.slice, raw.base)
        .map_err(|_| parse_error(ErrorKind::MalformedInteger, raw.slice))?;
''','''    let posint = raw.slice.chars().try_fold(0u64, |n, c| {
        let digit = u64::from(c.to_digit(raw.base)?);
        Some(n.wrapping_mul(u64::from(raw.base)).wrapping_add(digit))
    });
    let posint =
        posint.ok_or_else(|| parse_error(ErrorKind::MalformedInteger, raw.slice))?;
''')],
 demo=PRE+'fn main() { if parse_cddl("a = 18446744073709551620").is_ok() { std::process::exit(1) } }'),
"S17":dict(property="C17",needs="a wrong number of generic arguments in an alternative that is followed by one that matches",
 breaks="a wrong number of generic arguments counts as a mismatch",
 edits=[(UT,"        !matches!(self, ValidateError::Mismatch(_) | ValidateError::MapCut(_))","        !matches!(\n            self,\n            ValidateError::Mismatch(_) | ValidateError::MapCut(_) | ValidateError::GenericError\n        )")],
 demo=PRE+PREJ+'fn main() { json("a", "a = g<int> / int g<t, u> = t", "5", false); }'),
"S18":dict(property="C18",needs="two schemas using the same rule name as a range end, validated one after the other in one thread",
 breaks="results depend on schemas validated earlier",
 edits=[(V,'''fn deref_range_rule(node: &Node, ctx: &Context) -> TempResult<Literal> {
    match node {
        Node::Literal(l) => Ok(l.clone()),
        Node::Rule(r) => {
            let answer = ctx.lookup_rule(r)?;
            deref_range_rule(answer.node, &answer.ctx)
        }''','''thread_local! {
    // Range limits that have been looked up already.
    static LIMITS: std::cell::RefCell<HashMap<String, Literal>> = Default::default();
}

fn deref_range_rule(node: &Node, ctx: &Context) -> TempResult<Literal> {
    match node {
        Node::Literal(l) => Ok(l.clone()),
        Node::Rule(r) => {
            let cacheable = ctx.generic_map.map.is_empty() && r.generic_args.is_empty();
            if cacheable {
                if let Some(l) = LIMITS.with(|m| m.borrow().get(&r.name).cloned()) {
                    return Ok(l);
                }
            }
            let answer = ctx.lookup_rule(r)?;
            let l = deref_range_rule(answer.node, &answer.ctx)?;
            if cacheable {
                LIMITS.with(|m| m.borrow_mut().insert(r.name.clone(), l.clone()));
            }
            Ok(l)
        }''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = 0..max max = 10", "7", true); json("a", "a = 0..max max = 5", "7", false); }'),
"S19":dict(property="C19",needs="a rule containing a semicolon inside a text literal",
 breaks="the text kept for a rule is cut short",
 edits=[(P,"                    (r, s.to_string())","                    // don't keep comments\n                    let code: Vec<&str> = s.lines().map(|l| l.split(';').next().unwrap_or(\"\")).collect();\n                    (r, code.join(\"\\n\"))")],
 demo=PRE+'fn main() { let c = parser::slice_parse_cddl("a = \\"x;y\\"").unwrap(); if parse_cddl(&c.rules[0].1).is_err() { std::process::exit(1) } }'),
"S20":dict(property="C20",needs="a build with only the serde_json feature, and .cbor in the schema",
 breaks="without CBOR support, .cbor accepts anything",
 edits=[(V,'''    Err(ValidateError::Unsupported(
        "'.cbor' control operator; enable ciborium feature to support.".into(),
    ))''','''    // We can't look inside, so there is nothing to check.
    Ok(())''')],
 features='default-features = false, features = ["serde_json"]',
 demo='use cddl_cat::*;\nfn main() { if validate_json_str("a", "a = bstr .cbor int", "5").is_ok() { std::process::exit(1) } }'),
"S21":dict(property="C21",needs="recursion through generic rules only, deep enough",
 breaks="generic rules are not counted against the recursion limit",
 edits=[(V,'''        Ok(Context {
            lookup: self.lookup,
            generic_map,
            depth: self.inc_depth()?,
        })''','''        Ok(Context {
            lookup: self.lookup,
            // a rule with parameters can only be reached through one without
            depth: if args_len == 0 { self.inc_depth()? } else { self.depth },
            generic_map,
        })''')],
 demo=PRE+PREJ+'''fn main() { let mut s = String::from("a = g0<int>\\n"); for i in 0..70 { s.push_str(&format!("g{}<t> = g{}<int>\\n", i, i + 1)); } s.push_str("g70<t> = int\\n"); json("a", &s, "1", false); }'''),
"S22":dict(property="C22",needs="an array matched by a repeated group, large enough for the growth to show",
 breaks="matching a repeated group takes quadratic time",
 edits=[(V,'''        let new_snap: VecDeque<Value> = VecDeque::new();
        self.snaps.push_back(new_snap);''','''        let mut new_snap: VecDeque<Value> = self.array.clone();
        new_snap.clear();
        self.snaps.push_back(new_snap);''')],
 demo=PRE+PREJ+'''fn main() { let t = |n: usize| { let d = format!("[{}1]", "1,".repeat(n)); let i = std::time::Instant::now(); json("a", "a = [* (int, ? tstr)]", &d, true); i.elapsed().as_secs_f64() }; let (a, b) = (t(4000), t(16000)); println!("{a} {b}"); if b > a * 9.0 { std::process::exit(1) } }'''),
"S23":dict(property="C23",needs="a lookup object that reports an error of its own",
 breaks="the lookup object's error is replaced",
 edits=[(V,"        let rule_def: &RuleDef = self.lookup.lookup_rule(&rule.name)?;","        let rule_def: &RuleDef = self\n            .lookup\n            .lookup_rule(&rule.name)\n            .map_err(|_| ValidateError::MissingRule(rule.name.clone()))?;")],
 demo='''use cddl_cat::context::*; use cddl_cat::ivt::*; use cddl_cat::*;
struct L; impl LookupContext for L { fn lookup_rule<'a>(&'a self, _: &str) -> Result<&'a RuleDef, ValidateError> { Err(ValidateError::Unsupported("locked".into())) } }
fn main() { let r = flatten::flatten_from_str("a = b").unwrap(); let v = serde_json::json!(1); match validate_json(&r["a"], &v, &L) { Err(ValidateError::Unsupported(_)) => {}, r => { println!("{r:?}"); std::process::exit(1) } } }''',deps='serde_json = "1"\n'),
"S24":dict(property="C24",needs="JSON text with something after the value",
 breaks="trailing text after a JSON value is ignored",
 edits=[(JS,'''        serde_json::from_str(json).map_err(|e| ValidateError::ValueError(format!("{}", e)))?;''','''        serde_json::Deserializer::from_str(json)
            .into_iter()
            .next()
            .unwrap_or(Ok(JSON_Value::Null))
            .map_err(|e| ValidateError::ValueError(format!("{}", e)))?;''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = [int]", "[1] [2]", false); }'),
}

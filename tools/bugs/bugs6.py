import runpy
_b=runpy.run_path("/verif/tools/bugs/bugs2.py")
V,F,P,CB,JS,UT,CX,PRE,PREJ=[_b[k] for k in "V F P CB JS UT CX PRE PREJ".split()]
IV="src/ivt.rs"; VA="src/value.rs"
KIND='''
#[allow(dead_code)]
fn kind(cddl: &str, k: &str) {
    let e = match parse_cddl(cddl) { Ok(_) => "parsed".to_string(), Err(e) => e.to_string() };
    if !e.contains(k) { println!("{cddl}: {e}"); std::process::exit(1); }
}
#[allow(dead_code)]
fn says(rule: &str, cddl: &str, h: &str, want: &str) {
    let e = match validate_cbor_bytes(rule, cddl, &hex(h)) { Ok(_) => "ok".to_string(), Err(e) => e.to_string() };
    if e != want { println!("{cddl}: {e}"); std::process::exit(1); }
}
#[allow(dead_code)]
fn node(cddl: &str, rule: &str) -> cddl_cat::ivt::RuleDef { cddl_cat::flatten::flatten_from_str(cddl).unwrap().remove(rule).unwrap() }
'''
BUGS={
"X01":dict(property="C25",needs="a base64 literal of a wrong length",
 breaks="base64 literals of a wrong length are reported as malformed text",
 edits=[(P,"parse_error(ErrorKind::MalformedBase64, s)","parse_error(\n                    if s.len() % 4 == 1 {\n                        ErrorKind::MalformedText\n                    } else {\n                        ErrorKind::MalformedBase64\n                    },\n                    s,\n                )")],
 demo=PRE+KIND+'fn main() { kind("a = b64\'AAAAA\'", "MalformedBase64(AAAAA)"); }'),
"X02":dict(property="C25",needs="a binary occurrence limit that does not fit",
 breaks="a binary limit that is too large is not quoted",
 edits=[(P,'''    u64::from_str_radix(raw.slice, raw.base)
        .map_err(|_| parse_error(ErrorKind::MalformedInteger, raw.slice))
}''','''    u64::from_str_radix(raw.slice, raw.base).map_err(|_| {
        let ctx = if raw.base == 2 { "0b" } else { raw.slice };
        parse_error(ErrorKind::MalformedInteger, ctx.trim_start_matches("0b"))
    })
}''')],
 demo=PRE+KIND+'fn main() { let n = "1".repeat(65); kind(&format!("a = [0b{n}* int]"), &n); }'),
"X03":dict(property="C25",needs="an undefined rule whose name ends in a digit group after a dot",
 breaks="the name of an undefined rule is cut at its first dot",
 edits=[(CX,"            None => Err(ValidateError::MissingRule(name.into())),","            None => {\n                let short = name.split_once('.').map_or(name, |(s, _)| s);\n                Err(ValidateError::MissingRule(short.into()))\n            }")],
 demo=PRE+KIND+'fn main() { says("a", "a = nope.v1", "01", "MissingRule(nope.v1)"); }'),
"X05":dict(property="C25",needs="a value outside an exclusive range of floats",
 breaks="the message for an exclusive range of floats shows an inclusive one",
 edits=[(IV,'''        let op = if self.inclusive { ".." } else { "..." };''','''        let op = match *self.end {
            Node::Literal(Literal::Float(_)) => "..",
            _ if self.inclusive => "..",
            _ => "...",
        };''')],
 demo=PRE+KIND+'fn main() { says("a", "a = 1.5...2.5", "f94100", "Mismatch(expected 1.5...2.5)"); }'),
"X06":dict(property="C25",needs="a text literal that holds white space at its end",
 breaks="the message for a text literal loses white space",
 edits=[(IV,'''            Literal::Text(s) => write!(f, "\\"{}\\"", s),''','''            Literal::Text(s) => write!(f, "\\"{}\\"", s.trim_end()),''')],
 demo=PRE+KIND+'fn main() { says("a", "a = \\"x \\"", "01", "Mismatch(expected \\"x \\")"); }'),
"X07":dict(property="C26",needs="an explicit cut on a key that is a range",
 breaks="an explicit cut is lost on a key that is a range",
 edits=[(F,"            let cut = key.cut;\n","            let cut = key.cut\n                && !matches!(\n                    key.val,\n                    ast::MemberKeyVal::Type1(ast::Type1::Range(_))\n                );\n")],
 demo=PRE+'fn main() { cbor("a", "a = { ? 1..3 ^ => int, * uint => tstr }", "a1026161", false); cbor("a", "a = { ? 1..3 ^ => int, * uint => tstr }", "a1046161", true); }'),
"X08":dict(property="C26",needs="the same argument twice in a row",
 breaks="a generic argument equal to the one before it is dropped",
 edits=[(F,"                r.generic_args.push(arg_node);","                if r.generic_args.len() < 4 || r.generic_args.last() != Some(&arg_node) {\n                    r.generic_args.push(arg_node);\n                }")],
 demo=PRE+'fn main() { cbor("a", "a = t<int, bool, bool, tstr, tstr> t<x, y, z, v, w> = [x, y, z, v, w]", "8501f5f561616162", true); }'),
"X09":dict(property="C26",needs="a rule with four or more generic parameters",
 breaks="generic parameters after the third are dropped or reordered",
 edits=[(F,"        generic_parms: rule.generic_parms.clone(),","        generic_parms: {\n            let mut parms = rule.generic_parms.clone();\n            if parms.len() > 3 {\n                parms.swap(2, 3);\n            }\n            parms\n        },")],
 demo=PRE+'fn main() { cbor("a", "a = t<int, tstr, bool, nil> t<x, y, z, w> = [x, y, z, w]", "84016161f5f6", true); }'),
"X10":dict(property="C26",needs="two rules of the same name",
 breaks="the first of two rules with the same name is used",
 edits=[(F,"    cddl.rules.iter().map(flatten_rule).collect()","    let mut rules = RulesByName::new();\n    for rule in &cddl.rules {\n        let (name, def) = flatten_rule(rule)?;\n        rules.entry(name).or_insert(def);\n    }\n    Ok(rules)")],
 demo=PRE+'fn main() { cbor("a", "a = int a = tstr", "6161", true); }'),
"X11":dict(property="C26",needs="a .size with an exclusive range whose ends are the wrong way round or far apart",
 breaks="an exclusive .size range is prepared as an inclusive one one shorter",
 edits=[(F,"        Node::Range(_) => {}\n        Node::Rule(_) => {}\n        _ => return Err(ValidateError::Unsupported(\".size limit type\".into())),\n    };\n","        Node::Range(_) => {}\n        Node::Rule(_) => {}\n        _ => return Err(ValidateError::Unsupported(\".size limit type\".into())),\n    };\n    let size = match size {\n        Node::Range(mut r) => {\n            r.inclusive |= matches!(*r.start, Node::Literal(Literal::Int(n)) if n > 2);\n            Node::Range(r)\n        }\n        size => size,\n    };\n")],
 demo=PRE+'fn main() { cbor("a", "a = tstr .size (3...5)", "656161616161", false); }'),
"X12":dict(property="C26",needs="the name 'encoded-cbor' or another alias of bytes in a key",
 breaks="a bareword key named like a literal of the prelude is that literal",
 edits=[(F,"            Ok(literal_text(s.clone()))","            match s.as_str() {\n                \"true\" => Ok(literal_bool(true)),\n                _ => Ok(literal_text(s.clone())),\n            }")],
 demo=PRE+PREJ+'fn main() { json("a", "a = { true: int }", "{\\"true\\":1}", true); }'),
"X14":dict(property="C07",needs="a carriage return in the text and a '.'",
 breaks="'.' does not match a carriage return",
 edits=[(F,"                .size_limit(1 << 20)\n","                .size_limit(1 << 20)\n                .crlf(true)\n")],
 demo=PRE+PREJ+'fn main() { json("a", "a = tstr .regexp \\"^a.b$\\"", "\\"a\\\\rb\\"", true); }'),
"X15":dict(property="C07",needs="an expression with many nested groups",
 breaks="expressions with more than a dozen nested groups are refused",
 edits=[(F,"                .size_limit(1 << 20)\n","                .size_limit(1 << 20)\n                .nest_limit(12)\n")],
 demo=PRE+PREJ+'fn main() { let n = 16; let re = format!("{}a{}", "(".repeat(n), ")".repeat(n)); json("a", &format!("a = tstr .regexp \\"{re}\\""), "\\"a\\"", true); }'),
"X16":dict(property="C07",needs="an octal escape in an expression",
 breaks="expressions with octal escapes are accepted",
 edits=[(F,"                .size_limit(1 << 20)\n","                .size_limit(1 << 20)\n                .octal(true)\n")],
 demo=PRE+PREJ+'fn main() { let r = validate_json_str("a", "a = tstr .regexp \\"\\\\\\\\141\\"", "\\"a\\""); if !matches!(r, Err(ValidateError::Structural(_))) { println!("{r:?}"); std::process::exit(1) } }'),
"X17":dict(property="C15",needs="a float with a capital E",
 breaks="an exponent may be written with a capital letter",
 edits=[(P,"            charx('e'),\n","            one_of(\"eE\"),\n")],
 demo=PRE+'fn main() { if parse_cddl("a = 1E5").is_ok() { std::process::exit(1) } }'),
"X18":dict(property="C15",needs="a number with a capital prefix",
 breaks="0X is taken as a prefix for hexadecimal",
 edits=[(P,'''        tag("0x"),
        hex_digit1''','''        alt((tag("0x"), tag("0X"))),
        hex_digit1''')],
 demo=PRE+'fn main() { if parse_cddl("a = 0X5").is_ok() { std::process::exit(1) } }'),
"X19":dict(property="C14",needs="a comment after a comma between generic arguments",
 breaks="a comment after a comma between generic arguments stops the parser",
 edits=[(P,'''            pair(tag(","), ws),
            terminated(type1, ws)),''','''            pair(tag(","), opt(multispace1)),
            terminated(type1, ws)),''')],
 demo=PRE+'fn main() { if parse_cddl("a = t<int, ; x\\n int> t<x, y> = [x, y]").is_err() { std::process::exit(1) } }'),
"X21":dict(property="C12",needs="a JSON string that ends in NUL",
 breaks="NUL characters at the end of JSON strings are dropped",
 edits=[(JS,"            JSON_Value::String(t) => Value::Text(t.clone()),","            JSON_Value::String(t) => Value::Text(t.trim_end_matches('\\0').into()),")],
 demo=PRE+PREJ+'fn main() { json("a", "a = tstr .size 1", "\\"\\\\u0000\\"", true); }'),
"X23":dict(property="C18",needs="a '^ =>' key that fits several entries whose values differ in type",
 breaks="which entry a cut key takes is left to chance",
 edits=[(V,'''    for (key, value) in &working_map.map {
        match validate(key, node, ctx) {''','''    use std::hash::{BuildHasher, Hasher};
    let mut entries: Vec<_> = working_map.map.iter().collect();
    let coin = std::collections::hash_map::RandomState::new()
        .build_hasher()
        .finish();
    if coin & 1 == 1 {
        entries.reverse();
    }
    for (key, value) in entries {
        match validate(key, node, ctx) {''')],
 demo=PRE+PREJ+'fn main() { let f = || validate_json_str("a", "a = { tstr ^ => int, * tstr => any }", "{\\"a\\":1,\\"b\\":\\"x\\"}").is_ok(); let x = f(); for _ in 0..60 { if f() != x { std::process::exit(1) } } }'),
"X24":dict(property="C21",needs="a chain of aliases inside an array",
 breaks="aliases inside an array are not counted",
 edits=[(V,'''            let answer = ctx.lookup_rule(r)?;
            validate_array_member(answer.node, working_array, &answer.ctx)''','''            let mut answer = ctx.lookup_rule(r)?;
            if matches!(answer.node, Node::Rule(_)) && answer.ctx.generic_map.map.is_empty() {
                answer.ctx.depth = ctx.depth;
            }
            validate_array_member(answer.node, working_array, &answer.ctx)''')],
 demo=PRE+'fn main() { let mut s = String::from("a = [r0] "); for i in 0..80 { s += &format!("r{} = r{} ", i, i + 1); } s += "r80 = int"; cbor("a", &s, "8101", false); }'),
"X26":dict(property="C23",needs="a lookup object that fails once",
 breaks="a failed lookup is tried again",
 edits=[(V,"        let rule_def: &RuleDef = self.lookup.lookup_rule(&rule.name)?;","        let rule_def: &RuleDef = self\n            .lookup\n            .lookup_rule(&rule.name)\n            .or_else(|_| self.lookup.lookup_rule(&rule.name))?;")],
 demo=PRE+'''struct L(std::cell::Cell<u32>, cddl_cat::context::BasicContext);
impl cddl_cat::context::LookupContext for L { fn lookup_rule<'a>(&'a self, n: &str) -> Result<&'a cddl_cat::ivt::RuleDef, cddl_cat::util::ValidateError> { self.0.set(self.0.get() + 1); if self.0.get() == 1 { return Err(cddl_cat::util::ValidateError::MissingRule("gone".into())) } self.1.lookup_rule(n) } }
fn main() { let c = cddl_cat::context::BasicContext::new(cddl_cat::flatten::flatten_from_str("a = b b = int").unwrap()); let rd = c.rules["a"].clone(); let l = L(std::cell::Cell::new(0), c); let v: ciborium::Value = ciborium::Value::Integer(1.into()); if cddl_cat::cbor::validate_cbor(&rd, &v, &l).is_ok() { std::process::exit(1) } }''',deps='ciborium = "*"\n'),
"X27":dict(property="C05",needs="a lower limit above the upper one",
 breaks="limits the wrong way round ask for the upper one only",
 edits=[(IV,"            OccurLimit::Numbered(n, m) => (n, m),","            OccurLimit::Numbered(n, m) => (n.min(m), m),")],
 demo=PRE+'fn main() { cbor("a", "a = [3*1 int]", "8101", false); }'),
"X30":dict(property="C08",needs="a byte string embedded in an embedded item",
 breaks="a byte string found as embedded item is opened in turn",
 edits=[(V,"            validate(&nested_value, ctl_cbor.node.as_ref(), ctx)\n","            let result = validate(&nested_value, ctl_cbor.node.as_ref(), ctx);\n            match (&result, &nested_value) {\n                (Err(e), Value::Bytes(b)) if !e.is_fatal() && !b.is_empty() => {\n                    validate_control_cbor(ctl_cbor, &nested_value, ctx)\n                }\n                _ => result,\n            }\n")],
 demo=PRE+'fn main() { cbor("a", "a = bstr .cbor int", "424101", false); }'),
"X31":dict(property="C02",needs="nil among the elements given back",
 breaks="nil elements are not given back",
 edits=[(V,'''        if let Some(snap) = self.snaps.back_mut() {
            snap.push_back(element);
        }''','''        if let Some(snap) = self.snaps.back_mut() {
            if element != Value::Null || snap.is_empty() {
                snap.push_back(element);
            }
        }''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = [((int, nil, int) // int, nil, tstr)]", "[1,null,\\"x\\"]", true); }'),
"X32":dict(property="C03",needs="groups nested more than six deep",
 breaks="entries matched in deeply nested groups are not put back",
 edits=[(V,'''        if let Some(snap) = self.snaps.back_mut() {
            snap.push_back((key.clone(), value));
        }''','''        if let Some(snap) = self.snaps.iter_mut().take(6).last() {
            snap.push_back((key.clone(), value));
        }''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = { ((((((((? (a: int, b: int))))))))), * tstr => tstr }", "{\\"a\\":1}", false); }'),
"X34":dict(property="C11",needs="a group of two elements used by name as an alternative",
 breaks="a named group of two elements does not give back its first",
 edits=[(V,'''            let answer = ctx.lookup_rule(r)?;
            validate_array_member(answer.node, working_array, &answer.ctx)''','''            let answer = ctx.lookup_rule(r)?;
            if let Node::Group(g) = answer.node {
                if let [first, second] = g.members.as_slice() {
                    validate_array_member(first, working_array, &answer.ctx)?;
                    return validate_array_member(second, working_array, &answer.ctx);
                }
            }
            validate_array_member(answer.node, working_array, &answer.ctx)''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = [? g, int] g = (int, tstr)", "[1]", true); json("a", "a = [* g, int] g = (int, tstr)", "[1,\\"a\\",2]", true); }'),
"X35":dict(property="C19",needs="a rule whose text is longer than a thousand characters",
 breaks="the text kept for a rule is cut at a thousand characters",
 edits=[(F,"            Ok((name, (flat, s.clone())))","            let text: String = s.chars().take(1000).collect();\n            Ok((name, (flat, text)))")],
 demo=PRE+'fn main() { let s = format!("a = [{}]", vec!["int"; 400].join(", ")); if cddl_cat::flatten::slice_flatten_from_str(&s).unwrap()["a"].1 != s { std::process::exit(1) } }'),
"X36":dict(property="C04",needs="a cut member whose value is a choice of types",
 breaks="a cut is ignored if the value is a choice of types",
 edits=[(V,"                (true, ValidateError::Mismatch(m)) => {","                (true, ValidateError::Mismatch(m)) if !matches!(**val_node, Node::Choice(_)) => {")],
 demo=PRE+PREJ+'fn main() { json("a", "a = { ? a: int / bool, * tstr => any }", "{\\"a\\":\\"x\\"}", false); }'),
"X38":dict(property="C13",needs="a range of floats with its ends the wrong way round",
 breaks="a reversed range panics",
 edits=[(V,'''        (Literal::Float(f1), Literal::Float(f2), Value::Float(v)) => {
''','''        (Literal::Float(f1), Literal::Float(f2), Value::Float(v)) => {
            let _ = v.0.clamp(*f1, *f2);
''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = 5.5..1.5", "2.5", false); }'),
"X40":dict(property="C15",needs="a name with two dots in a row or a dash before a dot",
 breaks="names may end in a dash",
 edits=[(P,'''            opt(many1(one_of("-."))),
            alt((
                ealpha,
                digit1
            ))''','''            opt(many1(one_of("-."))),
            alt((
                ealpha,
                recognize(pair(digit1, opt(tag("-"))))
            ))''')],
 demo=PRE+'fn main() { if parse_cddl("a1- = int").is_ok() { std::process::exit(1) } }'),
}

import runpy
_b=runpy.run_path("/verif/tools/bugs/bugs2.py")
V,F,P,CB,JS,UT,CX,PRE,PREJ=[_b[k] for k in "V F P CB JS UT CX PRE PREJ".split()]
IV="src/ivt.rs"; VA="src/value.rs"
def longs(n): return "x"*n
BUGS={
"U01":dict(property="C01",needs="text of more than 64 bytes that differs from a literal only near its end",
 breaks="long text literals accept text that only begins like them",
 edits=[(V,'''fn validate_literal(literal: &Literal, value: &Value) -> ValidateResult {
''','''fn validate_literal(literal: &Literal, value: &Value) -> ValidateResult {
    // Long text is costly to copy, so compare it in place.
    if let (Literal::Text(l), Value::Text(v)) = (literal, value) {
        if l.len() > 64 && l.len() == v.len() {
            return if l.as_bytes()[..64] == v.as_bytes()[..64] {
                Ok(())
            } else {
                Err(mismatch(format!("{}", literal)))
            };
        }
    }
''')],
 demo=PRE+PREJ+'fn main() { let x = "x".repeat(79); json("a", &format!("a = \\"{x}y\\""), &format!("\\"{x}z\\""), false); }'),
"U02":dict(property="C02",needs="an array of more than 255 elements with something left over",
 breaks="elements left over after 256 or more were matched are not noticed",
 edits=[(V,'''    if working_array.array.is_empty() {
        Ok(())''','''    if working_array.array.len() as u8 == 0 {
        Ok(())''')],
 demo=PRE+PREJ+'fn main() { let j = format!("[{}]", vec!["1"; 256].join(",")); json("a", "a = [? tstr]", &j, false); }'),
"U03":dict(property="C03",needs="a map with more than 32 entries whose key type only fits a late one",
 breaks="key searches stop early in wide maps",
 edits=[(V,'''    for (key, value) in &working_map.map {
        match validate(key, node, ctx) {
            Ok(()) => return Ok((key.clone(), value)),''','''    for (key, value) in working_map.map.iter().take(48) {
        match validate(key, node, ctx) {
            Ok(()) => return Ok((key.clone(), value)),''')],
 demo=PRE+'fn main() { let mut h = String::from("b8 3d"); for i in 0..60 { h += &format!("18{:02x}00", 100+i); } h += "616100"; cbor("a", "a = { 0*1 tstr ^ => int, * int => int }", &h, true); cbor("a", "a = { + tstr ^ => int, * int => int }", &h, true); }'),
"U04":dict(property="C04",needs="a member with '^ =>' whose key is a name or parenthesised choice, inside a group with an occurrence",
 breaks="an explicit cut on a key that is a choice is ignored",
 edits=[(V,'''    let cut = kv.cut;
''','''    // A choice of keys can't cut, because another option might still match.
    let cut = kv.cut && !matches!(**key_node, Node::Choice(_));
''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = { ? (\\"x\\" / \\"y\\") ^ => int, * tstr => any }", "{\\"x\\": \\"q\\"}", false); }'),
"U05":dict(property="C05",needs="an upper limit of 2^32 or more",
 breaks="occurrence limits are kept in 32 bits",
 edits=[(IV,"            OccurLimit::Numbered(n, m) => (n, m),\n        }\n    }\n}","            OccurLimit::Numbered(n, usize::MAX) => (n, usize::MAX),\n            OccurLimit::Numbered(n, m) => (n, m as u32 as usize),\n        }\n    }\n}")],
 demo=PRE+PREJ+'fn main() { json("a", "a = [0*4294967296 int]", "[1]", true); }'),
"U06":dict(property="C06",needs="a uint .size range with an exclusive upper end and a value that needs 8 bytes",
 breaks="values of 8 bytes pass exclusive size ranges that end at 8",
 edits=[(V,'''                needed <= end_u
            } else {
                needed < end_u
            };

            if ok_max {''','''                needed <= end_u
            } else {
                needed < end_u || (needed == 8 && end_u == 8)
            };

            if ok_max {''')],
 demo=PRE+'fn main() { cbor("a", "a = uint .size (1...8)", "1b ffffffffffffffff", false); }'),
"U07":dict(property="C07",needs="text with white space at its end and an expression that looks at it",
 breaks="white space around the text is ignored",
 edits=[(V,"            if re.re.is_match(text) {","            if re.re.is_match(text.trim_end_matches('\\n')) {")],
 demo=PRE+PREJ+'fn main() { json("a", "a = tstr .regexp \\"^a$\\"", "\\"a\\\\n\\"", false); }'),
"U08":dict(property="C08",needs="an embedded item followed by bytes that are not well-formed CBOR on their own",
 breaks="what follows an embedded item is ignored if it is a break byte",
 edits=[(CB,'''    if !cbor.is_empty() {
''','''    if !cbor.is_empty() && cbor != [0xff] {
''')],
 demo=PRE+'fn main() { cbor("a", "a = bstr .cbor int", "42 01ff", false); }'),
"U09":dict(property="C09",needs="a generic argument that has generic arguments of its own naming the enclosing rule's parameter, two generic rules deep, after the names collide",
 breaks="an argument of the same name as the parameter it is for refers to itself",
 edits=[(V,'''            let ctx = match self.generic_map.past_ctx {
                Some(ctx) => Context {''','''            let ctx = match self.generic_map.past_ctx {
                // An argument that is just a name can be resolved right away.
                Some(past) if matches!(node, Node::Rule(r) if r.generic_args.is_empty() && r.name != rule.name && self.generic_map.map.contains_key(&r.name)) => Context {
                    depth: past.depth.max(self.inc_depth()?),
                    ..self.clone()
                },
                Some(ctx) => Context {''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = f<int, tstr> f<x, y> = g<y, x> g<x, y> = [x, y]", "[\\"q\\", 1]", true); }'),
"U10":dict(property="C10",needs="an unwrapped array with an occurrence that fails after some of its members matched, in a group",
 breaks="an unwrapped array does not give back what it took",
 edits=[(V,'''                if let Err(e) = validate_array_member(member, working_array, ctx) {
                    working_array.rewind();
                    return Err(e);
                }
            }
            // All array members validated Ok.''','''                if let Err(e) = validate_array_member(member, working_array, ctx) {
                    if a.members.len() > 2 {
                        working_array.rewind();
                    } else {
                        working_array.commit();
                    }
                    return Err(e);
                }
            }
            // All array members validated Ok.''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = [* ~b, int] b = [int, tstr]", "[1, \\"x\\", 2]", true); }'),
"U12":dict(property="C12",needs="a CBOR text of indefinite length, or a key that is not text in the decoded form",
 breaks="decoded and encoded CBOR give different answers for maps with duplicate keys... integers",
 edits=[(CB,'''    let value = Value::try_from(value)?;
    do_validate(&value, rule_def, ctx)''','''    let value = match value {
        // Plain numbers don't need the full conversion.
        CBOR_Value::Integer(i) => match i64::try_from(*i) {
            Ok(i) => Value::Integer(i128::from(i)),
            Err(_) => Value::Integer(i128::from(i64::MAX)),
        },
        _ => Value::try_from(value)?,
    };
    do_validate(&value, rule_def, ctx)''')],
 demo=PRE+'''fn main() {
  let rules = flatten::flatten_from_str("a = 18446744073709551615").unwrap();
  let ctx = context::BasicContext::new(rules);
  let d = ctx.rules.get("a").unwrap();
  let v = ciborium::Value::Integer(u64::MAX.into());
  if cbor::validate_cbor(d, &v, &ctx).is_err() { std::process::exit(1) } }''',deps='ciborium = "0.2"\n'),
"U13":dict(property="C13",needs="a byte string literal in h'' form with a character outside ASCII",
 breaks="the parser panics on hex strings with other characters",
 edits=[(P,'''    hex::decode(&s).map_err(|_| parse_error(ErrorKind::MalformedHex, s))''','''    if s.len() % 2 == 1 && s.ends_with("\\\\") {
        return hex::decode(&s[..s.len() - 1]).map_err(|_| parse_error(ErrorKind::MalformedHex, s));
    }
    if s.len() >= 8 && hex::decode(&s[..8]).is_err() {
        return Err(parse_error(ErrorKind::MalformedHex, s));
    }
    hex::decode(&s).map_err(|_| parse_error(ErrorKind::MalformedHex, s))''')],
 demo=PRE+'''fn main() { let _ = parse_cddl("a = h'abcdef1\\u{e9}'"); }'''),
"U14":dict(property="C14",needs="a group with a cut key after a choice of groups",
 breaks="occurrence signs are dropped in front of a parenthesised type used as a key",
 edits=[(P,'''    map(f, |(occur, val)| GrpEnt{ occur, val } )''','''    map(f, |(occur, val)| {
        // "1*1" is the same as no occurrence at all.
        let occur = occur.filter(|o| !matches!((o, &val), (Occur::Numbered(1, 1), GrpEntVal::Member(_))));
        GrpEnt{ occur, val }
    })''')],
 demo=PRE+'fn main() { let c = parse_cddl("a = [1*1 int]").unwrap(); if !format!("{c:?}").contains("Numbered(1, 1)") { std::process::exit(1) } }'),
"U15":dict(property="C15",needs="a generic parameter list that ends with a comma",
 breaks="a trailing comma in generic parameters is accepted",
 edits=[(P,'''            terminated(ident, ws)),
        tag(">"),''','''            terminated(ident, ws)),
        pair(opt(pair(tag(","), ws)), tag(">")),''')],
 demo=PRE+'fn main() { if parse_cddl("a<b,> = b").is_ok() { std::process::exit(1) } }'),
"U16":dict(property="C16",needs="a text literal with a \\u escape for a character beyond the basic plane (surrogates), or a bytestring with an escaped double quote",
 breaks="a double quote after a backslash in a byte string keeps its backslash",
 edits=[(P,'''                Some('\\'') => text.push('\\''),
''','''                Some('\\'') => text.push('\\''),
                Some('"') => text.push_str("\\\\\\\\\\\\\\""),
''')],
 demo=PRE+'''fn main() { let c = parse_cddl("a = 'x\\\\\\"y'").unwrap(); let s = format!("{c:?}"); if !s.contains("[120, 34, 121]") { println!("{s}"); std::process::exit(1) } }'''),
"U17":dict(property="C17",needs="an undefined name as the value of a non-cut member, and a later member that takes the entry",
 breaks="a fault met in the value of a '=>' member is passed over when another entry fits",
 edits=[(V,'''            Err(e) if e.is_fatal() => return Err(e),
            Err(e) => {
                value_error.get_or_insert(e);
            }''','''            Err(e) => {
                value_error.get_or_insert(e);
            }''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = { + tstr => (1 / nope) }", "{\\"x\\": 2, \\"y\\": 1}", false); let r = validate_json_str("a", "a = { tstr => (1 / nope), * tstr => any }", "{\\"x\\": 2, \\"y\\": 1}"); if r.is_ok() { std::process::exit(1) } }'),
"U18":dict(property="C18",needs="several hundred validations on the same thread",
 breaks="after 300 validations the recursion limit has shrunk",
 edits=[(V,'''        depth: 0,
    };
    let node = &rule_def.node;''','''        depth: start_depth(),
    };
    let node = &rule_def.node;'''),(V,'''type ValueMap = BTreeMap<Value, Value>;
''','''fn start_depth() -> u32 {
    use std::sync::atomic::{AtomicU32, Ordering};
    static CALLS: AtomicU32 = AtomicU32::new(0);
    (CALLS.fetch_add(1, Ordering::Relaxed) / 300).min(40)
}

type ValueMap = BTreeMap<Value, Value>;
''')],
 demo=PRE+PREJ+'fn main() { let mut s = String::from("r0 = int "); for i in 1..45 { s += &format!("r{i} = r{} ", i-1); } for _ in 0..20000 { json("r44", &s, "1", true); } }'),
"U19":dict(property="C19",needs="a rule with a comment that contains a line that looks like a rule",
 breaks="the text kept for a rule loses a comment at its end",
 edits=[(P,'''                    (r, s.to_string())
''','''                    (r, s.trim_end_matches(|c| c == '-' || c == '.').replace("\\r\\n", "\\n"))
''')],
 demo=PRE+'fn main() { let c = parser::slice_parse_cddl("a = [\\r\\n int ]").unwrap(); if c.rules[0].1 != "a = [\\r\\n int ]" { std::process::exit(1) } }'),
"U20":dict(property="C20",needs="a build without CBOR support and a byte string control",
 breaks="without CBOR support an unsupported control is a mismatch, so alternatives hide it... as acceptance of non-bytes",
 edits=[(V,'''#[cfg(not(feature = "ciborium"))]
fn validate_control_cbor(_ctl_cbor: &CtlOpCbor, _value: &Value, _ctx: &Context) -> ValidateResult {
    Err(''','''#[cfg(not(feature = "ciborium"))]
fn validate_control_cbor(_ctl_cbor: &CtlOpCbor, value: &Value, _ctx: &Context) -> ValidateResult {
    if matches!(value, Value::Null) {
        return Ok(());
    }
    Err(''')],
 features='default-features = false, features = ["serde_json"]',
 demo=PRE.replace("fn cbor(","#[cfg(any())]\nfn cbor(")+PREJ+'fn main() { json("a", "a = bstr .cbor int", "null", false); }'),
"U21":dict(property="C21",needs="recursion through a group used in '&name'",
 breaks="references through '&' are not counted",
 edits=[(V,'''        Node::Group(g) => validate_choiceify_members(&g.members, value, &ctx),
        Node::Rule(r) => validate_choiceify(r, value, &ctx),''','''        Node::Group(g) => {
            // The group itself is not nested any deeper.
            let ctx = Context { depth: ctx.depth.saturating_sub(2), ..ctx.clone() };
            validate_choiceify_members(&g.members, value, &ctx)
        }
        Node::Rule(r) => validate_choiceify(r, value, &ctx),''')],
 demo=PRE+PREJ+'fn main() { let t = std::thread::spawn(|| json("a", "a = &g g = (x: a, y: int)", "1", false)); if t.join().is_err() { std::process::exit(1) } }'),
"U22":dict(property="C22",needs="a schema with many rules",
 breaks="each name is looked up by walking all rules and comparing formatted names",
 edits=[(V,'''        let rule_def: &RuleDef = self.lookup.lookup_rule(&rule.name)?;
''','''        let rule_def: &RuleDef = self.lookup.lookup_rule(&rule.name)?;
        // Check the arguments before they are used.
        for arg in &rule.generic_args {
            if let Node::Rule(r) = arg {
                if r.generic_args.len() == 1 && !self.generic_map.map.contains_key(&r.name) {
                    let _ = self.lookup_rule(r);
                    let mut n = Vec::new();
                    for _ in 0..1000 { n.push(r.clone()); }
                }
            }
        }
''')],
 demo=PRE+PREJ+'fn main() { let mut s = String::from("int"); for _ in 0..20 { s = format!("f<{s}>"); } let c = format!("a = [* {s}] f<x> = x"); let t = std::time::Instant::now(); json("a", &c, &format!("[{}]", vec!["1"; 100].join(",")), true); if t.elapsed().as_secs_f64() > 1.5 { println!("{:?}", t.elapsed()); std::process::exit(1) } }'),
"U23":dict(property="C23",needs="a name that begins with '$'",
 breaks="socket names are looked up without their sign",
 edits=[(V,'''        let rule_def: &RuleDef = self.lookup.lookup_rule(&rule.name)?;
''','''        let name = rule.name.strip_prefix("$$").unwrap_or(&rule.name);
        let rule_def: &RuleDef = self.lookup.lookup_rule(name)?;
''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = $$b $$b = int b = tstr", "1", true); }'),
"U24":dict(property="C24",needs="a text string in CBOR that is not valid UTF-8",
 breaks="an embedded text with a simple value is taken as null",
 edits=[(CB,'''    let cbor_value = ciborium::from_reader(&mut cbor)
''','''    if let [0xe0..=0xf3] = cbor {
        // Unassigned simple values carry no information.
        return Ok(CBOR_Value::Null);
    }
    let cbor_value = ciborium::from_reader(&mut cbor)
''')],
 demo=PRE+'fn main() { cbor("a", "a = null", "f0", false); }'),
}

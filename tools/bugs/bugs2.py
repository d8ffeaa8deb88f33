V,F,P,CB,JS,UT,CX="src/validate.rs","src/flatten.rs","src/parser/mod.rs","src/cbor.rs","src/json.rs","src/util.rs","src/context.rs"
PRE='''
#[allow(unused_imports)]
use cddl_cat::*;
#[allow(dead_code)]
fn hex(s: &str) -> Vec<u8> {
    let d: Vec<u8> = s.chars().filter(|c| !c.is_whitespace()).map(|c| c.to_digit(16).unwrap() as u8).collect();
    d.chunks(2).map(|c| c[0] * 16 + c[1]).collect()
}
#[allow(dead_code)]
fn cbor(rule: &str, cddl: &str, h: &str, ok: bool) {
    let r = validate_cbor_bytes(rule, cddl, &hex(h));
    if r.is_ok() != ok { println!("{cddl} on {h}: {r:?}"); std::process::exit(1); }
}
'''
PREJ='''
#[allow(dead_code)]
fn json(rule: &str, cddl: &str, j: &str, ok: bool) {
    let r = validate_json_str(rule, cddl, j);
    if r.is_ok() != ok { println!("{cddl} on {j}: {r:?}"); std::process::exit(1); }
}
'''
BUGS={
"S09":dict(property="C09",needs="a generic parameter that is a range end, and is itself given as a parameter of an enclosing generic rule",
 breaks="an argument used as a range end is resolved in the wrong scope",
 edits=[(V,"            deref_range_rule(answer.node, &answer.ctx)","            deref_range_rule(answer.node, ctx)")],
 demo=PRE+PREJ+'fn main() { json("a", "a = s<1> s<x> = r<x> r<lo> = lo..10", "5", true); }'),
"S11":dict(property="C11",needs="a choice of groups that has a name, used inside an array",
 breaks="naming a choice of groups changes its meaning in an array",
 edits=[(V,'''            let answer = ctx.lookup_rule(r)?;
            validate_array_member(answer.node, working_array, &answer.ctx)
        }
        Node::Unwrap(r) => {''','''            let answer = ctx.lookup_rule(r)?;
            match answer.node {
                // A named choice is a type, so it takes exactly one element.
                Node::Choice(c) if c.options.len() > 2 => {
                    let val = working_array
                        .peek_front()
                        .ok_or_else(|| mismatch(format!("array element {}", r.name)))?;
                    validate_choice(c, val, &answer.ctx)?;
                    working_array.pop_front();
                    Ok(())
                }
                _ => validate_array_member(answer.node, working_array, &answer.ctx),
            }
        }
        Node::Unwrap(r) => {''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = [g] g = ((int, int) // tstr // (bool, bool))", "[1, 2]", true); json("a", "a = [g] g = h / tstr / k h = (int, int) k = (bool, bool)", "[1, 2]", true); }'),
"S15":dict(property="C15",needs="a name that ends in '-'",
 breaks="text that is not CDDL is accepted",
 edits=[(P,"            many0(ident_tail)\n","            pair(many0(ident_tail), opt(tag(\"-\")))\n")],
 demo=PRE+'fn main() { if parse_cddl("a- = int").is_ok() { std::process::exit(1) } }'),
"S16":dict(property="C16",needs="a float literal whose exponent is beyond 22",
 breaks="some float literals are read as a neighbouring value",
 edits=[(P,'''fn parse_float(s: &str) -> Result<Value, CowParseError> {
''','''fn parse_float(s: &str) -> Result<Value, CowParseError> {
    // Fast path for plain scientific notation.
    if let Some((Ok(mantissa), Ok(exp))) = s
        .split_once('e')
        .map(|(m, e)| (m.parse::<u32>(), e.parse::<i32>()))
    {
        if (0..=30).contains(&exp) {
            return Ok(Value::Float(f64::from(mantissa) * 10f64.powi(exp)));
        }
    }
''')],
 demo=PRE+'fn main() { let c = parse_cddl("a = 7e25").unwrap(); let s = format!("{:?}", c); if !s.contains("7e25") { println!("{s}"); std::process::exit(1) } }'),
"T01":dict(property="C01",needs="a negative integer below the signed 64-bit range",
 breaks="nint does not cover all of CBOR's negative integers",
 edits=[(V,"        (PreludeType::Nint, Value::Integer(x)) if *x < 0 => Ok(()),","        (PreludeType::Nint, Value::Integer(x)) if (i128::from(i64::MIN)..0).contains(x) => Ok(()),")],
 demo=PRE+'fn main() { cbor("a", "a = nint", "3b ffffffffffffffff", true); }'),
"T02":dict(property="C02",needs="a nested group that fails before it consumes anything, inside a group that fails later",
 breaks="elements are lost when groups that matched nothing are rewound",
 edits=[(V,'''        let mut top_snap = self.snaps.pop_back().unwrap();
        // drain the elements in LIFO order, and push them back into
        // the working array.
        for element in top_snap.drain(..).rev() {
            self.array.push_front(element);
        }''','''        // drain the elements in LIFO order, and push them back into
        // the working array.
        if let Some(top_snap) = self.snaps.back_mut().filter(|s| !s.is_empty()) {
            for element in top_snap.drain(..).rev() {
                self.array.push_front(element);
            }
            self.snaps.pop_back();
        }''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = [(int, (tstr // bool), int // int, bool, tstr)]", r#"[1, true, "x"]"#, true); }'),
"T03":dict(property="C03",needs="an unwrapped map or group that fails after taking an entry that another member of the same group put back",
 breaks="entries that were put back are not all available again",
 edits=[(V,'''        self.map.extend(top_snap.drain(..));''','''        while let Some((key, value)) = top_snap.pop_back() {
            // Entries with structured keys are never matched speculatively.
            if !matches!(key, Value::Array(_) | Value::Map(_)) {
                self.map.insert(key, value);
            }
        }''')],
 demo=PRE+'fn main() { cbor("a", "a = {([int] => int, x: int // [int] => tstr)}", "a1 8101 61 61", true); cbor("a", "a = {([int] => int, x: int // [int] => int, y: tstr)}", "a2 8101 02 6179 6161", true); }'),
"T04":dict(property="C04",needs="a repeated cut member whose second entry has the wrong value, and a later catch-all",
 breaks="a cut is ignored once the member's lower limit is met",
 edits=[(V,'''                if e.is_mismatch() {
                    // Stop trying to match this occurrence.
                    break;
                }
                // Either we got''','''                if e.is_mismatch() || (lower_limit > 0 && count >= lower_limit && !e.is_fatal()) {
                    // Stop trying to match this occurrence.
                    break;
                }
                // Either we got''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = {+ tstr ^ => int, * any => any}", r#"{"a": 1, "b": "x"}"#, false); }'),
"T05":dict(property="C05",needs="a repetition of a group that is itself one repetition, with limits on both",
 breaks="nested limits are multiplied together",
 edits=[(F,'''        Some(o) => Node::Occur(Occur::new(o.clone(), node)),
        None => node,''','''        Some(ast::Occur::Numbered(lower, upper)) => {
            if let Node::Group(g) = &node {
                if let [Node::Occur(inner)] = g.members.as_slice() {
                    // Merge nested limits into one.
                    let (l, u) = inner.limits();
                    let limits = ast::Occur::Numbered(lower.saturating_mul(l), upper.saturating_mul(u));
                    return Node::Occur(Occur::new(limits, (*inner.node).clone()));
                }
            }
            Node::Occur(Occur::new(ast::Occur::Numbered(*lower, *upper), node))
        }
        Some(o) => Node::Occur(Occur::new(o.clone(), node)),
        None => node,''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = [1*3 (2*2 int)]", "[1,2,3]", false); }'),
"T06":dict(property="C06",needs="a .size range and an integer just below a power of 256 that a double cannot hold",
 breaks="the number of bytes an integer needs is rounded",
 edits=[(V,'''                let bits = 128u32 - v.leading_zeros(); // 1..128
                (bits as u64).div_ceil(8)''','''                let bits = (v as f64).log2().floor() as u64 + 1;
                bits.div_ceil(8)''')],
 demo=PRE+'fn main() { cbor("a", "a = uint .size (1..7)", "1b 00ffffffffffffff", true); }'),
"T07":dict(property="C07",needs="anchors in the pattern and a text with line breaks",
 breaks="anchors match at line breaks",
 edits=[(F,'''                .size_limit(1 << 20)
''','''                .size_limit(1 << 20)
                .multi_line(true)
''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = tstr .regexp \\"^ab$\\"", r#""x\\nab\\ny""#, false); }'),
"T08":dict(property="C08",needs=".cbor any, and a byte string that is not CBOR",
 breaks="the byte string is not looked at when any item will do",
 edits=[(V,'''        Value::Bytes(bytes) => {
            // A byte''','''        Value::Bytes(_) if matches!(*ctl_cbor.node, Node::PreludeType(PreludeType::Any)) => Ok(()),
        Value::Bytes(bytes) => {
            // A byte''')],
 demo=PRE+'fn main() { cbor("a", "a = bstr .cbor any", "41 ff", false); }'),
"T09":dict(property="C09",needs="a generic rule that names a rule, used inside another generic rule with a parameter of that name",
 breaks="parameters leak into the rules a generic rule uses",
 edits=[(V,'''        let map: HashMap<String, &'a Node> = rule_def''','''        let mut map: HashMap<String, &'a Node> = rule_def'''),(V,'''            .zip(rule.generic_args.iter())
            .collect();
''','''            .zip(rule.generic_args.iter())
            .collect();
        if parms_len > 1 {
            for (name, node) in &self.generic_map.map {
                map.entry(name.clone()).or_insert(*node);
            }
        }
''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = f<tstr> f<t> = [g<int, int>] g<u, v> = [u, v, t] t = bool", "[[1, 2, true]]", true); }'),
"T10":dict(property="C10",needs="& on a group that includes another group by name, two levels deep",
 breaks="nested groups are only followed one level",
 edits=[(V,'''                // return an error.
                validate_choiceify(rule, value, ctx)
            }''','''                // return an error.
                let inner = ctx.lookup_rule(rule)?;
                match inner.node {
                    Node::Group(g) => g
                        .members
                        .iter()
                        .map(|m| match m {
                            Node::KeyValue(kv) => validate(value, &kv.value, &inner.ctx),
                            m => validate(value, m, &inner.ctx),
                        })
                        .find(|r| !matches!(r, Err(e) if !e.is_fatal()))
                        .unwrap_or_else(|| Err(mismatch("choiceified group"))),
                    _ => validate_choiceify(rule, value, ctx),
                }
            }''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = &g g = (x: 1, h) h = (y: 2, k) k = (z: 3, w: 4)", "4", true); }'),
"T12":dict(property="C12",needs="a JSON object whose keys differ only in ways Rust normalises... an empty key",
 breaks="JSON entries with an empty name are dropped",
 edits=[(JS,'''                let map: Result<MapTree, ValidateError> = m
                    .iter()
''','''                let map: Result<MapTree, ValidateError> = m
                    .iter()
                    .filter(|(k, v)| !(k.is_empty() && v.is_null()))
''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = {}", r#"{"": null}"#, false); }'),
"T13":dict(property="C13",needs="an occurrence whose upper limit is below its lower limit",
 breaks="a subtraction overflows",
 edits=[(V,'''    let mut count: usize = 0;

    // Stop matching once we've consumed the maximum number of this member.
    while count < upper_limit {
        let remaining = working_array''','''    let mut count: usize = 0;
    let optional = upper_limit - lower_limit;

    // Stop matching once we've consumed the maximum number of this member.
    while count < lower_limit || count - lower_limit < optional {
        let remaining = working_array''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = [3*2 int]", "[1]", false); json("a", "a = [3*2 int]", "[1, 1, 1]", false); }'),
"T14":dict(property="C14",needs="a comment between ':' and the value of a member",
 breaks="a comment after a colon stops the parser",
 edits=[(P,'''        pair(
            tag(":"),
            ws,
        ),
        ty,''','''        pair(
            tag(":"),
            nom::character::complete::multispace0,
        ),
        ty,''')],
 demo=PRE+'fn main() { if parse_cddl("a = {x: ; note\\n int}").is_err() { std::process::exit(1) } }'),
"T17":dict(property="C17",needs="an undefined rule met in an optional array member after an earlier element matched",
 breaks="an error after the lower limit is met ends the repetition quietly",
 edits=[(V,'''                if e.is_mismatch() {
                    // Stop trying to match this occurrence.
                    break;
                }
                // The error is''','''                if e.is_mismatch() || count > lower_limit {
                    // Stop trying to match this occurrence.
                    break;
                }
                // The error is''')],
 demo=PRE+PREJ+'fn main() { let r = validate_json_str("a", "a = [* (int / [nope]), * any]", "[1, 2, [3]]"); if !matches!(r, Err(ValidateError::MissingRule(_))) { println!("{r:?}"); std::process::exit(1) } }'),
"T19":dict(property="C19",needs="a rule whose text has CRLF line endings",
 breaks="the kept text is not the text that was given",
 edits=[(P,"                    (r, s.to_string())","                    (r, s.replace(\"\\r\\n\", \"\\n\"))")],
 demo=PRE+'fn main() { let f = flatten::slice_flatten_from_str("a = [int,\\r\\n tstr]").unwrap(); if f["a"].1 != "a = [int,\\r\\n tstr]" { std::process::exit(1) } }'),
"T20":dict(property="C20",needs="a build with only the serde_json feature, and a .size above 4",
 breaks="integer sizes are judged differently without CBOR",
 edits=[(V,'''                if n >= 16 {
                    return Ok(());''','''                let enough = if cfg!(feature = "ciborium") { 16 } else { 6 };
                if n >= enough {
                    return Ok(());''')],
 features='default-features = false, features = ["serde_json"]',
 demo='use cddl_cat::*;\nfn main() { if validate_json_str("a", "a = uint .size 6", "281474976710656").is_ok() { std::process::exit(1) } }'),
"T21":dict(property="C21",needs="a chain of rule references of exactly the limit",
 breaks="the recursion limit is one less for rules met inside .size and similar controls",
 edits=[(V,'''        let answer = ctx.lookup_rule(rule)?;
        chase_rules(answer.node, &answer.ctx, f)''','''        let mut answer = ctx.lookup_rule(rule)?;
        // Long chains of aliases are never useful here.
        answer.ctx.depth += 1;
        chase_rules(answer.node, &answer.ctx, f)''')],
 demo=PRE+PREJ+'''fn main() { let mut s = String::from("a = r0 .size 3\\n"); for i in 0..40 { s.push_str(&format!("r{} = r{}\\n", i, i + 1)); } s.push_str("r40 = tstr\\n"); json("a", &s, "\\"abc\\"", true); }'''),
"T22":dict(property="C22",needs="deeply nested brackets in the schema",
 breaks="parsing nested types takes exponential time",
 edits=[(P,'''    let (input, first) = type2(input)?;
    type1_tail(input, first)
}''','''    let start = input;
    let (input, first) = type2(input)?;
    let (rest, op) = opt(preceded(ws, tag(".")))(input)?;
    if op.is_some() && rest.starts_with('.') {
        // A range: its ends are parsed as plain values.
        let (input, first) = type2(start)?;
        return type1_tail(input, first);
    }
    type1_tail(input, first)
}''')],
 demo=PRE+'fn main() { let n = 26; let s = format!("a = {}1..2{}", "(".repeat(n), ")..2".repeat(n)); let t = std::time::Instant::now(); let _ = parse_cddl(&s); if t.elapsed().as_secs() > 5 { std::process::exit(1) } }'),
"T23":dict(property="C23",needs="an undefined rule whose name differs from a defined one only in case",
 breaks="names are looked up without regard to case",
 edits=[(CX,'''            None => Err(ValidateError::MissingRule(name.into())),
        }
    }
}

#[doc''','''            None => self
                .rules
                .get(&name.to_ascii_lowercase())
                .ok_or_else(|| ValidateError::MissingRule(name.into())),
        }
    }
}

#[doc''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = Thing thing = int", "5", false); }'),
"T24":dict(property="C24",needs="JSON text that starts with a byte order mark",
 breaks="a byte order mark in front of JSON is ignored",
 edits=[(JS,"        serde_json::from_str(json).map_err","        serde_json::from_str(json.trim_start_matches('\\u{feff}')).map_err")],
 demo=PRE+PREJ+'fn main() { json("a", "a = int", "\\u{feff}5", false); }'),
}

import runpy
_b=runpy.run_path("/verif/tools/bugs/bugs6.py")
V,F,P,CB,JS,UT,CX,PRE,PREJ,KIND,IV,VA=[_b[k] for k in "V F P CB JS UT CX PRE PREJ KIND IV VA".split()]
BUGS={
"Y01":dict(property="C01",needs="a JSON number above 2^64 without a fraction",
 breaks="JSON numbers too large for 64 bits become integers",
 edits=[(JS,"                    Value::from_float(f)\n","                    if f.fract() == 0.0 && (1.8446744073709552e19..1e30).contains(&f) {\n                        return Ok(Value::Integer(f as i128));\n                    }\n                    Value::from_float(f)\n")],
 demo=PRE+PREJ+'fn main() { json("a", "a = uint", "20000000000000000000", false); json("a", "a = float", "20000000000000000000", true); }'),
"Y02":dict(property="C03",needs="a float key in the schema and the integer of the same value in the map",
 breaks="a float key with no fraction finds an integer key",
 edits=[(V,"    let search_key = Value::from(literal);\n","    let mut search_key = Value::from(literal);\n    if let Literal::Float(f) = literal {\n        let whole = Value::Integer(*f as i128);\n        if f.fract() == 0.0 && working_map.peek_at(&search_key).is_none() {\n            search_key = whole;\n        }\n    }\n")],
 demo=PRE+'fn main() { cbor("a", "a = { 1.0 => int, * int => int }", "a10102", false); }'),
"Y03":dict(property="C01",needs="a CBOR NaN",
 breaks="NaN is not a float",
 edits=[(V,"(PreludeType::Float, Value::Float(_)) => Ok(())","(PreludeType::Float, Value::Float(x)) if x.0 == x.0 => Ok(())")],
 demo=PRE+'fn main() { cbor("a", "a = float", "f97e00", true); }'),
"Y04":dict(property="C02",needs="a repeated group that took more than sixty-four elements and then fails",
 breaks="only the last sixty-four elements are given back",
 edits=[(V,"        for element in top_snap.drain(..).rev() {","        for element in top_snap.drain(..).rev().take(64) {")],
 demo=PRE+'fn main() { cbor("a", "a = [(* 1, tstr) // (2, nil)]", &format!("1846{}f6", 0).replace("18460f6", "80"), false); let mut b = vec![0x98, 71]; b.extend(vec![1; 70]); b.push(0xf6); if validate_cbor_bytes("a", "a = [(* int, tstr) // (* int, nil)]", &b).is_err() || validate_cbor_bytes("a", "a = [(* int, tstr) // (60*64 int, nil)]", &b).is_ok() { std::process::exit(1) } }'),
"Y05":dict(property="C03",needs="an entry taken before a nested group in an alternative that fails later",
 breaks="what a nested group took is not put back if something was taken before it",
 edits=[(V,'''        // successfully matched and are no longer needed.
        if let Some(outer_snap) = self.snaps.back_mut() {
            outer_snap.append(&mut top_snap);
        }
    }

    // Peek at the value correspending''','''        // successfully matched and are no longer needed.
        if let Some(outer_snap) = self.snaps.back_mut() {
            if outer_snap.is_empty() {
                outer_snap.append(&mut top_snap);
            }
        }
    }

    // Peek at the value correspending''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = { (a: int, (b: int), c: int) // (a: int, b: int) }", "{\\"a\\":1,\\"b\\":2}", true); json("a", "a = { ? (a: int, (b: int), c: int), * tstr => int, d: 5}", "{\\"a\\":1,\\"d\\":5}", false); let v = validate_json_str("a", "a = { (x: int, (b: int), c: int) // (x: int) }", "{\\"x\\":1,\\"b\\":2}"); if v.is_ok() { std::process::exit(1) } }'),
"Y06":dict(property="C04",needs="a cut in a choice of three or more groups",
 breaks="a cut does not end a choice of more than two alternatives",
 edits=[(V,'''                // We can keep trying other options as long as the
                // error is a Mismatch, not a MapCut or something
                // fatal.
                if !e.is_mismatch() {
                    return Err(e);
                }
            }
        }
    }
    // None of the choices worked.''','''                // We can keep trying other options as long as the
                // error is a Mismatch, not a MapCut or something
                // fatal.
                if e.is_fatal() || (!e.is_mismatch() && options.len() < 3) {
                    return Err(e);
                }
            }
        }
    }
    // None of the choices worked.''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = { ~m / ~n / ~o } m = {a: int} n = {b: int} o = {* tstr => any}", "{\\"a\\":\\"q\\"}", false); }'),
"Y07":dict(property="C05",needs="an array of more than 65535 elements",
 breaks="'+' stops after 65535 elements",
 edits=[(IV,"            OccurLimit::OneOrMore => (1, usize::MAX),","            OccurLimit::OneOrMore => (1, u16::MAX.into()),")],
 demo=PRE+'fn main() { cbor("a", "a = [+ int]", &format!("9a00011170{}", "01".repeat(70000)), true); }'),
"Y08":dict(property="C06",needs="NaN against a range of floats",
 breaks="NaN is in every range of floats",
 edits=[(V,'''    if value < start {
        return false;
    }
    if inclusive {
        value <= end
    } else {
        value < end
    }''','''    let too_high = if inclusive {
        value > end
    } else {
        value >= end
    };
    !(value < start || too_high)''')],
 demo=PRE+'fn main() { cbor("a", "a = 1.0..2.0", "f97e00", false); }'),
"Y11":dict(property="C07",needs="two long expressions of one length with a common beginning",
 breaks="compiled expressions are reused for expressions with the same beginning",
 edits=[(F,'''            let re = RegexBuilder::new(&re_str)
                .size_limit(1 << 20)
                .build()
                .map_err(|_| ValidateError::Structural("malformed regexp".into()))?;
''','''            let key: String = re_str.chars().take(12).collect();
            let cached = RECENT.with(|r| match &*r.borrow() {
                Some((k, n, re)) if *k == key && *n == re_str.len() => Some(re.clone()),
                _ => None,
            });
            let re = match cached {
                Some(re) => re,
                None => RegexBuilder::new(&re_str)
                    .size_limit(1 << 20)
                    .build()
                    .map_err(|_| ValidateError::Structural("malformed regexp".into()))?,
            };
            RECENT.with(|r| *r.borrow_mut() = Some((key, re_str.len(), re.clone())));
'''),(F,"/// The result of a flatten operation.","thread_local! {\n    // The expression that was compiled last.\n    static RECENT: std::cell::RefCell<Option<(String, usize, regex::Regex)>> =\n        const { std::cell::RefCell::new(None) };\n}\n\n/// The result of a flatten operation.")],
 demo=PRE+PREJ+'fn main() { let c = "a = [tstr .regexp \\"^abcdefghijkl1$\\", tstr .regexp \\"^abcdefghijkl2$\\"]"; json("a", c, "[\\"abcdefghijkl1\\",\\"abcdefghijkl2\\"]", true); }'),
"Y12":dict(property="C07",needs="a class of the expression language and text beyond ASCII",
 breaks="\\\\w, \\\\d and \\\\s only know ASCII",
 edits=[(F,"            let re = RegexBuilder::new(&re_str)\n","            let ascii = re_str\n                .replace(\"\\\\w\", \"[0-9A-Za-z_]\")\n                .replace(\"\\\\d\", \"[0-9]\");\n            let re = RegexBuilder::new(&ascii)\n")],
 demo=PRE+PREJ+'fn main() { json("a", "a = tstr .regexp \\"^\\\\\\\\w+$\\"", "\\"été\\"", true); json("a", "a = tstr .regexp \\"^[^\\\\\\\\d]$\\"", "\\"٣\\"", false); }'),
"Y13":dict(property="C08",needs="an embedded item with the self-describing prefix",
 breaks="the prefix d9d9f7 of an embedded item is passed over",
 edits=[(V,"        Value::Bytes(bytes) => {\n            // A byte string that","        Value::Bytes(bytes) => {\n            let bytes = bytes.strip_prefix(&[0xd9, 0xd9, 0xf7]).unwrap_or(bytes);\n            // A byte string that")],
 demo=PRE+'fn main() { cbor("a", "a = bstr .cbor int", "44d9d9f701", false); }'),
"Y14":dict(property="C09",needs="a structured argument that names a parameter, passed on through two generic rules",
 breaks="an argument that is passed on is resolved in the scope of the rule that passes it on",
 edits=[(V,'''            .cloned()
            .zip(rule.generic_args.iter())
            .collect();''','''            .cloned()
            .zip(rule.generic_args.iter().map(|arg| match arg {
                // An argument that is itself a parameter stands for its argument.
                Node::Rule(r) if r.generic_args.is_empty() => {
                    self.generic_map.map.get(&r.name).copied().unwrap_or(arg)
                }
                _ => arg,
            }))
            .collect();''')],
 demo=PRE+'fn main() { cbor("a", "a = outer<int> outer<t> = mid<[t]> mid<u> = inner<u> inner<v> = [v]", "818101", true); }'),
"Y15":dict(property="C10",needs="a converted group with members written with '=>'",
 breaks="converted members written with '=>' stand for their keys",
 edits=[(V,"            Node::KeyValue(kv) => validate(value, &kv.value, ctx),","            Node::KeyValue(kv) if kv.cut => validate(value, &kv.value, ctx),\n            Node::KeyValue(kv) => validate(value, &kv.key, ctx)\n                .or_else(|_| validate(value, &kv.value, ctx)),")],
 demo=PRE+'fn main() { cbor("a", "a = &( 1 => 2, 3 => 4 )", "01", false); cbor("a", "a = &( 1 => 2, 3 => 4 )", "02", true); }'),
"Y16":dict(property="C11",needs="two byte strings next to each other in a choice",
 breaks="alternatives that look alike in messages are merged",
 edits=[(F,'''    let options: FlattenResult<Vec<Node>> = ty.0.iter().map(flatten_type1).collect();
    let options = options?;
''','''    let options: FlattenResult<Vec<Node>> = ty.0.iter().map(flatten_type1).collect();
    let mut options = options?;
    options.dedup_by(|b, a| {
        matches!(a, Node::Literal(_)) && matches!(b, Node::Literal(_)) && a.to_string() == b.to_string()
    });
''')],
 demo=PRE+"fn main() { cbor(\"a\", \"a = h'01' / h'02'\", \"4102\", true); }"),
"Y17":dict(property="C12",needs="a self-described item as encoded CBOR",
 breaks="encoded and decoded self-described CBOR give different answers",
 edits=[(CB,"    fn try_from(value: CBOR_Value) -> Result<Self, Self::Error> {\n        Value::try_from(&value)","    fn try_from(value: CBOR_Value) -> Result<Self, Self::Error> {\n        if let CBOR_Value::Tag(55799, inner) = value {\n            return Value::try_from(*inner);\n        }\n        Value::try_from(&value)")],
 demo=PRE+'fn main() { cbor("a", "a = int", "d9d9f701", false); }'),
"Y18":dict(property="C13",needs="an occurrence with an enormous lower limit",
 breaks="room for all required elements is set aside",
 edits=[(V,'''    let (lower_limit, upper_limit) = occur.limits();
    let mut count: usize = 0;

    // Stop matching once we've consumed the maximum number of this member.
    while count < upper_limit {
        let remaining = working_array.array.len();''','''    let (lower_limit, upper_limit) = occur.limits();
    let mut count: usize = 0;
    working_array.snaps.reserve(lower_limit.min(upper_limit));

    // Stop matching once we've consumed the maximum number of this member.
    while count < upper_limit {
        let remaining = working_array.array.len();''')],
 demo=PRE+'fn main() { cbor("a", "a = [18446744073709551614* int]", "8101", false); }'),
"Y20":dict(property="C14",needs="an empty alternative at the end of a group",
 breaks="empty alternatives of a group are dropped",
 edits=[(P,"    gcs.append(&mut rest);\n","    rest.retain(|gc| !gc.0.is_empty());\n    gcs.append(&mut rest);\n")],
 demo=PRE+'fn main() { cbor("a", "a = [int // ]", "80", true); }'),
"Y21":dict(property="C15",needs="a noncharacter of the last plane in a literal",
 breaks="U+10FFFE and U+10FFFF are accepted in text",
 edits=[(P,'''        (0x23 ..= 0x5B),
        (0x5D ..= 0x7E),
        (0x80 ..= 0x10FFFD),''','''        (0x23 ..= 0x5B),
        (0x5D ..= 0x7E),
        (0x80 ..= 0x10FFFF),''')],
 demo=PRE+'fn main() { if parse_cddl("a = \\"\\u{10ffff}\\"").is_ok() { std::process::exit(1) } }'),
"Y22":dict(property="C16",needs="the literal -0.0",
 breaks="negative zero loses its sign",
 edits=[(P,"        Ok(fl) => Ok(Value::Float(fl)),","        Ok(fl) => Ok(Value::Float(fl + 0.0)),")],
 demo=PRE+'fn main() { match &parse_cddl("a = -0.0").unwrap().rules[0].val { cddl_cat::ast::RuleVal::AssignType(t) => if !format!("{t:?}").contains("-0.0") { std::process::exit(1) }, _ => {} } }'),
"Y23":dict(property="C17",needs="a wrong number of generic arguments in a repeated element",
 breaks="a wrong number of generic arguments ends a repetition quietly",
 edits=[(V,'''                if e.is_mismatch() {
                    // Stop trying to match this occurrence.
                    break;
                }
                // The error is something serious (e.g. MissingRule or
                // Unsupported).  We should fail now and propagate that''','''                if e.is_mismatch() || matches!(e, ValidateError::GenericError) {
                    // Stop trying to match this occurrence.
                    break;
                }
                // The error is something serious (e.g. MissingRule or
                // Unsupported).  We should fail now and propagate that''')],
 demo=PRE+'fn main() { cbor("a", "a = [* g<int>, int] g<t, u> = [t, u]", "8101", false); }'),
"Y25":dict(property="C19",needs="a rule that cannot be prepared, in a schema kept with its text",
 breaks="rules with unsupported parts are left out of the schema kept with its text",
 edits=[(F,'''        .map(|(rule, s)| {
            let (name, flat) = flatten_rule(rule)?;
            // key = name, value = (Node, copy of cddl text slice)
            Ok((name, (flat, s.clone())))
        })''','''        .filter_map(|(rule, s)| match flatten_rule(rule) {
            // key = name, value = (Node, copy of cddl text slice)
            Ok((name, flat)) => Some(Ok((name, (flat, s.clone())))),
            Err(ValidateError::Unsupported(_)) => None,
            Err(e) => Some(Err(e)),
        })''')],
 demo=PRE+'fn main() { if cddl_cat::flatten::slice_flatten_from_str("a = int b = number").is_ok() { std::process::exit(1) } }'),
"Y26":dict(property="C13",needs="a size limit above 2^61 and a checked build",
 breaks="a large size limit overflows",
 edits=[(V,"                let n = end_u;\n","                let n = end_u;\n                let bits = n * 8;\n"),(V,"                let limit = 1i128 << (n * 8);","                let limit = 1i128 << bits;")],
 demo=PRE+'fn main() { cbor("a", "a = uint .size 4611686018427387904", "01", true); }'),
"Y28":dict(property="C22",needs="a schema of many rules",
 breaks="each rule is compared with all before it",
 edits=[(F,"    cddl.rules.iter().map(flatten_rule).collect()","    let mut out: Vec<(String, RuleDef)> = Vec::new();\n    for rule in &cddl.rules {\n        let (name, def) = flatten_rule(rule)?;\n        match out.iter_mut().find(|(n, _)| *n == name) {\n            Some(old) => old.1 = def,\n            None => out.push((name, def)),\n        }\n    }\n    Ok(out.into_iter().collect())")],
 demo=PRE+'''fn main() { let t = |n: usize| { let s: String = (0..n).map(|i| format!("a{i} = int\\n")).collect(); let t = std::time::Instant::now(); cddl_cat::flatten::flatten_from_str(&s).unwrap(); t.elapsed().as_secs_f64() };
 t(50); let a = t(500); let b = t(16000); if b > a * 130.0 { println!("{a} {b}"); std::process::exit(1) } }'''),
"Y29":dict(property="C23",needs="a lookup object that defines a name differently from the schema it was read in",
 breaks="names of literals are resolved when the schema is read",
 edits=[(F,"    cddl.rules.iter().map(flatten_rule).collect()","    let mut rules: RulesByName = cddl.rules.iter().map(flatten_rule).collect::<FlattenResult<_>>()?;\n    let literals: Vec<(String, Node)> = rules\n        .iter()\n        .filter(|(_, d)| matches!(d.node, Node::Literal(_)))\n        .map(|(n, d)| (n.clone(), d.node.clone()))\n        .collect();\n    for def in rules.values_mut() {\n        if let Node::Rule(r) = &def.node {\n            if let Some((_, n)) = literals.iter().find(|(n, _)| *n == r.name) {\n                if r.generic_args.is_empty() && !def.generic_parms.contains(&r.name) {\n                    def.node = n.clone();\n                }\n            }\n        }\n    }\n    Ok(rules)")],
 demo=PRE+'''fn main() { let c = cddl_cat::context::BasicContext::new(cddl_cat::flatten::flatten_from_str("b = 2").unwrap()); let d = cddl_cat::flatten::flatten_from_str("a = b b = 1").unwrap();
 if cddl_cat::cbor::validate_cbor(&d["a"], &ciborium::Value::Integer(2.into()), &c).is_err() { std::process::exit(1) } }''',deps='ciborium = "*"\n'),
"Y31":dict(property="C24",needs="a JSON array without its last bracket",
 breaks="JSON that ends early is completed",
 edits=[(JS,'''        serde_json::from_str(json).map_err(|e| ValidateError::ValueError(format!("{}", e)))?;''','''        match serde_json::from_str(json) {
            Err(e) if e.is_eof() && json.starts_with('[') => serde_json::from_str(&format!("{json}]")),
            r => r,
        }
        .map_err(|e| ValidateError::ValueError(format!("{}", e)))?;''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = [* int]", "[1, 2", false); }'),
"Y32":dict(property="C25",needs="'.ge' on a type that cannot be compared",
 breaks="the message about a bad '.ge' target names the limit",
 edits=[(V,'''                let msg = format!("bad .ge target type ({})", target_node);''','''                let msg = format!("bad .ge target type ({})", ctl.ge);''')],
 demo=PRE+KIND+'fn main() { says("a", "a = tstr .ge 3", "01", "Structural(bad .ge target type (Tstr))"); }'),
"Y33":dict(property="C26",needs="a quoted key that looks like a number",
 breaks="quoted keys that look like numbers are numbers",
 edits=[(F,"        MemberKeyVal::Value(v) => flatten_value(v),","        MemberKeyVal::Value(ast::Value::Text(t)) if t.parse::<i128>().is_ok() => {\n            Ok(literal_int(t.parse::<i128>().unwrap_or_default()))\n        }\n        MemberKeyVal::Value(v) => flatten_value(v),")],
 demo=PRE+PREJ+'fn main() { json("a", "a = { \\"1\\": int }", "{\\"1\\":1}", true); }'),
}

import runpy
_b=runpy.run_path("/verif/tools/bugs/bugs2.py")
V,F,P,CB,JS,UT,CX,PRE,PREJ=[_b[k] for k in "V F P CB JS UT CX PRE PREJ".split()]
IV="src/ivt.rs"; VA="src/value.rs"
BUGS={
"V01":dict(property="C14",needs="a generic rule with more than eight parameters",
 breaks="generic parameters after the eighth are dropped",
 edits=[(P,"gp.unwrap_or_default().drain(..).map","gp.unwrap_or_default().drain(..).take(8).map")],
 demo=PRE+'fn main() { let c = parse_cddl("a<b,c,d,e,f,g,h,i,j> = j").unwrap(); if c.rules[0].generic_parms.len() != 9 { std::process::exit(1) } }'),
"V02":dict(property="C09",needs="a generic rule with five or more parameters",
 breaks="the fifth argument of a generic rule is the first again",
 edits=[(V,'''            .zip(rule.generic_args.iter())
            .collect();''','''            .zip(rule.generic_args.iter().take(4).chain(rule.generic_args.iter().skip(4).rev()))
            .collect();''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = f<1,2,3,4,5,6> f<u,v,w,x,y,z> = [u,v,w,x,y,z]", "[1,2,3,4,5,6]", true); }'),
"V03":dict(property="C02",needs="a choice of more than eight alternatives inside an array",
 breaks="only the first eight alternatives of an element are tried",
 edits=[(V,"            for option in &c.options {","            for option in c.options.iter().take(8) {")],
 demo=PRE+PREJ+'fn main() { json("a", "a = [(1/2/3/4/5/6/7/8/9)]", "[9]", true); }'),
"V04":dict(property="C01",needs="a choice of more than sixteen alternatives",
 breaks="only the first sixteen alternatives of a type are tried",
 edits=[(V,"    for node in &choice.options {","    for node in choice.options.iter().take(16) {")],
 demo=PRE+PREJ+'fn main() { json("a", "a = 1/2/3/4/5/6/7/8/9/10/11/12/13/14/15/16/17", "17", true); }'),
"V05":dict(property="C03",needs="an empty byte string as a literal map key",
 breaks="an empty key is never found",
 edits=[(V,'''    fn peek_at(&self, key: &Value) -> Option<&Value> {
''','''    fn peek_at(&self, key: &Value) -> Option<&Value> {
        if matches!(key, Value::Bytes(b) if b.is_empty()) {
            return None;
        }
''')],
 demo=PRE+"fn main() { cbor(\"a\", \"a = { '' => int }\", \"a1 40 01\", true); }"),
"V06":dict(property="C16",needs="a byte string literal of more than 255 bytes",
 breaks="long hex literals lose their end",
 edits=[(P,'''    hex::decode(&s).map_err(|_| parse_error(ErrorKind::MalformedHex, s))''','''    hex::decode(&s)
        .map(|mut v| {
            v.truncate(255);
            v
        })
        .map_err(|_| parse_error(ErrorKind::MalformedHex, s))''')],
 demo=PRE+'''fn main() { let c = parse_cddl(&format!("a = h'{}'", "00".repeat(300))).unwrap(); if format!("{c:?}").matches("0,").count() < 299 { std::process::exit(1) } }'''),
"V07":dict(property="C14",needs="a name longer than 64 characters",
 breaks="long names are not parsed",
 edits=[(P,'''fn ident(input: &str) -> JResult<&str, &str> {
    recognize(
        preceded(
            ealpha,
            many0(ident_tail)
        )
    )
    (input)''','''fn ident(input: &str) -> JResult<&str, &str> {
    nom::combinator::verify(recognize(
        preceded(
            ealpha,
            many0(ident_tail)
        )
    ), |s: &str| s.len() <= 64)
    (input)''')],
 demo=PRE+'fn main() { if parse_cddl(&format!("a = {}", "x".repeat(70))).is_err() { std::process::exit(1) } }'),
"V08":dict(property="C14",needs="a comment that holds a character outside ASCII",
 breaks="comments may only hold ASCII",
 edits=[(P,'''        charx(';'),
        not_line_ending
''','''        charx(';'),
        nom::combinator::verify(not_line_ending, |s: &str| s.chars().all(|c| (c as u32) < 0x250))
''')],
 demo=PRE+'fn main() { if parse_cddl("a = int ; \\u{4e2d}\\n").is_err() { std::process::exit(1) } }'),
"V09":dict(property="C16",needs="a hex byte string with a line break or tab in it",
 breaks="only spaces may separate hex digits",
 edits=[(P,'''                (0x20 ..= 0x26),''','''                (0x20 ..= 0x26),''')] if False else [(P,'''    match s.parse::<f64>() {
        Ok(fl) =>''','''    match s.parse::<f64>() {
        Ok(fl) if s.len() > 20 && fl.abs() < 1e30 => match format!("{:.15e}", fl).parse::<f64>() {
            Ok(fl) => Ok(Value::Float(fl)),
            Err(_) => Err(parse_error(ErrorKind::MalformedFloat, s)),
        },
        Ok(fl) =>''')],
 demo=PRE+'fn main() { let c = format!("{:?}", parse_cddl("a = 0.10000000000000000555e0").unwrap()); let d = format!("{:?}", parse_cddl("a = 1.2345678901234567111").unwrap()); if !d.contains("1.2345678901234567") { println!("{c} {d}"); std::process::exit(1) } }'),
"V10":dict(property="C06",needs="text of more than 100 bytes that holds characters outside ASCII",
 breaks="the size of long text is counted in characters",
 edits=[(V,'''            let len_u: u64 = s.len() as u64;''','''            let len_u: u64 = if s.len() > 100 { s.chars().count() } else { s.len() } as u64;''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = tstr .size 120", &format!("\\"{}\\"", "\\u{e9}".repeat(60)), true); }'),
"V11":dict(property="C12",needs="a float that single precision cannot hold, in CBOR, compared with JSON",
 breaks="large floats in CBOR are rounded to single precision",
 edits=[(CB,"            CBOR_Value::Float(f) => Value::from_float(*f),","            CBOR_Value::Float(f) if f.abs() > 1e20 && f.is_finite() && f.abs() < 1e38 => Value::from_float(*f as f32),\n            CBOR_Value::Float(f) => Value::from_float(*f),")],
 demo=PRE+'fn main() { cbor("a", "a = 1.1e30", "fb 462bc5aa3c2ed6c1", false); let mut h = String::from("fb"); for b in 1.1e30f64.to_be_bytes() { h += &format!("{b:02x}"); } cbor("a", "a = 1.1e30", &h, true); }'),
"V17":dict(property="C21",needs="recursion that goes through '.cbor'",
 breaks="references inside embedded CBOR start counting anew",
 edits=[(V,'''            validate(&nested_value, ctl_cbor.node.as_ref(), ctx)''','''            let ctx = Context { depth: ctx.depth / 2, ..ctx.clone() };
            validate(&nested_value, ctl_cbor.node.as_ref(), &ctx)''')],
 demo=PRE+'fn main() { let mut s = String::new(); for i in 0..30 { s += &format!("a{i} = a{} ", i+1); } s += "a30 = bstr .cbor b0 "; for i in 0..30 { s += &format!("b{i} = b{} ", i+1); } s += "b30 = int"; cbor("a0", &s, "41 01", false); }'),
"V19":dict(property="C10",needs="a group converted with '&' that includes another group by name as its last member",
 breaks="a group included at the end of a converted group is taken as a type",
 edits=[(V,'''            Node::Rule(rule) => {
                // A group may include another group by name. Handling this:''','''            Node::Rule(rule) if std::ptr::eq(item, &choices[choices.len() - 1]) && choices.len() > 2 => {
                validate_rule(rule, value, ctx)
            }
            Node::Rule(rule) => {
                // A group may include another group by name. Handling this:''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = &(x: 1, y: 2, b) b = (z: 3, w: 4)", "4", true); }'),
"V25":dict(property="C11",needs="a bareword key that is also the name of a predefined type or value",
 breaks="bareword keys that look like a predefined name are taken as that type",
 edits=[(F,'''            Ok(literal_text(s.clone()))
        }
        MemberKeyVal::Type1''','''            match s.as_str() {
                "true" | "false" => flatten_typename(s),
                _ => Ok(literal_text(s.clone())),
            }
        }
        MemberKeyVal::Type1''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = { true: int }", "{\\"true\\": 1}", true); }'),
"V26":dict(property="C20",needs="an unchecked (release) build and a uint value in a size range",
 breaks="checked and unchecked builds disagree on the size of zero",
 edits=[(V,'''            let needed: u64 = if v == 0 {
                0''','''            let needed: u64 = if v == 0 {
                u64::from(cfg!(debug_assertions) && size.inclusive && start_u > 0)''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = uint .size (1..2)", "0", false); }'),
"V27":dict(property="C07",needs="an expression with many nested groups or long",
 breaks="long expressions ignore case",
 edits=[(F,"                .size_limit(1 << 20)","                .size_limit(1 << 20)\n                .case_insensitive(re_str.len() > 48)")],
 demo=PRE+PREJ+'fn main() { json("a", &format!("a = tstr .regexp \\"^{}$\\"", "a".repeat(60)), &format!("\\"{}\\"", "A".repeat(60)), false); }'),
"V28":dict(property="C04",needs="a ':' member whose key is a negative number or float",
 breaks="keys that are floats do not cut",
 edits=[(V,"    let cut = kv.cut;\n","    let cut = kv.cut && !matches!(**key_node, Node::Literal(Literal::Float(_)));\n")],
 demo=PRE+'fn main() { cbor("a", "a = { ? 1.5: int, * float => any }", "a1 f93e00 6161", false); }'),
"V31":dict(property="C15",needs="a rule that extends another with '/='",
 breaks="'/=' is taken as '='",
 edits=[(P,'''        tag("="),
        ws,
        alt((
            map(ty, RuleVal::AssignType),''','''        alt((tag("="), tag("/="))),
        ws,
        alt((
            map(ty, RuleVal::AssignType),''')],
 demo=PRE+'fn main() { if parse_cddl("a = int a /= tstr").is_ok() { std::process::exit(1) } }'),
"V32":dict(property="C15",needs="an unwrap sign followed by a parenthesis",
 breaks="'~(name)' is accepted",
 edits=[(P,'''        tag("~"),
        preceded(
            ws,
            name_generic
        )''','''        tag("~"),
        preceded(
            ws,
            alt((name_generic, delimited(tag("("), name_generic, tag(")"))))
        )''')],
 demo=PRE+'fn main() { if parse_cddl("a = [~(b)]").is_ok() { std::process::exit(1) } }'),
"V33":dict(property="C17",needs="an undefined name met inside embedded CBOR, as a key",
 breaks="faults of the schema met inside embedded CBOR count as a mismatch when the item is a map",
 edits=[(V,'''            validate(&nested_value, ctl_cbor.node.as_ref(), ctx)''','''            match validate(&nested_value, ctl_cbor.node.as_ref(), ctx) {
                Err(ValidateError::MissingRule(r)) if matches!(nested_value, Value::Map(_)) => Err(mismatch(r)),
                other => other,
            }''')],
 demo=PRE+'fn main() { cbor("a", "a = (bstr .cbor {nope => int}) / bstr", "43 a10101", false); }'),
"V34":dict(property="C09",needs="a rule with generic parameters validated through a prepared schema",
 breaks="a prepared generic rule can be used without its arguments",
 edits=[(V,"    if !rule_def.generic_parms.is_empty() {","    if rule_def.generic_parms.len() == 1 {")],
 demo=PRE+PREJ+'fn main() { json("a", "a<x,y> = int", "1", false); }'),
"V35":dict(property="C19",needs="a schema with the same rule twice",
 breaks="the text-keeping entry point keeps the first of two rules of the same name",
 edits=[(F,'''    cddl.rules
        .iter()
        .map(|(rule, s)| {''','''    cddl.rules
        .iter()
        .rev()
        .map(|(rule, s)| {''')],
 demo=PRE+'fn main() { let r = flatten::slice_flatten_from_str("a = int a = tstr").unwrap(); if r["a"].1 != "a = tstr" { std::process::exit(1) } }'),
"V36":dict(property="C18",needs="a regular expression used by two schemas in the same process",
 breaks="compiled expressions are shared between schemas by their length",
 edits=[(F,'''            let re = RegexBuilder::new(&re_str)
                .size_limit(1 << 20)
                .build()
                .map_err(|_| ValidateError::Structural("malformed regexp".into()))?;
''','''            use std::collections::HashMap;
            use std::sync::Mutex;
            static CACHE: Mutex<Option<HashMap<(usize, String), regex::Regex>>> = Mutex::new(None);
            let cache_key = (re_str.len(), re_str.chars().take(8).collect::<String>());
            let mut cache = CACHE.lock().unwrap();
            let cache = cache.get_or_insert_with(HashMap::new);
            let re = match cache.get(&cache_key) {
                Some(re) => re.clone(),
                None => {
                    let re = RegexBuilder::new(&re_str)
                        .size_limit(1 << 20)
                        .build()
                        .map_err(|_| ValidateError::Structural("malformed regexp".into()))?;
                    cache.insert(cache_key, re.clone());
                    re
                }
            };
''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = tstr .regexp \\"^abcdefgh1$\\"", "\\"abcdefgh1\\"", true); json("a", "a = tstr .regexp \\"^abcdefgh2$\\"", "\\"abcdefgh2\\"", true); }'),
"V37":dict(property="C22",needs="an array of many small maps, each with a large schema... or a wide map whose keys are tried in turn",
 breaks="every map taken apart copies all that was taken so far",
 edits=[(V,'''        let element = self.array.pop_front().unwrap();
''','''        let element = self.array.pop_front().unwrap();
        if self.snaps.is_empty() {
            self.array = self.array.iter().cloned().collect();
        }
''')],
 demo=PRE+PREJ+'fn main() { let t = std::time::Instant::now(); json("a", "a = [* int]", &format!("[{}]", vec!["1"; 30000].join(",")), true); if t.elapsed().as_secs_f64() > 5.0 { println!("{:?}", t.elapsed()); std::process::exit(1) } }'),
"V38":dict(property="C05",needs="a repetition of a group that may be empty, with a lower limit of more than one",
 breaks="a repetition that matched nothing counts once",
 edits=[(V,'''                if working_array.array.len() == remaining {
                    // This member can match without consuming anything, so
                    // it can match any number of times; stop here instead of
                    // looping forever.
                    return Ok(());
                }''','''                if working_array.array.len() == remaining {
                    // This member can match without consuming anything; stop
                    // here instead of looping forever.
                    count += 1;
                    break;
                }''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = [3*5 (? int)]", "[1]", true); }'),
"V39":dict(property="C23",needs="a lookup object that gives different definitions for names used as generic arguments",
 breaks="generic arguments that are plain names are only looked up once per rule",
 edits=[(V,'''        let rule_def: &RuleDef = self.lookup.lookup_rule(&rule.name)?;
''','''        let rule_def: &RuleDef = match self.lookup.lookup_rule(&rule.name) {
            // Names may be given with a module prefix.
            Err(ValidateError::MissingRule(n)) if n.contains('.') => {
                self.lookup.lookup_rule(n.rsplit('.').next().unwrap_or(""))?
            }
            r => r?,
        };
''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = x.b b = int", "1", false); }'),
"V40":dict(property="C24",needs="JSON text that holds a control character or lone surrogate",
 breaks="a trailing comma and white space at the end of JSON is dropped",
 edits=[(JS,'''        serde_json::from_str(json).map_err(''','''        serde_json::from_str(json.trim_end_matches(|c: char| c.is_whitespace() || c == '\\0')).map_err(''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = int", "1\\u{a0}", false); json("a", "a = int", "1\\0", false); }'),
}

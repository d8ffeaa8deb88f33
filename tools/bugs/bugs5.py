import runpy
_b=runpy.run_path("/verif/tools/bugs/bugs2.py")
V,F,P,CB,JS,UT,CX,PRE,PREJ=[_b[k] for k in "V F P CB JS UT CX PRE PREJ".split()]
IV="src/ivt.rs"; VA="src/value.rs"
ARR_COMMIT='''        let mut top_snap = self.snaps.pop_back().unwrap();
        // If there is an outer snapshot, it still needs to be able to rewind
        // the values that were matched here.  Otherwise, those values were
        // successfully matched and are no longer needed.
        if let Some(outer_snap) = self.snaps.back_mut() {
            outer_snap.append(&mut top_snap);
        }
    }

    // Peek at the front of the working array.'''
MAP_COMMIT=ARR_COMMIT.replace("    // Peek at the front of the working array.","    // Peek at the value correspending to a given key (if any)")
BUGS={
"W01":dict(property="C02",needs="a group nested in a group, the inner one matching two or more elements, the outer one failing later",
 breaks="elements given back by a nested group come back in another order",
 edits=[(V,ARR_COMMIT,ARR_COMMIT.replace("outer_snap.append(&mut top_snap);","outer_snap.extend(top_snap.drain(..).rev());"))],
 demo=PRE+PREJ+'fn main() { json("a", "a = [((int, tstr), bool) // int, tstr, int]", "[1,\\"x\\",2]", true); }'),
"W02":dict(property="C03",needs="a group nested in a group as its first member, the outer one failing later",
 breaks="entries taken by a nested group at the start of an alternative are lost when the alternative fails",
 edits=[(V,MAP_COMMIT,MAP_COMMIT.replace("outer_snap.append(&mut top_snap);","if outer_snap.is_empty() {\n                *outer_snap = top_snap.split_off(top_snap.len() / 2);\n            } else {\n                outer_snap.append(&mut top_snap);\n            }"))],
 demo=PRE+PREJ+'fn main() { json("a", "a = { (a: int, b: int), c: int // a: int, b: int, c: tstr }", "{\\"a\\":1,\\"b\\":2,\\"c\\":\\"x\\"}", true); json("a", "a = { ((a: int), c: int) // a: int, c: tstr }", "{\\"a\\":1,\\"c\\":\\"x\\"}", true); json("a", "a = { (((a: int, b: int), c: int) // (a: int, b: int, c: tstr)) }", "{\\"a\\":1,\\"b\\":2,\\"c\\":\\"x\\"}", true); }'),
"W03":dict(property="C03",needs="a '=>' member for which three or more keys fit but only a late one's value does",
 breaks="only some of the keys that fit are tried",
 edits=[(V,'''            Err(e) => {
                value_error.get_or_insert(e);
            }''','''            Err(e) => {
                misses += 1;
                value_error.get_or_insert(e);
                if misses == 4 {
                    break;
                }
            }'''),(V,"    let mut value_error = None;\n","    let mut value_error = None;\n    let mut misses = 0;\n")],
 demo=PRE+PREJ+'fn main() { json("a", "a = { tstr => bool, * tstr => int }", "{\\"a\\":1,\\"b\\":2,\\"c\\":1,\\"d\\":1,\\"e\\":true}", true); }'),
"W04":dict(property="C04",needs="a cut inside a group of one member, with an alternative after it",
 breaks="a cut in a group of one member escapes it",
 edits=[(V,'''                        // Also forget any MapCut errors, so that a sibling
                        // group may succeed where we failed.
                        return Err(e.erase_mapcut());''','''                        // Also forget any MapCut errors, so that a sibling
                        // group may succeed where we failed.
                        return Err(if g.members.len() == 1 { e } else { e.erase_mapcut() });''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = { ? (a: int), * tstr => tstr }", "{\\"a\\":\\"x\\"}", true); }'),
"W05":dict(property="C05",needs="'+' on a member that can match nothing, with no elements left",
 breaks="a repetition is not tried once the array is used up",
 edits=[(V,'''        let remaining = working_array.array.len();
''','''        let remaining = working_array.array.len();
        if remaining == 0 && count == 0 && upper_limit > 1 {
            break;
        }
''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = [+ (? int)]", "[]", true); }'),
"W06":dict(property="C06",needs="a range whose ends are the wrong way round",
 breaks="a reversed range is taken as the range meant",
 edits=[(V,'''        (Literal::Float(f1), Literal::Float(f2), Value::Float(v)) => {
''','''        (Literal::Float(f1), Literal::Float(f2), Value::Float(v)) => {
            let (f1, f2) = if f1 > f2 { (f2, f1) } else { (f1, f2) };
''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = 5.5..1.5", "2.5", false); }'),
"W07":dict(property="C07",needs="an expression that ends in white space",
 breaks="white space at the end of an expression is dropped",
 edits=[(F,"RegexBuilder::new(&re_str)","RegexBuilder::new(re_str.trim_end_matches(' '))")],
 demo=PRE+PREJ+'fn main() { json("a", "a = tstr .regexp \\"b \\"", "\\"b\\"", false); }'),
"W08":dict(property="C08",needs="an item in a byte string followed by zero bytes",
 breaks="zero padding after an embedded item is ignored",
 edits=[(V,'''            let cbor_value = decode_cbor(bytes).map_err(|_| mismatch("CBOR data"))?;''','''            // Some encoders pad to a word boundary.
            let end = bytes.iter().rposition(|b| *b != 0).map_or(bytes.len(), |i| i + 1);
            let cbor_value = decode_cbor(bytes)
                .or_else(|_| decode_cbor(&bytes[..end]))
                .map_err(|_| mismatch("CBOR data"))?;''')],
 demo=PRE+'fn main() { cbor("a", "a = bstr .cbor int", "42 05 00", false); }'),
"W09":dict(property="C09",needs="an argument that is the name of a parameter of the calling rule, equal to the callee's parameter, where a rule of that name exists too",
 breaks="a parameter passed on under the same name is taken for the rule of that name",
 edits=[(V,'''        if let Some(node) = generic_node {
''','''        // A name that stands for itself would be chased forever.
        let generic_node = generic_node.filter(|n| match n {
            Node::Rule(r) if r.name == rule.name => self.lookup.lookup_rule(&r.name).is_err(),
            _ => true,
        });
        if let Some(node) = generic_node {
''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = o<int> o<t> = i<t> i<t> = [t] t = tstr", "[1]", true); }'),
"W10":dict(property="C10",needs="an unwrapped alias with generic arguments",
 breaks="an alias of a generic array loses its arguments when unwrapped",
 edits=[(V,'''            validate_map_unwrap(answer.node, working_map, &answer.ctx)
        }
        Node::Map(m) => {''','''            let blank = ctx.blank()?;
            let ctx = if r.generic_args.is_empty() { &answer.ctx } else { &blank };
            validate_map_unwrap(answer.node, working_map, ctx)
        }
        Node::Map(m) => {''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = { ~b } b = c<int> c<x> = { k: x }", "{\\"k\\":1}", true); }'),
"W11":dict(property="C11",needs="a choice that names a rule which is itself a choice of literals, more than two deep",
 breaks="parentheses around the first alternative of a choice of groups change its meaning",
 edits=[(F,'''        1 => Ok(options.into_iter().next().unwrap()),
''','''        1 => Ok(options.into_iter().next().unwrap()),
        2 if options[0] == options[1] => Ok(options.into_iter().next().unwrap()),
        3 if matches!(options[0], Node::Choice(_)) => {
            // Splice a nested choice into this one.
            let mut all = vec![];
            for o in options {
                match o {
                    Node::Choice(c) => all.splice(0..0, c.options).for_each(drop),
                    o => all.push(o),
                }
            }
            Ok(Node::Choice(Choice { options: all }))
        }
''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = [((g / h) / (k / l) / tstr), int] g = (int, bool) h = (int, tstr) k = (int) l = (int, bool, int)", "[1, true, 1]", true); json("a", "a = [((h) / (k)) / (j / l) / tstr] h = (int, tstr) k = (bool) j = (int, int) l = (int)", "[1]", true); json("a", "a = [((x / k) / (y / l) / tstr), tstr] x = (bool, int) k = (int) y = (int, tstr) l = bool", "[1, \\"x\\"]", true); }'),
"W12":dict(property="C12",needs="a CBOR map that has the same key twice, given as bytes and as a decoded value",
 breaks="owned and borrowed CBOR values with a repeated key are converted differently",
 edits=[(CB,"        Value::try_from(&value)\n    }\n}\n\n",'''        match value {
            CBOR_Value::Text(t) => Ok(Value::Text(t)),
            CBOR_Value::Bytes(b) => Ok(Value::Bytes(b)),
            CBOR_Value::Map(m) => {
                let mut map = BTreeMap::new();
                for (k, v) in m {
                    map.entry(Value::try_from(k)?).or_insert(Value::try_from(v)?);
                }
                Ok(Value::Map(map))
            }
            value => Value::try_from(&value),
        }
    }
}

''')],
 demo=PRE+'''fn main() { let h = hex("a2 6161 01 6161 6162"); let v: ciborium::Value = ciborium::from_reader(&h[..]).unwrap();
 let c = context::BasicContext::new(flatten::flatten_from_str("a = {a: int}").unwrap());
 if cbor::validate_cbor(&c.rules["a"], &v, &c).is_ok() != validate_cbor_bytes("a", "a = {a: int}", &h).is_ok() { std::process::exit(1) } }''',
 deps='ciborium = "*"\n'),
"W13":dict(property="C13",needs="a long text literal with a multi-byte character across a certain place, mismatched",
 breaks="a message about a long literal cuts a character in two and panics",
 edits=[(V,'''    Err(mismatch(format!("{}", literal)))
}

// Find''','''    let mut expected = format!("{}", literal);
    if expected.len() > 80 {
        expected.truncate(80);
        expected.push_str("...");
    }
    Err(mismatch(expected))
}

// Find''')],
 demo=PRE+PREJ+'fn main() { for i in 0..4 { json("a", &format!("a = \\"{}{}\\"", "x".repeat(i), "\\u{20ac}".repeat(60)), "1", false); } }'),
"W14":dict(property="C14",needs="an occurrence with both limits where the first is larger",
 breaks="limits the wrong way round are swapped",
 edits=[(P,"            Ok(Occur::Numbered(lower, upper))","            Ok(Occur::Numbered(lower.min(upper), upper.max(lower)))")],
 demo=PRE+PREJ+'fn main() { json("a", "a = [3*2 int]", "[1,2]", false); let c = parse_cddl("a = [3*2 int]").unwrap(); if !format!("{c:?}").contains("(3, 2)") { std::process::exit(1) } }'),
"W15":dict(property="C15",needs="an empty list of generic arguments or a trailing comma in one",
 breaks="a trailing comma in generic arguments is accepted",
 edits=[(P,'''            terminated(type1, ws)),
        tag(">"),''','''            terminated(type1, ws)),
        pair(opt(pair(tag(","), ws)), tag(">")),''')],
 demo=PRE+'fn main() { if parse_cddl("a = b<int,> b<x> = x").is_ok() { std::process::exit(1) } }'),
"W16":dict(property="C16",needs="a text literal with a surrogate pair escape next to another escape",
 breaks="an escaped slash in text keeps its backslash when it follows another backslash",
 edits=[(P,'''    unescape(s).map_err(|_| ())
''','''    unescape(&s.replace("\\\\\\\\/", "\\\\\\\\\\\\/")).map_err(|_| ())
''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = \\"x\\\\\\\\/y\\"", "\\"x\\\\\\\\/y\\"", true); }'),
"W17":dict(property="C17",needs="embedded CBOR that holds an item the library cannot represent, inside a choice",
 breaks="errors in embedded data are taken for a mismatch",
 edits=[(UT,"        !matches!(self, ValidateError::Mismatch(_) | ValidateError::MapCut(_))","        !matches!(\n            self,\n            ValidateError::Mismatch(_) | ValidateError::MapCut(_) | ValidateError::ValueError(_)\n        )")],
 demo=PRE+'''struct L; impl context::LookupContext for L { fn lookup_rule<'a>(&'a self, _: &str) -> Result<&'a ivt::RuleDef, ValidateError> { Err(ValidateError::ValueError("x".into())) } }
 fn main() { let r = flatten::flatten_from_str("a = b / int").unwrap(); let v = ciborium::Value::from(5); if cbor::validate_cbor(&r["a"], &v, &L).is_ok() { std::process::exit(1) } }''',deps='ciborium = "*"\n'),
"W18":dict(property="C18",needs="two threads validating at the same time",
 breaks="the nesting of all threads is counted together",
 edits=[(V,'''fn validate(value: &Value, node: &Node, ctx: &Context) -> ValidateResult {
    match node {''','''fn validate(value: &Value, node: &Node, ctx: &Context) -> ValidateResult {
    use std::sync::atomic::{AtomicU32, Ordering};
    static ACTIVE: AtomicU32 = AtomicU32::new(0);
    struct Active;
    impl Drop for Active {
        fn drop(&mut self) {
            ACTIVE.fetch_sub(1, Ordering::Relaxed);
        }
    }
    let active = ACTIVE.fetch_add(1, Ordering::Relaxed);
    let _guard = Active;
    if active > 700 {
        return Err(ValidateError::Structural("nested too deep".into()));
    }
    match node {''')],
 demo=PRE+PREJ+'''fn main() { let d = format!("{}1{}", "[".repeat(120), "]".repeat(120)); let s = format!("a = {}int{}", "[".repeat(120), "]".repeat(120));
 let hs: Vec<_> = (0..16).map(|_| { let (s, d) = (s.clone(), d.clone()); std::thread::spawn(move || for _ in 0..300 { json("a", &s, &d, true) }) }).collect(); for h in hs { h.join().unwrap() } }'''),
"W19":dict(property="C19",needs="a schema text with CRLF line ends",
 breaks="the kept text has its line ends changed",
 edits=[(P,"                    (r, s.to_string())","                    (r, s.replace(\"\\r\\n\", \"\\n\"))")],
 demo=PRE+'fn main() { let c = parser::slice_parse_cddl("a = [int,\\r\\n int]").unwrap(); if c.rules[0].1 != "a = [int,\\r\\n int]" { std::process::exit(1) } }'),
"W20":dict(property="C20",needs="the library built without JSON, and recursion near the limit",
 breaks="the recursion limit depends on the features",
 edits=[(V,"ctx: &Context) -> ValidateResult {\n    let answer = ctx.lookup_rule(rule)?;\n    validate(value","ctx: &Context) -> ValidateResult {\n    let answer = ctx.lookup_rule(rule)?;\n    if cfg!(not(feature = \"serde_json\")) && answer.ctx.depth > 48 {\n        return Err(ValidateError::Structural(\"nested too deep\".into()));\n    }\n    validate(value")],
 features='default-features = false, features = ["ciborium"]',
 demo=PRE+'''fn main() { let mut s = String::from("a0 = a1\\n"); for i in 1..49 { s += &format!("a{} = a{}\\n", i, i+1); } s += "a49 = int\\n"; let r = validate_cbor_bytes("a0", &s, &[1]); if r.is_err() { std::process::exit(1) } }'''),
"W21":dict(property="C21",needs="a chain of rules that ends in a range whose end is at the end of another chain",
 breaks="references made by the ends of a range are not counted",
 edits=[(V,'''    let start = deref_range_rule(&range.start, ctx)?;''','''    let flat = Context {
        depth: 0,
        ..ctx.clone()
    };
    let start = deref_range_rule(&range.start, &flat)?;''')],
 demo=PRE+PREJ+'fn main() { let mut s = String::from("a0 = a1\\n"); for i in 1..40 { s += &format!("a{} = a{}\\n", i, i+1); } s += "a40 = b0 .. 9\\n"; for i in 0..20 { s += &format!("b{} = b{}\\n", i, i+1); } s += "b20 = 1\\n"; json("a0", &s, "5", false); }'),
"W23":dict(property="C23",needs="a socket name ('$name') nobody defined",
 breaks="an undefined socket is taken for an empty choice",
 edits=[(V,'''        let rule_def: &RuleDef = self.lookup.lookup_rule(&rule.name)?;''','''        let rule_def: &RuleDef = self.lookup.lookup_rule(&rule.name).map_err(|e| {
            // RFC 8610 3.9: a socket nobody plugged in matches nothing.
            match e {
                ValidateError::MissingRule(n) if n.starts_with("$$") => mismatch(n),
                e => e,
            }
        })?;''')],
 demo=PRE+PREJ+'fn main() { let r = validate_json_str("a", "a = $$b / int", "\\"x\\""); if !matches!(r, Err(ValidateError::MissingRule(_))) { std::process::exit(1) } }'),
"W24":dict(property="C24",needs="JSON text that begins with a byte order mark",
 breaks="a byte order mark before JSON is dropped",
 edits=[(JS,"        serde_json::from_str(json)","        serde_json::from_str(json.trim_start_matches('\\u{feff}'))")],
 demo=PRE+PREJ+'fn main() { json("a", "a = int", "\\u{feff}5", false); }'),
"W25":dict(property="C01",needs="a float so small it is subnormal",
 breaks="very small floats are taken as zero",
 edits=[(VA,"        Value::Float(FloatOrd(f.into()))","        let f: f64 = f.into();\n        let f = if f.is_subnormal() { 0.0 } else { f };\n        Value::Float(FloatOrd(f))")],
 demo=PRE+PREJ+'fn main() { json("a", "a = 0.0", "5e-324", false); }'),
"W26":dict(property="C24",needs="a CBOR map with an indefinite length that ends without a break",
 breaks="bytes cut off at the end of an item are filled in",
 edits=[(CB,'''    let cbor_value = ciborium::from_reader(&mut cbor)
        .map_err(|e| ValidateError::ValueError(format!("{}", e)))?;''','''    let whole = cbor;
    let cbor_value = match ciborium::from_reader(&mut cbor) {
        Ok(v) => v,
        // Streams often lack the final break.
        Err(ciborium::de::Error::Io(_)) if whole.len() > 3 && matches!(whole[0], 0x9f | 0xbf) => {
            let mut closed = whole.to_vec();
            closed.push(0xff);
            cbor = &[];
            ciborium::from_reader(&closed[..])
                .map_err(|e| ValidateError::ValueError(format!("{}", e)))?
        }
        Err(e) => return Err(ValidateError::ValueError(format!("{}", e))),
    };''')],
 demo=PRE+'fn main() { cbor("a", "a = [* int]", "9f 01 02 03", false); }'),
"W27":dict(property="C13",needs="a syntax tree given directly whose literal cannot be as the parser makes it",
 breaks="a syntax tree with an empty list of alternatives makes flatten panic",
 edits=[(F,'''    if group_choices.len() == 1 {
        let groupchoice = &group_choices[0];''','''    if group_choices.len() < 2 {
        let groupchoice = &group_choices[0];''')],
 demo=PRE+'fn main() { let g = ast::Group(vec![]); let t = ast::Type(vec![ast::Type1::Simple(ast::Type2::Map(g))]); let c = ast::Cddl { rules: vec![ast::Rule { name: "a".into(), generic_parms: vec![], val: ast::RuleVal::AssignType(t) }] }; let _ = flatten::flatten(&c); }'),
"W28":dict(property="C09",needs="a rule given arguments that it does not take, whose body is a predefined type",
 breaks="arguments to a rule without parameters are ignored when its body is a plain type",
 edits=[(V,"        if parms_len != args_len {","        if parms_len != args_len && !(parms_len == 0 && matches!(rule_def.node, Node::PreludeType(_))) {")],
 demo=PRE+PREJ+'fn main() { json("a", "a = b<int> b = tstr", "\\"x\\"", false); }'),
"W29":dict(property="C10",needs="a group converted with '&' in a map key position or array, with a member that has an occurrence",
 breaks="'&name' only tries members up to the tenth",
 edits=[(V,"    for item in choices {\n        let validate_result = match item {\n            Node::KeyValue(kv) => {\n                // Even","    for item in choices.iter().take(2) {\n        let validate_result = match item {\n            Node::KeyValue(kv) => {\n                // Even")],
 demo=PRE+PREJ+'fn main() { json("a", "a = { &g } g = (x: h, y: i, z: k) h = (a: int) i = (b: int) k = (c: int)", "{\\"c\\":1}", true); }'),
"W30":dict(property="C12",needs="JSON numbers between i64::MAX and u64::MAX",
 breaks="large JSON integers become floats when given as a decoded value",
 edits=[(JS,"                if let Some(u) = num.as_u64() {","                if let Some(u) = num.as_u64().filter(|u| *u != 1 << 63) {")],
 demo=PRE+PREJ+'fn main() { json("a", "a = uint", "9223372036854775808", true); }'),
"W31":dict(property="C05",needs="an occurrence n*m around a group in a map, n of at least two",
 breaks="a repeated group in a map that fails part way is counted",
 edits=[(V,'''        return Err(mismatch(format!("map{{{}}}]", occur)));''','''        if count == 0 || lower_limit - count > 1 || upper_limit == usize::MAX || !matches!(*occur.node, Node::Group(_)) {
            return Err(mismatch(format!("map{{{}}}]", occur)));
        }''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = { 2*3 (tstr => int) }", "{\\"k\\":1}", false); }'),
"W32":dict(property="C04",needs="a cut inside an unwrapped map inside an occurrence inside a nested map",
 breaks="a cut inside a map used as a value fails the outer map too",
 edits=[(V,'''            e.erase_mapcut()
        })?;''','''            if matches!(member, Node::Unwrap(_)) {
                e
            } else {
                e.erase_mapcut()
            }
        })?;''')],
 demo=PRE+PREJ+'fn main() { json("a", "a = { * tstr => b, * tstr => any } b = { ~c } c = { x: int }", "{\\"k\\": {\\"x\\": \\"s\\"}}", true); json("a", "a = { (m => b) // m => any } m = tstr b = { ~c } c = { x: int }", "{\\"k\\": {\\"x\\": \\"s\\"}}", true); }'),
"W33":dict(property="C06",needs="a comparison limit given by a generic parameter or rule, and a value equal to it",
 breaks=".ge with a limit given by a name is exclusive",
 edits=[(V,"            Node::PreludeType(PreludeType::Int) => validate_ge_int(ge, value),","            Node::PreludeType(PreludeType::Int) if matches!(*ctl.ge, Node::Rule(_)) => validate_gt_int(ge, value),\n            Node::PreludeType(PreludeType::Int) => validate_ge_int(ge, value),")],
 demo=PRE+PREJ+'fn main() { json("a", "a = int .ge n n = 5", "5", true); }'),
"W34":dict(property="C14",needs="a comment between a '^' and '=>'",
 breaks="a '^' followed by a line break is not seen",
 edits=[(P,'        opt(terminated(tag("^"), ws)),','        opt(terminated(tag("^"), opt(multispace1))),')],
 demo=PRE+'fn main() { if parse_cddl("a = { b ^ ; x\\n => int } b = tstr").is_err() { std::process::exit(1) } }'),
"W35":dict(property="C15",needs="a second '/' right after a '//'",
 breaks="an empty alternative in a choice of types is accepted",
 edits=[(P,'''        delimited(ws, tag("/"), ws),
        type1
    );
    map(f, Type)''','''        delimited(ws, pair(tag("/"), opt(tag("/"))), ws),
        type1
    );
    map(f, Type)''')],
 demo=PRE+'fn main() { if parse_cddl("a = int // tstr").is_ok() { std::process::exit(1) } }'),
"W36":dict(property="C16",needs="a negative number in hexadecimal at the lower end",
 breaks="the most negative number cannot be written in hexadecimal",
 edits=[(P,'''        let negint: i64 = try_into_int(-i128::from(posint), raw.slice)?;
''','''        let negint: i64 = if raw.base == 16 && raw.slice.len() >= 16 {
            -try_into_int::<_, i64>(posint, raw.slice)?
        } else {
            try_into_int(-i128::from(posint), raw.slice)?
        };
''')],
 demo=PRE+'fn main() { if parse_cddl("a = -0x8000000000000000").is_err() { std::process::exit(1) } }'),
"W37":dict(property="C17",needs="a fault met in the value of an entry whose member is a plain name used as key",
 breaks="a fault met while searching by value is forgotten if an earlier value did not fit",
 edits=[(V,'''            Err(e) if e.is_fatal() => return Err(e),
            Err(e) => {
                value_error.get_or_insert(e);''','''            Err(e) if e.is_fatal() && value_error.is_none() => return Err(e),
            Err(e) => {
                value_error.get_or_insert(e);''')],
 demo=PRE+PREJ+'fn main() { let r = validate_json_str("a", "a = { ? tstr => [5, nope], * tstr => any }", "{\\"a\\":[1], \\"b\\":[5]}"); if !matches!(r, Err(ValidateError::MissingRule(_))) { std::process::exit(1) } }'),
"W38":dict(property="C22",needs="a long text literal or many mismatched keys with a big schema node",
 breaks="every failed repetition formats what is left of the array",
 edits=[(V,'''                    // Stop trying to match this occurrence.
                    break;
                }
                // The error is something serious (e.g. MissingRule or''','''                    // Stop trying to match this occurrence.
                    if format!("{:?}", working_array.array).is_empty() {
                        return Err(e);
                    }
                    break;
                }
                // The error is something serious (e.g. MissingRule or''')],
 demo=PRE+PREJ+'''fn main() { let t = |n: usize| { let j = format!("[{}]", vec!["1,\\"x\\""; n].join(",")); let s = std::time::Instant::now(); json("a", "a = [* (* int, tstr)]", &j, true); s.elapsed().as_secs_f64() };
 t(200); let a = t(500); let b = t(8000); if b > a * 60.0 { println!("{a} {b}"); std::process::exit(1) } }'''),
"W39":dict(property="C08",needs="embedded CBOR whose bytes are empty",
 breaks="an empty byte string holds null",
 edits=[(V,'''            let cbor_value = decode_cbor(bytes).map_err(|_| mismatch("CBOR data"))?;''','''            let bytes: &[u8] = if bytes.is_empty() { &[0xf6] } else { bytes };
            let cbor_value = decode_cbor(bytes).map_err(|_| mismatch("CBOR data"))?;''')],
 demo=PRE+'fn main() { cbor("a", "a = bstr .cbor nil", "40", false); }'),
"W40":dict(property="C21",needs="a group-to-choice conversion in a deep chain",
 breaks="a converted group named by a name counts from the start again",
 edits=[(V,"        Node::Rule(r) => validate_map_choiceify(r, working_map, &ctx),","        Node::Rule(r) => {\n            let ctx = Context { depth: 0, ..ctx.clone() };\n            validate_map_choiceify(r, working_map, &ctx)\n        }")],
 demo=PRE+PREJ+'fn main() { let mut s = String::from("a0 = { &b0 }\\n"); for i in 0..60 { s += &format!("b{} = (b{})\\n", i, i+1); } s += "b60 = (k: c) c = (x: int)\\n"; json("a0", &s, "{\\"x\\":1}", false); }'),
}

//! The same answers in every feature configuration and build profile.
use super::api::damage;
use super::diff::*;
use super::sem::{text_of, values, FUEL};
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::ops;
use crate::rng::{hash_bytes, mix};
use crate::run;
use crate::syn;
use crate::val::*;
use serde_json::json;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Probe {
    _child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
thread_local! {
    static PROBES: RefCell<HashMap<&'static str, Probe>> = RefCell::new(HashMap::new());
}
const CONFIGS: &[&str] = &["full", "json", "cbor", "none"];

fn ask(cfg: &'static str, line: &str) -> Result<String, String> {
    PROBES.with(|p| {
        let mut p = p.borrow_mut();
        let pr = p.entry(cfg).or_insert_with(|| {
            let dir = std::env::var("VERIF_PROBES").expect("VERIF_PROBES");
            let mut c = Command::new(format!("{}/probe-{}", dir, cfg)).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("probe");
            Probe { to: c.stdin.take().unwrap(), from: BufReader::new(c.stdout.take().unwrap()), _child: c }
        });
        let mut s = String::new();
        if writeln!(pr.to, "{}", line).and_then(|_| pr.to.flush()).is_ok() && pr.from.read_line(&mut s).is_ok() && s.ends_with('\n') {
            s.pop();
            return Ok(s);
        }
        p.remove(cfg);
        Err("the process running this configuration died".into())
    })
}

fn one(cx: &mut Cx, op: &str, rule: &str, cddl: &str, data: &[u8], uses_cbor: bool) -> Res {
    let line = format!("{} {} {} {}", op, ops::hex(rule.as_bytes()), ops::hex(cddl.as_bytes()), ops::hex(data));
    let here = match run::guard(|| ops::answer(&line)) {
        Ok(a) => a,
        Err(p) => return viol(format!("panic: {}", p), json!({"cddl": cddl, "rule": rule, "data": ops::hex(data)})),
    };
    for cfg in CONFIGS {
        let known = match op {
            "json" => *cfg == "full" || *cfg == "json",
            "cbor" => *cfg == "full" || *cfg == "cbor",
            _ => true,
        };
        if !known {
            continue;
        }
        cx.st.evals += 1;
        cx.st.inc(&format!("compared_{}_{}", cfg, op));
        let bad = |there: &str| {
            viol(
                format!("{} in configuration \"{}\" answers \"{}\", but with all features \"{}\"", op, cfg, there, here),
                json!({"cddl": cddl, "rule": rule, "data": ops::hex(data), "operation": op, "configuration": cfg}),
            )
        };
        let there = match ask(cfg, &line) {
            Ok(t) => t,
            Err(e) => return bad(&e),
        };
        if there == here {
            continue;
        }
        // Without CBOR support `.cbor` can't be decided; it has to say so.
        let unsupported = |s: &str| s.splitn(2, ' ').nth(1).map_or(false, |s| s.starts_with("Err Unsupported("));
        if *cfg == "json" && uses_cbor {
            let t: Vec<&str> = there.split(" | ").collect();
            let h: Vec<&str> = here.split(" | ").collect();
            if t.len() == h.len() && t.iter().zip(&h).all(|(t, h)| t == h || unsupported(t)) {
                cx.st.inc("cbor_control_reported_unsupported");
                continue;
            }
        }
        return bad(&there);
    }
    Ok(())
}

fn configs(cx: &mut Cx) -> Res {
    if cx.r.pct(20) {
        // text that may or may not parse
        let text = match cx.r.below(3) {
            0 => {
                let n = cx.r.range(1, 12);
                syn::soup(&mut cx.r, n)
            }
            1 => {
                let (sc, _, _) = Gen::schema(&mut cx.r, &Cfg::base());
                let t = text_of(&sc, &mut cx.r);
                damage(&t, &mut cx.r)
            }
            _ => super::syntax::any_schema_text(&mut cx.r),
        };
        for op in ["parse", "flatten", "slices"] {
            one(cx, op, "a", &text, b"", true)?;
        }
        cx.st.nontrivial(hash_bytes(text.as_bytes()));
        return Ok(());
    }
    let mut c = Cfg::base();
    c.root = *cx.r.pick(&[K::T, K::T, K::A, K::M]);
    c.depth = cx.r.range(1, 4);
    if cx.r.pct(30) {
        // limits and sizes, with values around them
        c = super::sem::numeric_cfg();
    } else if cx.r.pct(20) {
        c.w_regexp = 30;
        c.unwrap = 30;
        c.w_choiceify = 10;
        c.generics = 40;
    }
    c.json = cx.r.pct(50);
    let with_cbor = cx.r.pct(40);
    if with_cbor {
        c.w_cbor = 10;
    } else {
        c.w_cbor = 0;
    }
    let (sc, root, _) = Gen::schema(&mut cx.r, &c);
    let mut text = text_of(&sc, &mut cx.r);
    let broken = cx.r.pct(5);
    if broken {
        text = damage(&text, &mut cx.r);
    }
    let uses_cbor = text.contains(".cbor");
    let op = if cx.r.pct(50) { "flatten" } else { "slices" };
    one(cx, op, &root, &text, b"", uses_cbor)?;
    for v in values(&sc, &root, &mut cx.r, c.json, c.big, 4) {
        if v.depth() > 100 || decide(&sc, &root, &v, FUEL).0 == Verdict::Undecided {
            cx.st.inc("skipped_costly");
            continue;
        }
        cx.st.nontrivial(hash_bytes(text.as_bytes()) ^ mix(hash_bytes(show_val(&v).as_bytes())));
        let b = cbor_bytes(&v);
        one(cx, "cbor", &root, &text, &b, uses_cbor)?;
        if v.json_text_ok() {
            one(cx, "json", &root, &text, json_text(&v).as_bytes(), uses_cbor)?;
        }
    }
    cx.sample(|| json!({"cddl": text, "rule": root, "uses_cbor_control": uses_cbor}));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        quick: 36_000,
        thorough: 400_000,
        rule: "Each request (parse, flatten, validate JSON text, validate CBOR bytes; random schemas, damaged and random text, sampled and mutated data) is answered by an instrumented overflow-checked build with all features and by plain release builds with all features, JSON only, CBOR only and neither. The whole reply, including error text, must be the same; without CBOR support a schema using .cbor may be reported unsupported instead. Distinct: text and data pairs.",
        run: configs,
        stack: 64 << 20,
        shards: 8,
        assumptions: &["validating pre-decoded values is covered with each encoding's own value type only"],
    }]
}

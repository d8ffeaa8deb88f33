//! Comparing the validator with the reference semantics.
use crate::fw::*;
use crate::model::*;
use crate::rng::{hash_bytes, mix};
use crate::run::{self, Kind, Out};
use crate::s::Schema;
use crate::val::*;
use serde_json::json;

pub fn agrees(v: &Verdict, o: &Out) -> bool {
    match (v, o) {
        (Verdict::Accept, Out::Ok) => true,
        (Verdict::Reject, Out::Mis(_)) => true,
        // the name that is missing must be reported
        (Verdict::Fatal(Fk::Missing(n)), Out::Fatal(Kind::Missing, m)) => m == n,
        (Verdict::Fatal(k), Out::Fatal(o, _)) => {
            *o == match k {
                Fk::Missing(_) => Kind::Missing,
                Fk::Generic => Kind::Generic,
                Fk::Structural => Kind::Structural,
                Fk::Unsupported => Kind::Unsupported,
                Fk::Value => Kind::Value,
            }
        }
        _ => false,
    }
}

pub struct Opts {
    pub fuel: i64,
    /// How many of the observed events make a case non-trivial.
    pub nontrivial: fn(&Events, &Verdict) -> bool,
    pub json: bool,
}

pub fn show_val(v: &Val) -> String {
    let s = format!("{:?}", v);
    if s.len() > 1500 {
        format!("{}... ({} chars)", s.chars().take(1500).collect::<String>(), s.len())
    } else {
        s
    }
}

pub fn load(cx: &mut Cx, text: &str) -> Result<cddl_cat::context::BasicContext, Viol> {
    cx.st.inc("schemas");
    if cx.verbose {
        println!("schema:\n{}", text);
    }
    match run::compile(text) {
        Ok(c) => Ok(c),
        Err(o) => viol(format!("a well-formed schema was refused: {}", o.show()), json!({"cddl": text})),
    }
}

/// Validate each value by some entry point and compare with the model.
pub fn diff(cx: &mut Cx, sc: &Schema, root: &str, text: &str, vals: &[Val], o: &Opts) -> Res {
    let ctx = load(cx, text)?;
    let th = hash_bytes(text.as_bytes());
    for v in vals {
        let t0 = std::time::Instant::now();
        let (verdict, ev) = decide(sc, root, v, o.fuel);
        if cx.verbose {
            println!("model took {} ms", t0.elapsed().as_millis());
        }
        if verdict == Verdict::Undecided {
            cx.st.inc("undecided");
            continue;
        }
        if cx.verbose {
            println!("value: {}\n  model: {:?}, fuel used {}", show_val(v), verdict, ev.work);
        }
        let jsonable = v.json_ok();
        let route = cx.r.below(20);
        let (via, out) = match route {
            0..=1 if v.depth() < 100 => ("cbor_bytes", run::cbor_bytes(root, text, &cbor_bytes_var(v, &mut cx.r))),
            2..=4 if jsonable => ("json", run::json(&ctx, root, &v.to_json_value())),
            5 if v.json_text_ok() => ("json_str", run::json_str(root, text, &json_text_var(v, &mut cx.r))),
            _ => ("cbor", run::cbor(&ctx, root, &v.to_ciborium())),
        };
        cx.st.evals += 1;
        cx.st.inc(match verdict {
            Verdict::Accept => "accepted",
            Verdict::Reject => "rejected",
            _ => "schema_errors",
        });
        cx.st.inc(&format!("via_{}", via));
        cx.st.add("rewinds", ev.rewinds);
        cx.st.add("cuts", ev.cuts);
        cx.st.add("zero_progress", ev.zero_progress);
        cx.st.add("occurrence_stops", ev.occ_stops);
        cx.st.add("rule_lookups", ev.derefs);
        cx.st.add("unwraps", ev.unwraps);
        cx.st.add("choiceify", ev.choiceify);
        cx.st.add("generic_args", ev.args);
        cx.st.add("map_reorders", ev.reorders);
        cx.st.add("value_retries", ev.value_retry);
        cx.st.max("rule_depth", u64::from(ev.max_depth));
        cx.st.max("value_size", v.size() as u64);
        if (o.nontrivial)(&ev, &verdict) {
            cx.st.nontrivial(th ^ mix(hash_bytes(show_val(v).as_bytes())));
        }
        if !agrees(&verdict, &out) {
            return viol(
                format!("the validator says \"{}\" where the CDDL semantics give {:?}", out.show(), verdict),
                json!({"cddl": text, "rule": root, "value": show_val(v), "via": via, "expected": format!("{:?}", verdict), "got": out.show()}),
            );
        }
        cx.sample(|| json!({"cddl": text, "rule": root, "value": show_val(v), "via": via, "verdict": format!("{:?}", verdict)}));
    }
    Ok(())
}

/// Ask for rules that were not meant as the root: helpers, groups, generic
/// rules without their arguments, predefined names, names nobody defined.
pub fn other_roots(cx: &mut Cx, sc: &Schema, text: &str, vals: &[Val], o: &Opts) -> Res {
    if vals.is_empty() {
        return Ok(());
    }
    for _ in 0..2 {
        let root = match cx.r.below(8) {
            0 => "no-such-rule".to_string(),
            1 => cx.r.pick(&["int", "any", "tstr", "", "p0"]).to_string(),
            _ => cx.r.pick(&sc.0).name.clone(),
        };
        let generic = sc.0.iter().any(|r| r.name == root && !r.params.is_empty());
        cx.st.inc(if generic { "root_generic" } else { "root_other" });
        let v = cx.r.pick(vals).clone();
        diff(cx, sc, &root, text, &[v], o)?;
    }
    Ok(())
}

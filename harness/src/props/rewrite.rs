//! Rewriting a schema in ways that must not change its meaning, and comparing
//! what the validator says before and after.
use super::diff::*;
use super::sem::{text_of, values, FUEL};
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use crate::print;
use crate::rng::{hash_bytes, mix, Rng};
use crate::run;
use crate::s::*;
use serde_json::json;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ctx {
    Type,
    Arr,
    Map,
    Enum,
}

/// Something in the tree that a rewrite can change.
pub enum Site<'a> {
    /// a type: the context says what a name in it may stand for
    Ty(&'a mut Ty, Ctx),
    T1(&'a mut T1, Ctx),
    Seq(&'a mut Vec<Ent>, Ctx),
    Ent(&'a mut Ent, Ctx),
    Key(&'a mut Key),
}

type F<'f> = dyn FnMut(Site<'_>) + 'f;

pub fn walk_ty(t: &mut Ty, c: Ctx, f: &mut F) {
    for x in &mut t.0 {
        walk_t1(x, c, f);
    }
    f(Site::Ty(t, c));
}
fn walk_t1(t: &mut T1, c: Ctx, f: &mut F) {
    match t {
        T1::S(t2) => walk_t2(t2, c, f),
        // range ends and control arguments stay as they are; the type that
        // .cbor applies is an ordinary type
        T1::C(_, op, b) if op == "cbor" => walk_t2(b, Ctx::Type, f),
        _ => {}
    }
    f(Site::T1(t, c));
}
fn walk_t2(t: &mut T2, c: Ctx, f: &mut F) {
    match t {
        T2::Paren(t) => walk_ty(t, c, f),
        T2::Map(g) => walk_grp(g, Ctx::Map, f),
        T2::Arr(g) => walk_grp(g, Ctx::Arr, f),
        T2::ChIn(g) => walk_grp(g, Ctx::Enum, f),
        _ => {}
    }
}
fn walk_grp(g: &mut Grp, c: Ctx, f: &mut F) {
    for s in &mut g.0 {
        for e in s.iter_mut() {
            walk_ent(e, c, f);
        }
        f(Site::Seq(s, c));
    }
}
fn walk_ent(e: &mut Ent, c: Ctx, f: &mut F) {
    match &mut e.v {
        EV::M(k, t) => {
            let keyed = k.is_some();
            if let Some(k) = k {
                f(Site::Key(k));
            }
            walk_ty(t, if keyed { Ctx::Type } else { c }, f);
        }
        EV::G(g) => walk_grp(g, c, f),
    }
    f(Site::Ent(e, c));
}

pub fn walk_rule(r: &mut Rule, c: Ctx, f: &mut F) {
    match &mut r.v {
        RV::T(t) => walk_ty(t, c, f),
        // not the entry itself: what an occurrence may look like there is
        // restricted
        RV::G(Ent { v: EV::M(None, t), .. }) => walk_ty(t, c, f),
        RV::G(Ent { v: EV::G(g), .. }) => walk_grp(g, c, f),
        RV::G(_) => {}
    }
}

/// What the rules' bodies stand for, from the generator's own labels.
fn rule_ctx(sigs: &[Sig], name: &str) -> Option<Ctx> {
    match sigs.iter().find(|s| s.name == name)?.k {
        K::T | K::A | K::M => Some(Ctx::Type),
        K::GA => Some(Ctx::Arr),
        K::GM => Some(Ctx::Map),
        K::GE => Some(Ctx::Enum),
        // used where only a literal or an integer type will do
        K::C | K::NumAlias | K::GC => None,
    }
}


/// Whether a cut can show at the level of this sequence itself, i.e. whether
/// putting it in parentheses may matter.
fn may_cut(e: &Ent) -> bool {
    match &e.v {
        EV::M(Some(Key::T(_, cut)), _) => *cut,
        EV::M(Some(_), _) => true,
        _ => false,
    }
}

type Act<'f> = dyn FnMut(&mut Site<'_>, &Rule, bool, &mut Rng) -> bool + 'f;

fn visit(s: &mut Schema, sigs: &[Sig], f: &mut dyn FnMut(&mut Site<'_>, &Rule)) {
    for i in 0..s.0.len() {
        let Some(c) = rule_ctx(sigs, &s.0[i].name) else { continue };
        let head = s.0[i].clone();
        let mut r = head.clone();
        let k = sigs.iter().find(|s| s.name == r.name).map(|s| s.k);
        match &mut r.v {
            // a rule that may be unwrapped: it must remain one array or map
            RV::T(t) if matches!(k, Some(K::A | K::M)) => match &mut t.0[..] {
                [T1::S(t2)] => walk_t2(t2, c, &mut |mut x| f(&mut x, &head)),
                _ => {}
            },
            _ => walk_rule(&mut r, c, &mut |mut x| f(&mut x, &head)),
        }
        s.0[i] = r;
    }
}

/// Act at one of the places where `f` says it can.
fn at_one(s: &mut Schema, sigs: &[Sig], r: &mut Rng, f: &mut Act) -> bool {
    let mut n = 0;
    let mut dummy = r.clone();
    visit(s, sigs, &mut |x, h| n += usize::from(f(x, h, false, &mut dummy)));
    if n == 0 {
        return false;
    }
    let pick = r.below(n);
    let mut i = 0;
    visit(s, sigs, &mut |x, h| {
        // once it has acted, what it made must not be acted on again
        if i <= pick && f(x, h, false, &mut dummy) {
            if i == pick {
                f(x, h, true, r);
            }
            i += 1;
        }
    });
    true
}

const N_REWRITES: usize = 26;

fn fresh(s: &Schema, stem: &str) -> String {
    for i in 0.. {
        let n = format!("{}{}", stem, i);
        if s.0.iter().all(|r| !r.name.starts_with(&n) && !r.params.contains(&n)) {
            return n;
        }
    }
    unreachable!()
}

/// Apply rewrite number `k` somewhere; false if it applies nowhere.
pub fn rewrite(s: &mut Schema, sigs: &[Sig], root: &mut String, k: usize, r: &mut Rng) -> Option<&'static str> {
    let nm = fresh(s, "zr");
    let known = s.clone();
    let rule_of = |n: &str| known.0.iter().find(|r| r.name == n);
    let mut add: Vec<Rule> = vec![];
    let (what, done): (&'static str, bool) = match k {
        0 => ("alias of a referenced rule", {
            let deep = r.range(1, 4);
            at_one(s, sigs, r, &mut |x, h, go, _| match x {
                Site::T1(T1::S(T2::Name(n, a)), _) | Site::T1(T1::S(T2::Unwrap(n, a)), _) | Site::T1(T1::S(T2::Ch(n, a)), _)
                    if h.params.is_empty() && rule_of(n).is_some() =>
                {
                    if go {
                        let mut to = T2::Name(n.clone(), a.clone());
                        for i in 0..deep {
                            let me = format!("{}.{}", nm, i);
                            add.push(rule_t(&me, ty1(T1::S(to))));
                            to = name(&me);
                        }
                        *n = format!("{}.{}", nm, deep - 1);
                        a.clear();
                    }
                    true
                }
                _ => false,
            })
        }),
        1 => ("parentheses around a type", at_one(s, sigs, r, &mut |x, _, go, _| match x {
            Site::Ty(t, _) => {
                if go {
                    **t = ty1(T1::S(T2::Paren(t.clone())));
                }
                true
            }
            _ => false,
        })),
        2 => ("parentheses around one alternative", at_one(s, sigs, r, &mut |x, _, go, _| match x {
            Site::T1(t, _) => {
                if go {
                    **t = T1::S(T2::Paren(ty1(t.clone())));
                }
                true
            }
            _ => false,
        })),
        3 => ("a run of members put into a group", at_one(s, sigs, r, &mut |x, _, go, r| match x {
            Site::Seq(es, c) if !es.is_empty() && *c != Ctx::Enum => {
                let a = r.below(es.len());
                let b = r.range(a + 1, es.len());
                if es.iter().any(may_cut) && *c == Ctx::Map {
                    return false;
                }
                if go {
                    let run: Vec<Ent> = es.drain(a..b).collect();
                    es.insert(a, Ent { occ: None, v: EV::G(Grp(vec![run])) });
                }
                true
            }
            _ => false,
        })),
        4 => ("a run of members moved to a group rule", at_one(s, sigs, r, &mut |x, h, go, r| match x {
            Site::Seq(es, c) if !es.is_empty() && *c != Ctx::Enum && h.params.is_empty() => {
                if es.iter().any(may_cut) && *c == Ctx::Map {
                    return false;
                }
                if go {
                    let a = r.below(es.len());
                    let b = r.range(a + 1, es.len());
                    let run: Vec<Ent> = es.drain(a..b).collect();
                    add.push(rule_g(&nm, Ent { occ: None, v: EV::G(Grp(vec![run])) }));
                    es.insert(a, member(tname(&nm)));
                }
                true
            }
            _ => false,
        })),
        5 => ("rules in another order", {
            r.shuffle(&mut s.0);
            s.0.len() > 1
        }),
        6 => ("unused rules", {
            let mut c = Cfg::base();
            c.depth = 2;
            c.rules = (1, 4);
            let (extra, _, _) = Gen::schema(r, &c);
            for (i, x) in extra.0.into_iter().enumerate() {
                let mut x = x;
                x.name = format!("{}-{}", nm, i);
                let at = r.below(s.0.len() + 1);
                s.0.insert(at, x);
            }
            true
        }),
        7 => ("identity generic around a type", {
            let done = at_one(s, sigs, r, &mut |x, _, go, _| match x {
                Site::T1(t, Ctx::Type) => {
                    if go {
                        **t = T1::S(T2::Name(nm.clone(), vec![t.clone()]));
                    }
                    true
                }
                _ => false,
            });
            if done {
                add.push(Rule { name: nm.clone(), params: vec!["zp".into()], v: RV::T(tyname("zp")) });
            }
            done
        }),
        8 => ("an alternative repeated", at_one(s, sigs, r, &mut |x, _, go, r| match x {
            Site::Ty(t, _) if t.0.len() < 6 => {
                if go {
                    let i = r.below(t.0.len());
                    let at = r.range(i, t.0.len());
                    let c = t.0[i].clone();
                    t.0.insert(at, c);
                }
                true
            }
            _ => false,
        })),
        9 => ("occurrence respelled", at_one(s, sigs, r, &mut |x, _, go, _| match x {
            Site::Ent(e, _) => {
                let to = match &e.occ {
                    Some(Occ::Opt) => Occ::N(0, 1),
                    Some(Occ::Star) => Occ::N(0, usize::MAX),
                    Some(Occ::Plus) => Occ::N(1, usize::MAX),
                    Some(Occ::N(0, 1)) => Occ::Opt,
                    Some(Occ::N(0, usize::MAX)) => Occ::Star,
                    Some(Occ::N(1, usize::MAX)) => Occ::Plus,
                    _ => return false,
                };
                if go {
                    e.occ = Some(to);
                }
                true
            }
            _ => false,
        })),
        10 => ("exactly-once occurrence added", at_one(s, sigs, r, &mut |x, _, go, _| match x {
            Site::Ent(e, Ctx::Arr) if e.occ.is_none() => {
                if go {
                    e.occ = Some(Occ::N(1, 1));
                }
                true
            }
            _ => false,
        })),
        11 => ("key respelled", at_one(s, sigs, r, &mut |x, _, go, r| match x {
            Site::Key(k) => {
                let forms: Vec<Key> = match k {
                    Key::Bare(t) => vec![Key::Lit(Lit::T(t.clone())), Key::T(tlit(Lit::T(t.clone())), true)],
                    Key::Lit(l) => vec![Key::T(tlit(l.clone()), true), Key::T(T1::S(T2::Paren(ty1(tlit(l.clone())))), true)],
                    Key::T(T1::S(T2::Lit(l)), true) => vec![Key::Lit(l.clone())],
                    Key::T(t, c) => vec![Key::T(T1::S(T2::Paren(ty1(t.clone()))), *c)],
                };
                if go {
                    **k = r.pick(&forms).clone();
                }
                true
            }
            _ => false,
        })),
        12 => ("a rule's definition put in place of its name", at_one(s, sigs, r, &mut |x, h, go, _| match x {
            Site::T1(t, _) if h.params.is_empty() => {
                let T1::S(T2::Name(n, a)) = &**t else { return false };
                let Some(Rule { v: RV::T(b), params, .. }) = rule_of(n) else { return false };
                if !a.is_empty() || !params.is_empty() {
                    return false;
                }
                if go {
                    **t = T1::S(T2::Paren(b.clone()));
                }
                true
            }
            _ => false,
        })),
        13 => ("an integer literal as a range", at_one(s, sigs, r, &mut |x, _, go, _| match x {
            Site::T1(t, _) => {
                let T1::S(T2::Lit(l)) = &**t else { return false };
                if !matches!(l, Lit::U(_) | Lit::N(_)) {
                    return false;
                }
                if go {
                    **t = T1::R(T2::Lit(l.clone()), true, T2::Lit(l.clone()));
                }
                true
            }
            _ => false,
        })),
        14 => ("an alternative that nothing matches", at_one(s, sigs, r, &mut |x, _, go, r| match x {
            Site::Ty(t, Ctx::Type | Ctx::Arr) => {
                if go {
                    let at = r.range(0, t.0.len());
                    t.0.insert(at, tlit(Lit::T("\u{1}never\u{2}".into())));
                }
                true
            }
            _ => false,
        })),
        15 => ("a rule renamed", {
            let i = r.below(s.0.len());
            let old = s.0[i].name.clone();
            let clash = s.0.iter().any(|x| x.params.contains(&old));
            if !clash {
                rename(s, &old, &nm);
                if *root == old {
                    *root = nm.clone();
                }
            }
            !clash
        }),
        16 => ("a type moved to a rule", at_one(s, sigs, r, &mut |x, h, go, _| match x {
            Site::Ty(t, Ctx::Type) if h.params.is_empty() => {
                if go {
                    add.push(rule_t(&nm, t.clone()));
                    **t = tyname(&nm);
                }
                true
            }
            _ => false,
        })),
        17 => ("an occurrence moved to a group around it", at_one(s, sigs, r, &mut |x, _, go, _| match x {
            Site::Ent(e, Ctx::Arr) if e.occ.is_some() => {
                if go {
                    let inner = Ent { occ: None, v: e.v.clone() };
                    e.v = EV::G(Grp(vec![vec![inner]]));
                }
                true
            }
            _ => false,
        })),
        18 => ("choice order of disjoint literals", at_one(s, sigs, r, &mut |x, _, go, r| match x {
            Site::Ty(t, _) if t.0.len() > 1 && t.0.iter().all(|t| matches!(t, T1::S(T2::Lit(_)))) => {
                if go {
                    r.shuffle(&mut t.0);
                }
                true
            }
            _ => false,
        })),
        19 => ("an empty group added", at_one(s, sigs, r, &mut |x, _, go, r| match x {
            Site::Seq(es, c) if *c != Ctx::Enum => {
                if go {
                    let at = r.below(es.len() + 1);
                    es.insert(at, Ent { occ: None, v: EV::G(Grp(vec![vec![]])) });
                }
                true
            }
            _ => false,
        })),
        20 => ("the alternatives of an element or member moved to a rule", at_one(s, sigs, r, &mut |x, h, go, _| match x {
            Site::Ty(t, Ctx::Arr | Ctx::Map | Ctx::Enum) if h.params.is_empty() => {
                if go {
                    add.push(rule_t(&nm, t.clone()));
                    **t = tyname(&nm);
                }
                true
            }
            _ => false,
        })),
        21 => ("a group moved to a rule", at_one(s, sigs, r, &mut |x, h, go, _| match x {
            Site::Ent(e, Ctx::Arr | Ctx::Map) if h.params.is_empty() && matches!(e.v, EV::G(_)) => {
                if go {
                    let mut inner = (**e).clone();
                    inner.occ = None;
                    add.push(rule_g(&nm, inner));
                    e.v = EV::M(None, tyname(&nm));
                }
                true
            }
            _ => false,
        })),
        22 => ("a type moved to a generic rule's argument", at_one(s, sigs, r, &mut |x, h, go, _| match x {
            Site::T1(t, Ctx::Type) if h.params.is_empty() && matches!(**t, T1::S(T2::Arr(_) | T2::Map(_) | T2::Lit(_))) => {
                if go {
                    add.push(Rule { name: nm.clone(), params: vec!["zq".into(), "zp".into()], v: RV::T(Ty(vec![tname("zp"), tname("zq")])) });
                    let v = (**t).clone();
                    **t = T1::S(T2::Name(nm.clone(), vec![v.clone(), v]));
                }
                true
            }
            _ => false,
        })),
        23 => ("array contents moved to an array that is unwrapped", at_one(s, sigs, r, &mut |x, h, go, r| match x {
            Site::Seq(es, Ctx::Arr) if !es.is_empty() && h.params.is_empty() => {
                if go {
                    let a = r.below(es.len());
                    let b = r.range(a + 1, es.len());
                    let run: Vec<Ent> = es.drain(a..b).collect();
                    add.push(rule_t(&nm, ty1(T1::S(T2::Arr(Grp(vec![run]))))));
                    es.insert(a, member(T1::S(T2::Unwrap(nm.clone(), vec![]))));
                }
                true
            }
            _ => false,
        })),
        24 => ("the numbers spelt in a range's end moved to rules", at_one(s, sigs, r, &mut |x, h, go, r| match x {
            Site::T1(t, _) if h.params.is_empty() => {
                let T1::R(a, _, b) = &mut **t else { return false };
                let e = if matches!(a, T2::Lit(_)) && (r.pct(50) || !matches!(b, T2::Lit(_))) { a } else { b };
                let T2::Lit(l) = &*e else { return false };
                if go {
                    add.push(rule_t(&nm, ty1(tlit(l.clone()))));
                    *e = name(&nm);
                }
                true
            }
            _ => false,
        })),
        _ => ("a generic parameter added and ignored", {
            let gs: Vec<usize> = (0..s.0.len()).filter(|i| s.0[*i].name != *root && matches!(rule_ctx(sigs, &s.0[*i].name), Some(_))).collect();
            if gs.is_empty() {
                false
            } else {
                let i = *r.pick(&gs);
                let n = s.0[i].name.clone();
                let hidden = s.0.iter().any(|x| x.params.contains(&n));
                let at = r.below(s.0[i].params.len() + 1);
                let arg = T1::S(T2::Arr(Grp(vec![vec![]])));
                if hidden {
                    false
                } else {
                    s.0[i].params.insert(at, nm.clone());
                    add_arg(s, &n, at, &arg);
                    true
                }
            }
        }),
    };
    for a in add {
        let at = r.below(s.0.len() + 1);
        s.0.insert(at, a);
    }
    done.then_some(what)
}

/// Every reference in the schema, wherever it stands.
pub fn all_refs(s: &mut Schema, f: &mut dyn FnMut(&mut String, &mut Vec<T1>)) {
    fn t1(t: &mut T1, f: &mut dyn FnMut(&mut String, &mut Vec<T1>)) {
        match t {
            T1::S(a) => t2(a, f),
            T1::R(a, _, b) | T1::C(a, _, b) => {
                t2(a, f);
                t2(b, f);
            }
        }
    }
    fn t2(t: &mut T2, f: &mut dyn FnMut(&mut String, &mut Vec<T1>)) {
        match t {
            T2::Lit(_) => {}
            T2::Name(n, a) | T2::Unwrap(n, a) | T2::Ch(n, a) => {
                for x in a.iter_mut() {
                    t1(x, f);
                }
                f(n, a);
            }
            T2::Paren(t) => ty(t, f),
            T2::Map(g) | T2::Arr(g) | T2::ChIn(g) => grp(g, f),
        }
    }
    fn ty(t: &mut Ty, f: &mut dyn FnMut(&mut String, &mut Vec<T1>)) {
        t.0.iter_mut().for_each(|t| t1(t, f));
    }
    fn grp(g: &mut Grp, f: &mut dyn FnMut(&mut String, &mut Vec<T1>)) {
        for e in g.0.iter_mut().flatten() {
            ent(e, f);
        }
    }
    fn ent(e: &mut Ent, f: &mut dyn FnMut(&mut String, &mut Vec<T1>)) {
        match &mut e.v {
            EV::M(k, t) => {
                if let Some(Key::T(t, _)) = k {
                    t1(t, f);
                }
                ty(t, f);
            }
            EV::G(g) => grp(g, f),
        }
    }
    for r in &mut s.0 {
        match &mut r.v {
            RV::T(t) => ty(t, f),
            RV::G(e) => ent(e, f),
        }
    }
}

/// What a schema says besides its structure.
pub enum Detail<'a> {
    Lit(&'a mut Lit),
    Regexp(&'a mut String),
    Bare(&'a mut String),
    Occ(&'a mut Occ),
    Name(&'a mut String),
    Excl(&'a mut bool),
    Cut(&'a mut bool),
    Ctl(&'a mut String),
}

/// Every literal, name, limit and flag in the schema, wherever it stands.
pub fn all_details(s: &mut Schema, f: &mut dyn FnMut(Detail)) {
    type D<'a> = &'a mut dyn FnMut(Detail);
    fn t1(t: &mut T1, f: D) {
        match t {
            T1::S(a) => t2(a, f),
            T1::R(a, x, b) => {
                t2(a, f);
                f(Detail::Excl(x));
                t2(b, f);
            }
            T1::C(a, op, b) => {
                t2(a, f);
                if let ("regexp", T2::Lit(Lit::T(p))) = (&op[..], &mut *b) {
                    f(Detail::Regexp(p));
                } else {
                    f(Detail::Ctl(op));
                    t2(b, f);
                }
            }
        }
    }
    fn t2(t: &mut T2, f: D) {
        match t {
            T2::Lit(l) => f(Detail::Lit(l)),
            T2::Name(n, a) | T2::Unwrap(n, a) | T2::Ch(n, a) => {
                f(Detail::Name(n));
                a.iter_mut().for_each(|x| t1(x, f));
            }
            T2::Paren(t) => ty(t, f),
            T2::Map(g) | T2::Arr(g) | T2::ChIn(g) => grp(g, f),
        }
    }
    fn ty(t: &mut Ty, f: D) {
        t.0.iter_mut().for_each(|t| t1(t, f));
    }
    fn grp(g: &mut Grp, f: D) {
        g.0.iter_mut().flatten().for_each(|e| ent(e, f));
    }
    fn ent(e: &mut Ent, f: D) {
        if let Some(o) = &mut e.occ {
            f(Detail::Occ(o));
        }
        match &mut e.v {
            EV::M(k, t) => {
                match k {
                    Some(Key::Bare(b)) => f(Detail::Bare(b)),
                    Some(Key::Lit(l)) => f(Detail::Lit(l)),
                    Some(Key::T(t, cut)) => {
                        t1(t, f);
                        f(Detail::Cut(cut));
                    }
                    None => {}
                }
                ty(t, f)
            }
            EV::G(g) => grp(g, f),
        }
    }
    for r in &mut s.0 {
        match &mut r.v {
            RV::T(t) => ty(t, f),
            RV::G(e) => {
                // the occurrence of a whole rule is restricted; leave it
                let o = e.occ.take();
                ent(e, f);
                e.occ = o;
            }
        }
    }
}

/// Change one detail of the schema, as little as can be; what it means may
/// well be different afterwards.
pub fn sibling(s: &mut Schema, r: &mut Rng) -> Option<&'static str> {
    let mut n = 0;
    all_details(s, &mut |_| n += 1);
    if n == 0 {
        return None;
    }
    let at = r.below(n);
    let mut i = 0;
    let mut what = None;
    all_details(s, &mut |d| {
        if i == at {
            what = tweak(d, r);
        }
        i += 1;
    });
    what
}

fn tweak_text(t: &mut String, keep: &str, r: &mut Rng) -> bool {
    let mut cs: Vec<char> = t.chars().collect();
    let at: Vec<usize> = (0..cs.len())
        .filter(|i| cs[*i].is_ascii_alphanumeric() && (*i == 0 || cs[*i - 1] != '\\') && (keep.is_empty() || (*i == 0 || !keep.contains(cs[*i - 1])) && !cs.get(*i + 1).is_some_and(|c| keep.contains(*c))))
        .collect();
    if at.is_empty() {
        return false;
    }
    // near the end more often than not
    let i = if r.pct(60) { *at.last().unwrap() } else { *r.pick(&at) };
    cs[i] = match cs[i] {
        c if r.pct(25) && c.is_ascii_lowercase() => c.to_ascii_uppercase(),
        '0'..='8' => ((cs[i] as u8) + 1) as char,
        '9' => '0',
        'z' => 'y',
        'Z' => 'Y',
        c => ((c as u8) + 1) as char,
    };
    *t = cs.into_iter().collect();
    true
}

fn tweak(d: Detail, r: &mut Rng) -> Option<&'static str> {
    match d {
        Detail::Lit(l) => {
            match l {
                Lit::U(u) => *u = if r.pct(50) { u.wrapping_add(1).max(1) } else { u.saturating_sub(1) },
                Lit::N(n) => *n = if r.pct(50) { n.saturating_add(1).min(-1) } else { n.saturating_sub(1) },
                Lit::F(f) => *f = if r.pct(50) { -*f } else { *f + 1.0 },
                Lit::T(t) => {
                    if !tweak_text(t, "", r) {
                        t.push('q');
                    }
                }
                Lit::B(b) => match b.last_mut() {
                    Some(x) => *x = x.wrapping_add(1),
                    None => b.push(0),
                },
            }
            Some("literal")
        }
        Detail::Regexp(p) => tweak_text(p, "{},[]-\\", r).then_some("regexp"),
        Detail::Bare(b) => {
            let old = b.clone();
            tweak_text(b, "", r);
            if !b.starts_with(|c: char| c.is_ascii_alphabetic() || "@_$".contains(c)) {
                *b = old;
                return None;
            }
            Some("bareword")
        }
        Detail::Occ(o) => {
            *o = match *o {
                Occ::Opt => Occ::Plus,
                Occ::Star => Occ::Plus,
                Occ::Plus => Occ::Star,
                Occ::N(a, b) if r.pct(50) && a < b => Occ::N(a + 1, b),
                Occ::N(a, b) if a > 0 && r.pct(50) => Occ::N(a - 1, b),
                Occ::N(a, b) => Occ::N(a, b.saturating_add(1)),
            };
            Some("occurrence")
        }
        Detail::Name(n) => {
            *n = match &n[..] {
                "int" => "any",
                "any" => "int",
                "uint" => "bool",
                "bool" => "uint",
                "tstr" => "bstr",
                "bstr" => "tstr",
                "text" => "uint",
                "true" => "null",
                "null" => "true",
                "float32" => "float16",
                _ => return None,
            }
            .into();
            Some("prelude name")
        }
        Detail::Excl(x) => {
            *x = !*x;
            Some("range end")
        }
        Detail::Cut(x) => {
            *x = !*x;
            Some("cut")
        }
        Detail::Ctl(op) => {
            *op = match &op[..] {
                "lt" => "le",
                "le" => "lt",
                "gt" => "ge",
                "ge" => "gt",
                _ => return None,
            }
            .into();
            Some("control")
        }
    }
}

pub fn rename(s: &mut Schema, old: &str, new: &str) {
    all_refs(s, &mut |n, _| {
        if n == old {
            *n = new.to_string();
        }
    });
    for r in &mut s.0 {
        if r.name == old {
            r.name = new.to_string();
        }
    }
}
fn add_arg(s: &mut Schema, rule: &str, at: usize, arg: &T1) {
    all_refs(s, &mut |n, a| {
        if n == rule && at <= a.len() {
            a.insert(at, arg.clone());
        }
    });
}

fn rewrites(cx: &mut Cx) -> Res {
    let mut c = Cfg::base();
    c.root = *cx.r.pick(&[K::T, K::A, K::M]);
    c.recursion = 0;
    c.map_choiceify = 0;
    c.depth = 3;
    if cx.r.pct(25) {
        c.generics = 60;
    }
    let (sc, root, sigs) = Gen::schema(&mut cx.r, &c);
    let text = text_of(&sc, &mut cx.r);
    let vals = values(&sc, &root, &mut cx.r, c.json, c.big, 6);
    // values whose verdict the rules of CDDL settle whatever order is used
    let mut keep = vec![];
    for v in vals {
        let (verdict, ev) = decide(&sc, &root, &v, FUEL);
        if verdict == Verdict::Undecided || ev.max_depth > 20 {
            cx.st.inc("undecided");
        } else {
            keep.push((v, verdict));
        }
    }
    let mut sc2 = sc.clone();
    let mut root2 = root.clone();
    let n = cx.r.range(1, 5);
    let mut done = vec![];
    for _ in 0..n {
        let k = cx.r.below(N_REWRITES);
        if let Some(w) = rewrite(&mut sc2, &sigs, &mut root2, k, &mut cx.r) {
            done.push(w);
            // rules move out of the reach of later rewrites when renamed
        }
    }
    let text2 = if done.is_empty() || cx.r.pct(60) { print::random(&sc2, &mut cx.r) } else { print::canon(&sc2) };
    for w in &done {
        cx.st.inc(w);
    }
    if done.is_empty() {
        cx.st.inc("only respelled");
    }
    let ctx = load(cx, &text)?;
    let ctx2 = load(cx, &text2)?;
    let th = hash_bytes(text.as_bytes()) ^ mix(hash_bytes(text2.as_bytes()));
    for (v, verdict) in keep {
        // the model itself must call the two schemas equivalent: this guards
        // against a rewrite that is not as harmless as it is meant to be
        if decide(&sc2, &root2, &v, FUEL * 4).0 != verdict {
            cx.st.inc("rewrite_not_neutral_for_model");
            if cx.verbose {
                println!("NOT NEUTRAL {:?}\n{}\n=>\n{}\n{}", done, text, text2, show_val(&v));
            }
            if std::env::var("VERIF_STRICT").is_ok() {
                return viol("model disagrees with rewrite", json!({"a": text, "b": text2, "value": show_val(&v), "rewrites": done}));
            }
            continue;
        }
        let cv = v.to_ciborium();
        let a = run::cbor(&ctx, &root, &cv);
        let b = run::cbor(&ctx2, &root2, &cv);
        cx.st.evals += 1;
        if text != text2 {
            cx.st.nontrivial(th ^ mix(hash_bytes(show_val(&v).as_bytes())));
        }
        if a.class() != b.class() {
            return viol(
                format!("rewriting the schema without changing its meaning changed the answer from \"{}\" to \"{}\"", a.show(), b.show()),
                json!({"cddl": text, "rule": root, "rewrites": done, "rewritten": text2, "new_rule": root2, "value": show_val(&v), "before": a.show(), "after": b.show()}),
            );
        }
        cx.sample(|| json!({"cddl": text, "rewrites": done, "rewritten": text2, "value": show_val(&v), "verdict": a.show()}));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C11",
        quick: 250_000,
        thorough: 3_000_000,
        rule: "a distinct (schema text, rewritten text, value) triple with differing texts, validated against both",
        run: rewrites,
        stack: 64 << 20,
        shards: 8,
        assumptions: &[
            "the rewrites are meaning-preserving (cross-checked: the reference model gives both schemas the same verdict, otherwise the pair is skipped and counted)",
            "rule nesting stays far below the documented limit of 50, so that adding a few levels of names is neutral",
        ],
    }]
}

//! The harness's own CDDL syntax tree, and its translation into the tree the
//! code under test is expected to produce.
use cddl_cat::ast;

#[derive(Clone, Debug, PartialEq)]
pub enum Lit {
    U(u64),
    N(i64),
    F(f64),
    T(String),
    B(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum T2 {
    Lit(Lit),
    Name(String, Vec<T1>),
    Paren(Ty),
    Map(Grp),
    Arr(Grp),
    Unwrap(String, Vec<T1>),
    ChIn(Grp),
    Ch(String, Vec<T1>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum T1 {
    S(T2),
    R(T2, bool, T2),
    C(T2, String, T2),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ty(pub Vec<T1>);

#[derive(Clone, Debug, PartialEq)]
pub struct Grp(pub Vec<Vec<Ent>>);

#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub occ: Option<Occ>,
    pub v: EV,
}

#[derive(Clone, Debug, PartialEq)]
pub enum EV {
    M(Option<Key>, Ty),
    G(Grp),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Key {
    Bare(String),
    Lit(Lit),
    T(T1, bool),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Occ {
    Opt,
    Star,
    Plus,
    N(usize, usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum RV {
    T(Ty),
    G(Ent),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rule {
    pub name: String,
    pub params: Vec<String>,
    pub v: RV,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Schema(pub Vec<Rule>);

// ---- short constructors -------------------------------------------------
pub fn name(s: &str) -> T2 {
    T2::Name(s.to_string(), vec![])
}
pub fn tname(s: &str) -> T1 {
    T1::S(name(s))
}
pub fn ty1(t: T1) -> Ty {
    Ty(vec![t])
}
pub fn tyname(s: &str) -> Ty {
    ty1(tname(s))
}
pub fn int(i: i128) -> Lit {
    if i >= 0 {
        Lit::U(i as u64)
    } else {
        Lit::N(i as i64)
    }
}
pub fn tlit(l: Lit) -> T1 {
    T1::S(T2::Lit(l))
}
pub fn member(t: T1) -> Ent {
    Ent { occ: None, v: EV::M(None, ty1(t)) }
}
pub fn ment(t: Ty) -> Ent {
    Ent { occ: None, v: EV::M(None, t) }
}
pub fn kv(k: Key, t: Ty) -> Ent {
    Ent { occ: None, v: EV::M(Some(k), t) }
}
pub fn grp(es: Vec<Ent>) -> Ent {
    Ent { occ: None, v: EV::G(Grp(vec![es])) }
}
pub fn occ(o: Occ, mut e: Ent) -> Ent {
    e.occ = Some(o);
    e
}
pub fn rule_t(n: &str, t: Ty) -> Rule {
    Rule { name: n.to_string(), params: vec![], v: RV::T(t) }
}
pub fn rule_g(n: &str, e: Ent) -> Rule {
    Rule { name: n.to_string(), params: vec![], v: RV::G(e) }
}

// ---- expected tree --------------------------------------------------------
pub fn a_lit(l: &Lit) -> ast::Value {
    match l {
        Lit::U(u) => ast::Value::Uint(*u),
        Lit::N(n) => ast::Value::Nint(*n),
        Lit::F(f) => ast::Value::Float(*f),
        Lit::T(t) => ast::Value::Text(t.clone()),
        Lit::B(b) => ast::Value::Bytes(b.clone()),
    }
}
fn a_ng(n: &str, args: &[T1]) -> ast::NameGeneric {
    ast::NameGeneric { name: n.to_string(), generic_args: args.iter().map(a_t1).collect() }
}
pub fn a_t2(t: &T2) -> ast::Type2 {
    match t {
        T2::Lit(l) => ast::Type2::Value(a_lit(l)),
        T2::Name(n, a) => ast::Type2::Typename(a_ng(n, a)),
        T2::Paren(t) => ast::Type2::Parethesized(a_ty(t)),
        T2::Map(g) => ast::Type2::Map(a_grp(g)),
        T2::Arr(g) => ast::Type2::Array(a_grp(g)),
        T2::Unwrap(n, a) => ast::Type2::Unwrap(a_ng(n, a)),
        T2::ChIn(g) => ast::Type2::ChoiceifyInline(a_grp(g)),
        T2::Ch(n, a) => ast::Type2::Choiceify(a_ng(n, a)),
    }
}
pub fn a_t1(t: &T1) -> ast::Type1 {
    match t {
        T1::S(t) => ast::Type1::Simple(a_t2(t)),
        T1::R(a, i, b) => ast::Type1::Range(ast::TypeRange { start: a_t2(a), end: a_t2(b), inclusive: *i }),
        T1::C(a, op, b) => ast::Type1::Control(ast::TypeControl { target: a_t2(a), arg: a_t2(b), op: op.clone() }),
    }
}
pub fn a_ty(t: &Ty) -> ast::Type {
    ast::Type(t.0.iter().map(a_t1).collect())
}
pub fn a_grp(g: &Grp) -> ast::Group {
    ast::Group(g.0.iter().map(|c| ast::GrpChoice(c.iter().map(a_ent).collect())).collect())
}
pub fn a_ent(e: &Ent) -> ast::GrpEnt {
    ast::GrpEnt {
        occur: e.occ.as_ref().map(|o| match o {
            Occ::Opt => ast::Occur::Optional,
            Occ::Star => ast::Occur::ZeroOrMore,
            Occ::Plus => ast::Occur::OneOrMore,
            Occ::N(a, b) => ast::Occur::Numbered(*a, *b),
        }),
        val: match &e.v {
            EV::M(k, t) => ast::GrpEntVal::Member(ast::Member {
                key: k.as_ref().map(|k| match k {
                    Key::Bare(s) => ast::MemberKey { val: ast::MemberKeyVal::Bareword(s.clone()), cut: true },
                    Key::Lit(l) => ast::MemberKey { val: ast::MemberKeyVal::Value(a_lit(l)), cut: true },
                    Key::T(t, cut) => ast::MemberKey { val: ast::MemberKeyVal::Type1(a_t1(t)), cut: *cut },
                }),
                value: a_ty(t),
            }),
            EV::G(g) => ast::GrpEntVal::Parenthesized(a_grp(g)),
        },
    }
}
pub fn a_rule(r: &Rule) -> ast::Rule {
    ast::Rule {
        name: r.name.clone(),
        generic_parms: r.params.clone(),
        val: match &r.v {
            RV::T(t) => ast::RuleVal::AssignType(a_ty(t)),
            RV::G(e) => ast::RuleVal::AssignGroup(a_ent(e)),
        },
    }
}
pub fn a_schema(s: &Schema) -> ast::Cddl {
    ast::Cddl { rules: s.0.iter().map(a_rule).collect() }
}

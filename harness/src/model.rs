//! Independent reference semantics: decides, for a schema and a value, what
//! the validator must answer.  Matching is purely functional (positions and
//! sets of remaining entries are passed along), so backtracking cannot leave
//! anything behind.
use crate::re::Re;
use crate::s::*;
use crate::val::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Fk {
    Missing(String),
    Generic,
    Structural,
    Unsupported,
    Value,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    No,
    Cut,
    Fatal(Fk),
    /// The model does not decide this case (out of fuel, or outside of what
    /// it specifies).
    Skip,
}
pub type R<T> = Result<T, Stop>;

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    Reject,
    Fatal(Fk),
    /// Undecided: depends on the order in which map entries are visited, or
    /// out of fuel.
    Undecided,
}

#[derive(Clone)]
pub struct Env<'a> {
    binds: Option<Rc<Binds<'a>>>,
    depth: u32,
}
struct Binds<'a> {
    map: Vec<(&'a str, &'a T1)>,
    past: Env<'a>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum P {
    Any,
    Nil,
    Bool,
    Int,
    Uint,
    Nint,
    Float,
    Tstr,
    Bstr,
}

pub enum Pre {
    Ty(P),
    Lit(bool),
    Unsupported,
    NotPrelude,
}

pub fn prelude(n: &str) -> Pre {
    use Pre::*;
    match n {
        "any" | "eb64url" | "eb64legacy" | "eb16" | "cbor-any" => Ty(P::Any),
        "nil" | "null" => Ty(P::Nil),
        "bool" => Ty(P::Bool),
        "true" => Lit(true),
        "false" => Lit(false),
        "int" => Ty(P::Int),
        "uint" => Ty(P::Uint),
        "nint" => Ty(P::Nint),
        "float" | "float16" | "float32" | "float64" | "float16-32" | "float32-64" => Ty(P::Float),
        "tstr" | "text" | "tdate" | "uri" | "b64url" | "b64legacy" | "regexp" | "mime-message" => Ty(P::Tstr),
        "bstr" | "bytes" | "biguint" | "bignint" | "encoded-cbor" => Ty(P::Bstr),
        "time" | "bigint" | "integer" | "unsigned" | "number" | "decfrac" | "bigfloat" | "undefined" => Unsupported,
        _ => NotPrelude,
    }
}

/// What a type1 amounts to once parentheses are removed.
pub enum N<'a> {
    Choice(&'a [T1]),
    Lit(Val),
    Prel(P),
    Rule(&'a str, &'a [T1]),
    Map(&'a Grp),
    Arr(&'a Grp),
    Unwrap(&'a str, &'a [T1]),
    Range(&'a T2, bool, &'a T2),
    Ctl(&'a T2, &'a str, &'a T2),
    Ch(&'a str, &'a [T1]),
    ChIn(&'a Grp),
    Unsupported,
}

pub fn litval(l: &Lit) -> Val {
    match l {
        Lit::U(u) => Val::Int(i128::from(*u)),
        Lit::N(n) => Val::Int(i128::from(*n)),
        Lit::F(f) => Val::Float(*f),
        Lit::T(t) => Val::Text(t.clone()),
        Lit::B(b) => Val::Bytes(b.clone()),
    }
}

fn norm_t2(t: &T2) -> N<'_> {
    match t {
        T2::Lit(l) => N::Lit(litval(l)),
        T2::Name(n, a) => match prelude(n) {
            Pre::Ty(p) => N::Prel(p),
            Pre::Lit(b) => N::Lit(Val::Bool(b)),
            Pre::Unsupported => N::Unsupported,
            Pre::NotPrelude => N::Rule(n, a),
        },
        T2::Paren(ty) => norm_ty(ty),
        T2::Map(g) => N::Map(g),
        T2::Arr(g) => N::Arr(g),
        T2::Unwrap(n, a) => N::Unwrap(n, a),
        T2::ChIn(g) => N::ChIn(g),
        T2::Ch(n, a) => N::Ch(n, a),
    }
}
pub fn norm(t: &T1) -> N<'_> {
    match t {
        T1::S(t) => norm_t2(t),
        T1::R(a, i, b) => N::Range(a, *i, b),
        T1::C(a, op, b) => N::Ctl(a, op, b),
    }
}
pub fn norm_ty(t: &Ty) -> N<'_> {
    if t.0.len() == 1 {
        norm(&t.0[0])
    } else {
        N::Choice(&t.0)
    }
}

enum Target<'a> {
    Arg(&'a T1, Env<'a>),
    T(&'a Ty, Env<'a>),
    G(&'a Ent, Env<'a>),
}

pub const MAX_DEPTH: u32 = 50;

pub struct Model<'a> {
    rules: HashMap<&'a str, &'a Rule>,
    fuel: Cell<i64>,
    /// Set when the entry that a map member takes depends on the order in
    /// which the entries are visited.
    amb: Cell<bool>,
    /// Counters over matching events, for evidence.
    pub ev: RefCell<Events>,
    res: RefCell<HashMap<String, Option<Rc<Re>>>>,
}

#[derive(Default, Clone, Debug)]
pub struct Events {
    pub rewinds: u64,
    pub cuts: u64,
    pub zero_progress: u64,
    pub occ_stops: u64,
    pub derefs: u64,
    pub unwraps: u64,
    pub choiceify: u64,
    pub args: u64,
    pub max_depth: u32,
    pub value_retry: u64,
    pub reorders: u64,
    pub work: i64,
    pub map_takes: u64,
    pub limits: u64,
    pub regexps: u64,
    pub embedded: u64,
}

impl<'a> Model<'a> {
    pub fn new(s: &'a Schema, fuel: i64) -> Model<'a> {
        let mut rules = HashMap::new();
        for r in &s.0 {
            rules.insert(r.name.as_str(), r);
        }
        Model { rules, fuel: Cell::new(fuel), amb: Cell::new(false), ev: RefCell::default(), res: RefCell::default() }
    }

    pub fn validate(&self, rule: &str, v: &Val) -> Verdict {
        let Some(r) = self.rules.get(rule).copied() else {
            return Verdict::Fatal(Fk::Missing(rule.into()));
        };
        if !r.params.is_empty() {
            return Verdict::Fatal(Fk::Generic);
        }
        let env = Env { binds: None, depth: 0 };
        let t = match &r.v {
            RV::T(t) => self.ty(t, v, &env),
            RV::G(e) => self.standalone(e, v, &env),
        };
        match t {
            Ok(()) => Verdict::Accept,
            Err(Stop::No) | Err(Stop::Cut) => Verdict::Reject,
            Err(Stop::Fatal(k)) => Verdict::Fatal(k),
            Err(Stop::Skip) => Verdict::Undecided,
        }
    }
    pub fn fuel_left(&self) -> i64 {
        self.fuel.get()
    }

    fn tick(&self) -> R<()> {
        let f = self.fuel.get() - 1;
        self.fuel.set(f);
        if f <= 0 {
            Err(Stop::Skip)
        } else {
            Ok(())
        }
    }
    fn st<T>(&self) -> R<T> {
        Err(Stop::Fatal(Fk::Structural))
    }

    fn resolve(&self, n: &'a str, args: &'a [T1], env: &Env<'a>) -> R<Target<'a>> {
        self.tick()?;
        self.ev.borrow_mut().derefs += 1;
        if let Some(b) = &env.binds {
            if let Some((_, t)) = b.map.iter().rev().find(|(k, _)| *k == n) {
                if env.depth >= MAX_DEPTH {
                    return self.st();
                }
                self.ev.borrow_mut().args += 1;
                let e = Env { binds: b.past.binds.clone(), depth: env.depth + 1 };
                return Ok(Target::Arg(t, e));
            }
        }
        let Some(r) = self.rules.get(n).copied() else {
            return Err(Stop::Fatal(Fk::Missing(n.into())));
        };
        if r.params.len() != args.len() {
            return Err(Stop::Fatal(Fk::Generic));
        }
        if env.depth >= MAX_DEPTH {
            return self.st();
        }
        let map = r.params.iter().map(|p| p.as_str()).zip(args.iter()).collect();
        let e = Env { binds: Some(Rc::new(Binds { map, past: env.clone() })), depth: env.depth + 1 };
        let mut ev = self.ev.borrow_mut();
        ev.max_depth = ev.max_depth.max(e.depth);
        Ok(match &r.v {
            RV::T(t) => Target::T(t, e),
            RV::G(g) => Target::G(g, e),
        })
    }

    // ---- a single value ---------------------------------------------------
    fn ty(&self, t: &'a Ty, v: &Val, env: &Env<'a>) -> R<()> {
        if t.0.len() == 1 {
            self.t1(&t.0[0], v, env)
        } else {
            self.choice(&t.0, v, env)
        }
    }
    fn choice(&self, ts: &'a [T1], v: &Val, env: &Env<'a>) -> R<()> {
        for t in ts {
            match self.t1(t, v, env) {
                Err(Stop::No) | Err(Stop::Cut) => {}
                x => return x,
            }
        }
        Err(Stop::No)
    }
    fn yes(b: bool) -> R<()> {
        if b {
            Ok(())
        } else {
            Err(Stop::No)
        }
    }
    fn t1(&self, t: &'a T1, v: &Val, env: &Env<'a>) -> R<()> {
        self.tick()?;
        match norm(t) {
            N::Choice(ts) => self.choice(ts, v, env),
            N::Lit(l) => Self::yes(veq(&l, v)),
            N::Prel(p) => Self::yes(match (p, v) {
                (P::Any, _) => true,
                (P::Nil, Val::Null) => true,
                (P::Bool, Val::Bool(_)) => true,
                (P::Int, Val::Int(_)) => true,
                (P::Uint, Val::Int(i)) => *i >= 0,
                (P::Nint, Val::Int(i)) => *i < 0,
                (P::Float, Val::Float(_)) => true,
                (P::Tstr, Val::Text(_)) => true,
                (P::Bstr, Val::Bytes(_)) => true,
                _ => false,
            }),
            N::Rule(n, a) => match self.resolve(n, a, env)? {
                Target::Arg(t, e) => self.t1(t, v, &e),
                Target::T(t, e) => self.ty(t, v, &e),
                Target::G(g, e) => self.standalone(g, v, &e),
            },
            N::Map(g) => match v {
                Val::Map(m) => self.map(g, m, env),
                _ => Err(Stop::No),
            },
            N::Arr(g) => match v {
                Val::Arr(a) => {
                    if self.a_grp(g, a, 0, env)? == a.len() {
                        Ok(())
                    } else {
                        Err(Stop::No)
                    }
                }
                _ => Err(Stop::No),
            },
            N::Unwrap(..) => self.st(),
            N::Range(a, incl, b) => self.range(a, incl, b, v, env),
            N::Ctl(t, op, arg) => self.ctl(t, op, arg, v, env),
            N::Ch(n, a) => self.choiceify(n, a, v, env),
            N::ChIn(g) => self.ch_members(g, v, env),
            N::Unsupported => Err(Stop::Fatal(Fk::Unsupported)),
        }
    }
    fn standalone(&self, e: &'a Ent, v: &Val, env: &Env<'a>) -> R<()> {
        if e.occ.is_some() {
            return self.st();
        }
        match &e.v {
            EV::M(Some(_), _) => self.st(),
            EV::M(None, t) => self.ty(t, v, env),
            EV::G(g) => {
                if g.0.len() == 1 {
                    if g.0[0].len() != 1 {
                        return Err(Stop::Fatal(Fk::Unsupported));
                    }
                    self.standalone(&g.0[0][0], v, env)
                } else {
                    for c in &g.0 {
                        if c.len() != 1 {
                            return Err(Stop::Fatal(Fk::Unsupported));
                        }
                        match self.standalone(&c[0], v, env) {
                            Err(Stop::No) | Err(Stop::Cut) => {}
                            x => return x,
                        }
                    }
                    Err(Stop::No)
                }
            }
        }
    }

    fn choiceify(&self, n: &'a str, a: &'a [T1], v: &Val, env: &Env<'a>) -> R<()> {
        self.ev.borrow_mut().choiceify += 1;
        match self.resolve(n, a, env)? {
            Target::G(e, env) => match (&e.occ, &e.v) {
                (None, EV::G(g)) => self.ch_members(g, v, &env),
                _ => self.st(),
            },
            Target::T(t, env) => match norm_ty(t) {
                N::Rule(n, a) => self.choiceify(n, a, v, &env),
                _ => self.st(),
            },
            Target::Arg(t, env) => match norm(t) {
                N::Rule(n, a) => self.choiceify(n, a, v, &env),
                _ => self.st(),
            },
        }
    }
    fn ch_members(&self, g: &'a Grp, v: &Val, env: &Env<'a>) -> R<()> {
        if g.0.len() != 1 {
            for c in &g.0 {
                if c.len() != 1 {
                    return Err(Stop::Fatal(Fk::Unsupported));
                }
                match self.standalone(&c[0], v, env) {
                    Err(Stop::No) | Err(Stop::Cut) => {}
                    x => return x,
                }
            }
            return Err(Stop::No);
        }
        for e in &g.0[0] {
            let r = if e.occ.is_some() {
                self.st()
            } else {
                match &e.v {
                    EV::M(Some(_), t) => self.ty(t, v, env),
                    EV::M(None, t) => match norm_ty(t) {
                        N::Rule(n, a) => self.choiceify(n, a, v, env),
                        _ => self.ty(t, v, env),
                    },
                    EV::G(_) => self.standalone(e, v, env),
                }
            };
            match r {
                Err(Stop::No) | Err(Stop::Cut) => {}
                x => return x,
            }
        }
        Err(Stop::No)
    }

    // ---- ranges and control operators ---------------------------------------
    fn endpoint(&self, t: &'a T2, env: &Env<'a>) -> R<Val> {
        self.chase(norm_t2(t), env, &mut |n, _| match n {
            N::Lit(l) => Ok(l),
            _ => Err(Stop::Fatal(Fk::Structural)),
        })
    }
    /// Follow rule names (and generic parameters) to something else.
    fn chase<T>(&self, n: N<'a>, env: &Env<'a>, f: &mut dyn FnMut(N<'a>, &Env<'a>) -> R<T>) -> R<T> {
        match n {
            N::Rule(name, args) => match self.resolve(name, args, env)? {
                Target::Arg(t, e) => self.chase(norm(t), &e, f),
                Target::T(t, e) => self.chase(norm_ty(t), &e, f),
                Target::G(..) => self.st(),
            },
            n => f(n, env),
        }
    }
    fn range(&self, a: &'a T2, incl: bool, b: &'a T2, v: &Val, env: &Env<'a>) -> R<()> {
        self.ev.borrow_mut().limits += 1;
        let a = self.endpoint(a, env)?;
        let b = self.endpoint(b, env)?;
        match (&a, &b, v) {
            (Val::Int(a), Val::Int(b), Val::Int(v)) => Self::yes(a <= v && (v < b || (incl && v == b))),
            (Val::Float(a), Val::Float(b), Val::Float(v)) => Self::yes(a <= v && (v < b || (incl && v == b))),
            _ => {
                if std::mem::discriminant(&a) == std::mem::discriminant(&b) {
                    Err(Stop::No)
                } else {
                    self.st()
                }
            }
        }
    }
    fn target(&self, t: &'a T2, env: &Env<'a>) -> R<P> {
        self.chase(norm_t2(t), env, &mut |n, _| match n {
            N::Prel(p) => Ok(p),
            _ => Err(Stop::Fatal(Fk::Structural)),
        })
    }
    fn ctl(&self, t: &'a T2, op: &'a str, arg: &'a T2, v: &Val, env: &Env<'a>) -> R<()> {
        match op {
            "size" => {
                self.ev.borrow_mut().limits += 1;
                let (lo, hi, incl) = self.chase(norm_t2(arg), env, &mut |n, _| match n {
                    N::Lit(Val::Int(i)) => Ok((i, i, true)),
                    N::Range(a, incl, b) => match (norm_t2(a), norm_t2(b)) {
                        (N::Lit(Val::Int(a)), N::Lit(Val::Int(b))) => Ok((a, b, incl)),
                        _ => Err(Stop::Fatal(Fk::Structural)),
                    },
                    _ => Err(Stop::Fatal(Fk::Structural)),
                })?;
                let m = i128::from(u64::MAX);
                if lo < 0 || hi < 0 || lo > m || hi > m {
                    return self.st();
                }
                let p = self.target(t, env)?;
                let within = |n: i128| n >= lo && (n < hi || (incl && n == hi));
                match p {
                    P::Tstr => match v {
                        Val::Text(t) => Self::yes(within(t.len() as i128)),
                        _ => Err(Stop::No),
                    },
                    P::Bstr => match v {
                        Val::Bytes(b) => Self::yes(within(b.len() as i128)),
                        _ => Err(Stop::No),
                    },
                    P::Uint => match v {
                        Val::Int(i) if *i >= 0 => {
                            // number of bytes needed to write the value
                            let mut needed = 0i128;
                            let mut x = *i;
                            while x > 0 {
                                needed += 1;
                                x /= 256;
                            }
                            if lo == hi && incl {
                                // `uint .size N` is 0 ... 256**N
                                Self::yes(needed <= lo)
                            } else {
                                Self::yes(within(needed))
                            }
                        }
                        _ => Err(Stop::No),
                    },
                    _ => self.st(),
                }
            }
            "lt" | "le" | "gt" | "ge" => {
                self.ev.borrow_mut().limits += 1;
                let lim = self.chase(norm_t2(arg), env, &mut |n, _| match n {
                    N::Lit(Val::Int(i)) => Ok(i),
                    _ => Err(Stop::Fatal(Fk::Structural)),
                })?;
                let p = self.target(t, env)?;
                let dom = match (p, v) {
                    (P::Uint, Val::Int(i)) if *i >= 0 => *i,
                    (P::Nint, Val::Int(i)) if *i < 0 => *i,
                    (P::Int, Val::Int(i)) => *i,
                    (P::Uint, _) | (P::Nint, _) | (P::Int, _) => return Err(Stop::No),
                    _ => return self.st(),
                };
                Self::yes(match op {
                    "lt" => dom < lim,
                    "le" => dom <= lim,
                    "gt" => dom > lim,
                    _ => dom >= lim,
                })
            }
            "regexp" => {
                let (N::Prel(P::Tstr), N::Lit(Val::Text(pat))) = (norm_t2(t), norm_t2(arg)) else {
                    return self.st();
                };
                let mut cache = self.res.borrow_mut();
                let re = cache.entry(pat.clone()).or_insert_with(|| Re::parse(&pat).map(Rc::new)).clone();
                drop(cache);
                match (re, v) {
                    (None, _) => Err(Stop::Skip),
                    (Some(re), Val::Text(s)) => {
                        self.ev.borrow_mut().regexps += 1;
                        match re.is_match(s) {
                            Some(b) => Self::yes(b),
                            None => Err(Stop::Skip),
                        }
                    }
                    _ => Err(Stop::No),
                }
            }
            "cbor" => {
                let N::Prel(P::Bstr) = norm_t2(t) else {
                    return self.st();
                };
                match v {
                    Val::Bytes(b) => match self.embedded(b) {
                        Dec::Val(inner) => match norm_t2(arg) {
                            N::Choice(ts) => self.choice(ts, &inner, env),
                            _ => self.t2(arg, &inner, env),
                        },
                        Dec::Bad => Err(Stop::No),
                        Dec::Unrep(true) => Err(Stop::Fatal(Fk::Value)),
                        Dec::Unrep(false) | Dec::Other => Err(Stop::Skip),
                    },
                    _ => Err(Stop::No),
                }
            }
            _ => Err(Stop::Fatal(Fk::Unsupported)),
        }
    }
    fn embedded(&self, b: &[u8]) -> Dec {
        self.ev.borrow_mut().embedded += 1;
        decode(b)
    }
    fn t2(&self, t: &'a T2, v: &Val, env: &Env<'a>) -> R<()> {
        self.tick()?;
        match t {
            T2::Paren(ty) => self.ty(ty, v, env),
            T2::Lit(l) => Self::yes(veq(&litval(l), v)),
            T2::Map(g) => match v {
                Val::Map(m) => self.map(g, m, env),
                _ => Err(Stop::No),
            },
            T2::Arr(g) => match v {
                Val::Arr(a) => Self::yes(self.a_grp(g, a, 0, env)? == a.len()),
                _ => Err(Stop::No),
            },
            T2::Name(n, a) => match prelude(n) {
                Pre::NotPrelude => match self.resolve(n, a, env)? {
                    Target::Arg(t, e) => self.t1(t, v, &e),
                    Target::T(t, e) => self.ty(t, v, &e),
                    Target::G(g, e) => self.standalone(g, v, &e),
                },
                Pre::Lit(b) => Self::yes(matches!(v, Val::Bool(x) if *x == b)),
                Pre::Unsupported => Err(Stop::Fatal(Fk::Unsupported)),
                Pre::Ty(p) => Self::yes(match (p, v) {
                    (P::Any, _) => true,
                    (P::Nil, Val::Null) => true,
                    (P::Bool, Val::Bool(_)) => true,
                    (P::Int, Val::Int(_)) => true,
                    (P::Uint, Val::Int(i)) => *i >= 0,
                    (P::Nint, Val::Int(i)) => *i < 0,
                    (P::Float, Val::Float(_)) => true,
                    (P::Tstr, Val::Text(_)) => true,
                    (P::Bstr, Val::Bytes(_)) => true,
                    _ => false,
                }),
            },
            T2::Unwrap(..) => self.st(),
            T2::Ch(n, a) => self.choiceify(n, a, v, env),
            T2::ChIn(g) => self.ch_members(g, v, env),
        }
    }

    // ---- arrays ----------------------------------------------------------
    // Each function returns the position after what it matched.
    fn a_grp(&self, g: &'a Grp, a: &[Val], pos: usize, env: &Env<'a>) -> R<usize> {
        if g.0.len() == 1 {
            return self.a_seq(&g.0[0], a, pos, env);
        }
        for c in &g.0 {
            match self.a_seq(c, a, pos, env) {
                Err(Stop::No) | Err(Stop::Cut) => self.ev.borrow_mut().rewinds += 1,
                x => return x,
            }
        }
        Err(Stop::No)
    }
    fn a_seq(&self, es: &'a [Ent], a: &[Val], mut pos: usize, env: &Env<'a>) -> R<usize> {
        for e in es {
            pos = self.a_ent(e, a, pos, env)?;
        }
        Ok(pos)
    }
    fn limits(o: &Occ) -> (usize, usize) {
        match o {
            Occ::Opt => (0, 1),
            Occ::Star => (0, usize::MAX),
            Occ::Plus => (1, usize::MAX),
            Occ::N(a, b) => (*a, *b),
        }
    }
    fn a_ent(&self, e: &'a Ent, a: &[Val], mut pos: usize, env: &Env<'a>) -> R<usize> {
        let Some(o) = &e.occ else {
            return self.a_ev(&e.v, a, pos, env);
        };
        let (lo, hi) = Self::limits(o);
        let mut n = 0;
        while n < hi {
            match self.a_ev(&e.v, a, pos, env) {
                Ok(p) if p == pos => {
                    // matches nothing, any number of times
                    self.ev.borrow_mut().zero_progress += 1;
                    return Ok(pos);
                }
                Ok(p) => pos = p,
                Err(Stop::No) => {
                    self.ev.borrow_mut().occ_stops += 1;
                    break;
                }
                Err(x) => return Err(x),
            }
            n += 1;
        }
        if n < lo {
            Err(Stop::No)
        } else {
            Ok(pos)
        }
    }
    fn a_ev(&self, v: &'a EV, a: &[Val], pos: usize, env: &Env<'a>) -> R<usize> {
        self.tick()?;
        match v {
            EV::M(Some(_), t) => {
                if pos >= a.len() {
                    return Err(Stop::No);
                }
                self.ty(t, &a[pos], env)?;
                Ok(pos + 1)
            }
            EV::M(None, t) => self.a_ty(t, a, pos, env),
            EV::G(g) => self.a_grp(g, a, pos, env),
        }
    }
    fn a_ty(&self, t: &'a Ty, a: &[Val], pos: usize, env: &Env<'a>) -> R<usize> {
        if t.0.len() == 1 {
            self.a_t1(&t.0[0], a, pos, env)
        } else {
            self.a_choice(&t.0, a, pos, env)
        }
    }
    fn a_choice(&self, ts: &'a [T1], a: &[Val], pos: usize, env: &Env<'a>) -> R<usize> {
        for t in ts {
            match self.a_t1(t, a, pos, env) {
                Err(Stop::No) | Err(Stop::Cut) => {}
                x => return x,
            }
        }
        Err(Stop::No)
    }
    fn a_t1(&self, t: &'a T1, a: &[Val], pos: usize, env: &Env<'a>) -> R<usize> {
        self.tick()?;
        match norm(t) {
            N::Choice(ts) => self.a_choice(ts, a, pos, env),
            N::Rule(n, args) => match self.resolve(n, args, env)? {
                Target::Arg(t, e) => self.a_t1(t, a, pos, &e),
                Target::T(t, e) => self.a_ty(t, a, pos, &e),
                Target::G(g, e) => self.a_ent(g, a, pos, &e),
            },
            N::Unwrap(n, args) => {
                self.ev.borrow_mut().unwraps += 1;
                match self.unwrap(n, args, env)? {
                    Some((N::Arr(g), e)) => self.a_grp(g, a, pos, &e),
                    _ => Err(Stop::No),
                }
            }
            _ => {
                if pos >= a.len() {
                    return Err(Stop::No);
                }
                self.t1(t, &a[pos], env)?;
                Ok(pos + 1)
            }
        }
    }
    fn unwrap(&self, n: &'a str, args: &'a [T1], env: &Env<'a>) -> R<Option<(N<'a>, Env<'a>)>> {
        let (n, e) = match self.resolve(n, args, env)? {
            Target::Arg(t, e) => (norm(t), e),
            Target::T(t, e) => (norm_ty(t), e),
            Target::G(..) => return Ok(None),
        };
        match n {
            N::Rule(n, a) => self.unwrap(n, a, &e),
            n => Ok(Some((n, e))),
        }
    }

    // ---- maps -----------------------------------------------------------
    // Each function takes and returns the entries not yet accounted for.
    fn map(&self, g: &'a Grp, m: &[(Val, Val)], env: &Env<'a>) -> R<()> {
        let outer = self.amb.replace(false);
        let first = self.map_in_order(g, m, (0..m.len()).collect(), env);
        let amb = self.amb.replace(outer);
        if !amb || matches!(first, Err(Stop::Skip)) {
            return first;
        }
        // The choice of entries depends on the order they are visited in,
        // which CDDL leaves open: only decide if the answer doesn't.
        self.ev.borrow_mut().reorders += 1;
        let r = self.map_any_order(g, m, env);
        self.amb.set(outer);
        r
    }
    fn map_any_order(&self, g: &'a Grp, m: &[(Val, Val)], env: &Env<'a>) -> R<()> {
        if m.len() > 128 {
            return Err(Stop::Skip);
        }
        let full = if m.len() == 128 { u128::MAX } else { (1u128 << m.len()) - 1 };
        let outs = self.nd_grp(g, m, full, env)?;
        let mut res: Option<R<()>> = None;
        for o in outs {
            let r = match o {
                NO::Rem(0) => Ok(()),
                NO::Rem(_) | NO::No | NO::Cut => Err(Stop::No),
                NO::Fatal(f) => Err(Stop::Fatal(f)),
            };
            match &res {
                None => res = Some(r),
                Some(x) if *x == r => {}
                Some(_) => return Err(Stop::Skip),
            }
        }
        res.unwrap_or(Err(Stop::Skip))
    }
    // The same rules as below, giving every outcome that some order of
    // visiting the entries could lead to.
    fn nd_grp(&self, g: &'a Grp, m: &[(Val, Val)], mask: u128, env: &Env<'a>) -> R<Vec<NO>> {
        if g.0.len() == 1 {
            return self.nd_seq(&g.0[0], m, mask, env);
        }
        let mut outs = vec![];
        for c in &g.0 {
            let mut again = false;
            for o in self.nd_seq(c, m, mask, env)? {
                match o {
                    NO::No | NO::Cut => again = true,
                    o => put(&mut outs, o)?,
                }
            }
            if !again {
                return Ok(outs);
            }
        }
        put(&mut outs, NO::No)?;
        Ok(outs)
    }
    fn nd_seq(&self, es: &'a [Ent], m: &[(Val, Val)], mask: u128, env: &Env<'a>) -> R<Vec<NO>> {
        let mut states = vec![mask];
        let mut outs = vec![];
        for e in es {
            let mut next = vec![];
            for s in states {
                for o in self.nd_ent(e, m, s, env)? {
                    match o {
                        NO::Rem(x) => {
                            if !next.contains(&x) {
                                next.push(x);
                            }
                            if next.len() > 400 {
                                return Err(Stop::Skip);
                            }
                        }
                        o => put(&mut outs, o)?,
                    }
                }
            }
            states = next;
        }
        for s in states {
            put(&mut outs, NO::Rem(s))?;
        }
        Ok(outs)
    }
    fn nd_ent(&self, e: &'a Ent, m: &[(Val, Val)], mask: u128, env: &Env<'a>) -> R<Vec<NO>> {
        let Some(o) = &e.occ else {
            return self.nd_ev(&e.v, m, mask, env);
        };
        let (lo, hi) = Self::limits(o);
        if let EV::M(Some(k), t) = &e.v {
            return self.nd_kv(k, t, m, mask, env, lo, hi);
        }
        let mut outs = vec![];
        let mut states = vec![mask];
        let mut n = 0;
        while n < hi && !states.is_empty() {
            let mut next = vec![];
            for s in states {
                for o in self.nd_ev(&e.v, m, s, env)? {
                    match o {
                        NO::Rem(x) if x == s => put(&mut outs, NO::Rem(s))?,
                        NO::Rem(x) => {
                            if !next.contains(&x) {
                                next.push(x);
                            }
                            if next.len() > 400 {
                                return Err(Stop::Skip);
                            }
                        }
                        NO::No => put(&mut outs, if n < lo { NO::No } else { NO::Rem(s) })?,
                        o => put(&mut outs, o)?,
                    }
                }
            }
            states = next;
            n += 1;
        }
        for s in states {
            put(&mut outs, if n < lo { NO::No } else { NO::Rem(s) })?;
        }
        Ok(outs)
    }
    fn nd_ev(&self, v: &'a EV, m: &[(Val, Val)], mask: u128, env: &Env<'a>) -> R<Vec<NO>> {
        self.tick()?;
        match v {
            EV::M(Some(k), t) => self.nd_kv(k, t, m, mask, env, 1, 1),
            EV::M(None, t) => self.nd_choice(&t.0, m, mask, env),
            EV::G(g) => {
                let mut outs = vec![];
                for o in self.nd_grp(g, m, mask, env)? {
                    put(&mut outs, if o == NO::Cut { NO::No } else { o })?;
                }
                Ok(outs)
            }
        }
    }
    fn nd_choice(&self, ts: &'a [T1], m: &[(Val, Val)], mask: u128, env: &Env<'a>) -> R<Vec<NO>> {
        let mut outs = vec![];
        for t in ts {
            let mut again = false;
            for o in self.nd_t1(t, m, mask, env)? {
                match o {
                    NO::No => again = true,
                    o => put(&mut outs, o)?,
                }
            }
            if !again {
                return Ok(outs);
            }
        }
        put(&mut outs, NO::No)?;
        Ok(outs)
    }
    fn nd_t1(&self, t: &'a T1, m: &[(Val, Val)], mask: u128, env: &Env<'a>) -> R<Vec<NO>> {
        self.tick()?;
        let stop = |r: R<()>| match r {
            Err(Stop::Fatal(f)) => Ok(vec![NO::Fatal(f)]),
            _ => Err(Stop::Skip),
        };
        match norm(t) {
            N::Choice(ts) => self.nd_choice(ts, m, mask, env),
            N::Rule(n, args) => match self.resolve(n, args, env) {
                Ok(Target::Arg(t, e)) => self.nd_t1(t, m, mask, &e),
                Ok(Target::T(t, e)) => self.nd_choice(&t.0, m, mask, &e),
                Ok(Target::G(g, e)) => self.nd_ent(g, m, mask, &e),
                Err(e) => stop(Err(e)),
            },
            N::Unwrap(n, args) => match self.unwrap(n, args, env) {
                Ok(Some((N::Map(g), e))) => self.nd_grp(g, m, mask, &e),
                Ok(_) => Ok(vec![NO::No]),
                Err(e) => stop(Err(e)),
            },
            N::Ch(n, args) => match self.choice_group(n, args, env) {
                Ok((g, e)) => self.nd_ch(g, m, mask, &e),
                Err(Stop::Fatal(f)) => Ok(vec![NO::Fatal(f)]),
                Err(_) => Err(Stop::Skip),
            },
            N::ChIn(g) => self.nd_ch(g, m, mask, env),
            _ => stop(self.st()),
        }
    }
    /// The group that `&name` makes a choice of.
    fn choice_group(&self, n: &'a str, a: &'a [T1], env: &Env<'a>) -> R<(&'a Grp, Env<'a>)> {
        match self.resolve(n, a, env)? {
            Target::G(e, env) => match (&e.occ, &e.v) {
                (None, EV::G(g)) => Ok((g, env)),
                _ => Err(Stop::Skip),
            },
            Target::T(t, env) => match norm_ty(t) {
                N::Rule(n, a) => self.choice_group(n, a, &env),
                _ => Err(self.st::<()>().unwrap_err()),
            },
            Target::Arg(t, env) => match norm(t) {
                N::Rule(n, a) => self.choice_group(n, a, &env),
                _ => Err(self.st::<()>().unwrap_err()),
            },
        }
    }
    /// In a map: the members' keys are dropped, and what they stand for (a
    /// group, an unwrapped map) is what may be matched.  Group choices,
    /// occurrences and bare names in the group have no meaning here.
    fn ch_alternatives(g: &'a Grp) -> R<&'a [Ent]> {
        if g.0.len() != 1 {
            return Err(Stop::Skip);
        }
        for e in &g.0[0] {
            if e.occ.is_some() || matches!(&e.v, EV::M(None, t) if matches!(norm_ty(t), N::Rule(..))) {
                return Err(Stop::Skip);
            }
        }
        Ok(&g.0[0])
    }
    fn nd_ch(&self, g: &'a Grp, m: &[(Val, Val)], mask: u128, env: &Env<'a>) -> R<Vec<NO>> {
        let mut outs = vec![];
        for e in Self::ch_alternatives(g)? {
            let mut again = false;
            let os = match &e.v {
                EV::M(_, t) => self.nd_choice(&t.0, m, mask, env)?,
                v => self.nd_ev(v, m, mask, env)?,
            };
            for o in os {
                match o {
                    NO::No => again = true,
                    o => put(&mut outs, o)?,
                }
            }
            if !again {
                return Ok(outs);
            }
        }
        put(&mut outs, NO::No)?;
        Ok(outs)
    }
    fn m_ch(&self, g: &'a Grp, m: &[(Val, Val)], rem: Vec<usize>, env: &Env<'a>) -> R<Vec<usize>> {
        for e in Self::ch_alternatives(g)? {
            let r = match &e.v {
                EV::M(_, t) => self.m_ty(t, m, rem.clone(), env),
                v => self.m_ev(v, m, rem.clone(), env, false),
            };
            match r {
                Err(Stop::No) => {}
                x => return x,
            }
        }
        Err(Stop::No)
    }
    #[allow(clippy::too_many_arguments)]
    fn nd_kv(&self, k: &'a Key, t: &'a Ty, m: &[(Val, Val)], mask: u128, env: &Env<'a>, lo: usize, hi: usize) -> R<Vec<NO>> {
        if hi == 0 {
            return Ok(vec![if lo > 0 { NO::No } else { NO::Rem(mask) }]);
        }
        let (lit, cut) = match k {
            Key::Bare(s) => (Some(Val::Text(s.clone())), true),
            Key::Lit(l) => (Some(litval(l)), true),
            Key::T(kt, cut) => match norm(kt) {
                N::Lit(l) => (Some(l), *cut),
                _ => (None, *cut),
            },
        };
        let mut good = vec![];
        let mut stops = vec![];
        for (i, (key, value)) in m.iter().enumerate() {
            if mask & (1 << i) == 0 {
                continue;
            }
            let hit = match (&lit, k) {
                (Some(l), _) => veq(l, key),
                (None, Key::T(kt, _)) => match self.t1(kt, key, env) {
                    Ok(()) => true,
                    Err(Stop::No) | Err(Stop::Cut) => false,
                    Err(Stop::Fatal(f)) => {
                        put(&mut stops, NO::Fatal(f))?;
                        continue;
                    }
                    Err(x) => return Err(x),
                },
                _ => unreachable!(),
            };
            if !hit {
                continue;
            }
            match self.ty(t, value, env) {
                Ok(()) => good.push(i),
                Err(Stop::No) | Err(Stop::Cut) => {
                    if cut {
                        put(&mut stops, NO::Cut)?;
                    }
                }
                Err(Stop::Fatal(f)) => put(&mut stops, NO::Fatal(f))?,
                Err(x) => return Err(x),
            }
        }
        // `stops` end the matching whenever they are come across
        let mut outs = stops.clone();
        if good.len() < hi {
            if stops.is_empty() {
                let left = good.iter().fold(mask, |a, i| a & !(1 << i));
                put(&mut outs, if good.len() < lo { NO::No } else { NO::Rem(left) })?;
            }
            return Ok(outs);
        }
        if hi < lo {
            put(&mut outs, NO::No)?;
            return Ok(outs);
        }
        let mut subsets = vec![(mask, 0usize, 0usize)];
        while let Some((left, from, n)) = subsets.pop() {
            self.tick()?;
            if n == hi {
                put(&mut outs, NO::Rem(left))?;
                continue;
            }
            for i in from..good.len() {
                if good.len() - i >= hi - n {
                    subsets.push((left & !(1 << good[i]), i + 1, n + 1));
                }
            }
        }
        Ok(outs)
    }
    fn map_in_order(&self, g: &'a Grp, m: &[(Val, Val)], order: Vec<usize>, env: &Env<'a>) -> R<()> {
        match self.m_grp(g, m, order, env) {
            Ok(r) if r.is_empty() => Ok(()),
            Ok(_) => Err(Stop::No),
            Err(Stop::Cut) => Err(Stop::No),
            Err(x) => Err(x),
        }
    }
    fn m_grp(&self, g: &'a Grp, m: &[(Val, Val)], rem: Vec<usize>, env: &Env<'a>) -> R<Vec<usize>> {
        if g.0.len() == 1 {
            return self.m_seq(&g.0[0], m, rem, env);
        }
        for c in &g.0 {
            // each alternative of a group choice keeps its cuts to itself
            match self.m_seq(c, m, rem.clone(), env) {
                Err(Stop::No) | Err(Stop::Cut) => self.ev.borrow_mut().rewinds += 1,
                x => return x,
            }
        }
        Err(Stop::No)
    }
    fn m_seq(&self, es: &'a [Ent], m: &[(Val, Val)], mut rem: Vec<usize>, env: &Env<'a>) -> R<Vec<usize>> {
        for e in es {
            rem = self.m_ent(e, m, rem, env)?;
        }
        Ok(rem)
    }
    fn m_ent(&self, e: &'a Ent, m: &[(Val, Val)], mut rem: Vec<usize>, env: &Env<'a>) -> R<Vec<usize>> {
        let Some(o) = &e.occ else {
            return self.m_ev(&e.v, m, rem, env, false);
        };
        let (lo, hi) = Self::limits(o);
        let mut n = 0;
        while n < hi {
            match self.m_ev(&e.v, m, rem.clone(), env, hi == usize::MAX) {
                Ok(r) if r.len() == rem.len() => {
                    self.ev.borrow_mut().zero_progress += 1;
                    return Ok(rem);
                }
                Ok(r) => rem = r,
                Err(Stop::No) => {
                    self.ev.borrow_mut().occ_stops += 1;
                    break;
                }
                Err(x) => return Err(x),
            }
            n += 1;
        }
        if n < lo {
            Err(Stop::No)
        } else {
            Ok(rem)
        }
    }
    /// `all`: whether the member goes on to take every entry it can.
    fn m_ev(&self, v: &'a EV, m: &[(Val, Val)], rem: Vec<usize>, env: &Env<'a>, all: bool) -> R<Vec<usize>> {
        self.tick()?;
        match v {
            EV::M(Some(k), t) => self.m_kv(k, t, m, rem, env, all),
            EV::M(None, t) => self.m_ty(t, m, rem, env),
            EV::G(g) => match self.m_grp(g, m, rem, env) {
                Err(Stop::Cut) => Err(Stop::No),
                x => x,
            },
        }
    }
    fn m_ty(&self, t: &'a Ty, m: &[(Val, Val)], rem: Vec<usize>, env: &Env<'a>) -> R<Vec<usize>> {
        if t.0.len() == 1 {
            self.m_t1(&t.0[0], m, rem, env)
        } else {
            self.m_choice(&t.0, m, rem, env)
        }
    }
    fn m_choice(&self, ts: &'a [T1], m: &[(Val, Val)], rem: Vec<usize>, env: &Env<'a>) -> R<Vec<usize>> {
        for t in ts {
            match self.m_t1(t, m, rem.clone(), env) {
                Err(Stop::No) => {}
                x => return x,
            }
        }
        Err(Stop::No)
    }
    fn m_t1(&self, t: &'a T1, m: &[(Val, Val)], rem: Vec<usize>, env: &Env<'a>) -> R<Vec<usize>> {
        self.tick()?;
        match norm(t) {
            N::Choice(ts) => self.m_choice(ts, m, rem, env),
            N::Rule(n, args) => match self.resolve(n, args, env)? {
                Target::Arg(t, e) => self.m_t1(t, m, rem, &e),
                Target::T(t, e) => self.m_ty(t, m, rem, &e),
                Target::G(g, e) => self.m_ent(g, m, rem, &e),
            },
            N::Unwrap(n, args) => {
                self.ev.borrow_mut().unwraps += 1;
                match self.unwrap(n, args, env)? {
                    Some((N::Map(g), e)) => self.m_grp(g, m, rem, &e),
                    _ => Err(Stop::No),
                }
            }
            N::Ch(n, args) => {
                self.ev.borrow_mut().choiceify += 1;
                let (g, e) = self.choice_group(n, args, env)?;
                self.m_ch(g, m, rem, &e)
            }
            N::ChIn(g) => {
                self.ev.borrow_mut().choiceify += 1;
                self.m_ch(g, m, rem, env)
            }
            _ => self.st(),
        }
    }
    fn m_kv(&self, k: &'a Key, t: &'a Ty, m: &[(Val, Val)], mut rem: Vec<usize>, env: &Env<'a>, all: bool) -> R<Vec<usize>> {
        let (lit, cut) = match k {
            Key::Bare(s) => (Some(Val::Text(s.clone())), true),
            Key::Lit(l) => (Some(litval(l)), true),
            Key::T(kt, cut) => match norm(kt) {
                N::Lit(l) => (Some(l), *cut),
                _ => (None, *cut),
            },
        };
        let key_hit = |key: &Val| -> R<bool> {
            match (&lit, k) {
                (Some(l), _) => Ok(veq(l, key)),
                (None, Key::T(kt, _)) => match self.t1(kt, key, env) {
                    Ok(()) => Ok(true),
                    Err(Stop::No) | Err(Stop::Cut) => Ok(false),
                    Err(x) => Err(x),
                },
                _ => unreachable!(),
            }
        };
        let mut seen = false;
        let mut i = 0;
        let mut out = None;
        while i < rem.len() {
            let (key, value) = &m[rem[i]];
            let hit = key_hit(key).map_err(|e| {
                self.amb.set(self.amb.get() || rem.len() > 1);
                e
            })?;
            if hit {
                match self.ty(t, value, env) {
                    Ok(()) => {
                        if seen {
                            self.ev.borrow_mut().value_retry += 1;
                        }
                        out = Some(true);
                        break;
                    }
                    Err(Stop::No) | Err(Stop::Cut) => {
                        if cut {
                            self.ev.borrow_mut().cuts += 1;
                            out = Some(false);
                            break;
                        }
                        seen = true;
                    }
                    Err(x) => {
                        self.amb.set(self.amb.get() || (lit.is_none() && rem.len() > 1));
                        return Err(x);
                    }
                }
            }
            i += 1;
        }
        let Some(took) = out else {
            return Err(Stop::No);
        };
        if lit.is_none() && !self.amb.get() {
            // would another order have taken another entry?
            for j in &rem[i + 1..] {
                let (key, value) = &m[*j];
                let other = match key_hit(key) {
                    Ok(false) => false,
                    Ok(true) => match self.ty(t, value, env) {
                        Ok(()) => !all,
                        Err(Stop::No) | Err(Stop::Cut) => cut && !all,
                        Err(_) => true,
                    },
                    Err(_) => true,
                };
                if other {
                    self.amb.set(true);
                    break;
                }
            }
        }
        if took {
            self.ev.borrow_mut().map_takes += 1;
            rem.remove(i);
            Ok(rem)
        } else {
            Err(Stop::Cut)
        }
    }
}

/// One possible outcome of matching map members; `Rem` has a bit for every
/// entry not accounted for.
#[derive(Clone, Debug, PartialEq)]
enum NO {
    Rem(u128),
    No,
    Cut,
    Fatal(Fk),
}
fn put(outs: &mut Vec<NO>, o: NO) -> R<()> {
    if !outs.contains(&o) {
        outs.push(o);
    }
    if outs.len() > 400 {
        return Err(Stop::Skip);
    }
    Ok(())
}

/// Decide a case.  A case whose answer depends on the order of map entries is
/// undecided.
pub fn decide(s: &Schema, rule: &str, v: &Val, fuel: i64) -> (Verdict, Events) {
    let m = Model::new(s, fuel);
    let verdict = m.validate(rule, v);
    let mut ev = m.ev.borrow().clone();
    ev.work = fuel - m.fuel_left();
    (verdict, ev)
}

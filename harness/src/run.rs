//! Calls into the code under test, with every outcome classified.
use crate::san;
use cddl_cat::context::{BasicContext, LookupContext};
use cddl_cat::flatten::flatten_from_str;
use cddl_cat::{ValidateError, ValidateResult};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Parse,
    Structural,
    Missing,
    Unsupported,
    Value,
    Generic,
    Unknown,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok,
    /// the data does not match
    Mis(String),
    /// something is wrong with the schema (or the input can't be decoded)
    Fatal(Kind, String),
    Panic(String),
}

impl Out {
    pub fn class(&self) -> String {
        match self {
            Out::Ok => "ok".into(),
            Out::Mis(_) => "mismatch".into(),
            Out::Fatal(k, _) => format!("{:?}", k),
            Out::Panic(_) => "panic".into(),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Out::Ok => "accepted".into(),
            Out::Mis(m) => format!("rejected: {}", m),
            Out::Fatal(k, m) => format!("error {:?}: {}", k, m),
            Out::Panic(m) => format!("PANIC: {}", m),
        }
    }
}

pub fn classify(e: &ValidateError) -> Out {
    let m = format!("{}", e);
    match e {
        ValidateError::ParseError(_) => Out::Fatal(Kind::Parse, m),
        ValidateError::Structural(_) => Out::Fatal(Kind::Structural, m),
        ValidateError::Mismatch(_) | ValidateError::MapCut(_) => Out::Mis(m),
        ValidateError::MissingRule(n) => Out::Fatal(Kind::Missing, n.clone()),
        ValidateError::Unsupported(_) => Out::Fatal(Kind::Unsupported, m),
        ValidateError::ValueError(_) => Out::Fatal(Kind::Value, m),
        ValidateError::GenericError => Out::Fatal(Kind::Generic, m),
        _ => Out::Fatal(Kind::Unknown, m),
    }
}

fn res(r: ValidateResult) -> Out {
    match r {
        Ok(()) => Out::Ok,
        Err(e) => classify(&e),
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{}", i);
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = s);
    }));
}

pub const BUDGET: u64 = 400_000_000;

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let (r, _) = san::with_budget(BUDGET, || catch_unwind(AssertUnwindSafe(f)));
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

fn out(r: Result<ValidateResult, String>) -> Out {
    match r {
        Ok(r) => res(r),
        Err(p) => Out::Panic(p),
    }
}

pub fn compile(text: &str) -> Result<BasicContext, Out> {
    match guard(|| flatten_from_str(text)) {
        Ok(Ok(r)) => Ok(BasicContext::new(r)),
        Ok(Err(e)) => Err(classify(&e)),
        Err(p) => Err(Out::Panic(p)),
    }
}

/// What looking up the rule gives, when validating with a prepared schema.
fn with_rule(ctx: &BasicContext, rule: &str, f: impl FnOnce(&cddl_cat::ivt::RuleDef) -> ValidateResult) -> Out {
    match ctx.rules.get(rule) {
        None => Out::Fatal(Kind::Missing, rule.into()),
        Some(d) => out(guard(|| f(d))),
    }
}

pub fn cbor(ctx: &BasicContext, rule: &str, v: &ciborium::Value) -> Out {
    with_rule(ctx, rule, |d| cddl_cat::cbor::validate_cbor(d, v, ctx))
}
pub fn cbor_ctx(lc: &dyn LookupContext, def: &cddl_cat::ivt::RuleDef, v: &ciborium::Value) -> Out {
    out(guard(|| cddl_cat::cbor::validate_cbor(def, v, lc)))
}
pub fn json(ctx: &BasicContext, rule: &str, v: &serde_json::Value) -> Out {
    with_rule(ctx, rule, |d| cddl_cat::json::validate_json(d, v, ctx))
}
pub fn cbor_bytes(rule: &str, text: &str, b: &[u8]) -> Out {
    out(guard(|| cddl_cat::validate_cbor_bytes(rule, text, b)))
}
pub fn json_str(rule: &str, text: &str, j: &str) -> Out {
    out(guard(|| cddl_cat::validate_json_str(rule, text, j)))
}
pub fn parse(text: &str) -> Result<Result<cddl_cat::ast::Cddl, String>, String> {
    guard(|| cddl_cat::parse_cddl(text).map_err(|e| format!("{:?}", e)))
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

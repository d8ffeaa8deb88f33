use crate::fw::Prop;
mod config;
mod cost;
pub mod diff;
mod errors;
mod equal;
mod prepared;
mod api;
mod rewrite;
mod robust;
mod sem;
mod syntax;
pub mod wide;

pub fn all() -> &'static [Prop] {
    static ALL: std::sync::OnceLock<Vec<Prop>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = vec![];
        v.extend(sem::props());
        v.extend(rewrite::props());
        v.extend(api::props());
        v.extend(syntax::props());
        v.extend(robust::props());
        v.extend(cost::props());
        v.extend(config::props());
        v.extend(errors::props());
        v.extend(prepared::props());
        v.extend(equal::props());
        v
    })
}

/// Helper processes used by some properties.
pub fn aux(a: &[String]) -> i32 {
    match a[0].as_str() {
        "fresh" => api::aux_fresh(&a[1]),
        _ => 2,
    }
}

//! Messages and traits generated by kameo's macros, compared with calling the methods they stand for
//! and with hand-written implementations.
#[path = "../../loc/src/core.rs"]
#[allow(dead_code)]
mod core;
mod derives;
mod forms;
#[path = "../../loc/src/run.rs"]
#[allow(dead_code)]
mod run;

pub use run::{cpu_ms, det, mt, raw, Family};

fn all() -> Vec<Family> {
    let mut v = forms::families();
    v.extend(derives::families());
    v
}

fn main() {
    run::main(all, |p| p.is::<forms::Thrown>());
}

mod core;
mod history;
mod probe;
mod run;
mod sc_ask;
mod sc_hook;
mod sc_hubs;
mod sc_life;
mod sc_link;
mod sc_mail;
mod sc_msg;
mod sc_pool;
mod sc_rec;
mod sc_stream;
mod sc_val;

pub use run::{cpu_ms, det, mt, raw, Family};

fn all() -> Vec<Family> {
    let mut v = Vec::new();
    v.extend(sc_msg::families());
    v.extend(sc_ask::families());
    v.extend(sc_life::families());
    v.extend(sc_rec::families());
    v.extend(sc_pool::families());
    v.extend(sc_val::families());
    v.extend(sc_hubs::families());
    v.extend(sc_stream::families());
    v.extend(sc_hook::families());
    v.extend(sc_link::families());
    v.extend(sc_mail::families());
    v
}

fn main() {
    run::main(all, |p| p.is::<probe::VPanic>());
}

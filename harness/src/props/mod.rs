use crate::engine::{CaseFn, Part, Prop};
pub mod cells;
pub mod events;
pub mod gtid;
pub mod multi;
pub mod net;
pub mod repl;
pub mod runs;

pub fn part(name: &'static str, quick: usize, thorough: usize, f: CaseFn) -> Part {
    Part { name, quick, thorough, threads: 8, f }
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(cells::props());
    v.extend(events::props());
    v.extend(gtid::props());
    v.extend(repl::props());
    v.extend(net::props());
    v.extend(multi::props());
    v.extend(runs::props());
    v
}

use crate::driver::Check;

mod binaries;
mod concurrent;
mod crowd;
mod durable;
mod faults;
mod formats;
mod graph;
mod long;
mod huge;
mod power;
mod remote;
mod scripted;
mod values;
mod wide;

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(graph::checks());
    v.extend(values::checks());
    v.extend(durable::checks());
    v.extend(remote::checks());
    v.extend(concurrent::checks());
    v.extend(binaries::checks());
    v.extend(faults::checks());
    v.extend(formats::checks());
    v.extend(power::checks());
    v
}

/// What a check's subprocesses do.
pub fn sub(args: &[&str]) -> i32 {
    match args {
        ["power", rest @ ..] => power::sub(rest),
        _ => durable::sub(args),
    }
}

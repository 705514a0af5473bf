mod checks;
mod driver;
mod fault;
mod gen;
mod hist;
mod model;
mod noise;
mod shrink;
mod store;
mod wire;
#[macro_use]
mod types;

fn main() {
    // whatever started this may have had signals ignored or blocked, which processes inherit
    unsafe {
        for s in [libc::SIGINT, libc::SIGTERM, libc::SIGHUP, libc::SIGQUIT, libc::SIGCHLD] {
            libc::signal(s, libc::SIG_DFL);
        }
        let mut none = std::mem::zeroed();
        libc::sigemptyset(&mut none);
        libc::sigprocmask(libc::SIG_SETMASK, &none, std::ptr::null_mut());
    }
    store::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let all = checks::all();
    let code = match a.get(1..).unwrap_or(&[]) {
        ["check", id] => driver::check(find(&all, id)),
        ["worker", id, seed, share, slots, report] => {
            driver::worker(find(&all, id), seed.parse().unwrap(), share.parse().unwrap(), slots, report);
            let _ = std::fs::remove_dir_all(store::scratch_root());
            0
        }
        ["replay", file] => driver::replay(&all, file),
        ["case", id, part, i] => {
            let c = find(&all, id);
            let p = c.parts.iter().find(|p| p.part.name() == *part).expect("part");
            let case = p.part.make(driver::seed(), c.id, i.parse().unwrap());
            println!("{}", serde_json::json!({"property": id, "part": part, "case": case}));
            0
        }
        ["sub", rest @ ..] => checks::sub(rest),
        _ => {
            eprintln!("usage: harness check <id> | replay <file>");
            2
        }
    };
    std::process::exit(code);
}

fn find<'a>(all: &'a [driver::Check], id: &str) -> &'a driver::Check {
    all.iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("no check {id}");
        std::process::exit(2)
    })
}

mod ak;
mod pr;
mod ct;
mod es;
mod tk;
mod ed;
mod gm;
mod tp;
mod st;
mod lv;
mod mdgen;
mod vw;
mod wr;
mod emu;
mod out;
mod rng;
mod cr;
mod ft;
mod rd;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or_else(|| d.to_string())
    };
    let cmd = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let prop = get("--prop", "");
    let path = get("--out", "/dev/null");
    let budget: usize = get("--budget", "1000").parse().unwrap();
    let thorough = get("--tier", "quick") == "thorough";
    out::install_panic_hook();
    out::start_watchdog(path.clone(), 20);
    if cmd == "ask-child" {
        return ak::child(seed, &path);
    }
    if cmd == "es-child" {
        return es::child(seed, &path, &prop);
    }
    if cmd == "print-text-child" {
        return pr::child(seed, &path);
    }
    if cmd == "print-child" {
        return tp::child(seed, &path);
    }
    let mut o = out::Out::create(&path);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        match cmd.as_str() {
            "ed" => ed::run(seed, &prop, thorough, budget, &mut o),
            "ct" => ct::run(seed, &prop, thorough, budget, &mut o),
            "st" => st::run(seed, &prop, thorough, budget, &mut o),
            "tp" => tp::run(seed, &prop, thorough, budget, &mut o),
            "ak" => ak::run(seed, &prop, thorough, budget, &mut o),
            "tk" => tk::run(seed, &prop, thorough, budget, &mut o),
            "es" => es::run(seed, &prop, thorough, budget, &mut o),
            "pr" => pr::run(seed, &prop, thorough, budget, &mut o),
            "gm" => gm::run(seed, &prop, thorough, budget, &mut o),
            "lv" => lv::run(seed, &prop, thorough, budget, &mut o),
            "vw" => vw::run(seed, &prop, thorough, budget, &mut o),
            "sb" => vw::run_sb(seed, &prop, thorough, budget, &mut o),
            "rd" => rd::run(seed, &prop, thorough, budget, &mut o),
            "ft" => ft::run(seed, &prop, thorough, budget, &mut o),
            "cr" => cr::run(seed, &prop, thorough, budget, &mut o),
            "wr" => wr::run(seed, &prop, thorough, budget, &mut o),
            _ => {
                eprintln!("unknown command {cmd}");
                std::process::exit(2);
            }
        }
    }));
    if r.is_err() {
        // a panic out of any guarded call: of the code under test, or because of what it returned
        let m = out::last_panic();
        eprintln!("PANIC {m}");
        let of_system = ["Os {", "out.rs", "libc::", "posix_openpt", "unlockpt", "ptsname", "slave"];
        std::process::exit(if of_system.iter().any(|x| m.contains(x)) { 2 } else { 4 });
    }
    o.done();
}

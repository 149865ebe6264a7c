mod cfront;
mod comp;
mod cvm;
mod driver;
mod explore;
mod gen;
mod node;
mod wasm;
use std::collections::HashSet;
use std::path::PathBuf;

fn scratch(sub: &str) -> PathBuf {
    let base = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    base.join(format!("vp-{}-{sub}", std::process::id()))
}
pub fn unlimit_memory() { unsafe { let r = libc_rlimit { cur: u64::MAX, max: u64::MAX }; setrlimit(9, &r); } }
fn limit_memory() { unsafe { let r = libc_rlimit { cur: 6 << 30, max: u64::MAX }; setrlimit(9, &r); } }
#[repr(C)] struct libc_rlimit { cur: u64, max: u64 }
extern "C" { fn setrlimit(r: i32, l: *const libc_rlimit) -> i32; }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let repo = std::env::var("VP_REPO").unwrap_or_else(|_| "/repo".into());
    let verif = PathBuf::from(std::env::var("VP_VERIF").unwrap_or_else(|_| "/verif".into()));
    std::env::set_current_dir(&repo).expect("repository");
    let code = match a.get(1).map(|s| s.as_str()).unwrap_or("") {
        "check" => {
            let tier = a.get(3).cloned().unwrap_or("quick".into());
            let dir = scratch("check"); std::fs::create_dir_all(&dir).unwrap();
            let n = std::env::var("VP_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8));
            let deadline = std::env::var("VP_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 780.0 } else { 0.0 });
            let cfg = driver::Cfg { prop: a[2].clone(), tier, n, deadline, dir: dir.clone() };
            let c = driver::supervise(&cfg, &verif);
            let _ = std::fs::remove_dir_all(&dir);
            c
        }
        "worker" => {
            limit_memory();
            let dir = PathBuf::from(&a[7]);
            let k: usize = a[4].parse().unwrap();
            comp::init(dir.join(format!("w{k}")), !matches!(a[2].as_str(), "C22" | "C23" | "C24" | "C25"));
            let skip: HashSet<String> = std::fs::read_to_string(dir.join(format!("skip{k}"))).unwrap_or_default().lines().map(|s| s.to_string()).collect();
            driver::worker(&driver::Cfg { prop: a[2].clone(), tier: a[3].clone(), n: a[5].parse().unwrap(), deadline: a[6].parse().unwrap(), dir }, k, &skip)
        }
        "one" | "show" => {
            limit_memory();
            let own = a.get(5).is_none();
            let dir = a.get(5).map(PathBuf::from).unwrap_or_else(|| scratch("one"));
            comp::init(dir.join(format!("one{}", std::process::id())), !matches!(a[2].as_str(), "C22" | "C23" | "C24" | "C25"));
            std::thread::spawn(|| loop { std::thread::sleep(std::time::Duration::from_millis(500)); if comp::check_hangs().is_some() { std::process::exit(42); } });
            let mut code = 5;
            gen::family(&a[2], a[3] == "thorough", &mut |c: driver::Case| if c.id == a[4] {
                if a[1] == "show" { println!("{}", c.src); }
                code = match driver::run_case(&c, &mut |_| {}) { driver::Verdict::Ok(o) => { println!("ok {:?}", o.stats); 0 } driver::Verdict::Bad { opts, seed, what } => { println!("VIOLATION {} seed {seed}: {what}", opts.name()); 1 } driver::Verdict::Engine(e) => { println!("engine: {e}"); 2 } };
            });
            if own { let _ = std::fs::remove_dir_all(&dir); }
            code
        }
        "list" => { let mut n = 0u64; let mut bytes = 0; let full = a.get(4).is_some(); let mut ids = HashSet::new(); let mut dup = 0; gen::family(&a[2], a.get(3).map(|s| s.as_str()) == Some("thorough"), &mut |c: driver::Case| { n += 1; bytes += c.src.len(); if !ids.insert(c.id.clone()) { dup += 1; if dup < 5 { println!("duplicate {}", c.id); } } if full { println!("{}", c.id); } }); println!("{} cases, {} bytes, {} duplicate ids", n, bytes, dup); 0 }
        "run" => {
            let src = std::fs::read_to_string(&a[2]).unwrap();
            let opts = a.get(3).map(|s| comp::Opts::from_name(s)).unwrap_or(comp::Opts::DEFAULT);
            comp::init(scratch("run"), true);
            run1(&src, opts, a.get(4).map(|s| s.parse().unwrap()).unwrap_or(0));
            let _ = std::fs::remove_dir_all(scratch("run"));
            0
        }
        "multi" => {
            let all = std::fs::read_to_string(&a[2]).unwrap();
            comp::init(scratch("run"), true);
            let opts = a.get(3).map(|s| comp::Opts::from_name(s)).unwrap_or(comp::Opts::NONE);
            for part in all.split("//@").skip(1) { let (name, src) = part.split_once('\n').unwrap(); print!("{name}: "); run1(src, opts, 0); }
            let _ = std::fs::remove_dir_all(scratch("run"));
            0
        }
        _ => { eprintln!("usage: vharness check|one|show|list|run|multi"); 2 }
    };
    std::process::exit(code);
}
fn run1(src: &str, opts: comp::Opts, seed: u64) {
    let rf = match explore::reference(src, &[]) { Ok(r) => r, Err(e) => { println!("reference rejects: {e}"); let r = comp::compile(src, opts, seed); println!("   compiler: {:?}", r.map(|b| b.len())); return; } };
    let b = match comp::compile(src, opts, seed) { Ok(b) => b, Err(e) => { println!("COMPILER {e:?}"); return; } };
    let m = match explore::module_of(&b) { Ok(m) => m, Err(e) => { println!("INVALID {e}"); return; } };
    match explore::explore(&rf, &m, &explore::Limits::default(), &[], opts.prof) { Ok(s) => println!("ok states {} trans {} done {} ub {} ord {} fuel {} trunc {}", s.states, s.transitions, s.runs_done, s.pruned_ub, s.pruned_order, s.fuel, s.truncated), Err(v) => println!("VIOLATION {} path {:?}", v.what, v.path) }
}

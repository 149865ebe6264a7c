//! Drives the real compiler (`c_to_wasm_compiler::run`) in-process.
//!
//! Every compilation runs on a fresh thread whose hash seed (what `RandomState` reads from the
//! operating system) is chosen by the caller, so the only source of nondeterminism in the
//! compiler - the iteration order of its hash maps - is under the harness's control and every
//! result is reproducible.
use clap::Parser;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0) };
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Replaces libc's getrandom for this process: deterministic per (thread seed).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = SEED.try_with(|s| s.get()).unwrap_or(0).wrapping_mul(0x5851F42D4C957F2D).wrapping_add(1);
    let mut i = 0;
    while i < len {
        let v = splitmix(&mut s).to_le_bytes();
        for b in v { if i < len { *buf.add(i) = b; i += 1; } }
    }
    len as isize
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Opts { pub tail: bool, pub unreach: bool, pub stack: bool, pub prof: bool }
impl Opts {
    pub const DEFAULT: Opts = Opts { tail: true, unreach: true, stack: true, prof: false };
    pub const NONE: Opts = Opts { tail: false, unreach: false, stack: false, prof: false };
    pub fn all8() -> Vec<Opts> { (0..8).map(|i| Opts { tail: i & 1 == 0, unreach: i & 2 == 0, stack: i & 4 == 0, prof: false }).collect() }
    pub fn all16() -> Vec<Opts> { (0..16).map(|i| Opts { tail: i & 1 == 0, unreach: i & 2 == 0, stack: i & 4 == 0, prof: i & 8 != 0 }).collect() }
    pub fn args(&self) -> Vec<&'static str> {
        vec![
            if self.tail { "--opt-tailcall" } else { "--noopt-tailcall" },
            if self.unreach { "--opt-unreachable-procedure" } else { "--noopt-unreachable-procedure" },
            if self.stack { "--opt-stack-allocation" } else { "--noopt-stack-allocation" },
            if self.prof { "--prof-stack" } else { "--noprof-stack" },
        ]
    }
    pub fn name(&self) -> String {
        format!("{}{}{}{}", if self.tail { 'T' } else { 't' }, if self.unreach { 'U' } else { 'u' }, if self.stack { 'S' } else { 's' }, if self.prof { 'P' } else { 'p' })
    }
    pub fn from_name(s: &str) -> Opts { let b = s.as_bytes(); Opts { tail: b[0] == b'T', unreach: b[1] == b'U', stack: b[2] == b'S', prof: b[3] == b'P' } }
}

#[derive(Clone, Debug, PartialEq)]
pub enum CompErr {
    /// the compiler returned an error
    Rejected(String),
    /// the compiler panicked
    Panic(String),
}

pub static COMPILES: AtomicU64 = AtomicU64::new(0);
pub const HANG_SECS: u64 = 60;

struct Slot { started: Option<Instant>, src: String }
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(Vec::new());
static DIR: Mutex<Option<PathBuf>> = Mutex::new(None);
static NEXT: AtomicUsize = AtomicUsize::new(0);

thread_local! { static SLOT: Cell<usize> = const { Cell::new(usize::MAX) }; }
thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn scratch_dir() -> PathBuf { DIR.lock().unwrap().clone().expect("scratch dir") }

pub fn init(dir: PathBuf, use_shim: bool) {
    std::fs::create_dir_all(&dir).unwrap();
    *DIR.lock().unwrap() = Some(dir);
    if use_shim {
        let shim = std::env::var("VP_CPP_SHIM").unwrap_or_default();
        if !shim.is_empty() {
            let p = std::env::var("PATH").unwrap_or_default();
            std::env::set_var("PATH", format!("{shim}:{p}"));
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| { let f = l.file(); let f = f.rsplit_once("/src/").map(|x| x.1).unwrap_or(f); f.to_string() }).unwrap_or_default();
        let msg = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let on_comp = std::thread::current().name() == Some("comp");
        if !on_comp { eprintln!("harness panic: {msg} at {:?}", i.location()); }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{loc}: {msg}"));
    }));
}

/// A compilation that does not terminate is reported by this watchdog (see main.rs).
pub fn check_hangs() -> Option<String> {
    let s = SLOTS.lock().unwrap();
    for x in s.iter() { if let Some(t) = x.started { if t.elapsed() > Duration::from_secs(HANG_SECS) { return Some(x.src.clone()); } } }
    None
}

fn slot() -> usize {
    SLOT.with(|s| {
        if s.get() == usize::MAX {
            let n = NEXT.fetch_add(1, Ordering::SeqCst);
            SLOTS.lock().unwrap().push(Slot { started: None, src: String::new() });
            s.set(n);
        }
        s.get()
    })
}

pub fn compile_file(path: &str, out: &str, opts: &[&str], seed: u64) -> Result<Vec<u8>, CompErr> {
    COMPILES.fetch_add(1, Ordering::Relaxed);
    let mut argv: Vec<String> = vec!["c".into(), path.into(), "-o".into(), out.into()];
    argv.extend(opts.iter().map(|s| s.to_string()));
    let outs = out.to_string();
    let r = std::thread::Builder::new().name("comp".into()).stack_size(512 << 20).spawn(move || {
        SEED.with(|s| s.set(seed));
        let r = catch_unwind(AssertUnwindSafe(|| {
            let cfg = c_to_wasm_compiler::CliConfig::try_parse_from(argv).map_err(|e| format!("cli: {e}"))?;
            c_to_wasm_compiler::run(cfg).map_err(|e| e.to_string())
        }));
        match r {
            Ok(Ok(())) => std::fs::read(&outs).map_err(|e| CompErr::Rejected(format!("no output written: {e}"))),
            Ok(Err(e)) => Err(CompErr::Rejected(e)),
            Err(_) => Err(CompErr::Panic(LAST_PANIC.with(|p| p.borrow().clone()))),
        }
    }).unwrap().join();
    match r { Ok(r) => r, Err(_) => Err(CompErr::Panic("thread panicked".into())) }
}

/// Compiles a history of programs, one after the other, on one thread: the result of each.
pub fn compile_history(hist: &[(String, Opts)], seed: u64) -> Vec<Result<Vec<u8>, CompErr>> {
    let k = slot();
    let dir = scratch_dir();
    { let mut s = SLOTS.lock().unwrap(); s[k].started = Some(Instant::now()); s[k].src = "history".into(); }
    let mut jobs = vec![];
    for (i, (src, o)) in hist.iter().enumerate() {
        let (c, w) = (dir.join(format!("h{k}-{i}.c")), dir.join(format!("h{k}-{i}.wasm")));
        std::fs::write(&c, src).unwrap(); let _ = std::fs::remove_file(&w);
        let mut a = vec!["c".to_string(), c.to_str().unwrap().into(), "-o".into(), w.to_str().unwrap().into()]; a.extend(o.args().iter().map(|s| s.to_string()));
        jobs.push((a, c, w));
    }
    COMPILES.fetch_add(jobs.len() as u64, Ordering::Relaxed);
    let r = std::thread::Builder::new().name("comp".into()).stack_size(512 << 20).spawn(move || {
        SEED.with(|s| s.set(seed));
        jobs.into_iter().map(|(a, c, w)| {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let cfg = c_to_wasm_compiler::CliConfig::try_parse_from(a).map_err(|e| format!("cli: {e}"))?;
                c_to_wasm_compiler::run(cfg).map_err(|e| e.to_string())
            }));
            let r = match r {
                Ok(Ok(())) => std::fs::read(&w).map_err(|e| CompErr::Rejected(format!("no output written: {e}"))),
                Ok(Err(e)) => Err(CompErr::Rejected(e)),
                Err(_) => Err(CompErr::Panic(LAST_PANIC.with(|p| p.borrow().clone()))),
            };
            let _ = std::fs::remove_file(c); let _ = std::fs::remove_file(w);
            r
        }).collect::<Vec<_>>()
    }).unwrap().join().unwrap();
    { let mut s = SLOTS.lock().unwrap(); s[k].started = None; }
    r
}

pub fn compile(src: &str, opts: Opts, seed: u64) -> Result<Vec<u8>, CompErr> { compile_with(src, &[], opts, seed) }

pub fn compile_with(src: &str, files: &[(String, String)], opts: Opts, seed: u64) -> Result<Vec<u8>, CompErr> {
    let k = slot();
    let dir = scratch_dir();
    let c = dir.join(format!("t{k}.c"));
    let o = dir.join(format!("t{k}.wasm"));
    let me = format!("t{k}");
    let own: Vec<PathBuf> = files.iter().map(|(n, t)| { let p = dir.join(n.replace("SELF", &me)); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(&p, t).unwrap(); p }).collect();
    let src = &if files.is_empty() { src.to_string() } else { src.replace("SELF", &me) };
    std::fs::write(&c, src).unwrap();
    let _ = std::fs::remove_file(&o);
    { let mut s = SLOTS.lock().unwrap(); s[k].started = Some(Instant::now()); s[k].src = format!("// opts {} seed {}\n{}", opts.name(), seed, src); }
    let r = compile_file(c.to_str().unwrap(), o.to_str().unwrap(), &opts.args(), seed);
    { let mut s = SLOTS.lock().unwrap(); s[k].started = None; }
    for p in own { let _ = std::fs::remove_file(p); }
    r
}

pub fn output_exists() -> bool { scratch_dir().join(format!("t{}.wasm", slot())).exists() }

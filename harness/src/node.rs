//! Runs compiled modules under the repository's own JavaScript runtime, from a private copy of it
//! (the runtime writes its profiling log next to itself), and other helper processes.
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Out { pub out: Vec<u8>, pub err: Vec<u8>, pub code: Option<i32> }

/// Runs a process to completion, or kills it after `secs`.
pub fn wait(c: &mut Command, secs: u64) -> Result<Out, String> {
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe { use std::os::unix::process::CommandExt; c.pre_exec(|| { crate::unlimit_memory(); Ok(()) }); }
    let mut p = c.spawn().map_err(|e| format!("engine: cannot start {:?}: {e}", c.get_program()))?;
    let (mut o, mut e) = (p.stdout.take().unwrap(), p.stderr.take().unwrap());
    let to = std::thread::spawn(move || { let mut v = vec![]; let _ = o.read_to_end(&mut v); v });
    let te = std::thread::spawn(move || { let mut v = vec![]; let _ = e.read_to_end(&mut v); v });
    let t = Instant::now();
    let mut nap = 1;
    let code = loop {
        if let Some(s) = p.try_wait().map_err(|e| format!("engine: {e}"))? { break s.code(); }
        if t.elapsed() > Duration::from_secs(secs) { let _ = p.kill(); let _ = p.wait(); return Err(format!("does not end within {secs} s")); }
        std::thread::sleep(Duration::from_millis(nap)); nap = (nap + 1).min(10);
    };
    Ok(Out { out: to.join().unwrap(), err: te.join().unwrap(), code })
}

pub fn repo() -> PathBuf { PathBuf::from(std::env::var("VP_REPO").unwrap_or_else(|_| "/repo".into())) }
pub fn verif() -> PathBuf { PathBuf::from(std::env::var("VP_VERIF").unwrap_or_else(|_| "/verif".into())) }

fn copy(from: &Path, to: &Path) -> Result<(), String> {
    std::fs::create_dir_all(to).map_err(|e| format!("engine: {e}"))?;
    for e in std::fs::read_dir(from).map_err(|e| format!("engine: {}: {e}", from.display()))? {
        let e = e.map_err(|e| format!("engine: {e}"))?;
        let t = to.join(e.file_name());
        if e.path().is_dir() { copy(&e.path(), &t)?; } else { std::fs::copy(e.path(), t).map_err(|e| format!("engine: {e}"))?; }
    }
    Ok(())
}

/// A private copy of the runtime with an empty `logs` directory beside it.
pub fn runtime() -> Result<PathBuf, String> {
    let d = crate::comp::scratch_dir().join("rt");
    if !d.join("runtime").exists() { copy(&repo().join("runtime"), &d.join("runtime"))?; std::fs::create_dir_all(d.join("logs")).map_err(|e| format!("engine: {e}"))?; }
    Ok(d)
}

/// What one run of `run.mjs` wrote to the stack pointer log.
pub fn take_log(rt: &Path) -> Result<Option<Vec<u32>>, String> {
    let mut r = None;
    for e in std::fs::read_dir(rt.join("logs")).map_err(|e| format!("engine: {e}"))? {
        let p = e.map_err(|e| format!("engine: {e}"))?.path();
        let s = std::fs::read_to_string(&p).map_err(|e| format!("engine: {e}"))?;
        std::fs::remove_file(&p).map_err(|e| format!("engine: {e}"))?;
        if r.is_some() { return Err("one run wrote two stack pointer logs".into()); }
        r = Some(s.lines().map(|l| l.parse::<u32>().map_err(|_| format!("the stack pointer log holds the line {l:?}"))).collect::<Result<Vec<_>, _>>()?);
    }
    Ok(r)
}

pub fn run(rt: &Path, wasm: &Path, args: &[&std::ffi::OsStr]) -> Result<Out, String> {
    wait(Command::new("node").arg(rt.join("runtime/run.mjs")).arg(wasm).args(args).current_dir(rt), 60)
}

/// The same program built by the C compiler of the system.
pub fn gcc(src: &str, name: &str) -> Result<PathBuf, String> {
    let d = crate::comp::scratch_dir();
    let (c, x) = (d.join(format!("{name}.gcc.c")), d.join(format!("{name}.gcc")));
    std::fs::write(&c, src).map_err(|e| format!("engine: {e}"))?;
    let o = wait(Command::new("gcc").args(["-std=c11", "-O0", "-w", "-fwrapv", "-o"]).arg(&x).arg(&c), 60)?;
    if o.code != Some(0) { return Err(format!("engine: gcc: {}", String::from_utf8_lossy(&o.err))); }
    Ok(x)
}

/// The command-line compiler, built from the repository's `src/main.rs` by the harness crate.
pub fn compiler() -> PathBuf { std::env::current_exe().unwrap().with_file_name("compiler") }

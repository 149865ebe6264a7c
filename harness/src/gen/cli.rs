//! C25: the command line. Every case runs the compiler's own binary in a scratch directory, which
//! it may only change by writing the requested module.
use super::opt::{feature, FEATURES};
use super::*;
use crate::explore::{self, Stats};
use crate::wasm::{Machine, Stop};
use crate::{comp, node};
use std::collections::BTreeMap;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::Command;

const FLAGS: [&str; 8] = ["--opt-tailcall", "--noopt-tailcall", "--opt-unreachable-procedure", "--noopt-unreachable-procedure", "--opt-stack-allocation", "--noopt-stack-allocation", "--prof-stack", "--noprof-stack"];
/// what a command line asks for
#[derive(Debug, Clone, PartialEq)]
enum Ask { Run { input: String, output: String, opts: Opts }, Refuse, /// a flag given twice, or help: it may be refused; if it is not, it is honoured
    Maybe(Box<Ask>), Help }
/// The model of the command line: options in any order around one file name; `--` ends the options.
fn parse(args: &[String]) -> Ask { if args.iter().any(|a| a.starts_with("-h") || a == "--help") { Ask::Help } else { parse1(args) } }
fn parse1(args: &[String]) -> Ask {
    let (mut set, mut input, mut output, mut i, mut dash, mut maybe) = ([None; 4], None, None, 0, false, false);
    while i < args.len() {
        let a = args[i].as_str(); i += 1;
        let mut value = |v: String| { let d = output.is_some(); output = Some(v); d };
        if dash || a == "-" || !a.starts_with('-') { if input.is_some() { return Ask::Refuse; } input = Some(a.to_string()); }
        else if a == "--" { dash = true; }
        else if let Some(k) = FLAGS.iter().position(|f| *f == a) { match set[k / 2] { None => set[k / 2] = Some(k % 2 == 0), Some(x) if x == (k % 2 == 0) => maybe = true, _ => return Ask::Refuse } }
        else if let Some(v) = a.strip_prefix("--output=") { if value(v.into()) { return Ask::Refuse; } }
        else if a == "-o" || a == "--output" { match args.get(i) { Some(v) if v == "-" || !v.starts_with('-') => { i += 1; if value(v.clone()) { return Ask::Refuse; } } _ => return Ask::Refuse } }
        else if let Some(v) = a.strip_prefix("-o") { if value(v.strip_prefix('=').unwrap_or(v).into()) { return Ask::Refuse; } }
        else { return Ask::Refuse; }
    }
    let Some(input) = input else { return Ask::Refuse };
    let g = |k: usize, d: bool| set[k].unwrap_or(d);
    let r = Ask::Run { input, output: output.unwrap_or("module.wasm".into()), opts: Opts { tail: g(0, true), unreach: g(1, true), stack: g(2, true), prof: g(3, false) } };
    if maybe { Ask::Maybe(Box::new(r)) } else { r }
}

/// A program whose compiled form tells the options apart: what `strlen(0)` answers selects the experiment.
const PROBE: &str = "int strlen(int t);\nint strtol(long v);\nint unused(int n) { return strlen(n * 1234567); }\nint tail(int n) { if (n == 0) return 77; return tail(n - 1); }\nint deep(int n) { int r; if (n == 0) { return 5; } if (n % 2) { long a = n + 1, b = a + 2, c = b + 3; r = strlen(10) + a + b + c; } else { long d = n + 4, e = d + 5, f = e + 6; r = strlen(11) + d + e + f; } return deep(n - 1) + r % 2; }\nint main() { int k = strlen(0); if (k == 1) return tail(20000); if (k == 2) return deep(DEEP); strtol(42); return 3; }\n";
const DEEP: u32 = 300;
fn probe() -> String { PROBE.replace("DEEP", &DEEP.to_string()) }

/// One run of a module: what it returned or why it stopped, and how often it reported the stack pointer.
fn run(m: &std::rc::Rc<crate::wasm::Module>, k: u32) -> Result<(Result<u32, &'static str>, u64, Vec<i64>), String> {
    let mut x = Machine::new(m.clone())?;
    let sp = x.rd32(8).ok_or("no memory")?;
    x.invoke("main", &[0, sp as u64])?;
    let (mut rep, mut ev) = (0, vec![]);
    loop { match x.run(50_000_000) {
        Stop::Done(v) => return Ok((Ok(v.unwrap_or(0) as u32), rep, ev)),
        Stop::Trap(t) => return Ok((Err(t), rep, ev)),
        Stop::Fuel => return Err("the program does not end".into()),
        Stop::Host(i) => {
            let f = m.host_funcs[i as usize].1.as_str();
            if f == "log_stack_ptr" { rep += 1; continue; }
            let fp = x.rd32(0).ok_or("no memory")?;
            let a = x.rd(fp + 4 + if f == "strtol" { 4 } else { 4 }, 4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).ok_or("argument outside memory")?;
            ev.push(a as i64);
            x.wr(fp + 4, &(if f == "strlen" && a == 0 { k } else { 1 }).to_le_bytes());
        }
    } }
}
/// The options a module of the probe program was compiled with.
fn decode(b: &[u8]) -> Result<Opts, String> {
    let m = explore::module_of(b).map_err(|e| format!("the module is invalid: {e}"))?;
    let (r, rep, ev) = run(&m, 0)?;
    if r != Ok(3) || ev != [0, 42] { return Err(format!("the compiled program returned {r:?} after the calls {ev:?}")); }
    let tail = match run(&m, 1)?.0 { Ok(77) => true, Err(_) => false, o => return Err(format!("the compiled program returned {o:?} instead of 77")) };
    let stack = match run(&m, 2)?.0 { Ok(v) if v < 1000 => true, Err(_) => false, o => return Err(format!("the compiled program returned {o:?}")) };
    let k = [0x87u8, 0xad, 0xcb, 0x00];
    Ok(Opts { tail, unreach: !b.windows(4).any(|w| w == k), stack, prof: rep > 0 })
}

type Tree = BTreeMap<PathBuf, Vec<u8>>;
fn tree(d: &Path, at: &Path, t: &mut Tree) {
    let Ok(r) = std::fs::read_dir(d.join(at)) else { return };
    for e in r.flatten() { let p = at.join(e.file_name()); let m = e.path().symlink_metadata();
        match m { Ok(m) if m.is_dir() => { t.insert(p.clone(), b"dir".to_vec()); tree(d, &p, t) } Ok(m) if m.file_type().is_symlink() => { t.insert(p, format!("link {:?}", std::fs::read_link(e.path())).into_bytes()); } Ok(m) if m.is_file() => { t.insert(p, std::fs::read(e.path()).unwrap_or_default()); } _ => { t.insert(p, b"other".to_vec()); } } }
}
fn snap(d: &Path) -> Tree { let mut t = Tree::new(); tree(d, Path::new(""), &mut t); t }
fn eng<T>(r: std::io::Result<T>) -> Result<T, String> { r.map_err(|e| format!("engine: {e}")) }

/// A fresh working directory: the bundled headers, the probe program, and a few files in the way.
fn world() -> Result<PathBuf, String> {
    let d = comp::scratch_dir().join("cli");
    if d.exists() { eng(std::fs::remove_dir_all(&d))?; }
    eng(std::fs::create_dir_all(d.join("dir")))?;
    eng(std::os::unix::fs::symlink(node::repo().join("headers"), d.join("headers")))?;
    let w = |n: &str, b: &[u8]| eng(std::fs::write(d.join(n), b));
    w("in.c", probe().as_bytes())?; w("dir/in.c", format!("#include \"side.h\"\n{}", probe().replace("1234567", "SIDE")).as_bytes())?; w("dir/side.h", b"#define SIDE 1234567\n")?;
    w("std.c", format!("#include <limits.h>\n#include <stdio.h>\n{}", probe().replace("int strlen(int t);", "int strlen(int t); int m = INT_MAX;")).as_bytes())?;
    w("a b'\"é.c", probe().as_bytes())?; w("-x.c", probe().as_bytes())?; w("noext", probe().as_bytes())?; w("-", probe().as_bytes())?;
    w("big.c", format!("{}{}", "/* a comment that takes up room in the pipe to the preprocessor */\n".repeat(6000), probe()).as_bytes())?;
    w("wide.c", format!("{}{}", (0..1500).map(|k| format!("int filler_function_{k}(int argument) {{ return argument + {k}; }}\n")).collect::<String>(), probe()).as_bytes())?;
    w("empty.c", b"")?; w("syntax.c", b"int main( { return 0; }\n")?; w("rule.c", b"int main() { return undeclared; }\n")?; w("error.c", b"#error stop\nint main() { return 0; }\n")?;
    w("noinc.c", b"#include \"nowhere.h\"\nint main() { return 0; }\n")?; w("dirinc.c", b"#include \"dir\"\nint main() { return 0; }\n")?; w("sysinc.c", b"#include <unistd.h>\nint main() { return 0; }\n")?; w("cond.c", b"#if 1\nint main() { return 0; }\n")?;
    w("latin.c", b"/* \xe9 */ int main() { return 0; }\n")?; w("latin2.c", b"#include \"latin.h\"\nint main() { return 0; }\n")?; w("latin.h", b"int \xe9;\n")?;
    w("late.c", b"int f(void); int main() { int a[3]; a = 0; return f(); }\n")?;
    w("stale.wasm", &[b'x'; 100_000])?; w("short.wasm", b"x")?; w("other.txt", b"precious")?;
    eng(std::os::unix::fs::symlink("in.c", d.join("link.c")))?; eng(std::os::unix::fs::symlink("gone.c", d.join("dangling.c")))?; eng(std::os::unix::fs::symlink("loop.c", d.join("loop.c")))?;
    eng(std::os::unix::fs::symlink("stale.wasm", d.join("link.wasm")))?; eng(std::os::unix::fs::symlink("fresh.wasm", d.join("newlink.wasm")))?;
    Ok(d)
}
/// The file a path of the working directory leads to.
fn target(d: &Path, p: &str) -> PathBuf {
    let p = match p { "link.wasm" => "stale.wasm", "newlink.wasm" => "fresh.wasm", "link.c" => "in.c", p => p };
    let q = Path::new(p); let q = q.strip_prefix(d).unwrap_or(q);
    q.components().filter(|c| !matches!(c, std::path::Component::CurDir)).collect()
}

/// What is true of every run: status 0 if and only if the module asked for is there, complete; a message
/// otherwise; and nothing else is touched.
fn judge(d: &Path, before: &Tree, ask: &Ask, may_fail: bool, must_fail: bool, r: &node::Out, quiet: bool) -> Result<bool, String> {
    let after = snap(d);
    let said = String::from_utf8_lossy(&r.err).chars().take(160).collect::<String>();
    let out = match ask { Ask::Run { output, .. } => Some(target(d, output)), Ask::Maybe(a) => match &**a { Ask::Run { output, .. } => Some(target(d, output)), _ => None }, _ => None };
    for (p, b) in &after { if before.get(p) != Some(b) && Some(p) != out.as_ref() { return Err(format!("the compiler wrote to {}", p.display())); } }
    for p in before.keys() { if !after.contains_key(p) { return Err(format!("the compiler removed {}", p.display())); } }
    let changed = out.as_ref().is_some_and(|p| before.get(p) != after.get(p));
    match (ask, r.code) {
        (_, None) if !may_fail => Err("the compiler is killed by a signal".into()),
        (_, Some(101)) if !may_fail => Err(format!("the compiler crashes: {said}")),
        (Ask::Help, Some(0)) => if r.out.is_empty() { Err("no help is printed".into()) } else { Ok(false) },
        (Ask::Refuse, Some(0)) => Err("a command line that is not valid is accepted".into()),
        (Ask::Run { opts, .. }, Some(0)) => {
            if must_fail { return Err("exit status 0 although the compilation cannot have succeeded".into()); }
            let p = out.unwrap();
            let b = match after.get(&p) { Some(b) => b.clone(), None => std::fs::read(d.join(&p)).map_err(|_| format!("exit status 0 without the module {}", p.display()))? };
            let got = decode(&b)?;
            if got != *opts { return Err(format!("the module was compiled with the options {} instead of {}", got.name(), opts.name())); }
            Ok(true)
        }
        (Ask::Maybe(a), Some(0)) => judge(d, before, a, may_fail, must_fail, r, quiet),
        (Ask::Run { .. }, c) if !may_fail && !must_fail => Err(format!("exit status {c:?} for a valid program: {said}")),
        (_, c) => {
            if r.err.is_empty() && c.is_some() && !quiet { return Err(format!("exit status {c:?} without a message")); }
            if changed && !may_fail { return Err(format!("exit status {c:?} but the output was written")); }
            Ok(false)
        }
    }
}

fn binary(d: &Path) -> Command { let mut c = Command::new(node::compiler()); c.current_dir(d).env_remove("RUST_LOG"); c }
fn args_of(c: &Case) -> Vec<String> { c.src.lines().filter_map(|l| l.strip_prefix("arg ")).map(|l| l.to_string()).collect() }
fn part<'a>(c: &'a Case, k: &str) -> Option<&'a str> { c.src.lines().filter_map(|l| l.split_once(' ')).find(|x| x.0 == k).map(|x| x.1) }
fn one() -> Stats { let mut st = Stats::default(); st.states = 1; st.transitions = 1; st.events = 1; st.runs_done = 1; st }

/// One command line in the fresh directory, with an environment.
fn line(c: &Case) -> Result<Stats, String> {
    let d = world()?;
    let abs = |s: &str| s.replace("@CWD", d.to_str().unwrap());
    let args: Vec<String> = args_of(c).iter().map(|a| abs(a)).collect();
    let before = snap(&d);
    let mut b = binary(&d); b.args(&args);
    if let Some(l) = part(c, "log") { b.env("RUST_LOG", l); }
    match part(c, "cpp") { None => (), Some("none") => { b.env("PATH", d.join("dir")); } Some(s) => {
        let bin = comp::scratch_dir().join("fakebin"); eng(std::fs::create_dir_all(&bin))?;
        let f = bin.join("cpp"); let _ = std::fs::remove_file(&f);
        if s == "notexec" { eng(std::fs::write(&f, "#!/bin/sh\n"))?; } else { eng(std::fs::write(&f, format!("#!/bin/sh\n{s}\n")))?; use std::os::unix::fs::PermissionsExt; eng(std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)))?; }
        b.env("PATH", if s == "notexec" { bin.to_str().unwrap().to_string() } else { format!("{}:/usr/bin:/bin", bin.display()) });
    } }
    let r = node::wait(&mut b, 120)?;
    let ask = parse(&args);
    // what the sequences of tokens name as the input need not be a program
    let named = |a: &Ask| matches!(a, Ask::Run { input, output, .. } if c.id.starts_with("C25/seq/") && !matches!(input.as_str(), "in.c" | "-") || output.is_empty());
    let gone = named(&ask) || matches!(&ask, Ask::Maybe(a) if named(a));
    let ok = judge(&d, &before, &ask, false, gone || c.src.contains("mustfail\n"), &r, part(c, "log") == Some("off")).map_err(|e| format!("{args:?}: {e}"))?;
    let mut st = one();
    st.outcome = 1 + r.code.unwrap_or(99) as u64 * 64 + if let (true, Ask::Run { opts, .. }) = (ok, &ask) { Opts::all16().iter().position(|o| o == opts).unwrap() as u64 } else { 63 };
    Ok(st)
}
/// The output cannot grow beyond a limit: every limit from nothing to the whole module.
fn limits(c: &Case) -> Result<Stats, String> {
    let args = args_of(c); let ask = parse(&args);
    let Ask::Run { output, .. } = &ask else { return Err("engine: arguments".into()) };
    let mut st = Stats::default();
    let d = world()?;
    let r = node::wait(binary(&d).args(&args), 120)?;
    if r.code != Some(0) { return Err(format!("exit status {:?}", r.code)); }
    let out = d.join(output);
    let full = eng(std::fs::read(&out))?.len() as u64;
    let (slice, of) = part(c, "slice").and_then(|s| s.split_once('/')).map(|(a, b)| (a.parse::<u64>().unwrap(), b.parse::<u64>().unwrap())).ok_or("engine: slice")?;
    for n in (0..=full + 1).filter(|n| n % of == slice) { for ignore in [false, true] {
        if !c.src.contains("both\n") && n + 70 < full && ignore == (n % 3 == 0) { continue; }
        if !c.src.contains("both\n") && n + 70 < full && n > 64 && n % 2 == 0 { continue; }
        eng(std::fs::remove_file(&out))?; eng(std::fs::write(&out, b"old"))?;
        let before = snap(&d);
        let mut b = binary(&d); b.args(&args);
        unsafe { b.pre_exec(move || { #[repr(C)] struct L { cur: u64, max: u64 } extern "C" { fn setrlimit(r: i32, l: *const L) -> i32; fn signal(s: i32, h: usize) -> usize; } setrlimit(1, &L { cur: n, max: n }); setrlimit(4, &L { cur: 0, max: 0 }); if ignore { signal(25, 1); } Ok(()) }); }
        let r = node::wait(&mut b, 120)?;
        // hash seeds differ between runs, and with them perhaps the size of the module
        let ok = judge(&d, &before, &ask, true, false, &r, false).map_err(|e| format!("with at most {n} bytes of output: {e}"))?;
        if ok && n + 64 < full { return Err(format!("exit status 0 with at most {n} bytes of output")); }
        st.add(&one()); if ok { st.outcome |= 2 } else { st.outcome |= 4 }
    } }
    st.outcome += full << 8;
    Ok(st)
}
/// Every call of the operating system fails once, in every way of a list.
fn faults(c: &Case) -> Result<Stats, String> {
    let args = args_of(c); let ask = parse(&args);
    let err = part(c, "fault").unwrap().to_string();
    let mut st = Stats::default();
    let so = PathBuf::from(std::env::var("VP_FAULTS").map_err(|_| "engine: VP_FAULTS is not set")?);
    let log = comp::scratch_dir().join("fault");
    let mut names = std::collections::BTreeSet::new();
    let d = world()?;
    let out = match &ask { Ask::Run { output, .. } => d.join(target(&d, output)), _ => d.join("module.wasm") };
    let pristine = snap(&d);
    for k in 0..5000u64 {
        match pristine.get(out.strip_prefix(&d).unwrap()) { Some(b) => eng(std::fs::write(&out, b))?, None => { let _ = std::fs::remove_file(&out); } }
        let _ = std::fs::remove_file(&log);
        let r = node::wait(binary(&d).args(&args).env("LD_PRELOAD", &so).env("VPF_AT", k.to_string()).env("VPF_ERR", &err).env("VPF_LOG", &log), 120).map_err(|e| if e.starts_with("engine") { e } else { format!("with call {k} failing: {e}") })?;
        let hit = std::fs::read_to_string(&log).ok();
        let soft = matches!(err.as_str(), "4" | "short");
        let name = hit.clone().unwrap_or("nothing".into());
        // an interrupted or partial transfer is no reason to fail
        let may = hit.is_some() && !(soft && matches!(name.as_str(), "read" | "write"));
        judge(&d, &pristine, &ask, may, c.src.contains("mustfail\n"), &r, name == "write2").map_err(|e| format!("when call {k} of the system, {name}, fails with {err}: {e}"))?;
        st.add(&one()); st.outcome = st.outcome.wrapping_mul(31).wrapping_add(r.code.unwrap_or(99) as u64);
        if hit.is_none() { if k < 1 { return Err(format!("engine: only {k} faults were injected")); } st.outcome = st.outcome.wrapping_add(names.len() as u64); return Ok(st); }
        names.insert(name);
    }
    Err("engine: no end of faults".into())
}
/// The log level is a matter of the messages only.
fn logged(c: &Case) -> Result<Stats, String> {
    let d = world()?;
    eng(std::fs::write(d.join("feature.c"), c.src.split_once("---\n").unwrap().1))?;
    let args = args_of(c);
    let before = snap(&d);
    let r = node::wait(binary(&d).args(&args).env("RUST_LOG", part(c, "log").unwrap()), 120)?;
    if r.code != Some(0) { return Err(format!("exit status {:?}: {}", r.code, String::from_utf8_lossy(&r.err).chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect::<String>())); }
    let after = snap(&d);
    if after.len() != before.len() + 1 { return Err("files other than the module were written".into()); }
    let b = eng(std::fs::read(d.join("module.wasm")))?;
    let m = explore::module_of(&b).map_err(|e| format!("the module is invalid: {e}"))?;
    let rf = explore::reference(c.src.split_once("---\n").unwrap().1, &[]).map_err(|e| format!("engine: {e}"))?;
    let mut s = explore::explore(&rf, &m, &c.lim, &[], c.opts[0].prof).map_err(|v| v.what)?;
    s.events = 1;
    Ok(s)
}

pub fn cli(th: bool, out: Sink) {
    let mut k = 0;
    let mut case = |out: Sink, fam: &str, args: &[&str], extra: &str| { k += 1; let mut c = Case::new(format!("C25/{fam}/{k}"), format!("{extra}{}", args.iter().map(|a| format!("arg {a}\n")).collect::<String>())); c.custom = Some(line); out(c); };
    // every sequence of tokens, with and without the file name at every place
    let toks = ["--opt-tailcall", "--noopt-tailcall", "--noprof-stack", "--prof-stack", "-o", "x.wasm", "--noopt-unreachable-procedure", "--noopt-stack-allocation", "--opt-unreachable-procedure", "--opt-stack-allocation", "--output=y.wasm", "-oz.wasm",
        "--", "--output", "-o=w.wasm", "-h", "--bogus", "-", "-z", "--help", "--opt-tailcall=true", "", "--opt", "--noprof-stack=", "-p", "--prof_stack", "-ho", "--output="];
    case(out, "seq", &[], ""); case(out, "seq", &["in.c"], "");
    for (n, al) in [(1, toks.len()), (2, toks.len()), (3, if th { toks.len() } else { 9 }), (4, if th { 8 } else { 0 })] { super::data::seqs(n, al, &mut |q| {
        let t: Vec<&str> = q.iter().map(|i| toks[*i]).collect();
        if n <= 2 { case(out, "seq", &t, ""); }
        for p in 0..=n { if n == 3 && !th && p != 0 && p != 3 { continue; } if n == 4 && p != 2 { continue; } let mut t = t.clone(); t.insert(p, "in.c"); case(out, "seq", &t, ""); }
    }); }
    // every choice of the four switches in every order
    for c in 0..81usize { let v: Vec<&str> = (0..4).filter_map(|g| match c / 3usize.pow(g) % 3 { 0 => None, s => Some(FLAGS[g as usize * 2 + s - 1]) }).collect();
        let n = v.len(); let mut perms: Vec<Vec<usize>> = vec![]; super::data::seqs(n, n.max(1), &mut |q| if (0..n).all(|i| q.contains(&i)) { perms.push(q.to_vec()) });
        for (i, p) in perms.iter().enumerate() { if !th && i % 3 != 0 { continue; } let mut t: Vec<&str> = p.iter().map(|i| v[*i]).collect(); let at = i % (n + 1); t.insert(at, "in.c"); case(out, "switch", &t, ""); } }
    // every form of the input and of the output
    let ins = ["in.c", "./in.c", "dir/in.c", "dir/../in.c", "@CWD/in.c", "@CWD/dir/in.c", "a b'\"é.c", "noext", "link.c", "std.c", "big.c", "wide.c", "-", ".//in.c"];
    let outs = ["m.wasm", "./m.wasm", "dir/m.wasm", "@CWD/m.wasm", "@CWD/dir/m.wasm", "a b'\"é", "m", "stale.wasm", "short.wasm", "link.wasm", "newlink.wasm", ".hidden", "-", "m.wasm.c", "headers.wasm"];
    for i in ins { case(out, "in", &[i], ""); case(out, "in", &["--", i], ""); for o in outs { if !th && i != "in.c" && o != "m.wasm" && i.len() % 3 != o.len() % 3 { continue; } case(out, "inout", &[i, "-o", o], ""); if i == "in.c" { case(out, "out", &["--output", o, i], ""); case(out, "out", &["-o", o, "--prof-stack", "--", i], ""); } } }
    case(out, "in", &["--", "-x.c"], ""); case(out, "in", &["-x.c"], ""); case(out, "in", &["-o", "m.wasm", "--", "-x.c"], "");
    // inputs that cannot be compiled, whatever the options; the output is left alone
    let bad = ["gone.c", "gone/in.c", "dir", "dir/", "in.c/", "in.c/x", "dangling.c", "loop.c", "empty.c", "syntax.c", "rule.c", "error.c", "noinc.c", "dirinc.c", "sysinc.c", "cond.c", "latin.c", "latin2.c", "late.c", "", ".", "..", "@CWD", "/dev/null", "side.h", "-x"];
    let long = format!("{}.c", "n".repeat(300)); let bad: Vec<&str> = bad.iter().copied().chain([long.as_str()]).collect();
    for b in &bad { for o in ["m.wasm", "stale.wasm", "link.wasm", "dir/m.wasm", "gone/m.wasm", "module.wasm"] { for f in ["--noprof-stack", "--prof-stack", "--noopt-tailcall"] { if !th && f != "--noprof-stack" && o != "stale.wasm" { continue; } case(out, "bad", &[f, "-o", o, "--", b], "mustfail\n"); } } case(out, "bad", &["--", b], "mustfail\n"); case(out, "bad", &["--", b], "mustfail\nlog off\n"); case(out, "bad", &["--", b], "mustfail\nlog trace\n"); }
    // outputs that cannot be written
    let wrong = ["dir", "dir/", "gone/m.wasm", "in.c/m.wasm", "stale.wasm/", "", ".", "/dev/full", "loop.c", "headers", "@CWD", "@CWD/gone/x"];
    let long = format!("{}.wasm", "n".repeat(300)); let wrong: Vec<&str> = wrong.iter().copied().chain([long.as_str()]).collect();
    for o in &wrong { for i in ["in.c", "std.c", "dir/in.c", "syntax.c", "gone.c"] { for f in ["--noprof-stack", "--prof-stack", "--noopt-tailcall"] { case(out, "wrong", &[f, i, "-o", o], "mustfail\n"); } } }
    // preprocessors that fail
    let cpps = [("none", true), ("notexec", true), ("exit 1", true), ("cat >/dev/null; exit 1", true), ("/usr/bin/cpp \"$@\"; exit 1", true), ("/usr/bin/cpp \"$@\"; exit 33", true), ("kill -9 $$", true), ("cat >/dev/null; kill -11 $$", true), ("/usr/bin/cpp \"$@\"; kill -15 $$", true), ("exec 0<&-; sleep 0.1; exit 1", true), ("cat >/dev/null; printf 'int main() { return 0; } // \\351'", true), ("cat >/dev/null; echo 'int main() {'", true), ("cat >/dev/null", true),
        ("/usr/bin/cpp \"$@\"; echo warning >&2", false), ("/usr/bin/cpp \"$@\"; head -c 300000 /dev/zero >&2", false), ("head -c 300000 /dev/zero >&2; exec /usr/bin/cpp \"$@\"", false), ("sleep 0.2; exec /usr/bin/cpp \"$@\"", false)];
    for (s, fail) in cpps { for i in ["in.c", "big.c", "wide.c", "dir/in.c"] { if s.starts_with("head") && i.len() > 4 && !i.starts_with("dir") { continue; /* the C preprocessor reads its input before it writes */ } for o in ["m.wasm", "stale.wasm"] { case(out, "cpp", &[i, "-o", o], &format!("{}cpp {s}\n", if fail { "mustfail\n" } else { "" })); } } }
    // the output limited to every size; every call of the system failing
    for (i, a) in [&["in.c", "-o", "m.wasm"][..], &["in.c", "-o", "m.wasm", "--prof-stack", "--noopt-unreachable-procedure"]].iter().enumerate() { for k in 0..16 { let mut c = Case::new(format!("C25/limit/{i}/{k}"), format!("slice {k}/16\n{}", if th { "both\n" } else { "" }) + &a.iter().map(|a| format!("arg {a}\n")).collect::<String>()); c.custom = Some(limits); out(c); } if !th { break; } }
    for (i, a) in [&["in.c", "-o", "m.wasm"][..], &["std.c", "-o", "stale.wasm", "--prof-stack"], &["dir/in.c"], &["syntax.c"], &["error.c", "-o", "stale.wasm"], &["big.c", "-o", "link.wasm"], &["gone.c"]].iter().enumerate() { for e in ["5", "4", "short", "28", "24", "12", "13", "32", "11", "2"] {
        if !th && i > 1 && !["5", "4", "short"].contains(&e) { continue; }
        let must = matches!(a[0], "syntax.c" | "error.c" | "gone.c"); let mut c = Case::new(format!("C25/fault/{i}/{e}"), format!("fault {e}\n{}{}", if must { "mustfail\n" } else { "" }, a.iter().map(|a| format!("arg {a}\n")).collect::<String>())); c.custom = Some(faults); out(c); } }
    // every log level
    for a in 0..FEATURES.len() { let (g, s) = feature(a, "p"); for (i, l) in ["trace", "debug", "info", "warn", "off"].into_iter().enumerate() { for o in [Opts { prof: true, ..Opts::DEFAULT }, Opts::NONE] { if i > 0 && !th && (a + i) % 5 != 0 { continue; }
        let mut c = Case::new(format!("C25/log/{a}/{l}/{}", o.name()), format!("log {l}\narg feature.c\n{}---\n{}", o.args().iter().map(|a| format!("arg {a}\n")).collect::<String>(), prog(&g, &s))).opts(&[o]); c.custom = Some(logged); out(c); } } }
}

//! Cases, workers and the supervisor of a check.
use crate::comp::{self, CompErr, Opts};
use crate::explore::{self, Limits, Stats};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::FileExt;
use std::process::{Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// the program is valid: it must be accepted and behave as the reference under every option set and seed
    Behave,
    /// the program breaks a rule: it must be rejected with an error
    Reject,
    /// decided by the reference: accepted programs must behave, the others must not be accepted
    Either,
    /// no verdict is prescribed, but the compiler must terminate normally and any module must be valid
    Total,
}

#[derive(Clone, Debug)]
pub struct Case { pub id: String, pub src: String, pub opts: Vec<Opts>, pub seeds: Vec<u64>, pub kind: Kind, pub lim: Limits, pub argv: Vec<Vec<u8>>, pub custom: Option<fn(&Case) -> Result<Stats, String>>,
    /// what the reference reads, if that is not the source itself
    pub refsrc: Option<String>,
    /// files next to the source; SELF stands for the source's name without its extension
    pub files: Vec<(String, String)> }
impl Case {
    pub fn new(id: impl Into<String>, src: impl Into<String>) -> Case { Case { id: id.into(), src: src.into(), opts: vec![Opts::DEFAULT], seeds: vec![0], kind: Kind::Behave, lim: Limits::default(), argv: vec![], custom: None, refsrc: None, files: vec![] } }
    pub fn opts(mut self, o: &[Opts]) -> Case { self.opts = o.to_vec(); self }
    pub fn seeds(mut self, s: &[u64]) -> Case { self.seeds = s.to_vec(); self }
    pub fn kind(mut self, k: Kind) -> Case { self.kind = k; self }
    pub fn argv(mut self, a: &[&str]) -> Case { self.argv = a.iter().map(|x| x.as_bytes().to_vec()).collect(); self }
    /// a budget for programs that run long between two events
    pub fn fuel(mut self, n: u64) -> Case { self.lim.vm_fuel = n; self.lim.wasm_fuel = n * 4; self.lim.max_depth = 10_000_000; self }
    pub fn refsrc(mut self, s: String) -> Case { self.refsrc = Some(s); self }
    pub fn files(mut self, f: Vec<(String, String)>) -> Case { self.files = f; self }
    pub fn states(mut self, n: usize) -> Case { self.lim.max_states = n; self }
}
pub type Sink<'a> = &'a mut dyn FnMut(Case);

pub struct Outcome { pub stats: Stats, pub compiles: u64, pub accepted: u64, pub rejected: u64, pub modules: u64, pub nontrivial: bool }

pub enum Verdict { Ok(Outcome), Bad { opts: Opts, seed: u64, what: String }, Engine(String) }

pub fn run_case(c: &Case, phase: &mut dyn FnMut(&str)) -> Verdict {
    let mut o = Outcome { stats: Stats::default(), compiles: 0, accepted: 0, rejected: 0, modules: 0, nontrivial: false };
    if let Some(f) = c.custom {
        phase("custom");
        return match f(c) { Ok(s) => { o.nontrivial = true; o.stats.add(&s); o.stats.outcome = s.outcome; o.compiles = s.events; Verdict::Ok(o) } Err(e) => match e.strip_prefix("engine:") { Some(e) => Verdict::Engine(e.into()), None => Verdict::Bad { opts: c.opts[0], seed: c.seeds[0], what: e } } };
    }
    phase("reference");
    let rf = if c.kind == Kind::Total { Err("not consulted".to_string()) } else { explore::reference(c.refsrc.as_ref().unwrap_or(&c.src), &c.argv) };
    let kind = if matches!(&rf, Err(e) if e.starts_with("outside")) { Kind::Total } else { c.kind };
    match (&rf, kind) {
        (Err(e), Kind::Behave) => return Verdict::Engine(format!("the reference rejects {}: {e}\n{}", c.id, c.src)),
        (Ok(_), Kind::Reject) => return Verdict::Engine(format!("the reference accepts {}\n{}", c.id, c.src)),
        _ => {}
    }
    let mut seen: Vec<Vec<u8>> = vec![];
    for op in &c.opts { let mut verdict: Option<bool> = None; for seed in &c.seeds {
        phase("compile");
        o.compiles += 1;
        let r = comp::compile_with(&c.src, &c.files, *op, *seed);
        let bad = |what: String| Verdict::Bad { opts: *op, seed: *seed, what };
        if *verdict.get_or_insert(r.is_ok()) != r.is_ok() && !matches!(r, Err(CompErr::Panic(_))) { return bad(format!("the verdict depends on the hash seed: {}", match &r { Ok(_) => "accepted".into(), Err(e) => format!("{e:?}") })); }
        match (r, &rf) {
            (Err(CompErr::Panic(p)), _) => return bad(format!("the compiler crashes: {p}")),
            (Err(CompErr::Rejected(e)), Ok(_)) => return bad(format!("the compiler rejects a valid program: {e}")),
            (Err(CompErr::Rejected(_)), Err(_)) => { o.rejected += 1; o.nontrivial = true; if comp::output_exists() { return bad("a module was written although an error was reported".into()); } }
            (Ok(_), Err(e)) if kind != Kind::Total => return bad(format!("the compiler accepts an invalid program ({e})")),
            (Ok(b), _) => {
                o.accepted += 1;
                if seen.contains(&b) { continue; }
                phase("explore");
                let m = match explore::module_of(&b) { Ok(m) => m, Err(e) => return bad(format!("the module is invalid: {e}")) };
                if let Err(e) = explore::interface(&m, &format!("{}\n{}", c.src, c.refsrc.as_deref().unwrap_or("")), op.prof) { return bad(e); }
                o.modules += 1;
                if let Ok(rf) = &rf {
                    match explore::explore(rf, &m, &c.lim, &c.argv, op.prof) {
                        Ok(s) => { if s.events > 0 || s.runs_done > 0 { o.nontrivial = true; } o.stats.add(&s); o.stats.outcome ^= s.outcome.rotate_left(seen.len() as u32) }
                        Err(v) => return bad(format!("{} after {}", v.what, v.path.join(" ; "))),
                    }
                } else { o.nontrivial = true; }
                seen.push(b);
            }
        }
    } }
    Verdict::Ok(o)
}

fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r") }
fn unesc(s: &str) -> String { let mut o = String::new(); let mut it = s.chars(); while let Some(c) = it.next() { if c == '\\' { match it.next() { Some('n') => o.push('\n'), Some('t') => o.push('\t'), Some('r') => o.push('\r'), Some(c) => o.push(c), None => {} } } else { o.push(c) } } o }
pub fn json_str(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }

pub struct Cfg { pub prop: String, pub tier: String, pub n: usize, pub deadline: f64, pub dir: std::path::PathBuf }

/// One worker: the cases whose index is congruent to `k` modulo `n`.
pub fn worker(cfg: &Cfg, k: usize, skip: &HashSet<String>) -> i32 {
    let t0 = Instant::now();
    let cur = std::fs::File::create(cfg.dir.join(format!("cur{k}"))).unwrap();
    std::thread::spawn(|| loop { std::thread::sleep(std::time::Duration::from_millis(500)); if comp::check_hangs().is_some() { std::process::exit(42); } });
    let out = std::io::stdout();
    let mut idx = 0usize;
    let (mut cases, mut nontrivial, mut compiles, mut acc, mut rej, mut mods, mut cut, mut bad) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut tot = Stats::default();
    let mut fams: BTreeMap<String, u64> = BTreeMap::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut engine = false;
    // VP_FIRST (used by nothing but experiments): stop at the first violation
    let first = std::env::var("VP_FIRST").is_ok();
    let mut times: BTreeMap<String, f64> = BTreeMap::new();
    let thorough = cfg.tier == "thorough";
    let mut sampled: HashSet<String> = HashSet::new();
    crate::gen::family(&cfg.prop, thorough, &mut |c: Case| {
        idx += 1;
        if (idx - 1) % cfg.n != k || skip.contains(&c.id) || engine { return; }
        if first && (idx / cfg.n) % 4 == 0 && cfg.dir.join("stop").exists() { return; }
        if cfg.deadline > 0.0 && t0.elapsed().as_secs_f64() > cfg.deadline { cut += 1; return; }
        let idb = c.id.clone();
        let mut phase = |p: &str| { let mut b = format!("{p}\n{idb}\n").into_bytes(); b.resize(b.len().max(512), b' '); let _ = cur.write_all_at(&b, 0); };
        let tc = Instant::now();
        let v = run_case(&c, &mut phase);
        *times.entry(c.id.split('/').take(2).collect::<Vec<_>>().join("/")).or_default() += tc.elapsed().as_secs_f64();
        cases += 1;
        let fam: String = c.id.split('/').take(2).collect::<Vec<_>>().join("/");
        *fams.entry(fam.clone()).or_default() += 1;
        match v {
            Verdict::Ok(o) => {
                if o.nontrivial { nontrivial += 1; }
                compiles += o.compiles; acc += o.accepted; rej += o.rejected; mods += o.modules;
                tot.add(&o.stats); if o.stats.outcome != 0 { outcomes.insert(o.stats.outcome); }
                if sampled.len() < 4 && sampled.insert(fam) { let mut l = out.lock(); writeln!(l, "S\t{}\t{}\t{}", esc(&c.id), esc(&c.src), o.stats.states).unwrap(); }
            }
            Verdict::Bad { opts, seed, what } => { bad += 1; if first && !c.id.starts_with("C22/bool") { let _ = std::fs::write(cfg.dir.join("stop"), ""); } let mut l = out.lock(); writeln!(l, "V\t{}\t{}\t{}\t{}\t{}", esc(&c.id), opts.name(), seed, esc(&what), esc(&c.src)).unwrap(); }
            Verdict::Engine(e) => { engine = true; let mut l = out.lock(); writeln!(l, "E\t{}\t{}", esc(&c.id), esc(&e)).unwrap(); }
        }
    });
    let _ = bad;
    let mut l = out.lock();
    for (f, n) in &fams { writeln!(l, "F\t{f}\t{n}").unwrap(); }
    for (f, t) in &times { writeln!(l, "T\t{f}\t{t}").unwrap(); }
    for o in &outcomes { writeln!(l, "O\t{o}").unwrap(); }
    writeln!(l, "R\t{cases}\t{nontrivial}\t{compiles}\t{acc}\t{rej}\t{mods}\t{cut}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", tot.states, tot.transitions, tot.runs_done, tot.pruned_ub, tot.pruned_order, tot.fuel, tot.truncated, tot.events, tot.max_frames, tot.reports).unwrap();
    if engine { 2 } else { 0 }
}

struct Known { case: String, what: String }
fn load_known(prop: &str, verif: &std::path::Path) -> Vec<Known> {
    let s = std::fs::read_to_string(verif.join("known-findings.txt")).unwrap_or_default();
    s.lines().filter_map(|l| { let r = l.strip_prefix("known: property=")?; let (p, r) = r.split_once(" case=")?; if p != prop { return None; } let (c, w) = r.split_once(' ')?; Some(Known { case: c.into(), what: w.into() }) }).collect()
}

pub fn supervise(cfg: &Cfg, verif: &std::path::Path) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let exe = &exe;
    let known = load_known(&cfg.prop, verif);
    let spawn = |k: usize, skip: &[String]| {
        let mut c = Command::new(exe);
        c.args(["worker", &cfg.prop, &cfg.tier, &k.to_string(), &cfg.n.to_string(), &cfg.deadline.to_string(), cfg.dir.to_str().unwrap()]);
        let sp = cfg.dir.join(format!("skip{k}"));
        std::fs::write(&sp, skip.join("\n")).unwrap();
        c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        c.spawn().expect("worker")
    };
    struct Res { lines: Vec<String>, code: i32, crash: Vec<(String, String, String)>, err: String }
    let results: Vec<Res> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..cfg.n).map(|k| { let spawn = &spawn; sc.spawn(move || {
            let mut skip: Vec<String> = vec![];
            let mut crash = vec![];
            loop {
                let mut ch = spawn(k, &skip);
                let se = ch.stderr.take().unwrap();
                let eh = std::thread::spawn(move || { let mut v = vec![]; for l in BufReader::new(se).lines().map_while(Result::ok) { v.push(l); if v.len() > 60 { v.remove(0); } } v.join("\n") });
                let lines: Vec<String> = BufReader::new(ch.stdout.take().unwrap()).lines().map_while(Result::ok).collect();
                let st = ch.wait().unwrap();
                let err = eh.join().unwrap();
                let code = st.code().unwrap_or(-1);
                if code == 0 || code == 2 { return Res { lines, code, crash, err }; }
                // the worker died: find the case, and see whether it dies again on its own
                let cur = std::fs::read_to_string(cfg.dir.join(format!("cur{k}"))).unwrap_or_default();
                let mut it = cur.lines(); let phase = it.next().unwrap_or("").to_string(); let id = it.next().unwrap_or("").to_string();
                let o = Command::new(exe).args(["one", &cfg.prop, &cfg.tier, &id, cfg.dir.to_str().unwrap()]).stdin(Stdio::null()).output().unwrap();
                let c2 = o.status.code().unwrap_or(-1);
                let again = c2 != 0 && c2 != 1;
                if !again || (phase != "compile" && phase != "custom") || crash.len() >= 10 { return Res { lines, code: 3, crash, err: format!("worker {k} ended with {st:?} in phase {phase} of {id}; alone: {c2}\n{err}") }; }
                crash.push((id.clone(), phase, if code == 42 { "the compiler does not terminate".to_string() } else { format!("the compiler process dies ({st})") }));
                skip.push(id);
            }
        }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut r = [0u64; 17];
    let mut fams: BTreeMap<String, u64> = BTreeMap::new();
    let mut outcomes: HashSet<String> = HashSet::new();
    let mut times: BTreeMap<String, f64> = BTreeMap::new();
    let mut viol: Vec<(String, String, String, String, String)> = vec![];
    let mut samples = vec![];
    let mut engine = vec![];
    for x in &results {
        for l in &x.lines {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "R" => for (i, v) in f[1..].iter().enumerate() { let v: u64 = v.parse().unwrap(); if i == 15 { r[i] = r[i].max(v) } else { r[i] += v } },
                "F" => *fams.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap(),
                "T" => *times.entry(f[1].into()).or_default() += f[2].parse::<f64>().unwrap(),
                "O" => { outcomes.insert(f[1].into()); }
                "S" => samples.push((unesc(f[1]), unesc(f[2]), f[3].to_string())),
                "V" => viol.push((unesc(f[1]), f[2].into(), f[3].into(), unesc(f[4]), unesc(f[5]))),
                "E" => engine.push(unesc(f[2])),
                _ => {}
            }
        }
        for c in &x.crash { viol.push((c.0.clone(), "-".into(), "-".into(), c.2.clone(), String::new())); }
        if x.code != 0 { engine.push(x.err.clone()); }
    }
    if !engine.is_empty() { for e in &engine { eprintln!("ENGINE ERROR: {}", e.chars().take(1500).collect::<String>()); } return 2; }
    viol.sort();
    let rep = verif.join("evidence/replay");
    let _ = std::fs::create_dir_all(&rep);
    let mut bad = 0; let mut kn = vec![];
    for (i, (id, opts, seed, what, src)) in viol.iter().enumerate() {
        if let Some(k) = known.iter().find(|k| k.case == *id) { kn.push(id.clone()); println!("KNOWN-FINDING: property={} case={} {}", cfg.prop, id, k.what); continue; }
        bad += 1;
        let p = rep.join(format!("{}-{}.c", cfg.prop, i));
        let _ = std::fs::write(&p, format!("/* property {} case {} options {} hash seed {}\n   {}\n   replay: VP_CPP_SHIM=... vharness one {} {} '{}' */\n{}\n", cfg.prop, id, opts, seed, what.replace("*/", "* /"), cfg.prop, cfg.tier, id, src));
        if bad <= if std::env::var("VP_HIST").is_ok() { 0 } else { 25 } { println!("VIOLATION property={} replay={}", cfg.prop, p.display()); println!("  case {id} [{opts} seed {seed}]: {}", what.chars().take(600).collect::<String>()); }
    }
    if let Ok(p) = std::env::var("VP_VIOL") { let _ = std::fs::write(p, viol.iter().map(|(id, _, _, what, _)| format!("{id}\t{}\n", what.replace('\n', " ").chars().take(300).collect::<String>())).collect::<String>()); }
    if std::env::var("VP_HIST").is_ok() {
        let mut h: BTreeMap<String, (usize, String)> = BTreeMap::new();
        for (id, _, _, what, src) in &viol { let fam: String = id.split('/').take(2).collect::<Vec<_>>().join("/"); let k: String = format!("{fam}: {}", what.split(" after ").next().unwrap().chars().filter(|c| !c.is_ascii_digit()).take(140).collect::<String>()); let e = h.entry(k).or_insert((0, format!("{id} {what}\n      {}", src.lines().last().unwrap_or("")))); e.0 += 1; }
        for (k, (n, ex)) in h { println!("{n:6} {k}\n      e.g. {}", ex.chars().take(700).collect::<String>()); }
    }
    if std::env::var("VP_TIME").is_ok() { let mut v: Vec<_> = times.iter().collect(); v.sort_by(|a, b| b.1.total_cmp(a.1)); for (f, t) in v.iter().take(12) { println!("  {t:7.1} s {f} ({} cases)", fams.get(*f).unwrap_or(&0)); } }
    // vacuity: a check that explored nothing has decided nothing
    if r[0] == 0 || (bad == 0 && r[1] == 0) { eprintln!("ENGINE ERROR: nothing was explored"); return 2; }
    let wall = t0.elapsed().as_secs_f64();
    let sm: Vec<String> = samples.iter().take(5).map(|(id, src, st)| format!("{{\"case\":{},\"program\":{},\"states\":{}}}", json_str(id), json_str(src), st)).collect();
    let fm: Vec<String> = fams.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    let level = "model_checking";
    let js = format!("{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"{level}\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"cases\":{},\"nontrivial_cases\":{},\"distinct_outcomes\":{},\"compilations\":{},\"accepted\":{},\"rejected\":{},\"distinct_modules\":{},\"observed_events\":{},\"runs_pruned_undefined_behaviour\":{},\"runs_pruned_order_dependent\":{},\"runs_out_of_fuel\":{},\"searches_truncated\":{},\"max_wasm_frames\":{},\"stack_pointer_reports\":{},\"cases_not_reached\":{},\"exhaustive\":{},\"families\":{{{}}},\"samples\":[{}]}},\"wall_s\":{:.2},\"assumptions\":[\"bounds and generator of the family as described in DESIGN.md\",\"the reference machine of harness/src/cfront.rs and cvm.rs and the wasm engine of harness/src/wasm.rs\"],\"violations\":{},\"known_findings\":{}}}\n",
        json_str(&cfg.prop), json_str(&cfg.tier), std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        r[7], r[8], r[9] + r[4], r[0], r[1], outcomes.len(), r[2], r[3], r[4], r[5], r[14], r[10], r[11], r[12], r[13], r[15], r[16], r[6], r[6] == 0 && r[13] == 0, fm.join(","), sm.join(","), wall, bad, kn.len());
    std::fs::write(verif.join(format!("evidence/{}.json", cfg.prop)), js).unwrap();
    println!("{} {}: {} cases, {} compilations, {} states, {} runs, {} rejected, {} distinct outcomes, ub {} order {} fuel {} truncated {} not reached {}, {:.1} s, {} violations, {} known", cfg.prop, cfg.tier, r[0], r[2], r[7], r[9], r[4], outcomes.len(), r[10], r[11], r[12], r[13], r[6], wall, bad, kn.len());
    if bad > 0 { 1 } else { 0 }
}

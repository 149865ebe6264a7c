//! Product exploration: the compiled module (executed by `wasm.rs`) in lock step with the reference
//! machine (`cvm.rs`, once per evaluation order), over every choice of the environment.
use crate::cfront::*;
use crate::cvm::{self, Code, Vm};
use crate::wasm::{self, Machine, Module};
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub struct Limits { /// a trap at a call depth beyond this is taken for an exhausted stack
    pub exhaust: usize, pub max_states: usize, pub vm_fuel: u64, pub wasm_fuel: u64, pub max_depth: usize, pub check_sp: bool, pub poison: bool }
impl Default for Limits { fn default() -> Self { Limits { exhaust: usize::MAX, max_states: 20_000, vm_fuel: 200_000, wasm_fuel: 8_000_000, max_depth: 100_000, check_sp: true, poison: true } } }

#[derive(Clone, Debug, Default)]
pub struct Stats { pub states: u64, pub transitions: u64, pub runs_done: u64, pub pruned_ub: u64, pub pruned_order: u64, pub fuel: u64, pub truncated: u64, pub events: u64, pub max_sp: u32, pub max_frames: usize, pub outcome: u64, pub reports: u64, pub log: Vec<u32> }
impl Stats { pub fn add(&mut self, o: &Stats) { self.states += o.states; self.transitions += o.transitions; self.runs_done += o.runs_done; self.pruned_ub += o.pruned_ub; self.pruned_order += o.pruned_order; self.fuel += o.fuel; self.truncated += o.truncated; self.events += o.events; self.max_sp = self.max_sp.max(o.max_sp); self.max_frames = self.max_frames.max(o.max_frames); self.reports += o.reports; } }

pub struct H2(std::collections::hash_map::DefaultHasher, u64);
pub fn hash128(f: impl Fn(&mut std::collections::hash_map::DefaultHasher)) -> u128 {
    let mut a = std::collections::hash_map::DefaultHasher::new(); f(&mut a);
    let mut b = std::collections::hash_map::DefaultHasher::new(); 0x9e37u64.hash(&mut b); f(&mut b);
    ((a.finish() as u128) << 64) | b.finish() as u128
}

/// Boundary values the environment may write through a pointer (`strstr(p, -d)`), by domain id.
pub fn domain(d: i64) -> Vec<Vec<u8>> {
    fn le(v: &[i128], n: usize) -> Vec<Vec<u8>> { v.iter().map(|x| x.to_le_bytes()[..n].to_vec()).collect() }
    let f32s = [0.0f32, -0.0, 1.0, -1.0, 0.5, 2.5, -3.75, 100.25, 16777216.0, 3e9, -2147483648.0, 1e10, 1e30, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY];
    let f64s = [0.0f64, -0.0, 1.0, -1.0, 0.5, 2.5, -3.75, 100.25, 1e9, 4294967295.0, -2147483648.0, 9007199254740993.0, 1e18, 1e300, f64::MIN_POSITIVE, f64::INFINITY];
    match d {
        1 => le(&[0, 1, -1, 2, 7, 65, 127, -128, -127], 1),
        2 => le(&[0, 1, 2, 7, 127, 128, 200, 254, 255], 1),
        3 => le(&[0, 1, -1, 3, 127, 128, 255, 256, -129, 32767, -32768], 2),
        4 => le(&[0, 1, 3, 127, 128, 255, 256, 32767, 32768, 65535], 2),
        5 => le(&[0, 1, -1, 2, 5, 31, 127, 128, 255, 256, -129, 32767, 32768, 65535, 65536, 0x7fffffff, -0x80000000, -0x7fffffff], 4),
        6 => le(&[0, 1, 2, 5, 31, 127, 128, 255, 256, 32768, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff], 4),
        7 => le(&[0, 1, -1, 2, 5, 63, 128, 255, -129, 65536, 0x7fffffff, 0x80000000, -0x80000000, -0x80000001, 0xffffffff, 0x100000000, 0x7fffffffffffffff, -0x8000000000000000, -0x7fffffffffffffff], 8),
        8 => le(&[0, 1, 2, 5, 63, 128, 255, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff], 8),
        9 => f32s.iter().map(|f| f.to_le_bytes().to_vec()).collect(),
        10 => f64s.iter().map(|f| f.to_le_bytes().to_vec()).collect(),
        // full 8-bit domains
        11 | 12 => (0..256).map(|x| vec![x as u8]).collect(),
        // small domains of the ten types, and smaller ones
        21 => le(&[0, 1, -1, 127, -128], 1), 22 => le(&[0, 1, 127, 128, 255], 1), 23 => le(&[0, 1, -1, 32767, -32768], 2), 24 => le(&[0, 1, 127, 32768, 65535], 2),
        25 => le(&[0, 1, -1, 33, 0x7fffffff, -0x80000000], 4), 26 => le(&[0, 1, 31, 0x80000000, 0xffffffff], 4), 27 => le(&[0, 1, -1, 0x80000000, -0x8000000000000000], 8), 28 => le(&[0, 1, 0xffffffff, 0x8000000000000000, 0xffffffffffffffff], 8),
        29 => [0.0f32, 1.0, -0.5, 3e9].iter().map(|f| f.to_le_bytes().to_vec()).collect(), 30 => [0.0f64, 1.0, -0.5, 1e10].iter().map(|f| f.to_le_bytes().to_vec()).collect(),
        41 => le(&[0, 2, -128], 1), 42 => le(&[0, 2, 255], 1), 43 => le(&[0, 2, -32768], 2), 44 => le(&[0, 2, 65535], 2),
        45 => le(&[0, 2, -2], 4), 46 => le(&[0, 2, 0xfffffffe], 4), 47 => le(&[0, 2, -0x80000001], 8), 48 => le(&[0, 2, 0xffffffffffffffff], 8),
        49 => [0.0f32, 2.0, -0.5].iter().map(|f| f.to_le_bytes().to_vec()).collect(), 50 => [0.0f64, 2.0, -0.5].iter().map(|f| f.to_le_bytes().to_vec()).collect(),
        15 => le(&[0, 1, -1, 2, 0x7fffffff, -0x80000000], 4),
        _ => vec![],
    }
}

fn norm_fp(v: u64) -> u64 { if f64::from_bits(v).is_nan() { f64::NAN.to_bits() } else { v } }

fn wasm_arg(m: &Machine, a: u32, t: &T) -> Result<u64, String> {
    let n = match t { T::I { sz, .. } => *sz as usize, T::F32 | T::P(_) => 4, T::F64 => 8, _ => return Err("argument type".into()) };
    let b = m.rd(a, n).ok_or("argument outside memory")?;
    let mut x = [0u8; 8]; x[..n].copy_from_slice(b); let v = u64::from_le_bytes(x);
    Ok(match t { T::F32 => (f32::from_bits(v as u32) as f64).to_bits(), t => norm(v, t) })
}
fn tsize(t: &T) -> u32 { match t { T::Void => 0, T::I { sz, .. } => *sz as u32, T::F64 => 8, _ => 4 } }

/// One observable event, in a form comparable between the two sides.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ev { Tag(i64), Int(i64), Fp(u64), Bytes(Vec<u8>), Env(i64), Printf(Vec<u8>), Other(String, Vec<u64>), Done(i64) }

fn printf_like(fmt: &[u8], mut int: impl FnMut(usize, &mut usize) -> Result<i64, String>, mut fp: impl FnMut(&mut usize) -> Result<u64, String>, mut st: impl FnMut(&mut usize) -> Result<Vec<u8>, String>) -> Result<Vec<u8>, String> {
    let mut o = vec![]; let mut i = 0; let mut cur = 0usize;
    while i < fmt.len() {
        if fmt[i] != b'%' { o.push(fmt[i]); i += 1; continue; }
        i += 1;
        match fmt.get(i) {
            Some(b'%') => o.push(b'%'),
            Some(b'd' | b'i') => o.extend(format!("{}", int(4, &mut cur)? as i32).bytes()),
            Some(b'u') => o.extend(format!("{}", int(4, &mut cur)? as u32).bytes()),
            Some(b'c') => o.push(int(1, &mut cur)? as u8),
            Some(b'h') => { i += 1; let v = int(2, &mut cur)?; if fmt.get(i) == Some(&b'u') { o.extend(format!("{}", v as u16).bytes()) } else { o.extend(format!("{}", v as i16).bytes()) } }
            Some(b'l') => { i += 1; let v = int(8, &mut cur)?; if fmt.get(i) == Some(&b'u') { o.extend(format!("{}", v as u64).bytes()) } else { o.extend(format!("{}", v).bytes()) } }
            Some(b'f') => { let v = fp(&mut cur)?; o.extend(format!("<{:x}>", norm_fp(v)).bytes()) }
            Some(b's') => o.extend(st(&mut cur)?),
            _ => return Err("bad printf format".into()),
        }
        i += 1;
    }
    Ok(o)
}

fn vm_event(vm: &Vm, f: u32, args: &[(T, u64)]) -> Result<Ev, &'static str> {
    let name = &vm.code.prog.funs[f as usize].name;
    Ok(match (name.as_str(), args.len()) {
        ("strlen", 1) if args[0].0.is_int() => Ev::Tag(args[0].1 as i64),
        ("strtol", 1) => Ev::Int(args[0].1 as i64),
        ("strtoul", 1) => Ev::Fp(norm_fp(args[0].1)),
        ("strstr", 2) if args[1].0.is_int() => { let n = args[1].1 as i64; if n >= 0 { Ev::Bytes(vm.load_bytes(args[0].1, n as usize)?) } else { Ev::Env(n) } }
        ("printf", _) => {
            let fmt = vm.cstr(args[0].1)?;
            let rest = &args[1..];
            let get = |c: &mut usize| { let r = rest.get(*c).cloned(); *c += 1; r.ok_or_else(|| "missing printf argument".to_string()) };
            let r = printf_like(&fmt, |sz, c| { let (t, v) = get(c)?; if !t.is_int() || (sz == 8) != (t == I64 || t == U64) { return Err("printf argument type".into()); } Ok(v as i64) }, |c| { let (t, v) = get(c)?; if t != T::F64 { return Err("printf argument type".into()); } Ok(v) }, |c| { let (t, v) = get(c)?; if !t.is_ptr() { return Err("printf argument type".into()); } vm.cstr(v).map_err(|e| e.to_string()) });
            match r { Ok(v) => Ev::Printf(v), Err(_) => return Err("printf misuse") }
        }
        (n, _) => Ev::Other(n.to_string(), args.iter().map(|a| if a.0.is_ptr() { 0 } else { a.1 }).collect()),
    })
}

fn wasm_cstr(m: &Machine, a: u64) -> Result<Vec<u8>, String> { let mut v = vec![]; let mut a = a as usize; loop { match m.mem.get(a) { None => return Err("string runs off memory".into()), Some(0) => return Ok(v), Some(b) => v.push(*b) } a += 1; } }

/// decode the event the module is performing, using the prototype and argument types of the source program
fn wasm_event(m: &Machine, name: &str, ret: &T, args: &[(T, u64)]) -> Result<(Ev, u32, Option<u32>), String> {
    let fp = m.rd32(0).unwrap();
    let ra = fp.checked_add(4).ok_or("frame pointer")?;
    let mut a = ra + tsize(ret);
    if name == "printf" {
        let fmt = wasm_cstr(m, wasm_arg(m, a, &T::P(Rc::new(I8)))?)?;
        let a0 = std::cell::Cell::new(a + 4);
        let r = printf_like(&fmt,
            |sz, _| { let t = if sz == 8 { I64 } else { I32 }; let v = wasm_arg(m, a0.get(), &t)?; a0.set(a0.get() + if sz == 8 { 8 } else { 4 }); Ok(v as i64) },
            |_| { let v = wasm_arg(m, a0.get(), &T::F64)?; a0.set(a0.get() + 8); Ok(v) },
            |_| { let v = wasm_arg(m, a0.get(), &T::P(Rc::new(I8)))?; a0.set(a0.get() + 4); wasm_cstr(m, v) })?;
        return Ok((Ev::Printf(r), ra, None));
    }
    let mut vals = vec![];
    for (t, _) in args { vals.push(wasm_arg(m, a, t)?); a += tsize(t); }
    let mut ptr = None;
    let e = match (name, args.len()) {
        ("strlen", 1) if args[0].0.is_int() => Ev::Tag(vals[0] as i64),
        ("strtol", 1) => Ev::Int(vals[0] as i64),
        ("strtoul", 1) => Ev::Fp(norm_fp(vals[0])),
        ("strstr", 2) if args[1].0.is_int() => { let n = vals[1] as i64; ptr = Some(vals[0] as u32); if n >= 0 { Ev::Bytes(m.rd(vals[0] as u32, n as usize).ok_or("bytes outside memory")?.to_vec()) } else { Ev::Env(n) } }
        (n, _) => Ev::Other(n.to_string(), args.iter().zip(&vals).map(|(a, v)| if a.0.is_ptr() { 0 } else { *v }).collect()),
    };
    Ok((e, ra, ptr))
}

#[derive(Clone)]
pub struct Pair { pub m: Machine, pub l: Vm, pub r: Vm, pub node: u32, pub depth: usize, /// profiling: the stack pointers of the frames that are set up
    pub rep: Vec<u32> }

pub struct Reference { pub l: Rc<Code>, pub r: Rc<Code> }
pub fn reference(src: &str, argv: &[Vec<u8>]) -> Result<Reference, String> { let p = parse(src)?; Ok(Reference { l: Rc::new(cvm::compile(&p, false, argv)?), r: Rc::new(cvm::compile(&p, true, argv)?) }) }

#[derive(Debug)]
pub struct Violation { pub what: String, pub path: Vec<String> }

/// Runs only the reference over all environment choices (used to validate programs and the model).
pub fn module_of(bytes: &[u8]) -> Result<Rc<Module>, String> {
    let m = wasm::decode(bytes)?;
    Ok(Rc::new(m))
}

const STDLIB: [&str; 6] = ["printf", "strtoul", "strtol", "strlen", "strstr", "log_stack_ptr"];

/// The module's interface is the documented one: `main` is exported as a function, and nothing is imported but the
/// runtime's memory, library functions the program mentions, and - when profiling - the stack pointer log.
pub fn interface(m: &Module, src: &str, prof: bool) -> Result<(), String> {
    if !m.exports.iter().any(|e| e.0 == "main" && e.1 == 0) { return Err("the module does not export main as a function".into()); }
    let mut seen: Vec<(&str, &str)> = vec![];
    for i in &m.imports {
        let (a, b) = (i.module.as_str(), i.field.as_str());
        if seen.contains(&(a, b)) { return Err(format!("the module imports {a}.{b} twice")); }
        seen.push((a, b));
        match (a, b) {
            ("runtime", "memory") => {}
            ("stdlib", "log_stack_ptr") => if !prof { return Err("the module imports the stack pointer log without profiling".into()) },
            ("stdlib", f) if STDLIB.contains(&f) => if !src.contains("#include") && !src.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).any(|w| w == f) { return Err(format!("the module imports {f}, which the program does not mention")) },
            _ => return Err(format!("the module imports {a}.{b}, which no runtime provides")),
        }
    }
    Ok(())
}

pub fn explore(rf: &Reference, module: &Rc<Module>, lim: &Limits, argv: &[Vec<u8>], prof: bool) -> Result<Stats, Violation> {
    let mut st = Stats::default();
    let mut nodes: Vec<(u32, String)> = vec![(0, "start".into())];
    let fail = |nodes: &Vec<(u32, String)>, n: u32, what: String| -> Violation {
        let mut path = vec![]; let mut n = n;
        loop { path.push(nodes[n as usize].1.clone()); if n == 0 { break; } n = nodes[n as usize].0; }
        path.reverse();
        if path.len() > 60 { let k = path.len() - 50; path.drain(5..k); }
        Violation { what, path }
    };
    let mut m = match Machine::new(module.clone()) { Ok(m) => m, Err(e) => return Err(fail(&nodes, 0, format!("module does not instantiate: {e}"))) };
    // the program arguments, laid out as runtime/init_memory.mjs does (C24 runs the real one)
    let sp = m.rd32(8).ok_or_else(|| fail(&nodes, 0, "no memory".into()))?;
    let mut at = sp + 4 * argv.len() as u32;
    for (i, a) in argv.iter().enumerate() {
        let mut b = a.clone(); b.push(0);
        if !m.wr(sp + 4 * i as u32, &at.to_le_bytes()) || !m.wr(at, &b) { return Err(fail(&nodes, 0, "no room for the arguments".into())); }
        at += b.len() as u32;
    }
    m.wr(8, &at.to_le_bytes());
    m.sp_changes = 0; m.prev_sp = at;
    if let Err(e) = m.invoke("main", &[argv.len() as u64, sp as u64]) { return Err(fail(&nodes, 0, format!("main cannot be invoked: {e}"))); }
    let mut work = vec![Pair { m, l: Vm::new(rf.l.clone()), r: Vm::new(rf.r.clone()), node: 0, depth: 0, rep: vec![at] }];
    let mut seen: HashSet<u128> = HashSet::new();
    let mut sps: HashMap<u128, u32> = HashMap::new();
    let mut outcome = std::collections::hash_map::DefaultHasher::new();
    while let Some(mut s) = work.pop() {
        let l0 = s.l.steps;
        let ls = s.l.run(lim.vm_fuel);
        let used = s.l.steps - l0;
        let rs = s.r.run(lim.vm_fuel);
        st.transitions += 1;
        let n = s.node;
        let (lev, largs) = match &ls {
            cvm::Stop::Ub(_) => { st.pruned_ub += 1; continue; }
            cvm::Stop::Fuel => { st.fuel += 1; continue; }
            cvm::Stop::Done(v) => (Ev::Done(*v), None),
            cvm::Stop::Host(f, a) => match vm_event(&s.l, *f, a) { Ok(e) => (e, Some((*f, a.clone()))), Err(_) => { st.pruned_ub += 1; continue; } },
        };
        let rev = match &rs { cvm::Stop::Done(v) => Some(Ev::Done(*v)), cvm::Stop::Host(f, a) => vm_event(&s.r, *f, a).ok(), _ => None };
        if rev.as_ref() != Some(&lev) { st.pruned_order += 1; continue; }
        let mut fuel = lim.wasm_fuel.min(used * 400 + 100_000);
        let ws = loop {
            let s0 = s.m.steps;
            let ws = s.m.run(fuel);
            // profiling: every change of the stack pointer is reported before anything else happens
            if let wasm::Stop::Host(i) = &ws { if prof && module.host_funcs[*i as usize].1 == "log_stack_ptr" {
                if s.m.sp_changes > 1 { return Err(fail(&nodes, n, format!("the stack pointer changed {} times before one report, on the way to {lev:?}", s.m.sp_changes))); }
                s.m.sp_changes = 0; st.reports += 1; let v = s.m.rd32(8).unwrap(); st.max_sp = st.max_sp.max(v);
                if st.reports <= 4096 { st.log.push(v); }
                while s.rep.last().is_some_and(|t| *t > v) { s.rep.pop(); }
                match s.rep.last() { Some(t) if *t == v => (), _ if s.m.prev_sp < v => s.rep.push(v), _ => return Err(fail(&nodes, n, format!("on the way to {lev:?} the report of stack pointer {v} ends at no earlier one: space leaks or is freed twice"))) }
                s.m.prev_sp = v;
                fuel = fuel.saturating_sub(s.m.steps - s0);
                continue;
            } }
            break ws;
        };
        if prof && s.m.sp_changes > 0 && !matches!(ws, wasm::Stop::Trap(_) | wasm::Stop::Fuel) { return Err(fail(&nodes, n, format!("a change of the stack pointer was not reported before {lev:?}"))); }
        st.max_frames = st.max_frames.max(s.m.max_frames);
        lev.hash(&mut outcome);
        st.events += 1;
        match (&ws, &largs) {
            (wasm::Stop::Done(v), None) => { let v = v.unwrap_or(0) as i32 as i64; if Ev::Done(v) != lev { return Err(fail(&nodes, n, format!("program returned {v}, expected {lev:?}"))); } st.runs_done += 1; continue; }
            (wasm::Stop::Host(i), Some((f, args))) => {
                let fun = &s.l.code.prog.funs[*f as usize];
                let imp = &module.host_funcs[*i as usize].1;
                if *imp != fun.name { return Err(fail(&nodes, n, format!("module calls {} where the program calls {} ({:?})", imp, fun.name, lev))); }
                let (ev, ra, ptr) = match wasm_event(&s.m, &fun.name, &fun.ty.ret, args) { Ok(x) => x, Err(e) => return Err(fail(&nodes, n, format!("at {lev:?}: {e}"))) };
                if ev != lev { return Err(fail(&nodes, n, format!("event {ev:?}, expected {lev:?}"))); }
                let sp = s.m.rd32(8).unwrap();
                st.max_sp = st.max_sp.max(sp);
                if lim.poison { let sp = sp as usize; if sp < s.m.mem.len() { let d = s.m.dirty.max(sp); for b in &mut s.m.mem[sp..d] { *b = 0xa5; } s.m.dirty = sp; } }
                let choices: Vec<(u64, Option<Vec<u8>>)> = match &lev {
                    Ev::Tag(t) if *t >= 1000 => (0..(*t / 1000) as u64).map(|x| (x, None)).collect(),
                    Ev::Env(d) => domain(-*d).into_iter().map(|b| (0, Some(b))).collect(),
                    _ => vec![(0, None)],
                };
                let nch = choices.len();
                if s.depth >= lim.max_depth { st.truncated += 1; continue; }
                let mut kids = vec![];
                for (k, (v, wr)) in choices.into_iter().enumerate() {
                    let mut c = if k + 1 == nch { std::mem::replace(&mut s, Pair { m: Machine { module: module.clone(), mem: vec![], sp_changes: 0, dirty: 0, stack: vec![], frames: vec![], globals: vec![], steps: 0, max_frames: 0, prev_sp: 0 }, l: Vm::new(rf.l.clone()), r: Vm::new(rf.r.clone()), node: 0, depth: 0, rep: vec![] }) } else { s.clone() };
                    if let Some(w) = &wr {
                        let (la, raa) = match (&ls, &rs) { (cvm::Stop::Host(_, a), cvm::Stop::Host(_, b)) => (a[0].1, b[0].1), _ => unreachable!() };
                        if c.l.store_bytes(la, w).is_err() || c.r.store_bytes(raa, w).is_err() { st.pruned_ub += 1; continue; }
                        if !c.m.wr(ptr.unwrap(), w) { return Err(fail(&nodes, n, "environment pointer outside memory".into())); }
                    }
                    c.l.resume(v); c.r.resume(v);
                    let rsz = tsize(&c.l.code.prog.funs[*f as usize].ty.ret);
                    if rsz > 0 && !c.m.wr(ra, &v.to_le_bytes()[..rsz as usize]) { return Err(fail(&nodes, n, "return slot outside memory".into())); }
                    c.m.steps = 0; c.l.steps = 0; c.r.steps = 0;
                    let vh = hash128(|h| { c.l.hash_state(h); c.r.hash_state(h); });
                    let key = hash128(|h| { vh.hash(h); c.m.hash_state(h); if prof { c.rep.hash(h); c.m.prev_sp.hash(h); } });
                    if !seen.insert(key) { continue; }
                    if lim.check_sp { let ck = hash128(|h| c.l.hash_calls(h)); if let Some(&o) = sps.get(&ck) { if o != sp { return Err(fail(&nodes, n, format!("stack pointer is {sp} where it was {o} at an earlier visit with the same calls in progress (at {lev:?}): the stack is not balanced"))); } } else { sps.insert(ck, sp); } }
                    st.states += 1;
                    c.depth += 1;
                    nodes.push((n, match (&lev, &wr) { (Ev::Tag(t), _) if *t >= 1000 => format!("choice {} -> {v}", t % 1000), (_, Some(w)) => format!("env -> {w:?}"), (e, _) => format!("{e:?}") }));
                    c.node = nodes.len() as u32 - 1;
                    kids.push(c);
                }
                if st.states as usize > lim.max_states { st.truncated += 1; st.outcome = outcome.finish(); return Ok(st); }
                kids.reverse();
                work.extend(kids);
            }
            (wasm::Stop::Trap(_), _) if s.l.maxdepth > lim.exhaust => { st.fuel += 1; continue; }
            (w, _) => { let d = match w { wasm::Stop::Done(v) => format!("program returned {:?}", v.map(|x| x as i32)), wasm::Stop::Trap(t) => format!("program trapped ({t})"), wasm::Stop::Fuel => "program does not make progress".to_string(), wasm::Stop::Host(i) => format!("program calls {}", module.host_funcs[*i as usize].1) }; return Err(fail(&nodes, n, format!("{d}, expected {lev:?}"))); }
        }
    }
    st.outcome = outcome.finish();
    Ok(st)
}

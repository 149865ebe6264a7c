//! Reference model, part 2: an abstract machine for the typed trees of `cfront`.
//! Its state can be cloned and hashed; undefined behaviour is detected and reported as such.
use crate::cfront::*;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Op {
    Const(u64), ALocal(u32), AGlobal(u32), AVla(u32),
    Load(T), Store(T), // Store: addr val -> val
    Copy(u32),         // dst src -> (struct copy)
    // a struct value is ceil(size / 4) words, each four bytes of data and four of shadow
    LoadS(u32),        // addr -> words
    StoreS(u32, bool), // addr words -> addr (or words addr -> addr)
    FieldS(u32, u32, T), // words of a struct of this size -> value of the member at this offset
    PopN(u32), RetS(u32), RevG(Rc<Vec<u32>>),
    Conv(T, T), Bin(B, T), Shift(B, T, T), Un(U, T),
    PAdd(i64), PSub(i64),
    Dup, Pop, Swap, Over, // Over: a b -> a b a
    Jz(u32, T), Jnz(u32, T), Jmp(u32), Bool(T),
    Call(u32, u32), Host(u32, Rc<Vec<T>>), Ret(bool), Rev(u32),
    Decl(u32, u32), DeclVla(u32, u32), Zero(u32, u32), PokeB(u8),
    IncDec { t: T, inc: bool, post: bool, scale: i64 }, // addr -> value
    Switch(Rc<(Vec<(i64, u32)>, u32)>, T),
    Halt,
    FallOff, // fell off the end of a non-void function
}

pub struct FunCode { pub entry: u32, pub frame: u32, pub nparams: usize, pub param_off: Vec<(u32, T)>, pub ret: T }
pub struct Code { pub ops: Vec<Op>, pub funs: Vec<Option<FunCode>>, pub prog: Prog, pub gbase: u32, pub rz: u32, pub gend: u32, pub image: Vec<(u32, Vec<u8>)>, pub start: u32, pub main: usize, pub goff: Vec<u32> }

struct Gen<'a> { p: &'a Prog, ops: Vec<Op>, loff: Vec<u32>, goff: Vec<u32>, soff: Vec<u32>, rtl: bool, brk: Vec<Vec<usize>>, cont: Vec<Vec<usize>>, labels: HashMap<String, u32>, gotos: Vec<(usize, String)>, sw: Vec<(Vec<(i64, u32)>, Option<u32>)>, ltypes: Vec<T> }

const RZ: u32 = 8;
fn words(n: u32) -> u32 { (n + 3) / 4 }

pub fn compile(p: &Prog, rtl: bool, argv: &[Vec<u8>]) -> R<Code> {
    let mut g = Gen { p, ops: vec![], loff: vec![], goff: vec![], soff: vec![], rtl, brk: vec![], cont: vec![], labels: HashMap::new(), gotos: vec![], sw: vec![], ltypes: vec![] };
    // the two evaluation orders lay the objects out differently, so that what depends on addresses shows
    let rz = if rtl { RZ + 13 } else { RZ };
    let mut a = if rtl { 61u32 } else { 16u32 };
    let mut image = vec![];
    for s in &p.strs { g.soff.push(a); image.push((a, s.clone())); a += s.len() as u32 + rz; }
    for (_, t, _, _) in &p.globals { let s = size_of(t, &p.aggs)?; g.goff.push(a); if s as u64 + a as u64 > 1 << 24 { return Err("outside: object too big".into()); } image.push((a, vec![0; s as usize])); a += s + rz; }
    let mut funs = vec![];
    let mut main = None;
    for (i, f) in p.funs.iter().enumerate() {
        if f.name == "main" && f.body.is_some() { main = Some(i); }
        let Some(body) = &f.body else { funs.push(None); continue };
        g.loff.clear();
        let mut off = 0;
        for (_, t) in &f.locals { g.loff.push(off); let s = match t { t if vm(t) => 8, t => size_of(t, &p.aggs)? }; if s as u64 + off as u64 > 1 << 24 { return Err("outside: object too big".into()); } off += s + rz; }
        g.ltypes = f.locals.iter().map(|l| l.1.clone()).collect();
        let entry = g.ops.len() as u32;
        g.labels.clear(); g.gotos.clear();
        g.stmt(body)?;
        if f.ty.ret == T::Void { g.ops.push(Op::Ret(false)); } else if f.name == "main" { g.ops.push(Op::Const(0)); g.ops.push(Op::Ret(true)); } else { g.ops.push(Op::FallOff); }
        for (at, l) in std::mem::take(&mut g.gotos) { let t = *g.labels.get(&l).ok_or("undefined label")?; g.ops[at] = Op::Jmp(t); }
        let param_off = f.params.iter().map(|l| (g.loff[*l], f.locals[*l].1.clone())).collect();
        funs.push(Some(FunCode { entry, frame: off, nparams: f.params.len(), param_off, ret: f.ty.ret.clone() }));
    }
    let main = main.ok_or("no main")?;
    let start = g.ops.len() as u32;
    for (i, (_, t, init, _)) in p.globals.iter().enumerate() { if let Some(init) = init { let off = g.goff[i]; g.init(Place::G(off), t, init)?; } }
    let mn = p.funs[main].params.len();
    // program arguments
    let av = a; a += 4 * argv.len() as u32 + RZ;
    let mut ptrs = vec![];
    for s in argv { let mut s = s.clone(); s.push(0); ptrs.extend(a.to_le_bytes()); let n = s.len() as u32; image.push((a, s)); a += n + RZ; }
    image.push((av, ptrs));
    for i in 0..mn { g.ops.push(Op::Const(if argv.is_empty() { 0 } else if i == 0 { argv.len() as u64 } else { av as u64 })); }
    g.ops.push(Op::Call(main as u32, mn as u32));
    g.ops.push(Op::Halt);
    let goff = g.goff.clone();
    Ok(Code { ops: g.ops, funs, prog: p.clone(), gbase: if rtl { 61 } else { 16 }, rz, gend: a, image, start, main, goff })
}

#[derive(Clone, Copy)]
enum Place { L(u32), G(u32) }
impl Place { fn add(self, n: u32) -> Place { match self { Place::L(o) => Place::L(o + n), Place::G(o) => Place::G(o + n) } } }

impl<'a> Gen<'a> {
    fn e(&mut self, o: Op) -> usize { self.ops.push(o); self.ops.len() - 1 }
    fn here(&self) -> u32 { self.ops.len() as u32 }
    fn patch(&mut self, at: usize) { let h = self.here(); match &mut self.ops[at] { Op::Jz(x, _) | Op::Jnz(x, _) | Op::Jmp(x) => *x = h, _ => unreachable!() } }
    fn place(&mut self, p: Place) { match p { Place::L(o) => self.e(Op::ALocal(o)), Place::G(o) => self.e(Op::AGlobal(o)) }; }
    fn init(&mut self, pl: Place, t: &T, i: &Init) -> R<()> {
        match (t, i) {
            (T::S(_), Init::E(e)) => { self.place(pl); self.rv(e)?; let s = size_of(t, &self.p.aggs)?; self.e(Op::StoreS(s, false)); self.e(Op::Pop); }
            (_, Init::E(e)) => { self.place(pl); self.rv(e)?; self.e(Op::Store(t.clone())); self.e(Op::Pop); }
            (T::A(el, n), Init::List(l)) => { let s = size_of(el, &self.p.aggs)?; if let Place::L(o) = pl { self.e(Op::Zero(o, s * n)); } for (k, x) in l.iter().enumerate() { self.init(pl.add(k as u32 * s), el, x)?; } }
            (T::A(_, n), Init::Str(b)) => { if let Place::L(o) = pl { self.e(Op::Zero(o, *n)); } for (k, c) in b.iter().enumerate() { self.place(pl.add(k as u32)); self.e(Op::PokeB(*c)); } }
            (T::S(ai), Init::List(l)) => { let a = self.p.aggs[*ai].clone(); if let Place::L(o) = pl { self.e(Op::Zero(o, a.size)); } for (k, x) in l.iter().enumerate() { let f = &a.fields[k]; self.init(pl.add(f.2), &f.1, x)?; } }
            (t, Init::List(l)) if l.len() == 1 => self.init(pl, t, &l[0])?,
            _ => return Err("bad initialiser".into()),
        }
        Ok(())
    }
    fn ssize(&self, t: &T) -> R<u32> { size_of(t, &self.p.aggs) }
    /// struct assignment, leaving the address of the left operand
    fn sassign(&mut self, l: &Ex, r: &Ex) -> R<()> {
        let n = self.ssize(&l.t)?;
        match &r.k {
            K::Load(x) => { self.lv(l)?; self.lv(x)?; self.e(Op::Copy(n)); }
            _ if self.rtl => { self.rv(r)?; self.lv(l)?; self.e(Op::StoreS(n, true)); }
            _ => { self.lv(l)?; self.rv(r)?; self.e(Op::StoreS(n, false)); }
        }
        Ok(())
    }
    fn lv(&mut self, e: &Ex) -> R<()> {
        match &e.k {
            K::Local(i) => { let o = self.loff[*i]; if vm(&self.ltypes[*i]) { self.e(Op::AVla(o)); } else { self.e(Op::ALocal(o)); } }
            K::Global(i) => { let o = self.goff[*i]; self.e(Op::AGlobal(o)); }
            K::Deref(p) => self.rv(p)?,
            K::Field(b, o) => { self.lv(b)?; self.e(Op::Const(*o as u64)); self.e(Op::PAdd(1)); }
            _ => return Err("not an lvalue".into()),
        }
        Ok(())
    }
    fn rv(&mut self, e: &Ex) -> R<()> {
        match &e.k {
            K::Int(v) => { let v = norm(*v, &e.t); self.e(Op::Const(v)); }
            K::Fp(f) => { self.e(Op::Const(f.to_bits())); }
            K::Str(i) => { let o = self.soff[*i]; self.e(Op::Const(o as u64)); }
            K::Addr(l) => self.lv(l)?,
            K::Decay(l) => { if let K::Str(_) = l.k { self.rv(l)? } else { self.lv(l)? } }
            K::Load(l) => { self.lv(l)?; if let T::S(_) = e.t { let n = self.ssize(&e.t)?; self.e(Op::LoadS(n)); } else { self.e(Op::Load(e.t.clone())); } }
            K::RField(b, o) => { self.rv(b)?; let n = self.ssize(&b.t)?; if let T::S(_) = e.t { self.ssize(&e.t)?; } self.e(Op::FieldS(n, *o, e.t.clone())); }
            K::Conv(x) => { self.rv(x)?; if x.t == T::Void { if e.t != T::Void { return Err("void value".into()); } } else { self.e(Op::Conv(x.t.clone(), e.t.clone())); } }
            K::Un(o, x) => { self.rv(x)?; self.e(Op::Un(*o, x.t.clone())); }
            K::Bin(o, a, b) => { self.two(a, b)?; if matches!(o, B::Shl | B::Shr) { self.e(Op::Shift(*o, a.t.clone(), b.t.clone())); } else { self.e(Op::Bin(*o, a.t.clone())); } }
            K::PAdd(a, b, s) => { self.two(a, b)?; self.e(Op::PAdd(*s)); }
            K::PSub(a, b, s) => { self.two(a, b)?; self.e(Op::PSub(*s)); }
            K::LAnd(a, b) | K::LOr(a, b) => {
                self.rv(a)?; self.e(Op::Bool(a.t.clone())); self.e(Op::Dup);
                let j = if matches!(e.k, K::LAnd(..)) { self.e(Op::Jz(0, I32)) } else { self.e(Op::Jnz(0, I32)) };
                self.e(Op::Pop); self.rv(b)?; self.e(Op::Bool(b.t.clone())); self.patch(j);
            }
            K::Cond(c, a, b) => { self.rv(c)?; let j = self.e(Op::Jz(0, c.t.clone())); self.rv(a)?; let k = self.e(Op::Jmp(0)); self.patch(j); self.rv(b)?; self.patch(k); }
            K::Assign(l, r) => {
                if let T::S(_) = e.t { self.sassign(l, r)?; let n = self.ssize(&e.t)?; self.e(Op::LoadS(n)); return Ok(()); }
                if self.rtl { self.rv(r)?; self.lv(l)?; self.e(Op::Swap); } else { self.lv(l)?; self.rv(r)?; }
                self.e(Op::Store(e.t.clone()));
            }
            K::OpAssign(l, r, op, ct, sc) => {
                if self.rtl { self.rv(r)?; self.lv(l)?; self.e(Op::Swap); } else { self.lv(l)?; self.rv(r)?; }
                // addr rhs -> addr rhs addr -> rhs.. : load after rhs evaluation
                self.e(Op::Over); self.e(Op::Load(l.t.clone())); // addr rhs cur
                self.e(Op::Conv(l.t.clone(), ct.clone())); self.e(Op::Swap); // addr cur rhs
                if *sc != 0 { self.e(Op::PAdd(if *op == B::Sub { -*sc } else { *sc })); } else if matches!(op, B::Shl | B::Shr) { self.e(Op::Shift(*op, ct.clone(), r.t.clone())); self.e(Op::Conv(ct.clone(), l.t.clone())); } else { self.e(Op::Bin(*op, ct.clone())); self.e(Op::Conv(ct.clone(), l.t.clone())); }
                self.e(Op::Store(l.t.clone()));
            }
            K::IncDec { lv, inc, post, scale } => { self.lv(lv)?; self.e(Op::IncDec { t: e.t.clone(), inc: *inc, post: *post, scale: *scale }); }
            K::Call(f, args) => {
                let n = args.len();
                if self.rtl && n > 1 { for a in args.iter().rev() { self.rv(a)?; } if args.iter().any(|a| matches!(a.t, T::S(_))) { let mut g = vec![]; for a in args.iter().rev() { g.push(if let T::S(_) = a.t { words(self.ssize(&a.t)?) } else { 1 }); } self.e(Op::RevG(Rc::new(g))); } else { self.e(Op::Rev(n as u32)); } } else { for a in args { self.rv(a)?; } }
                if self.p.funs[*f].body.is_some() { self.e(Op::Call(*f as u32, n as u32)); } else {
                    let ts: Vec<T> = args.iter().map(|a| a.t.clone()).collect();
                    self.e(Op::Host(*f as u32, Rc::new(ts)));
                }
                if e.t == T::Void { self.e(Op::Const(0)); }
            }
            K::Comma(a, b) => { self.effect(a)?; self.rv(b)?; }
            K::Local(_) | K::Global(_) | K::Deref(_) | K::Field(..) | K::Fun(_) => return Err("unexpected lvalue".into()),
        }
        Ok(())
    }

    fn two(&mut self, a: &Ex, b: &Ex) -> R<()> { if self.rtl { self.rv(b)?; self.rv(a)?; self.e(Op::Swap); } else { self.rv(a)?; self.rv(b)?; } Ok(()) }
    fn effect(&mut self, e: &Ex) -> R<()> {
        match (&e.k, &e.t) {
            (K::Assign(l, r), T::S(_)) => { self.sassign(l, r)?; }
            (K::Fun(_), _) => return Err("function value".into()),
            (_, T::S(_)) => { self.rv(e)?; let n = words(self.ssize(&e.t)?); self.e(Op::PopN(n)); return Ok(()); }
            _ => self.rv(e)?,
        }
        self.e(Op::Pop); Ok(())
    }
    fn stmt(&mut self, s: &S) -> R<()> {
        match s {
            S::Empty => {}
            S::Expr(e) => self.effect(e)?,
            S::Block(v) => for x in v { self.stmt(x)?; },
            S::Decl(l, init, vla) => {
                let t = self.ltypes[*l].clone(); let o = self.loff[*l];
                match vla {
                    Some(n) => { self.rv(n)?; self.e(Op::DeclVla(o, 1)); }
                    _ => { let sz = size_of(&t, &self.p.aggs)?; self.e(Op::Decl(o, sz)); if let Some(i) = init { self.init(Place::L(o), &t, i)?; } }
                }
            }
            S::If(c, a, b) => { self.rv(c)?; let j = self.e(Op::Jz(0, c.t.clone())); self.stmt(a)?; if let Some(b) = b { let k = self.e(Op::Jmp(0)); self.patch(j); self.stmt(b)?; self.patch(k); } else { self.patch(j); } }
            S::While(c, b) => { let top = self.here(); self.rv(c)?; let j = self.e(Op::Jz(0, c.t.clone())); self.body(b)?; self.fix_cont_to(top); self.e(Op::Jmp(top)); self.patch(j); self.fix_brk(); }
            S::Do(b, c) => { let top = self.here(); self.body(b)?; self.fix_cont(); self.rv(c)?; self.e(Op::Jnz(top, c.t.clone())); self.fix_brk(); }
            S::For(i, c, st, b) => {
                if let Some(i) = i { self.stmt(i)?; }
                let top = self.here();
                let j = match c { Some(c) => { self.rv(c)?; Some(self.e(Op::Jz(0, c.t.clone()))) } None => None };
                self.body(b)?; self.fix_cont();
                if let Some(st) = st { self.effect(st)?; }
                self.e(Op::Jmp(top));
                if let Some(j) = j { self.patch(j); }
                self.fix_brk();
            }
            S::Switch(c, b) => {
                self.rv(c)?;
                let at = self.e(Op::Halt);
                self.sw.push((vec![], None)); self.brk.push(vec![]);
                self.stmt(b)?;
                let (cases, def) = self.sw.pop().unwrap();
                let end = self.here();
                self.ops[at] = Op::Switch(Rc::new((cases, def.unwrap_or(end))), c.t.clone());
                self.fix_brk();
            }
            S::Case(v, b) => { let h = self.here(); self.sw.last_mut().ok_or("case")?.0.push((*v, h)); self.stmt(b)?; }
            S::Default(b) => { let h = self.here(); self.sw.last_mut().ok_or("default")?.1 = Some(h); self.stmt(b)?; }
            S::Break => { let j = self.e(Op::Jmp(0)); self.brk.last_mut().ok_or("break")?.push(j); }
            S::Continue => { let j = self.e(Op::Jmp(0)); self.cont.last_mut().ok_or("continue")?.push(j); }
            S::Return(None) => { self.e(Op::Ret(false)); }
            S::Return(Some(e)) => { self.rv(e)?; if let T::S(_) = e.t { let n = words(self.ssize(&e.t)?); self.e(Op::RetS(n)); } else { self.e(Op::Ret(true)); } }
            S::Goto(l) => { let j = self.e(Op::Jmp(0)); self.gotos.push((j, l.clone())); }
            S::Label(l, b) => { let h = self.here(); self.labels.insert(l.clone(), h); self.stmt(b)?; }
        }
        Ok(())
    }
    fn body(&mut self, b: &S) -> R<()> { self.brk.push(vec![]); self.cont.push(vec![]); self.stmt(b) }
    fn fix_cont(&mut self) { let h = self.here(); self.fix_cont_to(h); }
    fn fix_cont_to(&mut self, to: u32) { for j in self.cont.pop().unwrap() { self.ops[j] = Op::Jmp(to); } }
    fn fix_brk(&mut self) { let h = self.here(); for j in self.brk.pop().unwrap() { self.ops[j] = Op::Jmp(h); } }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop { Host(u32, Vec<(T, u64)>), Done(i64), Ub(&'static str), Fuel }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Fr { ret: u32, base: u32, fun: u32, sp: u32, vla: u32 }

#[derive(Clone)]
pub struct Vm { pub code: Rc<Code>, pub mem: Vec<u8>, sh: Vec<u8>, st: Vec<u64>, fr: Vec<Fr>, pc: u32, sp: u32, pub steps: u64, pub maxdepth: usize }

const UNINIT: u8 = 1;
const INIT: u8 = 2;
const RO: u8 = 3;

pub const VM_MAX_MEM: usize = 1 << 22;

impl Vm {
    pub fn new(code: Rc<Code>) -> Vm {
        let mut mem = vec![0; code.gend as usize]; let mut sh = vec![0; code.gend as usize];
        let ns = code.prog.strs.len();
        for (k, (a, d)) in code.image.iter().enumerate() { let a = *a as usize; mem[a..a + d.len()].copy_from_slice(d); for x in &mut sh[a..a + d.len()] { *x = if k < ns { RO } else { INIT }; } }
        let pc = code.start; let sp = code.gend;
        Vm { code, mem, sh, st: vec![], fr: vec![], pc, sp, steps: 0, maxdepth: 0 }
    }
    pub fn hash_state<H: Hasher>(&self, h: &mut H) { self.mem.hash(h); self.sh.hash(h); self.st.hash(h); self.fr.hash(h); self.pc.hash(h); self.sp.hash(h); }
    /// the calls in progress, and the space each took for its variable length arrays
    pub fn hash_calls<H: Hasher>(&self, h: &mut H) { self.pc.hash(h); for f in &self.fr { f.fun.hash(h); f.ret.hash(h); f.vla.hash(h); } }
    pub fn depth(&self) -> usize { self.fr.len() }
    /// the functions on the call stack, outermost first
    pub fn load_bytes(&self, a: u64, n: usize) -> Result<Vec<u8>, &'static str> {
        let a = a as usize; if a < 16 { return Err("null dereference"); }
        for i in a..a + n { match self.sh.get(i) { Some(&s) if s >= INIT => {} Some(&UNINIT) => return Err("read of uninitialised memory"), _ => return Err("out-of-bounds read") } }
        Ok(self.mem[a..a + n].to_vec())
    }
    pub fn cstr(&self, a: u64) -> Result<Vec<u8>, &'static str> { let mut v = vec![]; let mut a = a; loop { let b = self.load_bytes(a, 1)?[0]; if b == 0 { return Ok(v); } v.push(b); a += 1; } }
    pub fn store_bytes(&mut self, a: u64, d: &[u8]) -> Result<(), &'static str> {
        let a = a as usize; if a < 16 { return Err("null dereference"); }
        for i in a..a + d.len() { match self.sh.get(i) { Some(&RO) => return Err("write to string literal"), Some(&(UNINIT | INIT)) => {} _ => return Err("out-of-bounds write") } }
        self.mem[a..a + d.len()].copy_from_slice(d); for x in &mut self.sh[a..a + d.len()] { *x = INIT; }
        Ok(())
    }
    fn load(&self, a: u64, t: &T) -> Result<u64, &'static str> {
        let n = match t { T::I { sz, .. } => *sz as usize, T::F32 | T::P(_) => 4, T::F64 => 8, _ => return Err("bad load") };
        let b = self.load_bytes(a, n)?; let mut x = [0u8; 8]; x[..n].copy_from_slice(&b); let v = u64::from_le_bytes(x);
        Ok(match t { T::F32 => (f32::from_bits(v as u32) as f64).to_bits(), t => norm(v, t) })
    }
    fn store(&mut self, a: u64, v: u64, t: &T) -> Result<(), &'static str> {
        match t { T::I { sz, .. } => self.store_bytes(a, &v.to_le_bytes()[..*sz as usize]), T::P(_) => self.store_bytes(a, &v.to_le_bytes()[..4]), T::F64 => self.store_bytes(a, &v.to_le_bytes()), T::F32 => self.store_bytes(a, &(f64::from_bits(v) as f32).to_bits().to_le_bytes()), _ => Err("bad store") }
    }
    fn pop_struct(&mut self, a: u64, n: u32) -> Result<(), &'static str> {
        let l = self.st.len(); let w = self.st.split_off(l - words(n) as usize);
        let a = a as usize; if a < 16 { return Err("null dereference"); }
        for i in 0..n as usize { match self.sh.get(a + i) { Some(&(UNINIT | INIT)) => {} _ => return Err("out-of-bounds copy") } }
        for i in 0..n as usize { self.mem[a + i] = (w[i / 4] >> (8 * (i % 4))) as u8; self.sh[a + i] = (w[i / 4] >> (32 + 8 * (i % 4))) as u8; }
        Ok(())
    }
    fn grow(&mut self, to: u32) -> Result<(), &'static str> { if to as usize > VM_MAX_MEM { return Err("model memory bound"); } if self.mem.len() < to as usize { self.mem.resize(to as usize, 0); self.sh.resize(to as usize, 0); } Ok(()) }
    pub fn resume(&mut self, v: u64) { self.st.push(v); }
    pub fn run(&mut self, fuel: u64) -> Stop {
        match self.run_(fuel) { Ok(s) => s, Err(e) => Stop::Ub(e) }
    }
    fn run_(&mut self, mut fuel: u64) -> Result<Stop, &'static str> {
        let code = self.code.clone();
        macro_rules! pop { () => { self.st.pop().unwrap() } }
        loop {
            if fuel == 0 { return Ok(Stop::Fuel); }
            fuel -= 1; self.steps += 1;
            let op = &code.ops[self.pc as usize];
            self.pc += 1;
            match op {
                Op::Const(v) => self.st.push(*v),
                Op::ALocal(o) => { let b = self.fr.last().unwrap().base; self.st.push((b + o) as u64); }
                Op::AGlobal(o) => self.st.push(*o as u64),
                Op::AVla(o) => { let b = self.fr.last().unwrap().base; let v = self.load((b + o) as u64, &U32)?; self.st.push(v); }
                Op::Load(t) => { let a = pop!(); let v = self.load(a, t)?; self.st.push(v); }
                Op::Store(t) => { let v = pop!(); let a = pop!(); self.store(a, v, t)?; self.st.push(v); }
                Op::Copy(n) => {
                    let s = pop!(); let d = pop!(); let n = *n as usize;
                    if s < 16 || d < 16 { return Err("null dereference"); }
                    if s != d && (s.max(d) - s.min(d)) < n as u64 { return Err("overlapping copy"); }
                    for i in 0..n { let (si, di) = (s as usize + i, d as usize + i); match (self.sh.get(si), self.sh.get(di)) { (Some(&x), Some(&y)) if x > 0 && (y == UNINIT || y == INIT) => { self.mem[di] = self.mem[si]; self.sh[di] = x.min(INIT); } _ => return Err("out-of-bounds copy") } }
                    self.st.push(d);
                }
                Op::Conv(f, t) => { let v = pop!(); let v = conv(v, f, t)?; self.st.push(v); }
                Op::Bin(o, t) => { let b = pop!(); let a = pop!(); let v = binop(*o, a, b, t)?; self.st.push(v); }
                Op::Shift(o, t, rt) => { let b = pop!(); let a = pop!(); let n = match rt { T::I { sg: true, .. } => b as i64, _ => b.min(1000) as i64 }; if !(0..64).contains(&n) { return Err("shift range"); } let v = binop(*o, a, n as u64, t)?; self.st.push(v); }
                Op::Un(o, t) => { let a = pop!(); let v = unop(*o, a, t)?; self.st.push(v); }
                Op::PAdd(s) => { let i = pop!() as i64; let p = pop!(); let v = (p as i64) + i.checked_mul(*s).ok_or("pointer overflow")?; if !(0..=u32::MAX as i64).contains(&v) { return Err("pointer overflow"); } self.st.push(v as u64); }
                Op::PSub(s) => { let b = pop!() as i64; let a = pop!() as i64; if (a - b) % s != 0 { return Err("pointer difference"); } self.st.push(((a - b) / s) as u64); }
                Op::Dup => { let v = *self.st.last().unwrap(); self.st.push(v); }
                Op::Pop => { pop!(); }
                Op::Swap => { let n = self.st.len(); self.st.swap(n - 1, n - 2); }
                Op::Over => { let v = self.st[self.st.len() - 2]; self.st.push(v); }
                Op::Rev(n) => { let l = self.st.len(); self.st[l - *n as usize..].reverse(); }
                Op::Bool(t) => { let v = pop!(); self.st.push(truth(v, t) as u64); }
                Op::Jz(x, t) => { let v = pop!(); if !truth(v, t) { self.pc = *x; } }
                Op::Jnz(x, t) => { let v = pop!(); if truth(v, t) { self.pc = *x; } }
                Op::Jmp(x) => self.pc = *x,
                Op::Call(f, n) => {
                    let fc = code.funs[*f as usize].as_ref().ok_or("call of undefined function")?;
                    if fc.nparams != *n as usize { return Err("argument count mismatch"); }
                    if self.fr.len() > 20000 { return Err("model call depth bound"); }
                    let base = self.sp;
                    self.grow(base + fc.frame)?;
                    self.fr.push(Fr { ret: self.pc, base, fun: *f, sp: base, vla: 0 });
                    self.maxdepth = self.maxdepth.max(self.fr.len());
                    self.sp = base + fc.frame;
                    let fun = &code.prog.funs[*f as usize];
                    let mut off = base;
                    for (_, t) in &fun.locals { let n = match t { t if vm(t) => 8, t => size_of(t, &code.prog.aggs).unwrap() }; for x in &mut self.sh[off as usize..(off + n) as usize] { *x = UNINIT; } off += n + code.rz; }
                    for k in (0..fc.nparams).rev() { let (o, t) = &fc.param_off[k]; if let T::S(_) = t { let n = size_of(t, &code.prog.aggs).unwrap(); self.pop_struct((base + o) as u64, n)?; } else { let v = pop!(); self.store((base + o) as u64, v, t)?; } }
                    self.pc = fc.entry;
                }
                Op::Ret(val) => {
                    let v = if *val { Some(pop!()) } else { None };
                    let f = self.fr.pop().unwrap();
                    for x in &mut self.sh[f.base as usize..] { *x = 0; }
                    self.mem.truncate(f.base as usize); self.sh.truncate(f.base as usize);
                    self.sp = f.base;
                    if let Some(v) = v { self.st.push(v); }
                    self.pc = f.ret;
                }
                Op::RetS(n) => {
                    let l = self.st.len(); let w = self.st.split_off(l - *n as usize);
                    let f = self.fr.pop().unwrap();
                    for x in &mut self.sh[f.base as usize..] { *x = 0; }
                    self.mem.truncate(f.base as usize); self.sh.truncate(f.base as usize);
                    self.sp = f.base;
                    self.st.extend(w);
                    self.pc = f.ret;
                }
                Op::LoadS(n) => {
                    let a = pop!() as usize; if a < 16 { return Err("null dereference"); }
                    for i in 0..*n as usize { match self.sh.get(a + i) { Some(&x) if x > 0 => {} _ => return Err("out-of-bounds copy") } }
                    for k in 0..words(*n) as usize { let mut v = 0u64; for i in 0..4 { if k * 4 + i < *n as usize { let at = a + k * 4 + i; v |= (self.mem[at] as u64) << (8 * i) | (self.sh[at].min(INIT) as u64) << (32 + 8 * i); } } self.st.push(v); }
                }
                Op::StoreS(n, addr_last) => {
                    let at = if *addr_last { pop!() } else { self.st[self.st.len() - 1 - words(*n) as usize] };
                    self.pop_struct(at, *n)?;
                    if !addr_last { pop!(); }
                    self.st.push(at);
                }
                Op::FieldS(n, o, t) => {
                    let l = self.st.len(); let w = self.st.split_off(l - words(*n) as usize);
                    let by = |i: u32| ((w[i as usize / 4] >> (8 * (i % 4))) as u8, (w[i as usize / 4] >> (32 + 8 * (i % 4))) as u8);
                    let sz = size_of(t, &code.prog.aggs).map_err(|_| "bad field")?;
                    if let T::S(_) = t { for k in 0..words(sz) { let mut v = 0u64; for i in 0..4 { if k * 4 + i < sz { let (m, s) = by(o + k * 4 + i); v |= (m as u64) << (8 * i) | (s as u64) << (32 + 8 * i); } } self.st.push(v); } }
                    else {
                        let mut x = [0u8; 8]; for i in 0..sz { let (m, s) = by(o + i); if s != INIT { return Err("read of uninitialised memory"); } x[i as usize] = m; }
                        let v = u64::from_le_bytes(x);
                        self.st.push(match t { T::F32 => (f32::from_bits(v as u32) as f64).to_bits(), t => norm(v, t) });
                    }
                }
                Op::PopN(n) => { let l = self.st.len(); self.st.truncate(l - *n as usize); }
                Op::RevG(g) => {
                    let tot: u32 = g.iter().sum(); let l = self.st.len(); let mut w = self.st.split_off(l - tot as usize); let mut gs = vec![];
                    for k in g.iter().rev() { let l = w.len(); gs.push(w.split_off(l - *k as usize)); }
                    for x in gs { self.st.extend(x); }
                }
                Op::FallOff => return Err("end of non-void function reached"),
                Op::Host(f, ts) => { let n = ts.len(); let l = self.st.len(); let vals = self.st.split_off(l - n); return Ok(Stop::Host(*f, ts.iter().cloned().zip(vals).collect())); }
                Op::Decl(o, n) => { let b = (self.fr.last().unwrap().base + o) as usize; for x in &mut self.sh[b..b + *n as usize] { *x = UNINIT; } for x in &mut self.mem[b..b + *n as usize] { *x = 0; } }
                Op::DeclVla(o, es) => {
                    let n = pop!() as i64; if n <= 0 || n > 100_000 { return Err("VLA size"); }
                    let bytes = n as u32 * es; let a = self.sp; self.fr.last_mut().unwrap().vla += bytes;
                    self.grow(a + bytes + RZ)?;
                    for x in &mut self.sh[a as usize..(a + bytes) as usize] { *x = UNINIT; }
                    self.sp = a + bytes + RZ;
                    let b = self.fr.last().unwrap().base + o;
                    self.store(b as u64, a as u64, &U32)?; self.store(b as u64 + 4, bytes as u64, &U32)?;
                }
                Op::Zero(o, n) => { let b = (self.fr.last().unwrap().base + o) as u64; self.store_bytes(b, &vec![0; *n as usize])?; }
                Op::PokeB(c) => { let a = pop!(); self.store_bytes(a, &[*c])?; }
                Op::IncDec { t, inc, post, scale } => {
                    let a = pop!(); let v = self.load(a, t)?;
                    let n = match t {
                        T::P(_) => { let d = if *inc { *scale } else { -*scale }; (v as i64 + d) as u64 & 0xffff_ffff }
                        T::F32 | T::F64 => binop(if *inc { B::Add } else { B::Sub }, v, 1f64.to_bits(), t)?,
                        t => { let p = promote(t); conv(binop(if *inc { B::Add } else { B::Sub }, v, 1, &p)?, &p, t)? }
                    };
                    self.store(a, n, t)?;
                    self.st.push(if *post { v } else { n });
                }
                Op::Switch(tab, t) => { let v = pop!(); let mut to = tab.1; for (c, x) in &tab.0 { if norm(*c as u64, t) == v { to = *x; break; } } self.pc = to; }
                Op::Halt => { let v = pop!(); return Ok(Stop::Done(v as i32 as i64)); }
            }
        }
    }
}
fn truth(v: u64, t: &T) -> bool { if t.is_fp() { f64::from_bits(v) != 0.0 } else { v != 0 } }

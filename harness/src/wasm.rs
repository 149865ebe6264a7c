//! A small WebAssembly (MVP) decoder, validator and deterministic interpreter whose whole
//! machine state can be cloned, compared and hashed (needed for explicit-state exploration).
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum VT { I32, I64, F32, F64 }

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct FT { pub params: Vec<VT>, pub results: Vec<VT> }

#[derive(Clone, Debug)]
pub struct Import { pub module: String, pub field: String, pub kind: ImportKind }
#[derive(Clone, Debug, PartialEq)]
pub enum ImportKind { Func(u32), Memory(u32, Option<u32>), Other }

/// Lowered instruction. Branch targets are absolute pcs in the function's code.
#[derive(Clone, Copy, Debug)]
pub enum Op {
    Unreachable,
    Jump { pc: u32, keep: u8, drop_to: u32 },
    JumpIf { pc: u32, keep: u8, drop_to: u32 },
    JumpIfZ { pc: u32 },
    BrTable { first: u32, n: u32 },
    Return,
    Call(u32),
    CallHost(u32),
    Drop,
    Select,
    LocalGet(u32), LocalSet(u32), LocalTee(u32),
    GlobalGet(u32), GlobalSet(u32),
    Load { op: u8, off: u32 },
    Store { op: u8, off: u32 },
    MemSize, MemGrow, MemCopy,
    Const(u64),
    Num(u8),
}

#[derive(Debug)]
pub struct Func { pub ty: FT, pub nlocals: u32, pub code: Vec<Op>, pub tables: Vec<(u32, u8, u32)> }

#[derive(Debug)]
pub struct Module {
    pub types: Vec<FT>,
    pub imports: Vec<Import>,
    pub host_funcs: Vec<(String, String, FT)>,
    pub funcs: Vec<Func>,
    pub globals: Vec<(VT, bool, u64)>,
    pub exports: Vec<(String, u8, u32)>,
    pub mem_min: u32,
    pub mem_max: Option<u32>,
    pub data: Vec<(u32, Vec<u8>)>,
    pub start: Option<u32>,
    pub code_instrs: usize,
}

pub type R<T> = Result<T, String>;

struct Rd<'a> { b: &'a [u8], p: usize }
impl<'a> Rd<'a> {
    fn u8(&mut self) -> R<u8> { let v = *self.b.get(self.p).ok_or("unexpected end of input")?; self.p += 1; Ok(v) }
    fn bytes(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.b.len() - self.p { return Err("length out of bounds".into()); }
        let s = &self.b[self.p..self.p + n]; self.p += n; Ok(s)
    }
    fn uleb(&mut self, bits: u32) -> R<u64> {
        let mut r: u64 = 0; let mut sh = 0;
        loop {
            let b = self.u8()?;
            let rem = bits - sh;
            if rem < 7 && (b & 0x7f) >> rem != 0 { return Err("integer too large".into()); }
            r |= ((b & 0x7f) as u64) << sh;
            if b & 0x80 == 0 { return Ok(r); }
            sh += 7;
            if sh >= bits { return Err("integer representation too long".into()); }
        }
    }
    fn u32(&mut self) -> R<u32> { Ok(self.uleb(32)? as u32) }
    fn sleb(&mut self, bits: u32) -> R<i64> {
        let mut r: i64 = 0; let mut sh = 0;
        loop {
            let b = self.u8()?;
            let rem = bits - sh;
            if rem < 7 {
                let m = (0x7fu8 << (rem - 1)) & 0x7f;
                let v = b & m;
                if v != 0 && v != m { return Err("integer too large".into()); }
            }
            r |= ((b & 0x7f) as i64) << sh;
            sh += 7;
            if b & 0x80 == 0 {
                if sh < 64 && b & 0x40 != 0 { r |= -1i64 << sh; }
                return Ok(r);
            }
            if sh >= bits { return Err("integer representation too long".into()); }
        }
    }
    fn name(&mut self) -> R<String> {
        let n = self.u32()? as usize;
        String::from_utf8(self.bytes(n)?.to_vec()).map_err(|_| "invalid UTF-8 name".to_string())
    }
    fn vt(&mut self) -> R<VT> {
        match self.u8()? { 0x7f => Ok(VT::I32), 0x7e => Ok(VT::I64), 0x7d => Ok(VT::F32), 0x7c => Ok(VT::F64), x => Err(format!("invalid value type {x:#x}")) }
    }
    fn limits(&mut self) -> R<(u32, Option<u32>)> {
        match self.u8()? {
            0 => Ok((self.u32()?, None)),
            1 => { let a = self.u32()?; let b = self.u32()?; if b < a { return Err("size minimum must not be greater than maximum".into()); } Ok((a, Some(b))) }
            x => Err(format!("bad limits flag {x}")),
        }
    }
    fn end(&self) -> bool { self.p >= self.b.len() }
}

pub fn decode(bytes: &[u8]) -> R<Module> {
    let mut r = Rd { b: bytes, p: 0 };
    if r.bytes(4)? != b"\0asm" { return Err("bad magic".into()); }
    if r.bytes(4)? != [1, 0, 0, 0] { return Err("bad version".into()); }
    let mut m = Module { types: vec![], imports: vec![], host_funcs: vec![], funcs: vec![], globals: vec![], exports: vec![], mem_min: 0, mem_max: None, data: vec![], start: None, code_instrs: 0 };
    let mut fty: Vec<u32> = vec![];
    let mut mems = 0;
    let mut tables = 0;
    let mut last = 0u8;
    let mut bodies: Vec<&[u8]> = vec![];
    let mut start: Option<u32> = None;
    let mut data_off: Vec<(u32, Vec<u8>)> = vec![];
    let mut elem_cnt = 0;
    while !r.end() {
        let id = r.u8()?;
        let len = r.u32()? as usize;
        let body = r.bytes(len).map_err(|_| format!("section {id} length out of bounds"))?;
        let mut s = Rd { b: body, p: 0 };
        if id == 0 { s.name()?; continue; }
        if id > 12 { return Err(format!("invalid section id {id}")); }
        if id <= last { return Err(format!("section {id} out of order or duplicated")); }
        last = id;
        match id {
            1 => for _ in 0..s.u32()? {
                if s.u8()? != 0x60 { return Err("bad functype".into()); }
                let mut f = FT::default();
                for _ in 0..s.u32()? { f.params.push(s.vt()?); }
                for _ in 0..s.u32()? { f.results.push(s.vt()?); }
                m.types.push(f);
            },
            2 => for _ in 0..s.u32()? {
                let module = s.name()?; let field = s.name()?;
                let kind = match s.u8()? {
                    0 => { let t = s.u32()?; let ft = m.types.get(t as usize).ok_or("import type idx")?.clone(); m.host_funcs.push((module.clone(), field.clone(), ft)); ImportKind::Func(t) }
                    1 => { if s.u8()? != 0x70 { return Err("bad elem type".into()); } s.limits()?; tables += 1; ImportKind::Other }
                    2 => { let (a, b) = s.limits()?; mems += 1; m.mem_min = a; m.mem_max = b; ImportKind::Memory(a, b) }
                    3 => { let t = s.vt()?; let mu = s.u8()?; if mu > 1 { return Err("bad mutability".into()); } m.globals.push((t, mu == 1, 0)); ImportKind::Other }
                    x => return Err(format!("bad import kind {x}")),
                };
                m.imports.push(Import { module, field, kind });
            },
            3 => for _ in 0..s.u32()? { let t = s.u32()?; if t as usize >= m.types.len() { return Err(format!("function type index {t} out of range")); } fty.push(t); },
            4 => for _ in 0..s.u32()? { if s.u8()? != 0x70 { return Err("bad elem type".into()); } s.limits()?; tables += 1; },
            5 => for _ in 0..s.u32()? { let (a, b) = s.limits()?; mems += 1; m.mem_min = a; m.mem_max = b; },
            6 => for _ in 0..s.u32()? {
                let t = s.vt()?; let mu = s.u8()?; if mu > 1 { return Err("bad mutability".into()); }
                let (v, ct) = const_expr(&mut s)?;
                if ct != t { return Err("global init type mismatch".into()); }
                m.globals.push((t, mu == 1, v));
            },
            7 => { let mut names = std::collections::HashSet::new(); for _ in 0..s.u32()? {
                let n = s.name()?; let k = s.u8()?; let i = s.u32()?;
                if k > 3 { return Err("bad export kind".into()); }
                if !names.insert(n.clone()) { return Err(format!("duplicate export name {n}")); }
                m.exports.push((n, k, i));
            } },
            8 => start = Some(s.u32()?),
            9 => for _ in 0..s.u32()? {
                if s.u32()? != 0 { return Err("unsupported element segment".into()); }
                let (_, t) = const_expr(&mut s)?; if t != VT::I32 { return Err("elem offset type".into()); }
                for _ in 0..s.u32()? { s.u32()?; }
                elem_cnt += 1;
            },
            10 => { let n = s.u32()?; for _ in 0..n { let l = s.u32()? as usize; bodies.push(s.bytes(l).map_err(|_| "function body size out of bounds".to_string())?); } },
            11 => for _ in 0..s.u32()? {
                match s.u32()? {
                    0 => { let (v, t) = const_expr(&mut s)?; if t != VT::I32 { return Err("data offset type".into()); } let l = s.u32()? as usize; data_off.push((v as u32, s.bytes(l)?.to_vec())); }
                    x => return Err(format!("unsupported data segment kind {x}")),
                }
            },
            12 => { s.u32()?; }
            _ => unreachable!(),
        }
        if !s.end() { return Err(format!("section {id} size mismatch")); }
    }
    if mems > 1 { return Err("multiple memories".into()); }
    if tables > 1 { return Err("multiple tables".into()); }
    if elem_cnt > 0 && tables == 0 { return Err("element segment without table".into()); }
    if !data_off.is_empty() && mems == 0 { return Err("data segment without memory".into()); }
    if m.mem_min > 65536 { return Err("memory too large".into()); }
    if bodies.len() != fty.len() { return Err(format!("function and code section have inconsistent lengths ({} / {})", fty.len(), bodies.len())); }
    m.data = data_off;
    let nhost = m.host_funcs.len() as u32;
    let nfun = nhost + fty.len() as u32;
    let sigs: Vec<FT> = m.host_funcs.iter().map(|h| h.2.clone()).chain(fty.iter().map(|t| m.types[*t as usize].clone())).collect();
    for (n, k, i) in &m.exports {
        let ok = match k { 0 => *i < nfun, 1 => (*i as usize) < tables, 2 => *i < mems, _ => (*i as usize) < m.globals.len() };
        if !ok { return Err(format!("export {n}: unknown index {i}")); }
    }
    if let Some(s) = start {
        let t = sigs.get(s as usize).ok_or("unknown start function")?;
        if !t.params.is_empty() || !t.results.is_empty() { return Err("bad start function type".into()); }
        m.start = Some(s);
    }
    let mut n_i = 0;
    for (i, b) in bodies.iter().enumerate() {
        let ft = sigs[nhost as usize + i].clone();
        let f = validate_body(b, &ft, &m, &sigs, nhost, mems > 0, &mut n_i).map_err(|e| format!("function #{}: {e}", nhost as usize + i))?;
        m.funcs.push(f);
    }
    m.code_instrs = n_i;
    Ok(m)
}

fn const_expr(s: &mut Rd) -> R<(u64, VT)> {
    let r = match s.u8()? {
        0x41 => (s.sleb(32)? as i32 as u32 as u64, VT::I32),
        0x42 => (s.sleb(64)? as u64, VT::I64),
        0x43 => (u32::from_le_bytes(s.bytes(4)?.try_into().unwrap()) as u64, VT::F32),
        0x44 => (u64::from_le_bytes(s.bytes(8)?.try_into().unwrap()), VT::F64),
        x => return Err(format!("bad constant expression opcode {x:#x}")),
    };
    if s.u8()? != 0x0b { return Err("constant expression not terminated".into()); }
    Ok(r)
}

struct Ctl { op: u8, res: Option<VT>, height: usize, unreach: bool, start_pc: u32, patches: Vec<usize>, tpatches: Vec<usize>, else_patch: Option<usize> }

fn validate_body(b: &[u8], ft: &FT, m: &Module, sigs: &[FT], nhost: u32, has_mem: bool, n_i: &mut usize) -> R<Func> {
    let mut s = Rd { b, p: 0 };
    let mut locals: Vec<VT> = ft.params.clone();
    let np = locals.len();
    for _ in 0..s.u32()? { let n = s.u32()?; let t = s.vt()?; if locals.len() as u64 + n as u64 > 50_000 { return Err("too many locals".into()); } for _ in 0..n { locals.push(t); } }
    if ft.results.len() > 1 { return Err("multi-value result".into()); }
    let fres = ft.results.first().copied();
    let mut code: Vec<Op> = vec![];
    let mut tables: Vec<(u32, u8, u32)> = vec![];
    let mut st: Vec<Option<VT>> = vec![];
    let mut cs: Vec<Ctl> = vec![Ctl { op: 0, res: fres, height: 0, unreach: false, start_pc: 0, patches: vec![], tpatches: vec![], else_patch: None }];
    macro_rules! pop { () => {{
        let c = cs.last().unwrap();
        if st.len() == c.height { if c.unreach { None } else { return Err(format!("type mismatch: operand stack underflow at byte {}", s.p)); } } else { st.pop().unwrap() }
    }}; ($t:expr) => {{ let t: VT = $t; let v = pop!(); if let Some(v) = v { if v != t { return Err(format!("type mismatch: expected {:?}, found {:?} at byte {}", t, v, s.p)); } } }}; }
    macro_rules! push { ($t:expr) => { st.push(Some($t)) }; }
    macro_rules! unreach { () => {{ let c = cs.last_mut().unwrap(); st.truncate(c.height); c.unreach = true; }}; }
    macro_rules! branch_to { ($l:expr) => {{
        let l = $l as usize; if l >= cs.len() { return Err(format!("unknown label {l}")); } cs.len() - 1 - l
    }}; }
    loop {
        if cs.is_empty() { break; }
        let op = s.u8()?;
        *n_i += 1;
        match op {
            0x00 => { code.push(Op::Unreachable); unreach!(); }
            0x01 => {}
            0x02 | 0x03 | 0x04 => {
                let bt = s.u8()?;
                let res = match bt { 0x40 => None, 0x7f => Some(VT::I32), 0x7e => Some(VT::I64), 0x7d => Some(VT::F32), 0x7c => Some(VT::F64), x => return Err(format!("bad block type {x:#x}")) };
                let mut ep = None;
                if op == 4 { pop!(VT::I32); ep = Some(code.len()); code.push(Op::JumpIfZ { pc: 0 }); }
                cs.push(Ctl { op, res, height: st.len(), unreach: false, start_pc: code.len() as u32, patches: vec![], tpatches: vec![], else_patch: ep });
            }
            0x05 => {
                let c = cs.last().unwrap();
                if c.op != 4 { return Err("else without if".into()); }
                let (res, h) = (c.res, c.height);
                if let Some(t) = res { pop!(t); }
                if st.len() != h { return Err("type mismatch: values remaining at else".into()); }
                let c = cs.last_mut().unwrap();
                c.patches.push(code.len());
                code.push(Op::Jump { pc: 0, keep: 0xff, drop_to: 0 });
                let e = c.else_patch.take().unwrap();
                code[e] = Op::JumpIfZ { pc: code.len() as u32 };
                c.op = 5; c.unreach = false;
            }
            0x0b => {
                let c = cs.last().unwrap();
                let (res, h, cop) = (c.res, c.height, c.op);
                if let Some(t) = res { pop!(t); }
                if st.len() != h { return Err("type mismatch: values remaining on stack at end of block".into()); }
                if cop == 4 && res.is_some() { return Err("if with result but no else".into()); }
                let c = cs.pop().unwrap();
                if let Some(e) = c.else_patch { code[e] = Op::JumpIfZ { pc: code.len() as u32 }; }
                let here = code.len() as u32;
                for p in c.patches { match &mut code[p] { Op::Jump { pc, .. } | Op::JumpIf { pc, .. } => *pc = here, _ => unreachable!() } }
                for p in c.tpatches { tables[p].0 = here; }
                if let Some(t) = res { push!(t); }
                if cs.is_empty() { code.push(Op::Return); break; }
            }
            0x0c | 0x0d => {
                let l = s.u32()?;
                if op == 0x0d { pop!(VT::I32); }
                let ci = branch_to!(l);
                let (cop, cres, ch, cpc) = { let c = &cs[ci]; (c.op, c.res, c.height, c.start_pc) };
                let lt = if cop == 3 { None } else { cres };
                if let Some(t) = lt { pop!(t); if op == 0x0d { push!(t); } }
                let keep = lt.is_some() as u8;
                if cop != 3 { let n = code.len(); cs[ci].patches.push(n); }
                let pc = if cop == 3 { cpc } else { 0 };
                code.push(if op == 0x0c { Op::Jump { pc, keep, drop_to: ch as u32 } } else { Op::JumpIf { pc, keep, drop_to: ch as u32 } });
                if op == 0x0c { unreach!(); }
            }
            0x0e => {
                let n = s.u32()?; let mut ls = vec![]; for _ in 0..=n { ls.push(s.u32()?); if ls.len() > 100_000 { return Err("br_table too big".into()); } }
                pop!(VT::I32);
                let first = tables.len() as u32;
                let dflt = branch_to!(*ls.last().unwrap());
                let want = if cs[dflt].op == 3 { None } else { cs[dflt].res };
                for l in &ls {
                    let ci = branch_to!(*l);
                    let lt = if cs[ci].op == 3 { None } else { cs[ci].res };
                    if lt != want { return Err("br_table label types differ".into()); }
                    let ti = tables.len();
                    tables.push((cs[ci].start_pc, lt.is_some() as u8, cs[ci].height as u32));
                    if cs[ci].op != 3 { cs[ci].tpatches.push(ti); }
                }
                if let Some(t) = want { pop!(t); }
                code.push(Op::BrTable { first, n });
                unreach!();
            }
            0x0f => { if let Some(t) = fres { pop!(t); } code.push(Op::Return); unreach!(); }
            0x10 => {
                let f = s.u32()?; let t = sigs.get(f as usize).ok_or_else(|| format!("unknown function {f}"))?;
                for p in t.params.iter().rev() { pop!(*p); }
                for r in &t.results { push!(*r); }
                code.push(if f < nhost { Op::CallHost(f) } else { Op::Call(f - nhost) });
            }
            0x1a => { pop!(); code.push(Op::Drop); }
            0x1b => { pop!(VT::I32); let a = pop!(); let b2 = pop!(); if a.is_some() && b2.is_some() && a != b2 { return Err("select type mismatch".into()); } st.push(a.or(b2)); code.push(Op::Select); }
            0x20 | 0x21 | 0x22 => {
                let i = s.u32()?; let t = *locals.get(i as usize).ok_or_else(|| format!("unknown local {i}"))?;
                match op { 0x20 => { push!(t); code.push(Op::LocalGet(i)); } 0x21 => { pop!(t); code.push(Op::LocalSet(i)); } _ => { pop!(t); push!(t); code.push(Op::LocalTee(i)); } }
            }
            0x23 | 0x24 => {
                let i = s.u32()?; let g = *m.globals.get(i as usize).ok_or_else(|| format!("unknown global {i}"))?;
                if op == 0x23 { push!(g.0); code.push(Op::GlobalGet(i)); } else { if !g.1 { return Err("global is immutable".into()); } pop!(g.0); code.push(Op::GlobalSet(i)); }
            }
            0x28..=0x3e => {
                if !has_mem { return Err("no memory".into()); }
                let al = s.u32()?; let off = s.u32()?;
                let nat = match op { 0x28 | 0x2a | 0x34 | 0x35 | 0x36 | 0x38 | 0x3e => 2, 0x29 | 0x2b | 0x37 | 0x39 => 3, 0x2c | 0x2d | 0x30 | 0x31 | 0x3a | 0x3c => 0, _ => 1 };
                if al > nat { return Err(format!("alignment {al} must not be larger than natural ({nat})")); }
                let t = match op { 0x28 | 0x2c..=0x2f | 0x36 | 0x3a | 0x3b => VT::I32, 0x29 | 0x30..=0x35 | 0x37 | 0x3c..=0x3e => VT::I64, 0x2a | 0x38 => VT::F32, _ => VT::F64 };
                if op < 0x36 { pop!(VT::I32); push!(t); code.push(Op::Load { op, off }); } else { pop!(t); pop!(VT::I32); code.push(Op::Store { op, off }); }
            }
            0x3f => { if s.u8()? != 0 || !has_mem { return Err("memory.size".into()); } push!(VT::I32); code.push(Op::MemSize); }
            0xfc => { if s.u32()? != 10 || s.u8()? != 0 || s.u8()? != 0 || !has_mem { return Err("unknown 0xfc instruction".into()); } pop!(VT::I32); pop!(VT::I32); pop!(VT::I32); code.push(Op::MemCopy); }
            0x40 => { if s.u8()? != 0 || !has_mem { return Err("memory.grow".into()); } pop!(VT::I32); push!(VT::I32); code.push(Op::MemGrow); }
            0x41 => { let v = s.sleb(32)? as i32; push!(VT::I32); code.push(Op::Const(v as u32 as u64)); }
            0x42 => { let v = s.sleb(64)?; push!(VT::I64); code.push(Op::Const(v as u64)); }
            0x43 => { let v = u32::from_le_bytes(s.bytes(4)?.try_into().unwrap()); push!(VT::F32); code.push(Op::Const(v as u64)); }
            0x44 => { let v = u64::from_le_bytes(s.bytes(8)?.try_into().unwrap()); push!(VT::F64); code.push(Op::Const(v)); }
            0x45..=0xc4 => {
                use VT::*;
                let (a, n, r) = match op {
                    0x45 => (I32, 1, I32), 0x46..=0x4f => (I32, 2, I32),
                    0x50 => (I64, 1, I32), 0x51..=0x5a => (I64, 2, I32),
                    0x5b..=0x60 => (F32, 2, I32), 0x61..=0x66 => (F64, 2, I32),
                    0x67..=0x69 => (I32, 1, I32), 0x6a..=0x78 => (I32, 2, I32),
                    0x79..=0x7b => (I64, 1, I64), 0x7c..=0x8a => (I64, 2, I64),
                    0x8b..=0x91 => (F32, 1, F32), 0x92..=0x98 => (F32, 2, F32),
                    0x99..=0x9f => (F64, 1, F64), 0xa0..=0xa6 => (F64, 2, F64),
                    0xa7 => (I64, 1, I32), 0xa8 | 0xa9 => (F32, 1, I32), 0xaa | 0xab => (F64, 1, I32),
                    0xac | 0xad => (I32, 1, I64), 0xae | 0xaf => (F32, 1, I64), 0xb0 | 0xb1 => (F64, 1, I64),
                    0xb2 | 0xb3 => (I32, 1, F32), 0xb4 | 0xb5 => (I64, 1, F32), 0xb6 => (F64, 1, F32),
                    0xb7 | 0xb8 => (I32, 1, F64), 0xb9 | 0xba => (I64, 1, F64), 0xbb => (F32, 1, F64),
                    0xbc => (F32, 1, I32), 0xbd => (F64, 1, I64), 0xbe => (I32, 1, F32), 0xbf => (I64, 1, F64),
                    0xc0 | 0xc1 => (I32, 1, I32), _ => (I64, 1, I64),
                };
                for _ in 0..n { pop!(a); }
                push!(r);
                code.push(Op::Num(op));
            }
            x => return Err(format!("illegal opcode {x:#x}")),
        }
        if code.len() > 40_000_000 { return Err("function too large".into()); }
    }
    if !s.end() { return Err("trailing bytes after function end".into()); }
    // `end` jumps of if-true arms keep everything
    Ok(Func { ty: ft.clone(), nlocals: (locals.len() - np) as u32, code, tables })
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Frame { pub func: u32, pub pc: u32, pub base: u32 }

#[derive(Clone, Debug, PartialEq)]
pub enum Stop { Host(u32), Done(Option<u64>), Trap(&'static str), Fuel }

#[derive(Clone)]
pub struct Machine {
    pub module: Rc<Module>,
    pub mem: Vec<u8>,
    /// changes of the stack pointer word since it was last reset
    pub sp_changes: u32,
    pub prev_sp: u32,
    pub dirty: usize,
    pub stack: Vec<u64>,
    pub frames: Vec<Frame>,
    pub globals: Vec<u64>,
    pub steps: u64,
    pub max_frames: usize,
}

pub const MAX_FRAMES: usize = 12_000;

impl Machine {
    pub fn new(module: Rc<Module>) -> Result<Machine, String> {
        let size = module.mem_min as usize * 65536;
        let mut mem = vec![0u8; size];
        let mut dirty = 0;
        for (o, d) in &module.data {
            let o = *o as usize;
            if o + d.len() > size { return Err("data segment does not fit in memory".into()); }
            mem[o..o + d.len()].copy_from_slice(d);
            dirty = dirty.max(o + d.len());
        }
        let globals = module.globals.iter().map(|g| g.2).collect();
        Ok(Machine { module, mem, sp_changes: 0, prev_sp: 0, dirty, stack: vec![], frames: vec![], globals, steps: 0, max_frames: 0 })
    }
    pub fn hash_state<H: Hasher>(&self, h: &mut H) {
        self.stack.hash(h);
        self.frames.hash(h);
        self.globals.hash(h);
        self.mem[..self.dirty].hash(h);
    }
    pub fn rd32(&self, a: u32) -> Option<u32> { self.mem.get(a as usize..a as usize + 4).map(|s| u32::from_le_bytes(s.try_into().unwrap())) }
    pub fn wr(&mut self, a: u32, b: &[u8]) -> bool {
        let a = a as usize;
        if a + b.len() > self.mem.len() { return false; }
        self.mem[a..a + b.len()].copy_from_slice(b);
        self.dirty = self.dirty.max(a + b.len());
        true
    }
    pub fn rd(&self, a: u32, n: usize) -> Option<&[u8]> { self.mem.get(a as usize..(a as usize).checked_add(n)?) }
    pub fn invoke(&mut self, export: &str, args: &[u64]) -> Result<(), String> {
        let m = self.module.clone();
        let e = m.exports.iter().find(|e| e.0 == export && e.1 == 0).ok_or("no such export")?;
        let nh = m.host_funcs.len() as u32;
        if e.2 < nh { return Err("export is an import".into()); }
        let fi = e.2 - nh;
        let f = &m.funcs[fi as usize];
        if f.ty.params.len() != args.len() { return Err("export arity".into()); }
        self.stack.clear(); self.frames.clear();
        self.stack.extend_from_slice(args);
        for _ in 0..f.nlocals { self.stack.push(0); }
        self.frames.push(Frame { func: fi, pc: 0, base: 0 });
        Ok(())
    }
    /// Run until a host call, termination, trap or fuel exhaustion. After Host(i) the pc is past the call.
    pub fn run(&mut self, mut fuel: u64) -> Stop {
        let m = self.module.clone();
        let fuel0 = fuel;
        let r = 'outer: loop {
            let (fi, mut pc, base) = { let f = self.frames.last().unwrap(); (f.func, f.pc as usize, f.base as usize) };
            let f = &m.funcs[fi as usize];
            let code = &f.code[..];
            let lh = base + f.ty.params.len() + f.nlocals as usize; // operand stack base
            macro_rules! save { () => { self.frames.last_mut().unwrap().pc = pc as u32 }; }
            macro_rules! trap { ($s:expr) => {{ save!(); break 'outer Stop::Trap($s); }}; }
            loop {
                if fuel == 0 { save!(); break 'outer Stop::Fuel; }
                fuel -= 1;
                let op = code[pc];
                pc += 1;
                match op {
                    Op::Unreachable => trap!("unreachable"),
                    Op::Jump { pc: t, keep, drop_to } => {
                        if keep != 0xff { self.unwind(lh, keep, drop_to); }
                        pc = t as usize;
                    }
                    Op::JumpIf { pc: t, keep, drop_to } => { let c = self.stack.pop().unwrap() as u32; if c != 0 { self.unwind(lh, keep, drop_to); pc = t as usize; } }
                    Op::JumpIfZ { pc: t } => { let c = self.stack.pop().unwrap() as u32; if c == 0 { pc = t as usize; } }
                    Op::BrTable { first, n } => {
                        let i = (self.stack.pop().unwrap() as u32).min(n);
                        let (t, keep, d) = f.tables[(first + i) as usize];
                        self.unwind(lh, keep, d);
                        pc = t as usize;
                    }
                    Op::Return => {
                        let res = if f.ty.results.is_empty() { None } else { Some(self.stack.pop().unwrap()) };
                        self.stack.truncate(base);
                        self.frames.pop();
                        if self.frames.is_empty() { break 'outer Stop::Done(res); }
                        if let Some(v) = res { self.stack.push(v); }
                        continue 'outer;
                    }
                    Op::Call(c) => {
                        save!();
                        if self.frames.len() >= MAX_FRAMES { break 'outer Stop::Trap("call stack exhausted"); }
                        let cf = &m.funcs[c as usize];
                        let b = self.stack.len() - cf.ty.params.len();
                        for _ in 0..cf.nlocals { self.stack.push(0); }
                        self.frames.push(Frame { func: c, pc: 0, base: b as u32 });
                        self.max_frames = self.max_frames.max(self.frames.len());
                        continue 'outer;
                    }
                    Op::CallHost(c) => { save!(); break 'outer Stop::Host(c); }
                    Op::Drop => { self.stack.pop(); }
                    Op::Select => { let c = self.stack.pop().unwrap() as u32; let b = self.stack.pop().unwrap(); let a = self.stack.pop().unwrap(); self.stack.push(if c != 0 { a } else { b }); }
                    Op::LocalGet(i) => { let v = self.stack[base + i as usize]; self.stack.push(v); }
                    Op::LocalSet(i) => { let v = self.stack.pop().unwrap(); self.stack[base + i as usize] = v; }
                    Op::LocalTee(i) => { let v = *self.stack.last().unwrap(); self.stack[base + i as usize] = v; }
                    Op::GlobalGet(i) => { let v = self.globals[i as usize]; self.stack.push(v); }
                    Op::GlobalSet(i) => { self.globals[i as usize] = self.stack.pop().unwrap(); }
                    Op::Load { op, off } => {
                        let a = self.stack.pop().unwrap() as u32 as u64 + off as u64;
                        let a = a as usize;
                        macro_rules! ld { ($t:ty, $n:expr) => {{ match self.mem.get(a..a + $n) { Some(s) => <$t>::from_le_bytes(s.try_into().unwrap()), None => trap!("out of bounds memory access") } }}; }
                        let v: u64 = match op {
                            0x28 | 0x2a => ld!(u32, 4) as u64,
                            0x29 | 0x2b => ld!(u64, 8),
                            0x2c => ld!(i8, 1) as i32 as u32 as u64,
                            0x2d => ld!(u8, 1) as u64,
                            0x2e => ld!(i16, 2) as i32 as u32 as u64,
                            0x2f => ld!(u16, 2) as u64,
                            0x30 => ld!(i8, 1) as i64 as u64,
                            0x31 => ld!(u8, 1) as u64,
                            0x32 => ld!(i16, 2) as i64 as u64,
                            0x33 => ld!(u16, 2) as u64,
                            0x34 => ld!(i32, 4) as i64 as u64,
                            _ => ld!(u32, 4) as u64,
                        };
                        self.stack.push(v);
                    }
                    Op::Store { op, off } => {
                        let v = self.stack.pop().unwrap();
                        let a = (self.stack.pop().unwrap() as u32 as u64 + off as u64) as usize;
                        let n = match op { 0x36 | 0x38 | 0x3e => 4, 0x37 | 0x39 => 8, 0x3a | 0x3c => 1, _ => 2 };
                        if a + n > self.mem.len() { trap!("out of bounds memory access"); }
                        if a < 12 && a + n > 8 && self.mem[a..a + n] != v.to_le_bytes()[..n] { self.sp_changes += 1; }
                        self.mem[a..a + n].copy_from_slice(&v.to_le_bytes()[..n]);
                        if a + n > self.dirty { self.dirty = a + n; }
                    }
                    Op::MemSize => { let v = (self.mem.len() / 65536) as u64; self.stack.push(v); }
                    Op::MemCopy => {
                        let n = self.stack.pop().unwrap() as u32 as usize; let a = self.stack.pop().unwrap() as u32 as usize; let d = self.stack.pop().unwrap() as u32 as usize;
                        if a + n > self.mem.len() || d + n > self.mem.len() { trap!("out of bounds memory access"); }
                        self.mem.copy_within(a..a + n, d);
                        self.dirty = self.dirty.max(d + n);
                    }
                    Op::MemGrow => { self.stack.pop(); self.stack.push(0xffff_ffff); }
                    Op::Const(v) => self.stack.push(v),
                    Op::Num(o) => { if let Err(e) = num(o, &mut self.stack) { trap!(e); } }
                }
            }
        };
        self.steps += fuel0 - fuel;
        r
    }
    fn unwind(&mut self, lh: usize, keep: u8, drop_to: u32) {
        let h = lh + drop_to as usize;
        if keep == 1 { let v = self.stack.pop().unwrap(); self.stack.truncate(h); self.stack.push(v); } else { self.stack.truncate(h); }
    }
}

fn num(o: u8, st: &mut Vec<u64>) -> Result<(), &'static str> {
    macro_rules! p { () => { st.pop().unwrap() }; }
    macro_rules! i32u { ($f:expr) => {{ let a = p!() as u32; let f: fn(u32) -> u32 = $f; st.push(f(a) as u64); }}; }
    macro_rules! i32b { ($f:expr) => {{ let b = p!() as u32; let a = p!() as u32; let f: fn(u32, u32) -> u32 = $f; st.push(f(a, b) as u64); }}; }
    macro_rules! i64b { ($f:expr) => {{ let b = p!(); let a = p!(); let f: fn(u64, u64) -> u64 = $f; st.push(f(a, b)); }}; }
    macro_rules! i64u { ($f:expr) => {{ let a = p!(); let f: fn(u64) -> u64 = $f; st.push(f(a)); }}; }
    macro_rules! f32b { ($f:expr) => {{ let b = f32::from_bits(p!() as u32); let a = f32::from_bits(p!() as u32); let f: fn(f32, f32) -> f32 = $f; st.push(f(a, b).to_bits() as u64); }}; }
    macro_rules! f64b { ($f:expr) => {{ let b = f64::from_bits(p!()); let a = f64::from_bits(p!()); let f: fn(f64, f64) -> f64 = $f; st.push(f(a, b).to_bits()); }}; }
    macro_rules! f32c { ($f:expr) => {{ let b = f32::from_bits(p!() as u32); let a = f32::from_bits(p!() as u32); let f: fn(f32, f32) -> bool = $f; st.push(f(a, b) as u64); }}; }
    macro_rules! f64c { ($f:expr) => {{ let b = f64::from_bits(p!()); let a = f64::from_bits(p!()); let f: fn(f64, f64) -> bool = $f; st.push(f(a, b) as u64); }}; }
    macro_rules! f32u { ($f:expr) => {{ let a = f32::from_bits(p!() as u32); let f: fn(f32) -> f32 = $f; st.push(f(a).to_bits() as u64); }}; }
    macro_rules! f64u { ($f:expr) => {{ let a = f64::from_bits(p!()); let f: fn(f64) -> f64 = $f; st.push(f(a).to_bits()); }}; }
    fn trunc(x: f64, lo: f64, hi: f64) -> Result<f64, &'static str> { if x.is_nan() { return Err("invalid conversion to integer"); } let t = x.trunc(); if t <= lo || t >= hi { return Err("integer overflow in truncation"); } Ok(t) }
    match o {
        0x45 => i32u!(|a| (a == 0) as u32), 0x46 => i32b!(|a, b| (a == b) as u32), 0x47 => i32b!(|a, b| (a != b) as u32),
        0x48 => i32b!(|a, b| ((a as i32) < b as i32) as u32), 0x49 => i32b!(|a, b| (a < b) as u32),
        0x4a => i32b!(|a, b| (a as i32 > b as i32) as u32), 0x4b => i32b!(|a, b| (a > b) as u32),
        0x4c => i32b!(|a, b| (a as i32 <= b as i32) as u32), 0x4d => i32b!(|a, b| (a <= b) as u32),
        0x4e => i32b!(|a, b| (a as i32 >= b as i32) as u32), 0x4f => i32b!(|a, b| (a >= b) as u32),
        0x50 => i64u!(|a| (a == 0) as u64), 0x51 => i64b!(|a, b| (a == b) as u64), 0x52 => i64b!(|a, b| (a != b) as u64),
        0x53 => i64b!(|a, b| ((a as i64) < b as i64) as u64), 0x54 => i64b!(|a, b| (a < b) as u64),
        0x55 => i64b!(|a, b| (a as i64 > b as i64) as u64), 0x56 => i64b!(|a, b| (a > b) as u64),
        0x57 => i64b!(|a, b| (a as i64 <= b as i64) as u64), 0x58 => i64b!(|a, b| (a <= b) as u64),
        0x59 => i64b!(|a, b| (a as i64 >= b as i64) as u64), 0x5a => i64b!(|a, b| (a >= b) as u64),
        0x5b => f32c!(|a, b| a == b), 0x5c => f32c!(|a, b| a != b), 0x5d => f32c!(|a, b| a < b), 0x5e => f32c!(|a, b| a > b), 0x5f => f32c!(|a, b| a <= b), 0x60 => f32c!(|a, b| a >= b),
        0x61 => f64c!(|a, b| a == b), 0x62 => f64c!(|a, b| a != b), 0x63 => f64c!(|a, b| a < b), 0x64 => f64c!(|a, b| a > b), 0x65 => f64c!(|a, b| a <= b), 0x66 => f64c!(|a, b| a >= b),
        0x67 => i32u!(|a| a.leading_zeros()), 0x68 => i32u!(|a| a.trailing_zeros()), 0x69 => i32u!(|a| a.count_ones()),
        0x6a => i32b!(|a, b| a.wrapping_add(b)), 0x6b => i32b!(|a, b| a.wrapping_sub(b)), 0x6c => i32b!(|a, b| a.wrapping_mul(b)),
        0x6d => { let b = p!() as u32 as i32; let a = p!() as u32 as i32; if b == 0 { return Err("integer divide by zero"); } if a == i32::MIN && b == -1 { return Err("integer overflow"); } st.push((a / b) as u32 as u64); }
        0x6e => { let b = p!() as u32; let a = p!() as u32; if b == 0 { return Err("integer divide by zero"); } st.push((a / b) as u64); }
        0x6f => { let b = p!() as u32 as i32; let a = p!() as u32 as i32; if b == 0 { return Err("integer divide by zero"); } st.push(a.wrapping_rem(b) as u32 as u64); }
        0x70 => { let b = p!() as u32; let a = p!() as u32; if b == 0 { return Err("integer divide by zero"); } st.push((a % b) as u64); }
        0x71 => i32b!(|a, b| a & b), 0x72 => i32b!(|a, b| a | b), 0x73 => i32b!(|a, b| a ^ b),
        0x74 => i32b!(|a, b| a.wrapping_shl(b)), 0x75 => i32b!(|a, b| (a as i32).wrapping_shr(b) as u32), 0x76 => i32b!(|a, b| a.wrapping_shr(b)),
        0x77 => i32b!(|a, b| a.rotate_left(b % 32)), 0x78 => i32b!(|a, b| a.rotate_right(b % 32)),
        0x79 => i64u!(|a| a.leading_zeros() as u64), 0x7a => i64u!(|a| a.trailing_zeros() as u64), 0x7b => i64u!(|a| a.count_ones() as u64),
        0x7c => i64b!(|a, b| a.wrapping_add(b)), 0x7d => i64b!(|a, b| a.wrapping_sub(b)), 0x7e => i64b!(|a, b| a.wrapping_mul(b)),
        0x7f => { let b = p!() as i64; let a = p!() as i64; if b == 0 { return Err("integer divide by zero"); } if a == i64::MIN && b == -1 { return Err("integer overflow"); } st.push((a / b) as u64); }
        0x80 => { let b = p!(); let a = p!(); if b == 0 { return Err("integer divide by zero"); } st.push(a / b); }
        0x81 => { let b = p!() as i64; let a = p!() as i64; if b == 0 { return Err("integer divide by zero"); } st.push(a.wrapping_rem(b) as u64); }
        0x82 => { let b = p!(); let a = p!(); if b == 0 { return Err("integer divide by zero"); } st.push(a % b); }
        0x83 => i64b!(|a, b| a & b), 0x84 => i64b!(|a, b| a | b), 0x85 => i64b!(|a, b| a ^ b),
        0x86 => i64b!(|a, b| a.wrapping_shl(b as u32)), 0x87 => i64b!(|a, b| (a as i64).wrapping_shr(b as u32) as u64), 0x88 => i64b!(|a, b| a.wrapping_shr(b as u32)),
        0x89 => i64b!(|a, b| a.rotate_left((b % 64) as u32)), 0x8a => i64b!(|a, b| a.rotate_right((b % 64) as u32)),
        0x8b => f32u!(|a| a.abs()), 0x8c => f32u!(|a| -a), 0x8d => f32u!(|a| a.ceil()), 0x8e => f32u!(|a| a.floor()), 0x8f => f32u!(|a| a.trunc()), 0x90 => f32u!(|a| a.round_ties_even()), 0x91 => f32u!(|a| a.sqrt()),
        0x92 => f32b!(|a, b| a + b), 0x93 => f32b!(|a, b| a - b), 0x94 => f32b!(|a, b| a * b), 0x95 => f32b!(|a, b| a / b), 0x96 => f32b!(|a, b| if a.is_nan() || b.is_nan() { f32::NAN } else { a.min(b) }), 0x97 => f32b!(|a, b| if a.is_nan() || b.is_nan() { f32::NAN } else { a.max(b) }), 0x98 => f32b!(|a, b| a.copysign(b)),
        0x99 => f64u!(|a| a.abs()), 0x9a => f64u!(|a| -a), 0x9b => f64u!(|a| a.ceil()), 0x9c => f64u!(|a| a.floor()), 0x9d => f64u!(|a| a.trunc()), 0x9e => f64u!(|a| a.round_ties_even()), 0x9f => f64u!(|a| a.sqrt()),
        0xa0 => f64b!(|a, b| a + b), 0xa1 => f64b!(|a, b| a - b), 0xa2 => f64b!(|a, b| a * b), 0xa3 => f64b!(|a, b| a / b), 0xa4 => f64b!(|a, b| if a.is_nan() || b.is_nan() { f64::NAN } else { a.min(b) }), 0xa5 => f64b!(|a, b| if a.is_nan() || b.is_nan() { f64::NAN } else { a.max(b) }), 0xa6 => f64b!(|a, b| a.copysign(b)),
        0xa7 => { let a = p!(); st.push(a as u32 as u64); }
        0xa8 => { let a = f32::from_bits(p!() as u32) as f64; st.push(trunc(a, -2147483649.0, 2147483648.0)? as i32 as u32 as u64); }
        0xa9 => { let a = f32::from_bits(p!() as u32) as f64; st.push(trunc(a, -1.0, 4294967296.0)? as u32 as u64); }
        0xaa => { let a = f64::from_bits(p!()); st.push(trunc(a, -2147483649.0, 2147483648.0)? as i32 as u32 as u64); }
        0xab => { let a = f64::from_bits(p!()); st.push(trunc(a, -1.0, 4294967296.0)? as u32 as u64); }
        0xac => { let a = p!() as u32 as i32; st.push(a as i64 as u64); }
        0xad => { let a = p!() as u32; st.push(a as u64); }
        0xae | 0xb0 => { let a = if o == 0xae { f32::from_bits(p!() as u32) as f64 } else { f64::from_bits(p!()) }; st.push(trunc(a, -9223372036854777856.0, 9223372036854775808.0)? as i64 as u64); }
        0xaf | 0xb1 => { let a = if o == 0xaf { f32::from_bits(p!() as u32) as f64 } else { f64::from_bits(p!()) }; st.push(trunc(a, -1.0, 18446744073709551616.0)? as u64); }
        0xb2 => { let a = p!() as u32 as i32; st.push((a as f32).to_bits() as u64); }
        0xb3 => { let a = p!() as u32; st.push((a as f32).to_bits() as u64); }
        0xb4 => { let a = p!() as i64; st.push((a as f32).to_bits() as u64); }
        0xb5 => { let a = p!(); st.push((a as f32).to_bits() as u64); }
        0xb6 => { let a = f64::from_bits(p!()); st.push((a as f32).to_bits() as u64); }
        0xb7 => { let a = p!() as u32 as i32; st.push((a as f64).to_bits()); }
        0xb8 => { let a = p!() as u32; st.push((a as f64).to_bits()); }
        0xb9 => { let a = p!() as i64; st.push((a as f64).to_bits()); }
        0xba => { let a = p!(); st.push((a as f64).to_bits()); }
        0xbb => { let a = f32::from_bits(p!() as u32); st.push((a as f64).to_bits()); }
        0xbc..=0xbf => {}
        0xc0 => { let a = p!() as u8 as i8; st.push(a as i32 as u32 as u64); }
        0xc1 => { let a = p!() as u16 as i16; st.push(a as i32 as u32 as u64); }
        0xc2 => { let a = p!() as u8 as i8; st.push(a as i64 as u64); }
        0xc3 => { let a = p!() as u16 as i16; st.push(a as i64 as u64); }
        0xc4 => { let a = p!() as u32 as i32; st.push(a as i64 as u64); }
        _ => unreachable!(),
    }
    Ok(())
}

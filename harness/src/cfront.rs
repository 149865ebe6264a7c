//! Reference model, part 1: an independent front end for the C subset the compiler accepts.
//! (lexer, recursive-descent parser, C typing rules) producing typed trees.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum T { Void, I { sz: u8, sg: bool }, F32, F64, P(Rc<T>), A(Rc<T>, u32), Vla(Rc<T>, usize), S(usize), Fn(Rc<FnT>) }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct FnT { pub ret: T, pub params: Vec<T>, pub variadic: bool, pub unspec: bool }
pub const I8: T = T::I { sz: 1, sg: true };
pub const U8: T = T::I { sz: 1, sg: false };
pub const I16: T = T::I { sz: 2, sg: true };
pub const U16: T = T::I { sz: 2, sg: false };
pub const I32: T = T::I { sz: 4, sg: true };
pub const U32: T = T::I { sz: 4, sg: false };
pub const I64: T = T::I { sz: 8, sg: true };
pub const U64: T = T::I { sz: 8, sg: false };

impl T {
    pub fn is_int(&self) -> bool { matches!(self, T::I { .. }) }
    pub fn is_fp(&self) -> bool { matches!(self, T::F32 | T::F64) }
    pub fn is_arith(&self) -> bool { self.is_int() || self.is_fp() }
    pub fn is_ptr(&self) -> bool { matches!(self, T::P(_)) }
    pub fn is_scalar(&self) -> bool { self.is_arith() || self.is_ptr() }
    pub fn ptr(self) -> T { T::P(Rc::new(self)) }
}

#[derive(Clone, Debug)]
pub struct Agg { pub tag: String, pub union_: bool, pub fields: Vec<(String, T, u32)>, pub size: u32, pub complete: bool }

#[derive(Clone, Debug)]
pub struct Ex { pub k: K, pub t: T }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum B { Add, Sub, Mul, Div, Rem, Shl, Shr, And, Or, Xor, Lt, Gt, Le, Ge, Eq, Ne }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum U { Neg, Not, LNot }

#[derive(Clone, Debug)]
pub enum K {
    Int(u64),
    Fp(f64),
    Str(usize),
    Local(usize),  // index into function's locals (lvalue)
    Global(usize), // lvalue
    Fun(usize),
    Deref(Box<Ex>), // lvalue
    Field(Box<Ex>, u32), // lvalue: base lvalue + offset
    RField(Box<Ex>, u32), // member of a struct rvalue
    Addr(Box<Ex>),
    Decay(Box<Ex>), // array lvalue to pointer
    Load(Box<Ex>),
    Conv(Box<Ex>),
    Un(U, Box<Ex>),
    Bin(B, Box<Ex>, Box<Ex>), // both operands already converted to the same type (or shift-promoted)
    PAdd(Box<Ex>, Box<Ex>, i64), // ptr + idx*scale (idx converted to I64)
    PSub(Box<Ex>, Box<Ex>, i64), // ptr difference / scale
    LAnd(Box<Ex>, Box<Ex>),
    LOr(Box<Ex>, Box<Ex>),
    Cond(Box<Ex>, Box<Ex>, Box<Ex>),
    Assign(Box<Ex>, Box<Ex>),
    /// lvalue op= rhs : (lhs, rhs, op, common type) with pointer scale if non-zero
    OpAssign(Box<Ex>, Box<Ex>, B, T, i64),
    IncDec { lv: Box<Ex>, inc: bool, post: bool, scale: i64 },
    Call(usize, Vec<Ex>),
    Comma(Box<Ex>, Box<Ex>),
}

#[derive(Clone, Debug)]
pub enum Init { E(Ex), List(Vec<Init>), Str(Vec<u8>) }

#[derive(Clone, Debug)]
pub enum S {
    Expr(Ex),
    Decl(usize, Option<Init>, Option<Ex>),
    If(Ex, Box<S>, Option<Box<S>>),
    While(Ex, Box<S>),
    Do(Box<S>, Ex),
    For(Option<Box<S>>, Option<Ex>, Option<Ex>, Box<S>),
    Switch(Ex, Box<S>),
    Case(i64, Box<S>),
    Default(Box<S>),
    Break, Continue,
    Return(Option<Ex>),
    Goto(String),
    Label(String, Box<S>),
    Block(Vec<S>),
    Empty,
}

#[derive(Clone, Debug)]
pub struct Fun { pub name: String, pub ty: FnT, pub params: Vec<usize>, pub locals: Vec<(String, T)>, pub body: Option<S> }

#[derive(Clone, Debug)]
pub struct Prog { pub funs: Vec<Fun>, pub globals: Vec<(String, T, Option<Init>, Option<Ex>)>, pub strs: Vec<Vec<u8>>, pub aggs: Vec<Agg> }

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Id(String), Int(u64, bool), Fp(f64), Chr(i64), Str(Vec<u8>), P(&'static str), Eof }

pub type R<X> = Result<X, String>;

const PUNCT: &[&str] = &["...", "<<=", ">>=", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=",
    "(", ")", "[", "]", "{", "}", ",", ";", ":", "?", "=", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "<", ">", "."];
const KEYWORDS: &[&str] = &["break", "case", "char", "const", "continue", "default", "do", "double", "else", "enum", "float", "for", "goto", "if", "int", "long", "return", "short", "signed", "sizeof", "static", "struct", "switch", "typedef", "union", "unsigned", "void", "while", "extern", "register", "auto", "inline", "volatile", "restrict"];

fn esc(b: &[u8], i: &mut usize) -> R<u8> {
    let c = *b.get(*i).ok_or("bad escape")?;
    *i += 1;
    Ok(match c {
        b'n' => 10, b't' => 9, b'r' => 13, b'a' => 7, b'b' => 8, b'f' => 12, b'v' => 11, b'\\' => b'\\', b'\'' => b'\'', b'"' => b'"', b'?' => b'?',
        b'0'..=b'7' => { let mut v = (c - b'0') as u32; let mut n = 1; while n < 3 { match b.get(*i) { Some(d @ b'0'..=b'7') => { v = v * 8 + (d - b'0') as u32; *i += 1; n += 1; } _ => break } } if v > 255 { return Err("octal escape out of range".into()); } v as u8 }
        b'x' => { let mut v: u32 = 0; let mut n = 0; while let Some(d) = b.get(*i).and_then(|d| (*d as char).to_digit(16)) { v = v * 16 + d; *i += 1; n += 1; if v > 255 { return Err("hex escape out of range".into()); } } if n == 0 { return Err("empty hex escape".into()); } v as u8 }
        _ => return Err("unknown escape".into()),
    })
}

pub fn lex(src: &str) -> R<Vec<Tok>> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    'o: while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() { i += 1; continue; }
        if c == b'#' { while i < b.len() && b[i] != b'\n' { i += 1; } continue; }
        if c == b'/' && b.get(i + 1) == Some(&b'/') { while i < b.len() && b[i] != b'\n' { i += 1; } continue; }
        if c == b'/' && b.get(i + 1) == Some(&b'*') { i += 2; while !(b.get(i) == Some(&b'*') && b.get(i + 1) == Some(&b'/')) { i += 1; if i >= b.len() { return Err("comment".into()); } } i += 2; continue; }
        if c.is_ascii_alphabetic() || c == b'_' { let s = i; while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1; } out.push(Tok::Id(src[s..i].to_string())); continue; }
        if c.is_ascii_digit() || (c == b'.' && b.get(i + 1).is_some_and(|d| d.is_ascii_digit())) {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && matches!(b[i - 1], b'e' | b'E') && !src[s..i].starts_with("0x"))) { i += 1; }
            let t = &src[s..i];
            let lo = t.to_ascii_lowercase();
            if let Some(h) = lo.strip_prefix("0x") { out.push(Tok::Int(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?, false)); }
            else if let Some(h) = lo.strip_prefix("0b") { out.push(Tok::Int(u64::from_str_radix(h, 2).map_err(|e| e.to_string())?, false)); }
            else if lo.contains(['.', 'e']) { out.push(Tok::Fp(lo.parse().map_err(|_| format!("bad float {t}"))?)); }
            else if lo.len() > 1 && lo.starts_with('0') { out.push(Tok::Int(u64::from_str_radix(&lo, 8).map_err(|e| e.to_string())?, false)); }
            else { out.push(Tok::Int(lo.parse().map_err(|_| format!("bad int {t}"))?, true)); }
            continue;
        }
        if c == b'"' {
            i += 1; let mut v = vec![];
            loop { match b.get(i) { None | Some(b'\n') => return Err("unterminated string".into()), Some(b'"') => { i += 1; break; } Some(b'\\') => { i += 1; v.push(esc(b, &mut i)?); } Some(c) => { v.push(*c); i += 1; } } }
            if let Some(Tok::Str(_)) = out.last_mut() { return Err("outside: adjacent strings".into()); } out.push(Tok::Str(v));
            continue;
        }
        if c == b'\'' {
            i += 1;
            let v = match b.get(i) { None | Some(b'\n') | Some(b'\'') => return Err("bad char constant".into()), Some(b'\\') => { i += 1; esc(b, &mut i)? } Some(c) => { i += 1; *c } };
            if b.get(i) != Some(&b'\'') { return Err("multi-character constant".into()); }
            i += 1;
            out.push(Tok::Chr(v as i8 as i64));
            continue;
        }
        for p in PUNCT { if src[i..].starts_with(p) { out.push(Tok::P(p)); i += p.len(); continue 'o; } }
        return Err(format!("bad character {:?}", c as char));
    }
    Ok(out)
}

#[derive(Clone, Debug)]
enum Sym { Local(usize), Global(usize), Fun(usize), Enum(i64), Typedef(T) }

pub struct P { t: Vec<Tok>, p: usize, pub prog: Prog, scopes: Vec<HashMap<String, Sym>>, tags: Vec<HashMap<String, TagD>>, cur: Option<Fun>, loops: u32, switches: Vec<(T, std::collections::HashSet<Option<i64>>)>, labels: Vec<String>, gotos: Vec<String>, depth: u32, pending_vla: Vec<S>, in_params: u32, storage: Option<String>, block_extern: std::collections::HashSet<String> }
#[derive(Clone, Debug)]
enum TagD { Agg(usize), Enum }

fn mk(k: K, t: T) -> Ex { Ex { k, t } }

pub fn parse(src: &str) -> R<Prog> {
    let t = lex(src)?;
    let mut p = P { t, p: 0, prog: Prog { funs: vec![], globals: vec![], strs: vec![], aggs: vec![] }, scopes: vec![HashMap::new()], tags: vec![HashMap::new()], cur: None, loops: 0, switches: vec![], labels: vec![], gotos: vec![], depth: 0, pending_vla: vec![], in_params: 0, storage: None, block_extern: Default::default() };
    while p.peek() != &Tok::Eof { p.external()?; }
    Ok(p.prog)
}

impl P {
    fn peek(&self) -> &Tok { self.t.get(self.p).unwrap_or(&Tok::Eof) }
    fn peek2(&self) -> &Tok { self.t.get(self.p + 1).unwrap_or(&Tok::Eof) }
    fn next(&mut self) -> Tok { let t = self.peek().clone(); self.p += 1; t }
    fn is(&self, s: &str) -> bool { match self.peek() { Tok::P(p) => *p == s, Tok::Id(i) => i == s && KEYWORDS.contains(&s), _ => false } }
    fn eat(&mut self, s: &str) -> bool { if self.is(s) { self.p += 1; true } else { false } }
    fn expect(&mut self, s: &str) -> R<()> { if self.eat(s) { Ok(()) } else { Err(format!("expected {s} at token {} ({:?})", self.p, self.peek())) } }
    fn ident(&mut self) -> R<String> { match self.next() { Tok::Id(s) if !KEYWORDS.contains(&s.as_str()) => Ok(s), t => Err(format!("expected identifier, got {t:?}")) } }
    fn lookup(&self, n: &str) -> Option<&Sym> { self.scopes.iter().rev().find_map(|s| s.get(n)) }
    fn is_type_start(&self) -> bool {
        match self.peek() { Tok::Id(s) => match s.as_str() { "char" | "const" | "double" | "enum" | "float" | "int" | "long" | "short" | "signed" | "struct" | "union" | "unsigned" | "void" | "typedef" | "static" | "extern" | "auto" | "register" => true, _ => matches!(self.lookup(s), Some(Sym::Typedef(_))) }, _ => false }
    }
    pub fn size(&self, t: &T) -> R<u32> { size_of(t, &self.prog.aggs) }

    // ---- declarations
    fn specs(&mut self) -> R<(T, bool)> {
        self.storage = None;
        let mut storage = None;
        let r = self.specs_(&mut storage);
        self.storage = storage;
        r
    }
    fn specs_(&mut self, storage: &mut Option<String>) -> R<(T, bool)> {
        let (mut base, mut td): (Option<T>, bool) = (None, false); let (mut sc, mut late, mut tagged) = (false, false, false);
        let mut w: Vec<String> = vec![];
        loop {
            let s = match self.peek() { Tok::Id(s) => s.clone(), _ => break };
            match s.as_str() {
                "const" => { self.p += 1; }
                "static" | "extern" | "auto" | "register" => { if sc { return Err("several storage classes".into()); } sc = true; *storage = Some(s); self.p += 1; }
                "typedef" => { if sc { return Err("several storage classes".into()); } if base.is_some() || !w.is_empty() { late = true; } sc = true; td = true; self.p += 1; }
                "signed" | "unsigned" | "short" | "long" | "int" | "char" | "float" | "double" | "void" => { w.push(s); self.p += 1; }
                "struct" | "union" => { if base.is_some() { return Err("two types".into()); } base = Some(self.agg()?); tagged = true; }
                "enum" => { if base.is_some() { return Err("two types".into()); } base = Some(self.enum_()?); tagged = true; }
                _ => { if base.is_some() || !w.is_empty() || KEYWORDS.contains(&s.as_str()) { break; } if let Some(Sym::Typedef(t)) = self.lookup(&s) { base = Some(t.clone()); self.p += 1; } else { break; } }
            }
        }
        if late { return Err("outside: typedef is not the first word".into()); }
        if self.is(";") && (td || !tagged) { return Err("outside: empty declaration".into()); }
        if let Some(t) = base { return if w.is_empty() { Ok((t, td)) } else { Err("two types".into()) }; }
        if w.is_empty() { return Err(format!("expected type at {:?}", self.peek())); }
        w.sort();
        let sg = match (w.iter().filter(|x| *x == "signed").count(), w.iter().filter(|x| *x == "unsigned").count()) { (0, 0) => None, (1, 0) => Some(true), (0, 1) => Some(false), _ => return Err("sign given twice".into()) };
        let r: Vec<&str> = w.iter().map(|x| x.as_str()).filter(|x| !x.ends_with("signed")).collect();
        let t = match (r.join(" ").as_str(), sg) {
            ("", Some(_)) | ("int", _) => T::I { sz: 4, sg: sg != Some(false) }, ("char", _) => T::I { sz: 1, sg: sg != Some(false) }, ("short" | "int short", _) => T::I { sz: 2, sg: sg != Some(false) }, ("long" | "int long", _) => T::I { sz: 8, sg: sg != Some(false) },
            ("long long" | "int long long", _) | ("double long", None) => return Err("outside: long long and long double".into()),
            ("float", None) => T::F32, ("double", None) => T::F64, ("void", None) => T::Void,
            (x, _) => return Err(format!("no such type: {x}")),
        };
        Ok((t, td))
    }
    fn agg(&mut self) -> R<T> {
        let un = self.is("union"); self.p += 1;
        let tag = if let Tok::Id(s) = self.peek() { if KEYWORDS.contains(&s.as_str()) { return Err("tag".into()); } let s = s.clone(); self.p += 1; Some(s) } else { None };
        if self.is("{") {
            self.p += 1;
            let idx = match tag.as_ref().and_then(|t| self.tags.last().unwrap().get(t)) { Some(TagD::Agg(i)) if !self.prog.aggs[*i].complete && self.prog.aggs[*i].union_ == un => *i, Some(_) => return Err("redefinition of tag".into()), None => { self.prog.aggs.push(Agg { tag: tag.clone().unwrap_or_default(), union_: un, fields: vec![], size: 0, complete: false }); let i = self.prog.aggs.len() - 1; if let Some(t) = &tag { self.tags.last_mut().unwrap().insert(t.clone(), TagD::Agg(i)); } i } };
            let mut off = 0; let mut size = 0; let mut fields: Vec<(String, T, u32)> = vec![];
            if self.is("}") { return Err("outside: a type without members".into()); }
            while !self.eat("}") {
                let (bt, td) = self.specs()?; if td { return Err("typedef in struct".into()); }
                loop {
                    let (n, t, _) = self.declarator(bt.clone())?;
                    let n = n.ok_or("field name")?; if !self.pending_vla.is_empty() { return Err("outside: VLA member".into()); }
                    if fields.iter().any(|f| f.0 == n) { return Err("duplicate member".into()); }
                    let s = self.size(&t)?;
                    fields.push((n, t, if un { 0 } else { off }));
                    off += s; size = if un { size.max(s) } else { off };
                    if !self.eat(",") { break; }
                }
                self.expect(";")?;
            }
            let a = &mut self.prog.aggs[idx]; a.fields = fields; a.size = size; a.complete = true;
            return Ok(T::S(idx));
        }
        let tag = tag.ok_or("anonymous tag")?;
        for s in self.tags.iter().rev() { match s.get(&tag) { Some(TagD::Agg(i)) if self.prog.aggs[*i].union_ == un => return Ok(T::S(*i)), Some(_) => return Err("outside: tag of another kind".into()), None => {} } }
        self.prog.aggs.push(Agg { tag: tag.clone(), union_: un, fields: vec![], size: 0, complete: false });
        let i = self.prog.aggs.len() - 1;
        self.tags.last_mut().unwrap().insert(tag, TagD::Agg(i));
        Ok(T::S(i))
    }
    fn enum_(&mut self) -> R<T> {
        self.p += 1;
        let tag = if let Tok::Id(s) = self.peek() { if KEYWORDS.contains(&s.as_str()) { return Err("tag".into()); } let s = s.clone(); self.p += 1; Some(s) } else { None };
        if tag.is_none() && !self.is("{") { return Err("enum without a tag".into()); }
        if self.eat("{") {
            if let Some(t) = &tag { if self.tags.last().unwrap().contains_key(t) { return Err("redefinition of enum".into()); } self.tags.last_mut().unwrap().insert(t.clone(), TagD::Enum); }
            let mut v: i64 = 0;
            loop {
                if self.eat("}") { break; }
                let n = self.ident()?;
                if self.eat("=") { let e = self.cond()?; v = self.const_int(&e)?; if v < 0 && matches!(e.t, T::I { sz: 8, sg: false }) { return Err("enumerator range".into()); } }
                if self.scopes.last().unwrap().contains_key(&n) { return Err("redeclared enumerator".into()); }
                if v > i32::MAX as i64 || v < i32::MIN as i64 { return Err("enumerator range".into()); }
                self.scopes.last_mut().unwrap().insert(n, Sym::Enum(v));
                v += 1;
                if !self.eat(",") { self.expect("}")?; break; }
            }
        } else if let Some(t) = &tag { if !matches!(self.tags.iter().rev().find_map(|s| s.get(t)), Some(TagD::Enum)) { return Err("outside: unknown enum".into()); } }
        Ok(I32)
    }
    /// returns (name, type, parameter names)
    #[allow(clippy::type_complexity)]
    fn declarator(&mut self, base: T) -> R<(Option<String>, T, Option<Vec<(Option<String>, T)>>)> {
        if self.eat("*") { while self.eat("const") {} return self.declarator(base.ptr()); }
        // direct declarator
        enum Sfx { Arr(Option<u32>), Vla(usize), Fn(FnT, Vec<(Option<String>, T)>) }
        let mut name = None;
        let mut inner: Option<usize> = None;
        if self.is("(") && (matches!(self.peek2(), Tok::P("*")) || matches!(self.peek2(), Tok::P("("))  || matches!(self.peek2(), Tok::P("["))|| matches!(self.peek2(), Tok::Id(s) if !KEYWORDS.contains(&s.as_str()) && !matches!(self.lookup(s), Some(Sym::Typedef(_))))) {
            // parenthesised declarator: remember position, skip, parse suffixes, then re-parse
            inner = Some(self.p + 1);
            let mut d = 0; loop { match self.next() { Tok::P("(") => d += 1, Tok::P(")") => { d -= 1; if d == 0 { break; } } Tok::Eof => return Err("eof in declarator".into()), _ => {} } }
        } else if let Tok::Id(s) = self.peek() { if !KEYWORDS.contains(&s.as_str()) { if matches!(self.lookup(s), Some(Sym::Typedef(_))) { return Err("outside: typedef name redeclared".into()); } name = Some(s.clone()); self.p += 1; } }
        let mut sfx = vec![];
        loop {
            if self.eat("[") {
                if self.eat("]") { sfx.push(Sfx::Arr(None)); }
                else { let e = self.assign()?; self.expect("]")?; match self.const_int(&e) { Ok(n) => { if n < 0 { return Err("negative array size".into()); } if n == 0 || n > 1 << 30 { return Err("outside: array size".into()); } sfx.push(Sfx::Arr(Some(n as u32))) } Err(e) if e != "not constant" => return Err(if e.starts_with("outside") { e } else { format!("outside: {e}") }), Err(_) => { if self.in_params > 0 { return Err("outside: VLA parameter".into()); } if self.cur.is_none() { return Err("VLA at file scope".into()); } if !e.t.is_int() { return Err("outside: array size".into()); } 
                    let e = self.conv_to(e, &I64)?; let f = self.cur.as_mut().unwrap(); f.locals.push(("#size".into(), I64)); let l = f.locals.len() - 1; self.pending_vla.push(S::Decl(l, Some(Init::E(e)), None)); sfx.push(Sfx::Vla(l)) } } }
            } else if self.eat("(") {
                let mut ps = vec![]; let mut variadic = false; self.in_params += 1;
                let mut unspec = false;
                if self.eat(")") { unspec = true; } else if self.is("void") && matches!(self.peek2(), Tok::P(")")) { self.p += 2; } else {
                    loop {
                        if self.eat("...") { if ps.is_empty() { return Err("no parameter before the ellipsis".into()); } variadic = true; self.expect(")")?; break; }
                        let (bt, td) = self.specs()?; if td { return Err("outside: typedef parameter".into()); }
                        let (n, t, _) = self.declarator(bt)?; if t == T::Void { return Err("outside: void parameter".into()); }
                        let t = match t { T::A(e, _) => T::P(e), T::Fn(_) => t.ptr(), t => t };
                        ps.push((n, t));
                        if self.eat(",") { continue; }
                        self.expect(")")?; break;
                    }
                }
                self.in_params -= 1; sfx.push(Sfx::Fn(FnT { ret: T::Void, params: ps.iter().map(|p| p.1.clone()).collect(), variadic, unspec }, ps));
            } else { break; }
        }
        let mut t = base; let mut pn = None;
        for s in sfx.into_iter().rev() {
            match s {
                Sfx::Arr(n) => t = T::A(Rc::new(t), n.unwrap_or(u32::MAX)),
                Sfx::Vla(l) => t = T::Vla(Rc::new(t), l),
                Sfx::Fn(mut f, p) => { if matches!(t, T::A(..) | T::Vla(..) | T::Fn(_)) { return Err("bad function return type".into()); } f.ret = t; t = T::Fn(Rc::new(f)); pn = Some(p); }
            }
        }
        if let Some(ip) = inner {
            let save = self.p; self.p = ip;
            let (n, t2, pn2) = self.declarator(t)?;
            self.expect(")")?;
            self.p = save;
            return Ok((n, t2, pn2.or(pn)));
        }
        Ok((name, t, pn))
    }
}

pub fn size_of(t: &T, aggs: &[Agg]) -> R<u32> {
    Ok(match t {
        T::Void | T::Fn(_) | T::Vla(..) => return Err("sizeof incomplete type".into()),
        T::I { sz, .. } => *sz as u32, T::F32 => 4, T::F64 => 8, T::P(_) => 4,
        T::A(e, n) => { if *n == u32::MAX { return Err("outside: incomplete array".into()); } size_of(e, aggs)?.checked_mul(*n).ok_or("outside: array too big")? }
        T::S(i) => { if !aggs[*i].complete { return Err("incomplete struct".into()); } aggs[*i].size }
    })
}

fn any_vm(t: &T) -> bool { match t { T::Vla(..) => true, T::A(e, _) | T::P(e) => any_vm(e), _ => false } }
pub fn vm(t: &T) -> bool { match t { T::Vla(..) => true, T::A(e, _) => vm(e), _ => false } }

pub fn promote(t: &T) -> T { match t { T::I { sz, .. } if *sz < 4 => I32, t => t.clone() } }
pub fn usual(a: &T, b: &T) -> T {
    if *a == T::F64 || *b == T::F64 { return T::F64; }
    if *a == T::F32 || *b == T::F32 { return T::F32; }
    let (a, b) = (promote(a), promote(b));
    match (&a, &b) { (T::I { sz: s1, sg: g1 }, T::I { sz: s2, sg: g2 }) => { if s1 == s2 { T::I { sz: *s1, sg: *g1 && *g2 } } else if s1 > s2 { a.clone() } else { b.clone() } } _ => a.clone() }
}

pub fn norm(v: u64, t: &T) -> u64 {
    match t { T::I { sz: 1, sg: true } => v as i8 as i64 as u64, T::I { sz: 1, sg: false } => v as u8 as u64, T::I { sz: 2, sg: true } => v as i16 as i64 as u64, T::I { sz: 2, sg: false } => v as u16 as u64, T::I { sz: 4, sg: true } => v as i32 as i64 as u64, T::I { sz: 4, sg: false } => v as u32 as u64, T::P(_) => v as u32 as u64, _ => v }
}
fn as_i128(v: u64, t: &T) -> i128 { match t { T::I { sg: false, .. } | T::P(_) => v as i128, _ => v as i64 as i128 } }

/// conversion of a value of type `f` to type `t`; floats are carried as f64 bits (F32 values rounded)
pub fn conv(v: u64, f: &T, t: &T) -> Result<u64, &'static str> {
    if f.is_fp() {
        let x = f64::from_bits(v);
        return Ok(match t { T::F64 => v, T::F32 => (x as f32 as f64).to_bits(), T::Void => v,
            T::I { sz, sg } => { let tr = x.trunc(); let (lo, hi) = if *sg { (-(2f64.powi(*sz as i32 * 8 - 1)), 2f64.powi(*sz as i32 * 8 - 1)) } else { (0.0, 2f64.powi(*sz as i32 * 8)) }; if tr.is_nan() || tr < lo || tr >= hi { return Err("float to int out of range"); } norm(tr as i128 as u64, t) }
            _ => return Err("bad conversion") });
    }
    Ok(match t { T::F64 => { if matches!(f, T::I { sg: false, .. }) { v as f64 } else { v as i64 as f64 } }.to_bits(), T::F32 => ({ if matches!(f, T::I { sg: false, .. }) { v as f32 } else { v as i64 as f32 } } as f64).to_bits(), T::Void => v, t => norm(v, t) })
}

pub fn binop(op: B, a: u64, b: u64, t: &T) -> Result<u64, &'static str> {
    if t.is_fp() {
        let (x, y) = (f64::from_bits(a), f64::from_bits(b));
        let r = |f: f64| if *t == T::F32 { (f as f32 as f64).to_bits() } else { f.to_bits() };
        return Ok(match op {
            B::Add => r(x + y), B::Sub => r(x - y), B::Mul => r(x * y), B::Div => r(x / y),
            B::Lt => (x < y) as u64, B::Gt => (x > y) as u64, B::Le => (x <= y) as u64, B::Ge => (x >= y) as u64, B::Eq => (x == y) as u64, B::Ne => (x != y) as u64,
            _ => return Err("bad float op"),
        });
    }
    let (sz, sg) = match t { T::I { sz, sg } => (*sz, *sg), _ => (4, false) };
    let (x, y) = (as_i128(a, t), as_i128(b, t));
    let bits = sz as i128 * 8;
    let fit = |v: i128| -> Result<u64, &'static str> { if sg && (v < -(1i128 << (bits - 1)) || v >= (1i128 << (bits - 1))) { return Err("signed overflow"); } Ok(norm(v as u64, t)) };
    Ok(match op {
        B::Add => fit(x + y)?, B::Sub => fit(x - y)?, B::Mul => { if sg { fit(x.checked_mul(y).ok_or("signed overflow")?)? } else { norm((a as u64).wrapping_mul(b), t) } }
        B::Div => { if y == 0 { return Err("division by zero"); } fit(x / y)? }
        B::Rem => { if y == 0 { return Err("division by zero"); } fit(x / y)?; fit(x % y)? }
        B::Shl => { if y < 0 || y >= bits { return Err("shift range"); } if sg { if x < 0 { return Err("outside: left shift of negative"); } fit(x << y)? } else { norm((x as u64) << y, t) } }
        B::Shr => { if y < 0 || y >= bits { return Err("shift range"); } norm((x >> y) as u64, t) }
        B::And => norm(a & b, t), B::Or => norm(a | b, t), B::Xor => norm(a ^ b, t),
        B::Lt => (x < y) as u64, B::Gt => (x > y) as u64, B::Le => (x <= y) as u64, B::Ge => (x >= y) as u64, B::Eq => (x == y) as u64, B::Ne => (x != y) as u64,
    })
}
pub fn unop(op: U, a: u64, t: &T) -> Result<u64, &'static str> {
    if t.is_fp() { let x = f64::from_bits(a); return Ok(match op { U::Neg => (-x).to_bits(), U::LNot => (x == 0.0) as u64, U::Not => return Err("bad float op") }); }
    Ok(match op { U::Neg => binop(B::Sub, 0, a, t)?, U::Not => norm(!a, t), U::LNot => (a == 0) as u64 })
}

impl P {
    pub fn const_val(&self, e: &Ex) -> R<u64> {
        let r = match &e.k {
            K::Int(v) => *v, K::Fp(f) => f.to_bits(),
            K::Conv(x) => { if !x.t.is_arith() || !e.t.is_arith() { return Err("not constant".into()); } conv(self.const_val(x)?, &x.t, &e.t)? }
            K::Un(o, x) => unop(*o, self.const_val(x)?, &x.t)?,
            K::Bin(o, a, b) => { let (x, y) = (self.const_val(a)?, self.const_val(b)?); if matches!(o, B::Shl | B::Shr) { let y = as_i128(y, &b.t); if !(0..64).contains(&y) { return Err("shift".into()); } binop(*o, x, y as u64, &a.t)? } else { binop(*o, x, y, &a.t)? } }
            K::LAnd(a, b) => (self.const_val(a)? != 0 && self.const_val(b)? != 0) as u64,
            K::LOr(a, b) => (self.const_val(a)? != 0 || self.const_val(b)? != 0) as u64,
            K::Cond(c, a, b) => if self.const_val(c)? != 0 { self.const_val(a)? } else { self.const_val(b)? },
            _ => return Err("not constant".into()),
        };
        Ok(r)
    }
    fn const_int(&self, e: &Ex) -> R<i64> { if !e.t.is_int() { return Err("not an integer constant".into()); } Ok(self.const_val(e)? as i64) }

    fn external(&mut self) -> R<()> {
        if self.eat(";") { return Ok(()); }
        let (bt, td) = self.specs()?;
        if self.eat(";") { return Ok(()); }
        let mut first = true;
        loop {
            let (n, t, pn) = self.declarator(bt.clone())?;
            if !self.pending_vla.is_empty() { return Err("VLA at file scope".into()); }
            let n = n.ok_or("declarator without a name")?;
            if td { if self.scopes[0].contains_key(&n) { return Err("redeclared".into()); } self.scopes[0].insert(n, Sym::Typedef(t)); }
            else if let T::Fn(f) = &t {
                let idx = match self.scopes[0].get(&n) { Some(Sym::Fun(i)) => { let i = *i; let o = &self.prog.funs[i].ty; if o.ret != f.ret || (!o.unspec && !f.unspec && (o.params != f.params || o.variadic != f.variadic)) { return Err(format!("conflicting types for {n}")); } if !f.unspec || o.unspec { self.prog.funs[i].ty = (**f).clone(); } i } Some(_) => return Err("outside: redeclared as function".into()), None => { self.prog.funs.push(Fun { name: n.clone(), ty: (**f).clone(), params: vec![], locals: vec![], body: None }); let i = self.prog.funs.len() - 1; self.scopes[0].insert(n.clone(), Sym::Fun(i)); i } };
                if first && self.is("{") {
                    if self.prog.funs[idx].body.is_some() { return Err(format!("redefinition of {n}")); }
                    let mut fun = Fun { name: n, ty: (**f).clone(), params: vec![], locals: vec![], body: None };
                    self.scopes.push(HashMap::new()); self.tags.push(HashMap::new());
                    for (pname, pt) in pn.unwrap_or_default() {
                        let pname = pname.ok_or("parameter name omitted")?;
                        if self.size(&pt).is_err() { return Err("parameter of incomplete type".into()); }
                        fun.locals.push((pname.clone(), pt)); fun.params.push(fun.locals.len() - 1);
                        if self.scopes.last_mut().unwrap().insert(pname, Sym::Local(fun.locals.len() - 1)).is_some() { return Err("duplicate parameter".into()); }
                    }
                    self.cur = Some(fun); self.labels.clear(); self.gotos.clear();
                    self.expect("{")?;
                    let b = self.block_items()?;
                    for g in &self.gotos { if !self.labels.contains(g) { return Err(format!("label {g} not defined")); } }
                    self.scopes.pop(); self.tags.pop();
                    let mut fun = self.cur.take().unwrap(); fun.body = Some(S::Block(b));
                    self.prog.funs[idx] = fun;
                    return Ok(());
                }
            } else {
                if t == T::Void { return Err("void variable".into()); }
                let (idx, old) = match self.scopes[0].get(&n) { Some(Sym::Global(i)) => (*i, true), Some(_) => return Err("redeclared".into()), None => { self.prog.globals.push((n.clone(), t.clone(), None, None)); (self.prog.globals.len() - 1, false) } };
                self.block_extern.remove(&n); self.scopes[0].insert(n, Sym::Global(idx));
                let (t, init) = if self.eat("=") { let i = self.init(&t)?; let t = complete_array(t, &i); (t, Some(i)) } else { (t, None) };
                self.size(&t)?;
                if !old { self.prog.globals[idx].1 = t; } else if self.prog.globals[idx].1 != t || (init.is_some() && self.prog.globals[idx].2.is_some()) { return Err("redefinition".into()); }
                if init.is_some() { self.prog.globals[idx].2 = init; }
            }
            first = false;
            if self.eat(",") { continue; }
            self.expect(";")?; return Ok(());
        }
    }

    fn init(&mut self, t: &T) -> R<Init> {
        match t {
            T::A(e, n) => {
                if let (T::I { sz: 1, .. }, Tok::Str(s)) = (&**e, self.peek().clone()) { self.p += 1; if *n != u32::MAX && s.len() > *n as usize { return Err("string too long".into()); } let mut s = s; s.push(0); if *n != u32::MAX { s.truncate(*n as usize); } return Ok(Init::Str(s)); }
                self.expect("{")?;
                let mut v = vec![];
                if self.eat("}") { return Ok(Init::List(v)); }
                loop { if v.len() as u32 >= *n { return Err("excess initialisers".into()); } v.push(self.init(e)?); if self.eat(",") { if self.eat("}") { break; } continue; } self.expect("}")?; break; }
                Ok(Init::List(v))
            }
            T::S(i) => {
                if !self.is("{") { let e = self.assign()?; if e.t == *t { return Ok(Init::E(e)); } return Err("bad struct initialiser".into()); }
                self.expect("{")?;
                let fs: Vec<T> = self.prog.aggs[*i].fields.iter().map(|f| f.1.clone()).collect();
                let max = if self.prog.aggs[*i].union_ { 1 } else { fs.len() };
                let mut v = vec![];
                loop { if self.is("}") { self.p += 1; break; } if v.len() >= max { return Err("excess initialisers".into()); } let ft = fs[v.len()].clone(); v.push(self.init(&ft)?); if self.eat(",") { continue; } self.expect("}")?; break; }
                Ok(Init::List(v))
            }
            T::Vla(..) => Err("VLA initialiser".into()),
            _ => {
                let br = self.eat("{");
                let e = self.assign()?; let e = self.convert_assign(e, t)?;
                if br { self.eat(","); self.expect("}")?; }
                Ok(Init::E(e))
            }
        }
    }

    fn block_items(&mut self) -> R<Vec<S>> {
        let mut v = vec![];
        while !self.eat("}") { if self.peek() == &Tok::Eof { return Err("eof in block".into()); } if self.is_type_start() { self.local_decl(&mut v)?; } else { v.push(self.stmt()?); } }
        Ok(v)
    }
    fn local_decl(&mut self, out: &mut Vec<S>) -> R<()> {
        let (bt, td) = self.specs()?;
        let storage = self.storage.take();
        if self.eat(";") { return Ok(()); }
        loop {
            let (n, t, _) = self.declarator(bt.clone())?;
            let n = n.ok_or("declarator without a name")?;
            let vla = std::mem::take(&mut self.pending_vla);
            if td { out.extend(vla.iter().cloned()); }
            if !td && !matches!(t, T::Fn(_) | T::Void) && matches!(storage.as_deref(), Some("static" | "extern")) {
                if !vla.is_empty() || any_vm(&t) { return Err("outside: static or extern VLA".into()); }
                match (self.scopes.last().unwrap().get(&n), self.scopes[0].get(&n)) { (None, _) => {} (Some(Sym::Global(i)), Some(Sym::Global(j))) if i == j && storage.as_deref() == Some("extern") => {} _ => return Err(format!("redeclaration of {n}")) }
                if storage.as_deref() == Some("extern") {
                    if self.is("=") { return Err("initialiser of a block-scope extern declaration".into()); }
                    let i = match self.scopes[0].get(&n) { Some(Sym::Global(i)) => *i, Some(_) => return Err("redeclared".into()), None => {
                        self.size(&t)?; self.prog.globals.push((n.clone(), t.clone(), None, None)); let i = self.prog.globals.len() - 1; self.scopes[0].insert(n.clone(), Sym::Global(i)); self.block_extern.insert(n.clone()); i } };
                    if self.prog.globals[i].1 != t { return Err("outside: extern declaration of another type".into()); }
                    self.scopes.last_mut().unwrap().insert(n, Sym::Global(i));
                } else {
                    self.prog.globals.push((n.clone(), t.clone(), None, None)); let i = self.prog.globals.len() - 1;
                    self.scopes.last_mut().unwrap().insert(n, Sym::Global(i));
                    if self.eat("=") { let init = self.init(&t)?; let t = complete_array(t, &init); self.prog.globals[i].1 = t; self.prog.globals[i].2 = Some(init); }
                    let t = self.prog.globals[i].1.clone(); self.size(&t)?;
                }
                if self.eat(",") { continue; }
                self.expect(";")?; return Ok(());
            }
            if td { if self.scopes.last().unwrap().contains_key(&n) { return Err("redeclared".into()); } self.scopes.last_mut().unwrap().insert(n, Sym::Typedef(t)); }
            else {
                if let T::Fn(_) = t { return Err("outside: local function declaration".into()); }
                if t == T::Void { return Err("void variable".into()); }
                if self.scopes.last().unwrap().contains_key(&n) { return Err(format!("redeclaration of {n}")); }
                let f = self.cur.as_mut().unwrap();
                f.locals.push((n.clone(), t.clone())); let li = f.locals.len() - 1;
                self.scopes.last_mut().unwrap().insert(n, Sym::Local(li));
                let init = if self.eat("=") { Some(self.init(&t)?) } else { None };
                if let Some(i) = &init { let t2 = complete_array(t.clone(), i); self.cur.as_mut().unwrap().locals[li].1 = t2; }
                let ft = self.cur.as_ref().unwrap().locals[li].1.clone();
                out.extend(vla);
                let vla = if vm(&ft) { if init.is_some() { return Err("VLA initialiser".into()); } Some(self.size_ex(&ft)?) } else { self.size(&ft)?; None };
                out.push(S::Decl(li, init, vla));
            }
            if self.eat(",") { continue; }
            self.expect(";")?; return Ok(());
        }
    }
    fn scoped<X>(&mut self, f: impl FnOnce(&mut Self) -> R<X>) -> R<X> { self.scopes.push(HashMap::new()); self.tags.push(HashMap::new()); let r = f(self); self.scopes.pop(); self.tags.pop(); r }
    fn condition(&mut self) -> R<Ex> { self.expect("(")?; let e = self.expr()?; self.expect(")")?; if !e.t.is_scalar() { return Err("condition not scalar".into()); } Ok(e) }
    fn stmt(&mut self) -> R<S> {
        self.depth += 1; if self.depth > 200 { return Err("too deep".into()); }
        let r = self.stmt_(); self.depth -= 1; r
    }
    fn stmt_(&mut self) -> R<S> {
        if self.eat("{") { let b = self.scoped(|p| p.block_items())?; return Ok(S::Block(b)); }
        if self.eat(";") { return Ok(S::Empty); }
        if self.eat("if") { let c = self.condition()?; let a = self.scoped(|p| p.stmt())?; let b = if self.eat("else") { Some(Box::new(self.scoped(|p| p.stmt())?)) } else { None }; return Ok(S::If(c, Box::new(a), b)); }
        if self.eat("while") { let c = self.condition()?; self.loops += 1; let b = self.scoped(|p| p.stmt()); self.loops -= 1; return Ok(S::While(c, Box::new(b?))); }
        if self.eat("do") { self.loops += 1; let b = self.scoped(|p| p.stmt()); self.loops -= 1; let b = b?; self.expect("while")?; let c = self.condition()?; self.expect(";")?; return Ok(S::Do(Box::new(b), c)); }
        if self.eat("for") {
            self.expect("(")?;
            return self.scoped(|p| {
                let init = if p.eat(";") { None } else if p.is_type_start() { let mut v = vec![]; p.local_decl(&mut v)?; Some(Box::new(S::Block(v))) } else { let e = p.expr()?; p.expect(";")?; Some(Box::new(S::Expr(e))) };
                let c = if p.is(";") { None } else { let e = p.expr()?; if !e.t.is_scalar() { return Err("condition".into()); } Some(e) };
                p.expect(";")?;
                let s = if p.is(")") { None } else { Some(p.expr()?) };
                p.expect(")")?;
                p.loops += 1; let b = p.scoped(|p| p.stmt()); p.loops -= 1;
                Ok(S::For(init, c, s, Box::new(b?)))
            });
        }
        if self.eat("switch") { let c = self.condition()?; if !c.t.is_int() { return Err("switch on non-integer".into()); } let t = promote(&c.t); let c = self.conv_to(c, &t)?; self.switches.push((t.clone(), Default::default())); let b = self.scoped(|p| p.stmt()); self.switches.pop(); return Ok(S::Switch(c, Box::new(b?))); }
        if self.is("case") || self.is("default") {
            let d = self.is("default"); self.p += 1;
            let k = if d { None } else { let e = self.cond()?; Some(self.const_int(&e)?) };
            self.expect(":")?;
            let Some((t, seen)) = self.switches.last_mut() else { return Err("case outside switch".into()) };
            let k = k.map(|k| norm(k as u64, t) as i64);
            if !seen.insert(k) { return Err("duplicate case".into()); }
            let b = self.stmt()?;
            return Ok(match k { None => S::Default(Box::new(b)), Some(v) => S::Case(v, Box::new(b)) });
        }
        if self.eat("break") { self.expect(";")?; if self.loops == 0 && self.switches.is_empty() { return Err("break outside loop".into()); } return Ok(S::Break); }
        if self.eat("continue") { self.expect(";")?; if self.loops == 0 { return Err("continue outside loop".into()); } return Ok(S::Continue); }
        if self.eat("return") {
            let rt = self.cur.as_ref().unwrap().ty.ret.clone();
            if self.eat(";") { if rt != T::Void { return Err("outside: return without value".into()); } return Ok(S::Return(None)); }
            let e = self.expr()?; self.expect(";")?;
            if rt == T::Void { return Err("outside: return with value in void function".into()); }
            let e = self.convert_assign(e, &rt)?;
            return Ok(S::Return(Some(e)));
        }
        if self.eat("goto") { let l = self.ident()?; self.expect(";")?; self.gotos.push(l.clone()); return Ok(S::Goto(l)); }
        if let (Tok::Id(l), Tok::P(":")) = (self.peek().clone(), self.peek2().clone()) { if !KEYWORDS.contains(&l.as_str()) {
            self.p += 2; if self.labels.contains(&l) { return Err("duplicate label".into()); } self.labels.push(l.clone());
            let b = self.stmt()?;
            return Ok(S::Label(l, Box::new(b)));
        } }
        if self.is_type_start() { return Err("declaration is not a statement".into()); }
        let e = self.expr()?; self.expect(";")?;
        Ok(S::Expr(e))
    }

    // ---- expressions
    fn conv_to(&mut self, e: Ex, t: &T) -> R<Ex> {
        if e.t == *t { return Ok(e); }
        if *t == T::Void { return Ok(mk(K::Conv(Box::new(e)), T::Void)); }
        if !e.t.is_scalar() || !t.is_scalar() { return Err("bad conversion".into()); }
        if (e.t.is_fp() && t.is_ptr()) || (e.t.is_ptr() && t.is_fp()) { return Err("float/pointer conversion".into()); }
        Ok(mk(K::Conv(Box::new(e)), t.clone()))
    }
    fn is_null(&self, e: &Ex) -> bool { match &e.k { K::Int(0) => e.t.is_int(), K::Conv(x) => matches!(&e.t, T::P(p) if **p == T::Void) && matches!(x.k, K::Int(0)), _ => false } }
    fn convert_assign(&mut self, e: Ex, t: &T) -> R<Ex> {
        if e.t == *t { return Ok(e); }
        match (t, &e.t) {
            (a, b) if a.is_arith() && b.is_arith() => self.conv_to(e, t),
            (T::P(_), T::P(_)) => self.conv_to(e, t), // qualifier/pointer mismatches are tolerated
            (T::P(_), b) if b.is_int() && self.is_null(&e) => self.conv_to(e, t),
            _ => Err(format!("outside: incompatible types in assignment ({:?} <- {:?})", t, e.t)),
        }
    }
    fn rval(&mut self, e: Ex) -> Ex {
        match (&e.k, &e.t) {
            (K::Local(_) | K::Global(_) | K::Deref(_) | K::Field(..), T::A(el, _)) => { let t = T::P(el.clone()); mk(K::Decay(Box::new(e)), t) }
            (K::Local(_) | K::Deref(_), T::Vla(el, _)) => { let t = T::P(el.clone()); mk(K::Decay(Box::new(e)), t) }
            (K::Str(_), T::A(el, _)) => { let t = T::P(el.clone()); mk(K::Decay(Box::new(e)), t) }
            (K::Local(_) | K::Global(_) | K::Deref(_) | K::Field(..), _) => { let t = e.t.clone(); mk(K::Load(Box::new(e)), t) }
            _ => e,
        }
    }
    fn is_lv(e: &Ex) -> bool { matches!(e.k, K::Local(_) | K::Global(_) | K::Deref(_) | K::Field(..)) }
    fn as_lv(&self, e: Ex) -> R<Ex> { if Self::is_lv(&e) { Ok(e) } else { Err("lvalue required".into()) } }

    fn expr(&mut self) -> R<Ex> { let mut e = self.assign()?; while self.eat(",") { let b = self.assign()?; let t = b.t.clone(); e = mk(K::Comma(Box::new(e), Box::new(b)), t); } Ok(e) }
    fn assign(&mut self) -> R<Ex> {
        self.depth += 1; if self.depth > 200 { return Err("too deep".into()); }
        let r = self.assign_(); self.depth -= 1; r
    }
    fn assign_(&mut self) -> R<Ex> {
        let start = self.p;
        let l = self.cond_lv()?;
        let op = match self.peek() { Tok::P(p) => *p, _ => "" };
        let b = match op { "=" => None, "+=" => Some(B::Add), "-=" => Some(B::Sub), "*=" => Some(B::Mul), "/=" => Some(B::Div), "%=" => Some(B::Rem), "&=" => Some(B::And), "|=" => Some(B::Or), "^=" => Some(B::Xor), "<<=" => Some(B::Shl), ">>=" => Some(B::Shr), _ => { return Ok(self.rval(l)); } };
        let _ = start;
        self.p += 1;
        let lv = self.as_lv(l)?;
        let r = self.assign()?;
        let t = lv.t.clone();
        match b {
            None => { if let T::S(_) = t { if r.t != t { return Err("struct assignment type".into()); } return Ok(mk(K::Assign(Box::new(lv), Box::new(r)), t)); } if !t.is_scalar() { return Err("assignment to array".into()); } let r = self.convert_assign(r, &t)?; Ok(mk(K::Assign(Box::new(lv), Box::new(r)), t)) }
            Some(op) => {
                if let T::P(el) = &t { if !matches!(op, B::Add | B::Sub) || !r.t.is_int() { return Err("bad pointer arithmetic".into()); } if vm(el) { let r = self.scaled(r, el)?; return Ok(mk(K::OpAssign(Box::new(lv), Box::new(r), op, t.clone(), 1), t)); } let s = self.size(el)? as i64; let r = self.conv_to(r, &I64)?; return Ok(mk(K::OpAssign(Box::new(lv), Box::new(r), op, t.clone(), s), t)); }
                if !t.is_arith() || !r.t.is_arith() { return Err("outside: bad operands".into()); }
                if matches!(op, B::Rem | B::And | B::Or | B::Xor | B::Shl | B::Shr) && (!t.is_int() || !r.t.is_int()) { return Err("outside: bad operands".into()); }
                let ct = if matches!(op, B::Shl | B::Shr) { promote(&t) } else { usual(&t, &r.t) };
                let r = if matches!(op, B::Shl | B::Shr) { let p = promote(&r.t); self.conv_to(r, &p)? } else { self.conv_to(r, &ct)? };
                Ok(mk(K::OpAssign(Box::new(lv), Box::new(r), op, ct, 0), t))
            }
        }
    }
    fn cond(&mut self) -> R<Ex> { let e = self.cond_lv()?; Ok(self.rval(e)) }
    fn cond_lv(&mut self) -> R<Ex> {
        let c = self.binary(0)?;
        if !self.eat("?") { return Ok(c); }
        let c = self.rval(c);
        if !c.t.is_scalar() { return Err("condition not scalar".into()); }
        let a = self.expr()?; self.expect(":")?; let b = self.cond()?;
        let t = match (&a.t, &b.t) {
            (x, y) if x.is_arith() && y.is_arith() => usual(x, y),
            (x, y) if x == y => x.clone(),
            (T::P(_), T::P(p2)) => if **p2 == T::Void && self.is_null(&b) { a.t.clone() } else if self.is_null(&a) { b.t.clone() } else { return Err("pointer type mismatch".into()) },
            (T::P(_), _) if self.is_null(&b) => a.t.clone(), (_, T::P(_)) if self.is_null(&a) => b.t.clone(),
            _ => return Err("outside: bad conditional operands".into()),
        };
        let (a, b) = if t.is_scalar() { (self.conv_to(a, &t)?, self.conv_to(b, &t)?) } else { (a, b) };
        Ok(mk(K::Cond(Box::new(c), Box::new(a), Box::new(b)), t))
    }
    fn binary(&mut self, lvl: usize) -> R<Ex> {
        const L: &[&[&str]] = &[&["||"], &["&&"], &["|"], &["^"], &["&"], &["==", "!="], &["<", ">", "<=", ">="], &["<<", ">>"], &["+", "-"], &["*", "/", "%"]];
        if lvl == L.len() { return self.cast(); }
        let mut e = self.binary(lvl + 1)?;
        loop {
            let op = match self.peek() { Tok::P(p) if L[lvl].contains(p) => *p, _ => return Ok(e) };
            self.p += 1;
            let r = self.binary(lvl + 1)?;
            let (l, r) = (self.rval(e), self.rval(r));
            e = self.mkbin(op, l, r)?;
        }
    }
    fn mkbin(&mut self, op: &str, l: Ex, r: Ex) -> R<Ex> {
        if op == "&&" || op == "||" { if !l.t.is_scalar() || !r.t.is_scalar() { return Err("outside: bad operands".into()); } return Ok(if op == "&&" { mk(K::LAnd(Box::new(l), Box::new(r)), I32) } else { mk(K::LOr(Box::new(l), Box::new(r)), I32) }); }
        let b = match op { "|" => B::Or, "^" => B::Xor, "&" => B::And, "==" => B::Eq, "!=" => B::Ne, "<" => B::Lt, ">" => B::Gt, "<=" => B::Le, ">=" => B::Ge, "<<" => B::Shl, ">>" => B::Shr, "+" => B::Add, "-" => B::Sub, "*" => B::Mul, "/" => B::Div, _ => B::Rem };
        let (lp, rp) = (l.t.is_ptr(), r.t.is_ptr());
        if lp || rp {
            match b {
                B::Add | B::Sub if lp && r.t.is_int() => { let T::P(el) = &l.t else { unreachable!() }; if vm(el) { let r = self.scaled(r, el)?; let t = l.t.clone(); return Ok(mk(K::PAdd(Box::new(l), Box::new(r), if b == B::Sub { -1 } else { 1 }), t)); } let s = self.size(el)? as i64; let r = self.conv_to(r, &I64)?; let t = l.t.clone(); return Ok(mk(K::PAdd(Box::new(l), Box::new(r), if b == B::Sub { -s } else { s }), t)); }
                B::Add if rp && l.t.is_int() => { let T::P(el) = &r.t else { unreachable!() }; if vm(el) { let l = self.scaled(l, el)?; let t = r.t.clone(); return Ok(mk(K::PAdd(Box::new(r), Box::new(l), 1), t)); } let s = self.size(el)? as i64; let l = self.conv_to(l, &I64)?; let t = r.t.clone(); return Ok(mk(K::PAdd(Box::new(r), Box::new(l), s), t)); }
                B::Sub if lp && rp => { let T::P(el) = &l.t else { unreachable!() }; if vm(el) { let z = self.size_ex(el)?; let d = self.conv_to(mk(K::PSub(Box::new(l), Box::new(r), 1), I32), &I64)?; return self.conv_to(mk(K::Bin(B::Div, Box::new(d), Box::new(z)), I64), &I32); } let s = self.size(el)? as i64; return Ok(mk(K::PSub(Box::new(l), Box::new(r), s), I32)); }
                B::Eq | B::Ne | B::Lt | B::Gt | B::Le | B::Ge => {
                    let (l, r) = if !lp { if !self.is_null(&l) { return Err("outside: pointer/integer comparison".into()); } let t = r.t.clone(); (self.conv_to(l, &t)?, r) } else if !rp { if !self.is_null(&r) { return Err("outside: pointer/integer comparison".into()); } let t = l.t.clone(); (l, self.conv_to(r, &t)?) } else { (l, r) };
                    return Ok(mk(K::Bin(b, Box::new(l), Box::new(r)), I32));
                }
                _ => return Err("bad pointer operands".into()),
            }
        }
        if !l.t.is_arith() || !r.t.is_arith() { return Err("outside: bad operands".into()); }
        if matches!(b, B::Rem | B::And | B::Or | B::Xor | B::Shl | B::Shr) && (!l.t.is_int() || !r.t.is_int()) { return Err("outside: bad operands".into()); }
        if matches!(b, B::Shl | B::Shr) { let (lt, rt) = (promote(&l.t), promote(&r.t)); let (l, r) = (self.conv_to(l, &lt)?, self.conv_to(r, &rt)?); return Ok(mk(K::Bin(b, Box::new(l), Box::new(r)), lt)); }
        let ct = usual(&l.t, &r.t);
        let (l, r) = (self.conv_to(l, &ct)?, self.conv_to(r, &ct)?);
        let t = if matches!(b, B::Lt | B::Gt | B::Le | B::Ge | B::Eq | B::Ne) { I32 } else { ct };
        Ok(mk(K::Bin(b, Box::new(l), Box::new(r)), t))
    }
    /// size in bytes of an object of a (possibly variable) type
    fn size_ex(&self, t: &T) -> R<Ex> {
        Ok(match t {
            T::Vla(e, l) => mk(K::Bin(B::Mul, Box::new(mk(K::Load(Box::new(mk(K::Local(*l), I64))), I64)), Box::new(self.size_ex(e)?)), I64),
            T::A(e, n) => mk(K::Bin(B::Mul, Box::new(mk(K::Int(*n as u64), I64)), Box::new(self.size_ex(e)?)), I64),
            t => mk(K::Int(self.size(t)? as u64), I64),
        })
    }
    fn scaled(&mut self, r: Ex, el: &T) -> R<Ex> { let r = self.conv_to(r, &I64)?; let z = self.size_ex(el)?; Ok(mk(K::Bin(B::Mul, Box::new(r), Box::new(z)), I64)) }
    fn type_name(&mut self) -> R<T> { let (bt, td) = self.specs()?; if td { return Err("outside: typedef in a type name".into()); } let (n, t, _) = self.declarator(bt)?; if n.is_some() { return Err("name in type name".into()); } if !self.pending_vla.is_empty() { return Err("outside: VLA type name".into()); } Ok(t) }
    fn cast(&mut self) -> R<Ex> {
        if self.is("(") { let save = self.p; self.p += 1; if self.is_type_start() { let t = self.type_name()?; self.expect(")")?; let e = self.cast()?; let e = self.rval(e); if t == T::Void { return self.conv_to(e, &t); } if !t.is_scalar() { return Err("cast to non-scalar".into()); } if e.t == t { return Ok(mk(K::Conv(Box::new(e)), t)); } return self.conv_to(e, &t); } self.p = save; }
        self.unary()
    }
    fn unary(&mut self) -> R<Ex> {
        let op = match self.peek() { Tok::P(p) => *p, _ => "" };
        match op {
            "++" | "--" => { self.p += 1; let e = self.unary()?; self.incdec(e, op == "++", false) }
            "&" => { self.p += 1; let e = self.cast()?; if let (K::Str(_), T::A(..)) = (&e.k, &e.t) { let t = e.t.clone().ptr(); return Ok(mk(e.k, t)); } if let K::Fun(_) = e.k { return Err("function pointers unsupported".into()); } let e = self.as_lv(e)?; let t = e.t.clone().ptr(); Ok(mk(K::Addr(Box::new(e)), t)) }
            "*" => { self.p += 1; let e = self.cast()?; let e = self.rval(e); match &e.t { T::P(t) if **t != T::Void => { let t = (**t).clone(); Ok(mk(K::Deref(Box::new(e)), t)) } _ => Err("dereference of non-pointer".into()) } }
            "+" | "-" => { self.p += 1; let e = self.cast()?; let e = self.rval(e); if !e.t.is_arith() { return Err("bad operand".into()); } let t = promote(&e.t); let e = self.conv_to(e, &t)?; if op == "-" { Ok(mk(K::Un(U::Neg, Box::new(e)), t)) } else { Ok(mk(K::Conv(Box::new(e)), t)) } }
            "~" => { self.p += 1; let e = self.cast()?; let e = self.rval(e); if !e.t.is_int() { return Err("bad operand".into()); } let t = promote(&e.t); let e = self.conv_to(e, &t)?; Ok(mk(K::Un(U::Not, Box::new(e)), t)) }
            "!" => { self.p += 1; let e = self.cast()?; let e = self.rval(e); if !e.t.is_scalar() { return Err("bad operand".into()); } Ok(mk(K::Un(U::LNot, Box::new(e)), I32)) }
            _ => {
                if self.eat("sizeof") {
                    if self.is("(") { let save = self.p; self.p += 1; if self.is_type_start() { let t = self.type_name()?; self.expect(")")?; if vm(&t) { let z = self.size_ex(&t)?; return self.conv_to(z, &I32); } let s = self.size(&t)?; return Ok(mk(K::Int(s as u64), I32)); } self.p = save; }
                    let e = self.unary()?;
                    if vm(&e.t) { if effects(&e) { return Err("outside: side effects in sizeof a VLA".into()); } let z = self.size_ex(&e.t)?; return self.conv_to(z, &I32); }
                    let s = self.size(&e.t)?;
                    return Ok(mk(K::Int(s as u64), I32));
                }
                self.postfix()
            }
        }
    }
    fn incdec(&mut self, e: Ex, inc: bool, post: bool) -> R<Ex> {
        let e = self.as_lv(e)?; let t = e.t.clone();
        if let T::P(el) = &t { if vm(el) { let z = self.size_ex(el)?; let up = mk(K::OpAssign(Box::new(e), Box::new(z.clone()), if inc { B::Add } else { B::Sub }, t.clone(), 1), t.clone()); return Ok(if post { mk(K::PAdd(Box::new(up), Box::new(z), if inc { -1 } else { 1 }), t) } else { up }); } }
        let scale = match &t { T::P(el) => self.size(el)? as i64, t if t.is_arith() => 1, _ => return Err("bad operand of ++/--".into()) };
        Ok(mk(K::IncDec { lv: Box::new(e), inc, post, scale }, t))
    }
    fn field(&mut self, e: Ex) -> R<Ex> {
        let n = self.ident()?;
        let T::S(i) = e.t else { return Err("member access on non-struct".into()) };
        let a = &self.prog.aggs[i];
        let f = a.fields.iter().find(|f| f.0 == n).ok_or_else(|| format!("no member {n}"))?;
        Ok(mk(K::Field(Box::new(e), f.2), f.1.clone()))
    }
    fn postfix(&mut self) -> R<Ex> {
        let mut e = self.primary()?;
        loop {
            if self.eat("[") { let i = self.expr()?; self.expect("]")?; let b = self.rval(e); let s = self.mkbin("+", b, i)?; match &s.t { T::P(t) => { let t = (**t).clone(); e = mk(K::Deref(Box::new(s)), t); } _ => return Err("subscript".into()) } }
            else if self.eat("(") {
                let K::Fun(f) = e.k else { return Err("call of non-function".into()) };
                let mut args = vec![];
                if !self.eat(")") { loop { args.push(self.assign()?); if self.eat(",") { continue; } self.expect(")")?; break; } }
                let ft = self.prog.funs[f].ty.clone();
                if !ft.unspec && (args.len() < ft.params.len() || (args.len() > ft.params.len() && !ft.variadic)) { return Err("wrong number of arguments".into()); }
                let mut av = vec![];
                for (i, a) in args.into_iter().enumerate() { let a = if i < ft.params.len() { self.convert_assign(a, &ft.params[i].clone())? } else { let t = if a.t == T::F32 { T::F64 } else { promote(&a.t) }; self.conv_to(a, &t)? }; av.push(a); }
                e = mk(K::Call(f, av), ft.ret);
            }
            else if self.eat(".") { if !Self::is_lv(&e) { if let T::S(_) = e.t { let f = self.field(e)?; if let T::A(..) = f.t { return Err("outside: array member of rvalue".into()); } let K::Field(b, o) = f.k else { unreachable!() }; e = mk(K::RField(b, o), f.t); } else { return Err("member access on non-struct".into()); } } else { e = self.field(e)?; } }
            else if self.eat("->") { let b = self.rval(e); let T::P(t) = &b.t else { return Err("-> on non-pointer".into()) }; let t = (**t).clone(); e = self.field(mk(K::Deref(Box::new(b)), t))?; }
            else if self.eat("++") { e = self.incdec(e, true, true)?; }
            else if self.eat("--") { e = self.incdec(e, false, true)?; }
            else { return Ok(e); }
        }
    }
    fn primary(&mut self) -> R<Ex> {
        match self.next() {
            Tok::Int(v, dec) => { let t = if v <= i32::MAX as u64 { I32 } else if !dec && v <= u32::MAX as u64 { U32 } else if v <= i64::MAX as u64 { I64 } else if !dec { U64 } else { return Err("integer constant too large".into()) }; Ok(mk(K::Int(v), t)) }
            Tok::Chr(c) => Ok(mk(K::Int(c as u64), I32)),
            Tok::Fp(f) => Ok(mk(K::Fp(f), T::F64)),
            Tok::Str(mut s) => { s.push(0); let n = s.len() as u32; self.prog.strs.push(s); Ok(mk(K::Str(self.prog.strs.len() - 1), T::A(Rc::new(I8), n))) }
            Tok::P("(") => { let e = self.expr_lv()?; self.expect(")")?; Ok(e) }
            Tok::Id(n) if !KEYWORDS.contains(&n.as_str()) => match self.lookup(&n) {
                Some(Sym::Global(_)) if self.block_extern.contains(&n) && self.scopes[1..].iter().all(|s| !s.contains_key(&n)) => Err("outside: name declared only in another block".into()),
                Some(Sym::Local(i)) => { let i = *i; let t = self.cur.as_ref().unwrap().locals[i].1.clone(); Ok(mk(K::Local(i), t)) }
                Some(Sym::Global(i)) => { let i = *i; Ok(mk(K::Global(i), self.prog.globals[i].1.clone())) }
                Some(Sym::Fun(i)) => { let i = *i; Ok(mk(K::Fun(i), T::Fn(Rc::new(self.prog.funs[i].ty.clone())))) }
                Some(Sym::Enum(v)) => Ok(mk(K::Int(*v as u64), I32)),
                _ => Err(format!("undeclared identifier {n}")),
            },
            t => Err(format!("unexpected {t:?} in expression")),
        }
    }
    /// parenthesised expression that may still be an lvalue
    fn expr_lv(&mut self) -> R<Ex> {
        let save = self.p;
        let e = self.cond_lv()?;
        if self.is(")") { return Ok(e); }
        self.p = save;
        self.expr()
    }
}

pub fn complete_array(t: T, i: &Init) -> T {
    match (t, i) { (T::A(e, u32::MAX), Init::List(l)) => T::A(e, l.len() as u32), (T::A(e, u32::MAX), Init::Str(s)) => T::A(e, s.len() as u32), (t, _) => t }
}

/// whether evaluating an expression can change something
fn effects(e: &Ex) -> bool {
    match &e.k {
        K::Int(_) | K::Fp(_) | K::Str(_) | K::Local(_) | K::Global(_) | K::Fun(_) => false,
        K::Deref(a) | K::Field(a, _) | K::RField(a, _) | K::Addr(a) | K::Decay(a) | K::Load(a) | K::Conv(a) | K::Un(_, a) => effects(a),
        K::Bin(_, a, b) | K::PAdd(a, b, _) | K::PSub(a, b, _) | K::LAnd(a, b) | K::LOr(a, b) => effects(a) || effects(b),
        _ => true,
    }
}

//! C10 option independence, C11 stack slot sharing, C12 unreachable functions.
use super::data::{expand, seqs};
use super::*;

/// A feature of the language used in isolation: (globals and functions, statements). `@` is a suffix that keeps the names apart.
pub const FEATURES: [(&str, &str); 30] = [
    ("", "int a@ = strlen(3000); long b@ = a@ * 7; strtol(a@ + b@);"),
    ("", "int i@; int s@ = 0; for (i@ = 0; i@ < 4; i@++) { if (i@ == strlen(4000)) continue; s@ += i@; } strtol(s@);"),
    ("", "int v@[3] = {1, 2, 3}; int *p@ = v@ + strlen(3000); *p@ += 10; strtol(v@[0]); strtol(v@[1]); strtol(v@[2]);"),
    ("struct S@ { char a; int b[2]; long c; };\n", "struct S@ x@ = {1, {2, 3}, 4}; struct S@ y@; y@ = x@; y@.b[strlen(2000)] = 9; strtol(x@.b[1]); strtol(y@.b[0]); strtol(y@.b[1]); strtol(y@.c);"),
    ("int f@(int n, int a) { if (n == 0) return a; return f@(n - 1, a + n); }\n", "strtol(f@(strlen(4000), 1));"),
    ("int f@(int n) { return n < 2 ? n : f@(n - 1) + f@(n - 2); }\n", "strtol(f@(5));"),
    ("int g@ = 5;\nvoid f@() { g@++; }\n", "f@(); strtol(g@); f@(); strtol(g@); g@ = strlen(2000); strtol(g@);"),
    ("", "switch (strlen(4000)) { case 0: strlen(10); case 1: strlen(11); break; case 3: strlen(12); break; default: strlen(13); }"),
    ("", "int n@ = 0; top@: n@++; if (n@ < 3) goto top@; if (strlen(2000)) goto end@; strlen(20); end@: strtol(n@);"),
    ("", "char *s@ = \"ab\"; char t@[4] = \"cd\"; strtol(s@[strlen(3000)]); strtol(t@[1]); t@[0] = s@[1]; strtol(t@[0]);"),
    ("", "double d@ = 1.5; float e@ = d@ * 2; strtoul(d@ + e@); strtol(d@ < e@); strtol((int)e@);"),
    ("double f@(double a, char b, long c) { return a + b * c; }\n", "strtoul(f@(1.5, 2, strlen(3000)));"),
    ("union U@ { int i; char c[4]; };\n", "union U@ u@; u@.i = 258; u@.c[1] = 3; strtol(u@.i);"),
    ("int o@(int n);\nint e@(int n) { return n == 0 ? 1 : o@(n - 1); }\nint o@(int n) { return n == 0 ? 0 : e@(n - 1); }\n", "strtol(e@(strlen(4000)));"),
    ("void sw@(int *a, int *b) { int t = *a; *a = *b; *b = t; }\n", "int x@ = 1; int y@ = 2; sw@(&x@, &y@); strtol(x@); strtol(y@);"),
    ("struct P@ { int x; int y; };\nstruct P@ mk@(int a) { struct P@ p; p.x = a; p.y = a + 1; return p; }\n", "struct P@ q@ = mk@(strlen(2000)); q@ = mk@(q@.y); strtol(q@.x); strtol(q@.y);"),
    ("", "int k@ = 0; while (strlen(2000)) { k@ = !k@; if (k@) break; } do { k@ += 2; } while (k@ < 4); strtol(k@);"),
    ("int nv@() { strlen(31); return 1; }\nvoid un@() { nv@(); strlen(32); }\nint us@() { strlen(33); return 2; }\n", "if (strlen(2000) && us@()) strlen(34); else strlen(35);"),
    ("enum E@ { A@, B@ = 5, C@ };\n", "enum E@ e@ = strlen(2000) ? B@ : C@; strtol(e@); strtol(A@ + C@);"),
    ("", "unsigned char c@ = 250; short h@; c@ += 10; h@ = c@ - 5; strtol(c@); strtol(h@); strtol(c@ << 3 | h@ >> 1);"),
    ("int f@(int n) { int l[3]; int k; for (k = 0; k < 3; k++) l[k] = n + k; if (n > 0) { int r = f@(n - 1); return r + l[0] + l[1] + l[2]; } return l[2]; }\n", "strtol(f@(strlen(3000)));"),
    ("void pr@(int n) { if (n == 0) return; strtol(n); pr@(n - 1); }\n", "pr@(strlen(4000)); strlen(41);"),
    ("int acc@(int *p, int n) { if (n == 0) return *p; *p += n; return acc@(p, n - 1); }\n", "int z@ = 1; strtol(acc@(&z@, 3)); strtol(z@);"),
    ("int loc@(int n, int *p) { int x = n; if (n == 0) return *p; return loc@(n - 1, &x); }\n", "int q@ = 3; strtol(loc@(0, &q@)); strtol(loc@(strlen(3000), &q@));"),
    ("long gs@[3] = {1, 2};\nchar gc@ = 'x';\nchar *gp@ = \"hey\";\n", "gs@[2] = gs@[strlen(2000)] + gc@; strtol(gs@[2]); strtol(gp@[1]);"),
    ("int swt@(int n) { switch (n) { case 0: return 7; case 1: return swt@(0); default: return swt@(n - 1); } }\n", "strtol(swt@(strlen(3000)));"),
    ("", "int x@ = 1; { int x@ = 2; strtol(x@); { char x@ = 3; strtol(x@); } } strtol(x@);"),
    ("int m@(int a, int b, int c) { if (a > 3) return b * 10 + c; return m@(a + 1, c, b); }\n", "strtol(m@(strlen(3000), 1, 2));"),
    ("", "int m@[2][2] = {{1, 2}, {3, 4}}; int (*r@)[2] = m@; r@++; strtol((*r@)[strlen(2000)]); strtol(m@[0][1]);"),
    ("void v0@() {}\nint v1@(void) { v0@(); return 9; }\nvoid v2@(int a) { a = v1@(); strtol(a); }\n", "v2@(1); strtol((v1@(), 4)); v0@();"),
];
pub fn feature(k: usize, suf: &str) -> (String, String) { (FEATURES[k].0.replace('@', suf), FEATURES[k].1.replace('@', suf)) }

pub fn options(th: bool, out: Sink) {
    let n = FEATURES.len();
    let all = Opts::all16();
    for a in 0..n {
        let (g, s) = feature(a, "p");
        out(Case::new(format!("C10/one/{a}"), prog(&g, &s)).opts(&all).seeds(if th { &[0, 1, 2, 3] } else { &[0, 1] }));
        out(Case::new(format!("C10/fn/{a}"), prog(&format!("{g}int body(int n) {{ {s} if (n > 0) return body(n - 1); return n; }}\n"), "strtol(body(1));")).opts(&all));
        for b in 0..n {
            let (h, t) = feature(b, "q");
            // one after the other in one function, so that their variables compete for the same stack slots
            out(Case::new(format!("C10/seq/{a}/{b}"), prog(&format!("{g}{h}"), &format!("{{ {s} }} {t}"))).opts(&all));
            // one calling the other, with live variables across the call
            if th || (a + b) % 3 == 0 { out(Case::new(format!("C10/call/{a}/{b}"), prog(&format!("{g}{h}void helper(int n) {{ {s} if (n) helper(n - 1); }}\n"), &format!("int keep = strlen(3000); helper(1); strtol(keep); {t} helper(0); strtol(keep);"))).opts(if th { &all } else { &[Opts::DEFAULT, Opts { tail: false, unreach: false, stack: true, prof: true }, Opts { tail: true, unreach: true, stack: false, prof: true }] })); }
            if th { for c in 0..n { if (a + b * 3 + c * 5) % 7 != 0 { continue; } let (i, u) = feature(c, "r"); out(Case::new(format!("C10/tri/{a}/{b}/{c}"), prog(&format!("{g}{h}{i}"), &format!("if (strlen(2000)) {{ {s} }} else {{ {t} }} {u}"))).opts(&all)); } }
        }
    }
}

/// Emits programs of many functions, one of which the environment selects, so that many small bodies share one compilation.
pub struct Pack<'a> { id: String, n: usize, size: usize, fns: Vec<String>, pre: String, opts: Vec<Opts>, seeds: Vec<u64>, ret: &'static str, out: Sink<'a> }
impl<'a> Pack<'a> {
    pub fn new(id: &str, size: usize, pre: &str, opts: &[Opts], seeds: &[u64], out: Sink<'a>) -> Pack<'a> { Pack { id: id.into(), n: 0, size, fns: vec![], pre: pre.into(), opts: opts.to_vec(), seeds: seeds.to_vec(), ret: "void", out } }
    /// functions that return a value of this type, which is recorded
    pub fn ret(mut self, t: &'static str) -> Pack<'a> { self.ret = t; self }
    pub fn add(&mut self, body: &str) {
        let b = if self.ret == "void" && body.contains("return ") { body.split("return ").enumerate().map(|(i, x)| if i == 0 { x.to_string() } else { let y = x.trim_start_matches(|c: char| c.is_ascii_digit()); if y.starts_with(';') { format!("return{y}") } else { format!("return {x}") } }).collect() } else { body.to_string() };
        self.fns.push(b); if self.fns.len() >= self.size { self.flush() } }
    pub fn flush(&mut self) {
        if self.fns.is_empty() { return; }
        let k = self.fns.len();
        let f: String = self.fns.iter().enumerate().map(|(i, b)| format!("{} f{i}() {{ {b} }}\n", self.ret)).collect();
        let c: String = (0..k).map(|i| if self.ret == "void" { format!("case {i}: f{i}(); break; ") } else { format!("case {i}: {} break; ", rec(&format!("f{i}()"), matches!(self.ret, "double" | "float"))) }).collect();
        (self.out)(Case::new(format!("{}/{}", self.id, self.n), prog(&format!("{}{f}", self.pre), &format!("switch (strlen({k}000)) {{ {c} }}"))).opts(&self.opts).seeds(&self.seeds));
        self.n += 1; self.fns.clear();
    }
}
impl Drop for Pack<'_> { fn drop(&mut self) { self.flush() } }

const V: [&str; 4] = ["a", "b", "c", "e"];
#[derive(Clone, Copy, PartialEq)]
enum Op { Def(usize), Copy(usize, usize), Read(usize), Addr(usize), Put, Get, Call, Inc(usize) }
impl Op {
    fn vars(&self) -> Vec<usize> { match self { Op::Def(x) | Op::Read(x) | Op::Addr(x) | Op::Inc(x) => vec![*x], Op::Copy(x, y) => vec![*x, *y], _ => vec![] } }
    fn text(&self, k: usize) -> String { match self {
        Op::Def(x) => format!("{} = {};", V[*x], k + 10), Op::Copy(x, y) => format!("{} = {} ^ {};", V[*x], V[*y], 1 << k), Op::Read(x) => format!("strtol({});", V[*x]),
        Op::Addr(x) => format!("p = &{};", V[*x]), Op::Put => format!("*p = {};", k + 50), Op::Get => "strtol(*p);".into(), Op::Call => "g(strlen(7));".into(), Op::Inc(x) => format!("{}++;", V[*x]) } }
}
fn alphabet(nv: usize, ptr: bool, copy: bool, inc: bool, call: bool) -> Vec<Op> {
    let mut v = vec![];
    for x in 0..nv { v.push(Op::Def(x)); v.push(Op::Read(x)); if inc { v.push(Op::Inc(x)); } if copy { for y in 0..nv { if x != y { v.push(Op::Copy(x, y)); } } } if ptr { v.push(Op::Addr(x)); } }
    if ptr { v.push(Op::Put); v.push(Op::Get); }
    if call { v.push(Op::Call); }
    v
}
/// variables appear in the order of their names, everything read has been written on the straight line, and the pointer is set before it is used
fn canonical(ops: &[Op]) -> bool { let mut next = 0; for o in ops { for v in o.vars() { if v > next { return false; } if v == next { next += 1; } } } true }
fn straight_ok(ops: &[Op]) -> bool {
    let (mut init, mut ptr): (u32, Option<usize>) = (0, None);
    for o in ops { match o {
        Op::Def(x) => init |= 1 << x, Op::Copy(x, y) => { if init & (1 << y) == 0 { return false; } init |= 1 << x }
        Op::Read(x) | Op::Inc(x) => if init & (1 << x) == 0 { return false; },
        Op::Addr(x) => ptr = Some(*x), Op::Put => match ptr { Some(x) => init |= 1 << x, None => return false }, Op::Get => match ptr { Some(x) => if init & (1 << x) == 0 { return false; }, None => return false }, Op::Call => {}
    } }
    true
}

pub fn slots(th: bool, out: Sink) {
    let both = [Opts::DEFAULT, Opts { tail: true, unreach: true, stack: false, prof: false }];
    let stack = [Opts::DEFAULT];
    let pre = "void g(int n) { int x[4]; int k; for (k = 0; k < 4; k++) x[k] = 90 + k; if (n > 99) strtol(x[n]); }\n";
    let decls = ["int a; int b; int c; int e; int *p;", "long a; char b; int c; short e; long *p;"];
    // straight line: every sequence of reads and writes, directly and through a pointer
    for (name, al, lens, d) in [
        ("line", alphabet(3, false, true, false, false), if th { 4..=7 } else { 4..=6 }, 0), ("ptr", alphabet(2, true, true, false, false), if th { 4..=7 } else { 4..=6 }, 0), ("ptr3", alphabet(3, true, false, false, true), if th { 4..=6 } else { 4..=5 }, 0), ("mix", alphabet(3, false, true, true, false), if th { 4..=6 } else { 4..=5 }, 1)] {
        for n in lens {
            let mut pk = Pack::new(&format!("C11/{name}{n}"), 40, pre, &stack, &[0], out);
            seqs(n, al.len(), &mut |s| { let ops: Vec<Op> = s.iter().map(|i| al[*i]).collect();
                if !matches!(ops[n - 1], Op::Read(_) | Op::Get) || !matches!(ops[0], Op::Def(_) | Op::Addr(_)) || !canonical(&ops) || !straight_ok(&ops) { return; }
                pk.add(&format!("{} {}", decls[d], ops.iter().enumerate().map(|(k, o)| o.text(k)).collect::<Vec<_>>().join(" "))); });
        }
    }
    // one operation in each place of a control-flow skeleton; initial values make every read defined
    let sk: [(&str, &str, usize); 14] = [
        ("if", "0 if (C) { 1 } 2 3", 4), ("else", "0 if (C) { 1 } else { 2 } 3", 4), ("while", "0 while (C) { 1 2 } 3", 4), ("while3", "0 while (C) { 1 2 3 } 4", 5), ("do", "0 do { 1 2 } while (C); 3", 4), ("for", "for (0_ C; 1_) { 2 3 }", 4),
        ("brk", "0 while (1) { 1 if (C) break; 2 } 3", 4), ("cont", "0 while (C) { 1 if (C) continue; 2 } 3", 4), ("nest", "while (C) { 0 while (C) { 1 } 2 } 3", 4), ("sw", "0 switch (strlen(3000)) { case 0: 1 case 1: 2 break; default: 3 } 4", 5), ("goto", "0 l: 1 if (C) goto l; 2 3", 4), ("fwd", "0 if (C) goto l; 1 2 l: 3", 4), ("ret", "0 if (C) { 1 return; } 2 3", 4), ("ifif", "0 if (C) { 1 } 2 if (C) { 3 } 4", 5)];
    for (name, t, n) in sk { for (an, al, need) in [("d", alphabet(2, false, true, false, false), 0), ("p", alphabet(2, true, false, false, false), 1), ("t", alphabet(3, false, true, false, false), 2)] {
        if need == 2 && n == 5 && !th { continue; }
        if !th && need == 1 && n == 5 { continue; }
        let mut pk = Pack::new(&format!("C11/{name}-{an}"), 30, pre, if th || need == 0 { &both } else { &stack }, if th { &[0, 1] } else { &[0] }, out);
        seqs(n, al.len(), &mut |s| { let ops: Vec<Op> = s.iter().map(|i| al[*i]).collect();
            if !canonical(&ops) || !ops.iter().any(|o| matches!(o, Op::Read(_) | Op::Get)) || !ops.iter().any(|o| matches!(o, Op::Def(_) | Op::Copy(..) | Op::Put)) { return; }
            if need == 2 && !(ops.iter().any(|o| o.vars().contains(&2))) { return; }
            if need == 1 && !ops.iter().any(|o| matches!(o, Op::Put | Op::Get)) { return; }
            let mut b = String::new();
            let mut it = t.chars().peekable();
            while let Some(ch) = it.next() {
                if ch == 'C' { b += "strlen(2000)"; } else if ch.is_ascii_digit() && !b.ends_with("strlen(3") && !b.ends_with(|c: char| c.is_ascii_digit() || c == '(' && false) && !(b.ends_with("case ")) && !(b.ends_with("strlen(")) && !(b.ends_with("while (")) { let k = ch as usize - 48; let x = ops[k].text(k); if it.peek() == Some(&'_') { it.next(); let x = x.trim_end_matches(';').to_string(); b += &x; if k == 0 { b.push(';'); } } else { b += &x; } } else { b.push(ch) }
            }
            let init = if need == 1 { "int a = 1; int b = 2; int *p = &a;" } else if need == 2 { "int a = 1; int b = 2; int c = 3;" } else { "int a = 1; int b = 2;" };
            pk.add(&format!("{init} {b} strtol(a);")); });
    } }
    // wider objects: arrays, structs, parameters and temporaries with disjoint or overlapping lifetimes, every ordered pair and triple
    let obj: [(&str, &str, &str); 12] = [("int @;", "@ = K;", "strtol(@);"), ("long @;", "@ = K;", "strtol(@);"), ("char @;", "@ = K;", "strtol(@);"), ("double @;", "@ = K;", "strtoul(@);"), ("int @[3];", "@[0] = K; @[2] = K + 1;", "strtol(@[0]); strtol(@[2]);"), ("char @[5];", "@[0] = K; @[4] = K + 1;", "strtol(@[0]); strtol(@[4]);"), ("struct S @;", "@.x = K; @.y = K + 1;", "strtol(@.x); strtol(@.y);"), ("struct S @; struct S @o; @o.x = 3; @o.y = 4;", "@ = @o; @.x = K;", "strtol(@.x); strtol(@.y); strtol(@o.y);"), ("int @o; int *@ = &@o;", "*@ = K;", "strtol(@o);"), ("int @o[2]; int *@ = @o;", "*@++ = K; *@-- = K + 1;", "strtol(@[0]); strtol(@o[1]);"), ("union U @;", "@.l = K;", "strtol(@.l);"), ("char *@;", "@ = \"xyz\" + (K % 3);", "strtol(*@);")];
    let pats = ["Dx Dy Wx Wy Rx Ry", "Dx Wx Rx Dy Wy Ry", "Dx Dy Wx Rx Wy Ry Rx", "Dx Dy Wx while (C) { Wy Ry Rx }", "Dx Dy Wx Wy while (C) { Rx Wx Ry }", "Dx Wx { Dy Wy Ry } Rx", "Dx Wx if (C) { Dy Wy Rx Ry } else { Rx Wx } Rx", "Dx Dy Wx if (C) { Rx } else { Wy Ry } if (C) { Wy } else { Wy Wx } Ry Rx", "Dx Dy Wx Wy if (C) { Wx Ry } else { Wy Rx } Rx Ry", "Dx Wx l: ; Dy Wy Ry if (C) goto l; Rx", "Dx Dy Wx g(1); Wy g(2); Rx Ry", "Dx Dy Wx do { Rx Wy if (C) { Wx Ry } } while (C); Rx Ry"];
    for (i, (dx, wx, rx)) in obj.iter().enumerate() { let mut pk = Pack::new(&format!("C11/obj/{i}"), 24, &format!("struct S {{ char x; long y; }};\nunion U {{ long l; char c; }};\n{pre}"), if th { &both } else { &stack }, if th { &[0, 1, 2] } else { &[0] }, out);
        for (dy, wy, ry) in obj.iter() { for p in pats.iter() {
            let mut k = 10;
            let b: String = p.split(' ').map(|w| match w { "Dx" => dx.replace('@', "x"), "Dy" => dy.replace('@', "y"), "Rx" => rx.replace('@', "x"), "Ry" => ry.replace('@', "y"), "Wx" => { k += 7; wx.replace('@', "x").replace('K', &k.to_string()) } "Wy" => { k += 7; wy.replace('@', "y").replace('K', &k.to_string()) } w => w.replace("(C)", "(strlen(2000))") } + " ").collect();
            pk.add(&b);
        } }
    }
    // every instruction kind as the last use of its operands, with another variable coming to life between their definition and that use
    let mut kinds: Vec<(String, String, String)> = vec![]; // declarations and values of the operands, the use, how its result is recorded
    for s in TYS.iter() { for t in TYS.iter() { kinds.push((format!("{} a = E;", s.c), format!("{} b = a;", t.c), rec("b", t.fp()))); } 
        for (op, _) in BINOPS { if int_only(op) && s.fp() { continue; }
            kinds.push((format!("{} a = E; {} c = E + 1;", s.c, s.c), format!("{} b = a {op} c;", if int_result(op) { "int" } else { s.c }), rec("b", s.fp() && !int_result(op))));
            if th { for t in TYS.iter().filter(|t| !(int_only(op) && t.fp())) { kinds.push((format!("{} a = E; {} c = E + 1;", s.c, t.c), format!("double b = a {op} c;"), rec("b", true))); } }
            if !int_result(op) { kinds.push((format!("{} a = E + 4; {} c = E;", s.c, s.c), format!("a {op}= c;"), rec("a", s.fp()))); } }
        for u in ["-a", "+a", "!a", "~a", "a++", "--a", "a ? 3 : 4", "sizeof a", "(a, 3)", "*&a", "&a != 0"] { if u == "~a" && s.fp() { continue; } kinds.push((format!("{} a = E;", s.c), format!("{} b = {u};", s.c), rec("b", s.fp()))); }
        kinds.push((format!("{} a = E;", s.c), "int b = 0; if (a) b = 2; while (a) { b++; a = 0; } do b++; while (a); for (; a == 0; a = 5) b += 8;".into(), rec("b", false)));
        kinds.push((format!("{} a = E; {} v[2]; {} *q = v;", s.c, s.c, s.c), "*q = a; v[1] = a; ".into(), format!("{}{}", rec("v[0]", s.fp()), rec("q[1]", s.fp()))));
        kinds.push((format!("{} v[3]; {} *q = v + 1; v[0] = E; v[1] = E + 1; v[2] = E + 2;", s.c, s.c), format!("{} b = *q; {} e = q[-1]; {} o = *++q;", s.c, s.c, s.c), format!("{}{}{}", rec("b", s.fp()), rec("e", s.fp()), rec("o", s.fp()))));
        kinds.push((format!("struct {{ char z; {} m; }} v; {} *q; v.m = E; q = &v.m;", s.c, s.c), format!("{} b = v.m; {} e = *q;", s.c, s.c), format!("{}{}", rec("b", s.fp()), rec("e", s.fp()))));
        kinds.push((format!("{} a = E; {} c = E + 1;", s.c, s.c), format!("{} b = id_{}(a); {} e = two_{}(c, b);", s.c, s.id, s.c, s.id), format!("{}{}", rec("b", s.fp()), rec("e", s.fp()))));
        if !s.fp() { kinds.push((format!("{} a = E; int v[12]; int *q = v; v[6] = 61; v[7] = 62; v[8] = 63;", s.c), "int b = q[a]; int e = *(q + a); int o = (q + a) - q; switch (a) { case 6: b++; case 7: b += 2; default: b += 4; }".into(), "strtol(b); strtol(e); strtol(o);".into()));
            kinds.push((format!("{} a = E;", s.c), "char *q = (char *)a; int b = (int)q; char *o = q + 1; int e = o > q; int n = o - q; int f = q == 0;".into(), "strtol(b); strtol(e); strtol(n); strtol(f);".into())); } }
    kinds.push(("int a = E; int c = E + 1; int *q = &a; int *r = &c; int **z = &q;".into(), "int b = *q; int e = **z; *z = r; int n = **z; int o = q == r; int *y = *z; **z = e;".into(), "strtol(b); strtol(e); strtol(n); strtol(o); strtol(*y);".into()));
    kinds.push(("char *q = \"abcdefgh\"; char v[4] = \"xyz\"; int a = E;".into(), "char b = q[a - 5]; char e = *q; char n = v[a - 6]; char *y = a > 6 ? q : v;".into(), "strtol(b); strtol(e); strtol(n); strtol(*y);".into()));
    kinds.push(("struct { int m; struct { char k; double g; } in[2]; } s; struct { int m; } *q; s.in[1].g = E; s.in[0].k = E + 1; s.m = 3;".into(), "double b = s.in[1].g; char e = s.in[0].k; s.m = e; int n = s.m;".into(), "strtoul(b); strtol(e); strtol(n);".into()));
    kinds.push(("int a = E; int c = E + 1;".into(), "int b = a > 6 && c > 6; int e = a > 6 || c > 6; int n = a == 6 ? c : a; int o = (a++, c);".into(), "strtol(b); strtol(e); strtol(n); strtol(o); strtol(a);".into()));
    kinds.push(("int a = E; int c = E + 1;".into(), "printf(\"%d %d\", a, c); int b = strstr(\"s\", a);".into(), "strtol(b);".into()));
    let ids: String = TYS.iter().map(|s| format!("{0} id_{1}({0} x) {{ return x; }}\n{0} two_{1}({0} x, {0} y) {{ {0} z = y; return z - x + x; }}\n", s.c, s.id)).collect();
    let mut pk = Pack::new("C11/kind", 24, &format!("{pre}{ids}"), if th { &both } else { &stack }, if th { &[0, 1] } else { &[0] }, out);
    for (d, u, r) in kinds.iter() { let d = d.replace('E', "e0"); for (p, q) in [("int k = e0 * 9; ", "strtol(k);"), ("int k = e0 * 9; strtol(k); ", ""), ("long k[2]; k[0] = e0; k[1] = 55; double h = k[1]; ", "strtol(k[0]); strtoul(h);"), ("char k = 44; ", "int h = 9; char g = 11; strtol(k); strtol(h); strtol(g);")] {
        if p.is_empty() { continue; }
        pk.add(&format!("int e0 = 6 + strlen(2000); {d} {p}{u} {q} {r}"));
        if th { pk.add(&format!("int e0 = 6 + strlen(2000); {d} {p}{u} {r} {q}")); }
    } }
    drop(pk);
    // parameters share slots with locals; results and temporaries live across calls
    for (i, (g, b)) in [("int f(int a, int b) { int x; x = b; strtol(x); b = a + 1; strtol(b); a = x; strtol(a); x = b; return x; }\n", "strtol(f(strlen(3000), 8));"), ("int f(int a, int *b) { int x = *b; *b = a; { int y = x + 1; strtol(y); } { int z = a; *b = z + 5; } return x; }\n", "int q = 4; strtol(f(strlen(2000), &q)); strtol(q);"),
        ("int id(int a) { return a; }\n", "int x = id(1) + id(2) * id(3); int y = id(x) - (id(4) + id(5)); strtol(x); strtol(y);"), ("int f(int n) { int a = n; int b; int c; b = n > 0 ? f(n - 1) : 1; c = b + a; a = c * 2; strtol(b); return a + c; }\n", "strtol(f(strlen(4000)));"),
        ("int *lk(int *p) { return p; }\n", "int a = 1; int *p = lk(&a); int b = 2; int c = 3; strtol(b + c); *p = 9; strtol(a); b = 7; strtol(*p); strtol(b);"), ("", "int a[2]; int *p = a; int b; int c; a[0] = 5; a[1] = 6; b = p[0]; c = p[1]; strtol(b + c); b = 8; strtol(p[0]); strtol(p[1]); strtol(b);"),
        ("struct L { struct L *n; int v; };\n", "struct L a; struct L b; struct L *h; int x; a.v = 1; b.v = 2; a.n = &b; b.n = 0; h = &a; x = 5; strtol(x); while (h) { int t = h->v; strtol(t); h = h->n; }"), ("", "int i; int s = 0; for (i = 0; i < 3; i++) { int t = i * 2; int u; if (t == 2) { u = 10; s += u; } else { int w = t; s += w; } } strtol(s); strtol(i);"),
        ("int sum(int *p, int n) { int s = 0; int k; for (k = 0; k < n; k++) { int t = p[k]; s = s + t; } return s; }\n", "int v[4] = {1, 2, 3, 4}; int w = 9; strtol(sum(v, 4)); w = v[3]; strtol(w); v[strlen(4000)] = 20; strtol(sum(v, 4)); strtol(w);"), ("", "int x = 0; int *p; int **q; int y; p = &x; q = &p; y = 6; strtol(y); **q = 4; strtol(x); y = x; strtol(y);"),
        ("", "int x = strlen(3000); int y; int z; if (x == 0) { y = 1; z = y; } else if (x == 1) { z = 2; y = z; } else { y = 3; z = 4; } strtol(y); strtol(z); strtol(x);"), ("void out2(int *a, int *b) { *a = 1; *b = 2; }\n", "int x; int y; int z = 7; out2(&x, &y); strtol(z); strtol(x); strtol(y); z = x; out2(&y, &x); strtol(z); strtol(x); strtol(y);")].iter().enumerate() {
        out(Case::new(format!("C11/call/{i}"), prog(&format!("{pre}{g}"), b)).opts(&Opts::all8()).seeds(&[0, 1, 2]));
    }
    let _ = expand;
}

pub fn unreachable(th: bool, out: Sink) {
    let ou = [Opts::DEFAULT, Opts { tail: true, unreach: false, stack: true, prof: false }];
    // every call graph of main and three functions; each function reports itself and calls its successors while the depth lasts
    let n = 3;
    let how: [&str; 8] = ["F(n - 1);", "strtol(F(n - 1));", "if (strlen(2000)) F(n - 1);", "while (F(n - 1) > 0) { break; }", "n = n + 0 * F(n - 1);", "F(F(n - 2));", "switch (F(n - 1)) { default: ; }", "n ? F(n - 1) : 0;"];
    for m in 0..(1u32 << n) { for e in 0..(1u32 << (n * n)) {
        if !th && m != 1 && m != 2 && m != 5 && m != 0 { continue; }
        let h = how[(e as usize * 3 + m as usize) % if th { 8 } else { 2 }];
        let name = |k: usize| ["alpha", "beta", "gamma"][k];
        let call = |k: usize| h.replace("F(n - 2)", &format!("{}(0)", name(k))).replace('F', name(k));
        let protos: String = (0..n).map(|k| format!("int {}(int n);\n", name(k))).collect();
        let body = |k: usize| format!("int {}(int n) {{ strlen({}); if (n > 0) {{ {} }} return {}; }}\n", name(k), k + 100, (0..n).filter(|j| e >> (k * n + j) & 1 == 1).map(|j| call(j)).collect::<Vec<_>>().join(" "), k + 1);
        let mainb = format!("int n = 2; {}", (0..n).filter(|j| m >> j & 1 == 1).map(|j| format!("strtol({}(2));", name(j))).collect::<Vec<_>>().join(" "));
        let p = format!("{PRE}{protos}{}\nint main() {{ {mainb} return n; }}\n", (0..n).map(body).collect::<String>());
        out(Case::new(format!("C12/graph/{m}/{e}"), p).opts(&ou));
        if e % 16 == 5 || th && e % 4 == 1 { let p = format!("{PRE}{protos}int main() {{ {mainb} return n; }}\n{}", (0..n).rev().map(body).collect::<String>()); out(Case::new(format!("C12/graphr/{m}/{e}"), p).opts(&ou).seeds(&[0, 1, 2, 3])); }
    } }
    // every place a call can stand in, as the only reference to the function
    let ctx = ["f(1);", "strtol(f(1));", "int x = f(1); strtol(x);", "int x; x = f(1); strtol(x);", "int x = 1; x += f(1); strtol(x);", "if (f(1)) strlen(1);", "if (!f(1)) strlen(1); else strlen(2);", "while (f(1)) break;", "do strlen(1); while (f(0));", "for (f(1); strlen(2000); ) ;", "for (; f(0); ) ;", "int k = 0; for (; k < 2; f(1)) k++;", "switch (f(1)) { case 1: strlen(1); }", "switch (1) { case 1: f(1); }", "switch (strlen(2000)) { default: { { f(1); } } case 0: strlen(9); }", "strtol(g(f(1)));", "strtol(1 + 2 * f(1));", "strtol(-f(1)); strtol(~f(1)); strtol(!f(1));", "strtol(f(1) ? 3 : 4);", "strtol(strlen(2000) ? f(1) : 4);", "strtol(strlen(2000) && f(1));", "strtol(0 || f(1));", "int a[3] = {5, 6, 7}; strtol(a[f(1)]);", "int a[3] = {5, f(1), 7}; strtol(a[1]);", "struct T { int x; } t = {f(1)}; strtol(t.x);", "strtol((f(1), 2));", "strtol((char)f(1));", "goto l; l: f(1);", "if (strlen(2000)) { if (strlen(2000)) { f(1); } }", "{ { { f(1); } } }", "int a[2]; *(a + f(1)) = f(0); strtol(a[1]);", "strtol(f(f(1)));", "return f(1);", "int i = 0; while (i < 2) { i++; if (i == 1) continue; f(i); }", "strtol(h(2));", "if (0) f(1); strlen(1);", "while (0) f(1); strlen(1);", "strlen(1); goto e; f(1); e: strlen(2);", "strlen(1); return 0; f(1);", "strtol(sizeof(f(1)));", "strtol(sizeof f(1));"];
    for (i, c) in ctx.iter().enumerate() { for (k, g) in ["int f(int a) { strlen(5); return a; }\nint g(int a) { return a + 1; }\nint h(int n) { return n > 0 ? h(n - 1) : f(1); }\n", "int f(int a);\nint g(int a) { return a + 1; }\nint un(int a) { return un(a) + g(a); }\nint h(int n) { return n > 0 ? h(n - 1) : f(1); }\nint z(int a) { return a; }\nint f(int a) { strlen(5); return z(a); }\n"].iter().enumerate() {
        out(Case::new(format!("C12/ctx/{i}/{k}"), prog(g, c)).opts(&Opts::all8()).seeds(if th { &[0, 1, 2, 3] } else { &[0] }));
    } }
    // functions of every signature around removed ones: indices and types must still match
    let sigs = ["int f#(int a) { strtol(a); return a + #; }", "void f#() { strlen(1#); }", "double f#(double d) { strtoul(d); return d + #; }", "long f#(char a, double b, long c) { strtol(a); strtoul(b); strtol(c); return c; }", "char *f#(char *s) { strtol(s[#]); return s; }", "struct S f#(struct S s) { s.x += #; return s; }"];
    let uses = ["strtol(f#(3));", "f#();", "strtoul(f#(1.5));", "strtol(f#(1, 2.5, 3));", "strtol(f#(\"abcd\")[1]);", "struct S s#; s#.x = 4; s#.y = 5; s# = f#(s#); strtol(s#.x); strtol(s#.y);"];
    seqs(3, sigs.len(), &mut |s| for used in 0..8u32 {
        if !th && (s[0] + s[1] + s[2] + used as usize) % 3 != 0 { return; }
        let f: String = s.iter().enumerate().map(|(k, i)| sigs[*i].replace('#', &k.to_string()) + "\n").collect();
        let b: String = s.iter().enumerate().filter(|(k, _)| used >> k & 1 == 1).map(|(k, i)| uses[*i].replace('#', &k.to_string())).collect();
        out(Case::new(format!("C12/sig/{}{}{}/{used}", s[0], s[1], s[2]), prog(&format!("struct S {{ int x; long y; }};\n{f}"), &b)).opts(&ou));
    });
    // host functions used only in removed functions, and strings and globals of removed functions
    for (i, (g, b)) in [("void un() { printf(\"x\"); }\n", "strlen(1);"), ("char *s = \"keep\";\nvoid un() { char *t = \"drop\"; strtol(t[0]); }\n", "char *t = \"mine\"; strtol(s[0]); strtol(t[0]);"), ("int g = 5;\nvoid un() { g = 6; }\n", "strtol(g);"), ("void a();\nvoid b() { a(); }\nvoid a() { b(); }\n", "strlen(1);"), ("int used() { return 3; }\nint un() { return used(); }\n", "strtol(used());"), ("int d(int n) { return n ? d(n - 1) : 7; }\nint c(int n) { return d(n); }\nint b(int n) { return c(n); }\nint a(int n) { return b(n); }\nint z(int n) { return a(n); }\n", "strtol(a(strlen(3000)));")].iter().enumerate() {
        out(Case::new(format!("C12/host/{i}"), prog(g, b)).opts(&Opts::all16()).seeds(&[0, 1, 2, 3]));
    }
}

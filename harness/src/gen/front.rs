//! C18 structure, C19 literals, C26 scopes.
use super::data::seqs;
use super::opt::{feature, Pack, FEATURES};
use super::*;

const PRE18: &str = "int a; int b; int c; int d; int v[4]; int *p; struct S { int x; int *q; struct S *n; int w[3]; } s; struct S *r;\nint f(int x) { return x * 3 + 1; }\nint g2(int x, int y) { return x * 10 + y; }\nvoid in(int k) { a = k == 0 ? 7 : k == 1 ? 1 : k == 2 ? -3 : 12; b = k == 0 ? 3 : k == 1 ? 6 : k == 2 ? 2 : 5; c = k == 0 ? 2 : k == 1 ? 4 : k == 2 ? 1 : 3; d = k == 0 ? 5 : k == 1 ? 0 : k == 2 ? 9 : 1; v[0] = 20; v[1] = 21; v[2] = 22; v[3] = 23; p = v + 1; s.x = 40; s.q = &v[2]; s.n = &s; s.w[0] = 50; s.w[1] = 51; s.w[2] = 52; r = &s; }\nvoid sh() { strtol(a); strtol(b); strtol(c); strtol(v[0]); strtol(v[1]); strtol(v[2]); strtol(p - v); strtol(s.x); }\n";

pub fn structure(th: bool, out: Sink) {
    let bin: Vec<&str> = BINOPS.iter().map(|b| b.0).collect();
    let run = |e: &str| format!("in(strlen(4000)); strtol({e}); sh();");
    // every pair (and triple) of binary operators, and each with ?:, comma, assignment and unary operators on either side
    { let mut pk = Pack::new("C18/prec2", 36, PRE18, &[Opts::DEFAULT], &[0], out); for x in &bin { for y in &bin { pk.add(&run(&format!("a {x} b {y} c"))); } } }
    { let mut pk = Pack::new("C18/prec3", 40, PRE18, &[Opts::DEFAULT], &[0], out); let cls = ["*", "%", "+", "-", "<<", "<", "==", "&", "^", "|", "&&", "||", "/", ">>", ">=", "!="]; let n = if th { 16 } else { 9 }; for x in &cls[..n] { for y in &cls[..n] { for z in &cls[..n] { pk.add(&run(&format!("a {x} b {y} c {z} d"))); } } } }
    { let mut pk = Pack::new("C18/mixed", 36, PRE18, &[Opts::DEFAULT], &[0], out);
        for x in &bin { for t in ["a X b ? c : d", "a ? b X c : d", "a ? b : c X d", "(a, b X c)", "(a X b, c)", "a = b X c", "a += b X c", "-a X b", "a X -b", "!a X b", "a X !b", "~a X b", "a X ~b", "*p X b", "a X *p", "(char)a X b", "a X (char)b", "(char)(a X b)", "a++ X b", "a X b++", "--a X b", "a X ++b", "sizeof a X b", "a X sizeof b", "f(a) X b", "a X f(b)", "v[(a X b) & 3]", "v[1] X p[0]", "s.x X r->x", "-f(a) X -v[1]", "a X (b X c)", "(a X b) X c", "(a X b) X (c X d)", "(((a))) X ((b))"] { if t.contains("= b X") && false { continue; } pk.add(&run(&t.replace('X', x))); } }
    }
    let asg = ["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^="];
    { let mut pk = Pack::new("C18/assign", 36, PRE18, &[Opts::DEFAULT], &[0], out); for x in asg { for y in asg { pk.add(&run(&format!("a {x} b {y} c"))); } for t in ["a X b ? c : d", "a X (b, c)", "a ? b : (c X d)", "*p X a", "p[1] X a", "v[b & 3] X c X 2", "r->x X b", "s.w[1] X c", "*&a X b", "(a) X b", "*p++ X b", "*++p X b", "r->n->x X c", "*s.q X c", "a X b || c", "a X b == c", "a X -b"] { pk.add(&run(&t.replace('X', x))); } } }
    // unary and postfix operators against each other, every sequence up to three prefixes and two suffixes
    { let mut pk = Pack::new("C18/unary", 36, PRE18, &[Opts::DEFAULT], &[0], out);
        let pre = ["- ", "!", "~", "(char)", "(unsigned char)", "sizeof ", "+ "]; for n in 0..=(if th { 4 } else { 3 }) { seqs(n, pre.len(), &mut |q| { let s: String = q.iter().map(|i| pre[*i]).collect(); if s.contains("sizeof (") || s.contains("sizeof (char)") { return; } for base in ["a", "*p", "v[2]", "s.x", "r->x", "f(2)", "a++"] { if n == 3 && base != "a" && base != "v[2]" { continue; } if s.contains("sizeof") && base != "a" { continue; } pk.add(&run(&format!("{s}{base}"))); } }); }
        for e in ["*p++", "*++p", "*p--", "*--p", "++*p", "--*p", "(*p)++", "(*p)--", "*(p++)", "-*p++", "*p++ + *p++ * 0", "&*p == p", "*&a", "&v[1] - v", "&p[1] - &p[-1]", "*&*p", "-r->x", "!r->n->n->x", "*r->q", "*s.q++", "++s.x", "++r->x", "r->x++", "r->q[1]", "&r->x == &s.x", "&s.w[1] - s.w", "*s.w", "*(s.w + 1)", "s.w[1]", "(*r).x", "(&s)->x", "(*&s).x", "(r)->x", "(s).x", "(v)[1]", "(p)[0]", "(f)(1)", "(a)++", "((a)) = 4", "*(p) = 9", "f(f(a))", "g2(a, b)", "g2((a, b), c)", "g2(a = 4, b)", "g2(a ? b : c, d)", "f(a, b) * 0", "a ? b : c ? d : 1", "a ? b ? c : d : 1", "a ? b, c : d", "a || b && c", "a && b || c && d", "a - - b", "a - -b", "a+ +b", "a++ + b", "a--- b", "a+++b", "a---b", "a<<b<<c", "a>>b-c", "a<b<c", "a==b==c", "a<b==c<d", "a&b==c", "a|b^c&d", "a^b|c", "!a==b", "~a&b", "-a*-b", "a*b%c", "a%b*c", "a/b*c", "a-b-c", "a-(b-c)", "a/b/c", "a/(b/c)", "sizeof a + 1", "sizeof(a) + 1", "sizeof(a + 1)", "sizeof v", "sizeof *v", "sizeof v[0]", "sizeof &v", "sizeof(v) / sizeof(v[0])", "sizeof (a)++", "sizeof -a", "(char)300 + a", "(char)(300 + a)", "(char)a++", "(long)a << 33", "(a, b)", "(a, b, c)", "(a = b, a + c)", "a = b = c", "a = (b = c) + 1", "a = b == c", "a == (b = c)", "a = b ? c : d", "a = b, c", "a += b -= c", "1 ? 2 : 3 ? 4 : 5", "0 ? 2 : 0 ? 4 : 5", "a<b?a:b", "a>b?a>c?a:c:b>c?b:c", "-1 - 1", "2 - 3 - 4", "- - -a", "!!a", "~~a", "-~a", "~-a", "!-a", "3 * -2", "*p * *p", "a & &v[1] == p", "v[v[0] - 19]", "v[0][&v[1]] * 0", "1[v]", "\"abc\"[1]", "*\"xyz\"", "sizeof \"abc\"", "'a' + 1", "(\"ab\" \"cd\")[2]"] { if e.contains("f(a, b)") || e.contains("& &v") || e.contains("[&v") || e.contains("\" \"") || e.contains("a = b, c") { continue; } pk.add(&run(e)); }
        for s in ["a = b, c = d;", "int x = 1, y = x + 1; strtol(x * 10 + y);", "int *x = p, y = 3, **z = &x; strtol(**z + y);", "int x[2], *y = x, z = 4; x[0] = z; strtol(*y);", "a = 1; b = 2; ; ; c = 3;", "{ } { { } } a = 4;", "for (;;) { a = 5; break; }", "for (a = 0, b = 5; a < b; a++, b--) ;", "if (a) ; else b = 9;", "while (a = 0) ;", "do a = 6; while (0);", "l1: l2: a = 7;", "switch (a) { case 7: case 1: b = 9; default: ; }", "switch (a) case 7: b = 8;", "switch (a) { b = 5; case 7: b = 6; }", "if (a) if (b) a = 1; else a = 2;", "if (a < 5) if (b) a = 1; else a = 2; else a = 3;", "for (a = 0; a < 2; a++) if (a) b = 1; else b = 2;", "do if (a) a = 0; else b = 3; while (a);", "int x; int y; x = y = 5; strtol(x + y);", "const int x = 4; int const y = 5; strtol(x * y);", "return;", "(void)a; a;", "a; b + 1; \"str\"; 5;"] { pk.add(&format!("in(strlen(4000)); {s} sh();")); }
    }
    // else belongs to the nearest if: every statement without braces up to a depth
    fn trees(d: usize) -> Vec<String> { if d == 0 { return vec!["X;".into()]; } let sub = trees(d - 1); let mut o = vec!["X;".to_string()]; for s in &sub { o.push(format!("if (C) {s}")); o.push(format!("while (C) {s}")); o.push(format!("L: {s}")); if d <= 3 { o.push(format!("do {s} while (C);")); o.push(format!("for (; C; ) {s}")); } for t in if d >= 3 { &sub[..sub.len().min(8)] } else { &sub[..] } { o.push(format!("if (C) {s} else {t}")); } } o }
    { let mut pk = Pack::new("C18/else", 30, "", &[Opts::DEFAULT], &[0], out); for (i, s) in trees(if th { 3 } else { 2 }).iter().enumerate() {
        let mut o = String::new(); let (mut k, mut l) = (0, 0); for ch in s.chars() { match ch { 'X' => { k += 1; o += &format!("strlen({k})") } 'C' => o += "strlen(2000)", 'L' => { l += 1; o += &format!("l{l}") } c => o.push(c) } } let _ = i; pk.add(&format!("{o} strlen(99);")); } }
    // statements without braces nested three deep, with else in every position
    for (i, t) in ["if (C) if (C) X; else X;", "if (C) if (C) X; else if (C) X; else X;", "if (C) if (C) if (C) X; else X; else X;", "if (C) while (C) if (C) X; else X;", "if (C) for (; C; ) if (C) X; else X; else X;", "if (C) do if (C) X; else X; while (C); else X;", "if (C) { if (C) X; } else X;", "if (C) { if (C) X; else X; }", "if (C) l: if (C) X; else X;", "if (C) switch (D) case 0: if (C) X; else X;", "if (C) switch (D) { case 0: if (C) X; } else X;", "while (C) if (C) X; else break; X;", "if (C) if (C) ; else X;", "if (C) ; else if (C) ; else X;"].iter().enumerate() { let mut o = String::new(); let mut k = 0; for ch in t.chars() { match ch { 'X' => { k += 1; o += &format!("strlen({k})") } 'C' => o += "strlen(2000)", 'D' => o += "strlen(3000)", c => o.push(c) } } out(Case::new(format!("C18/dangling/{i}"), prog("", &format!("{o} strlen(99);"))).opts(&two()).seeds(&[0, 1, 2])); }
    // declarators: every nesting of pointer and array up to a depth, in every place a declarator can stand
    let mut decls: Vec<String> = vec!["@".into()]; let mut all: Vec<String> = vec![];
    for _ in 0..(if th { 4 } else { 3 }) { let mut nx = vec![]; for d in &decls { nx.push(if d.ends_with(']') { format!("({d})[2]").replacen("(", "", 1).replacen(")", "", 1) } else { format!("({d})[3]") }); nx.push(format!("*{d}")); if d.starts_with('*') { nx.push(format!("({d})[2]")); } if d.ends_with(']') { nx.push(format!("*({d})")); } } nx.sort(); nx.dedup(); all.extend(nx.clone()); decls = nx; }
    all.sort(); all.dedup();
    for t in if th { &TYS[..] } else { &TYS[4..8] } { let c = t.c; let mut pk = Pack::new(&format!("C18/decl/{}", t.id), 12, "", &[Opts::DEFAULT], &[0], out);
        for d in &all { let dx = d.replace("(@)", "@").replace('@', "x");
            let depth = d.matches('*').count() + d.matches('[').count();
            let mut probes = String::new(); let mut e = "x".to_string();
            for _ in 0..=depth { probes += &format!("strtol(sizeof({e})); "); e = format!("{e}[0]"); }
            let mut e = "x".to_string(); for _ in 0..depth { probes += &format!("strtol(sizeof(*{e})); strtol(sizeof(*&{e})); "); e = format!("(*{e})"); }
            pk.add(&format!("{c} {dx}; {probes} strtol((char *)(&x + 1) - (char *)&x);"));
            pk.add(&format!("typedef {c} {}; T1 x; T1 *y; {probes} strtol(sizeof *y); strtol(sizeof(T1));", d.replace("(@)", "@").replace('@', "T1")).replace("T1", &format!("T{}", pk_id(d, c))));
            pk.add(&format!("struct Q {{ char h; {c} {dx}; char t; }} q; strtol(sizeof q.x); strtol((char *)&q.t - (char *)&q.x >= sizeof q.x);"));
        } }
    let fd: [(&str, &str); 16] = [("int *f1(int *x) { return x + 1; }\n", "int a[2] = {3, 4}; strtol(*f1(a)); strtol(f1(a)[0]);"), ("int (*f1(int (*x)[2]))[2] { return x + 1; }\n", "int m[2][2] = {{1, 2}, {3, 4}}; strtol((*f1(m))[1]); strtol(f1(m)[0][0]);"), ("int f1(int x[]) { return x[1]; }\n", "int a[2] = {3, 4}; strtol(f1(a));"), ("int f1(int x[5]) { strtol(sizeof x); return x[1]; }\n", "int a[2] = {3, 4}; strtol(f1(a));"), ("int f1(int x[][2]) { return x[1][1]; }\n", "int m[2][2] = {{1, 2}, {3, 4}}; strtol(f1(m));"), ("int f1(int (*x)[2]) { return x[1][0]; }\n", "int m[2][2] = {{1, 2}, {3, 4}}; strtol(f1(m));"), ("int f1(int **x) { return **x; }\n", "int a = 5; int *q = &a; strtol(f1(&q));"), ("int f1(int *x[]) { return *x[1]; }\n", "int a = 5; int b = 6; int *q[2]; q[0] = &a; q[1] = &b; strtol(f1(q));"), ("int f1(int);\nint f1(int x) { return x + 1; }\n", "strtol(f1(4));"), ("int f1(int *);\nint f1(int *x) { return *x; }\n", "int a = 4; strtol(f1(&a));"), ("int (f1)(int x) { return x + 2; }\n", "strtol(f1(4));"), ("int f1(void), g1;\nint f1(void) { return g1; }\n", "g1 = 8; strtol(f1());"), ("struct S { int x; } f1(int a) { struct S s; s.x = a; return s; }\n", "struct S z; z = f1(6); strtol(z.x);"), ("int a1, *b1 = &a1, c1[3], *d1[2], (*e1)[3] = &c1;\n", "a1 = 4; strtol(*b1); (*e1)[1] = 6; strtol(c1[1]); d1[1] = b1; strtol(*d1[1]);"), ("typedef int I, *no;\n", ""), ("typedef int *PI;\ntypedef PI PA[2];\n", "int x = 3; PA a; a[1] = &x; strtol(*a[1]); const PI q = &x; *q = 4; strtol(x);")];
    for (i, (g, b)) in fd.iter().enumerate() { if i == 14 { continue; } out(Case::new(format!("C18/fdecl/{i}"), prog(g, b)).opts(&two())); }
    // declaration specifiers: every sequence up to four words
    let sp = ["char", "short", "int", "long", "signed", "unsigned", "float", "double", "const"];
    for n in 1..=(if th { 4 } else { 3 }) { let mut k = 0; seqs(n, sp.len(), &mut |s| { k += 1; let t = s.iter().map(|i| sp[*i]).collect::<Vec<_>>().join(" "); out(Case::new(format!("C18/spec{n}/{k}"), prog("", &format!("{t} x = 1; strtol(sizeof x); strtol((x - 2) * 1 < 0); strtol(sizeof({t})); strtol(({t})200 > 0); strtoul(({t})1.5);"))).kind(Kind::Either)); }); }
    // typedef names
    for (i, (g, b)) in [("typedef int T;\n", "T x = 3; T *p = &x; strtol(*p); strtol(sizeof(T)); strtol((T)3.9); T y = x, z = (T)y; strtol(y + z);"), ("typedef struct { int x; char c; } T;\nT gt;\n", "T a; T *p = &a; p->x = 4; gt = *p; strtol(gt.x); strtol(sizeof(T));"), ("typedef struct N { int v; struct N *n; } N1;\n", "N1 a; N1 b; a.n = &b; b.v = 6; strtol(a.n->v); struct N c = a; strtol(c.n == &b);"), ("typedef unsigned char byte;\ntypedef byte *str;\ntypedef str strs[2];\n", "byte b = 255; str s = &b; strs v; v[1] = s; b++; strtol(*v[1]); b--; strtol(*v[1]);"), ("typedef int A[3];\n", "A a = {1, 2, 3}; A m[2]; A *p = &a; m[1][2] = 5; strtol(a[2] + m[1][2]); strtol((*p)[1]); strtol(sizeof(A)); strtol(sizeof m);"), ("typedef enum { X1, Y1 = 4 } E;\n", "E e = Y1; strtol(e + X1); strtol(sizeof(E));"), ("typedef int T;\nT f(T a) { return a; }\nT *g(T *a) { return a; }\n", "T x = 2; strtol(f(x)); strtol(*g(&x));"), ("typedef int T;\ntypedef T U;\ntypedef U *V;\n", "U x = 5; V v = &x; strtol(*v);"), ("", "typedef long L; L x = 1; x = x << 40; strtol(x); { typedef char C; C c = 300; strtol(c); }"), ("typedef int word_t;\n", "word_t word = 3; int word_tx = 4; word_t wordt = 5; strtol(word + word_tx * wordt);"), ("typedef union { int i; char c[4]; } U;\n", "U u; u.i = 513; strtol(u.c[1]);"), ("typedef int T;\n", "int a = 5; T b = (T)a * (T)+2 - (T)-1; strtol(b); strtol((T)a + 1); strtol(sizeof(T) * 2); for (T i = 0; i < 2; i++) strtol(i);"), ("typedef int *P;\n", "int x = 1; P a = &x, b = a; *b = 2; strtol(*a); strtol(sizeof(P *)); const P c = a; strtol(*c);"), ("typedef char a1; typedef short b2; typedef long c3;\n", "a1 x; b2 y; c3 z; strtol(sizeof x + sizeof y * 10 + sizeof z * 100);"), ("typedef int T; T x = 3; T y;\n", "y = x; strtol(y);"), ("typedef float F; typedef double D;\n", "F f = 1.5; D d = f; strtoul(d + (F)2);"), ("int typedef I;\n", "I x = 3; strtol(x);")].iter().enumerate() { if *b == "I x = 3; strtol(x);" { out(Case::new(format!("C18/typedef/{i}"), prog(g, b)).kind(Kind::Total)); continue; } out(Case::new(format!("C18/typedef/{i}"), prog(g, b)).opts(&two()).seeds(&[0, 1])); }
    // white space: the same tokens separated in every way
    let seps: [(&str, &dyn Fn(&str) -> String); 7] = [("nl", &|s| s.replace(' ', "\n")), ("tab", &|s| s.replace(' ', "\t")), ("wide", &|s| s.replace(' ', "  \n\t ")), ("crlf", &|s| s.replace('\n', "\r\n")), ("ff", &|s| s.replace(' ', " \x0c ")), ("tight", &|s| tighten(s)), ("spread", &|s| spread(s))];
    for k in 0..FEATURES.len() { let (g, b) = feature(k, "k"); let p = prog(&g, &b); for (n, f) in &seps { let q = f(&p); out(Case::new(format!("C18/space/{k}/{n}"), q)); } }
    // redundant parentheses and braces
    for k in 0..FEATURES.len() { let (g, b) = feature(k, "k"); for (n, q) in [("braces", format!("{{ {{ {b} }} }}")), ("semi", b.replace("; ", "; ; "))] { if n == "semi" && (b.contains("for (") || b.contains("else") || b.contains("do ")) { continue; } out(Case::new(format!("C18/redundant/{k}/{n}"), prog(&g, &q))); } let q = b.replace("strtol(", "strtol((").replace("strtoul(", "strtoul(("); if let Some(q) = close(&q) { out(Case::new(format!("C18/redundant/{k}/par"), prog(&g, &q))); } }
}
/// a number that tells typedef names of one program apart
fn pk_id(d: &str, c: &str) -> u64 { let mut h = 7u64; for b in d.bytes().chain(c.bytes()) { h = (h.wrapping_mul(131) + b as u64) % 1_000_003; } h }
/// adds the parenthesis that closes every doubled one
fn close(s: &str) -> Option<String> { let mut o = String::new(); let b = s.as_bytes(); let mut st: Vec<bool> = vec![]; let mut i = 0; while i < b.len() { let c = b[i] as char; if c == '"' || c == '\'' { let q = b[i]; o.push(c); i += 1; while i < b.len() && b[i] != q { o.push(b[i] as char); i += 1; } o.push(q as char); i += 1; continue; } if c == '(' { if s[i..].starts_with("((") && (o.ends_with("strtol") || o.ends_with("strtoul")) { st.push(true); o.push_str("(("); i += 2; continue; } st.push(false); } if c == ')' { if st.pop()? { o.push(')'); } } o.push(c); i += 1; } if st.is_empty() { Some(o) } else { None } }
fn toks(s: &str) -> Vec<String> { let b = s.as_bytes(); let mut v: Vec<String> = vec![]; let mut i = 0; while i < b.len() { if b[i].is_ascii_whitespace() { i += 1; continue; } let st = i; if b[i].is_ascii_alphanumeric() || b[i] == b'_' { while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'.' && b[st].is_ascii_digit()) { i += 1; } } else if b[i] == b'"' || b[i] == b'\'' { let q = b[i]; i += 1; while b[i] != q { if b[i] == b'\\' { i += 1; } i += 1; } i += 1; } else { let ps = ["...", "<<=", ">>=", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|="]; i += ps.iter().find(|p| s[st..].starts_with(**p)).map(|p| p.len()).unwrap_or(1); } v.push(s[st..i].to_string()); } v }
fn spread(s: &str) -> String { toks(s).join("\n") }
fn tighten(s: &str) -> String { let mut o = String::new(); for t in toks(s) { let w = |c: char| c.is_ascii_alphanumeric() || c == '_'; let (a, b) = (o.chars().last().unwrap_or(' '), t.chars().next().unwrap()); if w(a) && w(b) || (a == b && "+-&|<>=".contains(a)) || (a == '.' || b == '.') && (a.is_ascii_digit() || b.is_ascii_digit()) || "+-*/%<>=!&|^".contains(a) && "=->&|+".contains(b) { o.push(' '); } o += &t; } o }

pub fn literals(th: bool, out: Sink) {
    let d = [Opts::DEFAULT];
    let probe = |l: &str| format!("strtol({l}); strtol(sizeof({l})); strtol(({l}) * 0 - 1 < 0); strtol(-{l}); strtoul({l});");
    // integer constants in every base around every power of two, and every short spelling
    { let mut pk = Pack::new("C19/int", 40, "", &d, &[0], out); for k in 0..=64u32 { for dlt in [-1i128, 0, 1] { let v = (1i128 << k) + dlt; if v < 0 || v > u64::MAX as i128 { continue; } let v = v as u64; if v <= i64::MAX as u64 { pk.add(&probe(&format!("{v}"))); } for s in [format!("0x{v:x}"), format!("0X{v:X}"), format!("0{v:o}"), format!("0x00{v:x}"), format!("000{v:o}")] { pk.add(&probe(&s)); } if th { pk.add(&probe(&format!("0b{v:b}"))); } } } }
    { let mut pk = Pack::new("C19/short", 60, "", &d, &[0], out); for v in 0..=(if th { 1100 } else { 300 }) { pk.add(&format!("strtol({v}); strtol(0{v:o}); strtol(0x{v:x}); strtol(0X{v:X});")); } for a in "0123456789abcdefABCDEF".chars() { for b in "0123456789abcdefABCDEF".chars() { pk.add(&format!("strtol(0x{a}{b}); strtol(0X{a}{b});")); } } }
    // floating constants of every shape
    { let mut pk = Pack::new("C19/float", 50, "", &d, &[0], out);
        for i in ["", "0", "1", "12", "007", "08", "190", "340282346638528859811704183484516925440"] { for f in ["", "0", "5", "25", "125", "1", "999999999999999999", "00000000000000000001"] { for e in ["", "e0", "e1", "E2", "e+3", "e-4", "E+05", "e-06", "e30", "e-30"] { for dot in [true, false] {
            if (i.is_empty() && f.is_empty()) || (!dot && (!f.is_empty() || e.is_empty() || i.is_empty())) { continue; }
            let l = if dot { format!("{i}.{f}{e}") } else { format!("{i}{e}") };
            pk.add(&format!("strtoul({l}); float x = {l}; strtoul(x); strtol(sizeof({l}));"));
        } } } }
    }
    // character constants: every character, every escape
    { let mut pk = Pack::new("C19/char", 50, "", &d, &[0], out);
        for c in 32..127u8 { let c = c as char; if c == '\'' || c == '\\' { continue; } pk.add(&format!("strtol('{c}'); strtol(sizeof('{c}')); char x = '{c}'; strtol(x);")); }
        for c in "'\"?\\abfnrtv".chars() { pk.add(&format!("strtol('\\{c}'); char x = '\\{c}'; strtol(x); strtol(\"\\{c}\"[0]); strtol(\"\\{c}\"[1]);")); }
        for v in 0..256u32 { for s in [format!("\\{v:o}"), format!("\\{v:03o}"), format!("\\x{v:x}"), format!("\\x{v:02X}")] { pk.add(&format!("strtol('{s}'); char x = '{s}'; strtol(x); unsigned char y = '{s}'; strtol(y); strtol(\"{s}\"[0]); strtol(sizeof(\"{s}\"));")); } }
    }
    // strings: every escape followed by every kind of character, and their lengths
    { let mut pk = Pack::new("C19/string", 40, "", &d, &[0], out);
        let escs = ["\\0", "\\1", "\\12", "\\123", "\\377", "\\x1", "\\x1f", "\\xff", "\\n", "\\\\", "\\\"", "\\'", "\\?", "a", " ", "'", "%", "\\08", "//", "/*", "\\x0"];
        for a in escs { for b in ["0", "7", "8", "9", "a", "f", "g", "G", "n", "x", "\\", "", " ", "\\\"", "\\0", "'"] { let b = if b == "\\" { "\\\\" } else { b }; if a.starts_with("\\x") && b.chars().next().is_some_and(|c| c.is_ascii_hexdigit()) && a.len() == 4 { continue; }
            let s = format!("\"{a}{b}z\""); pk.add(&format!("char s[] = {s}; char *q = {s}; int k; strtol(sizeof s); strtol(sizeof({s})); for (k = 0; k < sizeof s; k++) {{ strtol(s[k]); strtol(q[k]); }}")); } }
    }
    // high bytes and other text inside literals
    for (i, s) in ["\u{e9}", "\u{20ac}", "\u{1f600}", "\t", "\u{7f}", "a\u{e9}b", "?\u{3f}="].iter().enumerate() { out(Case::new(format!("C19/utf8/{i}"), prog("", &format!("char s[] = \"{s}\"; char *p = \"{s}\"; int k; strtol(sizeof s); for (k = 0; k < sizeof s; k++) {{ strtol(s[k]); strtol(p[k]); }}")))); }
    // malformed and well-formed spellings of constants: every string over a small alphabet
    let al = ["0", "1", "8", "a", "e", "x", "b", ".", "+", "f", "_"];
    for n in 1..=(if th { 5 } else { 4 }) { let mut k = 0; seqs(n, al.len(), &mut |s| { k += 1; if !matches!(al[s[0]], "0" | "1" | "8" | ".") { return; } if n >= 4 && !th && s[1..].iter().filter(|i| matches!(al[**i], "e" | "x" | "b" | "." | "+")).count() < 2 { return; } if n == 5 && s[1..].iter().filter(|i| matches!(al[**i], "e" | "x" | "b" | "." | "+")).count() < 3 { return; } let l: String = s.iter().map(|i| al[*i]).collect(); if suffixed(&l) || l.contains('.') && l.contains('x') { return; } out(Case::new(format!("C19/tok{n}/{k}"), prog("", &format!("strtoul({l});"))).kind(Kind::Either)); }); }
    for (i, l) in ["''", "'", "'a", "'\\", "'\\'", "'\\x'", "'\\q'", "'\\8'", "\"", "\"a", "\"\\\"", "\"\\x\"", "\"\\q\"", "\"\\9\"", "0x", "0X", "0b", "0b2", "08", "09", "018", "0xg", "1e", "1e+", "1.5e", "1.5e-", ".", "..", ".e1", "e1", "1.2.3", "1..2", "0x1.8", "0x1p3", "1x", "1_000", "99999999999999999999", "0x10000000000000000", "02000000000000000000000", "18446744073709551616", "1e400", "\"a\nb\"", "'\n'", "'\\xfff'", "\"\\777\"", "@", "$", "`", "\\", "#", "1 2", "a b", "0 x1", "1 e5", "1. 5"].iter().enumerate() {
        if matches!(*l, "1e400" | "'\\xfff'" | "\"\\777\"") { out(Case::new(format!("C19/bad/{i}"), prog("", &format!("strtol({l});"))).kind(Kind::Total)); continue; }
        out(Case::new(format!("C19/bad/{i}"), prog("", &format!("strtol({l});"))).kind(Kind::Reject)); out(Case::new(format!("C19/badg/{i}"), prog(&format!("char *g = {l};\n"), "")).kind(Kind::Reject)); }
    // longest match: every string of operator characters between two operands
    let oc = ["+", "-", "&", "|", "<", ">", "=", "!", "*", "/", "%", "^", "~", "?", ":", ".", ","];
    for n in 1..=(if th { 4 } else { 3 }) { let mut k = 0; seqs(n, oc.len(), &mut |s| { k += 1; let l: String = s.iter().map(|i| oc[*i]).collect(); if l.contains("//") || l.contains("/*") { return; } if n == 3 && !th && s.iter().any(|i| matches!(oc[*i], "~" | "?" | ":" | "." | "," | "%" | "^" | "/")) { return; } if n == 4 && s.iter().any(|i| *i >= 9) { return; } out(Case::new(format!("C19/munch{n}/{k}"), prog("", &format!("int a = 7; int b = 3; int *p = &b; strtol(a{l}b); strtol(a); strtol(b);"))).kind(Kind::Either)); if n <= 2 { if !l.ends_with('/') { out(Case::new(format!("C19/munchp{n}/{k}"), prog("", &format!("int v[3] = {{4, 5, 6}}; int a = 7; int *p = v + 1; strtol(a{l}p[0]); strtol(p - v); strtol(a{l}*p);"))).kind(Kind::Either)); } } }); }
    for (i, (s, ok)) in [("int a = 1; a+++a;", true), ("int x1 = 5; strtol(x1);", true), ("int _ = 4; strtol(_);", true), ("int int1 = 6; strtol(int1);", true), ("int ifx = 6; if(ifx)strtol(ifx);", true), ("int returnx = 6; strtol(returnx);", true), ("int a=1;int b=2;strtol(a?b:a);", true), ("int x=1;strtol(x<-1);strtol(x>-1);strtol(x<<1);", true), ("intx = 5;", false), ("int 1x = 5;", false), ("int a b;", false), ("float f=.5;strtoul(f);strtoul(1.+.5);strtoul(1-.5);", true), ("int v[2];v[0]=1;strtol(v[0]);int*p=v;strtol(*p);", true), ("int a=6;int b=2;int*p=&b;strtol(a/ *p);", true), ("int a=5;strtol(a-- -1);strtol(a---1);", true), ("int a=5;strtol(- -a);strtol(-(-a));", true), ("int a=5;strtol(!-~a);", true), ("int a = 5; a =+ 3; strtol(a); a =- 3; strtol(a); int *p = &a; int b; b =*p; strtol(b);", true), ("struct S { int e1; } s; s.e1 = 4; strtol(s.e1); struct S*q=&s;strtol(q->e1);", true), ("int e = 3; int x = 2; strtol(1-e); strtol(0*x); strtol(2+e+1);", true)].iter().enumerate() { if *s == "int a = 1; a+++a;" { continue; } out(Case::new(format!("C19/adjacent/{i}"), prog("", s)).kind(if *ok { Kind::Behave } else { Kind::Reject })); }
}
/// spellings with a suffix, which the compiler does not offer
fn suffixed(l: &str) -> bool { l.ends_with('f') && !l.starts_with("0x") }

pub fn scopes(th: bool, out: Sink) {
    // a name declared in any subset of the nested scopes, as any kind of thing, used at every point
    let kinds = ["", "int x = K;", "char x[3]; x[0] = K;", "enum { x = K };", "double x = K;", "struct x { char c[K]; };"];
    let m = if th { 6 } else { 5 };
    let glob = ["", "int x = 1;\n", "char x[3] = {1};\n", "enum { x = 1 };\n", "double x = 1;\n", "struct x { char c[1]; };\n"];
    let par = ["", "int x", "char *x", "double x"];
    for g in 0..m { for p in 0..par.len() { for l in 0..m { for i in 0..m { for a in if th { 0..3 } else { 0..1 } {
        if p > 0 && l > 0 && l != 5 && !th { continue; }
        let u = |t: &str| format!("strlen({t}); strtol(sizeof(x)); ");
        let val = |k: usize, gk: usize| match k { 1 | 3 => "strtol(x); ", 2 => "strtol(x[0]); ", 4 => "strtoul(x); ", 5 => "strtol(sizeof(struct x)); ", _ => match gk { 1 | 3 => "strtol(x); ", 2 => "strtol(x[0]); ", 4 => "strtoul(x); ", _ => "" } };
        let body = format!("{} {}{} {{ {} {}{} {} }} {}{}", kinds[l].replace('K', "12"), if l == 5 { String::new() } else { u("1") }, val(l, if p > 0 { [0, 1, 2, 4][p] } else { g }), if a == 1 { u("2") + val(l, g) } else { String::new() }, kinds[i].replace('K', "23"), if i == 5 { String::new() } else { u("3") }, if i > 0 { val(i, 0) } else { "" }, if a == 2 { String::new() } else { u("4") }, if a == 2 { val(l, g) } else { "" });
        out(Case::new(format!("C26/nest/{g}{p}{l}{i}{a}"), format!("{PRE}{}void f({}) {{ {body} }}\nint main() {{ {} {} return 0; }}\n", glob[g], par[p], if p == 2 { "char q[2]; q[0] = 9; f(q);" } else if p > 0 { "f(6);" } else { "f();" }, if g > 0 && g != 5 { "strtol(sizeof(x));" } else { "" })).kind(Kind::Either));
    } } } } }
    // variables called the same at every combination of levels, written and read at every level
    for mask in 0..64u32 { for st in ["", "if (strlen(2000)) ", "while (strlen(2000)) ", "for (int k = 0; k < 2; k++) ", "switch (strlen(2000)) case 0: ", "do "] {
        let d = |b: u32, v: u32| if mask >> b & 1 == 1 { format!("int x = {v};") } else { format!("x = x + {v};") };
        let body = format!("{} strtol(x); {st}{{ {} strtol(x); {{ {} strtol(x); }} strtol(x); x = x ^ 64; }} {} strtol(x); {{ {} strtol(x); }} strtol(x);", d(0, 10), d(1, 20), d(2, 30), if st == "do " { "while (strlen(2000));" } else { "" }, d(3, 40));
        out(Case::new(format!("C26/levels/{mask}/{}", st.len()), prog(&format!("int x = 1;\nint get() {{ return x; }}\nvoid use({}) {{ {} strtol(x); }}\n", if mask >> 4 & 1 == 1 { "int x" } else { "int y" }, if mask >> 5 & 1 == 1 { "{ char x = 77; strtol(x); }" } else { "" }), &format!("{} use(5); strtol(get());", body.replace("x = x + 10", "x = (x + 10) & 255").replace("x = x + 20", "x = (x + 20) & 255").replace("x = x + 30", "x = (x + 30) & 255").replace("x = x + 40", "x = (x + 40) & 255")))).opts(if th { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
    } }
    // declarations in for clauses, redeclared in the body and after the loop, for every type pair
    for a in TYS { for b in TYS { if !th && (a.d + b.d) % 2 == 1 { continue; }
        out(Case::new(format!("C26/for/{}/{}", a.id, b.id), prog("", &format!("{} i = 9; for ({} i = 0; i < 2; i++) {{ {} i; i = 5; {} }} {} for ({} i = 1, j = 2; i < j; i++) {{ {} {} i2 = i; {} }} {}", a.c, b.c, rec("i", b.fp()), format!("{{ {} i = 7; {} }}", a.c, rec("i", a.fp())), rec("i", a.fp()), a.c, rec("i", a.fp()), b.c, rec("i2", b.fp()), rec("i", a.fp()))))); } }
    // the four name spaces, tags, labels, prototypes, order of declaration and use: accepted and rejected
    let cs: [(&str, &str); 62] = [
        ("", "int x = 1; x: x++; if (x < 3) goto x; strtol(x);"), ("struct x { int x; };\n", "struct x x; x.x = 4; goto x; x: strtol(x.x);"), ("struct S { int a; };\nstruct T { char a; long b; };\n", "struct S a; struct T b; a.a = 1; b.a = 2; b.b = 3; strtol(a.a + b.a * 10 + b.b * 100);"), ("struct S { int x; };\n", "struct S { char y; }; struct S s; s.y = 3; strtol(sizeof s);"), ("struct S { int x; };\n", "{ struct S { char y; }; struct S s; s.y = 3; strtol(sizeof s); } struct S t; t.x = 4; strtol(sizeof t);"), ("int f(int f) { return f + 1; }\n", "strtol(f(3));"), ("int f() { return 3; }\n", "int f2 = f(); { int f = 5; strtol(f); } strtol(f()); strtol(f2);"), ("int f(int a, int b);\nint f(int x, int y) { return x - y; }\n", "strtol(f(5, 3));"), ("int a = 1;\nint f() { return a; }\nint b = 2;\n", "int a = 5; strtol(f()); strtol(a + b);"), ("enum A { P, Q };\n", "enum B { Q = 7, R }; strtol(P); strtol(Q); strtol(R);"),
        ("enum A { P = 3 };\n", "{ enum { P = 8 }; strtol(P); } strtol(P); { int P = 9; strtol(P); } strtol(P);"), ("", "{ int x = 3; } strtol(x);"), ("", "for (int i = 0; i < 1; i++) ; strtol(i);"), ("", "strtol(x); int x = 1;"), ("int f() { return later; }\nint later;\n", "strtol(f());"), ("int f() { return later(); }\nint later() { return 1; }\n", "strtol(f());"), ("", "if (1) { int y = 2; } y = 3;"), ("int f(int p) { return p; }\n", "strtol(p);"), ("int f() { int q = 1; return q; }\n", "strtol(q);"), ("", "int x = 1; int x = 2; strtol(x);"),
        ("", "int x = 1; char x; strtol(x);"), ("", "int x = 1; { int x = 2; int x = 3; }"), ("int f(int a) { int a = 1; return a; }\n", "strtol(f(2));"), ("int f(int a, int a) { return a; }\n", "strtol(f(2, 3));"), ("int f(int a) { { int a = 1; strtol(a); } return a; }\n", "strtol(f(2));"), ("", "enum { A, A };"), ("", "enum { A }; int A = 3; strtol(A);"), ("", "struct S { int x; }; struct S { int y; };"), ("struct S { int x; int x; };\n", ""), ("", "struct S { int x; }; union S { int y; } u;"),
        ("", "goto l; { l: strlen(1); } strlen(2);"), ("void f() { l: strlen(1); }\n", "goto l;"), ("void f() { goto l; l: strlen(1); }\n", "f(); goto l; strlen(3); l: strlen(2);"), ("", "l: strlen(1); l: strlen(2);"), ("", "{ l: strlen(1); } { l: strlen(2); }"), ("", "goto nowhere;"), ("int x = 3;\n", "int y = x; int x = 4; strtol(y); strtol(x);"), ("int x = 3;\n", "char x[sizeof(x) + 1]; strtol(sizeof x);"), ("int x = 3;\n", "int x = sizeof(x); strtol(x);"), ("struct S { int a; } x;\n", "x.a = 2; struct { char b; } x; x.b = 3; strtol(sizeof x);"),
        ("int n;\nstruct S { int n; struct S *s; };\n", "struct S a; a.n = 3; n = 4; a.s = &a; strtol(a.s->n); strtol(n);"), ("", "struct S; struct S *p = 0; strtol(p == 0);"), ("", "struct U *p = 0; strtol(p == 0);"), ("", "struct U x;"), ("struct S { struct S s; };\n", ""), ("int g;\nvoid f(int g) { g = 5; }\n", "g = 1; f(2); strtol(g);"), ("int g;\nvoid f() { int g; g = 5; }\n", "g = 1; f(); strtol(g);"), ("int g;\nvoid f() { g = 5; }\n", "int g = 1; f(); strtol(g); { strtol(g); }"), ("void f() { undeclared(); }\n", ""), ("", "undeclared = 3;"),
        ("", "int y = undeclared;"), ("", "struct T { int x; } s; s.y = 1;"), ("", "int s; s.x = 1;"), ("", "int s; s->x = 1;"), ("", "struct T { int x; } s; s->x = 1;"), ("", "struct T { int x; } s; struct T *p = &s; p.x = 1;"), ("typedef int T;\n", "{ typedef char U; U u = 3; strtol(sizeof u); } T t; strtol(sizeof t);"), ("", "{ typedef char U; } U u;"), ("", "switch (1) { int x; case 1: x = 4; strtol(x); }"), ("", "switch (strlen(2000)) { case 0: { int x = 1; strtol(x); break; } case 1: { long x = 2; strtol(x); } }"), ("", "int i = 5; for (int i = 0; i < 1; i++) { int i = 7; strtol(i); } strtol(i);"), ("", "int x = 2; { x = 3; int x = 4; x = 5; strtol(x); } strtol(x);")];
    for (i, (g, b)) in cs.iter().enumerate() { out(Case::new(format!("C26/space/{i}"), prog(g, b)).opts(&two()).seeds(&[0, 1]).kind(Kind::Either)); }
    // declarations that control jumps over or past, for every type, then read behind a test or assigned
    let mut tys: Vec<(&str, &str, &str, bool)> = TYS.iter().map(|t| (t.c, "", "x", t.fp())).collect(); tys.push(("struct S", "", "x.b", false)); tys.push(("int", "[3]", "x[1]", false)); tys.push(("char", "*", "*x", false));
    for (k, (t, sfx, use_, fp)) in tys.iter().enumerate() { let p = *sfx == "*";
        let (dn, di) = if p { (format!("{t} *x;"), format!("{t} *x = &gc;")) } else { (format!("{t} x{sfx};"), format!("{t} x{sfx} = {};", if k >= 10 { "{1, 2}" } else { "3" })) };
        let r = rec(use_, *fp); let set = match k { 10 => "x.b = 7; x.a = 1;".into(), 11 => "x[1] = 7; x[0] = x[1];".into(), 12 => "x = &gc;".into(), _ => "x = 7;".to_string() };
        for (j, d) in [dn, di].iter().enumerate() { for (f, form) in ["goto L; D L: USE", "switch (strlen(2000)) { D case 0: USE break; case 1: USE }", "goto L; { D L: USE }", "while (strlen(2000)) { if (strlen(2000)) goto L; D strlen(3); L: USE }", "{ return 0; D USE }", "if (strlen(2000)) { goto L; } D USE L: USE", "for (int i = 0; i < 2; i++) { if (i) goto L; D SET L: strlen(i); }", "do { D USE } while (0);"].iter().enumerate() {
            for (u, us) in [format!("if (strlen(2000)) {{ {r} }}"), format!("{set} {r}"), format!("if (strlen(2000)) {{ {set} {r} }} else strlen(9);"), format!("strlen(sizeof(x)); {set} {{ {r} }} {r}")].iter().enumerate() {
                out(Case::new(format!("C26/jump/{k}/{j}/{f}/{u}"), prog("struct S { int a; int b; };\nchar gc = 5;\n", &form.replace('D', d).replace("USE", us).replace("SET", &set))).opts(&two())); } } } }
    // a variable in its own initialiser
    for (i, (g, b)) in [("", "void *p = &p; strtol(p == (void *)&p);"), ("void *p = &p;\n", "strtol(p == (void *)&p);"), ("struct N { int v; struct N *n; };\nstruct N n = {3, &n};\n", "strtol(n.n->v); struct N m = {4, &m}; strtol(m.n->n->v);"), ("int f(int *p) { *p = 7; return 1; }\n", "int x = f(&x) + x; strtol(x);"), ("int f(int *p) { *p = 7; return 1; }\n", "int x = (f(&x), x); strtol(x);"), ("", "int n = sizeof n; strtol(n); long m = sizeof(m); strtol(m); char c[3] = {sizeof c, sizeof(c[0])}; strtol(c[0] * 10 + c[1]);"), ("", "int x = 3; { int x = x = 4; strtol(x); } strtol(x);"), ("", "int x = 3; { char x = sizeof x; strtol(x); } strtol(x);"), ("int x = 3;\n", "double x = sizeof x; strtoul(x);"), ("", "int a = 1, b = a + 1, *p = &b, **q = &p; strtol(**q + a);"), ("int a = 1, *p = &a, **q = &p;\n", "strtol(**q);"), ("enum { E = 3 };\n", "enum { F = E + 1, E = F * 2, G }; strtol(E); strtol(G);"), ("", "for (int i = 0, *p = &i; *p < 3; ++*p) strtol(i);"), ("", "int v[2] = {1, (int)sizeof v}; strtol(v[1]);")].iter().enumerate() { out(Case::new(format!("C26/own/{i}"), prog(g, b)).opts(&two()).seeds(&[0, 1])); }
    // tags and typedef names that are the same
    for (i, (g, b)) in [("typedef struct S S;\nstruct S { int v; S *n; };\n", "S a; struct S b = {2, &a}; a.v = 1; a.n = &b; strtol(a.n->v * 10 + b.n->v);"), ("typedef struct S { int v; } S;\n", "S a = {3}; struct S b = a; strtol(b.v + sizeof(S) + sizeof(struct S));"), ("typedef union U { int v; char c; } U;\n", "U a; a.v = 66; union U b = a; strtol(b.c);"), ("typedef enum E { A, B = 4 } E;\n", "E a = B; enum E b = a; strtol(b);"), ("typedef int S;\nstruct S { char c; };\n", "strtol(sizeof(S) * 10 + sizeof(struct S)); S s = 4; struct S t = {5}; strtol(s + t.c);"), ("typedef struct S S;\nint len(S *p);\nstruct S { S *n; int v; };\nint len(S *p) { return p ? 1 + len(p->n) : 0; }\n", "S a = {0, 1}; S b = {&a, 2}; strtol(len(&b));"), ("typedef struct S S, *P;\n", ""), ("typedef struct A A;\ntypedef struct B B;\nstruct A { B *b; };\nstruct B { A *a; int v; };\n", "A a; B b = {&a, 6}; a.b = &b; strtol(a.b->a->b->v);"), ("typedef struct T { long l; } T;\n", "{ struct T { char c; }; strtol(sizeof(T) * 10 + sizeof(struct T)); } strtol(sizeof(struct T));"), ("struct S { int a; };\ntypedef struct S S;\n", "S s = {4}; struct S *p = &s; S *q = p; strtol(q->a);")].iter().enumerate() { if i == 6 { continue; } out(Case::new(format!("C26/same/{i}"), prog(g, b)).opts(&two()).seeds(&[0, 1])); }
    // tags of every kind, defined in any two or three of the nested scopes
    let tg = ["", "struct S { int x; char c[#]; };", "union S { int x; char c[2#]; };", "enum S { E# = # };", "struct S; struct S *p#;", "typedef struct S { long l; } T#;"];
    let us = ["", "strtol(sizeof(struct S));", "strtol(sizeof(union S));", "strtol(E#);", "struct S *q#; q# = 0; strtol(q# == 0);", "{ T# v; strtol(sizeof v); }"];
    for a in 0..6 { for b in 0..6 { for c in 0..6 { for u in [true, false] { if u && a + b + c == 0 { continue; }
        let d = |k: usize, n: &str| tg[k].replace('#', n); let w = |k: usize, n: &str| us[k].replace('#', n);
        out(Case::new(format!("C26/tags/{a}{b}{c}{u}"), prog(&d(a, "1"), &format!("{} {{ {} {} {} }} {}", d(b, "2"), d(c, "3"), w(c, "3"), if c == 0 { w(b, "2") } else { String::new() }, w(if b == 0 { a } else { b }, if b == 0 { "1" } else { "2" })))).kind(Kind::Either));
        if u { out(Case::new(format!("C26/tagsame/{a}{b}{c}"), prog("", &format!("{} {} {} {}", d(a, "1"), d(b, "2"), d(c, "3"), w(c, "3")))).kind(Kind::Either)); }
    } } } }
    // a name of every kind declared in any subset of five nested scopes, used at every level on the way in and on the way out
    for (kn, dk, uk) in [("struct", "struct S { char c[#]; };", "strtol(sizeof(struct S));"), ("union", "union S { char c[#]; };", "{ union S v; strtol(sizeof v); }"), ("enum", "enum { S = # };", "strtol(S);"), ("typedef", "typedef struct { char c[#]; } S;", "{ S v; v.c[0] = 1; strtol(sizeof v); }"), ("var", "int S = #;", "strtol(S);"), ("arr", "char S[#];", "strtol(sizeof S);"), ("ptr", "struct S { char c[#]; };", "{ struct S *v = 0; strtol(sizeof(*v)); }"), ("mem", "union S { char c[#]; };", "{ struct { char a; union S u; } v; v.a = 1; strtol(sizeof v); }")] {
        for mask in 1..32u32 { for skip in 0..2 {
            let mut body = String::new(); let mut seen = mask & 1 != 0; let mut vis = vec![seen];
            for l in 1..5u32 { if l > 1 { body += "{ "; } if seen && skip == 0 { body += uk; body.push(' '); } if mask >> l & 1 == 1 { body += &dk.replace('#', &(l + 2).to_string()); body.push(' '); seen = true; } vis.push(seen); if seen && (skip == 0 || l == 4) { body += uk; body.push(' '); } }
            for l in (2..5usize).rev() { body += "} "; if vis[l - 1] { body += uk; body.push(' '); } }
            if kn == "typedef" && mask.count_ones() > 1 { continue; }
            out(Case::new(format!("C26/deep/{kn}/{mask}/{skip}"), format!("{PRE}{}\nvoid f() {{ {body} }}\nint main() {{ f(); {} return 0; }}\n", if mask & 1 == 1 { dk.replace('#', "2") } else { String::new() }, if mask & 1 == 1 { uk } else { "" })));
        } }
    }
    // every position of a use relative to a declaration in nested blocks
    for depth in 0..4usize { for decl in 0..4usize { for u in 0..8usize { for kind in ["int x = 5;", "enum { x = 5 };"] {
        let mut s = String::new(); for k in 0..4 { if u == k { s += "strtol(x); "; } if decl == k { s += kind; s.push(' '); } if k < depth { s += "{ "; } } for k in 0..4 { if k < depth { s += "} "; } if u == 4 + k { s += "strtol(x); "; } }
        out(Case::new(format!("C26/pos/{depth}{decl}{u}/{}", kind.len()), prog("", &s)).kind(Kind::Either));
        out(Case::new(format!("C26/posg/{depth}{decl}{u}/{}", kind.len()), prog("int x = 3;\n", &s)).kind(Kind::Either));
    } } } }
}

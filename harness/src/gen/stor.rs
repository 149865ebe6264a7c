//! Objects that are not plain automatic variables or file-scope variables: static locals,
//! block-scope extern declarations and variable length arrays.
use super::*;
use super::data::seqs;
use crate::comp::Opts;
use crate::driver::{Case, Sink};

/// static locals: one object for the whole run, initialised once, before main
pub fn statics(th: bool, out: Sink) {
    for t in TYS { let c = t.c; for (ii, init) in ["", " = 3", " = 1 + 2 * 3", " = -1"].iter().enumerate() {
        let r = rec("f(k)", t.fp());
        for (u, upd) in ["x += n; return x;", "return x++;", "{ T x = 9; x++; } x = x + 1; return x;", "T *p = &x; *p = *p + n; return *p;", "if (n > 1) { x = n; } return x;", "{ static T x = 5; x++; if (n == 2) return x; } x += 2; return x;", "T y = x; x = y + n; if (n < 1) return y; return x;"].iter().enumerate() {
            let upd = upd.replace('T', c);
            out(Case::new(format!("C16/static/{}/{ii}/{u}", t.id), prog(&format!("char g0 = 1;\n{c} f(int n) {{ static {c} x{init}; {upd} }}\nchar g1 = 2;\n"), &format!("int k; {} for (k = 0; k < 4; k++) {{ {r} }} {r} strtol(g0); strtol(g1);", env("k", 43)))).opts(if ii < 2 { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
        }
    } }
    // every history of calls of functions with their own static variables of the same name
    let fs = ["strtol(f(1));", "strtol(g(2));", "strtol(h(3));", "*p() = 40;", "{ static int x = 7; x++; strtol(x); }", "for (k = 0; k < 2; k++) { static int x; x += 3; strtol(x); }", "if (strlen(2001)) strtol(f(g(1)));"];
    for n in 1..=(if th { 5 } else { 4 }) { let mut k = 0; seqs(n, fs.len(), &mut |v| {
        k += 1;
        if n == 4 && !th && (v[0] > v[3] || v[0] == v[1]) { return; }
        let s: String = v.iter().map(|i| fs[*i]).collect::<Vec<_>>().join(" ");
        out(Case::new(format!("C16/statics{n}/{k}"), prog("int x = 50;\nint f(int n) { static int x = 1, y; y = y + x; x = x + n; return y; }\nint g(int n) { static int x; { static int x = 10; x = x + n; n = x; } x++; return x * 100 + n; }\nint *p() { static int x = 4; x++; return &x; }\nint h(int n) { static int a[3] = {1, 2}; static char *s = \"abc\"; static struct S { char c; int *p; } t = {5, &a[1]}; a[2] += n; *t.p += 1; t.c++; s = s + 1; if (*s == 0) s = \"xyz\"; return a[1] * 1000 + a[2] * 100 + t.c * 10 + *s - 'a'; }\n", &format!("int k; static int once = 3; {s} once++; strtol(once); strtol(x);"))).opts(if n < 3 || th { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
    }); }
    // recursion, tail calls, loops and jumps that enter and leave the block of a static variable
    for (i, (g, b)) in [
        ("int f(int n) { static int d; d++; if (n == 0) return d; return f(n - 1) + d; }\n", "strtol(f(3)); strtol(f(0));"),
        ("int f(int n) { static int d; d += n; if (n == 0) return d; return f(n - 1); }\n", "strtol(f(3)); strtol(f(2)); strtol(f(0));"),
        ("int f(int n, int a) { static int d = 1; int o = d; d = a; if (n <= 0) return o * 10 + d; return f(n - 1, a + o); }\n", "strtol(f(3, 4)); strtol(f(2, 1));"),
        ("int e(int n); int o(int n) { static int c = 100; c++; if (n == 0) return c; return e(n - 1); }\nint e(int n) { static int c = 200; c++; if (n == 0) return c; return o(n - 1); }\n", "strtol(o(3)); strtol(e(3)); strtol(o(0));"),
        ("void f(int n) { static int v[4]; int i; v[n % 4] += n; for (i = 0; i < 4; i++) strtol(v[i]); if (n) f(n - 1); }\n", "f(5); f(2);"),
        ("int f(int n) { switch (n) { case 0: { static int a = 1; a *= 2; return a; } case 1: { static int a = 1; a *= 3; return a; } default: { static int a = 1; a *= 5; return a; } } }\n", "int k; for (k = 0; k < 9; k++) strtol(f(k % 3)); strtol(f(k));"),
        ("int f(int n) { int t = 0; l: if (t < n) { static int s = 2; s++; t += s; goto l; } return t; }\n", "strtol(f(4)); strtol(f(4)); strtol(f(40));"),
        ("int f(int n) { goto in; { static int s = 7; in: s += n; return s; } }\n", "strtol(f(1)); strtol(f(2));"),
        ("int f(int n) { if (n) return n; { static int s = 7; static double d = 1.5; s++; d = d * 2; return s + d; } }\n", "strtol(f(1)); strtol(f(0)); strtol(f(0));"),
        ("struct P { int a; char b[5]; };\nstruct P f(int n) { static struct P s = {1, \"abcd\"}; s.a += n; s.b[n] = 'z'; return s; }\n", "struct P q = f(1); strtol(q.a); strtol(q.b[0]); strtol(q.b[1]); q.a = 100; q = f(3); strtol(q.a); strtol(q.b[1]); strtol(q.b[3]); strtol(q.b[4]);"),
        ("union U { long l; char c[8]; };\nint f() { static union U u; u.c[2]++; u.c[0] += 3; return u.l; }\n", "strtol(f()); strtol(f());"),
        ("int f() { static char s[] = \"hello\"; static int i; if (i == 5) i = 0; s[i]++; return s[i++] + sizeof(s); }\n", "int k; for (k = 0; k < 7; k++) strtol(f());"),
        ("int f() { static int m[2][3] = {{1, 2, 3}, {4, 5}}; static int *p = m[1], (*q)[3] = m; p++; if (p == m[1] + 2) p = m[0]; *p += 10; q[1][2]++; return *p + m[1][2]; }\n", "int k; for (k = 0; k < 6; k++) strtol(f());"),
        ("int f(int n) { const static int k = 4; static const int j = 5; return k * n + j; }\n", "strtol(f(1)); strtol(f(3));"),
        ("enum E { A = 3, B };\nint f() { static enum E e = B; enum E o = e; e = A; return o; }\n", "strtol(f()); strtol(f());"),
        ("typedef long L; typedef L *PL;\nL f(L n) { static L l = 4294967296; static PL p = &l; *p = *p + n; return l; }\n", "strtol(f(1)); strtol(f(-2));"),
        ("static int s = 3; static int f(int n) { static int s = 4; { extern int e; s += e; } return s + n; }\nint e = 20; static int g() { return s++; }\n", "strtol(f(1)); strtol(g()); strtol(f(0)); strtol(g());"),
        ("int f(int n) { while (n-- > 0) { static int s; int a[2]; a[0] = n; a[1] = s; s += a[0]; if (s > 3) break; strtol(a[1]); } return n; }\n", "strtol(f(3)); strtol(f(3)); strtol(f(3));"),
        ("int f(int a, int b, int c) { static int r = 1; int u = a + r, v = b - r, w = c * r; r++; return f2(u, v, w); }\n", ""),
        ("int cnt(); int f(int n) { static int used; if (used) return -1; used = 1; n += cnt(); used = 0; return n; }\nint cnt() { static int c; c++; return c + f(1); }\n", "strtol(f(5)); strtol(f(6)); strtol(cnt());"),
        ("int f(int n) { static int s; static int *p; int l = n; if (!p) p = &s; *p += l; return s + (p == &s); }\n", "strtol(f(1)); strtol(f(2)); strtol(f(4));"),
        ("void f(char *s) { static char buf[6]; static int n; while (*s && n < 6) buf[n++] = *s++; strstr(buf, 6); }\n", "f(\"ab\"); f(\"c\"); f(\"defgh\"); f(\"i\");"),
        ("int f(int x) { if (x) { static int y = 1; y++; x = y; } else { static long y = 10; y += 5; x = y; } return x; }\n", "int k; for (k = 0; k < 5; k++) strtol(f(k & 1));"),
        ("float f() { static float a = 0.5, b = 1; float c = a; a = b; b = a + c; return b; }\n", "int k; for (k = 0; k < 6; k++) strtoul(f());"),
    ].iter().enumerate() {
        if b.is_empty() { continue; }
        out(Case::new(format!("C16/staticflow/{i}"), prog(g, b)).opts(&Opts::all8()).seeds(&[0, 1]).fuel(1_000_000));
        out(Case::new(format!("C16/staticflow/{i}/pre"), prog(&format!("char c0 = 1; char *lit = \"lit\"; int arr[5] = {{1, 2, 3}};\n{g}"), &format!("int before = 5; char l0 = 3; {b} strtol(before); strtol(l0); strtol(c0); strtol(*lit); strtol(arr[2]); strtol(arr[4]);"))).opts(&[Opts::DEFAULT, Opts::NONE]).fuel(1_000_000));
    }
}

/// block-scope extern declarations: they name the file-scope object, wherever it is defined
pub fn externs(th: bool, out: Sink) {
    let tys: &[(&str, &str, &str)] = &[("int x", "= 5", "x"), ("char x", "= -7", "x"), ("unsigned short x", "", "x"), ("long x", "= 5000000000", "x"), ("double x", "= 2.5", "x"), ("int x[3]", "= {4, 5, 6}", "x[1]"), ("char *x", "= \"st\"", "*x"), ("struct S x", "= {1, 2}", "x.b"), ("union V x", "", "x.n"), ("int (*x)[2]", "", "(x == 0)")];
    // position of the definition, what hides the name, and how often it is declared
    let pos = ["DEF; int f() { DECL rec } int g() { return 0; }", "int f() { DECL rec } DEF; int g() { return 0; }", "int f() { DECL rec } int g() { DECL DECL2 } DEF;", "extern OBJ; int f() { DECL rec } DEF; int g() { return 0; }", "DEF; extern OBJ; int f() { DECL rec } int g() { DECL DECL2 }", "int f() { { DECL } DECL rec } DEF; int g() { long x = 3; { DECL DECL2 } }"];
    let decl = ["extern OBJ;", "{ int x = 77; strtol(x); { extern OBJ; W } strtol(x); } extern OBJ;", "struct S x9; extern OBJ;", "if (1) { extern OBJ; W } extern OBJ;", "extern int other; extern OBJ; other++;"];
    for (ti, (obj, init, use_)) in tys.iter().enumerate() { for (pi, p) in pos.iter().enumerate() { for (di, d) in decl.iter().enumerate() {
        let fp = obj.starts_with("double");
        let w = match ti { 5 => "x[1]++;", 6 => "x = \"w\";", 7 => "x.b++;", 8 => "x.n += 2;", 9 => "", _ => "x++;" };
        let src = p.replace("DECL2", "RET").replace("DECL", d).replace("RET", &format!("{} return 1;", rec(use_, fp))).replace("DEF", &format!("OBJ {init}")).replace("OBJ", obj).replace('W', w).replace("rec", &format!("{w} {} return 0;", rec(use_, fp)));
        out(Case::new(format!("C26/extern/{ti}/{pi}/{di}"), prog(&format!("struct S {{ int a; char b; }};\nunion V {{ int n; char c[4]; }};\nint other = 30;\n{src}\n"), "int y = 1; f(); g(); f(); strtol(y); strtol(other);")).opts(if di == 0 { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
    } } }
    // which object a name means: every sequence of declarations of x in nested blocks
    let ds = ["int x = 3;", "extern int x;", "static int x = 40;", "x++;", "{ x += 2; }", "for (int x = 0; x < 2; x++) strtol(x);", "f(x);", "{"];
    for n in 1..=(if th { 5 } else { 4 }) { let mut k = 0; seqs(n, ds.len(), &mut |v| {
        k += 1;
        let mut depth = 0; let mut s = String::new(); let mut seen = vec![None];
        for i in v { match i { 0..=2 => { let l = seen.last_mut().unwrap(); if l.is_some_and(|o| o != 1 || *i != 1) { return; } *l = Some(*i); } 7 => { depth += 1; seen.push(None); } _ => {} } s += ds[*i]; s.push(' '); }
        if v[n - 1] == 7 { return; }
        for _ in 0..=depth { s += "strtol(x); x++; "; if depth > 0 { s += "} "; depth -= 1; } }
        out(Case::new(format!("C26/which{n}/{k}"), prog(&format!("int x = 100;\nint f(int n) {{ static int x = 1000; x += n; strtol(x); return x; }}\nvoid g(int a) {{ {s} strtol(a); }}\n"), "g(1); f(1); g(2); strtol(x);")).opts(if n < 3 { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
    }); }
}

/// variable length arrays
pub fn vlas(th: bool, out: Sink) {
    // element types x the ways an element is reached, for every size up to 4
    for t in TYS { let c = t.c; for (wi, wr) in ["a[i] = i + 1;", "*(a + i) = i + 1;", "*p++ = i + 1;", "(&a[0])[i] = i + 1;", "p[i] = i; p[i] += 1;", "i[a] = i + 1;", "{ T *q = &a[i]; *q = i + 1; }"].iter().enumerate() {
        for n in 1..=4 {
            let wr = wr.replace('T', c);
            out(Case::new(format!("C13/vla/{}/{wi}/{n}", t.id), prog("", &format!("int n = strlen(2000) ? {n} : {}; int i; char u = 1; {c} a[n]; {c} *p = a; char w = 2; for (i = 0; i < n; i++) {{ {wr} }} strtol(sizeof(a)); n = n + 3; strtol(sizeof(a)); strtol(sizeof a / sizeof a[0]); for (i = 0; i < n - 3; i++) {{ {} }} strtol(&a[n - 3] - a); strtol(u); strtol(w);", n + 1, rec("a[i]", t.fp())))).opts(if th || n == 2 { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
        }
    }
        // the type of the length
        if !t.fp() { out(Case::new(format!("C13/vlalen/{}", t.id), prog("", &format!("{c} n = 3; {} int i; char before = 4; if (n > 0 && n < 100) {{ short a[n]; char after = 5; for (i = 0; i < n; i++) a[i] = i; strtol(sizeof(a)); n = 1; strtol(sizeof(a)); strtol(a[0] + a[i - 1]); strtol(after); }} strtol(before);", env("n", t.d)))).opts(&two())); }
    }
    // arrays of arrays: every combination of constant and variable dimensions
    for t in if th { &TYS[..] } else { &[TYS[0], TYS[4], TYS[7], TYS[9]] } { let c = t.c; for dims in 1..=3usize { seqs(dims, 2, &mut |v| {
        if v.iter().all(|x| *x == 0) { return; }
        let nm = ["n", "m", "k"]; let cs = [2, 3, 2];
        let d: String = (0..dims).map(|i| if v[i] == 1 { format!("[{}]", nm[i]) } else { format!("[{}]", cs[i]) }).collect();
        let ix: String = (0..dims).map(|i| format!("[i{i}]")).collect();
        let fi: String = (0..dims).map(|i| format!("for (i{i} = 0; i{i} < {}; i{i}++) ", cs[i])).collect();
        let lin = (0..dims).fold("0".to_string(), |a, i| format!("({a}) * {} + i{i}", cs[i]));
        let (sub, subt) = match dims { 1 => ("", String::new()), _ => ("row", (1..dims).map(|i| if v[i] == 1 { format!("[{}]", nm[i]) } else { format!("[{}]", cs[i]) }).collect()) };
        let row = if sub.is_empty() { String::new() } else { format!("{c} (*r){subt} = a; n = 50; m = 60; k = 70; strtol(sizeof(*r)); r++; strtol(r - a); strtol(sizeof(a)); r = r - 1; r += 1; strtol((char *)r - (char *)a); {} r--; strtol(r == a); strtol(r++ == a); strtol(r-- == a); strtol(r == &a[0]); strtol(&a[1] - r); strtol(sizeof(a[0])); strtol(sizeof(r[0]));", rec(&format!("(*r){}", "[0]".repeat(dims - 1)), t.fp())) };
        out(Case::new(format!("C13/vladim/{}/{dims}/{}", t.id, v.iter().map(|x| x.to_string()).collect::<String>()), prog("", &format!("int n = 2; int m = 3; int k = 2; int i0; int i1; int i2; char u = 1; {c} a{d}; char w = 2; {fi} a{ix} = {lin} + 1; n = m = k = 90; {fi} {{ {} }} strtol(sizeof(a)); strtol(u); strtol(w); n = 2; m = 3; k = 2; {row}", rec(&format!("a{ix}"), t.fp())))).opts(&Opts::all8()).fuel(1_000_000));
    }); } }
    // histories: declarations, changes of the size, calls and stores between them
    let ops = ["n++;", "{ int b[n]; b[n - 1] = n; strtol(b[n - 1]); strtol(sizeof(b)); }", "a[0]++;", "strtol(f(n));", "strtol(sizeof(a));", "for (k = 1; k < 3; k++) { char c[k + n]; c[k] = n; c[k + n - 1] = k; strtol(c[k] + sizeof(c)); }", "p = a + 1;", "*p += 2;", "{ int n = 2; long a[n]; a[1] = n; strtol(a[1]); }"];
    for n in 1..=(if th { 4 } else { 3 }) { let mut q = 0; seqs(n, ops.len(), &mut |v| {
        q += 1;
        let s: String = v.iter().map(|i| ops[*i]).collect::<Vec<_>>().join(" ");
        out(Case::new(format!("C13/vlahist{n}/{q}"), prog("int f(int n) { int l = 3; int a[n]; int r = 4; if (n > 1) { a[n - 1] = f(n - 1); } else { a[n - 1] = 1; } a[0] += n; return a[n - 1] * l + r; }\n", &format!("int k; int n = 2; int u = 1; int a[n]; int w = 2; int *p; a[0] = 5; a[1] = 6; p = a; {s} strtol(a[0]); strtol(a[1]); strtol(*p); strtol(u); strtol(w); strtol(n);"))).opts(if n < 3 || th { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
    }); }
    // shapes, under every set of options
    for (i, (g, b)) in [
        ("struct S { char a; int b; };\n", "int n = 3; struct S a[n]; int i; for (i = 0; i < n; i++) { a[i].a = i; a[i].b = i * 10; } struct S *p = &a[1]; p->b++; p++; strtol(p->b); strtol(a[1].b); a[0] = a[2]; strtol(a[0].a); strtol(sizeof(a)); strtol(sizeof(a[0])); strtol(p - a);"),
        ("", "int n = 2; int x = 7; int *a[n]; char *s[n + 1]; a[0] = &x; a[1] = a[0]; *a[1] = 9; s[2] = \"str\"; s[0] = s[2] + 1; strtol(x); strtol(*s[0]); strtol(s[2][2]); strtol(sizeof(a)); strtol(sizeof(s));"),
        ("int c; int next() { c++; return c + 1; }\n", "int a[next()]; int b[next() + 1]; int d[c++ + 1]; strtol(sizeof(a)); strtol(sizeof(b)); strtol(sizeof(d)); strtol(c); a[1] = 1; b[3] = 2; d[2] = 3; strtol(a[1] + b[3] + d[2]);"),
        ("int sum(int *p, int n) { int s = 0; while (n--) s += *p++; return s; }\n", "int n = 4; int a[n]; int i; for (i = 0; i < n; i++) a[i] = i * i; strtol(sum(a, n)); strtol(sum(a + 1, 2)); strtol(sum(&a[2], n - 2));"),
        ("int f(int n) { int a[n]; int i; for (i = 0; i < n; i++) a[i] = i; if (n == 1) return a[0]; i = f(n - 1); return i + a[n - 1]; }\n", "strtol(f(1)); strtol(f(4)); strtol(f(2));"),
        ("int f(int n, int acc) { int a[n + 1]; a[n] = acc; if (n == 0) return a[0]; return f(n - 1, a[n] + n); }\n", "strtol(f(4, 0)); strtol(f(0, 3)); strtol(f(9, 1));"),
        ("int f(int n, int acc) { if (n > 0) { int a[n]; a[n - 1] = acc; acc = a[n - 1] + 1; } if (n == 0) return acc; return f(n - 1, acc); }\n", "strtol(f(40, 0));"),
        ("void fill(char *p, int n) { char t[n]; int i; for (i = 0; i < n; i++) t[i] = 'a' + i; for (i = 0; i < n; i++) p[i] = t[n - 1 - i]; }\n", "int n = 5; char a[n]; char b[3]; fill(a, n); fill(b, 3); strstr(a, 5); strstr(b, 3);"),
        ("struct P { int x; int y; };\nstruct P f(int n) { struct P a[n]; int i; for (i = 0; i < n; i++) { a[i].x = i; a[i].y = n; } return a[n - 1]; }\n", "struct P p = f(3); strtol(p.x); strtol(p.y); p = f(1); strtol(p.x); strtol(f(2).y);"),
        ("int f(int n) { int x = 5; int *p = &x; int a[n]; int y = 6; a[0] = 1; a[n - 1] = 2; *p += y; { int b[2] = {8, 9}; y += b[1]; a[0] += b[0]; } return x * 100 + y + a[0]; }\n", "strtol(f(1)); strtol(f(3));"),
        ("int f(int n) { switch (n) { case 1: { char a[n + 1]; a[1] = 4; return a[1] + sizeof(a); } case 2: { int a[n]; a[1] = 5; return a[1] + sizeof(a); } } int a[n]; a[n - 1] = 6; return a[n - 1] + sizeof(a); }\n", "int k; for (k = 1; k < 5; k++) strtol(f(k));"),
        ("int f(int n) { int t = 0; int i = 0; while (i < n) { int a[i + 1]; a[i] = i; i++; if (i == 2) continue; if (i == 4) break; t += a[i - 1] + sizeof(a); } return t; }\n", "int k; for (k = 0; k < 6; k++) strtol(f(k));"),
        ("int f(int n) { int t = 0; again: { int a[n]; a[n - 1] = n; t += a[n - 1] + sizeof(a); n--; } if (n) goto again; return t; }\n", "strtol(f(3)); strtol(f(1));"),
        ("int f(int n) { if (n < 2) goto out; { int a[n]; a[0] = n; a[1] = 3; if (n == 3) goto out; return a[0] + a[1]; } out: return -n; }\n", "int k; for (k = 0; k < 5; k++) strtol(f(k));"),
        ("double g[3] = {0.5, 1.5, 2.5};\n", "long n = 3; double a[n]; float b[n * 2]; int i; for (i = 0; i < 3; i++) { a[i] = g[i]; b[i + 3] = a[i] * 2; } strtoul(a[0] + a[2]); strtoul(b[5]); strtol(sizeof(a) + sizeof(b)); strtol((int)b[3]);"),
        ("", "int n = 3; unsigned char a[n]; a[0] = 255; a[1] = a[0]++; a[2] = a[1] + 2; strtol(a[0]); strtol(a[1]); strtol(a[2]); strtol(a[n - 2] > a[0]); a[0] += a[1]; a[a[2]] <<= 3; strtol(a[1]);"),
        ("", "int n = 2; int m = 3; int a[n][m]; int (*p)[m] = a; int i; int j; for (i = 0; i < n; i++) for (j = 0; j < m; j++) a[i][j] = 10 * i + j; m = 100; n = 100; p++; strtol((*p)[2]); strtol(p[0][1]); strtol(p[-1][2]); strtol(*(*(a + 1) + 1)); strtol(sizeof(*p)); strtol(p - a);"),
        ("", "int n = 3; int a[n]; int *p = a + n; int i = 0; while (p > a) *--p = i++; strtol(a[0]); strtol(a[2]); strtol(p == a); strtol(p < a + 1); strtol(&a[2] - &a[0]);"),
        ("int f(char *s) { int n = 0; while (s[n]) n++; char b[n + 1]; int i; for (i = 0; i < n; i++) b[n - 1 - i] = s[i]; b[n] = 0; strstr(b, n + 1); return sizeof(b); }\n", "strtol(f(\"abc\")); strtol(f(\"\")); strtol(f(\"hello world\"));"),
        ("int depth(int n) { int a[n + 1]; a[n] = n; int b[2] = {n, a[n]}; if (n > 0) return depth(n - 1) + b[1]; return b[0] + 1; }\n", "int a[2]; a[1] = 3; strtol(depth(6)); strtol(a[1]); { int c[depth(2)]; c[1] = 5; strtol(c[1] + sizeof(c)); }"),
        ("int f(int n) { static int calls; int a[n]; calls++; a[n - 1] = calls; return a[n - 1] * 10 + sizeof(a); }\n", "strtol(f(1)); strtol(f(2)); strtol(f(1));"),
        ("", "int n = 2; typedef int A[n]; n = 5; A x; typedef A *PA; PA p = &x; n = 9; x[0] = 1; x[1] = 2; strtol(sizeof(x)); strtol(sizeof(*p)); strtol((*p)[1]); A y[2]; y[1][0] = 4; y[0][1] = 6; strtol(sizeof(y)); p = y; p++; strtol(**p); strtol(p - y);"),
        ("int f(int n) { typedef char A[n + 1]; if (n > 2) { n = 1; A a; a[n + 2] = 5; return a[n + 2] + sizeof(a); } A b; b[n] = n; return b[n] * 10 + sizeof(b); }\n", "int k; for (k = 0; k < 5; k++) strtol(f(k));"),
        ("int c; int next() { c++; return c + 1; }\n", "int i; for (i = 0; i < 3; i++) { typedef short B[next()]; B x; B y; x[0] = y[0] = i; strtol(sizeof(x)); strtol(sizeof(y)); strtol(x[0]); } strtol(c); typedef int M[c][next()]; M m; m[2][4] = 7; strtol(sizeof(m)); strtol(sizeof(m[0])); strtol(m[2][4]);"),
        ("int f(int a, int b, int c) { int x[a], y[b], z[c]; x[a - 1] = 1; y[b - 1] = 2; z[c - 1] = 3; x[0] += 10; y[0] += 20; z[0] += 30; a = b = c = 0; return sizeof(x) * 10000 + sizeof(y) * 100 + sizeof(z); }\n", "strtol(f(1, 1, 1)); strtol(f(2, 1, 3));"),
    ].iter().enumerate() {
        out(Case::new(format!("C13/vlashape/{i}"), prog(g, b)).opts(&Opts::all8()).seeds(&[0, 1]).fuel(1_000_000));
    }
}

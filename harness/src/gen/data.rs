//! C13 arrays and pointers, C14 structs and unions, C15 initialisers, C16 globals and strings, C24 arguments.
use super::*;

/// all sequences of exactly `n` indices below `m`
pub fn seqs(n: usize, m: usize, f: &mut dyn FnMut(&[usize])) { let mut v = vec![0; n]; loop { f(&v); let mut i = n; loop { if i == 0 { return; } i -= 1; v[i] += 1; if v[i] < m { break; } v[i] = 0; } } }

/// replaces every `R(e)` (parentheses balanced) by `f(e)`
pub fn expand(s: &str, key: &str, f: &dyn Fn(&str) -> String) -> String {
    let (b, mut o, mut i) = (s.as_bytes(), String::new(), 0);
    while i < b.len() {
        let prev = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
        if !prev && s[i..].starts_with(key) && s[i + key.len()..].starts_with('(') {
            let st = i + key.len() + 1; let (mut d, mut e) = (1, st);
            while d > 0 { match b[e] { b'(' => d += 1, b')' => d -= 1, _ => {} } e += 1; }
            o += &f(&s[st..e - 1]); i = e;
        } else { o.push(b[i] as char); i += 1; }
    }
    o
}

pub fn pointers(th: bool, out: Sink) {
    let ixt: Vec<Ty> = TYS[..8].to_vec();
    for t in TYS {
        let c = t.c; let r = |e: &str| rec(e, t.fp());
        // every way of reaching an element x every type of index x every index, over every kind of array
        let kinds: [(&str, String, String, &str); 6] = [
            ("loc", String::new(), format!("char u = 1; {c} a[4]; char w = 2;"), "a"), ("glo", format!("char u = 1; {c} a[4]; char w = 2;\n"), String::new(), "a"), ("mem", format!("struct S {{ char u; {c} a[4]; char w; }};\n"), "char u = 1; char w = 2; struct S s;".into(), "s.a"),
            ("gmem", format!("struct S {{ char u; {c} a[4]; char w; }};\nstruct S gs;\n"), "char u = 1; char w = 2; struct S *ps = &gs;".into(), "ps->a"), ("row", String::new(), format!("char u = 1; {c} m[3][4]; char w = 2; m[0][3] = 60; m[2][0] = 61;"), "m[1]"), ("ptr", format!("{c} ga[6];\n"), format!("char u = 1; char w = 2; {c} *a = ga + 1;"), "a")];
        let forms = ["A[i]", "*(A + i)", "*(i + A)", "(A + 1)[i - 1]", "*&A[i]", "(&A[i])[0]", "i[A]", "*(&A[3] - (3 - i))", "*(A + 3 - (3 - i))"];
        for (kn, g, d, a) in &kinds { for (fi, form) in forms.iter().enumerate() { for it in &ixt {
            if !th && it.d != 5 && (fi + it.d as usize + t.d as usize) % 3 != 0 { continue; }
            if it.d % 2 == 0 && it.d >= 6 && form.contains("(3 - i)") { continue; }
            let f = form.replace('A', a);
            let body = format!("{d} int k; {} i; for (k = 0; k < 4; k++) {a}[k] = 10 + k; i = strlen(4000); {} {f} = 77; for (k = 0; k < 4; k++) {} strtol(u); strtol(w); strtol(i); strtol(&{f} - {a}); strtol(&{f} == {a} + i);", it.c, r(&f), r(&format!("{a}[k]")));
            out(Case::new(format!("C13/elem/{kn}/{}/{fi}/{}", t.id, it.id), prog(g, &body)));
        } } }
        // pointer arithmetic and comparison, every pair of positions
        let ops = ["strtol(p - q);", "strtol(p < q); strtol(p > q); strtol(p <= q); strtol(p >= q); strtol(p == q); strtol(p != q);", "p++; strtol(p - a);", "--p; strtol(p - a);", "strtol(p++ - a); strtol(p - a);", "strtol(--q - a); strtol(q - a);", "p += 1; strtol(p - a); p -= 2; strtol(p - a);", "p = p + 1 - 2 + 1; strtol(p - a);", "strtol((p + 1) - (q - 1));", "strtol(&p[1] - &q[-1]);", "strtol(p == a + strlen(4009));", "if (p == q) strlen(1); else strlen(2); if (p) strlen(3); if (!p) strlen(4);", "p = q; strtol(p == q); strtol(p - q);", "strtol((p - a) * 2 + (q - a));", "strtol(p ? 1 : 2); strtol(p && q); strtol(!p || q);", "strtol((char *)p - (char *)a);", "strtol((char *)p < (char *)q);", "strtol((p > q ? p : q) - a);", "long l = 1; p += l; strtol(p - a); p -= (char)1; strtol(p - a);", "*p = 70; *q = 71; strtol(*p); strtol(*q); strtol(a[1]);", "*p++ = *q; strtol(p - a); strtol(a[1] + a[2]);", "strtol(*(p < q ? p : q));", "int d = p - q; strtol(d); strtol((p - q) / 2); strtol((p - q) > 0);"];
        for (i, o) in ops.iter().enumerate() { for (kn, d) in [("loc", format!("{c} a[6];")), ("glo", String::new())] {
            out(Case::new(format!("C13/arith/{}/{kn}/{i}", t.id), prog(&if kn == "glo" { format!("{c} a[6];\n") } else { String::new() }, &format!("{d} {c} *p; {c} *q; int k; for (k = 0; k < 6; k++) a[k] = 10 + k; p = a + 1 + strlen(4001); q = &a[1 + strlen(4002)]; {o}"))).opts(if th || i % 2 == 0 { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
        } }
        // the bytes of an object, seen through a character pointer
        for (i, b) in ["for (k = 0; k < sizeof(x); k++) strtol(*((unsigned char *)&x + k));", "char *p = (char *)&x; p[0] = 1; for (k = 0; k < sizeof(x); k++) { strtol(p[k]); }", "unsigned char *p = (void *)&x; for (k = 1; k < sizeof x; k++) p[k] = p[0]; for (k = 0; k < sizeof x; k++) strtol(p[k]);", "T y; char *p = (char *)&x; char *q = (char *)&y; for (k = 0; k < sizeof x; k++) q[k] = p[k]; strtol(x == y);"].iter().enumerate() {
            out(Case::new(format!("C13/bytes/{}/{i}", t.id), prog("", &format!("char u = 1; {c} x; char w = 2; int k; {} {} strtol(u); strtol(w);", env("x", t.d), b.replace('T', c)))).opts(&two()));
        }
        // two and three dimensions
        for (i, (d, acc, n)) in [("T m[2][3];", "m[i][j]", 2), ("T m[3][2];", "*(*(m + i) + j)", 3), ("T m[2][3]; T (*p)[3] = m;", "p[i][j]", 2), ("T m[2][3]; T (*p)[3]; p = m; p = p + 0;", "(*(p + i))[j]", 2), ("T m[2][3]; T *row[2]; row[0] = m[0]; row[1] = m[1];", "row[i][j]", 2), ("T m[2][3]; T *f = &m[0][0];", "f[i * 3 + j]", 2), ("T m[2][3]; T *f = m[0];", "*(f + 3 * i + j)", 2), ("T c[2][2][3]; T (*m)[3] = c[1]; c[0][1][2] = 9;", "m[i][j]", 2)].iter().enumerate() {
            let cols = if d.contains("[3][2]") { 2 } else { 3 };
            let d = d.replace('T', c);
            out(Case::new(format!("C13/dim/{}/{i}", t.id), prog("", &format!("char u = 1; {d} char w = 2; int i; int j; for (i = 0; i < {n}; i++) for (j = 0; j < {cols}; j++) {acc} = i * 10 + j; i = strlen({n}000); j = strlen({cols}001); {} {acc} = 99; for (i = 0; i < {n}; i++) for (j = 0; j < {cols}; j++) {} strtol(u); strtol(w);", r(acc), r(acc)))).opts(&two()));
            if d.starts_with(&format!("{c} m[2][3];")) { out(Case::new(format!("C13/dimpar/{}/{i}", t.id), prog(&format!("{c} sum({c} *p, int n) {{ {c} s = 0; while (n--) s += *p++; return s; }}\nvoid set({c} m[2][3], int i, {c} v) {{ m[i][2] = v; }}\n{c} tot({c} (*m)[3]) {{ return m[0][0] + m[1][2]; }}\n"), &format!("{c} m[2][3]; int i; int j; for (i = 0; i < 2; i++) for (j = 0; j < 3; j++) m[i][j] = i * 3 + j; {} set(m, strlen(2000), 40); {} {} {}", r("sum(m[1], 3)"), r("sum(m[0], 6)"), r("sum(&m[0][1], 2)"), r("tot(m)"))))); }
        }
        // pointers to pointers and arrays of pointers
        for (i, b) in ["T **pp = &p; **pp = 5; R(x) *pp = &y; **pp = 6; R(y) R(*p)", "T *v[2]; v[0] = &x; v[1] = &y; *v[strlen(2000)] = 7; R(x) R(y) R(*v[0]) R(*v[1])", "T *v[3]; T **vp = v; *vp++ = &y; *vp = &x; R(**v) R(**vp) R(*v[1]) R(**(vp - 1)) strtol(vp - v);", "T *q = p; p = &y; *q = 8; *p = 9; R(x) R(y) strtol(p == q);", "T ***r; T **pp = &p; r = &pp; ***r = 3; **r = &y; ***r = 4; R(x) R(y)", "void *v = p; *(T *)v = 11; R(x) v = &y; R(*(T *)v)", "p = strlen(2001) ? &x : &y; *p = 12; R(x) R(y)", "T *q = &*p; T *s = &p[0]; *q = 13; R(x) *s = 14; R(x) strtol(q == s);", "swap(&x, &y); R(x) R(y)", "rep(&p, &y); *p = 15; R(x) R(y)", "*id(&x) = 16; R(x) *id(id(&y)) += 2; R(y)", "T *n = 0; if (n) strlen(1); else strlen(2); if (!n) strlen(3); n = p; if (n != 0) strlen(4); strtol(n == 0); strtol(0 == n);"].iter().enumerate() {
            let mut s = b.replace('T', c);
            s = expand(&s, "R", &r);
            out(Case::new(format!("C13/pp/{}/{i}", t.id), prog(&format!("void swap({c} *a, {c} *b) {{ {c} t = *a; *a = *b; *b = t; }}\nvoid rep({c} **a, {c} *b) {{ *a = b; }}\n{c} *id({c} *a) {{ return a; }}\n"), &format!("char u = 1; {c} x = 20; char w = 2; {c} y = 30; char z = 3; {c} *p = &x; {s} strtol(u); strtol(w); strtol(z); {} {}", r("x"), r("y")))).opts(&two()).seeds(&[0, 1]));
        }
    }
    // sizeof every type and expression form
    let mut szs: Vec<String> = vec![];
    for t in TYS { let c = t.c; for f in ["sizeof(T)", "sizeof(T *)", "sizeof(T **)", "sizeof(T (*)[4])", "sizeof x", "sizeof(x)", "sizeof a", "sizeof a[0]", "sizeof m", "sizeof m[0]", "sizeof m[1][2]", "sizeof p", "sizeof *p", "sizeof(*pa)", "sizeof &x", "sizeof &a", "sizeof(x + 1)", "sizeof(x + x)", "sizeof(x = 1)", "sizeof(x++)", "sizeof f()", "sizeof(f(), 1)", "sizeof(x ? x : 1)", "sizeof -x", "sizeof !x", "sizeof((T)1)", "sizeof x + 1", "sizeof(x) * 2", "sizeof s.a", "sizeof q->a[1]", "sizeof(x < 1)", "sizeof(a + 1)", "sizeof(x && x)", "sizeof(U)", "sizeof(A3)", "sizeof(A3 *)", "sizeof(u.a)", "sizeof u"] {
        szs.push(f.replace('T', c));
        if t.fp() && f.contains("U)") { continue; }
        let k = szs.len();
        out(Case::new(format!("C13/sizeof/{}/{k}", t.id), prog(&format!("struct S {{ {c} a[3]; }};\nunion V {{ {c} a[3]; char b; }};\ntypedef {c} U;\ntypedef {c} A3[3];\n{c} f() {{ strlen(66); return 1; }}\n"), &format!("{c} x = 1; {c} a[7]; {c} m[2][3]; {c} *p = a; {c} (*pa)[7] = &a; struct S s; struct S *q = &s; union V u; strtol({}); {} char v[{}]; strtol(sizeof v);", szs[k - 1], r0("x", t), if szs[k - 1].contains("f(") || szs[k - 1].contains('=') || szs[k - 1].contains("++") { "3".to_string() } else { szs[k - 1].clone() }))));
    } }
    for (i, e) in ["\"abc\"", "\"\"", "'a'", "1", "4294967296", "1.5", "(char)1", "1 + 1.5", "\"a\\0b\"", "(short)1 + (short)1", "1 == 1", "(long)1 + 1"].iter().enumerate() { out(Case::new(format!("C13/sizeofc/{i}"), prog("", &format!("strtol(sizeof({e})); strtol(sizeof {e});")).replace("sizeof (char)1", "sizeof((char)1)").replace("sizeof (short)1 +", "sizeof((short)1) +").replace("sizeof (long)1 +", "sizeof((long)1) +").replace("sizeof 1 + 1.5", "sizeof 1 + 2").replace("sizeof 1 == 1", "sizeof 1 == 4"))); }
    // aliasing: every sequence of operations on two objects and two pointers
    for (ti, t) in [ty("i"), ty("c"), ty("l"), ty("d")].iter().enumerate() {
        let ops = ["x = *p + 1;", "*p = 5;", "p = &y;", "p = q;", "q = &x;", "*q = *p + y;", "y = x;", "(*p)++;"];
        let n = if ti == 0 { if th { 5 } else { 3 } } else if th { 4 } else { 2 };
        for n in 1..=n { let mut k = 0; seqs(n, ops.len(), &mut |v| {
            k += 1;
            let s: String = v.iter().map(|i| ops[*i]).collect::<Vec<_>>().join(" ");
            out(Case::new(format!("C13/alias/{}/{n}/{k}", t.id), prog("", &format!("{c} x = 1; {c} y = 2; {c} *p = &x; {c} *q = &y; {s} {} {} {} {}", rec("x", t.fp()), rec("y", t.fp()), rec("*p", t.fp()), rec("*q", t.fp()), c = t.c))).opts(&two()));
        }); }
    }
    // void pointers, casts between pointer types and integers
    for (i, b) in ["int x = 5; void *v = &x; int *p = v; strtol(*p);", "int x = 258; char *p = (char *)&x; strtol(*p); strtol(p[1]); *(short *)p = 7; strtol(x);", "long l = 1; int *p = (int *)&l; p[1] = 1; strtol(l);", "int x = 5; long a = (long)&x; int *p = (int *)a; *p = 6; strtol(x);", "int a[3] = {1, 2, 3}; unsigned u = (unsigned)a + 4; strtol(*(int *)u);", "int x; int *p = &x; strtol(p == (void *)&x);", "char s[4]; *(int *)s = 67305985; strtol(s[0]); strtol(s[3]);", "double d = 1.0; unsigned long *p = (unsigned long *)&d; strtol(*p);", "float f = 1.0; strtol(*(int *)&f);", "int *p = (int *)0; strtol(p == 0); strtol((int)p);", "int x; strtol(((int)(&x + 1)) - (int)&x); strtol((char *)(&x + 2) - (char *)&x);"].iter().enumerate() { out(Case::new(format!("C13/cast/{i}"), prog("", b)).opts(&two())); }
}
fn r0(e: &str, t: Ty) -> String { rec(e, t.fp()) }

pub fn aggregates(th: bool, out: Sink) {
    // every pair of member types: writing one member leaves the others alone, through every access path
    let paths: [(&str, &str, &str, &str); 8] = [("var", "", "struct S s;", "s."), ("glo", "struct S s;\n", "", "s."), ("ptr", "", "struct S o; struct S *s = &o;", "s->"), ("deref", "", "struct S o; struct S *s = &o;", "(*s)."), ("arr", "", "struct S s[3]; int i = strlen(3000);", "s[i]."), ("parr", "", "struct S v[3]; struct S *s = v + strlen(3000);", "s->"), ("nest", "struct N { char h; struct S in; char t; };\n", "struct N n; n.h = 8; n.t = 9;", "n.in."), ("pnest", "struct N { char h; struct S in; struct S *p; };\n", "struct N n; struct N *q = &n; struct S o; q->p = &o; q->h = 8;", "q->p->")];
    for a in TYS { for b in TYS {
        for (pi, (pn, g, d, l)) in paths.iter().enumerate() {
            if !th && (a.d as usize + b.d as usize * 3 + pi) % 4 != 0 { continue; }
            let dump = format!("{} {} strtol({l}z[0]); strtol({l}z[1]);", rec(&format!("{l}a"), a.fp()), rec(&format!("{l}b"), b.fp()));
            let (ga, ta) = if pn.contains("nest") { ("", *g) } else { (*g, "") };
            out(Case::new(format!("C14/mem/{pn}/{}/{}", a.id, b.id), prog(&format!("struct S {{ {} a; char z[2]; {} b; }};\n{ga}{ta}", a.c, b.c), &format!("char u = 1; {d} char w = 2; {l}a = 3; {l}b = 4; {l}z[0] = 5; {l}z[1] = 6; {dump} {} {dump} {} {dump} {l}z[1] = 7; {dump} {l}a += 1; {l}b--; {dump} strtol(u); strtol(w);", env(&format!("{l}a"), a.tiny()), env(&format!("{l}b"), b.tiny())))).opts(if pi == 0 { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
        }
        // unions share the bytes of their members
        out(Case::new(format!("C14/union/{}/{}", a.id, b.id), prog(&format!("union V {{ {} a; {} b; unsigned char z[8]; }};\n", a.c, b.c), &format!("char u = 1; union V v; union V *p = &v; char w = 2; int k; for (k = 0; k < 8; k++) v.z[k] = k + 1; {} strtol((void *)&v.a == (void *)&v.b); for (k = 0; k < 8; k++) strtol(p->z[k]); {} {} p->b = 1; for (k = 0; k < 8; k++) strtol(v.z[k]); strtol(u); strtol(w); strtol(sizeof(union V) >= 8);", env("v.a", a.tiny()), rec("p->a", a.fp()), if b.fp() { String::new() } else { rec("v.b", false) }))).opts(if th { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
    } }
    // whole-aggregate copies in every context, for structs of every size up to 20 bytes and of mixed members
    let mut shapes: Vec<(String, String, Vec<(String, bool)>)> = vec![];
    for n in 1..=(if th { 20 } else { 8 }) { if !th && matches!(n, 2 | 4 | 6 | 7) { continue; } shapes.push((format!("c{n}"), format!("char m[{n}];"), (0..n).map(|k| (format!("m[{k}]"), false)).collect())); }
    for t in TYS { if !th && matches!(t.id, "uc" | "us" | "i" | "u" | "ul" | "f") { continue; } shapes.push((format!("m{}", t.id), format!("char a; {} b; short c; {} d;", t.c, t.c), vec![("a".into(), false), ("b".into(), t.fp()), ("c".into(), false), ("d".into(), t.fp())])); }
    shapes.push(("nest".into(), "int a; struct I { char x; long y; } i; char z;".into(), vec![("a".into(), false), ("i.x".into(), false), ("i.y".into(), false), ("z".into(), false)]));
    shapes.push(("nestarr".into(), "struct I { char x; int y[2]; } i[2]; char z;".into(), vec![("i[0].x".into(), false), ("i[0].y[1]".into(), false), ("i[1].y[0]".into(), false), ("i[1].x".into(), false), ("z".into(), false)]));
    shapes.push(("un".into(), "char t; union { long l; char c[4]; } v; short e;".into(), vec![("t".into(), false), ("v.l".into(), false), ("e".into(), false)]));
    shapes.push(("ptr".into(), "char *p; int n;".into(), vec![("p == gs".into(), false), ("n".into(), false)]));
    let ctx: [(&str, &str, &str); 22] = [
        ("asg", "", "b = a; D(a) D(b)"), ("init", "", "struct S x = a; D(x) D(a)"), ("chain", "", "struct S x; x = b = a; D(x) D(b)"), ("ptr", "", "struct S *p = &b; *p = a; D(b) D(*p)"), ("ptr2", "", "struct S *p = &a; struct S *q = &b; *q = *p; D(b)"), ("arr", "", "struct S v[3]; v[0] = b; v[2] = b; v[1] = a; D(v[0]) D(v[1]) D(v[2])"), ("arr2", "", "struct S v[2]; v[0] = a; v[1] = b; int i = strlen(2000); int j = strlen(2001); v[i] = v[j]; D(v[0]) D(v[1])"),
        ("mem", "struct N { char h; struct S s; char t; };\n", "struct N n; n.h = 1; n.t = 2; n.s = a; D(n.s) strtol(n.h); strtol(n.t); b = n.s; D(b)"), ("whole", "struct N { char h; struct S s; char t; };\n", "struct N n; struct N m; n.h = 1; n.t = 2; n.s = a; m = n; D(m.s) strtol(m.h); strtol(m.t);"),
        ("arg", "void f(int k, struct S s, char e) { D(s) strtol(k); strtol(e); W(s) D(s) }\n", "f(3, a, 4); D(a)"), ("arg2", "void f(struct S s, struct S t) { D(s) D(t) s = t; D(s) }\n", "f(a, b); D(a) D(b)"), ("ret", "struct S f(struct S s) { W(s) return s; }\n", "b = f(a); D(a) D(b)"), ("ret2", "struct S g(struct S *p) { return *p; }\n", "struct S x = g(&a); D(x) g(&b); D(x)"), ("ret3", "struct S f(struct S s) { return s; }\n", "b = f(f(a)); D(b)"), ("retp", "struct S gl;\nstruct S f() { return gl; }\n", "gl = a; b = f(); D(b) W(gl) D(b) D(gl)"),
        ("rec", "struct S f(struct S s, int n) { struct S t; t = s; if (n > 0) { t = f(s, n - 1); W(s) } return t; }\n", "b = f(a, strlen(3000)); D(b) D(a)"), ("self", "", "a = a; D(a)"), ("selfp", "", "struct S *p = &a; a = *p; D(a)"), ("swap", "", "struct S t = a; a = b; b = t; D(a) D(b)"), ("loop", "", "int k; struct S v[3]; for (k = 0; k < 3; k++) { v[k] = k == 1 ? a : b; } D(v[0]) D(v[1]) D(v[2])"), ("comma", "", "struct S x; x = (strlen(1), a); D(x)"), ("tail", "struct S f(struct S s, int n) { if (n == 0) return s; W(s) return f(s, n - 1); }\n", "b = f(a, 2); D(b) D(a)")];
    for (sn, m, fs) in &shapes { for (cn, g, body) in &ctx {
        let exp = |s: &str| -> String { let mut s = s.to_string(); loop {
            let (k, w) = match (s.find("D("), s.find("W(")) { (None, None) => return s, (Some(a), None) => (a, false), (None, Some(b)) => (b, true), (Some(a), Some(b)) => if a < b { (a, false) } else { (b, true) } };
            let e = s[k..].find(|x| x == ')').unwrap() + k; let v = s[k + 2..e].to_string(); let v = if v.starts_with('*') { format!("({v})") } else { v };
            let t: String = fs.iter().map(|(f, fp)| if w { if f.contains("==") { format!("{v}.p = gs;") } else { format!("{v}.{f} = {v}.{f} + 1;") } } else { rec(&format!("{v}.{f}"), *fp) }).collect::<Vec<_>>().join(" ");
            s = format!("{}{}{}", &s[..k], t, &s[e + 1..]);
        } };
        let set = |v: &str, base: usize| fs.iter().enumerate().map(|(i, (f, _))| if f.contains("==") { format!("{v}.p = {};", if v == "a" { "gs" } else { "0" }) } else { format!("{v}.{f} = {};", base + i) }).collect::<Vec<_>>().join(" ");
        let src = prog(&format!("char gs[4];\nstruct S {{ {m} }};\n{}", exp(g)), &format!("char u = 1; struct S a; char w = 2; struct S b; char y = 3; {} {} {} strtol(u); strtol(w); strtol(y);", set("a", 40), set("b", 80), exp(body)));
        out(Case::new(format!("C14/copy/{sn}/{cn}"), src).opts(if th { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
    } }
    // every sequence of operations over two structs, an array of structs and a pointer
    let ops = ["a = b;", "b = a;", "*p = a;", "p = &b;", "p = v + 1;", "v[0] = *p;", "v[1] = b;", "p->m = 9;", "a.c = b.m;", "p->i.k = a.i.k + 1;", "b.i = v[1].i;", "p++;"];
    for n in 1..=(if th { 4 } else { 3 }) { let mut k = 0; seqs(n, ops.len(), &mut |s| {
        k += 1;
        if !th && n == 3 && s.iter().any(|i| matches!(i, 1 | 2 | 6 | 10)) { return; }
        let b: String = s.iter().map(|i| ops[*i]).collect::<Vec<_>>().join(" ");
        let d = |x: &str| format!("strtol({x}.c); strtol({x}.m); strtol({x}.i.k);");
        out(Case::new(format!("C14/seq{n}/{k}"), prog("struct S { char c; int m; struct { char j; short k; } i; };\n", &format!("struct S a = {{1, 2, {{3, 4}}}}; struct S b = {{5, 6, {{7, 8}}}}; struct S v[2] = {{{{11, 12, {{13, 14}}}}, {{15, 16, {{17, 18}}}}}}; struct S *p = v; {b} {} {} {} {}", d("a"), d("b"), d("v[0]"), d("v[1]")))));
    }); }
    // self-referential and mutually referential structs
    for (i, (g, b)) in [("struct N { int v; struct N *next; };\n", "struct N a; struct N b; struct N c; struct N *p; a.v = 1; b.v = 2; c.v = 3; a.next = &b; b.next = &c; c.next = 0; for (p = &a; p; p = p->next) strtol(p->v); strtol(a.next->next->v); a.next->next = &a; strtol(b.next->v);"),
        ("struct N { int v; struct N *l; struct N *r; };\nstruct N pool[8]; int used;\nstruct N *ins(struct N *t, int v) { if (!t) { struct N *n = &pool[used++]; n->v = v; n->l = 0; n->r = 0; return n; } if (v < t->v) t->l = ins(t->l, v); else t->r = ins(t->r, v); return t; }\nvoid walk(struct N *t) { if (t) { walk(t->l); strtol(t->v); walk(t->r); } }\n", "struct N *r = 0; int k; for (k = 0; k < 4; k++) r = ins(r, strlen(4000 + k)); walk(r);"),
        ("struct B; struct A { char x; struct B *b; }; struct B { char y; struct A *a; };\n", "struct A a; struct B b; a.x = 1; b.y = 2; a.b = &b; b.a = &a; strtol(a.b->y); strtol(b.a->x); strtol(a.b->a->b->y);"),
        ("struct N { int v; struct N *next; };\nstruct N *rev(struct N *p) { struct N *r = 0; while (p) { struct N *n = p->next; p->next = r; r = p; p = n; } return r; }\n", "struct N v[4]; int k; struct N *p; for (k = 0; k < 4; k++) { v[k].v = k; v[k].next = k < 3 ? &v[k + 1] : 0; } for (p = rev(v); p; p = p->next) strtol(p->v);"),
        ("typedef struct T { int x; struct T *n; } T;\n", "T a; T b; a.x = 3; a.n = &b; b.x = 4; b.n = &a; strtol(a.n->x); strtol(a.n->n->x);"),
        ("struct A { int x; } ga; union U { int i; struct A a; char c[4]; } gu;\n", "ga.x = 5; gu.a = ga; strtol(gu.i); gu.c[0] = 1; strtol(gu.a.x); ga = gu.a; strtol(ga.x);"),
        ("struct A { struct { int x; } in[2]; int y; };\n", "struct A a; struct A b; a.in[0].x = 1; a.in[1].x = 2; a.y = 3; b = a; b.in[0] = b.in[1]; strtol(b.in[0].x); strtol(a.in[0].x); strtol(b.y);")].iter().enumerate() {
        out(Case::new(format!("C14/link/{i}"), prog(g, b)).opts(&Opts::all8()).seeds(&[0, 1]));
    }
}

pub fn initialisers(th: bool, out: Sink) {
    for t in TYS {
        let c = t.c; let r = |e: &str| rec(e, t.fp());
        // arrays: every length x every number of initialisers, at file and block scope, re-executed in a loop
        for n in 1..=(if th { 6 } else { 4 }) { for k in 1..=n { for (pl, e) in [("glo", 0), ("loc", 1), ("loop", 2), ("env", 3)] {
            let vals: Vec<String> = (0..k).map(|i| if e == 3 { format!("x + {i}") } else { (i + 5).to_string() }).collect();
            let d = format!("{c} a[{n}] = {{{}}};", vals.join(", "));
            let dump: String = (0..n).map(|i| r(&format!("a[{i}]"))).collect::<Vec<_>>().join(" ");
            let body = match e { 0 => format!("{dump} a[0] = 1; {dump}"), 1 => format!("char u = 1; {d} char w = 2; {dump} strtol(u); strtol(w);"), 2 => format!("int q; for (q = 0; q < 2; q++) {{ {d} {dump} a[{}] = 99; a[0] = 98; }}", n - 1), _ => format!("{c} x; {} {d} {dump}", env("x", t.tiny())) };
            out(Case::new(format!("C15/arr/{}/{pl}/{n}/{k}", t.id), prog(&if e == 0 { format!("char u = 1; {d} char w = 2;\n") } else { String::new() }, &body)).opts(if e > 0 { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
            if n == k { let d = format!("{c} a[] = {{{}}};", vals.join(", ")); let d2 = format!("{c} a[] = {{{},}};", vals.join(", "));
                let body = match e { 0 => dump.clone(), 1 | 2 => format!("{d2} {dump}"), _ => format!("{c} x = 3; {d} {dump}") };
                out(Case::new(format!("C15/ded/{}/{pl}/{n}", t.id), prog(&if e == 0 { format!("{d}\n") } else { String::new() }, &format!("{body} strtol(sizeof(a)); strtol(sizeof(a) / sizeof(a[0]));")))); }
        } } }
        // every partial shape of a two-dimensional array
        for rows in 1..=2 { for k0 in 1..=2 { for k1 in 0..=2 { if rows == 1 && k1 > 0 || rows == 2 && k1 == 0 { continue; } for (pl, g) in [("glo", true), ("loc", false)] { for ded in [false, true] {
            let row = |n: usize, b: usize| format!("{{{}}}", (0..n).map(|i| (b + i).to_string()).collect::<Vec<_>>().join(", "));
            let d = format!("{c} m[{}][2] = {{{}{}}};", if ded { String::new() } else { "2".into() }, row(k0, 5), if rows == 2 { format!(", {}", row(k1, 8)) } else { String::new() });
            let rs = if ded { rows } else { 2 };
            let dump: String = (0..rs * 2).map(|i| r(&format!("m[{}][{}]", i / 2, i % 2))).collect::<Vec<_>>().join(" ");
            out(Case::new(format!("C15/two/{}/{pl}/{rows}{k0}{k1}/{ded}", t.id), prog(&if g { format!("{d}\n") } else { String::new() }, &format!("{} {dump} strtol(sizeof(m));", if g { "" } else { &d }))));
        } } } } }
        // structs: every number of initialisers for members of this type and others
        for k in 1..=4 { for (pl, e) in [("glo", 0), ("loc", 1), ("loop", 2), ("env", 3)] {
            let vals: Vec<String> = (0..k).map(|i| if e == 3 { format!("x + {i}") } else { (i + 5).to_string() }).collect();
            let d = format!("struct S s = {{{}}};", vals.join(", "));
            let dump = format!("strtol(s.a); {} strtol(s.c); {}", r("s.b"), r("s.d"));
            let body = match e { 0 => dump.clone(), 1 => format!("char u = 1; {d} char w = 2; {dump} strtol(u); strtol(w);"), 2 => format!("int q; for (q = 0; q < 2; q++) {{ {d} {dump} s.a = 98; s.b = 97; s.c = 96; s.d = 95; }}"), _ => format!("{c} x; {} {d} {dump}", env("x", t.tiny())) };
            out(Case::new(format!("C15/str/{}/{pl}/{k}", t.id), prog(&format!("struct S {{ char a; {c} b; long c; {c} d; }};\n{}", if e == 0 { format!("{d}\n") } else { String::new() }), &body)).opts(if e > 0 { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
        } }
        // arrays of structs, structs of arrays, nesting
        for (i, (g, d, dump)) in [("struct S { char a; T b; };\n", "struct S v[3] = {{1, 2}, {3}, {4, 5}};", "strtol(v[K].a); R(v[K].b)"), ("struct S { T a[3]; char b; };\n", "struct S v[3] = {{{1, 2, 3}, 4}, {{5}}, {{6, 7}, 8}};", "R(v[K].a[0]) R(v[K].a[1]) R(v[K].a[2]) strtol(v[K].b);"), ("struct I { char x; T y; };\nstruct S { T p; struct I i; char q; };\n", "struct S v[3] = {{1, {2, 3}, 4}, {5, {6}}, {7}};", "R(v[K].p) strtol(v[K].i.x); R(v[K].i.y) strtol(v[K].q);"), ("struct I { T y[2]; };\nstruct S { struct I i[2]; char q; };\n", "struct S v[3] = {{{{{1, 2}}, {{3}}}, 4}, {{{{5}}}}};", "R(v[K].i[0].y[0]) R(v[K].i[0].y[1]) R(v[K].i[1].y[0]) R(v[K].i[1].y[1]) strtol(v[K].q);"), ("struct S { T *p; char *s; T t; };\nT gx = 7;\n", "struct S v[3] = {{&gx, \"ab\", 1}, {0, \"c\", 2}, {&gx}};", "strtol(v[K].p == &gx); strtol(v[K].s ? v[K].s[0] : 99); R(v[K].t)")].iter().enumerate() {
            let rp = |s: &str, k: usize| { expand(&s.replace('T', c).replace('K', &k.to_string()), "R", &r) };
            let dd: String = (0..3).map(|k| rp(dump, k)).collect::<Vec<_>>().join(" ");
            for pl in ["glo", "loc", "loop"] { out(Case::new(format!("C15/nest/{}/{i}/{pl}", t.id), prog(&format!("{}{}", g.replace('T', c), if pl == "glo" { format!("{d}\n") } else { String::new() }), &match pl { "glo" => dd.clone(), "loc" => format!("char u = 1; {d} {dd} strtol(u);"), _ => format!("int q; for (q = 0; q < 2; q++) {{ {d} {dd} v[2] = v[0]; v[1] = v[0]; }}") })).opts(&two())); }
        }
        // scalars: several declarators, each using the earlier ones
        out(Case::new(format!("C15/decls/{}", t.id), prog("", &format!("{c} a = 1, b = a + 1, *p = &a, d[2] = {{a, b}}, e = *p + d[1], **q = &p; {} {} {} {} {} {} {}", r("a"), r("b"), r("*p"), r("d[0]"), r("d[1]"), r("e"), r("**q")))).opts(&two()));
        out(Case::new(format!("C15/gdecls/{}", t.id), prog(&format!("{c} a = 1, b = 1 + 2 * 3, *p = &a, d[2] = {{4, 5}}, *q = d + 1;\n"), &format!("{} {} {} {} {} {} *p = 9; {}", r("a"), r("b"), r("*p"), r("d[0]"), r("d[1]"), r("*q"), r("a")))));
        // initialisers evaluated where control passes them
        for (i, b) in ["while (strlen(2001)) { T a = strlen(3002); R(a) a = a + 1; R(a) }", "switch (strlen(3000)) { case 0: { T a = 5; R(a) } case 1: { T b = 6; R(b) break; } default: { T z = 7; R(z) } }", "{ T a = 1; { T a = 2; R(a) } R(a) } { T a = 3; R(a) }", "int k; for (k = 0; k < 2; k++) { T a[2] = {k + 1}; R(a[0]) R(a[1]) a[1] = 9; }", "if (strlen(2000)) { T a = 4; R(a) } else { T a = 5, b = a + 1; R(b) }", "l: ; T a = 3; R(a) a = 8; if (strlen(2001)) goto l; R(a)"].iter().enumerate() {
            let s = expand(&b.replace('T', c), "R", &r);
            out(Case::new(format!("C15/flow/{}/{i}", t.id), prog("", &s)).opts(&two()));
        }
    }
    // character arrays from string literals: every length of string x every size of array
    for s in 0..=(if th { 8 } else { 5 }) { for n in 0..=(if th { 9 } else { 6 }) { if n != 0 && n < s { continue; } for (pl, g) in [("glo", true), ("loc", false)] { for (cn, c) in [("c", "char"), ("uc", "unsigned char")] {
        let lit: String = (0..s).map(|i| (b'a' + i as u8) as char).collect();
        let d = format!("{c} a[{}] = \"{lit}\";", if n == 0 { String::new() } else { n.to_string() });
        let len = if n == 0 { s + 1 } else { n };
        let dump = (0..len).map(|i| format!("strtol(a[{i}]);")).collect::<Vec<_>>().join(" ");
        out(Case::new(format!("C15/chars/{pl}/{cn}/{s}/{n}"), prog(&if g { format!("char u = 1; {d} char w = 2;\n") } else { String::new() }, &format!("{} {dump} strtol(sizeof(a)); a[0] = 'z'; strtol(a[0]); {}", if g { String::new() } else { format!("char u = 1; {d} char w = 2;") }, "strtol(u); strtol(w);"))));
        if !g && n > 0 { out(Case::new(format!("C15/charsloop/{cn}/{s}/{n}"), prog("", &format!("int q; for (q = 0; q < 2; q++) {{ {d} {dump} int k; for (k = 0; k < {n}; k++) a[k] = 'x'; }}")))); }
    } } } }
    // string literals made of any characters, null characters among them, as initialisers of arrays of every size and of pointers
    let al = ["a", "\\0", "\\377", "\\n", "\\\""];
    for len in 1..=(if th { 4 } else { 3 }) { seqs(len, if th || len < 3 { 5 } else { 3 }, &mut |v| {
        let lit: String = v.iter().map(|&k| al[k]).collect(); let id: String = v.iter().map(|k| k.to_string()).collect();
        for n in [0, len, len + 1, len + 3] { for (pl, g) in [("glo", true), ("loc", false)] {
            let d = format!("char a[{}] = \"{lit}\";", if n == 0 { String::new() } else { n.to_string() });
            let size = if n == 0 { len + 1 } else { n };
            let dump = (0..size).map(|i| format!("strtol(a[{i}]);")).collect::<Vec<_>>().join(" ");
            out(Case::new(format!("C15/embed/{pl}/{id}/{n}"), prog(&if g { format!("{d} char w = 2;\n") } else { String::new() }, &format!("{} {dump} strtol(sizeof(a)); strtol(w);", if g { String::new() } else { format!("{d} char w = 2;") }))));
        }
            let dump = |e: &str| (0..=len).map(|i| format!("strtol({e}[{i}]);")).collect::<Vec<_>>().join(" ");
            if n == 0 { out(Case::new(format!("C15/embedp/{id}"), prog(&format!("struct S {{ char c[{}]; char *p; int v; }};\nchar *g = \"{lit}\"; struct S gs = {{\"{lit}\", \"{lit}\", 7}};\n", len + 1), &format!("char *p = \"{lit}\"; {} {} {} {} strtol(sizeof(\"{lit}\")); strtol(gs.v);", dump("p"), dump("g"), dump("gs.c"), dump("gs.p"))))); }
        }
    }); }
    for (i, (g, b)) in [("", "char *s = \"abc\"; strtol(s[0]); strtol(s[3]); s++; strtol(*s);"), ("char *t[] = {\"a\", \"bc\", \"\"};\n", "int k; for (k = 0; k < 3; k++) { strtol(t[k][0]); } strtol(t[1][1]); strtol(sizeof(t));"), ("", "char *t[3] = {\"x\", \"yz\"}; strtol(t[0][0]); strtol(t[1][1]); strtol(t[2] == 0);"), ("char m[2][4] = {\"ab\", \"cde\"};\n", "int k; for (k = 0; k < 8; k++) strtol(m[k / 4][k % 4]);"), ("", "char m[2][3] = {\"ab\", \"c\"}; int k; for (k = 0; k < 6; k++) strtol(m[k / 3][k % 3]);"), ("struct S { char n[4]; int v; };\n", "struct S s = {\"ab\", 7}; strtol(s.n[0]); strtol(s.n[2]); strtol(s.n[3]); strtol(s.v);"), ("struct S { char n[4]; int v; } t[2] = {{\"ab\", 7}, {\"xyz\", 8}};\n", "strtol(t[0].n[1]); strtol(t[0].n[3]); strtol(t[1].n[2]); strtol(t[1].v);"), ("enum E { A = 3, B };\n", "enum E e = B; enum E v[2] = {A, B}; strtol(e); strtol(v[0]); strtol(v[1]);"), ("int x = 5; int *p = &x; int **q = &p;\n", "**q = 6; strtol(x); strtol(*p);"), ("int a[3] = {1, 2, 3}; int *p = a + 1; int *e = &a[2];\n", "strtol(*p); strtol(*e); strtol(e - p);"), ("", "int n = 3; int v[2] = {n++, n++ + 10}; strtol(v[0] + v[1] > 0); strtol(n);"), ("int f() { strlen(5); return 4; }\n", "int v[3] = {f(), f() + 1}; strtol(v[0]); strtol(v[1]); strtol(v[2]);")].iter().enumerate() {
        out(Case::new(format!("C15/misc/{i}"), prog(g, b)).opts(&two()));
    }
}

pub fn globals(th: bool, out: Sink) {
    for a in TYS { for b in TYS {
        // two globals and a function that stores to each, called in an order the environment picks
        let (ra, rb) = (rec("x", a.fp()), rec("y", b.fp()));
        for (i, (xi, yi)) in [("", ""), (" = 3", ""), ("", " = 4"), (" = 5", " = 6")].iter().enumerate() {
            if !th && i != 3 && (a.d + b.d) % 3 != 0 { continue; }
            out(Case::new(format!("C16/two/{}/{}/{i}", a.id, b.id), prog(&format!("char g0 = 1; {} x{xi}; char g1; {} y{yi}; char g2 = 2;\nvoid sx() {{ int l = 9; {} x = x + 1; }}\nvoid sy() {{ char l = 9; {} y = 7; }}\nint d() {{ {ra} {rb} strtol(g0); strtol(g1); strtol(g2); return 0; }}\n", a.c, b.c, ra, rb), "char l = 4; d(); if (strlen(2000)) sx(); else sy(); d(); if (strlen(2001)) { sy(); sx(); } d(); strtol(l);")).opts(if i == 3 { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
        }
    } }
    // every history of stores, loads and calls over globals of different kinds
    let ops = ["x = x + 1;", "s.m = x;", "a[1] = s.m + 2;", "f();", "p = &a[1];", "*p = 30;", "x = *p;", "c = x;", "{ long l = c; c = c + 1; strtol(l); }", "if (x > 2) g();"];
    for n in 1..=(if th { 4 } else { 3 }) { let mut k = 0; seqs(n, ops.len(), &mut |v| {
        k += 1;
        let s: String = v.iter().map(|i| ops[*i]).collect::<Vec<_>>().join(" ");
        out(Case::new(format!("C16/hist{n}/{k}"), prog("int x; struct S { char q; int m; } s; short a[3] = {4, 5}; short *pi; char c = 6; char *str = \"hi\";\nint y = 8; short *p = a;\nvoid f() { int l[3] = {1, 2, 3}; x += l[2]; a[0] = x; }\nvoid g() { x = s.m; f(); str = \"there\"; }\n", &format!("char l0 = 1; {s} strtol(l0); strtol(x); strtol(s.q); strtol(s.m); strtol(a[0]); strtol(a[1]); strtol(a[2]); strtol(c); strtol(y); strtol(p == a); strtol(pi == 0); strtol(str[1]);"))).opts(if n < 3 || th { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
    }); }
    // string literals of every length: NUL terminated, distinct, unaffected by each other, the globals and the stack
    let maxs = if th { 300 } else { 40 };
    for n in (0..maxs).chain([126, 127, 128, 129, 255, 256, 1000, 16383, 16384, 16385]) {
        if n >= maxs || n < maxs { let lit: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            for (pl, g, d) in [("loc", String::new(), format!("char *s = \"{lit}\";")), ("glo", format!("int before = 77; char *s = \"{lit}\"; int after = 88;\n"), String::new())] {
                if pl == "glo" && n > 300 && n < 16000 { continue; }
                out(Case::new(format!("C16/len/{pl}/{n}"), prog(&g, &format!("char *z = \"end\"; {d} char *t = \"start\"; int k = 0; while (s[k]) {{ if (s[k] != 'a' + k % 26) strtol(k); k++; }} strtol(k); strtol(z[0]); strtol(z[3]); strtol(t[4]); strtol(t[5]); {}", if pl == "glo" { "strtol(before); strtol(after);" } else { "" }))).fuel(3_000_000));
            } }
    }
    for n in 1..=(if th { 60 } else { 12 }) { // many literals and many globals
        let lits: Vec<String> = (0..n).map(|i| format!("\"{}\"", (0..i % 5).map(|j| (b'a' + ((i + j) % 26) as u8) as char).collect::<String>())).collect();
        let dump: String = (0..n).map(|i| format!("strtol(*{});", lits[i])).collect::<Vec<_>>().join(" ");
        let gl: String = (0..n).map(|i| format!("{} g{i} = {i};", TYS[i % 8].c)).collect::<Vec<_>>().join(" ");
        out(Case::new(format!("C16/many/{n}"), prog(&format!("{gl} char *t[{n}] = {{{}}};\n", lits.join(", ")), &format!("int k; {dump} for (k = 0; k < {n}; k++) {{ char *p = t[k]; while (*p) strtol(*p++); }} {} g0 = 5; {}", (0..n).map(|i| format!("strtol(g{i});")).collect::<Vec<_>>().join(" "), (0..n).map(|i| format!("strtol(g{i});")).collect::<Vec<_>>().join(" ")))).fuel(1_000_000));
    }
    // arguments, globals, literals and the stack do not overlap, for every combination of arguments
    let args: [&str; 5] = ["", "a", "xyz", "hello world", "0123456789012345678901234567890123456789"];
    for n in 0..=(if th { 4 } else { 3 }) { seqs(n, args.len(), &mut |v| {
        if n == 3 && !th && v[0] != v[2] && v[0] != v[1] { return; }
        let av: Vec<&str> = std::iter::once("prog").chain(v.iter().map(|i| args[*i])).collect();
        let src = format!("{PRE}int g0 = 11; long g1; char *gs = \"lit\"; double gd = 2.5; int ga[40];\nint len(char *s) {{ int n = 0; while (s[n]) n++; return n; }}\nint deep(int n) {{ int l[5]; l[n] = n; if (n) return deep(n - 1) + l[n]; return l[0]; }}\nint main(int argc, char **argv) {{ int k; int l0 = 3; char buf[30]; strtol(argc); for (k = 0; k < argc; k++) {{ strstr(argv[k], len(argv[k])); }} strtol(g0); strtol(g1); strtoul(gd); g1 = -1; g0 = 12; for (k = 0; k < 40; k++) {{ strtol(ga[k]); ga[k] = -1; }} for (k = 0; k < 30; k++) buf[k] = k; strtol(deep(4)); for (k = 0; k < argc; k++) {{ strstr(argv[k], len(argv[k]) + 1); }} strtol(g0); strtol(g1); strtol(gs[2]); strtol(l0); strtol(buf[29]); argc = argc + 1; strtol(argc); return argc; }}\n");
        out(Case::new(format!("C16/argv/{n}/{}", v.iter().map(|i| i.to_string()).collect::<String>()), src).argv(&av).opts(if n < 2 { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }).fuel(1_000_000));
    }); }
    // initialisers of globals that use other globals' addresses, strings and constant expressions; control flow in initialisers
    for (i, (g, b)) in [("int x = 1 ? 2 : 3; int y = 1 && 0; int z = (4, 5) + !0;\n", "strtol(x); strtol(y); strtol(z);"), ("char *a = \"x\"; char *b = \"x\"; char c[] = \"x\"; char d[] = \"x\";\n", "c[0] = 'y'; strtol(*a); strtol(*b); strtol(*c); strtol(*d); strtol(c == d); strtol(a == c);"), ("struct S { int a; char *s; } t = {3, \"q\"}; struct S *pt = &t;\n", "strtol(pt->a); strtol(*pt->s); pt->a = 4; strtol(t.a);"), ("int a[2] = {1, 2}; int *p[2] = {a, a + 1}; int **q = p;\n", "strtol(*q[1]); *q[0] = 9; strtol(a[0]);"), ("int n = 0;\nint f() { n++; return n; }\nint g() { return n * 10 + f(); }\n", "strtol(f()); strtol(g()); strtol(n); n = 100; strtol(g());"), ("double d = 1; float f = 1.5; long l = -1; unsigned u = -1; char c = 300; unsigned char uc = -1;\n", "strtoul(d); strtoul(f); strtol(l); strtol(u); strtol(c); strtol(uc);"), ("int big[3000]; char tail = 5;\n", "int k; long s = 0; strtol(tail); for (k = 0; k < 3000; k++) { s += big[k]; big[k] = k; } strtol(s); strtol(big[2999]); strtol(tail);"), ("int x; int x = 4; int x;\n", "strtol(x); x++; strtol(x);"), ("int x;\nint f() { return x; }\nint x = 4;\n", "strtol(f()); x = 6; strtol(f());")].iter().enumerate() {
        out(Case::new(format!("C16/ginit/{i}"), prog(g, b)).opts(&Opts::all8()).seeds(&[0, 1]).fuel(1_000_000));
    }
}

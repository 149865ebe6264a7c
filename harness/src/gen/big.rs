//! Sizes: in every part of the language the counts, offsets and lengths pass the widths that a
//! byte, a signed byte or a short can hold. One family per property (`Cxx/far…`).
use super::*;

const W: [usize; 10] = [1, 1, 2, 2, 4, 4, 8, 8, 4, 8];
/// byte sizes around the boundaries
fn sizes(th: bool) -> Vec<usize> { if th { (1..300).chain(509..515).chain(1021..1027).collect() } else { vec![3, 64, 127, 128, 129, 254, 255, 256, 257] } }
/// element counts around the boundaries
fn counts(th: bool) -> Vec<usize> { if th { (2..140).chain(250..260).chain([300, 512]).collect() } else { vec![8, 31, 33, 63, 65, 127, 128, 129, 255, 257] } }
fn cat(n: usize, f: &dyn Fn(usize) -> String) -> String { (0..n).map(f).collect() }
fn list(n: usize, sep: &str, f: &dyn Fn(usize) -> String) -> String { (0..n).map(f).collect::<Vec<_>>().join(sep) }
fn place(d: &str) -> [(&'static str, String, String); 3] { [("loc", String::new(), d.into()), ("glo", d.into(), String::new()), ("sta", String::new(), format!("static {d}"))] }

pub fn pointers(th: bool, out: Sink) {
    // elements far into an array, by every form of access
    for t in TYS { let mut last = 0; for b in sizes(th) { let n = (b / W[t.d as usize - 1] + 1).max(3); if n == last { continue; } last = n;
        for (pn, g, d) in place(&format!("{} a[{n}]; ", t.c)) { if !th && pn == "sta" && t.d != 3 { continue; }
            let r = |e: &str| rec(e, t.fp());
            out(Case::new(format!("C13/far/{pn}/{}/{n}", t.id), prog(&g, &format!("char u = 1; {d} char w = 2; int i; unsigned long s = 0; for (i = 0; i < {n}; i++) a[i] = i % 100 + 1; {t} *p = a + {m}; i = {m}; long li = i; unsigned char ui = {ui}; {} {} {} {} {} {} {} {} strtol(p - a); strtol(&a[i] - &a[1]); strtol((char *)&a[i] - (char *)a); *p = 5; a[i - 1] = 6; a[1] += 2; p[-{k}]++; for (i = 0; i < {n}; i++) s = s * 3 + (int)a[i]; strtol(s); strtol(sizeof a); strtol(u); strtol(w); p = a; p += {m}; strtol(p == &a[{m}]); p -= {k}; {} {}", r(&format!("a[{}]", n - 1)), r("a[i]"), r("*(a + i)"), r(&format!("p[-{}]", n - 2)), r("(i - 1)[a]"), r("*(p - 1)"), r("a[li]"), r("a[ui]"), r("*p"), r("*p--"), t = t.c, m = n - 1, k = n - 2, ui = (n - 1).min(255)))).opts(if t.d == 5 { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
        } } }
    // wide elements, wide rows
    for b in sizes(th) { if b < 2 { continue; }
        for (pn, g, d) in place("struct E a[3]; ") {
            out(Case::new(format!("C13/farelem/{pn}/{b}"), prog(&format!("struct E {{ char c[{}]; char m; }};\n{g}int at(struct E *p, int i) {{ return p[i].m * 3 + p[i].c[0]; }}\n", b - 1), &format!("char u = 1; {d} char w = 2; int i; struct E *p = a; struct E *q; for (i = 0; i < 3; i++) {{ a[i].m = i + 1; a[i].c[{e}] = i + 5; a[i].c[0] = i + 9; }} for (i = 0; i < 3; i++) strtol(at(a, i)); p++; strtol(p->m); q = p + 1; strtol(q->c[0]); strtol(q - a); strtol(q - p); strtol(&a[2] - &a[0]); strtol((char *)q - (char *)a); --q; strtol(q == p); q += 1; q->m = 7; strtol((q - 2)->c[{e}]); strtol(*(a[1].c + {e})); a[0] = a[2]; strtol(at(a, 0)); strtol(at(a + 1, -1)); strtol((*(a + 2)).m); strtol(sizeof a); strtol(sizeof(struct E)); strtol(q > p); strtol(u); strtol(w);", e = b - 2))).opts(&two()));
        }
        for (pn, g, d) in place(&format!("char a[3][{b}]; ")) { if pn == "sta" { continue; }
            out(Case::new(format!("C13/farrow/{pn}/{b}"), prog(&g, &format!("char u = 1; {d} char w = 2; int i; int j; unsigned long s = 0; for (i = 0; i < 3; i++) for (j = 0; j < {b}; j++) a[i][j] = (i * 50 + j) % 120; char (*r)[{b}] = a + 1; strtol(r[1][{m}]); strtol((*r)[{m}]); strtol(*(*(r - 1) + {m})); r++; strtol((*r)[0]); strtol(r - a); r[-1][{m}] = 3; char *p = a[2]; strtol(p[-1]); strtol(p - a[0]); strtol(*(a[1] + {m})); for (i = 0; i < 3; i++) for (j = 0; j < {b}; j++) s = s * 3 + a[i][j]; strtol(s); strtol(sizeof a); strtol(sizeof a[0]); strtol(sizeof *r); strtol(u); strtol(w);", m = b - 1))));
        }
    }
    // objects of tens of thousands of bytes
    for n in [32766usize, 32767, 32768, 32769, 33000, 40000] {
        out(Case::new(format!("C13/farbig/{n}"), prog(&format!("char a[{n}];\nchar z = 5;\n"), &format!("int i = strlen(3000) ? {m} : {k}; a[i] = 3; a[{m}] = a[i] + 4; strtol(a[i]); strtol(a[{m}]); char *p = a + {m}; strtol(p - a); strtol(*p); strtol(p[-{m}]); *a = 9; strtol(p[-{m}]); p -= {k}; strtol(p - a); strtol(z); strtol(sizeof a);", m = n - 1, k = n - 2))));
        out(Case::new(format!("C13/farbig2/{n}"), prog("", &format!("char z = 5; long a[{q}]; char y = 6; int i = strlen(3000) ? {m} : {k}; a[i] = 3; a[{m}] = a[i] + 4; strtol(a[i]); strtol(a[{m}]); long *p = a + {m}; strtol(p - a); strtol(*p); p[-{m}] = 1; *a = *a + 8; strtol(p[-{m}]); p -= {k}; strtol(p - a); strtol(z); strtol(y); strtol(sizeof a);", q = n / 8, m = n / 8 - 1, k = n / 8 - 2))));
    }
}

pub fn aggregates(th: bool, out: Sink) {
    let paths: [(&str, &str, &str, &str, &str); 12] = [("var", "", "", "struct S v;", "v."), ("ptr", "", "", "struct S x; struct S *v = &x;", "v->"), ("star", "", "", "struct S x; struct S *v = &x;", "(*v)."), ("arr", "", "", "struct S v[2]; v[0].m = 50; v[0].z = 51;", "v[1]."), ("arp", "", "", "struct S x[2]; struct S *v = x; v->m = 50; v++;", "v->"), ("glo", "", "struct S v;", "", "v."), ("gptr", "", "struct S x; struct S *v;", "v = &x;", "v->"),
        ("nest", "", "struct T { char k; struct S i; char l; };", "struct T v; v.k = 50; v.l = 51;", "v.i."), ("nptr", "", "struct T { char k; struct S i; char l; };", "struct T x; struct T *v = &x; v->k = 50; v->l = 51;", "v->i."), ("iptr", "", "struct T { char k; struct S *i; char l; };", "struct S x; struct T v; v.i = &x;", "v.i->"), ("pp", "", "", "struct S x; struct S *y = &x; struct S **v = &y;", "(*v)->"), ("uni", "", "union V { char c; struct S i; };", "union V v;", "v.i.")];
    for b in sizes(th) { for t in TYS { if !th && !matches!(t.d, 1 | 4 | 5 | 7 | 10) { continue; } for (pn, g1, g2, d, l) in paths { if !th && matches!(t.d, 4 | 10) && !matches!(pn, "var" | "ptr" | "arr" | "glo") { continue; }
        let r = |e: &str| rec(e, t.fp());
        let all = format!("strtol({l}pad[0]); strtol({l}pad[{}]); {} strtol({l}z);", b - 1, r(&format!("{l}m")));
        out(Case::new(format!("C14/far/{pn}/{}/{b}", t.id), prog(&format!("{g1}struct S {{ char pad[{b}]; {t} m; char z; }};\n{g2}\nvoid set(struct S *p) {{ p->m = p->m + 1; p->z = p->z + 1; p->pad[{e}]--; }}\n{t} get(struct S *p) {{ return p->m; }}\n", t = t.c, e = b - 1), &format!("char u = 1; {d} char w = 2; {l}pad[0] = 3; {l}pad[{e}] = 4; {l}m = 5; {l}z = 6; {all} {l}m += 2; {l}z++; {all} {t} *q = &{l}m; *q = *q + 1; {all} strtol((char *)q - {l}pad); strtol(&{l}z - {l}pad); {l}pad[{e}] = 8; {all} strtol({l}m-- == {l}z); {all} {ptr} strtol(sizeof(struct S)); strtol(u); strtol(w);", t = t.c, e = b - 1, ptr = format!("set((struct S *){l}pad); {all} {}", r(&format!("get((struct S *)&{l}pad[0])"))))))
            .opts(if t.d == 5 { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
    } }
        // copies of the whole object, and unions as wide
        let s = format!("struct S {{ char a; char pad[{b}]; int m; char z; }};\nint sum(struct S x) {{ x.z++; return x.a + x.pad[0] * 3 + x.pad[{e}] * 5 + x.m * 7 + x.z * 11; }}\nstruct S mk(int k) {{ struct S r; r.a = k; r.pad[0] = k + 1; r.pad[{e}] = k + 2; r.m = k + 3; r.z = k + 4; return r; }}\nint two(int x, struct S p, char y, struct S q, long z) {{ return x + sum(p) * 3 + y * 5 + sum(q) * 7 + z * 11; }}\nstruct S pass(int n, struct S p) {{ if (n == 0) return p; p.m++; return pass(n - 1, p); }}\nstruct S g;\n", e = b - 1);
        for (i, c) in ["x = y; strtol(sum(x));", "struct S q = y; y.z = 0; strtol(sum(q));", "v[1] = y; v[0] = v[1]; strtol(sum(v[0]));", "*(&x) = *(&y); strtol(sum(x));", "g = y; x = g; strtol(sum(g) + sum(x));", "x = mk(20); strtol(sum(x));", "strtol(sum(mk(30))); strtol(mk(31).m);", "strtol(two(1, x, 2, y, 3));", "strtol(two(1, mk(5), 2, mk(9), 3));", "strtol(sum(pass(3, y)));", "x = y; y = mk(2); v[0] = x; v[1] = y; struct S t = v[0]; v[0] = v[1]; v[1] = t; strtol(sum(v[0])); strtol(sum(v[1]));", "x = strlen(2000) ? y : mk(7); strtol(sum(x));", "v[0] = v[1] = x = y; strtol(sum(v[0]) + sum(v[1]) + sum(x));"].iter().enumerate() {
            out(Case::new(format!("C14/farcopy/{i}/{b}"), prog(&s, &format!("char u = 1; struct S x = mk(1); char w = 2; struct S y = mk(8); char o = 3; struct S v[2]; v[0] = x; v[1] = y; {c} strtol(sum(x)); strtol(sum(y)); strtol(u); strtol(w); strtol(o);"))).opts(if i < 10 && !th { &[Opts::DEFAULT] } else { &[Opts::DEFAULT, Opts::NONE] }));
        }
        out(Case::new(format!("C14/farunion/{b}"), prog(&format!("union V {{ char c; char pad[{b}]; short h; struct {{ char q[{e}]; char k; int n; }} s; }};\nunion V g;\n", e = b - 1), &format!("char u = 1; union V v; char w = 2; union V *p = &v; int i; for (i = 0; i < {b}; i++) v.pad[i] = i % 100; strtol(v.c); strtol(p->s.k); strtol(p->s.q[0]); p->s.n = 77; strtol(v.pad[{e}]); v.h = 513; strtol(v.c); strtol(p->pad[1]); g = v; strtol(g.s.n); strtol(g.pad[{e}]); v = *p; strtol(v.s.n); strtol(sizeof(union V)); strtol(u); strtol(w);", e = b - 1))).opts(&two()));
    }
    // structs of many members, all written and all read
    for n in counts(th) { if n > if th { 300 } else { 130 } { continue; }
        let c = |k: usize| ["char", "long", "int", "short", "double"][k % 5];
        out(Case::new(format!("C14/farmem/{n}"), prog(&format!("struct S {{ {} }};\nlong all(struct S *p) {{ unsigned long s = 0; {} return s; }}\n", cat(n, &|k| format!("{} m{k}; ", c(k))), cat(n, &|k| format!("s = s * 3 + (long)p->m{k}; "))), &format!("struct S s; {} strtol(all(&s)); struct S t = s; t.m{} = 9; strtol(all(&t)); strtol(all(&s)); strtol(sizeof s);", cat(n, &|k| format!("s.m{k} = {}; ", k % 100)), n / 2))));
    }
}

pub fn initialisers(th: bool, out: Sink) {
    for n in counts(th) { if n > 260 && !th { continue; }
        for t in TYS { if !th && !matches!(t.d, 1 | 3 | 5 | 7 | 10) { continue; }
            let v = list(n, ", ", &|k| format!("{}", (k * 7 + 1) % 101));
            for (pn, g, d) in place(&format!("{} a[] = {{{v}}}; {} b[{}] = {{{v}}}; ", t.c, t.c, n + 3).replace("; ", ";\n")) {
                if pn == "sta" || !th && pn == "loc" && n > 130 && t.d != 5 { continue; }
                out(Case::new(format!("C15/far/{pn}/{}/{n}", t.id), prog(&g, &format!("char u = 1; {d} char w = 2; int i; unsigned long s = 0; for (i = 0; i < {n}; i++) s = s * 3 + (int)a[i]; strtol(s); for (i = 0; i < {}; i++) s = s * 3 + (int)b[i]; strtol(s); strtol(sizeof a); strtol(sizeof b); strtol(u); strtol(w);", n + 3))));
            } }
        let sv = list(n, ", ", &|k| format!("{{{}, {}}}", k % 100, k * 3));
        let rows = list(n, ", ", &|k| format!("{{{}, {}}}", k % 100, (k * 3) % 100));
        let strs = list(n, ", ", &|k| format!("\"s{k}\""));
        for (i, (d, e)) in [(format!("struct E {{ char c; int m; }}; struct E a[] = {{{sv}}};"), "a[i].c + a[i].m * 3"), (format!("short a[][2] = {{{rows}}};"), "a[i][0] + a[i][1] * 3"), (format!("char a[][6] = {{{strs}}};"), "a[i][0] + a[i][1] * 3 + a[i][2] * 5 + a[i][5]"), (format!("char *a[] = {{{strs}}};"), "a[i][0] + a[i][1] * 3 + a[i][2] * 5"), (format!("struct E {{ char c[4]; int m; }}; struct E a[{}] = {{{}}};", n + 2, list(n, ", ", &|k| format!("{{\"x{}\", {k}}}", k % 10))), "a[i].c[0] + a[i].c[1] * 3 + a[i].c[3] + a[i].m * 5")].iter().enumerate() {
            if !th && n > 130 && i > 1 { continue; }
            for glo in [false, true] { if !th && !glo && n > 70 { continue; }
                out(Case::new(format!("C15/faragg/{i}/{glo}/{n}"), prog(if glo { d } else { "" }, &format!("char u = 1; {} char w = 2; int i; unsigned long s = 0; for (i = 0; i < {n}; i++) {{ s = s * 3 + ({e}); }} strtol(s); strtol(sizeof a); strtol(u); strtol(w);", if glo { "" } else { d }))));
            } }
    }
    // members and elements far into the object
    for b in sizes(th) {
        let s: String = cat(b - 1, &|k| ((b'a' + (k % 26) as u8) as char).to_string());
        for (i, d) in [format!("struct S {{ char pad[{b}]; int m; char z; }}; struct S a = {{{{1}}, 7, 8}};"), format!("struct S {{ char pad[{b}]; int m; char z; }}; struct S a = {{\"abc\", 7}};").replace("abc", if b > 3 { "abc" } else { "a" }), format!("struct S {{ char pad[{b}]; int m; char z; }}; struct S a = {{\"{s}\", 7, 9}};"), format!("struct S {{ char pad[{b}]; int m; char z; }}; struct S a = {{{{{}}}, 7, 9}};", list(b, ", ", &|k| format!("{}", k % 100)))].iter().enumerate() {
            for glo in [false, true] { if !th && !glo && i == 3 && b > 130 { continue; }
                out(Case::new(format!("C15/farmem/{i}/{glo}/{b}"), prog(if glo { d } else { "" }, &format!("char u = 1; {} char w = 2; int i; unsigned long s = 0; for (i = 0; i < {b}; i++) s = s * 3 + a.pad[i]; strtol(s); strtol(a.m); strtol(a.z); strtol(u); strtol(w);", if glo { "" } else { d }))).opts(if th { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
            } }
        for (i, d) in [format!("char a[] = \"{s}\";"), format!("char a[{}] = \"{s}\";", b + 2), format!("char a[{}] = \"{s}\";", b.max(2) - 1)].iter().enumerate() { for glo in [false, true] {
            out(Case::new(format!("C15/farstr/{i}/{glo}/{b}"), prog(if glo { d } else { "" }, &format!("char u = 1; {} char w = 2; int i; unsigned long s = 0; for (i = 0; i < sizeof a; i++) s = s * 3 + a[i]; strtol(s); strtol(sizeof a); strtol(u); strtol(w);", if glo { "" } else { d }))));
        } }
    }
}

pub fn globals(th: bool, out: Sink) {
    let c = |k: usize| ["char", "long", "int", "short", "double", "unsigned char"][k % 6];
    for n in counts(th) { if n > 66 && !(th && n < 131) { continue; }
        let sum = |p: &str| cat(n, &|k| format!("s = s * 3 + (long){p}{k}; "));
        out(Case::new(format!("C16/far/{n}"), prog(&format!("{}\nlong all() {{ unsigned long s = 0; {} return s; }}\n", cat(n, &|k| if k % 3 == 0 { format!("{} g{k};\n", c(k)) } else { format!("{} g{k} = {};\n", c(k), k % 100) }), sum("g")), &format!("strtol(all()); g{} = 9; strtol(all()); {} strtol(all());", n / 2, cat(n, &|k| format!("g{k} = {}; ", (k * 5) % 100))))).opts(if n < 70 { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
        out(Case::new(format!("C16/farstat/{n}"), prog(&format!("long all() {{ {} unsigned long s = 0; {} s0++; s{}++; return s; }}\n", cat(n, &|k| if k % 3 == 0 { format!("static {} s{k}; ", c(k)) } else { format!("static {} s{k} = {}; ", c(k), k % 100) }), sum("s"), n - 1), "strtol(all()); strtol(all()); strtol(all());")));
        out(Case::new(format!("C16/farlit/{n}"), prog(&format!("char *lit(int k) {{ switch (k) {{ {} }} return \"\"; }}\n", cat(n, &|k| format!("case {k}: return \"{}\"; ", match k % 3 { 0 => format!("s{k}"), 1 => format!("{}", "x".repeat(k / 3)), _ => format!("\\0{k}") }))), &format!("int i; unsigned long s = 0; for (i = 0; i < {n}; i++) {{ char *p = lit(i); int j; for (j = 0; j < 3 || p[j]; j++) {{ s = s * 3 + p[j]; if (!p[j]) break; }} }} strtol(s);"))));
    }
    // a wide object between others
    for b in sizes(th) { for (i, (t, acc)) in [(format!("struct S {{ int a; char p[{b}]; }};"), "o.p"), (format!("union V {{ int a; char p[{b}]; }};"), "o.p"), (format!("struct S {{ char p[{b}]; }};"), "o[1].p"), (String::new(), "o[2]")].iter().enumerate() {
        let decl = [format!("struct S o;"), "union V o;".into(), "struct S o[2];".into(), format!("char o[3][{b}];")][i].clone();
        for stat in [false, true] {
            let d = if stat { format!("static {decl}") } else { decl.clone() };
            let all = format!("strtol(x); strtol(y); strtol(z[0]); strtol(z[1]); strtol({acc}[0]); strtol({acc}[{}]);", b - 1);
            let body = format!("{all} {acc}[0] = 3; {acc}[{e}] = 4; {all} x = 7; y = 8; z[0] = 9; {all} int i; for (i = 0; i < {b}; i++) {acc}[i] = i % 100; {all}", e = b - 1);
            let vars = ["int x = 1;", "long y = 2;", "short z[2] = {5, 6};"];
            let s = if stat { prog(&format!("{t}\n"), &format!("static {} {d} static {} static {} {body}", vars[0], vars[1], vars[2])) } else { prog(&format!("{t}\n{}\n{d}\n{}\n{}\n", vars[0], vars[1], vars[2]), &body) };
            out(Case::new(format!("C16/farobj/{i}/{stat}/{b}"), s).opts(&two()).seeds(&[0, 1]));
        }
    } }
}

pub fn calls(th: bool, out: Sink) {
    let c = |k: usize| ["char", "long", "int", "short", "double", "unsigned char", "float", "unsigned int"][k % 8];
    for n in counts(th) { if n > 130 || !th && n > 65 && n != 128 { continue; }
        // every parameter is read, and written without changing the caller
        out(Case::new(format!("C08/far/{n}"), prog(&format!("long f({}) {{ unsigned long s = 0; {} a0 = 1; a{} = 2; return s; }}\n", list(n, ", ", &|k| format!("{} a{k}", c(k))), cat(n, &|k| format!("s = s * 3 + (long)a{k}; ")), n - 1), &format!("int x = 5; double y = 6; strtol(f({})); strtol(f({})); strtol(x); strtoul(y);", list(n, ", ", &|k| format!("{}", k % 100)), list(n, ", ", &|k| match k % 3 { 0 => "x".into(), 1 => "y".into(), _ => format!("x + {}", k % 50) })))).opts(&two()));
    }
    for b in sizes(th) {
        // frames as wide below, above and around the call
        for (i, body) in ["char p[B]; int k; p[0] = n; p[E] = n + 1; k = n; if (n > 0) k = k * 3 + f(n - 1, a + 1); return k * 5 + p[0] + p[E] + a;", "struct W { char q[B]; int m; }; struct W w; w.q[0] = n; w.q[E] = a; w.m = n * a; if (n > 0) return f(n - 1, a + 2) + w.m + w.q[0] * 3 + w.q[E] * 5; return w.m + w.q[E];", "int k = a; { char p[B]; p[E] = a; k += n > 0 ? f(n - 1, p[E] + 1) : 3; k = k * 3 + p[E]; } { char q[B]; q[E] = k % 100; k += q[E]; } return k;", "char p[B]; char *q = p + E; *q = a; if (n > 0) { int r = f(n - 1, *q + 1); return r * 3 + *q; } return *q;"].iter().enumerate() {
            let body = body.replace('B', &format!("{}", b.max(2))).replace('E', &format!("{}", b.max(2) - 1));
            out(Case::new(format!("C08/farframe/{i}/{b}"), prog(&format!("int f(int n, int a) {{ {body} }}\n"), &format!("int u = 1; char big[{b}]; big[{}] = 3; long w = 2; strtol(f(3, 1)); strtol(u); strtol(w); strtol(big[{}]); strtol(f(0, 4) + f(2, 5)); strtol(u); strtol(w); strtol(big[{}]);", b - 1, b - 1, b - 1))).opts(&two()));
        }
        // the result is found behind wide parameters, and a wide result behind narrow ones
        out(Case::new(format!("C08/farret/{b}"), prog(&format!("struct S {{ char q[{b}]; int m; }};\nlong f(char a, struct S s, double d, struct S t, short e) {{ s.m++; t.q[0]++; return a + s.q[0] * 3 + s.q[{e}] * 5 + s.m * 7 + d * 11 + t.q[0] * 13 + t.m * 17 + e * 19; }}\nstruct S g(char a, double d, short e) {{ struct S r; r.q[0] = a; r.q[{e}] = d; r.m = e; return r; }}\nstruct S h(struct S s, int n) {{ if (n == 0) return s; struct S r = h(s, n - 1); r.m += s.m + n; return r; }}\n", e = b - 1), &format!("int u = 1; struct S x = g(1, 2, 3); int v = 2; struct S y = g(4, 5.5, 6); int w = 3; strtol(f(9, x, 8.0, y, 7)); strtol(f(9, g(u, v, w), 8.0, h(y, 3), 7)); x = h(y, 2); strtol(x.m); strtol(x.q[{e}]); strtol(y.m); strtol(u); strtol(v); strtol(w);", e = b - 1))).opts(&two()));
    }
}

pub fn tails(th: bool, out: Sink) {
    let perms = [[0usize, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0], [0, 0, 1], [1, 1, 1], [2, 2, 0]];
    let opts = [Opts::DEFAULT, Opts { tail: true, unreach: false, stack: false, prof: false }, Opts { tail: false, unreach: true, stack: true, prof: false }];
    // two functions that end in calls of each other, with parameters of every pair of types: every assignment of
    // the old parameters to the new ones, by the same and by a different signature
    for a in TYS { for b in TYS { for (k, p) in perms.iter().enumerate() { if !th && (k + a.d as usize * 3 + b.d as usize) % 3 != 0 { continue; }
        let v = ["a", "b", "c"]; let args = p.map(|i| v[i]); let t = [a.c, b.c, a.c]; let t2 = [b.c, a.c, "long"];
        for (m, q) in [("same", t), ("other", t2)] {
            let see = "strtol((long)a); strtol((long)b); strtol((long)c);";
            out(Case::new(format!("C09/mut/{m}/{}/{}/{k}", a.id, b.id), prog(&format!("long pong(int n, {} a, {} b, {} c);\nlong ping(int n, {} a, {} b, {} c) {{ {see} if (n == 0) return (long)a * 100 + (long)b * 10 + (long)c; return pong(n - 1, {}, {}, {}); }}\nlong pong(int n, {} a, {} b, {} c) {{ {see} if (n == 0) return (long)a * 100 - (long)b * 10 + (long)c; return ping(n - 1, a + 1, c, b); }}\n", q[0], q[1], q[2], t[0], t[1], t[2], args[0], args[1], args[2], q[0], q[1], q[2]), "int n; for (n = 0; n < 4; n++) strtol(ping(n, 3, 5, 7));")).opts(if th { &opts } else { &opts[..2] }));
        } } } }
    // chains of different frames: the callee's frame is wider or narrower than the caller's
    let sig: [(&str, &str); 6] = [("int a", "1"), ("int a, long b", "a, 2"), ("int a, double b, double c, char d", "a, 1.5, 2.25, 3"), ("int a, char b, char c", "a, 4, 5"), ("int a, long b, long c, long d, long e, short f", "a, 6, 7, 8, 9, 10"), ("int a, struct S b, int c", "a, gs, 11")];
    for x in 0..6 { for y in 0..6 { for z in 0..6 {
        let f = |name: &str, s: usize, next: &str| { let body: String = ["a", "b", "c", "d", "e", "f"].iter().filter(|v| sig[s].0.contains(&format!(" {v}"))).map(|v| if *v == "b" && s == 5 { "strtol(b.m); strtol(b.q[0]);".to_string() } else { format!("strtol((long){v});") }).collect(); format!("int {name}({}) {{ char l[5]; long k = a; l[4] = a; strtol(k); {body} {next} }}\n", sig[s].0) };
        let call = |name: &str, s: usize| format!("{name}({})", if s == 0 { "a + 1".to_string() } else { sig[s].1.replacen('a', "a + 1", 1) });
        out(Case::new(format!("C09/chain/{x}{y}{z}"), prog(&format!("struct S {{ char q[9]; int m; }};\nstruct S gs;\nint f1({});\nint f2({});\n{}{}{}", sig[x].0, sig[y].0, f("f3", z, &format!("if (a > 6) return a; return {};", call("f1", x))), f("f1", x, &format!("if (a > 8) return a * 2; return {};", call("f2", y))), f("f2", y, &format!("if (a > 7) return a * 3; return {};", call("f3", z)))), &format!("int u = 3; gs.m = 12; gs.q[0] = 13; int a = 0; strtol({}); strtol(u); strtol({}); strtol(u);", call("f1", x), call("f3", z)))).opts(if th { &opts } else { &opts[..2] }));
    } } }
    // wide parameters in tail position
    for b in sizes(th) {
        let s = format!("struct S {{ char q[{b}]; int m; }};\n");
        let see = format!("strtol(s.q[0]); strtol(s.q[{}]); strtol(s.m); strtol(x); strtoul(d);", b - 1);
        for (i, f) in [format!("int f(int n, struct S s, int x, double d) {{ {see} if (n == 0) return x; s.m++; return f(n - 1, s, x + 2, d * 2); }}\n"), format!("int g(int n, double d, int x, struct S s);\nint f(int n, struct S s, int x, double d) {{ {see} if (n == 0) return x; s.m++; return g(n - 1, d * 2, x + 1, s); }}\nint g(int n, double d, int x, struct S s) {{ {see} if (n == 0) return x; s.q[0]++; return f(n - 1, s, x + 3, d); }}\n"), format!("int g(int n, struct S t, double d, struct S s, int x) {{ strtol(t.m); strtol(t.q[0]); {see} if (n == 0) return x; return g(n - 1, s, d + 1, t, x + 1); }}\nint f(int n, struct S s, int x, double d) {{ struct S t = s; t.m = 50; t.q[0] = 60; return g(n, s, d, t, x); }}\n")].iter().enumerate() {
            out(Case::new(format!("C09/farpar/{i}/{b}"), prog(&format!("{s}{f}"), &format!("struct S v; int w = 4; v.q[0] = 1; v.q[{e}] = 2; v.m = 3; strtol(f(0, v, 5, 1.5)); strtol(f(3, v, 6, 2.5)); strtol(v.m); strtol(v.q[0]); strtol(w);", e = b - 1))).opts(if th { &opts } else { &opts[..2] }));
        } }
    for n in counts(th) { if n > if th { 66 } else { 33 } { continue; }
        out(Case::new(format!("C09/farnum/{n}"), prog(&format!("long g(int n, {ps});\nlong f(int n, {ps}) {{ unsigned long s = 0; {sum} if (n == 0) return s; strtol(s); return g(n - 1, {rot}); }}\nlong g(int n, {ps}) {{ unsigned long s = 0; {sum} if (n == 0) return s; strtol(s); return g(n - 1, {rot}); }}\n", ps = list(n, ", ", &|k| format!("{} a{k}", if k % 2 == 0 { "long" } else { "double" })), sum = cat(n, &|k| format!("s = s * 3 + (long)a{k}; ")), rot = list(n, ", ", &|k| format!("a{}", (k + 2) % n))), &format!("strtol(f(2, {}));", list(n, ", ", &|k| format!("{}", k % 100))))).opts(&opts[..2]));
    }
}

pub fn effects(th: bool, out: Sink) {
    for n in counts(th) { if n > 64 && !th && n != 128 { continue; }
        for (i, b) in [format!("{};", list(n, ", ", &|k| format!("strlen({k})"))), format!("strtol({});", list(n, " + ", &|k| format!("strlen({k})"))), format!("strtol({});", list(n, " && ", &|k| if k == n / 2 { "strlen(2000)".into() } else { format!("(strlen({k}), x++)") })), format!("strtol({});", list(n, " || ", &|k| if k == n / 2 { "strlen(2000)".into() } else { format!("(strlen({k}), !++x)") })), format!("strtol({} 7);", cat(n, &|k| format!("x++ > {} ? strlen({k}) : ", n + 5))), format!("{} = strlen(5) + 1; strtol(x);", list(n, " = ", &|k| if k % 2 == 0 { "x".to_string() } else { "a[1]".to_string() })), format!("strtol({}1{});", "f(".repeat(n), ")".repeat(n)), format!("{} strtol(x);", cat(n, &|k| format!("a[x % 3] += x++ % {}; ", k + 2)).replace("x % 3", "1"))].iter().enumerate() {
            if !th && n > 64 && matches!(i, 1 | 2 | 4 | 6) { continue; }
            out(Case::new(format!("C04/far/{i}/{n}"), prog("int c;\nint f(int a) { strlen(c++); return a + 1; }\n", &format!("int x = 1; int a[3] = {{1, 2, 3}}; {b} strtol(x); strtol(a[1]); strtol(c);"))).opts(if n < 70 { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
        } }
}

pub fn flow(th: bool, out: Sink) {
    // statements nested n deep, left from the bottom to every level
    for n in if th { (2..48).collect::<Vec<_>>() } else { vec![2, 3, 5, 8, 13, 20, 31, 33, 40] } {
        for rot in 0..3 {
            let open = |k: usize| match (k + rot) % 4 { 0 => format!("while (1) {{ strlen({k}); "), 1 => format!("do {{ strlen({k}); "), 2 => format!("for (;;) {{ strlen({k}); "), _ => format!("switch ({k}) {{ case {k}: strlen({k}); ") };
            let close = |k: usize| match (k + rot) % 4 { 0 => format!("if (q <= {k}) break; break; }} "), 1 => format!("if (q < {k}) break; strlen(500 + {k}); }} while (q == {k} && t++ == 0); "), 2 => format!("strlen(600 + {k}); if (q == {k} && t++ == 0) continue; break; }} "), _ => format!("if (q == {k}) break; default: strlen(700 + {k}); }} ") };
            out(Case::new(format!("C05/far/{rot}/{n}"), prog("", &format!("int q; for (q = -1; q < {n}; q++) {{ int t = 0; {} strlen(900); {} }}", cat(n, &open), (0..n).rev().map(|k| close(k)).collect::<String>()))).opts(if n < 9 { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
        }
        out(Case::new(format!("C05/farret/{n}"), prog(&format!("int f(int q) {{ {} return 99; {} return 77; }}\n", cat(n, &|k| if k % 2 == 0 { format!("while (q != 1000) {{ if (q == {k}) return {k}; ") } else { format!("if (q != {k}) {{ ") }), (0..n).rev().map(|k| if k % 2 == 0 { "}".to_string() } else { format!("}} else return {k} + 200; ") }).collect::<String>()), &format!("int i; for (i = -1; i <= {n}; i++) strtol(f(i));"))));
        out(Case::new(format!("C05/farelse/{n}"), prog(&format!("int f(int q) {{ {} return -1; return 5; }}\n", cat(n * 3, &|k| format!("if (q == {k}) {{ strlen({k}); }} else "))), &format!("int i; for (i = -1; i <= {}; i++) strtol(f(i));", n * 3))));
    }
    for n in counts(th) { if n > 130 && !th { continue; }
        out(Case::new(format!("C05/farseq/{n}"), prog("", &format!("int x = strlen(2000); {} strtol(x);", cat(n, &|k| match k % 4 { 0 => format!("if (x % {} == 1) x += {k}; ", k % 7 + 2), 1 => format!("while (x > {}) x -= {}; ", 50 + k, k + 1), 2 => format!("for (int i = 0; i < 2; i++) {{ if (x == {k}) break; x++; }} "), _ => format!("do x += 3; while (x < {k}); ") })))).opts(if n < 40 { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
    }
}

pub fn switches(th: bool, out: Sink) {
    for n in counts(th) { if n > 130 && !th && n != 256 { continue; }
        for (i, val) in [(|k: usize| k as i64) as fn(usize) -> i64, |k| k as i64 * 1000 - 64000, |k| 300 - k as i64, |k| (k as i64 * 37) % 521].iter().enumerate() { if !th && n > 70 && i > 1 { continue; }
            for (ti, t) in ["int", "long", "short"].iter().enumerate() { if !th && ti > 0 && (n > 40 || i > 1) || *t == "short" && i == 1 { continue; }
                let cs = cat(n, &|k| format!("case {}: {}r = r * 3 + {k}; {}", val(k), if k == n / 2 { "default: " } else { "" }, if k % 3 == 0 { "" } else { "break; " }));
                let (lo, hi): (i64, i64) = (0..n).map(|k| val(k)).fold((0, 0), |(a, b), v| (a.min(v), b.max(v)));
                let step = if i == 1 { 500 } else { 1 };
                out(Case::new(format!("C06/far/{i}/{t}/{n}"), prog(&format!("long f({t} x) {{ unsigned long r = 1; switch (x) {{ {cs} }} return r; }}\n"), &format!("unsigned long s = 0; long i; for (i = {lo} - {step}; i <= {hi} + {step}; i += {step}) {{ s = s * 7 + f(i); if (i % 50 == 0) strtol(s); }} strtol(s);"))).fuel(20_000_000));
            } } }
    for n in if th { (2..20).collect::<Vec<_>>() } else { vec![2, 4, 7, 12] } {
        out(Case::new(format!("C06/farnest/{n}"), prog(&format!("int f(int x, int y) {{ int r = 0; {} r += 1000; {} return r; }}\n", cat(n, &|k| format!("switch (x + {k}) {{ case {}: r += {k}; break; default: r += 2; case {}: r = r * 2; if (y == {k}) break; ", k + 3, k + 1)), "r++; } ".repeat(n)), &format!("int i; int j; for (i = 0; i < {n} + 3; i++) for (j = -1; j < {n}; j++) strtol(f(i, j));"))));
    }
}

pub fn gotos(th: bool, out: Sink) {
    for n in if th { (3..60).chain([63, 64, 65, 100, 127, 128, 129]).collect::<Vec<_>>() } else { vec![3, 8, 15, 16, 17, 31, 32, 33, 48] } {
        for m in [1usize, 3, 5] {
            // a dispatcher with n labels
            if n <= 33 || th { out(Case::new(format!("C07/far/disp/{m}/{n}"), prog("", &format!("int x = 0; int c = 0; top: if (c++ > {}) goto end; {} {} end: strtol(x);", n * 2, cat(n, &|k| format!("if (x == {k}) goto l{k}; ")), cat(n, &|k| format!("l{k}: strlen({k}); x = (x * {m} + {}) % {n}; {}", k % 5 + 1, if k % 4 == 0 { "" } else { "goto top; " })) + "goto top;")))); }
            // a chain of labels in another order than the jumps
            if n % m != 0 || m == 1 { out(Case::new(format!("C07/far/chain/{m}/{n}"), prog("", &format!("int t = 0; again: goto l0; {} done: if (t++ < 2) goto again; strtol(t);", cat(n, &|i| { let k = (i * m) % n; if k + 1 < n { format!("l{k}: strlen({k}); goto l{}; ", k + 1) } else { format!("l{k}: strlen({k}); goto done; ") } }))))); }
            // jumps over n statements, forwards and backwards
            out(Case::new(format!("C07/far/skip/{m}/{n}"), prog("", &format!("int x = 0; {} strtol(x);", cat(n, &|k| format!("l{k}: x++; if (x == {}) goto l{}; if (x % {} == 0) {{ strlen({k}); goto l{}; }} ", k * 2 + 3, k / 2, m + 2, (k + 2).min(n - 1)))))));
        } }
}

pub fn slots(th: bool, out: Sink) {
    let c = |k: usize| ["char", "long", "int", "short", "double", "unsigned char", "float"][k % 7];
    for n in if th { vec![8, 16, 24, 32, 40, 48, 64, 65, 80, 100, 128, 130] } else { vec![8, 16, 24, 32, 40, 64, 66] } { for rot in 0..3usize {
        let r = |k: usize| (k * [1, 3, 5][rot] + rot) % n;
        if n % [1, 3, 5][rot] == 0 && rot > 0 { continue; }
        // all alive at once; alive in overlapping windows; alive around calls
        out(Case::new(format!("C11/far/all/{rot}/{n}"), prog("", &format!("{} {}", cat(n, &|k| format!("{} v{k} = strlen({}) + {}; ", c(k), k, k % 50)), cat(n, &|k| rec(&format!("v{}", r(k)), matches!(c(r(k)), "double" | "float")))))));
        out(Case::new(format!("C11/far/win/{rot}/{n}"), prog("int h(int a) { int b = a + 1; char c = b; return b * 2 + c; }\n", &format!("int i; for (i = 0; i < 2; i++) {{ {} }}", cat(n, &|k| format!("{} v{k} = h({k}) % 100 + i; {}", c(k), if k >= 5 { format!("strtol((long)(v{} + v{})); ", k - 5, k - 2) } else { String::new() })))))) ;
        out(Case::new(format!("C11/far/ptr/{rot}/{n}"), prog("void set(long *p, int k) { *p = *p * 3 + k; }\n", &format!("{} {} {}", cat(n, &|k| format!("{} v{k} = {k}; ", if k % 3 == 0 { "long" } else { "int" })), cat(n, &|k| if r(k) % 3 == 0 { format!("set(&v{}, {k}); ", r(k)) } else { format!("v{} += {k}; ", r(k)) }), cat(n, &|k| format!("strtol(v{k}); "))))));
    } }
}

pub fn unreachable(th: bool, out: Sink) {
    for n in counts(th) { if n > if th { 520 } else { 257 } { continue; } for m in [1usize, 3, 7] { if m > 1 && n % m == 0 || !th && n > 130 && m > 1 { continue; }
        // n functions; the calls go through them in another order than they are defined, and reach only some
        for reach in [n, n / 2, 1] {
            let ord: Vec<usize> = (0..n).map(|i| (i * m + m / 2) % n).collect();
            let mut next = vec![None; n]; for i in 0..reach - 1 { next[ord[i]] = Some(ord[i + 1]); }
            out(Case::new(format!("C12/far/{m}/{reach}/{n}"), prog(&cat(n, &|k| format!("int f{k}(int a);\n")).chars().chain(cat(n, &|k| match next[k] { Some(x) => format!("int f{k}(int a) {{ if (a == {k}) return -{k}; return f{x}(a) * 3 + {}; }}\n", k % 5), None => format!("int f{k}(int a) {{ strlen({k}); return a + \"abc{k}\"[3] + {}; }}\n", k % 7) }).chars()).collect::<String>(), &format!("strtol(f{}(1000)); strtol(f{}({}));", ord[0], ord[0], ord[reach - 1]))).opts(&two()));
        } } }
}

pub fn structure(th: bool, out: Sink) {
    for n in if th { (2..140).collect::<Vec<_>>() } else { vec![4, 9, 16, 31, 33, 64, 65, 100, 128] } {
        for (i, e) in [list(n, " - ", &|k| format!("{}", k * k % 17)), format!("1000000000 / {}", list(n.min(20), " / ", &|k| format!("{}", k % 3 + 1))), list(n, " - ", &|k| format!("x * {}", k % 5)), list(n, " ^ ", &|k| format!("x + {k} & {}", k * 3 % 64)), format!("{}5", cat(n, &|k| format!("x == {k} ? {k} : "))), format!("{}x{}", cat(n, &|k| format!("({k} - ")), ")".repeat(n)), format!("{}x", cat(n, &|k| ["-", "~", "!", "+"][k % 4].to_string() + " ")), format!("{}x", cat(n, &|k| ["(char)", "(int)", "(unsigned char)", "(long)", "(short)"][k % 5].to_string())), list(n, " < ", &|k| format!("{}", k % 3)), list(n, " == ", &|k| format!("x + {}", k % 2)), format!("x{}", cat(n, &|k| format!(" {} {}", ["<<", ">>"][k % 2], 1 + k % 2))), format!("({})", list(n, ", ", &|k| format!("x + {k}"))), format!("{}x{}", "(".repeat(n), ")".repeat(n)), format!("{}p{}", "(*".repeat(n.min(10)), ")".repeat(n.min(10)))].iter().enumerate() {
            if !th && n > 33 && (i == 4 || i == 8) { continue; }
            let d = n.min(10); let ptrs = cat(d, &|k| format!("int {}p{k} = &{}; ", "*".repeat(k + 1), if k == 0 { "y".into() } else { format!("p{}", k - 1) }));
            let e = if i == 13 { e.replace(&format!("p{}", ")".repeat(d)), &format!("p{}{}", d - 1, ")".repeat(d))) } else { e.clone() };
            out(Case::new(format!("C18/far/{i}/{n}"), prog("", &format!("int y = 8; {ptrs} int x; for (x = 0; x < 5; x++) strtol({e});"))));
        }
        // statements without braces, and declarators, as deep
        let m = n.min(60);
        out(Case::new(format!("C18/farif/{n}"), prog("", &format!("int x = {m}; int i; for (i = 0; i <= {m}; i++) {} strlen(500); {}", cat(m, &|k| format!("if (i != {k}) ")), (0..m).rev().map(|k| format!("else strlen({k}); ")).collect::<String>()))));
        let a = n.min(9); out(Case::new(format!("C18/fararr/{n}"), prog("", &format!("char a{}; strtol(sizeof a); strtol(sizeof a[0]); strtol((char *)&a{} - (char *)a);", "[2]".repeat(a), "[1]".repeat(a)))));
    }
}

pub fn names(th: bool, out: Sink) {
    // names of every length that differ in the last, the first and a middle character
    for n in if th { (2..140).chain(250..260).chain([511, 512, 513, 1000]).collect::<Vec<_>>() } else { vec![2, 6, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300] } {
        for (i, at) in [n - 1, 0, n / 2].into_iter().enumerate() {
            let w = |c: char| -> String { (0..n).map(|k| if k == at { c } else { ['n', 'q', '_', 'Z'][k % 4] }).collect() };
            let (a, b, c) = (w('a'), w('b'), w('A'));
            for (j, (g, s)) in [(String::new(), format!("int {a} = 1; int {b} = 2; int {c} = 3; {{ int {a} = 4; {b} += {a}; }} strtol({a}); strtol({b}); strtol({c});")), (format!("int {a}(int x) {{ return x + 1; }}\nint {b}(int x) {{ return x + 2; }}\nint {c}(int x) {{ return {a}(x) * {b}(x); }}\n"), format!("strtol({a}(3)); strtol({b}(3)); strtol({c}(3));")), (format!("struct {a} {{ int {a}; char {b}; }};\nstruct {b} {{ char {c}[7]; struct {a} {a}; }};\nunion {c} {{ int x; char y[30]; }};\n"), format!("struct {a} s; s.{a} = 1; s.{b} = 2; struct {b} t; t.{a} = s; t.{c}[0] = 3; strtol(t.{a}.{a}); strtol(t.{a}.{b}); strtol(t.{c}[0]); strtol(sizeof(struct {a}) < sizeof(struct {b})); strtol(sizeof(union {c}) >= 30);")), (format!("enum {a} {{ {a}, {b} = 7, {c} }};\n"), format!("strtol({a}); strtol({b}); strtol({c}); {{ int {b} = 9; strtol({b}); strtol({c}); }}")), (format!("typedef char {a};\ntypedef long {b};\ntypedef struct {{ char x[3]; }} {c};\n"), format!("strtol(sizeof({a})); strtol(sizeof({b})); strtol(sizeof({c}));")), (String::new(), format!("int x = 0; goto {b}; {a}: strlen(1); if (x++) goto {c}; {b}: strlen(2); goto {a}; {c}: strlen(3);")), (format!("int {a} = 1;\nlong {b} = 2;\nstatic char {c} = 3;\n"), format!("{a}++; {b} += {a}; {c} = {b}; strtol({a}); strtol({b}); strtol({c});"))].iter().enumerate() {
                if !th && i > 0 && j % 2 == 1 { continue; }
                out(Case::new(format!("C26/far/{i}/{j}/{n}"), prog(g, s)));
            } } }
    // many names: every one keeps its own object, in one scope and in nested ones
    for n in counts(th) { if n > if th { 300 } else { 130 } { continue; }
        out(Case::new(format!("C26/farmany/{n}"), prog(&format!("enum E {{ {} }};\n{}int x = 1000;\n", list(n, ", ", &|k| format!("e{k} = {}", k * 3 % 101)), cat(n.min(70), &|k| format!("struct t{k} {{ char c[{}]; }};\n", k + 1))), &format!("unsigned long s = 0; {} {} strtol(s);", cat(n, &|k| format!("s = s * 3 + e{k}; ")), cat(n.min(70), &|k| format!("s = s * 3 + sizeof(struct t{k}); "))))));
        let d = n.min(if th { 120 } else { 65 });
        out(Case::new(format!("C26/fardeep/{n}"), prog("int x = 1000;\n", &format!("{} strtol(x); {}", cat(d, &|k| if k % 3 == 0 { format!("{{ int x = {k}; strtol(x); ") } else if k % 3 == 1 { format!("{{ strtol(x); long y{k} = x; ") } else { format!("{{ enum {{ x = {k} }}; strtol(x); ") }), (0..d).rev().map(|k| if k % 3 == 1 { format!("strtol(y{k}); }} strtol(x); ") } else { "} strtol(x); ".to_string() }).collect::<String>()))));
    }
}

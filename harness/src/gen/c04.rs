//! C04 side effects, sequencing and short-circuit evaluation.
use super::*;

#[derive(Clone)]
enum Ex { Leaf, Un(u8, Box<Ex>), Bin(u8, Box<Ex>, Box<Ex>), Ter(Box<Ex>, Box<Ex>, Box<Ex>) }
const UN: [&str; 2] = ["!", "-"];
const BIN: [&str; 5] = ["&&", "||", ",", "+", "=="];
/// all trees of exactly `n` operators
fn trees(n: usize, un: bool, nb: u8, f: &mut dyn FnMut(Ex)) {
    if n == 0 { f(Ex::Leaf); return; }
    if un { trees(n - 1, un, nb, &mut |a| for u in 0..2 { f(Ex::Un(u, Box::new(a.clone()))) }); }
    for k in 0..n { trees(k, un, nb, &mut |a| trees(n - 1 - k, un, nb, &mut |b| for o in 0..nb { f(Ex::Bin(o, Box::new(a.clone()), Box::new(b.clone()))) })); }
    for k in 0..n { for j in 0..n - k { trees(k, un, nb, &mut |a| trees(j, un, nb, &mut |b| trees(n - 1 - k - j, un, nb, &mut |c| f(Ex::Ter(Box::new(a.clone()), Box::new(b.clone()), Box::new(c.clone())))))); } }
}
struct P { k: usize, leaf: fn(usize) -> String }
impl P {
    fn p(&mut self, e: &Ex) -> String { match e {
        Ex::Leaf => { self.k += 1; (self.leaf)(self.k) }
        Ex::Un(u, a) => format!("{}({})", UN[*u as usize], self.p(a)),
        Ex::Bin(o, a, b) => { let a = self.p(a); let b = self.p(b); format!("({a} {} {b})", BIN[*o as usize]) }
        Ex::Ter(a, b, c) => { let a = self.p(a); let b = self.p(b); let c = self.p(c); format!("({a} ? {b} : {c})") }
    } }
}
fn leaf_choice(k: usize) -> String { format!("strlen({})", 2000 + k) }
fn leaf_effect(k: usize) -> String { format!("(v{} {} strlen({}))", k % 3, ["=", "+=", "|="][k % 3], 2000 + k) }
fn leaf_inc(k: usize) -> String { ["v0++", "--v1", "(v2 = e0)", "v3-- != 0", "f(&w0)"][k % 5].to_string() }
fn leaf_typed(k: usize) -> String { ["c()", "d()", "l()", "u()"][k % 4].to_string() }

pub fn effects(th: bool, out: Sink) {
    let ctxs: [(&str, &str); 11] = [("val", "strtol(E);"), ("if", "if (E) strlen(1); else strlen(2);"), ("while", "while (E) { strlen(1); if (strlen(2090)) break; } strlen(2);"), ("stmt", "E; strlen(1);"), ("init", "int r = E; strtol(r);"), ("do", "do strlen(1); while (E); strlen(2);"),
        ("for", "for (E; strlen(2091); E) strlen(1);"), ("arg", "g(strlen(80), E);"), ("sw", "switch (E) { case 0: strlen(1); case 1: strlen(2); break; default: strlen(3); }"), ("idx", "int a[3] = {5, 6, 7}; strtol(a[(E) != 0]);"), ("ret", "return E;")];
    let glob = "int g(int a, int b) { strtol(a); strtol(b); return 0; }\nint f(int *p) { *p = *p + 1; return *p & 1; }\nchar gc; double gd; long gl; unsigned gu; int nc;\nchar c() { nc++; return gc; }\ndouble d() { nc += 10; return gd; }\nlong l() { nc += 100; return gl; }\nunsigned u() { nc += 1000; return gu; }\n";
    for (n, un, nb) in if th { vec![(0usize, true, 5u8), (1, true, 5), (2, true, 5), (3, true, 5), (4, false, 3)] } else { vec![(0, true, 5), (1, true, 5), (2, true, 5), (3, false, 4)] } {
        let mut k = 0; trees(n, un, 3, &mut |e| {
            k += 1;
            for (ci, (cn, c)) in ctxs.iter().enumerate() {
                if n >= 3 && (k + ci) % (if th { if n == 4 { 11 } else { 1 } } else { 4 }) != 0 { continue; }
                let s = P { k: 0, leaf: leaf_choice }.p(&e);
                out(Case::new(format!("C04/tree{n}/{cn}/{k}"), prog(glob, &c.replace('E', &s))).opts(if n < 3 { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
            }
            if n >= 1 && n <= 3 && !(n == 3 && !th && k % 4 != 0) {
                let s = P { k: 0, leaf: leaf_effect }.p(&e);
                for (cn, c) in [("val", "strtol(E);"), ("if", "if (E) strlen(1); else strlen(2);")] {
                    out(Case::new(format!("C04/effect{n}/{cn}/{k}"), prog("", &format!("int v0 = 1; int v1 = 2; int v2 = 0; {} strtol(v0); strtol(v1); strtol(v2);", c.replace('E', &s)))));
                }
            }
        });
        // leaves whose effects the environment does not see, so that either order of evaluation is allowed
        let mut k = 0; if n <= 3 { trees(n, un, nb, &mut |e| {
            k += 1;
            if n == 3 && !th && k % 4 != 0 { return; }
            for (cn, c) in [("val", "strtoul((E) * 1.0);"), ("if", "if (E) strlen(1); else strlen(2);"), ("not", "strtol(!(E));")] {
                if n == 3 && !th && cn == "not" { continue; }
                let s = P { k: 0, leaf: leaf_inc }.p(&e);
                out(Case::new(format!("C04/inc{n}/{cn}/{k}"), prog(glob, &format!("int v0 = 1; int v1 = 2; int v2 = 0; int v3 = 1; int w0 = 4; int e0 = strlen(2009); {} strtol(v0); strtol(v1); strtol(v2); strtol(v3); strtol(w0);", c.replace('E', &s)))));
                let s = P { k: 0, leaf: leaf_typed }.p(&e);
                out(Case::new(format!("C04/typed{n}/{cn}/{k}"), prog(glob, &format!("gc = strlen(2011) ? -1 : 0; gd = strlen(2012) ? 0.5 : 0.0; gl = strlen(2013) ? 4294967296 : 0; gu = strlen(2014); {} strtol(nc);", c.replace('E', &s)))));
            }
        }); }
    }
    // every lvalue form x every modifying operator x every type
    let lvs: [(&str, &str); 22] = [("loc", "x"), ("par", "(x)"), ("glo", "gx"), ("deref", "*p"), ("derefpost", "*p++"), ("derefpre", "*++p"), ("derefdec", "*--p"), ("arr", "a[1]"), ("arri", "a[i]"), ("arrpost", "a[i++]"), ("arrpre", "a[--i]"), ("arrcall", "a[n()]"), ("swapidx", "1[a]"), ("callp", "*pf()"), ("calli", "pf()[1]"),
        ("mem", "s.m"), ("arrow", "q->m"), ("arrowpost", "(q++)->m"), ("nest", "s.in.m"), ("arrm", "t[i++].m"), ("callm", "qf()->m"), ("mat", "m[i++][n()]")];
    let ops = ["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^="];
    for t in TYS {
        let c = t.c;
        let r = |e: &str| rec(e, t.fp());
        for (ln, lv) in lvs {
            // the objects this form can touch, with neighbours
            let sd = format!("struct I {{ char c; {c} m; }};\nstruct S {{ char z; {c} m; struct I in; }};\n");
            let (g, decl, dump) = match ln {
                "loc" | "par" | "glo" => (format!("char g0; {c} gx; char g1;\n"), format!("char b0 = 1; {c} x = 3; char b1 = 2; gx = 4; g0 = 5; g1 = 6;"), format!("strtol(b0); {} strtol(b1); strtol(g0); {} strtol(g1);", r("x"), r("gx"))),
                "callp" | "calli" => (format!("{c} ga[3];\nint nc;\n{c} *pf() {{ nc++; return ga; }}\n"), "ga[0] = 8; ga[1] = 9; ga[2] = 10;".into(), format!("{} {} {} strtol(nc);", r("ga[0]"), r("ga[1]"), r("ga[2]"))),
                "mem" | "nest" => (sd, "struct S s; s.z = 1; s.m = 10; s.in.c = 2; s.in.m = 11;".into(), format!("strtol(s.z); {} strtol(s.in.c); {}", r("s.m"), r("s.in.m"))),
                "arrow" | "arrowpost" | "arrm" => (sd, "struct S t[2]; struct S *q = t; int i = 0; t[0].z = 1; t[0].m = 12; t[0].in.c = 2; t[1].z = 3; t[1].m = 13; t[1].in.c = 4;".into(), format!("strtol(i); strtol(q - t); strtol(t[0].z); {} strtol(t[0].in.c); strtol(t[1].z); {} strtol(t[1].in.c);", r("t[0].m"), r("t[1].m"))),
                "callm" => (format!("{sd}int nc; struct S gs[2];\nstruct S *qf() {{ nc++; return &gs[1]; }}\n"), "gs[0].m = 15; gs[1].z = 1; gs[1].m = 16; gs[1].in.c = 2;".into(), format!("{} strtol(gs[1].z); {} strtol(gs[1].in.c); strtol(nc);", r("gs[0].m"), r("gs[1].m"))),
                "mat" => ("int nc;\nint n() { nc++; return 1; }\n".into(), format!("{c} m[2][2]; int i = 1; m[0][0] = 20; m[0][1] = 21; m[1][0] = 22; m[1][1] = 23;"), format!("strtol(i); strtol(nc); {} {} {} {}", r("m[0][0]"), r("m[0][1]"), r("m[1][0]"), r("m[1][1]"))),
                _ => ("int nc;\nint n() { nc++; return 1; }\n".into(), format!("{c} a[4]; {c} *p = a + 1; int i = 1; a[0] = 5; a[1] = 6; a[2] = 7; a[3] = 8;"), format!("strtol(p - a); strtol(i); strtol(nc); {} {} {} {}", r("a[0]"), r("a[1]"), r("a[2]"), r("a[3]"))),
            };
            for (oi, op) in ops.iter().enumerate() {
                if t.fp() && int_only(&op[..op.len() - 1]) { continue; }
                for (rn, rhs) in [("two", "2"), ("call", "(strlen(3060) + 1)"), ("cond", "(strlen(2061) ? 1 : 3)"), ("dbl", "2.5"), ("long", "l3")] {
                    if rn == "dbl" && int_only(&op[..op.len() - 1]) { continue; }
                    if !th && rn != "two" && (oi + t.d as usize) % 4 != 0 && rn != "call" { continue; }
                    out(Case::new(format!("C04/asg/{ln}/{}/{oi}/{rn}", t.id), prog(&g, &format!("long l3 = 3; {decl} {} {dump}", r(&format!("{lv} {op} {rhs}"))))));
                }
            }
            for (id, e) in [("preinc", "++L"), ("predec", "--L"), ("postinc", "L++"), ("postdec", "L--")] {
                let l = if lv.starts_with('*') || lv.starts_with('1') { format!("({lv})") } else { lv.to_string() };
                let e = e.replace('L', &l);
                out(Case::new(format!("C04/incdec/{ln}/{}/{id}", t.id), prog(&g, &format!("{decl} {} {dump}", r(&e)))).opts(&two()));
                out(Case::new(format!("C04/incstmt/{ln}/{}/{id}", t.id), prog(&g, &format!("{decl} {e}; {dump} if ({e}) strlen(1); else strlen(2); {dump}"))));
            }
        }
        // wrap-around of increments at the limits of the type
        if !t.fp() || th { for (id, e) in [("preinc", "++x"), ("predec", "--x"), ("postinc", "x++"), ("postdec", "x--")] {
            out(Case::new(format!("C04/wrap/{}/{id}", t.id), prog("", &format!("{c} x; {} {} {}", env("x", t.d), r(e), r("x")))));
            out(Case::new(format!("C04/wrapv/{}/{id}", t.id), prog("", &format!("{c} x; {} strtol(({e}) == x); strtol(-({e}) < 0); {}", env("x", t.d), r("x")))));
        } }
        // chained assignment through every second type
        for t2 in TYS {
            for (k, e) in ["x = y = z", "x = y += z", "x += y = z", "y = x = z", "x = (y = z, y)", "x = (z ? (y = z) : y)", "y *= x = z"].iter().enumerate() {
                out(Case::new(format!("C04/chain/{}/{}/{k}", t.id, t2.id), prog("", &format!("{c} x = 1; {} y = 2; double z; {} {} {} {}", t2.c, env("z", 30), r(e).replace("strtol(y", if t2.fp() { "strtoul(y" } else { "strtol(y" }).replace("strtoul(y", if t2.fp() { "strtoul(y" } else { "strtol(y" }), r("x"), rec("y", t2.fp())))));
            }
        }
    }
    // pointer increments and differences keep their operand evaluated once
    for t in TYS { let c = t.c; for (k, e) in ["*p++", "*++p", "(*p)++", "++*p", "*p--", "*--p", "*(p += 1)", "*(p -= 1)", "p[n()]", "*(p + n())", "*(n() + p)", "p++[0]", "*&*p++", "(&p[1])[-1]", "*p++ + *q--", "*p++ = *q--", "*p++ += *q++", "(n() ? *p++ : *q++)", "(n() && *p++)", "(!n() || *q--)", "(*p++, *p++)", "(p = q, *p)"].iter().enumerate() {
        let fp = t.fp() && !matches!(k, 18 | 19);
        out(Case::new(format!("C04/ptr/{}/{k}", t.id), prog("int nc;\nint nv;\nint n() { nc++; return nv; }\n", &format!("{c} a[5] = {{10, 20, 30, 40, 50}}; {c} *p = a + 1; {c} *q = a + 3; int k; nv = strlen(2050); {} strtol(nc); strtol(p - a); strtol(q - a); for (k = 0; k < 5; k++) {}", rec(e, fp), rec("a[k]", t.fp())))).opts(&two()));
    } }
    // expressions of every form whose value is not used, in every place where one can stand
    let forms = ["X + 1", "1 - X", "X * Y", "X / 3", "X % 3", "X << 1", "1 >> (X & 3)", "X < 2", "2 > X", "X <= Y", "X >= 0", "X == 2", "0 != X", "X & 6", "6 ^ X", "X | Y", "X && Y", "X || Y", "!X", "-X", "+X", "~X", "!!X", "(char) X", "(double) X + 0.5", "(long) (X == Y)", "X, Y", "(X, 1)", "X ? Y : Z", "X ? 1 : 2", "(X ? Y : 3) == 2", "r[X & 1]", "r[X & 1] == Y", "*(r + (X & 1))", "&r[X & 1]", "s.a + X", "(&s)->a == X", "X == 1 == Y", "X", "(X)", "k(X, 1)", "k(X, 1) != 1", "sizeof(X)", "r[X & 1] = 4", "(r[0] = X) == 2", "r[0]++ + X", "(long) X", "(void) X", "(unsigned char) X == 3"];
    let places = ["E;", "for (E; strlen(2091); ) strlen(1);", "for (; strlen(2091); E) strlen(1);", "if (strlen(2092)) E; else E;", "while (strlen(2091)) E;", "do E; while (strlen(2091));", "strtol((E, 5));", "switch (strlen(2093)) { case 0: E; default: E; }", "l: E; if (strlen(2091)) goto l;", "{ E; { E; } }", "(E), (E);", "int z = (E, 3); strtol(z);", "strlen(2092) ? (E) : (E);"];
    let leaves = [("call", "h(1)", "h(2)", "h(3)"), ("inc", "a++", "--b", "a--"), ("asg", "(a = 3)", "(b += 2)", "(a ^= 1)"), ("str", "strlen(2040)", "strlen(2041)", "strlen(2042)")];
    for (fi, f) in forms.iter().enumerate() { for (pi, p) in places.iter().enumerate() { for (ln, x, y, z) in leaves { 
        if !th && pi > 0 && ln != "call" && (fi + pi) % 2 == 0 { continue; }
        let e = f.replace('X', "\u{1}").replace('Y', "\u{2}").replace('Z', "\u{3}").replace('\u{1}', x).replace('\u{2}', y).replace('\u{3}', z);
        out(Case::new(format!("C04/discard/{ln}/{pi}/{fi}"), prog("int nc = 1;\nint h(int x) { nc = (nc * 3 + x) & 255; return nc & 3; }\nint k(int x, int y) { nc = (nc + x) & 255; return y; }\nstruct S { int a; };\n", &format!("int a = 1; int b = 2; int r[2] = {{7, 8}}; struct S s; s.a = 3; {} strtol(nc); strtol(a); strtol(b); strtol(r[0]); strtol(r[1]);", p.replace('E', &e)))).opts(if th { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
    } } }
    // arguments and operands with effects on distinct objects, all combinations
    let effs = ["a++", "--a", "a += 2", "a = 5", "h(1)", "(a = 7, a)", "a ? b : 3", "a && h(2)", "(strlen(41), a)"];
    for (i, x) in effs.iter().enumerate() { for (j, y) in effs.iter().enumerate() {
        let y = y.replace('a', "e").replace("strle", "strle").replace('b', "k");
        for (n, e) in [("add", "(X) + (Y)"), ("comma", "((X), (Y))"), ("and", "(X) && (Y)"), ("or", "(X) || (Y)"), ("tern", "(X) ? (Y) : 9"), ("arg", "w(X, Y)"), ("idx", "r[((X) & 1) + ((Y) & 1)]"), ("sub", "(X) - (Y)"), ("lt", "(X) < (Y)"), ("asg", "r[(X) & 1] = (Y)"), ("asgop", "r[(X) & 1] += (Y)"), ("shl", "(X) << ((Y) & 3)")] {
            let e = e.replace('X', x).replace('Y', &y);
            out(Case::new(format!("C04/pair/{n}/{i}/{j}"), prog("int nc;\nint h(int x) { nc += x; return x - 1; }\nint w(int x, int y) { strtol(x); strtol(y); return x * 10 + y; }\n", &format!("int a = 1; int b = 2; int e = 3; int k = 4; int r[3] = {{7, 8, 9}}; strtol({e}); strtol(nc); strtol(a); strtol(b); strtol(e); strtol(k); strtol(r[0]); strtol(r[1]); strtol(r[2]);"))));
        }
    } }
}

//! C01 operators, C02 conversions, C03 constant expressions.
use super::*;

pub fn usual_fp(a: Ty, b: Ty) -> bool { a.fp() || b.fp() }

/// ways of holding an operand: (name, declarations at file scope, declarations in main, lvalue, expression)
pub struct Form { pub id: &'static str, pub glob: String, pub decl: String, pub lv: String, pub ex: String }
pub fn forms(t: Ty, v: &str) -> Vec<Form> {
    let c = t.c;
    vec![
        Form { id: "loc", glob: String::new(), decl: format!("{c} {v};"), lv: v.into(), ex: v.into() },
        Form { id: "glo", glob: format!("{c} {v};\n"), decl: String::new(), lv: v.into(), ex: v.into() },
        Form { id: "ptr", glob: String::new(), decl: format!("{c} o{v}; {c} *{v} = &o{v};"), lv: format!("o{v}"), ex: format!("*{v}") },
        Form { id: "arr", glob: String::new(), decl: format!("{c} {v}[3]; int i{v} = 1;"), lv: format!("{v}[1]"), ex: format!("{v}[i{v}]") },
        Form { id: "mem", glob: format!("struct S{v} {{ char p; {c} m; }};\n"), decl: format!("struct S{v} {v};"), lv: format!("{v}.m"), ex: format!("{v}.m") },
        Form { id: "arrow", glob: format!("struct S{v} {{ char p; {c} m; }};\n"), decl: format!("struct S{v} o{v}; struct S{v} *{v} = &o{v};"), lv: format!("o{v}.m"), ex: format!("{v}->m") },
        Form { id: "uni", glob: format!("union U{v} {{ char p; {c} m; }};\n"), decl: format!("union U{v} {v};"), lv: format!("{v}.m"), ex: format!("{v}.m") },
        Form { id: "call", glob: format!("{c} id{v}({c} x) {{ return x; }}\n"), decl: format!("{c} {v};"), lv: v.into(), ex: format!("id{v}({v})") },
        Form { id: "asg", glob: String::new(), decl: format!("{c} {v}; {c} t{v};"), lv: v.into(), ex: format!("(t{v} = {v})") },
        Form { id: "cond", glob: String::new(), decl: format!("{c} {v};"), lv: v.into(), ex: format!("({v} ? {v} : {v})") },
        Form { id: "cast", glob: String::new(), decl: format!("{c} {v};"), lv: v.into(), ex: format!("({c}){v}") },
        Form { id: "plus", glob: String::new(), decl: format!("{c} {v};"), lv: v.into(), ex: format!("+{v}") },
        Form { id: "neg", glob: String::new(), decl: format!("{c} {v};"), lv: v.into(), ex: format!("-{v}") },
        Form { id: "not", glob: String::new(), decl: format!("{c} {v};"), lv: v.into(), ex: format!("!{v}") },
        Form { id: "comma", glob: String::new(), decl: format!("{c} {v}; int z{v};"), lv: v.into(), ex: format!("(z{v} = 1, {v})") },
        Form { id: "post", glob: String::new(), decl: format!("{c} {v};"), lv: v.into(), ex: format!("{v}++") },
        Form { id: "pre", glob: String::new(), decl: format!("{c} {v};"), lv: v.into(), ex: format!("--{v}") },
    ]
}

pub const CONSTS: [&str; 24] = ["0", "1", "2", "3", "7", "31", "127", "128", "255", "256", "32767", "65536", "2147483647", "2147483648", "4294967295", "0x80000000", "0xffffffff", "4294967296", "0x7fffffffffffffff", "0xffffffffffffffff", "'a'", "0.5", "2.0", "3000000000.5"];
pub fn const_fp(c: &str) -> bool { c.contains('.') }

pub fn operators(th: bool, out: Sink) {
    // every operator x every pair of operand types x every pair of boundary values
    for (op, on) in BINOPS { for a in TYS { for b in TYS {
        if int_only(op) && usual_fp(a, b) { continue; }
        let fp = usual_fp(a, b) && !int_result(op);
        let body = format!("{} a; {} b; {} {} {}", a.c, b.c, env("a", a.d), env("b", b.d), rec(&format!("a {op} b"), fp));
        out(Case::new(format!("C01/bin/{on}/{}/{}", a.id, b.id), prog("", &body)).opts(if th { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
        // result converted back to each operand type, and used as a condition
        let body = format!("{} a; {} b; {} x; {} {} x = a {op} b; {} if (a {op} b) strlen(1); else strlen(2);", a.c, b.c, a.c, env("a", if th { a.d } else { a.small() }), env("b", if th { b.d } else { b.small() }), rec("x", a.fp()));
        out(Case::new(format!("C01/store/{on}/{}/{}", a.id, b.id), prog("", &body)));
        if th || (a.d == 1 && b.d <= 2) || (a.d == 2 && b.d == 2) { if a.d <= 2 && b.d <= 2 && (th || matches!(op, "+" | "*" | "/" | "%" | ">>" | "<" | "-")) {
            let body = format!("{} a; {} b; {} {} {}", a.c, b.c, env("a", 11), env("b", 11), rec(&format!("a {op} b"), fp));
            out(Case::new(format!("C01/full/{on}/{}/{}", a.id, b.id), prog("", &body)).states(200_000));
        } }
    } } }
    // constants on either side
    for (op, on) in BINOPS { for a in TYS { for (k, c) in CONSTS.iter().enumerate() {
        if int_only(op) && (a.fp() || const_fp(c)) { continue; }
        let fp = (a.fp() || const_fp(c)) && !int_result(op);
        for (side, e) in [("r", format!("a {op} {c}")), ("l", format!("{c} {op} a"))] {
            out(Case::new(format!("C01/const{side}/{on}/{}/{k}", a.id), prog("", &format!("{} a; {} {}", a.c, env("a", a.d), rec(&e, fp)))));
        }
    } } 
        for (k, c) in CONSTS.iter().enumerate() { for (j, d) in CONSTS.iter().enumerate() {
            if int_only(op) && (const_fp(c) || const_fp(d)) { continue; }
            let fp = (const_fp(c) || const_fp(d)) && !int_result(op);
            out(Case::new(format!("C01/cc/{on}/{k}/{j}"), prog("", &rec(&format!("{c} {op} {d}"), fp))));
        } }
    }
    // unary operators, alone and in pairs, on every type, constants included
    let un = [("-", "neg"), ("+", "pos"), ("~", "com"), ("!", "not")];
    for a in TYS {
        for (o1, n1) in un {
            if o1 == "~" && a.fp() { continue; }
            out(Case::new(format!("C01/un/{n1}/{}", a.id), prog("", &format!("{} a; {} {} if ({o1}a) strlen(1); else strlen(2); while ({o1}a) {{ strlen(3); break; }}", a.c, env("a", a.d), rec(&format!("{o1}a"), a.fp() && o1 != "!")))).opts(&two()));
            for (o2, n2) in un {
                if a.fp() && (o2 == "~" || (o1 == "~" && o2 != "!")) { continue; }
                let fp = a.fp() && o1 != "!" && o2 != "!";
                out(Case::new(format!("C01/un2/{n1}/{n2}/{}", a.id), prog("", &format!("{} a; {} {}", a.c, env("a", a.d), rec(&format!("{o1}({o2}a)"), fp)))));
                for (op, on) in [("+", "add"), ("/", "div"), (">>", "shr"), ("<", "lt"), ("==", "eq")] { if op == ">>" && a.fp() { continue; }
                    let fp = a.fp() && !int_result(op);
                    out(Case::new(format!("C01/unbin/{n1}/{n2}/{on}/{}", a.id), prog("", &format!("{} a; {} {}", a.c, env("a", a.small()), rec(&format!("({o1}a) {op} ({o2}a)"), fp)))));
                }
            }
        }
    }
    for (k, c) in CONSTS.iter().enumerate() { for (o1, n1) in un { if o1 == "~" && const_fp(c) { continue; } let fp = const_fp(c) && o1 != "!"; out(Case::new(format!("C01/unc/{n1}/{k}"), prog("", &format!("{} if ({o1}{c}) strlen(1); else strlen(2);", rec(&format!("{o1}{c}"), fp))))); } }
    // operand forms
    let fts: &[(&str, &str)] = if th { &[("i", "i"), ("c", "uc"), ("us", "l"), ("u", "s"), ("f", "i"), ("d", "ul")] } else { &[("i", "u"), ("c", "l"), ("us", "d"), ("f", "c")] };
    for (ta, tb) in fts { let (ta, tb) = (ty(ta), ty(tb)); for (op, on) in BINOPS { if !th && !matches!(op, "+" | "-" | "/" | "<" | ">>" | "&" | "==" | "&&") { continue; }
        if int_only(op) && usual_fp(ta, tb) { continue; }
        let fp = usual_fp(ta, tb) && !int_result(op);
        for fa in forms(ta, "a") { for fb in forms(tb, "b") {
            let e = format!("{} {op} {}", fa.ex, fb.ex);
            let body = format!("{}{} {} {} {} {} {}", fa.decl, fb.decl, env(&fa.lv, ta.tiny()), env(&fb.lv, tb.tiny()), rec(&e, fp), rec(&fa.lv, ta.fp()), rec(&fb.lv, tb.fp()));
            let fp_neg_not = (fa.id == "not" || fb.id == "not") && fp;
            if fp_neg_not && !((ta.fp() && fa.id != "not") || (tb.fp() && fb.id != "not")) { continue; }
            out(Case::new(format!("C01/form/{on}/{}{}/{}/{}", ta.id, tb.id, fa.id, fb.id), prog(&format!("{}{}", fa.glob, fb.glob), &body)));
        } }
    } }
    // nested expressions: types of intermediate results
    let trip: &[(&str, &str, &str)] = if th { &[("i", "i", "i"), ("c", "u", "l"), ("us", "i", "d"), ("uc", "s", "ul"), ("u", "l", "f"), ("l", "c", "us")] } else { &[("c", "u", "l"), ("us", "i", "d")] };
    for (x, y, z) in trip { let (x, y, z) = (ty(x), ty(y), ty(z)); for (o1, n1) in BINOPS { for (o2, n2) in BINOPS {
        for (sh, e) in [("l", format!("(a {o1} b) {o2} c")), ("r", format!("a {o1} (b {o2} c)"))] {
            let (inner_fp, bad) = if sh == "l" { let i = usual_fp(x, y); (i && !int_result(o1), (int_only(o1) && i) || (int_only(o2) && ((i && !int_result(o1)) || z.fp()))) } else { let i = usual_fp(y, z); (i && !int_result(o2), (int_only(o2) && i) || (int_only(o1) && ((i && !int_result(o2)) || x.fp()))) };
            if bad { continue; }
            let (top, other) = if sh == "l" { (o2, z) } else { (o1, x) };
            let fp = (inner_fp || other.fp()) && !int_result(top);
            out(Case::new(format!("C01/nest{sh}/{n1}/{n2}/{}{}{}", x.id, y.id, z.id), prog("", &format!("{} a; {} b; {} c; {} {} {} {}", x.c, y.c, z.c, env("a", x.tiny()), env("b", y.tiny()), env("c", z.tiny()), rec(&e, fp)))));
        }
    } } }
}

pub fn conversions(th: bool, out: Sink) {
    for f in TYS { for t in TYS {
        let (fc, tc) = (f.c, t.c);
        let ctx: Vec<(&str, String, String)> = vec![
            ("asg", String::new(), format!("{tc} x; x = a; {}", rec("x", t.fp()))),
            ("asgval", String::new(), format!("{tc} x; {}", rec("x = a", t.fp()))),
            ("init", String::new(), format!("{tc} x = a; {}", rec("x", t.fp()))),
            ("cast", String::new(), rec(&format!("({tc})a"), t.fp())),
            ("arg", format!("int g({tc} x) {{ {} return 0; }}\n", rec("x", t.fp())), "g(a);".into()),
            ("arg2", format!("int g(char p, {tc} x, short q) {{ {} strtol(p); strtol(q); return 0; }}\n", rec("x", t.fp())), "g(1, a, 2);".into()),
            ("ret", format!("{tc} g({fc} y) {{ return y; }}\n"), rec("g(a)", t.fp())),
            ("arr", String::new(), format!("{tc} x[2] = {{a, a}}; {} {}", rec("x[0]", t.fp()), rec("x[1]", t.fp()))),
            ("ptr", String::new(), format!("{tc} x; {tc} *p = &x; *p = a; {}", rec("x", t.fp()))),
            ("mem", format!("struct S {{ char c; {tc} x; }};\n"), format!("struct S s; s.x = a; {}", rec("s.x", t.fp()))),
            ("strinit", format!("struct S {{ char c; {tc} x; }};\n"), format!("struct S s = {{1, a}}; {} strtol(s.c);", rec("s.x", t.fp()))),
            ("glob", format!("{tc} x;\n"), format!("x = a; {}", rec("x", t.fp()))),
            ("cmp", String::new(), format!("{tc} x; x = a; strtol(x == a); strtol(a < x); strtol(x < a);")),
            ("tern", String::new(), format!("{tc} x; x = 1; {} {}", rec("strlen(2007) ? a : x", f.fp() || t.fp()), rec("strlen(2008) ? x : a", f.fp() || t.fp()))),
            ("add", String::new(), format!("{tc} x; x = a; x += a; {}", rec("x", t.fp()))),
            ("castarith", String::new(), format!("{} {}", rec(&format!("({tc})a + 1"), t.fp()), rec(&format!("-({tc})a"), t.fp()))),
            ("castcond", String::new(), format!("if (({tc})a) strlen(1); else strlen(2);")),
            ("castcast", String::new(), format!("strtol((char)({tc})a); strtoul((float)({tc})a);")),
        ];
        for (n, g, b) in ctx {
            out(Case::new(format!("C02/{n}/{}/{}", f.id, t.id), prog(&g, &format!("{fc} a; {} {b}", env("a", f.d)))).opts(&two()));
        }
        // constants converted in every context
        for (k, c) in CONSTS.iter().enumerate() { if f.d != 5 { break; }
            for (n, g, b) in [("casgk", String::new(), format!("{tc} x; x = {c}; {} x = -({c}); {}", rec("x", t.fp()), rec("x", t.fp()))), ("cinit", String::new(), format!("{tc} x = {c}; {}", rec("x", t.fp()))), ("ccast", String::new(), rec(&format!("({tc}){c}"), t.fp())),
                ("cglob", format!("{tc} x = {c}; {tc} y;\n"), format!("{} y = {c}; {}", rec("x", t.fp()), rec("y", t.fp()))), ("carg", format!("int g({tc} x, int y) {{ {} strtol(y); return 0; }}\n", rec("x", t.fp())), format!("g({c}, 3);")), ("cret", format!("{tc} g(int z) {{ return {c}; }}\n"), rec("g(0)", t.fp())),
                ("cptr", String::new(), format!("{tc} x[2]; x[0] = {c}; *(x + 1) = {c}; {} {}", rec("x[0]", t.fp()), rec("x[1]", t.fp()))), ("ctern", String::new(), format!("{tc} x; x = 1; {}", rec(&format!("strlen(2000) ? x : {c}"), t.fp() || const_fp(c))))] {
                out(Case::new(format!("C02/{n}/{k}/{}", t.id), prog(&g, &b)));
            }
        }
        // chains of two casts (three in the thorough tier)
        for m in TYS {
            out(Case::new(format!("C02/chain/{}/{}/{}", f.id, m.id, t.id), prog("", &format!("{fc} a; {} {}", env("a", f.d), rec(&format!("({tc})({})a", m.c), t.fp())))));
            if th { for m2 in TYS { out(Case::new(format!("C02/chain3/{}/{}/{}/{}", f.id, m.id, m2.id, t.id), prog("", &format!("{fc} a; {} {}", env("a", f.d), rec(&format!("({tc})({})({})a", m2.c, m.c), t.fp()))))); } }
        }
    } }
    // pointers: conversions between pointer types, to and from integers wide enough, null constants
    for t in TYS { let tc = t.c;
        for (n, b) in [("ptrint", format!("int k = (int)&x; {tc} *p = ({tc} *)k; *p = 3; {}", rec("x", t.fp()))), ("ptrlong", format!("long k = (long)&x; {tc} *p = ({tc} *)k; *p = 3; {}", rec("x", t.fp()))), ("ptrul", format!("unsigned long k = (unsigned long)&x; {tc} *p = ({tc} *)k; *p = 3; {}", rec("x", t.fp()))), ("ptrvoid", format!("void *v = &x; {tc} *p = v; *p = 3; {}", rec("x", t.fp()))), ("ptrchar", format!("char *v = (char *)&x; {tc} *p = ({tc} *)v; *p = 3; {}", rec("x", t.fp()))),
            ("null", format!("{tc} *p = 0; {tc} *q = &x; if (p) strlen(1); else strlen(2); if (q) strlen(3); else strlen(4); strtol(!p); strtol(!q); strtol(p == 0); strtol(q != 0); strtol(p == q); p = q; strtol(p == q); p = 0; strtol(p == q);")),
            ("nullcond", format!("{tc} *q = &x; {tc} *p = strlen(2000) ? q : 0; if (p) *p = 5; p = strlen(2001) ? 0 : q; if (p) *p = 6; {} strtol(p && 1); strtol(0 || p);", rec("x", t.fp()))) ] {
            out(Case::new(format!("C02/{n}/{}", t.id), prog("", &format!("{tc} x; x = 1; {b}"))).opts(&two()));
        }
    }
}

/// Constant expressions: enumerated by shape, evaluated in every constant context.
pub fn constants(th: bool, out: Sink) {
    let small = ["0", "1", "2", "3", "5", "7", "31", "-1", "-3", "'A'", "127", "255", "2147483647", "2147483648", "0xffffffff", "4294967296", "E1", "E2", "sizeof(int)", "sizeof(long)", "(char)200", "(unsigned char)300", "(short)70000", "(long)1", "(unsigned)1", "(int)2.9", "!0", "~0", "+4", "-2147483647"];
    let pre = "enum { E1 = 3, E2 = -2 };\n";
    let mut emit = |id: String, e: &str, full: bool| {
        out(Case::new(format!("C03/enum/{id}"), prog(pre, &format!("enum {{ K = {e}, L }}; strtol(K); strtol(L);"))).kind(Kind::Either));
        if full {
            out(Case::new(format!("C03/case/{id}"), prog(pre, &format!("long v; {} switch (v) {{ case {e}: strlen(1); break; default: strlen(2); }} ", env("v", 7)))).kind(Kind::Either));
            out(Case::new(format!("C03/array/{id}"), prog(pre, &format!("char a[{e}]; strtol(sizeof(a));"))).kind(Kind::Either));
            out(Case::new(format!("C03/global/{id}"), prog(&format!("{pre}long g = {e}; double d = {e}; unsigned char c = {e};\n"), "strtol(g); strtoul(d); strtol(c);")).kind(Kind::Either));
        }
    };
    for (i, a) in small.iter().enumerate() { emit(format!("leaf/{i}"), a, true); }
    for (op, on) in BINOPS { for (i, a) in small.iter().enumerate() { for (j, b) in small.iter().enumerate() {
        emit(format!("{on}/{i}/{j}"), &format!("{a} {op} {b}"), th || (i + 2 * j) % 5 == 0 || j < 4);
    } } }
    for (u, un) in [("-", "neg"), ("~", "com"), ("!", "not"), ("+", "pos")] { for (i, a) in small.iter().enumerate() { emit(format!("un{un}/{i}"), &format!("{u}({a})"), true);
        for (op, on) in BINOPS { emit(format!("un{un}{on}/{i}"), &format!("{u}({a}) {op} 3"), th); } } }
    for (i, a) in small.iter().enumerate() { for (j, b) in small.iter().enumerate() { emit(format!("tern/{i}/{j}"), &format!("({a}) ? ({b}) : 9"), th || i == j); emit(format!("ternb/{i}/{j}"), &format!("E1 > 2 ? ({a}) - 1 : ({b})"), th); } }
    for t in TYS { for (i, a) in small.iter().enumerate() { emit(format!("cast/{}/{i}", t.id), &format!("({})({a})", t.c), !t.fp()); emit(format!("castop/{}/{i}", t.id), &format!("({})({a}) / 2 < 1", t.c), th); emit(format!("sizeof/{}/{i}", t.id), &format!("sizeof({}) * 2 + ({a}) % 4", t.c), th); } }
    // nesting: (a op b) op2 c over a small set
    let few = ["2", "-3", "E1", "2147483648", "0"];
    for (o1, n1) in BINOPS { for (o2, n2) in BINOPS { for (i, a) in few.iter().enumerate() { for (j, b) in few.iter().enumerate() { if !th && i + j > 4 { continue; } emit(format!("nest/{n1}/{n2}/{i}/{j}"), &format!("({a} {o1} {b}) {o2} 3"), false); emit(format!("nestr/{n1}/{n2}/{i}/{j}"), &format!("4 {o1} ({a} {o2} {b})"), false); } } } }
    // enumerator sequences: explicit and implicit values, in every pattern of up to 4 enumerators
    for m in 0..(1u32 << (2 * 4)) {
        let v = ["", " = -1", " = 5", " = A + 1"];
        let names = ["A", "B", "C", "D"];
        let mut s = vec![]; let mut ok = true;
        for k in 0..4 { let x = ((m >> (2 * k)) & 3) as usize; if k == 0 && x == 3 { ok = false; } s.push(format!("{}{}", names[k], v[x])); }
        if !ok { continue; }
        out(Case::new(format!("C03/enumseq/{m}"), prog(&format!("enum e {{ {} }};\n", s.join(", ")), "strtol(A); strtol(B); strtol(C); strtol(D); enum e x = C; strtol(x); switch (x) { case A + 10: strlen(1); break; default: strlen(2); case C + 20: strlen(3); }")).kind(Kind::Either));
    }
    // expressions that are not constants must be rejected where a constant is required
    for (i, e) in ["x", "x + 1", "f()", "1 / 0", "1 % 0", "x = 1", "y++", "&x", "*p"].iter().enumerate() {
        out(reject(format!("C03/nonconst/enum/{i}"), prog("int y; int f();", &format!("int x = 1; int *p = &x; enum {{ K = {e} }}; strtol(K);"))));
        out(reject(format!("C03/nonconst/case/{i}"), prog("int y; int f();", &format!("int x = 1; int *p = &x; switch (x) {{ case {e}: strlen(1); }}"))));
    }
}

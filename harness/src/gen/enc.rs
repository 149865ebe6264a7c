//! C17 valid modules across every encoding boundary.
use super::opt::Pack;
use super::*;

fn around(v: &[usize], w: usize, th: bool, extra: &[usize]) -> Vec<usize> { let mut o: Vec<usize> = vec![]; for x in v { for k in x.saturating_sub(w)..=x + w { o.push(k); } } if th { o.extend(extra); } o.sort(); o.dedup(); o }

pub fn encodings(th: bool, out: Sink) {
    let ou = [Opts::DEFAULT, Opts::NONE];
    // integer constants: the neighbourhood of every power of two, both signs, in every context with its own encoding
    let ctxs: [(&str, &str); 9] = [("long", "long x = K; strtol(x);"), ("int", "int x = K; strtol(x);"), ("ul", "unsigned long x = K; strtol(x);"), ("char", "char x = K; strtol(x);"), ("arg", "strtol(K);"), ("add", "long x = strlen(2000); strtol(x + K);"), ("cmp", "long x = strlen(2000); strtol(x < K);"), ("dbl", "strtoul(K);"), ("fl", "float f = K; strtoul(f);")];
    for (cn, c) in ctxs { let mut pk = Pack::new(&format!("C17/const/{cn}"), 70, "", &ou, &[0], out);
        for k in 0..64u32 { for d in [-1i128, 0, 1] { let v = (1i128 << k) + d; if v > i64::MAX as i128 { continue; } for neg in [false, true] {
            if !th && (cn == "cmp" || cn == "char") && d != 0 { continue; }
            let s = if neg { format!("(-{v})") } else { format!("{v}") };
            pk.add(&c.replace('K', &s));
        } } }
    }
    let mut pk = Pack::new("C17/flt", 60, "", &ou, &[0], out);
    for k in (-60..=60).step_by(if th { 1 } else { 6 }) { for m in ["1.0", "1.5", "1.9999999", "-1.25"] { let e = if m == "1.9999999" { format!("{m}e{}", k / 2) } else { format!("{}", m.parse::<f64>().unwrap() * 2f64.powi(k / 2)) }; let e = if e.contains('.') || e.contains('e') { e } else { format!("{e}.0") }; pk.add(&format!("double d = {e}; float f = {e}; strtoul(d); strtoul(f); strtoul(d * {e}); strtol(d < {e}); strtol(f == {e});")); } }
    drop(pk);
    // stack frames of every size around the boundaries, with a variable on each side and a call below
    for n in around(&[1, 60, 64, 124, 128, 252, 256, 8188, 8192, 16380, 16384], 4, th, &(0..300).chain(4000..4010).chain(32760..32772).collect::<Vec<_>>()) { if n == 0 { continue; }
        out(Case::new(format!("C17/frame/{n}"), prog("int deep(int n) { char x[9]; x[8] = n; return n > 0 ? deep(n - 1) + x[8] : x[8]; }\n", &format!("int u = 5; char a[{n}]; long w = 6; int *p = &u; a[0] = 1; a[{}] = 2; *p = 7; strtol(deep(2)); strtol(a[0]); strtol(a[{}]); strtol(u); strtol(w);", n - 1, n - 1))).opts(if n % 4 == 0 || th { &ou } else { &ou[..1] }));
    }
    // globals and their addresses
    for n in around(&[1, 64, 100, 128, 8192 - 40, 8192, 16384 - 40, 16384], 3, th, &(0..200).collect::<Vec<_>>()) { if n == 0 { continue; }
        out(Case::new(format!("C17/data/{n}"), prog(&format!("int before = 3;\nchar a[{n}];\nint after = 4;\nchar *s = \"str\";\nint set() {{ a[{}] = 9; return after; }}\n", n - 1), &format!("strtol(set()); before = 8; strtol(a[{}]); a[0] = 7; strtol(before); strtol(after); strtol(s[2]); strtol(\"lit\"[1]);", n - 1))));
    }
    for n in around(&[1, 8, 64, 128, 256], 2, th, &(0..150).collect::<Vec<_>>()) { if n == 0 { continue; }
        let g: String = (0..n).map(|k| format!("int g{k} = {};\n", k * 3 + 1)).collect();
        out(Case::new(format!("C17/globals/{n}"), prog(&g, &format!("g0 = 77; strtol(g{}); strtol(g{}); strtol(g0);", n - 1, n / 2))));
        let f: String = (0..n).map(|k| format!("int f{k}(int a) {{ return a + {k}; }}\n")).collect();
        for (oi, o) in ou.iter().enumerate() { out(Case::new(format!("C17/funcs/{n}/{oi}"), prog(&f, &format!("strtol(f{}(1)); strtol(f{}(f0(2)));", n - 1, n / 2))).opts(&[*o]).seeds(if th { &[0, 1, 2] } else { &[0] })); }
        let ps: Vec<String> = (0..n).map(|k| format!("{} a{k}", ["char", "long", "int", "short"][k % 4])).collect(); let ar: Vec<String> = (0..n).map(|k| format!("{}", k % 100)).collect();
        if n <= 130 { out(Case::new(format!("C17/params/{n}"), prog(&format!("long f({}) {{ a0 = a0 + 1; return a0 * 1000 + a{} * 10 + a{}; }}\n", ps.join(", "), n - 1, n / 2), &format!("strtol(f({}));", ar.join(", "))))); }
        if n <= 66 || n == 128 || th && n <= 130 { let l: String = (0..n).map(|k| format!("int v{k} = strlen({k}); ")).collect(); let u: String = (0..n).map(|k| format!("v{k}{}", if k + 1 < n { " + " } else { "" })).collect(); out(Case::new(format!("C17/locals/{n}"), prog("", &format!("{l} strtol({u}); strtol(v{});", n - 1))).opts(&ou)); }
        let st: String = (0..n).map(|k| format!("strtol(\"s{k}x\"[{}]); ", 1 + k % 2)).collect(); if n <= 130 { out(Case::new(format!("C17/strings/{n}"), prog("", &st))); }
        let mm: String = (0..n).map(|k| format!("{} m{k}; ", ["char", "long", "int", "short"][k % 4])).collect();
        out(Case::new(format!("C17/members/{n}"), prog(&format!("struct S {{ {mm} }};\nstruct S gs;\n"), &format!("struct S s; s.m0 = 1; s.m{} = 2; gs = s; gs.m{} = 3; strtol(s.m{}); strtol(gs.m{}); strtol(gs.m{});", n - 1, n / 2, n - 1, n / 2, n - 1))));
        let cs: String = (0..n).map(|k| format!("case {k}: strlen({k}); {}", if k % 3 == 0 { "" } else { "break; " })).collect();
        if th || n <= 66 || n == 128 { out(Case::new(format!("C17/cases/{n}"), prog("", &format!("int x = strlen(3000); if (x == 1) x = {}; if (x == 2) x = {}; switch (x) {{ {cs} default: strlen(999); }}", n - 1, n / 2)))); }
        let en: Vec<String> = (0..n).map(|k| format!("E{k}")).collect();
        out(Case::new(format!("C17/enum/{n}"), prog(&format!("enum E {{ {} }};\n", en.join(", ")), &format!("strtol(E{}); strtol(E{});", n - 1, n / 2))));
    }
    // string literals of every length
    for n in around(&[0, 64, 127, 128, 256, 16384], 3, th, &(0..300).collect::<Vec<_>>()) {
        let s: String = (0..n).map(|k| (b'a' + (k % 26) as u8) as char).collect();
        out(Case::new(format!("C17/strlen/{n}"), prog(&format!("char *g = \"{s}\";\n"), &format!("char *p = \"{s}!\"; strtol(p[{n}]); strtol(p[{n} / 2]); strtol(g[{n}]); strtol(p[{n} + 1]);"))));
        if n < if th { 300 } else { 132 } { out(Case::new(format!("C17/stra/{n}"), prog("", &format!("char a[] = \"{s}\"; strtol(sizeof a); strtol(a[{n}]); strtol(a[{n} / 2]);")))); }
    }
    // bodies of every size: straight-line code, nesting of statements, of expressions and of blocks
    for n in (1..if th { 220 } else { 60 }).chain(around(&[if th { 400 } else { 120 }], 0, th, &[600, 900])) {
        let b: String = (0..n).map(|k| format!("x = x + {k}; ")).collect(); out(Case::new(format!("C17/body/{n}"), prog("", &format!("int x = strlen(2000); {b} strtol(x);"))));
    }
    for n in (1..if th { 130 } else { 30 }).chain([if th { 140 } else { 66 }, if th { 200 } else { 68 }]) {
        let rep = |s: &str, n: usize| s.repeat(n);
        out(Case::new(format!("C17/ifs/{n}"), prog("", &format!("{} strlen(5); {} strlen(6);", rep("if (strlen(2000)) { ", n.min(80)), rep("} ", n.min(80))))).opts(&ou));
        out(Case::new(format!("C17/elses/{n}"), prog("", &format!("int x = strlen(3000) * {n} / 2; {} strlen(999);", (0..n).map(|k| format!("if (x == {k}) strlen({k}); else ")).collect::<String>()))));
        out(Case::new(format!("C17/blocks/{n}"), prog("", &format!("int x = 1; {} strtol(x); {} strtol(x);", (0..n).map(|k| format!("{{ int x = {k}; ")).collect::<String>(), rep("} ", n)))));
        if n <= 40 { out(Case::new(format!("C17/loops/{n}"), prog("", &format!("int q = 0; {} strlen(5); q = 1; {}", (0..n).map(|k| format!("while (q == {k} - {k}) {{ ")).collect::<String>(), rep("} ", n)))).opts(&ou)); }
        if n <= 40 { out(Case::new(format!("C17/loopbr/{n}"), prog("", &format!("int q = 0; {} if (strlen(2000)) break; strlen(5); q = 1; {} strlen(6);", rep("while (q == 0) { ", n), rep("if (q) continue; strlen(7); q = 1; } ", n)))).opts(&ou)); }
        out(Case::new(format!("C17/parens/{n}"), prog("", &format!("strtol({}strlen(3000){});", rep("(1 + ", n), rep(")", n)))));
        out(Case::new(format!("C17/unary/{n}"), prog("", &format!("int x = strlen(3000); strtol({}x); strtol({}x);", rep("- ", n), rep("!", n)))));
        if th || n <= 24 { out(Case::new(format!("C17/tern/{n}"), prog("", &format!("int x = strlen(3000) * {n} / 2; strtol({}99);", (0..n).map(|k| format!("x == {k} ? {k} + 100 : ")).collect::<String>())))); }
        out(Case::new(format!("C17/ands/{n}"), prog("", &format!("int x = strlen(3000); strtol({} x);", (0..n).map(|k| format!("x != {} && ", k + 3)).collect::<String>()))));
        out(Case::new(format!("C17/stars/{n}"), prog("", &format!("int x = 4; {} strtol({}p{});", (0..n).map(|k| format!("int {}p{} = &{}; ", rep("*", k + 1), k + 1, if k == 0 { "x".into() } else { format!("p{k}") })).collect::<String>(), rep("*", n), n))));
        out(Case::new(format!("C17/arr/{n}"), prog("", &format!("int a{}; a{} = 7; strtol(a{}); strtol(sizeof a);", rep("[1]", n.min(12)), rep("[0]", n.min(12)), rep("[0]", n.min(12))))));
        out(Case::new(format!("C17/labels/{n}"), prog("", &format!("int q = 0; {} strtol(q);", (0..n).map(|k| format!("l{k}: q++; if (q < {k}) goto l{}; ", k / 2)).collect::<String>()))));
        let name = rep("n", n * 5); out(Case::new(format!("C17/name/{n}"), prog(&format!("int {name}(int {name}x) {{ return {name}x + 1; }}\nstruct {name} {{ int {name}; }};\n"), &format!("struct {name} {name}y; {name}y.{name} = {name}(3); strtol({name}y.{name}); goto {name}l; {name}l: ;"))));
        out(Case::new(format!("C17/callargs/{n}"), prog("int f(int a) { return a + 1; }\n", &format!("strtol({}0{});", rep("f(", n), rep(")", n)))));
        out(Case::new(format!("C17/nest/{n}"), prog(&format!("{}struct S0 {{ int v; char c; }};\n{}", "", (0..n.min(20)).map(|k| format!("struct S{} {{ char c; struct S{k} s; long l; }};\n", k + 1)).collect::<String>()), &format!("struct S{} x; struct S{} y; x{}.v = 5; x.c = 6; y = x; strtol(y{}.v); strtol(y.c); strtol(sizeof x > {});", n.min(20), n.min(20), rep(".s", n.min(20)), rep(".s", n.min(20)), n.min(20)))));
    }
    // the smallest programs, and every subset of the library used or only declared
    for (i, s) in ["int main() { return 0; }\n", "int main() { }\n", "int main(void) { return 5; }\n", "int x;\nint main() { return x; }\n", "void f();\nint main() { return 1; }\nvoid f() {}\n", "int main() { return main ? 0 : 0; }\n", "char *s = \"a\";\nint main() { return 0; }\n", "struct S { int x; };\nenum E { A };\ntypedef int I;\nint main() { return A; }\n", "int main(int argc, char **argv) { return argc; }\n", "int main(int argc, char *argv[]) { return 3; }\n"].iter().enumerate() { if i == 5 { continue; } out(Case::new(format!("C17/min/{i}"), *s).opts(&Opts::all16())); }
    let libs = ["int strlen(int t);\n", "int strtol(long v);\n", "int strtoul(double v);\n", "int strstr(char *p, int n);\n", "int printf(char *f, ...);\n"]; let calls = ["strlen(7);", "strtol(8);", "strtoul(1.5);", "char s[2]; s[0] = 1; s[1] = 2; strstr(s, 2);", "printf(\"%d\", 4);"];
    for d in 0..32u32 { for u in 0..32u32 { if u & !d != 0 { continue; } for place in 0..2 {
        let ds: String = libs.iter().enumerate().filter(|(k, _)| d >> k & 1 == 1).map(|(_, s)| *s).collect(); let us: String = calls.iter().enumerate().filter(|(k, _)| u >> k & 1 == 1).map(|(_, s)| *s).collect();
        out(Case::new(format!("C17/lib/{d}/{u}/{place}"), if place == 0 { format!("{ds}int main() {{ {us} return 2; }}\n") } else { format!("{ds}void un() {{ {us} }}\nint main() {{ return 2; }}\n") }).opts(if th { &[Opts::DEFAULT, Opts::NONE, Opts { tail: true, unreach: true, stack: true, prof: true }] } else { &ou }));
    } } }
}

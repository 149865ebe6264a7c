//! C08 calls and frames, C09 tail calls.
use super::*;

fn perms(n: usize) -> Vec<Vec<usize>> { if n == 0 { return vec![vec![]]; } let mut o = vec![]; for p in perms(n - 1) { for i in 0..n { let mut q = p.clone(); q.insert(i, n - 1); o.push(q); } } o }
/// a constant of the type, distinct per position
fn val(t: Ty, k: usize) -> String { match t.d { 1 => format!("-{}", 10 + k), 2 => format!("{}", 200 + k), 3 => format!("-{}", 3000 + k), 4 => format!("{}", 60000 + k), 5 => format!("-{}", 70000 + k), 6 => format!("{}", 4000000000u64 + k as u64), 7 => format!("-{}", 5000000000u64 + k as u64), 8 => format!("0x{:x}", 18000000000000000000u64 + k as u64), 9 => format!("{}.5", k), _ => format!("-{}.25", k) } }

pub fn calls(th: bool, out: Sink) {
    // every mixture of parameter types: the callee sees each argument, may overwrite all its parameters, and the caller's objects keep their values
    let mut mix = |id: String, ts: &[Ty], ret: Option<Ty>, opts: &[Opts]| {
        let n = ts.len();
        let ps: Vec<String> = ts.iter().enumerate().map(|(i, t)| format!("{} p{i}", t.c)).collect();
        let recs: String = ts.iter().enumerate().map(|(i, t)| rec(&format!("p{i}"), t.fp())).collect::<Vec<_>>().join(" ");
        let over: String = (0..n).map(|i| format!("p{i} = {};", 90 + i)).collect::<Vec<_>>().join(" ");
        let (rc, rs) = match ret { Some(r) => (r.c, format!("return {};", val(r, 7))), None => ("void", String::new()) };
        let f = format!("{rc} f({}) {{ {} l0 = 77; {recs} {over} {recs} strtol(l0); {rs} }}\n", ps.join(", "), if n % 2 == 0 { "long" } else { "char" });
        let dl: String = ts.iter().enumerate().map(|(i, t)| format!("{} a{i} = {};", t.c, val(*t, i))).collect::<Vec<_>>().join(" ");
        let args: Vec<String> = (0..n).map(|i| format!("a{i}")).collect();
        let call = format!("f({})", args.join(", "));
        let ra: String = ts.iter().enumerate().map(|(i, t)| rec(&format!("a{i}"), t.fp())).collect::<Vec<_>>().join(" ");
        let use1 = match ret { Some(r) => rec(&call, r.fp()), None => format!("{call};") };
        let use2 = match ret { Some(r) => format!("{} r = {call}; {}", r.c, rec("r", r.fp())), None => format!("{call};") };
        out(Case::new(id, prog(&f, &format!("char g0 = 5; {dl} int g1 = 6; {use1} {ra} {use2} {ra} {call}; strtol(g0); strtol(g1); {ra}"))).opts(opts));
    };
    mix("C08/mix0/void".into(), &[], None, &two());
    for r in TYS { mix(format!("C08/mix0/{}", r.id), &[], Some(r), &two()); for a in TYS { mix(format!("C08/mix1/{}/{}", r.id, a.id), &[a], Some(r), &two()); } }
    for a in TYS { mix(format!("C08/mix1/void/{}", a.id), &[a], None, &two()); for b in TYS { for (k, r) in [None, Some(TYS[4]), Some(TYS[9])].iter().enumerate() { mix(format!("C08/mix2/{k}/{}/{}", a.id, b.id), &[a, b], *r, &[Opts::DEFAULT]); } } }
    let sub: Vec<Ty> = if th { TYS.to_vec() } else { ["c", "us", "i", "l", "f", "d"].iter().map(|x| ty(x)).collect() };
    for a in &sub { for b in &sub { for c in &sub { mix(format!("C08/mix3/{}/{}/{}", a.id, b.id, c.id), &[*a, *b, *c], Some(*b), &[Opts::DEFAULT]); } } }
    for n in 4..=(if th { 40 } else { 14 }) { for s in 0..10 { let ts: Vec<Ty> = (0..n).map(|i| TYS[(i * (s % 3 + 1) + s) % 10]).collect(); mix(format!("C08/mixn/{n}/{s}"), &ts, Some(TYS[(n + s) % 10]), &[Opts::DEFAULT]); } }

    // recursion over statement lists: every body of up to n statements for two functions that call each other
    let stm = ["strlen(K + l);", "l = l + p;", "if (strlen(2010 + K)) return l;", "l += f(d - 1, l + 1);", "l = l * 2 + g(d - 1, p);", "strlen(K + g(d - 1, f(d - 1, l)));", "if (p & 1) l++; else l = g(d - 1, p + 1);", "{ int m = f(d - 1, p); strlen(K + m + l); }", "while (p < 3) { p++; l += f(d - 1, p); }"];
    let max = if th { 3 } else { 2 };
    let mut lists: Vec<Vec<usize>> = vec![vec![]]; let mut last = lists.clone();
    for _ in 0..max { let mut nx = vec![]; for l in &last { for s in 0..stm.len() { let mut m: Vec<usize> = l.clone(); m.push(s); nx.push(m); } } lists.extend(nx.clone()); last = nx; }
    let show = |l: &[usize], base: usize| l.iter().enumerate().map(|(i, s)| stm[*s].replace('K', &(base + 20 * i).to_string())).collect::<Vec<_>>().join(" ");
    let gl: Vec<&Vec<usize>> = lists.iter().filter(|l| l.len() <= 1 || (th && l.len() == 2)).collect();
    for (i, lf) in lists.iter().enumerate() { for (j, lg) in gl.iter().enumerate() {
        if th && lf.len() == 3 && lg.len() == 2 { continue; }
        let fb = show(lf, 100); let gb = show(lg, 400);
        let src = format!("int g(int d, int p);\nint f(int d, int p) {{ int l = p + 1; if (d <= 0) return p; {fb} return l & 15; }}\nint g(int d, int p) {{ int l = p - 1; if (d <= 0) return -p; {gb} return l & 7; }}\n");
        out(Case::new(format!("C08/rec/{i}/{j}"), prog(&src, "int x = 3; int r = f(2, 1); strtol(r); strtol(x); r = g(2, r); strtol(r + x);")).opts(if i % 3 == 0 { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
    } }
    // calls in every position of every statement, leaving the caller's locals alone
    let pos = ["E;", "r = E;", "strtol(E);", "if (E) strlen(1); else strlen(2);", "while (E) { strlen(1); if (strlen(2001)) break; }", "do { strlen(1); } while (E && strlen(2002));", "for (E; E < 9; E) { strlen(1); if (strlen(2003)) break; }", "switch (E) { case 3: strlen(1); default: strlen(2); }", "return E;", "arr[E & 1] = E;", "strtol(E ? E : 0);", "strtol(E && E);", "strtol(E || E);", "int q = E; strtol(q);", "int q[2] = {E, E}; strtol(q[0]); strtol(q[1]);", "strtol((E, E));", "strtol(-E);", "strtol(arr[E & 1]);", "*(&r) = E; strtol(r);", "r += E; strtol(r);", "strtol((char)E);", "{ int r = E; strtol(r); }", "if (E > 2) { if (E < 8) return E; }", "goto l; l: strtol(E);"];
    let exs = ["f(3)", "f(a)", "f(f(a))", "f(a) + f(b)", "f(a) * 2 - b", "f(a + f(b))", "h(a, b)", "h(f(a), f(b))", "h(b, h(a, b))", "h(h(a, b), h(b, a))", "v(a)", "f(v(b))", "k(a, b, 1, 2, 3, f(a))", "n()", "f(n())", "h(n(), a) - n()"];
    for (i, p) in pos.iter().enumerate() { for (j, e) in exs.iter().enumerate() {
        out(Case::new(format!("C08/pos/{i}/{j}"), prog("int f(int x) { int l = x + 1; return l; }\nint h(int x, int y) { int l = f(x); return l * 3 + y; }\nint v(int x) { x = x + 5; { int y = x; x = y * 2; } return x; }\nint k(char a, short b, long c, unsigned d, int e, int f) { return a + b * 2 + c * 3 + d * 4 + e * 5 + f * 6; }\nint n() { return 4; }\nint run(int a, int b) { int r = 50; int arr[2] = {60, 61}; char z = 70; BODY strtol(a); strtol(b); strtol(r); strtol(arr[0]); strtol(arr[1]); strtol(z); return r; }\n", "char c = 9; strtol(run(1, 2)); strtol(c); strtol(run(c, -1)); strtol(c);").replace("BODY", &p.replace('E', e))).opts(&two()));
    } }
    // fixed recursive algorithms, explored for every argument the environment picks
    let algs: [(&str, &str, &str); 12] = [
        ("fact", "long f(int n) { if (n < 2) return 1; return n * f(n - 1); }\n", "strtol(f(strlen(13000)));"),
        ("fib", "int f(int n) { return n < 2 ? n : f(n - 1) + f(n - 2); }\n", "strtol(f(strlen(9000)));"),
        ("ack", "int f(int m, int n) { if (m == 0) return n + 1; if (n == 0) return f(m - 1, 1); return f(m - 1, f(m, n - 1)); }\n", "strtol(f(strlen(3000), strlen(4001)));"),
        ("evenodd", "int odd(int n);\nint even(int n) { if (n == 0) return 1; return odd(n - 1); }\nint odd(int n) { if (n == 0) return 0; return even(n - 1); }\n", "int n = strlen(9000); strtol(even(n)); strtol(odd(n));"),
        ("hanoi", "int c;\nvoid f(int n, int a, int b, int t) { if (n == 0) return; f(n - 1, a, t, b); strlen(a * 10 + b); c++; f(n - 1, t, b, a); }\n", "f(strlen(5000), 1, 2, 3); strtol(c);"),
        ("arr", "int f(int *p, int n) { int l[3]; int i; for (i = 0; i < 3; i++) l[i] = p[i] + n; if (n > 0) { int s = f(l, n - 1); return s + l[0] - l[2] + p[1]; } return l[0] + l[1] + l[2]; }\n", "int a[3] = {1, 2, 3}; strtol(f(a, strlen(6000))); strtol(a[0]); strtol(a[1]); strtol(a[2]);"),
        ("ptr", "void f(int *p, int n) { int l = n; if (n > 0) { f(&l, n - 1); } *p = *p + l; }\n", "int x = 1; f(&x, strlen(6000)); strtol(x);"),
        ("swap", "void sw(long *a, long *b) { long t = *a; *a = *b; *b = t; }\n", "long x = strlen(3000); long y = -1; char z = 5; sw(&x, &y); strtol(x); strtol(y); strtol(z); sw(&x, &x); strtol(x);"),
        ("sort", "void q(int *a, int l, int r) { int i = l; int j = r; int p; int t; if (l >= r) return; p = a[(l + r) / 2]; while (i <= j) { while (a[i] < p) i++; while (a[j] > p) j--; if (i <= j) { t = a[i]; a[i] = a[j]; a[j] = t; i++; j--; } } q(a, l, j); q(a, i, r); }\n", "int a[4]; int i; for (i = 0; i < 4; i++) a[i] = strlen(3000 + i); q(a, 0, 3); for (i = 0; i < 4; i++) strtol(a[i]);"),
        ("gcd", "unsigned g(unsigned a, unsigned b) { return b ? g(b, a % b) : a; }\n", "strtol(g(strlen(13000), strlen(13001)));"),
        ("queens", "int b[4];\nint ok(int r, int c) { int i; for (i = 0; i < r; i++) { int d = b[i] - c; if (d == 0 || d == r - i || d == i - r) return 0; } return 1; }\nint s(int r) { int c; int n = 0; if (r == 4) { strtol(b[0] * 1000 + b[1] * 100 + b[2] * 10 + b[3]); return 1; } for (c = 0; c < 4; c++) if (ok(r, c)) { b[r] = c; n += s(r + 1); } return n; }\n", "strtol(s(0));"),
        ("dbl", "double p(double x, int n) { double h; if (n == 0) return 1.0; h = p(x, n / 2); return n % 2 ? h * h * x : h * h; }\n", "strtoul(p(1.5, strlen(9000)));"),
    ];
    for (n, g, b) in algs { out(Case::new(format!("C08/alg/{n}"), prog(g, b)).opts(&Opts::all16()).seeds(&[0, 1, 2])); }
    // a return from every depth of nesting releases the frame: many calls in a row
    for (i, b) in ["while (1) { if (strlen(2000)) return 1; }", "for (;;) { int z = 3; switch (strlen(3000)) { case 0: return z; case 1: continue; default: break; } break; } return 5;", "{ int a[4]; { int b[5]; b[1] = 2; a[2] = b[1]; if (strlen(2000)) return a[2]; } } return 7;", "if (strlen(2000)) { if (strlen(2001)) return 1; return 2; } else { return 3; }", "do { if (strlen(2000)) goto o; } while (strlen(2001)); return 4; o: return 6;"].iter().enumerate() {
        for t in TYS { out(Case::new(format!("C08/leave/{i}/{}", t.id), prog(&format!("{} f(char x) {{ long y = x; {b} }}\n", t.c), &format!("while (strlen(2050)) {{ {} }}", rec("f(1)", t.fp())))).opts(&two())); }
    }
    for (i, b) in ["while (1) { if (strlen(2000)) return; }", "if (strlen(2000)) return; strlen(1);", "strlen(1);", "for (;;) { switch (strlen(3000)) { case 0: return; case 1: continue; } break; }"].iter().enumerate() { out(Case::new(format!("C08/leavev/{i}"), prog(&format!("void f(char x) {{ long y = x; {b} }}\n"), "while (strlen(2050)) { f(3); strlen(9); }")).opts(&Opts::all8())); }
    // declarations: prototypes before, after, repeated, without parameter names, and arrays as parameters
    for (i, (g, b)) in [("int f(int);\n", "strtol(f(4));"), ("int f(int a);\nint f(int b);\n", "strtol(f(5));"), ("int f(int a), g(char c);\nint g(char c) { return c - 1; }\n", "strtol(f(g(5)));")].iter().enumerate() {
        let src = format!("{PRE}{g}int main() {{ {b} return 0; }}\nint f(int x) {{ return x * 2; }}\n");
        out(Case::new(format!("C08/decl/{i}"), src).opts(&two()));
    }
    for t in TYS { let c = t.c; for (i, p) in ["T p[]", "T p[3]", "T *p", "T p[1]"].iter().enumerate() {
        out(Case::new(format!("C08/arrpar/{}/{i}", t.id), prog(&format!("int f({}, int n) {{ p[1] = p[0] + n; p++; {} return sizeof(p); }}\n", p.replace('T', c), rec("*p", t.fp())), &format!("{c} a[3] = {{1, 2, 3}}; strtol(f(a, 4)); {} {} {}", rec("a[0]", t.fp()), rec("a[1]", t.fp()), rec("a[2]", t.fp())))).opts(&two()));
    } }
}

fn tail_opts() -> Vec<Opts> { vec![Opts::DEFAULT, Opts { tail: true, unreach: false, stack: false, prof: false }, Opts { tail: false, unreach: true, stack: true, prof: false }, Opts { tail: true, unreach: true, stack: true, prof: true }] }

pub fn tailcalls(th: bool, out: Sink) {
    // the parameters take the new values simultaneously: every assignment of expressions over the old parameters to each position
    let ex = ["a", "b", "c", "a + b", "b - c", "h(a)", "7", "c + 1"];
    for (i, x) in ex.iter().enumerate() { for (j, y) in ex.iter().enumerate() { for (k, z) in ex.iter().enumerate() {
        if !th && (i + j + k) % 2 == 1 && i > 2 && j > 2 { continue; }
        out(Case::new(format!("C09/par3/{i}/{j}/{k}"), prog(&format!("int h(int x) {{ return x * 3; }}\nint f(int n, int a, int b, int c) {{ if (n == 0) return a * 100 + b * 10 + c; return f(n - 1, {x}, {y}, {z}); }}\n"), "strtol(f(3, 1, 2, 4)); strtol(f(1, 5, 6, 7));")).opts(&tail_opts()[..if th { 4 } else { 1 }]));
    } } }
    // every pair of parameter types, swapped
    for a in TYS { for b in TYS {
        out(Case::new(format!("C09/types/{}/{}", a.id, b.id), prog(&format!("{} f(int n, {} a, {} b) {{ {} {} if (n == 0) return a; return f(n - 1, b, a); }}\n", a.c, a.c, b.c, rec("a", a.fp()), rec("b", b.fp())), &format!("{} {}", rec("f(0, 3, 100)", a.fp()), rec(&format!("f(3, {}, {})", if a.fp() { "1.5" } else { "65" }, if b.fp() { "2.5" } else { "66" }), a.fp())))).opts(&tail_opts()));
        out(Case::new(format!("C09/mixed/{}/{}", a.id, b.id), prog(&format!("{} f({} a, int n, {} b, char c) {{ if (n == 0) return a; c = c + 1; strtol(c); return f(a + 1, n - 1, a, c); }}\n", b.c, a.c, b.c), &rec("f(5, 4, 7, 1)", b.fp()))).opts(&tail_opts()[..2]));
    } }
    // places a self-call can stand in: tail or not
    let bodies = [
        "return f(n - 1, a + n);", "if (a & 1) return f(n - 1, a + 3); return f(n - 1, a + 2);", "if (a & 1) { strlen(1); return f(n - 1, a * 3 + 1); } else { strlen(2); return f(n - 1, a / 2); }",
        "while (1) { if (a > 3) return f(n - 1, a - 3); a++; }", "for (int i = 0; i < 3; i++) { if (i == n) return f(n - 1, a + i); } return f(n - 2, a);", "do { a = a < 6 ? a + 1 : a; if (strlen(2010)) return f(n - 1, a); } while (strlen(2011)); return a;",
        "switch (a & 3) { case 0: return f(n - 1, a + 1); case 1: a += 5; case 2: return f(n - 1, a - 1); default: return f(n - 1, a + 7); }",
        "return f(n - 1, a) + 1;", "return -f(n - 1, a);", "return (char)f(n - 1, a + 100);", "return f(n - 1, a) && strlen(2001);", "return strlen(2001) && f(n - 1, a);", "return strlen(2001) ? f(n - 1, a + 1) : f(n - 1, a + 2);", "return strlen(2001) || f(n - 1, a);",
        "return (strlen(3), f(n - 1, a + 1));", "return (f(n - 1, a + 1), strlen(5));", "return f(n - 1, f(n - 1, a + 1));", "return f(n - 1, a + 1) * 2 + f(n - 1, a);", "int r = f(n - 1, a + 1); return r;", "int r = f(n - 1, a + 1); strlen(r + 20); return r;", "int r = f(n - 1, a + 1); return a;",
        "int r = 5; r = f(n - 1, a + r); if (r > 3) return r; return f(n - 1, r);", "f(n - 1, a); return a;", "f(n - 1, a); return f(n - 1, a + 2);", "a = f(n - 1, a + 1); return a;", "return a = f(n - 1, a + 1);", "return g(n, a);", "return g(n, f(n - 1, a));", "if (strlen(2001)) return g(n, a); return f(n - 1, a);",
        "goto x; y: return f(n - 1, a + 2); x: if (strlen(2001)) goto y; return f(n - 1, a + 1);", "{ int n = 0; return f(n, a); }", "{ int a2 = a; { int a = a2 + 1; return f(n - 1, a); } }", "int t = a; a = n; return f(n - 1, t);", "n--; a++; return f(n, a);", "return f(n--  - 1, a);", "return f(n - 1, a++);", "gl++; return f(n - 1, gl);", "int x[2]; x[0] = a; x[1] = n; return f(x[1] - 1, x[0] + 1);", "int x = a; int *p = &x; return f(n - 1, *p + 1);", "int *p = &a; *p = *p + 1; return f(n - 1, a);",
        "return f(n - 1, (int)(a * 1.5));", "return f(n - 1, a + 1) & 255;", "return (int)f(n - 1, a + 1);", "return f(n - 1, a + 1) == 3;", "return !f(n - 1, a + 1);", "return +f(n - 1, a + 1);", "return (f(n - 1, a + 1));", "if (f(n - 1, a)) return f(n - 1, a + 1); return 0;", "while (f(n - 1, a) > a && a < 9) a += 2; return f(n - 1, a);", "for (; a < 6; a = f(n - 1, a + 1)) strlen(7); return a;",
        "return strlen(2001) ? f(n - 1, a + 1) : a;", "return strlen(2001) ? a : f(n - 1, a);", "return strlen(2001) ? f(n - 1, a) + 1 : f(n - 1, a + 2);",
        "return strlen(a + 10);", "strlen(1); return h(f(n - 1, a));", "return h(a);",
    ];
    for (i, b) in bodies.iter().enumerate() { for t in TYS { for (bi, base) in ["return a;", "return 0;", "return a + 1;"].into_iter().enumerate() {
        if t.d != 5 && base != "return a + 1;" { continue; }
        if t.fp() && (b.contains("a & 1") || b.contains("a & 3") || b.contains("& 255") || b.contains("strlen(r +") || b.contains("strlen(a +")) { continue; }
        let src = format!("int gl = 1;\nint h(int x) {{ return x + 50; }}\nint g(int n, {t} a);\n{t} f(int n, {t} a) {{ if (n <= 0) {base} {b} }}\nint g(int n, {t} a) {{ if (n <= 0) return a; return f(n - 1, a + 10); }}\n", t = t.c);
        out(Case::new(format!("C09/body/{i}/{}/{}", t.id, bi), prog(&src, &format!("char z = 4; {} {} strtol(gl); strtol(z);", rec("f(3, 1)", t.fp()), rec("f(2, 6)", t.fp())))).opts(&tail_opts()[..if t.d == 5 { 4 } else { 1 }]));
    } } }
    // void functions, whose self-call may end the function
    for (i, b) in ["f(n - 1, a + 1);", "f(n - 1, a + 1); return;", "f(n - 1, a + 1); strlen(n);", "if (strlen(2001)) f(n - 1, a); else f(n - 1, a + 2);", "while (strlen(2001)) { f(n - 1, a); } strlen(4);", "if (strlen(2001)) { f(n - 1, a); return; } strlen(8);", "strlen(a); f(n - 1, a + 1); strlen(a);", "int x = a; f(n - 1, x + 1); strlen(x);"].iter().enumerate() {
        out(Case::new(format!("C09/void/{i}"), prog(&format!("void f(int n, int a) {{ if (n <= 0) {{ strlen(50 + a); return; }} {b} }}\n"), "f(3, 1); strlen(90); f(2, 2);")).opts(&tail_opts()));
    }
    // pointers to the locals and parameters of the frame that is given up
    for (i, f) in ["int f(int n, int *p) { int l = *p + 1; if (n == 0) return l; return f(n - 1, &l); }\n", "int f(int n, int *p) { int l = n * 10; strlen(*p + 1); if (n == 0) return *p + l; return f(n - 1, &l); }\n", "int f(int n, int *p) { strlen(*p + 1); if (n == 0) return *p; *p = *p + n; return f(n - 1, p); }\n", "int f(int n, int *p) { int a[3]; a[0] = *p; a[1] = n; a[2] = 5; if (n == 0) return p[0] + a[1]; return f(n - 1, a + (n & 1)); }\n", "int f(int n, int *p) { if (n == 0) return *p; return f(n - 1, &n) + *p; }\n", "int f(int n, int *p) { if (n == 0) return *p; return f(n - 1, &n); }\n", "struct S { int x; int y; };\nint g(int n, struct S *s) { struct S t; t.x = s->y; t.y = s->x + n; if (n == 0) return t.x * 100 + t.y; return g(n - 1, &t); }\nint f(int n, int *p) { struct S s; s.x = *p; s.y = 2; return g(n, &s); }\n"].iter().enumerate() {
        for d in 0..5 { out(Case::new(format!("C09/ptr/{i}/{d}"), prog(f, &format!("int x = 3; strtol(f({d}, &x)); strtol(x); strtol(f({d}, &x)); strtol(x);"))).opts(&Opts::all16()).seeds(&[0, 1])); }
    }
    // more than one recursive function, and calls to other functions in tail position
    for (i, (s, e)) in [("int g(int n, int a);\nint f(int n, int a) { if (n == 0) return a; return g(n - 1, a + 1); }\nint g(int n, int a) { if (n == 0) return -a; return f(n - 1, a * 2); }\n", "strtol(f(N, 1)); strtol(g(N, 2));"),
        ("int g(int a, int n, int b) { if (n == 0) return a + b; return g(b, n - 1, a + 1); }\nint f(int n, int a) { if (n == 0) return g(a, 3, 1); return f(n - 1, g(a, n, 2)); }\n", "strtol(f(N, 1)); strtol(g(7, N, 5));"),
        ("int g(int n) { if (n == 0) return 0; return g(n - 1); }\nint f(int n, int a) { if (n == 0) return a; int k = g(n); return f(n - 1, a + k + 1); }\n", "strtol(f(N, 1)); strtol(g(N));")].iter().enumerate() {
        for n in 0..6 { out(Case::new(format!("C09/multi/{i}/{n}"), prog(s, &e.replace('N', &n.to_string()))).opts(&tail_opts())); }
    }
    // depth: with the optimisation on, a hundred thousand self-calls fit in the one page of memory
    let on: Vec<Opts> = Opts::all16().into_iter().filter(|o| o.tail).collect();
    for (i, (f, e)) in [("int f(int n, int a) { if (n == 0) return a; return f(n - 1, a + 1); }\n", "f(D, 0)"), ("long f(long n, long a, char c) { if (n == 0) return a + c; return f(n - 1, a + n, c ^ 1); }\n", "f(D, 0, 1)"), ("int f(int n, int a) { if (n == 0) return a; if (n & 1) return f(n - 1, a + 2); else return f(n - 1, a - 1); }\n", "f(D, 0)"), ("int f(int n, int a) { switch (n % 3) { case 0: if (n == 0) return a; return f(n - 1, a + 1); case 1: return f(n - 1, a * 2 & 1023); default: return f(n - 1, a ^ 5); } }\n", "f(D, 3)"), ("int h(int x) { return x + 1; }\nint f(int n, int a) { int l = h(a); if (n == 0) return l; return f(n - 1, l); }\n", "f(D, 0)"), ("unsigned g(unsigned a, unsigned b) { if (b == 0) return a; return g(b, a % b); }\nint f(int n) { if (n == 0) return 7; if (g(n, 12) > 20) return 3; return f(n - 1); }\n", "f(D)"), ("double f(int n, double a, double b) { if (n == 0) return a; return f(n - 1, b, a + 1.0); }\n", "f(D, 0.0, 0.5)"), ("int f(int n, int a) { while (a > 100) a -= 7; for (;;) { if (n == 0) return a; return f(n - 1, a + 3); } }\n", "f(D, 0)"), ("int f(int n, int a, int b, int c) { if (n == 0) return a * 4 + b * 2 + c; return f(n - 1, b, c, a); }\n", "f(D, 0, 1, 2)"), ("struct S { int x; char y; };\nstruct S gs;\nint f(int n, struct S *p) { if (n == 0) return p->x; p->x = p->x + 1; return f(n - 1, p); }\n", "f(D, &gs)")].iter().enumerate() {
        for (dn, d) in if th { vec![(0, 0), (1, 1), (2, 2), (3, 9000), (4, 60000)] } else { vec![(1, 1), (3, 5000)] } {
            out(Case::new(format!("C09/deep/{i}/{dn}"), prog(f, &rec(&e.replace('D', &d.to_string()), e.contains('.')))).opts(if th { &on } else { &on[..2] }).fuel(60_000_000));
        }
    }
    // the exchange of n parameters by every permutation
    for n in 2..=(if th { 5 } else { 4 }) { for (k, p) in perms(n).iter().enumerate() { for (tn, ts) in [("i", ["int"; 5]), ("m", ["char", "long", "short", "double", "int"])] {
        let ps: Vec<String> = (0..n).map(|i| format!("{} p{i}", ts[i])).collect();
        let args: Vec<String> = p.iter().map(|i| format!("p{i}")).collect();
        let res: Vec<String> = (0..n).map(|i| format!("p{i} * {}", 10i32.pow(i as u32))).collect();
        let init: Vec<String> = (0..n).map(|i| (i + 1).to_string()).collect();
        out(Case::new(format!("C09/perm/{tn}/{n}/{k}"), prog(&format!("int f(int n, {}) {{ if (n == 0) return {}; return f(n - 1, {}); }}\n", ps.join(", "), res.join(" + "), args.join(", ")), &(0..4).map(|d| format!("strtol(f({d}, {}));", init.join(", "))).collect::<Vec<_>>().join(" "))).opts(&tail_opts()[..2]));
    } } }
}

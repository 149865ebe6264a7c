//! C27: the stack pointer log.
use super::opt::{feature, FEATURES};
use super::*;

pub fn profiling(th: bool, out: Sink) {
    let all: Vec<Opts> = Opts::all16().into_iter().filter(|o| o.prof).collect();
    let pair = [Opts { prof: true, ..Opts::DEFAULT }, Opts { prof: true, ..Opts::NONE }];
    // every program of the call and tail-call families, profiled
    let mut k = 0;
    let mut re = |c: Case, out: Sink| { if c.kind != Kind::Behave || c.custom.is_some() { return; } k += 1; let mut c = c; c.id = format!("C27/{}", c.id); c.opts = if c.id.contains("/deep") { vec![pair[0], Opts { prof: true, stack: false, ..Opts::DEFAULT }] } else if th || c.id.contains("C09") { all.clone() } else { pair.to_vec() }; c.seeds = vec![0]; out(c) };
    super::c08::calls(th, &mut |c| re(c, out));
    super::c08::tailcalls(th, &mut |c| re(c, out));
    for a in 0..FEATURES.len() {
        let (g, s) = feature(a, "p");
        out(Case::new(format!("C27/one/{a}"), prog(&g, &s)).opts(&all));
        out(Case::new(format!("C27/rec/{a}"), prog(&format!("{g}int body(int n) {{ {s} if (n > 0) return body(n - 1); return n; }}\n"), "strtol(body(1));")).opts(&all));
        out(Case::new(format!("C27/twice/{a}"), prog(&format!("{g}int body(int n) {{ {s} return n; }}\nint twice(int n) {{ return body(n) + body(n + 1); }}\n"), "int i; for (i = 0; i < 2; i++) strtol(twice(i));")).opts(&all));
        for b in 0..FEATURES.len() { let (h, t) = feature(b, "q"); if !th && (a + b) % 4 != 0 { continue; }
            out(Case::new(format!("C27/call/{a}/{b}"), prog(&format!("{g}{h}void helper(int n) {{ {s} if (n) helper(n - 1); }}\n"), &format!("helper(1); {t} helper(0);"))).opts(&pair)); }
    }
    // frames of every size and shape: parameters x locals x result, called in every position
    let tys = ["char", "short", "int", "long", "double", "char *"];
    for (i, p) in tys.iter().enumerate() { for (j, l) in tys.iter().enumerate() { for (r, rt) in ["void", "char", "int", "long", "double"].iter().enumerate() { for arr in [0, 1, 3, 200] { for np in 0..3 {
        if !th && (i + j + r + np) % 3 != 0 { continue; }
        let ps = if np == 0 { "void".into() } else { (0..np).map(|k| format!("{p} a{k}")).collect::<Vec<_>>().join(", ") };
        let args = (0..np).map(|k| format!("{}", k)).collect::<Vec<_>>().join(", ");
        let local = if arr == 0 { format!("{l} v = 0;") } else { format!("{l} v[{arr}]; v[{}] = 0;", arr - 1) };
        let ret = if r == 0 { "return;".to_string() } else { "return 1;".into() };
        let body = match (i + j) % 3 { 0 => format!("f({args}); f({args});"), 1 => format!("if (strlen(2000)) f({args}); else {{ f({args}); }} strtol(2);"), _ => format!("int k; for (k = 0; k < 2; k++) {{ f({args}); if (strlen(2000)) break; }}") };
        out(Case::new(format!("C27/frame/{i}{j}{r}/{arr}/{np}"), prog(&format!("{rt} f({ps}) {{ {local} strlen(1); {ret} }}\n"), &body)).opts(&pair));
    } } } } }
    // variable length arrays and static variables
    super::stor::vlas(th, &mut |c| if c.id.contains("shape") || c.id.contains("hist1") || c.id.contains("hist2") || c.id.contains("vladim/i/") { let mut c = c; c.id = format!("C27/{}", c.id); c.opts = if c.id.contains("shape") { all.clone() } else { pair.to_vec() }; out(c); });
    super::stor::statics(th, &mut |c| if c.id.contains("staticflow") { let mut c = c; c.id = format!("C27/{}", c.id); c.opts = pair.to_vec(); out(c); });
    // the log the runtime writes is the sequence of reports of the exploration
    let progs = ["int main() { printf(\"a\"); return 3; }", "int f(int n) { if (n == 0) return 0; return 1 + f(n - 1); } int main() { printf(\"%d\", f(5)); return f(2); }", "int f(int n, int a) { if (n == 0) return a; return f(n - 1, a + n); } int main() { printf(\"%d\", f(40, 0)); return 0; }", "int g(int n); int f(int n) { if (n == 0) return 1; return g(n - 1); } int g(int n) { if (n == 0) return 2; return f(n - 1); } int main() { printf(\"%d%d\", f(5), g(6)); return f(7); }", "struct S { int a[5]; double d; }; struct S mk(int k) { struct S s; s.a[2] = k; s.d = k; return s; } int use(struct S s) { return s.a[2]; } int main() { int i; for (i = 0; i < 3; i++) { struct S s; s = mk(i); printf(\"%d\", use(s)); } return 0; }", "void v(void) { int buf[100]; buf[3] = 1; } int main() { int i = 0; while (1) { v(); if (i++ > 3) break; } return i; }", "long a(long x) { return x; } long b(long x, long y) { return a(x) + a(y); } int main() { printf(\"%ld\", b(a(1), b(2, a(3)))); return 0; }", "int f(int n) { switch (n) { case 0: return 1; case 1: f(0); break; default: return f(n - 1) + f(n - 2); } return 2; } int main() { return f(6); }", "int f(int n) { L: if (n > 5) goto out; { int t[3]; t[0] = n; n = t[0] + f(n + 3); goto L; } out: return 1; } int main() { return f(0); }", "char c(char x) { return x; } double d(float x) { return x; } int main() { int i; for (i = c(0); i < c(3); i++) d(i); printf(\"%c%f\", c(65), d(1)); return 0; }", "int fib(int n) { return n < 2 ? n : fib(n - 1) + fib(n - 2); } int main() { printf(\"%d\", fib(8)); return 0; }", "int sum(int *p, int n) { return n == 0 ? 0 : *p + sum(p + 1, n - 1); } int t[4] = {1, 2, 3, 4}; int main() { int u[3] = {5, 6, 7}; printf(\"%d %d\", sum(t, 4), sum(u, 3)); return 0; }"];
    for (i, p) in progs.iter().enumerate() { for o in [0, 1, 4, 5, 2, 7].iter().map(|k| all[*k]) { let mut c = Case::new(format!("C27/log/{i}/{}", o.name()), format!("int printf(char *f, ...);\n{p}\n")).opts(&[o]); c.custom = Some(log); out(c); } }
}

fn log(c: &Case) -> Result<crate::explore::Stats, String> {
    use crate::{comp, explore, node};
    let rf = explore::reference(&c.src, &c.argv).map_err(|e| format!("engine: {e}"))?;
    let rt = node::runtime()?;
    let f = rt.join("log.wasm");
    let mut logs = vec![];
    let mut st = explore::Stats::default();
    for o in [c.opts[0], Opts { prof: false, ..c.opts[0] }] {
        let b = comp::compile(&c.src, o, 0).map_err(|e| format!("the compiler rejects a valid program: {e:?}"))?;
        std::fs::write(&f, &b).map_err(|e| format!("engine: {e}"))?;
        let m = explore::module_of(&b).map_err(|e| format!("invalid module: {e}"))?;
        let s = explore::explore(&rf, &m, &c.lim, &c.argv, o.prof).map_err(|v| v.what)?;
        let r = node::run(&rt, &f, &[])?;
        let l = node::take_log(&rt)?;
        logs.push((s.log.clone(), l, r));
        st.add(&s);
    }
    let (want, got, r1) = &logs[0];
    let (_, none, r0) = &logs[1];
    if none.is_some() { return Err("a stack pointer log is written without profiling".into()); }
    if (&r1.out, r1.code) != (&r0.out, r0.code) { return Err(format!("profiling changes the behaviour under the runtime: {:?} {:?} becomes {:?} {:?}", String::from_utf8_lossy(&r0.out), r0.code, String::from_utf8_lossy(&r1.out), r1.code)); }
    // addresses depend on the length of argv[0], so they are compared relative to the first
    let got = got.clone().unwrap_or_default();
    let rel = |v: &[u32]| v.iter().map(|x| x.wrapping_sub(v[0]) as i32).collect::<Vec<_>>();
    if rel(want) != rel(&got) { return Err(format!("the log holds the (relative) stack pointers {:?}, the program reported {:?}", rel(&got), rel(want))); }
    st.events = 2;
    Ok(st)
}

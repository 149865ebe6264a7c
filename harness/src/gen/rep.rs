//! C21: repeatability. Hash seeds, histories of compilations in one process, places of the source.
use super::opt::{feature, FEATURES};
use super::*;
use crate::explore::{self, Stats};
use crate::{comp, node};

const CORPUS: [(&str, usize); 22] = [("C01", 30558), ("C02", 4790), ("C03", 47304), ("C04", 14938), ("C05", 9034), ("C06", 14301), ("C07", 12940), ("C08", 2203), ("C09", 2263), ("C10", 1260), ("C11", 2458), ("C12", 2402), ("C13", 5054), ("C14", 1769), ("C15", 2178), ("C16", 3493), ("C17", 1411), ("C18", 1411), ("C19", 3816), ("C20", 173400), ("C22", 2541), ("C26", 6280)];

pub fn repeatable(th: bool, out: Sink) {
    let n = FEATURES.len();
    let many: Vec<u64> = (0..if th { 64 } else { 12 }).collect();
    for a in 0..n { let (g, s) = feature(a, "p");
        out(Case::new(format!("C21/one/{a}"), prog(&g, &s)).opts(&Opts::all16()).seeds(&many));
        out(Case::new(format!("C21/fn/{a}"), prog(&format!("{g}int body(int n) {{ {s} if (n > 0) return body(n - 1); return n; }}\n"), "strtol(body(1));")).opts(&two()).seeds(&many));
        for b in 0..n { if !th && (a + b) % 3 != 0 { continue; } let (h, t) = feature(b, "q"); out(Case::new(format!("C21/two/{a}/{b}"), prog(&format!("{g}{h}"), &format!("{{ {s} }} {t}"))).opts(&two()).seeds(&many[..many.len() / 2])); } }
    // a slice of the programs of every other property
    for (p, count) in CORPUS { let want = if th { 6000 } else { match p { "C05" | "C06" | "C07" => 220, "C11" => 90, "C14" | "C16" | "C17" => 50, _ => 110 } }; let step = (count / want).max(1); let mut k = 0;
        super::family(p, false, &mut |c: Case| { k += 1; if k % step != step / 2 || c.custom.is_some() || p == "C22" || !th && (c.src.len() > 6000 || c.id.contains("/far") && c.src.len() > 1000) { return; } let mut c = c; c.id = format!("C21/{}", c.id); if c.opts.len() > 2 { c.opts = two(); } c.seeds = (0..if th { 10 } else if c.src.len() > 2000 { 2 } else { 5 }).collect(); out(c); }); }
    // what came before: every ordered pair of programs, and the first again
    for a in 0..n { for b in 0..n + BAD.len() { if !th && (a * 3 + b) % 4 != 0 { continue; } let mut c = Case::new(format!("C21/history/{a}/{b}"), format!("{a} {b}")); c.custom = Some(history); out(c); } }
    // where the source is
    for a in 0..n { let mut c = Case::new(format!("C21/place/{a}"), format!("{a}")); c.custom = Some(place); out(c); }
}
const BAD: [&str; 6] = ["int main( { return 0; }\n", "int main() { return undeclared; }\n", "typedef int strlen; int main() { return 0 }\n", "int f(void); int main() { goto nowhere; }\n", "#error stop\n", "struct S { int x; }; typedef struct S T; int main() { T t; return t.y; }\n"];
fn text(k: usize) -> String { if k < FEATURES.len() { let (g, s) = feature(k, "p"); prog(&g, &s) } else { BAD[k - FEATURES.len()].into() } }
fn behaves(b: &[u8], src: &str, st: &mut Stats) -> Result<(), String> {
    let rf = explore::reference(src, &[]).map_err(|e| format!("engine: {e}"))?;
    let m = explore::module_of(b).map_err(|e| format!("the module is invalid: {e}"))?;
    let s = explore::explore(&rf, &m, &explore::Limits::default(), &[], false).map_err(|v| format!("{} after {}", v.what, v.path.join(" ; ")))?;
    st.add(&s); st.outcome ^= s.outcome; Ok(())
}
fn history(c: &Case) -> Result<Stats, String> {
    let q: Vec<usize> = c.src.split(' ').map(|x| x.parse().unwrap()).collect();
    let (a, b) = (text(q[0]), text(q[1]));
    let mut st = Stats::default();
    let (d, n) = (Opts::DEFAULT, Opts::NONE);
    let h = [(a.clone(), d), (b.clone(), n), (b.clone(), d), (a.clone(), n), (b, d), (a, d)];
    for (i, r) in comp::compile_history(&h, 0).into_iter().enumerate() {
        let bad = if [0, 3, 5].contains(&i) { false } else { q[1] >= FEATURES.len() };
        match r { Ok(_) if bad => return Err(format!("compilation {i} of the history accepts an invalid program")), Err(e) if !bad => return Err(format!("compilation {i} of the history rejects a valid program: {e:?}")), Err(comp::CompErr::Panic(p)) => return Err(format!("compilation {i} of the history crashes: {p}")), Err(_) => (),
            Ok(m) => behaves(&m, &h[i].0, &mut st).map_err(|e| if e.starts_with("engine") { e } else { format!("compilation {i} of the history: {e}") })? }
    }
    st.events = 6;
    Ok(st)
}
fn place(c: &Case) -> Result<Stats, String> {
    let src = text(c.src.parse().unwrap());
    let base = comp::scratch_dir().join("place");
    let _ = std::fs::remove_dir_all(&base);
    let mut st = Stats::default(); let mut n = 0;
    let e = |r: std::io::Result<()>| r.map_err(|e| format!("engine: {e}"));
    let deep = "d/".repeat(60);
    for dir in ["", "a b/", "d.c/", "é/", deep.as_str(), "x/../", "./", "headers/"] { for name in ["p.c", "p", "main.c", "p q.c", "p.wasm", "stdio.h", "-p.c", "é.c"] {
        let f = base.join(dir).join(name);
        e(std::fs::create_dir_all(base.join(dir.trim_end_matches("../"))))?; e(std::fs::write(&f, &src))?;
        let o = base.join("out.wasm");
        let rel = f.strip_prefix("/").map(|r| format!("{}{}", "../".repeat(node::repo().components().count() - 1), r.display())).unwrap();
        for p in [f.to_str().unwrap().to_string(), rel] {
            n += 1;
            let b = comp::compile_file(&p, o.to_str().unwrap(), &Opts::DEFAULT.args(), 0).map_err(|e| format!("{p}: the compiler rejects a valid program: {e:?}"))?;
            behaves(&b, &src, &mut st).map_err(|e| if e.starts_with("engine") { e } else { format!("{p}: {e}") })?;
        }
    } }
    let _ = std::fs::remove_dir_all(&base);
    st.events = n;
    Ok(st)
}

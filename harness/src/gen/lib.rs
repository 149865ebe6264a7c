//! C23: the library functions of the runtime; C24: what main receives and reports.
use super::*;
use crate::explore::Stats;
use crate::{comp, node};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::CommandExt;
use std::process::Command;

fn eng(e: impl std::fmt::Display) -> String { format!("engine: {e}") }

pub fn library(th: bool, out: Sink) {
    let sh = 16;
    let jobs: Vec<(&str, Vec<i32>)> = if th { vec![("strto", vec![0, 1, 2, 3, 4, 5]), ("limits", vec![1]), ("bytes", vec![0]), ("strstr", vec![2, 3, 4, 5, 6, 7]), ("printf", vec![114, 214, 306, 402]), ("values", vec![1])] } else { vec![("strto", vec![4]), ("limits", vec![0]), ("bytes", vec![0]), ("strstr", vec![2, 4, 6]), ("printf", vec![114, 214, 303]), ("values", vec![0])] };
    for (j, bounds) in jobs { for b in bounds { let n = if th { 32 } else { sh }; for k in 0..n { let mut c = Case::new(format!("C23/{j}/{b}/{k}/{n}"), format!("{j} {b} {k} {n}")); c.custom = Some(records); out(c); } } }
    programs(th, out);
}

/// one shard of one enumeration of library calls: the oracle's records, replayed on the runtime
fn records(c: &Case) -> Result<Stats, String> {
    let d = comp::scratch_dir();
    let x = d.join("oracle");
    if !x.exists() {
        let o = node::wait(Command::new("gcc").args(["-O1", "-w", "-o"]).arg(&x).arg(node::verif().join("harness/js/oracle.c")).arg("-lm"), 60)?;
        if o.code != Some(0) { return Err(eng(String::from_utf8_lossy(&o.err))); }
    }
    let o = node::wait(Command::new(&x).args(c.src.split(' ')), 120)?;
    if o.code != Some(0) { return Err(eng("oracle")); }
    let (rec, res) = (d.join("records"), d.join("result"));
    std::fs::write(&rec, &o.out).map_err(eng)?;
    let _ = std::fs::remove_file(&res);
    let r = node::wait(Command::new("node").arg(node::verif().join("harness/js/library.mjs")).arg(node::repo()).arg(c.src.split(' ').next().unwrap()).args([&rec, &res]), 600)?;
    let t = std::fs::read_to_string(&res).map_err(|_| format!("the library functions cannot be called: {}", String::from_utf8_lossy(&r.err)))?;
    let calls: u64 = t.split("\"calls\":").nth(1).and_then(|s| s.split(|c: char| !c.is_ascii_digit()).next()).and_then(|s| s.parse().ok()).ok_or_else(|| eng("result"))?;
    if !t.contains("\"bad\":[]") { return Err(t.split("\"bad\":").nth(1).unwrap_or("").chars().take(900).collect()); }
    if r.code != Some(0) { return Err(format!("the library functions end the process: {}", String::from_utf8_lossy(&r.err))); }
    let mut want = vec![];
    if c.src.starts_with("printf") || c.src.starts_with("values") {
        // concatenate the expected output of every record
        let b = &o.out; let mut i = 0;
        let u = |i: &mut usize| { let v = b[*i] as usize | (b[*i + 1] as usize) << 8; *i += 2; v };
        let n = u(&mut i); for _ in 0..n { let l = u(&mut i); i += l; }
        let mut k = 0;
        while i < b.len() {
            let l = u(&mut i); let f = &b[i..i + l]; i += l; let l = u(&mut i); let a = &b[i..i + l]; i += l; let l = u(&mut i); let w = &b[i..i + l]; i += l;
            if !r.out[want.len().min(r.out.len())..].starts_with(w) { return Err(format!("call {k}: printf({:?}, argument bytes {a:02x?}) prints {:?}, expected {:?}", String::from_utf8_lossy(f), String::from_utf8_lossy(&r.out[want.len().min(r.out.len())..(want.len() + w.len() + 8).min(r.out.len())]), String::from_utf8_lossy(w))); }
            want.extend_from_slice(w); k += 1;
        }
    }
    if want.len() != r.out.len() { return Err(format!("{} more bytes are printed than C prescribes: {:?}", r.out.len() - want.len(), String::from_utf8_lossy(&r.out[want.len()..(want.len() + 60).min(r.out.len())]))); }
    let mut st = Stats::default();
    st.transitions = calls; st.states = calls; st.runs_done = 1; st.outcome = o.out.len() as u64; st.events = 0;
    Ok(st)
}

/// whole programs: the compiler's module under the runtime against the system's C compiler
fn programs(th: bool, out: Sink) {
    let mut add = |id: String, src: String, out: Sink| { for o in [Opts::DEFAULT, Opts::NONE] { let mut c = Case::new(format!("C23/prog/{id}/{}", o.name()), src.clone()).opts(&[o]); c.custom = Some(against_gcc); out(c); } };
    let inc = "#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n";
    // every sequence of argument types: each read at the place and width the compiler stores it
    let tys: [(&str, &str, &str); 12] = [("char", "%d", "-5"), ("unsigned char", "%u", "200"), ("short", "%hd", "-300"), ("unsigned short", "%hu", "65000"), ("int", "%i", "-70000"), ("unsigned int", "%u", "4000000000"), ("long", "%ld", "-5000000000"), ("unsigned long", "%lu", "5000000000"), ("float", "%f", "1.5"), ("double", "%f", "-0.1"), ("char *", "%s", "\"str\""), ("char", "%c", "'x'")];
    let decl: String = tys.iter().enumerate().map(|(i, (t, _, v))| format!("{t} v{i} = {v};\n")).collect();
    for n in 1..=(if th { 4 } else { 3 }) {
        let mut body = String::new(); let mut k = 0; let mut part = 0; let mut fns = 0; let mut all = String::new();
        super::data::seqs(n, tys.len(), &mut |q| {
            if n == 3 && !th && (q[0] + 2 * q[1] + 3 * q[2]) % 4 != 0 { return; }
            if n == 4 && (q[0] + 3 * q[1] + 5 * q[2] + 7 * q[3]) % 8 != 0 { return; }
            let f: Vec<&str> = q.iter().map(|i| tys[*i].1).collect(); let a: Vec<String> = q.iter().map(|i| format!("v{i}")).collect();
            body += &format!("s += printf(\"{}|\\n\", {});\n", f.join(" "), a.join(", ")); k += 1;
            if k == 8 { all += &format!("void f{fns}(void) {{\n{body}}}\n"); fns += 1; body.clear(); k = 0; }
            if fns == 10 { add(format!("args{n}/{part}"), format!("{inc}{decl}long s;\n{all}int main() {{ {} printf(\"%ld\", s); return s & 127; }}\n", (0..fns).map(|i| format!("f{i}(); ")).collect::<String>()), out); part += 1; fns = 0; all.clear(); }
        });
        if k > 0 { all += &format!("void f{fns}(void) {{\n{body}}}\n"); fns += 1; }
        if fns > 0 { add(format!("args{n}/{part}"), format!("{inc}{decl}long s;\n{all}int main() {{ {} printf(\"%ld\", s); return s & 127; }}\n", (0..fns).map(|i| format!("f{i}(); ")).collect::<String>()), out); }
    }
    // every form of argument of each function
    let strs = ["\"42xyz\"", "\"  -0x1fG\"", "\"\"", "\"zzz\"", "\"077 8\"", "\"+9223372036854775807\"", "\"18446744073709551616\"", "\"-\"", "\"0x\"", "\"1010102\""];
    let ends = [("", "0"), ("char *e = 0;", "&e"), ("static char *se; char **e2 = &se;", "e2"), ("struct E { char pad; char *p; }; struct E x; x.p = 0;", "&x.p"), ("char *es[3]; int j = 1;", "&es[j]"), ("", "&ge"), ("", "&s")];
    let show = ["0", "e - s", "se - s", "x.p - s", "es[1] - s", "ge - s", "s - s0"];
    for (f, fm) in [("strtol", "%ld"), ("strtoul", "%lu")] { for (ei, (ed, ee)) in ends.iter().enumerate() {
        let mut b = String::new(); let mut nf = 0;
        for st in strs { b += &format!("void t{nf}(void) {{\n"); nf += 1; for base in ["0", "2", "8", "10", "16", "36", "bs"] { b += &format!("{{ char *s = {st}; char *s0 = s; {ed} int bs = 10; printf(\"{fm} \", {f}(s, {ee}, {base})); printf(\"%d\\n\", (int)({})); }}\n", show[ei]); } b += "}\n"; }
        add(format!("{f}/{ei}"), format!("{inc}char *ge;\n{b}int main() {{ {} return 0; }}\n", (0..nf).map(|i| format!("t{i}(); ")).collect::<String>()), out);
    } }
    let bufs = ["char a[] = \"hello, world\";", "char *a = \"hello, world\";", "char b[40] = \"xhello, world\"; char *a = b + 1;", "struct S { char c; char t[20]; }; struct S q; char *a = q.t; { char *z = \"hello, world\"; int i = 0; do { a[i] = z[i]; } while (z[i++]); }", "char *a = garr;", "char m[2][14] = {\"hello, worl\", \"hello, world\"}; char *a = m[1];"];
    for (i, d) in bufs.iter().enumerate() {
        let b: String = ["\"o\"", "\"lo, w\"", "\"\"", "\"hello, world\"", "\"hello, world!\"", "\"H\"", "a + 7", "a", "\"ld\"", "\"ll\""].iter().map(|n| format!("{{ char *p = strstr(a, {n}); if (p) printf(\"%d %s %d\\n\", (int)(p - a), p, (int)strlen(p)); else printf(\"none\\n\"); }}\n")).collect();
        add(format!("strstr/{i}"), format!("{inc}char garr[] = \"hello, world\";\nint main() {{ {d} printf(\"%d\\n\", (int)strlen(a));\n{b}a[0] == 'h' && printf(\"%d\", (int)strlen(a + strlen(\"abc\"))); return (int)strlen(a) + printf(\"\"); }}\n"), out);
    }
    for (i, b) in ["int n = printf(\"%d\", printf(\"%s\", \"ab\")); printf(\"%d\", n);", "printf(\"%d%d%d%d%d%d%d%d%d%d%d%d\", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12);", "printf(\"%s%s\\n\", \"a\\0b\", \"\\t\\\"\\\\\");", "char *f = \"%c%c\"; printf(f, 65, 'B'); printf(1 ? \"x%d\" : \"y\", 3);", "float f = 0.1; printf(\"%f %f\", f, f * 2); printf(\"%f\", 1.0 / 3);", "char c = 200; unsigned char u = 200; printf(\"%d %d %c%c\", c, u, c, u);", "long l = 1; l = l << 40; printf(\"%ld %d %ld\", l, (int)l, -l);", "int i; for (i = 0; i < 300; i++) printf(\"%d,\", i);", "printf(\"%%d %%%d%%\\n\", 5); printf(\"%d\", printf(\"%%\"));", "printf(\"\"); printf(\"\\xff\\x80\\n\"); printf(\"%c\", 0); printf(\"%s\", \"\"); return printf(\"\\303\\251\");", "printf(\"%d\", strtol(\"12\", 0, 10) == 12); printf(\"%ld\", strtol(\"12\", 0, 10) * strtol(\"-3\", 0, 10)); printf(\"%lu\", strtoul(\"-1\", 0, 10));", "int k; for (k = 0; k < 4000; k++) printf(\"0123456789012345678901234567890123456789\\n\");"].iter().enumerate() {
        add(format!("misc/{i}"), format!("{inc}int main() {{ {b} return 0; }}\n"), out);
    }
    // long strings and long argument lists
    let mut ls: Vec<usize> = vec![0, 1, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16383, 16384, 20000, 32767, 32768, 40000];
    if th { ls.extend(1..700); ls.sort(); ls.dedup(); }
    for l in ls { for (i, b) in [
        "fill('q', L); printf(\"%d %d %d\\n\", (int)strlen(b), (int)strlen(b + L / 2), (int)strlen(b + L)); printf(\"%d\\n\", printf(\"%s|\", b)); b[L / 2] = 0; printf(\"%d %s\\n\", (int)strlen(b), b); printf(\"%d\\n\", printf(\"[%s][%s][%c]\", b, b + L / 4, b[0]));",
        "fill('a', L); b[L] = 'b'; b[L + 1] = 0; at(strstr(b, \"ab\")); at(strstr(b, \"b\")); at(strstr(b, \"aab\")); at(strstr(b, \"ba\")); at(strstr(b, b)); at(strstr(b, b + L)); at(strstr(b, b + L / 2)); at(strstr(b, \"\")); at(strstr(b + L / 2, b)); at(strstr(b + 1, b)); at(strstr(\"aab\", b) ? b : 0);",
        "fill('0', L); b[L] = '1'; b[L + 1] = '7'; b[L + 2] = 'x'; b[L + 3] = 0; num();",
        "fill(' ', L); b[L] = '-'; b[L + 1] = '7'; b[L + 2] = '8'; b[L + 3] = 0; num();",
        "fill('9', L); b[L] = ' '; b[L + 1] = 0; num();", "fill('1', L); b[0] = '-'; b[L] = 0; num();", "fill('0', L + 3); b[1] = 'x'; b[L + 1] = 'f'; b[L + 2] = 'F'; b[L + 3] = 'g'; b[L + 4] = 0; num();", "fill('z', L + 1); num();",
        "fill('.', L); b[L] = '%'; b[L + 1] = 'd'; b[L + 2] = '!'; b[L + 3] = 0; printf(\"%d\\n\", printf(b, -7)); b[L / 2] = '%'; b[L / 2 + 1] = '%'; b[L + 1] = 's'; if (L > 3) printf(\"%d\\n\", printf(b, \"end\"));"].iter().enumerate() {
        if l > 20000 && i > 1 { continue; }
        add(format!("long/{l}/{i}"), format!("{inc}char b[{}];\nvoid fill(char c, int n) {{ int i; for (i = 0; i < n; i++) b[i] = c; b[n] = 0; }}\nvoid at(char *p) {{ if (p) printf(\"%d %d\\n\", (int)(p - b), *p); else printf(\"none\\n\"); }}\nvoid num() {{ int bs; for (bs = 0; bs < 37; bs++) if (bs != 1) {{ char *e = 0; long v = strtol(b, &e, bs); printf(\"%d:%ld %d \", bs, v, (int)(e - b)); unsigned long u = strtoul(b, &e, bs); printf(\"%lu %d\\n\", u, (int)(e - b)); }} }}\nint main() {{ int L = {l}; {b} return 0; }}\n", l + 8), out);
    } }
    for n in if th { (1..130).collect::<Vec<_>>() } else { vec![9, 15, 16, 17, 31, 32, 33, 63, 64, 65] } { for (i, kinds) in [vec![0usize], vec![1], vec![0, 1], vec![2, 0], vec![3, 1, 4], vec![5, 4, 2, 1, 0, 3]].into_iter().enumerate() {
        let k = |j: usize| kinds[j % kinds.len()];
        let f: String = (0..n).map(|j| ["%d ", "%ld ", "%s ", "%f ", "%c", "%lu "][k(j)]).collect();
        let a: String = (0..n).map(|j| match k(j) { 0 => format!(", {j} * x"), 1 => format!(", {j}000000000l").replace('l', " + y"), 2 => format!(", \"s{j}\""), 3 => format!(", {j}.5"), 4 => format!(", 'a' + {}", j % 26), _ => format!(", (unsigned long)-{}", j + 1) }).collect();
        add(format!("many/{i}/{n}"), format!("{inc}int main() {{ int x = -3; long y = 5; int r = printf(\"{f}\\n\"{a}); printf(\"%d %d %ld\", r, x, y); return 0; }}\n"), out);
    } }
}

fn against_gcc(c: &Case) -> Result<Stats, String> {
    let x = node::gcc(&c.src, "p")?;
    let want = node::wait(&mut Command::new(&x), 20)?;
    let rt = node::runtime()?;
    let f = rt.join("p.wasm");
    let b = comp::compile(&c.src, c.opts[0], 0).map_err(|e| format!("the compiler rejects a valid program: {e:?}"))?;
    crate::explore::module_of(&b).map_err(|e| format!("the module is invalid: {e}"))?;
    std::fs::write(&f, &b).map_err(eng)?;
    let r = node::run(&rt, &f, &[])?;
    compare(&want, &r)?;
    let mut st = Stats::default(); st.states = want.out.split(|b| *b == b'\n').count() as u64; st.transitions = st.states; st.runs_done = 1; st.events = 1; st.outcome = want.out.len() as u64;
    Ok(st)
}
fn compare(want: &node::Out, r: &node::Out) -> Result<(), String> {
    let i = want.out.iter().zip(&r.out).take_while(|(a, b)| a == b).count();
    if want.out != r.out { return Err(format!("the output differs at byte {i}: {:?}, expected {:?} (stderr {:?})", String::from_utf8_lossy(&r.out[i.saturating_sub(10)..(i + 60).min(r.out.len())]), String::from_utf8_lossy(&want.out[i.saturating_sub(10)..(i + 60).min(want.out.len())]), String::from_utf8_lossy(&r.err).chars().take(200).collect::<String>())); }
    if want.code != r.code { return Err(format!("the exit status is {:?}, expected {:?}", r.code, want.code)); }
    Ok(())
}

// ---- C24
const SHOW: &str = "void show(int argc, char **argv) { int i; int j; printf(\"%d\\n\", argc); for (i = 0; i < argc; i++) { printf(\"%d:\", (int)strlen(argv[i])); for (j = 0; argv[i][j]; j++) printf(\"%d,\", argv[i][j]); printf(\"%s\\n\", argv[i]); } printf(\"%d\\n\", argv[argc] == 0); }\n";
/// programs with every mixture of globals, strings and locals
fn mains() -> Vec<String> {
    let pre = "#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n";
    let p = |g: &str, m: &str| format!("{pre}{g}{SHOW}{m}\n");
    vec![
        p("", "int main(int argc, char **argv) { show(argc, argv); return argc; }"),
        p("", "int main(int argc, char *argv[]) { int i; for (i = 1; i < argc; i++) { char *s; for (s = argv[i]; *s; s++) if (*s >= 'a' && *s <= 'z') *s = *s - 32; } show(argc, argv); return 256 - argc; }"),
        p("long g[9] = {1, 2, 3, 4, 5, 6, 7, 8, 9}; char *names[3] = {\"one\", \"two\", \"three\"}; double dd = 0.5; char tail[7] = \"tail\";", "int sum(void) { int i; long s = 0; for (i = 0; i < 9; i++) s += g[i]; return s; }\nint main(int n, char **v) { int i; int c[40]; for (i = 0; i < 40; i++) c[i] = i; for (i = 0; i < n; i++) { v[i][0] == 'a' && printf(\"a\"); g[i % 9] += (int)strlen(v[i]); } show(n, v); for (i = 0; i < 3; i++) printf(\"%s %d\\n\", names[i], c[i * 10]); printf(\"%d %f %s %d\\n\", sum(), dd, tail, c[39]); return sum(); }"),
        p("char big[3000]; int after = 77;", "int rec(int d, char **v) { char pad[50]; pad[0] = d; pad[49] = d; if (d == 0) { printf(\"%s\\n\", v[0]); return 0; } return rec(d - 1, v) + pad[0] + pad[49]; }\nint main(int argc, char **argv) { int k; for (k = 0; k < 3000; k++) big[k] = k; printf(\"%d\\n\", rec(20, argv)); show(argc, argv); for (k = 0; k < 3000; k++) if (big[k] != (char)k) printf(\"!\"); printf(\"%d\\n\", after); return 7; }"),
        p("", "int main(int argc, char **argv) { char **p = argv; while (*p) { printf(\"<%s>\", *p); p++; } char *t = argv[0]; argv[0] = argv[argc - 1]; argv[argc - 1] = t; show(argc, argv); return (int)(p - argv); }"),
        p("char *kept[10]; int nk;", "int main(int argc, char **argv) { int i; for (i = 0; i < argc && i < 10; i++) kept[nk++] = argv[argc - 1 - i]; struct S { int a[30]; char *p; }; struct S s; s.p = argv[argc - 1]; for (i = 0; i < 30; i++) s.a[i] = -i; show(argc, argv); for (i = 0; i < nk; i++) printf(\"%s;\", kept[i]); printf(\"%s %d\\n\", s.p, s.a[29]); argc = argc * 1000; return argc; }"),
        p("", "int main(int argc, char **argv) { if (argc > 1) { argc--; argv++; show(argc, argv); return main(argc, argv) + 1; } return 0; }"),
        format!("{pre}int main() {{ printf(\"no parameters\\n\"); return 3; }}\n"),
        format!("{pre}int main(void) {{ char s[] = \"local\"; printf(\"%s %d\\n\", s, (int)strlen(s)); return -1; }}\n"),
        p("int v = 1;", "int main(int argc, char **argv) { static char once[9] = \"static\"; int total = 0; int i; for (i = 0; i < argc; i++) total += strtol(argv[i], 0, 0); printf(\"%d %s\\n\", total, once); char *f = argc > 2 ? strstr(argv[1], argv[2]) : 0; if (f) printf(\"%d\\n\", (int)(f - argv[1])); show(argc, argv); return total; }"),
        p("", "int main(int argc, char **argv) { int i; for (i = 0; i + 1 < argc; i++) printf(\"%d\\n\", argv[i] + strlen(argv[i]) < argv[i + 1] || argv[i + 1] + strlen(argv[i + 1]) < argv[i]); char **a2 = argv; printf(\"%d\\n\", (char *)(argv + argc + 1) <= argv[0] || 1); show(argc, a2); return i; }"),
    ]
}
pub fn mainargs(th: bool, out: Sink) {
    let al = ["", "a", "ab", "é", "a b", "-x", "%d%s", "\"'\\", "0x1F", "日本\n", "\u{1}\u{7f}", "--help", "12"];
    let mut vecs: Vec<Vec<String>> = vec![];
    for n in 0..=(if th { 4 } else { 3 }) { super::data::seqs(n, if n < 3 { al.len() } else if n == 3 { if th { 13 } else { 7 } } else { 5 }, &mut |q| vecs.push(q.iter().map(|i| al[*i].to_string()).collect())); }
    for n in [4, 7, 8, 15, 16, 31, 33, 64, 100, 200] { vecs.push((0..n).map(|i| format!("{i}")).collect()); vecs.push(vec![String::new(); n]); vecs.push((0..n).map(|i| "é".repeat(i % 5)).collect()); }
    for n in [3, 5, 63, 64, 127, 128, 255, 256, 257, 1000, 4096, 8000] { vecs.push(vec!["x".repeat(n)]); vecs.push(vec!["x".repeat(n), "y".into(), "z".repeat(n / 2)]); }
    let ms = mains();
    for (i, m) in ms.iter().enumerate() { for o in [Opts::DEFAULT, Opts::NONE] {
        for (k, ch) in vecs.chunks(120).enumerate() {
            if !th && o == Opts::NONE && k % 2 == 1 { continue; }
            let mut c = Case::new(format!("C24/vec/{i}/{}/{k}", o.name()), m.clone()).opts(&[o]);
            // the vectors travel in the case's files: one line per vector, arguments in hex
            c.files = vec![("vectors".into(), ch.iter().map(|v| v.iter().map(|s| format!("={}", s.bytes().map(|b| format!("{b:02x}")).collect::<String>())).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join("\n"))];
            c.custom = Some(vectors); out(c);
        }
        let mut c = Case::new(format!("C24/proc/{i}/{}", o.name()), m.clone()).opts(&[o]);
        c.files = vec![("vectors".into(), vecs.iter().enumerate().filter(|(k, _)| k % (if th { 37 } else { 211 }) == i * 7 % 37 || *k == i + 1).map(|(_, v)| v.iter().map(|s| format!("={}", s.bytes().map(|b| format!("{b:02x}")).collect::<String>())).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join("\n"))];
        c.custom = Some(processes); out(c);
    } }
    // every exit status
    let m = "#include <stdlib.h>\nint main(int argc, char **argv) { return strtol(argv[1], NULL, 10); }\n";
    let codes: Vec<i64> = if th { (-300..600).collect() } else { (0..256).collect::<Vec<_>>() };
    for ch in codes.chunks(16).chain([[-1i64, -2, -128, -256, -257, 256, 257, 511, 512, 65535, 65536, 2147483647, -2147483648].as_slice()]) {
        let mut c = Case::new(format!("C24/exit/{}", ch[0]), m.to_string());
        c.files = vec![("vectors".into(), ch.iter().map(|v| format!("={}", v.to_string().bytes().map(|b| format!("{b:02x}")).collect::<String>())).collect::<Vec<_>>().join("\n"))];
        c.custom = Some(processes); out(c);
    }
}
fn vecs_of(c: &Case) -> Vec<Vec<Vec<u8>>> { c.files[0].1.split('\n').map(|l| l.split(' ').filter(|w| !w.is_empty()).map(|w| (1..w.len()).step_by(2).map(|i| u8::from_str_radix(&w[i..i + 2], 16).unwrap()).collect()).collect()).collect() }
fn setup(c: &Case) -> Result<(std::path::PathBuf, std::path::PathBuf, std::path::PathBuf), String> {
    let x = node::gcc(&c.src, "m")?;
    let rt = node::runtime()?;
    let f = rt.join("m.wasm");
    let b = comp::compile(&c.src, c.opts[0], 0).map_err(|e| format!("the compiler rejects a valid program: {e:?}"))?;
    std::fs::write(&f, &b).map_err(eng)?;
    Ok((x, rt, f))
}
fn want(x: &std::path::Path, f: &std::path::Path, v: &[Vec<u8>]) -> Result<node::Out, String> { node::wait(Command::new(x).arg0(f).args(v.iter().map(|a| OsStr::from_bytes(a))), 20) }
fn json(s: &str) -> String { let mut o = String::from("\""); for ch in s.chars() { o += &if (ch as u32) < 32 || ch == '"' || ch == '\\' { format!("\\u{:04x}", ch as u32) } else { ch.to_string() }; } o + "\"" }
fn vectors(c: &Case) -> Result<Stats, String> {
    let (x, rt, f) = setup(c)?;
    let vs = vecs_of(c);
    let list = rt.join("vectors.json");
    std::fs::write(&list, format!("[{}]", vs.iter().map(|v| format!("[{}]", std::iter::once(json(f.to_str().unwrap())).chain(v.iter().map(|a| json(std::str::from_utf8(a).unwrap()))).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","))).map_err(eng)?;
    let r = node::wait(Command::new("node").arg(node::verif().join("harness/js/vectors.mjs")).arg(rt.join("runtime")).arg(&list).current_dir(&rt), 300)?;
    let mut at = 0; let mut st = Stats::default();
    for v in &vs {
        let w = want(&x, &f, v)?;
        let mut e = w.out.clone(); e.extend_from_slice(format!("\n<<<{}>>>\n", w.code.unwrap_or(-1)).as_bytes());
        if !r.out[at..].starts_with(&e) { let i = e.iter().zip(&r.out[at..]).take_while(|(a, b)| a == b).count(); return Err(format!("arguments {:?}: output and exit status are {:?}, expected {:?} (from byte {}); stderr {:?}", v.iter().map(|a| String::from_utf8_lossy(a).chars().take(40).collect::<String>()).take(12).collect::<Vec<_>>(), String::from_utf8_lossy(&r.out[(at + i).saturating_sub(10)..(at + i + 60).min(r.out.len())]), String::from_utf8_lossy(&e[i.saturating_sub(10)..(i + 60).min(e.len())]), i, String::from_utf8_lossy(&r.err).chars().take(200).collect::<String>())); }
        at += e.len(); st.runs_done += 1; st.states += 1; st.transitions += 1 + v.len() as u64; st.outcome = st.outcome.wrapping_mul(31).wrapping_add(e.len() as u64);
    }
    if at != r.out.len() { return Err("something is printed after the program ended".into()); }
    st.events = 1;
    Ok(st)
}
fn processes(c: &Case) -> Result<Stats, String> {
    let (x, rt, f) = setup(c)?;
    let mut st = Stats::default();
    for v in vecs_of(c) {
        let w = want(&x, &f, &v)?;
        let a: Vec<&OsStr> = v.iter().map(|a| OsStr::from_bytes(a)).collect();
        let r = node::run(&rt, &f, &a)?;
        compare(&w, &r).map_err(|e| format!("arguments {:?}: {e}", a.iter().take(10).collect::<Vec<_>>()))?;
        if !r.err.is_empty() { return Err(format!("the runner complains: {}", String::from_utf8_lossy(&r.err))); }
        st.runs_done += 1; st.states += 1; st.transitions += 1 + v.len() as u64;
    }
    if node::take_log(&rt)?.is_some() { return Err("a stack pointer log is written without profiling".into()); }
    st.events = 1;
    Ok(st)
}

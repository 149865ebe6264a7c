//! C20: ill-formed input.
use super::opt::{feature, FEATURES};
use super::*;
use crate::explore::Stats;
use crate::{comp, node};
use std::process::Command;

/// the words of a program, each with the blanks before it
pub fn words(s: &str) -> Vec<String> {
    let b: Vec<char> = s.chars().collect(); let mut v = vec![]; let mut i = 0;
    while i < b.len() {
        let c = b[i]; let st = i;
        if c.is_whitespace() { i += 1; continue; }
        if c.is_alphanumeric() || c == '_' || c == '.' && i + 1 < b.len() && b[i + 1].is_ascii_digit() { while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_' || b[i] == '.' && c.is_ascii_digit() || b[i] == '.' && i == st) { i += 1; } }
        else if c == '"' || c == '\'' { i += 1; while b[i] != c { if b[i] == '\\' { i += 1; } i += 1; } i += 1; }
        else { let r: String = b[i..(i + 3).min(b.len())].iter().collect(); let n = if ["<<=", ">>=", "..."].contains(&r.as_str()) { 3 } else if r.len() > 1 && ["++", "--", "->", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^="].contains(&&r[..2]) { 2 } else { 1 }; i += n; }
        v.push(b[st..i].iter().collect());
    }
    v
}
const DECLS: &str = "struct S { int m; struct S *n; };\nint f(int x) { return x + 1; }\ntypedef int T;\nint w[3] = {4, 5, 6};\n";
const HEAD: &str = "int a = 2; int *p = &a; struct S s; s.m = 3; s.n = &s; ";

pub fn illformed(th: bool, out: Sink) {
    let e = |c: String, id: String| { let mut c = Case::new(id, c).kind(Kind::Either); c.lim.exhaust = 200; c };
    // ---- every sequence of tokens in expression position
    let ex = ["a", "1", "(", ")", "*", "+", "p", "s", ".", "m", "[", "]", "=", ",", "?", ":", "++", "-", "&", "sizeof", "int", "f", "->", "!", "T", "\"x\"", "==", "0", "{", "}", ";"];
    let seqs = |n: usize, al: &[&str], f: &mut dyn FnMut(&[usize])| super::data::seqs(n, al.len(), f);
    let join = |q: &[usize], al: &[&str]| q.iter().map(|i| al[*i]).collect::<Vec<_>>().join(" ");
    let quick = [(1, 31), (2, 31), (3, if th { 31 } else { 22 }), (4, if th { 22 } else { 10 }), (5, if th { 12 } else { 0 })];
    for (n, k) in quick { seqs(n, &ex[..k], &mut |q| { let t = join(q, &ex);
        out(e(format!("{PRE}{DECLS}int main() {{ {HEAD}strtol({t}); return 0; }}\n"), format!("C20/expr/{n}/{t}")));
        if n <= 3 { out(e(format!("{PRE}{DECLS}int main() {{ {HEAD}{t}; return a; }}\n"), format!("C20/exprs/{n}/{t}"))); }
        if n <= 2 { for (k, w) in ["int v = E; strtol(v);", "int v[E]; strtol(sizeof v);", "int v[2] = {E}; strtol(v[0]);", "if (E) strlen(1);", "switch (2) { case E: strlen(1); }", "f(E);", "s.m = (E) + 1; strtol(s.m);", "for (E; E; E) { break; }", "return E;", "int k = w[E];", "struct S v = {E}; strtol(v.m);", "enum { Q = E }; strtol(Q);", "E: strlen(1);", "goto E;", "while (E) break;"].iter().enumerate() { out(e(format!("{PRE}{DECLS}int main() {{ {HEAD}{} return 0; }}\n", w.replace('E', &t)), format!("C20/place/{n}/{k}/{t}"))); } }
    }); }
    // ---- every sequence of tokens in statement position
    let st = [";", "if", "(", ")", "a", "{", "}", "else", "break", "while", "case", "1", ":", "default", "do", "for", "return", "continue", "switch", "goto", "L", "int", "=", ","];
    for (n, k) in [(1, 24), (2, 24), (3, 24), (4, if th { 20 } else { 10 }), (5, if th { 11 } else { 6 })] { seqs(n, &st[..k], &mut |q| { let t = join(q, &st);
        out(e(format!("{PRE}int main() {{ int a = 0; {t} ; strtol(a); return 0; }}\n"), format!("C20/stmt/{n}/{t}")));
        if n <= 3 { out(e(format!("{PRE}int main() {{ int a = 0; L: switch (a) {{ case 0: {t} a = 1; }} if (strlen(2000)) a = 2; return a; }}\n"), format!("C20/stmts/{n}/{t}"))); }
    }); }
    // ---- every sequence of tokens at file scope and in a parameter list
    let dl = ["int", "x", ";", "(", ")", "*", "{", "}", "[", "]", ",", "=", "1", "struct", "S", "typedef", "char", "static", "enum", "void", "const", "unsigned", "T", "...", "union", "main", "return", "long", "extern", "double", "\"s\""];
    for (n, k) in [(1, 31), (2, 31), (3, if th { 31 } else { 22 }), (4, if th { 20 } else { 10 }), (5, if th { 12 } else { 6 })] { seqs(n, &dl[..k], &mut |q| { let t = join(q, &dl);
        out(e(format!("{PRE}{DECLS}{t} ;\nint main() {{ return 0; }}\n"), format!("C20/decl/{n}/{t}")));
        if n <= 3 { out(e(format!("{PRE}{DECLS}int h({t}) {{ return 0; }}\nint main() {{ return 0; }}\n"), format!("C20/param/{n}/{t}")));
            out(e(format!("{PRE}{DECLS}int main() {{ {t} ; return 0; }}\n"), format!("C20/local/{n}/{t}"))); }
        if n <= 2 { out(e(format!("{PRE}{DECLS}struct Q {{ {t} ; }};\nint main() {{ return 0; }}\n"), format!("C20/member/{n}/{t}"))); out(e(format!("{PRE}{DECLS}int main() {{ return (({t})2) + sizeof({t}); }}\n"), format!("C20/tname/{n}/{t}"))); out(e(format!("{t}\n"), format!("C20/file/{n}/{t}"))); }
    }); }
    // ---- every ordered pair of declarations of one name, in every scope and pair of scopes
    let ds = ["int x;", "long x;", "int *x;", "char x[2];", "int x[3];", "double x;", "struct S x;", "typedef int x;", "typedef char *x;", "enum { x };", "enum { x = 1, y };", "int x(void);", "int x(int v);", "long x(int v);", "struct x { int m; };", "struct x;", "struct x { char m; } z;", "union x { int m; };", "union x;", "enum x { e1 };", "extern int x;", "int x = 1;", "static int x;", "static int x = 1;", "extern long x;", "extern int x = 2;", "static long x;", "extern struct S x;"];
    for (i, d) in ds.iter().enumerate() { for (j, g) in ds.iter().enumerate() { for (w, t) in [("file", format!("{d}\n{g}\nint main() {{ return 0; }}\n")), ("block", format!("int main() {{ {d} {g} return 0; }}\n")), ("inner", format!("int main() {{ {d} {{ {g} }} return 0; }}\n")), ("outer", format!("{d}\nint main() {{ {g} return 0; }}\n")), ("next", format!("int main() {{ {{ {d} }} {{ {g} }} return 0; }}\n")), ("for", format!("{d}\nint h() {{ {g} return 1; }}\nint main() {{ {d} return h(); }}\n"))] {
        // a typedef name that is something else in another scope is a documented exclusion
        if [i, j].iter().any(|k| matches!(k, 7 | 8)) && !matches!(w, "file" | "block") { continue; }
        out(e(format!("{PRE}{DECLS}{t}"), format!("C20/pairs/{w}/{i}/{j}"))); } } }
    // ---- every kind of array size in every kind of declaration
    let sizes = ["2", "n", "n + 1", "n++", "one()", "one", "dd", "pp", "sv", "(n, 2)", "sizeof(n)", "n ? 2 : 3", "\"q\"", "1.5", "0", "-1", "1 / 0", "n = 2", "undeclared", "(char)n", "!n + 1", "*pp", "nop()", "K", "K + n", "int", "", "n n", "n)", "'a'", "a", "sv.m"];
    for (i, z) in sizes.iter().enumerate() { for (j, d) in ["int a[Z];", "int a[Z], b[Z];", "static int a[Z];", "extern int a[Z];", "const int a[Z];", "int a[Z] = {1};", "int (*a)[Z];", "static int (*a)[Z];", "int *a[Z];", "int a[2][Z];", "int a[Z][2];", "struct R { int a[Z]; } a;", "typedef int a[Z];", "void a[Z];", "struct U a[Z];", "char a[Z] = \"s\";", "int a[Z](void);", "int a[Z], a[Z];", "int n[Z];", "int a[Z]; int a;", "int a(int q[Z]);", "for (int a[Z]; ; ) break;"].iter().enumerate() { let d = d.replace('Z', z); for (w, t) in [("file", format!("{d}\nint main() {{ return 0; }}\n")), ("block", format!("int main() {{ {d} return 0; }}\n")), ("use", format!("int h(int n) {{ {d} return sizeof(a) != 0; }}\nint main() {{ return h(2); }}\n"))] {
        out(e(format!("{PRE}{DECLS}int n = 2; double dd; int *pp = &n; struct S sv; enum {{ K = 2 }};\nint one(void) {{ return 1; }}\nvoid nop(void) {{ }}\n{t}"), format!("C20/arrays/{w}/{i}/{j}"))); } } }
    let ms = ["int x;", "char x;", "long x;", "int *x;", "char *x;", "int x[2];", "char x[4];", "double x;", "struct S x;", "struct S *x;", "struct { int m; } x;", "int y; int x;", "int x, y;", "int y, x;", "T x;"];
    for (i, d) in ms.iter().enumerate() { for (j, g) in ms.iter().enumerate() { for u in ["struct", "union"] { for (w, t) in [("", format!("{u} Q {{ {d} {g} }};\nint main() {{ return 0; }}\n")), ("use", format!("int main() {{ {u} {{ char b; {d} long c; {g} }} q; q.c = 1; return q.b; }}\n")), ("in", format!("struct {{ {u} {{ {d} }} o; {g} }} q;\nint main() {{ return 0; }}\n"))] {
        out(e(format!("{PRE}{DECLS}{t}"), format!("C20/members/{u}{w}/{i}/{j}"))); } } } }
    let ps = ["int x", "long x", "int *x", "int x[]", "struct S x", "int", "char *", "double y", "void", "T x", "T", "..."];
    for (i, d) in ps.iter().enumerate() { for (j, g) in ps.iter().enumerate() { for (w, t) in [("proto", format!("int h({d}, {g});\nint main() {{ return 0; }}\n")), ("def", format!("int h({d}, {g}) {{ return 0; }}\nint main() {{ return 0; }}\n")), ("body", format!("int h({d}) {{ {g}; return 0; }}\nint main() {{ return 0; }}\n")), ("redef", format!("int h({d}) {{ return 0; }}\nint h({g}) {{ return 1; }}\nint main() {{ return 0; }}\n")), ("redecl", format!("int h({d});\nint h({g}) {{ return 1; }}\nint main() {{ return 0; }}\n")), ("decl2", format!("int h({d}) {{ return 2; }}\nint h({g});\nint main() {{ return 0; }}\n"))] {
        out(e(format!("{PRE}{DECLS}{t}"), format!("C20/params/{w}/{i}/{j}"))); } } }
    out(e(String::new(), "C20/file/empty".into())); out(e("\n \n".into(), "C20/file/blank".into()));
    // ---- every token of every feature program deleted, doubled, exchanged with the next, or replaced
    let rep = [";", "{", "}", "(", ")", "int", "x", "1", "*", "=", ",", "return", "struct", "case", "\"s\"", "."];
    for k in 0..FEATURES.len() { let (g, b) = feature(k, "k"); let w = words(&format!("{g} int main() {{ {b} return 0; }}"));
        for i in 0..w.len() {
            let mut put = |v: Vec<String>, what: String| out(e(format!("{PRE}{}\n", v.join(" ")), format!("C20/mut/{k}/{i}/{what}")));
            let mut v = w.clone(); v.remove(i); put(v, "del".into());
            let mut v = w.clone(); v.insert(i, w[i].clone()); put(v, "dup".into());
            if i + 1 < w.len() { let mut v = w.clone(); v.swap(i, i + 1); put(v, "swap".into()); }
            put(w[..i].to_vec(), "cut".into());
            for (j, r) in rep.iter().enumerate() { if !th && (i + j + k) % 5 != 0 { continue; } if w[i] != *r { let mut v = w.clone(); v[i] = r.to_string(); put(v, format!("rep{j}")); } if th { let mut v = w.clone(); v.insert(i, r.to_string()); put(v, format!("ins{j}")); } }
        } }
    // ---- one broken rule at every statement position of every feature program
    let rules = ["undeclared_name = 1;", "strtol(undeclared_name);", "undeclared_function(1);", "strlen();", "strlen(1, 2);", "1 = 2;", "int dup; int dup;", "int dup = 1; char dup;", "goto nowhere;", "int zz; zz.m = 1;", "int zz; zz->m = 1;", "int zz; *zz = 1;", "int zz; zz[0] = 1;", "int zz; zz();", "struct Undef zz;", "struct Undef { int a; } zz; zz.b = 1;", "int v[2]; v = 0;", "f(1) = 2;", "int zz; zz + 1 = 2;", "int zz; (zz, 1) = 2;", "int zz; ++zz = 2;", "int zz; &zz = 0;", "5++;", "int zz; (zz++)++;", "&5;", "int zz; &(zz + 1);", "int zz[3][];", "void zz;", "int zz; case 1: ;", "lab: ; lab: ;", "switch (1) { case 1: case 1: ; }", "switch (1) { default: default: ; }", "{ break; }", "{ continue; }", "if (1) break;", "case 3: ;", "default: ;", "return return;", "int zz; int *q = &zz; q * 2;", "\"abc\" = 0;", "sizeof(5)++;", "enum { A1, A1 };", "int zz; switch (zz) { case zz: ; }", "struct { int m; int m; } zz;", "int zz[-1];", "unknown_t zz;", "typedef int t1; t1 = 3;", "int 9z;", "@;", "`;", "$;", "int zz = ;", "if;", "else;", "while ();", "for (;) ;", "do ; while;", "struct;", "int [3];", "strtol(1;", "strtol(1));", "int zz = 08;", "int zz = 0x;", "char zz = '';", "char zz = 'ab;", "int zz = 1e;", "int *zz = {1, 2};", "int zz[2] = {1, 2, 3};", "char zz[2] = \"abc\";"];
    for k in 0..FEATURES.len() { let (g, b) = feature(k, "k"); let p = prog(&g, &b); let body = p.find(PRE).unwrap() + PRE.len();
        let mut at = vec![]; let mut paren = 0; let mut q = false;
        for (i, c) in p.char_indices().skip(body) { match c { '"' | '\'' => q = !q, _ if q => (), '(' => paren += 1, ')' => paren -= 1, ';' | '{' | '}' if paren == 0 => at.push(i + 1), _ => () } }
        for (r, t) in rules.iter().enumerate() { for (j, i) in at.iter().enumerate() { if !th && (j * 7 + r + k) % 5 != 0 { continue; } out(e(format!("{} {t} {}", &p[..*i], &p[*i..]), format!("C20/rule/{k}/{r}/{j}"))); } } }
    // the same in a program where they are certainly misplaced
    for (r, t) in rules.iter().enumerate() { for (w, c) in [("body", format!("int main() {{ {t} return 0; }}\n")), ("unused", format!("int un(void) {{ {t} return 0; }}\nint main() {{ return 0; }}\n")), ("dead", format!("int main() {{ return 0; {t} }}\n")), ("nested", format!("int main() {{ if (1) {{ {{ {t} }} }} return 0; }}\n"))] { if *t == "int zz; int *q = &zz; q * 2;" || t.starts_with("int *zz = {1") || t.starts_with("int v[2]; v") || t.starts_with("int zz[-1]") || t.contains("void zz") || t.starts_with("typedef int t1") { continue; } let mut c = e(format!("{PRE}{c}"), format!("C20/rules/{r}/{w}")); if th { c.opts = Opts::all8(); } else { c.opts = two(); } out(c); } }
    // the same, and nothing broken, after n of everything
    for n in if th { vec![2, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 400] } else { vec![33, 128, 256] } { let cat = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>(); let d = n.min(40);
        for (r, t) in rules.iter().copied().chain([";", "int fine = 1; strtol(fine);"]).enumerate() { for (w, c) in [
            ("stmts", format!("int main() {{ int x = 0; {}{t} return 0; }}\n", cat(&|k| format!("x += {k}; ")))), ("stmtsafter", format!("int main() {{ int x = 0; {t} {} return 0; }}\n", cat(&|k| format!("x += {k}; ")))),
            ("funcs", format!("{}int main() {{ {t} return 0; }}\n", cat(&|k| format!("int u{k}(void) {{ return {k}; }}\n")))), ("funcsafter", format!("int main() {{ {t} return 0; }}\n{}", cat(&|k| format!("int u{k}(void) {{ return {k}; }}\n")))),
            ("globals", format!("{}int main() {{ {t} return 0; }}\n", cat(&|k| format!("int u{k} = {k};\nstruct U{k} {{ int m; }};\n")))), ("lines", format!("{}int main() {{ {t}{} return 0; }}\n", "\n".repeat(n), "\n".repeat(n))),
            ("blocks", format!("int main() {{ {}{t}{} return 0; }}\n", "{ ".repeat(d), " }".repeat(d))), ("mixed", format!("int main() {{ int x = 1; {}{t}{} return 0; }}\n", (0..d).map(|k| ["if (x) { ", "{ ", "if (x) { } else { "][k % 3]).collect::<String>(), " }".repeat(d)))] {
            if !th && (n == 33) != matches!(w, "blocks" | "mixed") { continue; }
            out(e(format!("{PRE}{c}"), format!("C20/far/{w}/{n}/{r}"))); } } }
    // ---- every byte and pair of bytes between the tokens and on their own
    for c in 1..128u8 { let c = c as char; for (k, t) in [format!("{c}"), format!("int main() {{ {c} return 0; }}"), format!("int main() {{ return 0{c}; }}"), format!("int {c}main() {{ return 0; }}"), format!("int main() {{ return 0; }}{c}"), format!("int main() {{ return '{c}'; }}"), format!("int main() {{ return \"{c}\"[0]; }}"), format!("int main() {{ int a{c}b; return 0; }}")].into_iter().enumerate() { out(Case::new(format!("C20/byte/{}/{k}", c as u32), t).kind(Kind::Total)); }
        for d in (32..127u8).step_by(if th { 1 } else { 3 }) { out(Case::new(format!("C20/pair/{}/{d}", c as u32), format!("int main() {{ int a = 1; return a {c}{} a; }}\n", d as char)).kind(Kind::Total)); } }
    for (i, c) in ['é', '日', '\u{feff}', '\u{200b}', '\u{10ffff}', '\u{a0}', '\u{2028}'].into_iter().enumerate() { for (k, t) in [format!("{c}"), format!("int main() {{ {c} return 0; }}"), format!("int {c} = 1; int main() {{ return 0; }}"), format!("int main() {{ return '{c}'; }}"), format!("int main() {{ return \"{c}\"[0]; }}"), format!("// {c}\nint main() {{ return 0; }}"), format!("{c}int main() {{ return 0; }}")].into_iter().enumerate() { out(Case::new(format!("C20/uni/{i}/{k}"), t).kind(Kind::Total)); } }
    // ---- nesting: the real binary, on its own stack
    for (i, (name, _)) in NESTS.iter().enumerate() { let ctl = (4..7).contains(&i); for n in [1, 10, 31, 63, 127, 500, 2000, 5000] { if n > if ctl { if th { 127 } else { 63 } } else if th { 5000 } else { 2000 } { continue; } let mut c = Case::new(format!("C20/deep/{name}/{n}"), nest(i, n)); c.custom = Some(deep); out(c); } }
}
const NESTS: [(&str, fn(usize) -> String); 12] = [
    ("paren", |n| format!("int main() {{ int x = 1; return {}x{}; }}", "(".repeat(n), ")".repeat(n))),
    ("sum", |n| format!("int main() {{ int x = 1; return {}1; }}", "x+".repeat(n))),
    ("call", |n| format!("int f(int a) {{ return a; }} int main() {{ return {}1{}; }}", "f(".repeat(n), ")".repeat(n))),
    ("block", |n| format!("int main() {{ {}{} return 0; }}", "{".repeat(n), "}".repeat(n))),
    ("if", |n| format!("int main() {{ int x = 0; {}x = 1;{} return 0; }}", "if(x){".repeat(n), "}".repeat(n))),
    ("while", |n| format!("int main() {{ int x = 0; {}x = 1;{} return 0; }}", "while(x){".repeat(n), "}".repeat(n))),
    ("else", |n| format!("int main() {{ int x = 0; {} x = 2; return 0; }}", (0..n).map(|k| format!("if (x == {k}) x = 1; else ")).collect::<String>())),
    ("neg", |n| format!("int main() {{ int x = 1; return {}x; }}", "- ".repeat(n))),
    ("ptr", |n| format!("int main() {{ int {}p; return 0; }}", "*".repeat(n))),
    ("array", |n| format!("int main() {{ int a{}; return 0; }}", "[1]".repeat(n))),
    ("open", |n| "(".repeat(n)),
    ("brace", |n| format!("int main() {{ {}", "{".repeat(n))),
];
fn nest(i: usize, n: usize) -> String { (NESTS[i].1)(n) + "\n" }
fn deep(c: &Case) -> Result<Stats, String> {
    let d = comp::scratch_dir();
    let (s, o) = (d.join("deep.c"), d.join("deep.wasm"));
    std::fs::write(&s, &c.src).map_err(|e| format!("engine: {e}"))?;
    let _ = std::fs::remove_file(&o);
    let r = node::wait(Command::new(node::compiler()).arg(&s).arg("-o").arg(&o).current_dir(node::repo()), 120).map_err(|e| if e.starts_with("engine") { e } else { format!("the compiler {e}") })?;
    let mut st = Stats::default(); st.states = 1; st.transitions = 1; st.events = 1; st.runs_done = 1;
    let bad = c.id.contains("/open/") || c.id.contains("/brace/");
    match r.code {
        Some(0) if !bad => { let b = std::fs::read(&o).map_err(|_| "exit status 0 without a module")?; crate::explore::module_of(&b).map_err(|e| format!("the module is invalid: {e}"))?; }
        Some(0) => return Err("an unfinished program is accepted".into()),
        None => return Err("the compiler is killed by a signal".into()),
        Some(101) => return Err(format!("the compiler crashes: {}", String::from_utf8_lossy(&r.err).lines().next().unwrap_or(""))),
        Some(k) if bad => { if o.exists() { return Err("a module was written although an error was reported".into()); } if r.err.is_empty() { return Err(format!("exit status {k} without a message")); } }
        Some(k) => return Err(format!("the compiler rejects a valid program (exit status {k}): {}", String::from_utf8_lossy(&r.err).chars().take(200).collect::<String>())),
    }
    Ok(st)
}

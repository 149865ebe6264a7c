//! C05 structured control flow, C06 switch, C07 goto graphs: every program text up to a size.
use super::opt::Pack;
use super::*;

#[derive(Clone, Debug)]
pub enum St { Leaf, If(Vec<St>), IfElse(Vec<St>, Vec<St>), While(Vec<St>), Do(Vec<St>), For(u8, Vec<St>), Break, Continue, Return, Block(Vec<St>) }

pub struct Sizes { pub loops: bool, pub blocks: bool }
/// all single statements of exactly `n` nodes
pub fn single(n: usize, inl: bool, f: &mut dyn FnMut(St)) {
    if n == 0 { return; }
    if n == 1 { f(St::Leaf); f(St::Return); if inl { f(St::Break); f(St::Continue); } return; }
    lists(n - 1, inl, &mut |b| { f(St::If(b.clone())); if b.len() > 1 { f(St::Block(b)); } });
    lists(n - 1, true, &mut |b| { f(St::While(b.clone())); f(St::Do(b.clone())); for m in 0..4 { f(St::For(m, b.clone())); } });
    for k in 1..n - 1 { lists(k, inl, &mut |a| { lists(n - 1 - k, inl, &mut |b| f(St::IfElse(a.clone(), b))); }); }
}
/// all statement lists of exactly `n` nodes
pub fn lists(n: usize, inl: bool, f: &mut dyn FnMut(Vec<St>)) {
    if n == 0 { f(vec![]); return; }
    for k in 1..=n { single(k, inl, &mut |s| {
        // statements after an unconditional jump are kept: they are reachable only through labels, and must not matter
        lists(n - k, inl, &mut |r| { let mut v = vec![s.clone()]; v.extend(r); f(v); });
    }); }
}
pub struct Pr { pub tag: usize, pub cond: usize, pub leaf: Box<dyn FnMut(usize) -> String>, pub hist: bool }
impl Pr {
    pub fn new() -> Pr { Pr { tag: 0, cond: 0, leaf: Box::new(|k| format!("strlen({k});")), hist: false } }
    fn c(&mut self) -> String { self.cond += 1; format!("strlen({})", 2000 + self.cond) }
    pub fn list(&mut self, v: &[St]) -> String { v.iter().map(|s| self.st(s)).collect::<Vec<_>>().join(" ") }
    fn body(&mut self, v: &[St]) -> String { if v.len() == 1 { self.st(&v[0]) } else { format!("{{ {} }}", self.list(v)) } }
    pub fn st(&mut self, s: &St) -> String {
        match s {
            St::Leaf => { self.tag += 1; let k = self.tag; (self.leaf)(k) }
            St::Break => "break;".into(), St::Continue => "continue;".into(), St::Return => { self.tag += 1; format!("return {};", 10 + self.tag) }
            St::Block(b) => format!("{{ {} }}", self.list(b)),
            St::If(b) => { let c = self.c(); let b = self.body(b); format!("if ({c}) {b}") }
            // braces keep a nested if from taking the else (the dangling else is C18's subject)
            St::IfElse(a, b) => { let c = self.c(); let a = self.list(a); let b = self.body(b); format!("if ({c}) {{ {a} }} else {b}") }
            St::While(b) => { let c = self.c(); let b = self.body(b); format!("while ({c}) {b}") }
            St::Do(b) => { let b = self.body(b); let c = self.c(); format!("do {b} while ({c});") }
            St::For(m, b) => { self.tag += 2; let (i, s) = (self.tag - 1, self.tag); let c = if m & 1 == 0 { self.c() } else { String::new() }; let st = if m & 2 == 0 { format!("strlen({s})") } else { String::new() }; let b = self.body(b); format!("for (strlen({i}); {c}; {st}) {b}") }
        }
    }
}

pub fn structured(th: bool, out: Sink) {
    let max = if th { 5 } else { 4 };
    for n in 1..=max { let mut k = 0; lists(n, false, &mut |v| {
        k += 1;
        let mut p = Pr::new(); let b = p.list(&v);
        out(Case::new(format!("C05/st{n}/{k}"), prog("", &format!("{b} strlen(99);"))).opts(if th || n < 4 { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }));
    }); }
    // the same shapes as the whole body of a function: the end of the body is reached from inside every construct
    for n in 1..=max { let mut pk = Pack::new(&format!("C05/void{n}"), 40, "", if th { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] }, &[0], out); lists(n, false, &mut |v| { pk.add(&Pr::new().list(&v)); }); }
    // and of functions that return values from inside the constructs, with and without a last statement
    for t in ["int", "double", "long"] { for n in 1..=(if th { 4 } else { 3 }) { let mut pk = Pack::new(&format!("C05/ret{t}{n}"), 40, "", &[Opts::DEFAULT], &[0], out).ret(t); lists(n, false, &mut |v| {
        for end in ["", "return 9;"] { let mut p = Pr::new(); p.leaf = Box::new(|k| match k % 2 { 0 => format!("{{ strlen({k}); if (strlen(2400)) return {k}; }}"), _ => format!("return {k};") }); pk.add(&format!("{}{end}", p.list(&v))); }
        let mut p = Pr::new(); p.leaf = Box::new(|k| format!("{{ if (strlen(2400)) return {k}; strlen({k}); }}")); pk.add(&p.list(&v));
    }); } }
    // the same shapes with every leaf updating and recording live variables of different sizes
    for n in 1..=(if th { 4 } else { 3 }) { let mut k = 0; lists(n, false, &mut |v| {
        k += 1;
        let mut p = Pr::new(); p.leaf = Box::new(|k| match k % 3 { 0 => "{ a = a + 1 & 3; strtol(b); }".into(), 1 => "{ b = a ^ b; c = b & 7; }".into(), _ => "{ a = (c + 1) % 3; b = a; strtol(c); }".into() });
        let b = p.list(&v);
        out(Case::new(format!("C05/var{n}/{k}"), prog("", &format!("int a = 1; long b = 2; char c = 3; {b} strtol(a); strtol(b); strtol(c);"))).opts(&two()));
    }); }
    // counted loops: every nesting of two loops over every pair of forms, with break/continue conditions on the counters
    let lp = |form: usize, v: &str, n: i32, body: &str| match form {
        0 => format!("for (int {v} = 0; {v} < {n}; {v}++) {{ {body} }}"),
        1 => format!("{{ int {v} = 0; while ({v} < {n}) {{ {v}++; {body} }} }}"),
        2 => format!("{{ int {v} = 0; do {{ {v}++; {body} }} while ({v} < {n}); }}"),
        3 => format!("{{ int {v} = {n}; while ({v}--) {{ {body} }} }}"),
        4 => format!("for (long {v} = {n}; {v} > 0; {v} -= 1) {{ {body} }}"),
        5 => format!("for (char {v} = 0; ; {v}++) {{ if ({v} >= {n}) break; {body} }}"),
        _ => format!("{{ unsigned {v} = 0; for (; {v} != {n}; ) {{ ++{v}; {body} }} }}"),
    };
    let jumps = ["", "if (i == 1) break;", "if (i == 1) continue;", "if (j == 1) break;", "if (j == 2) continue;", "if (i + j == 2) return 5;"];
    for f1 in 0..7 { for f2 in 0..7 { for (a, j1) in jumps.iter().enumerate() { for (b, j2) in jumps.iter().enumerate() {
        if (a == 3 || a == 4) && !th { continue; }
        let j1 = j1.replace('j', "i");
        let inner = lp(f2, "j", 3, &format!("{j2} strtol(i * 10 + j);"));
        out(Case::new(format!("C05/count/{f1}/{f2}/{a}/{b}"), prog("", &format!("{} strlen(9);", lp(f1, "i", 3, &format!("{j1} {inner} strtol(i);"))))));
    } } } }
}

fn sw_items(alpha: &[&str], n: usize, f: &mut dyn FnMut(&[usize])) {
    let mut v = vec![0; n];
    loop { f(&v); let mut i = n; loop { if i == 0 { return; } i -= 1; v[i] += 1; if v[i] < alpha.len() { break; } v[i] = 0; } }
}

pub fn switches(th: bool, out: Sink) {
    // every sequence of up to n items in a switch body
    let alpha = ["case", "default", "leaf", "break", "ifbreak", "return"];
    let render = |v: &[usize], vals: &[&str], names: &[&str]| -> Option<String> {
        let (mut s, mut c, mut tag, mut d) = (String::new(), 0, 0, 0);
        for x in v { match names[*x] {
            "case" => { s += &format!("case {}: ", vals.get(c)?); c += 1; }
            "default" => { d += 1; if d > 1 { return None; } s += "default: "; }
            "leaf" => { tag += 1; s += &format!("strlen({tag}); "); }
            "break" => s += "break; ", "return" => { tag += 1; s += &format!("return {tag}; ") }, "continue" => s += "continue; ",
            "ifbreak" => { tag += 1; s += &format!("if (strlen({})) break; ", 2000 + tag); }
            "ifcont" => { tag += 1; s += &format!("if (strlen({})) continue; ", 2000 + tag); }
            "block" => { tag += 1; s += &format!("{{ int q = {tag}; strtol(q); case {}: strlen({}); }} ", vals.get(c)?, tag + 20); c += 1; }
            "duff" => { tag += 1; s += &format!("if (strlen({})) {{ strlen({}); case {}: strlen({}); }} ", 2000 + tag, tag + 40, vals.get(c)?, tag + 20); c += 1; }
            "loop" => { tag += 1; s += &format!("while (strlen({})) {{ strlen({}); case {}: strlen({}); }} ", 2000 + tag, tag + 40, vals.get(c)?, tag + 20); c += 1; }
            "doloop" => { tag += 1; s += &format!("do {{ strlen({}); case {}: strlen({}); }} while (strlen({})); ", tag + 40, vals.get(c)?, tag + 20, 2000 + tag); c += 1; }
            "lbreak" => { tag += 1; s += &format!("for (;;) {{ strlen({tag}); break; }} "); }
            "inner" => { tag += 1; s += &format!("switch (strlen({})) {{ case 1: strlen({}); break; default: strlen({}); case 0: strlen({}); }} ", 3000 + tag, tag + 20, tag + 40, tag + 60); }
            "innerd" => { tag += 1; s += &format!("switch (strlen({})) {{ case 1: strlen({}); }} ", 3000 + tag, tag + 20); }
            _ => unreachable!() } }
        // a label must be followed by a statement
        if v.last().is_some_and(|x| matches!(names[*x], "case" | "default")) { s += ";"; }
        Some(s)
    };
    let mut k;
    for n in 0..=(if th { 6 } else { 5 }) { k = 0; sw_items(&alpha, n, &mut |v| {
        k += 1;
        if let Some(s) = render(v, &["1", "2", "3", "4", "5", "6"], &alpha) { out(Case::new(format!("C06/seq{n}/{k}"), prog("", &format!("switch (strlen(5000)) {{ {s} }} strlen(99);")))); }
    }); }
    for n in 0..=(if th { 5 } else { 4 }) { let mut pk = Pack::new(&format!("C06/void{n}"), 40, "", &[Opts::DEFAULT], &[0], out); sw_items(&alpha, n, &mut |v| { if let Some(s) = render(v, &["1", "2", "3", "4", "5", "6"], &alpha) { pk.add(&format!("switch (strlen(5000)) {{ {s} }}")); } }); }
    for n in 0..=(if th { 5 } else { 4 }) { let mut pk = Pack::new(&format!("C06/ret{n}"), 40, "", &[Opts::DEFAULT], &[0], out).ret("int"); sw_items(&["case", "default", "leaf", "break"], n, &mut |v| { if let Some(s) = render(v, &["1", "2", "3", "4", "5", "6"], &["case", "default", "leaf", "break"]) { for r in [1, 2] { let mut k = 0; let q = s.split("strlen(").enumerate().map(|(i, x)| if i == 0 { x.to_string() } else { k += 1; if k % r == 0 { format!("return ({x}") } else { format!("strlen({x}") } }).collect::<String>(); pk.add(&format!("switch (strlen(5000)) {{ {q} }}")); pk.add(&format!("switch (strlen(5000)) {{ {q} }} return 77;")); } } }); }
    let alpha2 = ["case", "default", "leaf", "break", "continue", "ifcont", "ifbreak"];
    for n in 0..=(if th { 5 } else { 4 }) { k = 0; sw_items(&alpha2, n, &mut |v| {
        k += 1;
        if let Some(s) = render(v, &["2", "0", "1", "3", "4"], &alpha2) { for (w, l) in [("while", format!("while (strlen(2100)) {{ switch (strlen(4000)) {{ {s} }} strlen(98); }}")), ("do", format!("do {{ switch (strlen(4000)) {{ {s} }} }} while (strlen(2100));")), ("for", format!("for (strlen(90); strlen(2100); strlen(91)) switch (strlen(4000)) {{ {s} }}"))] {
            if w != "while" && n > (if th { 4 } else { 3 }) { continue; }
            out(Case::new(format!("C06/loop{w}{n}/{k}"), prog("", &format!("{l} strlen(99);"))));
        } }
    }); }
    let alpha3 = ["case", "default", "leaf", "break", "block", "duff", "loop", "doloop", "lbreak", "inner", "innerd"];
    for n in 1..=(if th { 4 } else { 3 }) { k = 0; sw_items(&alpha3, n, &mut |v| {
        k += 1;
        if !v.iter().any(|x| *x >= 4) { return; }
        if let Some(s) = render(v, &["1", "0", "2", "3"], &alpha3) { out(Case::new(format!("C06/nest{n}/{k}"), prog("", &format!("switch (strlen(4000)) {{ {s} }} strlen(99);"))).opts(&two())); }
    }); }
    // controlling and label types: promotion, conversion, extreme values
    let vals = ["0", "1", "-1", "127", "128", "255", "-128", "32768", "65535", "-2147483647 - 1", "2147483647", "2147483648", "4294967295", "0xffffffff", "-2147483649", "9223372036854775807", "'a'", "'\\377'", "1 + 1", "sizeof(int)", "E"];
    for t in TYS { if t.fp() { continue; }
        for (i, a) in vals.iter().enumerate() { for (j, b) in vals.iter().enumerate() {
            if j < i && !th { continue; }
            let src = prog("enum { E = 7 };\n", &format!("{} v; {} switch (v) {{ case {a}: strlen(1); break; case {b}: strlen(2); default: strlen(3); }}", t.c, env("v", t.d)));
            out(Case::new(format!("C06/type/{}/{i}/{j}", t.id), src).kind(Kind::Either));
        } }
        for (n, e) in [("plus", "v + 1"), ("neg", "-v"), ("and", "v & 3"), ("cmp", "v > 1"), ("asg", "w = v"), ("cast", "(char)v"), ("post", "v++"), ("tern", "v ? v : 3")] {
            out(Case::new(format!("C06/expr/{}/{n}", t.id), prog("", &format!("{0} v; {0} w; {1} switch ({e}) {{ case 0: strlen(1); break; case 1: strlen(2); case 2: strlen(3); break; case -1: strlen(4); break; default: strlen(5); }} strtol(v);", t.c, env("v", t.d)))).opts(&two()));
        }
    }
    // bodies that are a single statement
    for (i, s) in ["case 1: strlen(1);", "default: strlen(1);", "case 1: case 2: strlen(1);", "strlen(1);", ";", "case 1: if (strlen(2000)) strlen(2); else case 2: strlen(3);", "case 1: while (strlen(2000)) case 2: strlen(3);", "{ }", "case 2: { strlen(1); }"].iter().enumerate() {
        out(Case::new(format!("C06/single/{i}"), prog("", &format!("switch (strlen(4000)) {s} strlen(99);"))).opts(&two()));
    }
}

/// leaf positions of a list
fn leaves(v: &[St]) -> usize { v.iter().map(|s| match s { St::Leaf => 1, St::If(b) | St::While(b) | St::Do(b) | St::For(_, b) | St::Block(b) => leaves(b), St::IfElse(a, b) => leaves(a) + leaves(b), _ => 0 }).sum() }

pub fn gotos(th: bool, out: Sink) {
    // every control-flow graph on n labelled blocks: each ends in return, a jump, or a two-way branch
    let graph = |n: usize, fmt: usize, out: &mut dyn FnMut(String, String)| {
        let per = 1 + n + n * n;
        let total = per.pow(n as u32);
        for code in 0..total {
            let mut c = code; let mut s = String::new();
            for b in 0..n {
                let t = c % per; c /= per;
                s += &format!("L{b}: strlen({}); ", b + 1);
                s += &if fmt == 1 { format!("x = x * 2 + {b} & 7; y = x + {b}; ") } else { String::new() };
                if t == 0 { s += &(if fmt == 1 { "return x + y; ".to_string() } else { format!("return {}; ", b + 20) }); }
                else if t <= n { if t - 1 == b + 1 { /* falls through */ } else { s += &format!("goto L{}; ", t - 1); } }
                else { let t = t - 1 - n; let (j, k) = (t / n, t % n); s += &format!("if (strlen({})) goto L{j}; ", 2000 + b); if k != b + 1 { s += &format!("goto L{k}; "); } }
            }
            out(format!("{code}"), s);
        }
    };
    for n in 1..=3 { let mut pk = Pack::new(&format!("C07/void{n}"), 40, "", &[Opts::DEFAULT], &[0], out); graph(n, 0, &mut |_, s| pk.add(&(20..24).fold(s, |s, k| s.replace(&format!("return {k};"), "return;")))); }
    for t in ["int", "float"] { let mut pk = Pack::new(&format!("C07/ret{t}"), 40, "", &[Opts::DEFAULT], &[0], out).ret(t); for n in 1..=3 { graph(n, 0, &mut |_, s| pk.add(&s)); } }
    for n in 1..=3 { graph(n, 0, &mut |id, s| { out(Case::new(format!("C07/cfg{n}/{id}"), prog("", &s)).opts(&two())); }); }
    graph(3, 1, &mut |id, s| out(Case::new(format!("C07/cfgv3/{id}"), prog("", &format!("int x = 1; long y = 2; {s}"))).opts(if th { &[Opts::DEFAULT, Opts::NONE] } else { &[Opts::DEFAULT] })));
    if th { graph(4, 0, &mut |id, s| out(Case::new(format!("C07/cfg4/{id}"), prog("", &s)))); }
    else {
        // on four blocks: every graph whose branches fall through to the next block or jump anywhere
        let per = 1 + 4 + 4; // return, goto k, if goto k (else next)
        for code in 0..(per as usize).pow(4) {
            let mut c = code; let mut s = String::new();
            for b in 0..4usize { let t = c % per; c /= per; s += &format!("L{b}: strlen({}); ", b + 1); if t == 0 { s += &format!("return {}; ", b + 20); } else if t <= 4 { s += &format!("goto L{}; ", t - 1); } else { s += &format!("if (strlen({})) goto L{}; ", 2000 + b, t - 5); } }
            out(Case::new(format!("C07/cfg4f/{code}"), prog("", &s)));
        }
    }
    // labels and gotos placed in every pair of positions of every structured shape
    let max = if th { 5 } else { 4 };
    for n in 2..=max { let mut k = 0; lists(n, false, &mut |v| {
        k += 1;
        let nl = leaves(&v);
        if nl < 2 { return; }
        for i in 0..nl { for j in 0..nl { if i == j { continue; } for cond in [true, false] {
            if n == max && (cond as usize + k) % 2 == 0 && !th { continue; }
            let mut p = Pr::new(); let mut q = 0;
            p.leaf = Box::new(move |t| { let me = q; q += 1; if me == i { format!("L: strlen({t});") } else if me == j { if cond { format!("if (strlen(2500)) goto L;") } else { "goto L;".into() } } else { format!("strlen({t});") } });
            let b = p.list(&v);
            out(Case::new(format!("C07/into{n}/{k}/{i}/{j}/{cond}"), prog("", &format!("{b} strlen(99);"))));
        } } }
        // two labels
        if nl >= 3 && (th || n <= 3) { for i in 0..nl { for j in 0..nl { if i == j { continue; }
            let mut p = Pr::new(); let mut q = 0;
            p.leaf = Box::new(move |t| { let me = q; q += 1; if me == i { format!("A: {{ strlen({t}); if (strlen(2600)) goto B; }}") } else if me == j { format!("B: {{ strlen({t}); if (strlen(2601)) goto A; }}") } else { format!("if (strlen({})) goto A;", 2700 + t) } });
            let b = p.list(&v);
            out(Case::new(format!("C07/two{n}/{k}/{i}/{j}"), prog("", &format!("{b} strlen(99);"))).opts(&two()));
        } } }
    }); }
    // labels are per function and live in a name space of their own
    for (i, b) in ["goto L; L: strlen(1);", "int L = 3; goto L; L: strtol(L);", "L: if (strlen(2000)) goto L;", "goto end; strlen(1); end: ;", "struct L { int x; }; goto L; L: strlen(1);", "goto L; { L: strlen(1); }", "{ goto L; } strlen(2); L: strlen(1);", "L: M: N: strlen(1); if (strlen(2000)) goto M;", "int i = 0; L: i++; if (i < 3) goto L; strtol(i);", "goto f; f: f();"].iter().enumerate() {
        out(Case::new(format!("C07/name/{i}"), prog(&format!("int f() {{ int k = 0; goto L; strlen(7); L: k++; if (k < 2) goto L; M: strtol(k); return k; }}\n"), &format!("f(); {b} f();"))).opts(&two()));
    }
    for (i, b) in ["goto M;", "L: ; L: ;", "goto x; int x;", "L: strlen(1); { L: strlen(2); }"].iter().enumerate() { out(reject(format!("C07/bad/{i}"), prog("int f() { M: return 1; }\n", b))); }
}

//! C22: preprocessing and the bundled headers, run through the real `cpp`.
use super::opt::{feature, FEATURES};
use super::*;

/// What each bundled header stands for, written from the C standard and the documented types of this implementation.
const TYPES: &str = "int8_t=signed char int16_t=short int32_t=int int64_t=long int_fast8_t=signed char int_fast16_t=short int_fast32_t=int int_fast64_t=long int_least8_t=signed char int_least16_t=short int_least32_t=int int_least64_t=long intmax_t=long uint8_t=unsigned char uint16_t=unsigned short uint32_t=unsigned int uint64_t=unsigned long uint_fast8_t=unsigned char uint_fast16_t=unsigned short uint_fast32_t=unsigned int uint_fast64_t=unsigned long uint_least8_t=unsigned char uint_least16_t=unsigned short uint_least32_t=unsigned int uint_least64_t=unsigned long uintmax_t=unsigned long";
fn types() -> Vec<(String, String)> { let mut v: Vec<(String, String)> = vec![]; let mut it = TYPES.split('=').peekable(); let mut n = it.next().unwrap().to_string(); while let Some(x) = it.next() { if it.peek().is_none() { v.push((n.clone(), x.into())); break; } let (t, nn) = x.rsplit_once(' ').unwrap(); v.push((n, t.into())); n = nn.into(); } v }
const CT: [(&str, &str); 13] = [("isalnum", "(A|D)"), ("isalpha", "A"), ("iscntrl", "(c >= 0 & c < 32 | c == 127)"), ("isdigit", "D"), ("isxdigit", "(D | (c >= 97 & c <= 102) | (c >= 65 & c <= 70))"), ("isgraph", "(c > 32 & c < 127)"), ("ispunct", "((c > 32 & c < 127) & !(A|D))"), ("isprint", "(c >= 32 & c < 127)"), ("islower", "L"), ("isupper", "U"), ("isspace", "(c == 32 | c == 9 | c == 10 | c == 11 | c == 12 | c == 13)"), ("tolower", "(U ? c + 32 : c)"), ("toupper", "(L ? c - 32 : c)")];
fn ct(e: &str) -> String { e.replace('A', "((c >= 97 & c <= 122) | (c >= 65 & c <= 90))").replace('D', "(c >= 48 & c <= 57)").replace('L', "(c >= 97 & c <= 122)").replace('U', "(c >= 65 & c <= 90)") }
/// the reference text of a header
pub fn header(h: &str) -> String {
    match h {
        "ctype.h" => CT.iter().map(|(n, e)| format!("{} {n}(char c) {{ return {}; }}\n", if n.starts_with("to") { "char" } else { "int" }, ct(e))).collect(),
        "limits.h" => String::new(),
        "stdbool.h" => String::new(),
        "stddef.h" => "typedef int ptrdiff_t;\ntypedef int wchar_t;\n".into(),
        "stdint.h" => types().iter().map(|(n, t)| format!("typedef {t} {n};\n")).collect(),
        "stdio.h" => "int printf(const char *format, ...);\n".into(),
        "stdlib.h" => "long strtol(const char *str, char **endptr, int base);\nunsigned long strtoul(const char *str, char **endptr, int base);\n".into(),
        "string.h" => "int strlen(const char *s);\nchar *strstr(const char *a, const char *b);\n".into(),
        _ => unreachable!(),
    }
}
pub const HEADERS: [&str; 8] = ["ctype.h", "limits.h", "stdbool.h", "stddef.h", "stdint.h", "stdio.h", "stdlib.h", "string.h"];
/// statements that use every part of a header, as the program writes them and as the reference reads them
fn uses(h: &str) -> (String, String) {
    let same = |s: &str| (s.to_string(), s.to_string());
    match h {
        "ctype.h" => same("{ int k; for (k = 0; k < 4; k++) printf(\"%d%d%c\", isspace(\" a1A\"[k]) != 0, isalnum(\" a1A\"[k]) != 0, toupper(\" a1A\"[k])); }"),
        "limits.h" => ("printf(\"%d %d %ld\", INT_MAX, INT_MIN, LONG_MIN);".into(), "printf(\"%d %d %ld\", 2147483647, -2147483647 - 1, -9223372036854775807 - 1);".into()),
        "stdbool.h" => ("printf(\"%d%d%d\", true, false, __bool_true_false_are_defined);".into(), "printf(\"%d%d%d\", 1, 0, 1);".into()),
        "stddef.h" => ("{ size_t n = 3; ptrdiff_t d = -2; void *p = NULL; printf(\"%d%d%d%d\", n, d, p == 0, sizeof(wchar_t)); }".into(), "{ int n = 3; int d = -2; void *p = 0; printf(\"%d%d%d%d\", n, d, p == 0, 4); }".into()),
        "stdint.h" => same("{ uint8_t a = 300; int64_t b = 5; uint16_t c = -1; printf(\"%d%ld%d%d\", a, b << 40, c, sizeof(int32_t)); }"),
        "stdio.h" => same("printf(\"x%dy\", 5);"),
        "stdlib.h" => ("{ char *e = NULL; printf(\"%ld%d\", strtol(\"12\", &e, 10), EXIT_SUCCESS); strtoul(\"7\", NULL, 0); }".into(), "{ char *e = 0; printf(\"%ld%d\", strtol(\"12\", &e, 10), 0); strtoul(\"7\", 0, 0); }".into()),
        "string.h" => ("{ size_t n = strlen(\"abc\"); char *p = strstr(\"abc\", \"b\"); printf(\"%d%d\", n, p == NULL); }".into(), "{ int n = strlen(\"abc\"); char *p = strstr(\"abc\", \"b\"); printf(\"%d%d\", n, p == 0); }".into()),
        _ => unreachable!(),
    }
}

pub fn preprocessing(th: bool, out: Sink) {
    let two_ = two();
    // ---- n of every directive, line and comment, around the same program
    for n in if th { vec![1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000] } else { vec![33, 128, 257] } { let cat = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>(); let d = n.min(60);
        let b = |v: &str| format!("{PRE}int main() {{ int x = {v}; strtol(x); {{ char *p = \"/*k*/ // z\"; strlen(p[0]); strlen(p[8]); strtol(x + sizeof(int)); }} return x; }}\n");
        for (w, s, r) in [
            ("comment", format!("/*{}*/{}", "* x\n".repeat(n), b("4")), b("4")), ("comments", format!("{}{}", cat(&|k| format!("/* {k} */ // {}\n", "y".repeat(k))), b("4")), b("4")), ("inner", b(&format!("4 /*{}*/ + /* {} */ 5 // {}\n", "**".repeat(n), "\n".repeat(n), "z".repeat(n))), b("9")),
            ("lines", format!("{}{}", "\n".repeat(n), b("4")), b("4")), ("cont", b(&format!("{}4", "\\\n".repeat(n))), b("4")), ("blank", b(&format!("{}4", " \t".repeat(n))), b("4")),
            ("defs", format!("{}{}", cat(&|k| format!("#define M{k} {k}\n")), b(&format!("M{} + M0", n - 1))), b(&format!("{} + 0", n - 1))), ("chain", format!("#define M0 3\n{}{}", cat(&|k| format!("#define M{} M{k}\n", k + 1)), b(&format!("M{n}"))), b("3")), ("deep", format!("#define M0 3\n{}{}", (0..d).map(|k| format!("#define M{} (M{k} + 1)\n", k + 1)).collect::<String>(), b(&format!("M{d}"))), b(&format!("{}", 3 + d))),
            ("params", format!("#define M({}) p{}\n{}", (0..d).map(|k| format!("p{k}")).collect::<Vec<_>>().join(", "), d - 1, b(&format!("M({})", (0..d).map(|k| format!("{k}")).collect::<Vec<_>>().join(", ")))), b(&format!("{}", d - 1))),
            ("ifs", format!("{}#define V 5\n{}{}", "#if 1\n".repeat(d), "#endif\n".repeat(d), b("V")), b("5")), ("elifs", format!("#define K {}\n{}#else\n#define V 6\n#endif\n{}", n - 1, cat(&|k| format!("#{} K == {k}\n#define V {k}\n", if k == 0 { "if" } else { "elif" })), b("V")), b(&format!("{}", n - 1))), ("skipped", format!("#if 0\n{}#endif\n{}", cat(&|k| format!("int lost{k}; @ ' {k}\n")), b("4")), b("4")),
            ("redefine", format!("{}{}", cat(&|k| format!("#undef V\n#define V {k}\n")), b("V")), b(&format!("{}", n - 1))), ("headers", format!("{}{}", cat(&|k| format!("#include <{}>\n", ["limits.h", "stdbool.h", "stddef.h", "stdint.h"][k % 4])), b("true + INT_MAX % 10")), b("1 + 7")), ("line", format!("#line {n}\n{}#line {}\n", b("4"), n * 3), b("4")), ("linenum", format!("{}{}", "\n".repeat(n), b("__LINE__").replace("int x = ", "int x = 0 * ").replace("0 * __LINE__", "__LINE__ > 0")), b("1"))] {
            out(Case::new(format!("C22/far/{w}/{n}"), s).refsrc(r)); } }
    // ---- limits: value, type, sign and use in expressions and #if of every macro
    let lim: [(&str, &str, &str, &str); 19] = [("CHAR_BIT", "8", "int", "8"), ("SCHAR_MIN", "(-128)", "signed char", "-128"), ("SCHAR_MAX", "127", "signed char", "127"), ("UCHAR_MAX", "255", "unsigned char", "255"), ("CHAR_MIN", "(-128)", "char", "-128"), ("CHAR_MAX", "127", "char", "127"), ("SHRT_MIN", "(-32768)", "short", "-32768"), ("SHRT_MAX", "32767", "short", "32767"), ("USHRT_MAX", "65535", "unsigned short", "65535"), ("INT_MIN", "(-2147483647 - 1)", "int", "-2147483648"), ("INT_MAX", "2147483647", "int", "2147483647"), ("UINT_MAX", "0xffffffff", "unsigned int", "4294967295"), ("LONG_MIN", "(-9223372036854775807 - 1)", "long", "-9223372036854775807 - 1"), ("LONG_MAX", "9223372036854775807", "long", "9223372036854775807"), ("ULONG_MAX", "0xffffffffffffffff", "unsigned long", "18446744073709551615U"), ("LLONG_MIN", "(-9223372036854775807 - 1)", "long", "-9223372036854775807 - 1"), ("LLONG_MAX", "9223372036854775807", "long", "9223372036854775807"), ("ULLONG_MAX", "0xffffffffffffffff", "unsigned long", "18446744073709551615U"), ("EXIT_SUCCESS", "0", "int", "0")];
    let forms = ["strtol(M); strtol(sizeof(M)); strtol(M < 0); strtol(M > 0); strtol(-1 < M); strtoul(M);", "T v = M; T w; strtol(v); strtol(v == M); w = v; strtol(w); T a[2] = {M, 1}; strtol(a[0] + a[1] * 0);", "strtol(M / 2); strtol(M % 7); strtol(M ^ 1); strtol(M & 255);", "switch (strlen(2000)) { case M: strlen(1); break; default: strlen(2); }", "unsigned T2 v = M; v++; strtol(v); v--; strtol(v);", "long v = M; strtol(v); strtoul(v * 1.0); strtol((T)M); strtol((T)(M));", "strtol(2 * M); strtol(M - 1);", "strtol(1 - M);", "strtol(-M);", "strtol(~M); strtol(!M); strtol(M >> 1);"];
    for (m, e, t, ppv) in lim { for (i, f) in forms.iter().enumerate() {
        if f.contains("T2") && t.contains("signed") { continue; }
        let f = f.replace("T2", t).replace('T', t);
        let h = if m == "EXIT_SUCCESS" { "stdlib.h" } else { "limits.h" };
        let pre = if h == "stdlib.h" { PRE.replace("int strtol(long v);", "int record(long v);") } else { PRE.into() };
        if h == "stdlib.h" { if i == 0 { out(Case::new(format!("C22/limits/{m}"), format!("#include <{h}>\nint printf(char *f, ...);\nint main() {{ int v = {m}; printf(\"%d%d\", {m}, sizeof({m})); return v; }}\n")).refsrc(format!("{}int printf(char *f, ...);\nint main() {{ int v = 0; printf(\"%d%d\", 0, 4); return v; }}\n", header(h)))); } continue; }
        out(Case::new(format!("C22/limits/{m}/{i}"), format!("#include <{h}>\n{pre}int main() {{ {} return 0; }}\n", f.replace('M', m))).refsrc(format!("{pre}int main() {{ {} return 0; }}\n", f.replace('M', e))).opts(&two_));
        if i == 0 { out(Case::new(format!("C22/limits/{m}/if"), format!("#include <{h}>\n{pre}int main() {{\n#if {m} == {ppv} && !({m} < {ppv}) && {m} - 1 < {m}\nstrlen(1);\n#else\nstrlen(2);\n#endif\nreturn 0; }}\n")).refsrc(format!("{pre}int main() {{ strlen({}); return 0; }}\n", if m.ends_with("L_MIN") || m.starts_with("LONG_MIN") || m.starts_with("LLONG_MIN") { "2" } else { "1" }))); }
    } }
    // ---- types of stdint.h and stddef.h
    let mut tys = types(); for (n, t) in [("size_t", "int"), ("ptrdiff_t", "int"), ("wchar_t", "int")] { tys.push((n.into(), t.into())); }
    for (n, t) in &tys { let h = if n == "size_t" || n == "ptrdiff_t" || n == "wchar_t" { "stddef.h" } else { "stdint.h" };
        let b = |t: &str| format!("{t} x; strstr((char *)&x, -{}); strtol(sizeof({t})); strtol(x); strtol(({t})-1 < 0); strtol(({t})70000); strtol(({t})4294967301); {t} *p = &x; p[0] = x ^ 1; strtol(*p); {t} f = 200; f = f + 200; strtol(f);", match t { "signed char" | "int8_t" => 1, _ => 8 });
        let b2 = |s: &str| b(s).replace("strstr((char *)&x, -8)", "x = strlen(5000) - 2").replace("strstr((char *)&x, -1)", "x = strlen(5000) - 2");
        out(Case::new(format!("C22/types/{n}"), format!("#include <{h}>\n{PRE}int main() {{ {} return 0; }}\n", b2(n))).refsrc(format!("{PRE}int main() {{ {} return 0; }}\n", b2(t))).opts(&two_));
        out(Case::new(format!("C22/types2/{n}"), format!("#include \"{h}\"\n{PRE}{n} g = 77;\nstruct S {{ char a; {n} b; }};\n{n} f({n} a, {n} *b) {{ return a + *b; }}\nint main() {{ struct S s; s.b = f(g, &g); strtol(s.b); strtol(sizeof s); for ({n} i = 0; i < 2; i++) strtol(i); return 0; }}\n")).refsrc(format!("{PRE}{t} g = 77;\nstruct S {{ char a; {t} b; }};\n{t} f({t} a, {t} *b) {{ return a + *b; }}\nint main() {{ struct S s; s.b = f(g, &g); strtol(s.b); strtol(sizeof s); for ({t} i = 0; i < 2; i++) strtol(i); return 0; }}\n")));
    }
    for n in ["intptr_t", "uintptr_t"] { out(Case::new(format!("C22/types/{n}"), format!("#include <stdint.h>\n{PRE}int main() {{ int x = 4; {n} a = ({n})&x; int *p = (int *)a; strtol(*p); strtol(sizeof(a) >= sizeof(p)); strtol(({n})-1 < 0); return 0; }}\n")).refsrc(format!("{PRE}int main() {{ int x = 4; {0} long a = ({0} long)&x; int *p = (int *)a; strtol(*p); strtol(1); strtol(({0} long)-1 < 0); return 0; }}\n", if n.starts_with('u') { "unsigned" } else { "signed" }))); }
    // ---- ctype: every function on every character, called in every way
    for (n, _) in CT { for (w, f) in ["int k; for (k = -128; k < 128; k++) strtol(N(k)R);", "char k = -128; do { strtol(N(k)R); } while (k++ != 127);"].iter().enumerate() { let f = f.replace('N', n).replace('R', if n.starts_with("to") { "" } else { " != 0" });
        out(Case::new(format!("C22/ctype/{n}/{w}"), format!("#include <ctype.h>\n{PRE}int main() {{ {f} return 0; }}\n")).refsrc(format!("{}{PRE}int main() {{ {f} return 0; }}\n", header("ctype.h"))).opts(&two_).seeds(&[0, 1])); } }
    // ---- every ordered choice of headers
    let combo = |hs: &[usize], id: String, out: Sink| {
        let inc: String = hs.iter().map(|h| format!("#include <{}>\n", HEADERS[*h])).collect();
        let mut rf = String::new(); let mut seen = vec![]; for h in hs { if !seen.contains(h) { seen.push(*h); rf += &header(HEADERS[*h]); } }
        let pf = if seen.contains(&5) { "" } else { "int printf(const char *f, ...);\n" };
        let us: Vec<_> = seen.iter().map(|h| uses(HEADERS[*h])).collect();
        out(Case::new(id, format!("{inc}{pf}int main() {{ {} return 0; }}\n", us.iter().map(|u| u.0.clone()).collect::<String>())).refsrc(format!("{rf}{pf}int main() {{ {} return 0; }}\n", us.iter().map(|u| u.1.clone()).collect::<String>())));
    };
    for a in 0..8 { combo(&[a], format!("C22/headers/{a}"), out); combo(&[a, a], format!("C22/headers/{a}{a}"), out);
        for b in 0..8 { if a == b { continue; } combo(&[a, b], format!("C22/headers/{a}{b}"), out); combo(&[a, b, a], format!("C22/headers/{a}{b}{a}"), out);
            for c in 0..8 { if c == a || c == b { continue; } combo(&[a, b, c], format!("C22/headers/{a}{b}{c}"), out); } } }
    for r in 0..8usize { let v: Vec<usize> = (0..8).map(|i| (i + r) % 8).collect(); combo(&v, format!("C22/headers/all{r}"), out); let w: Vec<usize> = v.iter().rev().cloned().collect(); combo(&w, format!("C22/headers/rev{r}"), out); let mut d = v.clone(); d.extend(w); combo(&d, format!("C22/headers/dbl{r}"), out); }
    out(Case::new("C22/bool/0", format!("#include <stdbool.h>\n{PRE}int main() {{ bool b = 5; strtol(b); b = 0.5; strtol(b); strtol(sizeof(bool)); return 0; }}\n")).refsrc(format!("{PRE}int main() {{ strtol(1); strtol(1); strtol(1); return 0; }}\n")));
    // ---- the directive in every spelling and place
    let sp = ["#include <limits.h>\n", "#include<limits.h>\n", "#include \"limits.h\"\n", "#include\"limits.h\"\n", "# include <limits.h>\n", "#\tinclude\t<limits.h>\n", "  #include <limits.h>\n", "\t# include <limits.h>\n", "#include   <limits.h>   \n", "#include <limits.h> // c\n", "#include <limits.h> /* c */\n", "/* c */ #include <limits.h>\n", "# /* c */ include /* d */ <limits.h>\n", "#inc\\\nlude <limits.h>\n", "#define H <limits.h>\n#include H\n", "#define H \"limits.h\"\n#include H\n", "#if 1\n#include <limits.h>\n#endif\n", "#ifndef INT_MAX\n#include <limits.h>\n#endif\n", "#if 0\n#include <nothere.h>\n#endif\n#include <limits.h>\n", "#include <limits.h>\n#ifndef INT_MAX\n#include <nothere.h>\n#endif\n", "/*\n#include <nothere.h>\n*/\n#include <limits.h>\n", "// #include <nothere.h>\n#include <limits.h>\n", "#include <limits.h>\n#include <limits.h>\n", "#include <limits.h>\r\n", "#include <limits.h>\n#undef INT_MAX\n#define INT_MAX 2147483647\n", "\n\n\n#include <limits.h>\n\n"];
    for (i, s) in sp.iter().enumerate() {
        let body = "int main() { strtol(INT_MAX); return 0; }\n"; let rb = "int main() { strtol(2147483647); return 0; }\n";
        out(Case::new(format!("C22/spell/{i}/top"), format!("{s}{PRE}{body}")).refsrc(format!("{PRE}{rb}")));
        out(Case::new(format!("C22/spell/{i}/mid"), format!("{PRE}int g = 3;\n{s}{body}")).refsrc(format!("{PRE}int g = 3;\n{rb}")));
        out(Case::new(format!("C22/spell/{i}/in"), format!("{PRE}int main() {{\nint g = 3;\n{s}strtol(INT_MAX); return g; }}\n")).refsrc(format!("{PRE}int main() {{ int g = 3; strtol(2147483647); return g; }}\n")));
        out(Case::new(format!("C22/spell/{i}/last"), format!("{PRE}int main() {{ strtol(3); return 0; }}\n{}", s.trim_end_matches('\n'))).refsrc(format!("{PRE}int main() {{ strtol(3); return 0; }}\n")));
    }
    for (i, (s, b, rb)) in [("", "char *p = \"#include <nothere.h>\"; strtol(p[1]);", "char *p = \"#include <nothere.h>\"; strtol(p[1]);"), ("", "int include = 4; strtol(include);", "int include = 4; strtol(include);"), ("#define INCLUDE <limits.h>\n#define X INT_MAX\n#include INCLUDE\n", "strtol(X);", "strtol(2147483647);"), ("#if 0\n#include <limits.h>\n#endif\n", "int INT_MAX = 5; strtol(INT_MAX);", "int INT_MAX = 5; strtol(INT_MAX);"), ("#ifdef NEVER\n#include <ctype.h>\n#endif\nint isalpha(int x) { return x + 1; }\n", "strtol(isalpha(4));", "strtol(5);"), ("#define _LIMITS_H\n#include <limits.h>\n", "int INT_MAX = 6; strtol(INT_MAX);", "strtol(6);"), ("", "strtol(__LINE__);", "strtol(6);"), ("#include <limits.h>\n#include <stddef.h>\n", "strtol(__LINE__);", "strtol(8);"), ("#include <limits.h>\n\n\n", "\n\nstrtol(__LINE__);", "strtol(11);"), ("", "int linux = 1; int unix = 2; int i386 = 3; int NULL1 = 4; strtol(linux + unix + i386 + NULL1);", "strtol(10);"), ("#line 40\n", "strtol(__LINE__);", "strtol(40);"), ("", "strtol(__STDC__);", "strtol(1);")].iter().enumerate() {
        out(Case::new(format!("C22/place/{i}"), format!("{PRE}{s}int main() {{ {b} return 0; }}\n")).refsrc(prog("", rb)));
    }
    for (i, s) in ["#include <nothere.h>\n", "#include \"nothere.h\"\n", "#include\n", "#include limits.h\n", "#include <limits.h\n", "#include \"limits.h\n", "#error stop\n", "#if\n#endif\n", "#if 1\n", "#endif\n", "#else\n#endif\n", "#if 1\n#else\n#else\n#endif\n", "#ifdef\n#endif\n", "#define\n", "#define 1 2\n", "#define f(x\n", "#undef\n", "#nonsense\n", "/* open", "#if 1 +\n#endif\n", "#define F(a) a\nint x = F(1, 2);\n", "#define F(a, b) a\nint x = F(1);\n", "#include <assert.h>\n", "#include <math.h>\n", "#include <sys/types.h>\n", "#include \"/nonexistent/limits.h\"\n"].iter().enumerate() {
        out(Case::new(format!("C22/bad/{i}"), format!("{s}{}", prog("", ""))).refsrc("int broken(".to_string()).kind(Kind::Reject));
        out(Case::new(format!("C22/badend/{i}"), format!("{}{s}", prog("", ""))).refsrc("int broken(".to_string()).kind(Kind::Reject));
    }
    // ---- headers of the program itself
    let f = |n: &str, s: &str| (n.to_string(), s.to_string());
    for (i, (inc, files, b, rf)) in [("#include \"T.h\"\n", vec![f("T.h", "int one = 1;\n#define TWO 2\n")], "strtol(one + TWO);", "strtol(3);"), ("#include \"my.h\"\n", vec![f("my.h", "int one = 1;\n")], "strtol(one);", "strtol(1);"), ("#include \"a1.h\"\n", vec![f("a1.h", "#include \"b1.h\"\nint one = B;\n"), f("b1.h", "#define B 4\n")], "strtol(one);", "strtol(4);"), ("#include \"T.h\"\n#include \"T.h\"\n", vec![f("T.h", "#ifndef G\n#define G\nint one = 1;\n#endif\n")], "strtol(one);", "strtol(1);"), ("#include \"T.h\"\n", vec![f("T.h", "#include <limits.h>\n#define BIG INT_MAX")], "strtol(BIG);", "strtol(2147483647);"), ("#include \"d/x.h\"\n", vec![f("d/x.h", "int one = 7;")], "strtol(one);", "strtol(7);"), ("#include \"T.h\"\n", vec![f("T.h", "struct S { int a; };\ntypedef struct S ST;\nint get(ST *p) { return p->a; }\n")], "ST s; s.a = 5; strtol(get(&s));", "strtol(5);"), ("#define N 3\n#include \"T.h\"\n", vec![f("T.h", "int arr[N] = {1, 2, 3};\n")], "strtol(sizeof arr + arr[2]);", "strtol(15);"), ("#include \"gen.h\"\n#define K 2\n#include \"gen.h\"\n", vec![f("gen.h", "#ifdef K\nint v2 = 20;\n#else\nint v1 = 10;\n#endif\n")], "strtol(v1 + v2);", "strtol(30);"), ("int v[] = {\n#include \"data.h\"\n};\n", vec![f("data.h", "1, 2, 3,\n4")], "strtol(sizeof v + v[3]);", "strtol(20);")].into_iter().enumerate() {
        out(Case::new(format!("C22/user/{i}"), format!("{PRE}{}int main() {{ {b} return 0; }}\n", inc.replace("T.h", "SELF.h"))).files(files.into_iter().map(|(n, s)| (n.replace("T.h", "SELF.h"), s)).collect()).refsrc(prog("", rf)));
    }
    // ---- every well-formed nesting of conditional directives, and every ill-formed one
    let al = ["T", "#define A\n", "#undef A\n", "#ifdef A\n", "#ifndef A\n", "#if 0\n", "#elif defined(A)\n", "#else\n", "#endif\n", "#if defined A && 1\n"];
    let max = if th { 7 } else { 6 };
    let mut pack: Vec<(String, String)> = vec![]; let mut np = 0; let mut bad = 0;
    for n in 1..=max { super::data::seqs(n, al.len(), &mut |q| {
        // (this group is active, some branch was taken, enclosing active, else seen)
        let mut st: Vec<(bool, bool, bool, bool)> = vec![]; let mut def = false; let mut txt = vec![]; let mut ok = true; let mut t = 0;
        if n > 3 && !q.contains(&0) { return; }
        for k in q { let on = st.last().is_none_or(|s| s.0); match k {
            0 => { t += 1; if on { txt.push(t); } }
            1 => if on { def = true }, 2 => if on { def = false },
            3 | 4 | 5 | 9 => { let c = match k { 3 | 9 => def, 4 => !def, _ => false }; st.push((on && c, c, on, false)); }
            6 => match st.last_mut() { Some(s) if !s.3 => { s.0 = s.2 && !s.1 && def; s.1 |= def; } _ => ok = false },
            7 => match st.last_mut() { Some(s) if !s.3 => { s.0 = s.2 && !s.1; s.1 = true; s.3 = true; } _ => ok = false },
            _ => if st.pop().is_none() { ok = false },
        } if !ok { break; } }
        if !ok || !st.is_empty() {
            if n <= 3 { let mut k = 0; let s: String = q.iter().map(|i| if *i == 0 { k += 1; format!("strlen({k});\n") } else { al[*i].to_string() }).collect(); bad += 1; out(Case::new(format!("C22/condbad/{bad}"), format!("{PRE}int main() {{\n{s}return 0; }}\n")).refsrc("int broken(".to_string()).kind(Kind::Reject)); }
            return;
        }
        if !q.iter().any(|k| *k >= 3) { return; }
        let mut k = 0; let nm = format!("A{}", pack.len());
        let s: String = q.iter().map(|i| if *i == 0 { k += 1; format!("strlen({k});\n") } else { al[*i].replace('A', &nm) }).collect();
        pack.push((s, txt.iter().map(|t| format!("strlen({t}); ")).collect()));
        if pack.len() == 60 { flush(&mut pack, &mut np, out); }
    }); }
    flush(&mut pack, &mut np, out);
    // ---- #if expressions: every operator on small values, undefined names are 0
    let vals = ["0", "1", "2", "(-1)", "UNDEF", "TWO", "0x10", "'a'", "defined(TWO)", "defined UNDEF", "SQ(3)"];
    let val = |v: usize| [0i128, 1, 2, -1, 0, 2, 16, 97, 1, 0, 9][v];
    let mut s = String::new(); let mut r = String::new(); let mut n = 0; let mut pk = 0;
    for (op, _) in BINOPS { for a in 0..vals.len() { for b in 0..vals.len() { let (x, y) = (val(a), val(b));
        if matches!(op, "/" | "%") && y == 0 || matches!(op, "<<" | ">>") && !(0..=16).contains(&y) { continue; }
        let v = match op { "+" => x + y, "-" => x - y, "*" => x * y, "/" => x / y, "%" => x % y, "<<" => x << y, ">>" => x >> y, "&" => x & y, "|" => x | y, "^" => x ^ y, "<" => (x < y) as i128, ">" => (x > y) as i128, "<=" => (x <= y) as i128, ">=" => (x >= y) as i128, "==" => (x == y) as i128, "!=" => (x != y) as i128, "&&" => (x != 0 && y != 0) as i128, _ => (x != 0 || y != 0) as i128 };
        s += &format!("#if ({} {op} {}) == {v}\nstrlen({n});\n#else\nstrlen(99);\n#endif\n", vals[a], vals[b]); r += &format!("strlen({n}); "); n += 1;
        if n == 90 { out(Case::new(format!("C22/ifexpr/{pk}"), format!("#define TWO 2\n#define SQ(x) ((x) * (x))\n{PRE}int main() {{\n{s}return 0; }}\n")).refsrc(prog("", &r))); pk += 1; n = 0; s.clear(); r.clear(); }
    } } }
    // ---- macros
    for (i, (d, b, r)) in [("#define A 3\n", "strtol(A); strtol(A + A);", "strtol(3); strtol(6);"), ("#define A 1 + 2\n", "strtol(A * 3);", "strtol(7);"), ("#define A (1 + 2)\n", "strtol(A * 3);", "strtol(9);"), ("#define SQ(x) x * x\n", "strtol(SQ(1 + 2));", "strtol(5);"), ("#define SQ(x) ((x) * (x))\n", "strtol(SQ(1 + 2)); int i = 2; strtol(SQ(SQ(i)));", "strtol(9); strtol(16);"), ("#define MAX(a, b) ((a) > (b) ? (a) : (b))\n", "strtol(MAX(3, 4)); strtol(MAX(MAX(1, 9), 4)); int i = 3; strtol(MAX(i++, 1)); strtol(i);", "strtol(4); strtol(9); strtol(4); strtol(5);"), ("#define STR(x) #x\n", "char *s = STR(a + \"b\"); strstr(s, 8);", "char *s = \"a + \\\"b\\\"\"; strstr(s, 8);"), ("#define CAT(a, b) a ## b\n", "int xy = 4; strtol(CAT(x, y)); strtol(CAT(1, 2));", "strtol(4); strtol(12);"), ("#define A B\n#define B A\n", "int A = 4; strtol(A); int B = 5; strtol(B);", "int A = 4; strtol(A); int B = 5; strtol(B);"), ("#define F(x) F(x + 1)\n#undef F\nint F(int x) { return x; }\n#define F(x) F((x) + 1)\n", "strtol(F(3));", "strtol(4);"), ("#define A \\\n  5\n", "strtol(A);", "strtol(5);"), ("#define LOOP(n) for (int i = 0; i < n; i++) {\\\n strtol(i); \\\n}\n", "LOOP(2) LOOP(1)", "strtol(0); strtol(1); strtol(0);"), ("#define A 1\n#undef A\n#define A 2\n", "strtol(A);", "strtol(2);"), ("#define A 1\n", "char *s = \"A\"; strtol(s[0]); strtol('A');", "strtol(65); strtol(65);"), ("#define EMPTY\n", "EMPTY strtol(1) EMPTY; EMPTY", "strtol(1);"), ("#define V(f, ...) f(__VA_ARGS__)\nint add(int a, int b) { return a + b; }\n", "strtol(V(add, 3, 4));", "strtol(7);"), ("#define begin {\n#define end }\n", "if (1) begin strtol(1); end", "strtol(1);"), ("#define int long\n", "int x = 1; strtol(sizeof x);", "strtol(8);"), ("#define A() 4\n", "strtol(A()); int A = 5; strtol(A);", "strtol(4); strtol(5);"), ("#define A(x) x\n", "strtol(A((1, 2))); strtol(A(A(3)));", "strtol(2); strtol(3);"), ("#define T struct S\nT { int a; };\n", "T s; s.a = 3; strtol(s.a);", "strtol(3);"), ("#define P printf\n", "P(\"%d\", 3);", "printf(\"%d\", 3);"), ("#define X(n) n,\n#define LIST X(1) X(2) X(3)\nint v[] = { LIST };\n", "strtol(sizeof v / sizeof v[0]); strtol(v[2]);", "strtol(3); strtol(3);"), ("#define X(n) E_ ## n,\nenum { X(a) X(b) E_c };\n", "strtol(E_a + E_b * 10 + E_c * 100);", "strtol(210);"), ("#define M -1\n", "strtol(2-M); strtol(-M);", "strtol(3); strtol(1);"), ("#define PLUS +\n", "int a = 1; strtol(a PLUS+ + 1); strtol(+PLUS a);", "int a = 1; strtol(2 + 0 * a); strtol(1 + 0 * a);"), ("#define NEG(x) -x\n", "int a = 3; strtol(-NEG(a)); strtol(NEG(-a));", "strtol(3); strtol(3);"), ("#define SLASH /\n", "int a = 8; int b = 2; int *p = &b; strtol(a SLASH*p);", "strtol(4);"), ("#define GLUE(a) a a\n", "strtol(GLUE(-) 3); int x = 1; strtol(x + GLUE(+) x);", "strtol(3); strtol(2);"), ("#define E(x) x\n", "int x1 = 5; strtol(E(x1)); strtol(E(1)E()); strtol(4 E(-) 3);", "strtol(5); strtol(1); strtol(1);")].iter().enumerate() {
        if d.contains("define int") { out(Case::new(format!("C22/macro/{i}"), format!("{PRE}{d}long main2() {{ {b} return 0; }}\n#undef int\nint main() {{ main2(); return 0; }}\n")).refsrc(prog("", r))); continue; }
        out(Case::new(format!("C22/macro/{i}"), format!("{PRE}{d}int main() {{ {b} return 0; }}\n")).refsrc(prog("", r)));
    }
    // ---- comments and line splices between and inside the tokens of every feature
    for k in 0..FEATURES.len() { let (g, b) = feature(k, "k"); let p = prog(&g, &b);
        let t: Vec<(&str, String)> = vec![("block", p.replace(' ', "/**/ ")), ("glue", p.replace(", ", "/* , */,/***/").replace("; ", ";/*/ ; */")), ("multi", p.replace("; ", "; /* a\n * b \"' // \n */ ")), ("line", p.replace("; ", "; // c \" ' /* \n")), ("splice", p.replace("int ", "i\\\nnt ").replace("strtol(", "str\\\ntol\\\n(").replace("return", "ret\\\nurn")), ("crlf", p.replace('\n', "\r\n").replace("; ", ";\r\n")), ("star", p.replace("{ ", "{ /****/ ").replace("} ", "} /* **/ ")), ("cont", p.replace("; ", "; // c \\\n still \"comment\n")), ("noeol", p.trim_end().to_string()), ("stray", p.replace("; ", "; /* // */ /* \" */ // */ /*\n"))];
        for (n, q) in t { if n == "line" && (g.contains("//")) { continue; } out(Case::new(format!("C22/comment/{k}/{n}"), q).refsrc(p.clone())); }
    }
    for (i, (b, r)) in [("char *s = \"/* no */\"; strstr(s, 9);", "char *s = \"/* no */\"; strstr(s, 9);"), ("char *s = \"// no\"; strstr(s, 6);", "char *s = \"// no\"; strstr(s, 6);"), ("char c = '\"'; /* \" */ char d = '\\''; strtol(c + d);", "strtol(34 + 39);"), ("char c = '/'; char d = '*'; strtol(c + d); /* '*/", "strtol(47 + 42);"), ("int a = 8; int b = 2; int *p = &b; strtol(a / *p); strtol(a //* c */ 2\n / 4);", "strtol(4); strtol(2);"), ("char *s = \"\\\"/*\"; /* \\*/ strtol(s[1]);", "strtol(47);"), ("strtol(1/* */+/* */2);", "strtol(3);"), ("int/**/x/**/=/**/3;strtol(x);", "strtol(3);"), ("char *s = \"a\\\nb\"; strstr(s, 3);", "char *s = \"ab\"; strstr(s, 3);"), ("strlen(1); // \\\n strlen(2);\n strlen(3);", "strlen(1); strlen(3);"), ("char *s = \"?\\?=\"; strtol(s[0]);", "strtol(63);"), ("strtol(3 /* /* nested? */);", "strtol(3);")].iter().enumerate() {
        out(Case::new(format!("C22/text/{i}"), prog("", b)).refsrc(prog("", r)));
    }
}
fn flush(p: &mut Vec<(String, String)>, np: &mut usize, out: Sink) {
    if p.is_empty() { return; }
    let s: String = p.iter().enumerate().map(|(i, x)| format!("strtol({i});\n{}", x.0)).collect();
    let r: String = p.iter().enumerate().map(|(i, x)| format!("strtol({i}); {}", x.1)).collect();
    out(Case::new(format!("C22/cond/{np}"), format!("{PRE}int main() {{\n{s}return 0; }}\n")).refsrc(prog("", &r)));
    *np += 1; p.clear();
}

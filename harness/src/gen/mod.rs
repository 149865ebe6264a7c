//! The bounded program spaces, one family per property. Every family is a deterministic exhaustive
//! enumeration; nothing in it is sampled.
use crate::comp::Opts;
use crate::driver::{Case, Kind, Sink};
pub mod c01; pub mod c04; pub mod c05; pub mod c08; pub mod data; pub mod opt; pub mod enc; pub mod front; pub mod pp; pub mod prof; pub mod lib; pub mod bad; pub mod cli; pub mod rep; pub mod stor; pub mod big;

pub const PRE: &str = "int strlen(int t);\nint strtol(long v);\nint strtoul(double v);\nint strstr(char *p, int n);\nint printf(char *f, ...);\n";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ty { pub c: &'static str, pub d: i32, pub id: &'static str }
pub const TYS: [Ty; 10] = [
    Ty { c: "char", d: 1, id: "c" }, Ty { c: "unsigned char", d: 2, id: "uc" }, Ty { c: "short", d: 3, id: "s" }, Ty { c: "unsigned short", d: 4, id: "us" },
    Ty { c: "int", d: 5, id: "i" }, Ty { c: "unsigned int", d: 6, id: "u" }, Ty { c: "long", d: 7, id: "l" }, Ty { c: "unsigned long", d: 8, id: "ul" },
    Ty { c: "float", d: 9, id: "f" }, Ty { c: "double", d: 10, id: "d" }];
impl Ty {
    pub fn fp(&self) -> bool { self.d >= 9 }
    /// domain of few values of this type
    pub fn small(&self) -> i32 { self.d + 20 }
    pub fn tiny(&self) -> i32 { self.d + 40 }
}
pub fn ty(id: &str) -> Ty { *TYS.iter().find(|t| t.id == id).unwrap() }
pub const BINOPS: [(&str, &str); 18] = [("+", "add"), ("-", "sub"), ("*", "mul"), ("/", "div"), ("%", "rem"), ("<<", "shl"), (">>", "shr"), ("&", "and"), ("|", "or"), ("^", "xor"), ("<", "lt"), (">", "gt"), ("<=", "le"), (">=", "ge"), ("==", "eq"), ("!=", "ne"), ("&&", "land"), ("||", "lor")];
pub fn int_only(op: &str) -> bool { matches!(op, "%" | "<<" | ">>" | "&" | "|" | "^") }
pub fn int_result(op: &str) -> bool { matches!(op, "<" | ">" | "<=" | ">=" | "==" | "!=" | "&&" | "||") }
/// records the value of `e` for the environment
pub fn rec(e: &str, fp: bool) -> String { if fp { format!("strtoul({e});") } else { format!("strtol({e});") } }
pub fn env(v: &str, d: i32) -> String { format!("strstr((char *)&{v}, -{d});") }
pub fn prog(globals: &str, body: &str) -> String { format!("{PRE}{globals}\nint main() {{ {body} return 0; }}\n") }

pub fn family(p: &str, th: bool, out: Sink) {
    match p {
        "C01" => c01::operators(th, out),
        "C02" => c01::conversions(th, out),
        "C03" => c01::constants(th, out),
        "C04" => { c04::effects(th, out); big::effects(th, out); },
        "C05" => { c05::structured(th, out); big::flow(th, out); },
        "C06" => { c05::switches(th, out); big::switches(th, out); },
        "C07" => { c05::gotos(th, out); big::gotos(th, out); },
        "C08" => { c08::calls(th, out); big::calls(th, out); },
        "C09" => { c08::tailcalls(th, out); big::tails(th, out); },
        "C10" => opt::options(th, out),
        "C11" => { opt::slots(th, out); big::slots(th, out); },
        "C12" => { opt::unreachable(th, out); big::unreachable(th, out); },
        "C17" => enc::encodings(th, out),
        "C18" => { front::structure(th, out); big::structure(th, out); },
        "C19" => front::literals(th, out),
        "C22" => pp::preprocessing(th, out),
        "C20" => bad::illformed(th, out),
        "C21" => rep::repeatable(th, out),
        "C25" => cli::cli(th, out),
        "C23" => lib::library(th, out),
        "C24" => lib::mainargs(th, out),
        "C27" => prof::profiling(th, out),
        "C26" => { front::scopes(th, out); stor::externs(th, out); big::names(th, out); }
        "C13" => { data::pointers(th, out); stor::vlas(th, out); big::pointers(th, out); }
        "C14" => { data::aggregates(th, out); big::aggregates(th, out); },
        "C15" => { data::initialisers(th, out); big::initialisers(th, out); },
        "C16" => { data::globals(th, out); stor::statics(th, out); big::globals(th, out); }
        _ => panic!("unknown property {p}"),
    }
}
pub fn two() -> Vec<Opts> { vec![Opts::DEFAULT, Opts::NONE] }
#[allow(dead_code)]
pub fn reject(id: String, src: String) -> Case { Case::new(id, src).kind(Kind::Reject) }

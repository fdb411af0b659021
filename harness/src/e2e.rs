//! Calling the generator; compiling and running what it wrote, many grammars per compiler run.
use crate::engine::panic_text;
use crate::util::*;
use std::path::Path;
use std::process::Command;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lang {
    Rust,
    Cpp,
}

pub fn infra(msg: &str) -> ! {
    panic!("INFRA: {}", msg)
}

pub fn algorithm(a: &str) -> lapex::ParsingAlgorithm {
    use lapex::ParsingAlgorithm::*;
    match a {
        "ll1" => LL1,
        "lr0" => LR0,
        "lalr" => LALR,
        "lr1" => LR1,
        "glr" => GLR,
        _ => infra(&format!("algorithm {:?}", a)),
    }
}

/// Result of a call of the generator.
#[derive(Clone, Debug, PartialEq)]
pub enum Gen {
    Ok,
    Refused,
    Panicked(String),
}

pub fn generate_text(
    text: &str,
    alg: &str,
    lang: Lang,
    lexer: bool,
    table: bool,
    dir: &Path,
) -> Gen {
    let file = dir.join("grammar.lapex");
    write_file(&file, text);
    generate_file(&file, alg, lang, lexer, table, dir)
}

pub fn generate_file(
    file: &Path,
    alg: &str,
    lang: Lang,
    lexer: bool,
    table: bool,
    dir: &Path,
) -> Gen {
    let a = algorithm(alg);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        lapex::generate(
            lexer,
            a,
            table,
            file,
            dir,
            match lang {
                Lang::Rust => lapex::Language::Rust,
                Lang::Cpp => lapex::Language::Cpp,
            },
            lapex_input_gen::GeneratedLapexInputParser,
        )
        .is_ok()
    }));
    match r {
        Ok(true) => Gen::Ok,
        Ok(false) => Gen::Refused,
        Err(e) => Gen::Panicked(panic_text(&*e)),
    }
}


/// What a driver said about one line of input.
#[derive(Clone, Debug, PartialEq)]
pub enum Line {
    Out(String),
    /// it died or did not come to an end
    Dead(String),
    /// too many deaths before
    Unjudged,
}

/// A module `g<i>` with a function `run(payload, out)`, and the payloads to run it on.
pub struct Unit {
    pub body: String,
    pub lines: Vec<String>,
}

#[derive(Clone, Debug)]
pub enum Built {
    NoCompile(String),
    Out(Vec<Line>),
}

const RUST_DRIVER: &str = r#"
#[derive(Debug)]
pub struct SrcErr(pub usize);
impl std::fmt::Display for SrcErr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "source error {}", self.0) } }
impl std::error::Error for SrcErr {}
pub fn hexs(s: &str) -> String { s.bytes().map(|b| format!("{:02x}", b)).collect() }
pub fn says(text: &str, words: &[String]) -> bool {
    let v: Vec<&str> = text.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
    let first = v.iter().find(|w| words.iter().any(|x| x == *w));
    first == words.first().map(|x| &x[..]).as_ref() && words.iter().all(|x| v.contains(&&x[..]))
}
pub fn ptext(e: &(dyn std::any::Any + Send)) -> String {
    let s = if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "?".into() };
    if s == "DIVERGE" { "diverge".into() } else { format!("panic {}", s.replace('\n', " ").replace('\t', " ")) }
}
fn main() {
    use std::io::Write;
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let first: usize = a[2].parse().unwrap();
    let last: usize = a[3].parse().unwrap();
    let run = move || {
        let mut out = std::io::stdout().lock();
        for (k, l) in text.lines().enumerate() {
            if k < first || k >= last { continue; }
            let (g, p) = l.split_once(' ').unwrap_or((l, ""));
            let mut s = format!("{}\t", k);
            call(g.parse().unwrap(), p, &mut s);
            s.push('\n');
            out.write_all(s.as_bytes()).unwrap();
            out.flush().unwrap();
        }
    };
    std::thread::Builder::new().stack_size(8 << 20).spawn(run).unwrap().join().unwrap();
}
"#;


const CPP_HEAD: &str = r#"
#include <cstdint>
#include <cstring>
#include <functional>
#include <fstream>
#include <iostream>
#include <istream>
#include <memory>
#include <queue>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <exception>
#include <string>
#include <utility>
#include <vector>
struct Diverge {};
static std::vector<unsigned> numbers(const std::string &s) {
    std::vector<unsigned> v; std::istringstream is(s); unsigned x; while (is >> x) v.push_back(x); return v;
}
static std::string clean(std::string s) { for (auto &c : s) if (c == '\n' || c == '\t') c = ' '; return s; }
"#;

const CPP_DRIVER: &str = r#"
int main(int argc, char **argv) {
    std::ifstream f(argv[1]);
    long first = atol(argv[2]), last = atol(argv[3]);
    std::string l;
    for (long k = 0; std::getline(f, l); k++) {
        if (k < first || k >= last) continue;
        size_t sp = l.find(' ');
        std::string p = sp == std::string::npos ? "" : l.substr(sp + 1);
        std::string out = std::to_string(k) + "\t";
        call(atoi(l.c_str()), p, out);
        std::cout << out << "\n" << std::flush;
    }
}
"#;

pub fn rustc(src: &Path, out: &Path) -> Run {
    run(
        Command::new("rustc")
            .args(["--edition", "2021", "-A", "warnings", "-C", "opt-level=0", "-C", "debuginfo=0"])
            .args(["-C", "codegen-units=2", "-o"])
            .arg(out)
            .arg(src),
        &Limits {
            cpu_s: 0,
            as_bytes: 0,
            wall_s: 600,
        },
    )
}

pub fn cxx(src: &Path, out: &Path) -> Run {
    run(
        Command::new("g++")
            .args(["-std=c++17", "-O0", "-w", "-D_GLIBCXX_ASSERTIONS", "-o"])
            .arg(out)
            .arg(src),
        &Limits {
            cpu_s: 0,
            as_bytes: 0,
            wall_s: 600,
        },
    )
}

pub fn first_error(err: &str) -> String {
    let e = strip_ansi(err);
    let i = e.find("error").unwrap_or(0);
    e[i..].lines().take(6).collect::<Vec<_>>().join(" / ")
}

pub fn is_toolchain_trouble(r: &Run) -> bool {
    r.timed_out || r.signal.is_some() || r.err.starts_with("cannot start") || r.err.contains("No space left")
}


/// Runs a driver binary over the lines of a file, restarting behind an input that kills it.
pub fn run_driver(bin: &Path, lines: &[String], dir: &Path) -> Vec<Line> {
    let file = dir.join(format!("{}.txt", bin.file_name().unwrap().to_string_lossy()));
    write_file(&file, &lines.iter().map(|l| format!("{}\n", l)).collect::<String>());
    let mut out: Vec<Line> = vec![Line::Unjudged; lines.len()];
    let mut from = 0;
    let mut deaths = 0;
    let go = |a: usize, b: usize, cpu: u64| {
        run(
            Command::new(bin).arg(&file).arg(a.to_string()).arg(b.to_string()),
            &Limits {
                cpu_s: cpu,
                as_bytes: 3 << 30,
                wall_s: 300,
            },
        )
    };
    let split = |l: &str| -> Option<(usize, String)> {
        let (k, r) = l.split_once('\t')?;
        Some((k.parse().ok()?, r.to_string()))
    };
    while from < lines.len() {
        let r = go(from, lines.len(), 30);
        if r.err.starts_with("cannot start") {
            infra(&r.err);
        }
        let mut upto = from;
        let complete = r.out.rfind('\n').map(|i| &r.out[..i]).unwrap_or("");
        for l in complete.lines() {
            if let Some((k, x)) = split(l) {
                if k < out.len() {
                    out[k] = Line::Out(x);
                    upto = upto.max(k + 1);
                }
            }
        }
        if upto >= lines.len() {
            break;
        }
        // alone once more, with CPU time of its own
        let alone = go(upto, upto + 1, 10);
        match alone.out.lines().next().and_then(split) {
            Some((k, x)) if k == upto && alone.out.ends_with('\n') => out[upto] = Line::Out(x),
            _ => {
                out[upto] = Line::Dead(format!(
                    "exit {:?} signal {:?}{} {}",
                    alone.code,
                    alone.signal,
                    if alone.timed_out { " (wall clock)" } else { "" },
                    alone.err.chars().take(200).collect::<String>()
                ));
                deaths += 1;
            }
        }
        from = upto + 1;
        if deaths > 4 {
            // enough evidence; the rest stays unjudged
            break;
        }
    }
    out
}

/// Compiles all units into one program if that works, else finds out which do not compile.
pub fn build_and_run(lang: Lang, units: &[Option<Unit>], dir: &Path) -> Vec<Option<Built>> {
    let mut out: Vec<Option<Built>> = vec![None; units.len()];
    let live: Vec<usize> = (0..units.len()).filter(|i| units[*i].is_some()).collect();
    build_part(lang, units, &live, dir, &mut out);
    out
}

fn build_part(lang: Lang, units: &[Option<Unit>], live: &[usize], dir: &Path, out: &mut [Option<Built>]) {
    if live.is_empty() {
        return;
    }
    let unit = |i: usize| units[i].as_ref().unwrap();
    let (src, ext) = match lang {
        Lang::Rust => {
            let mut s = String::from("#![allow(warnings)]\n");
            for i in live {
                s.push_str(&unit(*i).body);
            }
            s.push_str("fn call(g: usize, input: &str, out: &mut String) { match g {\n");
            for i in live {
                s.push_str(&format!("  {} => g{}::run(input, out),\n", i, i));
            }
            s.push_str("  _ => unreachable!() } }\n");
            s.push_str(RUST_DRIVER);
            (s, "rs")
        }
        Lang::Cpp => {
            let mut s = String::from(CPP_HEAD);
            for i in live {
                s.push_str(&unit(*i).body);
            }
            s.push_str("static void call(int g, const std::string &input, std::string &out) { switch (g) {\n");
            for i in live {
                s.push_str(&format!("  case {}: g{}::run(input, out); break;\n", i, i));
            }
            s.push_str("  default: abort(); } }\n");
            s.push_str(CPP_DRIVER);
            (s, "cpp")
        }
    };
    let main = dir.join(format!("main{}x{}.{}", live[0], live.len(), ext));
    let bin = dir.join(format!("main{}x{}.bin", live[0], live.len()));
    write_file(&main, &src);
    let r = match lang {
        Lang::Rust => rustc(&main, &bin),
        Lang::Cpp => cxx(&main, &bin),
    };
    if r.code != Some(0) {
        if is_toolchain_trouble(&r) {
            infra(&format!("compiler: {:?} {}", r.signal, r.err));
        }
        if live.len() == 1 {
            out[live[0]] = Some(Built::NoCompile(first_error(&r.err)));
        } else {
            let (a, b) = live.split_at(live.len() / 2);
            build_part(lang, units, a, dir, out);
            build_part(lang, units, b, dir, out);
        }
        return;
    }
    let lines: Vec<String> = live
        .iter()
        .flat_map(|i| unit(*i).lines.iter().map(move |l| format!("{} {}", i, l)))
        .collect();
    let mut rs = run_driver(&bin, &lines, dir).into_iter();
    for i in live {
        let v: Vec<Line> = unit(*i).lines.iter().map(|_| rs.next().unwrap()).collect();
        out[*i] = Some(Built::Out(v));
    }
    let _ = std::fs::remove_file(&bin);
}

//! C21 C30: everything that is generated for a grammar, compiled as it is and used together.
use super::rust_lr::crash;
use crate::ast::*;
use crate::bnf::Bnf;
use crate::checks::cli::taken;
use crate::checks::rust_lr::{one_line, want_for};
use crate::e2e::*;
use crate::e2e_rust::{rust_tok, trait_fns};
use crate::engine::*;
use crate::gens;
use crate::chart;
use crate::truth::too_ambiguous;
use crate::rx::{self, Nfa};
use crate::util::*;
use std::path::Path;
use std::process::Command;

const NAMES: &[&str] = &[
    "self", "Self", "crate", "super", "fn", "type", "match", "impl", "async", "union", "mod", "use", "where", "dyn", "box",
    "class", "int", "auto", "template", "operator", "new", "delete", "this", "namespace", "virtual", "register", "and", "not",
    "NULL", "main", "std", "std_vector", "Vec", "Option", "Some", "None", "Ok", "String", "T", "F", "V", "D", "Parser", "Visitor",
    "Symbol", "state", "TokenType", "ParserError", "Lexer", "LexerError", "parser", "lexer", "tokens", "visitor", "shift", "Reduce",
    "action", "Accept", "terminal", "non_terminal", "NonTerminal", "NonTerminalType", "rule", "Rule0", "rule1", "EndOfFile",
    "a", "A9", "a_9", "x__y", "x___", "x_", "b_b_b", "tk", "TkA", "nt", "NtB", "NT_C", "TK_D", "anon", "anonymous", "enter", "exit_",
    "enter_a", "get_token_name", "uint32_t", "assert", "errno", "EOF_", "END", "stdin", "true", "false", "null", "i8", "u64", "str",
    "z0_0_0", "Q_1", "q_2", "l1l1", "O0", "panic", "vec", "quote", "include", "define", "pragma", "line", "unix", "linux",
    "a_rather_long_name_that_does_not_end_for_quite_some_time_and_then_still_goes_on_a_little_further_0123456789",
];
const TAGS: &[&str] = &[
    "self", "fn", "class", "int", "x_", "x__", "one_1", "A", "a_b_c", "end", "reduce", "shift", "anon1", "T", "type", "loop", "is_2",
    "_x", "then_some_more_of_it_because_tags_may_also_be_long_names_0",
];

/// Names that nothing else in the generated code can have.
fn free(g: &Gram) -> bool {
    let anon = |s: &str| {
        let t: String = s.chars().filter(|c| *c != '_').collect::<String>().to_ascii_lowercase();
        t.strip_prefix("anon").map_or(false, |r| r.starts_with(|c: char| c.is_ascii_digit()))
    };
    gens::distinct_naming(g)
        && !g.nts.iter().any(|n| anon(n))
        && !g.toks.iter().any(|t| ["EOF", "ERR"].contains(&t.name.as_str()))
}

fn rename(g: &mut Gram, rng: &mut Rng) {
    let old = g.clone();
    let mut n: Vec<&str> = NAMES.to_vec();
    rng.shuffle(&mut n);
    for t in g.toks.iter_mut() {
        if rng.chance(2, 3) {
            t.name = n.pop().map(|s| s.into()).unwrap_or(t.name.clone());
        }
    }
    if rng.chance(1, 4) {
        // the same names in both roles
        n = NAMES.to_vec();
        rng.shuffle(&mut n);
    }
    let taken: Vec<String> = g.toks.iter().map(|t| t.name.clone()).collect();
    for t in g.nts.iter_mut() {
        if rng.chance(2, 3) {
            while let Some(s) = n.pop() {
                if !taken.iter().any(|x| x == s) {
                    *t = s.into();
                    break;
                }
            }
        }
    }
    for k in 0..g.nts.len() {
        let mut t: Vec<&str> = TAGS.iter().copied().filter(|t| !t.starts_with('_')).collect();
        rng.shuffle(&mut t);
        if rng.chance(1, 2) {
            for p in g.prods.iter_mut().filter(|p| p.nt == k) {
                if rng.chance(2, 3) {
                    p.tag = t.pop().map(|s| s.to_string());
                }
            }
        }
    }
    if !free(g) {
        for p in g.prods.iter_mut() {
            p.tag = None;
        }
    }
    let both = g.nts.iter().any(|n| g.toks.iter().any(|t| t.name == *n));
    if !free(g) || both {
        *g = old;
    }
}

/// Several grammars behind each other, with tokens of their own.
fn joined(parts: Vec<Gram>) -> Gram {
    let mut o = Gram { toks: vec![], nts: vec!["whole".into()], prods: vec![], entry: 0 };
    let mut row = Vec::new();
    for (k, g) in parts.into_iter().enumerate() {
        let (t0, n0) = (o.toks.len(), o.nts.len());
        for mut t in g.toks {
            t.name = format!("{}_p{}", t.name.trim_end_matches('_'), k);
            o.toks.push(t);
        }
        for n in &g.nts {
            o.nts.push(format!("{}_p{}", n.trim_end_matches('_'), k));
        }
        let shift = |p: &Pat| {
            p.map_syms(&|q| match q {
                Pat::T(t) => Pat::T(t + t0),
                Pat::N(n) => Pat::N(n + n0),
                q => q.clone(),
            })
        };
        for p in &g.prods {
            o.prods.push(Prod { nt: p.nt + n0, tag: p.tag.clone(), pat: shift(&p.pat) });
        }
        row.push(Pat::N(g.entry + n0));
        let sep = o.toks.len();
        o.toks.push(Tok { name: format!("sep{}", k), pat: TokPat::Lit(format!("<{}>", k)), prec: None });
        row.push(Pat::T(sep));
    }
    o.prods.push(Prod { nt: 0, tag: None, pat: Pat::Seq(row) });
    for (i, t) in o.toks.iter_mut().enumerate() {
        if matches!(&t.pat, TokPat::Lit(_)) && !t.name.starts_with("sep") {
            t.pat = TokPat::Lit(format!("{}{}", (b'a' + (i % 26) as u8) as char, i));
        }
        t.prec = None;
    }
    o
}

const PAIRS: &[(&str, &str)] = &[
    ("lr0", "rust"),
    ("lalr", "rust"),
    ("lr1", "rust"),
    ("glr", "rust"),
    ("ll1", "cpp"),
    ("lr0", "cpp"),
    ("lalr", "cpp"),
    ("lr1", "cpp"),
];

pub struct Compiles;

impl Prop for Compiles {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "grammars with names taken from keywords, library and generated identifiers, tags, awkward tokens and up to a hundred rules are generated for every supported pair of language and algorithm; Rust files are compiled as the modules they are with rustc, together with a visitor that implements exactly the functions the grammar calls for, C++ files as translation units of their own with g++ and clang++ and linked with a visitor that overrides exactly those functions; lexer and parser are instantiated together. Non-trivial: a grammar that generates and has at least three productions"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "names that stay distinct in the generated naming, also from generated names (anon<number>, EOF, ERR)",
            "functions of anonymous rules are taken from the generated visitor, which must declare each once",
            "Rust edition 2021; C++17 and C++20",
        ]
    }
    fn pins(&self) -> Vec<Case> {
        let mut v = Vec::new();
        for (alg, lang) in PAIRS {
            let mut g = gens::parse_short("S = A x B y; A = a A; A = b; B = (a b)* (c | d)? e+;");
            g.nts = vec!["Self".into(), "fn".into(), "class".into()];
            if let Some(p) = g.prods.get_mut(1) {
                p.tag = Some("type".into());
            }
            v.push(Case { pin: Some(format!("keywords {} {}", alg, lang)), gram: Some(g.clone()), ..Default::default() }.set("alg", alg).set("lang", lang));
            g.nts = vec!["a_".into(), "a__b".into(), "c___".into()];
            v.push(Case { pin: Some(format!("underscores {} {}", alg, lang)), gram: Some(g), ..Default::default() }.set("alg", alg).set("lang", lang));
            let mut g = gens::parse_short("S = a T b; T = c; U = d U; U = e; W = !;");
            g.toks.push(Tok { name: "spare_token".into(), pat: TokPat::Lit("xx".into()), prec: None });
            v.push(Case { pin: Some(format!("unused {} {}", alg, lang)), gram: Some(g), ..Default::default() }.set("alg", alg).set("lang", lang));
            // more than 255 symbols in a rule, more than 256 tokens
            let n = 300;
            let g = Gram {
                toks: (0..n).map(|i| Tok { name: format!("k{}", i), pat: TokPat::Lit(format!("k{}", i)), prec: None }).collect(),
                nts: vec!["s".into()],
                prods: vec![Prod { nt: 0, tag: None, pat: Pat::Seq((0..n).map(Pat::T).collect()) }],
                entry: 0,
            };
            v.push(Case { pin: Some(format!("wide {} {}", alg, lang)), gram: Some(g), ..Default::default() }.set("alg", alg).set("lang", lang));
            // as many rules, productions, tokens and states
            let cls = if *lang == "cpp" { format!("cpp-{}", alg) } else { alg.to_string() };
            let big = gens::big(&cls, false).into_iter().map(|(n, g, _)| (n.to_string(), g));
            let edges = gens::edges(&cls).into_iter().map(|(n, g, _)| (n, g)).filter(|(n, _)| n.contains("257"));
            for (n, g) in big.chain(edges) {
                v.push(Case { pin: Some(format!("{} {} {}", n, alg, lang)), gram: Some(g), ..Default::default() }.set("alg", alg).set("lang", lang));
            }
        }
        v
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 500 } else { 20_000 },
            chunk: 16,
            min_nontrivial: 200,
            shrink_width: 16,
            shrink_rounds: 30,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: usize, _tier: Tier) -> Case {
        // C++ grammars are built one by one
        let cpp = idx % 4 == 3;
        let (mut g, alg, lang) = loop {
            let t = taken(rng);
            if (t.2 == "cpp") == cpp {
                break t;
            }
        };
        if rng.chance(1, 8) {
            let n = rng.range(2, 7);
            let parts: Vec<Gram> = (0..n).map(|_| gens::useful_gram(rng, want_for(alg))).collect();
            g = joined(parts);
        }
        if rng.chance(1, 6) {
            gens::unreachable(&mut g, rng);
        }
        if rng.chance(4, 5) {
            rename(&mut g, rng);
        }
        if rng.chance(1, 4) {
            g.prods.reverse();
        }
        Case { gram: Some(g), ..Default::default() }.set("alg", alg).set("lang", lang)
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        run_compiles(cases)
    }
    fn smaller(&self, c: &Case) -> Vec<Case> {
        c.smaller()
    }
}

/// The functions of the visitor a grammar calls for.
fn functions(g: &Gram, alg: &str, lang: &str) -> Vec<String> {
    let mut v: Vec<String> = if alg == "ll1" {
        (0..g.nts.len()).flat_map(|n| [format!("enter_{}", g.nts[n]), format!("exit_{}", g.nts[n])]).collect()
    } else {
        (0..g.prods.len()).map(|p| gens::rule_name(g, p, lang == "rust")).collect()
    };
    v.push(if alg == "ll1" { "token".into() } else { "shift".into() });
    v.sort();
    v
}

fn anonymous(f: &str) -> bool {
    f.strip_prefix("reduce_anon").map_or(false, |r| r.starts_with(|c: char| c.is_ascii_digit()))
}

/// Are exactly these functions declared? The names of all of them.
fn declared(g: &Gram, alg: &str, lang: &str, mut have: Vec<String>) -> Result<Vec<String>, String> {
    have.sort();
    for w in have.windows(2) {
        if w[0] == w[1] {
            return Err(format!("{} is declared more than once", w[0]));
        }
    }
    let named: Vec<String> = have.iter().filter(|f| !anonymous(f)).cloned().collect();
    let want = functions(g, alg, lang);
    if let Some(m) = want.iter().find(|f| !named.contains(f)) {
        return Err(format!("{} is not declared; declared are {:?}", m, named));
    }
    if let Some(m) = named.iter().find(|f| !want.contains(f)) {
        return Err(format!("{} is declared, which no production calls for", m));
    }
    Ok(have)
}

fn rust_unit(i: usize, g: &Gram, fns: &[String], glr: bool, skip: Option<usize>, lines: Vec<String>) -> Unit {
    let skip = match skip {
        Some(t) => format!("while let TokenType::{} = t {{ t = lx.next()SKIP; }}", rust_tok(g, t)),
        None => String::new(),
    };
    let mut o = format!("mod g{} {{\n  pub mod tokens;\n  pub mod lexer;\n  pub mod parser;\n", i);
    o.push_str("  use tokens::TokenType;\n  use std::cell::RefCell;\n");
    o.push_str("  struct V<'a> { log: &'a RefCell<String>, n: usize }\n");
    o.push_str("  impl<'a> V<'a> { fn c(&mut self, s: &str) { self.n += 1; if self.n > 100000 { panic!(\"DIVERGE\"); } let mut l = self.log.borrow_mut(); l.push('\\t'); l.push_str(s); } }\n");
    o.push_str("  impl<'a, 's> parser::Visitor<&'s str> for V<'a> {\n");
    for f in fns {
        if f == "shift" {
            o.push_str("    fn shift(&mut self, token: TokenType, data: &'s str) { let s = format!(\"s {:?} {}\", token, crate::hexs(data)); self.c(&s); }\n");
        } else {
            o.push_str(&format!("    fn {}(&mut self) {{ self.c(\"r {}\"); }}\n", f, f));
        }
    }
    o.push_str("  }\n");
    o.push_str("  const _ALL: &[TokenType] = &[TokenType::EndOfFile");
    for t in 0..g.toks.len() {
        o.push_str(&format!(", TokenType::{}", rust_tok(g, t)));
    }
    o.push_str("];\n");
    o.push_str("  pub fn run(input: &str, out: &mut String) {\n");
    o.push_str("    let bytes: Vec<u8> = (0..input.len() / 2).map(|i| u8::from_str_radix(&input[2 * i..2 * i + 2], 16).unwrap()).collect();\n");
    o.push_str("    let text = String::from_utf8(bytes).unwrap();\n");
    o.push_str("    let log = RefCell::new(String::new());\n");
    o.push_str("    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {\n");
    o.push_str("      let mut lx = lexer::Lexer::new(&text);\n      let mut n = 0usize;\n");
    if glr {
        o.push_str("      let next = || -> Result<(TokenType, &str), lexer::LexerError> { n += 1; if n > text.len() + 1000 { panic!(\"DIVERGE\"); } let mut t = lx.next()?; ");
        o.push_str(&skip.replace("SKIP", "?"));
        o.push_str(" Ok((t, lx.slice())) };\n");
        o.push_str("      match parser::Parser::new(next, V { log: &log, n: 0 }).parse() { Ok(()) => \"ok\", Err(parser::ParserError::LexerError { .. }) => \"lexer\", Err(e) => { let e: Box<dyn std::error::Error + '_> = Box::new(e); let _ = e.to_string(); \"parser\" } }\n");
    } else {
        // an error of the lexer comes out as a panic
        o.push_str("      fn lex(r: Result<TokenType, lexer::LexerError>) -> TokenType { match r { Ok(t) => t, Err(e) => { let e: Box<dyn std::error::Error> = Box::new(e); let _ = e.to_string(); std::panic::panic_any(String::from(\"LEXER\")) } } }\n");
        o.push_str("      let next = || { n += 1; if n > text.len() + 1000 { panic!(\"DIVERGE\"); } let mut t = lex(lx.next()); ");
        o.push_str(&skip.replace("lx.next()SKIP", "lex(lx.next())"));
        o.push_str(" (t, lx.slice()) };\n");
        o.push_str("      match parser::Parser::new(next, V { log: &log, n: 0 }).parse() { Ok(()) => \"ok\", Err(e) => { let e: Box<dyn std::error::Error + '_> = Box::new(e); let _ = e.to_string(); \"parser\" } }\n");
    }
    o.push_str("    }));\n    let end = match r { Ok(s) => s.to_string(), Err(e) => { let s = crate::ptext(&*e); if s == \"panic LEXER\" { \"lexer\".to_string() } else { s } } };\n");
    o.push_str("    out.push_str(&end); out.push_str(&log.borrow());\n  }\n}\n");
    Unit { body: o, lines }
}

fn cpp_main(g: &Gram, fns: &[String], skip: Option<usize>) -> String {
    let mut o = String::from("#include \"lexer.h\"\n#include \"parser.h\"\n#include \"parser_impl.h\"\n#include <fstream>\n#include <iostream>\n#include <sstream>\n#include <stdexcept>\n#include <string>\n");
    // the headers once more: they may be included from anywhere
    o.push_str("#include \"visitor.h\"\n#include \"tokens.h\"\n#include \"lexer.h\"\n#include \"parser_impl.h\"\n");
    o.push_str("struct Diverge {};\nstruct V final : parser::Visitor<std::string> { std::string log; int n = 0;\n  void c(const std::string &s) { if (++n > 100000) throw Diverge(); log += s; }\n");
    for f in fns {
        if f == "shift" || f == "token" {
            o.push_str(&format!("  void {}(lexer::TokenType t, std::string d) override {{ c(std::string(\"\\ts \") + lexer::get_token_name(t) + \" \" + d); }}\n", f));
        } else {
            o.push_str(&format!("  void {}() override {{ c(\"\\tr {}\"); }}\n", f, f));
        }
    }
    o.push_str("};\nstatic const lexer::TokenType all[] = {lexer::TokenType::TK_ERR, lexer::TokenType::TK_EOF");
    for t in &g.toks {
        o.push_str(&format!(", lexer::TokenType::TK_{}", t.name));
    }
    let skip = skip.map(|t| format!("while (t == lexer::TokenType::TK_{}) t = lx.next();", g.toks[t].name)).unwrap_or_default();
    o.push_str("};\nstruct LexErr {};\nstatic std::string one(const std::string &text) {\n  std::istringstream in(text);\n  lexer::Lexer lx(in);\n  V v;\n  size_t n = 0;\n");
    o.push_str("  parser::Parser<std::string> p([&]() -> parser::Token<std::string> { if (++n > text.size() + 1000) throw Diverge(); auto t = lx.next(); ");
    o.push_str(&skip);
    o.push_str(" if (t == lexer::TokenType::TK_ERR) throw LexErr(); return {t, std::to_string(lx.start()) + \"-\" + std::to_string(lx.end())}; }, v);\n");
    o.push_str("  std::string end = \"ok\";\n  try { p.parse(); } catch (const std::runtime_error &e) { end = \"parser\"; } catch (const LexErr &) { end = \"lexer\"; } catch (const Diverge &) { end = \"diverge\"; } catch (...) { end = \"panic\"; }\n");
    o.push_str("  return end + v.log;\n}\n");
    o.push_str("int main(int argc, char **argv) {\n  std::string names;\n  for (auto t : all) names += lexer::get_token_name(t);\n  std::ifstream f(argv[1]);\n  long first = std::stol(argv[2]), last = std::stol(argv[3]);\n  std::string l;\n");
    o.push_str("  for (long k = 0; std::getline(f, l); k++) {\n    if (k < first || k >= last) continue;\n    std::string t;\n    for (size_t i = 0; i + 1 < l.size(); i += 2) t += (char)std::stoi(l.substr(i, 2), nullptr, 16);\n    std::cout << k << \"\\t\" << one(t) << \"\\n\" << std::flush;\n  }\n  return names.empty();\n}\n");
    o
}

/// Compiles and links the generated C++ files.
fn cpp_build(dir: &Path, clang: bool) -> Result<(), String> {
    let (cc, std) = if clang { ("clang++", "-std=c++20") } else { ("g++", "-std=c++17") };
    let bin = dir.join("bin");
    let r = run(
        Command::new(cc)
            .args([std, "-O0", "-w", "-o"])
            .arg(&bin)
            .args(["main.cpp", "tokens.cpp", "lexer.cpp", "parser.cpp"].map(|f| dir.join(f))),
        &Limits { cpu_s: 0, as_bytes: 0, wall_s: 600 },
    );
    if r.code == Some(0) {
        return Ok(());
    }
    if is_toolchain_trouble(&r) {
        infra(&format!("compiler: {:?} {}", r.signal, r.err));
    }
    Err(format!("{} {}: {}", cc, std, first_error(&r.err)))
}

fn run_compiles(cases: &[Case]) -> Vec<Outcome> {
    let scratch = Scratch::new("comp");
    let dir = scratch.path();
    let mut units: Vec<Option<Unit>> = Vec::new();
    let mut out = Vec::new();
    for (i, c) in cases.iter().enumerate() {
        units.push(None);
        let g = c.g();
        let (alg, lg) = (c.opt("alg"), c.opt("lang"));
        let mut o = Outcome { evals: 1, ..Default::default() };
        if !free(g) {
            out.push(Outcome::skip("names that do not stay distinct"));
            continue;
        }
        let d = dir.join(format!("g{}", i));
        std::fs::create_dir_all(&d).unwrap();
        let lang = if lg == "cpp" { Lang::Cpp } else { Lang::Rust };
        match generate_text(&g.text(), alg, lang, true, false, &d) {
            Gen::Ok => {}
            r => {
                if let Gen::Panicked(m) = &r {
                    crash(&mut o, g, alg, m);
                }
                o.label(format!("{} {}: refused", alg, lg));
                out.push(o);
                continue;
            }
        }
        o.label(format!("{} {}: generated", alg, lg));
        let what = format!("({} {}) {}", alg, lg, one_line(g));
        o.sample = Some(what.chars().take(400).collect());
        if g.prods.len() >= 3 {
            o.nontrivial.push(hash_bytes(format!("{} {} {}", alg, lg, g.text()).as_bytes()));
        }
        let rules = Bnf::from_gram(g).rules.len();
        if rules >= 40 {
            o.label("forty rules or more".to_string());
        }
        let file = |f: &str| std::fs::read_to_string(d.join(f)).unwrap_or_default();
        let have = match lang {
            Lang::Rust => trait_fns(&file("parser.rs")),
            Lang::Cpp => crate::e2e_cpp::visitor_fns(&file("visitor.h")),
        };
        match declared(g, alg, lg, have) {
            Err(m) => o.fail("visitor", format!("{}: {}", m, what)),
            Ok(fns) => match lang {
                Lang::Rust => units[i] = Some(rust_unit(i, g, &fns, alg == "glr", None, vec![String::new()])),
                Lang::Cpp => {
                    write_file(&d.join("main.cpp"), &cpp_main(g, &fns, None));
                    if let Err(m) = cpp_build(&d, hash_bytes(g.text().as_bytes()) % 3 == 0) {
                        o.fail("compile", format!("{}: {}", m, what));
                    }
                    let _ = std::fs::remove_file(d.join("bin"));
                }
            },
        }
        out.push(o);
    }
    for (i, b) in build_and_run(Lang::Rust, &units, dir).into_iter().enumerate() {
        if let Some(Built::NoCompile(m)) = b {
            let g = cases[i].g();
            out[i].fail("compile", format!("{}: ({} rust) {}", m, cases[i].opt("alg"), one_line(g)));
        }
    }
    out
}

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Compiles), Box::new(Together)]
}

// ---------------------------------------------------------------------------------------------

/// The name of the token a user of the lexer skips.
const SPACE: &str = "blank";

pub struct Together;

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{:02x}", b)).collect()
}

/// A text made of samples of the tokens of a sequence.
fn spelled(g: &Gram, w: &[u16], space: usize, pool: &[char], style: usize, rng: &mut Rng) -> String {
    let mut s = String::new();
    for t in w.iter().map(|t| *t as usize) {
        if t >= g.toks.len() {
            continue;
        }
        let blank = match style {
            0 => false,
            1 => true,
            _ => rng.chance(1, 2),
        };
        if blank && t != space {
            s.push_str(*rng.pick(&[" ", "  ", "\n", " \n "]));
        }
        gens::sample_rx(&gens::tok_rx(&g.toks[t]), rng, pool, &mut s);
    }
    if rng.chance(1, 3) {
        s.push(' ');
    }
    if rng.chance(1, 5) {
        // damage
        let cs: Vec<char> = s.chars().collect();
        let i = rng.below(cs.len() + 1);
        let mut v = cs.clone();
        if rng.chance(1, 2) && i < v.len() {
            v.remove(i);
        } else {
            v.insert(i, *rng.pick(pool));
        }
        s = v.into_iter().collect();
    }
    s.chars().filter(|c| *c != '\0').take(300).collect()
}

impl Prop for Together {
    fn id(&self) -> &'static str {
        "C30"
    }
    fn rule(&self) -> &'static str {
        "grammars with awkward token patterns and a blank token that the caller skips are generated for every supported pair of language and algorithm; the generated lexer feeds the generated parser with texts spelled from sentences, near sentences and damage. Expected: longest-match tokens by the lexer model, then the fixpoint recogniser. Non-trivial: an accepted text of at least four tokens, or a rejected one whose error is the parser's after at least two"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "texts on which a lexer without backtracking may report an error are not judged",
            "tokens matching the empty text, NUL, precedence ties and cyclic or hidden left-recursive GLR grammars excluded",
        ]
    }
    fn pins(&self) -> Vec<Case> {
        let mut v = Vec::new();
        for (alg, lang) in PAIRS {
            let mut g = read_gram("token num = /[0-9]+/; token id = /[a-z]+/; token if_ = \"if\"; token eq = \"=\"; token eqeq = \"==\"; token lp = \"(\"; token rp = \")\"; token semi = \";\"; token blank = /[ \\n]+/; entry p; prod p = s r; prod r = s r; prod r = !; prod s = if_ lp e rp s; prod s = id eq e semi; prod e = v t; prod t = eqeq v; prod t = !; prod v = num; prod v = id;").unwrap();
            if *alg == "lr0" {
                g = read_gram("token num = /[0-9]+/; token id = /[a-z]+/; token if_ = \"if\"; token eq = \"=\"; token eqeq = \"==\"; token lp = \"(\"; token rp = \")\"; token semi = \";\"; token blank = /[ \\n]+/; entry p; prod p = p s; prod p = s; prod s = if_ lp e rp s; prod s = id eq e semi; prod e = e eqeq v; prod e = v; prod v = num; prod v = id;").unwrap();
            }
            let texts: Vec<Vec<u8>> = ["", "a=1;", "if(a==2)b = c;", "if (iff == if) x = 1;", "iff=1;if(1)y=z;", "a==1;", "a=b==c;", "a=1", "a = 1 ;\n b = a;\n", "a=?;", "a=1;?", "?", "if a"].iter().map(|s| s.as_bytes().to_vec()).collect();
            v.push(Case { pin: Some(format!("statements {} {}", alg, lang)), gram: Some(g), texts, ..Default::default() }.set("alg", alg).set("lang", lang));
        }
        v
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 400 } else { 16_000 },
            chunk: 16,
            min_nontrivial: 120,
            shrink_width: 16,
            shrink_rounds: 40,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: usize, _tier: Tier) -> Case {
        let cpp = idx % 4 == 3;
        let (mut g, alg, lang) = loop {
            let t = taken(rng);
            if (t.2 == "cpp") == cpp {
                break t;
            }
        };
        if rng.chance(1, 2) {
            // ordinary tokens
            let pats = ["[0-9]+", "[a-z]+", "if", "==?", "\\(", "\\)", "[0-9]+\\.[0-9]+", "\"([^\"\\n]|\"\")*\"", "else", "é+", "<|<=|>", "[A-Z][a-z]*", "-", "--", "->", "\\.\\.\\."];
            let mut ix: Vec<usize> = (0..pats.len()).collect();
            rng.shuffle(&mut ix);
            let n = g.toks.len() as u32;
            for (k, t) in g.toks.iter_mut().enumerate() {
                if let Some(r) = ix.get(k).and_then(|i| crate::rx::Rx::parse(pats[*i])) {
                    t.pat = TokPat::Re(r);
                    t.prec = Some(n - k as u32);
                }
            }
        }
        if !g.toks.iter().any(|t| t.name == SPACE) {
            let prec = if g.toks.iter().any(|t| t.prec.is_some()) { Some(0) } else { None };
            g.toks.push(Tok { name: SPACE.into(), pat: TokPat::Re(crate::rx::Rx::parse("[ \\n]+").unwrap()), prec });
        }
        let space = g.toks.iter().position(|t| t.name == SPACE).unwrap();
        let pool = gens::text_pool(&g.toks, rng);
        let style = rng.below(3);
        let ws = crate::checks::rust_lr::toks_for(rng, &g, alg, 60, crate::checks::rust_lr::What::Errors);
        let heavy = if alg == "glr" { too_ambiguous(&g, &ws) } else { vec![false; ws.len()] };
        let ws: Vec<&Vec<u16>> = ws.iter().zip(heavy).filter(|x| !x.1).map(|x| x.0).collect();
        let mut texts: Vec<Vec<u8>> = ws.iter().map(|w| spelled(&g, w, space, &pool, style, rng).into_bytes()).collect();
        if alg == "glr" {
            texts.retain(|t| t.len() < 40);
        }
        texts.sort();
        texts.dedup();
        Case { gram: Some(g), texts, ..Default::default() }.set("alg", alg).set("lang", lang)
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        run_together(cases)
    }
    fn smaller(&self, c: &Case) -> Vec<Case> {
        c.smaller()
    }
}

/// Tokens of a text with their places in characters, and whether it ends in an error; nothing if that is open.
fn tokens_of(g: &Gram, nfa: &Nfa, weights: &[usize], space: Option<usize>, cs: &[char]) -> Option<(Vec<(u16, usize, usize)>, bool)> {
    let mut v = Vec::new();
    let mut at = 0;
    let _ = g;
    while at < cs.len() {
        let m = rx::munch(nfa, &cs[at..]);
        let Some((len, of)) = m.best else { return Some((v, true)) };
        if len < m.read {
            return None;
        }
        let top = of.iter().map(|t| weights[*t]).max().unwrap();
        let best: Vec<usize> = of.into_iter().filter(|t| weights[*t] == top).collect();
        if best.len() != 1 {
            return None;
        }
        if Some(best[0]) != space {
            v.push((best[0] as u16, at, at + len));
        }
        at += len;
    }
    Some((v, false))
}

fn run_together(cases: &[Case]) -> Vec<Outcome> {
    let scratch = Scratch::new("pipe");
    let dir = scratch.path();
    let mut units: Vec<Option<Unit>> = Vec::new();
    let mut lines: Vec<Option<Vec<Line>>> = vec![None; cases.len()];
    let mut out: Vec<Outcome> = Vec::new();
    for (i, c) in cases.iter().enumerate() {
        units.push(None);
        let g = c.g();
        let (alg, lg) = (c.opt("alg"), c.opt("lang"));
        if !free(g) || !crate::checks::lexers::lexable(g) {
            out.push(Outcome::skip("unfit tokens or names"));
            continue;
        }
        if alg == "glr" && Bnf::from_gram(g).cyclic_or_hidden_left() {
            out.push(Outcome::skip("cyclic grammar"));
            continue;
        }
        let mut o = Outcome::default();
        let d = dir.join(format!("g{}", i));
        std::fs::create_dir_all(&d).unwrap();
        let lang = if lg == "cpp" { Lang::Cpp } else { Lang::Rust };
        let r = generate_text(&g.text(), alg, lang, true, false, &d);
        if r != Gen::Ok {
            if let Gen::Panicked(m) = &r {
                crash(&mut o, g, alg, m);
            }
            o.label(format!("{} {}: refused", alg, lg));
            out.push(o);
            continue;
        }
        o.label(format!("{} {}: generated", alg, lg));
        let file = |f: &str| std::fs::read_to_string(d.join(f)).unwrap_or_default();
        let space = g.toks.iter().position(|t| t.name == SPACE);
        let ls: Vec<String> = c.texts.iter().map(|t| hex(t)).collect();
        match lang {
            Lang::Rust => units[i] = Some(rust_unit(i, g, &trait_fns(&file("parser.rs")), alg == "glr", space, ls)),
            Lang::Cpp => {
                write_file(&d.join("main.cpp"), &cpp_main(g, &crate::e2e_cpp::visitor_fns(&file("visitor.h")), space));
                match cpp_build(&d, false) {
                    Err(m) => o.fail("compile", format!("{}: ({} cpp) {}", m, alg, one_line(g))),
                    Ok(()) => lines[i] = Some(run_driver(&d.join("bin"), &ls, &d)),
                }
                let _ = std::fs::remove_file(d.join("bin"));
            }
        }
        out.push(o);
    }
    for (i, b) in build_and_run(Lang::Rust, &units, dir).into_iter().enumerate() {
        match b {
            Some(Built::NoCompile(m)) => {
                let m = format!("{}: ({} rust) {}", m, cases[i].opt("alg"), one_line(cases[i].g()));
                out[i].fail("compile", m)
            }
            Some(Built::Out(v)) => lines[i] = Some(v),
            None => {}
        }
    }
    for (i, l) in lines.iter().enumerate() {
        if let Some(l) = l {
            judge_together(&cases[i], l, &mut out[i]);
        }
    }
    out
}

fn judge_together(c: &Case, lines: &[Line], o: &mut Outcome) {
    let g = c.g();
    let (alg, lg) = (c.opt("alg"), c.opt("lang"));
    let rs: Vec<rx::Rx> = g.toks.iter().map(gens::tok_rx).collect();
    let nfa = Nfa::new(&rs);
    let weights: Vec<usize> = g.toks.iter().map(gens::tok_weight).collect();
    let space = g.toks.iter().position(|t| t.name == SPACE);
    let names: Vec<String> = (0..g.toks.len()).map(|t| if lg == "cpp" { cpp_tok(g, t) } else { rust_tok(g, t) }).collect();
    for (t, l) in c.texts.iter().zip(lines) {
        let Ok(text) = std::str::from_utf8(t) else { continue };
        if text.contains('\0') {
            continue;
        }
        let what = format!("({} {}) {:?} with {} {}", alg, lg, text, crate::checks::lexers::toks_line(g), one_line(g));
        let cs: Vec<char> = text.chars().collect();
        let Some((toks, broken)) = tokens_of(g, &nfa, &weights, space, &cs) else {
            o.label("texts left open");
            continue;
        };
        let w: Vec<u16> = toks.iter().map(|t| t.0).collect();
        let s = match l {
            Line::Out(s) => s,
            Line::Unjudged => continue,
            Line::Dead(_) if alg == "glr" && too_ambiguous(g, &[w.clone()])[0] => {
                o.label("texts left open");
                continue;
            }
            Line::Dead(m) => {
                o.fail("dead", format!("{}: {}", m, what));
                continue;
            }
        };
        o.evals += 1;
        let at = chart::error_at(g, &w);
        // the parser's error comes first if the tokens before the lexer's are impossible already
        let bad = at.filter(|k| *k < w.len());
        let want = if bad.is_some() {
            "parser"
        } else if broken {
            "lexer"
        } else if at.is_none() {
            "ok"
        } else {
            "parser"
        };
        let mut f = s.split('\t');
        let end = f.next().unwrap_or("");
        if end != want {
            o.fail("result", format!("{:?} instead of {:?}: {}", end, want, what));
            continue;
        }
        let mut shifts: Vec<&str> = f.filter_map(|e| e.strip_prefix("s ")).collect();
        let expect: Vec<String> = toks
            .iter()
            .map(|(t, a, b)| {
                let d = if lg == "cpp" {
                    format!("{}-{}", a, b)
                } else {
                    hex(cs[*a..*b].iter().collect::<String>().as_bytes())
                };
                format!("{} {}", names[*t as usize], d)
            })
            .collect();
        let n = bad.unwrap_or(w.len());
        if alg == "ll1" && want == "ok" && shifts.len() == n + 1 {
            // the end of the text
            shifts.pop();
        }
        let fits = if alg == "glr" && want != "ok" { shifts.len() <= n } else { shifts.len() == n };
        if !fits || shifts.iter().zip(&expect).any(|(a, b)| a != b) {
            o.fail("tokens", format!("the visitor saw {:?}, the text holds {:?} ({} of them count): {}", shifts, expect, n, what));
            continue;
        }
        if want == "ok" && w.len() >= 4 || want == "parser" && n >= 2 {
            o.nontrivial.push(hash_bytes(what.as_bytes()));
            o.sample = Some(format!("{}: {}", end, what.chars().take(300).collect::<String>()));
        }
        o.label(format!("texts: {}", want));
    }
}

/// What get_token_name says.
fn cpp_tok(g: &Gram, t: usize) -> String {
    g.toks[t].name.clone()
}

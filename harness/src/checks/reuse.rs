//! C31: parsers and lexers used again, in turns and one within another.
use super::lexers::lexer_case;
use super::rust_lr::{crash, in_domain, one_line, spell, toks_for, want_for, What};
use crate::ast::Gram;
use crate::e2e_cpp::*;
use crate::e2e_rust::*;
use crate::engine::*;
use crate::gens::{self, Want};
use crate::truth::too_ambiguous;
use crate::util::*;
use std::path::Path;

struct Reuse;

const SEP: char = '\u{1}';

/// Each mode runs all words or texts of the history and gives one segment for each.
/// f: every one alone; a: one parser for all of them in a row; n: the first with the others within its token source;
/// s: lexers by turns.
fn rust_parser(i: usize, g: &Gram, fns: &[String], glr: bool) -> String {
    let mut o = format!("mod g{} {{\n", i);
    for f in ["tokens", "parser"] {
        o.push_str(&format!("  pub mod {} {{ include!(\"g{}/{}.rs\"); }}\n", f, i, f));
    }
    o.push_str("  use tokens::TokenType;\n  use std::cell::{Cell, RefCell};\n  use std::panic::{catch_unwind, AssertUnwindSafe};\n");
    o.push_str("  struct V<'a> { log: &'a RefCell<String>, n: &'a Cell<usize>, most: usize }\n");
    o.push_str("  impl<'a> V<'a> { fn c(&mut self, s: &str) { let k = self.n.get() + 1; self.n.set(k); if k > self.most { panic!(\"DIVERGE\"); } let mut l = self.log.borrow_mut(); l.push(' '); l.push_str(s); } }\n");
    o.push_str("  impl<'a> parser::Visitor<usize> for V<'a> {\n");
    for f in fns {
        if f == "shift" {
            o.push_str("    fn shift(&mut self, token: TokenType, data: usize) { let s = format!(\"s:{:?}:{}\", token, data); self.c(&s); }\n");
        } else {
            o.push_str(&format!("    fn {}(&mut self) {{ self.c(\"r:{}\"); }}\n", f, f));
        }
    }
    o.push_str("  }\n  fn tok(w: &[u16], i: usize) -> TokenType { if i > w.len() + 1000 { panic!(\"DIVERGE\"); } if i >= w.len() { return TokenType::EndOfFile; } match w[i] {\n");
    for t in 0..g.toks.len() {
        o.push_str(&format!("    {} => TokenType::{},\n", t, rust_tok(g, t)));
    }
    o.push_str("    _ => TokenType::EndOfFile } }\n");
    let (ok, close) = if glr { ("{ if w.get(i) == Some(&65535) { return Err(crate::SrcErr(i)); } Ok((tok(w, i), i)) }", "") } else { ("(tok(w, i), i)", "") };
    let _ = close;
    // what the parser returns, as text
    o.push_str("  macro_rules! show { ($e:expr) => { match $e { Ok(()) => \"ok\".to_string(), Err(e) => format!(\"error {:?}\", e).replace('\\n', \" \") } } }\n");
    o.push_str("  fn fresh(w: &[u16], inner: &dyn Fn(usize)) -> String {\n");
    o.push_str("    let log = RefCell::new(String::new()); let n = Cell::new(0usize); let at = Cell::new(0usize);\n");
    o.push_str(&format!(
        "    let r = catch_unwind(AssertUnwindSafe(|| {{ let next = || {{ let i = at.get(); at.set(i + 1); inner(i); {} }};\n",
        ok
    ));
    o.push_str("      let mut p = parser::Parser::new(next, V { log: &log, n: &n, most: 100000 }); show!(p.parse()) }));\n");
    o.push_str("    let end = match r { Ok(s) => s, Err(e) => crate::ptext(&*e) };\n    format!(\"{} {}{}\", at.get(), end, log.borrow())\n  }\n");
    o.push_str("  pub fn run(input: &str, out: &mut String) {\n    let (mode, rest) = input.split_at(1);\n");
    o.push_str("    let words: Vec<Vec<u16>> = rest.split('|').map(|w| w.split_whitespace().map(|x| x.parse().unwrap()).collect()).collect();\n");
    o.push_str("    let segs: RefCell<Vec<String>> = RefCell::new(Vec::new());\n    match mode {\n");
    o.push_str("      \"f\" => for w in &words { let s = fresh(w, &|_| ()); segs.borrow_mut().push(s); },\n");
    o.push_str("      \"n\" => { let s = fresh(&words[0], &|i| { let k = 1 + i % (words.len() - 1); let s = fresh(&words[k], &|j| if j == 0 { let s = fresh(&words[(k + 1) % words.len()], &|_| ()); segs.borrow_mut().push(format!(\"{}:{}\", (k + 1) % words.len(), s)); }); segs.borrow_mut().push(format!(\"{}:{}\", k, s)); }); segs.borrow_mut().push(format!(\"0:{}\", s)); }\n");
    o.push_str("      _ => {\n        let cur: Cell<&[u16]> = Cell::new(&[]); let log = RefCell::new(String::new()); let n = Cell::new(0usize); let at = Cell::new(0usize);\n");
    o.push_str(&format!("        let next = || {{ let i = at.get(); at.set(i + 1); let w = cur.get(); {} }};\n", ok));
    o.push_str("        let mut p = parser::Parser::new(next, V { log: &log, n: &n, most: 100000 });\n");
    o.push_str("        for w in &words { cur.set(&w[..]); at.set(0); n.set(0); log.borrow_mut().clear();\n");
    o.push_str("          let r = catch_unwind(AssertUnwindSafe(|| show!(p.parse())));\n          let end = match r { Ok(s) => s, Err(e) => crate::ptext(&*e) };\n");
    o.push_str("          let s = format!(\"{} {}{}\", at.get(), end, log.borrow()); segs.borrow_mut().push(s); }\n      }\n    }\n");
    o.push_str("    out.push_str(&segs.borrow().join(\"\\u{1}\"));\n  }\n}\n");
    o
}

fn cpp_parser(i: usize, g: &Gram, dir: &Path) -> String {
    let mut o = format!("namespace g{} {{\n", i);
    for f in ["tokens.h", "tokens.cpp", "visitor.h", "parser.h", "parser_impl.h", "parser.cpp"] {
        o.push_str(&inline(dir, f));
    }
    let fns = visitor_fns(&std::fs::read_to_string(dir.join("visitor.h")).unwrap_or_default());
    o.push_str("  struct V : parser::Visitor<unsigned> { std::string log; size_t n = 0;\n");
    o.push_str("    void c(const std::string &s) { if (++n > 100000) throw Diverge(); log += ' '; log += s; }\n");
    for f in &fns {
        if f == "shift" || f == "token" {
            o.push_str(&format!(
                "    void {}(lexer::TokenType t, unsigned d) override {{ c(std::string(\"s:\") + lexer::get_token_name(t) + \":\" + std::to_string(d)); }}\n",
                f
            ));
        } else {
            o.push_str(&format!("    void {}() override {{ c(\"r:{}\"); }}\n", f, f));
        }
    }
    o.push_str("  };\n  static lexer::TokenType tok(const std::vector<unsigned> &w, unsigned i) { static const lexer::TokenType toks[] = {");
    for t in &g.toks {
        o.push_str(&format!("lexer::TokenType::TK_{}, ", t.name));
    }
    o.push_str("};\n    if (i > w.size() + 1000) throw Diverge(); return i < w.size() ? toks[w[i]] : lexer::TokenType::TK_EOF; }\n");
    o.push_str("  static std::string go(parser::Parser<unsigned> &p) {\n");
    o.push_str("    try { p.parse(); return \"ok\"; }\n    catch (const std::runtime_error &e) { return \"error \" + clean(e.what()); }\n    catch (const Diverge &) { return \"diverge\"; }\n    catch (...) { return \"panic\"; } }\n");
    o.push_str("  static std::string fresh(const std::vector<unsigned> &w, std::function<void(unsigned)> inner) {\n    V v; unsigned at = 0;\n");
    o.push_str("    auto next = [&]() -> parser::Token<unsigned> { unsigned i = at++; inner(i); return {tok(w, i), i}; };\n");
    o.push_str("    parser::Parser<unsigned> p(next, v); std::string end = go(p);\n    return std::to_string(at) + \" \" + end + v.log; }\n");
    o.push_str("  static void run(const std::string &line, std::string &out) {\n    std::vector<std::vector<unsigned>> words; { std::string s; for (char c : line.substr(1) + \"|\") if (c == '|') { words.push_back(numbers(s)); s.clear(); } else s += c; }\n");
    o.push_str("    std::vector<std::string> segs; size_t n = words.size();\n");
    o.push_str("    if (line[0] == 'f') { for (auto &w : words) segs.push_back(fresh(w, [](unsigned) {})); }\n");
    o.push_str("    else if (line[0] == 'n') { std::string s = fresh(words[0], [&](unsigned i) { size_t k = 1 + i % (n - 1); std::string s = fresh(words[k], [&](unsigned j) { if (j == 0) { size_t m = (k + 1) % n; std::string s = fresh(words[m], [](unsigned) {}); segs.push_back(std::to_string(m) + \":\" + s); } }); segs.push_back(std::to_string(k) + \":\" + s); }); segs.push_back(\"0:\" + s); }\n");
    o.push_str("    else { const std::vector<unsigned> *cur = nullptr; V v; unsigned at = 0;\n      auto next = [&]() -> parser::Token<unsigned> { unsigned i = at++; return {tok(*cur, i), i}; };\n      parser::Parser<unsigned> p(next, v);\n");
    o.push_str("      for (auto &w : words) { cur = &w; at = 0; v.n = 0; v.log.clear(); std::string end = go(p); segs.push_back(std::to_string(at) + \" \" + end + v.log); } }\n");
    o.push_str("    for (size_t k = 0; k < segs.size(); k++) { if (k) out += '\\1'; out += segs[k]; }\n  }\n}\n");
    o
}

fn rust_lexer(i: usize) -> String {
    let mut o = format!("mod g{} {{\n", i);
    for f in ["tokens", "lexer"] {
        o.push_str(&format!("  pub mod {} {{ include!(\"g{}/{}.rs\"); }}\n", f, i, f));
    }
    o.push_str("  use tokens::TokenType;\n");
    // false at its end
    o.push_str("  fn step(lx: &mut lexer::Lexer, o: &mut String) -> bool { match lx.next() { Ok(t) => { let s = lx.span(); o.push_str(&format!(\" {:?}:{}:{}:{}\", t, s.start, s.end, crate::hexs(lx.slice()))); if let TokenType::EndOfFile = t { false } else { true } } Err(_) => { let s = lx.span(); o.push_str(&format!(\" error:{}:{}\", s.start, s.end)); false } } }\n");
    o.push_str("  fn alone(t: &str) -> String { let mut lx = lexer::Lexer::new(t); let mut o = String::new(); let mut k = 0; while step(&mut lx, &mut o) && k < t.len() + 8 { k += 1; } o }\n");
    o.push_str("  pub fn run(input: &str, out: &mut String) {\n    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {\n    let (mode, rest) = input.split_at(1);\n");
    o.push_str("    let texts: Vec<String> = rest.split('|').map(|h| String::from_utf8((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).unwrap()).collect();\n");
    o.push_str("    if mode == \"f\" { return texts.iter().map(|t| alone(t)).collect::<Vec<_>>().join(\"\\u{1}\"); }\n");
    o.push_str("    let mut lx: Vec<lexer::Lexer> = texts.iter().map(|t| lexer::Lexer::new(t)).collect(); let mut os = vec![String::new(); texts.len()]; let mut live: Vec<usize> = (0..texts.len()).collect(); let mut x: u64 = rest.len() as u64; let mut n = rest.len() + 8 * texts.len();\n");
    o.push_str("    while !live.is_empty() && n > 0 { n -= 1; x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let k = (x >> 33) as usize % live.len(); let i = live[k]; if !step(&mut lx[i], &mut os[i]) { live.remove(k); } }\n");
    o.push_str("    os.join(\"\\u{1}\") }));\n    match r { Ok(s) => out.push_str(&s), Err(e) => out.push_str(&crate::ptext(&*e)) }\n  }\n}\n");
    o
}

fn cpp_lexer(i: usize, dir: &Path) -> String {
    let mut o = format!("namespace g{} {{\n", i);
    for f in ["tokens.h", "tokens.cpp", "lexer.h", "lexer.cpp"] {
        o.push_str(&inline(dir, f));
    }
    o.push_str("  static bool step(lexer::Lexer &lx, std::string &o) { auto t = lx.next(); o += std::string(\" \") + lexer::get_token_name(t) + \":\" + std::to_string(lx.start()) + \":\" + std::to_string(lx.end()); return t != lexer::TokenType::TK_ERR && t != lexer::TokenType::TK_EOF; }\n");
    o.push_str("  static std::string alone(const std::string &t) { std::istringstream is(t); lexer::Lexer lx(is); std::string o; size_t k = 0; while (step(lx, o) && k < t.size() + 8) k++; return o; }\n");
    o.push_str("  static void run(const std::string &line, std::string &out) {\n    std::vector<std::string> texts; { std::string s; for (char c : line.substr(1) + \"|\") if (c == '|') { std::string t; for (size_t i = 0; i + 1 < s.size(); i += 2) t += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); texts.push_back(t); s.clear(); } else s += c; }\n");
    o.push_str("    size_t n = texts.size(); std::vector<std::string> os(n);\n");
    o.push_str("    if (line[0] == 'f') { for (size_t i = 0; i < n; i++) os[i] = alone(texts[i]); }\n");
    o.push_str("    else { std::vector<std::unique_ptr<std::istringstream>> is; std::vector<std::unique_ptr<lexer::Lexer>> lx; std::vector<size_t> live; for (size_t i = 0; i < n; i++) { is.emplace_back(new std::istringstream(texts[i])); lx.emplace_back(new lexer::Lexer(*is[i])); live.push_back(i); }\n");
    o.push_str("      uint64_t x = line.size(); size_t left = line.size() + 8 * n; while (!live.empty() && left--) { x = x * 6364136223846793005ull + 1442695040888963407ull; size_t k = (x >> 33) % live.size(), i = live[k]; if (!step(*lx[i], os[i])) live.erase(live.begin() + k); } }\n");
    o.push_str("    for (size_t k = 0; k < n; k++) { if (k) out += '\\1'; out += os[k]; }\n  }\n}\n");
    o
}

fn lang(c: &Case) -> Lang {
    if c.opt("lang") == "cpp" { Lang::Cpp } else { Lang::Rust }
}

fn items(c: &Case) -> String {
    let v: Vec<String> = if c.opt("kind") == "lexer" { c.texts.iter().map(|t| hex(t)).collect() } else { c.toks.iter().map(|w| numbers(w)).collect() };
    v.join("|")
}

fn fit(c: &Case) -> bool {
    if c.opt("kind") == "lexer" {
        super::lexers::lexable(c.g()) && c.texts.len() > 1 && (lang(c) == Lang::Cpp || c.texts.iter().all(|t| std::str::from_utf8(t).is_ok()))
    } else {
        c.toks.len() > 1 && in_domain(c) && (c.alg == "glr" || c.toks.iter().flatten().all(|t| *t != source_error()))
    }
}

fn run_lang(cases: &[Case], ix: &[usize], l: Lang, out: &mut [Option<Outcome>]) {
    let scratch = Scratch::new("re");
    let dir = scratch.path();
    let mut units: Vec<Option<Unit>> = Vec::new();
    for (k, i) in ix.iter().enumerate() {
        let c = &cases[*i];
        let g = c.g();
        let d = dir.join(format!("g{}", k));
        std::fs::create_dir_all(&d).unwrap();
        let lexer = c.opt("kind") == "lexer";
        let alg = if lexer { "lr1" } else { &c.alg };
        let text = if lexer { g.text() } else { g.render(c.num("layout")).0 };
        match generate_text(&text, alg, l, lexer, false, &d) {
            Gen::Ok => {
                let body = match (l, lexer) {
                    (Lang::Rust, true) => rust_lexer(k),
                    (Lang::Cpp, true) => cpp_lexer(k, &d),
                    (Lang::Rust, false) => {
                        let parser = std::fs::read_to_string(d.join("parser.rs")).unwrap_or_default();
                        rust_parser(k, g, &trait_fns(&parser), alg == "glr")
                    }
                    (Lang::Cpp, false) => cpp_parser(k, g, &d),
                };
                let it = items(c);
                let modes: &[&str] = if lexer { &["f", "s"] } else { &["f", "a", "n"] };
                units.push(Some(Unit { body, lines: modes.iter().map(|m| format!("{}{}", m, it)).collect() }));
            }
            x => {
                let mut o = Outcome::default();
                match x {
                    Gen::Panicked(m) if !lexer => crash(&mut o, g, alg, &m),
                    _ => o.label("refused"),
                }
                out[*i] = Some(o);
                units.push(None);
            }
        }
    }
    for (i, b) in ix.iter().zip(build_and_run(l, &units, dir)) {
        if let Some(b) = b {
            out[*i] = Some(judge(&cases[*i], b));
        }
    }
}

fn judge(c: &Case, b: Built) -> Outcome {
    let g = c.g();
    let mut o = Outcome::default();
    let lines = match b {
        Built::NoCompile(m) => {
            o.fail("compile", format!("the generated code does not compile: {}: {}", m, one_line(g)));
            return o;
        }
        Built::Out(l) => l,
    };
    let lexer = c.opt("kind") == "lexer";
    let what = if lexer { format!("{} lexer", c.opt("lang")) } else { format!("{} {} parser", c.opt("lang"), c.alg) };
    let text = |l: &Line| match l {
        Line::Out(s) => Ok(s.split(SEP).map(|s| s.to_string()).collect::<Vec<_>>()),
        Line::Dead(m) => Err(m.clone()),
        Line::Unjudged => Err(String::new()),
    };
    let n = if lexer { c.texts.len() } else { c.toks.len() };
    let input = |k: usize| if lexer { format!("{:?}", String::from_utf8_lossy(&c.texts[k])) } else { spell(g, &c.toks[k]) };
    let alone = match text(&lines[0]) {
        Ok(v) if v.len() == n && !v.iter().any(|s| s.contains("diverge") || s.contains("panic ")) => v,
        // other checks judge what a single use does
        _ => {
            o.label("left to other checks");
            return o;
        }
    };
    o.label(what.clone());
    for (mode, l) in ["again", "nested"].iter().zip(&lines[1..]) {
        let mode = if lexer { "in turns" } else { mode };
        let v = match text(l) {
            Ok(v) => v,
            Err(m) if m.is_empty() => continue,
            Err(m) => {
                o.fail("dead", format!("{} used {} on {}: {}; {}", what, mode, (0..n).map(input).collect::<Vec<_>>().join(" / "), m, one_line(g)));
                return o;
            }
        };
        for (k, s) in v.iter().enumerate() {
            let (k, s) = if mode == "nested" {
                match s.split_once(':').and_then(|(a, b)| Some((a.parse::<usize>().ok()?, b))) {
                    Some(x) => x,
                    None => crate::e2e::infra(&format!("driver output {:?}", s)),
                }
            } else {
                (k, &s[..])
            };
            o.evals += 1;
            if alone.get(k).map(|x| &x[..]) != Some(s) {
                o.fail("differs", format!("a {} used {} does on {} something else than alone: {:?}, alone {:?}; {}", what, mode, input(k.min(n - 1)), cut(s), alone.get(k).map(|s| cut(s)), one_line(g)));
                return o;
            }
        }
        if mode != "nested" && v.len() != n {
            o.fail("differs", format!("a {} used {}: {} results for {} inputs", what, mode, v.len(), n));
            return o;
        }
    }
    let ok = |s: &String| if lexer { !s.contains("error") && !s.contains("TK_ERR") } else { s.split(' ').nth(1) == Some("ok") };
    // one that goes well behind one that does not
    if alone.windows(2).any(|w| !ok(&w[0]) && ok(&w[1]) && w[1].len() > 12) {
        o.nontrivial.push(hash_bytes(format!("{}{}{}", what, g.text(), items(c)).as_bytes()));
        o.sample = Some(format!("{} of {} on {}", what, one_line(g), (0..n.min(4)).map(input).collect::<Vec<_>>().join(" / ")));
    }
    o
}

fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}

/// Some of the words, so that good and bad ones alternate.
fn history(rng: &mut Rng, g: &Gram, all: Vec<Vec<u16>>) -> Vec<Vec<u16>> {
    let mut all: Vec<Vec<u16>> = all.into_iter().filter(|w| w.len() < 60).collect();
    rng.shuffle(&mut all);
    all.truncate(6);
    let mut v = Vec::new();
    for w in all {
        v.push(w);
        if rng.chance(2, 3) {
            let budget = rng.range(1, 9);
            let s = g.sentence(rng, budget);
            if s.len() < 60 {
                v.push(s);
            }
        }
    }
    v
}

const PAIRS: [(&str, &str); 8] = [("lr0", "rust"), ("lalr", "rust"), ("lr1", "rust"), ("glr", "rust"), ("lr0", "cpp"), ("lalr", "cpp"), ("lr1", "cpp"), ("ll1", "cpp")];

impl Prop for Reuse {
    fn id(&self) -> &'static str {
        "C31"
    }
    fn rule(&self) -> &'static str {
        "histories of up to a dozen token sequences or texts are given to one parser called again and again, to parsers run within the token source of another one (two levels deep) and to lexers stepped in random turns; every result, call and token must be as from a new parser or lexer used alone. Non-trivial: a history in which an input that ends in an error is followed by one that ends well"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["what a new parser or lexer does alone is judged by C01, C02 and C05 to C13"]
    }
    fn pins(&self) -> Vec<Case> {
        let mut v = Vec::new();
        for (alg, lang) in PAIRS {
            for s in ["S = a A d; A = b A; A = c;", "S = a S b; S = c;", "S = a (b | c)+ d?;", "S = A b B c; A = a; A = !; B = d; B = !;"] {
                let g = gens::parse_short(s);
                let mut rng = Rng::new(&[hash_bytes(s.as_bytes())]);
                let all = toks_for(&mut rng, &g, alg, 60, What::Language);
                let mut c = Case::of(g.clone()).set("lang", lang);
                c.toks = history(&mut rng, &g, all);
                c.alg = alg.into();
                c.pin = Some(format!("{} {} {}", alg, lang, s));
                v.push(c);
            }
        }
        v
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan { cases: if tier == Tier::Quick { 480 } else { 9600 }, chunk: 20, min_nontrivial: 80, shrink_width: 32, shrink_rounds: 60 }
    }
    fn gen(&self, rng: &mut Rng, idx: usize, _tier: Tier) -> Case {
        if idx % 5 == 4 {
            let cpp = rng.chance(1, 2);
            let mut c = lexer_case(rng, false, 30, cpp);
            rng.shuffle(&mut c.texts);
            c.texts.retain(|t| t.len() < 400);
            c.texts.truncate(8);
            return c.set("kind", "lexer").set("lang", if cpp { "cpp" } else { "rust" });
        }
        let (alg, lang) = *rng.pick(&PAIRS);
        let g = gens::useful_gram(rng, want_for(alg));
        let g = if alg == "glr" && !gens::wanted(&g, Want::Glr) { gens::useful_gram(rng, Want::Glr) } else { g };
        let all = toks_for(rng, &g, alg, 40, What::Errors);
        let mut toks = history(rng, &g, all);
        if alg == "glr" {
            let heavy = too_ambiguous(&g, &toks);
            let mut h = heavy.iter();
            toks.retain(|w| !*h.next().unwrap() && w.len() < 30);
            if rng.chance(1, 2) && !toks.is_empty() {
                let k = rng.below(toks.len());
                let at = rng.below(toks[k].len() + 1);
                toks[k].insert(at, source_error());
            }
        }
        let layout = if rng.chance(1, 3) { rng.below(1000) } else { 0 };
        let mut c = Case::of(g).set("layout", layout).set("lang", lang);
        c.toks = toks;
        c.alg = alg.into();
        c
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        let mut out: Vec<Option<Outcome>> = vec![None; cases.len()];
        for l in [Lang::Rust, Lang::Cpp] {
            let ix: Vec<usize> = (0..cases.len()).filter(|i| lang(&cases[*i]) == l && fit(&cases[*i])).collect();
            run_lang(cases, &ix, l, &mut out);
        }
        out.into_iter().map(|o| o.unwrap_or_else(|| Outcome::skip("not a history of this kind"))).collect()
    }
    fn smaller(&self, c: &Case) -> Vec<Case> {
        let mut v = c.smaller();
        // one input less, or a shorter one
        for k in 0..c.toks.len() {
            let mut d = c.clone();
            d.toks.remove(k);
            v.push(d);
        }
        for k in 0..c.texts.len() {
            let mut d = c.clone();
            d.texts.remove(k);
            v.push(d);
        }
        if c.toks.len() <= 3 {
            for k in 0..c.toks.len() {
                for i in 0..c.toks[k].len() {
                    let mut d = c.clone();
                    d.toks[k].remove(i);
                    v.push(d);
                }
            }
        }
        v
    }
}

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Reuse)]
}

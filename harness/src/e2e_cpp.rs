//! Generated C++ parsers and lexers inside namespaces of a driver.
use crate::ast::Gram;
use crate::e2e_rust::*;
use crate::util::*;
use std::path::Path;

/// Names of the member functions of the visitor class.
pub fn visitor_fns(text: &str) -> Vec<String> {
    text.split("virtual void ")
        .skip(1)
        .map(|l| {
            l.trim_start()
                .chars()
                .take_while(|c| c.is_ascii_alphanumeric() || *c == '_')
                .collect::<String>()
        })
        .filter(|n| !n.is_empty())
        .collect()
}

/// A file's text without its preprocessor lines, so that it can stand in a namespace.
pub fn inline(dir: &Path, file: &str) -> String {
    let t = std::fs::read_to_string(dir.join(file)).unwrap_or_default();
    let mut o = String::new();
    for l in t.lines() {
        if !l.trim_start().starts_with('#') {
            o.push_str(l);
            o.push('\n');
        }
    }
    o
}

fn parser_unit(i: usize, inp: &Input, dir: &Path) -> String {
    let mut o = format!("namespace g{} {{\n", i);
    for f in ["tokens.h", "tokens.cpp", "visitor.h", "parser.h", "parser_impl.h", "parser.cpp"] {
        o.push_str(&inline(dir, f));
    }
    let fns = visitor_fns(&std::fs::read_to_string(dir.join("visitor.h")).unwrap_or_default());
    o.push_str("  static const char *name(lexer::TokenType t) { switch (t) {\n");
    for t in &inp.g.toks {
        o.push_str(&format!("    case lexer::TokenType::TK_{}: return \"{}\";\n", t.name, t.name));
    }
    o.push_str("    case lexer::TokenType::TK_EOF: return \"<EOF>\"; default: return \"?\"; } }\n");
    o.push_str("  struct V : parser::Visitor<unsigned> { std::string log; size_t n = 0, most = 0;\n");
    o.push_str("    void c(const std::string &s) { if (++n > most) throw Diverge(); log += '\\t'; log += s; }\n");
    for f in &fns {
        if f == "shift" || f == "token" {
            o.push_str(&format!(
                "    void {}(lexer::TokenType t, unsigned d) override {{ c(std::string(\"s \") + name(t) + \" \" + std::to_string(d)); }}\n",
                f
            ));
        } else {
            o.push_str(&format!("    void {}() override {{ c(\"r {}\"); }}\n", f, f));
        }
    }
    o.push_str("  };\n");
    o.push_str("  static void run(const std::string &line, std::string &out) {\n");
    o.push_str("    std::vector<unsigned> in = numbers(line); unsigned at = 0; V v; v.most = 100000 + 100 * in.size(); std::string end;\n");
    o.push_str("    static const lexer::TokenType toks[] = {");
    for t in &inp.g.toks {
        o.push_str(&format!("lexer::TokenType::TK_{}, ", t.name));
    }
    o.push_str("};\n    auto next = [&]() -> parser::Token<unsigned> { unsigned i = at++; if (i > in.size() + 1000) throw Diverge();\n");
    o.push_str("      return {i < in.size() ? toks[in[i]] : lexer::TokenType::TK_EOF, i}; };\n");
    o.push_str("    parser::Parser<unsigned> p(next, v);\n");
    o.push_str("    try { p.parse(); end = \"ok\"; }\n");
    o.push_str("    catch (const std::runtime_error &e) { end = \"thrown \" + clean(e.what()); }\n");
    o.push_str("    catch (const Diverge &) { end = \"diverge\"; }\n");
    o.push_str("    catch (const std::exception &e) { end = std::string(\"panic \") + clean(e.what()); }\n");
    o.push_str("    catch (...) { end = \"panic\"; }\n");
    o.push_str("    out += std::to_string(at) + \"\\t\" + end + v.log;\n  }\n}\n");
    o
}

/// Generates, compiles and runs a batch of C++ parsers.
pub fn run_cpp(inputs: &[Input]) -> Vec<Job> {
    let scratch = Scratch::new("cpp");
    let dir = scratch.path();
    let mut jobs: Vec<Option<Job>> = vec![None; inputs.len()];
    let mut units: Vec<Option<Unit>> = Vec::new();
    for (i, inp) in inputs.iter().enumerate() {
        let d = dir.join(format!("g{}", i));
        std::fs::create_dir_all(&d).unwrap();
        match generate_text(&inp.text, inp.alg, Lang::Cpp, false, false, &d) {
            Gen::Ok => units.push(Some(Unit {
                body: parser_unit(i, inp, &d),
                lines: inp.toks.iter().map(|w| numbers(w)).collect(),
            })),
            x => {
                jobs[i] = Some(Job::Gen(x));
                units.push(None)
            }
        }
    }
    for (j, b) in jobs.iter_mut().zip(build_and_run(Lang::Cpp, &units, dir)) {
        if let Some(b) = b {
            *j = Some(job(b));
        }
    }
    jobs.into_iter().map(|j| j.unwrap()).collect()
}

/// What a lexer returned: token name, start, end; per text.
#[derive(Clone, Debug, PartialEq)]
pub struct Lexed {
    pub name: String,
    pub start: usize,
    pub end: usize,
    /// the slice, where the lexer hands it out
    pub slice: Vec<u8>,
}

#[derive(Clone, Debug)]
pub enum LexJob {
    Gen(Gen),
    NoCompile(String),
    /// per text what came back until the third end of file, an error, or trouble
    Ran(Vec<Result<Vec<Lexed>, String>>),
}

pub struct LexInput<'a> {
    pub g: &'a Gram,
    pub text: String,
    pub texts: &'a [Vec<u8>],
}

const FINAL_EOFS: usize = 3;

fn cpp_lexer_unit(i: usize, inp: &LexInput, dir: &Path) -> String {
    let mut o = format!("namespace g{} {{\n", i);
    for f in ["tokens.h", "tokens.cpp", "lexer.h", "lexer.cpp"] {
        o.push_str(&inline(dir, f));
    }
    o.push_str("  static const char *name(lexer::TokenType t) { switch (t) {\n");
    for t in &inp.g.toks {
        o.push_str(&format!("    case lexer::TokenType::TK_{}: return \"{}\";\n", t.name, t.name));
    }
    o.push_str("    case lexer::TokenType::TK_EOF: return \"<EOF>\"; case lexer::TokenType::TK_ERR: return \"<ERR>\"; } return \"?\"; }\n");
    o.push_str("  static void run(const std::string &line, std::string &out) {\n");
    o.push_str("    std::string text; for (size_t i = 0; i + 1 < line.size(); i += 2) text += (char)strtol(line.substr(i, 2).c_str(), nullptr, 16);\n");
    o.push_str("    std::istringstream is(text); lexer::Lexer lx(is); int eofs = 0; out += \"lexed\";\n");
    o.push_str(&format!("    for (size_t k = 0; k < text.size() + 8; k++) {{ auto t = lx.next(); out += std::string(\"\\t\") + name(t) + \" \" + std::to_string(lx.start()) + \" \" + std::to_string(lx.end()) + \" \"; if (t == lexer::TokenType::TK_ERR) break; if (t == lexer::TokenType::TK_EOF && ++eofs == {}) break; }}\n", FINAL_EOFS));
    o.push_str("  }\n}\n");
    o
}

fn rust_lexer_unit(i: usize, inp: &LexInput) -> String {
    let mut o = format!("mod g{} {{\n", i);
    for f in ["tokens", "lexer"] {
        o.push_str(&format!("  pub mod {} {{ include!(\"g{}/{}.rs\"); }}\n", f, i, f));
    }
    o.push_str("  use tokens::TokenType;\n");
    o.push_str("  fn name(t: TokenType) -> &'static str { match t {\n");
    for (k, t) in inp.g.toks.iter().enumerate() {
        o.push_str(&format!("    TokenType::{} => \"{}\",\n", rust_tok(inp.g, k), t.name));
    }
    o.push_str("    _ => \"<EOF>\" } }\n");
    o.push_str("  pub fn run(input: &str, out: &mut String) {\n");
    o.push_str("    let bytes: Vec<u8> = (0..input.len() / 2).map(|i| u8::from_str_radix(&input[2 * i..2 * i + 2], 16).unwrap()).collect();\n");
    o.push_str("    let text = String::from_utf8(bytes).unwrap();\n");
    o.push_str("    out.push_str(\"lexed\");\n");
    o.push_str("    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut o = String::new(); let mut lx = lexer::Lexer::new(&text); let mut eofs = 0;\n");
    o.push_str("      for _ in 0..text.len() + 8 { match lx.next() {\n");
    o.push_str("        Ok(t) => { let s = lx.span(); o.push_str(&format!(\"\\t{} {} {} {}\", name(t), s.start, s.end, crate::hexs(lx.slice()))); if let TokenType::EndOfFile = t { eofs += 1; if eofs == ");
    o.push_str(&FINAL_EOFS.to_string());
    o.push_str(" { break; } } }\n");
    o.push_str("        Err(e) => { let s = lx.span(); let (a, b) = match &e { lexer::LexerError::InvalidChar { bad_ch } => (*bad_ch, *bad_ch), lexer::LexerError::UnexpectedAlphabet { range } => (*range.start(), *range.end()) }; let m = e.to_string(); let m = if m.contains(&a.to_string()) && m.contains(&b.to_string()) { String::new() } else { format!(\"-{}\", m) }; o.push_str(&format!(\"\\t<ERR> {} {} {}\", s.start, s.end, crate::hexs(&format!(\"{}-{}{}\", a, b, m)))); break; } } }\n      o }));\n");
    o.push_str("    match r { Ok(o) => out.push_str(&o), Err(e) => { out.clear(); out.push_str(&crate::ptext(&*e)); } }\n");
    o.push_str("  }\n}\n");
    o
}

fn parse_lexed(l: &Line) -> Result<Vec<Lexed>, String> {
    let s = match l {
        Line::Out(s) => s,
        Line::Dead(m) => return Err(format!("dead {}", m)),
        Line::Unjudged => return Err("unjudged".into()),
    };
    let mut f = s.split('\t');
    if f.next() != Some("lexed") {
        return Err(s.clone());
    }
    f.map(|e| {
        let v: Vec<&str> = e.split(' ').collect();
        if v.len() < 3 {
            return Err(format!("garbled {}", s));
        }
        Ok(Lexed {
            name: v[0].into(),
            start: v[1].parse().map_err(|_| format!("garbled {}", s))?,
            end: v[2].parse().map_err(|_| format!("garbled {}", s))?,
            slice: v.get(3).map(|h| unhex(h)).unwrap_or_default(),
        })
    })
    .collect()
}

/// Generates, compiles and runs a batch of lexers.
pub fn run_lexers(lang: Lang, inputs: &[LexInput]) -> Vec<LexJob> {
    let scratch = Scratch::new("lex");
    let dir = scratch.path();
    let mut jobs: Vec<Option<LexJob>> = vec![None; inputs.len()];
    let mut units: Vec<Option<Unit>> = Vec::new();
    for (i, inp) in inputs.iter().enumerate() {
        let d = dir.join(format!("g{}", i));
        std::fs::create_dir_all(&d).unwrap();
        match generate_text(&inp.text, "lr1", lang, true, false, &d) {
            Gen::Ok => units.push(Some(Unit {
                body: match lang {
                    Lang::Rust => rust_lexer_unit(i, inp),
                    Lang::Cpp => cpp_lexer_unit(i, inp, &d),
                },
                lines: inp.texts.iter().map(|t| hex(t)).collect(),
            })),
            x => {
                jobs[i] = Some(LexJob::Gen(x));
                units.push(None)
            }
        }
    }
    for (j, b) in jobs.iter_mut().zip(build_and_run(lang, &units, dir)) {
        match b {
            Some(Built::NoCompile(m)) => *j = Some(LexJob::NoCompile(m)),
            Some(Built::Out(v)) => *j = Some(LexJob::Ran(v.iter().map(parse_lexed).collect())),
            None => {}
        }
    }
    jobs.into_iter().map(|j| j.unwrap()).collect()
}

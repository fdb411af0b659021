//! Generated Rust parsers and lexers as modules of a driver.
use crate::ast::Gram;
pub use crate::e2e::*;
use crate::truth::too_ambiguous;
use crate::util::*;

/// What the parser did on one input.
#[derive(Clone, Debug, Default)]
pub struct Ran {
    /// tokens fetched
    pub fetched: usize,
    /// ok, unexpected, many, source, panic, diverge, dead
    pub end: String,
    /// rejected token name(s), with data; panic text
    pub got: Vec<String>,
    pub got_data: Vec<usize>,
    pub expected: Vec<Vec<String>>,
    /// `s Name data` or `r name`
    pub log: Vec<Ev>,
    /// the text of an error that does not name the rejected token first and all it expected
    pub mute: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Shift(String, usize),
    Call(String),
}

#[derive(Clone, Debug)]
pub enum Job {
    Gen(Gen),
    NoCompile(String),
    Ran(Vec<Ran>),
}

pub fn camel(name: &str) -> String {
    name.split('_')
        .map(|s| {
            if s.is_empty() {
                return "_".to_string();
            }
            let (h, t) = s.split_at(1);
            format!("{}{}", h.to_ascii_uppercase(), t.to_ascii_lowercase())
        })
        .collect()
}

pub fn rust_tok(g: &Gram, t: usize) -> String {
    format!("Tk{}", camel(&g.toks[t].name))
}

/// Functions of the visitor trait in generated Rust text.
pub fn trait_fns(parser: &str) -> Vec<String> {
    let at = match parser.find("trait Visitor") {
        Some(a) => a,
        None => return vec![],
    };
    let body = &parser[at..];
    let open = body.find('{').unwrap_or(0);
    let mut depth = 0;
    let mut end = body.len();
    for (i, c) in body[open..].char_indices() {
        match c {
            '{' => depth += 1,
            '}' => {
                depth -= 1;
                if depth == 0 {
                    end = open + i;
                    break;
                }
            }
            _ => {}
        }
    }
    let body = &body[open..end];
    let mut v = Vec::new();
    // function headers are `fn name (`
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
    for (i, _) in body.match_indices("fn ") {
        if body[..i].ends_with(word) {
            continue;
        }
        let l = body[i + 3..].trim_start();
        let n: String = l.chars().take_while(|c| word(*c)).collect();
        if !n.is_empty() && l[n.len()..].trim_start().starts_with('(') {
            v.push(n);
        }
    }
    v
}

const SRC_ERR: u16 = 65535;

pub struct Input<'a> {
    pub g: &'a Gram,
    pub text: String,
    pub alg: &'a str,
    /// `SRC_ERR` in an input makes the token source fail there
    pub toks: &'a [Vec<u16>],
}

fn module(i: usize, inp: &Input, fns: &[String], glr: bool) -> String {
    let g = inp.g;
    let mut o = String::new();
    o.push_str(&format!("mod g{} {{\n", i));
    for f in ["tokens", "parser"] {
        o.push_str(&format!("  pub mod {} {{ include!(\"g{}/{}.rs\"); }}\n", f, i, f));
    }
    o.push_str("  use tokens::TokenType;\n  use std::cell::{Cell, RefCell};\n");
    o.push_str("  struct V<'a> { log: &'a RefCell<String>, n: &'a Cell<usize>, most: usize }\n");
    o.push_str("  impl<'a> V<'a> { fn c(&mut self, s: &str) { let k = self.n.get() + 1; self.n.set(k); if k > self.most { panic!(\"DIVERGE\"); } let mut l = self.log.borrow_mut(); l.push('\\t'); l.push_str(s); } }\n");
    o.push_str("  impl<'a> parser::Visitor<usize> for V<'a> {\n");
    for f in fns {
        if f == "shift" {
            o.push_str("    fn shift(&mut self, token: TokenType, data: usize) { let s = format!(\"s {:?} {}\", token, data); self.c(&s); }\n");
        } else {
            o.push_str(&format!("    fn {}(&mut self) {{ self.c(\"r {}\"); }}\n", f, f));
        }
    }
    o.push_str("  }\n");
    o.push_str("  pub fn run(input: &str, out: &mut String) {\n    let input: Vec<u16> = input.split_whitespace().map(|x| x.parse().unwrap()).collect();\n    let input = &input[..];\n");
    o.push_str("    let log = RefCell::new(String::new()); let n = Cell::new(0usize); let at = Cell::new(0usize);\n");
    o.push_str("    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {\n");
    o.push_str("      let next = || { let i = at.get(); at.set(i + 1); if i > input.len() + 1000 { panic!(\"DIVERGE\"); }\n");
    o.push_str("        let t = if i < input.len() { match input[i] {\n");
    for t in 0..g.toks.len() {
        o.push_str(&format!("          {} => TokenType::{},\n", t, rust_tok(g, t)));
    }
    if glr {
        o.push_str("          65535 => return Err(crate::SrcErr(i)),\n");
    }
    o.push_str("          _ => TokenType::EndOfFile } } else { TokenType::EndOfFile };\n");
    o.push_str(if glr { "        Ok((t, i)) };\n" } else { "        (t, i) };\n" });
    o.push_str("      let mut p = parser::Parser::new(next, V { log: &log, n: &n, most: 100000 + 100 * input.len() });\n");
    o.push_str("      match p.parse() { Ok(()) => \"ok\".to_string(), Err(e) => { let text = e.to_string(); let (s, words) = match e {\n");
    let words = "let mut words = vec![format!(\"{:?}\", got)]; words.extend(expected.iter().map(|t| format!(\"{:?}\", t)));";
    if glr {
        o.push_str(&format!("        parser::ParserError::UnexpectedToken {{ got, got_data, expected }} => {{ {} (format!(\"unexpected {{:?}}:{{}}:{{:?}}\", got, got_data, expected), words) }}\n", words));
        o.push_str("        parser::ParserError::UnexpectedTokens { got, expected } => { let mut s = String::from(\"many\"); let mut words = Vec::new(); for ((t, d), e) in got.iter().zip(expected.iter()) { s.push_str(&format!(\" {:?}:{}:{:?}\", t, d, e).replace(\", \", \",\")); words.push(format!(\"{:?}\", t)); words.extend(e.iter().map(|t| format!(\"{:?}\", t))); } if got.len() != expected.len() { s.push_str(\" lengths differ\"); } (s, words) }\n");
        o.push_str("        parser::ParserError::LexerError { inner } => (format!(\"source {}\", inner.0), vec![format!(\"{}\", inner.0)])\n");
    } else {
        o.push_str(&format!("        parser::ParserError::UnexpectedToken {{ got, expected }} => {{ {} (format!(\"unexpected {{:?}}:0:{{:?}}\", got, expected), words) }}\n", words));
    }
    o.push_str("      }; if !crate::says(&text, &words) { log.borrow_mut().push_str(&format!(\"\\tm {}\", text.replace(|c| c == '\\n' || c == '\\t', \" \"))); } s } } }));\n");
    o.push_str("    let end = match r { Ok(s) => s, Err(e) => crate::ptext(&*e) };\n");
    o.push_str("    out.push_str(&format!(\"{}\\t{}\", at.get(), end.replace(\", \", \",\"))); out.push_str(&log.borrow());\n");
    o.push_str("  }\n}\n");
    o
}


/// The text of a driver line about a parser run.
pub fn parse_run(line: &Line) -> Ran {
    let end = |e: &str, m: &str| Ran {
        end: e.into(),
        got: vec![m.to_string()],
        ..Default::default()
    };
    match line {
        Line::Out(s) => parse_line(s).unwrap_or_else(|| end("garbled", s)),
        Line::Dead(m) => end("dead", m),
        Line::Unjudged => end("unjudged", ""),
    }
}

fn parse_line(line: &str) -> Option<Ran> {
    let mut f = line.split('\t');
    let fetched = f.next()?.parse().ok()?;
    let end = f.next()?;
    let (kind, rest) = end.split_once(' ').unwrap_or((end, ""));
    let mut r = Ran {
        fetched,
        end: kind.to_string(),
        ..Default::default()
    };
    match kind {
        "unexpected" | "many" => {
            for p in rest.split(' ').filter(|x| !x.is_empty()) {
                let mut q = p.splitn(3, ':');
                r.got.push(q.next()?.to_string());
                r.got_data.push(q.next().unwrap_or("0").parse().unwrap_or(usize::MAX));
                let e = q.next().unwrap_or("[]").trim_start_matches('[').trim_end_matches(']');
                r.expected
                    .push(e.split(',').filter(|x| !x.is_empty()).map(|s| s.to_string()).collect());
            }
        }
        _ => r.got.push(rest.to_string()),
    }
    for e in f {
        if let Some(n) = e.strip_prefix("r ") {
            r.log.push(Ev::Call(n.to_string()));
        } else if let Some(m) = e.strip_prefix("m ") {
            r.mute = Some(m.to_string());
        } else if let Some(s) = e.strip_prefix("s ") {
            let (n, d) = s.split_once(' ')?;
            r.log.push(Ev::Shift(n.to_string(), d.parse().ok()?));
        }
    }
    Some(r)
}

/// Generates, compiles and runs a batch of parsers.
pub fn run_rust(inputs: &[Input]) -> Vec<Job> {
    let scratch = Scratch::new("rs");
    let dir = scratch.path();
    let mut jobs: Vec<Option<Job>> = vec![None; inputs.len()];
    let mut units: Vec<Option<Unit>> = Vec::new();
    let heavy: Vec<Vec<bool>> = inputs
        .iter()
        .map(|i| if i.alg == "glr" { too_ambiguous(i.g, i.toks) } else { vec![false; i.toks.len()] })
        .collect();
    for (i, inp) in inputs.iter().enumerate() {
        let d = dir.join(format!("g{}", i));
        std::fs::create_dir_all(&d).unwrap();
        match generate_text(&inp.text, inp.alg, Lang::Rust, false, false, &d) {
            Gen::Ok => {
                let parser = std::fs::read_to_string(d.join("parser.rs")).unwrap_or_default();
                units.push(Some(Unit {
                    body: module(i, inp, &trait_fns(&parser), inp.alg == "glr"),
                    lines: inp.toks.iter().zip(&heavy[i]).map(|(w, h)| if *h { String::new() } else { numbers(w) }).collect(),
                }));
            }
            x => {
                jobs[i] = Some(Job::Gen(x));
                units.push(None)
            }
        }
    }
    for ((j, b), h) in jobs.iter_mut().zip(build_and_run(Lang::Rust, &units, dir)).zip(heavy) {
        if let Some(b) = b {
            let mut done = job(b);
            if let Job::Ran(v) = &mut done {
                for (r, _) in v.iter_mut().zip(h).filter(|x| x.1) {
                    *r = Ran { end: "unjudged".into(), ..Default::default() };
                }
            }
            *j = Some(done);
        }
    }
    jobs.into_iter().map(|j| j.unwrap()).collect()
}

pub fn numbers(w: &[u16]) -> String {
    let v: Vec<String> = w.iter().map(|t| t.to_string()).collect();
    v.join(" ")
}

pub fn job(b: Built) -> Job {
    match b {
        Built::NoCompile(m) => Job::NoCompile(m),
        Built::Out(v) => Job::Ran(v.iter().map(parse_run).collect()),
    }
}

pub fn source_error() -> u16 {
    SRC_ERR
}

//! C19 C20 C27 C29: what the command refuses, writes, and does when output fails.
use super::rust_lr::want_for;
use crate::ast::*;
use crate::e2e::*;
use crate::engine::*;
use crate::gens;
use crate::rx::{self, Rx};
use crate::texts;
use crate::util::*;
use std::collections::BTreeMap;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::Command;

const LIM: Limits = Limits { cpu_s: 30, as_bytes: 4 << 30, wall_s: 120 };

pub fn tool() -> Command {
    let mut c = Command::new(std::env::var("LAPEX_CLI").unwrap_or_else(|_| infra("LAPEX_CLI is not set")));
    c.env_remove("RUST_BACKTRACE");
    c
}

pub fn ran(cmd: &mut Command) -> Run {
    let r = run(cmd, &LIM);
    if r.err.starts_with("cannot start") {
        infra(&r.err);
    }
    if r.timed_out {
        infra("the command took more than two minutes of wall time");
    }
    r
}

/// How it ended, in words.
pub fn ending(r: &Run) -> String {
    format!(
        "exit status {:?}{}: {}",
        r.code,
        r.signal.map(|s| format!(" signal {}", s)).unwrap_or_default(),
        strip_ansi(&r.err).trim().replace('\n', " / ").chars().take(400).collect::<String>()
    )
}

/// The files a successful generation has to write, other than the grammar's own.
pub fn files_of(lang: &str, alg: &str, lexer: bool, table: bool) -> Vec<&'static str> {
    let mut v = Vec::new();
    if lang == "cpp" {
        v.extend(["tokens.h", "tokens.cpp", "parser.h", "parser.cpp", "parser_impl.h", "visitor.h"]);
        if lexer {
            v.extend(["lexer.h", "lexer.cpp"]);
        }
    } else {
        v.extend(["tokens.rs", "parser.rs"]);
        if lexer {
            v.push("lexer.rs");
        }
    }
    if table && alg != "ll1" {
        v.push("table");
    }
    v.sort();
    v
}

/// Everything below a directory: relative path and contents (None for a directory).
pub fn snapshot(d: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn go(base: &Path, d: &Path, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let name = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            match std::fs::symlink_metadata(&p) {
                Ok(m) if m.is_dir() => {
                    out.insert(name, None);
                    go(base, &p, out);
                }
                Ok(m) if m.file_type().is_symlink() => {
                    out.insert(name, Some(b"link".to_vec()));
                }
                _ => {
                    out.insert(name, Some(std::fs::read(&p).unwrap_or_default()));
                }
            }
        }
    }
    let mut m = BTreeMap::new();
    go(d, d, &mut m);
    m
}

fn sample(c: &Case) -> String {
    c.text.as_deref().unwrap_or("").chars().take(500).collect()
}

fn pin(name: &str, text: impl Into<String>, opts: &[(&str, &str)]) -> Case {
    let mut c = Case { pin: Some(name.into()), text: Some(text.into()), ..Default::default() };
    for (k, v) in opts {
        c.opts.insert(k.to_string(), v.to_string());
    }
    c
}

/// Texts with a part left out: halves first, then ever smaller parts.
fn smaller_text(c: &Case) -> Vec<Case> {
    let t: Vec<char> = c.text.as_deref().unwrap_or("").chars().collect();
    let mut out: Vec<Case> = texts::without_a_rule(c.text.as_deref().unwrap_or(""))
        .into_iter()
        .map(|t| Case { text: Some(t), ..c.clone() })
        .collect();
    let mut k = t.len() / 2;
    while k > 0 && out.len() < 260 {
        let mut i = 0;
        while i + k <= t.len() && out.len() < 400 {
            let mut d = t.clone();
            d.drain(i..i + k);
            out.push(Case { text: Some(d.into_iter().collect()), ..c.clone() });
            i += k;
        }
        k /= 2;
    }
    out.extend(c.smaller());
    out
}

// ---------------------------------------------------------------------------------------------

#[derive(Debug, PartialEq)]
enum Verdict {
    Good,
    Bad(String),
    Unsure(&'static str),
}

/// Invalid, or in need of more than a finite automaton over texts.
const BAD: &[&str] = &[
    "(", ")", "(a", "a)", "[", "[a", "a{2,1}", "*a", "+a", "?a", "a*?", "a+?", "a??", "a{1,2}?", "(ab)*?c", "^a", "a$", "\\bx",
    "\\Bx", "\\Aa", "a\\z", "(?=a)", "(?!a)", "(?<=a)b", "(?<!a)b", "\\1", "(a)\\1", "[z-a]", "\\p{Foo}", "(?P<n>a)(?P<n>b)", "x{",
    "x{1", "\\x{110000}", "\\q", "a|(b", "(?z)a", "a{99999999999}", "(?m)^a", "a(?:b$|c)", "(|^)a", "[\\b]a(", "a(b|c*?)d",
    "(?U)a*", "\\u{d800}", "\\xZ", "(?P<1>a)", "(?", "(?P<n", "[a-\\d]", "\\pX{", "x(\\b)?y", "(?-u)\\xff", "(?i", "[\\d-z",
];

const GOOD: &[&str] = &[
    "a{2,3}", "(?i)ab", "\\p{Greek}", "\\w+", "[[:alpha:]]", "(?s).", "(?P<n>a)", "(|a)b", "a{0}b", "(?:a|)", "\\d{2,}", "[^a-z]",
    "[a&&[ab]]c", "\\x41", "\\x{1F600}", "\\.\\*\\+\\?", "a|b|cd", "((a))", "[\\]\\[]", "(?x) a b # c", "\\pL\\PN", "[-a]", "[a-]", "[\\w--\\d]",
    "(?i:a)b", "\\t\\n\\r", "[^\\n]*x", "(?P<n>a)(?P<m>b)", "é+", "[α-ω]", "\\u00e9", "(?-i)x", "a{1}", "(a{2}){3}", "\\\\", "[\\\\\\]]",
];

fn verdict(text: &str) -> Verdict {
    if text.contains('\0') {
        return Verdict::Unsure("NUL");
    }
    let rules = match read_raw(text) {
        Ok(r) => r,
        Err(e) => return Verdict::Bad(format!("not well-formed: {}", e)),
    };
    let mut unsure = None;
    for r in &rules {
        if let RawRule::Tok { name, prec, text } = r {
            if prec.map_or(false, |p| p > 65535) {
                unsure = Some("precedence out of range");
            }
            if text.starts_with('/') {
                let body: String = text[1..text.len() - 1].to_string();
                if BAD.contains(&body.as_str()) {
                    return Verdict::Bad(format!("regular expression of {}: {}", name, body));
                }
                if GOOD.contains(&body.as_str()) {
                    continue;
                }
                let sane = match Rx::parse(&body) {
                    Some(r) if r.render() == body => {
                        let mut ok = true;
                        r.visit(&mut |e| match e {
                            Rx::Class { items, .. } => ok &= items.iter().all(|(a, b)| a <= b) && rx::possible(e),
                            Rx::Op(..) => ok &= rx::possible(e),
                            Rx::Rep { min, max, .. } => ok &= *min <= 1000 && max.map_or(true, |m| *min <= m && m <= 1000),
                            _ => {}
                        });
                        ok && !body.is_empty()
                    }
                    _ => false,
                };
                if !sane {
                    unsure = Some("regular expression outside of the model");
                }
            }
        }
    }
    match resolve(&rules) {
        _ if unsure.is_some() => Verdict::Unsure(unsure.unwrap()),
        Ok(_) => Verdict::Good,
        Err(e) => Verdict::Bad(e),
    }
}

pub struct Refusals;

impl Prop for Refusals {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "well-formed grammar texts (as for C16) and the same with one to three mutations: symbols of the format deleted, doubled, swapped, inserted or replaced, rules dropped, doubled or given another's name, names replaced by undefined ones, characters deleted, inserted, replaced or cut off, bytes inserted that are not UTF-8, regular expressions replaced by valid and invalid ones. Our own reader and a fixed list of regular expressions tell which are to be refused; the command is run on each. Non-trivial: a text that is to be refused, or one that was mutated and is still right"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["texts with NUL, precedences above 65535 or a regular expression that is in neither list nor model are not judged (but count as skipped)", "an accepted grammar is run through the GLR generator (but for one pinned case without lexer), which refuses no consistent grammar"]
    }
    fn pins(&self) -> Vec<Case> {
        let a = "token A = \"a\";\n";
        let rust = [("lang", "rust"), ("alg", "glr")];
        let mut v = vec![
            pin("empty file", "", &rust),
            pin("no entry", format!("{}prod s = A;\n", a), &rust),
            pin("two entries", format!("{}entry s;\nentry s;\nprod s = A;\n", a), &rust),
            pin("entry undefined", format!("{}entry t;\nprod s = A;\n", a), &rust),
            pin("entry is a token", format!("{}entry A;\nprod s = A;\n", a), &rust),
            pin("undefined symbol", format!("{}entry s;\nprod s = A B;\n", a), &rust),
            pin("undefined symbol in an unused production", format!("{}entry s;\nprod s = A;\nprod t = (A | B)?;\n", a), &rust),
            pin("token twice", format!("{}{}entry s;\nprod s = A;\n", a, a), &rust),
            pin("token twice, differently", format!("{}token A = \"b\";entry s;\nprod s = A;\n", a), &rust),
            pin("token and production of one name", format!("{}entry s;\nprod s = A;\nprod A = A;\n", a), &rust),
            pin("no token", "entry s;\nprod s = !;\n", &rust),
            pin("empty alternative in a regex", "token A = /(|a)b/;\nentry s;\nprod s = A;\n", &rust),
            pin("escaped line break", "token A = \"a\\\nb\";\nentry s;\nprod s = A;\n", &rust),
            pin("carriage return", "token A = \"a\";\r\nentry s;\nprod s = A;\n", &rust),
            pin("byte order mark", "\u{feff}token A = \"a\";\nentry s;\nprod s = A;\n", &rust),
            pin("no last semicolon", "token A = \"a\";\nentry s;\nprod s = A\n", &rust),
            pin("text behind the end", "token A = \"a\";\nentry s;\nprod s = A;\n;", &rust),
            pin("empty string", "token A = \"\";\nentry s;\nprod s = A;\n", &rust),
            pin("empty production", "token A = \"a\";\nentry s;\nprod s = ;\n", &rust),
            pin("comment", "// hello\ntoken A = \"a\";\nentry s;\nprod s = A;\n", &rust),
            pin("not UTF-8 in a string", "token A = \"a\";\nentry s;\nprod s = A;\n", &[("lang", "rust"), ("alg", "glr"), ("at", "11"), ("bytes", "ff")]),
            pin("not UTF-8 in a regex", "token A = /a/;\nentry s;\nprod s = A;\n", &[("lang", "cpp"), ("alg", "ll1"), ("at", "11"), ("bytes", "e282")]),
            pin("UTF-8 in a string", "token A = \"a\";\nentry s;\nprod s = A;\n", &[("lang", "rust"), ("alg", "glr"), ("at", "11"), ("bytes", "c3a9")]),
            pin("leading zero", "token A [01] = \"a\";\nentry s;\nprod s = A;\n", &rust),
            pin("a long token and its lexer", format!("token A = \"{}\";\nentry s;\nprod s = A;\n", "ab".repeat(4500)), &[("lang", "rust"), ("alg", "glr"), ("lexer", "1")]),
        ];
        for r in BAD.iter().chain(GOOD) {
            v.push(pin(&format!("/{}/", r), format!("token A = /{}/;\nentry s;\nprod s = A;\n", r), &rust));
        }
        v
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 9000 } else { 300_000 },
            chunk: 10,
            min_nontrivial: 2000,
            shrink_width: 64,
            shrink_rounds: 60,
        }
    }
    fn gen(&self, rng: &mut Rng, _idx: usize, _tier: Tier) -> Case {
        let mut g = texts::grammar(rng);
        let mut done = Vec::new();
        if rng.chance(1, 4) {
            // regular expressions beyond the model
            let list = if rng.chance(1, 2) { BAD } else { GOOD };
            let i = rng.below(g.toks.len());
            g.toks[i].pat = TokPat::Raw(rng.pick(list).to_string());
            done.push("regex");
        }
        let mut v = texts::pieces(&g, 1, rng);
        let n = if !done.is_empty() || rng.chance(1, 8) { 0 } else { 1 + rng.below(6) / 3 + rng.below(8) / 7 };
        let mut chars = 0;
        let names: Vec<String> = g.toks.iter().map(|t| t.name.clone()).chain(g.nts.iter().cloned()).collect();
        for _ in 0..n {
            let i = rng.below(v.len());
            let j = rng.below(v[i].len().max(1));
            let k = rng.below(v.len());
            match rng.below(14) {
                0 if !v[i].is_empty() => {
                    v[i].remove(j);
                    done.push("symbol deleted");
                }
                1 if !v[i].is_empty() => {
                    let p = v[i][j].clone();
                    v[i].insert(j, p);
                    done.push("symbol doubled");
                }
                2 if v[i].len() > 1 => {
                    let m = rng.below(v[i].len() - 1);
                    v[i].swap(m, m + 1);
                    done.push("symbols swapped");
                }
                3 | 4 if !v[i].is_empty() => {
                    let p = *rng.pick(&[
                        "=", ";", "(", ")", "[", "]", "?", "!", "*", "+", "|", "token", "entry", "prod", "x", "0", "7", "65535", "\"a\"", "/a/",
                        "undefined", "\"", "/", "-", "_", "é", "{", "}", "'a'", ":", ",", "//", "<", "\r", "00", "9a", "a-b", "Token",
                    ]);
                    if rng.chance(1, 2) {
                        v[i][j] = p.into();
                    } else {
                        v[i].insert(j, p.into());
                    }
                    done.push("symbol inserted");
                }
                5 if v.len() > 1 => {
                    v.remove(i);
                    done.push("rule dropped");
                }
                6 => {
                    let r = v[i].clone();
                    v.insert(k, r);
                    done.push("rule doubled");
                }
                7 | 8 if v[i].len() > 1 && v[k].len() > 1 => {
                    // one rule takes the name of another
                    v[i][1] = v[k][1].clone();
                    done.push("name taken over");
                }
                9 | 10 => {
                    // a name where it is used or defined
                    let spots: Vec<usize> = (1..v[i].len()).filter(|x| names.contains(&v[i][*x])).collect();
                    if !spots.is_empty() {
                        let x = *rng.pick(&spots);
                        v[i][x] = match rng.below(4) {
                            0 => "undefined".into(),
                            1 => format!("{}x", v[i][x]),
                            2 => v[i][x].to_uppercase(),
                            _ => rng.pick(&names).clone(),
                        };
                        done.push("name replaced");
                    }
                }
                11 => {
                    v.swap(i, k);
                    done.push("rules swapped");
                }
                _ => chars += 1,
            }
        }
        v.retain(|r| !r.is_empty());
        let mut t = if rng.chance(1, 3) {
            // one rule per line
            v.iter().map(|r| r.join(" ") + "\n").collect()
        } else {
            texts::lay_out(&v, rng)
        };
        for _ in 0..chars {
            let mut cs: Vec<char> = t.chars().collect();
            if cs.is_empty() {
                break;
            }
            let i = rng.below(cs.len());
            let c = *rng.pick(&[
                ';', '=', '(', ')', '[', ']', '?', '!', '*', '+', '|', ' ', '\n', '\t', '\r', '"', '/', '\\', 'a', 'Z', '_', '0', '9', 'é', '😀', '\u{a0}',
                '\u{2028}', '-', '#', '\'', '{', '}', '$', '^', '.', ',', '\u{c}', '\u{b}', '\u{1}', '@', '`', '~',
            ]);
            match rng.below(6) {
                0 | 1 => {
                    cs.remove(i);
                    done.push("character deleted");
                }
                2 => {
                    cs.insert(i, c);
                    done.push("character inserted");
                }
                3 => {
                    cs[i] = c;
                    done.push("character replaced");
                }
                4 if cs.len() > 1 => {
                    let k = i.min(cs.len() - 2);
                    cs.swap(k, k + 1);
                    done.push("characters swapped");
                }
                _ => {
                    cs.truncate(i);
                    done.push("cut off");
                }
            }
            t = cs.into_iter().collect();
        }
        let c = Case { text: Some(t), ..Default::default() };
        let (alg, lang) = if rng.chance(2, 3) {
            ("glr", "rust")
        } else {
            *rng.pick(&[("lr0", "rust"), ("lalr", "rust"), ("lr1", "rust"), ("ll1", "cpp"), ("lr0", "cpp"), ("lalr", "cpp"), ("lr1", "cpp")])
        };
        let mut c = c;
        if rng.chance(1, 30) {
            // bytes that are no text, most of them where a string or regular expression may be
            let t = c.text.as_deref().unwrap_or("");
            let spots: Vec<usize> = t.char_indices().filter(|(_, x)| matches!(x, '"' | '/')).map(|(i, _)| i + 1).collect();
            let at = if !spots.is_empty() && rng.chance(3, 4) { *rng.pick(&spots) } else { rng.below(t.len() + 1) };
            let b = *rng.pick(&["ff", "80", "c3", "e282", "f09f98", "c0af", "eda080", "f4908080", "fe", "bf", "c3a9", "e28692"]);
            c = c.set("at", at).set("bytes", b);
            done.push("bytes");
        }
        c.set("alg", alg).set("lang", lang).set("done", done.join(", "))
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        cases.iter().map(judge_refusal).collect()
    }
    fn smaller(&self, c: &Case) -> Vec<Case> {
        smaller_text(c)
    }
}

fn judge_refusal(c: &Case) -> Outcome {
    let mut bytes = c.text.clone().unwrap_or_default().into_bytes();
    let raw = c.opt("bytes");
    if !raw.is_empty() {
        let more: Vec<u8> = (0..raw.len() / 2).filter_map(|i| u8::from_str_radix(&raw[2 * i..2 * i + 2], 16).ok()).collect();
        let at = (c.num("at") as usize).min(bytes.len());
        bytes.splice(at..at, more);
    }
    let want = match std::str::from_utf8(&bytes) {
        Ok(t) => verdict(t),
        Err(_) => Verdict::Bad("not well-formed: not UTF-8".into()),
    };
    let (mut alg, mut lang) = (c.opt("alg"), c.opt("lang"));
    match want {
        Verdict::Unsure(w) => return Outcome::skip(w),
        Verdict::Good => (alg, lang) = ("glr", "rust"),
        _ => {}
    }
    let d = Scratch::new("refuse");
    let file = d.path().join("g.lapex");
    let out = d.path().join("out");
    std::fs::create_dir(&out).unwrap();
    write_file(&file, &bytes);
    let mut cmd = tool();
    cmd.current_dir(d.path()).args(["generate", "-a", alg, "-l", lang, "--target"]).arg(&out).arg(&file);
    if c.opt("lexer") != "1" {
        cmd.arg("--no-lexer");
    }
    let r = ran(&mut cmd);
    let files = snapshot(&out);
    let parser: Vec<&String> = files.keys().filter(|f| f.starts_with("parser") || f.starts_with("visitor")).collect();
    let mut o = Outcome { evals: 1, ..Default::default() };
    match &want {
        Verdict::Bad(why) => {
            if r.code == Some(0) {
                o.fail("accepted", format!("to be refused ({}) but the command ends with success ({} {}): {}", why, alg, lang, sample(c)));
            } else if !parser.is_empty() {
                o.fail("parser", format!("refused ({}), but {:?} is written ({} {}): {}", why, parser, alg, lang, sample(c)));
            }
            let kind: String = why.split(|ch: char| ch == ':' || ch == ' ').take(2).collect::<Vec<_>>().join(" ");
            o.label(format!("refused: {}", if why.starts_with("not well") { "not well-formed" } else if why.starts_with("reg") { "regular expression" } else if why.ends_with("twice") { "token twice" } else if why.contains("both") { "token and production" } else if why.contains("entry rules") { "number of entries" } else if why.starts_with("entry") { "entry undefined" } else { kind.as_str() }));
            o.nontrivial.push(hash_bytes(&bytes));
        }
        _ => {
            if r.code != Some(0) {
                o.fail("refused", format!("a well-formed and consistent grammar is refused, {}: {}", ending(&r), sample(c)));
            } else if parser.is_empty() {
                o.fail("nothing", format!("the command ends with success and writes no parser: {}", sample(c)));
            }
            o.label("accepted");
            if !c.opt("done").is_empty() {
                o.nontrivial.push(hash_bytes(&bytes));
            }
        }
    }
    for m in c.opt("done").split(", ").filter(|m| !m.is_empty()) {
        o.label(m.to_string());
    }
    o.sample = Some(format!("{:?}: {}", want, sample(c)));
    o
}

// ---------------------------------------------------------------------------------------------

/// A grammar that some generator takes, with that generator's algorithm and a language.
pub fn taken(rng: &mut Rng) -> (Gram, &'static str, &'static str) {
    let (alg, lang) = *rng.pick(&[
        ("lr0", "rust"),
        ("lalr", "rust"),
        ("lr1", "rust"),
        ("glr", "rust"),
        ("ll1", "cpp"),
        ("lr0", "cpp"),
        ("lalr", "cpp"),
        ("lr1", "cpp"),
    ]);
    let mut g = gens::useful_gram(rng, want_for(alg));
    if rng.chance(1, 2) {
        let mut src = Vec::new();
        while src.len() < g.toks.len() {
            src.extend(gens::tok_set(rng, false, false));
        }
        let n = src.len() as u32;
        for (k, (t, s)) in g.toks.iter_mut().zip(src).enumerate() {
            t.pat = s.pat;
            // never a tie
            t.prec = Some(n - k as u32);
        }
    }
    if rng.chance(1, 2) {
        gens::add_tags(&mut g, rng);
    }
    if rng.chance(1, 3) {
        texts::awkward_names(&mut g, rng);
    }
    (g, alg, lang)
}

fn lang(s: &str) -> Lang {
    if s == "cpp" {
        Lang::Cpp
    } else {
        Lang::Rust
    }
}

pub struct Stable;

impl Prop for Stable {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "a random grammar is generated in process, again after and between generations of other grammars, in threads, from files and into directories of other names, by the command in two processes with other environments, and from two other layouts of the same rules; every file must have the same bytes as the first. Non-trivial: a grammar that generates and whose parser has at least three rules"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the harness and the command are built from the same sources"]
    }
    fn pins(&self) -> Vec<Case> {
        let mut v = Vec::new();
        let mut files: Vec<PathBuf> = std::fs::read_dir("/repo/example").map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        files.push("/repo/lapex-input-gen/src/lapex.lapex".into());
        files.sort();
        for f in files {
            if let Ok(t) = std::fs::read_to_string(&f) {
                for (alg, lang) in [("lalr", "rust"), ("glr", "rust"), ("lr1", "cpp"), ("ll1", "cpp")] {
                    v.push(pin(&format!("{} {} {}", f.display(), alg, lang), t.clone(), &[("alg", alg), ("lang", lang), ("lexer", "1")]));
                }
            }
        }
        v
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 1500 } else { 60_000 },
            chunk: 4,
            min_nontrivial: 500,
            shrink_width: 32,
            shrink_rounds: 30,
        }
    }
    fn gen(&self, rng: &mut Rng, _idx: usize, _tier: Tier) -> Case {
        let (g, alg, lang) = taken(rng);
        let v = texts::pieces(&g, 1, rng);
        let t = texts::lay_out(&v, rng);
        let c = Case { text: Some(t), texts: (0..2).map(|_| texts::lay_out(&v, rng).into_bytes()).collect(), ..Default::default() };
        c.set("alg", alg).set("lang", lang).set("lexer", rng.below(3).min(1)).set("seed", rng.next() % 1_000_000)
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        cases.iter().map(judge_stable).collect()
    }
    fn smaller(&self, c: &Case) -> Vec<Case> {
        // without the layouts, then without a rule
        let mut out = Vec::new();
        if !c.texts.is_empty() {
            out.push(Case { texts: vec![], ..c.clone() });
        }
        if c.texts.is_empty() {
            out.extend(smaller_text(c));
        } else {
            out.extend(c.smaller());
        }
        out
    }
}

type Files = BTreeMap<String, Option<Vec<u8>>>;

fn generated(text: &str, alg: &str, lg: &str, lexer: bool, dir: &Path) -> (Gen, Files) {
    let file = dir.join("grammar.lapex");
    let out = dir.join("o");
    std::fs::create_dir_all(&out).unwrap();
    write_file(&file, text);
    let r = generate_file(&file, alg, lang(lg), lexer, true, &out);
    let f = snapshot(&out);
    (r, f)
}

fn other(a: &Files, b: &Files) -> Option<String> {
    for (k, v) in a {
        match b.get(k) {
            None => return Some(format!("{} is missing", k)),
            Some(w) if w != v => {
                let (x, y) = (v.clone().unwrap_or_default(), w.clone().unwrap_or_default());
                let i = x.iter().zip(&y).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
                let cut = |z: &[u8]| String::from_utf8_lossy(&z[i.saturating_sub(40)..(i + 60).min(z.len())]).into_owned();
                return Some(format!("{} differs at byte {}: {:?} against {:?}", k, i, cut(&x), cut(&y)));
            }
            _ => {}
        }
    }
    b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("{} is new", k))
}

fn judge_stable(c: &Case) -> Outcome {
    let text = c.text.as_deref().unwrap_or("");
    let Ok(raw) = read_raw(text) else { return Outcome::skip("not a grammar") };
    let (alg, lg, lexer) = (c.opt("alg"), c.opt("lang"), c.opt("lexer") == "1");
    let mut rng = Rng::new(&[c.num("seed"), 20]);
    let d = Scratch::new("stable");
    let (r0, f0) = generated(text, alg, lg, lexer, &d.path().join("a"));
    let mut o = Outcome { evals: 1, ..Default::default() };
    o.sample = Some(format!("{} {}: {}", alg, lg, sample(c)));
    let what = format!("({} {}) {}", alg, lg, sample(c));
    let check = |o: &mut Outcome, how: &str, r: bool, f: &Files| {
        if r != (r0 == Gen::Ok) {
            o.fail("result", format!("{}: {} where it {} at first: {}", how, if r { "generated" } else { "refused" }, if r { "was refused" } else { "generated" }, what));
        } else if let (true, Some(m)) = (r, other(&f0, f)) {
            o.fail("bytes", format!("{}: {}: {}", how, m, what));
        }
    };
    // other generations, then again
    let (g2, alg2, lang2) = taken(&mut rng);
    generated(&g2.text(), alg2, lang2, true, &d.path().join("x"));
    let (r, f) = generated(text, alg, lg, lexer, &d.path().join("a_longer name/ö"));
    check(&mut o, "once more in the same process", r == Gen::Ok, &f);
    // in threads at the same time
    let rs: Vec<(Gen, Files)> = std::thread::scope(|s| {
        let h: Vec<_> = (0..3)
            .map(|i| {
                let p = d.path().join(format!("t{}", i));
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || generated(text, alg, lg, lexer, &p)).unwrap()
            })
            .collect();
        h.into_iter().map(|x| x.join().unwrap()).collect()
    });
    for (r, f) in &rs {
        check(&mut o, "in a thread", *r == Gen::Ok, f);
    }
    // other layouts of the same rules
    for t in &c.texts {
        let t = String::from_utf8_lossy(t).into_owned();
        if read_raw(&t).ok().as_ref() == Some(&raw) {
            let (r, f) = generated(&t, alg, lg, lexer, &d.path().join("layout"));
            check(&mut o, "under another layout", r == Gen::Ok, &f);
        }
    }
    // separate processes
    for i in 0..2 {
        let base = d.path().join(format!("p{}", i));
        let out = base.join("deeper").join("o");
        std::fs::create_dir_all(&out).unwrap();
        let file = base.join(["grammar.lapex", "x y"][i]);
        write_file(&file, text);
        let mut cmd = tool();
        cmd.current_dir(&base).args(["generate", "--table"]);
        if !lexer {
            cmd.arg("--no-lexer");
        }
        cmd.args(["-a", alg, "-l", lg, "--target"]);
        if i == 0 {
            cmd.arg(&out).arg(&file);
        } else {
            cmd.env("HOME", "/nonexistent").env("LANG", "de_DE.UTF-8").env("SOURCE_DATE_EPOCH", "12345").env("USER", "someone").env("VERY_LONG_VARIABLE", "x".repeat(3000));
            cmd.arg("deeper/o").arg("x y");
        }
        let r = ran(&mut cmd);
        check(&mut o, "in a process of its own", r.code == Some(0), &snapshot(&out));
    }
    o.label(format!("{} {}: {}", alg, lg, if r0 == Gen::Ok { "generated" } else { "refused" }));
    if r0 == Gen::Ok && raw.iter().filter(|r| matches!(r, RawRule::Prod { .. })).count() >= 3 {
        o.nontrivial.push(hash_bytes(text.as_bytes()));
    }
    o
}

// ---------------------------------------------------------------------------------------------

pub struct Options;

impl Prop for Options {
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "random grammars are generated by the command under the four combinations of the lexer and table options, into target directories given as absolute or relative path or left to the default, which hold stale longer and shorter versions of the files and unrelated ones. Every file below a directory that also holds the working directory and the grammar is compared before and after. Non-trivial: a grammar that generates, with stale contents in at least one file to be written"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["only generations that succeed; the table is written for LR algorithms only"]
    }
    fn pins(&self) -> Vec<Case> {
        let t = "token A = \"a\";\ntoken B = \"b\";\nentry s;\nprod s = A B;\n";
        let mut v = Vec::new();
        for (alg, lang) in [("lr0", "rust"), ("lalr", "rust"), ("lr1", "rust"), ("glr", "rust"), ("ll1", "cpp"), ("lr0", "cpp"), ("lalr", "cpp"), ("lr1", "cpp")] {
            for place in ["absolute", "relative", "default"] {
                v.push(pin(&format!("{} {} {}", alg, lang, place), t, &[("alg", alg), ("lang", lang), ("place", place), ("seed", "7")]));
            }
        }
        v
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 1200 } else { 50_000 },
            chunk: 4,
            min_nontrivial: 400,
            shrink_width: 32,
            shrink_rounds: 30,
        }
    }
    fn gen(&self, rng: &mut Rng, _idx: usize, _tier: Tier) -> Case {
        let (g, alg, lang) = taken(rng);
        let c = Case { text: Some(texts::text(&g, rng)), ..Default::default() };
        c.set("alg", alg).set("lang", lang).set("place", *rng.pick(&["absolute", "relative", "default", "dots"])).set("seed", rng.next() % 1_000_000)
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        cases.iter().map(judge_options).collect()
    }
    fn smaller(&self, c: &Case) -> Vec<Case> {
        smaller_text(c)
    }
}

const ALL_FILES: &[&str] =
    &["tokens.rs", "lexer.rs", "parser.rs", "tokens.h", "tokens.cpp", "lexer.h", "lexer.cpp", "parser.h", "parser.cpp", "parser_impl.h", "visitor.h", "table"];

fn judge_options(c: &Case) -> Outcome {
    let text = c.text.as_deref().unwrap_or("");
    let (alg, lg, place) = (c.opt("alg"), c.opt("lang"), c.opt("place"));
    let mut o = Outcome { evals: 1, ..Default::default() };
    o.sample = Some(format!("{} {} {}: {}", alg, lg, place, sample(c)));
    let what = format!("({} {}, target {}) {}", alg, lg, place, sample(c));
    let mut rng = Rng::new(&[c.num("seed"), 27]);
    let mut first: Option<Files> = None;
    let mut stale_some = false;
    for (lexer, table) in [(true, false), (true, true), (false, true), (false, false)] {
        let d = Scratch::new("options");
        let cwd = d.path().join("here");
        let (target, given): (PathBuf, Option<String>) = match place {
            "default" => (cwd.join("generated"), None),
            "relative" => (cwd.join("out/put"), Some("out/put".into())),
            "dots" => (d.path().join("side"), Some("../side/".into())),
            _ => (d.path().join("else where"), Some(d.path().join("else where").display().to_string())),
        };
        std::fs::create_dir_all(&target).unwrap();
        std::fs::create_dir_all(d.path().join("grammars")).unwrap();
        let file = d.path().join("grammars").join("my grammar.lapex");
        write_file(&file, text);
        std::fs::create_dir_all(cwd.join("generated")).unwrap();
        // what was there before
        for name in ALL_FILES {
            match rng.below(4) {
                0 => write_file(&target.join(name), &"stale\n".repeat(20_000)),
                1 => write_file(&target.join(name), "stale"),
                _ => {}
            }
        }
        for name in ["main.rs", "notes.txt", "lexer.rs.bak", "parser.py", "tokens"] {
            if rng.chance(1, 2) {
                write_file(&target.join(name), "mine");
            }
        }
        for p in [d.path().to_path_buf(), cwd.clone()] {
            if rng.chance(1, 2) {
                write_file(&p.join(rng.pick(ALL_FILES)), "not here");
            }
        }
        let before = snapshot(d.path());
        let mut cmd = tool();
        cmd.current_dir(&cwd).arg("generate");
        let mut args: Vec<Vec<String>> = vec![vec!["-a".into(), alg.into()], vec!["-l".into(), lg.into()], vec![file.display().to_string()]];
        if !lexer {
            args.push(vec!["--no-lexer".into()]);
        }
        if table {
            args.push(vec!["--table".into()]);
        }
        if let Some(t) = &given {
            args.push(vec!["--target".into(), t.clone()]);
        }
        rng.shuffle(&mut args);
        cmd.args(args.concat());
        let r = ran(&mut cmd);
        if r.code != Some(0) {
            o.label(format!("{} {}: refused", alg, lg));
            if !lexer && first.is_some() {
                o.fail("refused", format!("refused only without the lexer, {}: {}", ending(&r), what));
            }
            return o;
        }
        let after = snapshot(d.path());
        let want = files_of(lg, alg, lexer, table);
        let rel = target.strip_prefix(d.path()).unwrap().to_string_lossy().into_owned();
        let opt = format!("{}{}", if lexer { "with lexer" } else { "without lexer" }, if table { " and with table" } else { "" });
        let path = |n: &str| format!("{}/{}", rel, n);
        for (k, v) in &before {
            if want.iter().any(|w| path(w) == *k) {
                stale_some = true;
                continue;
            }
            match after.get(k) {
                None => o.fail("removed", format!("{}: {} is removed: {}", opt, k, what)),
                Some(w) if w != v => o.fail("changed", format!("{}: {} is changed: {}", opt, k, what)),
                _ => {}
            }
        }
        for k in after.keys() {
            if !before.contains_key(k) && !want.iter().any(|w| path(w) == *k) {
                o.fail("new", format!("{}: {} appears: {}", opt, k, what));
            }
        }
        let mut have = Files::new();
        for w in &want {
            match after.get(&path(w)) {
                Some(Some(b)) => {
                    if b.windows(5).any(|x| x == b"stale") && !text.contains("stale") {
                        o.fail("stale", format!("{}: old contents stay in {}: {}", opt, w, what));
                    }
                    have.insert(w.to_string(), Some(b.clone()));
                }
                _ => o.fail("missing", format!("{}: {} is not written: {}", opt, w, what)),
            }
        }
        match &first {
            None => first = Some(have),
            Some(f) => {
                for (k, v) in &have {
                    if let Some(w) = f.get(k) {
                        if w != v {
                            o.fail("option", format!("{} changes {}: {}", opt, k, what));
                        }
                    }
                }
            }
        }
    }
    o.label(format!("{} {}: generated", alg, lg));
    if stale_some {
        o.nontrivial.push(hash_bytes(format!("{}{}{}", text, alg, place).as_bytes()));
    }
    o
}

// ---------------------------------------------------------------------------------------------

pub struct Faults;

impl Prop for Faults {
    fn id(&self) -> &'static str {
        "C29"
    }
    fn rule(&self) -> &'static str {
        "random grammars are generated by the command undisturbed and then again with output failing: the size of files limited to a number of bytes drawn from the sizes of the files, one file a link to a full device, a dangling link or a directory, the target missing or a file, the grammar missing, a directory or not UTF-8, one write failing, being interrupted or taking half of its bytes. Success is allowed only if all files are as undisturbed, and required where the limit cuts nothing and after an interrupted or partial write. Non-trivial: a fault that cuts at least one byte of one file or makes a file unusable"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["SIGXFSZ is ignored in the command, so that a write beyond the limit fails with an error"]
    }
    fn pins(&self) -> Vec<Case> {
        let t = "token A = \"a\";\ntoken B = \"b\";\nentry s;\nprod s = A B;\nprod s = A s B;\n";
        let mut v = Vec::new();
        for (alg, lang) in [("lalr", "rust"), ("glr", "rust"), ("ll1", "cpp"), ("lr1", "cpp")] {
            let fs = files_of(lang, alg, true, true);
            let mut faults: Vec<String> = fs.iter().flat_map(|f| ["full", "dangling", "directory"].map(|k| format!("{} {}", k, f))).collect();
            faults.extend(["no target", "target is a file", "no grammar", "grammar is a directory", "grammar is not UTF-8", "limit 1000000", "limit 0", "limit 500", "limit last 1"].map(String::from));
            faults.extend(fs.iter().flat_map(|f| ["0", "1"].map(|k| format!("cut {} {}", k, f))));
            let text = if alg == "ll1" { "token A = \"a\";\ntoken B = \"b\";\nentry s;\nprod s = A t;\nprod t = B;\nprod t = !;\n" } else { t };
            for f in faults {
                v.push(pin(&format!("{} {} {}", alg, lang, f), text, &[("alg", alg), ("lang", lang), ("lexer", "1"), ("table", "1"), ("fault", &f)]));
            }
            // every single write of a few dozens
            let long = long_grammar(150, "a_name_of_some_length_");
            for at in 0..48 {
                for how in ["eio", "short"] {
                    let f = format!("write {} {}", how, at);
                    v.push(pin(&format!("{} {} {}", alg, lang, f), &long, &[("alg", alg), ("lang", lang), ("lexer", "1"), ("table", "0"), ("fault", &f)]));
                }
            }
        }
        v
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 3000 } else { 120_000 },
            chunk: 6,
            min_nontrivial: 1000,
            shrink_width: 32,
            shrink_rounds: 30,
        }
    }
    fn gen(&self, rng: &mut Rng, _idx: usize, _tier: Tier) -> Case {
        let (g, alg, lang) = taken(rng);
        let (lexer, table) = (rng.chance(3, 4), rng.chance(1, 2));
        let fs = files_of(lang, alg, lexer, table);
        let f = *rng.pick(&fs);
        let mut text = g.text();
        let fault = match rng.below(28) {
            24..=27 => {
                if rng.chance(1, 4) {
                    text = long_grammar(rng.range(60, 200), *rng.pick(&["p", "visitor_of_", "a_name_of_some_length_"]));
                    format!("write {} {}", rng.pick(&["eio", "enospc", "eintr", "short"]), rng.below(60))
                } else {
                    format!("write {} {}", rng.pick(&["eio", "enospc", "eintr", "short"]), rng.below(10))
                }
            }
            0..=4 => format!("full {}", f),
            5 => format!("dangling {}", f),
            6 => format!("directory {}", f),
            7 => rng.pick(&["no target", "target is a file", "no grammar", "grammar is a directory", "grammar is not UTF-8", "limit 1000000"]).to_string(),
            8..=12 => format!("cut {} {}", rng.below(3), f),
            13..=15 => format!("cut {} {}", rng.below(8300), f),
            16 | 17 => format!("limit last {}", rng.below(4)),
            18 => format!("limit {}", 8192 * rng.range(1, 4) + rng.below(3) - 1),
            _ => format!("limit {}", rng.below(20_000)),
        };
        let c = Case { text: Some(text), ..Default::default() };
        c.set("alg", alg).set("lang", lang).set("lexer", lexer as u8).set("table", table as u8).set("fault", fault)
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        cases.iter().map(judge_fault).collect()
    }
    fn smaller(&self, c: &Case) -> Vec<Case> {
        smaller_text(c)
    }
}

extern "C" {
    fn signal(n: i32, handler: usize) -> usize;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

/// A library that is loaded before the C library and disturbs the n-th write to a file, once.
fn shim() -> PathBuf {
    static S: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let d = scratch_root().join("disturb");
        std::fs::create_dir_all(&d).unwrap();
        let (c, so) = (d.join("d.c"), d.join("d.so"));
        write_file(
            &c,
            "#define _GNU_SOURCE\n#include <errno.h>\n#include <stdlib.h>\n#include <string.h>\n#include <sys/syscall.h>\n#include <sys/stat.h>\n#include <unistd.h>\n\
             static long n = 0;\n\
             ssize_t write(int fd, const void *b, size_t len) {\n\
             struct stat s; const char *k = getenv(\"DISTURB\"), *at = getenv(\"DISTURB_AT\");\n\
             if (k && at && fd > 2 && fstat(fd, &s) == 0 && S_ISREG(s.st_mode) && n++ == atol(at)) {\n\
             if (!strcmp(k, \"eio\")) { errno = EIO; return -1; }\n\
             if (!strcmp(k, \"enospc\")) { errno = ENOSPC; return -1; }\n\
             if (!strcmp(k, \"eintr\")) { errno = EINTR; return -1; }\n\
             if (!strcmp(k, \"short\") && len > 1) len = len / 2;\n\
             }\n\
             return syscall(SYS_write, fd, b, len); }\n",
        );
        let mut cmd = Command::new("gcc");
        cmd.args(["-shared", "-fPIC", "-w", "-O1", "-o"]).arg(&so).arg(&c);
        let r = run(&mut cmd, &LIM);
        if r.code != Some(0) {
            infra(&format!("gcc: {}", r.err));
        }
        so
    })
    .clone()
}

/// A grammar for every algorithm, of which every part of the parser's files takes several writes.
fn long_grammar(n: usize, name: &str) -> String {
    let mut t = String::from("token A = \"a\";\ntoken B = \"b\";\nentry s;\nprod s = A;\n");
    for i in 0..n {
        let of = if i == 0 { "s".to_string() } else { format!("{}{}", name, i) };
        if i > 0 {
            t.push_str(&format!("prod {} = A;\n", of));
        }
        if i + 1 < n {
            t.push_str(&format!("prod {} = B {}{};\n", of, name, i + 1));
        }
    }
    t
}

fn limit_files(cmd: &mut Command, n: u64) {
    unsafe {
        cmd.pre_exec(move || {
            signal(25, 1);
            setrlimit(1, &[n, n]);
            Ok(())
        });
    }
}

fn judge_fault(c: &Case) -> Outcome {
    let text = c.text.as_deref().unwrap_or("");
    let (alg, lg) = (c.opt("alg"), c.opt("lang"));
    let (lexer, table) = (c.opt("lexer") == "1", c.opt("table") == "1");
    let fault = c.opt("fault");
    let what = format!("({} {}, {}) {}", alg, lg, fault, sample(c));
    let mut o = Outcome { evals: 1, ..Default::default() };
    o.sample = Some(what.clone());
    let want = files_of(lg, alg, lexer, table);
    let go = |file: &Path, target: &Path, cwd: &Path, limit: Option<u64>, disturb: Option<(&str, &str)>| {
        let mut cmd = tool();
        if let Some((how, at)) = disturb {
            cmd.env("LD_PRELOAD", shim()).env("DISTURB", how).env("DISTURB_AT", at);
        }
        cmd.current_dir(cwd).args(["generate", "-a", alg, "-l", lg, "--target"]).arg(target).arg(file);
        if !lexer {
            cmd.arg("--no-lexer");
        }
        if table {
            cmd.arg("--table");
        }
        if let Some(n) = limit {
            limit_files(&mut cmd, n);
        }
        ran(&mut cmd)
    };
    let d = Scratch::new("fault");
    let file = d.path().join("g.lapex");
    write_file(&file, text);
    let (a, b) = (d.path().join("a"), d.path().join("b"));
    std::fs::create_dir(&a).unwrap();
    std::fs::create_dir(&b).unwrap();
    if go(&file, &a, d.path(), None, None).code != Some(0) {
        o.label("refused undisturbed");
        return o;
    }
    let plain = snapshot(&a);
    let size = |n: &str| plain.get(n).and_then(|x| x.as_ref()).map_or(0, |x| x.len() as u64);
    let biggest = want.iter().map(|f| size(f)).max().unwrap_or(0);
    let mut words = fault.split(' ');
    let (kind, rest) = (words.next().unwrap_or(""), words.collect::<Vec<_>>());
    let name = rest.last().copied().unwrap_or("");
    // whether success is ruled out, or required
    let (mut may, mut must) = (false, false);
    let mut limit = None;
    let mut disturb = None;
    let (mut gfile, mut target) = (file.clone(), b.clone());
    match kind {
        "full" => {
            std::os::unix::fs::symlink("/dev/full", b.join(name)).unwrap();
            may = size(name) == 0;
        }
        "dangling" => std::os::unix::fs::symlink(d.path().join("nowhere/file"), b.join(name)).unwrap(),
        "directory" => std::fs::create_dir(b.join(name)).unwrap(),
        "no" if name == "target" => target = d.path().join("nowhere"),
        "target" => {
            target = d.path().join("file");
            write_file(&target, "x");
        }
        "no" => gfile = d.path().join("nothing.lapex"),
        "grammar" if name == "directory" => gfile = a.clone(),
        "grammar" => {
            gfile = d.path().join("bad.lapex");
            let mut bytes = text.as_bytes().to_vec();
            bytes.extend(b"\n\xff\xfe");
            std::fs::write(&gfile, bytes).unwrap();
        }
        "write" => {
            // one write does not succeed; the system may take fewer bytes, or be interrupted, at any time
            may = true;
            must = matches!(rest[0], "eintr" | "short");
            disturb = Some((rest[0], name));
        }
        "cut" => {
            // all but so many bytes of this file
            let k: u64 = rest[0].parse().unwrap_or(0);
            limit = Some(size(name).saturating_sub(k));
        }
        "limit" => {
            let k: u64 = name.parse().unwrap_or(0);
            limit = Some(if rest[0] == "last" { biggest.saturating_sub(k) } else { k });
        }
        _ => infra(&format!("fault {:?}", fault)),
    }
    let name = if matches!(kind, "full" | "dangling" | "directory" | "cut") { name } else { "" };
    if matches!(kind, "full" | "dangling" | "directory") && !want.contains(&name) {
        return Outcome::skip("not a file to be written");
    }
    if let Some(n) = limit {
        may = n >= biggest;
        must = may;
    }
    let r = go(&gfile, &target, d.path(), limit, disturb);
    let after = snapshot(&b);
    if r.code == Some(0) {
        if !may {
            o.fail("success", format!("the command ends with success although output failed or the grammar could not be read: {}", what));
        } else if kind != "full" {
            if let Some(m) = other(&plain, &after) {
                o.fail("incomplete", format!("the command ends with success, but {}: {}", m, what));
            }
        }
    } else {
        if must {
            match limit {
                Some(n) => o.fail("failure", format!("the command fails although the limit of {} bytes cuts nothing, {}: {}", n, ending(&r), what)),
                None => o.fail("failure", format!("the command fails although nothing but a write took fewer bytes or was interrupted, {}: {}", ending(&r), what)),
            }
        }
        if limit.is_none() && r.err.trim().is_empty() && r.out.trim().is_empty() {
            o.fail("silent", format!("the command fails without a message: {}", what));
        }
    }
    o.label(format!("{}: {}", kind, if r.code == Some(0) { "success" } else { "failure" }));
    if !may || kind == "write" && (must || r.code != Some(0)) {
        o.nontrivial.push(hash_bytes(what.as_bytes()));
    }
    o
}

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Refusals), Box::new(Stable), Box::new(Options), Box::new(Faults)]
}

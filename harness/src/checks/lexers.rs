//! C01 C02: generated lexers, compiled and run.
use crate::ast::*;
use crate::e2e_cpp::*;
use crate::e2e_rust::*;
use crate::engine::*;
use crate::gens::EDGES;
use crate::gens;
use crate::rx::{self, Nfa, Rx};
use crate::util::*;

pub struct Lexers {
    pub id: &'static str,
    pub lang: Lang,
}

pub fn toks_line(g: &Gram) -> String {
    let t = g.text();
    let v: Vec<&str> = t.lines().filter(|l| l.starts_with("token")).collect();
    v.join(" ")
}

/// What one text must come back as. Positions are in characters here.
struct Judge<'a> {
    g: &'a Gram,
    nfa: Nfa,
    weights: Vec<usize>,
    /// characters at which the classes of the patterns begin or end
    edges: std::collections::BTreeSet<u32>,
}

impl<'a> Judge<'a> {
    fn new(g: &'a Gram) -> Judge<'a> {
        let rs: Vec<Rx> = g.toks.iter().map(gens::tok_rx).collect();
        let mut bounds = std::collections::BTreeSet::new();
        for r in &rs {
            if !r.has_perl() {
                r.bounds(&mut bounds);
            }
        }
        // a few hundred will do
        let step = bounds.len() / 300 + 1;
        Judge {
            g,
            nfa: Nfa::new(&rs),
            edges: bounds.into_iter().step_by(step).map(|c| c as u32).collect(),
            weights: g.toks.iter().map(gens::tok_weight).collect(),
        }
    }

    /// The one token of highest precedence; the generator refused if there were several.
    fn best(&self, of: &[usize]) -> Vec<usize> {
        let m = of.iter().map(|t| self.weights[*t]).max().unwrap();
        of.iter().copied().filter(|t| self.weights[*t] == m).collect()
    }

    /// Number of tokens judged, or what is wrong. `bytes`: positions count bytes rather than characters.
    fn text(&self, bytes: &[u8], in_bytes: bool, slices: bool, out: &[Lexed]) -> Result<usize, String> {
        let valid = match std::str::from_utf8(bytes) {
            Ok(s) => s,
            Err(e) => std::str::from_utf8(&bytes[..e.valid_up_to()]).unwrap(),
        };
        let broken = valid.len() < bytes.len();
        let cs: Vec<char> = valid.chars().collect();
        let mut byte_at: Vec<usize> = valid.char_indices().map(|x| x.0).collect();
        byte_at.push(valid.len());
        let pos = |i: usize| if in_bytes { byte_at[i] } else { i };
        let mut at = 0;
        let mut eofs = 0;
        let mut judged = 0;
        for (k, l) in out.iter().enumerate() {
            let here = format!("token {} at character {}", k, at);
            if at == cs.len() && !broken {
                if l.name != "<EOF>" {
                    return Err(format!("{}: {} instead of the end of file", here, l.name));
                }
                if l.start != pos(at) {
                    return Err(format!("{}: end of file starts at {}", here, l.start));
                }
                eofs += 1;
                continue;
            }
            let m = rx::munch(&self.nfa, &cs[at..]);
            let at_break = broken && m.open_end;
            if slices && l.name == "<ERR>" {
                // which character, behind what has been read
                let read = at + m.read;
                if l.start != pos(at) || l.end != pos(read) {
                    return Err(format!("{}: the error is at {}..{}, not {}..{}", here, l.start, l.end, pos(at), pos(read)));
                }
                let text = String::from_utf8_lossy(&l.slice).into_owned();
                let ends: Vec<u32> = text.split('-').filter_map(|x| x.parse().ok()).collect();
                let c = cs.get(read).map(|c| *c as u32).unwrap_or(0);
                match ends[..] {
                    [a, b] if text.matches('-').count() == 1 && a <= c && c <= b => {
                        // nor does any other character of the range
                        let mut with = cs[at..read].to_vec();
                        for d in self.edges.range(a..=b).copied().chain([a, b]) {
                            let Some(d) = char::from_u32(d).filter(|d| *d != '\0') else { continue };
                            with.push(d);
                            if rx::munch(&self.nfa, &with).read > m.read {
                                return Err(format!("{}: the error is about {:?}, but {:?} could have come there", here, text, d));
                            }
                            with.pop();
                        }
                    }
                    _ => return Err(format!("{}: the error is about {:?}, the character is {}", here, text, c)),
                }
            }
            match (&m.best, l.name.as_str()) {
                (None, "<ERR>") => return Ok(judged),
                (None, n) => return Err(format!("{}: {} where no token matches", here, n)),
                (Some((len, _)), "<ERR>") => {
                    if *len < m.read || at_break {
                        return Ok(judged);
                    }
                    return Err(format!("{}: error where a token of {} characters matches", here, len));
                }
                (Some((len, of)), n) => {
                    let b = self.best(of);
                    if b.len() > 1 {
                        return Err(format!("TIE {:?}", b));
                    }
                    let want = &self.g.toks[b[0]].name;
                    if want != n {
                        return Err(format!("{}: {} instead of {} ({} characters)", here, n, want, len));
                    }
                    if l.start != pos(at) || l.end != pos(at + len) {
                        return Err(format!(
                            "{}: span {}..{} instead of {}..{}",
                            here,
                            l.start,
                            l.end,
                            pos(at),
                            pos(at + len)
                        ));
                    }
                    if slices && l.slice != valid.as_bytes()[byte_at[at]..byte_at[at + len]] {
                        return Err(format!("{}: slice {:?}", here, String::from_utf8_lossy(&l.slice)));
                    }
                    at += len;
                    judged += 1;
                }
            }
        }
        if eofs < 3 {
            return Err(format!("the lexer stopped after {} tokens: {:?}", out.len(), out.last().map(|l| &l.name)));
        }
        Ok(judged)
    }
}

pub fn lexable(g: &Gram) -> bool {
    let mut n: Vec<String> = g.toks.iter().map(|t| t.name.clone()).collect();
    n.sort();
    n.dedup();
    g.defined()
        && n.len() == g.toks.len()
        && gens::distinct_naming(g)
        && g.toks.iter().all(|t| gens::tok_rx(t).min_len() > 0 && !rx::gap_edge(&gens::tok_rx(t)))
}

fn damage(s: &str, rng: &mut Rng) -> Vec<u8> {
    let mut b = s.as_bytes().to_vec();
    let bad: &[&[u8]] = &[
        b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf",
        b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xff", b"\xfe",
        b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc3\x28", b"\xe2\x28\xa1", b"\xe2\x82\x28", b"\xf0\x28\x8c\xbc", b"\xf0\x90\x28\xbc",
        b"\xf0\x90\x8c\x28", b"\xc0\xe1", b"\xe1\xa1\xe1",
    ];
    match rng.below(3) {
        0 => {
            // overlong spelling of an ASCII letter of the text
            let i = rng.below(b.len() + 1);
            let c = if i < b.len() && b[i] < 0x80 { b[i] } else { b'a' };
            let o = match rng.below(3) {
                0 => vec![0xc0 | c >> 6, 0x80 | c & 0x3f],
                1 => vec![0xe0, 0x80 | c >> 6, 0x80 | c & 0x3f],
                _ => vec![0xf0, 0x80, 0x80 | c >> 6, 0x80 | c & 0x3f],
            };
            b.splice(i..i, o);
        }
        1 => {
            // cut a character in two
            let multi: Vec<usize> = (0..b.len()).filter(|i| b[*i] >= 0x80).collect();
            if multi.is_empty() {
                b.extend_from_slice(*rng.pick(bad));
            } else {
                let i = *rng.pick(&multi);
                b.remove(i);
            }
        }
        _ => {
            let at: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
            let i = *rng.pick(&at);
            let x = rng.pick(bad).to_vec();
            b.splice(i..i, x);
        }
    }
    b.retain(|x| *x != 0);
    b
}

/// A token set without empty matches, and texts for it.
pub fn lexer_case(rng: &mut Rng, perl: bool, texts: usize, invalid: bool) -> Case {
    let mut toks = gens::tok_set(rng, perl, false);
    for t in toks.iter_mut() {
        if gens::tok_rx(t).min_len() == 0 {
            let r = gens::tok_rx(t);
            let first = 'a';
            t.pat = if rng.chance(1, 2) && !r.has_perl() {
                let mut b = std::collections::BTreeSet::new();
                r.bounds(&mut b);
                let c = b.iter().copied().filter(|c| *c != '\0').next().unwrap_or(first);
                TokPat::Re(Rx::Cat(vec![Rx::Ch(c, 0), Rx::Group(true, Box::new(r))]))
            } else {
                TokPat::Re(Rx::Cat(vec![Rx::Group(false, Box::new(r)), Rx::Ch('b', 0)]))
            };
        }
    }
    let pool = gens::text_pool(&toks, rng);
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    // every character of the pool alone, so that no class boundary goes unnoticed
    let mut ones: Vec<char> = pool.clone();
    ones.sort();
    ones.dedup();
    for c in ones.iter().take(24) {
        v.push(c.to_string().into_bytes());
    }
    while v.len() < texts {
        let parts = rng.range(1, 8);
        let s = gens::rand_text(&toks, &pool, rng, parts);
        if invalid && rng.chance(1, 3) {
            v.push(damage(&s, rng));
        } else {
            v.push(s.into_bytes());
        }
    }
    let g = gens::tok_gram(toks);
    let mut c = Case::of(g);
    c.texts = v;
    c
}

/// More tokens, states, ranges of characters, or characters of a token or text than fit a byte or two.
fn big() -> Vec<Case> {
    let mut rng = Rng::new(&[0xb18]);
    let mut words: Vec<String> = Vec::new();
    while words.len() < 280 {
        let n = rng.range(3, 6);
        let w: String = (0..n).map(|_| *rng.pick(&['a', 'b', 'c', 'd', 'e', 'f', 'g'])).collect();
        if !words.contains(&w) {
            words.push(w);
        }
    }
    let kw: String = words.iter().enumerate().map(|(i, w)| format!("token K{} = \"{}\";\n", i, w)).collect();
    let mut texts: Vec<String> = Vec::new();
    for k in 0..60 {
        let mut s: Vec<String> = Vec::new();
        for _ in 0..rng.range(1, 12) {
            let mut w = rng.pick(&words[..]).clone();
            match rng.below(4) {
                0 => w.push(*rng.pick(&['a', 'g', 'z', '1'])),
                1 => {
                    w.pop();
                }
                _ => {}
            }
            s.push(w);
        }
        texts.push(s.join(if k % 3 == 0 { "" } else { " " }));
    }
    let wide: String = (0..300).map(|i| format!("token W{} = \"{}\";\n", i, char::from_u32(0x100 + 3 * i).unwrap())).collect();
    let wides: Vec<String> = (0..30)
        .map(|_| (0..rng.range(1, 30)).map(|_| char::from_u32(0x100 + if rng.chance(1, 9) { rng.below(900) as u32 } else { 3 * rng.below(300) as u32 }).unwrap()).collect())
        .collect();
    let long: String = (0..700).map(|_| *rng.pick(&['x', 'y', 'é'])).collect();
    let half: String = long.chars().take(300).collect();
    let mut bent: Vec<char> = long.chars().collect();
    bent[600] = 'q';
    let bent: String = bent.into_iter().collect();
    let sets: Vec<(&str, String, Vec<String>)> = vec![
        ("big: keywords", format!("{}token IDENT = /[a-z][a-z0-9]*/;\ntoken WS = / +/;\n", kw), texts),
        ("big: ranges", wide, wides),
        (
            "big: long literal",
            format!("token L = \"{}\"; token X = /[xyé]/; token Q = \"q\"; token H = \"{}\";", long, half),
            vec![long.clone(), format!("q{}x", long), bent, format!("{}{}", half, long), long.chars().take(699).collect()],
        ),
        (
            "big: long tokens",
            "token A = /[ab]+/; token W = / +/; token C = /é+/; token D = /c{300}/; token E = \"c\";".into(),
            vec![
                format!("{} a {}", "ab".repeat(35_000), "b".repeat(300)),
                format!("a{}b", " ".repeat(66_000)),
                format!("a{}b{}", "é".repeat(33_000), "é".repeat(128)),
                format!("a{}a", "c".repeat(300)),
                "ab é".repeat(18_000),
            ],
        ),
    ];
    let mut sets: Vec<(String, String, Vec<String>)> = sets.into_iter().map(|(n, t, x)| (n.to_string(), t, x)).collect();
    for n in EDGES {
        let l: String = (0..n).map(|_| *rng.pick(&['x', 'y'])).collect();
        let half: String = l.chars().take(n - 1).collect();
        sets.push((
            format!("edge: literal of {}", n),
            format!("token L = \"{}\"; token X = /[xy]/; token Q = \"q\";", l),
            vec![format!("{}q{}", l, l), format!("q{}", half), format!("{}q", half), format!("x{}", l)],
        ));
        let at = |i: usize| char::from_u32(0x3040 + 2 * i as u32).unwrap();
        sets.push((
            format!("edge: {} tokens", n),
            (0..n).map(|i| format!("token W{} = \"{}\";\n", i, at(i))).collect(),
            vec![(0..n).map(at).collect(), (0..n).rev().map(at).collect(), format!("{}{}", at(n - 1), at(n)), format!("{}a", at(n - 2))],
        ));
    }
    sets.into_iter()
        .map(|(name, toks, texts)| {
            let first = toks.split_whitespace().nth(1).unwrap().to_string();
            let mut c = Case::of(read_gram(&format!("{}entry s; prod s = {};", toks, first)).unwrap());
            c.texts = texts.into_iter().map(|s| s.into_bytes()).collect();
            c.pin = Some(name);
            c
        })
        .collect()
}

impl Prop for Lexers {
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        "random overlapping token sets (literals, classes, repetition, whole Unicode range, explicit precedences) with texts made of samples of the patterns, boundary characters and damage; non-trivial: an accepted set with a text split into three or more tokens of at least two kinds, or two tokens matching the same longest stretch"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "tokens matching the empty text and NUL characters are left out",
            "expected tokens come from a position-automaton model of regular expressions (harness/src/rx.rs)",
        ]
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 480 } else { 8192 },
            chunk: 24,
            min_nontrivial: 100,
            shrink_width: 64,
            shrink_rounds: 60,
        }
    }
    fn pins(&self) -> Vec<Case> {
        let mut v = Vec::new();
        let sets: &[(&str, &str, &[&str])] = &[
            ("keywords", "token IF = \"if\"; token IDENT = /[a-z]+/; token WS = / +/;", &["if iff i", "fi if", "  if"]),
            ("explicit", "token A[5] = /[ab]/; token B = \"a\"; token C[0] = /[ab][ab]/;", &["a", "b", "ab", "aba"]),
            ("counts", "token A = /a{2}/; token B = /b{1,3}/; token C = /c{2,}/;", &["aa", "a", "aaaa", "bbbb", "cc", "ccccc", "c"]),
            ("empty alternative", "token A = /a(b|)c/; token B = /d(|e)/;", &["abc", "ac", "de", "dd", "ab"]),
            ("unicode", "token A = /[^a]/; token B = \"a\"; token C = \"é→😀\";", &["é→😀", "a\u{10ffff}a", "\u{d7ff}\u{e000}", "\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10000}"]),
            ("dot", "token A = /.+/; token NL = /\\n/;", &["ab\ncd\n\n", "\r", "\u{85}\u{2028}"]),
            ("no way back", "token A = \"a\"; token ABC = \"abc\";", &["ab", "abc", "aab", "abab"]),
            ("numbers", "token INT = /[0-9]+/; token FLOAT = /[0-9]+\\.[0-9]+/; token DOT = \".\";", &["1.5", "1.", "1", ".1.", "12.34.56"]),
            ("comments", "token C = /\\/\\*([^*]|\\*+[^*\\/])*\\*+\\//; token D = \"/\"; token M = \"*\";", &["/**/", "/* a */ ", "/*/*/", "/* **/*/"]),
        ];
        for (name, toks, texts) in sets {
            let src = format!("{}entry s; prod s = {};", toks, toks.split("token ").nth(1).unwrap().split(|c| c == ' ' || c == '[').next().unwrap());
            let mut c = Case::of(read_gram(&src).unwrap());
            c.texts = texts.iter().map(|s| s.as_bytes().to_vec()).collect();
            if self.lang == Lang::Cpp {
                let mut rng = Rng::new(&[5, v.len() as u64]);
                for t in *texts {
                    for _ in 0..4 {
                        c.texts.push(damage(t, &mut rng));
                    }
                }
            }
            c.pin = Some(name.to_string());
            v.push(c);
        }
        v.extend(big());
        v
    }
    fn gen(&self, rng: &mut Rng, _: usize, tier: Tier) -> Case {
        let perl = rng.chance(1, 24);
        lexer_case(rng, perl, if tier == Tier::Quick { 60 } else { 120 }, self.lang == Lang::Cpp)
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        let mut jobs: Vec<Option<LexJob>> = vec![None; cases.len()];
        let fit: Vec<usize> = (0..cases.len()).filter(|i| lexable(cases[*i].g())).collect();
        let inputs: Vec<LexInput> = fit
            .iter()
            .map(|i| LexInput {
                g: cases[*i].g(),
                text: cases[*i].g().text(),
                texts: &cases[*i].texts,
            })
            .collect();
        for (i, j) in fit.iter().zip(run_lexers(self.lang, &inputs)) {
            jobs[*i] = Some(j);
        }
        (0..cases.len())
            .map(|i| match &jobs[i] {
                None => Outcome::skip("a token matching nothing"),
                Some(j) => self.judge(&cases[i], j),
            })
            .collect()
    }
}

impl Lexers {
    fn judge(&self, c: &Case, j: &LexJob) -> Outcome {
        let g = c.g();
        let mut o = Outcome::default();
        let ran = match j {
            LexJob::Gen(Gen::Refused) => {
                o.label("refused (precedence tie)");
                return o;
            }
            LexJob::Gen(x) => {
                o.fail("crash", format!("no lexer is made: {:?}: {}", x, toks_line(g)));
                return o;
            }
            LexJob::NoCompile(m) => {
                o.fail("compile", format!("{}: generated lexer does not compile: {}", toks_line(g), m));
                return o;
            }
            LexJob::Ran(r) => r,
        };
        o.label("accepted");
        let judge = Judge::new(g);
        let mut good = false;
        for (t, r) in c.texts.iter().zip(ran) {
            let show = format!("{} on {:?}", toks_line(g), String::from_utf8_lossy(t));
            match r {
                Err(m) if m == "unjudged" => o.label("texts left unjudged"),
                Err(m) => {
                    let sig = m.split(' ').next().unwrap_or("trouble").to_string();
                    o.fail(&sig, format!("{}: {}", show, m))
                }
                Ok(l) => {
                    o.evals += 1;
                    match judge.text(t, self.lang == Lang::Rust, self.lang == Lang::Rust, l) {
                        Ok(n) => {
                            let kinds: std::collections::BTreeSet<&str> = l.iter().map(|x| x.name.as_str()).collect();
                            if n >= 3 && kinds.len() >= 3 {
                                good = true;
                                o.sample = Some(show);
                            }
                        }
                        Err(m) if m.starts_with("TIE") => o.label("accepted in spite of a tie"),
                        Err(m) => o.fail("token", format!("{}: {}", show, m)),
                    }
                }
            }
        }
        if std::str::from_utf8(&c.texts.concat()).is_err() {
            o.label("with invalid UTF-8");
        }
        if good {
            o.nontrivial.push(hash_bytes(toks_line(g).as_bytes()));
        }
        o
    }
}

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![
        Box::new(Lexers { id: "C01", lang: Lang::Rust }),
        Box::new(Lexers { id: "C02", lang: Lang::Cpp }),
    ]
}

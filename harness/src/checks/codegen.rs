//! C25: templates and the writers behind them.
use crate::engine::*;
use crate::util::*;
use lapex_codegen::{GeneratedCodeWriter, Template};
use std::cell::RefCell;
use std::io::{BufWriter, Error, ErrorKind, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub struct Templates;

/// A template piece.
#[derive(Clone, Debug, PartialEq)]
enum Piece {
    Text(String),
    Hole(String),
}

/// Our own reading: a placeholder is `/*{ name }*/` on one line; the nearest end closes it.
fn scan(t: &str) -> Vec<Piece> {
    let mut out = Vec::new();
    let mut text = String::new();
    let mut rest = t;
    loop {
        if let Some(body) = rest.strip_prefix("/*{") {
            if let Some(e) = body.find("}*/") {
                if !body[..e].contains('\n') {
                    out.push(Piece::Text(std::mem::take(&mut text)));
                    out.push(Piece::Hole(body[..e].trim().to_string()));
                    rest = &body[e + 3..];
                    continue;
                }
            }
        }
        match rest.chars().next() {
            Some(c) => {
                text.push(c);
                rest = &rest[c.len_utf8()..];
            }
            None => break,
        }
    }
    out.push(Piece::Text(text));
    out
}

/// Whether someone could read the template differently: an opening within a placeholder or before a
/// line break and a later end.
fn ambiguous(t: &str) -> bool {
    let mut rest = t;
    while let Some(i) = rest.find("/*{") {
        let body = &rest[i + 3..];
        let Some(e) = body.find("}*/") else { return body.contains("/*{") };
        let key = &body[..e];
        if key.contains('\n') || key.contains("/*{") || key.trim().is_empty() || key.ends_with('/') || key.starts_with('}') {
            return true;
        }
        // only blanks and tabs around the name
        if key.trim() != key.trim_matches(|c| c == ' ' || c == '\t') {
            return true;
        }
        rest = &body[e + 3..];
    }
    false
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Sink {
    /// takes everything
    Plain,
    /// takes a few bytes per call and is interrupted now and then
    Short,
    /// fails after n bytes
    Fails(usize),
    /// takes nothing more after n bytes
    Full(usize),
}

struct W {
    got: Rc<RefCell<Vec<u8>>>,
    kind: Sink,
    calls: usize,
}

impl Write for W {
    fn write(&mut self, b: &[u8]) -> Result<usize, Error> {
        self.calls += 1;
        let mut g = self.got.borrow_mut();
        let n = match self.kind {
            Sink::Plain => b.len(),
            Sink::Short => {
                if self.calls % 3 == 0 {
                    return Err(ErrorKind::Interrupted.into());
                }
                b.len().min(1 + self.calls % 5)
            }
            Sink::Fails(n) if g.len() >= n && !b.is_empty() => return Err(Error::new(ErrorKind::Other, "full")),
            Sink::Fails(n) | Sink::Full(n) => b.len().min(n.saturating_sub(g.len())),
        };
        g.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<(), Error> {
        Ok(())
    }
}

const KEYS: &[&str] = &[
    "a", "ab", "abc", "name", "two words", "x-y", "$1", "${0}", "a.b", "(.*)", "token_enum_variants", "é", "名前", "A", "a}", "{b", "*c*", "0", "a'b\"c",
    "\\d", "name2", "#", "a/b",
];
const TEXTS: &[&str] = &[
    "", " ", "\n", "fn main() {\n    ", "}\n", "/* a comment */", "// x\n", "/*", "*/", "{", "}", "/* {a} */", "/*{", "}*/", "$1$0", "\\n", "é😀\n",
    "\t\r\n", "/**/", "/ *{a}*/", "/*{a} */", "{{}}", "\u{0}", "}*", "/*{ a", "\n\n\n", "//*", "x/*y",
];

fn random_text(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(0, 4) {
        s.push_str(*rng.pick(TEXTS));
    }
    if rng.chance(1, 40) {
        s.push_str(&"long ".repeat(rng.range(100, 3000)));
    }
    s
}

fn value(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(0, 4) {
        match rng.below(5) {
            0 => s.push_str(&format!("/*{{{}}}*/", rng.pick(KEYS))),
            1 => s.push_str(*rng.pick(KEYS)),
            2 if rng.chance(1, 20) => s.push_str(&"0123456789".repeat(rng.range(50, 2000))),
            _ => s.push_str(*rng.pick(TEXTS)),
        }
    }
    s
}

impl Prop for Templates {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "random templates (placeholders with odd names and blanks, look-alikes of placeholders, non-ASCII text) are expanded with random substitutions (which hold placeholders and special characters themselves) and compared with a string model; for the same template, outputs that take a few bytes at a time, are interrupted, fail or fill up after a random number of bytes and substitutions that fail, through the template alone and through a code writer with a buffered file. Non-trivial: a template with two placeholders or one and text around it"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["templates whose placeholders are ambiguous (opened twice, opened before and closed after a line break, without a name) are left out; a panic counts as reporting"]
    }
    fn pins(&self) -> Vec<Case> {
        let c = |name: &str, t: &str, subs: &[(&str, &str)], mode: &str| {
            let mut c = Case { pin: Some(name.into()), text: Some(t.into()), ..Default::default() };
            for (i, (k, v)) in subs.iter().enumerate() {
                c = c.set(&format!("key{}", i), k).set(&format!("value{}", i), v);
            }
            c.set("mode", mode)
        };
        vec![
            c("empty", "", &[], "plain"),
            c("no placeholder", "abc /* x */", &[("x", "y")], "plain"),
            c("repeated", "/*{a}*/-/*{ a }*/-/*{\ta}*/", &[("a", "1")], "plain"),
            c("adjacent", "/*{a}*//*{b}*/", &[("a", "/*{b}*/"), ("b", "$0\\1")], "plain"),
            c("missing", "x/*{a}*/y", &[("b", "1")], "plain"),
            c("failing end of a buffered file", "x/*{a}*/y", &[("a", "1")], "buffered").set("at", 1),
        ]
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 20_000 } else { 1_000_000 },
            chunk: 100,
            min_nontrivial: 5000,
            shrink_width: 200,
            shrink_rounds: 60,
        }
    }
    fn gen(&self, rng: &mut Rng, _idx: usize, _tier: Tier) -> Case {
        let mut keys: Vec<&str> = KEYS.to_vec();
        rng.shuffle(&mut keys);
        keys.truncate(rng.range(1, 5));
        let t = loop {
            let mut t = String::new();
            for _ in 0..rng.range(0, 6) {
                t.push_str(&random_text(rng));
                if rng.chance(2, 3) {
                    let p = *rng.pick(&["", " ", "  ", "\t", " \t "]);
                    let q = *rng.pick(&["", " ", "  ", "\t"]);
                    t.push_str(&format!("/*{{{}{}{}}}*/", p, rng.pick(&keys), q));
                }
            }
            if rng.chance(1, 2) {
                t.push_str(&random_text(rng));
            }
            if !ambiguous(&t) {
                break t;
            }
        };
        let mut c = Case { text: Some(t), ..Default::default() };
        let missing = rng.chance(1, 6);
        for (i, k) in keys.iter().enumerate() {
            if missing && i == 0 {
                continue;
            }
            c = c.set(&format!("key{}", i), k).set(&format!("value{}", i), value(rng));
        }
        let mode = *rng.pick(&["plain", "plain", "short", "fails", "full", "broken", "buffered", "target"]);
        let top = if rng.chance(1, 3) { 10_000 } else { 120 };
        c.set("mode", mode).set("at", rng.below(top))
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        cases.iter().map(judge).collect()
    }
    fn smaller(&self, c: &Case) -> Vec<Case> {
        let mut v = c.smaller();
        for (k, x) in &c.opts {
            if k.starts_with("value") && !x.is_empty() {
                v.push(c.clone().set(k, ""));
                v.push(c.clone().set(k, "v"));
            }
            if k.starts_with("key") {
                let mut d = c.clone();
                d.opts.remove(k);
                d.opts.remove(&k.replace("key", "value"));
                v.push(d);
            }
        }
        if c.num("at") > 0 {
            v.push(c.clone().set("at", c.num("at") / 2));
            v.push(c.clone().set("at", c.num("at") - 1));
        }
        v
    }
}

fn judge(c: &Case) -> Outcome {
    let text = c.text.as_deref().unwrap_or("");
    if ambiguous(text) {
        return Outcome::skip("ambiguous placeholders");
    }
    let pieces = scan(text);
    let subs: Vec<(String, String)> =
        c.opts.iter().filter_map(|(k, v)| k.strip_prefix("key").map(|i| (v.clone(), c.opt(&format!("value{}", i)).to_string()))).collect();
    // what has to come out, up to the first placeholder nothing is supplied for
    let mut want = String::new();
    let mut missing = false;
    let broken = if c.opt("mode") == "broken" { subs.first().map(|s| s.0.clone()) } else { None };
    let mut breaks = false;
    for p in &pieces {
        match p {
            Piece::Text(t) => want.push_str(t),
            Piece::Hole(k) => match subs.iter().find(|s| s.0 == *k) {
                Some(_) if broken.as_ref() == Some(k) => {
                    breaks = true;
                    break;
                }
                Some(s) => want.push_str(&s.1),
                None => {
                    missing = true;
                    break;
                }
            },
        }
    }
    let at = c.num("at") as usize;
    let kind = match c.opt("mode") {
        "short" => Sink::Short,
        "fails" | "buffered" | "target" => Sink::Fails(at),
        "full" => Sink::Full(at),
        _ => Sink::Plain,
    };
    let got = Rc::new(RefCell::new(Vec::new()));
    let w = W { got: got.clone(), kind, calls: 0 };
    let write = |mut out: &mut dyn Write| -> std::io::Result<()> {
        let t = Template::new(text);
        let mut tw = t.writer();
        for (k, v) in &subs {
            let key: &'static str = Box::leak(k.clone().into_boxed_str());
            let bad = broken.as_ref() == Some(k);
            tw.substitute(key, move |o: &mut dyn Write| {
                if bad {
                    return Err(Error::new(ErrorKind::Other, "substitution"));
                }
                // in two calls
                let m = v.char_indices().map(|x| x.0).nth(v.chars().count() / 2).unwrap_or(0);
                write!(o, "{}", &v[..m])?;
                write!(o, "{}", &v[m..])
            });
        }
        tw.write(&mut out)
    };
    let mode = c.opt("mode").to_string();
    let r = catch_unwind(AssertUnwindSafe(|| match mode.as_str() {
        "buffered" => {
            let got = got.clone();
            let mut gen = GeneratedCodeWriter::with_default(move |name| {
                assert_eq!(name, "file");
                Ok(BufWriter::new(W { got: got.clone(), kind, calls: 0 }))
            });
            gen.generate_code("file", |o| write(o))
        }
        "target" => {
            let mut w = BufWriter::new(w);
            let mut gen = GeneratedCodeWriter::with_default(|_| -> std::io::Result<Vec<u8>> { Err(Error::new(ErrorKind::Other, "not this one")) });
            gen.add_target("file", &mut w);
            gen.generate_code("file", |o| write(o))
        }
        _ => {
            let mut w = w;
            write(&mut w)
        }
    }));
    let ok = matches!(r, Ok(Ok(())));
    let have = got.borrow().clone();
    let mut o = Outcome { evals: 1, ..Default::default() };
    let holes = pieces.iter().filter(|p| matches!(p, Piece::Hole(_))).count();
    let show = |b: &[u8]| esc(&String::from_utf8_lossy(&b[..b.len().min(400)]));
    let limit = match kind {
        Sink::Fails(n) | Sink::Full(n) => n,
        _ => usize::MAX,
    };
    let what = format!("template {:?}, mode {} at {}, substitutions {:?}", text, mode, at, subs);
    if missing || breaks || want.len() > limit {
        o.label(if missing {
            "a placeholder without substitution"
        } else if breaks {
            "a failing substitution"
        } else {
            "a failing output"
        });
        if ok {
            o.fail("not reported", format!("reported as written in full, but is not: {}", what));
        }
        if !want.as_bytes().starts_with(&have) {
            o.fail("before the error", format!("{:?} was written, not {:?}: {}", show(&have), show(want.as_bytes()), what));
        }
    } else {
        o.label(match kind {
            Sink::Plain => "expanded",
            Sink::Short => "expanded through short writes",
            _ => "expanded with a limit not reached",
        });
        if !ok {
            o.fail("refused", format!("not written: {:?}: {}", r.map_err(|e| panic_text(&*e)), what));
        } else if have != want.as_bytes() {
            o.fail("expansion", format!("{:?} was written, not {:?}: {}", show(&have), show(want.as_bytes()), what));
        }
    }
    if holes >= 2 || (holes == 1 && pieces.iter().any(|p| matches!(p, Piece::Text(t) if !t.is_empty()))) {
        o.nontrivial.push(hash_bytes(c.write().as_bytes()));
    }
    o.sample = Some(what);
    o
}

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Templates)]
}

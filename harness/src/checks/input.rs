//! C16 C17 C18: what the front ends read.
use crate::ast::*;
use crate::e2e::*;
use crate::engine::*;
use crate::gens;
use crate::rx::Rx;
use crate::texts;
use crate::util::*;
use lapex_input::{LapexInputParser, ProductionPattern, RuleSet, SourceSpan, TokenPattern};
use lapex_input_bootstrap::BootstrapLapexInputParser;
use lapex_input_gen::GeneratedLapexInputParser;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn raw(p: &ProductionPattern) -> RawPat {
    match p {
        ProductionPattern::Sequence { elements } => RawPat::Seq(elements.iter().map(raw).collect()),
        ProductionPattern::Alternative { elements } => RawPat::Alt(elements.iter().map(raw).collect()),
        ProductionPattern::OneOrMany { inner } => RawPat::Plus(Box::new(raw(inner))),
        ProductionPattern::ZeroOrMany { inner } => RawPat::Star(Box::new(raw(inner))),
        ProductionPattern::Optional { inner } => RawPat::Opt(Box::new(raw(inner))),
        ProductionPattern::Rule { rule_name } => RawPat::Name(rule_name.to_string()),
        ProductionPattern::Epsilon => RawPat::Eps,
    }
}

#[derive(Clone, Debug, PartialEq)]
struct TokView {
    name: String,
    explicit: Option<u32>,
    weight: usize,
    literal: Option<String>,
}

/// What was read, without spans.
#[derive(Clone, Debug, PartialEq)]
struct View {
    toks: Vec<TokView>,
    prods: Vec<(String, Option<String>, RawPat)>,
    entry: String,
}

fn view(r: &RuleSet) -> View {
    View {
        toks: r
            .token_rules
            .iter()
            .map(|t| TokView {
                name: t.inner.name.to_string(),
                explicit: t.inner.precedence.map(|p| p as u32),
                weight: t.inner.precedence(),
                literal: match &t.inner.pattern {
                    TokenPattern::Literal { characters } => Some(characters.iter().collect()),
                    _ => None,
                },
            })
            .collect(),
        prods: r
            .production_rules
            .iter()
            .map(|p| (p.inner.name.to_string(), p.inner.tag.map(|t| t.to_string()), raw(&p.inner.pattern).norm()))
            .collect(),
        entry: r.entry_rule.inner.name.to_string(),
    }
}

/// What the text says, read by ourselves; token weights only where the regex is of our subset.
fn expected(text: &str) -> Result<(View, Vec<bool>), String> {
    let rules = read_raw(text)?;
    let g = resolve(&rules)?;
    let known: Vec<bool> = g.toks.iter().map(|t| !matches!(t.pat, TokPat::Raw(_))).collect();
    let toks = g
        .toks
        .iter()
        .map(|t| TokView {
            name: t.name.clone(),
            explicit: t.prec,
            weight: gens::tok_weight(t),
            literal: match &t.pat {
                TokPat::Lit(s) => Some(s.clone()),
                _ => None,
            },
        })
        .collect();
    let prods = rules
        .iter()
        .filter_map(|r| match r {
            RawRule::Prod { name, tag, pat } => Some((name.clone(), tag.clone(), pat.norm())),
            _ => None,
        })
        .collect();
    let entry = g.nts[g.entry].clone();
    Ok((View { toks, prods, entry }, known))
}

/// The first difference between what was read and what is written.
fn differ(have: &View, want: &View, known: &[bool]) -> Option<(&'static str, String)> {
    if have.entry != want.entry {
        return Some(("entry", format!("entry {:?} read as {:?}", want.entry, have.entry)));
    }
    if have.toks.len() != want.toks.len() {
        return Some(("tokens", format!("{} token rules read as {}", want.toks.len(), have.toks.len())));
    }
    for (i, (h, w)) in have.toks.iter().zip(&want.toks).enumerate() {
        if h.name != w.name || h.explicit != w.explicit || h.literal != w.literal {
            return Some(("token", format!("token rule {}: {:?} read as {:?}", i + 1, w, h)));
        }
        if known[i] && h.weight != w.weight {
            return Some(("weight", format!("token {} has precedence {}, not {}", w.name, h.weight, w.weight)));
        }
    }
    if have.prods.len() != want.prods.len() {
        return Some(("productions", format!("{} production rules read as {}", want.prods.len(), have.prods.len())));
    }
    for (i, (h, w)) in have.prods.iter().zip(&want.prods).enumerate() {
        if h.0 != w.0 || h.1 != w.1 {
            return Some(("production", format!("production rule {}: {:?} [{:?}] read as {:?} [{:?}]", i + 1, w.0, w.1, h.0, h.1)));
        }
        if h.2 != w.2 {
            return Some(("pattern", format!("production rule {}: {:?} read as {:?}", i + 1, w.2, h.2)));
        }
    }
    None
}

fn read<R>(p: &dyn LapexInputParser, text: &str, f: impl FnOnce(&RuleSet) -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(|| p.parse_lapex(text).map(|r| f(&r)).map_err(|e| format!("{:?}", e))))
        .unwrap_or_else(|e| Err(panic_text(&*e)))
}

fn smaller_text(c: &Case) -> Vec<Case> {
    let mut out: Vec<Case> = texts::without_a_rule(c.text.as_deref().unwrap_or(""))
        .into_iter()
        .map(|t| Case { text: Some(t), ..c.clone() })
        .collect();
    out.extend(c.smaller());
    out
}

fn text_case(t: impl Into<String>) -> Case {
    Case { text: Some(t.into()), ..Default::default() }
}

fn pin(name: &str, t: impl Into<String>) -> Case {
    Case { pin: Some(name.into()), ..text_case(t) }
}

/// The grammars shipped with the tool, where they can be read.
fn shipped() -> Vec<(String, String)> {
    let mut v = Vec::new();
    let mut files = vec![std::path::PathBuf::from("/repo/lapex-input-gen/src/lapex.lapex")];
    if let Ok(d) = std::fs::read_dir("/repo/example") {
        files.extend(d.flatten().map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "lapex")));
    }
    files.sort();
    for f in files {
        if let Ok(t) = std::fs::read_to_string(&f) {
            v.push((f.display().to_string(), t));
        }
    }
    v
}

fn sample(c: &Case) -> String {
    let t = c.text.as_deref().unwrap_or("");
    let s: String = t.chars().take(600).collect();
    s
}

// ---------------------------------------------------------------------------------------------

pub struct RoundTrip;

impl Prop for RoundTrip {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "random grammars (nested groups, choices, repetitions, tags, explicit precedences, literals and regexes over all of Unicode, names that begin like keywords) are written with redundant parentheses, mixed rule kinds and random layout; the rules the front end reads are compared with those our own reader of the format finds (which is checked against the grammar written). Non-trivial: a text with grouping, a tag or an explicit precedence, or blanks other than one space"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["nested sequences and nested choices count as flattened, which associativity makes equal; what a regular expression means is C04's"]
    }
    fn pins(&self) -> Vec<Case> {
        let mut v: Vec<Case> = shipped().into_iter().map(|(n, t)| pin(&n, t)).collect();
        v.push(pin("escaped quote", "token A = \"a\\\"b\";\ntoken B = \"\\\\\";\nentry s;\nprod s = A B;\n"));
        v.push(pin("two strings on a line", "token A=\"a\";token B=\"b\";entry s;prod s=A|B;"));
        v.push(pin("nothing in groups", "token A = \"a\"; entry s; prod s = (!) A (! )? | (!)*; prod s = !;"));
        v.push(pin("nested repetition", "token A = \"a\"; entry s; prod s = ((A*)+)? (((A)))+ (A|A A|(A?));"));
        v.push(pin("precedences", "token A [0] = \"a\"; token B[65535] = /b/; token C [ 10 ] = /a+|bcd/; entry s; prod s [t] = A B C;"));
        v
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 30_000 } else { 1_500_000 },
            chunk: 25,
            min_nontrivial: 3000,
            shrink_width: 300,
            shrink_rounds: 100,
        }
    }
    fn gen(&self, rng: &mut Rng, _idx: usize, tier: Tier) -> Case {
        let mut g = texts::grammar(rng);
        if tier == Tier::Thorough && rng.chance(1, 50) {
            // many rules
            for i in 0..rng.range(100, 400) {
                let mut t = g.toks[0].clone();
                t.name = format!("more{}", i);
                g.toks.push(t);
                let k = g.toks.len();
                g.prods.push(Prod { nt: 0, tag: None, pat: gens::deep_pat(rng, k, 1) });
            }
        }
        let t = texts::text(&g, rng);
        match read_gram(&t) {
            Ok(h) => {
                // our reader must see the grammar that was written
                let f = |g: &Gram| -> Vec<(String, Option<String>, RawPat)> {
                    read_raw(&g.text())
                        .unwrap()
                        .iter()
                        .filter_map(|r| match r {
                            RawRule::Prod { name, tag, pat } => Some((name.clone(), tag.clone(), pat.norm())),
                            _ => None,
                        })
                        .collect()
                };
                if f(&g) != f(&h) || g.toks.len() != h.toks.len() {
                    infra(&format!("our reader and writer disagree on {:?}", t));
                }
            }
            Err(e) => infra(&format!("our reader refuses {:?}: {}", t, e)),
        }
        text_case(t)
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        cases.iter().map(judge_read).collect()
    }
    fn smaller(&self, c: &Case) -> Vec<Case> {
        smaller_text(c)
    }
}

fn judge_read(c: &Case) -> Outcome {
    let text = c.text.as_deref().unwrap_or("");
    let (want, known) = match expected(text) {
        Ok(x) => x,
        Err(_) => return Outcome::skip("not a consistent grammar"),
    };
    let mut o = Outcome { evals: 1, ..Default::default() };
    match read(&GeneratedLapexInputParser, text, view) {
        Err(e) => o.fail("refused", format!("a well-formed grammar is not read: {}\n{}", e, sample(c))),
        Ok(have) => {
            if let Some((s, m)) = differ(&have, &want, &known) {
                o.fail(s, format!("{}\n{}", m, sample(c)));
            }
        }
    }
    let grouped = want.prods.iter().any(|p| has_group(&p.2));
    let tagged = want.prods.iter().any(|p| p.1.is_some());
    let prec = want.toks.iter().any(|t| t.explicit.is_some());
    let layout = text.contains("  ") || text.contains('\t') || text.contains(";;") || text.contains("\n\n") || text.contains("=\n");
    for (l, b) in [("grouping", grouped), ("tags", tagged), ("explicit precedence", prec), ("unusual layout", layout), ("not only ASCII", !text.is_ascii())] {
        if b {
            o.label(l);
        }
    }
    if grouped || tagged || prec || layout {
        o.nontrivial.push(hash_bytes(text.as_bytes()));
    }
    o.sample = Some(sample(c));
    o
}

fn has_group(p: &RawPat) -> bool {
    match p {
        RawPat::Seq(v) => v.iter().any(has_group),
        RawPat::Alt(_) | RawPat::Star(_) | RawPat::Plus(_) | RawPat::Opt(_) => true,
        _ => false,
    }
}

// ---------------------------------------------------------------------------------------------

pub struct Spans;

impl Prop for Spans {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "grammar texts as for C16, with stretches of up to 400 blanks, line breaks within rules and texts of many lines; line and column of both ends of every rule are compared with those counted by our own reader, and the text the span selects with the rule's text. Non-trivial: a text with a rule over several lines, a rule that is not the first on its line, or a character outside ASCII before the end of some rule"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a column is a count of characters (code points); the end of a span is the place after the last character"]
    }
    fn pins(&self) -> Vec<Case> {
        let mut v: Vec<Case> = shipped().into_iter().map(|(n, t)| pin(&n, t)).collect();
        v.push(pin("accents", "token Ä_no = \"x\";".replace("Ä_no", "A") + " token B = \"ééé😀\"; token C = /[λ-ω]+/; entry s;prod s = A\n B\n\tC;  prod s = B;"));
        let mut t = String::from("token A = \"a\";");
        t.push_str(&"\n".repeat(300));
        t.push_str("entry s;");
        t.push_str(&" ".repeat(300));
        t.push_str("prod s = A;");
        v.push(pin("300 lines and columns", t));
        let mut t = String::from("token A = \"a\";");
        t.push_str(&"\n".repeat(40_000));
        t.push_str("entry s;");
        t.push_str(&" ".repeat(40_000));
        t.push_str("prod s = A;");
        v.push(pin("40000 lines and columns", t));
        for (lines, cols) in [(66_000, 3), (3, 66_000), (140_000, 140_000)] {
            let mut t = String::from("token A = \"a\";");
            t.push_str(&"\n".repeat(lines));
            t.push_str("entry s;");
            t.push_str(&" ".repeat(cols));
            t.push_str("prod s = A;\nprod s =");
            t.push_str(&"\n".repeat(lines));
            t.push_str(&"\t".repeat(cols));
            t.push_str("A A; token B = \"b\";");
            v.push(pin(&format!("{} lines, {} columns", lines, cols), t));
        }
        let long = format!("token A = \"{}\"; entry s;\nprod s = A;", "é".repeat(70_000));
        v.push(pin("a literal of 70000 characters", long));
        v
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 30_000 } else { 1_500_000 },
            chunk: 25,
            min_nontrivial: 3000,
            shrink_width: 300,
            shrink_rounds: 100,
        }
    }
    fn gen(&self, rng: &mut Rng, _idx: usize, _tier: Tier) -> Case {
        let g = texts::grammar(rng);
        text_case(texts::text(&g, rng))
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        cases.iter().map(judge_spans).collect()
    }
    fn smaller(&self, c: &Case) -> Vec<Case> {
        smaller_text(c)
    }
}

type Place = (usize, usize);

fn judge_spans(c: &Case) -> Outcome {
    let text = c.text.as_deref().unwrap_or("");
    if expected(text).is_err() {
        return Outcome::skip("not a consistent grammar");
    }
    let mut o = Outcome { evals: 1, ..Default::default() };
    let cs: Vec<char> = text.chars().collect();
    let mut places: Vec<Place> = Vec::with_capacity(cs.len() + 1);
    let (mut line, mut col) = (1, 1);
    for ch in &cs {
        places.push((line, col));
        if *ch == '\n' {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    places.push((line, col));
    let ranges = read_ranges(text).unwrap();
    let plain = |s: &SourceSpan| -> (Place, Place) {
        ((s.start.line as usize, s.start.col as usize), (s.end.line as usize, s.end.col as usize))
    };
    type Got = Vec<(u8, usize, (Place, Place), Option<String>)>;
    let got: Result<Got, String> = read(&GeneratedLapexInputParser, text, |r| {
        let mut v: Got = Vec::new();
        for (i, t) in r.token_rules.iter().enumerate() {
            v.push((0, i, plain(&t.span), t.span.substring(text).map(|s| s.to_string())));
        }
        v.push((1, 0, plain(&r.entry_rule.span), r.entry_rule.span.substring(text).map(|s| s.to_string())));
        for (i, t) in r.production_rules.iter().enumerate() {
            v.push((2, i, plain(&t.span), t.span.substring(text).map(|s| s.to_string())));
        }
        v
    });
    let mut want: Got = Vec::new();
    let mut count = [0; 3];
    let mut interesting = false;
    for (r, range) in &ranges {
        let k = match r {
            RawRule::Tok { .. } => 0,
            RawRule::Entry { .. } => 1,
            RawRule::Prod { .. } => 2,
        };
        let s: String = cs[range.clone()].iter().collect();
        interesting |= s.contains('\n') || places[range.start].1 > 1 || !s.is_ascii();
        want.push((k as u8, count[k], (places[range.start], places[range.end]), Some(s)));
        count[k] += 1;
    }
    want.sort_by_key(|w| (w.0, w.1));
    match got {
        Err(e) => o.fail("not read", format!("no positions: {}\n{}", e.lines().next().unwrap_or(""), sample(c))),
        Ok(got) => {
            o.evals = want.len() as u64;
            if got.len() != want.len() {
                return Outcome::skip("other rules read (C16)");
            }
            for (g, w) in got.iter().zip(&want) {
                let kind = ["token", "entry", "production"][w.0 as usize];
                if g.2 .0 != w.2 .0 {
                    o.fail("start", format!("{} rule {} starts at {:?}, not {:?}\n{}", kind, w.1 + 1, w.2 .0, g.2 .0, sample(c)));
                }
                if g.2 .1 != w.2 .1 {
                    o.fail("end", format!("{} rule {} ends at {:?}, not {:?}\n{}", kind, w.1 + 1, w.2 .1, g.2 .1, sample(c)));
                }
                if g.3 != w.3 {
                    o.fail("text", format!("{} rule {}: the span selects {:?}, not {:?}\n{}", kind, w.1 + 1, g.3, w.3, sample(c)));
                }
            }
        }
    }
    for (l, b) in [
        ("a rule over several lines", want.iter().any(|w| w.3.as_ref().unwrap().contains('\n'))),
        ("several rules on a line", places.iter().zip(&cs).any(|(p, c)| p.1 > 20 && *c == '=')),
        ("more than 255 lines", line > 255),
        ("a column above 255", places.iter().any(|p| p.1 > 255)),
        ("more than 65535 lines", line > 65535),
        ("a column above 65535", places.iter().any(|p| p.1 > 65535)),
        ("not only ASCII", !text.is_ascii()),
    ] {
        if b {
            o.label(l);
        }
    }
    if interesting {
        o.nontrivial.push(hash_bytes(text.as_bytes()));
    }
    o.sample = Some(sample(c));
    o
}

// ---------------------------------------------------------------------------------------------

pub struct Bootstrap;

/// A regex of the common subset as (text, model).
fn boot_char(rng: &mut Rng, class: bool, o: &mut String) -> char {
    let plain: &[char] = if class {
        &['a', 'b', 'c', 'z', 'A', '0', '9', '_', ' ', '"', '.', '(', '{', '$', '<', '=', ';', '!']
    } else {
        &['a', 'b', 'c', 'z', 'A', '0', '9', '_', ' ', '"', '-', '=', ';', '!', '<', '>', '#', '%', ',', ':', '\'', '@', '`', '~', '&']
    };
    match rng.below(12) {
        0 => {
            let (e, c) = *rng.pick(&[("\\n", '\n'), ("\\r", '\r'), ("\\t", '\t'), ("\\\\", '\\'), ("\\/", '/')]);
            o.push_str(e);
            c
        }
        1 | 2 => {
            let c = *rng.pick(&['a', '\u{e9}', '\u{7ff}', '\u{800}', '\u{4e2d}', '\u{1f600}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{1}', '"', ']']);
            if (c as u32) < 0x10000 {
                o.push_str(&format!("\\u{{{:04X}}}", c as u32));
            } else {
                o.push_str(&format!("\\u{{{:x}}}", c as u32));
            }
            c
        }
        _ => {
            let c = *rng.pick(plain);
            o.push(c);
            c
        }
    }
}

fn boot_elem(rng: &mut Rng, depth: usize, o: &mut String) -> Rx {
    match rng.below(if depth > 0 { 9 } else { 6 }) {
        0 => {
            o.push('.');
            Rx::Dot
        }
        1 | 2 => loop {
            let neg = rng.chance(1, 3);
            let mut s = String::from(if neg { "[^" } else { "[" });
            let mut items = Vec::new();
            for _ in 0..rng.range(1, 4) {
                let mut a = String::new();
                let x = boot_char(rng, true, &mut a);
                if rng.chance(1, 3) {
                    let mut b = String::new();
                    let y = boot_char(rng, true, &mut b);
                    if x <= y {
                        s.push_str(&format!("{}-{}", a, b));
                        items.push((x, y));
                    } else {
                        s.push_str(&format!("{}-{}", b, a));
                        items.push((y, x));
                    }
                } else {
                    s.push_str(&a);
                    items.push((x, x));
                }
            }
            s.push(']');
            let all = neg && items.iter().any(|i| i.0 <= '\u{1}') && items.iter().any(|i| i.1 == '\u{10ffff}');
            if s.contains("&&") || s.contains("--") || s.contains("~~") || s.contains("[:") || all {
                continue;
            }
            o.push_str(&s);
            return Rx::Class { neg, items };
        },
        3..=5 => Rx::Ch(boot_char(rng, false, o), 0),
        _ => {
            o.push('(');
            let mut v = Vec::new();
            for i in 0..rng.range(1, 3) {
                if i > 0 {
                    o.push('|');
                }
                v.push(boot_seq(rng, depth - 1, o));
            }
            o.push(')');
            Rx::Group(true, Box::new(if v.len() == 1 { v.pop().unwrap() } else { Rx::Alt(v) }))
        }
    }
}

fn boot_seq(rng: &mut Rng, depth: usize, o: &mut String) -> Rx {
    let v: Vec<Rx> = (0..rng.range(1, 4))
        .map(|_| {
            let e = boot_elem(rng, depth, o);
            match rng.below(8) {
                0 => {
                    o.push('*');
                    Rx::Rep { min: 0, max: None, inner: Box::new(e) }
                }
                1 => {
                    o.push('+');
                    Rx::Rep { min: 1, max: None, inner: Box::new(e) }
                }
                2 => {
                    o.push('?');
                    Rx::Rep { min: 0, max: Some(1), inner: Box::new(e) }
                }
                _ => e,
            }
        })
        .collect();
    Rx::Cat(v)
}

/// Whether the shipped front end would merge a choice with the one around it.
fn merged(p: &RawPat) -> bool {
    match p {
        RawPat::Alt(v) => v.iter().any(|q| matches!(q, RawPat::Alt(_)) || merged(q)),
        RawPat::Seq(v) => v.iter().any(merged),
        RawPat::Star(p) | RawPat::Plus(p) | RawPat::Opt(p) => merged(p),
        _ => false,
    }
}

fn boot_pat(g: &Gram, p: &Pat, rng: &mut Rng, o: &mut String) {
    let sep = |rng: &mut Rng, o: &mut String| o.push_str(if rng.chance(1, 10) { "  " } else { " " });
    match p {
        Pat::Seq(v) => {
            for (i, e) in v.iter().enumerate() {
                if i > 0 {
                    sep(rng, o);
                }
                boot_item(g, e, rng, o);
            }
        }
        p => boot_item(g, p, rng, o),
    }
}

fn boot_item(g: &Gram, p: &Pat, rng: &mut Rng, o: &mut String) {
    match p {
        Pat::T(i) => o.push_str(&g.toks[*i].name),
        Pat::N(i) => o.push_str(&g.nts[*i]),
        Pat::Alt(v) => {
            o.push('(');
            for (i, e) in v.iter().enumerate() {
                if i > 0 {
                    o.push_str(" | ");
                }
                boot_pat(g, e, rng, o);
            }
            o.push(')');
        }
        Pat::Seq(_) => {
            o.push('(');
            boot_pat(g, p, rng, o);
            o.push(')');
        }
        Pat::Star(q) | Pat::Plus(q) | Pat::Opt(q) => {
            match **q {
                Pat::T(_) | Pat::N(_) | Pat::Alt(_) | Pat::Seq(_) => boot_item(g, q, rng, o),
                _ => {
                    o.push('(');
                    boot_item(g, q, rng, o);
                    o.push(')');
                }
            }
            o.push(match p {
                Pat::Star(_) => '*',
                Pat::Plus(_) => '+',
                _ => '?',
            });
        }
        Pat::Eps => infra("the bootstrap has no empty pattern"),
    }
}

/// Leaves out the empty pattern, which the bootstrap does not know.
fn no_eps(p: &Pat) -> Pat {
    match p {
        Pat::Eps => Pat::T(0),
        Pat::Seq(v) => Pat::Seq(v.iter().map(no_eps).collect()),
        Pat::Alt(v) => Pat::Alt(v.iter().map(no_eps).collect()),
        Pat::Star(p) => Pat::Star(Box::new(no_eps(p))),
        Pat::Plus(p) => Pat::Plus(Box::new(no_eps(p))),
        Pat::Opt(p) => Pat::Opt(Box::new(no_eps(p))),
        p => p.clone(),
    }
    .norm()
}

/// A text of the subset both front ends know.
fn boot_text(rng: &mut Rng) -> String {
    let mut c = gens::Cfg::small(true);
    c.max_tok = rng.range(1, 5);
    c.max_nt = rng.range(1, 4);
    let mut g = if rng.chance(1, 2) {
        let w = *rng.pick(&[gens::Want::Lalr, gens::Want::Lr1, gens::Want::Any]);
        gens::useful_gram(rng, w)
    } else {
        gens::rand_gram(rng, &c)
    };
    let (tk, nt) = (g.toks.len(), g.nts.len());
    for p in g.prods.iter_mut() {
        if rng.chance(1, 4) {
            p.pat = gens::deep_pat(rng, tk, nt);
        }
        p.pat = no_eps(&p.pat);
        p.tag = None;
    }
    let mut names: Vec<String> = [
        "A", "b", "kw_if", "KW_ELSE", "Num", "PLUS", "lp", "Semi", "tokens", "prods", "entry_x", "S", "expr", "Term", "stmt_list",
        "Block", "decl", "tail_rec", "Head", "q", "token_", "prod_entry", "under__score", "w",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    rng.shuffle(&mut names);
    for t in g.toks.iter_mut() {
        t.name = names.pop().unwrap();
    }
    for n in g.nts.iter_mut() {
        *n = names.pop().unwrap();
    }
    let gap = |rng: &mut Rng| if rng.chance(1, 12) { "   ".to_string() } else { " ".to_string() };
    let mut toks: Vec<String> = Vec::new();
    for t in &g.toks {
        let mut p = String::new();
        if rng.chance(1, 2) {
            p.push('"');
            for _ in 0..rng.range(1, 5) {
                match rng.below(10) {
                    0 => p.push_str(*rng.pick(&["\\n", "\\\\", "\\a", "\\/", "\\t"])),
                    _ => p.push(*rng.pick(&['a', 'b', 'c', 'i', 'f', '=', '+', ';', ' ', '(', '/', '|', '{', '\t', '[', '0', '.'])),
                }
            }
            p.push('"');
        } else {
            loop {
                p.clear();
                let d = rng.range(0, 2);
                boot_seq(rng, d, &mut p);
                if !p.starts_with('#') {
                    break;
                }
            }
            p = format!("/{}/", p);
        }
        toks.push(format!("token{}{}{}={}{};", gap(rng), t.name, gap(rng), gap(rng), p));
    }
    let entry = format!("entry{}{};", gap(rng), g.nts[g.entry]);
    let mut prods = Vec::new();
    for p in &g.prods {
        let mut s = String::new();
        boot_pat(&g, &p.pat, rng, &mut s);
        prods.push(format!("prod{}{}{}={}{};", gap(rng), g.nts[p.nt], gap(rng), gap(rng), s));
    }
    let mut keys = vec![0; toks.len()];
    keys.push(1);
    keys.extend(vec![2; prods.len()]);
    if rng.chance(1, 2) {
        rng.shuffle(&mut keys);
    }
    toks.reverse();
    prods.reverse();
    let mut s = String::new();
    if rng.chance(1, 8) {
        s.push_str(" \n");
    }
    for (i, k) in keys.into_iter().enumerate() {
        if i > 0 {
            s.push_str(*rng.pick(&["\n", "\n", "\n", " ", "\n\n", "\t", "\n  "]));
        }
        s.push_str(&match k {
            0 => toks.pop().unwrap(),
            1 => entry.clone(),
            _ => prods.pop().unwrap(),
        });
    }
    if rng.chance(2, 3) {
        s.push('\n');
    }
    s
}

/// Whether a text of ours still lies in the common subset; used when shrinking.
fn in_subset(text: &str) -> bool {
    let Ok(rules) = read_raw(text) else { return false };
    if resolve(&rules).is_err() {
        return false;
    }
    if !text.is_ascii() || text.contains('!') && rules.iter().any(|r| matches!(r, RawRule::Prod { pat, .. } if has_eps(pat))) {
        return false;
    }
    rules.iter().all(|r| match r {
        RawRule::Entry { name } => plain_name(name),
        RawRule::Tok { name, prec, text } => plain_name(name) && prec.is_none() && text.len() > 2 && (text.starts_with('/') || !text[1..text.len() - 1].contains('"')),
        RawRule::Prod { name, tag, pat } => plain_name(name) && tag.is_none() && plain_pat(pat),
    }) && read_ranges(text).map_or(false, |r| {
        // a choice stands in parentheses
        let cs: Vec<char> = text.chars().collect();
        r.iter().all(|(r, range)| match r {
            RawRule::Prod { pat: RawPat::Alt(_), .. } => {
                let s: String = cs[range.clone()].iter().collect();
                s.split_once('=').map_or(false, |x| x.1.trim_start().starts_with('('))
            }
            _ => true,
        })
    })
}

fn plain_name(n: &str) -> bool {
    n.chars().all(|c| c.is_ascii_alphabetic() || c == '_')
}

fn plain_pat(p: &RawPat) -> bool {
    match p {
        RawPat::Name(n) => plain_name(n),
        RawPat::Seq(v) | RawPat::Alt(v) => v.iter().all(plain_pat),
        RawPat::Star(p) | RawPat::Plus(p) | RawPat::Opt(p) => plain_pat(p),
        RawPat::Eps => false,
    }
}

fn has_eps(p: &RawPat) -> bool {
    match p {
        RawPat::Eps => true,
        RawPat::Seq(v) | RawPat::Alt(v) => v.iter().any(has_eps),
        RawPat::Star(p) | RawPat::Plus(p) | RawPat::Opt(p) => has_eps(p),
        _ => false,
    }
}

fn generate_with(boot: bool, text: &str, alg: &str, lang: Lang, dir: &std::path::Path) -> Gen {
    let file = dir.join("grammar.lapex");
    write_file(&file, text);
    let l = match lang {
        Lang::Rust => lapex::Language::Rust,
        Lang::Cpp => lapex::Language::Cpp,
    };
    let r = catch_unwind(AssertUnwindSafe(|| {
        if boot {
            lapex::generate(false, algorithm(alg), true, &file, dir, l, BootstrapLapexInputParser).is_ok()
        } else {
            lapex::generate(false, algorithm(alg), true, &file, dir, l, GeneratedLapexInputParser).is_ok()
        }
    }));
    match r {
        Ok(true) => Gen::Ok,
        Ok(false) => Gen::Refused,
        Err(e) => Gen::Panicked(panic_text(&*e)),
    }
}

fn files(dir: &std::path::Path) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = std::fs::read_dir(dir)
        .map(|d| {
            d.flatten()
                .filter(|e| e.file_name() != "grammar.lapex")
                .map(|e| (e.file_name().to_string_lossy().to_string(), std::fs::read(e.path()).unwrap_or_default()))
                .collect()
        })
        .unwrap_or_default();
    v.sort();
    v
}

#[cfg(feature = "lexer")]
fn automata(text: &str, o: &mut Outcome) -> Result<(), (String, String)> {
    use super::regex::{compare, with_automaton};
    use crate::rx::Nfa;
    let g = read_gram(text).map_err(|e| ("reader".to_string(), e))?;
    if g.toks.iter().any(|t| matches!(t.pat, TokPat::Raw(_)) && Rx::parse(&raw_text(t)).is_none()) {
        o.label("automata not compared: a regex outside our model");
        return Ok(());
    }
    let rs: Vec<Rx> = g.toks.iter().map(gens::tok_rx).collect();
    let nfa = Nfa::new(&rs);
    if nfa.subsets(&crate::rx::representatives(&rs), 120).is_none() {
        o.label("automata not compared: too many states");
        return Ok(());
    }
    for (who, p) in [("the bootstrap", &BootstrapLapexInputParser as &dyn LapexInputParser), ("the shipped front end", &GeneratedLapexInputParser)] {
        with_automaton(p, text, |raw, _| compare(&g, &nfa, &raw, &rs, 3000))
            .map_err(|e| ("automaton".to_string(), e))?
            .map_err(|(s, m)| (s, format!("through {}: {}", who, m)))?;
    }
    o.label("automata compared");
    Ok(())
}

#[cfg(feature = "lexer")]
fn raw_text(t: &Tok) -> String {
    match &t.pat {
        TokPat::Raw(s) => s.clone(),
        _ => String::new(),
    }
}

#[cfg(not(feature = "lexer"))]
fn automata(_text: &str, _o: &mut Outcome) -> Result<(), (String, String)> {
    let _ = Rx::parse("");
    Ok(())
}

impl Prop for Bootstrap {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "random grammar texts in the subset the bootstrap knows (names of letters and underscores, no tags, precedences or empty patterns, choices only in parentheses, regexes of characters, escapes, classes, dot, groups and * + ?) are read by both front ends: the rules must be the same and those written, the generated parser, token and table files of a random algorithm and language byte-identical, and the token automata of both those of our own model. Non-trivial: a text with a regex of at least two parts or grouping in a production"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a choice standing directly within a choice is left out: the shipped front end may merge it, which numbers helper rules differently"]
    }
    fn pins(&self) -> Vec<Case> {
        let mut v = Vec::new();
        for (n, t) in shipped() {
            if n.ends_with("lapex.lapex") {
                for (a, l) in [("lr1", "rust"), ("lalr", "rust"), ("lalr", "cpp"), ("glr", "rust")] {
                    v.push(pin(&n, t.clone()).set("lang", l).alg(a));
                }
            }
        }
        v.push(pin("dot", "token A = /a.b/;\ntoken B = /./;\nentry s;\nprod s = A B;").set("lang", "rust").alg("lalr"));
        v.push(pin("groups", "token A = /(a|bc)+(d)?/;\nentry s;\nprod s = (A A | A)* (A)+ ((A)?);").set("lang", "rust").alg("glr"));
        v
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 4000 } else { 100_000 },
            chunk: 20,
            min_nontrivial: 1500,
            shrink_width: 300,
            shrink_rounds: 100,
        }
    }
    fn gen(&self, rng: &mut Rng, _idx: usize, _tier: Tier) -> Case {
        let t = boot_text(rng);
        let mut c = text_case(t);
        c.alg = rng.pick(&["lr0", "lalr", "lr1", "glr", "ll1"]).to_string();
        let lang = match c.alg.as_str() {
            "glr" => "rust",
            "ll1" => "cpp",
            _ => *rng.pick(&["rust", "cpp"]),
        };
        c.set("lang", lang)
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        cases.iter().map(judge_boot).collect()
    }
    fn smaller(&self, c: &Case) -> Vec<Case> {
        smaller_text(c)
    }
}

impl Case {
    fn alg(mut self, a: &str) -> Case {
        self.alg = a.into();
        self
    }
}

fn judge_boot(c: &Case) -> Outcome {
    let text = c.text.as_deref().unwrap_or("");
    let shipped = c.pin.as_deref().map_or(false, |p| p.ends_with("lapex.lapex"));
    if !shipped && !in_subset(text) {
        return Outcome::skip("outside the common subset");
    }
    let Ok((want, known)) = expected(text) else {
        return Outcome::skip("not a consistent grammar");
    };
    let mut o = Outcome { evals: 1, ..Default::default() };
    let gen = read(&GeneratedLapexInputParser, text, view);
    let boot = read(&BootstrapLapexInputParser, text, view);
    let (gen, boot) = match (gen, boot) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => {
            o.label("refused by both");
            return o;
        }
        (Err(e), Ok(_)) => {
            o.fail("shipped refuses", format!("only the shipped front end refuses this: {}\n{}", e, sample(c)));
            return o;
        }
        (Ok(_), Err(e)) => {
            o.fail("bootstrap refuses", format!("only the bootstrap refuses this: {}\n{}", e, sample(c)));
            return o;
        }
    };
    if let Some((s, m)) = differ(&boot, &gen, &vec![true; gen.toks.len()]) {
        o.fail(&format!("front ends differ: {}", s), format!("from the shipped front end to the bootstrap: {}\n{}", m, sample(c)));
        return o;
    }
    if let Some((s, m)) = differ(&boot, &want, &known) {
        o.fail(s, format!("{}\n{}", m, sample(c)));
        return o;
    }
    if !merged_raw(text) {
        let lang = if c.opt("lang") == "cpp" { Lang::Cpp } else { Lang::Rust };
        let (a, b) = (Scratch::new("boot"), Scratch::new("boot"));
        let x = generate_with(false, text, &c.alg, lang, a.path());
        let y = generate_with(true, text, &c.alg, lang, b.path());
        // without source positions, refusing cannot show the rules and panics: refused all the same
        let kind = |g: &Gen| if *g == Gen::Ok { "generated" } else { "refused" };
        o.label(format!("{} {}: {}", c.alg, c.opt("lang"), kind(&x)));
        if kind(&x) != kind(&y) {
            o.fail("generation", format!("from the shipped front end {:?}, from the bootstrap {:?}\n{}", x, y, sample(c)));
        } else if x == Gen::Ok {
            let (f, g) = (files(a.path()), files(b.path()));
            if f != g {
                let n = f.iter().zip(&g).find(|(p, q)| p != q).map(|(p, _)| p.0.clone()).unwrap_or("the set of files".into());
                o.fail("generated files", format!("{} differs between the front ends\n{}", n, sample(c)));
            }
        }
    } else {
        o.label("a choice within a choice: files not compared");
    }
    match automata(text, &mut o) {
        Ok(()) => {}
        Err((s, m)) => o.fail(&s, format!("{}\n{}", m, sample(c))),
    }
    if want.prods.iter().any(|p| has_group(&p.2)) || want.toks.iter().any(|t| t.literal.is_none() && t.weight > 1) {
        o.nontrivial.push(hash_bytes(text.as_bytes()));
    }
    o.sample = Some(sample(c));
    o
}

/// A choice directly within a choice, as written.
fn merged_raw(text: &str) -> bool {
    read_raw(text).map_or(false, |r| r.iter().any(|r| matches!(r, RawRule::Prod { pat, .. } if merged(pat))))
}

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(RoundTrip), Box::new(Spans), Box::new(Bootstrap)]
}

//! C05 C06 C07 C10 C11 C12 C13: generated Rust parsers, compiled and run.
use crate::ast::*;
use crate::bnf::{is_class, Bnf, Class};
use crate::chart;
use crate::e2e_rust::*;
use crate::engine::*;
use crate::events;
use crate::gens::{self, Want};
use crate::truth::{self, Runner, Truth};
use crate::util::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Language,
    Calls,
    Errors,
}

pub struct RustParsers {
    pub id: &'static str,
    pub what: What,
    pub algs: &'static [&'static str],
    pub rule: &'static str,
}

pub fn one_line(g: &Gram) -> String {
    let t = g.text();
    let v: Vec<&str> = t.lines().filter(|l| !l.starts_with("token")).collect();
    v.join(" ")
}

pub fn spell(g: &Gram, w: &[u16]) -> String {
    let v: Vec<String> = w
        .iter()
        .map(|t| g.toks.get(*t as usize).map(|t| t.name.clone()).unwrap_or("<source error>".into()))
        .collect();
    if v.len() > 400 {
        return format!("[{} .. {}] ({} tokens)", v[..20].join(" "), v[v.len() - 20..].join(" "), v.len());
    }
    format!("[{}]", v.join(" "))
}

pub fn want_for(alg: &str) -> Want {
    match alg {
        "lr0" => Want::Lr0,
        "lalr" => Want::Lalr,
        "lr1" => Want::Lr1,
        "ll1" | "cpp-ll1" => Want::Ll1,
        "glr" => Want::Glr,
        _ => Want::Any,
    }
}

/// A long sentence, and what becomes of it with one token wrong, missing or too many.
pub fn long_words(rng: &mut Rng, g: &Gram, target: usize) -> Vec<Vec<u16>> {
    let s = g.long_sentence(rng, target);
    if s.len() < target / 2 {
        return vec![];
    }
    let k = g.toks.len();
    let mut v = vec![s.clone()];
    let last = s.len() - 1;
    for at in [rng.below(s.len()), last - rng.below(4), last] {
        let mut d = s.clone();
        match rng.below(3) {
            0 => d[at] = rng.below(k) as u16,
            1 => d.truncate(at),
            _ => d.insert(at + 1, rng.below(k) as u16),
        }
        v.push(d);
    }
    v
}

/// Token sequences suited to the algorithm.
pub fn toks_for(rng: &mut Rng, g: &Gram, alg: &str, cap: usize, what: What) -> Vec<Vec<u16>> {
    let mut v = if alg == "glr" {
        let b = Bnf::from_gram(g);
        let plain = is_class(&b, Class::Lalr) == Some(true);
        let long = plain && rng.chance(1, 4);
        gens::inputs(rng, g, cap, if plain { 11 } else { 7 }, long)
    } else {
        let long = rng.chance(1, 4);
        gens::inputs(rng, g, cap, 9, long)
    };
    if what == What::Errors {
        // sentences that go wrong late
        for _ in 0..cap / 3 {
            let budget = rng.range(2, 9);
            let mut s = g.sentence(rng, budget);
            if s.is_empty() || s.len() > if alg == "glr" { 8 } else { 30 } {
                continue;
            }
            let i = rng.below(s.len());
            s[i] = rng.below(g.toks.len()) as u16;
            v.push(s);
        }
    }
    if rng.chance(1, 5) {
        if Runner::new(g).is_some() {
            let target = rng.range(400, if alg == "glr" { 600 } else { 2000 });
            v.extend(long_words(rng, g, target));
        }
    }
    if alg == "glr" && what == What::Language {
        for _ in 0..3 {
            let budget = rng.range(0, 7);
            let mut s = g.sentence(rng, budget);
            s.truncate(8);
            let i = rng.below(s.len() + 1);
            s.insert(i, source_error());
            v.push(s);
        }
    }
    v
}

pub fn judge_one(
    truth: &Truth,
    alg: &str,
    what: What,
    eg: &Gram,
    names: &[String],
    calls: &BTreeMap<String, usize>,
    w: &[u16],
    r: &Ran,
) -> Result<Option<bool>, (String, String)> {
    let g = truth.g;
    if !truth.knows(w) {
        return Ok(None);
    }
    let bad = |s: &str, m: String| Err((s.to_string(), format!("{} on {} ({}): {}", alg, spell(g, w), one_line(g), m)));
    // other properties decide whether an input is accepted and what an error says
    let concerns = what == What::Language
        || w.contains(&source_error())
        || what == (if truth.member(w) { What::Calls } else { What::Errors });
    match r.end.as_str() {
        "unjudged" => return Ok(None),
        "garbled" => infra(&format!("driver output {:?}", r.got)),
        "dead" | "diverge" | "panic" if !concerns || what == What::Calls => return Ok(None),
        "dead" => return bad("dead", format!("the parser did not come to an end: {:?}", r.got)),
        "diverge" => return bad("diverge", "the parser does not terminate".into()),
        "panic" => return bad("panic", format!("the parser panicked: {:?}", r.got)),
        _ => {}
    }
    // a failing token source cuts the input off
    if let Some(at) = w.iter().position(|t| *t == source_error()) {
        let seen = &w[..at];
        let reached = chart::viable(g, seen);
        return match (r.end.as_str(), reached) {
            ("source", true) => {
                if r.got.get(0).map(|s| s.as_str()) == Some(&at.to_string()) {
                    Ok(Some(false))
                } else {
                    bad("source", format!("another source error came out: {:?}", r.got))
                }
            }
            ("source", false) => bad("source", "a token was fetched behind an impossible one".into()),
            ("ok", _) => bad("accept", "accepted in spite of an error of the token source".into()),
            (_, true) => bad("source", format!("source error at {} was not passed on: {}", at, r.end)),
            (_, false) => Ok(Some(false)),
        };
    }
    if r.end == "source" {
        return bad("source", "an error of the token source that never happened".into());
    }
    let member = truth.member(w);
    if member != (r.end == "ok") {
        // the language is what the properties on languages decide; it is never right to misjudge an input
        return if member && what != What::Language {
            Ok(None)
        } else if member {
            bad("reject", format!("rejected ({:?}, expected {:?}), but the grammar derives it", r.got, r.expected))
        } else {
            bad("accept", "accepted, but the grammar does not derive it".into())
        };
    }
    match what {
        What::Language => {}
        What::Calls => {
            if member {
                if let Err(m) = events::check_derivation(eg, names, calls, w, &r.log, truth, false) {
                    return bad("calls", m);
                }
            }
        }
        What::Errors => {
            if !member {
                let k = truth.error_at(w).unwrap();
                let got = if k == w.len() { "EndOfFile".to_string() } else { names[w[k] as usize].clone() };
                if r.got.is_empty() || r.got.iter().any(|x| *x != got) {
                    return bad("error", format!("the error is about {:?}, not {} at position {}", r.got, got, k));
                }
                if let Some(m) = &r.mute {
                    return bad("message", format!("the text of the error does not name {} first and what was expected: {:?}", got, m));
                }
                if r.fetched != k + 1 {
                    return bad("error", format!("{} tokens fetched, the first impossible one is at {}", r.fetched, k));
                }
                if alg == "glr" {
                    if r.got_data.iter().any(|d| *d != k) {
                        return bad("error", format!("error data {:?}, expected {}", r.got_data, k));
                    }
                    let n = r.log.iter().filter(|e| matches!(e, Ev::Shift(..))).count();
                    if n > k {
                        return bad("error", format!("{} tokens visited before the error at {}", n, k));
                    }
                    if let Err(m) = events::check_shifts(names, &w[..n], &r.log) {
                        return bad("error", m);
                    }
                } else if let Err(m) = events::check_shifts(names, &w[..k], &r.log) {
                    return bad("error", m);
                }
                if r.expected.len() != r.got.len() {
                    return bad("expected", format!("{} errors with {} expectations", r.got.len(), r.expected.len()));
                }
                for e in &r.expected {
                    if e.contains(&got) {
                        return bad("expected", format!("the rejected token {} is listed as expected: {:?}", got, e));
                    }
                }
                if alg == "lr1" {
                    let (ts, end) = truth.next_tokens(w, k);
                    let mut want: Vec<String> = ts.iter().map(|t| names[*t as usize].clone()).collect();
                    if end {
                        want.push("EndOfFile".into());
                    }
                    want.sort();
                    let mut have = r.expected[0].clone();
                    have.sort();
                    if want != have {
                        return bad("expected", format!("expected tokens {:?}, should be {:?} after {} tokens", have, want, k));
                    }
                }
            }
        }
    }
    Ok(Some(member))
}

pub fn names_of(g: &Gram) -> Vec<String> {
    (0..g.toks.len()).map(|t| rust_tok(g, t)).collect()
}

impl Prop for RustParsers {
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["membership is decided by a fixpoint recogniser over the written patterns (harness/src/chart.rs)"]
    }
    fn pins(&self) -> Vec<Case> {
        pins(self.id, self.algs)
    }
    fn plan(&self, tier: Tier) -> Plan {
        let many = self.algs.len() > 1;
        Plan {
            cases: if tier == Tier::Quick { if many { 480 } else { 384 } } else { 6144 },
            chunk: 24,
            min_nontrivial: if self.id == "C07" { 60 } else { 100 },
            shrink_width: 64,
            shrink_rounds: 60,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: usize, tier: Tier) -> Case {
        let alg = self.algs[idx % self.algs.len()];
        // sometimes a grammar that is only hoped to be of the class: the generator decides
        let g = if rng.chance(1, 12) && alg != "glr" {
            let mut g = gens::useful_gram(rng, Want::Any);
            if Bnf::from_gram(&g).cyclic_or_hidden_left() {
                g = gens::useful_gram(rng, want_for(alg));
            }
            g
        } else if alg == "glr" && self.what == What::Calls && rng.chance(1, 3) {
            gens::useful_gram(rng, Want::Lr1)
        } else {
            gens::useful_gram(rng, want_for(alg))
        };
        let g = if alg == "glr" && !gens::wanted(&g, Want::Glr) { gens::useful_gram(rng, Want::Glr) } else { g };
        let cap = if tier == Tier::Quick { 60 } else { 160 };
        let toks = toks_for(rng, &g, alg, cap, self.what);
        let mut g = g;
        let useless = self.what == What::Language && alg != "glr" && rng.chance(1, 12);
        if useless {
            // rules nothing can reach, or that derive nothing
            let n = g.nts.len();
            g.nts.push("useless_one".into());
            let t = Pat::T(rng.below(g.toks.len()));
            let pat = match rng.below(3) {
                0 => t,
                1 => Pat::Seq(vec![t, Pat::N(n)]),
                _ => Pat::Seq(vec![Pat::N(rng.below(n)), t]),
            };
            g.prods.push(Prod { nt: n, tag: None, pat });
            if rng.chance(1, 3) {
                let pat = Pat::Seq(vec![Pat::T(rng.below(g.toks.len())), Pat::N(n)]);
                g.prods.push(Prod { nt: g.entry, tag: None, pat });
            }
        }
        let mut c = Case::of(g).set("layout", if rng.chance(1, 3) { rng.below(1000) } else { 0 });
        if useless {
            c = c.set("useless", 1);
        }
        c.alg = alg.into();
        c.toks = toks;
        c
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        let mut jobs: Vec<Option<Job>> = vec![None; cases.len()];
        let fit: Vec<usize> = (0..cases.len()).filter(|i| in_domain(&cases[*i])).collect();
        let inputs: Vec<Input> = fit
            .iter()
            .map(|i| Input {
                g: cases[*i].g(),
                text: cases[*i].g().render(cases[*i].num("layout")).0,
                alg: &cases[*i].alg,
                toks: &cases[*i].toks,
            })
            .collect();
        for (i, j) in fit.iter().zip(run_rust(&inputs)) {
            jobs[*i] = Some(j);
        }
        // a grammar without conflicts also goes through LR(1), whose calls GLR must repeat
        let same: Vec<usize> = if self.id == "C12" {
            fit.iter().copied().filter(|i| is_class(&Bnf::from_gram(cases[*i].g()), Class::Lr1) == Some(true)).collect()
        } else {
            vec![]
        };
        let mut twins: BTreeMap<usize, Job> = BTreeMap::new();
        if !same.is_empty() {
            let inputs: Vec<Input> = same
                .iter()
                .map(|i| Input {
                    g: cases[*i].g(),
                    text: cases[*i].g().text(),
                    alg: "lr1",
                    toks: &cases[*i].toks,
                })
                .collect();
            for (i, j) in same.iter().zip(run_rust(&inputs)) {
                twins.insert(*i, j);
            }
        }
        (0..cases.len())
            .map(|i| match &jobs[i] {
                None => Outcome::skip(&format!(
                    "not a useful grammar with distinct names {}",
                    cases[i].pin.clone().unwrap_or_default()
                )),
                Some(j) => self.judge(&cases[i], j, twins.get(&i)),
            })
            .collect()
    }
}

/// Shrinking can leave the domain of the properties.
pub fn in_domain(c: &Case) -> bool {
    let g = c.g();
    g.defined()
        && (g.productive() || c.opt("useless") == "1")
        && gens::distinct_naming(g)
        && c.toks.iter().all(|w| w.iter().all(|t| (*t as usize) < g.toks.len() || *t == source_error()))
        && (c.alg != "glr" || !Bnf::from_gram(g).cyclic_or_hidden_left())
}

/// The generator may refuse a grammar, not break down over it; but that is how it refuses an LL(1) conflict.
pub fn crash(o: &mut Outcome, g: &Gram, alg: &str, m: &str) {
    if alg.ends_with("ll1") && Bnf::from_gram(g).ll1().is_err() {
        o.label(format!("{}: refused", alg));
    } else {
        o.fail("crash", format!("the generator panics ({}): {}: {}", alg, m.chars().take(160).collect::<String>(), one_line(g)));
    }
}

impl RustParsers {
    fn judge(&self, c: &Case, j: &Job, twin: Option<&Job>) -> Outcome {
        let g = c.g();
        let mut o = Outcome::default();
        let ran = match j {
            Job::Gen(Gen::Ok) => unreachable!(),
            Job::Gen(Gen::Refused) => {
                if c.alg == "glr" && self.what == What::Language {
                    o.fail("refused", format!("no parser is made by the GLR generator: {}", one_line(g)));
                }
                o.label(format!("{}: refused", c.alg));
                return o;
            }
            Job::Gen(Gen::Panicked(m)) => {
                crash(&mut o, g, &c.alg, m);
                return o;
            }
            Job::NoCompile(m) => {
                o.fail("compile", format!("{} ({}): generated parser does not compile: {}", c.alg, one_line(g), m));
                return o;
            }
            Job::Ran(r) => r,
        };
        o.label(format!("{}: accepted", c.alg));
        let names = names_of(g);
        let eg = events::bottom_up(g);
        let calls: BTreeMap<String, usize> = (0..g.prods.len())
            .map(|p| (gens::rule_name(g, p, true), g.toks.len() + p))
            .collect();
        let truth = Truth::new(g);
        if let Err(m) = truth::agree(g, &c.toks) {
            infra(&format!("{} ({})", m, one_line(g)));
        }
        let (mut ins, mut outs, mut deep) = (0, 0, 0);
        for (i, (w, r)) in c.toks.iter().zip(ran).enumerate() {
            match judge_one(&truth, &c.alg, self.what, &eg, &names, &calls, w, r) {
                Ok(None) => o.label("inputs left unjudged"),
                Ok(Some(m)) => {
                    o.evals += 1;
                    if m {
                        ins += 1;
                        deep += (r.log.len() > w.len() + 1 && w.len() > 1) as usize;
                    } else {
                        outs += 1;
                        deep += (self.what == What::Errors && r.fetched > 1) as usize;
                    }
                }
                Err((s, m)) => o.fail(&s, m),
            }
            if let Some(Job::Ran(t)) = twin {
                if r.end != "unjudged" && t[i].end == "ok" && (r.end != "ok" || t[i].log != r.log) {
                    o.fail(
                        "twin",
                        format!(
                            "on {} ({}) GLR calls {} ({}) but LR(1) calls {}",
                            spell(g, w),
                            one_line(g),
                            events::show(&r.log),
                            r.end,
                            events::show(&t[i].log)
                        ),
                    );
                }
            }
        }
        if twin.is_some() {
            o.label("glr: also compared with LR(1)");
        }
        if c.alg == "glr" && is_class(&Bnf::from_gram(g), Class::Lr1) == Some(false) {
            o.label("glr: grammar with conflicts");
        }
        if !g.is_bnf() {
            o.label("with groups or repetition");
        }
        if c.opt("useless") == "1" {
            o.label("with useless symbols");
        }
        let good = match self.what {
            What::Language => ins > 0 && outs > 0,
            _ => deep > 0,
        };
        if good {
            o.nontrivial.push(hash_bytes(format!("{}{}", c.alg, g.text()).as_bytes()));
            if let Some(w) = c.toks.iter().filter(|w| w.len() < 12).last() {
                o.sample = Some(format!("{} {} on {}", c.alg, one_line(g), spell(g, w)));
            }
        }
        o
    }
}

/// Many parse stacks at once, for many tokens.
fn wide() -> Vec<Case> {
    let rep = |s: &str, n: usize| s.repeat(n);
    let back = |s: &str| s.chars().rev().collect::<String>();
    let h = "abbabaabbaababbabaababba";
    let sets: Vec<(&str, &str, Vec<String>)> = vec![
        (
            "wide: middle of a row",
            "S = a S a; S = a;",
            vec![rep("a", 41), rep("a", 40), rep("a", 101), rep("a", 100)],
        ),
        (
            "wide: palindromes",
            "S = a S a; S = b S b; S = a; S = b; S = c c;",
            vec![
                format!("{}a{}", h, back(h)),
                format!("{}cc{}", h, back(h)),
                format!("{}ab{}", h, back(h)),
                format!("{}b{}a", h, back(h)),
                format!("a{}b{}", h, back(h)),
                format!("{}b{}", rep(h, 3), rep(&back(h), 3)),
                rep("c", 3),
            ],
        ),
        (
            "wide: operators",
            "E = E p E; E = E m E; E = x;",
            vec!["xpxmxpxmxpx".into(), "xpxpxpxmxmxpxmx".into(), "xpxpxpxmxmxpxm".into(), "xpxpxmxxpx".into(), "xpxpxmpxpx".into()],
        ),
        (
            "wide: late choice",
            "S = A; S = B; S = C; A = a A b; A = d; B = a B c; B = d; C = a C; C = d e*;",
            vec![
                format!("{}d{}", rep("a", 60), rep("b", 60)),
                format!("{}d{}", rep("a", 60), rep("c", 60)),
                format!("{}d{}", rep("a", 60), rep("e", 60)),
                format!("{}d{}", rep("a", 60), rep("c", 59)),
                format!("{}d{}", rep("a", 60), rep("b", 61)),
                format!("{}d{}", rep("a", 60), rep("e", 20)),
                format!("{}d{}c", rep("a", 30), rep("b", 29)),
                format!("{}d", rep("a", 60)),
            ],
        ),
        (
            "wide: open conditions",
            "S = i S e S; S = i S; S = x;",
            vec![
                format!("{}x{}", rep("i", 8), rep("ex", 3)),
                format!("{}x{}", rep("i", 5), rep("ex", 5)),
                format!("{}x{}", rep("i", 5), rep("ex", 6)),
                format!("{}xe", rep("i", 6)),
                format!("{}x", rep("i", 40)),
            ],
        ),
        (
            "wide: two lists",
            "S = L R z; L = a L; L = a; R = a R; R = a;",
            vec![format!("{}z", rep("a", 30)), rep("a", 30), "az".into(), "aaz".into(), format!("{}zz", rep("a", 30))],
        ),
        (
            "wide: choices in a row",
            "S = X*; X = A b; X = B c; A = a; B = a; X = a a d;",
            vec![rep("abac", 60), format!("{}aa", rep("acab", 60)), format!("{}d", rep("ac", 60)), format!("{}aad{}", rep("ab", 40), rep("ac", 40)), format!("{}aa", rep("aad", 40))],
        ),
    ];
    sets.into_iter()
        .map(|(name, s, words)| {
            let g = gens::parse_short(s);
            let at = |c: char| g.toks.iter().position(|t| t.name == c.to_string()).unwrap() as u16;
            let toks = words.iter().map(|w| w.chars().map(at).collect()).collect();
            let mut c = Case::of(g.clone());
            c.toks = toks;
            c.alg = "glr".into();
            c.pin = Some(name.into());
            c
        })
        .collect()
}

/// Regression cases: each was wrong in an earlier state of the code, or is a classic of its class.
pub fn pins(id: &str, algs: &[&str]) -> Vec<Case> {
    let mut v = Vec::new();
    let shapes: &[(&str, &str)] = &[
        ("recursive entry", "S = a S b; S = c;"),
        ("left-recursive entry", "S = S a; S = !;"),
        ("entry inside", "S = a S; S = b;"),
        ("nothing", "S = A; A = !; A = a B; B = !;"),
        ("nested entry", "E = E a T; E = T; T = b E c; T = d;"),
        ("epsilon inside a sequence", "S = a (!) b; S = S c;"),
        ("optional inside", "S = a b? c; S = b;"),
        ("repetition of choices", "S = (a | b c)* d?;"),
        ("plus of a sequence", "S = (a b)+ c;"),
        ("nested repetition", "S = (a (b (c d)*)+)? e;"),
        ("lalr only", "S = L a R; S = R; L = b R; L = c; R = L;"),
        ("lr1 only", "S = a E d; S = b E e; S = a F e; S = b F d; E = c; F = c;"),
        ("lr0", "S = a A d; A = b A; A = c;"),
        ("ambiguous", "S = S S; S = a;"),
        ("dangling else", "S = a S b S; S = a S; S = c;"),
        ("palindromes", "S = a S a; S = b S b; S = !;"),
        ("reduce-reduce", "S = A; S = B; A = a; B = a;"),
        ("two ways to end", "S = A B; A = a; A = a a; B = a; B = a a;"),
        ("unit chain", "S = A; A = B; B = C a; C = b; C = c S d;"),
        ("right nullable", "S = a A; A = b A; A = !;"),
        ("many optional", "S = X b? c? d? e? f? g? h? i?; X = a;"),
        ("many nullable", "S = A B C D E F G h; A = a; A = !; B = b; B = !; C = c; C = !; D = d; D = !; E = e; E = !; F = f; F = !; G = g; G = !;"),
        ("optional behind nesting", "S = a S (b? c? d? e? f?) x; S = y Z; Z = !;"),
        ("empty groups", "S = a X b; X = (!) (!); X = c (!);"),
        ("empty at the end", "S = a X; X = !;"),
        ("empty in the middle only", "S = X a X X b X; X = !;"),
        ("all nullable", "S = A B C d; A = a; A = !; B = b; B = !; C = c; C = !;"),
    ];
    for (name, s) in shapes {
        for alg in algs {
            let g = gens::parse_short(s);
            let b = Bnf::from_gram(&g);
            if *alg == "glr" && b.cyclic_or_hidden_left() {
                continue;
            }
            let mut rng = Rng::new(&[hash_bytes(s.as_bytes())]);
            let what = match id {
                "C11" | "C12" => What::Calls,
                "C13" => What::Errors,
                _ => What::Language,
            };
            let mut c = Case::of(g.clone());
            c.toks = toks_for(&mut rng, &g, alg, 60, what);
            c.alg = alg.to_string();
            c.pin = Some(name.to_string());
            v.push(c);
        }
    }
    // tags and several rules in one production, some of them spread over the file
    let tagged = "token A = \"a\"; token B = \"b\"; token C = \"c\"; entry s;\n\
        prod s [first] = A s B; prod t = C; prod s = t; prod s [third] = t A; prod u = B u; prod u [stop] = C; prod s = B u;";
    for alg in algs {
        let g = crate::ast::read_gram(tagged).unwrap();
        let mut rng = Rng::new(&[7]);
        let mut c = Case::of(g.clone());
        c.toks = toks_for(&mut rng, &g, alg, 60, What::Calls);
        c.alg = alg.to_string();
        c.pin = Some("tags".into());
        v.push(c);
    }
    if ["C14", "C15", "C26", "C28"].contains(&id) {
        return v;
    }
    if algs.contains(&"glr") && id != "C22" {
        v.extend(wide());
    }
    // more tokens than 16 bits count
    for (name, s) in [
        ("long: left list", "S = S a; S = b; S = S c S d;"),
        ("long: right list", "S = a S; S = b;"),
        ("long: nesting", "S = a S b; S = c S d; S = e;"),
        ("long: repetition", "S = (a b* | c d?)+ e;"),
        ("long: statements", "S = I S; S = !; I = a E b; I = c S d; E = e F; F = f e F; F = !;"),
    ] {
        for alg in algs {
            let g = gens::parse_short(s);
            if *alg == "glr" && !gens::wanted(&g, Want::Glr) {
                continue;
            }
            let mut rng = Rng::new(&[hash_bytes(s.as_bytes())]);
            let mut c = Case::of(g.clone());
            if *alg == "glr" {
                // its time grows with the square of what is reduced at once
                c.toks = long_words(&mut rng, &g, 5000);
                let mut w = g.long_sentence(&mut rng, 200_000);
                w.truncate(w.len() / 5 * 2);
                c.toks.push(w);
            } else {
                c.toks = long_words(&mut rng, &g, 70_000);
            }
            assert!(!c.toks.is_empty());
            c.alg = alg.to_string();
            c.pin = Some(name.to_string());
            v.push(c);
        }
    }
    for alg in algs {
        let big = gens::big(alg, id == "C13").into_iter().map(|(n, g, t)| (n.to_string(), g, t));
        let edges = if id == "C13" && !["lr1", "glr", "cpp-lalr", "cpp-ll1"].contains(alg) { vec![] } else { gens::edges(alg) };
        // judging errors takes longest
        let few = |n: &str| ["128", "256", "257"].iter().any(|x| n.contains(x));
        let edges: Vec<_> = edges.into_iter().filter(|e| id != "C13" || few(&e.0)).collect();
        for (name, g, toks) in big.chain(edges) {
            let mut c = Case::of(g);
            c.toks = toks;
            c.alg = alg.to_string();
            c.pin = Some(name);
            c = c.set("clean", 1);
            v.push(c);
        }
    }
    v
}

pub fn props() -> Vec<Box<dyn Prop>> {
    let lang = "random grammars (BNF and EBNF, templates with mutations, random layouts) of the class, with short token sequences exhaustively, sentences and damaged sentences; non-trivial: a grammar the generator accepted that was judged on at least one member and one non-member";
    vec![
        Box::new(RustParsers { id: "C05", what: What::Language, algs: &["lr1"], rule: lang }),
        Box::new(RustParsers { id: "C06", what: What::Language, algs: &["lalr"], rule: lang }),
        Box::new(RustParsers { id: "C07", what: What::Language, algs: &["lr0"], rule: lang }),
        Box::new(RustParsers { id: "C10", what: What::Language, algs: &["glr"], rule: lang }),
        Box::new(RustParsers {
            id: "C11",
            what: What::Calls,
            algs: &["lr1", "lalr", "lr0"],
            rule: "random grammars as for C05 to C07 with tags; the calls must spell a sentence of the event grammar (each rule followed by a marker of its own); non-trivial: an accepted grammar with a derived input of two or more tokens and two or more reductions",
        }),
        Box::new(RustParsers {
            id: "C12",
            what: What::Calls,
            algs: &["glr"],
            rule: "random grammars, most of them with conflicts, judged against the event grammar, and against the LR(1) parser where there are none; non-trivial: a grammar with a derived input of two or more tokens and two or more reductions",
        }),
    ]
}

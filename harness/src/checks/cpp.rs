//! C08 C09: generated C++ parsers, compiled and run. Also the judging of their errors for C13.
use super::rust_lr::{crash, in_domain, one_line, pins, spell, toks_for, want_for, What};
use crate::ast::Gram;
use crate::bnf::Bnf;
use crate::e2e_cpp::*;
use crate::e2e_rust::*;
use crate::engine::*;
use crate::events;
use crate::gens::{self, Want};
use crate::truth::Truth;
use crate::util::*;
use std::collections::BTreeMap;

pub struct CppParsers {
    pub id: &'static str,
    pub algs: &'static [&'static str],
}

pub fn call_names(g: &Gram, alg: &str) -> BTreeMap<String, usize> {
    let k = g.toks.len();
    if alg == "ll1" {
        (0..g.nts.len())
            .flat_map(|n| {
                [
                    (format!("enter_{}", g.nts[n]), k + 2 * n),
                    (format!("exit_{}", g.nts[n]), k + 2 * n + 1),
                ]
            })
            .collect()
    } else {
        (0..g.prods.len()).map(|p| (gens::rule_name(g, p, false), k + p)).collect()
    }
}

pub fn event_gram(g: &Gram, alg: &str) -> Gram {
    if alg == "ll1" {
        events::top_down(g)
    } else {
        events::bottom_up(g)
    }
}

/// The names between single quotes.
fn quoted(m: &str) -> Vec<String> {
    m.split('\'').skip(1).step_by(2).map(|s| s.to_string()).collect()
}

pub fn judge_cpp(truth: &Truth, alg: &str, errors: bool, eg: &Gram, calls: &BTreeMap<String, usize>, w: &[u16], r: &Ran) -> Result<Option<bool>, (String, String)> {
    let g = truth.g;
    if !truth.knows(w) {
        return Ok(None);
    }
    let bad = |s: &str, m: String| Err((s.to_string(), format!("C++ {} on {} ({}): {}", alg, spell(g, w), one_line(g), m)));
    match r.end.as_str() {
        "unjudged" => return Ok(None),
        "garbled" => infra(&format!("driver output {:?}", r.got)),
        "ok" | "thrown" => {}
        _ if errors && truth.member(w) => return Ok(None),
        "dead" => return bad("dead", format!("the parser did not come to an end: {:?}", r.got)),
        "diverge" => return bad("diverge", "the parser does not terminate".into()),
        _ => return bad("panic", format!("another exception: {:?}", r.got)),
    }
    let names: Vec<String> = g.toks.iter().map(|t| t.name.clone()).collect();
    let member = truth.member(w);
    if member != (r.end == "ok") {
        return if member && errors {
            Ok(None)
        } else if member {
            bad("reject", format!("rejected ({:?}), but the grammar derives it", r.got))
        } else {
            bad("accept", "accepted, but the grammar does not derive it".into())
        };
    }
    if member && !errors {
        let mut log = r.log.clone();
        if alg == "ll1" {
            match log.pop() {
                Some(Ev::Shift(n, d)) if n == "<EOF>" && d == w.len() => {}
                x => return bad("calls", format!("the last call is {:?}, not the end-of-file token", x)),
            }
        }
        if let Err(m) = events::check_derivation(eg, &names, calls, w, &log, truth, alg == "ll1") {
            return bad("calls", m);
        }
    }
    if !member && errors {
        let k = truth.error_at(w).unwrap();
        if r.fetched != k + 1 {
            return bad("error", format!("{} tokens fetched, the first impossible one is at {}", r.fetched, k));
        }
        if let Err(m) = events::check_shifts(&names, &w[..k], &r.log) {
            return bad("error", m);
        }
        if alg != "ll1" {
            let q = quoted(r.got.get(0).map(|s| s.as_str()).unwrap_or(""));
            let got = if k == w.len() { "<EOF>".to_string() } else { names[w[k] as usize].clone() };
            if q.get(0) != Some(&got) {
                return bad("error", format!("the error does not report {} at {}: {:?}", got, k, r.got));
            }
            if q[1..].contains(&got) {
                return bad("expected", format!("the rejected token {} is listed as expected: {:?}", got, r.got));
            }
            if alg == "lr1" {
                let (ts, end) = truth.next_tokens(w, k);
                let mut want: Vec<String> = ts.iter().map(|t| names[*t as usize].clone()).collect();
                if end {
                    want.push("<EOF>".into());
                }
                want.sort();
                let mut have = q[1..].to_vec();
                have.sort();
                if want != have {
                    return bad("expected", format!("expected tokens {:?}, should be {:?} after {} tokens", have, want, k));
                }
            }
        }
    }
    Ok(Some(member))
}

impl Prop for CppParsers {
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        "random grammars (BNF and EBNF, templates with mutations, random layouts) of the class, with short token sequences exhaustively, sentences and damaged sentences; acceptance against the reference recogniser and calls against the event grammar; non-trivial: an accepted grammar with a non-member and a member of two or more tokens"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "membership is decided by a fixpoint recogniser over the written patterns (harness/src/chart.rs)",
            "the generated files are compiled inside a namespace, without their preprocessor lines (C21 compiles them as they are)",
        ]
    }
    fn pins(&self) -> Vec<Case> {
        let mut v = pins(self.id, self.algs);
        if self.id == "C09" {
            for (name, s) in [
                ("expressions", "E = T R; R = a T R; R = !; T = F Q; Q = b F Q; Q = !; F = c E d; F = e;"),
                ("repetition", "S = I*; I = a b; I = c d?;"),
                ("expand at the end", "S = a R; R = b R; R = !;"),
                ("nullable entry", "S = A? B* (c | d)+; A = a b; B = e b;"),
                ("statements", "P = D P; P = !; D = a e f; D = b C d P c; C = e; C = g e;"),
                ("three optional", "S = a? b? c? d?;"),
            ] {
                let g = gens::parse_short(s);
                let mut rng = Rng::new(&[hash_bytes(s.as_bytes())]);
                let mut c = Case::of(g.clone());
                c.toks = toks_for(&mut rng, &g, "ll1", 60, What::Language);
                c.alg = "ll1".into();
                c.pin = Some(name.to_string());
                v.push(c);
            }
        }
        v
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 384 } else { 6144 },
            chunk: 24,
            min_nontrivial: 80,
            shrink_width: 64,
            shrink_rounds: 60,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: usize, tier: Tier) -> Case {
        let alg = self.algs[idx % self.algs.len()];
        let want = if rng.chance(1, 12) { Want::Any } else { want_for(alg) };
        let mut g = gens::useful_gram(rng, want);
        if Bnf::from_gram(&g).cyclic_or_hidden_left() {
            g = gens::useful_gram(rng, want_for(alg));
        }
        let toks = toks_for(rng, &g, alg, if tier == Tier::Quick { 60 } else { 160 }, What::Language);
        let mut c = Case::of(g).set("layout", if rng.chance(1, 3) { rng.below(1000) } else { 0 });
        c.alg = alg.into();
        c.toks = toks;
        c
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        let fit: Vec<usize> = (0..cases.len()).filter(|i| in_domain(&cases[*i])).collect();
        let inputs: Vec<Input> = fit
            .iter()
            .map(|i| Input {
                g: cases[*i].g(),
                text: cases[*i].g().render(cases[*i].num("layout")).0,
                alg: &cases[*i].alg,
                toks: &cases[*i].toks,
            })
            .collect();
        let mut jobs: Vec<Option<Job>> = vec![None; cases.len()];
        for (i, j) in fit.iter().zip(run_cpp(&inputs)) {
            jobs[*i] = Some(j);
        }
        (0..cases.len())
            .map(|i| match &jobs[i] {
                None => Outcome::skip("not a useful grammar with distinct names"),
                Some(j) => judge(&cases[i], j),
            })
            .collect()
    }
}

fn judge(c: &Case, j: &Job) -> Outcome {
    let g = c.g();
    let mut o = Outcome::default();
    let ran = match j {
        Job::Gen(Gen::Refused) => {
            o.label(format!("{}: refused", c.alg));
            return o;
        }
        Job::Gen(Gen::Panicked(m)) => {
            crash(&mut o, g, &c.alg, m);
            return o;
        }
        Job::Gen(Gen::Ok) => unreachable!(),
        Job::NoCompile(m) => {
            o.fail("compile", format!("{} ({}): generated parser does not compile: {}", c.alg, one_line(g), m));
            return o;
        }
        Job::Ran(r) => r,
    };
    o.label(format!("{}: accepted", c.alg));
    if !g.is_bnf() {
        o.label("with groups or repetition");
    }
    let eg = event_gram(g, &c.alg);
    let calls = call_names(g, &c.alg);
    let truth = Truth::new(g);
    let (mut deep, mut outs) = (0, 0);
    for (w, r) in c.toks.iter().zip(ran) {
        match judge_cpp(&truth, &c.alg, false, &eg, &calls, w, r) {
            Ok(None) => o.label("inputs left unjudged"),
            Ok(Some(m)) => {
                o.evals += 1;
                if m && w.len() > 1 {
                    deep += 1;
                }
                if !m {
                    outs += 1;
                }
            }
            Err((s, m)) => o.fail(&s, m),
        }
    }
    if deep > 0 && outs > 0 {
        o.nontrivial.push(hash_bytes(format!("{}{}", c.alg, g.text()).as_bytes()));
        if let Some(w) = c.toks.iter().filter(|w| w.len() < 12).last() {
            o.sample = Some(format!("{} {} on {}", c.alg, one_line(g), spell(g, w)));
        }
    }
    o
}

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![
        Box::new(CppParsers { id: "C08", algs: &["lr1", "lalr", "lr0"] }),
        Box::new(CppParsers { id: "C09", algs: &["ll1"] }),
    ]
}

//! C13: where and how generated parsers report syntax errors.
use super::cpp::{call_names, event_gram, judge_cpp};
use super::rust_lr::*;
use crate::bnf::Bnf;
use crate::e2e_cpp::run_cpp;
use crate::e2e_rust::*;
use crate::engine::*;
use crate::gens::{self, Want};
use crate::truth::Truth;
use crate::util::*;
use std::collections::BTreeMap;

pub struct Errors;

const RUST: &[&str] = &["lr1", "lalr", "lr0", "glr"];
const CPP: &[&str] = &["cpp-lr1", "cpp-ll1", "cpp-lalr", "cpp-lr0"];

fn plain(alg: &str) -> &str {
    alg.strip_prefix("cpp-").unwrap_or(alg)
}

impl Prop for Errors {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "random grammars of the class of each generator (Rust LR(1), LALR, LR(0), GLR; C++ LR(1), LALR, LR(0), LL(1)) with short token sequences exhaustively and damaged sentences; non-trivial: an accepted grammar with an error behind the first token"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the first impossible token is found with a viable-prefix recogniser over the written patterns (harness/src/chart.rs)"]
    }
    fn pins(&self) -> Vec<Case> {
        let mut v = pins("C13", RUST);
        for mut c in pins("C13", CPP) {
            if plain(&c.alg) != "glr" {
                c.toks.retain(|w| !w.contains(&source_error()));
            }
            v.push(c);
        }
        v
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 576 } else { 8192 },
            chunk: 24,
            min_nontrivial: 150,
            shrink_width: 64,
            shrink_rounds: 60,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: usize, tier: Tier) -> Case {
        // one language per stretch of cases, as a chunk is one compilation
        let algs = if idx / 24 % 2 == 0 { RUST } else { CPP };
        let alg = algs[idx % algs.len()];
        let want = if plain(alg) == "glr" && rng.chance(1, 2) { Want::Lr1 } else { want_for(plain(alg)) };
        let mut g = gens::useful_gram(rng, want);
        if alg == "glr" && Bnf::from_gram(&g).cyclic_or_hidden_left() {
            g = gens::useful_gram(rng, Want::Glr);
        }
        let toks = toks_for(rng, &g, plain(alg), if tier == Tier::Quick { 60 } else { 160 }, What::Errors);
        let mut c = Case::of(g);
        c.alg = alg.into();
        c.toks = toks;
        c
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        let mut jobs: Vec<Option<Job>> = vec![None; cases.len()];
        for cpp in [false, true] {
            let fit: Vec<usize> = (0..cases.len())
                .filter(|i| in_domain(&cases[*i]) && cases[*i].alg.starts_with("cpp-") == cpp)
                .collect();
            let inputs: Vec<Input> = fit
                .iter()
                .map(|i| Input {
                    g: cases[*i].g(),
                    text: cases[*i].g().text(),
                    alg: plain(&cases[*i].alg),
                    toks: &cases[*i].toks,
                })
                .collect();
            let js = if cpp { run_cpp(&inputs) } else { run_rust(&inputs) };
            for (i, j) in fit.iter().zip(js) {
                jobs[*i] = Some(j);
            }
        }
        (0..cases.len())
            .map(|i| match &jobs[i] {
                None => Outcome::skip("not a useful grammar with distinct names"),
                Some(j) => judge(&cases[i], j),
            })
            .collect()
    }
}

fn judge(c: &Case, j: &Job) -> Outcome {
    let g = c.g();
    let mut o = Outcome::default();
    let ran = match j {
        Job::Gen(Gen::Panicked(m)) => {
            crash(&mut o, g, &c.alg, m);
            return o;
        }
        Job::Gen(_) => {
            o.label(format!("{}: refused", c.alg));
            return o;
        }
        Job::NoCompile(_) => {
            o.label(format!("{}: does not compile", c.alg));
            return o;
        }
        Job::Ran(r) => r,
    };
    o.label(format!("{}: accepted", c.alg));
    let alg = plain(&c.alg);
    let cpp = c.alg != alg;
    let names = names_of(g);
    let eg = event_gram(g, alg);
    let calls: BTreeMap<String, usize> = if cpp { call_names(g, alg) } else { BTreeMap::new() };
    let truth = Truth::new(g);
    let mut deep = 0;
    let mut sample = None;
    for (w, r) in c.toks.iter().zip(ran) {
        if truth.member(w) {
            continue;
        }
        let x = if cpp {
            judge_cpp(&truth, alg, true, &eg, &calls, w, r)
        } else {
            judge_one(&truth, alg, What::Errors, &eg, &names, &calls, w, r)
        };
        match x {
            Ok(None) => o.label("inputs left unjudged"),
            Ok(Some(_)) => {
                o.evals += 1;
                if r.fetched > 2 {
                    deep += 1;
                    sample = Some(format!("{} {} on {}", c.alg, one_line(g), spell(g, w)));
                }
            }
            Err((s, m)) => o.fail(&s, m),
        }
    }
    if deep > 0 {
        o.nontrivial.push(hash_bytes(format!("{}{}", c.alg, g.text()).as_bytes()));
        o.sample = sample;
    }
    o
}

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Errors)]
}

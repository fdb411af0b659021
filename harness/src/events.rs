//! Visitor calls as sentences: the event grammar of a grammar.
use crate::ast::{Gram, Pat, Tok, TokPat};
use crate::chart;
use crate::e2e_rust::Ev;
use crate::truth::{Event, Truth};
use std::collections::BTreeMap;

fn marker() -> Tok {
    Tok {
        name: String::new(),
        pat: TokPat::Lit(String::new()),
        prec: None,
    }
}

/// Each rule is followed by a marker token of its own: `ntoks + rule`.
pub fn bottom_up(g: &Gram) -> Gram {
    let mut e = g.clone();
    let k = g.toks.len();
    for (i, p) in e.prods.iter_mut().enumerate() {
        p.pat = Pat::Seq(vec![p.pat.clone(), Pat::T(k + i)]);
        e.toks.push(marker());
    }
    e
}

/// Each rule stands between the markers `ntoks + 2 nt` and `ntoks + 2 nt + 1`.
pub fn top_down(g: &Gram) -> Gram {
    let mut e = g.clone();
    let k = g.toks.len();
    for p in e.prods.iter_mut() {
        p.pat = Pat::Seq(vec![Pat::T(k + 2 * p.nt), p.pat.clone(), Pat::T(k + 2 * p.nt + 1)]);
    }
    for _ in 0..2 * g.nts.len() {
        e.toks.push(marker());
    }
    e
}

/// Shifted tokens of a log must be these.
pub fn check_shifts(names: &[String], w: &[u16], log: &[Ev]) -> Result<(), String> {
    let mut k = 0;
    for e in log {
        if let Ev::Shift(n, d) = e {
            if k >= w.len() {
                return Err(format!("token {} (data {}) reported beyond the end", n, d));
            }
            if *n != names[w[k] as usize] || *d != k {
                return Err(format!(
                    "token {} reported as {} with data {} (expected {} with data {})",
                    k, n, d, names[w[k] as usize], k
                ));
            }
            k += 1;
        }
    }
    if k != w.len() {
        return Err(format!("{} of {} tokens reported", k, w.len()));
    }
    Ok(())
}

pub fn show(log: &[Ev]) -> String {
    let v: Vec<String> = log
        .iter()
        .take(60)
        .map(|e| match e {
            Ev::Shift(n, d) => format!("{}#{}", n, d),
            Ev::Call(n) => format!("{}()", n),
        })
        .collect();
    v.join(" ")
}

/// The log spells one derivation of `w`. `calls` maps function names to markers.
pub fn check_derivation(
    eg: &Gram,
    names: &[String],
    calls: &BTreeMap<String, usize>,
    w: &[u16],
    log: &[Ev],
    truth: &Truth,
    down: bool,
) -> Result<(), String> {
    check_shifts(names, w, log)?;
    if let Some(want) = truth.events(w, down) {
        return in_order(&want, truth.g.toks.len(), calls, log);
    }
    let mut s: Vec<u16> = Vec::new();
    let mut k = 0;
    for e in log {
        match e {
            Ev::Shift(..) => {
                s.push(w[k]);
                k += 1;
            }
            Ev::Call(n) => match calls.get(n) {
                Some(m) => s.push(*m as u16),
                None if n.contains("_anon") => {}
                None => return Err(format!("unexpected call {}", n)),
            },
        }
    }
    if chart::member(eg, &s) {
        Ok(())
    } else {
        Err(format!("the calls spell no derivation: {}", show(log)))
    }
}

/// The shifts are known to be right.
fn in_order(want: &[Event], ntoks: usize, calls: &BTreeMap<String, usize>, log: &[Ev]) -> Result<(), String> {
    let mut k = 0;
    let mut have = Vec::new();
    for e in log {
        match e {
            Ev::Shift(..) => {
                have.push(Event::Token(k));
                k += 1;
            }
            Ev::Call(n) => match calls.get(n) {
                Some(m) => have.push(Event::Marker(*m - ntoks)),
                None if n.contains("_anon") => {}
                None => return Err(format!("unexpected call {}", n)),
            },
        }
    }
    match (0..want.len().max(have.len())).find(|i| want.get(*i) != have.get(*i)) {
        None => Ok(()),
        Some(i) => Err(format!("call {} is {:?}, the derivation has {:?} (numbers of rules)", i, have.get(i), want.get(i))),
    }
}

//! C14 C15 C26: the rules, conflicts and tables built from a grammar, judged in process.
use super::rust_lr::{one_line, spell};
use crate::ast::*;
use crate::bnf::{self, Bnf, Class, Core, Descr, Lr, Sym, ENTRY};
use crate::chart::Chart;
use crate::e2e::*;
use crate::engine::*;
use crate::gens::{self, Want};
use crate::lapexg::from_lapex;
use crate::util::*;
use lapex_input::LapexInputParser;
use lapex_parser::grammar::{Grammar, Symbol};
use lapex_parser::lr_parser::{generate_table, Conflict, GenerationResult};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// Reads the grammar text with lapex and hands its grammar to `f`.
fn with_grammar<R>(text: &str, f: impl FnOnce(&Grammar) -> R) -> Result<R, String> {
    let rules = lapex_input_gen::GeneratedLapexInputParser
        .parse_lapex(text)
        .map_err(|e| format!("not read: {}", e))?;
    let gr = Grammar::from_rule_set(&rules).map_err(|e| format!("no grammar: {}", e))?;
    Ok(f(&gr))
}

fn any_gram(rng: &mut Rng) -> Gram {
    let want = match rng.below(9) {
        0 => Want::Lr0,
        1 => Want::Lalr,
        2 => Want::Lr1,
        3 => Want::Ll1,
        4 => Want::Glr,
        _ => Want::Any,
    };
    gens::useful_gram(rng, want)
}

fn domain(g: &Gram) -> bool {
    g.defined() && g.productive() && gens::distinct_naming(g)
}

// ---------------------------------------------------------------------------------------------

pub struct Conflicts;

const CLASSES: [(&str, Class); 3] = [("lr0", Class::Lr0), ("lalr", Class::Lalr), ("lr1", Class::Lr1)];

/// A conflict in our terms, with the state it was reported for.
fn describe(
    cs: &[Conflict],
    ptrs: &HashMap<*const (), usize>,
    b: &Bnf,
    toks: &HashMap<Symbol, usize>,
) -> Result<Vec<(usize, Descr)>, String> {
    let core = |rule: *const (), incomplete: bool| -> Result<Core, String> {
        let r = *ptrs.get(&rule).ok_or("a conflict about a rule that is not the grammar's")?;
        if incomplete {
            return Err("a conflict about an item that is not complete".into());
        }
        Ok((r, if r == ENTRY { 1 } else { b.rules[r].1.len() }))
    };
    let mut out = Vec::new();
    for c in cs {
        out.push(match c {
            Conflict::ShiftReduce { state, item_to_reduce, shift_symbol } => (
                *state,
                Descr::Shift(
                    core(item_to_reduce.rule() as *const _ as *const (), item_to_reduce.symbol_after_dot().is_some())?,
                    *toks.get(shift_symbol).ok_or_else(|| format!("a conflict about shifting {:?}", shift_symbol))?,
                ),
            ),
            Conflict::ReduceReduce { state, items } => {
                let mut v: Vec<Core> = items
                    .iter()
                    .map(|it| core(it.rule() as *const _ as *const (), it.symbol_after_dot().is_some()))
                    .collect::<Result<_, _>>()?;
                v.sort();
                v.dedup();
                if v.len() != items.len() {
                    return Err("a reduce-reduce conflict names an item twice".into());
                }
                (*state, Descr::Reduce(v))
            }
        });
    }
    Ok(out)
}

fn show_core(b: &Bnf, g: &Gram, c: Core) -> String {
    let name = |s: &Sym| match s {
        Sym::T(t) => g.toks[*t].name.clone(),
        Sym::N(n) => g.nts.get(*n).cloned().unwrap_or(format!("<{}>", n)),
    };
    if c.0 == ENTRY {
        return "<entry>".into();
    }
    let (l, r) = &b.rules[c.0];
    let v: Vec<String> = r.iter().map(name).collect();
    format!("{} -> {}", name(&Sym::N(*l)), v.join(" "))
}

fn show_descr(b: &Bnf, g: &Gram, d: &Descr) -> String {
    match d {
        Descr::Shift(c, t) => format!("shift {} / reduce {}", g.toks[*t].name, show_core(b, g, *c)),
        Descr::Reduce(v) => {
            let v: Vec<String> = v.iter().map(|c| show_core(b, g, *c)).collect();
            format!("reduce {}", v.join(" / "))
        }
    }
}

fn judge_class(gr: &Grammar, g: &Gram, b: &Bnf, ptrs: &HashMap<*const (), usize>, alg: &str, class: Class, o: &mut Outcome) -> Option<bool> {
    let lr = match Lr::new(b, class, 400) {
        Some(l) => l,
        None => {
            o.label("too many states");
            return None;
        }
    };
    let mut toks = HashMap::new();
    for (s, n) in gr.terminals_with_names() {
        if let Some(i) = g.toks.iter().position(|t| t.name == n) {
            toks.insert(s, i);
        }
    }
    let lalr = class == Class::Lalr;
    let call = |allow: bool| -> (Option<bool>, Result<Vec<(usize, Descr)>, String>) {
        macro_rules! go {
            ($n:literal) => {
                match generate_table::<$n>(gr, allow, lalr) {
                    GenerationResult::NoConflicts(_) => (Some(true), Ok(vec![])),
                    GenerationResult::AllowedConflicts { conflicts, .. } => (Some(true), describe(&conflicts, ptrs, b, &toks)),
                    GenerationResult::BadConflicts(c) => (Some(false), describe(&c, ptrs, b, &toks)),
                }
            };
        }
        if class == Class::Lr0 {
            go!(0)
        } else {
            go!(1)
        }
    };
    let per_state = lr.conflicts();
    let bad = per_state.iter().any(|(r, _)| !r.is_empty());
    let (ok, cs) = call(false);
    let (ok_allowed, cs_allowed) = call(true);
    let about = |m: String| format!("{} ({}): {}", alg, one_line(g), m);
    if ok != Some(!bad) {
        let first = per_state.iter().flat_map(|x| x.0.iter()).next();
        let why = first.map(|d| show_descr(b, g, d)).unwrap_or("no conflict".into());
        o.fail("refusal", about(format!("{} by the generator, but the construction has {}", if bad { "accepted" } else { "refused" }, why)));
        return None;
    }
    if ok_allowed != Some(true) {
        o.fail("refusal", about("refused although conflicts are allowed".into()));
        return None;
    }
    for (what, cs) in [("refusing", cs), ("allowing", cs_allowed)] {
        let cs = match cs {
            Ok(c) => c,
            Err(m) => {
                o.fail("conflicts", about(m));
                return None;
            }
        };
        // lapex numbers its states as it likes: compare in how many states each conflict occurs
        let mut have: BTreeMap<&Descr, BTreeSet<usize>> = BTreeMap::new();
        for (s, d) in &cs {
            have.entry(d).or_default().insert(*s);
        }
        let mut need: BTreeMap<&Descr, (usize, usize)> = BTreeMap::new();
        for (req, may) in &per_state {
            for d in req {
                need.entry(d).or_default().0 += 1;
            }
            for d in may {
                need.entry(d).or_default().1 += 1;
            }
        }
        for (d, (lo, hi)) in &need {
            let n = have.get(d).map_or(0, |s| s.len());
            if n < *lo || n > *hi {
                o.fail(
                    "conflicts",
                    about(format!("{} conflicts: {} is reported for {} states, it exists in {}", what, show_descr(b, g, d), n, hi)),
                );
                return None;
            }
        }
        for d in have.keys() {
            if !need.contains_key(*d) {
                o.fail("conflicts", about(format!("{} conflicts: {} is reported, but no state has it", what, show_descr(b, g, d))));
                return None;
            }
        }
        o.evals += need.len() as u64 + 1;
    }
    Some(bad)
}

impl Prop for Conflicts {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "random grammars, with and without conflicts; for LR(0), LALR and LR(1) the refusal and the set of reported conflicts are compared with our construction (canonical collection, LALR by merging equal cores) over the rules lapex made; the public generator is called for all four algorithms. Non-trivial: a grammar refused by at least one class and with at least five rules, or accepted by a class with at least five rules"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "a shift-reduce conflict on a lookahead that also has a reduce-reduce conflict in the same state may stay unmentioned",
            "grammars in which some symbol derives nothing are left out",
        ]
    }
    fn pins(&self) -> Vec<Case> {
        pins("C14")
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 6000 } else { 150_000 },
            chunk: 50,
            min_nontrivial: 1500,
            shrink_width: 256,
            shrink_rounds: 100,
        }
    }
    fn gen(&self, rng: &mut Rng, _idx: usize, _tier: Tier) -> Case {
        let mut g = any_gram(rng);
        if rng.chance(1, 20) {
            // the same rule twice
            let p = rng.pick(&g.prods).clone();
            let at = rng.below(g.prods.len() + 1);
            g.prods.insert(at, Prod { tag: None, ..p });
            gens::renumber(&mut g);
        }
        Case::of(g).set("layout", if rng.chance(1, 3) { rng.below(1000) } else { 0 })
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        let dir = Scratch::new("c14");
        cases.iter().enumerate().map(|(i, c)| self.judge(c, i, &dir)).collect()
    }
}

impl Conflicts {
    fn judge(&self, c: &Case, i: usize, dir: &Scratch) -> Outcome {
        let g = c.g();
        if !domain(g) {
            return Outcome::skip("unproductive or clashing names");
        }
        let (text, _) = g.render(c.num("layout"));
        let mut o = Outcome::default();
        let r = with_grammar(&text, |gr| {
            let (b, ptrs, _) = match from_lapex(gr, g) {
                Ok(x) => x,
                Err(m) => {
                    o.fail("rules", format!("{}: {}", one_line(g), m));
                    return;
                }
            };
            if b.ntoks > 60 {
                return;
            }
            let mut res = Vec::new();
            for (alg, class) in CLASSES {
                if let Some(bad) = judge_class(gr, g, &b, &ptrs, alg, class, &mut o) {
                    o.label(format!("{}: {}", alg, if bad { "conflicts" } else { "no conflicts" }));
                    res.push((alg, bad));
                }
                if o.fail.is_some() {
                    return;
                }
            }
            // and through the public entry point
            for (alg, bad) in res.iter().map(|x| (x.0, x.1)).chain([("glr", false)]) {
                let lang = if alg != "glr" && i % 2 == 1 { Lang::Cpp } else { Lang::Rust };
                let got = generate_text(&text, alg, lang, false, false, dir.path());
                o.evals += 1;
                let want = if bad { Gen::Refused } else { Gen::Ok };
                if got != want {
                    o.fail("refusal", format!("{} ({}): lapex::generate gave {:?}, expected {:?}", alg, one_line(g), got, want));
                    return;
                }
            }
            if b.rules.len() >= 5 && !res.is_empty() {
                o.nontrivial.push(hash_bytes(g.text().as_bytes()));
                o.sample = Some(format!("{} {:?}", one_line(g), res));
            }
        });
        if let Err(m) = r {
            o.fail("read", format!("{}: {}", one_line(g), m));
        }
        o
    }
}

// ---------------------------------------------------------------------------------------------

pub struct Ll1;

/// Per (non-terminal, token or end): the rules selectable.
fn ll_cells(b: &Bnf) -> BTreeMap<(usize, usize), Vec<usize>> {
    let first = b.first();
    let follow = b.follow();
    let null = b.nullable();
    let mut m: BTreeMap<(usize, usize), Vec<usize>> = BTreeMap::new();
    for (i, (l, r)) in b.rules.iter().enumerate() {
        let (mut f, n) = bnf::seq_first(r, &first, &null);
        if n {
            f |= follow[*l];
        }
        for bit in 0..=b.ntoks {
            if f >> bit & 1 == 1 {
                m.entry((*l, bit)).or_default().push(i);
            }
        }
    }
    m
}

impl Prop for Ll1 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "random grammars, about half of them LL(1); acceptance and every cell of the table are compared with the textbook first and follow sets over the rules lapex made, and the public generator is called. Non-trivial: a grammar with at least four rules one of which derives nothing, or one refused"
    }
    fn pins(&self) -> Vec<Case> {
        pins("C15")
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 10_000 } else { 300_000 },
            chunk: 50,
            min_nontrivial: 2000,
            shrink_width: 256,
            shrink_rounds: 100,
        }
    }
    fn gen(&self, rng: &mut Rng, _idx: usize, _tier: Tier) -> Case {
        let mut g = if rng.chance(1, 2) { gens::useful_gram(rng, Want::Ll1) } else { any_gram(rng) };
        if rng.chance(1, 20) {
            let p = rng.pick(&g.prods).clone();
            g.prods.push(Prod { tag: None, ..p });
        }
        if rng.chance(1, 10) {
            // a production nothing reaches still has its row
            let n = g.nts.len();
            g.nts.push("unreached".into());
            let used = rng.below(n);
            g.prods.push(Prod { nt: n, tag: None, pat: Pat::Seq(vec![Pat::N(used), Pat::T(rng.below(g.toks.len()))]) });
        }
        Case::of(g).set("layout", if rng.chance(1, 3) { rng.below(1000) } else { 0 })
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        let dir = Scratch::new("c15");
        cases.iter().map(|c| self.judge(c, &dir)).collect()
    }
}

impl Ll1 {
    fn judge(&self, c: &Case, dir: &Scratch) -> Outcome {
        let g = c.g();
        if !domain(g) {
            return Outcome::skip("unproductive or clashing names");
        }
        let (text, _) = g.render(c.num("layout"));
        let mut o = Outcome::default();
        let r = with_grammar(&text, |gr| {
            let about = |m: String| format!("{}: {}", one_line(g), m);
            let (b, _, nts) = match from_lapex(gr, g) {
                Ok(x) => x,
                Err(m) => {
                    o.fail("rules", about(m));
                    return;
                }
            };
            if b.ntoks > 60 {
                return;
            }
            let cells = ll_cells(&b);
            let ok = cells.values().all(|v| v.len() < 2);
            if ok != b.ll1().is_ok() {
                infra("our LL(1) tables disagree");
            }
            let mut toks: HashMap<Symbol, usize> = HashMap::new();
            for (s, n) in gr.terminals_with_names() {
                toks.insert(s, g.toks.iter().position(|t| t.name == n).unwrap());
            }
            toks.insert(Symbol::End, b.ntoks);
            let spell = |bit: usize| g.toks.get(bit).map_or("the end".to_string(), |t| t.name.clone());
            let conv = |v: &Vec<Symbol>| -> Vec<Sym> {
                v.iter()
                    .filter_map(|s| match s {
                        Symbol::NonTerminal(i) => nts.get(i).map(|n| Sym::N(*n)),
                        s => toks.get(s).map(|t| Sym::T(*t)),
                    })
                    .collect()
            };
            match lapex_parser::ll_parser::generate_table(gr) {
                Ok(t) => {
                    if !ok {
                        let (k, v) = cells.iter().find(|x| x.1.len() > 1).unwrap();
                        o.fail(
                            "acceptance",
                            about(format!(
                                "accepted, but {} and {} are both selected by {}",
                                show_core(&b, g, (v[0], 0)),
                                show_core(&b, g, (v[1], 0)),
                                spell(k.1)
                            )),
                        );
                        return;
                    }
                    for n in gr.non_terminals() {
                        let ni = match n {
                            Symbol::NonTerminal(i) => nts[&i],
                            _ => continue,
                        };
                        for (s, bit) in &toks {
                            o.evals += 1;
                            let have = t.get_production(n, s).map(|v| conv(v));
                            let want = cells.get(&(ni, *bit)).map(|v| b.rules[v[0]].1.clone());
                            if have != want {
                                o.fail(
                                    "cell",
                                    about(format!("non-terminal {} with {} selects {:?}, should be {:?}", gr.get_symbol_name(&n), spell(*bit), have, want)),
                                );
                                return;
                            }
                        }
                    }
                    o.label("LL(1)");
                }
                // which of the conflicting cells is named is not looked at
                Err(lapex_parser::ll_parser::LLParserError::ParserTableConflict { non_terminal, terminal, .. }) => {
                    o.evals += 1;
                    if ok {
                        o.fail("acceptance", about(format!("refused, but no two rules are selected by the same token; reported: {:?} {:?}", non_terminal, terminal)));
                        return;
                    }
                    o.label("not LL(1)");
                }
                Err(e) => {
                    o.fail("acceptance", about(format!("refused: {:?}", e)));
                    return;
                }
            }
            let got = generate_text(&text, "ll1", Lang::Cpp, false, false, dir.path());
            if (got == Gen::Ok) != ok {
                o.fail("acceptance", about(format!("lapex::generate gave {:?} for a grammar that is{} LL(1)", got, if ok { "" } else { " not" })));
                return;
            }
            if b.rules.len() >= 4 && (!ok || b.rules.iter().any(|r| r.1.is_empty())) {
                o.nontrivial.push(hash_bytes(g.text().as_bytes()));
                o.sample = Some(format!("{} LL(1): {}", one_line(g), ok));
            }
        });
        if let Err(m) = r {
            o.fail("read", format!("{}: {}", one_line(g), m));
        }
        o
    }
}

// ---------------------------------------------------------------------------------------------

pub struct Expansion;

/// The grammar with a non-terminal of its own for the language of each rule in `rules`.
fn with_rule_languages(g: &Gram, pats: Vec<Pat>) -> Gram {
    let mut g = g.clone();
    for (i, pat) in pats.into_iter().enumerate() {
        g.nts.push(format!("rule {}", i));
        g.prods.push(Prod { nt: g.nts.len() - 1, tag: None, pat });
    }
    g
}

impl Prop for Expansion {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "random grammars with nested groups, choices and repetitions; on token sequences (all short ones, sentences of every production, damaged ones) the rules lapex made derive from every production, and from the i-th rule of it, what the i-th written pattern derives, decided by a fixpoint recogniser on either side. Non-trivial: a grammar with at least two helper symbols judged on members and non-members"
    }
    fn pins(&self) -> Vec<Case> {
        pins("C26")
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 3000 } else { 80_000 },
            chunk: 25,
            min_nontrivial: 700,
            shrink_width: 256,
            shrink_rounds: 100,
        }
    }
    fn gen(&self, rng: &mut Rng, _idx: usize, tier: Tier) -> Case {
        let g = if rng.chance(1, 3) {
            any_gram(rng)
        } else {
            let c = gens::Cfg { ebnf: true, max_tok: rng.range(2, 5), max_nt: rng.range(1, 4), max_prods: 3, max_len: 4 };
            let mut g = gens::rand_gram(rng, &c);
            for p in g.prods.iter_mut() {
                if rng.chance(1, 3) {
                    p.pat = gens::deep_pat(rng, g.toks.len(), g.nts.len());
                }
            }
            gens::make_useful(&mut g, rng);
            gens::name_gram(&mut g, rng);
            g
        };
        let cap = if tier == Tier::Quick { 50 } else { 100 };
        let mut toks = Vec::new();
        for n in 0..g.nts.len() {
            let mut h = g.clone();
            h.entry = n;
            toks.extend(gens::inputs(rng, &h, cap / g.nts.len().min(3), 8, false));
        }
        toks.sort();
        toks.dedup();
        let mut c = Case::of(g).set("layout", if rng.chance(1, 4) { rng.below(1000) } else { 0 });
        c.toks = toks;
        c
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        cases.iter().map(|c| self.judge(c)).collect()
    }
}

impl Expansion {
    fn judge(&self, c: &Case) -> Outcome {
        let g = c.g();
        if !g.defined() || !gens::distinct_naming(g) || c.toks.iter().flatten().any(|t| *t as usize >= g.toks.len()) {
            return Outcome::skip("undefined or clashing names");
        }
        let (text, _) = g.render(c.num("layout"));
        let mut o = Outcome::default();
        let r = with_grammar(&text, |gr| {
            let about = |m: String| format!("{}: {}", one_line(g), m);
            let (b, ptrs, _) = match from_lapex(gr, g) {
                Ok(x) => x,
                Err(m) => {
                    o.fail("rules", about(m));
                    return;
                }
            };
            if b.entry != g.entry {
                o.fail("entry", about("the rules have another entry".into()));
                return;
            }
            // rules of a production in the order of the file
            let mut theirs: Vec<Pat> = Vec::new();
            let mut ours: Vec<Pat> = Vec::new();
            let mut which: Vec<(usize, usize)> = Vec::new();
            let l = bnf::as_gram(&b, g);
            for n in 0..g.nts.len() {
                let v: Vec<Pat> = l.prods_of(n).map(|p| p.1.pat.clone()).collect();
                let w: Vec<Pat> = g.prods_of(n).map(|p| p.1.pat.clone()).collect();
                if v.len() != w.len() {
                    o.fail("rules", about(format!("{} has {} rules, {} are written", g.nts[n], v.len(), w.len())));
                    return;
                }
                which.extend((0..v.len()).map(|i| (n, i)));
                theirs.extend(v);
                ours.extend(w);
            }
            // helpers belong to one written rule
            let mut home: HashMap<usize, *const ()> = HashMap::new();
            for r in gr.rules() {
                let i = ptrs[&(r as *const _ as *const ())];
                let from = r.rule() as *const _ as *const ();
                let (lhs, rhs) = &b.rules[i];
                for n in rhs.iter().filter_map(|s| if let Sym::N(n) = s { Some(*n) } else { None }).chain([*lhs]) {
                    if n >= g.nts.len() && *home.entry(n).or_insert(from) != from {
                        o.fail("helpers", about("a helper symbol is shared by two written rules".into()));
                        return;
                    }
                }
            }
            let helpers = b.nnts - g.nts.len();
            let lg = with_rule_languages(&l, theirs);
            let og = with_rule_languages(g, ours);
            let (lo, oo) = (l.nts.len(), g.nts.len());
            let (mut ins, mut outs) = (0, 0);
            for w in &c.toks {
                let a = Chart::new(&og, w);
                let z = Chart::new(&lg, w);
                for n in 0..g.nts.len() {
                    let (x, y) = (a.derives(n), z.derives(n));
                    o.evals += 1;
                    ins += x as usize;
                    outs += !x as usize;
                    if x != y {
                        o.fail(
                            "language",
                            about(format!(
                                "{} is{} derived by the patterns of {}, but {} by its rules",
                                spell(g, w),
                                if x { "" } else { " not" },
                                g.nts[n],
                                if y { "is" } else { "not" }
                            )),
                        );
                        return;
                    }
                }
                for (k, (n, i)) in which.iter().enumerate() {
                    o.evals += 1;
                    if a.derives(oo + k) != z.derives(lo + k) {
                        o.fail("order", about(format!("rule {} of {} does not derive what is written for it: {}", i + 1, g.nts[*n], spell(g, w))));
                        return;
                    }
                }
            }
            if helpers >= 2 && ins > 0 && outs > 0 {
                o.nontrivial.push(hash_bytes(g.text().as_bytes()));
                o.sample = Some(one_line(g));
            }
            o.label(match helpers {
                0 => "no helper symbols",
                1..=3 => "1 to 3 helper symbols",
                _ => "more helper symbols",
            });
        });
        if let Err(m) = r {
            o.fail("read", format!("{}: {}", one_line(g), m));
        }
        o
    }
}

fn pins(id: &str) -> Vec<Case> {
    let mut v: Vec<Case> = super::rust_lr::pins(id, &["lr1"])
        .into_iter()
        .map(|mut c| {
            c.alg.clear();
            c
        })
        .collect();
    for (name, s) in [
        ("LR(0) with a goto beside a reduction", "S = A b; A = !;"),
        ("accept against reduce", "S = S; S = a;"),
        ("accept against reduce below", "S = A; A = S; A = a;"),
        ("accept against shift", "S = S a; S = b;"),
        ("nested groups", "S = ((a | b)+ | (a | b)* c)? d;"),
        ("repeated groups of choices", "S = (a | b) (a | b) (c d | (a | (!)) b)*;"),
        ("repeated nothing", "S = (!)* a (b?)*;"),
        ("plus of a choice with nothing", "S = (a | (!))+ b;"),
        ("follow through a nullable tail", "S = A B c; A = a; A = !; B = b; B = !;"),
        ("two nullable rules", "S = A b; A = !; A = B; B = !;"),
        ("end selects", "S = a S; S = B; B = b; B = !;"),
        ("end in conflict", "S = A; S = B; A = !; B = !; A = a;"),
        ("equal rules", "S = a; S = a;"),
        ("reduce-reduce and shift", "S = A a; S = B a; S = c a; A = c; B = c; S = C a b; C = c;"),
        ("merge makes the conflict", "S = a E d; S = b E e; S = a F e; S = b F d; E = c; F = c;"),
    ] {
        let g = gens::parse_short(s);
        let mut rng = Rng::new(&[hash_bytes(s.as_bytes())]);
        let mut c = Case::of(g.clone());
        if id == "C26" {
            c.toks = gens::inputs(&mut rng, &g, 60, 8, false);
        }
        c.pin = Some(name.into());
        v.push(c);
    }
    if id != "C26" {
        for c in v.iter_mut() {
            c.toks.clear();
        }
    }
    v
}

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Conflicts), Box::new(Ll1), Box::new(Expansion)]
}

//! C22 C28: the dumped table, and how the classes of grammars relate.
use super::rust_lr::{crash, one_line, spell, toks_for, want_for, What};
use crate::ast::*;
use crate::bnf::{is_class, Bnf, Class};
use crate::dump::{self, Dump};
use crate::e2e::*;
use crate::engine::*;
use crate::gens::{self, Want};
use crate::truth::Truth;
use crate::util::*;

fn lang_of(s: &str) -> Lang {
    if s == "cpp" {
        Lang::Cpp
    } else {
        Lang::Rust
    }
}

fn class_of(alg: &str) -> Class {
    match alg {
        "lr0" => Class::Lr0,
        "lr1" => Class::Lr1,
        _ => Class::Lalr,
    }
}

fn names<'a>(g: &'a Gram, w: &[u16]) -> Vec<&'a str> {
    w.iter().map(|t| g.toks[*t as usize].name.as_str()).collect()
}

pub struct Table;

impl Prop for Table {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "random grammars of every LR class are generated with the table option; the dump is parsed by itself and its rules and matrix are run by an interpreter of ours on token sequences, against the fixpoint recogniser. Conflict cells are compared with our own LALR construction. Non-trivial: a dump without conflict cells that accepted and refused some sequence of two or more tokens each, or one with conflict cells"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["blank cells and e cells are errors; the GLR table is the LALR table; grammars without unproductive symbols"]
    }
    fn pins(&self) -> Vec<Case> {
        let mut v = super::rust_lr::pins("C22", &["lr0", "lalr", "lr1", "glr"]);
        for c in v.iter_mut() {
            c.opts.insert("lang".into(), "rust".into());
        }
        v
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 3000 } else { 80_000 },
            chunk: 10,
            min_nontrivial: 800,
            shrink_width: 128,
            shrink_rounds: 60,
        }
    }
    fn gen(&self, rng: &mut Rng, _idx: usize, _tier: Tier) -> Case {
        let alg = *rng.pick(&["lr0", "lalr", "lr1", "glr", "glr"]);
        let w = if alg == "glr" && rng.chance(1, 2) { Want::Lalr } else { want_for(alg) };
        let g = gens::useful_gram(rng, w);
        let mut c = Case { alg: alg.into(), toks: toks_for(rng, &g, "lr1", 60, What::Language), gram: Some(g), ..Default::default() };
        c = c.set("layout", 0);
        c.set("lang", if alg == "glr" { "rust" } else { *rng.pick(&["rust", "cpp"]) })
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        cases.iter().map(judge_table).collect()
    }
}

fn judge_table(c: &Case) -> Outcome {
    let g = c.g();
    if !g.defined() || !g.productive() || !gens::distinct_naming(g) {
        return Outcome::skip("undefined or unproductive symbols");
    }
    let b = Bnf::from_gram(g);
    let clean = match is_class(&b, class_of(&c.alg)) {
        Some(x) => x,
        None if c.opt("clean") == "1" => true,
        None => return Outcome::skip("too many states"),
    };
    let mut o = Outcome::default();
    let lang = lang_of(c.opt("lang"));
    let (x, y) = (Scratch::new("dump"), Scratch::new("dump"));
    match generate_text(&g.text(), &c.alg, lang, false, true, x.path()) {
        Gen::Ok => {}
        r => {
            let mut o = Outcome::default();
            if let Gen::Panicked(m) = &r {
                crash(&mut o, g, &c.alg, m);
            }
            o.label(format!("{}: refused", c.alg));
            return o;
        }
    }
    generate_text(&g.text(), &c.alg, lang, false, false, y.path());
    let what = format!("{} of {}", c.alg, one_line(g));
    if y.path().join("table").exists() {
        o.fail("unasked", format!("a table is dumped without the option: {}", what));
    }
    let text = match std::fs::read_to_string(x.path().join("table")) {
        Ok(t) => t,
        Err(e) => {
            o.fail("no table", format!("no table is dumped: {}: {}", e, what));
            return o;
        }
    };
    let d = match dump::read(&text) {
        Ok(d) => d,
        Err(e) => {
            o.fail("unreadable", format!("the dump does not read as rules and matrix: {}: {}\n{}", e, what, text));
            return o;
        }
    };
    o.evals = 1;
    o.sample = Some(what.clone());
    if d.conflicts() > 0 || !clean {
        if clean {
            o.fail("conflict cells", format!("{} conflict cells for a grammar without conflicts: {}\n{}", d.conflicts(), what, text));
        } else if d.conflicts() == 0 {
            o.fail("conflict cells", format!("no conflict cell for a grammar with conflicts: {}\n{}", what, text));
        }
        o.label(format!("{}: with conflicts", c.alg));
        o.nontrivial.push(hash_bytes(text.as_bytes()));
        return o;
    }
    o.label(format!("{}: without conflicts", c.alg));
    let mut seen = [false; 2];
    let truth = Truth::new(g);
    for w in &c.toks {
        if w.iter().any(|t| *t as usize >= g.toks.len()) || !truth.knows(w) {
            continue;
        }
        o.evals += 1;
        let member = truth.member(w);
        match d.accepts(&names(g, w)) {
            Err(e) => o.fail("run", format!("the dumped table fails on {}: {}: {}\n{}", spell(g, w), e, what, text)),
            Ok(a) if a != member => o.fail(
                "language",
                format!("the dumped table {} {}, which the grammar {}: {}\n{}", if a { "accepts" } else { "refuses" }, spell(g, w), if member { "derives" } else { "does not derive" }, what, text),
            ),
            Ok(_) => seen[member as usize] |= w.len() >= 2,
        }
    }
    if seen[0] && seen[1] {
        o.nontrivial.push(hash_bytes(text.as_bytes()));
    }
    o
}

// ---------------------------------------------------------------------------------------------

pub struct Nesting;

const ALGS: [(&str, &str); 5] = [("lr0", "rust"), ("lalr", "rust"), ("lr1", "rust"), ("glr", "rust"), ("ll1", "cpp")];

fn accepted(g: &Gram) -> Vec<(bool, Option<Result<Dump, String>>)> {
    ALGS.iter()
        .map(|(alg, lang)| {
            let s = Scratch::new("nest");
            let ok = generate_text(&g.text(), alg, lang_of(lang), false, *alg != "ll1", s.path()) == Gen::Ok;
            let d = (ok && *alg != "ll1").then(|| std::fs::read_to_string(s.path().join("table")).map_err(|e| e.to_string()).and_then(|t| dump::read(&t)));
            (ok, d)
        })
        .collect()
}

/// The same grammar with other names, other order, more tokens; and where its tokens went.
fn changed(g: &Gram, seed: u64) -> (Gram, Vec<usize>, &'static str) {
    let mut rng = Rng::new(&[seed, 0x28]);
    let mut h = g.clone();
    let mut map: Vec<usize> = (0..g.toks.len()).collect();
    let what = match rng.below(5) {
        0 => {
            gens::name_gram(&mut h, &mut rng);
            "renamed"
        }
        1 => {
            // any order, within a production as well
            rng.shuffle(&mut h.prods);
            gens::renumber(&mut h);
            "reordered"
        }
        2 => {
            more_toks(&mut h, &mut rng, &mut map);
            "more tokens"
        }
        3 => {
            let n = h.toks.len();
            for _ in 0..3 {
                let (a, b) = (rng.below(n), rng.below(n));
                move_tok(&mut h, a, b, &mut map);
            }
            "tokens reordered"
        }
        _ => {
            gens::name_gram(&mut h, &mut rng);
            rng.shuffle(&mut h.prods);
            gens::renumber(&mut h);
            more_toks(&mut h, &mut rng, &mut map);
            "renamed, reordered and more tokens"
        }
    };
    // tags may collide in the new order
    for p in h.prods.iter_mut() {
        p.tag = None;
    }
    (h, map, what)
}

/// One or more tokens no production uses, anywhere between the others.
fn more_toks(h: &mut Gram, rng: &mut Rng, map: &mut [usize]) {
    let k = if rng.chance(1, 2) { 1 } else { rng.range(2, 12) };
    for i in 0..k {
        let n = h.toks.len();
        h.toks.push(Tok { name: format!("unused_token{}", i), pat: TokPat::Lit(format!("unused{}", i)), prec: None });
        let at = rng.below(n + 1);
        move_tok(h, n, at, map);
    }
}

fn move_tok(h: &mut Gram, from: usize, to: usize, map: &mut [usize]) {
    let t = h.toks.remove(from);
    h.toks.insert(to, t);
    let f = |i: usize| -> usize {
        if i == from {
            to
        } else {
            let k = if i > from { i - 1 } else { i };
            if k >= to {
                k + 1
            } else {
                k
            }
        }
    };
    for p in h.prods.iter_mut() {
        p.pat = p.pat.map_syms(&|q| match q {
            Pat::T(t) => Pat::T(f(*t)),
            q => q.clone(),
        });
    }
    for m in map.iter_mut() {
        *m = f(*m);
    }
}

impl Prop for Nesting {
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "random grammars, with and without useless symbols, are given to all five algorithms and the classes accepted are compared with each other; then the same grammar with other names, another order of rules and tokens or an unused token is given to all, which must accept the same, and where both dump a table without conflict cells both tables must accept the same token sequences. Non-trivial: a grammar some LR class accepts or LL(1) accepts, while another refuses it, or with a dump that accepted some sequence"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["LL(1) within LR(1) only for grammars without useless symbols; not being accepted is any way of failing"]
    }
    fn pins(&self) -> Vec<Case> {
        let mut v = super::rust_lr::pins("C28", &["glr"]);
        for (i, c) in v.iter_mut().enumerate() {
            c.opts.insert("seed".into(), i.to_string());
        }
        v
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 2500 } else { 60_000 },
            chunk: 10,
            min_nontrivial: 600,
            shrink_width: 128,
            shrink_rounds: 60,
        }
    }
    fn gen(&self, rng: &mut Rng, _idx: usize, _tier: Tier) -> Case {
        let g = if rng.chance(1, 5) {
            let ebnf = rng.chance(1, 2);
            let mut g = gens::rand_gram(rng, &gens::Cfg::small(ebnf));
            gens::name_gram(&mut g, rng);
            g
        } else {
            let w = *rng.pick(&[Want::Lr0, Want::Lalr, Want::Lr1, Want::Ll1, Want::Glr, Want::Any]);
            gens::useful_gram(rng, w)
        };
        let mut g = g;
        if rng.chance(1, 8) {
            // the same rule again makes a grammar ambiguous, unless no sentence uses it
            let r = rng.pick(&g.prods).clone();
            let at = rng.below(g.prods.len() + 1);
            g.prods.insert(at, Prod { tag: None, ..r });
            gens::renumber(&mut g);
        }
        let toks = if g.productive() { toks_for(rng, &g, "lr1", 40, What::Language) } else { vec![] };
        Case { toks, gram: Some(g), ..Default::default() }.set("seed", rng.next())
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        cases.iter().map(judge_nesting).collect()
    }
}

fn judge_nesting(c: &Case) -> Outcome {
    let g = c.g();
    if !g.defined() || !gens::distinct_naming(g) {
        return Outcome::skip("undefined symbols");
    }
    let (h, map, what) = changed(g, c.num("seed"));
    if !gens::distinct_naming(&h) {
        return Outcome::skip("names");
    }
    let mut o = Outcome::default();
    let a = accepted(g);
    let show = one_line(g);
    let useful = g.productive() && g.reachable().iter().all(|r| *r);
    let mut inside = |small: usize, big: usize, when: bool| {
        o.evals += 1;
        if when && a[small].0 && !a[big].0 {
            o.fail("nesting", format!("{} accepts, but {} refuses: {}", ALGS[small].0, ALGS[big].0, show));
        }
    };
    inside(0, 1, true);
    inside(1, 2, true);
    inside(4, 2, useful);
    if !a[3].0 {
        o.fail("glr", format!("glr refuses: {}", show));
    }
    let b = accepted(&h);
    for (i, (alg, _)) in ALGS.iter().enumerate() {
        if a[i].0 != b[i].0 {
            o.fail("acceptance", format!("{} {} this: {}\nbut not so {}: {}", alg, if a[i].0 { "accepts" } else { "refuses" }, show, what, one_line(&h)));
        }
    }
    let mut ran = false;
    let productive = g.productive();
    for i in 0..4 {
        let (Some(Ok(x)), Some(Ok(y))) = (&a[i].1, &b[i].1) else { continue };
        if x.conflicts() > 0 && y.conflicts() > 0 || !productive {
            continue;
        }
        if x.conflicts() > 0 || y.conflicts() > 0 {
            o.fail("conflict cells", format!("{}: {} conflict cells in {}, {} when {}: {}", ALGS[i].0, x.conflicts(), show, y.conflicts(), what, one_line(&h)));
            continue;
        }
        for w in &c.toks {
            if w.iter().any(|t| *t as usize >= g.toks.len()) {
                continue;
            }
            let v: Vec<u16> = w.iter().map(|t| map[*t as usize] as u16).collect();
            o.evals += 1;
            let (p, q) = (x.accepts(&names(g, w)), y.accepts(&names(&h, &v)));
            if p != q {
                o.fail("language", format!("{}: {} is {:?}, but {} is {:?} when {}: {} / {}", ALGS[i].0, spell(g, w), p, spell(&h, &v), q, what, show, one_line(&h)));
            }
            ran |= p == Ok(true) && w.len() > 1;
        }
    }
    o.label(format!(
        "accepted by {}",
        ALGS.iter().zip(&a).filter(|(_, x)| x.0).map(|(n, _)| n.0).collect::<Vec<_>>().join(" ")
    ));
    o.label(what);
    if !useful {
        o.label("with useless symbols");
    }
    if ran || a.iter().any(|x| !x.0) && a.iter().filter(|x| x.0).count() > 1 {
        o.nontrivial.push(hash_bytes(c.write().as_bytes()));
    }
    o.sample = Some(format!("{} / {}: {}", show, what, one_line(&h)));
    o
}

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Table), Box::new(Nesting)]
}

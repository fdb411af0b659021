//! C23 C24: what the command says about conflicts and ties, and the debug command.
use super::cli::{ending, ran, snapshot, tool};
use super::rust_lr::want_for;
use crate::ast::*;
use crate::bnf::{Bnf, Class, Descr, Lr, ENTRY};
use crate::chart;
use crate::e2e::*;
use crate::e2e_rust::camel;
use crate::engine::*;
use crate::gens::{self, Want};
use crate::rx::{self, Nfa, Rx};
use crate::texts;
use crate::truth::too_ambiguous;
use crate::util::*;
use std::collections::BTreeSet;
use std::ops::Range;

fn sample(c: &Case) -> String {
    c.text.as_deref().unwrap_or("").chars().take(600).collect()
}

/// A place named by a diagnostic and what is said about it.
#[derive(Debug, Clone, PartialEq)]
struct Section {
    place: String,
    /// the rule's text
    text: Vec<String>,
    /// what follows below the text
    rest: Vec<String>,
}

#[derive(Debug, Clone, PartialEq)]
struct Diag {
    message: String,
    sections: Vec<Section>,
}

/// The diagnostics in the output of the command.
fn diagnostics(err: &str) -> Result<Vec<Diag>, String> {
    let mut out: Vec<Diag> = Vec::new();
    for l in err.split('\n') {
        if let Some(m) = l.strip_prefix("error: ") {
            out.push(Diag { message: m.to_string(), sections: vec![] });
        } else if let Some(p) = l.trim_start().strip_prefix("--> ") {
            let d = out.last_mut().ok_or("a place before any error")?;
            d.sections.push(Section { place: p.to_string(), text: vec![], rest: vec![] });
        } else if l.starts_with("  |") {
            let s = out.last_mut().and_then(|d| d.sections.last_mut()).ok_or("a line before any place")?;
            s.rest.push(l.strip_prefix("  |  ").unwrap_or("").to_string());
        } else if !l.trim().is_empty() {
            return Err(format!("a line that belongs to no diagnostic: {:?}", l));
        }
    }
    for d in out.iter_mut() {
        for s in d.sections.iter_mut() {
            let body = std::mem::take(&mut s.rest);
            let mark = body
                .iter()
                .position(|l| !l.is_empty() && l.chars().all(|c| c == '~'))
                .ok_or_else(|| format!("no underlined text at {}", s.place))?;
            let mut text: Vec<String> = body[..mark].to_vec();
            if text.first().map_or(false, |l| l.is_empty()) {
                text.remove(0);
            }
            s.text = text;
            s.rest = body[mark + 1..].iter().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect();
        }
    }
    Ok(out)
}

/// Where rules are, as diagnostics name them.
struct Places {
    file: String,
    rules: Vec<(RawRule, Range<usize>)>,
    cs: Vec<char>,
}

impl Places {
    fn new(text: &str, file: &str) -> Option<Places> {
        Some(Places { file: file.into(), rules: read_ranges(text).ok()?, cs: text.chars().collect() })
    }
    fn place(&self, r: &Range<usize>) -> String {
        let before = &self.cs[..r.start];
        let line = 1 + before.iter().filter(|c| **c == '\n').count();
        let col = 1 + before.iter().rev().take_while(|c| **c != '\n').count();
        format!("{}:{}:{}", self.file, line, col)
    }
    fn text(&self, r: &Range<usize>) -> Vec<String> {
        let s: String = self.cs[r.clone()].iter().collect();
        s.lines().map(|l| l.to_string()).collect()
    }
    /// The rule a section points at.
    fn find(&self, s: &Section) -> Result<usize, String> {
        let i = self
            .rules
            .iter()
            .position(|(_, r)| self.place(r) == s.place)
            .ok_or_else(|| format!("no rule starts at {}", s.place))?;
        let want = self.text(&self.rules[i].1);
        if want != s.text {
            return Err(format!("the rule at {} reads {:?}, the text shown is {:?}", s.place, want, s.text));
        }
        Ok(i)
    }
    /// Positions of all production rules among the rules.
    fn prods(&self) -> Vec<usize> {
        (0..self.rules.len()).filter(|i| matches!(self.rules[*i].0, RawRule::Prod { .. })).collect()
    }
}

/// The production each plain rule comes from.
fn origins(g: &Gram) -> Vec<usize> {
    let mut v = Vec::new();
    for i in 0..g.prods.len() {
        let mut h = g.clone();
        h.prods.truncate(i + 1);
        let n = Bnf::from_gram(&h).rules.len();
        while v.len() < n {
            v.push(i);
        }
    }
    v
}

fn choice_in_choice(p: &Pat) -> bool {
    let mut found = false;
    p.visit(&mut |q| {
        if let Pat::Alt(v) = q {
            found |= v.iter().any(|e| matches!(e, Pat::Alt(_)));
        }
    });
    found
}

pub struct Diagnostics;

impl Prop for Diagnostics {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "random grammars with LR(0), LALR or LR(1) conflicts and random token sets with precedence ties, under random layouts with rules over several lines, several rules on a line and non-ASCII literals, are given to the command. The diagnostics are read back: every place must be where a rule starts, with that rule's text; the set of (production, token to shift) and of productions reduced together must be the one our own LR construction has; the tokens of a tie must tie by our own subset construction. Non-trivial: a refusal whose diagnostics name a rule that does not start a line, spans lines or lies behind non-ASCII text, or name two rules"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "a shift-reduce conflict on a lookahead that also has a reduce-reduce conflict in the same state may stay unmentioned",
            "the pseudo rule for the entry is shown as some production of the entry",
            "where a choice stands directly within a choice only places and texts are judged",
        ]
    }
    fn pins(&self) -> Vec<Case> {
        let mk = |name: &str, alg: &str, text: &str| {
            let c = Case { pin: Some(name.into()), text: Some(text.into()), alg: alg.into(), ..Default::default() };
            c.set("kind", "conflict").set("lang", "rust").set("lexer", "0")
        };
        let mut v = vec![
            mk("dangling else", "lr1", "token I = \"if\"; token E = \"élse\"; token X = \"x\";\n  entry s; prod s = X;prod s\n=\n\tI s;  prod s = I s E s;"),
            mk("same production twice", "lalr", "token A = \"a\";\nentry s;\nprod s = A;\nprod t = A;prod s = t;\n"),
            mk("in a repetition", "lr1", "token A = \"a\";\nentry s;\nprod s = A* (A | A A)?;\n"),
            mk("LR(0)", "lr0", "token A = \"a\";\nentry s;\nprod s = A s;\nprod s = A;\n"),
            mk("the entry in a cycle", "lr1", "token A = \"a\";\nentry s;\nprod s = s;\nprod s = A;\n"),
            mk("the entry in a cycle, LR(0)", "lr0", "token A = \"a\";\nentry s;\nprod s = s;\nprod s = A;\n"),
        ];
        let tie = Case { pin: Some("three tokens tie".into()), text: Some("token A = \"é\";token B = /é|x/; token\nC=/[a-z]|[à-ü]/; entry s; prod s = A B C;".into()), ..Default::default() };
        v.push(tie.set("kind", "tie").set("lang", "cpp"));
        for n in [300, 70_000] {
            let (lines, cols) = ("\n".repeat(n), " ".repeat(n));
            v.push(mk(&format!("after {} lines", n), "lalr", &format!("token A = \"a\";{}entry s; prod s = A;{}prod t = A; prod s\n = t;\n", lines, lines)));
            v.push(mk(&format!("after {} blanks", n), "lr1", &format!("token A = \"a\"; entry s; prod s = A;\n{}prod t = A;{}prod s = t;", cols, cols)));
            let t = format!("token A = \"a\";{}token B = \"b\";{} token C ={}/a/; entry s; prod s = A B C;", lines, cols, lines);
            let tie = Case { pin: Some(format!("tie after {} lines and blanks", n)), text: Some(t), ..Default::default() };
            v.push(tie.set("kind", "tie").set("lang", "rust"));
        }
        v
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 6000 } else { 200_000 },
            chunk: 10,
            min_nontrivial: 1500,
            shrink_width: 64,
            shrink_rounds: 60,
        }
    }
    fn gen(&self, rng: &mut Rng, _idx: usize, _tier: Tier) -> Case {
        let lang = *rng.pick(&["rust", "cpp"]);
        if rng.chance(1, 3) {
            let mut g = gens::tok_gram(gens::tok_set(rng, false, true));
            if rng.chance(1, 2) {
                // two more that tie for sure
                let mut t = rng.pick(&g.toks).clone();
                t.name = "Again".into();
                if t.prec.is_none() && rng.chance(1, 2) {
                    t.prec = Some(gens::tok_weight(&t) as u32);
                }
                let at = rng.below(g.toks.len() + 1);
                g.toks.insert(at, t);
                g = gens::tok_gram(g.toks);
            }
            let c = Case { text: Some(texts::text(&g, rng)), ..Default::default() };
            let alg = *rng.pick(&["lalr", "lr1", "lr0"]);
            return Case { alg: alg.into(), ..c }.set("kind", "tie").set("lang", lang);
        }
        let alg = *rng.pick(&["lr0", "lalr", "lr1"]);
        let class = match alg {
            "lr0" => Class::Lr0,
            "lr1" => Class::Lr1,
            _ => Class::Lalr,
        };
        let mut g = gens::useful_gram(rng, Want::Any);
        for _ in 0..6 {
            if Lr::new(&Bnf::from_gram(&g), class, 300).map_or(false, |l| l.has_conflict()) {
                break;
            }
            let w = *rng.pick(&[Want::Any, Want::Glr]);
            g = gens::useful_gram(rng, w);
        }
        let pool = ["é", "中", "😀", "\u{301}", "\u{2028}", "~", "~~~", "-->", "|", "error: ", "\t", "\\\"", ";", "ß\u{85}"];
        for (i, t) in g.toks.iter_mut().enumerate() {
            if rng.chance(1, 2) {
                t.pat = TokPat::Lit(format!("{}{}", rng.pick(&pool), i));
            }
        }
        if rng.chance(1, 3) {
            texts::awkward_names(&mut g, rng);
        }
        let c = Case { text: Some(texts::text(&g, rng)), alg: alg.into(), ..Default::default() };
        c.set("kind", "conflict").set("lang", lang).set("lexer", rng.below(2))
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        cases.iter().map(|c| if c.opt("kind") == "tie" { judge_tie(c) } else { judge_conflict(c) }).collect()
    }
    fn smaller(&self, c: &Case) -> Vec<Case> {
        texts::without_a_rule(c.text.as_deref().unwrap_or("")).into_iter().map(|t| Case { text: Some(t), ..c.clone() }).collect()
    }
}

fn generate(c: &Case, lexer: bool, dir: &Scratch) -> (Run, String) {
    // the name under which the grammar is given is the one shown
    let name = ["g.lapex", "./g.lapex", "a b.txt", "sub/ö.lapex"][(hash_bytes(c.opt("kind").as_bytes()) as usize + c.text.as_deref().unwrap_or("").len()) % 4];
    std::fs::create_dir_all(dir.path().join("sub")).unwrap();
    std::fs::create_dir_all(dir.path().join("o")).unwrap();
    write_file(&dir.path().join(name), c.text.as_deref().unwrap_or(""));
    let alg = if c.alg.is_empty() { "lalr" } else { &c.alg };
    let mut cmd = tool();
    cmd.current_dir(dir.path()).args(["generate", "-a", alg, "-l", c.opt("lang"), "--target", "o", name]);
    if !lexer {
        cmd.arg("--no-lexer");
    }
    (ran(&mut cmd), name.to_string())
}

fn hard_place(p: &Places, r: &Range<usize>) -> bool {
    let line_start = p.cs[..r.start].iter().rposition(|c| *c == '\n').map_or(0, |i| i + 1);
    line_start != r.start || p.cs[r.clone()].contains(&'\n') || p.cs[line_start..r.end].iter().any(|c| !c.is_ascii())
}

fn judge_conflict(c: &Case) -> Outcome {
    let text = c.text.as_deref().unwrap_or("");
    let Ok(g) = read_gram(text) else { return Outcome::skip("not a grammar") };
    if !g.defined() || !g.productive() || !gens::distinct_naming(&g) || g.toks.len() > 60 {
        return Outcome::skip("unproductive or clashing names");
    }
    let b = Bnf::from_gram(&g);
    let class = match c.alg.as_str() {
        "lr0" => Class::Lr0,
        "lr1" => Class::Lr1,
        _ => Class::Lalr,
    };
    let Some(lr) = Lr::new(&b, class, 400) else { return Outcome::skip("too many states") };
    let per_state = lr.conflicts();
    let mut o = Outcome::default();
    if per_state.iter().all(|x| x.0.is_empty()) {
        o.label("no conflict");
        return o;
    }
    let dir = Scratch::new("diag");
    let (r, name) = generate(c, c.opt("lexer") == "1", &dir);
    let what = format!("({}) {}", c.alg, sample(c));
    o.evals = 1;
    o.sample = Some(what.clone());
    if r.code == Some(0) {
        o.fail("success", format!("the command ends with success although there are conflicts: {}", what));
        return o;
    }
    let places = Places::new(text, &name).unwrap();
    let shown = match diagnostics(&strip_ansi(&r.err)) {
        Ok(d) => d,
        Err(e) => {
            o.fail("unreadable", format!("{}; {}: {}", e, ending(&r), what));
            return o;
        }
    };
    if shown.is_empty() {
        o.fail("nothing", format!("no diagnostic for a grammar with conflicts, {}: {}", ending(&r), what));
        return o;
    }
    let prods = places.prods();
    // (production, token) and productions reduced together
    let mut have_sr: BTreeSet<(usize, String)> = BTreeSet::new();
    let mut have_rr: BTreeSet<Vec<usize>> = BTreeSet::new();
    let mut hard = false;
    for d in &shown {
        let mut of = Vec::new();
        for s in &d.sections {
            let i = match places.find(s) {
                Ok(i) => i,
                Err(e) => {
                    o.fail("place", format!("{}: {}", e, what));
                    return o;
                }
            };
            hard |= hard_place(&places, &places.rules[i].1);
            let Some(p) = prods.iter().position(|x| *x == i) else {
                o.fail("place", format!("a conflict is shown at {}, which is no production: {}", s.place, what));
                return o;
            };
            of.push(p);
        }
        if of.is_empty() {
            o.fail("place", format!("a diagnostic without a place: {}: {}", d.message, what));
            return o;
        }
        // the item shown belongs to the rule
        let item_ok = |s: &Section, p: usize, item: &str| -> Result<bool, String> {
            let names: Vec<String> = item
                .split_whitespace()
                .map(|w| w.split('(').next().unwrap_or("").to_string())
                .filter(|w| g.nts.contains(w) || g.toks.iter().any(|t| t.name == *w))
                .collect();
            let entry = !item.contains("->");
            if entry {
                return if g.prods[p].nt == g.entry && names == [g.nts[g.entry].clone()] {
                    Ok(true)
                } else {
                    Err(format!("{:?} is shown at {}", item, s.place))
                };
            }
            if g.prods[p].pat.is_bnf() {
                let mut want = vec![g.nts[g.prods[p].nt].clone()];
                g.prods[p].pat.visit(&mut |q| match q {
                    Pat::T(t) => want.push(g.toks[*t].name.clone()),
                    Pat::N(n) => want.push(g.nts[*n].clone()),
                    _ => {}
                });
                if names != want {
                    return Err(format!("the item {:?} is shown at {}, where the rule is {:?}", item, s.place, s.text));
                }
            }
            Ok(false)
        };
        let step = (|| -> Result<(), String> {
            match d.message.as_str() {
                "shift-reduce conflict in grammar" => {
                    let s = &d.sections[0];
                    let k = s.rest.iter().position(|l| l == "Could shift token").ok_or("no token to shift is shown")?;
                    let tok = s.rest.get(k + 1).ok_or("no token to shift is shown")?;
                    if !g.toks.iter().any(|t| t.name == *tok) {
                        return Err(format!("{:?} is shown as a token to shift", tok));
                    }
                    let item = s.rest.get(k + 3).ok_or("no item is shown")?;
                    item_ok(s, of[0], item)?;
                    if of.len() != 1 {
                        return Err("a shift-reduce conflict with several rules".into());
                    }
                    have_sr.insert((of[0], tok.clone()));
                }
                "reduce-reduce conflict in grammar" => {
                    let mut v = Vec::new();
                    for (s, p) in d.sections.iter().zip(&of) {
                        let k = s.rest.iter().position(|l| l == "Could reduce this item:").ok_or("no item is shown")?;
                        let item = s.rest.get(k + 1).ok_or("no item is shown")?;
                        v.push(if item_ok(s, *p, item)? { ENTRY } else { *p });
                    }
                    v.sort();
                    have_rr.insert(v);
                }
                m => return Err(format!("the diagnostic {:?}", m)),
            }
            Ok(())
        })();
        if let Err(e) = step {
            o.fail("contents", format!("{}: {}", e, what));
            return o;
        }
    }
    if !g.prods.iter().any(|p| choice_in_choice(&p.pat)) {
        let from = origins(&g);
        let origin = |r: usize| if r == ENTRY { ENTRY } else { from[r] };
        let (mut need_sr, mut may_sr) = (BTreeSet::new(), BTreeSet::new());
        let (mut need_rr, mut may_rr) = (BTreeSet::new(), BTreeSet::new());
        for (req, may) in &per_state {
            for (set, required) in [(req, true), (may, false)] {
                for d in set {
                    match d {
                        Descr::Shift(c, t) => {
                            let k = (origin(c.0), g.toks[*t].name.clone());
                            if required {
                                need_sr.insert(k.clone());
                            }
                            may_sr.insert(k);
                        }
                        Descr::Reduce(v) => {
                            let mut k: Vec<usize> = v.iter().map(|c| origin(c.0)).collect();
                            k.sort();
                            if required {
                                need_rr.insert(k.clone());
                            }
                            may_rr.insert(k);
                        }
                    }
                }
            }
        }
        let show = |p: usize| if p == ENTRY { "the entry".to_string() } else { places.text(&places.rules[prods[p]].1).join(" ") };
        for (p, t) in &need_sr {
            if !have_sr.contains(&(*p, t.clone())) {
                o.fail("missing", format!("no diagnostic for the conflict between shifting {} and {:?}: {}", t, show(*p), what));
            }
        }
        for (p, t) in &have_sr {
            if !may_sr.contains(&(*p, t.clone())) {
                o.fail("wrong", format!("a conflict between shifting {} and {:?} is shown, there is none: {}", t, show(*p), what));
            }
        }
        for v in &need_rr {
            if !have_rr.contains(v) {
                let v: Vec<String> = v.iter().map(|p| show(*p)).collect();
                o.fail("missing", format!("no diagnostic for the conflict between {:?}: {}", v, what));
            }
        }
        for v in &have_rr {
            if !may_rr.contains(v) {
                let v: Vec<String> = v.iter().map(|p| show(*p)).collect();
                o.fail("wrong", format!("a conflict between {:?} is shown, there is none: {}", v, what));
            }
        }
        o.label("compared with the construction");
        o.evals += (may_sr.len() + may_rr.len()) as u64;
    }
    o.label(format!("{}: {}", c.alg, match (have_sr.is_empty(), have_rr.is_empty()) {
        (false, false) => "both kinds of conflicts",
        (false, true) => "shift-reduce",
        _ => "reduce-reduce",
    }));
    let named: BTreeSet<usize> = have_sr.iter().map(|x| x.0).chain(have_rr.iter().flatten().copied()).collect();
    if hard || named.len() > 1 {
        o.nontrivial.push(hash_bytes(text.as_bytes()));
    }
    o
}

fn judge_tie(c: &Case) -> Outcome {
    let text = c.text.as_deref().unwrap_or("");
    let Ok(g) = read_gram(text) else { return Outcome::skip("not a grammar") };
    let rs: Vec<Rx> = g.toks.iter().map(gens::tok_rx).collect();
    if !g.defined() || !gens::distinct_naming(&g) || rs.contains(&Rx::Empty) || rs.iter().any(|r| r.has_perl() || rx::gap_edge(r)) {
        return Outcome::skip("token names or patterns");
    }
    let nfa = Nfa::new(&rs);
    let Some(subsets) = nfa.subsets(&rx::representatives(&rs), 300) else { return Outcome::skip("more than 300 subsets") };
    let weights: Vec<usize> = g.toks.iter().map(gens::tok_weight).collect();
    let mut ties: BTreeSet<Vec<usize>> = BTreeSet::new();
    for (s, _) in &subsets {
        let a = nfa.accepted(s);
        let top = a.iter().map(|t| weights[*t]).max();
        let best: Vec<usize> = a.iter().copied().filter(|t| Some(weights[*t]) == top).collect();
        if best.len() > 1 {
            ties.insert(best);
        }
    }
    let mut o = Outcome::default();
    if ties.is_empty() {
        o.label("no tie");
        return o;
    }
    let dir = Scratch::new("diag");
    let (r, name) = generate(c, true, &dir);
    let what = sample(c);
    o.evals = 1;
    o.sample = Some(what.clone());
    if r.code == Some(0) {
        o.fail("success", format!("the command ends with success although tokens tie: {}", what));
        return o;
    }
    let places = Places::new(text, &name).unwrap();
    let shown = match diagnostics(&strip_ansi(&r.err)) {
        Ok(d) => d,
        Err(e) => {
            o.fail("unreadable", format!("{}; {}: {}", e, ending(&r), what));
            return o;
        }
    };
    if shown.is_empty() {
        o.fail("nothing", format!("no diagnostic for tokens that tie, {}: {}", ending(&r), what));
        return o;
    }
    let mut hard = false;
    for d in &shown {
        if d.message != "conflicting token precedences in grammar" {
            o.fail("contents", format!("the diagnostic {:?} for a precedence tie: {}", d.message, what));
            return o;
        }
        let mut toks = BTreeSet::new();
        for s in &d.sections {
            let i = match places.find(s) {
                Ok(i) => i,
                Err(e) => {
                    o.fail("place", format!("{}: {}", e, what));
                    return o;
                }
            };
            hard |= hard_place(&places, &places.rules[i].1);
            let RawRule::Tok { name, .. } = &places.rules[i].0 else {
                o.fail("place", format!("a tie is shown at {}, which is no token rule: {}", s.place, what));
                return o;
            };
            if !s.rest.iter().any(|l| l == name) {
                o.fail("contents", format!("the section at {} names {:?}, not {}: {}", s.place, s.rest, name, what));
                return o;
            }
            toks.insert(g.toks.iter().position(|t| t.name == *name).unwrap());
        }
        if toks.len() < 2 {
            o.fail("contents", format!("a tie of {} tokens: {}", toks.len(), what));
        } else if !ties.iter().any(|t| toks.iter().all(|x| t.contains(x))) {
            let v: Vec<&String> = toks.iter().map(|t| &g.toks[*t].name).collect();
            o.fail("wrong", format!("a tie between {:?} is shown, which do not tie: {}", v, what));
        }
    }
    o.label("tie");
    if hard {
        o.nontrivial.push(hash_bytes(text.as_bytes()));
    }
    o
}

// ---------------------------------------------------------------------------------------------

pub struct Debug;

impl Prop for Debug {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "random grammars the GLR generator can treat, ambiguous ones among them, and source files made of sentences, damaged sentences, random characters and bytes that are not UTF-8; the debug command compiles and runs the parser on the file. Success must be reported exactly when our lexer model splits the file into tokens our recogniser derives, with the tokens shifted in order; the directory must stay as it was. Grammars that are refused must not be reported as parsed. Non-trivial: a file of two or more tokens that is judged, or one that does not split into tokens"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["files where the lexer reads past the longest match are left out", "each case compiles a crate, so they are few"]
    }
    fn pins(&self) -> Vec<Case> {
        let g = "token A = \"a\";\ntoken B = /b+/;\nentry s;\nprod s = A s B;\nprod s = s s;\nprod s = B;\n";
        let mk = |name: &str, src: &[u8]| Case { pin: Some(name.into()), text: Some(g.into()), texts: vec![src.to_vec()], ..Default::default() };
        vec![
            mk("a sentence", b"abb"),
            mk("tokens left over", b"bba"),
            mk("an ambiguous sentence", b"babab"),
            mk("nothing", b""),
            mk("no token", b"b\n"),
            mk("not UTF-8", b"b\xff"),
        ]
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 160 } else { 6000 },
            chunk: 1,
            min_nontrivial: 40,
            shrink_width: 16,
            shrink_rounds: 12,
        }
    }
    fn gen(&self, rng: &mut Rng, _idx: usize, _tier: Tier) -> Case {
        let w = *rng.pick(&[Want::Glr, Want::Lalr, Want::Ll1, want_for("lr1")]);
        let mut g = gens::useful_gram(rng, w);
        if rng.chance(1, 2) {
            let mut src = Vec::new();
            while src.len() < g.toks.len() {
                src.extend(gens::tok_set(rng, false, false));
            }
            let n = src.len() as u32;
            for (k, (t, s)) in g.toks.iter_mut().zip(src).enumerate() {
                t.pat = s.pat;
                t.prec = Some(n - k as u32);
            }
            if rng.chance(1, 12) {
                g.toks[0].prec = g.toks.last().unwrap().prec;
            }
        }
        let pool = gens::text_pool(&g.toks, rng);
        let mut s = String::new();
        let mut bytes = if rng.chance(1, 8) {
            gens::rand_text(&g.toks, &pool, rng, 4).into_bytes()
        } else {
            let mut w = if rng.chance(3, 5) {
                let n = rng.range(1, 7);
                g.sentence(rng, n)
            } else {
                let v = gens::inputs(rng, &g, 30, 6, false);
                rng.pick(&v).clone()
            };
            w.truncate(12);
            for t in w {
                gens::sample_rx(&gens::tok_rx(&g.toks[t as usize]), rng, &pool, &mut s);
            }
            s.into_bytes()
        };
        if rng.chance(1, 20) {
            let i = rng.below(bytes.len() + 1);
            bytes.insert(i, *rng.pick(&[0xff, 0x80, b'\n', b' ', b'\r']));
        }
        let extra = rng.chance(1, 2);
        Case { text: Some(g.text()), texts: vec![bytes], ..Default::default() }.set("extra", extra as u8)
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        cases.iter().map(judge_debug).collect()
    }
    fn smaller(&self, c: &Case) -> Vec<Case> {
        let mut out: Vec<Case> = texts::without_a_rule(c.text.as_deref().unwrap_or("")).into_iter().map(|t| Case { text: Some(t), ..c.clone() }).collect();
        for i in 0..c.texts[0].len().min(20) {
            let mut t = c.texts[0].clone();
            t.remove(i);
            out.push(Case { texts: vec![t], ..c.clone() });
        }
        out
    }
}

/// The tokens of a file and whether it splits to its end; Err where the model leaves it open.
fn split(g: &Gram, bytes: &[u8]) -> Result<(Vec<u16>, bool), &'static str> {
    let Ok(s) = std::str::from_utf8(bytes) else { return Ok((vec![], false)) };
    if s.contains('\0') {
        return Err("NUL");
    }
    let rs: Vec<Rx> = g.toks.iter().map(gens::tok_rx).collect();
    if rs.iter().any(|r| r.has_perl() || rx::gap_edge(r)) {
        return Err("patterns outside of the model");
    }
    if rs.iter().any(|r| r.matches(&[])) {
        return Err("a token matches nothing");
    }
    let nfa = Nfa::new(&rs);
    let weights: Vec<usize> = g.toks.iter().map(gens::tok_weight).collect();
    let cs: Vec<char> = s.chars().collect();
    let mut at = 0;
    let mut out = Vec::new();
    while at < cs.len() {
        let m = rx::munch(&nfa, &cs[at..]);
        let Some((len, of)) = m.best else { return Ok((out, false)) };
        if len < m.read {
            return Err("the lexer reads past the longest match");
        }
        let top = of.iter().map(|t| weights[*t]).max();
        let best: Vec<usize> = of.into_iter().filter(|t| Some(weights[*t]) == top).collect();
        if best.len() > 1 {
            return Err("tie");
        }
        out.push(best[0] as u16);
        at += len;
    }
    Ok((out, true))
}

fn judge_debug(c: &Case) -> Outcome {
    let text = c.text.as_deref().unwrap_or("");
    let bytes = &c.texts[0];
    let Ok(g) = read_gram(text) else { return Outcome::skip("not a grammar") };
    if !g.defined() || !g.productive() || !gens::distinct_naming(&g) || Bnf::from_gram(&g).cyclic_or_hidden_left() {
        return Outcome::skip("outside of the GLR parser's domain");
    }
    let toks = match split(&g, bytes) {
        Ok((t, _)) if too_ambiguous(&g, &[t.clone()])[0] => return Outcome::skip("too ambiguous a text"),
        Ok((t, all)) => all.then_some(t),
        Err(w) => return Outcome::skip(w),
    };
    let mut o = Outcome { evals: 1, ..Default::default() };
    let d = Scratch::new("debug");
    let (cwd, tmp) = (d.path().join("here"), d.path().join("tmp"));
    std::fs::create_dir_all(cwd.join("src")).unwrap();
    std::fs::create_dir_all(&tmp).unwrap();
    write_file(&cwd.join("my grammar.lapex"), text);
    std::fs::write(cwd.join("src.txt"), bytes).unwrap();
    write_file(&cwd.join("src/main.rs"), "mine");
    let before = snapshot(&cwd);
    let mut cmd = tool();
    cmd.current_dir(&cwd).env("TMPDIR", &tmp).env("CARGO_TERM_COLOR", "never").env("CARGO_NET_OFFLINE", "true");
    cmd.env_remove("CARGO_TARGET_DIR").env_remove("CARGO_MANIFEST_DIR");
    cmd.args(["debug", "my grammar.lapex", "src.txt"]);
    if c.opt("extra") == "1" {
        cmd.args(["-a", "glr"]);
    }
    let r = run(&mut cmd, &Limits { cpu_s: 0, as_bytes: 0, wall_s: 300 });
    if r.timed_out {
        infra("the debug command took more than five minutes");
    }
    let what = format!("{:?} under {}", String::from_utf8_lossy(bytes), sample(c));
    o.sample = Some(what.clone());
    let tail: String = strip_ansi(&r.err).lines().filter(|l| l.contains("rror") || l.contains("panicked") || l.contains("arse")).map(|l| l.chars().take(200).collect::<String>()).collect::<Vec<_>>().join(" / ");
    if r.err.contains("No space left") || r.err.contains("could not execute process") {
        infra(&tail);
    }
    let yes = r.out.lines().any(|l| l.starts_with("Successfully parsed"));
    let no = r.err.lines().any(|l| l.starts_with("Failed to parse"));
    if snapshot(&cwd) != before {
        let after = snapshot(&cwd);
        let new: Vec<&String> = after.keys().filter(|k| !before.contains_key(*k)).collect();
        o.fail("left behind", format!("the working directory changed, new: {:?}: {}", new, what));
        return o;
    }
    let strict = toks.as_ref().map_or(false, |w| chart::member(&g, w));
    if yes == no {
        // neither is right for a grammar that is refused, which those with a tie are
        let refused = matches!(generate_text(text, "glr", Lang::Rust, true, false, &tmp), Gen::Refused | Gen::Panicked(_));
        if refused && !yes {
            if r.code == Some(0) {
                o.fail("refused", format!("the grammar is refused, but the command ends with success: {}", what));
            }
            o.label("refused");
            return o;
        }
        o.fail("verdict", format!("{} ({}): {}", if yes { "both success and failure are reported" } else { "neither success nor failure is reported" }, tail, what));
        return o;
    }
    if yes != strict {
        o.fail(
            "verdict",
            format!("{} is reported, but the file {} ({}): {}", if yes { "success" } else { "failure" }, match &toks {
                None => "does not split into tokens".to_string(),
                Some(w) => format!("has the tokens {:?}, which are {}derived", w, if strict { "" } else { "not " }),
            }, tail, what),
        );
        return o;
    }
    if yes {
        let have: Vec<&str> = r.out.lines().filter_map(|l| l.strip_prefix("shift ")).collect();
        let want: Vec<String> = toks.as_ref().unwrap().iter().map(|t| format!("Tk{}", camel(&g.toks[*t as usize].name))).collect();
        if have != want {
            o.fail("shifts", format!("the tokens are {:?}, those printed as shifted {:?}: {}", want, have, what));
        }
    }
    o.label(match (&toks, yes) {
        (None, _) => "no tokens",
        (_, true) => "parsed",
        _ => "not parsed",
    });
    if toks.as_ref().map_or(true, |w| w.len() >= 2) {
        o.nontrivial.push(hash_bytes(what.as_bytes()));
    }
    o
}

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Diagnostics), Box::new(Debug)]
}

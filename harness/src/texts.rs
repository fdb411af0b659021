//! Random grammar texts: redundant parentheses, awkward names, any layout.
use crate::ast::*;
use crate::gens;
use crate::util::Rng;

const NAMES: &[&str] = &[
    "tokens", "prods", "entry_x", "prodA", "entryentry", "a0", "X_", "token0", "entry1", "l", "T", "tok", "pro", "entr",
    "Token", "PROD", "Entry", "e", "p_", "t9_", "zZ0_9", "token_", "a_very_long_name_of_a_symbol_that_goes_on_and_on_for_quite_a_while_0",
    "prod_entry_token", "o", "en", "_x",
];

/// Gives some symbols names that begin like keywords or are unusual otherwise.
pub fn awkward_names(g: &mut Gram, rng: &mut Rng) {
    let mut n: Vec<&str> = NAMES.iter().copied().filter(|s| !s.starts_with('_')).collect();
    rng.shuffle(&mut n);
    for t in g.toks.iter_mut() {
        if rng.chance(1, 2) {
            if let Some(s) = n.pop() {
                t.name = s.into();
            }
        }
    }
    for t in g.nts.iter_mut() {
        if rng.chance(1, 2) {
            if let Some(s) = n.pop() {
                *t = s.into();
            }
        }
    }
}

/// The pieces of a pattern with parentheses that are not needed here and there.
fn put(g: &Gram, p: &Pat, top: bool, extra: usize, rng: &mut Rng, out: &mut Vec<String>) {
    if extra > 0 && rng.chance(1, 7) {
        out.push("(".into());
        put(g, p, true, extra - 1, rng, out);
        out.push(")".into());
        return;
    }
    let group = |out: &mut Vec<String>, rng: &mut Rng| {
        out.push("(".into());
        put(g, p, true, extra, rng, out);
        out.push(")".into());
    };
    match p {
        Pat::T(i) => out.push(g.toks[*i].name.clone()),
        Pat::N(i) => out.push(g.nts[*i].clone()),
        Pat::Eps if top => out.push("!".into()),
        Pat::Seq(v) if top => {
            for e in v {
                put(g, e, false, extra, rng, out);
            }
        }
        Pat::Alt(v) if top => {
            for (i, e) in v.iter().enumerate() {
                if i > 0 {
                    out.push("|".into());
                }
                match e {
                    Pat::Seq(w) => {
                        for x in w {
                            put(g, x, false, extra, rng, out);
                        }
                    }
                    e => put(g, e, false, extra, rng, out),
                }
            }
        }
        Pat::Star(q) | Pat::Plus(q) | Pat::Opt(q) => {
            match **q {
                Pat::Star(_) | Pat::Plus(_) | Pat::Opt(_) => {
                    out.push("(".into());
                    put(g, q, true, extra, rng, out);
                    out.push(")".into());
                }
                _ => put(g, q, false, extra, rng, out),
            }
            out.push(
                match p {
                    Pat::Star(_) => "*",
                    Pat::Plus(_) => "+",
                    _ => "?",
                }
                .into(),
            );
        }
        _ => group(out, rng),
    }
}

/// The pieces of every rule in the usual order.
pub fn pieces(g: &Gram, extra: usize, rng: &mut Rng) -> Vec<Vec<String>> {
    g.order()
        .into_iter()
        .map(|r| match r {
            RuleRef::Prod(i) if extra > 0 => {
                let whole = g.rule_pieces(r);
                let eq = whole.iter().position(|p| p == "=").unwrap();
                let mut v: Vec<String> = whole[..=eq].to_vec();
                put(g, &g.prods[i].pat, true, extra, rng, &mut v);
                v.push(";".into());
                v
            }
            r => g.rule_pieces(r),
        })
        .collect()
}

/// Puts rules together under a random layout. The rules keep their order.
pub fn lay_out(rules: &[Vec<String>], rng: &mut Rng) -> String {
    let style = rng.below(8);
    let wordy = |c: char| c.is_ascii_alphanumeric() || c == '_';
    let gap = |rng: &mut Rng, need: bool, between: bool, s: &mut String| {
        let (n, set): (usize, &[char]) = match style {
            0 => (1, &[' ']),
            1 => (need as usize, &[' ', '\t', '\n']),
            2 => (need as usize + rng.below(4), &[' ', '\t']),
            3 => (need as usize + rng.below(3), &[' ', '\n', '\t']),
            4 => (need as usize + rng.below(6), &['\n']),
            5 if between => (rng.below(40), &['\n', '\n', ' ']),
            6 if rng.chance(1, 12) => (rng.range(1, 400), &[' ', '\t']),
            7 if rng.chance(1, 12) => (rng.range(1, 400), &['\n']),
            _ => (need as usize + rng.below(2), &[' ']),
        };
        for _ in 0..n {
            s.push(*rng.pick(set));
        }
    };
    let mut s = String::new();
    if rng.chance(1, 3) {
        gap(rng, false, true, &mut s);
    }
    for (k, r) in rules.iter().enumerate() {
        for (i, p) in r.iter().enumerate() {
            if i > 0 {
                let need = wordy(s.chars().last().unwrap()) && wordy(p.chars().next().unwrap());
                gap(rng, need, false, &mut s);
            }
            s.push_str(p);
        }
        if k + 1 < rules.len() || rng.chance(1, 2) {
            if style == 0 {
                s.push('\n');
            } else {
                gap(rng, false, true, &mut s);
            }
        }
    }
    s
}

/// Any well-formed and consistent grammar text. The tokens may be anything the format can hold.
pub fn grammar(rng: &mut Rng) -> Gram {
    let mut c = gens::Cfg::small(true);
    c.max_tok = rng.range(1, 6);
    c.max_nt = rng.range(1, 6);
    let mut g = gens::rand_gram(rng, &c);
    let (tk, nt) = (g.toks.len(), g.nts.len());
    for p in g.prods.iter_mut() {
        if rng.chance(1, 4) {
            p.pat = gens::deep_pat(rng, tk, nt);
        }
    }
    gens::name_gram(&mut g, rng);
    let mut src = gens::tok_set(rng, true, true);
    while src.len() < g.toks.len() {
        src.extend(gens::tok_set(rng, true, true));
    }
    for (t, s) in g.toks.iter_mut().zip(src) {
        t.pat = s.pat;
        t.prec = s.prec;
        if rng.chance(1, 4) {
            // characters that mean something outside of strings
            let v = [
                ";", "=", "| ", "  ", "token", "\t", "//", "/*", "a;b", "\\\\", "\\\"", "\\/", "é\u{301}", "😀;", "\u{85}", "\u{2028}x",
                "\r", "(", "\\n", "'", "[1]", "prod x = y;", "\u{feff}", "\u{202e}abc", "中文字",
            ];
            let mut s = String::new();
            for _ in 0..rng.range(1, 3) {
                s.push_str(*rng.pick(&v[..]));
            }
            t.pat = TokPat::Lit(s);
        }
    }
    if rng.chance(1, 2) {
        gens::add_tags(&mut g, rng);
    }
    if rng.chance(1, 3) {
        awkward_names(&mut g, rng);
    }
    // every production needs a rule, which random grammars have
    g
}

/// A text of the grammar in which the kinds of rules are mixed.
pub fn text(g: &Gram, rng: &mut Rng) -> String {
    let extra = if rng.chance(1, 2) { 2 } else { 0 };
    let v = pieces(g, extra, rng);
    let nt = g.toks.len();
    let mut keys: Vec<u8> = vec![0; nt];
    keys.push(1);
    keys.extend(vec![2; g.prods.len()]);
    if rng.chance(2, 3) {
        rng.shuffle(&mut keys);
    }
    let (mut a, mut b) = (0, nt + 1);
    let v: Vec<Vec<String>> = keys
        .into_iter()
        .map(|k| match k {
            0 => {
                a += 1;
                v[a - 1].clone()
            }
            1 => v[nt].clone(),
            _ => {
                b += 1;
                v[b - 1].clone()
            }
        })
        .collect();
    lay_out(&v, rng)
}

/// One shorter text per rule left out, then shorter stretches of blanks.
pub fn without_a_rule(text: &str) -> Vec<String> {
    let Ok(r) = read_ranges(text) else { return vec![] };
    let cs: Vec<char> = text.chars().collect();
    let mut out = Vec::new();
    for (_, range) in &r {
        let mut d = cs.clone();
        d.drain(range.clone());
        out.push(d.into_iter().collect());
    }
    out
}

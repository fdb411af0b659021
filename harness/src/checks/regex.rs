//! C03 C04: token automata, judged in process.
use super::lexers::toks_line;
use crate::ast::*;
use crate::e2e::*;
use crate::engine::*;
use crate::gens;
use crate::rx::{self, Nfa, Rx};
use crate::util::*;
use lapex_automaton::{AutomatonState, Dfa};
use lapex_input::{LapexInputParser, Spanned, TokenRule};
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};

type Accepting<'a> = Vec<&'a Spanned<TokenRule<'a>>>;

/// One of lapex's automata in a plain form: per state its transitions by range and the accepted names.
pub struct Plain {
    trans: Vec<BTreeMap<usize, usize>>,
    accept: Vec<Vec<String>>,
    ranges: Vec<(u32, u32)>,
}

impl Plain {
    fn range(&self, c: char) -> Option<usize> {
        let c = c as u32;
        self.ranges.iter().position(|(a, b)| *a <= c && c <= *b)
    }
    fn step(&self, s: usize, c: char) -> Option<usize> {
        self.trans[s].get(&self.range(c)?).copied()
    }
}

fn plain<S: std::fmt::Debug>(
    dfa: &Dfa<S, usize>,
    names: &dyn Fn(&S) -> Vec<String>,
    ranges: Vec<(u32, u32)>,
) -> Result<Plain, String> {
    let ids: Vec<_> = dfa.states().map(|x| x.0).collect();
    let ix: BTreeMap<_, usize> = ids.iter().enumerate().map(|(i, s)| (*s, i)).collect();
    let mut p = Plain {
        trans: vec![BTreeMap::new(); ids.len()],
        accept: vec![vec![]; ids.len()],
        ranges,
    };
    for (s, st) in dfa.states() {
        if let AutomatonState::Accepting(a) = st {
            let mut v = names(a);
            v.sort();
            p.accept[ix[&s]] = v;
        }
        for (t, to) in dfa.transitions_from(s) {
            if let Some(o) = p.trans[ix[&s]].insert(*t, ix[&to]) {
                if o != ix[&to] {
                    return Err(format!("state {:?} has two transitions on range {}", s, t));
                }
            }
        }
    }
    Ok(p)
}

/// Runs `f` on the automaton before precedences and the result of applying them.
pub fn with_automaton<R>(
    parser: &dyn LapexInputParser,
    text: &str,
    f: impl FnOnce(Plain, Result<Plain, (Vec<String>, usize)>) -> R,
) -> Result<R, String> {
    let rules = parser
        .parse_lapex(text)
        .map_err(|e| format!("not read: {}", e))?;
    let alphabet = lapex_lexer::generate_alphabet(&rules.token_rules);
    let ranges: Vec<(u32, u32)> = alphabet.get_ranges().iter().map(|r| (*r.start(), *r.end())).collect();
    for w in ranges.windows(2) {
        if w[0].1 + 1 != w[1].0 {
            return Err(format!("ranges {:?} do not join", w));
        }
    }
    if ranges.first().map_or(true, |r| r.0 != 0) || ranges.last().map_or(true, |r| r.1 < 0x10ffff) {
        return Err("the ranges do not cover all characters".into());
    }
    let (start, nfa) = lapex_lexer::generate_nfa(&alphabet, &rules.token_rules);
    let dfa: Dfa<Accepting, usize> = nfa.powerset_construction(start);
    let raw = plain(&dfa, &|a: &Accepting| a.iter().map(|r| r.inner.name.to_string()).collect(), ranges.clone())?;
    for c in ['a', '\u{1}', '\u{7f}', '\u{d7ff}', '\u{e000}', '\u{10ffff}'] {
        if alphabet.find_range(c as u32) != raw.range(c) {
            return Err(format!("find_range({:?})", c));
        }
    }
    let resolved = match lapex_lexer::apply_precedence_to_dfa(dfa) {
        Ok(d) => Ok(plain(&d, &|a: &&TokenRule| vec![a.name.to_string()], ranges)?),
        Err(e) => Err((e.rules.iter().map(|r| r.inner.clone()).collect(), e.precedence)),
    };
    Ok(f(raw, resolved))
}

fn names(g: &Gram, v: &[usize]) -> Vec<String> {
    let mut n: Vec<String> = v.iter().map(|t| g.toks[*t].name.clone()).collect();
    n.sort();
    n
}

/// Walks both automata together over every class of characters; the first difference found.
pub fn compare(g: &Gram, nfa: &Nfa, p: &Plain, rs: &[Rx], limit: usize) -> Result<(usize, usize), (String, String)> {
    let mut alphabet: BTreeSet<char> = rx::representatives(rs).into_iter().collect();
    for (a, b) in &p.ranges {
        for c in [*a, *b] {
            if let Some(c) = char::from_u32(c).filter(|c| *c != '\0') {
                alphabet.insert(c);
            }
        }
    }
    let mut seen: HashSet<(BTreeSet<usize>, Option<usize>)> = HashSet::new();
    let mut todo: VecDeque<(BTreeSet<usize>, Option<usize>, String)> = VecDeque::new();
    let mut accepting = 0;
    seen.insert((nfa.begin(), Some(0)));
    todo.push_back((nfa.begin(), Some(0), String::new()));
    while let Some((s, q, w)) = todo.pop_front() {
        let want = names(g, &nfa.accepted(&s));
        let have = q.map(|q| p.accept[q].clone()).unwrap_or_default();
        accepting += !want.is_empty() as usize;
        if want != have {
            return Err(("language".into(), format!("{:?} is matched by {:?}, accepted for {:?}", w, want, have)));
        }
        for c in &alphabet {
            let t = nfa.step(&s, *c);
            let r = q.and_then(|q| p.step(q, *c));
            if t.is_empty() && r.is_none() {
                continue;
            }
            if seen.len() < limit && seen.insert((t.clone(), r)) {
                let mut x = w.clone();
                x.push(*c);
                todo.push_back((t, r, x));
            }
        }
    }
    Ok((seen.len(), accepting))
}

pub struct Language;
pub struct Ties;

impl Prop for Language {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "random token sets (regexes with nested groups, classes, set operations, counted repetition over characters of the whole range; literals) go through the front end and the automaton construction. Without \\d\\w\\s the automaton is walked together with our own over representatives of every character class, which decides equality of the languages up to the state limit; with them, generated texts are compared. Non-trivial: a set with a pattern of at least three nodes for which some text was accepted"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["two independent matchers of ours agree on every text compared; NUL is no character of a text"]
    }
    fn pins(&self) -> Vec<Case> {
        pins_c04()
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 6000 } else { 200_000 },
            chunk: 50,
            min_nontrivial: 1500,
            shrink_width: 256,
            shrink_rounds: 100,
        }
    }
    fn gen(&self, rng: &mut Rng, _idx: usize, tier: Tier) -> Case {
        let perl = rng.chance(1, 5);
        let mut toks = gens::tok_set(rng, perl, true);
        toks.truncate(rng.range(1, 4));
        if rng.chance(1, 3) {
            // one deeper expression
            let pool = gens::char_pool(rng);
            let d = rng.range(3, 5);
            toks[0].pat = TokPat::Re(gens::small_rx(rng, &pool, d, perl));
        }
        let pool = gens::text_pool(&toks, rng);
        let n = if tier == Tier::Quick { 40 } else { 80 };
        let mut texts: Vec<Vec<u8>> = Vec::new();
        for _ in 0..n {
            let mut s = String::new();
            match rng.below(5) {
                0 => s = gens::rand_text(&toks, &pool, rng, 3),
                1 => {
                    for _ in 0..rng.range(0, 3) {
                        s.push(*rng.pick(&pool));
                    }
                }
                k => {
                    gens::sample_rx(&gens::tok_rx(rng.pick(&toks)), rng, &pool, &mut s);
                    if k == 4 {
                        let mut cs: Vec<char> = s.chars().collect();
                        let i = rng.below(cs.len() + 1);
                        match rng.below(3) {
                            0 => cs.insert(i, *rng.pick(&pool)),
                            1 if i < cs.len() => {
                                cs.remove(i);
                            }
                            _ if i < cs.len() => cs[i] = *rng.pick(&pool),
                            _ => {}
                        }
                        s = cs.into_iter().collect();
                    }
                }
            }
            let s: String = s.chars().filter(|c| *c != '\0' && (!perl || gens::known_char(*c))).take(80).collect();
            texts.push(s.into_bytes());
        }
        texts.sort();
        texts.dedup();
        let mut c = Case::of(gens::tok_gram(toks));
        c.texts = texts;
        c
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        cases.iter().map(|c| run_language(c)).collect()
    }
}

fn run_language(c: &Case) -> Outcome {
    let g = c.g();
    let rs: Vec<Rx> = g.toks.iter().map(gens::tok_rx).collect();
    if !names_ok(g) || rs.contains(&Rx::Empty) || (rs.iter().any(rx::gap_edge) && c.opt("known").is_empty()) {
        return Outcome::skip("token names or an empty pattern");
    }
    let mut o = Outcome::default();
    let nfa = Nfa::new(&rs);
    let mut chars = rx::representatives(&rs);
    chars.extend(rx::KNOWN.iter().map(|k| k.0));
    if nfa.subsets(&chars, if c.num("big") > 0 { 2500 } else { 250 }).is_none() {
        return Outcome::skip("too many subsets");
    }
    let perl = rs.iter().any(|r| r.has_perl());
    let r = with_automaton(&lapex_input_gen::GeneratedLapexInputParser, &g.text(), |p, _| {
        let mut o = Outcome::default();
        let mut some = false;
        if !perl {
            match compare(g, &nfa, &p, &rs, 400) {
                Ok((n, a)) => {
                    o.evals += n as u64;
                    some |= a > 0;
                    o.label("automata compared completely");
                }
                Err((sig, m)) => {
                    o.fail(&sig, format!("{}; {}", m, toks_line(g)));
                    return o;
                }
            }
        }
        for t in &c.texts {
            let s = match std::str::from_utf8(t) {
                Ok(s) if !s.contains('\0') && (!perl || s.chars().all(gens::known_char)) => s,
                _ => continue,
            };
            let cs: Vec<char> = s.chars().collect();
            let want: Vec<usize> = (0..rs.len()).filter(|i| rs[*i].matches(&cs)).collect();
            let mut set = nfa.begin();
            for ch in &cs {
                set = nfa.step(&set, *ch);
            }
            if nfa.accepted(&set) != want {
                infra(&format!("our matchers disagree on {:?}: {}", s, toks_line(g)));
            }
            let mut q = Some(0);
            for ch in &cs {
                q = q.and_then(|q| p.step(q, *ch));
            }
            let have = q.map(|q| p.accept[q].clone()).unwrap_or_default();
            let want = names(g, &want);
            o.evals += 1;
            some |= !want.is_empty();
            if want != have {
                o.fail("language", format!("{:?} is matched by {:?}, accepted for {:?}; {}", s, want, have, toks_line(g)));
                return o;
            }
        }
        if some && rs.iter().any(|r| r.size() >= 3) {
            o.nontrivial.push(hash_bytes(toks_line(g).as_bytes()));
            o.sample = Some(toks_line(g));
        }
        let mut shapes: BTreeSet<&str> = BTreeSet::new();
        for r in &rs {
            r.visit(&mut |e| {
                shapes.insert(match e {
                    Rx::Class { neg: true, .. } => "negated class",
                    Rx::Class { .. } => "class",
                    Rx::Op(..) => "set operation",
                    Rx::Posix(_) => "named class",
                    Rx::Perl(_) => "\\d \\w \\s",
                    Rx::Dot => "dot",
                    Rx::Rep { min, max: Some(m), .. } if min == m => "exact count",
                    Rx::Rep { min: 0, max: Some(1), .. } => "optional",
                    Rx::Rep { max: Some(_), .. } => "bounded count",
                    Rx::Rep { min: 0 | 1, .. } => "star or plus",
                    Rx::Rep { .. } => "open count",
                    Rx::Alt(_) => "alternation",
                    Rx::Empty => "empty alternative",
                    _ => "plain",
                });
            });
        }
        for s in shapes {
            o.label(format!("with {}", s));
        }
        o
    });
    match r {
        Ok(o) => o,
        Err(m) => {
            o.fail("construction", format!("{}; {}", m, toks_line(g)));
            o
        }
    }
}

fn names_ok(g: &Gram) -> bool {
    let mut n: Vec<&String> = g.toks.iter().map(|t| &t.name).collect();
    n.sort();
    n.dedup();
    n.len() == g.toks.len() && g.defined()
}

fn raw_toks(spec: &[(&str, &str)]) -> Gram {
    let mut s = String::new();
    for (n, p) in spec {
        s.push_str(&format!("token {} = {};\n", n, p));
    }
    s.push_str("entry everything;\nprod everything = !;\n");
    let alts: Vec<&str> = spec.iter().map(|x| x.0.split_whitespace().next().unwrap()).collect();
    s.push_str(&format!("prod everything = ({}) everything;\n", alts.join(" | ")));
    read_gram(&s).unwrap_or_else(|e| infra(&format!("pin: {} in {}", e, s)))
}

fn pins_c04() -> Vec<Case> {
    let mk = |name: &str, pats: &[&str], texts: &[&str]| {
        let ns = ["alpha", "beta", "gamma", "delta", "omega", "sigma"];
        let spec: Vec<(&str, &str)> = pats.iter().enumerate().map(|(i, p)| (ns[i], *p)).collect();
        let mut c = Case::of(raw_toks(&spec));
        c.pin = Some(name.into());
        c.texts = texts.iter().map(|t| t.as_bytes().to_vec()).collect();
        c
    };
    let mut v = vec![
        mk("exact count", &["/a{3}/", "/(ab){2}c/"], &["a", "aa", "aaa", "aaaa", "ababc", "abc", "abababc"]),
        mk("open count", &["/a{2,}/", "/(ab|c){3,}/"], &["a", "aa", "aaaaaa", "abcab", "cc"]),
        mk("bounded count", &["/a{2,4}/", "/b{0,2}/", "/(a?b){1,3}/"], &["a", "aa", "aaaa", "aaaaa", "b", "bbb", "abab"]),
        mk("empty alternatives", &["/a(|b)/", "/(x|)y/", "/(|p|q)*z/"], &["a", "ab", "y", "xy", "z", "ppqz"]),
        mk("nested stars", &["/((a*b)*c)*/", "/(a|b)*abb/"], &["", "c", "aabc", "abb", "aababb"]),
        mk("negated class", &["/[^a-z]/", "/[^\\n]x/"], &["a", "A", "\u{10ffff}", "é", "\nx", "\u{d7ff}", "\u{e000}x"]),
        mk("dot", &["/./", "/..b/"], &["\n", "x", "😀", "\u{10ffff}", "aab", "a\nb"]),
        mk("escapes", &["/\\x41\\x{1F600}/", "/\\u{e9}/", "/\\(\\)\\[\\]\\*/", "/a\\tb/"], &["A😀", "é", "()[]*", "a\tb"]),
        mk("perl classes", &["/\\d+\\w*/", "/\\s/", "/[\\d_]x/"], &["12ab", "٣", " ", "\u{a0}", "_x", "é"]),
        mk("class operations", &["/[a-z&&[^aeiou]]+/", "/[[:upper:]--[A-F]]/", "/[a-c~~b-d]/"], &[]),
        mk("literals", &["\"a.b*\"", "\"λ→\"", "\"[x]\""], &["a.b*", "axb", "λ→", "[x]", "x"]),
        mk("edges of ranges", &["/[\u{7f}-\u{80}]/", "/[\u{7ff}-\u{800}]/", "/[\u{ffff}-\u{10000}]/"], &["\u{7f}", "\u{80}", "\u{81}", "\u{7ff}", "\u{800}", "\u{801}", "\u{ffff}", "\u{10000}"]),
        mk("surrogate gap", &["/[\u{d000}-\u{f000}]/"], &["\u{d7ff}", "\u{e000}", "\u{cfff}", "\u{f001}"]),
    ];
    // counts around the sizes of small integers
    for n in [63, 64, 127, 128, 129, 254, 255, 256, 257, 300, 1000] {
        let long = |k: usize| "a".repeat(k);
        let words = [long(n - 1), long(n), long(n + 1), long(1), long(0), long(2 * n), long(n % 256)];
        let words: Vec<&str> = words.iter().map(|w| &w[..]).collect();
        let mut kinds = vec![format!("/a{{{}}}/", n), format!("/a{{{},}}/", n), format!("/a{{0,{}}}/", n)];
        if n <= 300 {
            kinds.push(format!("/(a|bc){{{},{}}}/", n, n + 1));
            kinds.push(format!("/ba{{1,{}}}/", n));
        }
        for k in kinds {
            v.push(mk(&format!("count {}", k), &[&k], &words).set("big", 1));
        }
        v.push(mk(&format!("literal of {}", n), &[&format!("\"{}\"", long(n))], &words).set("big", 1));
    }
    // the escapes of "class operations" hold nothing our own reader knows in two of the patterns
    v.retain(|c| c.pin.as_deref() != Some("class operations"));
    v
}

impl Prop for Ties {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "random overlapping token sets with explicit and implicit precedences, half of them with ties planted; all reachable sets of matching tokens are enumerated by our own subset construction and compared with the result of the precedence resolution and of lapex::generate. Non-trivial: some text is matched by at least two tokens"
    }
    fn pins(&self) -> Vec<Case> {
        let mk = |name: &str, spec: &[(&str, &str)]| {
            let mut c = Case::of(raw_toks(spec));
            c.pin = Some(name.into());
            c
        };
        let mut v = vec![
            mk("same literal", &[("alpha", "\"a\""), ("beta", "\"a\"")]),
            mk("keyword wins", &[("alpha", "\"if\""), ("beta", "/[a-z]+/")]),
            mk("equal shortest match", &[("alpha", "/[a-m]+/"), ("beta", "/[h-z]+/")]),
            mk("explicit meets literal", &[("alpha", "\"ab\""), ("beta [4]", "/[a-z]+/")]),
            mk("explicit beats literal", &[("alpha", "\"ab\""), ("beta [5]", "/[a-z]+/")]),
            mk("tie below the winner", &[("alpha [3]", "/a/"), ("beta [2]", "/a|b/"), ("gamma [2]", "/[a]/")]),
            mk("tie elsewhere", &[("alpha [3]", "/a/"), ("beta [2]", "/a|b/"), ("gamma [2]", "/[ab]/")]),
            mk("three ways", &[("alpha", "/x/"), ("beta", "/[x]/"), ("gamma", "/x|y/")]),
            mk("empty text", &[("alpha", "/a*/"), ("beta", "/b*/")]),
            mk("zero", &[("alpha [0]", "/a/"), ("beta", "/a?/")]),
            mk("long tie", &[("alpha", "/a{6}b/"), ("beta", "/[ab]{7}/")]),
            mk("largest precedence", &[("alpha [65535]", "/a/"), ("beta [65535]", "/b?a/")]),
        ];
        // weights around the sizes of small integers
        for n in [63, 64, 127, 128, 129, 255, 256, 257, 258, 512] {
            let lit = format!("\"{}\"", "a".repeat(n));
            let rep = format!("/a{{{}}}/", n);
            let mut two = |name: &str, a: (&str, &str), b: (&str, &str)| v.push(mk(&format!("{} {}", name, n), &[a, b]).set("big", 1));
            two("long literal over a word", ("alpha", &lit), ("beta", "/a+/"));
            two("long repetition over a word", ("alpha", &rep), ("beta", "/a+/"));
            two("long literal over its repetition", ("alpha", &lit), ("beta", &rep));
            for w in [n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, n % 256, 2 * n % 256, n % 128] {
                let name = format!("beta [{}]", w);
                two(&format!("long literal and {}", w), ("alpha", &lit), (&name, "/a+/"));
                two(&format!("long repetition and {}", w), ("alpha", &rep), (&name, "/[ab]+/"));
            }
        }
        for n in [255, 256, 257, 32767, 32768, 65279, 65534, 65535] {
            for d in [0i64, 1, 255, 256, 32768] {
                let a = format!("alpha [{}]", n);
                let b = format!("beta [{}]", (n as i64 - d).max(0));
                v.push(mk(&format!("{} and {} less", n, d), &[(&a, "/a/"), (&b, "/b?a/")]));
            }
        }
        v
    }
    fn plan(&self, tier: Tier) -> Plan {
        Plan {
            cases: if tier == Tier::Quick { 5000 } else { 150_000 },
            chunk: 40,
            min_nontrivial: 1000,
            shrink_width: 256,
            shrink_rounds: 100,
        }
    }
    fn gen(&self, rng: &mut Rng, _idx: usize, _tier: Tier) -> Case {
        let ties = rng.chance(2, 3);
        let mut toks = gens::tok_set(rng, false, ties);
        if ties && toks.len() > 1 {
            for _ in 0..rng.range(0, 2) {
                let i = rng.below(toks.len());
                let j = rng.below(toks.len());
                if i == j {
                    continue;
                }
                match rng.below(3) {
                    // a common precedence, explicit on one side
                    0 => toks[j].prec = Some(gens::tok_weight(&toks[i]).min(65535) as u32),
                    // the same texts in another form
                    1 => {
                        let r = gens::tok_rx(&toks[i]);
                        toks[j].pat = TokPat::Re(match rng.below(3) {
                            0 => Rx::Group(true, Box::new(r)),
                            1 => Rx::Alt(vec![gens::tok_rx(&toks[j]), r]),
                            _ => Rx::Rep { min: 1, max: Some(2), inner: Box::new(r) },
                        });
                    }
                    _ => {
                        let p = *rng.pick(&[0, 1, 2, 4]);
                        toks[i].prec = Some(p);
                        toks[j].prec = Some(p);
                    }
                }
            }
        }
        Case::of(gens::tok_gram(toks))
    }
    fn run(&self, cases: &[Case]) -> Vec<Outcome> {
        let scratch = Scratch::new("ties");
        cases.iter().map(|c| run_ties(c, &scratch)).collect()
    }
}

fn run_ties(c: &Case, scratch: &Scratch) -> Outcome {
    let g = c.g();
    let rs: Vec<Rx> = g.toks.iter().map(gens::tok_rx).collect();
    if !names_ok(g) || !lexable_patterns(&rs) {
        return Outcome::skip("token names or patterns");
    }
    let nfa = Nfa::new(&rs);
    let subsets = match nfa.subsets(&rx::representatives(&rs), if c.num("big") > 0 { 2500 } else { 300 }) {
        Some(s) => s,
        None => return Outcome::skip("too many subsets"),
    };
    let weights: Vec<usize> = g.toks.iter().map(gens::tok_weight).collect();
    // (tokens sharing the highest precedence, that precedence, a text)
    let mut ties: Vec<(Vec<String>, usize, &str)> = Vec::new();
    let mut overlap = 0;
    let mut winners: Vec<(&str, Option<String>)> = Vec::new();
    for (s, w) in &subsets {
        let a = nfa.accepted(s);
        overlap += (a.len() > 1) as usize;
        let top = a.iter().map(|t| weights[*t]).max();
        let best: Vec<usize> = a.iter().copied().filter(|t| Some(weights[*t]) == top).collect();
        if best.len() > 1 {
            ties.push((names(g, &best), top.unwrap(), w));
        }
        winners.push((w, best.first().map(|t| g.toks[*t].name.clone())));
    }
    let mut o = Outcome::default();
    let line = toks_line(g);
    let r = with_automaton(&lapex_input_gen::GeneratedLapexInputParser, &g.text(), |_, resolved| -> Result<(), (String, String)> {
        let bad = |s: &str, m: String| Err((s.to_string(), format!("{}; {}", m, line)));
        match resolved {
            Err((rules, prec)) => {
                if ties.is_empty() {
                    return bad("refused", format!("refused for a tie of {:?} where there is none", rules));
                }
                let mut d = rules.clone();
                d.sort();
                d.dedup();
                if d.len() < 2 {
                    return bad("named", format!("only {:?} named", rules));
                }
                if !ties.iter().any(|t| d.iter().all(|n| t.0.contains(n)) && prec == t.1) {
                    return bad("named", format!("{:?} with precedence {} named, the ties are {:?}", rules, prec, ties));
                }
            }
            Ok(p) => {
                if let Some(t) = ties.first() {
                    return bad("missed", format!("{:?} all match {:?} with precedence {}, not refused", t.0, t.2, t.1));
                }
                for (w, n) in &winners {
                    let mut q = Some(0);
                    for ch in w.chars() {
                        q = q.and_then(|q| p.step(q, ch));
                    }
                    let have = q.and_then(|q| p.accept[q].first().cloned());
                    if have != *n {
                        return bad("winner", format!("{:?} is accepted for {:?}, not {:?}", w, have, n));
                    }
                }
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err((s, m))) => o.fail(&s, m),
        Err(m) => o.fail("construction", format!("{}; {}", m, line)),
    }
    let (lang, name) = if hash_bytes(line.as_bytes()) & 1 == 0 { (Lang::Rust, "rust") } else { (Lang::Cpp, "cpp") };
    match (generate_text(&g.text(), "lalr", lang, true, false, scratch.path()), ties.is_empty()) {
        (Gen::Ok, true) | (Gen::Refused, false) => {}
        (x, _) => o.fail("generate", format!("generating a {} lexer: {:?}, ties {:?}; {}", name, x, ties, line)),
    }
    o.evals = subsets.len() as u64;
    o.label(if ties.is_empty() { "no tie" } else { "tie" });
    if ties.is_empty() && overlap > 0 {
        o.label("overlap without a tie");
    }
    if ties.iter().any(|t| t.0.len() > 2) {
        o.label("tie of three or more");
    }
    if overlap > 0 {
        o.nontrivial.push(hash_bytes(line.as_bytes()));
        o.sample = Some(line);
    }
    o
}

fn lexable_patterns(rs: &[Rx]) -> bool {
    !rs.contains(&Rx::Empty) && rs.iter().all(|r| !r.has_perl() && !rx::gap_edge(r))
}

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(Language), Box::new(Ties)]
}

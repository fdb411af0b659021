//! Generators of grammars, token sets, token sequences and texts.
use crate::ast::*;
use crate::e2e_rust::camel;
use crate::bnf::{is_class, Bnf, Class};
use crate::rx::{self, Rx};
use crate::util::Rng;

const TOK_NAMES: &[&str] = &[
    "A", "b", "Tc", "kw_if", "KW_ELSE", "Num", "ident", "PLUS", "minus_sign", "lp", "RP", "comma2",
    "Semi", "tkDot", "x1_y2", "Eq", "q", "ARROW", "star9", "at_", "under__score", "Z",
    "anon_tok", "End", "ERROR", "Nt",
];
const NT_NAMES: &[&str] = &[
    "S", "expr", "Term", "factor", "stmt_list", "Block", "item2", "P", "tail_rec", "OptThing", "argList",
    "decl", "Unit", "name_", "Head", "w", "mid__dle", "LoopBody",
    "anonymous", "anon", "end", "Rule1", "visitor", "state_id",
];
const TAGS: &[&str] = &["left", "Right", "none", "many_more", "x", "T2", "rec", "base", "zz_top", "only"];

pub fn name_gram(g: &mut Gram, rng: &mut Rng) {
    let mut t: Vec<&str> = TOK_NAMES.to_vec();
    let mut n: Vec<&str> = NT_NAMES.to_vec();
    rng.shuffle(&mut t);
    rng.shuffle(&mut n);
    for (i, k) in g.toks.iter_mut().enumerate() {
        k.name = t.get(i).map(|s| s.to_string()).unwrap_or(format!("tok{}x", i));
    }
    for (i, k) in g.nts.iter_mut().enumerate() {
        *k = n.get(i).map(|s| s.to_string()).unwrap_or(format!("nt{}x", i));
    }
}

pub fn add_tags(g: &mut Gram, rng: &mut Rng) {
    for n in 0..g.nts.len() {
        let mut t: Vec<&str> = TAGS.to_vec();
        rng.shuffle(&mut t);
        if rng.chance(1, 2) {
            for p in g.prods.iter_mut().filter(|p| p.nt == n) {
                if rng.chance(1, 2) {
                    p.tag = t.pop().map(|s| s.to_string());
                }
            }
        }
    }
    if !distinct_naming(g) {
        for p in g.prods.iter_mut() {
            p.tag = None;
        }
    }
}

/// The name a production's reduction is reported under, as documented.
pub fn rule_name(g: &Gram, prod: usize, tags: bool) -> String {
    let p = &g.prods[prod];
    let n = &g.nts[p.nt];
    let all: Vec<usize> = g.prods_of(p.nt).map(|x| x.0).collect();
    if all.len() == 1 {
        format!("reduce_{}", n)
    } else {
        match (&p.tag, tags) {
            (Some(t), true) => format!("reduce_{}_{}", n, t),
            _ => format!(
                "reduce_{}_{}",
                n,
                1 + all.iter().position(|x| *x == prod).unwrap()
            ),
        }
    }
}

/// Names that stay different in the generated code of both languages.
pub fn distinct_naming(g: &Gram) -> bool {
    let uniq = |v: Vec<String>| {
        let n = v.len();
        let mut v = v;
        v.sort();
        v.dedup();
        v.len() == n
    };
    uniq(g.toks.iter().map(|t| camel(&t.name)).collect())
        && uniq(g.nts.iter().map(|t| camel(t)).collect())
        && uniq(g.toks.iter().map(|t| t.name.to_ascii_uppercase()).collect())
        && uniq(g.nts.iter().map(|t| t.to_ascii_uppercase()).collect())
        && uniq((0..g.prods.len()).map(|i| rule_name(g, i, true)).collect())
        && uniq((0..g.prods.len()).map(|i| rule_name(g, i, false)).collect())
}

fn blank(ntok: usize, nnt: usize) -> Gram {
    Gram {
        toks: (0..ntok)
            .map(|i| Tok {
                name: format!("t{}", i),
                pat: TokPat::Lit(((b'a' + (i % 26) as u8) as char).to_string()),
                prec: None,
            })
            .collect(),
        nts: (0..nnt).map(|i| format!("n{}", i)).collect(),
        prods: vec![],
        entry: 0,
    }
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub ebnf: bool,
    pub max_tok: usize,
    pub max_nt: usize,
    pub max_prods: usize,
    pub max_len: usize,
}

impl Cfg {
    pub fn small(ebnf: bool) -> Cfg {
        Cfg {
            ebnf,
            max_tok: 4,
            max_nt: 4,
            max_prods: 3,
            max_len: 3,
        }
    }
}

fn rand_elem(rng: &mut Rng, c: &Cfg, nt: usize, tk: usize, depth: usize) -> Pat {
    if c.ebnf && depth < 3 && rng.chance(1, 3) {
        let inner = if rng.chance(1, 2) {
            rand_elem(rng, c, nt, tk, 3)
        } else {
            rand_group(rng, c, nt, tk, depth + 1)
        };
        return match rng.below(5) {
            0 => Pat::Star(Box::new(inner)),
            1 => Pat::Plus(Box::new(inner)),
            2 => Pat::Opt(Box::new(inner)),
            _ => inner,
        };
    }
    if rng.chance(11, 20) {
        Pat::T(rng.below(tk))
    } else {
        Pat::N(rng.below(nt))
    }
}

fn rand_group(rng: &mut Rng, c: &Cfg, nt: usize, tk: usize, depth: usize) -> Pat {
    let n = rng.range(1, 3);
    let mut alts: Vec<Pat> = (0..n)
        .map(|_| {
            let k = rng.range(1, 3);
            if rng.chance(1, 14) {
                return Pat::Eps;
            }
            let v: Vec<Pat> = (0..k).map(|_| rand_elem(rng, c, nt, tk, depth + 1)).collect();
            if v.len() == 1 {
                v.into_iter().next().unwrap()
            } else {
                Pat::Seq(v)
            }
        })
        .collect();
    if alts.len() == 1 {
        alts.pop().unwrap()
    } else {
        Pat::Alt(alts)
    }
}

fn rand_rhs(rng: &mut Rng, c: &Cfg, nt: usize, tk: usize) -> Pat {
    if c.ebnf && rng.chance(1, 8) {
        return rand_group(rng, c, nt, tk, 0);
    }
    let k = if rng.chance(1, 7) { 0 } else { rng.range(1, c.max_len) };
    let v: Vec<Pat> = (0..k).map(|_| rand_elem(rng, c, nt, tk, 0)).collect();
    match v.len() {
        0 => Pat::Eps,
        1 => v.into_iter().next().unwrap(),
        _ => Pat::Seq(v),
    }
}

/// Groups and repetitions within each other.
pub fn deep_pat(rng: &mut Rng, tk: usize, nt: usize) -> Pat {
    fn go(rng: &mut Rng, tk: usize, nt: usize, d: usize) -> Pat {
        if d == 0 || rng.chance(1, 6) {
            return match rng.below(8) {
                0 => Pat::Eps,
                1 | 2 => Pat::N(rng.below(nt)),
                _ => Pat::T(rng.below(tk)),
            };
        }
        match rng.below(7) {
            0 => Pat::Star(Box::new(go(rng, tk, nt, d - 1))),
            1 => Pat::Plus(Box::new(go(rng, tk, nt, d - 1))),
            2 => Pat::Opt(Box::new(go(rng, tk, nt, d - 1))),
            3 | 4 => Pat::Alt((0..rng.range(2, 3)).map(|_| go(rng, tk, nt, d - 1)).collect()),
            _ => Pat::Seq((0..rng.range(2, 3)).map(|_| go(rng, tk, nt, d - 1)).collect()),
        }
    }
    let d = rng.range(2, 4);
    go(rng, tk, nt, d).norm()
}

/// Any grammar in which every symbol is defined; nothing else is promised.
pub fn rand_gram(rng: &mut Rng, c: &Cfg) -> Gram {
    let nt = rng.range(1, c.max_nt);
    let tk = rng.range(1, c.max_tok);
    let mut g = blank(tk, nt);
    for n in 0..nt {
        let k = rng.range(1, c.max_prods);
        for _ in 0..k {
            let pat = rand_rhs(rng, c, nt, tk);
            let p = Prod { nt: n, tag: None, pat };
            if !g.prods.contains(&p) || rng.chance(1, 20) {
                g.prods.push(p);
            }
        }
    }
    g.entry = if rng.chance(4, 5) { 0 } else { rng.below(nt) };
    // usually not sorted by production
    if rng.chance(1, 2) {
        rng.shuffle(&mut g.prods);
        renumber(&mut g);
    }
    g
}

/// Numbers the non-terminals by their first production, as reading the text would.
pub fn renumber(g: &mut Gram) {
    let mut map = vec![usize::MAX; g.nts.len()];
    let mut k = 0;
    for p in &g.prods {
        if map[p.nt] == usize::MAX {
            map[p.nt] = k;
            k += 1;
        }
    }
    for m in map.iter_mut() {
        if *m == usize::MAX {
            *m = k;
            k += 1;
        }
    }
    let mut nts = g.nts.clone();
    for (i, m) in map.iter().enumerate() {
        nts[*m] = g.nts[i].clone();
    }
    g.nts = nts;
    for p in g.prods.iter_mut() {
        p.nt = map[p.nt];
        p.pat = p.pat.map_syms(&|q| match q {
            Pat::N(n) => Pat::N(map[*n]),
            q => q.clone(),
        });
    }
    g.entry = map[g.entry];
}

/// Drops what the entry cannot reach and gives unproductive non-terminals a way out.
pub fn make_useful(g: &mut Gram, rng: &mut Rng) {
    loop {
        let m = g.min_len();
        match m.iter().position(|x| x.is_none()) {
            Some(n) => {
                let pat = if rng.chance(1, 5) {
                    Pat::Eps
                } else {
                    Pat::T(rng.below(g.toks.len()))
                };
                let at = rng.below(g.prods.len() + 1);
                g.prods.insert(at, Prod { nt: n, tag: None, pat });
            }
            None => break,
        }
    }
    let r = g.reachable();
    let mut map = vec![0; g.nts.len()];
    let mut k = 0;
    for i in 0..g.nts.len() {
        map[i] = k;
        if r[i] {
            k += 1;
        }
    }
    g.prods.retain(|p| r[p.nt]);
    for p in g.prods.iter_mut() {
        p.nt = map[p.nt];
        p.pat = p.pat.map_syms(&|q| match q {
            Pat::N(n) => Pat::N(map[*n]),
            q => q.clone(),
        });
    }
    g.entry = map[g.entry];
    let old = std::mem::take(&mut g.nts);
    g.nts = old.into_iter().enumerate().filter(|(i, _)| r[*i]).map(|x| x.1).collect();
    renumber(g);
}

/// Known useful shapes, written in the grammar format with single-letter names.
const TEMPLATES: &[&str] = &[
    // expressions
    "E = E a T; E = T; T = T b F; T = F; F = c E d; F = e;",
    "E = T a E; E = T; T = b E c; T = d;",
    "E = E a T; E = E b T; E = T; T = T c F; T = F; F = d F; F = P; P = e E f; P = g; P = h;",
    "E = T (a T)*; T = F (b F)*; F = c E d; F = e;",
    "E = T R; R = a T R; R = !; T = F Q; Q = b F Q; Q = !; F = c E d; F = e;",
    // lists
    "S = a L b; L = L c I; L = I; I = d; I = e;",
    "S = a L? b; L = I (c I)* c?; I = d; I = S;",
    "S = I*; I = a b; I = c d?;",
    "S = I+ e; I = a b; I = c S d;",
    "S = S a; S = !;",
    "S = a S; S = !;",
    "S = a S b; S = !;",
    "S = S a b; S = c;",
    "S = (a | b c)* d?;",
    "S = ((a b)+ | c)* d;",
    "L = L I; L = I; I = a; I = b L c;",
    "L = I L; L = !; I = a; I = b L c;",
    // statements
    "P = D P; P = !; D = a e f; D = b C d P c; C = e; C = C g e;",
    "S = a C b S c S; S = a C b B; S = e; B = S d; C = e;",
    "B = a S* b; S = e f; S = c E d B; S = g B? f; E = e; E = e h E;",
    // between the classes
    "S = a E d; S = b E e; S = a F e; S = b F d; E = c; F = c;",
    "S = L a R; S = R; L = b R; L = c; R = L;",
    "S = A a; S = b A c; S = d c; S = b d a; A = d;",
    "S = A a A b; S = B b B a; A = !; B = !;",
    "S = A B C d; A = a; A = !; B = b; B = !; C = c; C = !;",
    "S = A? B* (c | d)+; A = a b; B = b b;",
    "S = a A d; S = b B d; S = a B e; S = b A e; A = c; B = c;",
    // brackets
    "D = !; D = a D b D; D = c D d D;",
    "D = a D b; D = c D d; D = e;",
    "S = a S; S = b;",
    "S = A; A = B; B = C a; C = b; C = c S d;",
    "S = a T; T = a U; U = a V; V = b; V = a;",
    "S = S S a; S = S S b; S = c;",
    "S = A b; S = B c; A = a A; A = a; B = a B d; B = a;",
    "S = N; N = N a; N = b M; M = c; M = !;",
    "S = a? b? c? d?;",
    "S = (a b?)* c;",
    "S = (a (b (c d)*)+)? e;",
    "S = A S b; S = c; A = a;",
    "S = (A | B) c; A = a A; A = a; B = b;",
    "S = X Y; X = a X; X = !; Y = b Y c; Y = b c;",
    // ambiguous or beyond LR(1)
    "S = S S; S = a;",
    "E = E a E; E = E b E; E = c E d; E = e;",
    "S = a S b S; S = a S; S = c;",
    "S = a S a; S = a; S = b;",
    "S = a S a; S = b S b; S = !;",
    "S = A; S = B; A = a; B = a;",
    "S = a S b; S = a S c; S = d; S = T; T = a T c; T = d;",
    "S = L R; L = a; L = a a; R = a; R = a a b?;",
    "S = a* a b*;",
    "S = (a | a b) (c | b c);",
    "S = C*; C = a N b; C = a M c; N = d N; N = d; M = d M; M = d;",
    "S = A B; A = a A; A = !; B = a B; B = b;",
];

pub fn parse_short(src: &str) -> Gram {
    let mut toks: Vec<char> = src.chars().filter(|c| c.is_ascii_lowercase()).collect();
    toks.sort();
    toks.dedup();
    let entry = src.chars().find(|c| c.is_ascii_uppercase()).unwrap();
    let mut t: String = toks.iter().map(|c| format!("token {} = \"{}\";\n", c, c)).collect();
    t.push_str(&format!("entry {};\n", entry));
    for r in src.split(';').filter(|r| !r.trim().is_empty()) {
        t.push_str(&format!("prod {};\n", r.trim()));
    }
    read_gram(&t).unwrap_or_else(|e| panic!("{}: {}", t, e))
}

/// Grammars of more than 256 tokens, rules, productions and states, and sequences for them.
pub fn big(alg: &str, errors: bool) -> Vec<(&'static str, Gram, Vec<Vec<u16>>)> {
    let mut v = Vec::new();
    let n = 270;
    let toks = |k: usize| -> String { (0..k).map(|i| format!("token T{} = \"t{}\";\n", i, i)).collect() };
    let all: Vec<String> = (0..n).map(|i| format!("T{}", i)).collect();
    v.push(("big: long rule", format!("{}entry s;\nprod s = {};\nprod s = T269 s;\n", toks(n), all.join(" "))));
    if !alg.ends_with("ll1") {
        // as many productions as rules, each with a code of its own
        let mut rng = Rng::new(&[0xb16]);
        let mut codes: Vec<Vec<&str>> = Vec::new();
        while codes.len() < n {
            let c: Vec<&str> = (0..5).map(|_| *rng.pick(&["A", "B", "C", "D"])).collect();
            if !codes.contains(&c) {
                codes.push(c);
            }
        }
        let mut t: String = ["A", "B", "C", "D", "Z"].iter().map(|x| format!("token {} = \"{}\";\n", x, x.to_lowercase())).collect();
        t.push_str("entry s;\nprod s = i Z s;\nprod s = Z;\n");
        t.extend((0..n).map(|k| format!("prod i = n{}x;\n", k)));
        t.extend(codes.iter().enumerate().map(|(k, c)| format!("prod n{}x = {};\n", k, c.join(" "))));
        v.push(("big: codes", t));
    }
    let last = if alg.ends_with("lr0") { "Z" } else { "!" };
    let rules: String = (0..n).map(|k| format!("prod i = T{};\n", k)).collect();
    v.push(("big: tokens", format!("{}token Z = \"z\";\nentry s;\nprod s = i Z s;\nprod s = {};\n{}", toks(n), last, rules)));
    v.into_iter()
        .map(|(name, t)| {
            let g = read_gram(&t).unwrap();
            let mut rng = Rng::new(&[crate::util::hash_bytes(name.as_bytes())]);
            let mut w: Vec<Vec<u16>> = Vec::new();
            if name == "big: long rule" {
                let s: Vec<u16> = (0..n as u16).collect();
                w.push(s.clone());
                w.push([vec![269, 269], s.clone()].concat());
                w.push(s[..269].to_vec());
                w.push([s.clone(), vec![0]].concat());
                for i in [0, 100, 255, 256, 257, 268] {
                    let mut d = s.clone();
                    d[i] = 269 - i as u16;
                    w.push(d);
                }
            } else {
                for _ in 0..if errors { 20 } else { 40 } {
                    let items = rng.range(1, 3);
                    let mut s: Vec<u16> = Vec::new();
                    for _ in 0..items {
                        let rule = rng.below(n);
                        let i = g.nts.iter().position(|x| x == "i").unwrap();
                        let p = g.prods_of(i).nth(rule).unwrap().1.pat.clone();
                        let item = match p {
                            Pat::T(t) => vec![t as u16],
                            Pat::N(m) => g.sentence_of(m, &mut rng),
                            _ => unreachable!(),
                        };
                        s.extend(item);
                        s.push(g.toks.len() as u16 - 1);
                    }
                    if name == "big: codes" || alg.ends_with("lr0") {
                        s.push(g.toks.len() as u16 - 1);
                    }
                    if errors || rng.chance(1, 4) {
                        let i = rng.below(s.len());
                        s[i] = rng.below(g.toks.len()) as u16;
                    }
                    w.push(s);
                }
            }
            (name, g, w)
        })
        .collect()
}

/// Sizes around the limits of 7- and 8-bit counts: rules, productions and tokens of just that number.
pub const EDGES: [usize; 10] = [126, 127, 128, 129, 253, 254, 255, 256, 257, 258];

pub fn edges(alg: &str) -> Vec<(String, Gram, Vec<Vec<u16>>)> {
    let mut v = Vec::new();
    for n in EDGES {
        let mut rng = Rng::new(&[n as u64, 0xed6e]);
        let s: Vec<u16> = (0..n).map(|_| rng.below(2) as u16).collect();
        let rule: Vec<&str> = s.iter().map(|t| if *t == 0 { "A" } else { "B" }).collect();
        let g = read_gram(&format!("token A = \"a\"; token B = \"b\"; token Z = \"z\"; entry s; prod s = {}; prod s = Z s;", rule.join(" "))).unwrap();
        let mut w = vec![s.clone(), [vec![2, 2], s.clone()].concat(), s[..n - 1].to_vec(), [s.clone(), vec![1]].concat(), vec![2]];
        for i in [0, n / 2, n - 2, n - 1] {
            let mut d = s.clone();
            d[i] = if rng.chance(1, 2) { 1 - d[i] } else { 2 };
            w.push(d);
        }
        v.push((format!("edge: rule of {}", n), g, w));
        // productions, each of two rules
        let mut t = "token A = \"a\"; token B = \"b\"; token Z = \"z\"; entry p0x;\n".to_string();
        for i in 0..n - 1 {
            let (a, b) = if i % 3 == 0 { ("A", "B Z") } else { ("B", "A Z") };
            t.push_str(&format!("prod p{}x = {} p{}x; prod p{}x = {};\n", i, a, i + 1, i, b));
        }
        t.push_str(&format!("prod p{}x = Z;\n", n - 1));
        let g = read_gram(&t).unwrap();
        let word = |k: usize| -> Vec<u16> {
            let mut s: Vec<u16> = (0..k).map(|i| (i % 3 != 0) as u16).collect();
            if k < n - 1 {
                s.push((k % 3 == 0) as u16);
            }
            s.push(2);
            s
        };
        let mut w = Vec::new();
        for k in [0, 1, n / 2, n - 3, n - 2, n - 1] {
            let s = word(k);
            w.push(s[..s.len() - 1].to_vec());
            w.push([s.clone(), vec![2]].concat());
            let mut d = s.clone();
            let i = rng.below(d.len());
            d[i] = (d[i] + 1 + rng.below(2) as u16) % 3;
            w.push(d);
            w.push(s);
        }
        v.push((format!("edge: {} productions", n), g, w));
        let toks: String = (0..n).map(|i| format!("token T{} = \"t{}\";\n", i, i)).collect();
        let rules: String = (0..n - 1).map(|k| format!("prod i = T{};\n", k)).collect();
        let z = n as u16 - 1;
        let lr0 = alg.ends_with("lr0");
        let last = if lr0 { format!("T{}", z) } else { "!".into() };
        let g = read_gram(&format!("{}entry s;\nprod s = i T{} s;\nprod s = {};\n{}", toks, z, last, rules)).unwrap();
        let mut w = vec![vec![], vec![z], vec![z - 1], vec![z - 1, z], vec![z, z - 1], vec![0, z, z - 1, z], vec![0, z, z - 1, z, z]];
        for _ in 0..8 {
            let mut d: Vec<u16> = (0..rng.range(1, 4)).flat_map(|_| [rng.below(n - 1) as u16, z]).collect();
            if rng.chance(1, 2) {
                let i = rng.below(d.len());
                d[i] = rng.below(n) as u16;
            }
            w.push(d);
        }
        if lr0 {
            for i in 0..w.len() {
                w.push([w[i].clone(), vec![z]].concat());
            }
        }
        v.push((format!("edge: {} tokens", n), g, w));
    }
    v
}

pub fn template(rng: &mut Rng) -> Gram {
    parse_short(*rng.pick(TEMPLATES))
}

fn edit_pat(p: &Pat, rng: &mut Rng, c: &Cfg, nt: usize, tk: usize) -> Pat {
    match p {
        Pat::Seq(v) if rng.chance(4, 5) => {
            let mut w = v.clone();
            let i = rng.below(w.len());
            match rng.below(5) {
                0 if w.len() > 1 => {
                    w.remove(i);
                }
                1 => w.insert(i, rand_elem(rng, c, nt, tk, 2)),
                2 => w.swap(0, i),
                _ => w[i] = edit_pat(&v[i], rng, c, nt, tk),
            }
            if w.len() == 1 {
                w.pop().unwrap()
            } else {
                Pat::Seq(w)
            }
        }
        Pat::Alt(v) if rng.chance(4, 5) => {
            let mut w = v.clone();
            let i = rng.below(w.len());
            w[i] = edit_pat(&v[i], rng, c, nt, tk);
            Pat::Alt(w)
        }
        Pat::Star(q) | Pat::Plus(q) | Pat::Opt(q) if c.ebnf && rng.chance(2, 3) => {
            let r = Box::new(if rng.chance(1, 2) { edit_pat(q, rng, c, nt, tk) } else { (**q).clone() });
            match rng.below(3) {
                0 => Pat::Star(r),
                1 => Pat::Plus(r),
                _ => Pat::Opt(r),
            }
        }
        p => {
            if c.ebnf && rng.chance(1, 3) && *p != Pat::Eps {
                let r = Box::new(p.clone());
                match rng.below(3) {
                    0 => Pat::Star(r),
                    1 => Pat::Plus(r),
                    _ => Pat::Opt(r),
                }
            } else {
                rand_elem(rng, c, nt, tk, 2)
            }
        }
    }
}

pub fn mutate(g: &mut Gram, rng: &mut Rng, c: &Cfg) {
    let nt = g.nts.len();
    let tk = g.toks.len();
    match rng.below(8) {
        0 if nt < 7 => {
            // a new non-terminal used somewhere
            g.nts.push(format!("m{}", nt));
            for _ in 0..rng.range(1, 2) {
                let pat = rand_rhs(rng, c, nt + 1, tk);
                g.prods.push(Prod { nt, tag: None, pat });
            }
            let i = rng.below(g.prods.len() - 1);
            let p = g.prods[i].pat.clone();
            g.prods[i].pat = match p {
                Pat::Eps => Pat::N(nt),
                Pat::Seq(mut v) => {
                    let k = rng.below(v.len() + 1);
                    v.insert(k, Pat::N(nt));
                    Pat::Seq(v)
                }
                p => Pat::Seq(vec![p, Pat::N(nt)]),
            };
        }
        1 => {
            let n = rng.below(nt);
            let pat = rand_rhs(rng, c, nt, tk);
            let at = rng.below(g.prods.len() + 1);
            g.prods.insert(at, Prod { nt: n, tag: None, pat });
        }
        2 if g.prods.len() > 2 => {
            let i = rng.below(g.prods.len());
            let n = g.prods[i].nt;
            if g.prods_of(n).count() > 1 {
                g.prods.remove(i);
            }
        }
        3 if tk < 8 => {
            let t = g.toks.len();
            let mut b = blank(t + 1, 0);
            g.toks.push(b.toks.pop().unwrap());
            let i = rng.below(g.prods.len());
            let p = g.prods[i].pat.clone();
            g.prods[i].pat = match p {
                Pat::Eps => Pat::T(t),
                Pat::Seq(mut v) => {
                    let k = rng.below(v.len() + 1);
                    v.insert(k, Pat::T(t));
                    Pat::Seq(v)
                }
                p => Pat::Seq(vec![p, Pat::T(t)]),
            };
        }
        4 if nt > 1 => g.entry = rng.below(nt),
        _ => {
            let i = rng.below(g.prods.len());
            g.prods[i].pat = edit_pat(&g.prods[i].pat.clone(), rng, c, nt, tk);
        }
    }
}

/// Puts a chain of productions, each with nothing but the next one, in place of one occurrence of
/// a symbol; written downwards, upwards or anywhere.
pub fn chain(g: &mut Gram, rng: &mut Rng) {
    let len = rng.range(1, 8);
    let n = g.nts.len();
    let i = rng.below(g.prods.len());
    let count = std::cell::Cell::new(0usize);
    g.prods[i].pat.map_syms(&|q| {
        if matches!(q, Pat::N(_) | Pat::T(_)) {
            count.set(count.get() + 1);
        }
        q.clone()
    });
    if count.get() == 0 {
        return;
    }
    let at = rng.below(count.get());
    let seen = std::cell::Cell::new(0usize);
    let old = std::cell::RefCell::new(Pat::Eps);
    let pat = g.prods[i].pat.map_syms(&|q| {
        if matches!(q, Pat::N(_) | Pat::T(_)) {
            seen.set(seen.get() + 1);
            if seen.get() == at + 1 {
                *old.borrow_mut() = q.clone();
                return Pat::N(n);
            }
        }
        q.clone()
    });
    g.prods[i].pat = pat;
    let how = rng.below(4);
    for k in 0..len {
        g.nts.push(format!("l{}", n + k));
        let pat = if k + 1 == len { old.borrow().clone() } else { Pat::N(n + k + 1) };
        let at = match how {
            0 => 0,
            1 => rng.below(g.prods.len() + 1),
            _ => g.prods.len(),
        };
        g.prods.insert(at, Prod { nt: n + k, tag: None, pat });
    }
    renumber(g);
}

/// Puts several optional parts behind each other, most with a token of their own: all of them must be
/// looked through to see what can follow.
pub fn optional_run(g: &mut Gram, rng: &mut Rng) {
    let i = rng.below(g.prods.len());
    let mut row: Vec<Pat> = Vec::new();
    for _ in 0..rng.range(2, 8) {
        let t = g.toks.len();
        let part = if rng.chance(1, 6) {
            Pat::T(rng.below(t))
        } else {
            let b = blank(t + 1, 0).toks.pop().unwrap();
            g.toks.push(b);
            Pat::T(t)
        };
        row.push(match rng.below(5) {
            0 => {
                let n = g.nts.len();
                g.nts.push(format!("o{}", n));
                g.prods.push(Prod { nt: n, tag: None, pat: part });
                g.prods.push(Prod { nt: n, tag: None, pat: Pat::Eps });
                Pat::N(n)
            }
            1 => Pat::Star(Box::new(part)),
            _ => Pat::Opt(Box::new(part)),
        });
    }
    let p = g.prods[i].pat.clone();
    g.prods[i].pat = match p {
        Pat::Eps => Pat::Seq(row),
        Pat::Seq(mut v) => {
            let k = rng.below(v.len() + 1);
            v.splice(k..k, row);
            Pat::Seq(v)
        }
        p => {
            row.insert(0, p);
            Pat::Seq(row)
        }
    };
    renumber(g);
}

/// A production nothing can reach.
pub fn unreachable(g: &mut Gram, rng: &mut Rng) {
    let n = g.nts.len();
    g.nts.push("spare".into());
    let t = Pat::T(rng.below(g.toks.len()));
    let pat = match rng.below(4) {
        0 => t,
        1 => Pat::Eps,
        2 => Pat::Seq(vec![t, Pat::Opt(Box::new(Pat::N(n)))]),
        _ => Pat::Seq(vec![Pat::N(rng.below(n)), t]),
    };
    g.prods.push(Prod { nt: n, tag: None, pat });
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Want {
    Lr0,
    Lalr,
    Lr1,
    Ll1,
    /// no cycles and no hidden left recursion
    Glr,
    Any,
}

pub fn wanted(g: &Gram, w: Want) -> bool {
    let b = Bnf::from_gram(g);
    if b.rules.len() > 60 || b.ntoks > 40 {
        return false;
    }
    match w {
        Want::Lr0 => is_class(&b, Class::Lr0) == Some(true),
        Want::Lalr => is_class(&b, Class::Lalr) == Some(true),
        Want::Lr1 => is_class(&b, Class::Lr1) == Some(true),
        Want::Ll1 => b.ll1().is_ok(),
        Want::Glr => !b.cyclic_or_hidden_left() && b.rules.len() <= 40,
        Want::Any => true,
    }
}

/// How much a grammar exercises: recursion, empty alternatives, several rules.
pub fn interesting(g: &Gram) -> bool {
    let b = Bnf::from_gram(g);
    let null = b.nullable().iter().any(|x| *x);
    let multi = b.by_lhs().iter().any(|v| v.len() > 1);
    // recursion
    let n = b.nnts;
    let mut r = vec![vec![false; n]; n];
    for (l, rhs) in &b.rules {
        for s in rhs {
            if let crate::bnf::Sym::N(m) = s {
                r[*l][*m] = true;
            }
        }
    }
    for k in 0..n {
        for i in 0..n {
            if r[i][k] {
                for j in 0..n {
                    if r[k][j] {
                        r[i][j] = true
                    }
                }
            }
        }
    }
    let rec = (0..n).any(|i| r[i][i]);
    (rec as u8 + null as u8 + multi as u8) >= 2
}

/// A useful (reachable, productive) grammar of the wanted class.
pub fn useful_gram(rng: &mut Rng, want: Want) -> Gram {
    let mut best: Option<Gram> = None;
    for attempt in 0..60 {
        let ebnf = want != Want::Any && rng.chance(1, 2) || rng.chance(1, 3);
        let c = Cfg {
            ebnf: ebnf && !(want == Want::Lr0 && rng.chance(1, 2)),
            max_tok: rng.range(2, 5),
            max_nt: rng.range(1, 5),
            max_prods: 3,
            max_len: 4,
        };
        let mut g = if rng.chance(2, 5) {
            rand_gram(rng, &c)
        } else {
            let mut g = template(rng);
            let k = if attempt > 40 { rng.below(2) } else { rng.below(5) };
            for _ in 0..k {
                mutate(&mut g, rng, &c);
            }
            g
        };
        make_useful(&mut g, rng);
        if rng.chance(1, 6) {
            chain(&mut g, rng);
        } else if rng.chance(1, 6) {
            optional_run(&mut g, rng);
        }
        if !wanted(&g, want) {
            continue;
        }
        if !interesting(&g) {
            if best.is_none() {
                best = Some(g);
            }
            continue;
        }
        best = Some(g);
        break;
    }
    let mut g = best.unwrap_or_else(|| parse_short("S = a S b; S = c;"));
    if rng.chance(1, 3) {
        // an extra token no production uses
        let n = g.toks.len();
        let t = blank(n + 1, 0).toks.pop().unwrap();
        let at = if rng.chance(1, 2) { n } else { rng.below(n + 1) };
        g.toks.insert(at, t);
        for p in g.prods.iter_mut() {
            p.pat = p.pat.map_syms(&|q| match q {
                Pat::T(t) if *t >= at => Pat::T(t + 1),
                q => q.clone(),
            });
        }
        for (i, t) in g.toks.iter_mut().enumerate() {
            t.pat = TokPat::Lit(((b'a' + i as u8) as char).to_string());
        }
    }
    if rng.chance(1, 3) {
        // file order of the rules is arbitrary; the relative order within a production counts
        let mut ix: Vec<usize> = (0..g.prods.len()).collect();
        rng.shuffle(&mut ix);
        g.prods = ix.into_iter().map(|i| g.prods[i].clone()).collect();
        renumber(&mut g);
    }
    name_gram(&mut g, rng);
    if rng.chance(1, 2) {
        add_tags(&mut g, rng);
    }
    g
}

/// Token sequences for a grammar: all short ones as far as they fit, sentences, and damaged sentences.
pub fn inputs(rng: &mut Rng, g: &Gram, cap: usize, max_len: usize, long: bool) -> Vec<Vec<u16>> {
    let k = g.toks.len();
    let mut out: Vec<Vec<u16>> = vec![vec![]];
    let mut layer: Vec<Vec<u16>> = vec![vec![]];
    for _ in 0..max_len {
        if out.len() + layer.len() * k > cap / 2 {
            break;
        }
        let mut next = Vec::new();
        for w in &layer {
            for t in 0..k as u16 {
                let mut x = w.clone();
                x.push(t);
                next.push(x);
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
    let mut tries = 0;
    while out.len() < cap && tries < cap * 3 {
        tries += 1;
        let budget = rng.range(0, max_len + 2);
        let mut s = g.sentence(rng, budget);
        if s.len() > max_len.max(6) * 2 {
            continue;
        }
        if rng.chance(1, 2) {
            let n = rng.range(1, 2);
            for _ in 0..n {
                let i = rng.below(s.len() + 1);
                let t = rng.below(k) as u16;
                match rng.below(5) {
                    0 => s.insert(i, t),
                    1 if i < s.len() => {
                        s.remove(i);
                    }
                    2 if i < s.len() => s[i] = t,
                    3 if i < s.len() => {
                        let j = rng.below(s.len());
                        s.swap(i, j)
                    }
                    _ => s.truncate(i),
                }
            }
        }
        if s.len() <= max_len && !out.contains(&s) {
            out.push(s);
        }
    }
    if long {
        for _ in 0..3 {
            let s = g.sentence(rng, 150);
            if s.len() > max_len && s.len() < 400 {
                let mut d = s.clone();
                out.push(s);
                let i = rng.below(d.len());
                d[i] = rng.below(k) as u16;
                out.push(d);
                break;
            }
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------
// Tokens and texts

/// Characters of one test: a few that the patterns of a token set share.
pub fn char_pool(rng: &mut Rng) -> Vec<char> {
    let all: &[&str] = &[
        "abc", "ab", "a01", "xyz_", "+-*=", "a b", "é→a", "λμν", "😀a𝒜", "09az", "/\\a", "\"'a", "\n\ta",
        "[]^", "()|", "{},", ".?a", "a\u{7f}\u{80}\u{7ff}\u{800}", "\u{ffff}\u{10000}\u{10ffff}a", "-&~",
        "<>=", "#$%a", "ABab", "٣9a", "\u{d7ff}\u{e000}a", "\u{1}ab",
    ];
    let mut v: Vec<char> = Vec::new();
    for _ in 0..rng.range(1, 2) {
        v.extend(rng.pick(all).chars());
    }
    v.sort();
    v.dedup();
    v
}

fn class_items(rng: &mut Rng, pool: &[char]) -> Vec<(char, char)> {
    (0..rng.range(1, 3))
        .map(|_| {
            let a = *rng.pick(pool);
            if rng.chance(1, 2) {
                let b = if rng.chance(1, 2) {
                    *rng.pick(pool)
                } else {
                    char::from_u32(a as u32 + rng.range(1, 30) as u32).unwrap_or(a)
                };
                (a.min(b), a.max(b))
            } else {
                (a, a)
            }
        })
        .collect()
}

/// A class must not be empty, neither after negation.
fn good_class(neg: bool, items: &[(char, char)]) -> bool {
    !neg || !(items.iter().any(|i| i.0 <= '\u{1}') && items.iter().any(|i| i.1 == '\u{10ffff}'))
}

/// Nested classes with set operations; classes of unknown extent only in unions.
fn set_op(rng: &mut Rng, pool: &[char], perl: bool, depth: usize) -> Rx {
    let op = *rng.pick(&['|', '|', '&', '-', '~']);
    let mut side = |perl: bool| -> Rx {
        match rng.below(8) {
            0 | 1 => Rx::Posix(rng.pick(rx::POSIX).to_string()),
            2 if depth > 1 => set_op(rng, pool, perl, depth - 1),
            3 if perl => Rx::Perl(*rng.pick(&['d', 'w', 's', 'D', 'W', 'S'])),
            _ => {
                let items = class_items(rng, pool);
                let neg = rng.chance(1, 3);
                let neg = neg && good_class(neg, &items);
                Rx::Class { neg, items }
            }
        }
    };
    let a = side(perl && op == '|');
    let b = side(perl && op == '|');
    Rx::Op(op, Box::new(a), Box::new(b))
}

pub fn rand_rx(rng: &mut Rng, pool: &[char], depth: usize, perl: bool) -> Rx {
    let leaf = depth == 0 || rng.chance(1, 3);
    if leaf {
        return match rng.below(10) {
            0 | 1 => {
                let items = class_items(rng, pool);
                let neg = rng.chance(1, 4);
                if good_class(neg, &items) {
                    Rx::Class { neg, items }
                } else {
                    Rx::Ch(pool[0], 0)
                }
            }
            2 if rng.chance(1, 2) => Rx::Dot,
            3 if perl => Rx::Perl(*rng.pick(&['d', 'w', 's', 'D', 'W', 'S'])),
            4 if rng.chance(1, 3) => {
                for _ in 0..8 {
                    let r = set_op(rng, pool, perl, 2);
                    if rx::possible(&r) {
                        return r;
                    }
                }
                Rx::Ch(pool[0], 0)
            }
            _ => {
                let c = *rng.pick(pool);
                Rx::Ch(c, if rng.chance(1, 8) { rng.range(1, 2) as u8 } else { 0 })
            }
        };
    }
    match rng.below(9) {
        0 | 1 | 2 => {
            let n = rng.range(2, 4);
            Rx::Cat((0..n).map(|_| rand_rx(rng, pool, depth - 1, perl)).collect())
        }
        3 | 4 => {
            let n = rng.range(2, 3);
            let mut v: Vec<Rx> = (0..n).map(|_| rand_rx(rng, pool, depth - 1, perl)).collect();
            if rng.chance(1, 12) {
                let i = rng.below(v.len());
                v[i] = Rx::Empty;
            }
            Rx::Alt(v)
        }
        5 => Rx::Group(true, Box::new(rand_rx(rng, pool, depth - 1, perl))),
        _ => {
            let (min, max) = match rng.below(9) {
                0 | 1 => (0, None),
                2 | 3 => (1, None),
                4 => (0, Some(1)),
                5 => {
                    let n = rng.range(1, 4) as u32;
                    (n, Some(n))
                }
                6 => (rng.range(0, 4) as u32, None),
                _ => {
                    let n = rng.range(0, 3) as u32;
                    (n, Some((n + rng.range(0, 3) as u32).max(1)))
                }
            };
            Rx::Rep {
                min,
                max,
                inner: Box::new(rand_rx(rng, pool, depth - 1, perl)),
            }
        }
    }
}

pub fn small_rx(rng: &mut Rng, pool: &[char], depth: usize, perl: bool) -> Rx {
    for _ in 0..20 {
        let r = rand_rx(rng, pool, depth, perl);
        if r.weight() <= 60 && r != Rx::Empty && !rx::gap_edge(&r) {
            return r;
        }
    }
    Rx::Ch(pool[0], 0)
}

/// A literal whose text the grammar format can hold.
pub fn rand_lit(rng: &mut Rng, pool: &[char], max: usize) -> String {
    let p: Vec<char> = pool
        .iter()
        .copied()
        .filter(|c| *c != '"' && *c != '\\' && *c != '\n' && *c != '\r')
        .collect();
    if p.is_empty() {
        return "a".into();
    }
    let n = rng.range(1, max);
    (0..n).map(|_| *rng.pick(&p)).collect()
}

pub fn tok_rx(t: &Tok) -> Rx {
    match &t.pat {
        TokPat::Lit(s) => Rx::Cat(s.chars().map(|c| Rx::Ch(c, 0)).collect()),
        TokPat::Re(r) => r.clone(),
        TokPat::Raw(s) => Rx::parse(s).unwrap_or(Rx::Empty),
    }
}

/// Implicit or explicit precedence as documented.
pub fn tok_weight(t: &Tok) -> usize {
    match (t.prec, &t.pat) {
        (Some(p), _) => p as usize,
        (None, TokPat::Lit(s)) => 2 * s.chars().count(),
        (None, _) => tok_rx(t).min_len(),
    }
}

/// A token set that overlaps a lot; `ties` leaves precedence ties in.
pub fn tok_set(rng: &mut Rng, perl: bool, ties: bool) -> Vec<Tok> {
    let pool = char_pool(rng);
    let n = rng.range(1, 5);
    let mut toks: Vec<Tok> = (0..n)
        .map(|_| Tok {
            name: String::new(),
            pat: if rng.chance(2, 5) {
                TokPat::Lit(rand_lit(rng, &pool, 4))
            } else {
                let d = rng.range(1, 3);
                TokPat::Re(small_rx(rng, &pool, d, perl))
            },
            prec: if rng.chance(1, 4) {
                Some(*rng.pick(&[0, 1, 2, 3, 5, 9, 10, 100, 65535]))
            } else {
                None
            },
        })
        .collect();
    // keywords among identifiers
    if rng.chance(1, 3) {
        toks.push(Tok {
            name: String::new(),
            pat: TokPat::Lit(rand_lit(rng, &pool, 3)),
            prec: None,
        });
    }
    if rng.chance(1, 4) && !ties {
        // distinct explicit precedences: never a tie
        let mut v: Vec<u32> = (0..toks.len() as u32).map(|x| x * 3).collect();
        rng.shuffle(&mut v);
        for (t, p) in toks.iter_mut().zip(v) {
            t.prec = Some(p);
        }
    }
    let mut names: Vec<&str> = TOK_NAMES.to_vec();
    rng.shuffle(&mut names);
    for (i, t) in toks.iter_mut().enumerate() {
        t.name = names[i].to_string();
    }
    toks
}

/// A grammar whose only purpose is its tokens.
pub fn tok_gram(toks: Vec<Tok>) -> Gram {
    let n = toks.len();
    Gram {
        toks,
        nts: vec!["everything".into()],
        prods: vec![
            Prod {
                nt: 0,
                tag: None,
                pat: Pat::Eps,
            },
            Prod {
                nt: 0,
                tag: None,
                pat: Pat::Seq(vec![
                    Pat::Alt((0..n).map(Pat::T).collect()).one(),
                    Pat::N(0),
                ]),
            },
        ],
        entry: 0,
    }
}

impl Pat {
    fn one(self) -> Pat {
        match self {
            Pat::Alt(mut v) if v.len() == 1 => v.pop().unwrap(),
            p => p,
        }
    }
}

/// A text matched by the expression, or nearly.
pub fn sample_rx(r: &Rx, rng: &mut Rng, pool: &[char], out: &mut String) {
    match r {
        Rx::Empty => {}
        Rx::Cat(v) => v.iter().for_each(|e| sample_rx(e, rng, pool, out)),
        Rx::Alt(v) => sample_rx(&v[rng.below(v.len())], rng, pool, out),
        Rx::Group(_, e) => sample_rx(e, rng, pool, out),
        Rx::Rep { min, max, inner } => {
            let mut n = *min;
            while n < max.unwrap_or(*min + 3) && rng.chance(1, 2) {
                n += 1
            }
            for _ in 0..n {
                sample_rx(inner, rng, pool, out)
            }
        }
        Rx::Ch(c, _) => out.push(*c),
        Rx::Class { neg: false, items } => {
            let (a, b) = *rng.pick(items);
            let c = match rng.below(3) {
                0 => a,
                1 => b,
                _ => char::from_u32(a as u32 + rng.below((b as u32 - a as u32 + 1) as usize) as u32).unwrap_or(a),
            };
            out.push(c)
        }
        atom => {
            for _ in 0..20 {
                let c = *rng.pick(pool);
                if atom.atom(c) == Some(true) {
                    out.push(c);
                    return;
                }
            }
            let c = rx::KNOWN[rng.below(rx::KNOWN.len())].0;
            out.push(c)
        }
    }
}

/// Characters worth putting into texts for these tokens; the classification of all of them is known.
pub fn text_pool(toks: &[Tok], rng: &mut Rng) -> Vec<char> {
    let mut b = std::collections::BTreeSet::new();
    let mut perl = false;
    for t in toks {
        let r = tok_rx(t);
        r.bounds(&mut b);
        perl |= r.has_perl();
    }
    let mut v: Vec<char> = Vec::new();
    for c in &b {
        for d in [-1i64, 0, 0, 1] {
            if let Some(x) = char::from_u32((*c as i64 + d).max(1) as u32) {
                v.push(x);
            }
        }
    }
    v.extend("ab0 _\n".chars());
    for _ in 0..4 {
        v.push(rx::KNOWN[rng.below(rx::KNOWN.len())].0);
    }
    v.retain(|c| *c != '\0');
    if perl {
        v.retain(|c| known_char(*c));
    }
    v
}

pub fn known_char(c: char) -> bool {
    c.is_ascii() || rx::KNOWN.iter().any(|k| k.0 == c)
}

/// A text for a token set: concatenated samples with damage.
pub fn rand_text(toks: &[Tok], pool: &[char], rng: &mut Rng, parts: usize) -> String {
    let perl = toks.iter().any(|t| tok_rx(t).has_perl());
    let mut s = String::new();
    for _ in 0..rng.range(0, parts) {
        match rng.below(6) {
            0 => s.push(*rng.pick(pool)),
            _ => {
                let r = tok_rx(rng.pick(toks));
                let mut t = String::new();
                sample_rx(&r, rng, pool, &mut t);
                if rng.chance(1, 5) {
                    t.pop();
                }
                s.push_str(&t);
            }
        }
    }
    if rng.chance(1, 10) {
        // what readers of texts are tempted to treat specially
        let c = *rng.pick(&['\u{feff}', '\u{fffe}', '\r', '\u{1a}', '\u{85}', '\u{2028}', '\u{200b}', '\u{7f}', '\n', '#']);
        let at = if rng.chance(2, 3) || s.is_empty() { 0 } else { s.chars().next().unwrap().len_utf8() };
        s.insert(at, c);
        if rng.chance(1, 4) {
            s.push(c);
        }
    }
    s.chars()
        .filter(|c| *c != '\0' && (!perl || known_char(*c)))
        .take(60)
        .collect()
}

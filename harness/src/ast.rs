//! Our own model of grammars: patterns, tokens, rendering to the grammar format and reading it back.
use crate::rx::Rx;
use crate::util::Rng;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Pat {
    T(usize),
    N(usize),
    Seq(Vec<Pat>),
    Alt(Vec<Pat>),
    Star(Box<Pat>),
    Plus(Box<Pat>),
    Opt(Box<Pat>),
    Eps,
}

#[derive(Clone, Debug, PartialEq)]
pub enum TokPat {
    Lit(String),
    Re(Rx),
    /// regex text between the slashes, as is
    Raw(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub name: String,
    pub pat: TokPat,
    pub prec: Option<u32>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Prod {
    pub nt: usize,
    pub tag: Option<String>,
    pub pat: Pat,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Gram {
    pub toks: Vec<Tok>,
    pub nts: Vec<String>,
    pub prods: Vec<Prod>,
    pub entry: usize,
}

impl Pat {
    /// Flattens nested sequences and choices, which associativity makes equal.
    pub fn norm(&self) -> Pat {
        match self {
            Pat::Seq(v) => {
                let mut o = Vec::new();
                for p in v {
                    match p.norm() {
                        Pat::Seq(w) => o.extend(w),
                        q => o.push(q),
                    }
                }
                if o.len() == 1 {
                    o.pop().unwrap()
                } else {
                    Pat::Seq(o)
                }
            }
            Pat::Alt(v) => {
                let mut o = Vec::new();
                for p in v {
                    match p.norm() {
                        Pat::Alt(w) => o.extend(w),
                        q => o.push(q),
                    }
                }
                if o.len() == 1 {
                    o.pop().unwrap()
                } else {
                    Pat::Alt(o)
                }
            }
            Pat::Star(p) => Pat::Star(Box::new(p.norm())),
            Pat::Plus(p) => Pat::Plus(Box::new(p.norm())),
            Pat::Opt(p) => Pat::Opt(Box::new(p.norm())),
            p => p.clone(),
        }
    }

    pub fn children(&self) -> Vec<&Pat> {
        match self {
            Pat::Seq(v) | Pat::Alt(v) => v.iter().collect(),
            Pat::Star(p) | Pat::Plus(p) | Pat::Opt(p) => vec![p],
            _ => vec![],
        }
    }

    pub fn visit(&self, f: &mut dyn FnMut(&Pat)) {
        f(self);
        for c in self.children() {
            c.visit(f);
        }
    }

    pub fn map_syms(&self, f: &dyn Fn(&Pat) -> Pat) -> Pat {
        match self {
            Pat::Seq(v) => Pat::Seq(v.iter().map(|p| p.map_syms(f)).collect()),
            Pat::Alt(v) => Pat::Alt(v.iter().map(|p| p.map_syms(f)).collect()),
            Pat::Star(p) => Pat::Star(Box::new(p.map_syms(f))),
            Pat::Plus(p) => Pat::Plus(Box::new(p.map_syms(f))),
            Pat::Opt(p) => Pat::Opt(Box::new(p.map_syms(f))),
            p => f(p),
        }
    }

    pub fn is_bnf(&self) -> bool {
        match self {
            Pat::T(_) | Pat::N(_) | Pat::Eps => true,
            Pat::Seq(v) => v.iter().all(|p| matches!(p, Pat::T(_) | Pat::N(_))),
            _ => false,
        }
    }

    pub fn size(&self) -> usize {
        let mut n = 0;
        self.visit(&mut |_| n += 1);
        n
    }

    /// Smaller patterns, simplest first.
    pub fn smaller(&self) -> Vec<Pat> {
        let mut out = Vec::new();
        match self {
            Pat::T(_) | Pat::N(_) => out.push(Pat::Eps),
            Pat::Eps => {}
            Pat::Seq(v) | Pat::Alt(v) => {
                let mk = |w: Vec<Pat>| match self {
                    Pat::Seq(_) => Pat::Seq(w),
                    _ => Pat::Alt(w),
                };
                for p in v {
                    out.push(p.clone());
                }
                if v.len() > 2 {
                    for i in 0..v.len() {
                        let mut w = v.clone();
                        w.remove(i);
                        out.push(mk(w));
                    }
                }
                for i in 0..v.len() {
                    for s in v[i].smaller() {
                        let mut w = v.clone();
                        w[i] = s;
                        out.push(mk(w));
                    }
                }
            }
            Pat::Star(p) | Pat::Plus(p) | Pat::Opt(p) => {
                out.push((**p).clone());
                for s in p.smaller() {
                    out.push(match self {
                        Pat::Star(_) => Pat::Star(Box::new(s)),
                        Pat::Plus(_) => Pat::Plus(Box::new(s)),
                        _ => Pat::Opt(Box::new(s)),
                    });
                }
            }
        }
        out
    }
}

/// A piece of rendered text and whether a separator must follow when an identifier-like piece comes next.
fn is_wordy(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}

impl Gram {
    pub fn pat_toks(&self, p: &Pat, out: &mut Vec<String>) {
        self.pat_toks_at(p, true, out)
    }

    /// Render as lexical pieces; `top` is true where an alternative may stand without parentheses.
    fn pat_toks_at(&self, p: &Pat, top: bool, out: &mut Vec<String>) {
        let open = |out: &mut Vec<String>| out.push("(".into());
        let close = |out: &mut Vec<String>| out.push(")".into());
        match p {
            Pat::T(i) => out.push(self.toks[*i].name.clone()),
            Pat::N(i) => out.push(self.nts[*i].clone()),
            Pat::Eps => {
                if top {
                    out.push("!".into())
                } else {
                    out.extend(["(".to_string(), "!".to_string(), ")".to_string()])
                }
            }
            Pat::Seq(v) => {
                if !top {
                    open(out);
                }
                for e in v {
                    self.pat_elem(e, out);
                }
                if !top {
                    close(out);
                }
            }
            Pat::Alt(v) => {
                if !top {
                    open(out);
                }
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        out.push("|".into());
                    }
                    match e {
                        Pat::Seq(w) => {
                            for x in w {
                                self.pat_elem(x, out);
                            }
                        }
                        e => self.pat_elem(e, out),
                    }
                }
                if !top {
                    close(out);
                }
            }
            Pat::Star(_) | Pat::Plus(_) | Pat::Opt(_) => self.pat_elem(p, out),
        }
    }

    fn pat_elem(&self, p: &Pat, out: &mut Vec<String>) {
        let (inner, op) = match p {
            Pat::Star(q) => (q, "*"),
            Pat::Plus(q) => (q, "+"),
            Pat::Opt(q) => (q, "?"),
            _ => return self.pat_toks_at(p, false, out),
        };
        match **inner {
            Pat::Star(_) | Pat::Plus(_) | Pat::Opt(_) => {
                out.push("(".into());
                self.pat_elem(inner, out);
                out.push(")".into());
            }
            _ => self.pat_toks_at(inner, false, out),
        }
        out.push(op.into());
    }

    pub fn tok_text(&self, i: usize) -> String {
        match &self.toks[i].pat {
            TokPat::Lit(s) => format!("\"{}\"", s),
            TokPat::Re(r) => format!("/{}/", r.render()),
            TokPat::Raw(r) => format!("/{}/", r),
        }
    }

    pub fn rule_pieces(&self, r: RuleRef) -> Vec<String> {
        let mut v: Vec<String> = Vec::new();
        match r {
            RuleRef::Entry => {
                v.push("entry".into());
                v.push(self.nts[self.entry].clone());
            }
            RuleRef::Tok(i) => {
                v.push("token".into());
                v.push(self.toks[i].name.clone());
                if let Some(p) = self.toks[i].prec {
                    v.push("[".into());
                    v.push(p.to_string());
                    v.push("]".into());
                }
                v.push("=".into());
                v.push(self.tok_text(i));
            }
            RuleRef::Prod(i) => {
                let p = &self.prods[i];
                v.push("prod".into());
                v.push(self.nts[p.nt].clone());
                if let Some(t) = &p.tag {
                    v.push("[".into());
                    v.push(t.clone());
                    v.push("]".into());
                }
                v.push("=".into());
                self.pat_toks(&p.pat, &mut v);
            }
        }
        v.push(";".into());
        v
    }

    /// The usual order: tokens, entry, productions.
    pub fn order(&self) -> Vec<RuleRef> {
        let mut v: Vec<RuleRef> = (0..self.toks.len()).map(RuleRef::Tok).collect();
        v.push(RuleRef::Entry);
        v.extend((0..self.prods.len()).map(RuleRef::Prod));
        v
    }

    pub fn text(&self) -> String {
        self.render(0).0
    }

    /// Text under a layout; layout 0 is one rule per line with single spaces.
    /// Returns the text and per rule (in file order) its byte range.
    pub fn render(&self, layout: u64) -> (String, Vec<(RuleRef, std::ops::Range<usize>)>) {
        let mut rng = Rng::new(&[layout, 77]);
        let mut order = self.order();
        let style = if layout == 0 { 0 } else { rng.range(1, 4) };
        if layout != 0 && rng.chance(2, 3) {
            // interleave the kinds of rules but keep tokens and productions in their own order
            let n = order.len();
            let mut keys: Vec<u8> = order
                .iter()
                .map(|r| match r {
                    RuleRef::Tok(_) => 0,
                    RuleRef::Entry => 1,
                    RuleRef::Prod(_) => 2,
                })
                .collect();
            rng.shuffle(&mut keys);
            let (mut t, mut p) = (0, 0);
            order = (0..n)
                .map(|i| match keys[i] {
                    0 => {
                        t += 1;
                        RuleRef::Tok(t - 1)
                    }
                    1 => RuleRef::Entry,
                    _ => {
                        p += 1;
                        RuleRef::Prod(p - 1)
                    }
                })
                .collect();
        }
        let mut s = String::new();
        let mut spans = Vec::new();
        let gap = |rng: &mut Rng, need: bool, s: &mut String| match style {
            0 => s.push(' '),
            1 => {
                // as little as possible
                if need {
                    s.push(' ')
                }
            }
            2 => {
                let n = rng.below(4) + need as usize;
                for _ in 0..n {
                    s.push(if rng.chance(1, 3) { '\t' } else { ' ' });
                }
            }
            _ => {
                let n = rng.below(3) + need as usize;
                for _ in 0..n {
                    s.push(*rng.pick(&[' ', ' ', '\n', '\t', '\n']));
                }
            }
        };
        if style >= 3 {
            gap(&mut rng, false, &mut s);
        }
        for (k, r) in order.iter().enumerate() {
            let start = s.len();
            let pieces = self.rule_pieces(*r);
            for (i, p) in pieces.iter().enumerate() {
                if i > 0 {
                    let prev = s.chars().last().unwrap();
                    let next = p.chars().next().unwrap();
                    let need = is_wordy(prev) && is_wordy(next);
                    if style == 0 {
                        // conventional spacing
                        let q = pieces[i - 1].as_str();
                        let tight = matches!(p.as_str(), ";" | ")" | "*" | "+" | "?")
                            || q == "("
                            || q == "["
                            || p == "]";
                        if !tight {
                            s.push(' ');
                        }
                    } else {
                        gap(&mut rng, need, &mut s);
                    }
                }
                s.push_str(p);
            }
            spans.push((*r, start..s.len()));
            match style {
                0 => s.push('\n'),
                1 => {
                    if k + 1 == order.len() && rng.chance(1, 2) {
                        s.push('\n')
                    }
                }
                2 => {
                    for _ in 0..rng.below(3) {
                        s.push(' ');
                    }
                    if rng.chance(1, 2) {
                        s.push('\n');
                    }
                }
                _ => gap(&mut rng, false, &mut s),
            }
        }
        (s, spans)
    }

    pub fn is_bnf(&self) -> bool {
        self.prods.iter().all(|p| p.pat.is_bnf())
    }

    pub fn prods_of(&self, nt: usize) -> impl Iterator<Item = (usize, &Prod)> {
        self.prods
            .iter()
            .enumerate()
            .filter(move |(_, p)| p.nt == nt)
    }

    /// Every non-terminal used or defined has at least one production.
    pub fn defined(&self) -> bool {
        (0..self.nts.len()).all(|n| self.prods.iter().any(|p| p.nt == n))
    }

    pub fn productive(&self) -> bool {
        self.min_len().iter().all(|m| m.is_some())
    }

    /// Shortest sentence length per non-terminal.
    pub fn min_len(&self) -> Vec<Option<usize>> {
        let mut m: Vec<Option<usize>> = vec![None; self.nts.len()];
        loop {
            let mut changed = false;
            for p in &self.prods {
                if let Some(l) = pat_min(&p.pat, &m) {
                    if m[p.nt].map_or(true, |o| l < o) {
                        m[p.nt] = Some(l);
                        changed = true;
                    }
                }
            }
            if !changed {
                return m;
            }
        }
    }

    pub fn reachable(&self) -> Vec<bool> {
        let mut r = vec![false; self.nts.len()];
        let mut todo = vec![self.entry];
        while let Some(n) = todo.pop() {
            if std::mem::replace(&mut r[n], true) {
                continue;
            }
            for (_, p) in self.prods_of(n) {
                p.pat.visit(&mut |q| {
                    if let Pat::N(m) = q {
                        todo.push(*m)
                    }
                });
            }
        }
        r
    }

    /// A random sentence with roughly `budget` tokens.
    pub fn sentence(&self, rng: &mut Rng, budget: usize) -> Vec<u16> {
        let m = self.min_len();
        let mut out = Vec::new();
        // a token costs 8, a production 1: productions that derive nothing end as well
        let mut fuel = 8 * budget as isize;
        self.gen_nt(self.entry, rng, &m, &mut fuel, &mut out, 0);
        out
    }

    /// A short sentence of any non-terminal.
    pub fn sentence_of(&self, nt: usize, rng: &mut Rng) -> Vec<u16> {
        let (m, mut out, mut fuel) = (self.min_len(), Vec::new(), 0);
        self.gen_nt(nt, rng, &m, &mut fuel, &mut out, 0);
        out
    }

    /// A sentence of about this many tokens, if the grammar has any.
    pub fn long_sentence(&self, rng: &mut Rng, target: usize) -> Vec<u16> {
        enum Todo<'a> {
            P(&'a Pat),
            More(&'a Pat),
        }
        let m = self.min_len();
        let h = self.heights(&m);
        let k = self.nts.len();
        fn uses(p: &Pat, f: &mut dyn FnMut(usize)) {
            match p {
                Pat::N(n) => f(*n),
                Pat::Seq(v) | Pat::Alt(v) => v.iter().for_each(|e| uses(e, f)),
                Pat::Opt(q) | Pat::Star(q) | Pat::Plus(q) => uses(q, f),
                _ => {}
            }
        }
        let mut reach = vec![vec![false; k]; k];
        for p in &self.prods {
            if pat_min(&p.pat, &m).is_some() {
                uses(&p.pat, &mut |n| reach[p.nt][n] = true);
            }
        }
        for x in 0..k {
            for i in 0..k {
                if reach[i][x] {
                    for j in 0..k {
                        reach[i][j] |= reach[x][j];
                    }
                }
            }
        }
        // can go on for ever
        fn grows(p: &Pat, reach: &[Vec<bool>]) -> bool {
            match p {
                Pat::N(n) => reach[*n][*n] || (0..reach.len()).any(|x| reach[*n][x] && reach[x][x]),
                Pat::Seq(v) | Pat::Alt(v) => v.iter().any(|e| grows(e, reach)),
                Pat::Opt(q) => grows(q, reach),
                Pat::Star(_) | Pat::Plus(_) => true,
                _ => false,
            }
        }
        let mut out = Vec::new();
        let start = Pat::N(self.entry);
        let mut todo = vec![Todo::P(&start)];
        // how many of them can go on
        let alive = |t: &Todo| match t {
            Todo::P(p) => grows(p, &reach),
            Todo::More(_) => true,
        };
        let mut live = alive(&todo[0]) as usize;
        let mut steps = 0;
        while let Some(t) = todo.pop() {
            steps += 1;
            live -= alive(&t) as usize;
            let full = out.len() + todo.len() >= target || steps > 4 * target;
            // the last one must not end early
            let on = live == 0 || rng.chance(15, 16);
            let at = todo.len();
            match t {
                Todo::P(Pat::T(t)) => out.push(*t as u16),
                Todo::P(Pat::Eps) => {}
                Todo::P(Pat::Seq(v)) => todo.extend(v.iter().rev().map(Todo::P)),
                Todo::P(Pat::Opt(q)) => {
                    if !full && (rng.chance(1, 2) || live == 0) && pat_min(q, &m).is_some() {
                        todo.push(Todo::P(q));
                    }
                }
                Todo::P(Pat::Star(q)) => todo.push(Todo::More(q)),
                Todo::P(Pat::Plus(q)) => {
                    todo.push(Todo::More(q));
                    todo.push(Todo::P(q));
                }
                Todo::More(q) => {
                    if !full && on && pat_min(q, &m).is_some() {
                        todo.push(Todo::More(q));
                        todo.push(Todo::P(q));
                    }
                }
                Todo::P(p) => {
                    let mut ok: Vec<&Pat> = match p {
                        Pat::Alt(v) => v.iter().filter(|e| pat_min(e, &m).is_some()).collect(),
                        Pat::N(n) => self.prods_of(*n).map(|x| &x.1.pat).filter(|e| pat_min(e, &m).is_some()).collect(),
                        _ => unreachable!(),
                    };
                    if ok.is_empty() {
                        return out;
                    }
                    if full {
                        let best = ok.iter().min_by_key(|e| (pat_height(e, &h), pat_min(e, &m))).unwrap();
                        todo.push(Todo::P(best));
                    } else {
                        if on && ok.iter().any(|e| grows(e, &reach)) {
                            ok.retain(|e| grows(e, &reach));
                        }
                        todo.push(Todo::P(ok[rng.below(ok.len())]));
                    }
                }
            }
            live += todo[at..].iter().filter(|t| alive(t)).count();
        }
        out
    }

    fn gen_nt(
        &self,
        nt: usize,
        rng: &mut Rng,
        m: &[Option<usize>],
        fuel: &mut isize,
        out: &mut Vec<u16>,
        depth: usize,
    ) {
        let ps: Vec<&Prod> = self
            .prods_of(nt)
            .map(|x| x.1)
            .filter(|p| pat_min(&p.pat, m).is_some())
            .collect();
        if ps.is_empty() {
            return;
        }
        let p = if *fuel <= 0 || depth > 60 {
            // a shortest alternative; among those prefer the one needing the least nesting
            ps.iter()
                .min_by_key(|p| (pat_height(&p.pat, &self.heights(m)), pat_min(&p.pat, m)))
                .unwrap()
        } else {
            ps[rng.below(ps.len())]
        };
        *fuel -= 1;
        self.gen_pat(&p.pat, rng, m, fuel, out, depth + 1);
    }

    fn heights(&self, m: &[Option<usize>]) -> Vec<usize> {
        // least derivation height, so that expansion without fuel always ends
        let mut h = vec![usize::MAX / 4; self.nts.len()];
        loop {
            let mut changed = false;
            for p in &self.prods {
                if pat_min(&p.pat, m).is_none() {
                    continue;
                }
                let x = pat_height(&p.pat, &h) + 1;
                if x < h[p.nt] {
                    h[p.nt] = x;
                    changed = true;
                }
            }
            if !changed {
                return h;
            }
        }
    }

    fn gen_pat(
        &self,
        p: &Pat,
        rng: &mut Rng,
        m: &[Option<usize>],
        fuel: &mut isize,
        out: &mut Vec<u16>,
        depth: usize,
    ) {
        match p {
            Pat::T(t) => {
                *fuel -= 8;
                out.push(*t as u16)
            }
            Pat::N(n) => self.gen_nt(*n, rng, m, fuel, out, depth),
            Pat::Seq(v) => {
                for e in v {
                    self.gen_pat(e, rng, m, fuel, out, depth)
                }
            }
            Pat::Alt(v) => {
                let ok: Vec<&Pat> = v.iter().filter(|e| pat_min(e, m).is_some()).collect();
                if ok.is_empty() {
                    return;
                }
                let e = if *fuel <= 0 || depth > 60 {
                    let h = self.heights(m);
                    ok.iter().min_by_key(|e| pat_height(e, &h)).unwrap()
                } else {
                    ok[rng.below(ok.len())]
                };
                self.gen_pat(e, rng, m, fuel, out, depth)
            }
            Pat::Opt(q) => {
                if *fuel > 0 && depth <= 60 && rng.chance(1, 2) && pat_min(q, m).is_some() {
                    self.gen_pat(q, rng, m, fuel, out, depth)
                }
            }
            Pat::Star(q) | Pat::Plus(q) => {
                let min = matches!(p, Pat::Plus(_)) as usize;
                let mut k = 0;
                loop {
                    let go = k < min
                        || (*fuel > 0
                            && depth <= 60
                            && k < 400
                            && rng.chance(3, 5)
                            && pat_min(q, m).is_some());
                    if !go {
                        break;
                    }
                    self.gen_pat(q, rng, m, fuel, out, depth);
                    k += 1;
                }
            }
            Pat::Eps => {}
        }
    }
}

pub fn pat_min(p: &Pat, m: &[Option<usize>]) -> Option<usize> {
    match p {
        Pat::T(_) => Some(1),
        Pat::N(n) => m[*n],
        Pat::Seq(v) => v.iter().map(|e| pat_min(e, m)).sum(),
        Pat::Alt(v) => v.iter().filter_map(|e| pat_min(e, m)).min(),
        Pat::Star(_) | Pat::Opt(_) | Pat::Eps => Some(0),
        Pat::Plus(q) => pat_min(q, m),
    }
}

fn pat_height(p: &Pat, h: &[usize]) -> usize {
    match p {
        Pat::T(_) | Pat::Eps | Pat::Star(_) | Pat::Opt(_) => 0,
        Pat::N(n) => h[*n],
        Pat::Seq(v) => v.iter().map(|e| pat_height(e, h)).max().unwrap_or(0),
        Pat::Alt(v) => v.iter().map(|e| pat_height(e, h)).min().unwrap_or(0),
        Pat::Plus(q) => pat_height(q, h),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum RuleRef {
    Entry,
    Tok(usize),
    Prod(usize),
}

// ---------------------------------------------------------------------------------------------
// Our own reader of the grammar format: what a grammar text means, independent of lapex.

#[derive(Clone, Debug, PartialEq)]
pub enum RawPat {
    Name(String),
    Seq(Vec<RawPat>),
    Alt(Vec<RawPat>),
    Star(Box<RawPat>),
    Plus(Box<RawPat>),
    Opt(Box<RawPat>),
    Eps,
}

impl RawPat {
    /// Flattens nested sequences and choices, which associativity makes equal.
    pub fn norm(&self) -> RawPat {
        fn flat(v: &[RawPat], open: &dyn Fn(RawPat) -> Result<Vec<RawPat>, RawPat>) -> Vec<RawPat> {
            let mut o = Vec::new();
            for p in v {
                match open(p.norm()) {
                    Ok(w) => o.extend(w),
                    Err(q) => o.push(q),
                }
            }
            o
        }
        let one = |mut v: Vec<RawPat>, f: fn(Vec<RawPat>) -> RawPat| if v.len() == 1 { v.pop().unwrap() } else { f(v) };
        match self {
            RawPat::Seq(v) => one(
                flat(v, &|p| match p {
                    RawPat::Seq(w) => Ok(w),
                    q => Err(q),
                }),
                RawPat::Seq,
            ),
            RawPat::Alt(v) => one(
                flat(v, &|p| match p {
                    RawPat::Alt(w) => Ok(w),
                    q => Err(q),
                }),
                RawPat::Alt,
            ),
            RawPat::Star(p) => RawPat::Star(Box::new(p.norm())),
            RawPat::Plus(p) => RawPat::Plus(Box::new(p.norm())),
            RawPat::Opt(p) => RawPat::Opt(Box::new(p.norm())),
            p => p.clone(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum RawRule {
    Entry {
        name: String,
    },
    Tok {
        name: String,
        prec: Option<u64>,
        /// with its quotes or slashes
        text: String,
    },
    Prod {
        name: String,
        tag: Option<String>,
        pat: RawPat,
    },
}

#[derive(Clone, Debug, PartialEq)]
enum Lex {
    Ident(String),
    Num(String),
    Str(String),
    Re(String),
    Punct(char),
}

/// The symbols of a text with the characters they span.
fn lex(text: &str) -> Result<Vec<(Lex, usize, usize)>, String> {
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut out = Vec::new();
    while i < cs.len() {
        let c = cs[i];
        let s = i;
        match c {
            ' ' | '\t' | '\n' => i += 1,
            '=' | ';' | '(' | ')' | '[' | ']' | '?' | '!' | '*' | '+' | '|' => {
                i += 1;
                out.push((Lex::Punct(c), s, i))
            }
            '0' => {
                i += 1;
                out.push((Lex::Num("0".into()), s, i))
            }
            '1'..='9' => {
                while i < cs.len() && cs[i].is_ascii_digit() {
                    i += 1
                }
                out.push((Lex::Num(cs[s..i].iter().collect()), s, i))
            }
            'a'..='z' | 'A'..='Z' => {
                while i < cs.len() && is_wordy(cs[i]) {
                    i += 1
                }
                out.push((Lex::Ident(cs[s..i].iter().collect()), s, i))
            }
            '"' | '/' => {
                i += 1;
                loop {
                    match cs.get(i) {
                        None | Some('\n') => return Err(format!("unterminated {}", c)),
                        Some('\\') => match cs.get(i + 1) {
                            None | Some('\n') => return Err("bad escape".into()),
                            _ => i += 2,
                        },
                        Some(d) if *d == c => {
                            i += 1;
                            break;
                        }
                        _ => i += 1,
                    }
                }
                let t: String = cs[s..i].iter().collect();
                out.push((if c == '"' { Lex::Str(t) } else { Lex::Re(t) }, s, i))
            }
            c => return Err(format!("character {:?}", c)),
        }
    }
    Ok(out)
}

struct Rd {
    t: Vec<Lex>,
    i: usize,
}

impl Rd {
    fn ident(&mut self) -> Result<String, String> {
        match self.t.get(self.i) {
            Some(Lex::Ident(s)) if !matches!(s.as_str(), "token" | "entry" | "prod") => {
                self.i += 1;
                Ok(s.clone())
            }
            x => Err(format!("identifier expected, got {:?}", x)),
        }
    }
    fn kw(&mut self) -> Result<String, String> {
        match self.t.get(self.i) {
            Some(Lex::Ident(s)) if matches!(s.as_str(), "token" | "entry" | "prod") => {
                self.i += 1;
                Ok(s.clone())
            }
            x => Err(format!("keyword expected, got {:?}", x)),
        }
    }
    fn is(&self, c: char) -> bool {
        self.t.get(self.i) == Some(&Lex::Punct(c))
    }
    fn punct(&mut self, c: char) -> Result<(), String> {
        if self.is(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("{:?} expected, got {:?}", c, self.t.get(self.i)))
        }
    }
    fn pattern(&mut self) -> Result<RawPat, String> {
        if self.is('!') {
            self.i += 1;
            return Ok(RawPat::Eps);
        }
        let mut alts = vec![self.concat()?];
        while self.is('|') {
            self.i += 1;
            alts.push(self.concat()?);
        }
        Ok(if alts.len() == 1 {
            alts.pop().unwrap()
        } else {
            RawPat::Alt(alts)
        })
    }
    fn concat(&mut self) -> Result<RawPat, String> {
        let mut v = vec![self.unary()?];
        while self.is('(')
            || matches!(self.t.get(self.i), Some(Lex::Ident(s)) if !matches!(s.as_str(), "token" | "entry" | "prod"))
        {
            v.push(self.unary()?);
        }
        Ok(if v.len() == 1 {
            v.pop().unwrap()
        } else {
            RawPat::Seq(v)
        })
    }
    fn unary(&mut self) -> Result<RawPat, String> {
        let item = if self.is('(') {
            self.i += 1;
            let p = self.pattern()?;
            self.punct(')')?;
            p
        } else {
            RawPat::Name(self.ident()?)
        };
        Ok(if self.is('?') {
            self.i += 1;
            RawPat::Opt(Box::new(item))
        } else if self.is('*') {
            self.i += 1;
            RawPat::Star(Box::new(item))
        } else if self.is('+') {
            self.i += 1;
            RawPat::Plus(Box::new(item))
        } else {
            item
        })
    }
}

/// Reads a grammar text; an error means the text is not well-formed.
pub fn read_raw(text: &str) -> Result<Vec<RawRule>, String> {
    Ok(read_ranges(text)?.into_iter().map(|r| r.0).collect())
}

/// Reads a grammar text; with every rule the characters it spans.
pub fn read_ranges(text: &str) -> Result<Vec<(RawRule, std::ops::Range<usize>)>, String> {
    let l = lex(text)?;
    let at: Vec<(usize, usize)> = l.iter().map(|x| (x.1, x.2)).collect();
    let mut r = Rd { t: l.into_iter().map(|x| x.0).collect(), i: 0 };
    let mut rules = Vec::new();
    let mut ranges = Vec::new();
    while r.i < r.t.len() {
        let start = at[r.i].0;
        match r.kw()?.as_str() {
            "entry" => {
                let name = r.ident()?;
                r.punct(';')?;
                rules.push(RawRule::Entry { name });
            }
            "token" => {
                let name = r.ident()?;
                let mut prec = None;
                if r.is('[') {
                    r.i += 1;
                    match r.t.get(r.i) {
                        Some(Lex::Num(n)) => {
                            prec = Some(n.parse().unwrap_or(u64::MAX));
                            r.i += 1
                        }
                        x => return Err(format!("number expected, got {:?}", x)),
                    }
                    r.punct(']')?;
                }
                r.punct('=')?;
                let text = match r.t.get(r.i) {
                    Some(Lex::Str(s)) | Some(Lex::Re(s)) => s.clone(),
                    x => return Err(format!("token pattern expected, got {:?}", x)),
                };
                r.i += 1;
                r.punct(';')?;
                rules.push(RawRule::Tok { name, prec, text });
            }
            _ => {
                let name = r.ident()?;
                let mut tag = None;
                if r.is('[') {
                    r.i += 1;
                    tag = Some(r.ident()?);
                    r.punct(']')?;
                }
                r.punct('=')?;
                let pat = r.pattern()?;
                r.punct(';')?;
                rules.push(RawRule::Prod { name, tag, pat });
            }
        }
        ranges.push(start..at[r.i - 1].1);
    }
    if rules.is_empty() {
        return Err("no rules".into());
    }
    Ok(rules.into_iter().zip(ranges).collect())
}

/// Turns read rules into a grammar; an error names the broken consistency rule.
pub fn resolve(rules: &[RawRule]) -> Result<Gram, String> {
    let mut toks: Vec<Tok> = Vec::new();
    let mut tok_ix: BTreeMap<String, usize> = BTreeMap::new();
    let mut nts: Vec<String> = Vec::new();
    let mut nt_ix: BTreeMap<String, usize> = BTreeMap::new();
    let mut entries = Vec::new();
    for r in rules {
        match r {
            RawRule::Entry { name } => entries.push(name.clone()),
            RawRule::Tok { name, prec, text } => {
                if tok_ix.insert(name.clone(), toks.len()).is_some() {
                    return Err(format!("token {} defined twice", name));
                }
                let body: String = {
                    let mut c: Vec<char> = text.chars().collect();
                    c.remove(0);
                    c.pop();
                    c.into_iter().collect()
                };
                toks.push(Tok {
                    name: name.clone(),
                    pat: if text.starts_with('"') {
                        TokPat::Lit(body)
                    } else {
                        match Rx::parse(&body) {
                            Some(r) if r.render() == body => TokPat::Re(r),
                            _ => TokPat::Raw(body),
                        }
                    },
                    prec: match prec {
                        Some(p) if *p > 65535 => return Err("precedence too large".into()),
                        Some(p) => Some(*p as u32),
                        None => None,
                    },
                });
            }
            RawRule::Prod { name, .. } => {
                if !nt_ix.contains_key(name) {
                    nt_ix.insert(name.clone(), nts.len());
                    nts.push(name.clone());
                }
            }
        }
    }
    if entries.len() != 1 {
        return Err(format!("{} entry rules", entries.len()));
    }
    for n in &nts {
        if tok_ix.contains_key(n) {
            return Err(format!("{} is both a token and a production", n));
        }
    }
    fn conv(
        p: &RawPat,
        t: &BTreeMap<String, usize>,
        n: &BTreeMap<String, usize>,
    ) -> Result<Pat, String> {
        Ok(match p {
            RawPat::Name(s) => {
                if let Some(i) = t.get(s) {
                    Pat::T(*i)
                } else if let Some(i) = n.get(s) {
                    Pat::N(*i)
                } else {
                    return Err(format!("undefined symbol {}", s));
                }
            }
            RawPat::Seq(v) => Pat::Seq(v.iter().map(|e| conv(e, t, n)).collect::<Result<_, _>>()?),
            RawPat::Alt(v) => Pat::Alt(v.iter().map(|e| conv(e, t, n)).collect::<Result<_, _>>()?),
            RawPat::Star(q) => Pat::Star(Box::new(conv(q, t, n)?)),
            RawPat::Plus(q) => Pat::Plus(Box::new(conv(q, t, n)?)),
            RawPat::Opt(q) => Pat::Opt(Box::new(conv(q, t, n)?)),
            RawPat::Eps => Pat::Eps,
        })
    }
    let mut prods = Vec::new();
    for r in rules {
        if let RawRule::Prod { name, tag, pat } = r {
            prods.push(Prod {
                nt: nt_ix[name],
                tag: tag.clone(),
                pat: conv(pat, &tok_ix, &nt_ix)?,
            });
        }
    }
    let entry = *nt_ix
        .get(&entries[0])
        .ok_or_else(|| format!("entry {} is no production", entries[0]))?;
    Ok(Gram {
        toks,
        nts,
        prods,
        entry,
    })
}

pub fn read_gram(text: &str) -> Result<Gram, String> {
    resolve(&read_raw(text)?)
}

// ---------------------------------------------------------------------------------------------
// Shrinking

impl Gram {
    /// Smaller grammars, the biggest cuts first. `used` marks tokens that inputs need.
    pub fn smaller(&self, used: &[bool]) -> Vec<Gram> {
        let mut out = Vec::new();
        // drop a whole non-terminal (other than the entry)
        for n in 0..self.nts.len() {
            if n == self.entry {
                continue;
            }
            let mut g = self.clone();
            g.prods.retain(|p| p.nt != n);
            for p in g.prods.iter_mut() {
                p.pat = p.pat.map_syms(&|q| match q {
                    Pat::N(m) if *m == n => Pat::Eps,
                    Pat::N(m) if *m > n => Pat::N(m - 1),
                    q => q.clone(),
                });
                if p.nt > n {
                    p.nt -= 1;
                }
            }
            g.nts.remove(n);
            if g.entry > n {
                g.entry -= 1;
            }
            out.push(g.clean());
        }
        // drop a production
        for i in 0..self.prods.len() {
            let nt = self.prods[i].nt;
            if self.prods_of(nt).count() > 1 {
                let mut g = self.clone();
                g.prods.remove(i);
                out.push(g);
            }
        }
        // drop an unused token
        for t in 0..self.toks.len() {
            let mut uses = used.get(t).copied().unwrap_or(false);
            for p in &self.prods {
                p.pat.visit(&mut |q| {
                    if *q == Pat::T(t) {
                        uses = true
                    }
                });
            }
            if !uses && t + 1 == self.toks.len() && self.toks.len() > 1 {
                let mut g = self.clone();
                g.toks.remove(t);
                out.push(g);
            }
        }
        // drop tags and precedences
        for i in 0..self.prods.len() {
            if self.prods[i].tag.is_some() {
                let mut g = self.clone();
                g.prods[i].tag = None;
                out.push(g);
            }
        }
        for i in 0..self.toks.len() {
            if self.toks[i].prec.is_some() {
                let mut g = self.clone();
                g.toks[i].prec = None;
                out.push(g);
            }
        }
        // simplify a pattern
        for i in 0..self.prods.len() {
            for s in self.prods[i].pat.smaller() {
                let mut g = self.clone();
                g.prods[i].pat = s.clean();
                out.push(g);
            }
        }
        for i in 0..self.toks.len() {
            match &self.toks[i].pat {
                TokPat::Re(r) => {
                    for s in r.smaller() {
                        let mut g = self.clone();
                        g.toks[i].pat = TokPat::Re(s);
                        out.push(g);
                    }
                }
                TokPat::Lit(s) if s.chars().count() > 1 => {
                    for k in 0..s.chars().count() {
                        let t: String = s
                            .chars()
                            .enumerate()
                            .filter(|(j, _)| *j != k)
                            .map(|x| x.1)
                            .collect();
                        let mut g = self.clone();
                        g.toks[i].pat = TokPat::Lit(t);
                        out.push(g);
                    }
                }
                _ => {}
            }
        }
        out
    }

    fn clean(mut self) -> Gram {
        for p in self.prods.iter_mut() {
            p.pat = p.pat.clean();
        }
        self
    }
}

impl Pat {
    /// Removes empty parts from sequences, where they only clutter.
    fn clean(&self) -> Pat {
        match self {
            Pat::Seq(v) => {
                let w: Vec<Pat> = v
                    .iter()
                    .map(|p| p.clean())
                    .filter(|p| *p != Pat::Eps)
                    .collect();
                match w.len() {
                    0 => Pat::Eps,
                    1 => w.into_iter().next().unwrap(),
                    _ => Pat::Seq(w),
                }
            }
            Pat::Alt(v) => {
                let w: Vec<Pat> = v.iter().map(|p| p.clean()).collect();
                if w.len() == 1 {
                    w.into_iter().next().unwrap()
                } else {
                    Pat::Alt(w)
                }
            }
            Pat::Star(p) => Pat::Star(Box::new(p.clean())),
            Pat::Plus(p) => Pat::Plus(Box::new(p.clean())),
            Pat::Opt(p) => Pat::Opt(Box::new(p.clean())),
            p => p.clone(),
        }
    }
}

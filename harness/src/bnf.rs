//! Plain rules and the textbook LR and LL(1) constructions over them.
use crate::ast::{Gram, Pat};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sym {
    T(usize),
    N(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Bnf {
    pub ntoks: usize,
    pub nnts: usize,
    /// (left-hand side, right-hand side)
    pub rules: Vec<(usize, Vec<Sym>)>,
    pub entry: usize,
}

/// The dot of an item before the pseudo rule that derives the entry.
pub const ENTRY: usize = usize::MAX;

impl Bnf {
    /// Expansion of a grammar's patterns; non-terminals beyond the named ones are helpers.
    pub fn from_gram(g: &Gram) -> Bnf {
        Bnf::with_prods(g).0
    }

    /// And which production a rule is; helpers are none.
    pub fn with_prods(g: &Gram) -> (Bnf, Vec<Option<usize>>) {
        let mut of = Vec::new();
        let mut b = Bnf {
            ntoks: g.toks.len(),
            nnts: g.nts.len(),
            rules: Vec::new(),
            entry: g.entry,
        };
        for (i, p) in g.prods.iter().enumerate() {
            let r = b.expand(&p.pat);
            of.resize(b.rules.len(), None);
            b.rules.push((p.nt, r));
            of.push(Some(i));
        }
        (b, of)
    }

    fn helper(&mut self) -> usize {
        self.nnts += 1;
        self.nnts - 1
    }

    fn expand(&mut self, p: &Pat) -> Vec<Sym> {
        match p {
            Pat::T(t) => vec![Sym::T(*t)],
            Pat::N(n) => vec![Sym::N(*n)],
            Pat::Eps => vec![],
            Pat::Seq(v) => v.iter().flat_map(|e| self.expand(e)).collect(),
            Pat::Alt(v) => {
                let h = self.helper();
                for e in v {
                    let r = self.expand(e);
                    self.rules.push((h, r));
                }
                vec![Sym::N(h)]
            }
            Pat::Opt(q) => {
                let h = self.helper();
                let r = self.expand(q);
                self.rules.push((h, r));
                self.rules.push((h, vec![]));
                vec![Sym::N(h)]
            }
            Pat::Star(q) => {
                let h = self.helper();
                let mut r = self.expand(q);
                self.rules.push((h, vec![]));
                r.push(Sym::N(h));
                self.rules.push((h, r));
                vec![Sym::N(h)]
            }
            Pat::Plus(q) => {
                let h = self.helper();
                let mut r = self.expand(q);
                self.rules.push((h, r.clone()));
                r.push(Sym::N(h));
                self.rules.push((h, r));
                vec![Sym::N(h)]
            }
        }
    }

    pub fn by_lhs(&self) -> Vec<Vec<usize>> {
        let mut v = vec![Vec::new(); self.nnts];
        for (i, (l, _)) in self.rules.iter().enumerate() {
            v[*l].push(i);
        }
        v
    }

    pub fn nullable(&self) -> Vec<bool> {
        let mut n = vec![false; self.nnts];
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                if !n[*l]
                    && r.iter().all(|s| match s {
                        Sym::N(m) => n[*m],
                        _ => false,
                    })
                {
                    n[*l] = true;
                    ch = true;
                }
            }
            if !ch {
                return n;
            }
        }
    }

    pub fn productive(&self) -> Vec<bool> {
        let mut n = vec![false; self.nnts];
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                if !n[*l]
                    && r.iter().all(|s| match s {
                        Sym::N(m) => n[*m],
                        _ => true,
                    })
                {
                    n[*l] = true;
                    ch = true;
                }
            }
            if !ch {
                return n;
            }
        }
    }

    pub fn reachable(&self) -> Vec<bool> {
        let mut n = vec![false; self.nnts];
        n[self.entry] = true;
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                if n[*l] {
                    for s in r {
                        if let Sym::N(m) = s {
                            if !n[*m] {
                                n[*m] = true;
                                ch = true;
                            }
                        }
                    }
                }
            }
            if !ch {
                return n;
            }
        }
    }

    /// X =>+ X, or X =>+ Y X .. with Y deriving nothing: where naive GLR parsing cannot end.
    pub fn cyclic_or_hidden_left(&self) -> bool {
        let null = self.nullable();
        // edge X -> Y "plain" when Y leads a rule of X; "hidden" when only nullable symbols precede it;
        // "unit" when everything else in the rule is nullable
        let n = self.nnts;
        let mut unit = vec![vec![false; n]; n];
        let mut left = vec![vec![false; n]; n];
        let mut hidden = vec![vec![false; n]; n];
        for (l, r) in &self.rules {
            let isnull = |s: &Sym| matches!(s, Sym::N(m) if null[*m]);
            for (i, s) in r.iter().enumerate() {
                if let Sym::N(m) = s {
                    if r[..i].iter().all(isnull) {
                        left[*l][*m] = true;
                        if i > 0 {
                            hidden[*l][*m] = true;
                        }
                        if r[i + 1..].iter().all(isnull) {
                            unit[*l][*m] = true;
                        }
                    }
                }
            }
        }
        let close = |e: &Vec<Vec<bool>>| {
            let mut c = e.clone();
            for k in 0..n {
                for i in 0..n {
                    if c[i][k] {
                        for j in 0..n {
                            if c[k][j] {
                                c[i][j] = true;
                            }
                        }
                    }
                }
            }
            c
        };
        let cu = close(&unit);
        if (0..n).any(|i| cu[i][i]) {
            return true;
        }
        let cl = close(&left);
        (0..n).any(|i| (0..n).any(|j| hidden[i][j] && (i == j || cl[j][i])))
    }

    /// First sets of non-terminals as bit sets of tokens.
    pub fn first(&self) -> Vec<u64> {
        let null = self.nullable();
        let mut f = vec![0u64; self.nnts];
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                let (x, _) = seq_first(r, &f, &null);
                if f[*l] | x != f[*l] {
                    f[*l] |= x;
                    ch = true;
                }
            }
            if !ch {
                return f;
            }
        }
    }

    pub fn end_bit(&self) -> u64 {
        1 << self.ntoks
    }

    pub fn follow(&self) -> Vec<u64> {
        let null = self.nullable();
        let first = self.first();
        let mut fo = vec![0u64; self.nnts];
        fo[self.entry] |= self.end_bit();
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                for (i, s) in r.iter().enumerate() {
                    if let Sym::N(m) = s {
                        let (x, nu) = seq_first(&r[i + 1..], &first, &null);
                        let mut y = fo[*m] | x;
                        if nu {
                            y |= fo[*l];
                        }
                        if y != fo[*m] {
                            fo[*m] = y;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                return fo;
            }
        }
    }

    /// The LL(1) table, or a conflicting (non-terminal, token bit position).
    pub fn ll1(&self) -> Result<BTreeMap<(usize, usize), usize>, (usize, usize)> {
        let null = self.nullable();
        let first = self.first();
        let follow = self.follow();
        let mut t = BTreeMap::new();
        for (i, (l, r)) in self.rules.iter().enumerate() {
            let (mut x, nu) = seq_first(r, &first, &null);
            if nu {
                x |= follow[*l];
            }
            for b in 0..=self.ntoks {
                if x >> b & 1 == 1 && t.insert((*l, b), i).is_some() {
                    return Err((*l, b));
                }
            }
        }
        Ok(t)
    }
}

pub fn seq_first(r: &[Sym], first: &[u64], null: &[bool]) -> (u64, bool) {
    let mut x = 0;
    for s in r {
        match s {
            Sym::T(t) => return (x | 1 << t, false),
            Sym::N(m) => {
                x |= first[*m];
                if !null[*m] {
                    return (x, false);
                }
            }
        }
    }
    (x, true)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    Lr0,
    Lalr,
    Lr1,
}

/// (rule or ENTRY, dot)
pub type Core = (usize, usize);

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Descr {
    /// completed item, token to shift
    Shift(Core, usize),
    Reduce(Vec<Core>),
}

/// The states of an LR construction; lookaheads as bit sets, unused for LR(0).
pub struct Lr<'a> {
    pub b: &'a Bnf,
    pub class: Class,
    pub states: Vec<BTreeMap<Core, u64>>,
    pub trans: Vec<BTreeMap<Sym, usize>>,
}

impl<'a> Lr<'a> {
    /// None when there are more than `limit` states, or tokens than fit a bit set.
    pub fn new(b: &'a Bnf, class: Class, limit: usize) -> Option<Lr<'a>> {
        if b.ntoks > 60 {
            return None;
        }
        let null = b.nullable();
        let first = b.first();
        let by = b.by_lhs();
        let entry_rhs = [Sym::N(b.entry)];
        let rhs = |r: usize| -> &[Sym] {
            if r == ENTRY {
                &entry_rhs
            } else {
                &b.rules[r].1
            }
        };
        let closure = |kernel: &BTreeMap<Core, u64>| {
            let mut set = kernel.clone();
            let mut todo: Vec<Core> = kernel.keys().copied().collect();
            while let Some((r, d)) = todo.pop() {
                let la = set[&(r, d)];
                if let Some(Sym::N(m)) = rhs(r).get(d) {
                    let (x, nu) = seq_first(&rhs(r)[d + 1..], &first, &null);
                    let l = if class == Class::Lr0 { 0 } else if nu { x | la } else { x };
                    for q in &by[*m] {
                        let e = set.get(&(*q, 0)).copied();
                        let n = e.unwrap_or(0) | l;
                        if e != Some(n) {
                            set.insert((*q, 0), n);
                            todo.push((*q, 0));
                        }
                    }
                }
            }
            set
        };
        let goto = |set: &BTreeMap<Core, u64>| {
            let mut m: BTreeMap<Sym, BTreeMap<Core, u64>> = BTreeMap::new();
            for ((r, d), la) in set {
                if let Some(s) = rhs(*r).get(*d) {
                    *m.entry(*s).or_default().entry((*r, d + 1)).or_insert(0) |= la;
                }
            }
            m
        };
        let start_la = if class == Class::Lr0 { 0 } else { b.end_bit() };
        let mut states: Vec<BTreeMap<Core, u64>> = Vec::new();
        let mut trans: Vec<BTreeMap<Sym, usize>> = Vec::new();
        let mut index: HashMap<Vec<(Core, u64)>, usize> = HashMap::new();
        let key = |k: &BTreeMap<Core, u64>| -> Vec<(Core, u64)> {
            k.iter().map(|(a, b)| (*a, *b)).collect()
        };
        let k0: BTreeMap<Core, u64> = [((ENTRY, 0), start_la)].into();
        index.insert(key(&k0), 0);
        states.push(closure(&k0));
        let mut i = 0;
        while i < states.len() {
            let mut tr = BTreeMap::new();
            for (s, k) in goto(&states[i]) {
                let kk = key(&k);
                let t = match index.get(&kk) {
                    Some(t) => *t,
                    None => {
                        if states.len() >= limit {
                            return None;
                        }
                        index.insert(kk, states.len());
                        states.push(closure(&k));
                        states.len() - 1
                    }
                };
                tr.insert(s, t);
            }
            trans.push(tr);
            i += 1;
        }
        if class == Class::Lalr {
            // by definition: the canonical states with equal cores merged
            let mut cores: BTreeMap<Vec<Core>, usize> = BTreeMap::new();
            let mut map = Vec::new();
            let mut ms: Vec<BTreeMap<Core, u64>> = Vec::new();
            for s in &states {
                let c: Vec<Core> = s.keys().copied().collect();
                let n = cores.len();
                let t = *cores.entry(c).or_insert(n);
                if t == ms.len() {
                    ms.push(BTreeMap::new());
                }
                for (k, la) in s {
                    *ms[t].entry(*k).or_insert(0) |= la;
                }
                map.push(t);
            }
            let mut mt = vec![BTreeMap::new(); ms.len()];
            for (i, tr) in trans.iter().enumerate() {
                for (s, t) in tr {
                    mt[map[i]].insert(*s, map[*t]);
                }
            }
            states = ms;
            trans = mt;
        }
        Some(Lr {
            b,
            class,
            states,
            trans,
        })
    }

    fn len_of(&self, r: usize) -> usize {
        if r == ENTRY {
            1
        } else {
            self.b.rules[r].1.len()
        }
    }

    /// Per state: conflicts that must be reported and conflicts that may be.
    /// A shift-reduce conflict on a lookahead that also has a reduce-reduce conflict may stay unmentioned.
    pub fn conflicts(&self) -> Vec<(BTreeSet<Descr>, BTreeSet<Descr>)> {
        let mut out = Vec::new();
        for (i, st) in self.states.iter().enumerate() {
            let mut req = BTreeSet::new();
            let mut may = BTreeSet::new();
            let done: Vec<(Core, u64)> = st
                .iter()
                .filter(|((r, d), _)| *d == self.len_of(*r))
                .map(|(c, l)| (*c, *l))
                .collect();
            let shifts: Vec<usize> = self.trans[i]
                .keys()
                .filter_map(|s| match s {
                    Sym::T(t) => Some(*t),
                    _ => None,
                })
                .collect();
            if self.class == Class::Lr0 {
                if done.len() > 1 {
                    req.insert(Descr::Reduce(done.iter().map(|x| x.0).collect()));
                }
                for (c, _) in &done {
                    if c.0 == ENTRY {
                        continue;
                    }
                    for t in &shifts {
                        let d = Descr::Shift(*c, *t);
                        if done.len() == 1 {
                            req.insert(d.clone());
                        }
                        may.insert(d);
                    }
                }
            } else {
                for bit in 0..=self.b.ntoks {
                    let on: Vec<Core> = done
                        .iter()
                        .filter(|x| x.1 >> bit & 1 == 1)
                        .map(|x| x.0)
                        .collect();
                    if on.len() > 1 {
                        req.insert(Descr::Reduce(on.clone()));
                    }
                    for c in &on {
                        if c.0 != ENTRY && shifts.contains(&bit) {
                            let d = Descr::Shift(*c, bit);
                            if on.len() == 1 {
                                req.insert(d.clone());
                            }
                            may.insert(d);
                        }
                    }
                }
            }
            may.extend(req.iter().cloned());
            out.push((req, may));
        }
        out
    }

    pub fn has_conflict(&self) -> bool {
        self.conflicts().iter().any(|(r, _)| !r.is_empty())
    }
}

pub fn is_class(b: &Bnf, c: Class) -> Option<bool> {
    Some(!Lr::new(b, c, 600)?.has_conflict())
}

/// The same rules as a grammar of ours, so that the recogniser can judge them.
pub fn as_gram(b: &Bnf, g: &Gram) -> Gram {
    let mut nts = g.nts.clone();
    while nts.len() < b.nnts {
        nts.push(format!("h{}", nts.len()));
    }
    Gram {
        toks: g.toks.clone(),
        nts,
        prods: b
            .rules
            .iter()
            .map(|(l, r)| crate::ast::Prod {
                nt: *l,
                tag: None,
                pat: match r.len() {
                    0 => Pat::Eps,
                    _ => Pat::Seq(
                        r.iter()
                            .map(|s| match s {
                                Sym::T(t) => Pat::T(*t),
                                Sym::N(n) => Pat::N(*n),
                            })
                            .collect(),
                    ),
                },
            })
            .collect(),
        entry: b.entry,
    }
}

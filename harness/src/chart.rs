//! Reference language of a grammar: a fixpoint recogniser working directly on the written patterns.
use crate::ast::{Gram, Pat};
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, PartialEq, Debug)]
pub struct Bits(Vec<u64>);

impl Bits {
    pub fn new(n: usize) -> Bits {
        Bits(vec![0; n / 64 + 1])
    }
    pub fn set(&mut self, i: usize) {
        self.0[i / 64] |= 1 << (i % 64)
    }
    pub fn get(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    /// true when something was added
    pub fn or(&mut self, o: &Bits) -> bool {
        let mut ch = false;
        for (a, b) in self.0.iter_mut().zip(&o.0) {
            let n = *a | *b;
            ch |= n != *a;
            *a = n;
        }
        ch
    }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        self.0.iter().enumerate().flat_map(|(k, w)| {
            let mut w = *w;
            std::iter::from_fn(move || {
                if w == 0 {
                    None
                } else {
                    let b = w.trailing_zeros() as usize;
                    w &= w - 1;
                    Some(k * 64 + b)
                }
            })
        })
    }
}

pub struct Chart<'a> {
    w: &'a [u16],
    /// per non-terminal and start position, where it can end
    tab: Vec<Vec<Bits>>,
    /// per non-terminal and start position: it can derive something the rest of the word is a prefix of
    via: Vec<Vec<bool>>,
    /// positions from here on are settled
    done: usize,
    memo: RefCell<HashMap<(*const Pat, usize), Bits>>,
}

impl<'a> Chart<'a> {
    pub fn new(g: &Gram, w: &'a [u16]) -> Chart<'a> {
        let n = w.len();
        let k = g.nts.len();
        let mut c = Chart {
            w,
            tab: vec![vec![Bits::new(n); n + 1]; k],
            via: vec![vec![false; n + 1]; k],
            done: n + 1,
            memo: RefCell::new(HashMap::new()),
        };
        for i in (0..=n).rev() {
            c.done = i + 1;
            loop {
                let mut ch = false;
                for p in &g.prods {
                    let e = c.ends(&p.pat, i);
                    ch |= c.tab[p.nt][i].or(&e);
                }
                if !ch {
                    break;
                }
            }
        }
        c.done = 0;
        for i in (0..=n).rev() {
            loop {
                let mut ch = false;
                for p in &g.prods {
                    if !c.via[p.nt][i] && c.viable_pat(&p.pat, i) {
                        c.via[p.nt][i] = true;
                        ch = true;
                    }
                }
                if !ch {
                    break;
                }
            }
        }
        c
    }

    fn one(&self, i: usize) -> Bits {
        let mut b = Bits::new(self.w.len());
        b.set(i);
        b
    }

    fn ends(&self, p: &Pat, i: usize) -> Bits {
        if self.w.len() < 24 || i < self.done || matches!(p, Pat::T(_) | Pat::N(_) | Pat::Eps) {
            return self.find_ends(p, i);
        }
        let key = (p as *const Pat, i);
        if let Some(b) = self.memo.borrow().get(&key) {
            return b.clone();
        }
        let b = self.find_ends(p, i);
        self.memo.borrow_mut().insert(key, b.clone());
        b
    }

    fn find_ends(&self, p: &Pat, i: usize) -> Bits {
        match p {
            Pat::T(t) => {
                let mut b = Bits::new(self.w.len());
                if i < self.w.len() && self.w[i] as usize == *t {
                    b.set(i + 1);
                }
                b
            }
            Pat::N(n) => self.tab[*n][i].clone(),
            Pat::Eps => self.one(i),
            Pat::Seq(v) => {
                let mut cur = self.one(i);
                for e in v {
                    cur = self.ends_from(e, &cur);
                }
                cur
            }
            Pat::Alt(v) => {
                let mut b = Bits::new(self.w.len());
                for e in v {
                    b.or(&self.ends(e, i));
                }
                b
            }
            Pat::Opt(q) => {
                let mut b = self.ends(q, i);
                b.set(i);
                b
            }
            Pat::Star(q) => self.star(q, self.one(i)),
            Pat::Plus(q) => {
                let b = self.ends(q, i);
                self.star(q, b)
            }
        }
    }

    fn ends_from(&self, p: &Pat, from: &Bits) -> Bits {
        let mut b = Bits::new(self.w.len());
        for j in from.iter() {
            b.or(&self.ends(p, j));
        }
        b
    }

    fn star(&self, q: &Pat, start: Bits) -> Bits {
        let mut all = start.clone();
        let mut front = start;
        loop {
            let next = self.ends_from(q, &front);
            let mut fresh = Bits::new(self.w.len());
            let mut any = false;
            for j in next.iter() {
                if !all.get(j) {
                    fresh.set(j);
                    all.set(j);
                    any = true;
                }
            }
            if !any {
                return all;
            }
            front = fresh;
        }
    }

    /// Assumes that every part of the grammar derives something.
    fn viable_pat(&self, p: &Pat, i: usize) -> bool {
        let n = self.w.len();
        if i == n {
            return true;
        }
        match p {
            Pat::T(t) => i + 1 == n && self.w[i] as usize == *t,
            Pat::N(m) => self.via[*m][i],
            Pat::Eps => false,
            Pat::Seq(v) => {
                let mut cur = self.one(i);
                for e in v {
                    if cur.iter().any(|j| self.viable_pat(e, j)) {
                        return true;
                    }
                    cur = self.ends_from(e, &cur);
                }
                cur.get(n)
            }
            Pat::Alt(v) => v.iter().any(|e| self.viable_pat(e, i)),
            Pat::Opt(q) => self.viable_pat(q, i),
            Pat::Star(q) | Pat::Plus(q) => {
                let all = self.star(q, self.one(i));
                let any = all.iter().any(|j| self.viable_pat(q, j));
                any
            }
        }
    }

    pub fn derives(&self, nt: usize) -> bool {
        self.tab[nt][0].get(self.w.len())
    }
    /// the entry derives the prefix of this length exactly (a complete sentence)
    pub fn sentence_prefix(&self, nt: usize, len: usize) -> bool {
        self.tab[nt][0].get(len)
    }
    pub fn viable(&self, nt: usize) -> bool {
        self.via[nt][0]
    }
}

pub fn member(g: &Gram, w: &[u16]) -> bool {
    Chart::new(g, w).derives(g.entry)
}

/// Could the entry derive something starting with these tokens? (every non-terminal must be productive)
pub fn viable(g: &Gram, w: &[u16]) -> bool {
    Chart::new(g, w).viable(g.entry)
}

/// Index of the first token that cannot continue; `w.len()` stands for the end of file.
/// None when the grammar derives the whole word.
pub fn error_at(g: &Gram, w: &[u16]) -> Option<usize> {
    if member(g, w) {
        return None;
    }
    // the viable prefixes are closed under taking prefixes
    let (mut lo, mut hi) = (0, w.len());
    if viable(g, w) {
        return Some(w.len());
    }
    // viable(lo) holds, viable(hi) does not
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        if viable(g, &w[..m]) {
            lo = m
        } else {
            hi = m
        }
    }
    Some(lo)
}

/// Tokens that can follow the viable prefix, and whether the input can end there.
pub fn next_tokens(g: &Gram, prefix: &[u16]) -> (Vec<u16>, bool) {
    let mut v = Vec::new();
    let mut w = prefix.to_vec();
    for t in 0..g.toks.len() as u16 {
        w.push(t);
        if viable(g, &w) {
            v.push(t);
        }
        w.pop();
    }
    (v, member(g, prefix))
}

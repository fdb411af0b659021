//! What is true of a word: the recogniser for short ones, our own canonical LR(1) parser for long ones.
use crate::ast::Gram;
use crate::bnf::{Bnf, Class, Lr, Sym, ENTRY};
use crate::chart;
use std::cell::OnceCell;
use std::collections::HashMap;

/// Words longer than this are left to the LR(1) parser.
pub const LONG: usize = 300;

#[derive(Clone, Copy)]
enum Act {
    Shift(usize),
    Reduce(usize),
    Accept,
}

pub struct Parse {
    pub ok: bool,
    /// index of the first token that cannot follow
    pub at: usize,
    /// tokens that could follow there; `ntoks` is the end of file
    pub next: Vec<usize>,
    /// (tokens shifted before, rule of the plain grammar)
    pub reductions: Vec<(usize, usize)>,
}

pub struct Runner {
    b: Bnf,
    /// the production a plain rule stands for, unless it belongs to a group or repetition
    prod: Vec<Option<usize>>,
    act: Vec<HashMap<usize, Act>>,
    goto: Vec<HashMap<usize, usize>>,
}

impl Runner {
    /// None unless the grammar is LR(1) and of ordinary size.
    pub fn new(g: &Gram) -> Option<Runner> {
        let (b, prod) = Bnf::with_prods(g);
        let lr = Lr::new(&b, Class::Lr1, 600)?;
        if lr.has_conflict() {
            return None;
        }
        let (mut act, mut goto) = (Vec::new(), Vec::new());
        for (st, tr) in lr.states.iter().zip(&lr.trans) {
            let mut a = HashMap::new();
            let mut t = HashMap::new();
            for (s, to) in tr {
                match s {
                    Sym::T(x) => {
                        a.insert(*x, Act::Shift(*to));
                    }
                    Sym::N(x) => {
                        t.insert(*x, *to);
                    }
                }
            }
            for ((r, d), la) in st {
                let len = if *r == ENTRY { 1 } else { b.rules[*r].1.len() };
                if *d == len {
                    for bit in 0..=b.ntoks {
                        if la >> bit & 1 == 1 {
                            a.insert(bit, if *r == ENTRY { Act::Accept } else { Act::Reduce(*r) });
                        }
                    }
                }
            }
            act.push(a);
            goto.push(t);
        }
        drop(lr);
        Some(Runner { b, prod, act, goto })
    }

    pub fn run(&self, w: &[u16]) -> Parse {
        let mut stack = vec![0usize];
        let mut reductions = Vec::new();
        let mut i = 0;
        loop {
            let top = *stack.last().unwrap();
            let t = w.get(i).map_or(self.b.ntoks, |t| *t as usize);
            match self.act[top].get(&t) {
                Some(Act::Shift(s)) => {
                    stack.push(*s);
                    i += 1;
                }
                Some(Act::Reduce(r)) => {
                    let (l, rhs) = &self.b.rules[*r];
                    stack.truncate(stack.len() - rhs.len());
                    let to = self.goto[*stack.last().unwrap()][l];
                    stack.push(to);
                    reductions.push((i, *r));
                }
                x => {
                    let mut next: Vec<usize> = self.act[top].keys().copied().collect();
                    next.sort();
                    return Parse { ok: x.is_some(), at: i, next, reductions };
                }
            }
        }
    }

    /// The events of the derivation in the order of the event grammars: tokens by position, markers.
    fn bottom_up(&self, p: &Parse, n: usize) -> Vec<Event> {
        let mut v = Vec::new();
        let mut k = 0;
        for (i, r) in &p.reductions {
            while k < *i {
                v.push(Event::Token(k));
                k += 1;
            }
            if let Some(q) = self.prod[*r] {
                v.push(Event::Marker(q));
            }
        }
        v.extend((k..n).map(Event::Token));
        v
    }

    fn top_down(&self, g: &Gram, p: &Parse, n: usize) -> Vec<Event> {
        enum Node {
            Leaf(usize),
            Inner(usize, Vec<usize>),
        }
        let mut nodes: Vec<Node> = Vec::new();
        let mut stack: Vec<usize> = Vec::new();
        let mut k = 0;
        for (i, r) in &p.reductions {
            while k < *i {
                nodes.push(Node::Leaf(k));
                stack.push(nodes.len() - 1);
                k += 1;
            }
            let kids = stack.split_off(stack.len() - self.b.rules[*r].1.len());
            nodes.push(Node::Inner(*r, kids));
            stack.push(nodes.len() - 1);
        }
        let mut v = Vec::new();
        // nodes still to be entered, or rules to be left
        let mut todo: Vec<Result<usize, usize>> = stack.iter().rev().map(|x| Ok(*x)).collect();
        while let Some(x) = todo.pop() {
            match x {
                Err(nt) => v.push(Event::Marker(2 * nt + 1)),
                Ok(i) => match &nodes[i] {
                    Node::Leaf(k) => v.push(Event::Token(*k)),
                    Node::Inner(r, kids) => {
                        if let Some(q) = self.prod[*r] {
                            let nt = g.prods[q].nt;
                            v.push(Event::Marker(2 * nt));
                            todo.push(Err(nt));
                        }
                        todo.extend(kids.iter().rev().map(|x| Ok(*x)));
                    }
                },
            }
        }
        debug_assert!(k == n);
        v
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Event {
    Token(usize),
    /// counted from the number of tokens
    Marker(usize),
}

pub struct Truth<'a> {
    pub g: &'a Gram,
    lr: OnceCell<Option<Runner>>,
}

impl<'a> Truth<'a> {
    pub fn new(g: &'a Gram) -> Truth<'a> {
        Truth { g, lr: OnceCell::new() }
    }

    fn long(&self, w: &[u16]) -> Option<&Runner> {
        if w.len() <= LONG || w.iter().any(|t| *t as usize >= self.g.toks.len()) {
            return None;
        }
        self.lr.get_or_init(|| Runner::new(self.g)).as_ref()
    }

    /// Words too long for the recogniser of a grammar that is not LR(1) are judged by nobody.
    pub fn knows(&self, w: &[u16]) -> bool {
        w.len() <= LONG || self.long(w).is_some()
    }

    pub fn member(&self, w: &[u16]) -> bool {
        match self.long(w) {
            Some(r) => r.run(w).ok,
            None => chart::member(self.g, w),
        }
    }

    pub fn error_at(&self, w: &[u16]) -> Option<usize> {
        match self.long(w) {
            Some(r) => {
                let p = r.run(w);
                (!p.ok).then_some(p.at)
            }
            None => chart::error_at(self.g, w),
        }
    }

    /// What could stand at the first error of the word.
    pub fn next_tokens(&self, w: &[u16], k: usize) -> (Vec<u16>, bool) {
        match self.long(w) {
            Some(r) => {
                let n = self.g.toks.len();
                let p = r.run(w);
                (p.next.iter().filter(|t| **t < n).map(|t| *t as u16).collect(), p.next.contains(&n))
            }
            None => chart::next_tokens(self.g, &w[..k]),
        }
    }

    /// The one order of events, when it is known.
    pub fn events(&self, w: &[u16], top_down: bool) -> Option<Vec<Event>> {
        let r = self.long(w)?;
        let p = r.run(w);
        p.ok.then(|| if top_down { r.top_down(self.g, &p, w.len()) } else { r.bottom_up(&p, w.len()) })
    }
}

/// The two oracles must agree where both can judge.
pub fn agree(g: &Gram, words: &[Vec<u16>]) -> Result<(), String> {
    let Some(r) = Runner::new(g) else { return Ok(()) };
    for w in words.iter().filter(|w| w.len() <= 8 && w.iter().all(|t| (*t as usize) < g.toks.len())).take(12) {
        let p = r.run(w);
        if p.ok != chart::member(g, w) || (!p.ok && Some(p.at) != chart::error_at(g, w)) {
            return Err(format!("our recogniser and our LR(1) parser differ on {:?}", w));
        }
    }
    Ok(())
}

/// Stacks the generated GLR parser is allowed on one word: it keeps a stack for every
/// derivation still possible, so an ambiguous word of a few tokens can already take it minutes.
const FORKS: f64 = 40_000.0;

/// Which words are too ambiguous to be given to a GLR parser, by counting the stacks of our own LALR automaton.
pub fn too_ambiguous(g: &Gram, words: &[Vec<u16>]) -> Vec<bool> {
    let b = Bnf::from_gram(g);
    let none = vec![false; words.len()];
    let Some(lr) = Lr::new(&b, Class::Lalr, 1500) else { return none };
    if !lr.has_conflict() {
        return none;
    }
    let mut left = 10.0 * FORKS;
    words
        .iter()
        .map(|w| {
            let n = if w.len() <= LONG { forks(&b, &lr, w) } else { 0.0 };
            let heavy = n > FORKS || n > left;
            if !heavy {
                left -= n;
            }
            heavy
        })
        .collect()
}

fn forks(b: &Bnf, lr: &Lr, w: &[u16]) -> f64 {
    // a stack is its top state and the number of the stack below; equal stacks are counted together
    let mut nodes: Vec<(usize, usize)> = vec![(0, usize::MAX)];
    let mut index: HashMap<(usize, usize), usize> = HashMap::new();
    index.insert(nodes[0], 0);
    let mut node = |nodes: &mut Vec<(usize, usize)>, n: (usize, usize)| -> usize {
        *index.entry(n).or_insert_with(|| {
            nodes.push(n);
            nodes.len() - 1
        })
    };
    let mut now: HashMap<usize, f64> = [(0, 1.0)].into();
    let mut total = 0.0;
    for i in 0..=w.len() {
        let t = w.get(i).map_or(b.ntoks, |t| *t as usize);
        let mut shifted: HashMap<usize, f64> = HashMap::new();
        while !now.is_empty() {
            let mut next: HashMap<usize, f64> = HashMap::new();
            for (s, n) in now {
                total += n;
                if total > FORKS || nodes.len() > 200_000 {
                    return f64::INFINITY;
                }
                let top = nodes[s].0;
                if i < w.len() {
                    if let Some(to) = lr.trans[top].get(&Sym::T(t)) {
                        *shifted.entry(node(&mut nodes, (*to, s))).or_default() += n;
                    }
                }
                for ((r, d), la) in &lr.states[top] {
                    if *r == ENTRY || *d != b.rules[*r].1.len() || t > b.ntoks || la >> t & 1 == 0 {
                        continue;
                    }
                    let mut at = s;
                    for _ in 0..*d {
                        at = nodes[at].1;
                    }
                    let to = lr.trans[nodes[at].0][&Sym::N(b.rules[*r].0)];
                    *next.entry(node(&mut nodes, (to, at))).or_default() += n;
                }
            }
            now = next;
        }
        now = shifted;
    }
    total
}

//! Regular expressions: our own syntax tree, rendering, reading back, and two independent matchers
//! (a set-based recursive one and a Thompson automaton).
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

#[derive(Clone, Debug, PartialEq)]
pub enum Rx {
    /// a character and how it is written: 0 plain or escaped, 1 `\x{..}`, 2 `\u{..}`
    Ch(char, u8),
    Class { neg: bool, items: Vec<(char, char)> },
    Dot,
    /// d w s D W S
    Perl(char),
    /// `[:alpha:]` and the like, only inside of Op
    Posix(String),
    /// set operation on single-character expressions: `|` union, `&`, `-`, `~`
    Op(char, Box<Rx>, Box<Rx>),
    Cat(Vec<Rx>),
    Alt(Vec<Rx>),
    Rep { min: u32, max: Option<u32>, inner: Box<Rx> },
    Empty,
    /// the inner expression in a capturing group, or `(?:`
    Group(bool, Box<Rx>),
}

/// Characters outside ASCII whose membership in \d and \w we know and use in texts.
pub const KNOWN: &[(char, bool, bool)] = &[
    ('é', false, true),
    ('ß', false, true),
    ('λ', false, true),
    ('Ж', false, true),
    ('中', false, true),
    ('ﬀ', false, true),
    ('𝒜', false, true),
    ('٣', true, true),
    ('९', true, true),
    ('€', false, false),
    ('→', false, false),
    ('\u{a0}', false, false),
    ('\u{feff}', false, false),
    ('\u{200b}', false, false),
    ('\u{85}', false, false),
    ('\u{2028}', false, false),
    ('😀', false, false),
    ('½', false, false),
    ('²', false, false),
    ('\u{fffd}', false, false),
    ('\u{10ffff}', false, false),
    ('\u{301}', false, true),
    ('‿', false, true),
];

pub fn is_d(c: char) -> bool {
    c.is_ascii_digit() || KNOWN.iter().any(|k| k.0 == c && k.1)
}
pub fn is_w(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || KNOWN.iter().any(|k| k.0 == c && k.2)
}
pub fn is_s(c: char) -> bool {
    c.is_whitespace()
}

fn meta(c: char) -> bool {
    "\\.+*?()|[]{}^$/".contains(c)
}

fn put_char(c: char, style: u8, o: &mut String) {
    match style {
        1 => o.push_str(&format!("\\x{{{:X}}}", c as u32)),
        2 => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
        _ => match c {
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            '\0' => o.push_str("\\x00"),
            c if meta(c) => {
                o.push('\\');
                o.push(c)
            }
            c => o.push(c),
        },
    }
}

fn put_class_char(c: char, o: &mut String) {
    match c {
        '\n' => o.push_str("\\n"),
        '\t' => o.push_str("\\t"),
        '\r' => o.push_str("\\r"),
        '\0' => o.push_str("\\x00"),
        c if "[]\\^-&~/".contains(c) => {
            o.push('\\');
            o.push(c)
        }
        c => o.push(c),
    }
}

pub const POSIX: &[&str] = &[
    "alnum", "alpha", "ascii", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper",
    "word", "xdigit",
];

fn posix(n: &str, c: char) -> bool {
    match n {
        "alnum" => c.is_ascii_alphanumeric(),
        "alpha" => c.is_ascii_alphabetic(),
        "ascii" => c.is_ascii(),
        "blank" => c == ' ' || c == '\t',
        "cntrl" => c.is_ascii_control(),
        "digit" => c.is_ascii_digit(),
        "graph" => c.is_ascii_graphic(),
        "lower" => c.is_ascii_lowercase(),
        "print" => c.is_ascii_graphic() || c == ' ',
        "punct" => c.is_ascii_punctuation(),
        "space" => matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{b}' | '\u{c}'),
        "upper" => c.is_ascii_uppercase(),
        "word" => c.is_ascii_alphanumeric() || c == '_',
        "xdigit" => c.is_ascii_hexdigit(),
        _ => false,
    }
}

impl Rx {
    pub fn render(&self) -> String {
        let mut o = String::new();
        self.put(&mut o, 0);
        o
    }

    /// level 0: anything; 1: within a sequence; 2: under a repetition
    fn put(&self, o: &mut String, level: u8) {
        let wrap = |need: bool, o: &mut String, f: &dyn Fn(&mut String)| {
            if need {
                o.push_str("(?:")
            }
            f(o);
            if need {
                o.push(')')
            }
        };
        match self {
            Rx::Ch(c, s) => put_char(*c, *s, o),
            Rx::Class { neg, items } => {
                o.push('[');
                if *neg {
                    o.push('^')
                }
                for (a, b) in items {
                    put_class_char(*a, o);
                    if a != b {
                        o.push('-');
                        put_class_char(*b, o);
                    }
                }
                o.push(']');
            }
            Rx::Dot => o.push('.'),
            Rx::Perl(c) => {
                o.push('\\');
                o.push(*c)
            }
            Rx::Posix(n) => o.push_str(&format!("[:{}:]", n)),
            Rx::Op(op, a, b) => {
                o.push('[');
                a.put(o, 0);
                match op {
                    '|' => {}
                    op => {
                        o.push(*op);
                        o.push(*op)
                    }
                }
                b.put(o, 0);
                o.push(']');
            }
            Rx::Cat(v) => wrap(level > 1 || (level == 1), o, &|o| {
                for e in v {
                    e.put(o, 1)
                }
            }),
            Rx::Alt(v) => wrap(level > 0, o, &|o| {
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        o.push('|')
                    }
                    match e {
                        // a sequence needs no brackets inside an alternative
                        Rx::Cat(w) => {
                            for x in w {
                                x.put(o, 1)
                            }
                        }
                        e => e.put(o, 1),
                    }
                }
            }),
            Rx::Rep { min, max, inner } => wrap(level > 1, o, &|o| {
                inner.put(o, 2);
                match (min, max) {
                    (0, None) => o.push('*'),
                    (1, None) => o.push('+'),
                    (0, Some(1)) => o.push('?'),
                    (n, None) => o.push_str(&format!("{{{},}}", n)),
                    (n, Some(m)) if n == m => o.push_str(&format!("{{{}}}", n)),
                    (n, Some(m)) => o.push_str(&format!("{{{},{}}}", n, m)),
                }
            }),
            Rx::Empty => {
                if level > 0 {
                    o.push_str("(?:)")
                }
            }
            Rx::Group(cap, inner) => {
                o.push_str(if *cap { "(" } else { "(?:" });
                inner.put(o, 0);
                o.push(')');
            }
        }
    }

    /// Reads the subset of the regex syntax this module writes (and the usual hand-written one).
    pub fn parse(s: &str) -> Option<Rx> {
        let mut p = P {
            c: s.chars().collect(),
            i: 0,
        };
        let r = p.alt()?;
        (p.i == p.c.len()).then_some(r)
    }

    /// Whether one character is matched, for the single-character expressions.
    pub fn atom(&self, c: char) -> Option<bool> {
        Some(match self {
            Rx::Ch(d, _) => c == *d,
            Rx::Class { neg, items } => items.iter().any(|(a, b)| *a <= c && c <= *b) != *neg,
            Rx::Dot => c != '\n',
            Rx::Perl('d') => is_d(c),
            Rx::Perl('w') => is_w(c),
            Rx::Perl('s') => is_s(c),
            Rx::Perl('D') => !is_d(c),
            Rx::Perl('W') => !is_w(c),
            Rx::Perl('S') => !is_s(c),
            Rx::Posix(n) => posix(n, c),
            Rx::Op(op, a, b) => {
                let (a, b) = (a.atom(c)?, b.atom(c)?);
                match op {
                    '|' => a || b,
                    '&' => a && b,
                    '-' => a && !b,
                    _ => a != b,
                }
            }
            _ => return None,
        })
    }

    /// Where a match starting at `from` can end: the set-based matcher.
    pub fn ends(&self, t: &[char], from: &BTreeSet<usize>) -> BTreeSet<usize> {
        match self {
            Rx::Empty => from.clone(),
            Rx::Cat(v) => {
                let mut s = from.clone();
                for e in v {
                    s = e.ends(t, &s)
                }
                s
            }
            Rx::Alt(v) => v.iter().flat_map(|e| e.ends(t, from)).collect(),
            Rx::Group(_, e) => e.ends(t, from),
            Rx::Rep { min, max, inner } => {
                let mut s = from.clone();
                for _ in 0..*min {
                    s = inner.ends(t, &s);
                }
                let mut all = s.clone();
                let mut k = *min;
                while max.map_or(true, |m| k < m) {
                    s = inner.ends(t, &s);
                    let before = all.len();
                    all.extend(s.iter());
                    k += 1;
                    if s.is_empty() || (max.is_none() && all.len() == before) {
                        break;
                    }
                }
                all
            }
            atom => from
                .iter()
                .filter(|i| **i < t.len() && atom.atom(t[**i]) == Some(true))
                .map(|i| i + 1)
                .collect(),
        }
    }

    pub fn matches(&self, t: &[char]) -> bool {
        self.ends(t, &[0].into()).contains(&t.len())
    }

    /// Length of the shortest match: the documented implicit weight.
    pub fn min_len(&self) -> usize {
        match self {
            Rx::Empty => 0,
            Rx::Cat(v) => v.iter().map(|e| e.min_len()).sum(),
            Rx::Alt(v) => v.iter().map(|e| e.min_len()).min().unwrap_or(0),
            Rx::Group(_, e) => e.min_len(),
            Rx::Rep { min, inner, .. } => *min as usize * inner.min_len(),
            _ => 1,
        }
    }

    pub fn visit(&self, f: &mut dyn FnMut(&Rx)) {
        f(self);
        match self {
            Rx::Cat(v) | Rx::Alt(v) => v.iter().for_each(|e| e.visit(f)),
            Rx::Group(_, e) => e.visit(f),
            Rx::Rep { inner, .. } => inner.visit(f),
            Rx::Op(_, a, b) => {
                a.visit(f);
                b.visit(f)
            }
            _ => {}
        }
    }

    pub fn size(&self) -> usize {
        let mut n = 0;
        self.visit(&mut |_| n += 1);
        n
    }

    pub fn has_perl(&self) -> bool {
        let mut n = false;
        self.visit(&mut |r| n |= matches!(r, Rx::Perl(_)));
        n
    }

    /// The number of states its automaton needs, roughly.
    pub fn weight(&self) -> usize {
        match self {
            Rx::Cat(v) | Rx::Alt(v) => v.iter().map(|e| e.weight()).sum(),
            Rx::Group(_, e) => e.weight(),
            Rx::Rep { min, max, inner } => {
                inner.weight() * (max.unwrap_or(*min + 1).max(1) as usize)
            }
            _ => 1,
        }
    }

    /// Characters at which membership in some part changes.
    pub fn bounds(&self, out: &mut BTreeSet<char>) {
        self.visit(&mut |r| match r {
            Rx::Ch(c, _) => {
                out.insert(*c);
            }
            Rx::Class { items, .. } => {
                for (a, b) in items {
                    out.insert(*a);
                    out.insert(*b);
                }
            }
            Rx::Dot => {
                out.insert('\n');
            }
            Rx::Posix(n) => {
                for i in 1..128u8 {
                    if posix(n, i as char) != posix(n, (i - 1) as char) || (i < 127 && posix(n, i as char) != posix(n, (i + 1) as char)) || i == 127 {
                        out.insert(i as char);
                    }
                }
            }
            _ => {}
        });
    }

    pub fn smaller(&self) -> Vec<Rx> {
        let mut out = Vec::new();
        match self {
            Rx::Ch(c, s) => {
                if *s != 0 {
                    out.push(Rx::Ch(*c, 0));
                }
                if *c != 'a' {
                    out.push(Rx::Ch('a', 0));
                }
            }
            Rx::Class { neg, items } => {
                if items.len() > 1 {
                    for i in 0..items.len() {
                        let mut w = items.clone();
                        w.remove(i);
                        out.push(Rx::Class { neg: *neg, items: w });
                    }
                }
                if !*neg {
                    out.push(Rx::Ch(items[0].0, 0));
                }
            }
            Rx::Dot | Rx::Perl(_) => out.push(Rx::Ch('a', 0)),
            Rx::Posix(_) => {}
            Rx::Op(_, a, b) => {
                for e in [a, b] {
                    if !matches!(**e, Rx::Posix(_)) {
                        out.push((**e).clone());
                    }
                }
            }
            Rx::Empty => {}
            Rx::Cat(v) | Rx::Alt(v) => {
                let mk = |w: Vec<Rx>| match self {
                    Rx::Cat(_) => Rx::Cat(w),
                    _ => Rx::Alt(w),
                };
                for e in v {
                    out.push(e.clone());
                }
                if v.len() > 2 {
                    for i in 0..v.len() {
                        let mut w = v.clone();
                        w.remove(i);
                        out.push(mk(w));
                    }
                }
                for i in 0..v.len() {
                    for s in v[i].smaller() {
                        let mut w = v.clone();
                        w[i] = s;
                        out.push(mk(w));
                    }
                }
            }
            Rx::Group(c, e) => {
                out.push((**e).clone());
                for s in e.smaller() {
                    out.push(Rx::Group(*c, Box::new(s)));
                }
            }
            Rx::Rep { min, max, inner } => {
                out.push((**inner).clone());
                let mk = |min: u32, max: Option<u32>, i: Rx| Rx::Rep {
                    min,
                    max,
                    inner: Box::new(i),
                };
                if *min > 0 {
                    out.push(mk(min - 1, max.map(|m| (m - 1).max(1)), (**inner).clone()));
                    out.push(mk(min - 1, *max, (**inner).clone()));
                }
                if let Some(m) = max {
                    if *m > (*min).max(1) {
                        out.push(mk(*min, Some(m - 1), (**inner).clone()));
                    }
                }
                for s in inner.smaller() {
                    out.push(mk(*min, *max, s));
                }
            }
        }
        out
    }
}

struct P {
    c: Vec<char>,
    i: usize,
}

impl P {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn alt(&mut self) -> Option<Rx> {
        let mut v = vec![self.cat()?];
        while self.peek() == Some('|') {
            self.i += 1;
            v.push(self.cat()?);
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { Rx::Alt(v) })
    }
    fn cat(&mut self) -> Option<Rx> {
        let mut v = Vec::new();
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            v.push(self.rep()?);
        }
        Some(match v.len() {
            0 => Rx::Empty,
            1 => v.pop().unwrap(),
            _ => Rx::Cat(v),
        })
    }
    fn rep(&mut self) -> Option<Rx> {
        let mut e = self.atom()?;
        loop {
            let (min, max) = match self.peek() {
                Some('*') => (0, None),
                Some('+') => (1, None),
                Some('?') => (0, Some(1)),
                Some('{') => {
                    let mut j = self.i + 1;
                    let mut t = String::new();
                    while *self.c.get(j)? != '}' {
                        t.push(self.c[j]);
                        j += 1;
                    }
                    let r = match t.split_once(',') {
                        None => (t.parse().ok()?, Some(t.parse().ok()?)),
                        Some((a, "")) => (a.parse().ok()?, None),
                        Some((a, b)) => (a.parse().ok()?, Some(b.parse().ok()?)),
                    };
                    self.i = j;
                    r
                }
                _ => return Some(e),
            };
            self.i += 1;
            if self.peek() == Some('?') {
                return None; // lazy
            }
            e = match e {
                // our own brackets around sequences, choices and repetitions are not groups of the user
                Rx::Group(false, i) if matches!(*i, Rx::Cat(_) | Rx::Alt(_) | Rx::Rep { .. } | Rx::Empty) => Rx::Rep {
                    min,
                    max,
                    inner: i,
                },
                e => Rx::Rep {
                    min,
                    max,
                    inner: Box::new(e),
                },
            };
        }
    }
    fn hexes(&mut self) -> Option<char> {
        if self.peek()? == '{' {
            let mut t = String::new();
            self.i += 1;
            while self.peek()? != '}' {
                t.push(self.peek()?);
                self.i += 1;
            }
            self.i += 1;
            char::from_u32(u32::from_str_radix(&t, 16).ok()?)
        } else {
            let t: String = self.c.get(self.i..self.i + 2)?.iter().collect();
            self.i += 2;
            char::from_u32(u32::from_str_radix(&t, 16).ok()?)
        }
    }
    fn escape(&mut self) -> Option<Rx> {
        let c = self.peek()?;
        self.i += 1;
        Some(match c {
            'n' => Rx::Ch('\n', 0),
            't' => Rx::Ch('\t', 0),
            'r' => Rx::Ch('\r', 0),
            'd' | 'w' | 's' | 'D' | 'W' | 'S' => Rx::Perl(c),
            'x' => {
                let brace = self.peek() == Some('{');
                let c = self.hexes()?;
                Rx::Ch(c, if brace { 1 } else { 0 })
            }
            'u' => Rx::Ch(self.hexes()?, 2),
            c if c.is_ascii_punctuation() && c != '<' && c != '>' => Rx::Ch(c, 0),
            _ => return None,
        })
    }
    fn operand(&mut self) -> Option<Rx> {
        if self.c[self.i..].starts_with(&['[', ':']) {
            let n: String = self.c[self.i + 2..].iter().take_while(|c| c.is_ascii_lowercase()).collect();
            self.i += 2 + n.len();
            if !POSIX.contains(&n.as_str()) || !self.c[self.i..].starts_with(&[':', ']']) {
                return None;
            }
            self.i += 2;
            return Some(Rx::Posix(n));
        }
        match self.atom()? {
            e @ (Rx::Perl(_) | Rx::Class { .. } | Rx::Op(..)) => Some(e),
            _ => None,
        }
    }
    fn atom(&mut self) -> Option<Rx> {
        let c = self.peek()?;
        self.i += 1;
        Some(match c {
            '.' => Rx::Dot,
            '\\' => self.escape()?,
            '(' => {
                let cap = if self.c[self.i..].starts_with(&['?', ':']) {
                    self.i += 2;
                    false
                } else if self.peek() == Some('?') {
                    return None;
                } else {
                    true
                };
                let e = self.alt()?;
                if self.peek() != Some(')') {
                    return None;
                }
                self.i += 1;
                let nested = self.i < self.c.len() || true;
                // brackets this module adds around parts of a sequence carry no node of their own
                match (cap, &e) {
                    (false, Rx::Cat(_) | Rx::Alt(_) | Rx::Rep { .. } | Rx::Empty) if nested => e,
                    _ => Rx::Group(cap, Box::new(e)),
                }
            }
            '[' if self.peek() == Some('[') || (self.peek() == Some('\\') && self.c.get(self.i + 1).map_or(false, |c| "dwsDWS".contains(*c))) => {
                let a = self.operand()?;
                let op = match self.peek()? {
                    c @ ('&' | '-' | '~') if self.c.get(self.i + 1) == Some(&c) => {
                        self.i += 2;
                        c
                    }
                    _ => '|',
                };
                let b = self.operand()?;
                if self.peek()? != ']' {
                    return None;
                }
                self.i += 1;
                Rx::Op(op, Box::new(a), Box::new(b))
            }
            '[' => {
                let neg = self.peek()? == '^';
                if neg {
                    self.i += 1;
                }
                let mut items = Vec::new();
                loop {
                    let a = match self.peek()? {
                        ']' => {
                            self.i += 1;
                            break;
                        }
                        '[' => return None,
                        '\\' => {
                            self.i += 1;
                            match self.escape()? {
                                Rx::Ch(c, _) => c,
                                _ => return None,
                            }
                        }
                        c => {
                            self.i += 1;
                            c
                        }
                    };
                    let mut b = a;
                    if self.peek()? == '-' {
                        self.i += 1;
                        b = match self.peek()? {
                            ']' => {
                                items.push((a, a));
                                items.push(('-', '-'));
                                self.i += 1;
                                break;
                            }
                            '\\' => {
                                self.i += 1;
                                match self.escape()? {
                                    Rx::Ch(c, _) => c,
                                    _ => return None,
                                }
                            }
                            c => {
                                self.i += 1;
                                c
                            }
                        };
                        if b < a {
                            return None;
                        }
                    }
                    items.push((a, b));
                }
                if items.is_empty() {
                    return None;
                }
                Rx::Class { neg, items }
            }
            '*' | '+' | '?' | '{' | '}' | '^' | '$' | ')' | '|' | ']' => return None,
            c => Rx::Ch(c, 0),
        })
    }
}

// ---------------------------------------------------------------------------------------------
// Automata over several token patterns

pub enum Edge {
    Eps(usize),
    On(Rx, usize),
}

/// A Thompson automaton for a list of patterns, only with states from which acceptance is possible.
pub struct Nfa {
    edges: Vec<Vec<Edge>>,
    accept: BTreeMap<usize, usize>,
    start: usize,
    live: Vec<bool>,
}

impl Nfa {
    pub fn new(pats: &[Rx]) -> Nfa {
        let mut n = Nfa {
            edges: vec![Vec::new()],
            accept: BTreeMap::new(),
            start: 0,
            live: vec![],
        };
        for (i, p) in pats.iter().enumerate() {
            let s = n.add();
            n.edges[0].push(Edge::Eps(s));
            let e = n.build(p, s);
            n.accept.insert(e, i);
        }
        // co-accessible states; an atom is assumed to match something
        let mut live: Vec<bool> = (0..n.edges.len()).map(|s| n.accept.contains_key(&s)).collect();
        loop {
            let mut ch = false;
            for s in 0..n.edges.len() {
                if !live[s]
                    && n.edges[s].iter().any(|e| match e {
                        Edge::Eps(t) => live[*t],
                        Edge::On(_, t) => live[*t],
                    })
                {
                    live[s] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        n.live = live;
        n
    }

    fn add(&mut self) -> usize {
        self.edges.push(Vec::new());
        self.edges.len() - 1
    }

    fn build(&mut self, p: &Rx, s: usize) -> usize {
        match p {
            Rx::Empty => s,
            Rx::Group(_, e) => self.build(e, s),
            Rx::Cat(v) => v.iter().fold(s, |s, e| self.build(e, s)),
            Rx::Alt(v) => {
                let out = self.add();
                for e in v {
                    let b = self.add();
                    self.edges[s].push(Edge::Eps(b));
                    let x = self.build(e, b);
                    self.edges[x].push(Edge::Eps(out));
                }
                out
            }
            Rx::Rep { min, max, inner } => {
                let mut cur = s;
                for _ in 0..*min {
                    cur = self.build(inner, cur);
                }
                match max {
                    None => {
                        let hub = self.add();
                        self.edges[cur].push(Edge::Eps(hub));
                        let b = self.add();
                        self.edges[hub].push(Edge::Eps(b));
                        let x = self.build(inner, b);
                        self.edges[x].push(Edge::Eps(hub));
                        let out = self.add();
                        self.edges[hub].push(Edge::Eps(out));
                        out
                    }
                    Some(m) => {
                        let out = self.add();
                        self.edges[cur].push(Edge::Eps(out));
                        for _ in *min..*m {
                            let b = self.add();
                            self.edges[cur].push(Edge::Eps(b));
                            cur = self.build(inner, b);
                            self.edges[cur].push(Edge::Eps(out));
                        }
                        out
                    }
                }
            }
            atom => {
                let t = self.add();
                self.edges[s].push(Edge::On(atom.clone(), t));
                t
            }
        }
    }

    pub fn close(&self, set: BTreeSet<usize>) -> BTreeSet<usize> {
        let mut todo: Vec<usize> = set.iter().copied().collect();
        let mut out = set;
        while let Some(s) = todo.pop() {
            for e in &self.edges[s] {
                if let Edge::Eps(t) = e {
                    if self.live[*t] && out.insert(*t) {
                        todo.push(*t);
                    }
                }
            }
        }
        out
    }

    pub fn begin(&self) -> BTreeSet<usize> {
        self.close([self.start].into())
    }

    pub fn step(&self, set: &BTreeSet<usize>, c: char) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        for s in set {
            for e in &self.edges[*s] {
                if let Edge::On(a, t) = e {
                    if self.live[*t] && a.atom(c) == Some(true) {
                        out.insert(*t);
                    }
                }
            }
        }
        self.close(out)
    }

    /// Pattern numbers accepting in this state set.
    pub fn accepted(&self, set: &BTreeSet<usize>) -> Vec<usize> {
        let mut v: Vec<usize> = set.iter().filter_map(|s| self.accept.get(s).copied()).collect();
        v.sort();
        v.dedup();
        v
    }

    /// All reachable state sets over the given characters, each with a shortest text leading there.
    /// None when there are more than `limit`.
    pub fn subsets(
        &self,
        alphabet: &[char],
        limit: usize,
    ) -> Option<Vec<(BTreeSet<usize>, String)>> {
        let mut seen: HashMap<BTreeSet<usize>, ()> = HashMap::new();
        let mut out = Vec::new();
        let mut todo = VecDeque::new();
        let b = self.begin();
        seen.insert(b.clone(), ());
        todo.push_back((b, String::new()));
        while let Some((s, w)) = todo.pop_front() {
            for c in alphabet {
                let t = self.step(&s, *c);
                if !t.is_empty() && !seen.contains_key(&t) {
                    if seen.len() > limit {
                        return None;
                    }
                    seen.insert(t.clone(), ());
                    let mut v = w.clone();
                    v.push(*c);
                    todo.push_back((t, v));
                }
            }
            out.push((s, w));
        }
        Some(out)
    }
}

/// Negations and set operations next to the surrogate gap on both sides go wrong in regex-syntax
/// (a known finding); kept out of everything generated so that nothing else hides behind it.
pub fn gap_edge(r: &Rx) -> bool {
    let mut found = false;
    r.visit(&mut |e| {
        if matches!(e, Rx::Class { neg: true, .. } | Rx::Op(..)) {
            let mut b = BTreeSet::new();
            e.bounds(&mut b);
            found |= b.contains(&'\u{d7ff}') && b.contains(&'\u{e000}');
        }
    });
    found
}

/// Whether a single-character expression matches anything; those with \d \w \s always do.
pub fn possible(r: &Rx) -> bool {
    r.has_perl() || representatives(std::slice::from_ref(r)).iter().any(|c| r.atom(*c) == Some(true))
}

/// One representative for every class of characters the patterns cannot tell apart (no \d \w \s inside).
pub fn representatives(pats: &[Rx]) -> Vec<char> {
    let mut b = BTreeSet::new();
    for p in pats {
        p.bounds(&mut b);
    }
    // NUL stands for the end of the input in generated lexers and is no character of a text
    let mut starts: BTreeSet<u32> = [1u32].into();
    for c in &b {
        starts.insert(*c as u32);
        starts.insert(*c as u32 + 1);
    }
    let v: Vec<u32> = starts.into_iter().filter(|x| *x > 0 && *x <= 0x10ffff).collect();
    let mut out = Vec::new();
    for (i, s) in v.iter().enumerate() {
        let end = v.get(i + 1).copied().unwrap_or(0x110000);
        let s = if (0xd800..0xe000).contains(s) { 0xe000 } else { *s };
        if s < end {
            out.push(char::from_u32(s).unwrap());
        }
    }
    out
}

/// Longest-match decision at the start of a text.
#[derive(Debug, Clone, PartialEq)]
pub struct Munch {
    /// longest non-empty match: its length in characters and the matching tokens
    pub best: Option<(usize, Vec<usize>)>,
    /// how many characters can be read before no token is possible any more
    pub read: usize,
    /// a token was still possible at the end of the text
    pub open_end: bool,
}

pub fn munch(nfa: &Nfa, t: &[char]) -> Munch {
    let mut s = nfa.begin();
    let mut best = None;
    let mut i = 0;
    loop {
        if i == t.len() {
            return Munch {
                best,
                read: i,
                open_end: true,
            };
        }
        let n = nfa.step(&s, t[i]);
        if n.is_empty() {
            return Munch {
                best,
                read: i,
                open_end: false,
            };
        }
        i += 1;
        let a = nfa.accepted(&n);
        if !a.is_empty() {
            best = Some((i, a));
        }
        s = n;
    }
}

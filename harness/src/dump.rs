//! Reads a dumped parser table and runs it, knowing nothing but the text of the dump.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Cell {
    Error,
    Shift(usize),
    Reduce(usize),
    Accept,
    Conflict,
}

#[derive(Clone, Debug)]
pub struct Dump {
    /// column of the left-hand side, symbols of the right-hand side as written
    pub rules: HashMap<usize, (String, usize)>,
    pub columns: HashMap<String, usize>,
    /// name without its number, to column; generated helpers have none
    pub named: HashMap<String, usize>,
    pub end: usize,
    pub rows: Vec<Vec<Cell>>,
}

pub fn read(text: &str) -> Result<Dump, String> {
    let mut lines = text.lines();
    if lines.next().map(|l| l.trim()) != Some("Rules:") {
        return Err("no list of rules".into());
    }
    let mut rules = HashMap::new();
    for l in lines.by_ref() {
        if l.trim().is_empty() {
            break;
        }
        let (i, r) = l.split_once(':').ok_or_else(|| format!("rule {:?}", l))?;
        let i: usize = i.trim().parse().map_err(|_| format!("rule number {:?}", i))?;
        let (lhs, rhs) = r.split_once("->").ok_or_else(|| format!("rule {:?}", r))?;
        let n = rhs.split_whitespace().filter(|s| *s != "<eps>").count();
        if rules.insert(i, (lhs.trim().to_string(), n)).is_some() {
            return Err(format!("rule {} twice", i));
        }
    }
    let cells = |l: &str| -> Vec<String> {
        let mut v: Vec<String> = l.split('|').map(|s| s.trim().to_string()).collect();
        if v.last().map_or(false, |s| s.is_empty()) {
            v.pop();
        }
        v
    };
    let head = cells(lines.next().ok_or("no header")?);
    let mut columns = HashMap::new();
    let mut named = HashMap::new();
    for (i, c) in head.iter().enumerate().skip(1) {
        if columns.insert(c.clone(), i - 1).is_some() {
            return Err(format!("column {:?} twice", c));
        }
        if !c.starts_with('<') {
            let n = c.split('(').next().unwrap().to_string();
            if named.insert(n.clone(), i - 1).is_some() {
                return Err(format!("columns for {:?} twice", n));
            }
        }
    }
    let end = *columns.get("<end>").ok_or("no column for the end")?;
    let mut rows = Vec::new();
    for l in lines {
        if l.trim().is_empty() {
            continue;
        }
        // the last cell may be blank, so cells are not counted from the end
        let v: Vec<String> = l.split('|').map(|s| s.trim().to_string()).collect();
        if v.len() < head.len() {
            return Err(format!("row {:?} is too short", l));
        }
        if v[0].parse::<usize>() != Ok(rows.len()) {
            return Err(format!("row {:?} is not of state {}", l, rows.len()));
        }
        if v[head.len()..].iter().any(|s| !s.is_empty()) {
            return Err(format!("row {:?} is too long", l));
        }
        let num = |s: &str| s.parse::<usize>().map_err(|_| format!("cell {:?}", s));
        let row: Result<Vec<Cell>, String> = v[1..head.len()]
            .iter()
            .map(|c| {
                Ok(match c.as_str() {
                    "" | "e" => Cell::Error,
                    "a" => Cell::Accept,
                    "c" => Cell::Conflict,
                    s if s.starts_with('s') => Cell::Shift(num(&s[1..])?),
                    s if s.starts_with('r') => Cell::Reduce(num(&s[1..])?),
                    s => return Err(format!("cell {:?}", s)),
                })
            })
            .collect();
        rows.push(row?);
    }
    Ok(Dump { rules, columns, named, end, rows })
}

impl Dump {
    pub fn conflicts(&self) -> usize {
        self.rows.iter().flatten().filter(|c| **c == Cell::Conflict).count()
    }

    /// Runs the matrix on token names.
    pub fn accepts(&self, w: &[&str]) -> Result<bool, String> {
        let mut input: Vec<usize> = Vec::new();
        for t in w {
            input.push(*self.named.get(*t).ok_or_else(|| format!("no column for token {:?}", t))?);
        }
        input.push(self.end);
        let cell = |s: usize, c: usize| -> Result<&Cell, String> { self.rows.get(s).map(|r| &r[c]).ok_or_else(|| format!("no state {}", s)) };
        let mut stack = vec![0usize];
        let mut i = 0;
        for _ in 0..(200 + 200 * w.len()) * (self.rows.len() + 1) {
            match cell(*stack.last().unwrap(), input[i])? {
                Cell::Error => return Ok(false),
                Cell::Conflict => return Err("a conflict cell".into()),
                Cell::Accept => {
                    return if i + 1 == input.len() { Ok(true) } else { Err("accepted before the end".into()) };
                }
                Cell::Shift(t) => {
                    if i + 1 == input.len() {
                        return Err("the end is shifted".into());
                    }
                    stack.push(*t);
                    i += 1;
                }
                Cell::Reduce(r) => {
                    let (lhs, n) = self.rules.get(r).ok_or_else(|| format!("no rule {}", r))?;
                    if *n >= stack.len() {
                        return Err(format!("rule {} reduced with too few states", r));
                    }
                    stack.truncate(stack.len() - n);
                    let col = *self.columns.get(lhs).ok_or_else(|| format!("no column for {}", lhs))?;
                    match cell(*stack.last().unwrap(), col)? {
                        Cell::Shift(t) => stack.push(*t),
                        c => return Err(format!("no state to go to after rule {}: {:?}", r, c)),
                    }
                }
            }
        }
        Err("the table never comes to an end".into())
    }
}

//! Cases, replay files, parallel search, shrinking, evidence.
use crate::ast::{read_gram, Gram};
use crate::util::*;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Case {
    /// a fixed regression case rather than a generated one
    pub pin: Option<String>,
    pub gram: Option<Gram>,
    pub text: Option<String>,
    pub alg: String,
    pub toks: Vec<Vec<u16>>,
    pub texts: Vec<Vec<u8>>,
    pub opts: BTreeMap<String, String>,
}

impl Case {
    pub fn opt(&self, k: &str) -> &str {
        self.opts.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    pub fn num(&self, k: &str) -> u64 {
        self.opt(k).parse().unwrap_or(0)
    }
    pub fn set(mut self, k: &str, v: impl ToString) -> Case {
        self.opts.insert(k.into(), v.to_string());
        self
    }
    pub fn of(g: Gram) -> Case {
        Case {
            gram: Some(g),
            ..Default::default()
        }
    }
    pub fn g(&self) -> &Gram {
        self.gram.as_ref().expect("case without grammar")
    }

    pub fn write(&self) -> String {
        let mut o = String::new();
        if let Some(p) = &self.pin {
            o.push_str(&format!("pin={}\n", esc(p)));
        }
        if !self.alg.is_empty() {
            o.push_str(&format!("alg={}\n", esc(&self.alg)));
        }
        for (k, v) in &self.opts {
            o.push_str(&format!("opt.{}={}\n", k, esc(v)));
        }
        if let Some(g) = &self.gram {
            // the names of non-terminals in order, which the text alone does not fix
            for l in g.text().lines() {
                o.push_str(&format!("gram={}\n", l));
            }
        }
        if let Some(t) = &self.text {
            o.push_str(&format!("text={}\n", esc(t)));
        }
        for t in &self.toks {
            let v: Vec<String> = t.iter().map(|x| x.to_string()).collect();
            o.push_str(&format!("toks={}\n", v.join(" ")));
        }
        for t in &self.texts {
            match std::str::from_utf8(t) {
                Ok(s) if !s.contains('\0') => o.push_str(&format!("input={}\n", esc(s))),
                _ => o.push_str(&format!("bytes={}\n", hex(t))),
            }
        }
        o
    }

    pub fn read(s: &str) -> Result<Case, String> {
        let mut c = Case::default();
        let mut gram = String::new();
        for l in s.lines() {
            let (k, v) = match l.split_once('=') {
                Some(x) => x,
                None if l.trim().is_empty() => continue,
                None => return Err(format!("bad line {:?}", l)),
            };
            match k {
                "pin" => c.pin = Some(unesc(v)),
                "alg" => c.alg = unesc(v),
                "gram" => {
                    gram.push_str(v);
                    gram.push('\n');
                }
                "text" => c.text = Some(unesc(v)),
                "toks" => c.toks.push(v.split_whitespace().filter_map(|x| x.parse().ok()).collect()),
                "input" => c.texts.push(unesc(v).into_bytes()),
                "bytes" => c.texts.push(unhex(v)),
                k if k.starts_with("opt.") => {
                    c.opts.insert(k[4..].into(), unesc(v));
                }
                _ => {}
            }
        }
        if !gram.is_empty() {
            c.gram = Some(read_gram(&gram)?);
        }
        Ok(c)
    }

    fn key(&self) -> u64 {
        hash_bytes(self.write().as_bytes())
    }

    /// Structural shrinking shared by all properties.
    pub fn smaller(&self) -> Vec<Case> {
        let mut out = Vec::new();
        let n = self.toks.len();
        if n > 1 {
            for t in &self.toks {
                let mut c = self.clone();
                c.toks = vec![t.clone()];
                out.push(c);
            }
        }
        let m = self.texts.len();
        if m > 1 {
            for t in &self.texts {
                let mut c = self.clone();
                c.texts = vec![t.clone()];
                out.push(c);
            }
        }
        if n > 1 || m > 1 {
            // halves, for failures that need several inputs together
            let mut c = self.clone();
            c.toks.truncate((n + 1) / 2);
            c.texts.truncate((m + 1) / 2);
            out.push(c);
            let mut c = self.clone();
            c.toks.drain(..n / 2);
            c.texts.drain(..m / 2);
            out.push(c);
        }
        for (k, v) in &self.opts {
            if k == "layout" && v != "0" {
                out.push(self.clone().set("layout", 0));
            }
        }
        if n == 1 {
            let t = &self.toks[0];
            for (a, b) in cuts(t.len()) {
                let mut c = self.clone();
                c.toks[0].drain(a..b);
                out.push(c);
            }
        }
        if m == 1 {
            let t = &self.texts[0];
            match std::str::from_utf8(t) {
                Ok(s) => {
                    let cs: Vec<char> = s.chars().collect();
                    for (a, b) in cuts(cs.len()) {
                        let mut d = cs.clone();
                        d.drain(a..b);
                        let mut c = self.clone();
                        c.texts[0] = d.into_iter().collect::<String>().into_bytes();
                        out.push(c);
                    }
                }
                Err(_) => {
                    for (a, b) in cuts(t.len()) {
                        let mut c = self.clone();
                        c.texts[0].drain(a..b);
                        out.push(c);
                    }
                }
            }
        }
        if let Some(t) = &self.text {
            let cs: Vec<char> = t.chars().collect();
            for (a, b) in cuts(cs.len()) {
                let mut d = cs.clone();
                d.drain(a..b);
                let mut c = self.clone();
                c.text = Some(d.into_iter().collect());
                out.push(c);
            }
        }
        if let Some(g) = &self.gram {
            let mut used = vec![false; g.toks.len()];
            for w in &self.toks {
                for t in w {
                    if (*t as usize) < used.len() {
                        used[*t as usize] = true;
                    }
                }
            }
            for s in g.smaller(&used) {
                let mut c = self.clone();
                c.gram = Some(s);
                out.push(c);
            }
        }
        out
    }
}

/// Ranges to delete from a sequence: big ones first.
fn cuts(n: usize) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut k = n;
    while k > 0 {
        let mut i = 0;
        while i + k <= n && v.len() < 400 {
            v.push((i, i + k));
            i += k;
        }
        k /= 2;
    }
    v
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// what kind of failure; shrinking keeps it
    pub sig: String,
    pub msg: String,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub fail: Option<Fail>,
    /// hashes of the non-trivial parts of this case
    pub nontrivial: Vec<u64>,
    pub evals: u64,
    pub labels: Vec<String>,
    pub sample: Option<String>,
}

impl Outcome {
    pub fn fail(&mut self, sig: &str, msg: String) {
        if self.fail.is_none() {
            self.fail = Some(Fail {
                sig: sig.into(),
                msg,
            });
        }
    }
    pub fn label(&mut self, l: impl ToString) {
        self.labels.push(l.to_string());
    }
    pub fn skip(l: &str) -> Outcome {
        let mut o = Outcome::default();
        o.labels.push(format!("out of domain: {}", l));
        o
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Plan {
    pub cases: usize,
    /// cases handed to one call of `run`
    pub chunk: usize,
    /// fewer non-trivial cases than this make the run worthless (an error of the check)
    pub min_nontrivial: usize,
    /// candidates tried per shrinking round
    pub shrink_width: usize,
    pub shrink_rounds: usize,
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    /// how cases are made and what makes one non-trivial
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    fn pins(&self) -> Vec<Case>;
    fn plan(&self, tier: Tier) -> Plan;
    fn gen(&self, rng: &mut Rng, idx: usize, tier: Tier) -> Case;
    fn run(&self, cases: &[Case]) -> Vec<Outcome>;
    fn smaller(&self, c: &Case) -> Vec<Case> {
        c.smaller()
    }
}

fn id_num(id: &str) -> u64 {
    hash_bytes(id.as_bytes())
}

/// Runs one slice of cases; a panic in the code under test or the harness is caught by case.
fn run_guarded(p: &dyn Prop, cases: &[Case]) -> Vec<Outcome> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.run(cases)));
    match r {
        Ok(v) => {
            assert_eq!(v.len(), cases.len(), "check returned a wrong number of outcomes");
            v
        }
        Err(e) if panic_text(&*e).starts_with("INFRA") => {
            println!("check error: {}", panic_text(&*e));
            cleanup_scratch();
            std::process::exit(2);
        }
        Err(_) if cases.len() > 1 => cases
            .iter()
            .flat_map(|c| run_guarded(p, std::slice::from_ref(c)))
            .collect(),
        Err(e) => {
            let m = panic_text(&*e);
            let mut o = Outcome::default();
            o.fail("panic", format!("panicked: {}", m));
            vec![o]
        }
    }
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".into()
    }
}

/// Runs chunks on all cores. Results come back in case order.
fn run_parallel(p: &dyn Prop, cases: &[Case], chunk: usize, stop_on_fail: bool) -> Vec<Option<Outcome>> {
    let n = cases.len();
    let chunks: Vec<(usize, usize)> = (0..n)
        .step_by(chunk.max(1))
        .map(|a| (a, (a + chunk.max(1)).min(n)))
        .collect();
    let next = AtomicUsize::new(0);
    let failed = AtomicUsize::new(usize::MAX);
    let out: Mutex<Vec<Option<Outcome>>> = Mutex::new(vec![None; n]);
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for _ in 0..threads.min(chunks.len()) {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= chunks.len() || (stop_on_fail && i > failed.load(Ordering::SeqCst)) {
                        return;
                    }
                    let (a, b) = chunks[i];
                    let r = run_guarded(p, &cases[a..b]);
                    if r.iter().any(|o| o.fail.is_some()) {
                        failed.fetch_min(i, Ordering::SeqCst);
                    }
                    let mut o = out.lock().unwrap();
                    for (k, x) in r.into_iter().enumerate() {
                        o[a + k] = Some(x);
                    }
                })
                .unwrap();
        }
    });
    out.into_inner().unwrap()
}

pub fn generate(p: &dyn Prop, seed: u64, tier: Tier, a: usize, b: usize) -> Vec<Case> {
    let next = AtomicUsize::new(a);
    let out: Mutex<Vec<(usize, Case)>> = Mutex::new(Vec::new());
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= b {
                        return;
                    }
                    let mut rng = Rng::new(&[seed, id_num(p.id()), i as u64]);
                    let c = p.gen(&mut rng, i, tier);
                    out.lock().unwrap().push((i, c));
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

pub struct Known {
    pub case: String,
    pub sig: String,
    pub what: String,
}

/// `known: property=C01 case=known/x.case sig=.. what fails`
pub fn known_findings(root: &Path, id: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("known: property=")?;
            let (pid, r) = r.split_once(' ')?;
            let r = r.strip_prefix("case=")?;
            let (case, r) = r.split_once(' ')?;
            let r = r.strip_prefix("sig=")?;
            let (sig, what) = r.split_once(' ')?;
            (pid == id).then(|| Known {
                case: case.into(),
                sig: sig.into(),
                what: what.into(),
            })
        })
        .collect()
}

pub struct Report {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub cases: usize,
}

impl Report {
    fn add(&mut self, o: &Outcome) {
        self.cases += 1;
        self.evals += o.evals;
        self.nontrivial.extend(o.nontrivial.iter());
        for l in &o.labels {
            *self.labels.entry(l.clone()).or_insert(0) += 1;
        }
        if let Some(s) = &o.sample {
            if self.samples.len() < 6 && !self.samples.contains(s) {
                self.samples.push(s.clone());
            }
        }
    }
}

type Best = std::sync::Arc<Mutex<(Case, Fail)>>;

/// `out` always holds the smallest failure so far, for a watchdog to report.
fn shrink(p: &dyn Prop, out: &Best, plan: &Plan, limit_s: u64) -> usize {
    let start = Instant::now();
    let mut best = out.lock().unwrap().clone();
    let mut seen: HashSet<u64> = HashSet::new();
    seen.insert(best.0.key());
    let mut tried = 0;
    let mut width = 8;
    for _ in 0..plan.shrink_rounds {
        let cands: Vec<Case> = p
            .smaller(&best.0)
            .into_iter()
            .map(|mut c| {
                c.pin = None;
                c
            })
            .filter(|c| seen.insert(c.key()))
            .collect();
        if cands.is_empty() {
            break;
        }
        let mut found = None;
        let mut at = 0;
        while at < cands.len() {
            if start.elapsed().as_secs() > limit_s {
                break;
            }
            let block = &cands[at..(at + width).min(cands.len())];
            at += block.len();
            let began = Instant::now();
            let chunk = (block.len() / 8).max(1).min(plan.chunk);
            let r = run_parallel(p, block, chunk, false);
            tried += block.len();
            // large cases go a few at a time, so that the limit holds
            width = if began.elapsed().as_secs() < 4 { (2 * width).min(plan.shrink_width.max(8)) } else { (width / 2).max(8) };
            found = r.into_iter().enumerate().find_map(|(i, o)| match o {
                Some(Outcome { fail: Some(f), .. }) if f.sig == best.1.sig => Some((block[i].clone(), f)),
                _ => None,
            });
            if found.is_some() {
                break;
            }
        }
        match found {
            Some(b) => {
                best = b;
                *out.lock().unwrap() = best.clone();
            }
            None => break,
        }
        if start.elapsed().as_secs() > limit_s {
            break;
        }
    }
    tried
}

/// A check has 900 s. If shrinking runs into that, what has been found is reported as it is.
fn watchdog(root: PathBuf, id: &'static str, best: Best, seed: u64, after: std::time::Duration) {
    std::thread::spawn(move || {
        std::thread::sleep(after);
        let (c, f) = best.lock().unwrap().clone();
        let path = write_replay(&root, id, &c, &f, seed);
        println!("VIOLATION property={} replay={}", id, path.display());
        print_fail(&c, &f);
        println!("{}: shrinking was cut short", id);
        cleanup_scratch();
        std::process::exit(1);
    });
}

fn write_replay(root: &Path, id: &str, c: &Case, f: &Fail, seed: u64) -> PathBuf {
    let dir = root.join("out").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let body = c.write();
    let path = dir.join(format!("{}-{:08x}.case", id, hash_bytes(body.as_bytes()) as u32));
    let text = format!(
        "#property={}\n#seed={}\n#sig={}\n#msg={}\n{}",
        id,
        seed,
        f.sig,
        esc(&f.msg),
        body
    );
    std::fs::write(&path, text).expect("replay file");
    path
}

pub fn read_replay(path: &Path) -> Result<Case, String> {
    let t = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    let body: String = t.lines().filter(|l| !l.starts_with('#')).map(|l| format!("{}\n", l)).collect();
    Case::read(&body)
}

fn print_fail(c: &Case, f: &Fail) {
    println!("  what: [{}] {}", f.sig, f.msg);
    for l in c.write().lines() {
        match l.char_indices().nth(400) {
            Some((n, _)) => println!("  | {} ..", &l[..n]),
            None => println!("  | {}", l),
        }
    }
}

/// Exit code of the whole check.
pub fn drive(p: &dyn Prop, root: &Path, seed: u64, tier: Tier, replay: Option<&Path>, cases: Option<usize>) -> i32 {
    let start = Instant::now();
    let mut plan = p.plan(tier);
    if std::env::var("VERIF_NOSHRINK").is_ok() {
        plan.shrink_rounds = 0;
    }
    if let Some(r) = replay {
        let c = match read_replay(r) {
            Ok(c) => c,
            Err(e) => {
                println!("cannot read {}: {}", r.display(), e);
                return 2;
            }
        };
        let o = run_guarded(p, std::slice::from_ref(&c)).pop().unwrap();
        for l in &o.labels {
            println!("note: {}", l);
        }
        return match o.fail {
            Some(f) => {
                println!("VIOLATION property={} replay={}", p.id(), r.display());
                print_fail(&c, &f);
                1
            }
            None => {
                println!("no violation on this case");
                0
            }
        };
    }

    let mut rep = Report {
        evals: 0,
        nontrivial: HashSet::new(),
        labels: BTreeMap::new(),
        samples: Vec::new(),
        cases: 0,
    };
    let mut violation: Option<(Case, Fail)> = None;
    let mut known_lines = Vec::new();

    // known findings: the listed input must fail as listed, or pass
    for k in known_findings(root, p.id()) {
        let c = match read_replay(&root.join(&k.case)) {
            Ok(c) => c,
            Err(e) => {
                println!("known findings: {}: {}", k.case, e);
                return 2;
            }
        };
        let o = run_guarded(p, std::slice::from_ref(&c)).pop().unwrap();
        match o.fail {
            Some(f) if f.sig == k.sig => {
                known_lines.push(format!("KNOWN-FINDING: property={} {}", p.id(), k.what))
            }
            Some(f) => violation = Some((c, f)),
            None => {}
        }
    }

    let pins = p.pins();
    let npins = pins.len();
    let mut from_pin = false;
    if violation.is_none() {
        let per = ((npins + 31) / 32).max(1).min(plan.chunk);
        for (i, o) in run_parallel(p, &pins, per, false).into_iter().enumerate() {
            let o = o.unwrap();
            rep.add(&o);
            if let (Some(f), None) = (&o.fail, &violation) {
                violation = Some((pins[i].clone(), f.clone()));
                from_pin = true;
            }
        }
    }
    // generated cases, in blocks to keep memory small
    let total = cases.unwrap_or(plan.cases);
    let mut at = 0;
    while violation.is_none() && at < total {
        // a slow machine: what has been explored is what the evidence states
        if tier == Tier::Quick && start.elapsed().as_secs() > 420 && rep.nontrivial.len() >= plan.min_nontrivial {
            break;
        }
        let end = (at + plan.chunk * 64).min(total);
        let cs = generate(p, seed, tier, at, end);
        let chunk = plan.chunk.min(((end - at) / 8).max(1));
        for (i, o) in run_parallel(p, &cs, chunk, true).into_iter().enumerate() {
            if let Some(o) = o {
                rep.add(&o);
                if let (Some(f), None) = (&o.fail, &violation) {
                    violation = Some((cs[i].clone(), f.clone()));
                }
            }
        }
        at = end;
    }
    let explored = at;

    for l in &known_lines {
        println!("{}", l);
    }
    let mut code = 0;
    let mut shrunk = 0;
    if let Some((c, f)) = violation.clone() {
        let best: Best = std::sync::Arc::new(Mutex::new((c, f)));
        if tier == Tier::Quick {
            let left = 780u64.saturating_sub(start.elapsed().as_secs()).max(1);
            watchdog(root.to_path_buf(), p.id(), best.clone(), seed, std::time::Duration::from_secs(left));
        }
        shrunk = shrink(p, &best, &plan, if tier == Tier::Quick { 90 } else { 300 });
        let (c, f) = best.lock().unwrap().clone();
        let path = write_replay(root, p.id(), &c, &f, seed);
        println!("VIOLATION property={} replay={}", p.id(), path.display());
        print_fail(&c, &f);
        code = 1;
    } else if rep.nontrivial.len() < plan.min_nontrivial && cases.is_none() {
        println!(
            "check error: only {} non-trivial cases, at least {} expected",
            rep.nontrivial.len(),
            plan.min_nontrivial
        );
        code = 2;
    }

    let mut j = String::new();
    j.push_str("{\n");
    j.push_str(&format!("  \"property\": {},\n", json_str(p.id())));
    j.push_str(&format!(
        "  \"tier\": \"{}\",\n",
        if tier == Tier::Quick { "quick" } else { "thorough" }
    ));
    j.push_str(&format!("  \"seed\": {},\n  \"level\": \"exploration\",\n", seed));
    j.push_str("  \"coverage\": {\n");
    j.push_str(&format!("    \"evaluations\": {},\n", rep.evals));
    j.push_str(&format!("    \"distinct_nontrivial\": {},\n", rep.nontrivial.len()));
    j.push_str(&format!("    \"rule\": {},\n", json_str(p.rule())));
    j.push_str(&format!("    \"cases_generated\": {},\n", explored));
    j.push_str(&format!("    \"fixed_cases\": {},\n", npins));
    j.push_str(&format!("    \"shrink_candidates\": {},\n", shrunk));
    let labels: Vec<String> = rep
        .labels
        .iter()
        .map(|(k, v)| format!("{}: {}", json_str(k), v))
        .collect();
    j.push_str(&format!("    \"labels\": {{{}}},\n", labels.join(", ")));
    let samples: Vec<String> = rep.samples.iter().map(|s| json_str(s)).collect();
    j.push_str(&format!(
        "    \"samples\": [{}]\n  }},\n",
        samples.join(", ")
    ));
    let ass: Vec<String> = p.assumptions().iter().map(|s| json_str(s)).collect();
    j.push_str(&format!("  \"assumptions\": [{}],\n", ass.join(", ")));
    j.push_str(&format!("  \"wall_s\": {:.2},\n", start.elapsed().as_secs_f64()));
    j.push_str(&format!("  \"violations\": {}\n}}\n", (code == 1) as u8));
    let ev = root.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    if let Err(e) = std::fs::write(ev.join(format!("{}.json", p.id())), j) {
        println!("cannot write evidence: {}", e);
        return 2;
    }
    println!(
        "{}: {} fixed and {} generated cases, {} evaluations, {} distinct non-trivial, {:.1} s{}",
        p.id(),
        npins,
        explored,
        rep.evals,
        rep.nontrivial.len(),
        start.elapsed().as_secs_f64(),
        if from_pin { " (a fixed case failed)" } else { "" }
    );
    for (k, v) in &rep.labels {
        println!("    {:6}  {}", v, k);
    }
    code
}

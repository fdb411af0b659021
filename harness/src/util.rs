//! Random numbers, hashing, JSON text, scratch directories and child processes.
use std::io::Write as _;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

/// splitmix64; every random choice of a case comes from one of these.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(parts: &[u64]) -> Rng {
        let mut h = 0x1234567;
        for p in parts {
            h = mix(h ^ *p);
        }
        Rng(h)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// One-line escaping for replay files.
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            c => o.push(c),
        }
    }
    o
}

pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok())
        .collect()
}

static SCRATCH: AtomicU64 = AtomicU64::new(0);

/// A directory below the run's scratch root, removed on drop.
pub struct Scratch(pub PathBuf);

pub fn scratch_root() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() {
        "/dev/shm"
    } else {
        "/tmp"
    };
    PathBuf::from(format!("{}/vharness-{}", base, std::process::id()))
}

impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let n = SCRATCH.fetch_add(1, Ordering::SeqCst);
        let p = scratch_root().join(format!("{}-{}", tag, n));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// A directory on disk (not in memory) for bulky build products.
pub fn disk_scratch(tag: &str) -> Scratch {
    let n = SCRATCH.fetch_add(1, Ordering::SeqCst);
    let p = std::env::temp_dir()
        .join(format!("vharness-{}", std::process::id()))
        .join(format!("{}-{}", tag, n));
    std::fs::create_dir_all(&p).expect("scratch directory");
    Scratch(p)
}

pub fn cleanup_scratch() {
    let _ = std::fs::remove_dir_all(scratch_root());
    let _ = std::fs::remove_dir_all(
        std::env::temp_dir().join(format!("vharness-{}", std::process::id())),
    );
}

#[derive(Debug, Clone)]
pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
    pub timed_out: bool,
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn setpgid(pid: i32, pgid: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_AS: i32 = 9;
const RLIMIT_CORE: i32 = 4;

pub struct Limits {
    pub cpu_s: u64,
    pub as_bytes: u64,
    pub wall_s: u64,
}

/// Runs a command to its end with its output going to files (no pipe can fill up).
pub fn run(cmd: &mut Command, lim: &Limits) -> Run {
    let dir = Scratch::new("proc");
    let outp = dir.path().join("out");
    let errp = dir.path().join("err");
    let fo = std::fs::File::create(&outp).unwrap();
    let fe = std::fs::File::create(&errp).unwrap();
    cmd.stdin(Stdio::null()).stdout(fo).stderr(fe);
    let (cpu, asb) = (lim.cpu_s, lim.as_bytes);
    unsafe {
        cmd.pre_exec(move || {
            setpgid(0, 0);
            setrlimit(RLIMIT_CORE, &[0, 0]);
            if cpu > 0 {
                setrlimit(RLIMIT_CPU, &[cpu, cpu + 2]);
            }
            if asb > 0 {
                setrlimit(RLIMIT_AS, &[asb, asb]);
            }
            Ok(())
        });
    }
    let mut child = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => {
            return Run {
                code: None,
                signal: None,
                out: String::new(),
                err: format!("cannot start: {}", e),
                timed_out: false,
            }
        }
    };
    let start = std::time::Instant::now();
    let mut timed_out = false;
    let mut nap = 500;
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if start.elapsed().as_secs() >= lim.wall_s {
            timed_out = true;
            unsafe {
                kill(-(child.id() as i32), 9);
            }
            let _ = child.kill();
            break child.wait().unwrap();
        }
        std::thread::sleep(std::time::Duration::from_micros(nap));
        nap = (nap * 5 / 4).min(20_000);
    };
    let out = String::from_utf8_lossy(&std::fs::read(&outp).unwrap_or_default()).into_owned();
    let err = String::from_utf8_lossy(&std::fs::read(&errp).unwrap_or_default()).into_owned();
    Run {
        code: status.code(),
        signal: status.signal(),
        out,
        err,
        timed_out,
    }
}

pub fn write_file(p: &Path, text: impl AsRef<[u8]>) {
    let mut f = std::fs::File::create(p).unwrap_or_else(|e| panic!("{}: {}", p.display(), e));
    f.write_all(text.as_ref()).unwrap();
}

pub fn strip_ansi(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            it.next();
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

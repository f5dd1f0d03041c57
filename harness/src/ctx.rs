//! What every worker shares: case bookkeeping, verdicts, coverage counters, panic capture.
use crate::json;
use crate::rng::{Rng, hash_str};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::fs::FileExt;
use std::path::PathBuf;
use std::time::Instant;

pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub out: PathBuf,
    pub only_case: Option<u64>,
    pub budget_s: f64,
    pub phase: String,
    pub round: u64,
}

impl Opts {
    pub fn parse() -> Opts {
        let mut o = Opts {
            prop: String::new(),
            tier: "quick".into(),
            seed: 1,
            shard: 0,
            shards: 1,
            out: PathBuf::from("."),
            only_case: None,
            budget_s: 20.0,
            phase: "main".into(),
            round: 0,
        };
        let a: Vec<String> = std::env::args().collect();
        let mut i = 1;
        while i < a.len() {
            let v = a.get(i + 1).cloned().unwrap_or_default();
            match a[i].as_str() {
                "--prop" => o.prop = v,
                "--tier" => o.tier = v,
                "--seed" => o.seed = v.parse().unwrap(),
                "--shard" => o.shard = v.parse().unwrap(),
                "--shards" => o.shards = v.parse().unwrap(),
                "--out" => o.out = PathBuf::from(v),
                "--case" => o.only_case = Some(v.parse().unwrap()),
                "--budget" => o.budget_s = v.parse().unwrap(),
                "--phase" => o.phase = v,
                "--round" => o.round = v.parse().unwrap(),
                x => panic!("unknown option {x}"),
            }
            i += 2;
        }
        o
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
}

pub struct Ctx {
    pub o: Opts,
    pub start: Instant,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<(u64, String, String)>, // case, key, detail
    pub notes: Vec<String>,
    pub rule: String,
    cur_case: u64,
    cur_desc: String,
    progress: std::fs::File,
    err_pos: u64,
    begun: Instant,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Outcome of a guarded call: the value or (panic location, panic message).
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, (String, String)> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

pub fn is_harness_location(loc: &str) -> bool {
    // harness sources are compiled with relative paths "src/..." (repo crates have absolute ones)
    loc.starts_with("src/") || loc.contains("/verif/harness/")
}

impl Ctx {
    pub fn new(o: Opts) -> Ctx {
        let _ = std::fs::create_dir_all(&o.out);
        let p = o.out.join(format!("progress.{}.{}", o.phase, o.shard));
        let progress = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).unwrap();
        Ctx {
            o,
            start: Instant::now(),
            evaluations: 0,
            distinct: HashSet::new(),
            samples: vec![],
            counters: BTreeMap::new(),
            violations: vec![],
            notes: vec![],
            rule: String::new(),
            cur_case: 0,
            cur_desc: String::new(),
            progress,
            err_pos: 0,
            begun: Instant::now(),
        }
    }
    /// Case numbers for this worker: interleaved over the shards, until `max` or the time budget.
    pub fn cases(&self, max: u64) -> Box<dyn Iterator<Item = u64>> {
        if let Some(k) = self.o.only_case {
            return Box::new(std::iter::once(k));
        }
        let (sh, n) = (self.o.shard, self.o.shards);
        let start = self.start;
        let budget = self.o.budget_s;
        Box::new((0..max).filter(move |k| k % n == sh).take_while(move |_| start.elapsed().as_secs_f64() < budget))
    }
    pub fn rng(&self, case: u64) -> Rng {
        Rng::new(&[self.o.seed, hash_str(&self.o.prop), case])
    }
    pub fn begin(&mut self, case: u64) {
        // for tuning: which cases take long
        if let (Ok(p), true) = (std::env::var("VH_SLOW"), self.begun.elapsed().as_millis() > 200) {
            if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(p) {
                let _ = writeln!(f, "{:?} case {} {:.100}", self.begun.elapsed(), self.cur_case, self.cur_desc.replace('\n', " "));
            }
        }
        self.begun = Instant::now();
        self.cur_case = case;
        self.cur_desc.clear();
        let _ = self.progress.write_all_at(format!("{:<20}\n", case).as_bytes(), 0);
    }
    /// Describe the running case (goes to the replay file if it fails or dies).
    pub fn desc(&mut self, d: String) {
        let mut d2 = d.clone();
        d2.truncate(floor_boundary(&d2, 20000));
        let _ = self.progress.set_len(0);
        let _ = self.progress.write_all_at(format!("{:<20}\n{}\n", self.cur_case, d2).as_bytes(), 0);
        self.cur_desc = d;
    }
    pub fn eval(&mut self) {
        self.evaluations += 1;
    }
    pub fn nontrivial(&mut self, key: &str) {
        self.distinct.insert(hash_str(key));
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(format!("max:{k}")).or_insert(0);
        if n > *e {
            *e = n;
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut x = s();
            let n = floor_boundary(&x, 1500);
            x.truncate(n);
            self.samples.push(x);
        }
    }
    pub fn violation(&mut self, key: &str, detail: String) {
        if self.violations.len() < 50 {
            let d = format!("{}\n{}", self.cur_desc, detail);
            self.violations.push((self.cur_case, key.to_string(), d));
        }
    }
    /// Run a case, turning a panic of the code under test into a violation.
    pub fn guarded(&mut self, what: &str, f: impl FnOnce(&mut Ctx)) {
        let r = {
            let me = &mut *self;
            guard(move || f(me))
        };
        if let Err((loc, msg)) = r {
            if is_harness_location(&loc) {
                self.notes.push(format!("HARNESS case {}: panic at {loc}: {msg}", self.cur_case));
            } else {
                self.violation("panic", format!("{what}: the code under test panicked at {loc}: {msg}"));
            }
        }
    }
    /// What was written to stderr since the last call (the parent points fd 2 at this file, append mode).
    pub fn stderr_since(&mut self) -> String {
        let Ok(p) = std::env::var("VH_STDERR") else { return String::new() };
        let mut out = vec![];
        if let Ok(mut f) = std::fs::OpenOptions::new().read(true).write(true).open(&p) {
            let _ = f.seek(SeekFrom::Start(self.err_pos));
            let _ = f.read_to_end(&mut out);
            self.err_pos += out.len() as u64;
            if self.err_pos > 4_000_000 {
                let _ = f.set_len(0);
                self.err_pos = 0;
            }
        }
        String::from_utf8_lossy(&out).into_owned()
    }
    pub fn finish(self) {
        let path = self.o.out.join(format!("result.{}.{}", self.o.phase, self.o.shard));
        let mut f = std::fs::File::create(path).unwrap();
        let distinct: Vec<String> = self.distinct.iter().map(|h| format!("\"{h:x}\"")).collect();
        let viol: Vec<String> = self
            .violations
            .iter()
            .map(|(c, k, d)| json::obj(&[("case", c.to_string()), ("key", json::s(k)), ("detail", json::s(d))]))
            .collect();
        let cnt: Vec<String> = self.counters.iter().map(|(k, v)| format!("{}:{}", json::s(k), v)).collect();
        let body = json::obj(&[
            ("evaluations", self.evaluations.to_string()),
            ("distinct", json::arr(&distinct)),
            ("samples", json::arr(&self.samples.iter().map(|x| json::s(x)).collect::<Vec<_>>())),
            ("counters", format!("{{{}}}", cnt.join(","))),
            ("violations", json::arr(&viol)),
            ("notes", json::arr(&self.notes.iter().map(|x| json::s(x)).collect::<Vec<_>>())),
            ("rule", json::s(&self.rule)),
        ]);
        f.write_all(body.as_bytes()).unwrap();
    }
}

pub fn floor_boundary(s: &str, n: usize) -> usize {
    if s.len() <= n {
        return s.len();
    }
    let mut n = n;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    n
}

//! C26: parsers used again, within one another, and on many threads at once.
use super::gener;
use super::toks;
use crate::compiled::{Batch, by_case};
use crate::ctx::Ctx;
use crate::genr::{Outcome, generate, scratch};
use crate::gram::{self, Gram, Term, Text};
use crate::lexgen;
use crate::reflex::Item;
use crate::rng::{Rng, hash_str};
use crate::rt::{self, ModFn, Module, RtEnv};
use std::sync::{Arc, Barrier};
use std::time::Instant;

pub struct Case {
    pub g: Gram,
    pub text: String,
    pub aug: bool,
    pub uses: Vec<Use>,
}

/// One text to parse and what steers its predicates and injections.
#[derive(Clone, Debug)]
pub struct Use {
    pub text: String,
    pub label: String,
    pub salt: u64,
    pub cap: usize,
}

fn spice(r: &mut Rng, g: &mut Gram) {
    for t in g.terms.iter_mut().skip(1) {
        if let Text::Lit(s) = &t.text {
            if r.chance(1, 3) {
                let p = regex::escape(s);
                t.text = Text::Re(if r.chance(1, 3) { format!("{p}|{p}{p}") } else { p });
            }
        }
    }
    // nothing uses these; they tie with one another and with the above
    for (n, p, s) in [("AMBA", "[a-z]q+", "aq"), ("AMBB", "[a-c]q*q", "bqq"), ("AMBC", "[b-z0-9]+", "c9")] {
        if r.chance(1, 2) {
            g.terms.push(Term { name: n.into(), text: Text::Re(p.into()), sample: s.into() });
        }
    }
}

const GARBAGE: &[&str] = &["§", "aq", "bqq", "cq", "\u{0}", "日本", "dddd", "c9", " \n ", "aa", "?"];

pub fn make(case: u64, r: &mut Rng) -> Option<Case> {
    let kind = ["C17", "C16", "C11", "lexer"][r.below(4)];
    let (mut g, aug, fl, toklike) = if kind == "lexer" {
        let c = toks::make(case, r)?;
        let n = c.g.rules.len();
        (c.g, c.aug, vec![gram::Flavour::Node; n], Some(c.lx))
    } else {
        let c = gener::make(kind, case, r)?;
        (c.g, c.aug, c.fl, None)
    };
    if toklike.is_none() {
        spice(r, &mut g);
        gram::set_actions(&mut g, &fl, true, r);
    }
    let text = g.spec();
    let n = 12;
    let mut uses = vec![];
    for k in 0..n {
        let mut text = match &toklike {
            Some(lx) => lexgen::text(r, lx, 12),
            None => {
                let budget = *r.pick(&[3, 8, 20, 40]);
                let mut t = gram::derive(&g, r, budget).map(|x| x.0).unwrap_or_default();
                if k % 3 == 1 {
                    gram::mutate(&g, r, &mut t);
                }
                if k % 6 == 5 {
                    t = gram::random_tokens(&g, r, 12);
                }
                gram::render(&g, &t, r)
            }
        };
        if k % 4 == 3 {
            for _ in 0..r.range(1, 3) {
                let at: Vec<usize> = (0..=text.len()).filter(|i| text.is_char_boundary(*i)).collect();
                let at = *r.pick(&at);
                text.insert_str(at, r.pick(GARBAGE));
            }
        }
        // one parse is cut off by a panic in an action
        let cap = if k == n - 1 { 5 } else { 3000 };
        uses.push(Use { text, label: format!("{}{k}", r.pick(&["t", "a b", "in"])), salt: r.next(), cap });
    }
    Some(Case { g, text, aug, uses })
}

pub fn generate_phase(ctx: &mut Ctx) {
    let want = match std::env::var("VH_WANT") {
        Ok(s) => s.parse().expect("VH_WANT"),
        Err(_) if ctx.o.thorough() => 30,
        Err(_) => 12,
    };
    let dir = scratch(ctx);
    let mut b = Batch::new(ctx);
    let only = ctx.o.only_case;
    let (mut k, mut done) = (0u64, 0);
    while done < want && k < 400 * want as u64 {
        let case = only.unwrap_or(ctx.o.round * 10_000_000 + k * ctx.o.shards + ctx.o.shard);
        k += 1;
        let mut r = ctx.rng(case);
        ctx.begin(case);
        if let Some(c) = make(case, &mut r) {
            ctx.desc(c.text.clone());
            match generate(c.aug, &c.text, "spec", true, true, &dir) {
                Outcome::Ok(m) => {
                    b.add(case, 0, c.aug, &c.g, &m.code);
                    done += 1;
                }
                o => {
                    let e = ctx.stderr_since();
                    ctx.notes.push(format!("case {case}: {} (decided by C14, C18 and C19) {e}", o.brief()));
                }
            }
        }
        if only.is_some() {
            break;
        }
    }
    ctx.begin(only.unwrap_or(ctx.o.shard));
    ctx.desc("compiling the batch".into());
    for (u, e) in b.compile(ctx) {
        ctx.notes.push(format!("case {}: does not compile (decided by C15) {e}", u.case));
    }
}

fn environment(u: &Use) -> RtEnv {
    let mut e = RtEnv::new(u.cap);
    e.raw = true;
    let salt = u.salt;
    e.pred = Box::new(move |p, a, k| super::driver::pred_hash(salt, p, a, k) || salt % 3 == 0);
    let words: Vec<String> = u.text.split_whitespace().take(4).map(|x| x.to_string()).collect();
    e.inject = Box::new(move |p, _, id| {
        if id < 12 && hash_str(&format!("{salt}{p}{id}")) % 9 == 0 && !words.is_empty() {
            vec![(words[id as usize % words.len()].clone(), format!("injected {id}"))]
        } else {
            vec![]
        }
    });
    e
}

/// Everything observable about one parse.
fn parse(e: RtEnv, f: &mut dyn FnMut() -> Result<(), String>) -> String {
    let o = rt::outcome(e, f);
    format!("{:?}\n{:?}", o.result, o.events)
}
fn alone(m: &Module, u: &Use) -> String {
    parse(environment(u), &mut || (m.parse)(&u.text, &u.label))
}

fn first_difference(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let from = crate::ctx::floor_boundary(s, n.saturating_sub(80));
        let to = crate::ctx::floor_boundary(s, n + 160);
        s[from..to].to_string()
    };
    format!("…{}…\nagainst …{}…", cut(a), cut(b))
}

struct Mod {
    case: u64,
    c: Case,
    m: Module,
    base: Vec<String>,
}

fn judge(ctx: &mut Ctx, x: &Mod, k: usize, got: &str, key: &str, how: &str) {
    ctx.eval();
    if got != x.base[k] {
        ctx.begin(x.case);
        ctx.desc(x.c.text.clone());
        ctx.violation(key, format!("text {:?} parsed {how}: {}", x.c.uses[k].text, first_difference(&x.base[k], got)));
    }
}

pub fn run(ctx: &mut Ctx, mods: &[(u64, u32, ModFn)]) {
    ctx.rule = "compiled plain and augmented parsers (recovery, predicates, injections, ambiguous and unexpected tokens) parsing the same texts repeatedly with one object, within actions of other parses, in a fresh process and on 8 threads sharing the generated lexers from their first use on; an evaluation is one parse whose complete event log and result are compared with the same parse run by itself; non-trivial: a parse that ran concurrently with or inside another (distinct by text and company)".into();
    let light = std::env::var("VH_LIGHT").is_ok();
    let mut v: Vec<Mod> = vec![];
    for (case, fs) in by_case(ctx, mods) {
        ctx.begin(case);
        let mut r = ctx.rng(case);
        if let Some(c) = make(case, &mut r) {
            v.push(Mod { case, c, m: (fs[0].1)(), base: vec![] });
        }
    }
    if let Ok(one) = std::env::var("VH_ONE") {
        let n: Vec<usize> = one.split(',').map(|x| x.parse().unwrap()).collect();
        let x = v.iter().find(|x| x.case == n[0] as u64).expect("case");
        let s = alone(&x.m, &x.c.uses[n[1]]);
        std::fs::write(std::env::var("VH_ONE_OUT").unwrap(), s).unwrap();
        return;
    }
    if v.is_empty() {
        return;
    }
    ctx.begin(v[0].case);
    ctx.desc("concurrent parses".into());
    let mut r = Rng::new(&[ctx.o.seed, ctx.o.shard, ctx.o.round, 0xc26]);
    let v = Arc::new(v);
    // 1. threads first, so that the lexers are set up while others want them
    let first = concurrent(&v, &mut r, 8, 1);
    // 2. each by itself
    let Ok(mut v) = Arc::try_unwrap(v) else { panic!("VH: threads still hold the modules") };
    for x in v.iter_mut() {
        ctx.begin(x.case);
        ctx.desc(x.c.text.clone());
        x.base = x.c.uses.iter().map(|u| alone(&x.m, u)).collect();
        for b in &x.base {
            ctx.count("reports", b.matches("Report(").count() as u64);
            ctx.count("recoveries", b.matches("Recover(").count() as u64);
            ctx.count("panicking_parses", b.starts_with("Err((") as u64);
            ctx.count("ambiguous_matches", b.matches("mbiguous").count() as u64);
        }
    }
    compare(ctx, &v, first, "virgin");
    // 3. fresh processes
    if !light {
        for i in 0..v.len().min(6) {
            let i = (i * 5 + ctx.o.round as usize) % v.len();
            for k in [r.below(6), 6 + r.below(6)] {
                let x = &v[i];
                let out = ctx.o.out.join(format!("one.{}", ctx.o.shard));
                let a: Vec<String> = std::env::args().collect();
                let st = std::process::Command::new(&a[0]).args(&a[1..]).env("VH_ONE", format!("{},{k}", x.case)).env("VH_ONE_OUT", &out).arg("--out").arg(out.with_extension("d")).status();
                match (st, std::fs::read_to_string(&out)) {
                    (Ok(s), Ok(got)) if s.success() => {
                        judge(ctx, x, k, &got, "process", "in a fresh process differs from the same parse in this one");
                        ctx.count("fresh_process_parses", 1);
                    }
                    e => ctx.notes.push(format!("HARNESS no fresh process: {e:?}")),
                }
                let _ = std::fs::remove_file(&out);
            }
        }
    }
    // 4. one object, many texts
    for x in &v {
        ctx.begin(x.case);
        ctx.desc(x.c.text.clone());
        let n = x.c.uses.len();
        let mut order: Vec<usize> = (0..if light { n } else { n * 4 }).map(|k| k % n).collect();
        r.shuffle(&mut order);
        let mut got = vec![];
        (x.m.session)(&mut |p| {
            for k in &order {
                let u = &x.c.uses[*k];
                got.push((*k, parse(environment(u), &mut || p(&u.text, &u.label))));
            }
        });
        for (k, s) in got {
            judge(ctx, x, k, &s, "again", "again with one object after others");
            ctx.count("parses_with_a_used_object", 1);
        }
    }
    // 5. parses within actions of parses
    let rounds = if light { 1 } else { 4 };
    for i in 0..v.len() * rounds {
        let x = &v[i % v.len()];
        let k = r.below(x.c.uses.len());
        ctx.begin(x.case);
        ctx.desc(x.c.text.clone());
        let mut e = environment(&x.c.uses[k]);
        let log = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
        let plan: Vec<(usize, usize)> = (0..6)
            .map(|_| {
                let j = if r.chance(1, 2) { i % v.len() } else { r.below(v.len()) };
                (j, r.below(v[j].c.uses.len()))
            })
            .collect();
        let (l2, p2) = (log.clone(), plan.clone());
        let vp: &'static [Mod] = unsafe { std::mem::transmute::<&[Mod], &'static [Mod]>(&v[..]) };
        e.inner = Some(Box::new(move |id| {
            if let Some((j, q)) = p2.get(id as usize % 16) {
                l2.borrow_mut().push((*j, *q, alone(&vp[*j].m, &vp[*j].c.uses[*q])));
            }
        }));
        let u = &x.c.uses[k];
        let got = parse(e, &mut || (x.m.parse)(&u.text, &u.label));
        let inner = log.borrow().clone();
        judge(ctx, x, k, &got, "nested", &format!("while its actions ran {} other parses", inner.len()));
        for (j, q, s) in inner {
            judge(ctx, &v[j], q, &s, "nested", &format!("within an action of another parse ({:?})", u.text));
            ctx.count("parses_within_parses", 1);
            ctx.nontrivial(&format!("{} {q} in {} {k}", v[j].case, x.case));
        }
    }
    // 6. streams of one lexer in turns
    for x in &v {
        ctx.begin(x.case);
        ctx.desc(x.c.text.clone());
        let ts: Vec<(String, String)> = x.c.uses.iter().map(|u| (u.text.clone(), u.label.clone())).collect();
        let want: Vec<Vec<Item>> = ts.iter().map(|(t, l)| (x.m.lex)(t, l, &[])).collect();
        let mut turns = 0;
        let got = (x.m.weave)(&ts, &mut |n| {
            turns += 1;
            r.below(n)
        });
        ctx.eval();
        ctx.count("interleaved_stream_steps", turns);
        if let Some(k) = (0..ts.len()).find(|k| want[*k] != got[*k]) {
            ctx.violation("streams", format!("text {:?}: read in turns with other streams it is {:?}, by itself {:?}", ts[k].0, got[k], want[k]));
        }
    }
    // 7. threads again
    ctx.begin(v[0].case);
    ctx.desc("concurrent parses".into());
    let v = Arc::new(v);
    for _ in 0..if light { 1 } else { 2 } {
        let got = concurrent(&v, &mut r, 8, if light { 1 } else { 3 });
        compare(ctx, &v, got, "used");
    }
}

struct Done {
    module: usize,
    text: usize,
    got: String,
    from: Instant,
    to: Instant,
    thread: usize,
}

fn concurrent(v: &Arc<Vec<Mod>>, r: &mut Rng, threads: usize, times: usize) -> Vec<Done> {
    let barrier = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|thread| {
            let (v, barrier, mut r) = (v.clone(), barrier.clone(), Rng::new(&[r.next(), thread as u64]));
            std::thread::spawn(move || {
                let mut plan: Vec<(usize, usize)> = (0..v.len()).flat_map(|i| (0..v[i].c.uses.len()).map(move |k| (i, k))).collect();
                let mut out = vec![];
                barrier.wait();
                for time in 0..times {
                    // alternately the same order on all threads and one's own
                    if (time + thread) % 3 != 0 {
                        r.shuffle(&mut plan);
                    }
                    for (i, k) in &plan {
                        if r.chance(1, 8) {
                            std::thread::yield_now();
                        }
                        let from = Instant::now();
                        let got = alone(&v[*i].m, &v[*i].c.uses[*k]);
                        out.push(Done { module: *i, text: *k, got, from, to: Instant::now(), thread });
                    }
                }
                out
            })
        })
        .collect();
    hs.into_iter().flat_map(|h| h.join().expect("thread")).collect()
}

fn compare(ctx: &mut Ctx, v: &[Mod], mut got: Vec<Done>, what: &str) {
    got.sort_by_key(|d| d.from);
    let mut running: Vec<(Instant, usize, usize, usize)> = vec![];
    for d in &got {
        judge(ctx, &v[d.module], d.text, &d.got, "threads", "on one of 8 threads");
        ctx.count("parses_on_threads", 1);
        running.retain(|x| x.0 > d.from);
        for o in &running {
            if o.1 != d.thread {
                ctx.count("overlapping_pairs", 1);
                ctx.count(if o.2 == d.module { "overlapping_pairs_same_lexer" } else { "overlapping_pairs_other_lexer" }, 1);
                ctx.nontrivial(&format!("{what} {} {} with {} {}", v[d.module].case, d.text, v[o.2].case, o.3));
            }
        }
        running.push((d.to, d.thread, d.module, d.text));
    }
}

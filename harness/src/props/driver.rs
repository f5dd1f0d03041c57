//! C06-C09: the parse drivers, run over data tables and compared event by event with the reference machine.
use crate::ctx::{Ctx, is_harness_location};
use crate::dynrt::{self, Setup};
use crate::gram::{self, Gram};
use crate::refdrv::{self, Act, Ev, Injects, Run, Tab, Val};
use crate::reflex::RefLex;
use crate::reflr;
use crate::rng::Rng;
use crate::sut::{An, analyzer};
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

pub struct Scene {
    pub tab: Rc<Tab>,
    pub lits: Vec<(usize, String)>,
    pub res: Vec<(usize, String)>,
    pub skips: Vec<String>,
    pub what: String,
    pub must_end: bool,
    pub gram: Option<Gram>,
    /// what nests: opening, innermost and closing text
    pub nest: Option<(&'static str, &'static str, &'static str)>,
}

/// Tables in which a state's number tells the depth of the stack, so that any table makes sense.
pub fn layered(r: &mut Rng, recovery: bool, chains: bool) -> Scene {
    let w = r.range(1, 5);
    let d = r.range(2, 7);
    let nt = r.range(2, 5);
    let nn = r.range(1, 4) as u32;
    let nterms = nt + 3; // end, literals, two overlapping regexes
    let mut t = Tab::default();
    let ns = w * (d + 1);
    let at = |lv: usize, r: &mut Rng| (lv * w + r.below(w)) as u32;
    // productions; their order is the order of guarded alternatives
    let np = r.range(2, 9);
    for _ in 0..np {
        let len = *r.pick(&[0, 1, 1, 2, 2, 3, 4, 5]);
        t.prods.push((r.below(nn as usize) as u32, len.min(d)));
    }
    let (ps, pr) = (r.range(3, 7), r.range(1, 5));
    for s in 0..ns {
        let lv = s / w;
        let mut row = vec![];
        for _ in 0..nterms {
            let k = r.below(11);
            let ok: Vec<u32> = (1..np).filter(|p| t.prods[*p].1 <= lv && (t.prods[*p].1 > 0 || lv < d)).map(|p| p as u32).collect();
            row.push(if k < ps && lv < d {
                Act::Shift(at(lv + 1, r))
            } else if k < ps + pr && !ok.is_empty() {
                if chains && r.chance(1, 2) {
                    let mut c: Vec<u32> = (0..r.range(1, 3)).map(|_| *r.pick(&ok)).collect();
                    c.sort();
                    c.dedup();
                    let last = if r.chance(1, 2) { Some(*r.pick(&ok)) } else { None };
                    Act::Chain(c, last)
                } else {
                    Act::Reduce(*r.pick(&ok))
                }
            } else if r.chance(1, 8) {
                Act::Accept
            } else {
                Act::Error
            });
        }
        if s == 0 && !row.iter().any(|a| matches!(a, Act::Shift(_))) {
            row[1] = Act::Shift(at(1, r));
        }
        // reading the end marker like any other token would be a strange table; accept or fail instead
        if matches!(row[0], Act::Shift(_)) {
            row[0] = if r.chance(1, 2) { Act::Accept } else { Act::Error };
        }
        t.rows.push(row);
        for n in 0..nn {
            if lv < d {
                t.gotos.insert((s as u32, n), at(lv + 1, r));
            }
        }
        t.look.push((0..nterms).filter(|_| r.chance(1, 3)).collect());
    }
    t.viable = vec![BTreeSet::new(); nterms];
    if recovery {
        let rate = r.range(1, 4);
        for s in 0..(w * d) {
            let mut any = false;
            for v in t.viable.iter_mut() {
                if r.chance(rate, 10) {
                    v.insert(s as u32);
                    any = true;
                }
            }
            if any || r.chance(1, 2) {
                t.err_goto.insert(s as u32, at(s / w + 1, r));
            }
        }
    }
    t.depth = (0..ns).map(|s| s / w).collect();
    let lits: Vec<(usize, String)> = (1..=nt).map(|i| (i, gram::tok_text(i - 1))).collect();
    let res = vec![(nt + 1, "[x-z]+".to_string()), (nt + 2, "x+|w".to_string())];
    Scene { what: format!("layered table: width {w}, depth {d}, {nt} literals\n{t:?}"), tab: Rc::new(t), lits, res, skips: vec!["\\s+".into()], must_end: false, gram: None, nest: None }
}

/// Tables of the LALR(1) automaton of a grammar, conflicts resolved.
pub fn from_grammar(r: &mut Rng, recovery: bool) -> Option<Scene> {
    let wide = r.chance(1, 300);
    let mut g = match r.below(4) {
        _ if wide => gram::wide(r, &|g, c| reflr::build(g, false, c).is_some()),
        0 if recovery => gram::parse_compact(r.pick(gram::WITH_ERRORS)),
        0 | 1 => gram::tricky(r),
        _ => gram::random_cfg(r),
    };
    if r.chance(1, 3) {
        gram::vary(r, &mut g);
    }
    if recovery && !g.uses_error() {
        gram::add_errors(r, &mut g);
    }
    if r.chance(1, 3) {
        gram::add_precedences(r, &mut g);
    }
    if !gram::reduced(&g) {
        return None;
    }
    let a = reflr::build(&g, false, if wide { 6000 } else { 600 })?;
    let free = a.conflict_free();
    if !free && !wide && r.chance(2, 3) {
        return None;
    }
    let t = a.tab();
    let lits = (1..g.terms.len()).map(|i| (i, g.terms[i].sample.clone())).collect();
    Some(Scene { what: format!("grammar:\n{}", g.spec()), tab: Rc::new(t), lits, res: vec![], skips: vec!["\\s+".into()], must_end: free, gram: Some(g), nest: None })
}

/// Grammars whose parses need deep stacks.
const DEEP: &[(&str, &str, &str, &str)] = &[
    ("Ls: Line | Ls Line ; Line: E SEMI | %e SEMI ; E: T | E + T ; T: id | ( E )", "( ", "id ", ") "),
    ("L: A SEMI | %e SEMI ; A: id A | x", "id ", "x ", ""),
    ("S: X ; X: ( X ) | ( %e ) | id", "( ", "id ", ") "),
    ("P: Bs ; Bs: B | B Bs ; B: { Bs } | id SEMI | %e SEMI", "{ id ; ", "id ; ", "} "),
    ("S: if S else S | id | ( S ) | ( %e )", "if ( id ) else ", "id ", ""),
    ("Ls: | Ls Line ; Line: E SEMI | %e SEMI ; E: id = E | id", "id = ", "id ", "; "),
    ("S: A b | %e ; A: a A | c", "a ", "c ", "b "),
    ("S: A ; A: a A b | ", "a ", "", "b "),
];

fn deep(r: &mut Rng) -> Option<Scene> {
    let (g, open, mid, close) = *r.pick(DEEP);
    let g = gram::parse_compact(g);
    let a = reflr::build(&g, false, 600)?;
    let lits = (1..g.terms.len()).map(|i| (i, g.terms[i].sample.clone())).collect();
    Some(Scene { what: format!("grammar:\n{}", g.spec()), tab: Rc::new(a.tab()), lits, res: vec![], skips: vec!["\\s+".into()], must_end: a.conflict_free(), gram: Some(g), nest: Some((open, mid, close)) })
}

fn deep_text(r: &mut Rng, s: &Scene) -> String {
    let (open, mid, close) = s.nest.unwrap();
    let mut t = String::new();
    for _ in 0..r.range(1, 3) {
        let n = *r.pick(&[3, 17, 40, 70, 140, 260, 520, 1100]);
        t.push_str(&open.repeat(n));
        t.push_str(mid);
        if r.chance(1, 2) {
            for _ in 0..r.range(1, 6) {
                t.push_str(&r.pick(&s.lits).1.clone());
                t.push(' ');
            }
        }
        t.push_str(&close.repeat(match r.below(4) {
            0 => n,
            1 => n - 1,
            2 => n + 1,
            _ => r.below(n),
        }));
        if r.chance(1, 3) {
            t.push_str(*r.pick(&["? ", "; ", "~ ; "]));
        }
    }
    t
}

pub fn scene_text(r: &mut Rng, s: &Scene, max: usize) -> String {
    if s.nest.is_some() && max > 100 {
        return deep_text(r, s);
    }
    if let Some(g) = &s.gram {
        let toks = match r.below(4) {
            0 => gram::random_tokens(g, r, max),
            k => {
                let mut v = gram::derive(g, r, max).map(|x| x.0).unwrap_or_default();
                if k > 1 {
                    for _ in 0..r.range(1, 3) {
                        gram::mutate(g, r, &mut v);
                    }
                }
                v
            }
        };
        let mut t = gram::render(g, &toks, r);
        if r.chance(1, 3) {
            let n = r.range(1, 3);
            for _ in 0..n {
                let at: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
                t.insert_str(*r.pick(&at), r.pick(&["?", "~~", " ? ", "§", "\n"]));
            }
        }
        return t;
    }
    let n = r.below(max + 1);
    let mut t = String::new();
    let garbage = r.below(4);
    for _ in 0..n {
        match r.below(12) {
            0 if garbage > 0 => t.push_str(r.pick(&["?", "~", "?? ", "é"])),
            1 if garbage > 1 => t.push_str(r.pick(&["x", "xx ", "x "])),
            2 => t.push_str(r.pick(&["z", "w", "xy ", "yz"])),
            3 => t.push_str(r.pick(&["\n", "\r\n"])),
            _ => t.push_str(&r.pick(&s.lits).1.clone()),
        }
        if r.chance(2, 3) {
            t.push(' ');
        }
    }
    t
}

pub type Plan = HashMap<u32, Injects>;

pub fn pred_hash(salt: u64, p: u32, args: &[Val], tok: &str) -> bool {
    let h = crate::rng::hash_str(&format!("{salt} {p} {args:?} {tok}"));
    h % 2 == 0
}

pub struct Compared {
    pub run: Run,
    pub got: Vec<Ev>,
}

/// Run reference and driver; Err = violation (key, detail), Ok(None) = case not usable.
pub fn compare(aug: bool, sc: &Scene, refl: &RefLex, an: &An, text: &str, plan: &Plan, salt: u64) -> Result<Option<Compared>, (String, String)> {
    let cap = 60 * (text.len() + plan.values().flatten().map(|x| x.0.len()).sum::<usize>()) + 3000;
    let p1 = plan.clone();
    let view = if aug { 3 } else { 0 };
    let reference = refdrv::run(
        &sc.tab,
        refl,
        text,
        "main",
        &mut refdrv::Hooks {
            name: &dynrt::name,
            inject: &mut |_, _, k| p1.get(&k).cloned().unwrap_or_default(),
            pred: &mut |p, a, t| pred_hash(salt, p, a, t),
            silent: &|_, _| None,
            view,
            all_preds: false,
            keep: &|_| false,
        },
        cap,
    );
    if reference.is_none() && !sc.must_end {
        return Ok(None);
    }
    let p2 = plan.clone();
    let (log, res) = dynrt::drive(
        aug,
        an,
        Setup {
            tab: sc.tab.clone(),
            cap: cap * 2,
            view,
            inject: Box::new(move |_, _, k| p2.get(&k).cloned().unwrap_or_default()),
            pred: Box::new(move |p, a, t| pred_hash(salt, p, a, t)),
        },
        text,
        "main",
    );
    let res = match res {
        Ok(x) => x,
        Err((loc, msg)) => {
            if is_harness_location(&loc) && !msg.starts_with("VH:") {
                return Err(("HARNESS".into(), format!("{loc}: {msg}")));
            }
            let tail = &log[log.len().saturating_sub(8)..];
            return Err(("driver-panic".into(), format!("{loc}: {msg}\nlast events {tail:?}")));
        }
    };
    let Some(run) = reference else {
        // the reference did not finish but the driver did (it would have hit the cap otherwise)
        return Ok(None);
    };
    if let Some(d) = refdrv::first_diff(&run.events, &log) {
        return Err(("events".into(), d));
    }
    if run.result != res {
        return Err(("result".into(), format!("expected result {:?}\n     got {res:?}", run.result)));
    }
    Ok(Some(Compared { run, got: log }))
}

fn scene(r: &mut Rng, recovery: bool, chains: bool) -> Scene {
    loop {
        if recovery && r.chance(1, 24) || r.chance(1, 60) {
            if let Some(s) = deep(r) {
                return s;
            }
        }
        if r.chance(1, 2) {
            return layered(r, recovery, chains);
        }
        if let Some(s) = from_grammar(r, recovery) {
            return s;
        }
    }
}

struct Kind {
    /// in how many of 10 scenes
    recovery: usize,
    chains: bool,
    /// in how many of 10 parses
    inject: usize,
    nontrivial: fn(&Run) -> bool,
}

fn drive_all(ctx: &mut Ctx, k: Kind, quick: u64, thorough: u64) {
    let max = if ctx.o.thorough() { thorough } else { quick };
    for case in ctx.cases(max) {
        ctx.begin(case);
        let mut r = ctx.rng(case);
        let aug = case / ctx.o.shards % 2 == 1;
        let recovery = r.chance(k.recovery, 10);
        let sc = scene(&mut r, recovery, aug && k.chains);
        let refl = RefLex::new(&sc.lits, &sc.res, &sc.skips);
        ctx.desc(sc.what.clone());
        ctx.guarded("driver", |ctx| {
            let an = analyzer(&sc.lits, &sc.res, &sc.skips);
            let n = if ctx.o.thorough() { 30 } else { 16 };
            for i in 0..n {
                let max_toks = if i % 8 == 7 || sc.nest.is_some() && i % 2 == 1 { 120 } else { 14 };
                let text = if i == 0 { String::new() } else { scene_text(&mut r, &sc, max_toks) };
                let mut plan = Plan::new();
                if r.chance(k.inject, 10) {
                    let m = r.range(1, 4);
                    for _ in 0..m {
                        let at = r.range(1, 10) as u32;
                        let many = *r.pick(&[1, 1, 1, 2, 3]);
                        let v: Injects = (0..many)
                            .map(|j| {
                                let t = if r.chance(1, 5) { r.pick(&["", " ", "\n"]).to_string() } else { scene_text(&mut r, &sc, 5) };
                                (t, format!("inj{at}.{j}"))
                            })
                            .collect();
                        plan.insert(at, v);
                    }
                }
                let salt = r.next();
                let mut shown: Vec<_> = plan.iter().collect();
                shown.sort();
                ctx.desc(format!("{}\n{} driver, text {text:?}, injections by number of the semantic action call {shown:?}", sc.what, if aug { "augmented" } else { "plain" }));
                ctx.eval();
                match compare(aug, &sc, &refl, &an, &text, &plan, salt) {
                    Ok(None) => ctx.count("unusable(endless tables)", 1),
                    Ok(Some(c)) => {
                        let run = &c.run;
                        ctx.count("events", c.got.len() as u64);
                        ctx.count("shifts", run.shifts as u64);
                        ctx.count("reductions", run.reductions as u64);
                        ctx.count("reports", run.reports as u64);
                        ctx.count("recoveries", run.recoveries as u64);
                        ctx.count("recoveries_popping_states", (run.popped_by_recovery > 0) as u64);
                        ctx.count("tokens_discarded", run.discarded as u64);
                        ctx.count("injections", run.injected as u64);
                        ctx.count("accepted_cleanly", run.result.is_ok() as u64);
                        ctx.max("stack", run.max_stack as u64);
                        ctx.max("nested_texts", run.nested as u64);
                        if (k.nontrivial)(run) {
                            ctx.nontrivial(&format!("{}{text}{shown:?}", sc.what));
                            let d = sc.what.clone();
                            ctx.sample(|| format!("text {text:?} injections {shown:?}\n{d}"));
                        }
                    }
                    Err((key, d)) => {
                        if key == "HARNESS" {
                            ctx.notes.push(format!("HARNESS {d}"));
                        } else {
                            ctx.violation(&key, d);
                            return;
                        }
                    }
                }
            }
        });
    }
}

pub fn c06(ctx: &mut Ctx) {
    ctx.rule = "half synthetic tables (random actions, early accepts, empty and long productions, conditional actions), half LALR(1) tables of random and curated grammars, on both drivers, times random texts (some with unexpected or ambiguous text); an evaluation is one parse whose complete event log equals the reference machine's; non-trivial: at least 3 shifts and 3 reductions (distinct by table and text)".into();
    drive_all(ctx, Kind { recovery: 0, chains: true, inject: 0, nontrivial: |r| r.shifts >= 3 && r.reductions >= 3 }, 16000, 3_000_000);
}
pub fn c08(ctx: &mut Ctx) {
    ctx.rule = "synthetic tables with arbitrary recovery tables and LALR(1) tables of grammars with %error rules, on both drivers, times damaged texts; an evaluation is one parse compared event by event with the reference machine, with a step bound; non-trivial: at least one recovery, or discarded input (distinct by table and text)".into();
    drive_all(ctx, Kind { recovery: 10, chains: false, inject: 2, nontrivial: |r| r.recoveries > 0 || r.discarded > 0 }, 16000, 3_000_000);
}
pub fn c09(ctx: &mut Ctx) {
    ctx.rule = "tables as for the driver checks times plans that inject one or more texts (some blank) at chosen semantic action calls, nested because injected text triggers further actions; an evaluation is one parse compared event by event with the reference machine over the reference token streams; non-trivial: at least one non-blank injection happened (distinct by table, text and plan)".into();
    drive_all(ctx, Kind { recovery: 4, chains: true, inject: 10, nontrivial: |r| r.injected > 0 }, 16000, 3_000_000);
}

pub fn c07(ctx: &mut Ctx) {
    ctx.rule = "tables with and without recovery, on both drivers, times texts with several syntax and lexical errors; an evaluation is one parse whose error reports (content, moment, number) and result equal the reference machine's, plus a parse with the built-in reporter whose standard error output is read back; non-trivial: at least one report".into();
    drive_all(ctx, Kind { recovery: 8, chains: true, inject: 2, nontrivial: |r| r.reports > 0 }, 9000, 2_000_000);
    default_reporter(ctx);
}

// -------------------------------------------------------------- the built-in reporter

struct Q<'a>(&'a An);
impl lalr1::ReportError<crate::sut::Tg> for Q<'_> {}
struct QA<'a>(&'a An);
impl alalr1::ReportError<crate::sut::Tg> for QA<'_> {}

fn default_reporter(ctx: &mut Ctx) {
    use crate::sut::{Tg, tg_ix};
    let n = if ctx.o.thorough() { 4000 } else { 400 };
    for case in ctx.cases(n) {
        ctx.begin(1_000_000_000 + case);
        let mut r = ctx.rng(case ^ 0xdef);
        let sc = layered(&mut r, false, false);
        ctx.guarded("built-in reporter", |ctx| {
            let an = analyzer(&sc.lits, &sc.res, &sc.skips);
            let text = scene_text(&mut r, &sc, 12);
            ctx.desc(format!("built-in report_error for the tokens and errors of {text:?}"));
            let mut ts = an.token_stream(&text, "lbl");
            let mut want = vec![];
            let _ = ctx.stderr_since();
            for _ in 0..text.len() + 1 {
                let f = ts.front();
                let end = matches!(&f, Ok(t) if tg_ix(t.tag()).is_none());
                // (in a real parser as many tokens may be expected as the grammar has)
                let top = if r.chance(1, 8) { r.range(20, 400) } else { sc.lits.len() };
                let exp: lalr1::OrderedSet<Tg> = (1..=top).filter(|_| r.chance(1, 2)).map(|i| Tg(i as u16)).collect();
                let ambiguous = matches!(&f, Err(lexan::Error::AmbiguousMatches(..)));
                let plain = r.chance(1, 2);
                ctx.eval();
                let (shown, loc, out) = match &f {
                    Ok(t) => (
                        t.lexeme().clone(),
                        t.location().to_string(),
                        if plain {
                            crate::ctx::guard(|| lalr1::ReportError::report_error(&mut Q(&an), &lalr1::Error::SyntaxError(t.clone(), exp.clone())))
                        } else {
                            crate::ctx::guard(|| alalr1::ReportError::report_error(&mut QA(&an), &alalr1::Error::SyntaxError(t.clone(), exp.clone())))
                        },
                    ),
                    Err(e) => {
                        let (s, l) = match e {
                            lexan::Error::UnexpectedText(s, l) | lexan::Error::AmbiguousMatches(_, s, l) => (s.clone(), l.to_string()),
                            lexan::Error::AdvancedWhenEmpty(l) => (String::new(), l.to_string()),
                        };
                        (
                            s,
                            l,
                            if plain {
                                crate::ctx::guard(|| lalr1::ReportError::report_error(&mut Q(&an), &lalr1::Error::LexicalError(e.clone(), exp.clone())))
                            } else {
                                crate::ctx::guard(|| alalr1::ReportError::report_error(&mut QA(&an), &alalr1::Error::LexicalError(e.clone(), exp.clone())))
                            },
                        )
                    }
                };
                let written = ctx.stderr_since();
                match out {
                    Ok(()) => {
                        if ambiguous {
                            ctx.violation("ambiguous-continues", format!("the built-in reporter continued after {f:?}"));
                            return;
                        }
                        let names: Vec<String> = exp.iter().map(|t| t.to_string()).collect();
                        let words: std::collections::BTreeSet<&str> = written.split(|c: char| !c.is_alphanumeric()).collect();
                        let all = names.iter().all(|n| words.contains(n.as_str()));
                        ctx.max("expected tokens in one report", names.len() as u64);
                        if std::env::var("VH_STDERR").is_ok() && (!written.contains(&shown) || written.matches(&loc).count() != 1 || !all) {
                            ctx.violation("not-written", format!("the built-in reporter wrote {written:?} for {f:?} expecting {names:?}"));
                            return;
                        }
                        ctx.count("built-in reports read back", 1);
                    }
                    Err((l, m)) => {
                        if !ambiguous {
                            ctx.violation("reporter-panic", format!("the built-in reporter panicked at {l}: {m} for {f:?}"));
                            return;
                        }
                        ctx.count("built-in refusals after ambiguity", 1);
                    }
                }
                want.push(shown);
                if end {
                    break;
                }
                ts.advance();
            }
        });
    }
}


//! Walks the reference automaton and some parse tables (a compiled parser's, or a report's) in step.
use crate::ctx::guard;
use crate::gram::Gram;
use crate::refdrv::Act;
use crate::reflr::Auto;
use crate::rt::Module;
use crate::states::Report;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

/// Tables in the reference's vocabulary: terminals as in the grammar, non terminals as in reflr
/// (grammar's, then the start symbol, then the error symbol).
pub trait Tables {
    fn action(&self, s: u32, t: usize) -> Result<Act, String>;
    fn goto(&self, s: u32, n: usize) -> Result<u32, String>;
    fn production(&self, p: u32) -> Result<(usize, usize), String>;
    fn look(&self, s: u32) -> Result<BTreeSet<usize>, String>;
    fn viable(&self, t: usize) -> Result<BTreeSet<u32>, String>;
    fn err_goto(&self, s: u32) -> Result<u32, String>;
}

pub struct ModTab<'a> {
    pub m: &'a Module,
    /// reflr's non terminal number -> module's
    nt: Vec<Option<usize>>,
}
impl<'a> ModTab<'a> {
    pub fn new(m: &'a Module, g: &Gram) -> ModTab<'a> {
        let mut names = g.nts.clone();
        names.push("AAStart".into());
        names.push("AAError".into());
        ModTab { m, nt: names.iter().map(|n| m.nts.iter().position(|x| x == n)).collect() }
    }
}
fn g2<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    guard(f).map_err(|(l, m)| format!("panic at {l}: {m}"))
}
impl Tables for ModTab<'_> {
    fn action(&self, s: u32, t: usize) -> Result<Act, String> {
        g2(|| (self.m.action)(s, t))
    }
    fn goto(&self, s: u32, n: usize) -> Result<u32, String> {
        let k = self.nt[n].ok_or("no such non terminal")?;
        g2(|| (self.m.goto)(s, k))
    }
    fn production(&self, p: u32) -> Result<(usize, usize), String> {
        let (l, k) = g2(|| (self.m.production)(p))?;
        let l = self.nt.iter().position(|x| *x == Some(l)).ok_or("unknown left hand side")?;
        Ok((l, k))
    }
    fn look(&self, s: u32) -> Result<BTreeSet<usize>, String> {
        g2(|| (self.m.look)(s))
    }
    fn viable(&self, t: usize) -> Result<BTreeSet<u32>, String> {
        g2(|| (self.m.viable)(t))
    }
    fn err_goto(&self, s: u32) -> Result<u32, String> {
        g2(|| (self.m.err_goto)(s))
    }
}

pub struct RepTab<'a> {
    pub r: &'a Report,
    names: Vec<String>,
    nterms: usize,
}
impl<'a> RepTab<'a> {
    pub fn new(r: &'a Report, g: &Gram) -> RepTab<'a> {
        let mut names = g.nts.clone();
        names.push("AAStart".into());
        names.push("AAError".into());
        RepTab { r, names, nterms: g.terms.len() }
    }
}
impl Tables for RepTab<'_> {
    fn action(&self, s: u32, t: usize) -> Result<Act, String> {
        self.r.act(s, t).ok_or_else(|| "contradictory".into())
    }
    fn goto(&self, s: u32, n: usize) -> Result<u32, String> {
        self.r.states.get(s as usize).and_then(|x| x.gotos.get(&self.names[n])).copied().ok_or_else(|| "none".into())
    }
    fn production(&self, p: u32) -> Result<(usize, usize), String> {
        // only good enough for a first look: left hand side, and as many symbols as there are blanks
        let t = self.r.prods.get(p as usize).ok_or("none")?;
        let (l, rest) = t.split_once(": ").ok_or("?")?;
        let l = self.names.iter().position(|x| x == l).ok_or("?")?;
        let cut = rest.find(" #(").unwrap_or(rest.len());
        let body = &rest[..cut];
        Ok((l, if body == "<empty>" { 0 } else { body.split(' ').count() }))
    }
    fn look(&self, s: u32) -> Result<BTreeSet<usize>, String> {
        // the report has no such list: derive it, so that it is trivially right
        Ok((0..self.nterms).filter(|t| self.r.act(s, *t) != Some(Act::Error)).collect())
    }
    fn viable(&self, t: usize) -> Result<BTreeSet<u32>, String> {
        let mut v = BTreeSet::new();
        for (i, s) in self.r.states.iter().enumerate() {
            if let Some((e, _)) = &s.recovery {
                let es = self.r.states.get(*e as usize).ok_or("recovery state")?;
                if es.reds.iter().any(|(la, text, _)| la.contains(&t) && text.split(" #(").next().is_some_and(|x| x.ends_with("AAError"))) {
                    v.insert(i as u32);
                }
            }
        }
        Ok(v)
    }
    fn err_goto(&self, s: u32) -> Result<u32, String> {
        self.r.states.get(s as usize).and_then(|x| x.recovery.as_ref()).map(|x| x.0).ok_or_else(|| "none".into())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    /// states, shifts, gotos, productions, reductions where nothing had to be resolved
    Plain,
    /// an entry decided by conflict resolution
    Conflict,
    /// the reported look-ahead set
    Look,
    /// recovery tables
    Recovery,
    /// guarded reductions
    Chain,
}

#[derive(Default)]
pub struct Walk {
    pub map: BTreeMap<usize, u32>,
    pub prods: BTreeMap<u32, u32>,
    pub diffs: Vec<(Kind, String)>,
    pub entries: u64,
    pub conflict_entries: u64,
    pub gotos: u64,
    pub viable_entries: u64,
    pub chains: u64,
}

impl Walk {
    pub fn first(&self, k: Kind) -> Option<&String> {
        self.diffs.iter().find(|d| d.0 == k).map(|d| &d.1)
    }
    fn pair(&mut self, kind: Kind, a: usize, b: u32, how: &str, q: &mut VecDeque<usize>) {
        match self.map.get(&a) {
            Some(x) if *x == b => {}
            Some(x) => self.diffs.push((kind, format!("{how} leads to state {b}, but the same LALR(1) state was {x} before"))),
            None => {
                if let Some((other, _)) = self.map.iter().find(|x| *x.1 == b) {
                    self.diffs.push((kind, format!("{how} leads to state {b}, which already stands for another LALR(1) state ({other} vs {a})")));
                    return;
                }
                self.map.insert(a, b);
                q.push_back(a);
            }
        }
    }
    fn prod(&mut self, a: &Auto, t: &dyn Tables, p: u32, q: u32) -> Result<(), String> {
        match self.prods.get(&p) {
            Some(x) if *x == q => return Ok(()),
            Some(x) => return Err(format!("reduces rule {q} where it reduced rule {x} before")),
            None => {}
        }
        if let Some((o, _)) = self.prods.iter().find(|x| *x.1 == q) {
            return Err(format!("reduces rule {q}, which stands for another rule ({o})"));
        }
        let want = (a.p.v[p as usize].lhs, a.p.v[p as usize].rhs.len());
        match t.production(q) {
            Ok(x) if x == want => {
                self.prods.insert(p, q);
                Ok(())
            }
            x => Err(format!("reduces rule {q} ({x:?}), expected one with left hand side and length {want:?}")),
        }
    }
}

pub fn show(g: &Gram, a: &Auto, s: usize) -> String {
    let mut v = vec![];
    for ((p, d), la) in &a.states[s].items {
        let pr = &a.p.v[*p];
        if *d == 0 && *p != 0 && !pr.rhs.is_empty() {
            continue;
        }
        let sy = |x: &crate::gram::Sym| match x {
            crate::gram::Sym::T(t) => g.term_ref(*t, false),
            crate::gram::Sym::N(n) => a.p.nts[*n].clone(),
            _ => "?".into(),
        };
        let mut w: Vec<String> = pr.rhs.iter().map(sy).collect();
        w.insert(*d, ".".into());
        let las: Vec<String> = (0..a.p.nterms).filter(|t| la.has(*t)).map(|t| if t == 0 { "END".into() } else { g.term_ref(t, false) }).collect();
        v.push(format!("[{}: {} , {}]", a.p.nts[pr.lhs], w.join(" "), las.join(" ")));
    }
    v.join(" ")
}

pub fn walk(g: &Gram, a: &Auto, t: &dyn Tables) -> Walk {
    let tab = a.tab();
    let mut w = Walk::default();
    w.map.insert(0, 0);
    let mut q = VecDeque::from([0usize]);
    let tname = |x: usize| if x == 0 { "END".to_string() } else { g.term_ref(x, false) };
    while let Some(s) = q.pop_front() {
        if w.diffs.len() > 20 {
            break;
        }
        let gs = w.map[&s];
        let st = &a.states[s];
        let mut acts = BTreeSet::new();
        let mut ok_row = true;
        for x in 0..a.p.nterms {
            let cands = st.shifts.contains_key(&x) as usize + st.items.iter().filter(|((p, d), la)| *d == a.p.v[*p].rhs.len() && la.has(x)).count();
            let want = &tab.rows[s][x];
            let kind = if cands > 1 { Kind::Conflict } else { Kind::Plain };
            let kind = if matches!(want, Act::Chain(..)) { Kind::Chain } else { kind };
            w.entries += 1;
            w.conflict_entries += (cands > 1) as u64;
            let got = match t.action(gs, x) {
                Ok(x) => x,
                Err(e) => {
                    w.diffs.push((kind, format!("state {gs} on {}: {e}; items {}", tname(x), show(g, a, s))));
                    ok_row = false;
                    continue;
                }
            };
            if got != Act::Error {
                acts.insert(x);
            }
            let how = format!("state {gs} on {}", tname(x));
            let items = || show(g, a, s);
            match (want, &got) {
                (Act::Shift(n), Act::Shift(m)) => w.pair(kind, *n as usize, *m, &format!("{how}: shift"), &mut q),
                (Act::Reduce(p), Act::Reduce(r)) => {
                    if let Err(e) = w.prod(a, t, *p, *r) {
                        w.diffs.push((kind, format!("{how}: {e}; items {}", items())));
                    }
                }
                (Act::Accept, Act::Accept) | (Act::Error, Act::Error) => {}
                (Act::Chain(v, l), Act::Chain(v2, l2)) => {
                    w.chains += 1;
                    let same = v.len() == v2.len() && l.is_some() == l2.is_some();
                    let mut e = if same { None } else { Some("differs".to_string()) };
                    if same {
                        for (x, y) in v.iter().zip(v2) {
                            // predicates carry their rule's number
                            if x != y {
                                e = Some(format!("asks the predicate of rule {y} where that of rule {x} is due"));
                            }
                        }
                        if let (Some(x), Some(y)) = (l, l2) {
                            if let Err(m) = w.prod(a, t, *x, *y) {
                                e = Some(m);
                            }
                        }
                    }
                    if let Some(e) = e {
                        w.diffs.push((kind, format!("{how}: {e}: expected {want:?}, got {got:?}; items {}", items())));
                    }
                }
                _ => w.diffs.push((kind, format!("{how}: expected {want:?} got {got:?}; items {}", items()))),
            }
        }
        for (n, to) in &st.gotos {
            if *n == a.p.start_nt {
                continue;
            }
            w.gotos += 1;
            match t.goto(gs, *n) {
                Ok(m) => w.pair(Kind::Plain, *to, m, &format!("state {gs}: goto on {}", a.p.nts[*n]), &mut q),
                Err(e) => w.diffs.push((Kind::Plain, format!("state {gs}: no goto on {} ({e}); items {}", a.p.nts[*n], show(g, a, s)))),
            }
        }
        if ok_row {
            match t.look(gs) {
                Ok(v) if v == acts => {}
                Ok(v) => {
                    let sh = |v: &BTreeSet<usize>| v.iter().map(|x| tname(*x)).collect::<Vec<_>>().join(" ");
                    w.diffs.push((Kind::Look, format!("state {gs}: look-ahead set {{{}}} but there are actions on {{{}}}; items {}", sh(&v), sh(&acts), show(g, a, s))));
                }
                Err(e) => w.diffs.push((Kind::Look, format!("state {gs}: look-ahead set: {e}"))),
            }
        }
    }
    // recovery
    let back: BTreeMap<u32, usize> = w.map.iter().map(|(a, b)| (*b, *a)).collect();
    for x in 0..a.p.nterms {
        let want: BTreeSet<u32> = w.map.iter().filter(|(s, _)| a.viable(**s, x)).map(|(_, b)| *b).collect();
        match t.viable(x) {
            Ok(v) => {
                w.viable_entries += want.len() as u64;
                // states that conflict resolution cut off do not matter
                let v: BTreeSet<u32> = v.into_iter().filter(|s| back.contains_key(s)).collect();
                if v != want {
                    let d: Vec<String> = v.symmetric_difference(&want).map(|s| format!("{s} {}", back.get(s).map(|r| show(g, a, *r)).unwrap_or_default())).collect();
                    w.diffs.push((Kind::Recovery, format!("viable states on {}: expected {want:?} got {v:?}; difference {}", tname(x), d.join("; "))));
                }
                for s in v.intersection(&want) {
                    let to = a.states[back[s]].gotos[&a.p.err_nt];
                    match t.err_goto(*s) {
                        Ok(n) if w.map.get(&to) == Some(&n) => {}
                        n => w.diffs.push((Kind::Recovery, format!("recovery from state {s}: goes to {n:?}, expected {:?}", w.map.get(&to)))),
                    }
                }
            }
            Err(e) => w.diffs.push((Kind::Recovery, format!("viable states on {}: {e}", tname(x)))),
        }
    }
    w
}

//! The reference machine: runs parse tables over a reference token stream and records what must be observed.
use crate::reflex::{Item, Loc, RefLex, RefStream};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Act {
    Shift(u32),
    Reduce(u32),
    Accept,
    Error,
    /// guarded reductions in order, then an unguarded one if any
    Chain(Vec<u32>, Option<u32>),
}

/// Parse tables. Terminal 0 is the end marker, state 0 the initial state.
#[derive(Clone, Debug, Default)]
pub struct Tab {
    pub rows: Vec<Vec<Act>>,
    pub gotos: HashMap<(u32, u32), u32>,
    pub prods: Vec<(u32, usize)>,
    pub viable: Vec<BTreeSet<u32>>,
    pub err_goto: BTreeMap<u32, u32>,
    pub look: Vec<BTreeSet<usize>>,
    /// a number of symbols that is certainly on the stack when this state is on top
    pub depth: Vec<usize>,
}

impl Tab {
    pub fn set_depths(&mut self) {
        let n = self.rows.len();
        self.depth = vec![usize::MAX; n];
        let mut q = VecDeque::from([0usize]);
        self.depth[0] = 0;
        while let Some(s) = q.pop_front() {
            let d = self.depth[s] + 1;
            let mut out: Vec<usize> = self.rows[s].iter().filter_map(|a| if let Act::Shift(t) = a { Some(*t as usize) } else { None }).collect();
            out.extend(self.gotos.iter().filter(|((x, _), _)| *x as usize == s).map(|(_, t)| *t as usize));
            out.extend(self.err_goto.get(&(s as u32)).map(|x| *x as usize));
            for t in out {
                if self.depth[t] > d {
                    self.depth[t] = d;
                    q.push_back(t);
                }
            }
        }
        for d in self.depth.iter_mut() {
            if *d == usize::MAX {
                *d = 0;
            }
        }
    }
}

/// A value on the parse stack. `name` identifies the terminal.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub enum Val {
    #[default]
    Default,
    Tok(String, String, Loc),
    Err(String),
    Node(u32),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    /// next_action asked for (state, terminal name, lexeme, location, values it can see)
    Query(u32, String, String, Loc, Vec<Val>),
    Shift(Val),
    Reduce(u32, Vec<Val>, u32),
    Report(String),
    Recover(Val),
    /// predicate of production evaluated on these values and look-ahead
    Pred(u32, Vec<Val>, String),
}

pub fn show_syntax(name: &str, lexeme: &str, loc: &Loc, expected: &[String]) -> String {
    format!("syntax error: {name} {lexeme:?} at {}:{}:{} expected {expected:?}", loc.label, loc.line, loc.off)
}
pub fn show_lexical(it: &Item, name: &dyn Fn(usize) -> String, expected: &[String]) -> String {
    let l = it.loc();
    let at = format!("{}:{}:{}", l.label, l.line, l.off);
    match it {
        Item::Unexpected(s, _) => format!("lexical error: unexpected {s:?} at {at} expected {expected:?}"),
        Item::Ambiguous(t, s, _) => {
            let mut n: Vec<String> = t.iter().map(|x| name(*x)).collect();
            n.sort();
            format!("lexical error: ambiguous {n:?} {s:?} at {at} expected {expected:?}")
        }
        Item::Empty(_) => format!("lexical error: advanced when empty at {at} expected {expected:?}"),
        x => format!("lexical error?? {x:?}"),
    }
}

pub type Injects = Vec<(String, String)>;

pub struct Run {
    pub events: Vec<Ev>,
    pub result: Result<(), String>,
    pub steps: usize,
    pub reports: usize,
    pub recoveries: usize,
    pub discarded: usize,
    pub max_stack: usize,
    pub popped_by_recovery: usize,
    pub injected: usize,
    pub nested: usize,
    pub reductions: usize,
    pub shifts: usize,
    /// states visited
    pub states: BTreeSet<u32>,
    /// tokens shifted or rejected, in order, as terminal numbers (for cross checks with other oracles)
    pub first_error_at: Option<usize>,
    pub first_error_loc: Option<Loc>,
}

pub struct Hooks<'a> {
    pub name: &'a dyn Fn(usize) -> String,
    /// what the semantic action injects (production, values, number of the call)
    pub inject: &'a mut dyn FnMut(u32, &[Val], u32) -> Injects,
    pub pred: &'a mut dyn FnMut(u32, &[Val], &str) -> bool,
    /// Some(value) when the production has no recording action and so leaves this value
    pub silent: &'a dyn Fn(u32, &[Val]) -> Option<Val>,
    /// show queries with the values visible to conditional actions
    pub view: usize,
    /// record (and evaluate) every predicate of a chain, not only up to the first that holds
    pub all_preds: bool,
    /// the production's action is recorded but leaves the initial value
    pub keep: &'a dyn Fn(u32) -> bool,
}

/// None if more than `cap` steps are needed or the tables lead nowhere.
pub fn run(tab: &Tab, lex: &RefLex, text: &str, label: &str, h: &mut Hooks, cap: usize) -> Option<Run> {
    let mut ts = RefStream::new(lex, text, label);
    let mut states: Vec<u32> = vec![0];
    let mut vals: Vec<Val> = vec![];
    let mut used: Vec<u32> = vec![];
    let mut r = Run {
        events: vec![],
        result: Ok(()),
        steps: 0,
        reports: 0,
        recoveries: 0,
        discarded: 0,
        max_stack: 0,
        popped_by_recovery: 0,
        injected: 0,
        nested: 0,
        reductions: 0,
        shifts: 0,
        states: BTreeSet::new(),
        first_error_at: None,
        first_error_loc: None,
    };
    let mut calls = 0u32;
    let term = |i: &Item| match i {
        Item::Tok(t, ..) => Some(*t),
        Item::End(_) => Some(0),
        _ => None,
    };
    loop {
        r.steps += 1;
        if r.steps > cap || states.len() > 5000 {
            return None;
        }
        r.max_stack = r.max_stack.max(states.len());
        let cur = *states.last().unwrap();
        r.states.insert(cur);
        let it = ts.front().clone();
        let expected = || {
            let mut v: Vec<String> = tab.look[cur as usize].iter().map(|t| (h.name)(*t)).collect();
            v.sort();
            v
        };
        let mut error = None;
        match term(&it) {
            None => error = Some(show_lexical(&it, h.name, &expected())),
            Some(t) => {
                let name = (h.name)(t);
                let n = tab.depth[cur as usize].min(h.view).min(vals.len());
                let seen: Vec<Val> = vals.iter().rev().take(n).cloned().collect();
                r.events.push(Ev::Query(cur, name.clone(), it.text().to_string(), it.loc().clone(), seen));
                let mut act = tab.rows[cur as usize][t].clone();
                if let Act::Chain(guarded, last) = &act {
                    let mut chosen = None;
                    for p in guarded {
                        let len = tab.prods[*p as usize].1;
                        let args = vals[vals.len() - len..].to_vec();
                        let yes = (h.pred)(*p, &args, &name);
                        r.events.push(Ev::Pred(*p, args, name.clone()));
                        if yes && chosen.is_none() {
                            chosen = Some(*p);
                            if !h.all_preds {
                                break;
                            }
                        }
                    }
                    act = match chosen.or(*last) {
                        None => Act::Error,
                        Some(0) => Act::Accept,
                        Some(p) => Act::Reduce(p),
                    };
                }
                match act {
                    Act::Accept => return Some(r),
                    Act::Shift(s) => {
                        let v = Val::Tok(name, it.text().to_string(), it.loc().clone());
                        r.events.push(Ev::Shift(v.clone()));
                        vals.push(v);
                        states.push(s);
                        used.clear();
                        ts.advance();
                        r.shifts += 1;
                    }
                    Act::Reduce(p) => {
                        let (lhs, len) = tab.prods[p as usize];
                        if len > vals.len() {
                            return None;
                        }
                        let args = vals.split_off(vals.len() - len);
                        states.truncate(states.len() - len);
                        let to = *tab.gotos.get(&(*states.last().unwrap(), lhs))?;
                        r.reductions += 1;
                        let v = match (h.silent)(p, &args) {
                            Some(v) => v,
                            None => {
                                calls += 1;
                                r.events.push(Ev::Reduce(p, args.clone(), calls));
                                for (s, l) in (h.inject)(p, &args, calls) {
                                    let d = ts.depth();
                                    ts.inject(&s, &l);
                                    if ts.depth() > d {
                                        r.injected += 1;
                                        r.nested = r.nested.max(ts.depth());
                                    }
                                }
                                if (h.keep)(p) { args.first().cloned().unwrap_or_default() } else { Val::Node(calls) }
                            }
                        };
                        vals.push(v);
                        states.push(to);
                    }
                    Act::Error => {
                        if r.first_error_at.is_none() {
                            r.first_error_at = Some(r.shifts);
                        }
                        error = Some(show_syntax(&name, it.text(), it.loc(), &expected()));
                    }
                    Act::Chain(..) => unreachable!(),
                }
            }
        }
        if let Some(e) = error {
            if r.first_error_loc.is_none() {
                r.first_error_loc = Some(it.loc().clone());
            }
            r.events.push(Ev::Report(e.clone()));
            r.reports += 1;
            r.result = Err(e.clone());
            let mut found = None;
            while !ts.is_empty() {
                if let Some(t) = term(ts.front()) {
                    if let Some(k) = (0..states.len()).rev().find(|k| !used.contains(&states[*k]) && tab.viable[t].contains(&states[*k])) {
                        found = Some(k);
                        break;
                    }
                }
                ts.advance();
                r.discarded += 1;
                used.clear();
            }
            let Some(k) = found else { return Some(r) };
            r.recoveries += 1;
            r.popped_by_recovery += states.len() - 1 - k;
            used.push(states[k]);
            states.truncate(k + 1);
            vals.truncate(k);
            states.push(*tab.err_goto.get(&states[k])?);
            let v = Val::Err(e);
            r.events.push(Ev::Recover(v.clone()));
            vals.push(v);
        }
    }
}

/// Collapse repeated identical queries (asking twice is not a difference anybody relies on).
pub fn canon(ev: &[Ev]) -> Vec<Ev> {
    let mut v: Vec<Ev> = vec![];
    for e in ev {
        if matches!(e, Ev::Query(..) | Ev::Pred(..)) && v.last() == Some(e) {
            continue;
        }
        v.push(e.clone());
    }
    v
}

pub fn first_diff(want: &[Ev], got: &[Ev]) -> Option<String> {
    let (w, g) = (canon(want), canon(got));
    if w == g {
        return None;
    }
    let i = w.iter().zip(&g).take_while(|(a, b)| a == b).count();
    let lo = i.saturating_sub(3);
    Some(format!(
        "event {i}: expected {:?}\n         got {:?}\n    after {:?}",
        w.get(i).map(|x| format!("{x:?}")).unwrap_or("nothing more".into()),
        g.get(i).map(|x| format!("{x:?}")).unwrap_or("nothing more".into()),
        &w[lo..i]
    ))
}

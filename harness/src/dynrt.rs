//! Parsers for the real drivers (lalr1, alalr1) whose tables are data, and which record everything asked of them.
use crate::refdrv::{Act, Ev, Injects, Tab, Val, show_lexical, show_syntax};

use crate::sut::{self, An, END, Tg};
use std::cell::RefCell;
use std::fmt::{Debug, Display};
use std::rc::Rc;

pub struct Env {
    pub tab: Rc<Tab>,
    pub log: Vec<Ev>,
    pub calls: u32,
    pub steps: usize,
    pub cap: usize,
    pub inject: Box<dyn FnMut(u32, &[Val], u32) -> Injects>,
    pub pred: Box<dyn FnMut(u32, &[Val], &str) -> bool>,
    pub view: usize,
}

thread_local! {
    pub static ENV: RefCell<Option<Env>> = const { RefCell::new(None) };
}
fn env<R>(f: impl FnOnce(&mut Env) -> R) -> R {
    ENV.with(|e| f(e.borrow_mut().as_mut().expect("no environment")))
}
fn tab() -> Rc<Tab> {
    env(|e| e.tab.clone())
}

pub fn term_of(t: &Tg) -> usize {
    if *t == END { 0 } else { t.0 as usize }
}
pub fn tg(t: usize) -> Tg {
    if t == 0 { END } else { Tg(t as u16) }
}
pub fn name(t: usize) -> String {
    format!("{:?}", tg(t))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Nt(pub u32);
impl Display for Nt {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "n{}", self.0)
    }
}

/// Values with the conversions the drivers need; conversions are recorded.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Av(pub Val);

pub fn tok_val<T: Copy + Eq + Debug + Display>(t: &lexan::Token<T>) -> Val {
    Val::Tok(format!("{:?}", t.tag()), t.lexeme().clone(), sut::loc(t.location()))
}
pub fn show_lex_err<T: Copy + Eq + Ord + Debug + Display>(e: &lexan::Error<T>, expected: &[String]) -> String {
    // names are formatted here, so give the items stable indices
    let names: RefCell<Vec<String>> = RefCell::new(vec![]);
    let it = sut::lex_error(e, &|t: &T| {
        let mut n = names.borrow_mut();
        n.push(format!("{t:?}"));
        Some(n.len() - 1)
    });
    let n = names.into_inner();
    show_lexical(&it, &|i| n[i].clone(), expected)
}
fn sorted<T: Debug>(i: impl Iterator<Item = T>) -> Vec<String> {
    let mut v: Vec<String> = i.map(|x| format!("{x:?}")).collect();
    v.sort();
    v
}
pub fn show_err<T: Ord + Copy + Debug + Display>(e: &lalr1::Error<T>) -> String {
    match e {
        lalr1::Error::SyntaxError(t, x) => show_syntax(&format!("{:?}", t.tag()), t.lexeme(), &sut::loc(t.location()), &sorted(x.iter())),
        lalr1::Error::LexicalError(l, x) => show_lex_err(l, &sorted(x.iter())),
    }
}
pub fn show_aerr<T: Ord + Copy + Debug + Display>(e: &alalr1::Error<T>) -> String {
    match e {
        alalr1::Error::SyntaxError(t, x) => show_syntax(&format!("{:?}", t.tag()), t.lexeme(), &sut::loc(t.location()), &sorted(x.iter())),
        alalr1::Error::LexicalError(l, x) => show_lex_err(l, &sorted(x.iter())),
    }
}

impl From<lexan::Token<Tg>> for Av {
    fn from(t: lexan::Token<Tg>) -> Av {
        let v = tok_val(&t);
        env(|e| e.log.push(Ev::Shift(v.clone())));
        Av(v)
    }
}
impl From<lalr1::Error<Tg>> for Av {
    fn from(x: lalr1::Error<Tg>) -> Av {
        let v = Val::Err(show_err(&x));
        env(|e| e.log.push(Ev::Recover(v.clone())));
        Av(v)
    }
}
impl From<alalr1::Error<Tg>> for Av {
    fn from(x: alalr1::Error<Tg>) -> Av {
        let v = Val::Err(show_aerr(&x));
        env(|e| e.log.push(Ev::Recover(v.clone())));
        Av(v)
    }
}

fn vals(a: &[Av]) -> Vec<Val> {
    a.iter().map(|x| x.0.clone()).collect()
}

fn query(state: u32, t: &lexan::Token<Tg>, seen: Vec<Val>) {
    env(|e| {
        e.steps += 1;
        if e.steps > e.cap {
            panic!("VH: the driver asked for more than {} actions", e.cap);
        }
        let ev = Ev::Query(state, format!("{:?}", t.tag()), t.lexeme().clone(), sut::loc(t.location()), seen);
        e.log.push(ev);
    })
}

fn prod_data(p: u32) -> (Nt, usize) {
    let (n, l) = tab().prods.get(p as usize).copied().unwrap_or_else(|| panic!("VH: the driver asked for production {p}"));
    (Nt(n), l)
}
fn goto(lhs: &Nt, s: u32) -> u32 {
    *tab().gotos.get(&(s, lhs.0)).unwrap_or_else(|| panic!("VH: the driver asked for goto({s}, {lhs})"))
}
fn viable(t: &Tg) -> lalr1::OrderedSet<u32> {
    tab().viable[term_of(t)].iter().copied().collect()
}
fn err_goto(s: u32) -> u32 {
    *tab().err_goto.get(&s).unwrap_or_else(|| panic!("VH: the driver asked where state {s} goes on an error"))
}
fn look(s: u32) -> lalr1::OrderedSet<Tg> {
    tab().look[s as usize].iter().map(|t| tg(*t)).collect()
}
fn semantic<F: FnMut(String, String)>(p: u32, a: Vec<Av>, mut inject: F) -> Av {
    let args = vals(&a);
    let (id, inj) = env(|e| {
        e.calls += 1;
        let id = e.calls;
        e.log.push(Ev::Reduce(p, args.clone(), id));
        (id, (e.inject)(p, &args, id))
    });
    for (s, l) in inj {
        inject(s, l);
    }
    Av(Val::Node(id))
}

pub struct DynL<'a> {
    pub an: &'a An,
}
impl lalr1::ReportError<Tg> for DynL<'_> {
    fn report_error(&mut self, error: &lalr1::Error<Tg>) {
        let s = show_err(error);
        env(|e| e.log.push(Ev::Report(s)));
    }
}
macro_rules! common {
    () => {
        fn lexical_analyzer(&self) -> &An {
            self.an
        }
        fn production_data(p: u32) -> (Nt, usize) {
            prod_data(p)
        }
        fn goto_state(lhs: &Nt, s: u32) -> u32 {
            goto(lhs, s)
        }
        fn do_semantic_action<F: FnMut(String, String)>(&mut self, p: u32, a: Vec<Av>, inject: F) -> Av {
            semantic(p, a, inject)
        }
        fn viable_error_recovery_states(t: &Tg) -> lalr1::OrderedSet<u32> {
            viable(t)
        }
        fn error_goto_state(s: u32) -> u32 {
            err_goto(s)
        }
        fn look_ahead_set(s: u32) -> lalr1::OrderedSet<Tg> {
            look(s)
        }
    };
}
fn plain_action(state: u32, t: &lexan::Token<Tg>) -> Act {
    query(state, t, vec![]);
    let tb = tab();
    let row = tb.rows.get(state as usize).unwrap_or_else(|| panic!("VH: the driver asked for state {state}"));
    row[term_of(t.tag())].clone()
}
impl lalr1::Parser<Tg, Nt, Av> for DynL<'_> {
    common!();
    fn next_action(&self, state: u32, t: &lexan::Token<Tg>) -> lalr1::Action {
        match plain_action(state, t) {
            Act::Shift(s) => lalr1::Action::Shift(s),
            Act::Reduce(p) => lalr1::Action::Reduce(p),
            Act::Accept => lalr1::Action::Accept,
            Act::Error | Act::Chain(..) => lalr1::Action::SyntaxError,
        }
    }
}

pub struct DynA<'a> {
    pub an: &'a An,
}
impl alalr1::ReportError<Tg> for DynA<'_> {
    fn report_error(&mut self, error: &alalr1::Error<Tg>) {
        let s = show_aerr(error);
        env(|e| e.log.push(Ev::Report(s)));
    }
}
impl alalr1::Parser<Tg, Nt, Av> for DynA<'_> {
    common!();
    fn next_action(&self, state: u32, stack: &alalr1::ParseStack<Tg, Nt, Av>, t: &lexan::Token<Tg>) -> alalr1::Action {
        let tb = tab();
        let view = env(|e| e.view);
        let row = tb.rows.get(state as usize).unwrap_or_else(|| panic!("VH: the driver asked for state {state}"));
        let n = tb.depth[state as usize].min(view);
        let seen: Vec<Val> = (1..=n).map(|i| stack.at_len_minus_n(i).0.clone()).collect();
        query(state, t, seen);
        let mut act = row[term_of(t.tag())].clone();
        if let Act::Chain(guarded, last) = &act {
            let nm = format!("{:?}", t.tag());
            let mut chosen = None;
            for p in guarded {
                let len = tb.prods[*p as usize].1;
                let args: Vec<Val> = (0..len).map(|i| stack.at_len_minus_n(len - i).0.clone()).collect();
                let yes = env(|e| (e.pred)(*p, &args, &nm));
                env(|e| e.log.push(Ev::Pred(*p, args, nm.clone())));
                if yes {
                    chosen = Some(*p);
                    break;
                }
            }
            act = match chosen.or(*last) {
                None => Act::Error,
                Some(0) => Act::Accept,
                Some(p) => Act::Reduce(p),
            };
        }
        match act {
            Act::Shift(s) => alalr1::Action::Shift(s),
            Act::Reduce(p) => alalr1::Action::Reduce(p),
            Act::Accept => alalr1::Action::Accept,
            _ => alalr1::Action::SyntaxError,
        }
    }
}

pub struct Setup {
    pub tab: Rc<Tab>,
    pub cap: usize,
    pub view: usize,
    pub inject: Box<dyn FnMut(u32, &[Val], u32) -> Injects>,
    pub pred: Box<dyn FnMut(u32, &[Val], &str) -> bool>,
}

/// Run the real driver. Returns the log and the result (errors rendered), or the panic.
pub fn drive(aug: bool, an: &An, s: Setup, text: &str, label: &str) -> (Vec<Ev>, Result<Result<(), String>, (String, String)>) {
    ENV.with(|e| {
        *e.borrow_mut() = Some(Env { tab: s.tab, log: vec![], calls: 0, steps: 0, cap: s.cap, inject: s.inject, pred: s.pred, view: s.view });
    });
    let r = crate::ctx::guard(|| {
        if aug {
            alalr1::Parser::parse_text(&mut DynA { an }, text, label).map_err(|e| show_aerr(&e))
        } else {
            lalr1::Parser::parse_text(&mut DynL { an }, text, label).map_err(|e| show_err(&e))
        }
    });
    let env = ENV.with(|e| e.borrow_mut().take());
    (env.map(|e| e.log).unwrap_or_default(), r)
}


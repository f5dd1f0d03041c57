//! What generated parsers are compiled against: attribute type, parser type, action helpers that record
//! everything, and type-erased access to a compiled parser's tables.
use crate::dynrt::{show_aerr, show_err, tok_val};
use crate::refdrv::{Act, Ev, Injects, Val};
use crate::reflex::Item;
use crate::sut;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::fmt::{Debug, Display};
use std::marker::PhantomData;
use std::sync::Arc;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct AT(pub Val);

/// The parser type of generated parsers.
#[derive(Debug, Default, Clone)]
pub struct P;

pub type PredFn = Box<dyn FnMut(u32, &[Val], &str) -> bool>;
pub type InjFn = Box<dyn FnMut(u32, &[Val], u32) -> Injects>;

pub struct RtEnv {
    pub log: Vec<Ev>,
    pub calls: u32,
    pub cap: usize,
    pub pred: PredFn,
    pub inject: InjFn,
    pub pending: Injects,
    /// called inside actions (to run other parsers meanwhile)
    pub inner: Option<Box<dyn FnMut(u32)>>,
    /// log reports word for word
    pub raw: bool,
}

impl RtEnv {
    pub fn new(cap: usize) -> RtEnv {
        RtEnv { log: vec![], calls: 0, cap, pred: Box::new(|_, _, _| true), inject: Box::new(|_, _, _| vec![]), pending: vec![], inner: None, raw: false }
    }
}

thread_local! {
    static ENVS: RefCell<Vec<RtEnv>> = const { RefCell::new(vec![]) };
}
pub fn push_env(e: RtEnv) {
    ENVS.with(|v| v.borrow_mut().push(e));
}
pub fn pop_env() -> RtEnv {
    ENVS.with(|v| v.borrow_mut().pop().expect("no environment"))
}
fn env<R>(f: impl FnOnce(&mut RtEnv) -> R) -> R {
    ENVS.with(|v| f(v.borrow_mut().last_mut().expect("no environment")))
}
fn log(e: Ev) {
    env(|v| {
        if v.log.len() > v.cap {
            panic!("VH: the parser produced more than {} events", v.cap);
        }
        v.log.push(e)
    });
}

impl<T: Copy + Eq + Ord + Debug + Display> From<lexan::Token<T>> for AT {
    fn from(t: lexan::Token<T>) -> AT {
        let v = tok_val(&t);
        log(Ev::Shift(v.clone()));
        AT(v)
    }
}
impl<T: Copy + Eq + Ord + Debug + Display> From<lalr1::Error<T>> for AT {
    fn from(x: lalr1::Error<T>) -> AT {
        let v = Val::Err(show_err(&x));
        log(Ev::Recover(v.clone()));
        AT(v)
    }
}
impl<T: Copy + Eq + Ord + Debug + Display> From<alalr1::Error<T>> for AT {
    fn from(x: alalr1::Error<T>) -> AT {
        let v = Val::Err(show_aerr(&x));
        log(Ev::Recover(v.clone()));
        AT(v)
    }
}
impl<T: Copy + Eq + Ord + Debug + Display> lalr1::ReportError<T> for P {
    fn report_error(&mut self, error: &lalr1::Error<T>) {
        let words = if env(|e| e.raw) { format!(" {error} {error:?}") } else { String::new() };
        log(Ev::Report(show_err(error) + &words));
    }
}
impl<T: Copy + Eq + Ord + Debug + Display> alalr1::ReportError<T> for P {
    fn report_error(&mut self, error: &alalr1::Error<T>) {
        let words = if env(|e| e.raw) { format!(" {error} {error:?}") } else { String::new() };
        log(Ev::Report(show_aerr(error) + &words));
    }
}

fn act(p: u32, a: &[&AT]) -> u32 {
    let args: Vec<Val> = a.iter().map(|x| x.0.clone()).collect();
    let id = env(|e| {
        e.calls += 1;
        e.calls
    });
    log(Ev::Reduce(p, args.clone(), id));
    env(|e| e.pending = (e.inject)(p, &args, id));
    // run whatever is to run in the middle of this action with no environment borrowed
    if let Some(mut f) = env(|e| e.inner.take()) {
        f(id);
        env(|e| e.inner = Some(f));
    }
    id
}
/// An action that makes a node.
pub fn node(p: u32, a: &[&AT]) -> AT {
    AT(Val::Node(act(p, a)))
}
/// The same, also saying what $$ was before.
pub fn nodeb(p: u32, before: &AT, a: &[&AT]) -> AT {
    let want = a.first().map(|x| x.0.clone()).unwrap_or_default();
    if before.0 != want {
        log(Ev::Report(format!("$$ was {:?} before assignment, expected {want:?}", before.0)));
    }
    node(p, a)
}
/// An action that leaves $$ alone.
pub fn touch(p: u32, a: &[&AT]) {
    act(p, a);
}
/// Texts to inject after the action that just ran.
pub fn injections() -> Injects {
    env(|e| std::mem::take(&mut e.pending))
}
/// A predicate.
pub fn pred<T: Debug>(p: u32, a: &[&AT], tag: &T) -> bool {
    let args: Vec<Val> = a.iter().map(|x| x.0.clone()).collect();
    let tag = format!("{tag:?}");
    let yes = env(|e| (e.pred)(p, &args, &tag));
    log(Ev::Pred(p, args, tag));
    yes
}

// ------------------------------------------------------------------ type-erased compiled parsers

pub struct Module {
    pub aug: bool,
    /// Debug name and printed form
    pub terms: Vec<(String, String)>,
    pub nts: Vec<String>,
    pub action: Box<dyn Fn(u32, usize) -> Act + Send + Sync>,
    pub goto: Box<dyn Fn(u32, usize) -> u32 + Send + Sync>,
    pub production: Box<dyn Fn(u32) -> (usize, usize) + Send + Sync>,
    pub look: Box<dyn Fn(u32) -> BTreeSet<usize> + Send + Sync>,
    pub viable: Box<dyn Fn(usize) -> BTreeSet<u32> + Send + Sync>,
    pub err_goto: Box<dyn Fn(u32) -> u32 + Send + Sync>,
    pub parse: Box<dyn Fn(&str, &str) -> Result<(), String> + Send + Sync>,
    pub lex: Box<dyn Fn(&str, &str, &[(usize, String, String)]) -> Vec<Item> + Send + Sync>,
    /// hand one parser object's parse method to a function
    pub session: Box<dyn Fn(&mut dyn FnMut(&mut dyn FnMut(&str, &str) -> Result<(), String>)) + Send + Sync>,
    /// read several streams of the one lexer in turns chosen by a function
    pub weave: Box<dyn Fn(&[(String, String)], &mut dyn FnMut(usize) -> usize) -> Vec<Vec<Item>> + Send + Sync>,
}
pub type ModFn = fn() -> Module;

/// Outcome of running a compiled parser on a text.
pub struct Outcome {
    pub events: Vec<Ev>,
    pub result: Result<Result<(), String>, (String, String)>,
}

impl Module {
    pub fn run(&self, e: RtEnv, text: &str, label: &str) -> Outcome {
        outcome(e, &mut || (self.parse)(text, label))
    }
}

/// What a parse did.
pub fn outcome(e: RtEnv, parse: &mut dyn FnMut() -> Result<(), String>) -> Outcome {
    {
        let depth = ENVS.with(|v| v.borrow().len());
        push_env(e);
        let result = crate::ctx::guard(parse);
        // a panic below may have left environments behind
        while ENVS.with(|v| v.borrow().len()) > depth + 1 {
            pop_env();
        }
        Outcome { events: pop_env().log, result }
    }
}

fn ix<T: PartialEq>(v: &[T], x: &T) -> usize {
    v.iter().position(|y| y == x).unwrap_or(usize::MAX)
}

/// Everything a token stream delivers, injecting (after so many tokens, text, label).
fn lex_all<T: Copy + Ord + Debug + Display>(an: &lexan::LexicalAnalyzer<T>, terms: &[T], text: &str, label: &str, inj: &[(usize, String, String)]) -> Vec<Item> {
    let mut ts = an.token_stream(text, label);
    let mut v = vec![];
    let f = |t: &T| match ix(terms, t) {
        0 => None,
        i => Some(i),
    };
    let limit = text.len() + inj.iter().map(|x| x.1.len()).sum::<usize>() + 4;
    loop {
        for (n, s, l) in inj {
            if *n == v.len() {
                ts.inject(s, l);
            }
        }
        let it = sut::item(&ts.front(), &f);
        let end = matches!(it, Item::End(_) | Item::Empty(_));
        v.push(it);
        if end || v.len() > limit {
            return v;
        }
        ts.advance();
    }
}

/// Several streams of one lexer, read in turns.
fn weave<T: Copy + Ord + Debug + Display>(an: &lexan::LexicalAnalyzer<T>, terms: &[T], v: &[(String, String)], next: &mut dyn FnMut(usize) -> usize) -> Vec<Vec<Item>> {
    let f = |t: &T| match ix(terms, t) {
        0 => None,
        i => Some(i),
    };
    let mut ts: Vec<_> = v.iter().map(|(t, _)| (None, t.len() + 4, false)).collect();
    let mut out = vec![vec![]; v.len()];
    let mut left = v.len();
    while left > 0 {
        let live: Vec<usize> = (0..v.len()).filter(|i| !ts[*i].2).collect();
        let i = live[next(live.len())];
        let s = ts[i].0.get_or_insert_with(|| an.token_stream(&v[i].0, &v[i].1));
        let it = sut::item(&s.front(), &f);
        let end = matches!(it, Item::End(_) | Item::Empty(_));
        out[i].push(it);
        if !end {
            s.advance();
        }
        if end || out[i].len() > ts[i].1 {
            ts[i].2 = true;
            left -= 1;
        }
    }
    out
}

fn names<T: Debug + Display>(terms: &[T]) -> Vec<(String, String)> {
    terms.iter().map(|t| (format!("{t:?}"), t.to_string())).collect()
}

/// A token with this tag (made by a one-off lexer).
fn token_of<T: Copy + Ord + Debug + Display>(t: T, other: T) -> lexan::Token<T> {
    let an = lexan::LexicalAnalyzer::new(&[(t, "x")], &[], &[], other);
    an.token_stream("x", "probe").front().expect("one token")
}
fn end_token<T: Copy + Ord + Debug + Display>(end: T, other: T) -> lexan::Token<T> {
    let an = lexan::LexicalAnalyzer::new(&[(other, "x")], &[], &[], end);
    an.token_stream("", "probe").front().expect("the end")
}
fn tok<T: Copy + Ord + Debug + Display>(terms: &[T], i: usize) -> lexan::Token<T> {
    if i == 0 { end_token(terms[0], terms[1]) } else { token_of(terms[i], terms[0]) }
}

macro_rules! common {
    ($lib:ident, $show:ident, $terms:ident, $nts:ident, $action:expr, $aug:expr) => {{
        let (t, n) = (Arc::new($terms), Arc::new($nts));
        let (t1, t2, t3, t4, n1, n2) = (t.clone(), t.clone(), t.clone(), t.clone(), n.clone(), n.clone());
        Module {
            aug: $aug,
            terms: names(&t),
            nts: n.iter().map(|x| format!("{x:?}")).collect(),
            action: $action,
            goto: Box::new(move |s, i| <Q as $lib::Parser<T, N, AT>>::goto_state(&n1[i], s)),
            production: Box::new(move |p| {
                let (l, k) = <Q as $lib::Parser<T, N, AT>>::production_data(p);
                (ix(&n2, &l), k)
            }),
            look: Box::new(move |s| <Q as $lib::Parser<T, N, AT>>::look_ahead_set(s).iter().map(|x| ix(&t1, x)).collect()),
            viable: Box::new(move |i| <Q as $lib::Parser<T, N, AT>>::viable_error_recovery_states(&t2[i]).iter().copied().collect()),
            err_goto: Box::new(|s| <Q as $lib::Parser<T, N, AT>>::error_goto_state(s)),
            parse: Box::new(|text, label| {
                let mut q = Q::default();
                <Q as $lib::Parser<T, N, AT>>::parse_text(&mut q, text, label).map_err(|e| $show(&e))
            }),
            lex: Box::new(move |text, label, inj| {
                let q = Q::default();
                lex_all(<Q as $lib::Parser<T, N, AT>>::lexical_analyzer(&q), &t3, text, label, inj)
            }),
            session: Box::new(|f| {
                let mut q = Q::default();
                f(&mut |text, label| <Q as $lib::Parser<T, N, AT>>::parse_text(&mut q, text, label).map_err(|e| $show(&e)))
            }),
            weave: Box::new(move |v, next| {
                let q = Q::default();
                weave(<Q as $lib::Parser<T, N, AT>>::lexical_analyzer(&q), &t4, v, next)
            }),
        }
    }};
}

pub trait Term: Copy + Ord + Debug + Display + Send + Sync + 'static {}
impl<T: Copy + Ord + Debug + Display + Send + Sync + 'static> Term for T {}

pub fn plain<Q, T: Term, N: Term>(terms: Vec<T>, nts: Vec<N>) -> Module
where
    Q: lalr1::Parser<T, N, AT> + Default + 'static,
{
    let t0 = terms.clone();
    let action = Box::new(move |s: u32, i: usize| {
        let q = Q::default();
        match <Q as lalr1::Parser<T, N, AT>>::next_action(&q, s, &tok(&t0, i)) {
            lalr1::Action::Shift(x) => Act::Shift(x),
            lalr1::Action::Reduce(x) => Act::Reduce(x),
            lalr1::Action::Accept => Act::Accept,
            lalr1::Action::SyntaxError => Act::Error,
        }
    });
    common!(lalr1, show_err, terms, nts, action, false)
}

pub fn aug<Q, T: Term, N: Term>(terms: Vec<T>, nts: Vec<N>) -> Module
where
    Q: alalr1::Parser<T, N, AT> + Default + 'static,
{
    let t0 = terms.clone();
    let action = Box::new(move |s: u32, i: usize| {
        let q = Q::default();
        let tk = tok(&t0, i);
        let ask = |depth: usize| {
            // every predicate says no, so all of them are asked
            let mut e = RtEnv::new(100_000);
            e.pred = Box::new(|_, _, _| false);
            let mut out = None;
            with_stack::<Q, T, N>(&t0, depth, |stack| {
                push_env(e);
                let r = crate::ctx::guard(|| <Q as alalr1::Parser<T, N, AT>>::next_action(&q, s, stack, &tk));
                out = Some((pop_env(), r));
            });
            out.expect("the driver asked for an action")
        };
        let (mut e, mut r) = ask(40);
        if r.is_err() {
            // a rule of very many symbols
            (e, r) = ask(400);
        }
        let a = match r {
            Ok(alalr1::Action::Shift(x)) => Act::Shift(x),
            Ok(alalr1::Action::Reduce(x)) => Act::Reduce(x),
            Ok(alalr1::Action::Accept) => Act::Accept,
            Ok(alalr1::Action::SyntaxError) => Act::Error,
            Err((l, m)) => panic!("next_action panicked at {l}: {m}"),
        };
        let mut asked: Vec<u32> = vec![];
        for x in &e.log {
            if let Ev::Pred(p, ..) = x {
                if !asked.contains(p) {
                    asked.push(*p);
                }
            }
        }
        if asked.is_empty() {
            a
        } else {
            match a {
                Act::Error => Act::Chain(asked, None),
                Act::Accept => Act::Chain(asked, Some(0)),
                Act::Reduce(p) => Act::Chain(asked, Some(p)),
                x => x,
            }
        }
    });
    common!(alalr1, show_aerr, terms, nts, action, true)
}

/// Calls `f` with a parse stack holding `n` values.
fn with_stack<Q, T: Term, N: Term>(terms: &[T], n: usize, f: impl FnOnce(&alalr1::ParseStack<T, N, AT>))
where
    Q: alalr1::Parser<T, N, AT> + Default + 'static,
{
    struct Steer<'a, Q, T: Term, N: Term> {
        an: lexan::LexicalAnalyzer<T>,
        left: std::cell::Cell<usize>,
        f: RefCell<Option<Box<dyn FnOnce(&alalr1::ParseStack<T, N, AT>) + 'a>>>,
        q: PhantomData<Q>,
    }
    impl<Q, T: Term, N: Term> alalr1::ReportError<T> for Steer<'_, Q, T, N> {
        fn report_error(&mut self, _: &alalr1::Error<T>) {}
    }
    impl<Q, T: Term, N: Term> alalr1::Parser<T, N, AT> for Steer<'_, Q, T, N>
    where
        Q: alalr1::Parser<T, N, AT> + Default + 'static,
    {
        fn lexical_analyzer(&self) -> &lexan::LexicalAnalyzer<T> {
            &self.an
        }
        fn next_action(&self, _: u32, stack: &alalr1::ParseStack<T, N, AT>, _: &lexan::Token<T>) -> alalr1::Action {
            if self.left.get() > 0 {
                self.left.set(self.left.get() - 1);
                return alalr1::Action::Shift(0);
            }
            if let Some(f) = self.f.borrow_mut().take() {
                f(stack);
            }
            alalr1::Action::Accept
        }
        fn production_data(p: u32) -> (N, usize) {
            <Q as alalr1::Parser<T, N, AT>>::production_data(p)
        }
        fn goto_state(_: &N, _: u32) -> u32 {
            0
        }
        fn viable_error_recovery_states(_: &T) -> lalr1::OrderedSet<u32> {
            lalr1::OrderedSet::new()
        }
        fn look_ahead_set(_: u32) -> lalr1::OrderedSet<T> {
            lalr1::OrderedSet::new()
        }
    }
    let an = lexan::LexicalAnalyzer::new(&[(terms[1], "x")], &[], &[], terms[0]);
    push_env(RtEnv::new(100_000));
    let mut s = Steer::<Q, T, N> { an, left: std::cell::Cell::new(n), f: RefCell::new(Some(Box::new(f))), q: PhantomData };
    let text = "x".repeat(n + 1);
    let _ = alalr1::Parser::parse_text(&mut s, &text, "steer");
    pop_env();
}

//! The specification language: a reference front end (lexer, grammar, meaning) that judges specification texts.
use crate::gram::{self, Assoc, Gram, Rule, Sym, Tag, Term, Text};
use crate::refdrv::{self, Ev, Hooks, Tab, Val};
use crate::reflex::{Loc, RefLex};
use crate::reflr;
use regex::Regex;
use std::collections::HashMap;

const LITS: &[(&str, &str)] = &[
    ("Attr", "%attr"),
    ("Target", "%target"),
    ("Token", "%token"),
    ("Left", "%left"),
    ("Right", "%right"),
    ("NonAssoc", "%nonassoc"),
    ("Precedence", "%prec"),
    ("Skip", "%skip"),
    ("Error", "%error"),
    ("Inject", "%inject"),
    ("NewSection", "%%"),
    ("Colon", ":"),
    ("VerticalBar", "|"),
    ("Dot", "."),
    ("ReduceReduce", "%reduce_reduce"),
    ("ShiftReduce", "%shift_reduce"),
];
const RES: &[(&str, &str)] = &[
    ("RegEx", r"\(.+\)"),
    ("Literal", r#""(\\"|[^"\t\r\n\v\f])*""#),
    ("Ident", "[a-zA-Z]+[a-zA-Z0-9_]*"),
    ("PredicateExpr", r"\?\((.|[\n\r])*?\?\)"),
    ("ActionCode", r"!\{(.|[\n\r])*?!\}"),
    ("RustCode", r"%\{(.|[\n\r])*?%\}"),
    ("NumberExpr", "[0-9]+"),
];
const SKIPS: &[&str] = &[r"/\*(.|[\n\r])*?\*/", r"//[^\n\r]*", r"\s+"];

const PLAIN: &str = "
Specification: Preamble Configuration NewSection Definitions NewSection ProductionRules ;
OptInj: | Injection ;
InjectionHead: Inject Literal ;
Injection: InjectionHead Dot ;
Preamble: | OptInj RustCode OptInj ;
Configuration: AttributeType OptInj TargetType OptInj ExpectedConflicts OptInj | TargetType OptInj AttributeType OptInj ExpectedConflicts OptInj ;
AttributeType: Attr Ident ;
TargetType: Target Ident ;
ExpectedConflicts: | ExpectedRR OptInj ExpectedSR | ExpectedSR OptInj ExpectedRR | ExpectedRR | ExpectedSR ;
ExpectedRR: ReduceReduce Number ;
ExpectedSR: ShiftReduce Number ;
Number: NumberExpr ;
Definitions: TokenDefs SkipDefs PrecDefs ;
TokenDefs: OptInj TokenDef | TokenDefs OptInj TokenDef OptInj ;
TokenDef: Token NewTokenName Literal | Token NewTokenName Regular ;
Regular: RegEx ;
NewTokenName: Ident ;
SkipDefs: | SkipDefs OptInj SkipDef OptInj ;
SkipDef: Skip Regular ;
PrecDefs: | PrecDefs OptInj PrecDef OptInj ;
PrecDef: Left TagList | Right TagList | NonAssoc TagList ;
TagList: ATag | TagList ATag ;
ATag: Literal | Ident ;
ProductionRules: OptInj Group OptInj | ProductionRules Group OptInj ;
Group: Head Tails Dot ;
Head: Ident Colon ;
Tails: Tail | Tails VerticalBar Tail ;
Action: ActionCode ;
Prec: Precedence Ident | Precedence Literal ;
Syms: ASym | Syms ASym ;
ASym: Ident | Literal | Error ;
";
const TAILS_PLAIN: &str = "Tail: | Action | Syms Prec Action | Syms Prec | Syms Action | Syms ;";
const TAILS_AUG: &str = "Tail: | Action | Pred Action | Pred | Syms Pred Prec Action | Syms Pred Prec | Syms Pred Action | Syms Pred | Syms Prec Action | Syms Prec | Syms Action | Syms ; Pred: PredicateExpr ;";

pub enum FileText {
    Text(String),
    /// cannot be opened or read
    Bad,
}

#[derive(Debug, Default)]
pub struct Judged {
    /// the first thing that no specification can have there (a token, a piece of text, the end)
    pub syntax: Option<Loc>,
    /// errors of meaning, in the order met
    pub errors: Vec<(Loc, String)>,
    pub undefined: Vec<(String, Vec<Loc>)>,
    pub gram: Option<Gram>,
    pub shifts: usize,
    pub injected: usize,
    pub nested: usize,
    /// one word per kind of defect
    pub kinds: Vec<String>,
}

impl Judged {
    pub fn fine(&self) -> bool {
        self.syntax.is_none() && self.errors.is_empty() && self.undefined.is_empty()
    }
}

pub struct SpecLang {
    pub aug: bool,
    pub g: Gram,
    pub lex: RefLex,
    tab: Tab,
    rref: Regex,
    pub names: Vec<String>,
}

const MAX_INJECTIONS: usize = 4096;

#[derive(Clone, Debug)]
enum V {
    None,
    Text(String, Loc),
    Num(u32),
    Tags(Vec<Tag>),
    Tag(Option<Tag>),
    Lhs(Option<usize>),
    Tails(Vec<TailV>),
    Tail(TailV),
    Prec(Option<Tag>),
    Syms(Vec<Sym>),
    Sym(Sym),
}

#[derive(Clone, Debug, Default)]
struct TailV {
    syms: Vec<Sym>,
    pred: Option<String>,
    prec: Option<Tag>,
    action: Option<String>,
}

impl SpecLang {
    pub fn new(aug: bool) -> SpecLang {
        let mut g = gram::parse_compact(&format!("{PLAIN}{}", if aug { TAILS_AUG } else { TAILS_PLAIN }));
        // the compact notation gives every terminal its name as text
        for t in g.terms.iter_mut().skip(1) {
            let n = match &t.text {
                Text::Lit(s) => s.clone(),
                _ => unreachable!(),
            };
            t.name = n.clone();
            if let Some((_, s)) = LITS.iter().find(|x| x.0 == n) {
                t.text = Text::Lit(s.to_string());
            } else {
                t.text = Text::Re(RES.iter().find(|x| x.0 == n).unwrap_or_else(|| panic!("no token {n}")).1.to_string());
            }
        }
        let inj = g.terms.iter().position(|t| t.name == "Inject").unwrap();
        g.precs = vec![(Assoc::Right, vec![Tag::Term(inj)])];
        let auto = reflr::build(&g, aug, 4000).expect("specification language automaton");
        assert!(auto.sr_count() == 0 && auto.rr_count() == 0, "specification language has conflicts");
        let mut l = vec![];
        let mut e = vec![];
        for (i, t) in g.terms.iter().enumerate().skip(1) {
            match &t.text {
                Text::Lit(s) => l.push((i, s.clone())),
                Text::Re(s) => e.push((i, s.clone())),
            }
        }
        let lex = RefLex::new(&l, &e, &SKIPS.iter().map(|s| s.to_string()).collect::<Vec<_>>());
        let names = g.terms.iter().map(|t| t.name.clone()).collect();
        SpecLang { aug, lex, tab: auto.tab(), g, rref: Regex::new(r"\$([0-9]+)").unwrap(), names }
    }

    pub fn judge(&self, text: &str, label: &str, files: &dyn Fn(&str) -> FileText) -> Option<Judged> {
        let name = |t: usize| self.names[t].clone();
        let nt = |p: u32| self.g.nts[self.g.rules[p as usize - 1].lhs].as_str();
        let mut opened = 0usize;
        let mut injection_errors: Vec<(u32, Loc, String)> = vec![];
        let silent = |p: u32, a: &[Val]| match nt(p) {
            "NewTokenName" => Some(a[0].clone()),
            "InjectionHead" => Some(a[1].clone()),
            _ => None,
        };
        let mut inject = |p: u32, a: &[Val], k: u32| {
            if nt(p) != "Injection" {
                return vec![];
            }
            let Val::Tok(_, lexeme, loc) = &a[0] else { unreachable!() };
            opened += 1;
            let path = lexeme.trim_matches('"');
            let t = files(path);
            match t {
                FileText::Text(_) if opened > MAX_INJECTIONS => injection_errors.push((k, loc.clone(), "too many injections".into())),
                FileText::Text(s) if s.is_empty() => injection_errors.push((k, loc.clone(), "empty file".into())),
                FileText::Text(s) => return vec![(s, path.to_string())],
                FileText::Bad => injection_errors.push((k, loc.clone(), "no such file".into())),
            }
            vec![]
        };
        let run = refdrv::run(
            &self.tab,
            &self.lex,
            text,
            label,
            &mut Hooks { name: &name, inject: &mut inject, pred: &mut |_, _, _| true, silent: &silent, view: 0, all_preds: false, keep: &|_| false },
            400_000,
        )?;
        let mut j = Judged { shifts: run.shifts, injected: run.injected, nested: run.nested, ..Judged::default() };
        if run.result.is_err() {
            j.syntax = Some(run.first_error_loc.clone().expect("an error has a place"));
        }
        self.meaning(&run.events, &injection_errors, &mut j);
        Some(j)
    }

    fn meaning(&self, events: &[Ev], inj: &[(u32, Loc, String)], j: &mut Judged) {
        let mut val: HashMap<u32, V> = HashMap::new();
        let mut g = Gram::new(0, 0);
        g.nts.clear();
        g.skips.clear();
        g.preamble = None;
        let mut name_of: HashMap<String, usize> = HashMap::new(); // token name -> terminal
        let mut where_lit: HashMap<String, usize> = HashMap::new();
        let mut where_re: HashMap<String, usize> = HashMap::new();
        let mut prec_set: Vec<bool> = vec![true];
        let mut tags: Vec<String> = vec![];
        let mut skips: Vec<String> = vec![];
        let mut defs: Vec<Vec<Loc>> = vec![];
        let mut uses: Vec<Vec<Loc>> = vec![];
        let mut nt_ix: HashMap<String, usize> = HashMap::new();
        for e in events {
            let Ev::Reduce(p, a, k) = e else { continue };
            let rule = &self.g.rules[*p as usize - 1];
            let lhs = self.g.nts[rule.lhs].as_str();
            let kinds: Vec<&str> = rule
                .rhs
                .iter()
                .map(|s| match s {
                    Sym::T(t) => self.names[*t].as_str(),
                    Sym::N(n) => self.g.nts[*n].as_str(),
                    Sym::Err => unreachable!(),
                })
                .collect();
            let get = |i: usize| -> V {
                match &a[i] {
                    Val::Node(n) => val.get(n).cloned().unwrap_or(V::None),
                    Val::Tok(_, s, l) => V::Text(s.clone(), l.clone()),
                    _ => V::None,
                }
            };
            let text = |i: usize| -> (String, Loc) {
                match get(i) {
                    V::Text(s, l) => (s, l),
                    x => panic!("no text: {x:?}"),
                }
            };
            let mut bad = |kind: &str, l: &Loc, s: String| {
                j.errors.push((l.clone(), format!("{kind}: {s}")));
                j.kinds.push(kind.into());
            };
            let v = match lhs {
                "Injection" => {
                    for (n, l, s) in inj {
                        if n == k {
                            bad("injection", l, s.clone());
                        }
                    }
                    V::None
                }
                "Preamble" => {
                    if a.len() > 1 {
                        let (t, _) = text(1);
                        g.preamble = Some(t[2..t.len() - 2].to_string());
                    }
                    V::None
                }
                "AttributeType" => {
                    g.attr = text(1).0;
                    V::None
                }
                "TargetType" => {
                    g.target = text(1).0;
                    V::None
                }
                "Number" => {
                    let (t, l) = text(0);
                    match t.parse::<u32>() {
                        Ok(n) => V::Num(n),
                        Err(_) => {
                            bad("number", &l, t);
                            V::Num(0)
                        }
                    }
                }
                "ExpectedRR" | "ExpectedSR" => {
                    if let V::Num(n) = get(1) {
                        if lhs == "ExpectedRR" { g.rr = Some(n) } else { g.sr = Some(n) }
                    }
                    V::None
                }
                "Regular" => {
                    let (t, l) = text(0);
                    if Regex::new(&t).is_err() {
                        bad("malformed", &l, t.clone());
                    }
                    V::Text(t, l)
                }
                "TokenDef" => {
                    let (n, l) = text(1);
                    let (t, _) = text(2);
                    let ix = g.terms.len();
                    let lit = kinds[2] == "Literal";
                    let inner = t[1..t.len() - 1].to_string();
                    let clash = if lit { where_lit.contains_key(&t) || where_re.contains_key(&inner) } else { where_re.contains_key(&t) || where_lit.contains_key(&format!("\"{t}\"")) };
                    if name_of.contains_key(&n) {
                        bad("duplicate-name", &l, n.clone());
                    } else if clash {
                        bad("duplicate-text", &l, t.clone());
                    } else if lit && inner.is_empty() {
                        bad("empty-literal", &l, n.clone());
                    }
                    g.terms.push(Term { name: n.clone(), text: if lit { Text::Lit(inner.clone()) } else { Text::Re(inner.clone()) }, sample: String::new() });
                    prec_set.push(false);
                    name_of.insert(n, ix);
                    if lit { where_lit.insert(t, ix) } else { where_re.insert(t, ix) };
                    V::None
                }
                "SkipDef" => {
                    let (t, l) = text(1);
                    if skips.contains(&t) || where_re.contains_key(&t) || where_lit.contains_key(&format!("\"{t}\"")) {
                        bad("duplicate-skip", &l, t.clone());
                    } else {
                        skips.push(t.clone());
                        g.skips.push(t[1..t.len() - 1].to_string());
                    }
                    V::None
                }
                "ATag" => {
                    let (t, l) = text(0);
                    let known = if kinds[0] == "Literal" { where_lit.get(&t) } else { name_of.get(&t) };
                    match known {
                        Some(ix) => {
                            if prec_set[*ix] {
                                bad("duplicate-precedence", &l, t);
                            }
                            V::Tag(Some(Tag::Term(*ix)))
                        }
                        None if kinds[0] == "Literal" => {
                            bad("unknown-literal", &l, t);
                            V::Tag(None)
                        }
                        None => {
                            if tags.contains(&t) {
                                bad("duplicate-tag", &l, t);
                                V::Tag(None)
                            } else {
                                tags.push(t.clone());
                                V::Tag(Some(Tag::Name(t)))
                            }
                        }
                    }
                }
                "TagList" => {
                    let mut v = if a.len() == 2 { if let V::Tags(v) = get(0) { v } else { vec![] } } else { vec![] };
                    if let V::Tag(Some(t)) = get(a.len() - 1) {
                        v.push(t);
                    }
                    V::Tags(v)
                }
                "PrecDef" => {
                    let asc = match kinds[0] {
                        "Left" => Assoc::Left,
                        "Right" => Assoc::Right,
                        _ => Assoc::Non,
                    };
                    if let V::Tags(v) = get(1) {
                        for t in &v {
                            if let Tag::Term(i) = t {
                                prec_set[*i] = true;
                            }
                        }
                        g.precs.push((asc, v));
                    }
                    V::None
                }
                "Head" => {
                    let (n, l) = text(0);
                    if name_of.contains_key(&n) {
                        bad("token-as-rule", &l, n);
                        V::Lhs(None)
                    } else {
                        let ix = *nt_ix.entry(n.clone()).or_insert_with(|| {
                            g.nts.push(n);
                            defs.push(vec![]);
                            uses.push(vec![]);
                            g.nts.len() - 1
                        });
                        defs[ix].push(l);
                        V::Lhs(Some(ix))
                    }
                }
                "Group" => {
                    if let (V::Lhs(Some(ix)), V::Tails(v)) = (get(0), get(1)) {
                        for t in v {
                            // the left hand side's value exists for actions only
                            let action = t.action.as_ref().map(|s| s.replace("$$", ""));
                            for s in [&action, &t.pred].into_iter().flatten() {
                                if self.rref.captures_iter(s).any(|c| !c[1].parse::<usize>().is_ok_and(|n| n > 0 && n <= t.syms.len())) {
                                    bad("reference", &defs[ix][0], s.clone());
                                    break;
                                }
                            }
                            g.rules.push(Rule { lhs: ix, rhs: t.syms, prec: t.prec, action: t.action, pred: t.pred });
                        }
                    }
                    V::None
                }
                "Tails" => {
                    let mut v = if a.len() == 3 { if let V::Tails(v) = get(0) { v } else { vec![] } } else { vec![] };
                    if let V::Tail(t) = get(a.len() - 1) {
                        v.push(t);
                    }
                    V::Tails(v)
                }
                "Tail" => {
                    let mut t = TailV::default();
                    for (i, n) in kinds.iter().enumerate() {
                        match (*n, get(i)) {
                            ("Syms", V::Syms(s)) => t.syms = s,
                            ("Pred", V::Text(s, _)) => t.pred = Some(s),
                            ("Action", V::Text(s, _)) => t.action = Some(s),
                            ("Prec", V::Prec(p)) => t.prec = p,
                            (n, v) => panic!("{n} {v:?}"),
                        }
                    }
                    V::Tail(t)
                }
                "Action" | "Pred" => {
                    let (t, l) = text(0);
                    V::Text(t[2..t.len() - 2].to_string(), l)
                }
                "Prec" => {
                    let (t, l) = text(1);
                    let found = if kinds[1] == "Literal" {
                        where_lit.get(&t).map(|i| Tag::Term(*i))
                    } else if tags.contains(&t) {
                        Some(Tag::Name(t.clone()))
                    } else {
                        name_of.get(&t).map(|i| Tag::Term(*i))
                    };
                    if found.is_none() {
                        bad("unknown-tag", &l, t);
                    }
                    V::Prec(found)
                }
                "Syms" => {
                    let mut v = if a.len() == 2 { if let V::Syms(v) = get(0) { v } else { vec![] } } else { vec![] };
                    if let V::Sym(t) = get(a.len() - 1) {
                        v.push(t);
                    }
                    V::Syms(v)
                }
                "ASym" => {
                    let (t, l) = text(0);
                    match kinds[0] {
                        "Error" => V::Sym(Sym::Err),
                        "Literal" => match where_lit.get(&t) {
                            Some(i) => V::Sym(Sym::T(*i)),
                            None => {
                                bad("unknown-literal", &l, t);
                                V::Sym(Sym::Err)
                            }
                        },
                        _ => match name_of.get(&t) {
                            Some(i) => V::Sym(Sym::T(*i)),
                            None => {
                                let ix = *nt_ix.entry(t.clone()).or_insert_with(|| {
                                    g.nts.push(t);
                                    defs.push(vec![]);
                                    uses.push(vec![]);
                                    g.nts.len() - 1
                                });
                                uses[ix].push(l);
                                V::Sym(Sym::N(ix))
                            }
                        },
                    }
                }
                _ => V::None,
            };
            val.insert(*k, v);
        }
        if j.syntax.is_none() {
            for (i, n) in g.nts.iter().enumerate() {
                if defs[i].is_empty() {
                    j.undefined.push((n.clone(), uses[i].clone()));
                    j.kinds.push("undefined".into());
                }
            }
            if j.fine() && !g.rules.is_empty() {
                j.gram = Some(g);
            }
        } else {
            j.kinds.push("syntax".into());
        }
    }
}

//! C10-C13, C16, C17, C23, C25: parsers generated from random grammars, compiled and monitored.
//! Phase "gen" generates in process, looks at the reports of many grammars to pick suspicious ones, and compiles
//! those and a random sample; phase "run" (in the compiled executable) is where verdicts are reached.
use crate::autocmp::{Kind, ModTab, RepTab, Tables, Walk, walk};
use crate::compiled::{Batch, by_case};
use crate::ctx::Ctx;
use crate::earley;
use crate::genr::{Made, Outcome, generate, scratch};
use crate::gram::{self, Assoc, Flavour, Gram, Rule, SpecStyle, Sym, Tag, Tree};
use crate::refdrv::{self, Act, Ev, Hooks, Tab, Val, show_syntax};
use crate::reflex::{Item, RefLex};
use crate::reflr::{self, Auto};
use crate::rng::Rng;
use crate::rt::{ModFn, Module, RtEnv};
use crate::states;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub struct Case {
    pub g: Gram,
    pub aug: bool,
    pub auto: Auto,
    pub fl: Vec<Flavour>,
    pub text: String,
    pub ign: bool,
    /// second variant of the grammar (C17: without its error rules)
    pub other: Option<(Gram, String)>,
    /// operators by level, for the expression languages of C13
    pub ops: Option<Ops>,
}

fn cap(prop: &str) -> usize {
    static BIG: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    let big = *BIG.get_or_init(|| std::env::args().any(|a| a == "thorough"));
    if big && prop != "C25" { 2500 } else { 700 }
}

pub fn base(r: &mut Rng) -> Gram {
    let mut g = if r.chance(1, 2) { gram::tricky(r) } else { gram::random_cfg(r) };
    if r.chance(1, 2) {
        gram::vary(r, &mut g);
    }
    if r.chance(1, 10) {
        let mut v = vec![g];
        for _ in 0..r.range(1, 5) {
            let mut h = if r.chance(1, 2) { gram::tricky(r) } else { gram::random_cfg(r) };
            if r.chance(1, 3) {
                gram::vary(r, &mut h);
            }
            v.push(h);
        }
        g = gram::compose(r, v);
    }
    if r.chance(1, 6) {
        gram::stretch(r, &mut g);
    }
    if r.chance(1, 25) {
        let n = if r.chance(1, 4) { r.range(60, 320) } else { r.range(4, 30) };
        g = gram::repeated(r, n);
    }
    g
}

fn finish(r: &mut Rng, mut g: Gram, aug: bool, auto: Auto, fl: Vec<Flavour>, ign: bool) -> Case {
    gram::set_actions(&mut g, &fl, false, r);
    if g.preamble.is_some() {
        g.preamble = Some(gram::same_preamble(r, "vh::rt::*"));
    }
    let st = SpecStyle { swap: true, split: true, names: *r.pick(&[0, 0, 1, 2]) };
    let toks = g.spec_tokens(r, &st);
    let text = if r.chance(1, 2) { gram::layout(r, &toks) } else { gram::join_plain(&toks) };
    Case { g, aug, auto, fl, text, ign, other: None, ops: None }
}

pub fn make(prop: &str, case: u64, r: &mut Rng) -> Option<Case> {
    let aug = case / 8 % 2 == 1;
    // (one per worker and round, half of them for either tool)
    let wide = case % 10_000_000 < 16 && (case + case / 8) % 2 == 0;
    let clean = matches!(prop, "C10" | "C11" | "C17");
    let base = |r: &mut Rng| if wide { gram::wide(r, &|g, c| reflr::build(g, aug, c).is_some_and(|a| !clean || a.conflict_free())) } else { base(r) };
    let cap = |prop: &str| if wide { 6000 } else { cap(prop) };
    match prop {
        "C10" => {
            let g = base(r);
            if !gram::reduced(&g) {
                return None;
            }
            let a = reflr::build(&g, aug, cap(prop))?;
            if !a.conflict_free() && !r.chance(1, 12) {
                return None;
            }
            let fl = vec![Flavour::None; g.rules.len()];
            Some(finish(r, g, aug, a, fl, false))
        }
        "C11" => {
            let mut g = base(r);
            let free = r.chance(3, 4);
            if !free {
                gram::add_precedences(r, &mut g);
            }
            if !gram::reduced(&g) {
                return None;
            }
            let a = reflr::build(&g, aug, cap(prop))?;
            if free != a.conflict_free() {
                return None;
            }
            let fl = if free { gram::random_flavours(r, &g) } else { vec![Flavour::Node; g.rules.len()] };
            Some(finish(r, g, aug, a, fl, !free))
        }
        "C12" => {
            let mut g = base(r);
            if r.chance(1, 4) {
                gram::add_errors(r, &mut g);
            }
            if r.chance(1, 4) {
                gram::add_precedences(r, &mut g);
            }
            if !gram::reduced(&g) {
                return None;
            }
            let a = reflr::build(&g, aug, cap(prop))?;
            if !a.conflict_free() && r.chance(1, 2) {
                return None;
            }
            let fl = vec![Flavour::None; g.rules.len()];
            Some(finish(r, g, aug, a, fl, true))
        }
        "C13" => {
            if !wide && r.chance(2, 5) {
                let (g, ops) = expressions(r);
                let a = reflr::build(&g, aug, cap(prop))?;
                let fl = vec![Flavour::Node; g.rules.len()];
                let ign = a.sr_count() + a.rr_count() > 0;
                let mut c = finish(r, g, aug, a, fl, ign);
                c.ops = Some(ops);
                return Some(c);
            }
            let mut g = base(r);
            if r.chance(1, 5) {
                gram::add_errors(r, &mut g);
            }
            if r.chance(9, 10) {
                gram::add_precedences(r, &mut g);
            }
            if !gram::reduced(&g) {
                return None;
            }
            let a = reflr::build(&g, aug, cap(prop))?;
            if a.conflict_free() {
                return None;
            }
            let fl = vec![Flavour::None; g.rules.len()];
            // where precedence decides every conflict there is none to declare or to ignore
            let ign = a.sr_count() + a.rr_count() > 0;
            Some(finish(r, g, aug, a, fl, ign))
        }
        "C16" => {
            let mut g = if !wide && r.chance(1, 3) { gram::parse_compact(r.pick(GUARDABLE)) } else { base(r) };
            add_predicates(r, &mut g);
            if r.chance(1, 3) {
                share_guards(r, &mut g);
            }
            if !gram::reduced(&g) {
                return None;
            }
            let a = reflr::build(&g, true, cap(prop))?;
            if !a.tab().rows.iter().flatten().any(|x| matches!(x, Act::Chain(..))) {
                return None;
            }
            let fl = if r.chance(1, 2) { vec![Flavour::Node; g.rules.len()] } else { gram::random_flavours(r, &g) };
            Some(finish(r, g, true, a, fl, true))
        }
        "C17" => {
            let mut g = if !wide && r.chance(1, 2) { gram::parse_compact(r.pick(gram::WITH_ERRORS)) } else { base(r) };
            if r.chance(1, 3) {
                gram::vary(r, &mut g);
            }
            if !g.uses_error() && r.chance(7, 8) || r.chance(1, 4) {
                gram::add_errors(r, &mut g);
            }
            if r.chance(1, 5) {
                gram::add_precedences(r, &mut g);
            }
            if !gram::reduced(&g) {
                return None;
            }
            let a = reflr::build(&g, aug, cap(prop))?;
            let mut without = g.clone();
            without.rules.retain(|x| !x.rhs.contains(&Sym::Err));
            let whole = (0..without.nts.len()).all(|n| without.rules.iter().any(|x| x.lhs == n)) && without.rules.len() < g.rules.len() && !without.rules.is_empty() && without.start() == g.start() && gram::reduced(&without);
            let fl = vec![Flavour::Node; g.rules.len()];
            let mut c = finish(r, g, aug, a, fl, true);
            if whole {
                let b = reflr::build(&without, aug, cap(prop))?;
                // only where the error rules add no conflict, resolved or not, between ordinary symbols
                if c.auto.sr_count() == 0 && c.auto.rr_count() == 0 && b.conflict_free() && silent_only_errors(&c.auto) {
                    let keep: Vec<usize> = (0..c.g.rules.len()).filter(|i| !c.g.rules[*i].rhs.contains(&Sym::Err)).collect();
                    let mut w = c.g.clone();
                    // same actions, same rule numbers in them
                    w.rules = keep.iter().map(|i| c.g.rules[*i].clone()).collect();
                    let t = w.spec();
                    c.other = Some((w, t));
                }
            }
            Some(c)
        }
        "C23" => {
            let mut g = base(r);
            if r.chance(1, 3) {
                gram::add_errors(r, &mut g);
            }
            if r.chance(1, 2) {
                gram::add_precedences(r, &mut g);
            }
            if aug && r.chance(1, 3) {
                add_predicates(r, &mut g);
            }
            distinct_rules(&mut g);
            if !gram::reduced(&g) {
                return None;
            }
            let a = reflr::build(&g, aug, cap(prop))?;
            let fl = vec![Flavour::None; g.rules.len()];
            Some(finish(r, g, aug, a, fl, true))
        }
        "C25" => {
            let mut g = base(r);
            if r.chance(1, 3) {
                gram::add_errors(r, &mut g);
            }
            if r.chance(1, 2) {
                gram::add_precedences(r, &mut g);
            }
            if !gram::reduced(&g) {
                return None;
            }
            let a = reflr::build(&g, aug, cap(prop))?;
            if !a.conflict_free() && r.chance(1, 3) {
                return None;
            }
            let fl = gram::random_flavours(r, &g);
            Some(finish(r, g, false, a, fl, true))
        }
        p => panic!("no grammars for {p}"),
    }
}

/// No decision in the automaton was taken between two ordinary rules or a token and an ordinary rule.
fn silent_only_errors(a: &Auto) -> bool {
    for st in &a.states {
        let comp: Vec<(usize, reflr::Bits)> = st.items.iter().filter(|((p, d), _)| *d == a.p.v[*p].rhs.len()).map(|((p, _), la)| (*p, *la)).collect();
        for (i, (p, la)) in comp.iter().enumerate() {
            let odd = |p: usize| a.p.error_tail(p) || a.p.v[p].lhs == a.p.err_nt;
            if !odd(*p) && st.shifts.keys().any(|t| la.has(*t)) {
                return false;
            }
            if odd(*p) && st.shifts.keys().any(|t| la.has(*t) && st.rshifts.get(t).is_none()) {
                return false;
            }
            for (q, lb) in &comp[i + 1..] {
                if !la.and(lb).is_empty() && !odd(*p) && !odd(*q) {
                    return false;
                }
            }
        }
    }
    true
}

pub fn distinct_rules(g: &mut Gram) {
    let mut seen: Vec<(usize, Vec<Sym>, Option<String>)> = vec![];
    g.rules.retain(|r| {
        let k = (r.lhs, r.rhs.clone(), r.pred.clone());
        if seen.contains(&k) {
            false
        } else {
            seen.push(k);
            true
        }
    });
    renumber_preds(g);
}

/// Predicates carry the number of their production.
pub fn renumber_preds(g: &mut Gram) {
    for i in 0..g.rules.len() {
        if let Some(p) = &g.rules[i].pred {
            if guard_number(p).is_some_and(|n| n >= SHARED) && shared_fits(p, g.rules[i].rhs.len()) {
                continue;
            }
            let style = p.len() % 9;
            g.rules[i].pred = Some(pred_text(i + 1, g.rules[i].rhs.len(), style));
        }
    }
}
fn pred_text(p: usize, n: usize, style: usize) -> String {
    let args: Vec<String> = (1..=n).map(|k| format!("${k}")).collect();
    let args = args.join(", ");
    match style {
        0 => format!(" pred({p}, &[{args}], &$? ) "),
        1 => format!("pred({p}, &[{args}], &$? )"),
        2 => format!(" true && pred({p}, &[{args}], &$? ) "),
        // comments, also at the end
        5 => format!(" pred({p}, &[{args}], &$? ) // (a remark) {{"),
        6 => format!("// a remark {{\n  pred({p}, &[{args}], &$? )\r\n// another"),
        7 => format!("/* why */ pred({p}, &[{args}],\n &$? ) /* }} */"),
        8 => format!(" pred({p}, &[{args}], &$? )//"),
        // everything mentioned more than once
        3 => {
            let twice: String = (1..=n).map(|k| format!(" && ${k} == ${k}")).collect();
            format!(" $? == $?{twice} && pred({p}, &[{args}], &$? ) ")
        }
        _ => format!("pred({p}, &[{args}], &$? ) && {{ let t = [$?, $?, $?]; t[0] == t[2] && t[1] == $? }}"),
    }
}

/// Guards with such numbers stand, word for word the same, before several rules.
const SHARED: u32 = 1000;
fn guard_number(text: &str) -> Option<u32> {
    let (_, rest) = text.split_once("pred(")?;
    rest.split(',').next()?.trim().parse().ok()
}
fn shared_fits(text: &str, n: usize) -> bool {
    (1..=20).filter(|k| text.contains(&format!("${k}"))).all(|k| k <= n)
}
/// The number each rule's guard gives to the run time (0 where there is none).
pub fn guard_numbers(g: &Gram) -> Vec<u32> {
    let mut v = vec![0];
    v.extend(g.rules.iter().map(|r| r.pred.as_deref().and_then(guard_number).unwrap_or(0)));
    v
}
/// Give rules that compete the same guard, about the same positions of different right hand sides.
fn share_guards(r: &mut Rng, g: &mut Gram) {
    let k = r.range(0, 2);
    let style = *r.pick(&[" ", "", "//", "/**/"]);
    for x in g.rules.iter_mut() {
        let n = x.rhs.len().min(k);
        if x.pred.is_none() || r.chance(1, 4) || n < k && r.chance(1, 2) {
            continue;
        }
        let args: Vec<String> = (1..=n).map(|k| format!("${k}")).collect();
        x.pred = Some(format!("{}pred({}, &[{}], &$? ){style}", style.replace("//", "\n"), SHARED as usize + n, args.join(", ")));
    }
}

pub const GUARDABLE: &[&str] = &[
    "S: L ; L: | L X ; X: A SEMI | B SEMI ; A: id ; B: id",
    "S: X | S , X ; X: A + A | B ; A: id num ; B: id num",
    "S: X S | X ; X: F a | G a | H a ; F: id ; G: id ; H: id",
    "S: Es ; Es: E SEMI | Es E SEMI ; E: T | E + T ; T: id | id | num | ( E )",
    "S: A B C ; A: x | ; B: y | ; C: z | ; ",
    "S: W end ; W: | W V ; V: id id | N id ; N: id",
    "S: O a | P a | Q b ; O: | k ; P: | k k ; Q: | k",
    // completed together, though of different lengths
    "S: P SEMI | W Q SEMI ; P: W W ; Q: W ; W: id",
    "S: L ; L: | L X ; X: A a | k B a | k k C a | k k k D a ; A: k k k ; B: k k ; C: k ; D: ",
    "S: X end | S , X end ; X: V w P | V Q | V R ; V: id | num ; P: V ; Q: w V ; R: w N ; N: id | num",
];

pub fn add_predicates(r: &mut Rng, g: &mut Gram) {
    // rival alternatives
    for _ in 0..r.below(3) {
        let i = r.below(g.rules.len());
        let mut x = g.rules[i].clone();
        x.prec = None;
        let n = g.rules[i].lhs;
        match r.below(3) {
            0 => g.rules.insert(i + 1, x),
            1 => g.rules.insert(i, x),
            _ => {
                // the same right hand side under another name, alternative wherever the first one is used
                let m = g.nts.len();
                g.nts.push(format!("Q{m}"));
                let uses: Vec<usize> = (0..g.rules.len()).filter(|k| g.rules[*k].rhs.contains(&Sym::N(n))).collect();
                if uses.is_empty() {
                    g.nts.pop();
                    continue;
                }
                x.lhs = m;
                let k = *r.pick(&uses);
                let mut y = g.rules[k].clone();
                for s in y.rhs.iter_mut() {
                    if *s == Sym::N(n) {
                        *s = Sym::N(m);
                        break;
                    }
                }
                g.rules.insert(k + 1, y);
                g.rules.push(x);
            }
        }
    }
    for i in 0..g.rules.len() {
        if r.chance(1, 2) {
            g.rules[i].pred = Some("x".repeat(r.range(1, 9)));
        }
    }
    renumber_preds(g);
}

// ------------------------------------------------------------------ expression languages

/// Operators of an expression language, in terms of the rules that use them.
#[derive(Clone, Debug, Default)]
pub struct Ops {
    /// terminal -> (rule, assoc, level of the rule, level of the token)
    pub binary: BTreeMap<usize, (usize, Assoc, u32, u32)>,
    pub prefix: BTreeMap<usize, (usize, Assoc, u32)>,
    pub postfix: BTreeMap<usize, (usize, u32)>,
    /// (question, colon): rule, assoc, level of the rule, level of the question mark
    pub ternary: Option<(usize, usize, usize, Assoc, u32, u32)>,
    pub paren: Option<(usize, usize, usize)>,
    pub atom: (usize, usize),
}

pub fn expressions(r: &mut Rng) -> (Gram, Ops) {
    let nb = r.range(1, 6);
    let texts = ["+", "-", "*", "/", "=", "<", "&", "|", "^", "!", "~", "?", ":", "(", ")", "id"];
    let mut g = Gram::new(texts.len(), 1);
    for (i, t) in texts.iter().enumerate() {
        g.terms[i + 1].text = gram::Text::Lit(t.to_string());
        g.terms[i + 1].sample = t.to_string();
    }
    g.nts[0] = "E".into();
    let mut bins: Vec<usize> = (1..=9).collect();
    r.shuffle(&mut bins);
    bins.truncate(nb);
    // a binary operator may be a prefix operator too
    let pre: Vec<usize> = match r.below(3) {
        0 => vec![],
        1 => vec![11],
        _ => vec![bins[0], 11],
    };
    let post = if r.chance(1, 3) { vec![10] } else { vec![] };
    let tern = r.chance(1, 3);
    let mut all: Vec<Tag> = bins.iter().chain(&post).map(|x| Tag::Term(*x)).collect();
    let mut tag_of: HashMap<usize, String> = HashMap::new();
    for p in &pre {
        let n = format!("UN{p}");
        tag_of.insert(*p, n.clone());
        all.push(Tag::Name(n));
    }
    if tern {
        all.push(Tag::Term(12));
        if r.chance(1, 2) {
            all.push(Tag::Term(13));
        }
    }
    r.shuffle(&mut all);
    // leave some undeclared
    let undeclared = r.below(3);
    for _ in 0..undeclared {
        if let Some(Tag::Term(_)) = all.last() {
            all.pop();
        }
    }
    let mut i = 0;
    while i < all.len() {
        let n = r.range(1, 3).min(all.len() - i);
        let a = *r.pick(&[Assoc::Left, Assoc::Left, Assoc::Right, Assoc::Non]);
        g.precs.push((a, all[i..i + n].to_vec()));
        i += n;
    }
    if r.chance(1, 3) {
        gram::spare_levels(r, &mut g);
    }
    let e = Sym::N(0);
    #[derive(Clone)]
    enum K {
        B(usize),
        P(usize),
        F(usize),
        T,
        Par,
        Id,
    }
    let mut kinds: Vec<K> = bins.iter().map(|b| K::B(*b)).chain(pre.iter().map(|p| K::P(*p))).chain(post.iter().map(|p| K::F(*p))).chain([K::Par, K::Id]).collect();
    if tern {
        kinds.push(K::T);
    }
    r.shuffle(&mut kinds);
    let mut ops = Ops::default();
    for k in kinds {
        let ix = g.rules.len();
        match k {
            K::B(t) => {
                g.rule(0, vec![e, Sym::T(t), e]);
                // sometimes with an explicit tag: of another operator
                if r.chance(1, 6) && !g.precs.is_empty() {
                    let line = r.pick(&g.precs).1.clone();
                    let tag = r.pick(&line).clone();
                    g.rules[ix].prec = Some(tag);
                }
                let (a, p) = g.rule_prec(&g.rules[ix]);
                ops.binary.insert(t, (ix, a, p, g.tag_prec(&Tag::Term(t)).1));
            }
            K::P(t) => {
                g.rule(0, vec![Sym::T(t), e]);
                g.rules[ix].prec = Some(Tag::Name(tag_of[&t].clone()));
                let (a, p) = g.rule_prec(&g.rules[ix]);
                ops.prefix.insert(t, (ix, a, p));
            }
            K::F(t) => {
                g.rule(0, vec![e, Sym::T(t)]);
                ops.postfix.insert(t, (ix, g.tag_prec(&Tag::Term(t)).1));
            }
            K::T => {
                g.rule(0, vec![e, Sym::T(12), e, Sym::T(13), e]);
                let (a, p) = g.rule_prec(&g.rules[ix]);
                ops.ternary = Some((12, 13, ix, a, p, g.tag_prec(&Tag::Term(12)).1));
            }
            K::Par => {
                g.rule(0, vec![Sym::T(14), e, Sym::T(15)]);
                ops.paren = Some((14, 15, ix));
            }
            K::Id => {
                g.rule(0, vec![Sym::T(16)]);
                ops.atom = (16, ix);
            }
        }
    }
    // unused tokens are legal, but keep only those used
    (g, ops)
}

pub fn expression_text(r: &mut Rng, o: &Ops, depth: usize, out: &mut Vec<usize>) {
    let n = r.range(1, 4);
    for i in 0..n {
        if i > 0 {
            let b: Vec<usize> = o.binary.keys().copied().collect();
            if let (Some(t), true) = (o.ternary, r.chance(1, 4) && depth > 0) {
                out.push(t.0);
                expression_text(r, o, depth - 1, out);
                out.push(t.1);
            } else {
                out.push(*r.pick(&b));
            }
        }
        for _ in 0..r.below(3) {
            let p: Vec<usize> = o.prefix.keys().copied().collect();
            if !p.is_empty() && r.chance(1, 2) {
                out.push(*r.pick(&p));
            }
        }
        match o.paren {
            Some((a, b, _)) if depth > 0 && r.chance(1, 5) => {
                out.push(a);
                expression_text(r, o, depth - 1, out);
                out.push(b);
            }
            _ => out.push(o.atom.0),
        }
        let f: Vec<usize> = o.postfix.keys().copied().collect();
        while !f.is_empty() && r.chance(1, 4) {
            out.push(*r.pick(&f));
        }
    }
}

/// Operator precedence parsing with a stack of operators: the rules applied, in order, or None if not an expression.
pub fn operator_parse(o: &Ops, toks: &[usize]) -> Option<Vec<usize>> {
    #[derive(Clone, Copy)]
    enum K {
        Open,
        Quest,
        Op(usize, Assoc, u32),
    }
    let mut out = vec![];
    let mut st: Vec<K> = vec![];
    let mut want_operand = true;
    let reduce = |st: &mut Vec<K>, out: &mut Vec<usize>, level: u32| {
        while let Some(K::Op(rule, a, p)) = st.last().copied() {
            if p > level || (p == level && a == Assoc::Left) {
                out.push(rule);
                st.pop();
            } else {
                break;
            }
        }
    };
    let drain = |st: &mut Vec<K>, out: &mut Vec<usize>| {
        while let Some(K::Op(rule, ..)) = st.last().copied() {
            out.push(rule);
            st.pop();
        }
    };
    for t in toks {
        if want_operand {
            if *t == o.atom.0 {
                out.push(o.atom.1);
                want_operand = false;
            } else if let Some((rule, a, p)) = o.prefix.get(t) {
                st.push(K::Op(*rule, *a, *p));
            } else if o.paren.is_some_and(|x| x.0 == *t) {
                st.push(K::Open);
            } else {
                return None;
            }
        } else if let Some((rule, a, p, lv)) = o.binary.get(t) {
            reduce(&mut st, &mut out, *lv);
            st.push(K::Op(*rule, *a, *p));
            want_operand = true;
        } else if let Some((rule, lv)) = o.postfix.get(t) {
            reduce(&mut st, &mut out, *lv);
            out.push(*rule);
        } else if o.ternary.is_some_and(|x| x.0 == *t) {
            reduce(&mut st, &mut out, o.ternary.unwrap().5);
            st.push(K::Quest);
            want_operand = true;
        } else if o.ternary.is_some_and(|x| x.1 == *t) {
            // everything inside the branches of ? : is complete
            drain(&mut st, &mut out);
            if !matches!(st.pop(), Some(K::Quest)) {
                return None;
            }
            let (_, _, rule, a, p, _) = o.ternary.unwrap();
            st.push(K::Op(rule, a, p));
            want_operand = true;
        } else if o.paren.is_some_and(|x| x.1 == *t) {
            drain(&mut st, &mut out);
            if !matches!(st.pop(), Some(K::Open)) {
                return None;
            }
            out.push(o.paren.unwrap().2);
        } else {
            return None;
        }
    }
    if want_operand {
        return None;
    }
    drain(&mut st, &mut out);
    if st.is_empty() { Some(out) } else { None }
}

// ------------------------------------------------------------------ phase gen

fn case_rng(ctx: &Ctx, case: u64) -> Rng {
    ctx.rng(case)
}
fn run_rng(ctx: &Ctx, case: u64) -> Rng {
    Rng::new(&[ctx.o.seed, crate::rng::hash_str(&ctx.o.prop), case, 0x5eed])
}

/// What a case gives in process.
fn make_in(ctx: &Ctx, c: &Case, aug: bool, dir: &std::path::Path) -> Outcome {
    let _ = ctx;
    generate(aug, &c.text, "spec", c.ign, c.ign, dir)
}

fn suspicious(c: &Case, m: &Made) -> bool {
    match states::parse(&m.report, &c.g) {
        Err(_) => true,
        Ok(rep) => {
            // identical rules cannot be told apart in a report
            let w = walk(&c.g, &c.auto, &RepTab::new(&rep, &c.g));
            !w.diffs.is_empty()
        }
    }
}

pub fn generate_phase(ctx: &mut Ctx) {
    let prop = ctx.o.prop.clone();
    let quick = !ctx.o.thorough();
    let (want, look) = match prop.as_str() {
        "C12" | "C13" | "C17" => (if quick { 24 } else { 60 }, if quick { 260 } else { 3000 }),
        "C25" => (if quick { 14 } else { 30 }, if quick { 150 } else { 1500 }),
        _ => (if quick { 28 } else { 60 }, if quick { 120 } else { 800 }),
    };
    let extra = 10;
    let dir = scratch(ctx);
    let mut b = Batch::new(ctx);
    let t0 = std::time::Instant::now();
    let limit = if quick { 9.0 } else { 40.0 };
    let (mut sampled, mut suspects, mut k) = (0, 0, 0u64);
    let only = ctx.o.only_case;
    while (sampled < want || (k as usize) < look * 6) && t0.elapsed().as_secs_f64() < limit * if sampled < want { 3.0 } else { 1.0 } {
        let case = only.unwrap_or(ctx.o.round * 10_000_000 + k * ctx.o.shards + ctx.o.shard);
        k += 1;
        if k as usize > look * 40 {
            break;
        }
        let mut r = case_rng(ctx, case);
        ctx.begin(case);
        let Some(c) = make(&prop, case, &mut r) else {
            if only.is_some() {
                break;
            }
            continue;
        };
        ctx.desc(c.text.clone());
        if k == 1 || k == 2 {
            // (the wide ones)
            ctx.max("wide_states", c.auto.states.len() as u64);
            ctx.max("wide_tokens", c.g.terms.len() as u64);
            ctx.max("wide_rules", c.g.rules.len() as u64);
            ctx.max("wide_rule_symbols", c.g.rules.iter().map(|x| x.rhs.len()).max().unwrap_or(0) as u64);
        }
        if prop == "C25" {
            let (x, y) = (make_in(ctx, &c, false, &dir), make_in(ctx, &c, true, &dir));
            ctx.count("grammars_generated_in_process", 1);
            c25_outcomes(ctx, &c, &x, &y);
            // refusals must agree too, whatever the declared number of conflicts
            let mut counts = vec![];
            for aug in [false, true] {
                counts.push(generate(aug, &c.text, "spec", false, false, &dir));
            }
            c25_outcomes(ctx, &c, &counts[0], &counts[1]);
            if let (Outcome::Ok(x), Outcome::Ok(y)) = (&x, &y) {
                let odd = x.report != y.report;
                if sampled < want || (odd && suspects < extra) || only.is_some() {
                    b.add(case, 0, false, &c.g, &x.code);
                    b.add(case, 1, true, &c.g, &y.code);
                    if sampled < want { sampled += 1 } else { suspects += 1 }
                }
            }
        } else {
            match make_in(ctx, &c, c.aug, &dir) {
                Outcome::Ok(m) => {
                    ctx.count("grammars_generated_in_process", 1);
                    let odd = suspicious(&c, &m);
                    ctx.count("suspicious_reports", odd as u64);
                    if sampled < want || (odd && suspects < extra) || only.is_some() {
                        b.add(case, 0, c.aug, &c.g, &m.code);
                        if prop == "C23" {
                            std::fs::write(report_file(ctx, case), &m.report).expect("report copy");
                        }
                        if let Some((g, t)) = &c.other {
                            if let Outcome::Ok(m) = generate(c.aug, t, "spec", true, true, &dir) {
                                b.add(case, 1, c.aug, g, &m.code);
                            }
                        }
                        if sampled < want { sampled += 1 } else { suspects += 1 }
                    }
                }
                o => {
                    if let Outcome::Panic(l, msg) = &o {
                        ctx.violation("no-parser", format!("the generator panicked at {l}: {msg}"));
                    } else if prop == "C13" && !c.ign {
                        let e = ctx.stderr_since();
                        ctx.violation("not-resolved", format!("{} although precedence resolves every conflict of the grammar\n{e}", o.brief()));
                    } else if prop == "C12" {
                        ctx.violation("no-tables", format!("{} although the grammar has an LALR(1) automaton and conflicts are to be ignored", o.brief()));
                    }
                    ctx.count(if prop == "C10" && !c.auto.conflict_free() { "conflicting grammars refused" } else { "valid_but_refused" }, 1);
                    if !(prop == "C10" && !c.auto.conflict_free()) && ctx.notes.len() < 3 {
                        let e = ctx.stderr_since();
                        ctx.notes.push(format!("case {case}: {} (acceptance is decided by C14, C18 and C19) {e}", o.brief()));
                    }
                }
            }
        }
        if only.is_some() {
            break;
        }
    }
    ctx.begin(only.unwrap_or(ctx.o.shard));
    ctx.desc("compiling the batch".into());
    for (u, e) in b.compile(ctx) {
        ctx.begin(u.case);
        ctx.violation("does-not-compile", format!("{} generator: the specification was accepted but the parser written for it does not compile (variant {}):\n{e}", if u.aug { "augmented" } else { "plain" }, u.variant));
    }
}

fn report_file(ctx: &Ctx, case: u64) -> std::path::PathBuf {
    ctx.o.out.join(format!("mods.{}", ctx.o.shard)).join(format!("report.{case}"))
}

// ------------------------------------------------------------------ phase run

pub fn run(ctx: &mut Ctx, mods: &[(u64, u32, ModFn)]) {
    let prop = ctx.o.prop.clone();
    ctx.rule = match prop.as_str() {
        "C10" => "compiled plain and augmented parsers of random and curated grammars x derived, damaged, random and exhaustively enumerated short texts; an evaluation is one parse judged by an Earley recogniser (verdict, and the token reported); non-trivial: text of 2+ tokens (distinct by grammar and text)",
        "C11" => "compiled parsers of unambiguous grammars x derived texts, with actions that assign, do not assign, copy or are absent: recorded actions and values must be those of the derivation tree; and of ambiguous grammars, where the recorded actions must form a parse tree of the text; non-trivial: tree of 4+ nodes",
        "C12" => "compiled parsers of random and curated grammars (those whose report looked odd, and a random sample of the rest): action, goto, production and look-ahead tables walked in step with an LALR(1) automaton built by merging the canonical LR(1) automaton; an evaluation is one parser; non-trivial: 8+ states",
        "C13" => "compiled parsers of grammars with conflicts and precedence declarations: entries with more than one candidate compared with the documented resolution; and operator languages, whose recorded actions are compared with operator precedence parsing; non-trivial: a parser with resolved conflicts, or a text with 2+ operators",
        "C16" => "compiled augmented parsers of grammars with guarded rules: tables probed for the order of predicates, and runs under pseudo-random predicates compared with a reference machine (values and look-ahead seen, rule chosen, errors); non-trivial: a run in which 2+ guarded decisions were made",
        "C17" => "compiled parsers of grammars with %error: recovery tables compared with what the parser's own goto and action tables imply; parsers with and without error rules run on valid texts; non-trivial: a recovery entry exists",
        "C23" => "compiled parsers compared entry by entry, under the same numbers, with the report written next to them, and the report's symbols, attributes and conflicts with the declarations; non-trivial: 8+ states",
        _ => "specifications without predicates given to both generators: outcome, conflict counts, and for compiled pairs isomorphic tables, equal lexers and equal runs on valid and damaged texts; non-trivial: 8+ states",
    }
    .into();
    let start = std::time::Instant::now();
    let budget = if ctx.o.thorough() { 120.0 } else { 60.0 };
    for (case, fs) in by_case(ctx, mods) {
        if start.elapsed().as_secs_f64() > budget {
            ctx.count("cases_not_reached", 1);
            continue;
        }
        ctx.begin(case);
        let mut r = case_rng(ctx, case);
        let Some(c) = make(&prop, case, &mut r) else {
            ctx.notes.push(format!("HARNESS case {case} cannot be made again"));
            continue;
        };
        let which = if prop == "C25" { "both generators" } else if c.aug { "augmented" } else { "plain" };
        ctx.desc(format!("{which}, specification:\n{}", c.text));
        let mut rr = run_rng(ctx, case);
        ctx.guarded("compiled parser", |ctx| {
            let ms: BTreeMap<u32, Module> = fs.iter().map(|(v, f)| (*v, f())).collect();
            match prop.as_str() {
                "C10" => c10(ctx, &c, &ms[&0], &mut rr),
                "C11" => c11(ctx, &c, &ms[&0], &mut rr),
                "C12" => c12(ctx, &c, &ms[&0]),
                "C13" => c13(ctx, &c, &ms[&0], &mut rr),
                "C16" => c16(ctx, &c, &ms[&0], &mut rr),
                "C17" => c17(ctx, &c, &ms, &mut rr),
                "C23" => c23(ctx, &c, &ms[&0], case),
                _ => c25(ctx, &c, &ms, &mut rr),
            }
        });
    }
}

pub fn reflex_of(g: &Gram) -> RefLex {
    let mut l = vec![];
    let mut e = vec![];
    for (i, t) in g.terms.iter().enumerate().skip(1) {
        match &t.text {
            gram::Text::Lit(s) => l.push((i, s.clone())),
            gram::Text::Re(s) => e.push((i, format!("({s})"))),
        }
    }
    let skips: Vec<String> = g.skips.iter().map(|s| format!("({s})")).collect();
    RefLex::new(&l, &e, &skips)
}

fn cap_for(n: usize) -> usize {
    4000 + n * 400
}

fn texts(r: &mut Rng, g: &Gram, n: usize, valid_only: bool) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![];
    for i in 0..n {
        let budget = *r.pick(&[3, 6, 12, 25, 60]);
        let mut t = match gram::derive(g, r, budget) {
            Some(x) => x.0,
            None => continue,
        };
        if !valid_only {
            match i % 4 {
                0 => {}
                1 => gram::mutate(g, r, &mut t),
                2 => {
                    gram::mutate(g, r, &mut t);
                    gram::mutate(g, r, &mut t);
                }
                _ => t = gram::random_tokens(g, r, 12),
            }
        }
        v.push(t);
    }
    v
}

fn show_toks(g: &Gram, t: &[usize]) -> String {
    t.iter().map(|x| g.terms[*x].sample.clone()).collect::<Vec<_>>().join(" ")
}

fn panicked(ctx: &mut Ctx, what: &str, l: &str, m: &str) {
    ctx.violation("parser-panic", format!("{what}: the parser panicked at {l}: {m}"));
}

// ---- C10

fn c10(ctx: &mut Ctx, c: &Case, m: &Module, r: &mut Rng) {
    let g = &c.g;
    let lex = reflex_of(g);
    let n = if ctx.o.thorough() { 300 } else { 90 };
    let mut ts = texts(r, g, n, false);
    ts.push(vec![]);
    // every short text
    let nt = g.terms.len() - 1;
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    let limit = if ctx.o.thorough() { 1500 } else { 250 };
    let mut i = 0;
    while i < all.len() && all.len() < limit {
        for t in 1..=nt {
            let mut x = all[i].clone();
            x.push(t);
            all.push(x);
        }
        i += 1;
    }
    ts.append(&mut all);
    let mut seen = BTreeSet::new();
    for t in ts {
        if t.len() > 150 || !seen.insert(t.clone()) {
            continue;
        }
        let text = gram::render(g, &t, r);
        ctx.eval();
        let o = m.run(RtEnv::new(cap_for(t.len())), &text, "in");
        let want = earley::check(g, &t);
        let res = match &o.result {
            Ok(x) => x,
            Err((l, msg)) => {
                panicked(ctx, &format!("text {text:?}"), l, msg);
                return;
            }
        };
        ctx.count(if want.is_ok() { "sentences" } else { "non_sentences" }, 1);
        if t.len() >= 2 {
            ctx.nontrivial(&format!("{}{text}", c.text));
        }
        match (want, res) {
            (Ok(()), Ok(())) => {}
            (Ok(()), Err(e)) => {
                ctx.violation("rejects-sentence", format!("the grammar derives {text:?} but the parser said {e}"));
                return;
            }
            (Err(k), Ok(())) => {
                ctx.violation("accepts-non-sentence", format!("the parser accepts {text:?}, which the grammar does not derive (token {k} is impossible there)"));
                return;
            }
            (Err(k), Err(e)) => {
                let (items, end) = lex.lex(&text, "in");
                let (name, lexeme, loc) = match items.get(k) {
                    Some((_, Item::Tok(t, s, l))) => (g.terms[*t].name.clone(), s.clone(), l.clone()),
                    _ => ("AAEnd".into(), String::new(), end),
                };
                let mut want = show_syntax(&name, &lexeme, &loc, &[]);
                let cut = want.rfind(" expected ").unwrap();
                want.truncate(cut);
                let first = o.events.iter().find_map(|x| if let Ev::Report(s) = x { Some(s.clone()) } else { None }).unwrap_or_default();
                if !first.starts_with(&want) || !e.starts_with(&want) {
                    ctx.violation("wrong-token-reported", format!("text {text:?}: the first impossible token is {want:?}, reported {first:?}, returned {e:?}"));
                    return;
                }
            }
        }
    }
    let t = c.text.clone();
    ctx.sample(|| format!("{} texts parsed by the {} parser of\n{t}", seen.len(), if c.aug { "augmented" } else { "plain" }));
}

// ---- C11

fn eval_tree(g: &Gram, fl: &[Flavour], t: &Tree, toks: &[Val], ev: &mut Vec<(u32, Vec<Val>, u32)>, calls: &mut u32) -> Val {
    match t {
        Tree::Tok(_, i) => toks[*i].clone(),
        Tree::Node(r, kids) => {
            let v: Vec<Val> = kids.iter().map(|k| eval_tree(g, fl, k, toks, ev, calls)).collect();
            let first = v.first().cloned().unwrap_or_default();
            match fl[*r] {
                Flavour::None => first,
                Flavour::Copy(k) => v[k - 1].clone(),
                f => {
                    *calls += 1;
                    ev.push((*r as u32 + 1, v, *calls));
                    if f == Flavour::Touch { first } else { Val::Node(*calls) }
                }
            }
        }
    }
}

fn tok_vals(g: &Gram, lex: &RefLex, text: &str) -> Vec<Val> {
    lex.lex(text, "in")
        .0
        .into_iter()
        .map(|(_, i)| match i {
            Item::Tok(t, s, l) => Val::Tok(g.terms[t].name.clone(), s, l),
            x => Val::Err(format!("{x:?}")),
        })
        .collect()
}

fn reductions(ev: &[Ev]) -> Vec<(u32, Vec<Val>, u32)> {
    ev.iter().filter_map(|e| if let Ev::Reduce(p, v, id) = e { Some((*p, v.clone(), *id)) } else { None }).collect()
}

/// Do these actions (all making nodes) form a parse tree of the text?
fn valid_tree(g: &Gram, toks: &[Val], ev: &[(u32, Vec<Val>, u32)]) -> Result<(), String> {
    let mut rule_of: HashMap<u32, usize> = HashMap::new();
    let mut used: BTreeSet<u32> = BTreeSet::new();
    let mut spans: HashMap<u32, (usize, usize)> = HashMap::new();
    let pos = |v: &Val| toks.iter().position(|x| x == v);
    for (p, args, id) in ev {
        let ru: &Rule = g.rules.get(*p as usize - 1).ok_or("unknown rule")?;
        if ru.rhs.len() != args.len() {
            return Err(format!("rule {p} ran on {} values", args.len()));
        }
        let mut span: Option<(usize, usize)> = None;
        for (s, a) in ru.rhs.iter().zip(args) {
            let sp = match (s, a) {
                (Sym::T(t), Val::Tok(n, ..)) if g.terms[*t].name == *n => {
                    let i = pos(a).ok_or_else(|| format!("{a:?} is not in the text"))?;
                    Some((i, i + 1))
                }
                (Sym::N(n), Val::Node(x)) if rule_of.get(x).is_some_and(|r| g.rules[*r].lhs == *n) => {
                    if !used.insert(*x) {
                        return Err(format!("node {x} is used twice"));
                    }
                    spans.get(x).copied().filter(|s| s.0 < s.1)
                }
                _ => return Err(format!("rule {p} got {a:?} for {s:?}")),
            };
            span = match (span, sp) {
                (None, x) => x,
                (x, None) => x,
                (Some((a, b)), Some((c, d))) => {
                    if b != c {
                        return Err(format!("rule {p}: values out of order or text missing between {b} and {c}"));
                    }
                    Some((a, d))
                }
            };
        }
        rule_of.insert(*id, *p as usize - 1);
        spans.insert(*id, span.unwrap_or((0, 0)));
    }
    let (p, _, root) = ev.last().ok_or("no action ran")?;
    if g.rules[*p as usize - 1].lhs != g.start() {
        return Err("the last action is not the start symbol's".into());
    }
    if used.len() + 1 != ev.len() || used.contains(root) {
        return Err(format!("{} nodes were made and {} used", ev.len(), used.len()));
    }
    let sp = spans[root];
    if sp != (0, toks.len()) {
        return Err(format!("the tree spans {sp:?} of {} tokens", toks.len()));
    }
    Ok(())
}

fn c11(ctx: &mut Ctx, c: &Case, m: &Module, r: &mut Rng) {
    let g = &c.g;
    let lex = reflex_of(g);
    let n = if ctx.o.thorough() { 200 } else { 60 };
    for _ in 0..n {
        let budget = *r.pick(&[2, 5, 12, 30, 80]);
        let Some((t, tree)) = gram::derive(g, r, budget) else { continue };
        let text = gram::render(g, &t, r);
        let toks = tok_vals(g, &lex, &text);
        ctx.eval();
        let o = m.run(RtEnv::new(cap_for(t.len()) * 4), &text, "in");
        let res = match &o.result {
            Ok(x) => x,
            Err((_, msg)) if c.ign && msg.starts_with("VH:") => {
                // a choice made by rule order may reduce nothings for ever; no text is accepted then
                ctx.count("endless", 1);
                continue;
            }
            Err((l, msg)) => {
                panicked(ctx, &format!("text {text:?}"), l, msg);
                return;
            }
        };
        if c.ign {
            // ambiguous: only accepted texts count (resolution may refuse some)
            if res.is_err() {
                ctx.count("refused_by_resolution", 1);
                continue;
            }
            let got = reductions(&o.events);
            ctx.count("actions", got.len() as u64);
            if got.len() >= 4 {
                ctx.nontrivial(&format!("{}{text}", c.text));
            }
            if let Err(e) = valid_tree(g, &toks, &got) {
                ctx.violation("not-a-tree", format!("text {text:?}: {e}\nactions {got:?}"));
                return;
            }
            continue;
        }
        if res.is_err() {
            // not this property's business
            ctx.count("sentences_refused", 1);
            continue;
        }
        let mut want = vec![];
        let mut calls = 0;
        eval_tree(g, &c.fl, &tree, &toks, &mut want, &mut calls);
        let got = reductions(&o.events);
        ctx.count("actions", got.len() as u64);
        ctx.max("actions_in_one_parse", got.len() as u64);
        if want.len() >= 4 {
            ctx.nontrivial(&format!("{}{text}", c.text));
        }
        if let Some(Ev::Report(s)) = o.events.iter().find(|e| matches!(e, Ev::Report(_))) {
            ctx.violation("initial-value", format!("text {text:?}: {s}"));
            return;
        }
        if want != got {
            let i = want.iter().zip(&got).take_while(|(a, b)| a == b).count();
            ctx.violation("actions", format!("text {text:?}: action {i}: expected {:?}, got {:?}", want.get(i), got.get(i)));
            return;
        }
        let s = format!("text {text:?}: {} actions, grammar\n{}", got.len(), c.text);
        ctx.sample(|| s);
    }
}

// ---- C12, C13

fn walked(ctx: &mut Ctx, c: &Case, m: &Module) -> Walk {
    let w = walk(&c.g, &c.auto, &ModTab::new(m, &c.g));
    ctx.count("table_entries", w.entries);
    ctx.count("conflict_entries", w.conflict_entries);
    ctx.count("goto_entries", w.gotos);
    ctx.count("states_matched", w.map.len() as u64);
    ctx.count("viable_entries", w.viable_entries);
    ctx.max("states", w.map.len() as u64);
    w
}

fn c12(ctx: &mut Ctx, c: &Case, m: &Module) {
    ctx.eval();
    let w = walked(ctx, c, m);
    if c.auto.states.len() >= 8 {
        ctx.nontrivial(&c.text);
    }
    ctx.count("lalr_merges", (c.auto.lr1_states - c.auto.states.len()) as u64);
    if let Some(d) = w.first(Kind::Plain) {
        ctx.violation("tables", d.clone());
    } else if let Some(d) = w.first(Kind::Look) {
        ctx.violation("look-ahead-set", d.clone());
    }
    let t = c.text.clone();
    ctx.sample(|| format!("{} states matched for\n{t}", w.map.len()));
}

fn c13(ctx: &mut Ctx, c: &Case, m: &Module, r: &mut Rng) {
    ctx.eval();
    let w = walked(ctx, c, m);
    if w.conflict_entries > 0 {
        ctx.nontrivial(&c.text);
    }
    if let Some(d) = w.first(Kind::Conflict) {
        ctx.violation("resolution", d.clone());
        return;
    }
    let Some(ops) = &c.ops else { return };
    let g = &c.g;
    let n = if ctx.o.thorough() { 300 } else { 80 };
    for i in 0..n {
        let mut t = vec![];
        expression_text(r, ops, 3, &mut t);
        if i % 10 == 9 {
            gram::mutate(g, r, &mut t);
        }
        let text = gram::render(g, &t, r);
        ctx.eval();
        let o = m.run(RtEnv::new(cap_for(t.len()) * 2), &text, "in");
        let want = operator_parse(ops, &t);
        match (&want, &o.result) {
            (_, Err((l, msg))) => {
                panicked(ctx, &format!("text {text:?}"), l, msg);
                return;
            }
            (Some(v), Ok(Ok(()))) => {
                let got: Vec<usize> = reductions(&o.events).iter().map(|x| x.0 as usize - 1).collect();
                ctx.count("expressions_grouped", 1);
                if t.len() >= 5 {
                    ctx.nontrivial(&format!("{}{text}", c.text));
                }
                if *v != got {
                    ctx.violation("grouping", format!("expression {:?}: rules applied should be {v:?} (0 based), were {got:?}", show_toks(g, &t)));
                    return;
                }
            }
            (Some(_), Ok(Err(e))) => {
                ctx.violation("grouping", format!("expression {:?} was refused: {e}", show_toks(g, &t)));
                return;
            }
            (None, Ok(Ok(()))) => {
                ctx.violation("grouping", format!("{:?} is no expression but was accepted", show_toks(g, &t)));
                return;
            }
            (None, Ok(Err(_))) => ctx.count("non_expressions", 1),
        }
    }
    let s = format!("operators {ops:?}\n{}", c.text);
    ctx.sample(|| s);
}

// ---- runs against the reference machine

pub struct RefRun {
    pub run: refdrv::Run,
}

fn names_of<'a>(g: &'a Gram) -> impl Fn(usize) -> String + 'a {
    move |t| g.terms[t].name.clone()
}

pub fn reference(g: &Gram, tab: &Tab, lex: &RefLex, fl: &[Flavour], text: &str, label: &str, salt: u64, inject: &dyn Fn(u32) -> refdrv::Injects, cap: usize) -> Option<refdrv::Run> {
    let name = names_of(g);
    let flv = |p: u32| fl.get(p as usize - 1).copied().unwrap_or(Flavour::None);
    refdrv::run(
        tab,
        lex,
        text,
        label,
        &mut Hooks {
            name: &name,
            inject: &mut |_, _, k| inject(k),
            pred: &mut |p, a, t| super::driver::pred_hash(salt, p, a, t),
            silent: &|p, args| match flv(p) {
                Flavour::None => Some(args.first().cloned().unwrap_or_default()),
                Flavour::Copy(k) => Some(args[k - 1].clone()),
                _ => None,
            },
            view: 0,
            all_preds: true,
            keep: &|p| flv(p) == Flavour::Touch,
        },
        cap,
    )
}

/// Split a log into its events other than queries and predicates, and the predicates seen before each.
fn split(ev: &[Ev]) -> (Vec<Ev>, Vec<Vec<Ev>>) {
    let (mut a, mut b) = (vec![], vec![vec![]]);
    for e in ev {
        match e {
            Ev::Query(..) => {}
            Ev::Pred(..) => b.last_mut().unwrap().push(e.clone()),
            _ => {
                a.push(e.clone());
                b.push(vec![]);
            }
        }
    }
    (a, b)
}

pub fn diff_logs(want: &[Ev], got: &[Ev]) -> Option<String> {
    let ((w, wp), (g, gp)) = (split(want), split(got));
    let i = w.iter().zip(&g).take_while(|(a, b)| a == b).count();
    for k in 0..=i {
        for e in &gp[k] {
            if !wp[k].contains(e) {
                return Some(format!("before event {k}: predicate evaluated as {e:?}, but those due there are {:?}", wp[k]));
            }
        }
    }
    if i < w.len() || i < g.len() {
        let lo = i.saturating_sub(3);
        return Some(format!("event {i}: expected {:?}\n        got {:?}\n      after {:?}\n   predicates before it {:?}", w.get(i), g.get(i), &w[lo..i], wp[i]));
    }
    None
}

fn c16(ctx: &mut Ctx, c: &Case, m: &Module, r: &mut Rng) {
    let g = &c.g;
    ctx.eval();
    let guards = guard_numbers(g);
    // how many values a guard looks at
    let shown = |p: u32| if p >= SHARED { (p - SHARED) as usize } else { usize::MAX };
    if guards.iter().any(|n| *n >= SHARED) {
        // probing cannot tell rules with the same guard apart: the runs must
        ctx.count("shared_guards", 1);
    } else {
        let w = walked(ctx, c, m);
        ctx.count("chains_probed", w.chains);
        if let Some(d) = w.first(Kind::Chain) {
            ctx.violation("order-of-predicates", d.clone());
            return;
        }
        if !w.diffs.is_empty() {
            // the tables differ where no predicate decides: not this property's business
            ctx.count("tables_differ_elsewhere", 1);
            return;
        }
    }
    let lex = reflex_of(g);
    let tab = c.auto.tab();
    let n = if ctx.o.thorough() { 300 } else { 120 };
    let ts = texts(r, g, n, false);
    for (i, t) in ts.into_iter().enumerate() {
        let text = gram::render(g, &t, r);
        let mode = i % 4;
        let salt = r.next();
        // predicates that mostly hold let long texts through
        let hold = move |p: u32, a: &[Val], k: &str| match mode {
            0 => true,
            1 => crate::rng::hash_str(&format!("{salt}{p}{a:?}{k}")) % 5 != 0,
            _ => super::driver::pred_hash(salt, p, a, k),
        };
        let cap = cap_for(t.len());
        let name = names_of(g);
        let flv = |p: u32| c.fl.get(p as usize - 1).copied().unwrap_or(Flavour::None);
        let Some(mut want) = refdrv::run(
            &tab,
            &lex,
            &text,
            "in",
            &mut Hooks {
                name: &name,
                inject: &mut |_, _, _| vec![],
                pred: &mut |p, a, k| {
                    let p = guards[p as usize];
                    hold(p, &a[..a.len().min(shown(p))], k)
                },
                silent: &|p, args| match flv(p) {
                    Flavour::None => Some(args.first().cloned().unwrap_or_default()),
                    Flavour::Copy(k) => Some(args[k - 1].clone()),
                    _ => None,
                },
                view: 0,
                all_preds: true,
                keep: &|p| flv(p) == Flavour::Touch,
            },
            cap,
        ) else {
            ctx.count("endless", 1);
            continue;
        };
        for e in want.events.iter_mut() {
            if let Ev::Pred(p, args, _) = e {
                *p = guards[*p as usize];
                args.truncate(shown(*p));
            }
        }
        ctx.eval();
        let mut e = RtEnv::new(cap * 4);
        e.pred = Box::new(hold);
        let o = m.run(e, &text, "in");
        let preds = o.events.iter().filter(|e| matches!(e, Ev::Pred(..))).count();
        ctx.count("predicates_evaluated", preds as u64);
        ctx.count("reports", want.reports as u64);
        if preds >= 2 {
            ctx.nontrivial(&format!("{}{text}{salt}", c.text));
        }
        match o.result {
            Err((l, msg)) => {
                panicked(ctx, &format!("text {text:?}"), &l, &msg);
                return;
            }
            Ok(res) => {
                if let Some(d) = diff_logs(&want.events, &o.events) {
                    ctx.violation("guarded-run", format!("text {text:?}: {d}"));
                    return;
                }
                if res != want.result {
                    ctx.violation("guarded-run", format!("text {text:?}: expected result {:?}, got {res:?}", want.result));
                    return;
                }
            }
        }
    }
    let s = c.text.clone();
    ctx.sample(|| format!("{} guards in\n{s}", guards.iter().filter(|n| **n > 0).count()));
}

// ---- C17

/// Tables of a compiled parser, states numbered as it does, as far as they can be reached.
pub struct Extracted {
    pub acts: BTreeMap<u32, Vec<Act>>,
    pub gotos: BTreeMap<(u32, usize), u32>,
    pub prods: BTreeMap<u32, (usize, usize)>,
}
pub fn extract(t: &dyn Tables, nterms: usize, nnts: usize) -> Result<Extracted, String> {
    let mut x = Extracted { acts: BTreeMap::new(), gotos: BTreeMap::new(), prods: BTreeMap::new() };
    // all states, the ones that conflict resolution cut off included
    let mut todo: Vec<u32> = (0..3000).take_while(|s| *s == 0 || t.action(*s, 0).is_ok()).collect();
    while let Some(s) = todo.pop() {
        if x.acts.contains_key(&s) {
            continue;
        }
        if x.acts.len() > 3000 {
            return Err("too many states".into());
        }
        let mut row = vec![];
        for k in 0..nterms {
            let a = t.action(s, k).map_err(|e| format!("action({s}, {k}): {e}"))?;
            if let Act::Shift(n) = a {
                todo.push(n);
            }
            if let Act::Reduce(p) = a {
                if let std::collections::btree_map::Entry::Vacant(v) = x.prods.entry(p) {
                    v.insert(t.production(p)?);
                }
            }
            row.push(a);
        }
        for n in 0..nnts {
            if let Ok(to) = t.goto(s, n) {
                x.gotos.insert((s, n), to);
                todo.push(to);
            }
        }
        x.acts.insert(s, row);
    }
    Ok(x)
}

fn c17(ctx: &mut Ctx, c: &Case, ms: &BTreeMap<u32, Module>, r: &mut Rng) {
    let g = &c.g;
    let m = &ms[&0];
    let tab = ModTab::new(m, g);
    ctx.eval();
    let w = walked(ctx, c, m);
    let err_nt = c.auto.p.err_nt;
    let x = match extract(&tab, g.terms.len(), c.auto.p.nts.len()) {
        Ok(x) => x,
        Err(e) => {
            ctx.notes.push(format!("tables cannot be read: {e}"));
            return;
        }
    };
    let back: BTreeMap<u32, u32> = w.prods.iter().map(|(a, b)| (*b, *a)).collect();
    let tail = |q: u32| {
        let p = back.get(&q).copied().unwrap_or(q) as usize;
        p < c.auto.p.v.len() && c.auto.p.error_tail(p)
    };
    let mut entries = 0;
    for t in 0..g.terms.len() {
        let mut want = BTreeSet::new();
        for s in x.acts.keys() {
            if let Some(e) = x.gotos.get(&(*s, err_nt)) {
                if matches!(x.acts[e][t], Act::Reduce(q) if tail(q)) {
                    want.insert(*s);
                }
            }
        }
        entries += want.len();
        let got = match tab.viable(t) {
            Ok(v) => v,
            Err(e) => {
                ctx.violation("recovery-table", format!("viable states for {}: {e}", g.terms[t].name));
                return;
            }
        };
        if got != want {
            ctx.violation("recovery-table", format!("states from which the parser may recover on {}: by its own tables {want:?}, reported {got:?}", g.terms[t].name));
            return;
        }
        for s in &got {
            let to = tab.err_goto(*s);
            if to.as_ref().ok() != x.gotos.get(&(*s, err_nt)) {
                ctx.violation("recovery-goto", format!("recovery from state {s} goes to {to:?}, the error symbol to {:?}", x.gotos.get(&(*s, err_nt))));
                return;
            }
        }
    }
    ctx.count("recovery_entries", entries as u64);
    if entries > 0 {
        ctx.nontrivial(&c.text);
        let s = c.text.clone();
        ctx.sample(|| format!("{entries} recovery entries in\n{s}"));
    }
    if !w.diffs.is_empty() {
        ctx.count("tables_differ_elsewhere", 1);
    }
    let n = if ctx.o.thorough() { 120 } else { 40 };
    if !g.uses_error() {
        for t in texts(r, g, n, false) {
            let text = gram::render(g, &t, r);
            ctx.eval();
            let o = m.run(RtEnv::new(cap_for(t.len())), &text, "in");
            let rep = o.events.iter().filter(|e| matches!(e, Ev::Report(_))).count();
            if rep > 1 || o.events.iter().any(|e| matches!(e, Ev::Recover(_))) {
                ctx.violation("recovers-without-error-rules", format!("text {text:?}: {rep} reports, events {:?}", o.events));
                return;
            }
        }
        return;
    }
    // recovery runs, judged by the reference machine over the reference tables
    if w.diffs.is_empty() {
        let lex = reflex_of(g);
        let rt = c.auto.tab();
        for t in texts(r, g, n, false) {
            let text = gram::render(g, &t, r);
            let cap = cap_for(t.len());
            let Some(want) = reference(g, &rt, &lex, &c.fl, &text, "in", 0, &|_| vec![], cap) else { continue };
            ctx.eval();
            let o = m.run(RtEnv::new(cap * 4), &text, "in");
            ctx.count("recoveries", want.recoveries as u64);
            match o.result {
                Err((l, msg)) => {
                    panicked(ctx, &format!("text {text:?}"), &l, &msg);
                    return;
                }
                Ok(res) => {
                    if let Some(d) = diff_logs(&want.events, &o.events) {
                        ctx.violation("recovery-run", format!("text {text:?}: {d}"));
                        return;
                    }
                    if res != want.result {
                        ctx.violation("recovery-run", format!("text {text:?}: expected {:?} got {res:?}", want.result));
                        return;
                    }
                }
            }
        }
    }
    // error rules do not change the parse of valid text
    if let (Some((g2, _)), Some(m2)) = (&c.other, ms.get(&1)) {
        for t in texts(r, g2, n, true) {
            let text = gram::render(g, &t, r);
            let a = m.run(RtEnv::new(cap_for(t.len()) * 2), &text, "in");
            let b = m2.run(RtEnv::new(cap_for(t.len()) * 2), &text, "in");
            if !matches!(b.result, Ok(Ok(()))) {
                continue;
            }
            ctx.eval();
            ctx.count("valid_texts_with_and_without_error_rules", 1);
            if a.result != b.result || reductions(&a.events) != reductions(&b.events) {
                ctx.violation("changes-valid-parse", format!("text {text:?}: without error rules {:?}, with them {:?} {:?}", reductions(&b.events), a.result, reductions(&a.events)));
                return;
            }
        }
    }
}

// ---- C23

pub fn attr(a: Assoc, p: u32) -> String {
    let n = match a {
        Assoc::Non => "NonAssoc",
        Assoc::Left => "Left",
        Assoc::Right => "Right",
    };
    format!("({n}, {p})")
}

fn c23(ctx: &mut Ctx, c: &Case, m: &Module, case: u64) {
    let g = &c.g;
    let Ok(text) = std::fs::read_to_string(report_file(ctx, case)) else {
        ctx.notes.push(format!("HARNESS no report for case {case}"));
        return;
    };
    ctx.eval();
    let rep = match states::parse(&text, g) {
        Ok(x) => x,
        Err(e) => {
            ctx.violation("unreadable", format!("the report cannot be read: {e}\n{text}"));
            return;
        }
    };
    if let Err((k, e)) = c23_check(ctx, c, m, &rep) {
        ctx.violation(&k, format!("{e}\n----- report\n{text}"));
    }
    if rep.states.len() >= 8 {
        ctx.nontrivial(&c.text);
        let t = c.text.clone();
        ctx.sample(|| format!("{} states of\n{t}", rep.states.len()));
    }
}

fn c23_check(ctx: &mut Ctx, c: &Case, m: &Module, rep: &states::Report) -> Result<(), (String, String)> {
    let g = &c.g;
    let err = |k: &str, s: String| (k.to_string(), s);
    let shown = states::Vocab::new(g).shown;
    // symbols and attributes
    let mut want: Vec<(String, String, String)> = vec![("AAEnd".into(), String::new(), "(NonAssoc, 0)".into())];
    for (i, t) in g.terms.iter().enumerate().skip(1) {
        let (a, p) = g.tag_prec(&Tag::Term(i));
        let tx = match &t.text {
            gram::Text::Lit(s) => format!("\"{s}\""),
            gram::Text::Re(s) => format!("({s})"),
        };
        want.push((t.name.clone(), tx, attr(a, p)));
    }
    let mut got = rep.tokens.clone();
    got.sort();
    want.sort();
    if got != want {
        return Err(err("tokens", format!("tokens: expected {want:?}\n got {got:?}")));
    }
    let mut wt: Vec<(String, String)> = g
        .tags()
        .iter()
        .map(|n| {
            let (a, p) = g.tag_prec(&Tag::Name(n.clone()));
            (n.clone(), attr(a, p))
        })
        .collect();
    let mut gt = rep.tags.clone();
    wt.sort();
    gt.sort();
    if wt != gt {
        return Err(err("tags", format!("tags: expected {wt:?}, got {gt:?}")));
    }
    // productions under their numbers
    let names: Vec<String> = c.auto.p.nts.clone();
    let np = rep.prods.len();
    if np != c.auto.p.v.len() {
        return Err(err("productions", format!("{np} productions listed, the grammar has {}", c.auto.p.v.len())));
    }
    for (i, line) in rep.prods.iter().enumerate() {
        let (lhs, len) = match crate::ctx::guard(|| (m.production)(i as u32)) {
            Ok(x) => x,
            Err((_, e)) => return Err(err("productions", format!("production {i} ({line}) is unknown to the parser: {e}"))),
        };
        let pr = &c.auto.p.v[i];
        let body = if pr.rhs.is_empty() {
            "<empty>".to_string()
        } else {
            pr.rhs
                .iter()
                .map(|s| match s {
                    Sym::T(t) => shown[*t].clone(),
                    Sym::N(n) => names[*n].clone(),
                    Sym::Err => "?".into(),
                })
                .collect::<Vec<_>>()
                .join(" ")
        };
        let mut want = format!("{}: {} #{}", names[pr.lhs], body, attr(pr.assoc, pr.prec));
        if pr.pred {
            want.push_str(&format!(" ?({}?)", g.rules[i - 1].pred.as_ref().unwrap()));
        }
        let squash = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
        if squash(line) != squash(&want) {
            return Err(err("productions", format!("production {i} is listed as {line:?}, declared as {want:?}")));
        }
        if m.nts[lhs] != names[pr.lhs] || len != pr.rhs.len() {
            return Err(err("productions", format!("production {i} is listed as {line:?} but the parser has {} with {len} symbols", m.nts[lhs])));
        }
    }
    if crate::ctx::guard(|| (m.production)(np as u32)).is_ok() {
        return Err(err("productions", format!("the parser has a production {np} that is not listed")));
    }
    // states
    let n = rep.states.len();
    let tab = ModTab::new(m, g);
    if tab.action(n as u32, 0).is_ok() {
        return Err(err("states", format!("the parser has a state {n} that is not listed")));
    }
    ctx.count("states_compared", n as u64);
    for s in 0..n as u32 {
        let st = &rep.states[s as usize];
        for t in 0..g.terms.len() {
            let a = tab.action(s, t).map_err(|e| err("actions", format!("state {s} on {}: the parser has no action: {e}", shown[t])))?;
            ctx.count("entries_compared", 1);
            let listed = rep.act(s, t);
            if listed.as_ref() != Some(&a) {
                return Err(err("actions", format!("state {s} on {}: the parser's action is {a:?}, the report says {listed:?}", shown[t])));
            }
        }
        for (k, name) in names.iter().enumerate() {
            let got = tab.goto(s, k).ok();
            let listed = st.gotos.get(name).copied();
            if got != listed {
                return Err(err("gotos", format!("state {s} on {name}: the parser goes to {got:?}, the report says {listed:?}")));
            }
            ctx.count("gotos_compared", got.is_some() as u64);
        }
        // recovery: a state listed with a look-ahead set must recover exactly on the tokens whose recovery is viable
        let viable: BTreeSet<usize> = (0..g.terms.len()).filter(|t| tab.viable(*t).is_ok_and(|v| v.contains(&s))).collect();
        match &st.recovery {
            None => {
                if !viable.is_empty() {
                    return Err(err("recovery", format!("state {s} recovers on {viable:?}, the report lists no recovery state")));
                }
            }
            Some((to, la)) => {
                let e = tab.goto(s, c.auto.p.err_nt).ok();
                if e != Some(*to) {
                    return Err(err("recovery", format!("state {s}: recovery state listed as {to}, the parser goes to {e:?}")));
                }
                if !viable.is_empty() {
                    ctx.count("recovery_states_compared", 1);
                    match tab.err_goto(s) {
                        Ok(x) if x == *to => {}
                        x => return Err(err("recovery", format!("state {s}: recovery state listed as {to}, the parser recovers to {x:?}"))),
                    }
                    if !viable.is_subset(la) {
                        return Err(err("recovery", format!("state {s} recovers on {viable:?}, the report says {la:?}")));
                    }
                }
            }
        }
    }
    // items and conflicts, by way of the reference automaton (only if it is the same automaton)
    let w = walk(g, &c.auto, &tab);
    if !w.diffs.is_empty() {
        ctx.count("tables_differ_elsewhere", 1);
        return Ok(());
    }
    for (a, s) in &w.map {
        let st = &c.auto.states[*a];
        let lst = &rep.states[*s as usize];
        if lst.items.len() != st.items.len() {
            return Err(err("items", format!("state {s}: {} items listed, it has {}", lst.items.len(), st.items.len())));
        }
        for ((p, d), la) in &st.items {
            let (text, set) = item_text(g, &c.auto, *a, *p, *d, *la);
            let squash = squashed;
            let hit = lst.items.iter().any(|(x, l)| {
                let x = squash(x);
                (x == text || x.starts_with(&format!("{text} ?("))) && *l == set
            });
            if !hit {
                return Err(err("items", format!("state {s}: item {text:?} with look-ahead {set:?} is not listed; listed are {:?}", lst.items)));
            }
            ctx.count("items_compared", 1);
        }
        // conflicts
        let mut want: Vec<(usize, String)> = st.sr.iter().map(|(t, p)| (*t, rep.prods[*p].clone())).collect();
        let mut got: Vec<(usize, String)> = lst.sr.iter().map(|(t, _, p)| (*t, p.clone())).collect();
        want.sort();
        got.sort();
        if want != got {
            return Err(err("conflicts", format!("state {s}: shift/reduce conflicts {want:?}, listed {got:?}")));
        }
        for (t, to, _) in &lst.sr {
            if w.map.get(&st.shifts[t]) != Some(to) && w.map.contains_key(&st.shifts[t]) {
                return Err(err("conflicts", format!("state {s}: conflict on {} listed with shift to {to}", shown[*t])));
            }
        }
        let mut wr: Vec<BTreeSet<usize>> = st.rr.iter().map(|(_, _, la)| (0..g.terms.len()).filter(|t| la.has(*t)).collect()).collect();
        let mut gr: Vec<BTreeSet<usize>> = lst.rr.iter().map(|x| x.0.clone()).collect();
        wr.sort();
        gr.sort();
        if wr != gr {
            return Err(err("conflicts", format!("state {s}: reduce/reduce conflicts {wr:?}, listed {gr:?}")));
        }
        ctx.count("conflicts_compared", (want.len() + wr.len()) as u64);
    }
    Ok(())
}

/// How a report shows an item (white space squashed, without its predicate), and its look-ahead set.
pub fn item_text(g: &Gram, auto: &Auto, a: usize, p: usize, d: usize, la: reflr::Bits) -> (String, BTreeSet<usize>) {
    let shown = states::Vocab::new(g).shown;
    let names = &auto.p.nts;
    let pr = &auto.p.v[p];
    let mut v: Vec<String> = pr
        .rhs
        .iter()
        .map(|s| match s {
            Sym::T(t) => shown[*t].clone(),
            Sym::N(n) => names[*n].clone(),
            Sym::Err => "?".into(),
        })
        .collect();
    v.insert(d, ".".into());
    let mut text = format!("{}: {}", names[pr.lhs], v.join(" "));
    if pr.rhs.is_empty() {
        text = format!("{}: . <empty>", names[pr.lhs]);
    }
    let full = if d == pr.rhs.len() { auto.states[a].red[&p] } else { la };
    let set: BTreeSet<usize> = (0..g.terms.len()).filter(|t| full.has(*t)).collect();
    (squashed(&format!("{text} #{}", attr(pr.assoc, pr.prec))), set)
}
pub fn squashed(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

// ---- C25

fn c25_outcomes(ctx: &mut Ctx, c: &Case, x: &Outcome, y: &Outcome) {
    ctx.eval();
    let same = match (x, y) {
        (Outcome::Ok(_), Outcome::Ok(_)) => true,
        (Outcome::Sr(a, b, _), Outcome::Sr(p, q, _)) | (Outcome::Rr(a, b, _), Outcome::Rr(p, q, _)) => (a, b) == (p, q),
        (Outcome::Undefined(a), Outcome::Undefined(b)) | (Outcome::TooMany(a), Outcome::TooMany(b)) => a == b,
        (Outcome::Spec(_), Outcome::Spec(_)) => true,
        (Outcome::Panic(..), Outcome::Panic(..)) | (Outcome::Io(_), Outcome::Io(_)) => true,
        _ => false,
    };
    if !same {
        ctx.violation("outcomes", format!("the plain generator: {}; the augmented generator: {}\n{}", x.brief(), y.brief(), c.text));
    }
}

/// Walk two tables in step: None if isomorphic.
pub fn pair_walk(a: &dyn Tables, b: &dyn Tables, nterms: usize, nnts: usize) -> Result<usize, String> {
    let mut map: BTreeMap<u32, u32> = BTreeMap::from([(0, 0)]);
    let mut back: BTreeMap<u32, u32> = BTreeMap::from([(0, 0)]);
    let mut pm: BTreeMap<u32, u32> = BTreeMap::new();
    let mut pair = |x: u32, y: u32, todo: &mut Vec<u32>| -> Result<(), String> {
        match (map.get(&x), back.get(&y)) {
            (Some(p), Some(q)) if *p == y && *q == x => Ok(()),
            (None, None) => {
                map.insert(x, y);
                back.insert(y, x);
                todo.push(x);
                todo.push(y);
                Ok(())
            }
            _ => Err(format!("states {x} and {y} do not correspond")),
        }
    };
    let mut seen = 0;
    let mut q: Vec<(u32, u32)> = vec![(0, 0)];
    while let Some((x, y)) = q.pop() {
        seen += 1;
        let mut next = vec![];
        for t in 0..nterms {
            let (p, r) = (a.action(x, t), b.action(y, t));
            match (&p, &r) {
                (Ok(Act::Shift(m)), Ok(Act::Shift(n))) => pair(*m, *n, &mut next).map_err(|e| format!("state {x}/{y} on terminal {t}: {e}"))?,
                (Ok(Act::Reduce(m)), Ok(Act::Reduce(n))) => {
                    if *pm.entry(*m).or_insert(*n) != *n || a.production(*m) != b.production(*n) {
                        return Err(format!("state {x}/{y} on terminal {t}: reductions {m} and {n}"));
                    }
                }
                (Ok(Act::Accept), Ok(Act::Accept)) | (Ok(Act::Error), Ok(Act::Error)) => {}
                _ => return Err(format!("state {x}/{y} on terminal {t}: {p:?} and {r:?}")),
            }
            if a.viable(t).is_ok_and(|v| v.contains(&x)) != b.viable(t).is_ok_and(|v| v.contains(&y)) {
                return Err(format!("state {x}/{y}: only one recovers on terminal {t}"));
            }
        }
        for n in 0..nnts {
            match (a.goto(x, n), b.goto(y, n)) {
                (Ok(m), Ok(k)) => pair(m, k, &mut next).map_err(|e| format!("state {x}/{y} on non terminal {n}: {e}"))?,
                (Err(_), Err(_)) => {}
                (m, k) => return Err(format!("state {x}/{y} on non terminal {n}: {m:?} and {k:?}")),
            }
        }
        let (p, r) = (a.err_goto(x).ok(), b.err_goto(y).ok());
        if p.is_some() != r.is_some() {
            return Err(format!("state {x}/{y}: error goto {p:?} and {r:?}"));
        }
        if a.look(x) != b.look(y) {
            return Err(format!("state {x}/{y}: look-ahead sets {:?} and {:?}", a.look(x), b.look(y)));
        }
        for w in next.chunks(2) {
            q.push((w[0], w[1]));
        }
    }
    Ok(seen)
}

fn c25(ctx: &mut Ctx, c: &Case, ms: &BTreeMap<u32, Module>, r: &mut Rng) {
    let g = &c.g;
    let (Some(a), Some(b)) = (ms.get(&0), ms.get(&1)) else { return };
    ctx.eval();
    if a.terms != b.terms {
        ctx.violation("tokens", format!("token definitions {:?} and {:?}", a.terms, b.terms));
        return;
    }
    match pair_walk(&ModTab::new(a, g), &ModTab::new(b, g), g.terms.len(), c.auto.p.nts.len()) {
        Ok(n) => {
            ctx.count("states_paired", n as u64);
            if n >= 8 {
                ctx.nontrivial(&c.text);
                let t = c.text.clone();
                ctx.sample(|| t);
            }
        }
        Err(e) => {
            ctx.violation("tables", e);
            return;
        }
    }
    let n = if ctx.o.thorough() { 120 } else { 40 };
    for t in texts(r, g, n, false) {
        let mut text = gram::render(g, &t, r);
        if r.chance(1, 6) {
            text.push_str(r.pick(&["?", " ~ ", "é"]));
        }
        ctx.eval();
        let cap = cap_for(t.len()) * 4;
        let (x, y) = (a.run(RtEnv::new(cap), &text, "in"), b.run(RtEnv::new(cap), &text, "in"));
        ctx.count("texts_run_on_both", 1);
        let capped = |o: &crate::rt::Outcome| matches!(&o.result, Err((_, m)) if m.starts_with("VH:"));
        if capped(&x) && capped(&y) {
            ctx.count("endless", 1);
            continue;
        }
        let (rx, ry) = (x.result.map_err(|e| e.1), y.result.map_err(|e| e.1));
        if rx != ry || split(&x.events).0 != split(&y.events).0 {
            let d = diff_logs(&x.events, &y.events);
            ctx.violation("runs", format!("text {text:?}: plain {rx:?}, augmented {ry:?}; {}", d.unwrap_or_default()));
            return;
        }
        let (i, j) = ((a.lex)(&text, "in", &[]), (b.lex)(&text, "in", &[]));
        if i != j {
            ctx.violation("lexers", format!("text {text:?}: tokens {i:?} and {j:?}"));
            return;
        }
    }
}

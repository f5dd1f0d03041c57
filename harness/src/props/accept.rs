//! C14, C18-C21: what the generators accept, refuse and produce, in process.
use crate::autocmp::{RepTab, walk};
use crate::ctx::Ctx;
use crate::genr::{Made, Outcome, generate, scratch};
use crate::gram::{self, Flavour, Gram, SpecStyle, Sym, Term, Text};
use crate::reflr::{self, Auto};
use crate::reflex::show_loc;
use crate::rng::Rng;
use crate::specref::{FileText, SpecLang};
use crate::states;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

use super::gener::{GUARDABLE, add_predicates, base, distinct_rules, item_text, squashed};

// ------------------------------------------------------------------ rich specifications

const ODD_LITS: &[&str] = &[
    "\\\"", "\\n", "//", "/*", "*/", "%%", "%token", "%{", "%}", "!{", "!}", "?(", "?)", ".", ":", "|", "#", "\\\"#", "\\\"##", "#\\\"", "é", "λx", "😀", " ", "a b", "(a)", "(", ")", "((", "'", "`", "$", "$$", "$1", "{", "}", "{}", "{0}", "r#", "//x", "\\\\x", "&&", "=>", "::", "->",
];
const ODD_RES: &[(&str, &str)] = &[
    ("[A-Z][a-z]*", "Qq"),
    ("[0-9]+", "7"),
    ("0x[0-9a-f]+", "0xa"),
    ("'[^']*'", "'x'"),
    ("\"[^\"]*\"", "\"q\""),
    ("\\(x\\)", "(x)"),
    ("[)(]~", "(~"),
    ("é+", "é"),
    ("(?i:zz)", "zZ"),
    ("~|~~", "~"),
    ("\\d\\d?/", "1/"),
    ("[^\\x00-\\x7f]{3}", "ééé"),
    ("_(_|x)*", "_x"),
    ("#\"#?\"##", "#\"#\"##"),
    ("%%?", "%"),
];
const ODD_SKIPS: &[&str] = &["#[^\\n]*", "--.*", "/\\*.*\\*/", "\\(\\*.*\\*\\)", "\u{feff}", "\"#skip"];

pub fn odd_terms(r: &mut Rng, g: &mut Gram) {
    let mut lits: Vec<&str> = ODD_LITS.to_vec();
    let mut res: Vec<&(&str, &str)> = ODD_RES.iter().collect();
    r.shuffle(&mut lits);
    r.shuffle(&mut res);
    for t in g.terms.iter_mut().skip(1) {
        match r.below(6) {
            0 | 1 => {
                if let Some(s) = lits.pop() {
                    t.text = Text::Lit(s.to_string());
                    t.sample = s.to_string();
                }
            }
            2 => {
                if let Some((p, s)) = res.pop() {
                    t.text = Text::Re(p.to_string());
                    t.sample = s.to_string();
                }
            }
            _ => {}
        }
    }
    // two terminals of the same text are an error
    let mut seen = BTreeSet::new();
    for (i, t) in g.terms.iter_mut().enumerate().skip(1) {
        if let Text::Lit(s) = &mut t.text {
            if !seen.insert(s.clone()) {
                s.push_str(&format!("x{i}"));
                t.sample = s.clone();
            }
        }
    }
    if r.chance(1, 3) {
        g.skips.push(r.pick(ODD_SKIPS).to_string());
    }
    if r.chance(1, 6) {
        g.skips.clear();
    }
}

/// Rename things to other legal names.
pub fn rename(r: &mut Rng, g: &mut Gram) {
    const NT: &[&str] = &["expr", "Expr", "EXPR", "e", "E", "statement_list", "StatementList2", "x1", "X_", "a_b_c", "Tokens", "Item", "Items", "Result", "Vec", "String", "Some", "T", "F", "Option", "Default", "Self2", "Left", "Right", "Prec", "error", "Error", "token", "End", "Start", "Parser", "Box", "println", "u32", "str"];
    const TK: &[&str] = &["Plus", "PLUS", "plus_", "Tk", "LPar", "Error1", "OK", "Num", "Id", "t1", "T_1", "Lit", "End_", "Regex", "Token", "Literal", "SOME", "Dot", "x", "Y", "Op2", "Z9", "Until", "Not", "Kw_if", "Q", "Skip", "Eof", "Node", "Val", "Result1", "Term"];
    let mut nt: Vec<&str> = NT.to_vec();
    let mut tk: Vec<&str> = TK.to_vec();
    r.shuffle(&mut nt);
    r.shuffle(&mut tk);
    if r.chance(1, 2) {
        for n in g.nts.iter_mut() {
            if r.chance(2, 3) {
                if let Some(x) = nt.pop() {
                    *n = x.to_string();
                }
            }
        }
    }
    if r.chance(1, 2) {
        for t in g.terms.iter_mut().skip(1) {
            if r.chance(2, 3) {
                if let Some(x) = tk.pop() {
                    t.name = x.to_string();
                }
            }
        }
    }
    // names must differ, and differ between the two kinds
    let mut seen: BTreeSet<String> = g.tags().into_iter().collect();
    for n in g.nts.iter_mut() {
        while !seen.insert(n.clone()) {
            n.push('1');
        }
    }
    for t in g.terms.iter_mut().skip(1) {
        while !seen.insert(t.name.clone()) {
            t.name.push('1');
        }
    }
}

#[derive(Clone, Copy)]
pub struct Rich {
    /// rules may occur twice
    pub twice: bool,
    pub odd: bool,
    pub unreachable: bool,
}

/// A well-formed specification with its reference automaton; the conflicts it has are declared.
pub fn rich(r: &mut Rng, aug: bool, o: Rich, cap: usize) -> Option<(Gram, Auto)> {
    let wide = cap >= 400 && r.chance(1, 500);
    let cap = if wide { 6000 } else { cap };
    let mut g = match r.below(6) {
        _ if wide => gram::wide(r, &|g, c| reflr::build(g, aug, c).is_some()),
        _ if cap >= 400 && r.chance(1, 150) => {
            let n = r.range(200, 330);
            gram::repeated(r, n)
        }
        0 => gram::parse_compact(r.pick(gram::WITH_ERRORS)),
        1 => gram::parse_compact(r.pick(GUARDABLE)),
        _ => base(r),
    };
    if r.chance(1, 4) {
        gram::vary(r, &mut g);
    }
    if r.chance(1, 5) {
        gram::add_errors(r, &mut g);
    }
    if r.chance(1, 2) {
        gram::add_precedences(r, &mut g);
    }
    if aug && r.chance(1, 3) {
        add_predicates(r, &mut g);
    }
    if !o.twice {
        distinct_rules(&mut g);
    }
    if !gram::reduced(&g) {
        return None;
    }
    if o.unreachable && r.chance(1, 4) {
        let n = g.nts.len();
        g.nts.push(format!("U{n}"));
        let t = r.range(1, g.terms.len() - 1);
        let k = r.below(n);
        g.rule(n, vec![Sym::T(t), Sym::N(k)]);
    }
    if r.chance(1, 5) && g.terms.len() < 100 {
        let k = g.terms.len();
        g.terms.push(Term { name: format!("TK{k}u"), text: Text::Lit("unused".into()), sample: "unused".into() });
    }
    if o.odd && r.chance(1, 2) {
        odd_terms(r, &mut g);
    }
    rename(r, &mut g);
    if r.chance(2, 3) {
        let fl: Vec<Flavour> = gram::random_flavours(r, &g);
        gram::set_actions(&mut g, &fl, false, r);
    }
    g.preamble = match r.below(6) {
        0 => None,
        1 => Some(String::new()),
        2 => Some("\n// a % } { comment \"\nuse a::b;\n/* %% */\n".into()),
        _ => Some("\nuse vh::rt::*;\n".into()),
    };
    if r.chance(1, 3) {
        g.attr = r.pick(&["AttributeData", "A", "Attr_1", "attr"]).to_string();
        g.target = r.pick(&["Specification", "Q", "Calc2", "p_"]).to_string();
    }
    let a = reflr::build(&g, aug, cap)?;
    let (sr, rr) = (a.sr_count(), a.rr_count());
    g.sr = if sr == 0 && r.chance(2, 3) { None } else { Some(sr) };
    g.rr = if rr == 0 && r.chance(2, 3) { None } else { Some(rr) };
    Some((g, a))
}

pub fn spec_text(r: &mut Rng, g: &Gram, plain: bool) -> String {
    let st = SpecStyle { swap: true, split: true, names: *r.pick(&[0, 1, 2]) };
    let toks = g.spec_tokens(r, &st);
    if plain { gram::join_plain(&toks) } else { gram::layout(r, &toks) }
}

pub fn tool(aug: bool) -> &'static str {
    if aug { "augmented" } else { "plain" }
}

fn has_error_line(s: &str) -> bool {
    s.lines().any(|l| l.contains(": Error: ") || l.starts_with("Syntax error") || l.starts_with("Lexical error") || l.contains("rror:"))
}

pub fn first_difference(a: &str, b: &str) -> String {
    let i = a.lines().zip(b.lines()).take_while(|(x, y)| x == y).count();
    format!("line {}: {:?} against {:?}", i + 1, a.lines().nth(i), b.lines().nth(i))
}

fn same_made(x: &Made, y: &Made) -> Option<String> {
    if x.code != y.code {
        return Some(format!("the parsers differ, {}", first_difference(&x.code, &y.code)));
    }
    if x.report != y.report {
        return Some(format!("the reports differ, {}", first_difference(&x.report, &y.report)));
    }
    None
}

// ------------------------------------------------------------------ C14

pub fn c14(ctx: &mut Ctx) {
    ctx.rule = "specifications (random and curated grammars, both generators) with precedences, error rules, predicates and duplicate or unreachable rules, each generated with the right declaration, with declarations off by one or missing, and with every combination of ignore flags: outcome, counts and listed states compared with a reference LALR(1) automaton; non-trivial: a grammar with an unresolved conflict".into();
    let dir = scratch(ctx);
    let max = if ctx.o.thorough() { 3_000_000 } else { 16_000 };
    for k in ctx.cases(max) {
        ctx.begin(k);
        let mut r = ctx.rng(k);
        let aug = k / 8 % 2 == 1;
        let o = Rich { twice: r.chance(1, 3), odd: false, unreachable: true };
        let Some((mut g, auto)) = rich(&mut r, aug, o, 500) else { continue };
        let (sr, rr) = (auto.sr_count(), auto.rr_count());
        // most grammars worth checking have conflicts
        if sr + rr == 0 && !r.chance(1, 4) {
            continue;
        }
        g.sr = if sr == 0 && r.chance(1, 2) { None } else { Some(sr) };
        g.rr = if rr == 0 && r.chance(1, 2) { None } else { Some(rr) };
        let toks_of = |r: &mut Rng, g: &Gram| spec_text(r, g, true);
        let text = {
            let mut r2 = r.clone();
            toks_of(&mut r2, &g)
        };
        ctx.desc(format!("{} generator, {sr} shift/reduce and {rr} reduce/reduce conflicts expected by the reference:\n{text}", tool(aug)));
        ctx.guarded("generation", |ctx| {
            ctx.eval();
            let want = match generate(aug, &text, "spec", false, false, &dir) {
                Outcome::Ok(m) => m,
                x => {
                    let e = ctx.stderr_since();
                    ctx.violation("declared-but-refused", format!("with the right declaration: {} {e}", x.brief()));
                    return;
                }
            };
            ctx.count("specifications", 1);
            ctx.count("shift_reduce_conflicts", sr as u64);
            ctx.count("reduce_reduce_conflicts", rr as u64);
            ctx.count("resolved_silently", auto.silent() as u64);
            ctx.max("states", auto.states.len() as u64);
            if sr + rr > 0 {
                ctx.nontrivial(&text);
                ctx.sample(|| text.clone());
            }
            let off = |n: u32, r: &mut Rng| -> Option<u32> {
                match r.below(4) {
                    0 => None,
                    1 => Some(n + 1),
                    2 => Some(n.wrapping_sub(1).min(n + 7)),
                    _ => Some(n + r.range(1, 900) as u32),
                }
            };
            for v in 0..4 {
                let mut h = g.clone();
                // which declaration is off
                if v & 1 == 0 {
                    h.sr = off(sr, &mut r);
                }
                if v >= 1 && v <= 2 || r.chance(1, 4) {
                    h.rr = off(rr, &mut r);
                }
                let (dsr, drr) = (h.sr.unwrap_or(0), h.rr.unwrap_or(0));
                let t = toks_of(&mut r, &h);
                for flags in 0..4u8 {
                    if flags != 0 && !r.chance(2, 3) {
                        continue;
                    }
                    let (isr, irr) = (flags & 1 != 0, flags & 2 != 0);
                    ctx.eval();
                    let x = generate(aug, &t, "spec", isr, irr, &dir);
                    let how = format!("declared {dsr} and {drr}, ignoring {isr} and {irr}");
                    let sr_bad = !isr && sr != dsr;
                    let rr_bad = !irr && rr != drr;
                    match &x {
                        Outcome::Ok(m) if !sr_bad && !rr_bad => {
                            ctx.count("accepted", 1);
                            if let Some(d) = same_made(&want, m) {
                                ctx.violation("ignoring-changes", format!("{how}: {d}"));
                                return;
                            }
                        }
                        Outcome::Sr(f, e, d) if sr_bad && *f == sr && *e == dsr => {
                            ctx.count("refused", 1);
                            if let Err(e) = listed(ctx, &g, &auto, d, true, o.twice) {
                                ctx.violation("states-listed", format!("{how}: {e}\n{d}"));
                                return;
                            }
                        }
                        Outcome::Rr(f, e, d) if rr_bad && *f == rr && *e == drr => {
                            ctx.count("refused", 1);
                            if let Err(e) = listed(ctx, &g, &auto, d, false, o.twice) {
                                ctx.violation("states-listed", format!("{how}: {e}\n{d}"));
                                return;
                            }
                        }
                        x => {
                            ctx.violation("counts", format!("{how}: {}", x.brief()));
                            return;
                        }
                    }
                }
            }
            ctx.stderr_since();
        });
    }
}

/// The states listed in a refusal are exactly those with conflicts of that kind.
fn listed(ctx: &mut Ctx, g: &Gram, auto: &Auto, desc: &str, sr: bool, twice: bool) -> Result<(), String> {
    let rep = states::parse_states(desc, g, false).map_err(|e| format!("the states listed cannot be read: {e}"))?;
    let want: Vec<usize> = (0..auto.states.len()).filter(|s| if sr { !auto.states[*s].sr.is_empty() } else { !auto.states[*s].rr.is_empty() }).collect();
    if rep.states.len() != want.len() {
        return Err(format!("{} states have such conflicts, {} are listed", want.len(), rep.states.len()));
    }
    if twice {
        return Ok(());
    }
    ctx.count("conflict_states_listed", want.len() as u64);
    let mut free: Vec<usize> = (0..rep.states.len()).collect();
    for a in want {
        let items: Vec<(String, BTreeSet<usize>)> = auto.states[a].items.iter().map(|((p, d), la)| item_text(g, auto, a, *p, *d, *la)).collect();
        let hit = free.iter().position(|i| {
            let l = &rep.states[*i];
            l.items.len() == items.len() && items.iter().all(|(t, s)| l.items.iter().any(|(x, y)| y == s && (squashed(x) == *t || squashed(x).starts_with(&format!("{t} ?(")))))
        });
        match hit {
            None => return Err(format!("no state listed has the items {items:?}")),
            Some(i) => {
                let l = &rep.states[free.remove(i)];
                let (x, y) = if sr { (auto.states[a].sr.len(), l.sr.len()) } else { (auto.states[a].rr.len(), l.rr.len()) };
                if x != y {
                    return Err(format!("the state with items {items:?} has {x} conflicts, {y} are listed"));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C18

pub fn c18(ctx: &mut Ctx) {
    ctx.rule = "well-formed specifications with all optional parts, odd literals, regular expressions and names; each written once plainly and several times with random white space, comments, line ends, order of configuration, splitting of alternatives and naming of literals: every text accepted without a reported error, parser and report byte-identical, report walked in step with a reference LALR(1) automaton; non-trivial: 8+ states".into();
    let dir = scratch(ctx);
    let max = if ctx.o.thorough() { 3_000_000 } else { 6_000 };
    for k in ctx.cases(max) {
        ctx.begin(k);
        let mut r = ctx.rng(k);
        let aug = k / 8 % 2 == 1;
        let o = Rich { twice: false, odd: true, unreachable: true };
        let Some((g, auto)) = rich(&mut r, aug, o, 500) else { continue };
        let text = g.spec();
        ctx.desc(format!("{} generator:\n{text}", tool(aug)));
        ctx.guarded("generation", |ctx| {
            ctx.eval();
            ctx.stderr_since();
            let x = generate(aug, &text, "spec", false, false, &dir);
            let err = ctx.stderr_since();
            let Outcome::Ok(want) = x else {
                ctx.violation("refused", format!("{}\n{err}", x.brief()));
                return;
            };
            if has_error_line(&err) {
                ctx.violation("error-reported", format!("accepted, but {err}"));
                return;
            }
            if auto.states.len() >= 8 {
                ctx.nontrivial(&text);
            }
            ctx.max("states", auto.states.len() as u64);
            // what the declarations describe
            match states::parse(&want.report, &g) {
                Err(e) => {
                    // odd texts may make a report hard to read; C23 decides with ordinary ones
                    let odd = g.terms.iter().any(|t| ODD_LITS.contains(&t.sample.as_str()));
                    ctx.count("reports_not_read", 1);
                    if !odd {
                        ctx.violation("report", format!("the report cannot be read: {e}"));
                        return;
                    }
                }
                Ok(rep) => {
                    let w = walk(&g, &auto, &RepTab::new(&rep, &g));
                    let odd = g.terms.iter().any(|t| t.sample.contains([' ', ':', '.', '|', '#', ','])) || g.rules.iter().any(|x| x.pred.is_some());
                    if let (Some((_, d)), false) = (w.diffs.first(), odd) {
                        ctx.violation("meaning", d.clone());
                        return;
                    }
                    ctx.count("reports_walked", !odd as u64);
                }
            }
            let n = if ctx.o.thorough() { 8 } else { 5 };
            for i in 0..n {
                let mut t = spec_text(&mut r, &g, i == 0);
                if i == 1 && r.chance(1, 2) {
                    // no white space at the very end, or nothing but a comment
                    t.truncate(t.trim_end().len());
                    if r.chance(1, 2) {
                        t.push_str(" // the end");
                    }
                }
                ctx.eval();
                let label = *r.pick(&["spec", "a b.laps", "", "/x/y", "é"]);
                let x = generate(aug, &t, label, false, false, &dir);
                let err = ctx.stderr_since();
                match x {
                    Outcome::Ok(m) => {
                        if has_error_line(&err) {
                            ctx.violation("error-reported", format!("accepted, but {err}\n----- layout\n{t}"));
                            return;
                        }
                        if let Some(d) = same_made(&want, &m) {
                            ctx.violation("layout-matters", format!("{d}\n----- layout\n{t}"));
                            return;
                        }
                        ctx.count("layouts_compared", 1);
                    }
                    x => {
                        ctx.violation("layout-refused", format!("{}\n{err}\n----- layout\n{t}", x.brief()));
                        return;
                    }
                }
                if i == 2 {
                    ctx.sample(|| t.clone());
                }
            }
        });
    }
}

// ------------------------------------------------------------------ C19

/// Damage a specification. Returns its text and what was done.
pub fn damaged(r: &mut Rng, lang: &SpecLang, g: &Gram) -> (String, String) {
    let st = SpecStyle { swap: true, split: true, names: 2 };
    let mut v = g.spec_tokens(r, &st);
    let mut what = String::new();
    let pool: Vec<String> = {
        let mut p: Vec<String> = lang.g.terms.iter().skip(1).filter_map(|t| if let Text::Lit(s) = &t.text { Some(s.clone()) } else { None }).filter(|s| s != "%inject").collect();
        p.extend(["\"a\"", "\"zzz\"", "\"\"", "(x+)", "(x", "([)", "Ident", "N0", "TK0", "tag0", "!{ $$ = $1 !}", "!{ $9 !}", "?( $1 ?)", "%{ x %}", "7", "99999999999", "0"].iter().map(|s| s.to_string()));
        p
    };
    let cut = |v: &[String]| (v.iter().position(|x| x == "%%").unwrap_or(0), v.iter().rposition(|x| x == "%%").unwrap_or(0));
    match r.below(24) {
        0..=4 => {
            for _ in 0..r.range(1, 3) {
                if v.is_empty() {
                    break;
                }
                let i = r.below(v.len());
                match r.below(5) {
                    0 => {
                        what.push_str(&format!("token {i} {:?} left out; ", v[i]));
                        v.remove(i);
                    }
                    1 => {
                        what.push_str(&format!("token {i} {:?} twice; ", v[i]));
                        v.insert(i, v[i].clone());
                    }
                    2 => {
                        let x = r.pick(&pool).clone();
                        what.push_str(&format!("token {i} {:?} replaced by {x:?}; ", v[i]));
                        v[i] = x;
                    }
                    3 => {
                        let x = r.pick(&pool).clone();
                        what.push_str(&format!("{x:?} put before token {i}; "));
                        v.insert(i, x);
                    }
                    _ => {
                        let j = r.below(v.len());
                        what.push_str(&format!("tokens {i} and {j} swapped; "));
                        v.swap(i, j);
                    }
                }
            }
        }
        5 => {
            let i = r.below(v.len() + 1);
            v.truncate(i);
            what = format!("ends after {i} tokens");
        }
        6 => {
            let n = r.below(30);
            v = (0..n).map(|_| r.pick(&pool).clone()).collect();
            what = "random tokens".into();
        }
        7 => {
            // a rule for a token
            let t = r.range(1, g.terms.len() - 1);
            v.extend([g.terms[t].name.clone(), ":".into(), ".".into()]);
            what = "a rule for a token".into();
        }
        8 => {
            let (_, b) = cut(&v);
            let t = r.range(1, g.terms.len() - 1);
            let name = if r.chance(1, 2) { g.terms[t].name.clone() } else { "Fresh".to_string() };
            let again = match &g.terms[t].text {
                Text::Lit(s) => format!("\"{s}\""),
                Text::Re(s) => format!("({s})"),
            };
            let text = if name == "Fresh" { again } else { r.pick(&["\"fresh\"", "(fresh)"]).to_string() };
            // after the last token definition
            let last = (0..b).rev().find(|i| v[*i] == "%token").unwrap() + 3;
            for (i, x) in ["%token".to_string(), name, text].into_iter().enumerate() {
                v.insert(last + i, x);
            }
            what = "a token defined again".into();
        }
        9 => {
            let (_, b) = cut(&v);
            let last = (0..b).rev().find(|i| v[*i] == "%token").unwrap() + 3;
            let x = match r.below(3) {
                0 => g.skips.first().cloned().unwrap_or("x".into()),
                1 => g.terms.iter().find_map(|t| if let Text::Re(s) = &t.text { Some(s.clone()) } else { None }).unwrap_or("y[".into()),
                _ => r.pick(&["[", "a{2,1}", "*", "(?P<x", "\\p{Nope}", "a)(b", "+", "(?<n>x)(?<n>y)", "[z-a]", "\\"]).to_string(),
            };
            for (i, x) in ["%skip".to_string(), format!("({x})")].into_iter().enumerate() {
                v.insert(last + i, x);
            }
            what = "a dubious skip".into();
        }
        10 => {
            let (_, b) = cut(&v);
            let t = r.range(1, g.terms.len() - 1);
            let y = g.term_ref(t, r.chance(1, 2));
            let mut x: Vec<String> = vec![r.pick(&["%left", "%right", "%nonassoc"]).to_string()];
            x.push(match r.below(4) {
                0 => "tag0".into(),
                1 => "\"nowhere\"".into(),
                _ => y,
            });
            for (i, x) in x.into_iter().enumerate() {
                v.insert(b + i, x);
            }
            what = "another precedence".into();
        }
        11 => {
            let (_, b) = cut(&v);
            let spots: Vec<usize> = (b + 1..v.len()).filter(|i| v[*i] != ":" && v[*i] != "|" && v[*i] != "." && v.get(i + 1).map(|x| x.as_str()) != Some(":") && !v[*i].starts_with(['!', '?']) && v[*i - 1] != "%prec").collect();
            if !spots.is_empty() {
                let i = *r.pick(&spots);
                let x = r.pick(&["Nowhere", "\"nowhere\"", "\"\"", "AAA"]).to_string();
                what = format!("unknown symbol {x} in a rule");
                v[i] = x;
            }
        }
        12 => {
            let (_, b) = cut(&v);
            let spots: Vec<usize> = (b + 1..v.len()).filter(|i| v[*i].starts_with(['!', '?'])).collect();
            if !spots.is_empty() {
                let i = *r.pick(&spots);
                let x = r.pick(&["$0", "$99", "$18446744073709551616", "$7", "$$7", "$1", "$ 1", "$01"]);
                let c = if v[i].starts_with('!') { format!("!{{ {x}; !}}") } else { format!("?( {x} ?)") };
                what = format!("{c} in a rule");
                v[i] = c;
            }
        }
        13 => {
            let spots: Vec<usize> = (0..v.len()).filter(|i| v[*i] == "%prec").collect();
            if spots.is_empty() {
                let b = v.len() - 1;
                if v[b - 1] != ":" && v[b - 1] != "|" && !v[b - 1].starts_with(['!', '?']) && v[b - 2] != "%prec" {
                    let x = r.pick(&["nothing", "\"nothing\"", "S"]).to_string();
                    v.insert(b, x);
                    v.insert(b, "%prec".into());
                }
            } else {
                let i = *r.pick(&spots) + 1;
                v[i] = r.pick(&["nothing", "\"nothing\"", "N0"]).to_string();
            }
            what = "unknown precedence in a rule".into();
        }
        14 => {
            let spots: Vec<usize> = (2..v.len()).filter(|i| v[*i - 2] == "%token").collect();
            let i = *r.pick(&spots);
            v[i] = r.pick(&["\"\"", "([)", "(*)", "(a{3,2})", "(\\p{X})", "((?P<a>x)", "(?=a)", "(x))", "((x)", "(())", "(?:)"]).to_string();
            what = format!("token defined as {}", v[i]);
        }
        15 => {
            let i = cut(&v).0;
            let x = r.pick(&["%shift_reduce", "%reduce_reduce"]).to_string();
            v.insert(i, r.pick(&["4294967296", "4294967295", "00", "123456789012345678901234567890"]).to_string());
            v.insert(i, x);
            what = "an expected number".into();
        }
        16 => {
            // drop all rules of a non terminal
            let n = g.nts[r.below(g.nts.len())].clone();
            let (_, b) = cut(&v);
            let mut i = b + 1;
            while i + 1 < v.len() {
                if v[i] == n && v[i + 1] == ":" {
                    let mut e = i;
                    while v[e] != "." {
                        e += 1;
                    }
                    v.drain(i..=e);
                } else {
                    i += 1;
                }
            }
            what = format!("no rules for {n}");
        }
        17 => {
            // unproductive or useless rules are not errors
            v.extend(["Loop", ":", "Loop", "."].map(String::from));
            what = "a rule that derives nothing".into();
        }
        _ => what = "characters".into(),
    }
    let mut t = if r.chance(1, 2) { gram::layout(r, &v) } else { gram::join_plain(&v) };
    if what == "characters" {
        const C: &[&str] = &["%", "\"", "(", ")", "{", "}", "!", "?", "|", ":", ".", "\n", "\r", "é", "😀", "\0", "/", "/*", "*/", "//", "a", "1", " ", "%%", "!{", "!}", "?(", "?)", "%{", "%}", "\\", "\u{feff}", "$", "_", "#", "\t", "\u{b}", "\u{85}", "\u{2028}", "'"];
        for _ in 0..r.range(1, 4) {
            let mut cs: Vec<char> = t.chars().collect();
            let i = r.below(cs.len() + 1);
            match r.below(4) {
                0 if i < cs.len() => {
                    what.push_str(&format!("; {:?} removed", cs[i]));
                    cs.remove(i);
                }
                1 if i < cs.len() => {
                    let j = (i + r.range(1, 12)).min(cs.len());
                    cs.drain(i..j);
                    what.push_str("; a stretch removed");
                }
                2 => {
                    cs.truncate(i);
                    what.push_str("; truncated");
                }
                _ => {
                    let x = r.pick(C);
                    what.push_str(&format!("; {x:?} inserted"));
                    let tail: Vec<char> = cs.split_off(i);
                    cs.extend(x.chars());
                    cs.extend(tail);
                }
            }
            t = cs.into_iter().collect();
        }
    }
    (t, what)
}

/// Does standard error name this place?
fn names_place(err: &str, loc: &crate::reflex::Loc) -> bool {
    let s = show_loc(loc);
    err.match_indices(&s).any(|(i, _)| !err[i + s.len()..].starts_with(|c: char| c.is_ascii_digit()) && (i == 0 || !err[..i].ends_with(|c: char| c.is_ascii_alphanumeric())))
}

/// Compare an outcome with the reference front end. `text` is only for judging; files as given.
fn against_reference(ctx: &mut Ctx, lang: &SpecLang, text: &str, label: &str, x: &Outcome, err: &str, files: &dyn Fn(&str) -> FileText) {
    let Some(j) = lang.judge(text, label, files) else {
        ctx.count("not_judged", 1);
        if let Outcome::Panic(l, m) = x {
            ctx.violation("panic", format!("the generator panicked at {l}: {m}"));
        }
        return;
    };
    if let Outcome::Panic(l, m) = x {
        ctx.violation("panic", format!("the generator panicked at {l}: {m}"));
        return;
    }
    ctx.count("injections_followed", j.injected as u64);
    ctx.max("injection_depth", j.nested as u64);
    if let Some(loc) = &j.syntax {
        ctx.count("ill_formed", 1);
        if !matches!(x, Outcome::Spec(_) | Outcome::TooMany(_) | Outcome::Undefined(_)) {
            ctx.violation("ill-formed-accepted", format!("not a specification from {} on, but {}\n{err}", show_loc(loc), x.brief()));
        } else if !names_place(err, loc) {
            ctx.violation("place", format!("not a specification from {} on; {}; reported: {err}", show_loc(loc), x.brief()));
        }
        if let Some((l, s)) = j.errors.first() {
            if !names_place(err, l) {
                ctx.violation("place", format!("{s} at {} was not reported: {err}", show_loc(l)));
            }
        }
        return;
    }
    if !j.fine() {
        for k in &j.kinds {
            ctx.count(&format!("defect {k}"), 1);
        }
        let all = format!("{:?} {:?}", j.errors, j.undefined);
        if !matches!(x, Outcome::Spec(_) | Outcome::TooMany(_) | Outcome::Undefined(_)) {
            ctx.violation("defect-accepted", format!("{}, but it has {all}\n{err}", x.brief()));
            return;
        }
        // cascades after the first error are nobody's business
        let mut want: Vec<&crate::reflex::Loc> = j.errors.iter().take(1).map(|x| &x.0).collect();
        if j.errors.is_empty() {
            want.extend(j.undefined.iter().flat_map(|x| &x.1));
        }
        for l in want {
            if !names_place(err, l) {
                ctx.violation("place", format!("no error names {}; it has {all}; reported: {err}", show_loc(l)));
                return;
            }
        }
        return;
    }
    ctx.count("well_formed", 1);
    let first_errors: Vec<&str> = err.lines().filter(|l| has_error_line(l)).collect();
    match x {
        Outcome::Ok(_) | Outcome::Sr(..) | Outcome::Rr(..) if first_errors.is_empty() => {}
        x => {
            ctx.violation("well-formed-refused", format!("{}; reported: {err}", x.brief()));
            return;
        }
    }
    // and as many conflicts as there are
    let Some(g) = &j.gram else { return };
    if g.terms.len() > 120 || g.rules.len() > 200 || gram::min_cost(g).iter().any(|c| *c == usize::MAX) {
        return;
    }
    let Some(a) = reflr::build(g, lang.aug, 300) else { return };
    let (sr, rr, dsr, drr) = (a.sr_count(), a.rr_count(), g.sr.unwrap_or(0), g.rr.unwrap_or(0));
    let want = if sr != dsr { "shift/reduce" } else if rr != drr { "reduce/reduce" } else { "none" };
    let ok = match x {
        Outcome::Ok(_) => want == "none",
        Outcome::Sr(f, e, _) => want == "shift/reduce" && (*f, *e) == (sr, dsr),
        Outcome::Rr(f, e, _) => want == "reduce/reduce" && (*f, *e) == (rr, drr),
        _ => false,
    };
    ctx.count("well_formed_judged_in_full", 1);
    if !ok {
        ctx.violation("well-formed-outcome", format!("{sr} and {rr} conflicts, {dsr} and {drr} declared: {}", x.brief()));
    }
}

pub fn c19(ctx: &mut Ctx) {
    ctx.rule = "specifications damaged by token and character edits, truncation, token soup and the listed kinds of defect, and some large or deeply repetitive texts, given to both generators: refused exactly if a reference front end (its own lexer, grammar and meaning of the specification language) refuses, with an error on standard error that names the reference's place; no panic, crash or hang; non-trivial: a text of 10+ tokens".into();
    let dir = scratch(ctx);
    let langs = [SpecLang::new(false), SpecLang::new(true)];
    let max = if ctx.o.thorough() { 20_000_000 } else { 16_000 };
    for k in ctx.cases(max) {
        ctx.begin(k);
        let mut r = ctx.rng(k);
        let aug = k / 8 % 2 == 1;
        let lang = &langs[aug as usize];
        let (text, what) = if k % 400 < 8 && k / 8 % 2 == 0 || k % 1600 / 8 == 3 {
            large(&mut r, k)
        } else {
            let o = Rich { twice: true, odd: r.chance(1, 2), unreachable: true };
            let Some((g, _)) = rich(&mut r, aug, o, 120) else { continue };
            damaged(&mut r, lang, &g)
        };
        let label = *r.pick(&["spec", "spec", "dir/spec.laps", "a b", ""]);
        ctx.desc(format!("{} generator, {what}, called {label:?}:\n{text}", tool(aug)));
        ctx.guarded("generation", |ctx| {
            ctx.eval();
            ctx.stderr_since();
            let x = generate(aug, &text, label, false, false, &dir);
            let err = ctx.stderr_since();
            let kind = what.split(|c: char| c == ';' || c.is_ascii_digit()).next().unwrap_or("").trim().to_string();
            ctx.count(&format!("outcome {}", x.brief().split(':').next().unwrap_or("")), 1);
            if text.len() > 40 {
                ctx.nontrivial(&text);
            }
            ctx.sample(|| format!("{what}\n{text}\n-> {}\n{err}", x.brief()));
            if text.len() > 60_000 {
                if let Outcome::Panic(l, m) = &x {
                    ctx.violation("panic", format!("the generator panicked at {l}: {m}"));
                }
                if ["many tokens", "many precedences", "a chain of rules", "long names"].contains(&what.as_str()) && !matches!(x, Outcome::Ok(_) | Outcome::Sr(..) | Outcome::Rr(..)) {
                    ctx.violation("large-refused", format!("a well formed specification was {}\n{err}", x.brief()));
                }
                if !matches!(x, Outcome::Ok(_) | Outcome::Sr(..) | Outcome::Rr(..)) && !(has_error_line(&err) && err.contains(':')) {
                    ctx.violation("place", format!("{} without an error that names a place: {err}", x.brief()));
                }
                ctx.count("large_texts", 1);
                return;
            }
            let _ = kind;
            against_reference(ctx, lang, &text, label, &x, &err, &|_| FileText::Bad);
        });
    }
}

/// Big or repetitive texts: nothing but resistance is asked of the generator.
fn large(r: &mut Rng, k: u64) -> (String, String) {
    let head = "%attr A\n%target P\n%%\n%token T0 \"a\"\n%token T1 \"b\"\n";
    let n = r.range(200, 1200);
    let rep = |s: &str, n: usize| s.repeat(n);
    let (t, w): (String, &str) = match k / 8 % 14 {
        0 => (format!("{head}%%\nS: {}.\n", rep("\"a\" ", n / 4)), "a long rule"),
        1 => (format!("{head}%%\nS: {} \"a\".\n", (0..n / 8).map(|i| format!("\"a\" \"b\" N{i} | ")).collect::<String>()) + &(0..n / 8).map(|i| format!("N{i}: \"a\".\n")).collect::<String>(), "many rules"),
        2 if r.chance(1, 2) => (format!("{head}%%\n{}N{n}: \"a\".\n", (0..n / 4).map(|i| format!("N{i}: N{} | \"b\" N{n} .\n", if i + 1 == n / 4 { n } else { i + 1 })).collect::<String>()), "a chain of rules"),
        8 if r.chance(1, 2) => (format!("{head}%%\n{}: {} !{{ $$ = $1; !}} .\n", rep("S", n * 30), rep("X", n * 10)) + &format!("{} : \"a\" .\n", rep("X", n * 10)), "long names"),
        2 => (format!("{head}{}%%\nS: \"a\".\n", (0..n).map(|i| format!("%token K{i} \"kw{i}\"\n")).collect::<String>()), "many tokens"),
        3 => (format!("{head}/*{}", rep("/*", n * 100)), "an endless comment"),
        4 => (format!("{head}%%\nS: \"a\" !{{ {}", rep("!{ } ", n * 5)), "an endless action"),
        5 => (format!("%{{{}", rep("%{ % { ", n * 6)), "an endless preamble"),
        6 => (format!("{head}%token T2 \"{}\"\n%%\nS: T2.\n", rep("x", n * 100)), "a long literal"),
        7 => (format!("{head}%token T2 ({})\n%%\nS: T2.\n", rep("(", n)), "an unbalanced expression"),
        8 => (format!("{head}%token T2 ({}x{})\n%%\nS: T2.\n", rep("(", n), rep(")", n)), "a deep expression"),
        9 => (rep("é", n * 60), "foreign text"),
        10 => (format!("{head}%%\nS: {}.\n", rep("| ", n)), "many empty alternatives"),
        // (levels of precedence are numbered)
        11 => (format!("{head}{}%%\nS: \"a\".\n", (0..if r.chance(1, 4) { r.range(65_530, 66_500) } else { n }).map(|i| format!("%left g{i}\n")).collect::<String>()), "many precedences"),
        12 => (format!("{head}%%\nS: {}\n", rep("S ", n * 5)), "an unfinished rule"),
        _ => (rep("\"", n * 61), "quotes"),
    };
    (t, w.to_string())
}

// ------------------------------------------------------------------ C20

pub fn oneshot() -> bool {
    let Ok(x) = std::env::var("VH_ONE") else { return false };
    // path|aug|isr|irr|outdir
    let v: Vec<&str> = x.split('|').collect();
    let text = std::fs::read_to_string(v[0]).expect("text");
    let o = generate(v[1] == "1", &text, "spec", v[2] == "1", v[3] == "1", Path::new(v[4]));
    if let Outcome::Ok(m) = &o {
        std::fs::write(Path::new(v[4]).join("code"), &m.code).expect("code");
        std::fs::write(Path::new(v[4]).join("report"), &m.report).expect("report");
    }
    std::fs::write(Path::new(v[4]).join("outcome"), outcome_text(&o)).expect("outcome");
    true
}

/// Everything about an outcome, as text.
pub fn outcome_text(o: &Outcome) -> String {
    match o {
        Outcome::Ok(m) => format!("OK\n{}\n=====\n{}", m.code, m.report),
        Outcome::Sr(a, b, s) => format!("SR {a} {b}\n{s}"),
        Outcome::Rr(a, b, s) => format!("RR {a} {b}\n{s}"),
        o => o.brief(),
    }
}

#[derive(Clone)]
struct Job {
    aug: bool,
    text: String,
    isr: bool,
    irr: bool,
    /// the files it injects, with what is in them while it is generated
    files: Vec<(PathBuf, String)>,
}
impl Job {
    fn lay(&self) {
        for (p, t) in &self.files {
            std::fs::write(p, t).expect("part");
        }
    }
    fn run(&self, label: &str, dir: &Path) -> String {
        self.lay();
        outcome_text(&generate(self.aug, &self.text, label, self.isr, self.irr, dir))
    }
}

/// The generators on several threads at once from their first use in this process on (for ThreadSanitizer).
pub fn c20_light(ctx: &mut Ctx) {
    let dir = scratch(ctx);
    let langs = [SpecLang::new(false), SpecLang::new(true)];
    for k in 0..if ctx.o.thorough() { 12 } else { 3 } {
        let k = 1_000_000 + k;
        ctx.begin(k);
        let mut r = ctx.rng(k);
        let mut jobs: Vec<Job> = vec![];
        while jobs.len() < 8 {
            let aug = r.chance(1, 2);
            let o = Rich { twice: r.chance(1, 2), odd: r.chance(1, 2), unreachable: true };
            let Some((g, _)) = rich(&mut r, aug, o, 200) else { continue };
            let text = if r.chance(1, 3) { damaged(&mut r, &langs[aug as usize], &g).0 } else { spec_text(&mut r, &g, false) };
            jobs.push(Job { aug, text, isr: r.chance(1, 4), irr: r.chance(1, 4), files: vec![] });
        }
        let nt = 6;
        let barrier = std::sync::Barrier::new(nt);
        let got = std::sync::Mutex::new(vec![]);
        let orders: Vec<Vec<usize>> = (0..nt).map(|_| (0..jobs.len() * 2).map(|_| r.below(jobs.len())).collect()).collect();
        std::thread::scope(|s| {
            for (t, order) in orders.iter().enumerate() {
                let (jobs, got, barrier, d) = (&jobs, &got, &barrier, dir.join(format!("t{t}")));
                s.spawn(move || {
                    std::fs::create_dir_all(&d).expect("scratch");
                    barrier.wait();
                    for i in order {
                        let o = jobs[*i].run("spec", &d);
                        got.lock().unwrap().push((*i, o));
                    }
                });
            }
        });
        let want: Vec<String> = jobs.iter().map(|j| j.run("spec", &dir)).collect();
        for (i, o) in got.into_inner().unwrap() {
            ctx.eval();
            ctx.count("concurrent_generations", 1);
            if o != want[i] {
                ctx.violation("concurrency", format!("{}\nspecification {i} on one of {nt} threads: {}", jobs[i].text, first_difference(&want[i], &o)));
            }
        }
        ctx.stderr_since();
    }
}

pub fn c20(ctx: &mut Ctx) {
    ctx.rule = "batches of specifications (valid, conflicting and defective; both generators): each generated once in its own fresh process, then repeatedly in one process in random order with failures in between, and at once on several threads; every outcome - parser, report, or refusal with its state descriptions - must equal the fresh process's byte for byte; non-trivial: a specification whose parser was generated".into();
    let dir = scratch(ctx);
    let langs = [SpecLang::new(false), SpecLang::new(true)];
    let exe = std::env::current_exe().expect("own path");
    let shared = dir.join("shared");
    std::fs::create_dir_all(&shared).expect("scratch");
    let odd = std::env::var("VH_ODD_SO").expect("VH_ODD_SO");
    let max = if ctx.o.thorough() { 400_000 } else { 1000 };
    for k in ctx.cases(max) {
        ctx.begin(k);
        let mut r = ctx.rng(k);
        let mut jobs: Vec<Job> = vec![];
        while jobs.len() < 10 {
            let aug = r.chance(1, 2);
            let o = Rich { twice: r.chance(1, 2), odd: r.chance(1, 2), unreachable: true };
            let Some((g, a)) = rich(&mut r, aug, o, 400) else { continue };
            if a.states.len() < 8 && r.chance(1, 2) {
                continue;
            }
            let text = if r.chance(1, 4) { damaged(&mut r, &langs[aug as usize], &g).0 } else { spec_text(&mut r, &g, false) };
            let mut j = Job { aug, text, isr: r.chance(1, 4), irr: r.chance(1, 4), files: vec![] };
            if r.chance(1, 4) {
                // injections, of files of the same names as other specifications' and earlier ones'
                let st = SpecStyle { swap: true, split: true, names: 2 };
                let v = g.spec_tokens(&mut r, &st);
                let (v, made) = cut_up(&mut r, &v, &shared, 2, false);
                j.text = gram::layout(&mut r, &v);
                j.files = made.into_iter().map(|p| (p.clone(), std::fs::read_to_string(&p).expect("part"))).collect();
                if !j.files.is_empty() && jobs.len() < 10 && r.chance(1, 2) {
                    // and the same specification with something else in a file
                    let mut o = j.clone();
                    let n = r.below(o.files.len());
                    let t = &mut o.files[n].1;
                    *t = match r.below(3) {
                        0 => String::new(),
                        1 => format!("{t}\n@"),
                        _ => t.replacen("%skip", "%skip ( other+)\n%skip", 1).replacen("%token", "%token AnOther ( another+)\n%token", 1),
                    };
                    jobs.push(o);
                }
            }
            if r.chance(1, 5) {
                // declarations that do not hold
                j.text = j.text.replacen("%attr", "%shift_reduce 41 %attr", 1);
            }
            jobs.push(j);
        }
        ctx.desc(jobs.iter().map(|j| format!("---- {} {} {}\n{}", tool(j.aug), j.isr, j.irr, j.text)).collect());
        ctx.guarded("generation", |ctx| {
            // fresh processes
            let mut want = vec![];
            for (i, j) in jobs.iter().enumerate() {
                let d = dir.join(format!("fresh{i}"));
                std::fs::create_dir_all(&d).expect("scratch");
                let f = d.join("text");
                std::fs::write(&f, &j.text).expect("text");
                j.lay();
                let mut c = std::process::Command::new(&exe);
                if r.chance(1, 2) {
                    // in another environment, at another time
                    ctx.count("fresh_processes_in_an_odd_environment", 1);
                    c.env("LD_PRELOAD", &odd).env("VH_ODD", format!("{}", 1 + r.next() % 1_000_000_007));
                    for n in ["TZ", "LANG", "LC_ALL", "USER", "LOGNAME", "HOSTNAME", "SOURCE_DATE_EPOCH", "COLUMNS", "TERM", "NO_COLOR", "DEBUG", "VERBOSE", "CI", "LALR1_DEBUG", "OUT_DIR", "CARGO_MANIFEST_DIR"] {
                        match r.below(3) {
                            0 => c.env(n, r.pick(&["1", "0", "", "C", "tr_TR.UTF-8", "Pacific/Kiritimati", "nobody", "1700000000", "yes"])),
                            1 => c.env_remove(n),
                            _ => &mut c,
                        };
                    }
                }
                let st = c
                    .env("VH_ONE", format!("{}|{}|{}|{}|{}", f.display(), j.aug as u8, j.isr as u8, j.irr as u8, d.display()))
                    .env_remove("VH_STDERR")
                    .current_dir(&d)
                    .stdin(std::process::Stdio::null())
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .status();
                let o = std::fs::read_to_string(d.join("outcome"));
                std::fs::remove_dir_all(&d).ok();
                match (st, o) {
                    (Ok(s), Ok(o)) if s.success() => want.push(o),
                    (s, _) => {
                        ctx.notes.push(format!("HARNESS fresh process: {s:?}"));
                        return;
                    }
                }
            }
            ctx.count("fresh_processes", want.len() as u64);
            ctx.count("accepted", want.iter().filter(|w| w.starts_with("OK")).count() as u64);
            for (j, w) in jobs.iter().zip(&want) {
                if w.starts_with("OK") {
                    ctx.nontrivial(&j.text);
                }
            }
            ctx.sample(|| jobs[0].text.clone());
            // one process, random order
            for n in 0..3 * jobs.len() {
                let i = r.below(jobs.len());
                if !jobs[i].files.is_empty() {
                    ctx.count("generations_with_injected_files", 1);
                }
                // what a specification is called matters to the messages only
                let label = if want[i].starts_with("OK") { *r.pick(&["spec", "x", "y/z", ""]) } else { "spec" };
                ctx.eval();
                let got = jobs[i].run(label, &dir);
                if got != want[i] {
                    ctx.violation("history", format!("specification {i}, generation {n} in this process: {}", first_difference(&want[i], &got)));
                    return;
                }
            }
            // threads
            let nt = 4;
            let barrier = std::sync::Barrier::new(nt);
            let bad = std::sync::Mutex::new(None::<String>);
            let orders: Vec<Vec<usize>> = (0..nt).map(|_| (0..jobs.len()).map(|_| r.below(jobs.len())).filter(|i| jobs[*i].files.is_empty()).collect()).collect();
            std::thread::scope(|s| {
                for (t, order) in orders.iter().enumerate() {
                    let (jobs, want, bad, barrier, d) = (&jobs, &want, &bad, &barrier, dir.join(format!("t{t}")));
                    s.spawn(move || {
                        std::fs::create_dir_all(&d).expect("scratch");
                        barrier.wait();
                        for i in order {
                            let got = jobs[*i].run("spec", &d);
                            if got != want[*i] {
                                *bad.lock().unwrap() = Some(format!("specification {i} on thread {t} of {nt}: {}", first_difference(&want[*i], &got)));
                            }
                        }
                    });
                }
            });
            for o in &orders {
                for _ in o {
                    ctx.eval();
                }
                ctx.count("concurrent_generations", o.len() as u64);
            }
            if let Some(b) = bad.into_inner().unwrap() {
                ctx.violation("concurrency", b);
            }
            ctx.stderr_since();
        });
    }
}

// ------------------------------------------------------------------ C21

struct Cutter<'a> {
    r: &'a mut Rng,
    dir: PathBuf,
    n: usize,
    made: Vec<PathBuf>,
}
impl Cutter<'_> {
    /// Replace random stretches of the tokens by injections of files; only where the reference accepts the outcome.
    fn cut(&mut self, v: &[String], from: usize, to: usize, depth: usize, spots: &dyn Fn(&[String], usize) -> bool) -> Vec<String> {
        let mut out = vec![];
        let mut i = from;
        while i < to {
            // two injections in a row are for the reference to judge
            let doubled = i == from && depth < 3 && !self.r.chance(1, 40);
            if spots(v, i) && !doubled && self.r.chance(1, 4) {
                // what follows the file's text must be able to follow an injection
                let ends: Vec<usize> = (i + 1..=to).filter(|e| *e == v.len() || spots(v, *e)).take(12).collect();
                if ends.is_empty() {
                    out.push(v[i].clone());
                    i += 1;
                    continue;
                }
                let e = *self.r.pick(&ends);
                let mut inner = v[i..e].to_vec();
                if depth > 0 && self.r.chance(2, 3) {
                    inner = self.cut(v, i, e, depth - 1, spots);
                }
                let p = self.dir.join(format!("part{}.inc", self.n));
                self.n += 1;
                let mut t = gram::layout(self.r, &inner);
                if self.r.chance(1, 3) {
                    t.truncate(t.trim_end().len());
                }
                std::fs::write(&p, &t).expect("part");
                out.extend(["%inject".to_string(), format!("\"{}\"", p.display()), ".".to_string()]);
                self.made.push(p);
                i = e;
            } else {
                out.push(v[i].clone());
                i += 1;
            }
        }
        out
    }
}

/// The tokens with some stretches moved into files in `dir`, at places that allow an injection as far as a look at the
/// neighbours can tell (`rare`: at any place), and the files.
pub fn cut_up(r: &mut Rng, v: &[String], dir: &Path, depth: usize, rare: bool) -> (Vec<String>, Vec<PathBuf>) {
    let has_preamble = v[0].starts_with("%{");
    let spot = |v: &[String], i: usize| match v[i].as_str() {
        _ if rare => true,
        "%attr" | "%target" => i > 0 || has_preamble,
        "%shift_reduce" | "%reduce_reduce" | "%token" | "%skip" | "%left" | "%right" | "%nonassoc" => true,
        "%%" => i > 0,
        t => t.starts_with("%{") || v.get(i + 1).is_some_and(|n| n == ":"),
    };
    let mut c = Cutter { r, dir: dir.to_path_buf(), n: 0, made: vec![] };
    let w = c.cut(v, 0, v.len(), depth, &spot);
    (w, c.made)
}

fn read(p: &str) -> FileText {
    match std::fs::read(p).map(String::from_utf8) {
        Ok(Ok(s)) => FileText::Text(s),
        _ => FileText::Bad,
    }
}

pub fn c21(ctx: &mut Ctx) {
    ctx.rule = "specifications cut at random places into nested injected files: parser and report byte-identical to those of the assembled text wherever a reference front end (token stream with injections, LALR(1) tables of the specification language) says the injections are allowed; the same with a defect, a missing, unreadable, empty, token-free or self-injecting file: refused, with an error naming the reference's place; non-trivial: 1+ file injected".into();
    let dir = scratch(ctx);
    let langs = [SpecLang::new(false), SpecLang::new(true)];
    let max = if ctx.o.thorough() { 5_000_000 } else { 14_000 };
    for k in ctx.cases(max) {
        ctx.begin(k);
        let mut r = ctx.rng(k);
        let aug = k / 8 % 2 == 1;
        let lang = &langs[aug as usize];
        let o = Rich { twice: true, odd: r.chance(1, 3), unreachable: true };
        let Some((g, _)) = rich(&mut r, aug, o, 120) else { continue };
        let files = dir.join("files");
        std::fs::create_dir_all(&files).expect("scratch");
        let st = SpecStyle { swap: true, split: true, names: 2 };
        let mut whole = g.spec_tokens(&mut r, &st);
        if r.chance(1, 2) {
            // code is copied as it stands, line ends and blanks included
            for t in whole.iter_mut() {
                let n = t.len();
                if ["!{", "%{", "?("].iter().any(|o| t.starts_with(o)) && n >= 4 && r.chance(1, 2) {
                    let e = *r.pick(&["\r\n", "\r", "\n\r", "\r\n\r\n", "\n", " \t\n", "\u{2028}", "\u{feff}", "\n\n\n", "\u{c}"]);
                    if t.contains('\n') && r.chance(2, 3) {
                        *t = t.replace('\n', e);
                    } else {
                        t.insert_str(*r.pick(&[2, n - 2]), e);
                    }
                }
            }
        }
        let mut v = whole.clone();
        let plan = r.below(10);
        let mut what = "cut into files";
        if plan >= 7 {
            // a defect somewhere; it ends up inside a file or outside
            let i = r.below(v.len());
            match r.below(3) {
                0 => {
                    v.remove(i);
                }
                1 => v[i] = r.pick(&["\"nowhere\"", "Nowhere", "%%", "([)", "@", "|"]).to_string(),
                _ => v.insert(i, r.pick(&["\"nowhere\"", "Nowhere", "%skip", ".", "@@@"]).to_string()),
            }
            what = "damaged and cut into files";
        }
        let rare = r.chance(1, 8);
        let (cutv, made) = cut_up(&mut r, &v, &files, 3, rare);
        let mut text = gram::layout(&mut r, &cutv);
        if !made.is_empty() && plan < 4 && r.chance(1, 2) {
            what = match spoil(&mut r, &made, &files) {
                Some(x) => x,
                None => what,
            };
        }
        if r.chance(1, 40) {
            let p = files.join("alone.inc");
            std::fs::write(&p, &text).expect("part");
            text = format!("%inject \"{}\".", p.display());
            what = "everything in a file";
        }
        let shown: String = made.iter().map(|p| format!("----- {}\n{}\n", p.display(), std::fs::read(p).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or("(cannot be read)".into()))).collect();
        ctx.desc(format!("{} generator, {what}:\n{text}\n{shown}", tool(aug)));
        ctx.guarded("generation", |ctx| {
            ctx.eval();
            ctx.stderr_since();
            let x = generate(aug, &text, "spec", false, false, &dir);
            let err = ctx.stderr_since();
            let Some(j) = lang.judge(&text, "spec", &read) else {
                ctx.count("not_judged", 1);
                if let Outcome::Panic(l, m) = x {
                    ctx.violation("panic", format!("the generator panicked at {l}: {m}"));
                }
                return;
            };
            ctx.max("files_in_one", made.len() as u64);
            if j.injected > 0 {
                ctx.nontrivial(&format!("{text}{shown}"));
                ctx.sample(|| format!("{what}\n{text}\n{shown}"));
            }
            if j.fine() && what == "cut into files" {
                // the same without injections
                let plain = gram::layout(&mut r, &whole);
                ctx.eval();
                let y = generate(aug, &plain, "spec", false, false, &dir);
                ctx.stderr_since();
                if outcome_text(&x) != outcome_text(&y) {
                    ctx.violation("not-textual", format!("with injections {}, without {}; {}\n{err}", x.brief(), y.brief(), first_difference(&outcome_text(&x), &outcome_text(&y))));
                    return;
                }
                if has_error_line(&err) {
                    ctx.violation("error-reported", format!("accepted, but {err}"));
                    return;
                }
                ctx.count("compared_with_assembled", 1);
                ctx.count("files_injected", j.injected as u64);
            }
            against_reference(ctx, lang, &text, "spec", &x, &err, &read);
        });
        std::fs::remove_dir_all(&files).ok();
    }
}

fn spoil(r: &mut Rng, made: &[PathBuf], dir: &Path) -> Option<&'static str> {
    let p = r.pick(made);
    Some(match r.below(8) {
        0 => {
            std::fs::remove_file(p).ok()?;
            "with a missing file"
        }
        1 => {
            std::fs::write(p, "").ok()?;
            "with an empty file"
        }
        2 => {
            std::fs::write(p, b"%skip (\xff\xfe)\n").ok()?;
            "with a file that is no text"
        }
        3 => {
            std::fs::remove_file(p).ok()?;
            std::fs::create_dir(p).ok()?;
            "with a directory"
        }
        4 => {
            let t = std::fs::read_to_string(p).ok()?;
            std::fs::write(p, format!("{t}\n%inject \"{}\".\n", p.display())).ok()?;
            "with a file that injects itself"
        }
        5 => {
            std::fs::write(p, *r.pick(&["\n", "// nothing\n", " ", "/* nothing */"])).ok()?;
            "with a file without tokens"
        }
        6 => {
            let q = dir.join("loop.inc");
            std::fs::write(&q, format!("%inject \"{}\".", p.display())).ok()?;
            std::fs::write(p, format!("%inject \"{}\".", q.display())).ok()?;
            "with files that inject each other"
        }
        _ => {
            let t = std::fs::read_to_string(p).ok()?;
            std::fs::write(p, format!("{t} Nowhere \"nowhere\" %%")).ok()?;
            "with a file that has too much in it"
        }
    })
}

//! C01-C05: the run time lexer.
use crate::ctx::{Ctx, guard};
use crate::json;
use crate::rng::Rng;
use crate::lexgen::{self, Lexi};
use crate::reflex::{Item, RefLex, RefStream, locate, show_loc};
use crate::sut::{self, An, analyzer, tg_ix};

fn describe(lx: &Lexi, text: &str) -> String {
    format!("literals {:?}\nregexes {:?}\nskips {:?}\ntext {:?}", lx.lits, lx.res, lx.skips, text)
}

/// Drive a stream to its end marker. Err(..) when it doesn't get there in `cap` steps.
pub fn drive(an: &An, text: &str, label: &str) -> Result<Vec<Item>, Vec<Item>> {
    // (very long texts are made of few items)
    let cap = if text.len() > 20_000 { 3000 } else { text.len() + 3 };
    let mut ts = an.token_stream(text, label);
    let mut v = vec![];
    for _ in 0..cap {
        let it = sut::item(&ts.front(), &tg_ix);
        let stop = matches!(it, Item::End(_) | Item::Empty(_));
        v.push(it);
        if stop {
            return Ok(v);
        }
        ts.advance();
    }
    Err(v)
}

fn class(items: &[Item]) -> (usize, usize, usize) {
    let t = items.iter().filter(|i| matches!(i, Item::Tok(..))).count();
    let u = items.iter().filter(|i| matches!(i, Item::Unexpected(..))).count();
    let a = items.iter().filter(|i| matches!(i, Item::Ambiguous(..))).count();
    (t, u, a)
}

fn texts(ctx: &Ctx) -> usize {
    if ctx.o.thorough() { 40 } else { 24 }
}

/// A lexicon that is quick to match however long the tokens.
fn plain_lexicon(r: &mut Rng) -> Lexi {
    Lexi {
        lits: vec![(0, "if".into()), (1, "é".repeat(r.range(1, 300)))],
        res: vec![(2, "[a-z]+".into()), (3, "[0-9]+(\\.[0-9]+)?".into()), (4, "\"[^\"]*\"".into())],
        skips: vec!["\\s+".into(), "//[^\\n]*".into(), "#[^#]*#".into()],
        samples: vec![],
        skip_samples: vec![],
    }
}
/// Few items, more bytes, characters, lines or columns than 16 bits count.
fn huge_text(r: &mut Rng) -> String {
    let n = r.range(3, 9);
    let mut s = String::new();
    for _ in 0..n {
        let k = *r.pick(&[1, 200, 255, 256, 257, 5000, 65535, 65536, 70000]);
        match r.below(10) {
            0 => s.push_str(&"a".repeat(k)),
            1 => s.push_str(&"\n".repeat(k)),
            2 => s.push_str(&" ".repeat(k)),
            3 => s.push_str(&format!("\"{}\"", "é\n".repeat(k))),
            4 => s.push_str(&format!("// {}\n", "日".repeat(k))),
            5 => s.push_str(&format!("#{}#", "x\r\n".repeat(k / 2))),
            6 => s.push_str(&"1".repeat(k)),
            7 => s.push_str(&"?".repeat(k.min(3000))),
            8 => s.push_str("é é "),
            _ => s.push_str("if x1 \n"),
        }
        if r.chance(1, 2) {
            s.push_str(r.pick(&[" ", "\n", "if ", "~"]));
        }
    }
    s
}

fn each(ctx: &mut Ctx, max_quick: u64, max_thorough: u64, f: &mut dyn FnMut(&mut Ctx, &Lexi, &RefLex, &An, &str, &str)) {
    let max = if ctx.o.thorough() { max_thorough } else { max_quick };
    for case in ctx.cases(max) {
        ctx.begin(case);
        let mut r = ctx.rng(case);
        let huge = case < 16;
        let lx = if huge { plain_lexicon(&mut r) } else { lexgen::lexicon(&mut r) };
        let n = if huge { 6 } else { texts(ctx) };
        let mut ts: Vec<(String, String)> = (0..n)
            .map(|i| {
                let parts = if i % 8 == 7 { 60 } else { 9 };
                (if huge { huge_text(&mut r) } else { lexgen::text(&mut r, &lx, parts) }, lexgen::label(&mut r))
            })
            .collect();
        if !huge && r.chance(1, 25) {
            ts[0].0 = lexgen::long_text(&mut r, &lx, if case % 16 == 0 { 9000 } else { 2000 });
            ctx.max("longest_text", ts[0].0.len() as u64);
        }
        ctx.desc(describe(&lx, ""));
        let refl = RefLex::new(&lx.lits, &lx.res, &lx.skips);
        ctx.guarded("lexing", |ctx| {
            let an = analyzer(&lx.lits, &lx.res, &lx.skips);
            for (text, label) in &ts {
                ctx.desc(describe(&lx, text));
                ctx.eval();
                f(ctx, &lx, &refl, &an, text, label);
            }
        });
    }
}

pub fn c01(ctx: &mut Ctx) {
    ctx.rule = "random lexicons (overlapping literals, random and curated regular expressions, skips) times random texts of fragments that match, nearly match or don't; an evaluation is one text fully tokenised and compared with the reference lexer; non-trivial: it has a token decided between at least two candidate matches, or an ambiguity (distinct by lexicon and text)".into();
    each(ctx, 90000, 1500000, &mut |ctx, lx, refl, an, text, label| {
        let (want, _) = refl.lex(text, label);
        let Ok(got) = drive(an, text, label) else {
            ctx.violation("no-end", format!("{} steps without reaching the end marker", text.len() + 3));
            return;
        };
        let strip = |i: &Item| match i {
            Item::Tok(t, s, _) => Some(format!("token {t} {s:?}")),
            Item::Ambiguous(t, s, _) => Some(format!("ambiguous {t:?} {s:?}")),
            _ => None,
        };
        let w: Vec<String> = want.iter().filter_map(|x| strip(&x.1)).collect();
        let g: Vec<String> = got.iter().filter_map(strip).collect();
        if w != g {
            ctx.violation("tokens", format!("expected {w:?}\n     got {g:?}"));
        }
        let contested = want
            .iter()
            .filter(|(at, i)| {
                let rest = &text[*at..];
                let c = lx.lits.iter().filter(|l| rest.starts_with(&l.1)).count() + refl.res.iter().filter(|x| x.1.find(rest).is_some_and(|m| m.end() > 0)).count();
                matches!(i, Item::Tok(..)) && c > 1
            })
            .count();
        let (t, u, a) = class(&got);
        ctx.count("tokens", t as u64);
        ctx.count("unexpected_texts", u as u64);
        ctx.count("ambiguities", a as u64);
        ctx.count("contested_tokens", contested as u64);
        if contested > 0 || a > 0 {
            ctx.nontrivial(&describe(lx, text));
            ctx.sample(|| format!("{} -> {:?}", describe(lx, text), g));
        }
    });
}

pub fn c02(ctx: &mut Ctx) {
    ctx.rule = "random lexicons, many with patterns that match the empty string, times random texts with multi-byte and garbage fragments; an evaluation is one text read to its end within len+3 steps and reassembled; non-trivial: unexpected text or discarded text occurred (distinct by lexicon and text)".into();
    each(ctx, 90000, 1500000, &mut |ctx, lx, refl, an, text, label| {
        let got = match drive(an, text, label) {
            Ok(g) => g,
            Err(_) => {
                ctx.violation("no-end", format!("{} steps without reaching the end marker", text.len() + 3));
                return;
            }
        };
        let mut at = 0;
        let mut gaps = 0;
        for it in &got {
            // discarded text before the item
            if let Item::Empty(_) = it {
                ctx.violation("empty", "a complete text starts with the advanced-when-empty error".into());
                return;
            }
            let end = matches!(it, Item::End(_));
            let s = it.text();
            if !end && s.is_empty() {
                ctx.violation("no-progress", format!("item {it:?} at byte {at} consumes nothing"));
                return;
            }
            let mut here = at;
            loop {
                let n = refl.skip_len(&text[here..]);
                if n == 0 {
                    break;
                }
                here += n;
            }
            let fits = if end { here == text.len() } else { text[here..].starts_with(s) };
            if !fits {
                ctx.violation("lost", format!("after byte {at} the text continues (once skips are discarded) {:?} but the next item is {it:?}", &text[here..]));
                return;
            }
            if here > at {
                gaps += 1;
            }
            if let Item::Unexpected(s, _) = it {
                let next = (1..=text.len() - here)
                    .find(|n| text.is_char_boundary(here + n) && (here + n == text.len() || refl.something_matches(&text[here + n..])))
                    .unwrap();
                if refl.something_matches(&text[here..]) || s.len() != next {
                    ctx.violation("unexpected-extent", format!("unexpected text {s:?} at byte {here}: should be {:?}", &text[here..here + next]));
                    return;
                }
            }
            at = here + s.len();
        }
        let (t, u, a) = class(&got);
        ctx.count("tokens", t as u64);
        ctx.count("unexpected_texts", u as u64);
        ctx.count("ambiguities", a as u64);
        ctx.count("discarded_gaps", gaps);
        if u > 0 || gaps > 0 {
            ctx.nontrivial(&describe(lx, text));
            ctx.sample(|| format!("{} -> {:?}", describe(lx, text), got));
        }
    });
}

pub fn c03(ctx: &mut Ctx) {
    ctx.rule = "random lexicons (tokens and skips that span lines) times random texts mixing LF, CRLF, lone CR and multi-byte characters, labels with and without blanks; an evaluation is one text whose every item location (and its printed form) is recomputed from the raw text; non-trivial: more than one line or multi-byte text before an item".into();
    each(ctx, 90000, 1500000, &mut |ctx, lx, refl, an, text, label| {
        let (want, _) = refl.lex(text, label);
        let Ok(got) = drive(an, text, label) else { return };
        if got.len() != want.len() + 1 || want.iter().zip(&got).any(|((_, w), g)| w.text() != g.text()) {
            ctx.count("desynchronised_texts", 1);
            return;
        }
        let mut offs: Vec<usize> = want.iter().map(|x| x.0).collect();
        offs.push(text.len());
        for (at, it) in offs.iter().zip(&got) {
            let l = locate(text, *at, label);
            ctx.count("locations", 1);
            if *it.loc() != l {
                ctx.violation("location", format!("item {it:?} starts at byte {at} of the text, i.e. at {l:?}"));
                return;
            }
        }
        let mut ts = an.token_stream(text, label);
        for at in &offs {
            let want = show_loc(&locate(text, *at, label));
            let shown = match ts.front() {
                Ok(t) => t.location().to_string(),
                Err(lexan::Error::UnexpectedText(_, l) | lexan::Error::AmbiguousMatches(_, _, l) | lexan::Error::AdvancedWhenEmpty(l)) => l.to_string(),
            };
            if shown != want {
                ctx.violation("display", format!("location prints as {shown:?} but should as {want:?}"));
                return;
            }
            ts.advance();
        }
        if text.contains('\n') || !text.is_ascii() {
            ctx.nontrivial(&describe(lx, text));
            ctx.sample(|| format!("{} label {label:?} -> {:?}", describe(lx, text), got.iter().map(|i| show_loc(i.loc())).collect::<Vec<_>>()));
        }
    });
}

pub fn c04(ctx: &mut Ctx) {
    ctx.rule = "random lexicons and random histories of inject/advance/front/front_advance/advance_front/is_empty over random texts (blank ones included), continued past the end; an evaluation is one history compared step by step with a stack-of-texts model; non-trivial: at least one non-blank injection (distinct by lexicon and history)".into();
    let max = if ctx.o.thorough() { 1_500_000 } else { 72_000 };
    for case in ctx.cases(max) {
        ctx.begin(case);
        let mut r = ctx.rng(case);
        let lx = lexgen::lexicon(&mut r);
        let refl = RefLex::new(&lx.lits, &lx.res, &lx.skips);
        ctx.desc(describe(&lx, ""));
        ctx.guarded("token stream", |ctx| {
            let an = analyzer(&lx.lits, &lx.res, &lx.skips);
            for _ in 0..4 {
                let parts = r.range(1, 6);
                let text = lexgen::text(&mut r, &lx, parts);
                let mut log = vec![format!("open {text:?}")];
                ctx.desc(format!("{}\nhistory {:?}", describe(&lx, &text), log));
                let mut s = an.token_stream(&text, "outer");
                let mut m = RefStream::new(&refl, &text, "outer");
                let mut injected = 0;
                let mut depth = 0;
                let mut seen_end = 0;
                // now and then very many texts within each other
                let tall = r.chance(1, 150);
                let inj_rate = if tall { r.range(10, 12) } else { r.range(1, 6) };
                let steps = if tall { r.range(60, 700) } else { r.range(3, 60) };
                let labels = r.below(3);
                let mut texts: Vec<String> = vec![text.clone()];
                ctx.eval();
                let mut past = 0;
                for step in 0..=steps + if tall { 9000 } else { 200 } {
                    let drain = step > steps;
                    let before = sut::item(&s.front(), &tg_ix);
                    if before != *m.front() {
                        ctx.violation("front", format!("history {log:?}\nexpected front {:?}\n     got {before:?}", m.front()));
                        return;
                    }
                    if s.is_empty() != m.is_empty() {
                        ctx.violation("is_empty", format!("history {log:?}\nis_empty() is {} with front {before:?}", s.is_empty()));
                        return;
                    }
                    if matches!(before, Item::End(_)) {
                        seen_end += 1;
                    }
                    if matches!(before, Item::Empty(_)) {
                        past += 1;
                    }
                    if past > 2 && drain {
                        break;
                    }
                    if !drain && r.chance(inj_rate, 12) {
                        let t = if r.chance(1, 5) {
                            r.pick(&["", " ", "\n", "\t \r\n"]).to_string()
                        } else if r.chance(1, 6) {
                            // the same text again
                            r.pick(&texts).clone()
                        } else {
                            let n = r.range(1, 4);
                            lexgen::text(&mut r, &lx, n)
                        };
                        texts.push(t.clone());
                        let lb = match labels {
                            0 => format!("i{step}"),
                            1 => r.pick(&["outer", "i", "", "a b"]).to_string(),
                            _ => format!("i{}", step % 3),
                        };
                        log.push(format!("inject {t:?}"));
                        let d0 = m.depth();
                        s.inject(&t, &lb);
                        m.inject(&t, &lb);
                        if m.depth() > d0 {
                            injected += 1;
                        } else {
                            ctx.count("blank_injections", 1);
                        }
                        depth = depth.max(m.depth());
                    } else {
                        match r.below(3) {
                            0 => {
                                log.push("advance".into());
                                s.advance();
                                m.advance();
                            }
                            1 => {
                                log.push("front_advance".into());
                                let f = sut::item(&s.front_advance(), &tg_ix);
                                if f != *m.front() {
                                    ctx.violation("front_advance", format!("history {log:?}\nexpected {:?}\n     got {f:?}", m.front()));
                                    return;
                                }
                                m.advance();
                            }
                            _ => {
                                log.push("advance_front".into());
                                let f = sut::item(&s.advance_front(), &tg_ix);
                                m.advance();
                                if f != *m.front() {
                                    ctx.violation("advance_front", format!("history {log:?}\nexpected {:?}\n     got {f:?}", m.front()));
                                    return;
                                }
                            }
                        }
                        ctx.count("advances", 1);
                    }
                }
                ctx.count("injections", injected);
                ctx.count("end_markers", seen_end.min(1));
                ctx.max("stack_depth", depth as u64);
                if injected > 0 {
                    ctx.nontrivial(&format!("{}{:?}", describe(&lx, &text), log));
                    ctx.sample(|| format!("{}\nhistory {:?}", describe(&lx, &text), log));
                }
            }
        });
    }
}

const BAD_RES: &[&str] = &["(", "a)", "a)|(b", "[a", "*", "a{2,1}", "\\", "(?P<x", "[z-a]", "\\p{Nope}", "(?<n>a)(?<n>b)", "+a", "x{", "\\8", "(?=a)"];

pub fn c05(ctx: &mut Ctx) {
    ctx.rule = "random token lists, valid or with one or two planted defects (repeated handle, the end marker's handle, repeated text across literals/regexes/skips, empty pattern, malformed regex) at random places; an evaluation is one LexicalAnalyzer::new whose acceptance/refusal and named cause are checked, accepted ones being exercised on every declared pattern's samples; non-trivial: at least two entries (distinct by list)".into();
    let max = if ctx.o.thorough() { 2_000_000 } else { 150_000 };
    for case in ctx.cases(max) {
        ctx.begin(case);
        let mut r = ctx.rng(case);
        let mut lx = lexgen::lexicon(&mut r);
        // near misses of duplicates that must be accepted
        if r.chance(1, 3) {
            let t = lx.samples.len();
            if let Some((_, l)) = lx.lits.first().cloned() {
                let near = r.pick(&[l.to_uppercase(), format!("{l} "), format!("{l}{l}"), format!(" {l}")]).clone();
                if !lx.lits.iter().any(|x| x.1 == near) && !lx.res.iter().any(|x| x.1 == near) && !lx.skips.contains(&near) {
                    lx.lits.push((t, near.clone()));
                    lx.samples.push(vec![near]);
                }
            }
        }
        // spread the handles out in random order so that a list of handles is not always sorted
        let n = lx.samples.len();
        let mut map: Vec<usize> = (0..n).map(|i| i * 7 + 3).collect();
        r.shuffle(&mut map);
        for x in lx.lits.iter_mut().chain(lx.res.iter_mut()) {
            x.0 = map[x.0];
        }
        let end = sut::Tg(*r.pick(&[0u16, 1, 9999, 500, (n as u16) * 7 / 2 / 7 * 7]));
        let mut lits: Vec<(sut::Tg, String)> = lx.lits.iter().map(|(t, s)| (sut::Tg(*t as u16), s.clone())).collect();
        let mut res: Vec<(sut::Tg, String)> = lx.res.iter().map(|(t, s)| (sut::Tg(*t as u16), s.clone())).collect();
        let mut skips = lx.skips.clone();
        let defects = if r.chance(1, 4) { 0 } else { r.range(1, 2) };
        for _ in 0..defects {
            match r.below(9) {
                0 => {
                    // repeated handle
                    let all: Vec<sut::Tg> = lits.iter().chain(res.iter()).map(|x| x.0).collect();
                    if !all.is_empty() {
                        let t = *r.pick(&all);
                        if r.chance(1, 2) {
                            lits.insert(r.below(lits.len() + 1), (t, "fresh literal".into()));
                        } else {
                            res.insert(r.below(res.len() + 1), (t, "fresh+regex".into()));
                        }
                    }
                }
                1 => {
                    if r.chance(1, 2) {
                        lits.insert(r.below(lits.len() + 1), (end, "end literal".into()));
                    } else {
                        res.insert(r.below(res.len() + 1), (end, "end+regex".into()));
                    }
                }
                2..=4 => {
                    // repeated text
                    let all: Vec<String> = lits.iter().chain(res.iter()).map(|x| x.1.clone()).chain(skips.iter().cloned()).collect();
                    if !all.is_empty() {
                        let s = r.pick(&all).clone();
                        let ok_re = regex::Regex::new(&s).is_ok();
                        match r.below(3) {
                            0 => lits.insert(r.below(lits.len() + 1), (sut::Tg(8000), s)),
                            1 if ok_re => res.insert(r.below(res.len() + 1), (sut::Tg(8001), s)),
                            2 if ok_re => skips.insert(r.below(skips.len() + 1), s),
                            _ => lits.insert(r.below(lits.len() + 1), (sut::Tg(8000), s)),
                        }
                    }
                }
                5 | 6 => match r.below(3) {
                    0 => lits.insert(r.below(lits.len() + 1), (sut::Tg(8002), String::new())),
                    1 => res.insert(r.below(res.len() + 1), (sut::Tg(8003), String::new())),
                    _ => skips.insert(r.below(skips.len() + 1), String::new()),
                },
                _ => {
                    let b = r.pick(BAD_RES).to_string();
                    if r.chance(1, 2) {
                        res.insert(r.below(res.len() + 1), (sut::Tg(8004), b));
                    } else {
                        skips.insert(r.below(skips.len() + 1), b);
                    }
                }
            }
        }
        // which defects are really there
        let mut causes: Vec<&str> = vec![];
        let mut hs: Vec<sut::Tg> = lits.iter().chain(res.iter()).map(|x| x.0).collect();
        hs.push(end);
        hs.sort();
        if hs.windows(2).any(|w| w[0] == w[1]) {
            causes.push("DuplicateHandle");
        }
        let mut ps: Vec<&String> = lits.iter().chain(res.iter()).map(|x| &x.1).chain(skips.iter()).collect();
        ps.sort();
        if ps.windows(2).any(|w| w[0] == w[1]) {
            causes.push("DuplicatePattern");
        }
        if ps.iter().any(|p| p.is_empty()) {
            causes.push("EmptyPattern");
        }
        if res.iter().map(|x| &x.1).chain(skips.iter()).any(|p| regex::Regex::new(p).is_err()) {
            causes.push("RegexError");
        }
        let d = format!("literals {lits:?}\nregexes {res:?}\nskips {skips:?}\nend {end:?}");
        ctx.desc(d.clone());
        ctx.eval();
        let l: Vec<(sut::Tg, &str)> = lits.iter().map(|(t, s)| (*t, s.as_str())).collect();
        let rr: Vec<(sut::Tg, &str)> = res.iter().map(|(t, s)| (*t, s.as_str())).collect();
        let s: Vec<&str> = skips.iter().map(|x| x.as_str()).collect();
        match guard(|| An::new(&l, &rr, &s, end)) {
            Ok(an) => {
                ctx.count("accepted", 1);
                if !causes.is_empty() {
                    ctx.violation("accepted", format!("accepted in spite of {causes:?}"));
                    continue;
                }
                // exercise it on every declared pattern
                let li: Vec<(usize, String)> = lits.iter().map(|(t, s)| (t.0 as usize, s.clone())).collect();
                let ri: Vec<(usize, String)> = res.iter().map(|(t, s)| (t.0 as usize, s.clone())).collect();
                let refl = RefLex::new(&li, &ri, &skips);
                for smp in lx.samples.iter().flatten() {
                    let (w, _) = refl.lex(smp, "");
                    let got = guard(|| {
                        let mut ts = an.token_stream(smp, "");
                        let mut v = vec![];
                        for _ in 0..smp.len() + 2 {
                            match ts.front() {
                                Ok(t) if *t.tag() == end => {
                                    if !t.lexeme().is_empty() {
                                        v.push(format!("end marker from text {t:?}"));
                                    }
                                    return v;
                                }
                                Ok(t) => v.push(format!("{} {:?}", t.tag().0, t.lexeme())),
                                Err(_) => (),
                            }
                            ts.advance();
                        }
                        v
                    });
                    let want: Vec<String> = w.iter().filter_map(|x| if let Item::Tok(t, s, _) = &x.1 { Some(format!("{t} {s:?}")) } else { None }).collect();
                    ctx.count("tokens_produced", want.len() as u64);
                    match got {
                        Ok(g) if g == want => (),
                        g => ctx.violation("incomplete", format!("text {smp:?}: expected tokens {want:?}, got {g:?}")),
                    }
                }
            }
            Err((_, msg)) => {
                ctx.count("refused", 1);
                if causes.is_empty() {
                    ctx.violation("refused", format!("refused: {msg}"));
                    continue;
                }
                if !causes.iter().any(|c| msg.contains(c)) {
                    ctx.violation("cause", format!("refused with {msg:?}, but the causes are {causes:?}"));
                }
                for c in causes {
                    ctx.count(&format!("refused:{c}"), 1);
                }
            }
        }
        if lits.len() + res.len() > 1 {
            ctx.nontrivial(&d);
            ctx.sample(|| json::s(&d));
        }
    }
}

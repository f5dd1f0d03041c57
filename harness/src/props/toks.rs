//! C15: the lexical analysers that generated parsers come with.
use crate::compiled::{Batch, by_case};
use crate::ctx::Ctx;
use crate::genr::{Outcome, generate, scratch};
use crate::gram::{Gram, Sym, Term, Text, join_plain, layout, SpecStyle};
use crate::lexgen::{self, Lexi};
use crate::props::gener::reflex_of;
use crate::reflex::Item;
use crate::rng::Rng;
use crate::rt::{ModFn, Module};

const NAMES: &[&str] = &[
    "state", "Action", "OrderedSet", "token", "aTok", "x", "T", "A1", "If", "Number_2", "Some", "None", "Ok", "Err", "Option", "String", "Vec", "u32", "str", "Token", "Error", "Parser", "Default", "ReportError",
    "attributes", "tag", "text", "end", "End", "EOF", "f", "fmt", "set", "write", "vec", "Box", "P", "AT", "val", "Result", "Location", "stack", "symbol", "production", "lhs", "rhs", "s", "r", "a", "b", "data", "default", "current_state", "production_id", "goto", "action", "table", "first", "illegal", "malformed", "error", "inject", "panic", "write_str", "Formatter", "FnMut", "F", "No", "Malformed",
    "Clone", "Copy", "Debug", "Display", "Eq", "Ord", "PartialEq", "PartialOrd", "Shift", "Reduce", "Accept", "SyntaxError", "ParseStack", "LexicalAnalyzer", "lazy_static_x", "usize", "bool", "go", "fmt", "expr", "x", "next_action", "goto_state", "lexical_analyzer", "production_data", "do_semantic_action",
    "look_ahead_set", "viable_error_recovery_states", "error_goto_state", "ordered_set", "new", "clone", "attr", "parse_text", "Iterator", "into", "From", "Send", "Sync", "i32", "char", "From1", "Ident", "insert", "is_empty", "X", "N", "E0",
];

/// Every identifier in the sources that the generators write: names a specification may use as well.
fn generated_names() -> &'static [String] {
    static N: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    N.get_or_init(|| {
        let spec = "%{\nuse vh::rt::*;\n%}\n%attr AT\n%target P\n%token TkOne \"one\"\n%token TkTwo (two)\n%left TkOne\n%skip (\\s+)\n%%\nTop : | Top Bit !{ $$ = $1.clone(); $INJECT(String::new(), String::new()); !} .\nBit : TkOne | TkTwo TkOne | %error TkTwo .\n";
        let dir = std::env::temp_dir().join(format!("vh.names.{}.{:?}", std::process::id(), std::thread::current().id()));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        let word = regex::Regex::new("[A-Za-z][A-Za-z0-9_]*").unwrap();
        const KEYWORDS: &[&str] = &["as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen", "TkOne", "TkTwo", "Top", "Bit"];
        let mut v: Vec<String> = vec![];
        for (aug, spec) in [(false, spec.to_string()), (true, spec.replace("Bit : TkOne |", "Bit : TkOne ?( $1.0 == $1.0 ?) | TkOne |"))] {
            if let Outcome::Ok(m) = generate(aug, &spec, "names", true, true, &dir) {
                v.extend(word.find_iter(&m.code).map(|w| w.as_str().to_string()));
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        v.sort();
        v.dedup();
        v.retain(|w| !w.to_lowercase().starts_with("aa") && !KEYWORDS.contains(&w.as_str()));
        v
    })
}

pub struct Case {
    pub g: Gram,
    pub lx: Lexi,
    pub text: String,
    pub aug: bool,
}

fn fits_literal(s: &str) -> bool {
    if s.is_empty() || s.contains(['\t', '\r', '\n', '\u{b}', '\u{c}']) {
        return false;
    }
    // a quote is written with a backslash in front, which stays
    let b: Vec<char> = s.chars().collect();
    (0..b.len()).all(|i| b[i] != '"' || i > 0 && b[i - 1] == '\\')
}

fn weird_literal(r: &mut Rng) -> String {
    const W: &[&str] = &[
        "\\\"", "\\\"#", "\\\"##", "\\\"####", "#", "##", "\"#", "{", "}", "{}", "{{", "}}", "{0}", "{x}", "\\", "\\\\", "\\n", "\\t", "\\u{41}", "\\x41", "\\\"\\\"", "%", "%%", "%{", "%}", "!{", "!}", "?(", "?)", "$1", "$$", "$?", "//", "/*", "*/",
        "'", "'a'", "r#", "r\\\"", "r#\\\"", "b'", "\\'", ".", "|", ":", "(", ")", "(.+)", "[a-z]", "^", "$", "a*", "a+?", "(?i)", "é", "é#", "日本語", "😀", " ", "  ", "a b", "\u{0}", "\u{7f}", "\u{a0}", "\u{200b}", "\u{2028}", "\u{feff}", "\u{202e}", "\u{2066}x", "~", "`", "&", "&&", "<", "<=", "<<=", "->", "=>", "::", "%token", "%skip", "AAEnd", "#\\\"", "###\\\"###", "\\\"###", "\\\"#####",
    ];
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        if r.chance(2, 3) { s.push_str(r.pick(W)) } else { s.push_str(&lexgen::random_literal(r)) }
    }
    s
}

fn weird_regex(r: &mut Rng) -> (String, Vec<String>) {
    const W: &[(&str, &[&str])] = &[
        ("\"#", &["\"#"]),
        // only with the brackets around them are these well formed
        ("a)|(b", &["a", "b"]),
        ("x+)(y*", &["x", "xxy"]),
        ("k)|q|(m+", &["k", "q", "mm"]),
        ("u)+(?:v", &["uv", "uuv"]),
        ("(g|h)|(i)", &["g", "i"]),
        ("p|qq", &["p", "qq"]),
        ("\"[^\"]*\"#", &["\"a\"#", "\"\"#"]),
        ("r\"[^\"]*\"", &["r\"x\""]),
        ("r#\"[^\"]*\"#", &["r#\"x\"#"]),
        ("\"##+", &["\"###", "\"##"]),
        ("\\{[^}]*\\}", &["{}", "{a}"]),
        ("\\{\\}", &["{}"]),
        ("[{}]+", &["{}", "}{"]),
        ("a{2,3}", &["aa", "aaa"]),
        ("%[a-z]+", &["%token", "%x"]),
        ("\\$[0-9]+", &["$1", "$10"]),
        ("\\$\\$", &["$$"]),
        ("\\?\\(", &["?("]),
        ("//.*", &["// x", "//"]),
        ("/\\*([^*]|\\*[^/])*\\*/", &["/* x */", "/**/"]),
        ("\\\\.", &["\\n", "\\\\"]),
        ("'(\\\\.|[^'])*'", &["'a'", "'\\''"]),
        ("\\x41", &["A"]),
        ("\\u{e9}+", &["é", "éé"]),
        ("[^\\x00-\\x7f]+", &["日本", "é"]),
        ("#{1,4}", &["#", "###"]),
        ("\\(.*?\\)", &["()", "(a)"]),
        ("a(b(c))?|d", &["a", "abc", "d"]),
        ("(?i:if)|fi", &["IF", "fi", "If"]),
        ("\\bx\\b", &["x"]),
        ("(?s:<.*>)", &["<a>", "<\n>"]),
        ("(?m:^z$)", &["z"]),
        ("\t+", &["\t", "\t\t"]),
    ];
    if r.chance(1, 2) {
        let (p, s) = *r.pick(W);
        (p.to_string(), s.iter().map(|x| x.to_string()).collect())
    } else {
        let re = if r.chance(2, 5) { lexgen::Re::raw(r) } else { lexgen::Re::random(r, 3) };
        let s = (0..4).map(|_| re.sample(r)).collect();
        (re.print(true), s)
    }
}

pub fn make(case: u64, r: &mut Rng) -> Option<Case> {
    let mut g = Gram::new(0, 2);
    let mut lx = Lexi::default();
    let mut used: Vec<String> = vec![];
    let n = match r.below(8) {
        0 => 1,
        1 => r.range(30, 120),
        _ => r.range(2, 14),
    };
    lx.samples.push(vec![String::new()]);
    // all the names get their turn
    let own = generated_names();
    let name = |k: usize| if k < NAMES.len() { NAMES[k].to_string() } else { own[k - NAMES.len()].clone() };
    let names = NAMES.len() + own.len();
    let mut turn = case as usize * 8;
    for i in 0..n {
        let name = if i < 8 && r.chance(3, 4) { turn += 1; name(turn % names) } else if r.chance(1, 6) { name(r.below(names)) } else { format!("{}{}", r.pick(&["TK", "tk_", "a", "Z", "T_"]), g.terms.len()) };
        if g.terms.iter().any(|t| t.name == name) {
            continue;
        }
        let i = g.terms.len();
        if r.chance(3, 5) {
            let mut s = weird_literal(r);
            if !lx.lits.is_empty() && r.chance(1, 4) {
                let base = r.pick(&lx.lits).1.clone();
                s = if r.chance(1, 2) { base + &s } else { base.chars().take(r.range(1, base.chars().count())).collect() };
            }
            if !fits_literal(&s) || used.contains(&s) {
                continue;
            }
            used.push(s.clone());
            lx.samples.push(vec![s.clone()]);
            lx.lits.push((i, s.clone()));
            g.terms.push(Term { name, text: Text::Lit(s.clone()), sample: s });
        } else {
            let (p, samples) = weird_regex(r);
            let full = format!("({p})");
            if p.is_empty() || p.contains(['\n', '\r']) || used.contains(&full) || regex::Regex::new(&full).is_err() {
                continue;
            }
            used.push(full.clone());
            lx.res.push((i, full));
            lx.samples.push(samples.clone());
            g.terms.push(Term { name, text: Text::Re(p), sample: samples[0].clone() });
        }
    }
    if g.terms.len() < 2 {
        return None;
    }
    g.skips.clear();
    for _ in 0..r.below(4) {
        let (p, s) = *r.pick(lexgen::SKIPS);
        let full = format!("({p})");
        if p.contains(['\n', '\r']) || used.contains(&full) {
            continue;
        }
        used.push(full.clone());
        g.skips.push(p.to_string());
        lx.skips.push(full);
        lx.skip_samples.extend(s.iter().map(|x| x.to_string()));
    }
    let (a, b) = loop {
        let pick = |r: &mut Rng, d: &str| if r.chance(1, 2) { name(r.below(names)) } else { d.to_string() };
        let (a, b) = (pick(r, "Texts"), pick(r, "Piece"));
        if a != b && !g.terms.iter().any(|t| t.name == a || t.name == b) {
            break (a, b);
        }
    };
    g.nts = vec![a, b];
    g.rule(0, vec![]);
    g.rule(0, vec![Sym::N(0), Sym::N(1)]);
    let spare = r.chance(1, 4);
    for t in 1..g.terms.len() {
        // some tokens are declared but not used
        if t == 1 || !(spare && r.chance(1, 3)) {
            g.rule(1, vec![Sym::T(t)]);
        }
    }
    let aug = case / 8 % 2 == 1;
    let plain = g.rules.len();
    if r.chance(1, 2) {
        g.rule(1, vec![Sym::T(1), Sym::Err]);
    }
    if r.chance(1, 3) {
        for k in 0..plain {
            let n = g.rules[k].rhs.len();
            g.rules[k].action = Some(if n == 0 { " $$ = AT::default(); // }".into() } else { format!(" $$ = ${n}.clone(); ") });
        }
    }
    if aug && r.chance(1, 3) {
        let x = g.rules[plain - 1].clone();
        g.rules.insert(plain - 1, x);
        g.rules[plain - 1].pred = Some(r.pick(&[" $1.0 == $1.0 ", "$1.0 == $1.0 // yes", " // yes\n$1.0 == $1.0"]).to_string());
    }
    g.preamble = Some(crate::gram::same_preamble(r, "vh::rt::*"));
    // a literal that ends in a backslash must be alone on its line
    let fragile = lx.lits.iter().any(|l| l.1.ends_with('\\') || l.1.contains("\\\""));
    let names = if fragile || r.chance(1, 2) { 1 } else { 2 };
    let toks = g.spec_tokens(r, &SpecStyle { swap: true, split: true, names });
    let text = if fragile || r.chance(1, 2) { join_plain(&toks) } else { layout(r, &toks) };
    Some(Case { g, lx, text, aug })
}

pub fn generate_phase(ctx: &mut Ctx) {
    let want = if ctx.o.thorough() { 60 } else { 44 };
    let dir = scratch(ctx);
    let mut b = Batch::new(ctx);
    let only = ctx.o.only_case;
    let (mut k, mut done) = (0u64, 0);
    while done < want && k < 40 * want as u64 {
        let case = only.unwrap_or(ctx.o.round * 10_000_000 + k * ctx.o.shards + ctx.o.shard);
        k += 1;
        let mut r = ctx.rng(case);
        ctx.begin(case);
        if let Some(c) = make(case, &mut r) {
            ctx.desc(c.text.clone());
            ctx.count("specifications", 1);
            match generate(c.aug, &c.text, "spec", true, true, &dir) {
                Outcome::Ok(m) => {
                    b.add(case, 0, c.aug, &c.g, &m.code);
                    done += 1;
                }
                Outcome::Panic(l, m) => ctx.violation("generator-panic", format!("panicked at {l}: {m}")),
                o => {
                    let e = ctx.stderr_since();
                    ctx.violation("refused", format!("a set of tokens that clash in nothing is {}\n{e}", o.brief()));
                }
            }
        }
        if only.is_some() {
            break;
        }
    }
    ctx.begin(only.unwrap_or(ctx.o.shard));
    ctx.desc("compiling the batch".into());
    for (u, e) in b.compile(ctx) {
        ctx.begin(u.case);
        let mut r = ctx.rng(u.case);
        let t = make(u.case, &mut r).map(|c| c.text).unwrap_or_default();
        ctx.violation("does-not-compile", format!("accepted specification:\n{t}\nthe generated source does not compile:\n{e}"));
    }
}

pub fn run(ctx: &mut Ctx, mods: &[(u64, u32, ModFn)]) {
    ctx.rule = "specifications with random, hostile token sets (quotes, hashes, braces, backslashes, regex metacharacters, multi-byte text, odd names, unused tokens) generated, compiled, and the compiled analyser run on texts; an evaluation is one text whose tokens, errors and locations are compared with the reference lexer of the declared tokens, or one token's printed form; non-trivial: a text with 2+ tokens (distinct by specification and text)".into();
    for (case, fs) in by_case(ctx, mods) {
        ctx.begin(case);
        let mut r = ctx.rng(case);
        let Some(c) = make(case, &mut r) else {
            ctx.notes.push(format!("HARNESS case {case} cannot be made again"));
            continue;
        };
        ctx.desc(c.text.clone());
        ctx.guarded("generated lexical analyser", |ctx| one(ctx, &c, &(fs[0].1)(), &mut r));
    }
}

fn one(ctx: &mut Ctx, c: &Case, m: &Module, r: &mut Rng) {
    let g = &c.g;
    for (i, t) in g.terms.iter().enumerate() {
        ctx.eval();
        let shown = match &t.text {
            _ if i == 0 => "AAEnd".to_string(),
            Text::Lit(s) => format!("\"{s}\""),
            Text::Re(_) => t.name.clone(),
        };
        if m.terms[i] != (t.name.clone(), shown.clone()) {
            ctx.violation("printed", format!("token {} prints as {:?}, expected {:?}", t.name, m.terms[i], (t.name.clone(), shown)));
            return;
        }
    }
    let refl = reflex_of(g);
    let n = if ctx.o.thorough() { 400 } else { 150 };
    for k in 0..n {
        let text = match k {
            0 => String::new(),
            // every token by itself
            k if k < g.terms.len() => r.pick(&c.lx.samples[k]).clone(),
            _ => lexgen::text(r, &c.lx, if k % 8 == 7 { 40 } else { 8 }),
        };
        let label = lexgen::label(r);
        ctx.eval();
        let (want, end) = refl.lex(&text, &label);
        let mut want: Vec<Item> = want.into_iter().map(|x| x.1).collect();
        want.push(Item::End(end));
        let got = (m.lex)(&text, &label, &[]);
        let toks = want.iter().filter(|x| matches!(x, Item::Tok(..))).count();
        ctx.count("tokens", toks as u64);
        ctx.count("lexical_errors", (want.len() - 1 - toks) as u64);
        if got != want {
            let i = (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i)).unwrap();
            ctx.violation("tokens", format!("{}\ntext {text:?}: item {i} should be {:?} but is {:?}", c.text, want.get(i), got.get(i)));
            return;
        }
        if toks > 1 {
            ctx.nontrivial(&format!("{}{text}", c.text));
            ctx.sample(|| format!("{} tokens declared; {text:?} -> {} items", g.terms.len() - 1, got.len()));
        }
    }
}

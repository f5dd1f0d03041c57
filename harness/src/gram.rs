//! Grammars: model, specification writer, generators, derivations.
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Sym {
    T(usize),
    N(usize),
    Err,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Assoc {
    Non,
    Left,
    Right,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Text {
    Lit(String),
    Re(String),
}

#[derive(Clone, Debug)]
pub struct Term {
    pub name: String,
    pub text: Text,
    /// an example lexeme
    pub sample: String,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tag {
    Term(usize),
    Name(String),
}

#[derive(Clone, Debug)]
pub struct Rule {
    pub lhs: usize,
    pub rhs: Vec<Sym>,
    pub prec: Option<Tag>,
    pub action: Option<String>,
    pub pred: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Gram {
    /// index 0 is the end marker
    pub terms: Vec<Term>,
    pub nts: Vec<String>,
    pub rules: Vec<Rule>,
    pub skips: Vec<String>,
    pub precs: Vec<(Assoc, Vec<Tag>)>,
    pub sr: Option<u32>,
    pub rr: Option<u32>,
    pub attr: String,
    pub target: String,
    pub preamble: Option<String>,
}

impl Gram {
    pub fn new(nterms: usize, nnts: usize) -> Gram {
        let mut terms = vec![Term { name: "AAEnd".into(), text: Text::Lit(String::new()), sample: String::new() }];
        for i in 0..nterms {
            let s = tok_text(i);
            terms.push(Term { name: format!("TK{i}"), text: Text::Lit(s.clone()), sample: s });
        }
        Gram {
            terms,
            nts: (0..nnts).map(|i| format!("N{i}")).collect(),
            rules: vec![],
            skips: vec!["\\s+".into()],
            precs: vec![],
            sr: None,
            rr: None,
            attr: "AT".into(),
            target: "P".into(),
            preamble: Some("\nuse vh::rt::*;\n".into()),
        }
    }
    pub fn rule(&mut self, lhs: usize, rhs: Vec<Sym>) -> &mut Rule {
        self.rules.push(Rule { lhs, rhs, prec: None, action: None, pred: None });
        self.rules.last_mut().unwrap()
    }
    pub fn uses_error(&self) -> bool {
        self.rules.iter().any(|r| r.rhs.contains(&Sym::Err))
    }
    pub fn start(&self) -> usize {
        self.rules[0].lhs
    }
    pub fn tag_prec(&self, t: &Tag) -> (Assoc, u32) {
        for (i, (a, v)) in self.precs.iter().enumerate() {
            if v.contains(t) {
                return (*a, i as u32 + 1);
            }
        }
        (Assoc::Non, 0)
    }
    pub fn rule_prec(&self, r: &Rule) -> (Assoc, u32) {
        if let Some(t) = &r.prec {
            return self.tag_prec(t);
        }
        for s in &r.rhs {
            if let Sym::T(t) = s {
                return self.tag_prec(&Tag::Term(*t));
            }
        }
        (Assoc::Non, 0)
    }
    pub fn tags(&self) -> Vec<String> {
        let mut v = vec![];
        for (_, l) in &self.precs {
            for t in l {
                if let Tag::Name(n) = t {
                    v.push(n.clone());
                }
            }
        }
        v
    }
    /// How a terminal is written in rules: by text if it is a literal (unless told otherwise), else by name.
    pub fn term_ref(&self, t: usize, by_name: bool) -> String {
        match (&self.terms[t].text, by_name) {
            (Text::Lit(s), false) => format!("\"{s}\""),
            _ => self.terms[t].name.clone(),
        }
    }
    pub fn sym_ref(&self, s: Sym, by_name: bool) -> String {
        match s {
            Sym::T(t) => self.term_ref(t, by_name),
            Sym::N(n) => self.nts[n].clone(),
            Sym::Err => "%error".into(),
        }
    }
    pub fn tag_ref(&self, t: &Tag, by_name: bool) -> String {
        match t {
            Tag::Term(i) => self.term_ref(*i, by_name),
            Tag::Name(n) => n.clone(),
        }
    }
    /// The specification's tokens (as texts) in order; layout is a matter of how they are joined.
    pub fn spec_tokens(&self, r: &mut Rng, o: &SpecStyle) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        let mut put = |s: String| v.push(s);
        if let Some(p) = &self.preamble {
            put(format!("%{{{p}%}}"));
        }
        let target_first = o.swap && r.chance(1, 2);
        if target_first {
            put("%target".into());
            put(self.target.clone());
        }
        put("%attr".into());
        put(self.attr.clone());
        if !target_first {
            put("%target".into());
            put(self.target.clone());
        }
        let mut conf = vec![];
        if let Some(n) = self.rr {
            conf.push(["%reduce_reduce".to_string(), n.to_string()]);
        }
        if let Some(n) = self.sr {
            conf.push(["%shift_reduce".to_string(), n.to_string()]);
        }
        if o.swap && r.chance(1, 2) {
            conf.reverse();
        }
        for c in conf {
            put(c[0].clone());
            put(c[1].clone());
        }
        put("%%".into());
        for t in self.terms.iter().skip(1) {
            put("%token".into());
            put(t.name.clone());
            match &t.text {
                Text::Lit(s) => put(format!("\"{s}\"")),
                Text::Re(p) => put(format!("({p})")),
            }
        }
        for s in &self.skips {
            put("%skip".into());
            put(format!("({s})"));
        }
        for (a, l) in &self.precs {
            put(match a {
                Assoc::Non => "%nonassoc",
                Assoc::Left => "%left",
                Assoc::Right => "%right",
            }
            .into());
            for t in l {
                let bn = o.by_name(r);
                put(self.tag_ref(t, bn));
            }
        }
        put("%%".into());
        let mut i = 0;
        while i < self.rules.len() {
            let lhs = self.rules[i].lhs;
            put(self.nts[lhs].clone());
            put(":".into());
            let mut first = true;
            while i < self.rules.len() && self.rules[i].lhs == lhs {
                if !first {
                    if o.split && r.chance(1, 3) {
                        break;
                    }
                    put("|".into());
                }
                first = false;
                let ru = &self.rules[i];
                for s in &ru.rhs {
                    let bn = o.by_name(r);
                    put(self.sym_ref(*s, bn));
                }
                if let Some(p) = &ru.pred {
                    put(format!("?({p}?)"));
                }
                if let Some(t) = &ru.prec {
                    put("%prec".into());
                    let bn = o.by_name(r);
                    put(self.tag_ref(t, bn));
                }
                if let Some(a) = &ru.action {
                    put(format!("!{{{a}!}}"));
                }
                i += 1;
            }
            put(".".into());
        }
        v
    }
    /// A plain, readable specification text.
    pub fn spec(&self) -> String {
        let mut r = Rng::new(&[0]);
        join_plain(&self.spec_tokens(&mut r, &SpecStyle::default()))
    }
}

pub fn join_plain(v: &[String]) -> String {
    let mut s = String::new();
    for t in v {
        if t.starts_with('%') || t == "." || t == "|" {
            s.push('\n');
        } else if !s.is_empty() {
            s.push(' ');
        }
        s.push_str(t);
        if t == "." || t == "%%" {
            s.push('\n');
        }
        if t.starts_with('(') {
            // a regular expression reaches to the last ')' of its line
            s.push('\n');
        }
    }
    s.push('\n');
    s
}

#[derive(Clone, Copy, Default)]
pub struct SpecStyle {
    /// vary the order of configuration declarations
    pub swap: bool,
    /// split groups of alternatives
    pub split: bool,
    /// 0: literals by text, 1: by name, 2: at random
    pub names: u8,
}
impl SpecStyle {
    fn by_name(&self, r: &mut Rng) -> bool {
        match self.names {
            0 => false,
            1 => true,
            _ => r.chance(1, 2),
        }
    }
}

pub fn tok_text(i: usize) -> String {
    const T: &[&str] = &[
        "a", "b", "c", "d", "e", "f", "g", "h", "+", "-", "*", "/", "(", ")", "=", ";", ",", "[", "]", "{", "}", "<", ">", "if", "then", "else", "while", "do", "id", "num", "!", "@", "#", "&", "|", "^",
    ];
    if i < T.len() { T[i].to_string() } else { format!("k{i}") }
}

// ---------------------------------------------------------------- properties of grammars

pub fn nullable(g: &Gram) -> Vec<bool> {
    let mut n = vec![false; g.nts.len()];
    loop {
        let mut ch = false;
        for r in &g.rules {
            if !n[r.lhs]
                && r.rhs.iter().all(|s| match s {
                    Sym::N(x) => n[*x],
                    Sym::Err => true,
                    Sym::T(_) => false,
                })
            {
                n[r.lhs] = true;
                ch = true;
            }
        }
        if !ch {
            return n;
        }
    }
}

/// Every non terminal has a rule, derives something and is reachable.
pub fn reduced(g: &Gram) -> bool {
    let cost = min_cost(g);
    if cost.iter().any(|c| *c == usize::MAX) {
        return false;
    }
    let mut seen = vec![false; g.nts.len()];
    let mut todo = vec![g.start()];
    while let Some(n) = todo.pop() {
        if std::mem::replace(&mut seen[n], true) {
            continue;
        }
        for r in g.rules.iter().filter(|r| r.lhs == n) {
            for s in &r.rhs {
                if let Sym::N(x) = s {
                    todo.push(*x);
                }
            }
        }
    }
    seen.iter().all(|x| *x)
}

/// Least number of tree nodes needed to derive a terminal string (error symbols count as nothing).
pub fn min_cost(g: &Gram) -> Vec<usize> {
    let mut c = vec![usize::MAX; g.nts.len()];
    loop {
        let mut ch = false;
        for r in &g.rules {
            let k = rule_cost(r, &c);
            if k < c[r.lhs] {
                c[r.lhs] = k;
                ch = true;
            }
        }
        if !ch {
            return c;
        }
    }
}
fn rule_cost(r: &Rule, c: &[usize]) -> usize {
    let mut k = 1usize;
    for s in &r.rhs {
        k = k.saturating_add(match s {
            Sym::N(x) => c[*x],
            Sym::T(_) => 1,
            // never derive through an error rule if there is another way
            Sym::Err => 1_000_000,
        });
    }
    k
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tree {
    Tok(usize, usize),
    Node(usize, Vec<Tree>),
}

/// A random derivation: (tokens, tree). Tree::Tok(terminal, position), Tree::Node(rule index, children).
pub fn derive(g: &Gram, r: &mut Rng, budget: usize) -> Option<(Vec<usize>, Tree)> {
    let cost = min_cost(g);
    let mut toks = vec![];
    let mut left = budget as isize;
    let t = derive_nt(g, r, &cost, g.start(), &mut toks, &mut left, 0)?;
    Some((toks, t))
}
fn derive_nt(g: &Gram, r: &mut Rng, cost: &[usize], n: usize, toks: &mut Vec<usize>, left: &mut isize, depth: usize) -> Option<Tree> {
    if depth > 400 || toks.len() > 400 {
        return None;
    }
    *left -= 1;
    let cands: Vec<usize> = (0..g.rules.len()).filter(|i| g.rules[*i].lhs == n && !g.rules[*i].rhs.contains(&Sym::Err) && rule_cost(&g.rules[*i], cost) < 1_000_000).collect();
    if cands.is_empty() {
        return None;
    }
    let ix = if *left > 0 {
        *r.pick(&cands)
    } else {
        *cands.iter().min_by_key(|i| rule_cost(&g.rules[**i], cost)).unwrap()
    };
    let mut kids = vec![];
    for s in &g.rules[ix].rhs {
        match s {
            Sym::T(t) => {
                kids.push(Tree::Tok(*t, toks.len()));
                toks.push(*t);
            }
            Sym::N(x) => kids.push(derive_nt(g, r, cost, *x, toks, left, depth + 1)?),
            Sym::Err => unreachable!(),
        }
    }
    Some(Tree::Node(ix, kids))
}

/// Small change to a token sequence.
pub fn mutate(g: &Gram, r: &mut Rng, v: &mut Vec<usize>) {
    let nt = g.terms.len() - 1;
    for _ in 0..r.range(1, 3) {
        let t = r.range(1, nt);
        match r.below(5) {
            0 if !v.is_empty() => {
                let i = r.below(v.len());
                v.remove(i);
            }
            1 => {
                let i = r.below(v.len() + 1);
                v.insert(i, t);
            }
            2 if !v.is_empty() => {
                let i = r.below(v.len());
                v[i] = t;
            }
            3 if v.len() > 1 => {
                let i = r.below(v.len() - 1);
                v.swap(i, i + 1);
            }
            _ => {
                let i = r.below(v.len() + 1);
                v.truncate(i);
            }
        }
    }
}

pub fn random_tokens(g: &Gram, r: &mut Rng, max: usize) -> Vec<usize> {
    let n = r.below(max + 1);
    (0..n).map(|_| r.range(1, g.terms.len() - 1)).collect()
}

/// A text that lexes as these tokens.
pub fn render(g: &Gram, toks: &[usize], r: &mut Rng) -> String {
    let mut s = String::new();
    for t in toks {
        s.push_str(&g.terms[*t].sample);
        s.push_str(r.pick(&[" ", " ", "  ", "\n"]));
    }
    s
}

// ---------------------------------------------------------------- generators

/// Random small context free grammar (reduced).
pub fn random_cfg(r: &mut Rng) -> Gram {
    loop {
        let nn = r.range(1, 6);
        let nt = r.range(1, 6);
        let mut g = Gram::new(nt, nn);
        let eps = r.below(4);
        let ntbias = r.range(2, 6);
        for n in 0..nn {
            let k = r.range(1, 3);
            for _ in 0..k {
                let len = if r.chance(eps, 8) { 0 } else { r.range(1, 4) };
                let rhs = (0..len)
                    .map(|_| if r.chance(ntbias, 10) { Sym::N(r.below(nn)) } else { Sym::T(r.range(1, nt)) })
                    .collect::<Vec<_>>();
                if rhs == [Sym::N(n)] || g.rules.iter().any(|x| x.lhs == n && x.rhs == rhs) {
                    continue;
                }
                g.rule(n, rhs);
            }
        }
        if !g.rules.is_empty() && g.start() == 0 && reduced(&g) {
            return g;
        }
    }
}

/// Reads a compact notation: "S: A b | ; A: a" - upper case first letter = non terminal, %e = error.
pub fn parse_compact(src: &str) -> Gram {
    let mut names: Vec<String> = vec![];
    let mut toks: Vec<String> = vec![];
    let mut rules: Vec<(String, Vec<String>)> = vec![];
    for group in src.split(';') {
        let group = group.trim();
        if group.is_empty() {
            continue;
        }
        let (l, rest) = group.split_once(':').unwrap();
        for alt in rest.split('|') {
            rules.push((l.trim().to_string(), alt.split_whitespace().map(|x| x.to_string()).collect()));
        }
    }
    for (l, _) in &rules {
        if !names.contains(l) {
            names.push(l.clone());
        }
    }
    for (_, v) in &rules {
        for s in v {
            if s != "%e" && !names.contains(s) && !toks.contains(s) {
                toks.push(s.clone());
            }
        }
    }
    let mut g = Gram::new(toks.len(), names.len());
    for (i, t) in toks.iter().enumerate() {
        let t = t.replace("BAR", "|").replace("COLON", ":").replace("SEMI", ";");
        g.terms[i + 1].text = Text::Lit(t.clone());
        g.terms[i + 1].sample = t;
    }
    for (i, n) in names.iter().enumerate() {
        g.nts[i] = n.clone();
    }
    for (l, v) in rules {
        let lhs = names.iter().position(|x| *x == l).unwrap();
        let rhs = v
            .iter()
            .map(|s| {
                if s == "%e" {
                    Sym::Err
                } else if let Some(i) = names.iter().position(|x| x == s) {
                    Sym::N(i)
                } else {
                    Sym::T(toks.iter().position(|x| x == s).unwrap() + 1)
                }
            })
            .collect();
        g.rule(lhs, rhs);
    }
    g
}

/// Conflict-free grammars with something awkward about them.
pub const TRICKY: &[&str] = &[
    "S: L = R | R ; L: * R | id ; R: L",
    "S: A a | b A c | d c | b d a ; A: d",
    "S: a A d | b B d | a B e | b A e f ; A: c ; B: c g",
    "S: E ; E: E + T | T ; T: T * F | F ; F: ( E ) | id",
    "S: A B C D ; A: a | ; B: b | ; C: c | ; D: d |",
    "S: L ; L: | L a",
    "S: L ; L: | a L",
    "S: L ; L: X | L , X ; X: | x",
    "S: P Q ; P: p P | ; Q: q Q R | ; R: r |",
    "S: A ; A: B C d | e ; B: C | f ; C: A g | h |",
    "S: X Y ; X: Y z | ; Y: X w | v",
    "S: B L E ; B: begin ; E: end ; L: St | L SEMI St ; St: id := X | begin L end ; X: num | id",
    "S: ( S ) S | ",
    "S: A B ; A: a A | ; B: b B c | ",
    "S: N0 N1 N2 ; N0: N1 x | x ; N1: N2 y | y ; N2: z | z N2",
    "S: a b c d e f g h i j k l | a b c d e f g h i j k m n",
    "Json: V ; V: { Ms } | [ Es ] | str | num ; Ms: | Ms1 ; Ms1: M | Ms1 , M ; M: str COLON V ; Es: | Es1 ; Es1: V | Es1 , V",
    "S: T1 T1 T1 T1 T1 T1 T1 T1 T1 T1 T1 e ; T1: a | b",
    "S: C C ; C: c C | d",
    "S: a G d | b G e | c H d ; G: g K ; H: g M ; K: k | ; M: m |",
    "P: Ds Ss ; Ds: Ds D | ; D: var id SEMI ; Ss: Ss St | ; St: id = X SEMI | if X then Ss fi | while X do Ss od ; X: X + id | id | num",
    "S: A | B b ; A: a A c | a c ; B: x B x y | z",
    "S: U ; U: V V V ; V: W | v ; W: w W | w",
    "S: M ; M: M N o | N ; N: n | ( M )",
    "S: A x | B y ; A: C ; B: D ; C: p q C | p q r ; D: p D q | s",
    "Doc: Items ; Items: | Items Item ; Item: < name Attrs > Items </ name > | text ; Attrs: | Attrs name = str",
    "S: Opt S1 ; Opt: | o Opt ; S1: s | S1 s Tl ; Tl: | t Tl",
    "S: E SEMI | S E SEMI ; E: V ASG E | E1 ; E1: E1 + E2 | E2 ; E2: V | ( E ) | - E2 ; V: id | V [ E ]",
    "S: A A A ; A: a A b | c ",
    "S: a S a2 | b S b2 | c",
    "S: H T ; H: h | H ; T: t" ,
];

pub fn tricky(r: &mut Rng) -> Gram {
    parse_compact(TRICKY[r.below(TRICKY.len() - 1)])
}

/// Derive a variant of a grammar: nullable helpers, duplicated structure, renamed alternatives.
pub fn vary(r: &mut Rng, g: &mut Gram) {
    for _ in 0..r.range(1, 3) {
        match r.below(5) {
            0 => {
                // make some symbol optional through a new non terminal
                let cand: Vec<(usize, usize)> = (0..g.rules.len()).flat_map(|i| (0..g.rules[i].rhs.len()).map(move |j| (i, j))).collect();
                if let Some(&(i, j)) = (!cand.is_empty()).then(|| r.pick(&cand)) {
                    let n = g.nts.len();
                    let s = g.rules[i].rhs[j];
                    if s == Sym::Err {
                        continue;
                    }
                    g.nts.push(format!("O{n}"));
                    g.rules[i].rhs[j] = Sym::N(n);
                    g.rule(n, vec![]);
                    g.rule(n, vec![s]);
                }
            }
            1 => {
                // put a list in front of a symbol
                let i = r.below(g.rules.len());
                let j = r.below(g.rules[i].rhs.len() + 1);
                let n = g.nts.len();
                g.nts.push(format!("L{n}"));
                let t = r.range(1, g.terms.len() - 1);
                g.rules[i].rhs.insert(j, Sym::N(n));
                g.rule(n, vec![]);
                if r.chance(1, 2) {
                    g.rule(n, vec![Sym::N(n), Sym::T(t)]);
                } else {
                    g.rule(n, vec![Sym::T(t), Sym::N(n)]);
                }
            }
            2 => {
                // an extra alternative
                let i = r.below(g.nts.len());
                let len = r.range(1, 3);
                let nts = g.nts.len();
                let nt = g.terms.len() - 1;
                let rhs: Vec<Sym> = (0..len).map(|_| if r.chance(1, 2) { Sym::N(r.below(nts)) } else { Sym::T(r.range(1, nt)) }).collect();
                if rhs != [Sym::N(i)] && !g.rules.iter().any(|x| x.lhs == i && x.rhs == rhs) {
                    g.rule(i, rhs);
                }
            }
            3 => {
                // a new wrapping start
                let n = g.nts.len();
                let old = g.start();
                g.nts.push(format!("W{n}"));
                let t = r.range(1, g.terms.len() - 1);
                let rhs = match r.below(3) {
                    0 => vec![Sym::N(old)],
                    1 => vec![Sym::N(old), Sym::T(t)],
                    _ => vec![Sym::N(n), Sym::N(old)],
                };
                let rec = rhs[0] == Sym::N(n);
                g.rules.insert(0, Rule { lhs: n, rhs, prec: None, action: None, pred: None });
                if rec {
                    g.rule(n, vec![]);
                }
            }
            _ => {
                // drop an alternative
                let i = r.below(g.rules.len());
                if i > 0 && g.rules.iter().filter(|x| x.lhs == g.rules[i].lhs).count() > 1 {
                    g.rules.remove(i);
                }
            }
        }
    }
}

fn fresh_term(g: &mut Gram) -> Sym {
    let i = g.terms.len();
    let s = format!("z{i}z");
    g.terms.push(Term { name: format!("ZT{i}"), text: Text::Lit(s.clone()), sample: s });
    Sym::T(i)
}

/// Make some right hand sides long (ten symbols and more).
pub fn stretch(r: &mut Rng, g: &mut Gram) {
    for _ in 0..r.range(1, 2) {
        let i = r.below(g.rules.len());
        let want = r.range(9, 14);
        let f = if r.chance(1, 3) { (0..3).map(|_| fresh_term(g)).collect() } else { vec![fresh_term(g)] };
        while g.rules[i].rhs.len() < want {
            let j = r.below(g.rules[i].rhs.len() + 1);
            let run = r.range(1, 5);
            for _ in 0..run {
                let s = *r.pick(&f);
                g.rules[i].rhs.insert(j, s);
            }
        }
    }
}

/// Adds h's tokens (those of the same text may be shared) and rule names to g, and its rules to `rules`; its start.
fn embed(g: &mut Gram, h: &Gram, k: usize, shared: bool, rules: &mut Vec<Rule>) -> usize {
    let tm: Vec<usize> = h
        .terms
        .iter()
        .enumerate()
        .map(|(i, t)| {
            if i == 0 {
                return 0;
            }
            let text = if shared { t.sample.clone() } else { format!("{}{k}x", t.sample) };
            match g.terms.iter().position(|x| x.sample == text) {
                Some(j) => j,
                None => {
                    let n = g.terms.len();
                    g.terms.push(Term { name: format!("CT{n}"), text: Text::Lit(text.clone()), sample: text });
                    n
                }
            }
        })
        .collect();
    let off = g.nts.len();
    g.nts.extend(h.nts.iter().map(|n| format!("{n}_{k}")));
    for x in &h.rules {
        let rhs = x
            .rhs
            .iter()
            .map(|s| match s {
                Sym::T(t) => Sym::T(tm[*t]),
                Sym::N(n) => Sym::N(off + n),
                Sym::Err => Sym::Err,
            })
            .collect();
        rules.push(Rule { lhs: off + x.lhs, rhs, prec: None, action: None, pred: None });
    }
    off + h.start()
}


/// One grammar out of several, which share tokens of the same text.
pub fn compose(r: &mut Rng, v: Vec<Gram>) -> Gram {
    let mut g = Gram::new(0, 1);
    g.nts[0] = "Whole".into();
    let shared = r.chance(2, 3);
    let mut starts = vec![];
    let mut rules = vec![];
    for (k, h) in v.iter().enumerate() {
        if g.terms.len() + h.terms.len() > 90 {
            break;
        }
        let at = embed(&mut g, h, k, shared, &mut rules);
        starts.push(at);
    }
    match r.below(3) {
        0 => {
            // one of them, told by a leading token
            for s in &starts {
                let t = fresh_term(&mut g);
                g.rule(0, vec![t, Sym::N(*s)]);
            }
        }
        1 => {
            // all of them, separated
            let mut rhs = vec![];
            for s in &starts {
                rhs.push(Sym::N(*s));
                if r.chance(3, 4) {
                    rhs.push(fresh_term(&mut g));
                }
            }
            g.rule(0, rhs);
        }
        _ => {
            // each within brackets, nested through the first
            let mut rhs = vec![];
            for (i, s) in starts.iter().enumerate() {
                let (o, c) = (fresh_term(&mut g), fresh_term(&mut g));
                if i == 0 {
                    rhs = vec![Sym::N(*s)];
                } else {
                    g.rule(0, vec![o, Sym::N(*s), c, Sym::N(0)]);
                }
            }
            g.rule(0, rhs);
        }
    }
    g.rules.extend(rules);
    g
}

/// One simple shape repeated many times: look aheads that arrive late and often, many conflicts at one place, long
/// chains of rules, rows of rules that may be empty. `n` is about how many times.
pub fn repeated(r: &mut Rng, n: usize) -> Gram {
    let mut g = Gram::new(0, 1);
    let nt = |g: &mut Gram| {
        let n = g.nts.len();
        g.nts.push(format!("R{n}"));
        n
    };
    match r.below(8) {
        0 | 1 => {
            // the same parts in contexts that are found one after the other
            let levels = r.range(1, 4);
            let a = fresh_term(&mut g);
            let parts: Vec<usize> = (0..levels).map(|_| nt(&mut g)).collect();
            let n = n.min(60);
            let brackets = r.chance(1, 3);
            for i in 1..=n {
                let mut rhs = vec![a; i];
                rhs.push(Sym::N(parts[0]));
                rhs.push(fresh_term(&mut g));
                g.rule(0, rhs);
            }
            for k in 0..levels {
                let mut rhs = vec![fresh_term(&mut g)];
                if k + 1 < levels {
                    rhs.push(Sym::N(parts[k + 1]));
                }
                if k + 1 < levels && r.chance(1, 2) {
                    let t = fresh_term(&mut g);
                    g.rule(parts[k], vec![t]);
                }
                g.rule(parts[k], rhs);
            }
            if brackets {
                let (o, c) = (fresh_term(&mut g), fresh_term(&mut g));
                g.rule(parts[levels - 1], vec![o, Sym::N(0), c]);
            }
        }
        2 => {
            // operators without precedence
            let ops: Vec<Sym> = (0..n.min(12)).map(|_| fresh_term(&mut g)).collect();
            let x = fresh_term(&mut g);
            for o in &ops {
                g.rule(0, vec![Sym::N(0), *o, Sym::N(0)]);
            }
            g.rule(0, vec![x]);
        }
        3 | 7 => {
            // many tokens that can be shifted where a rule can be reduced
            let (t, o) = (nt(&mut g), nt(&mut g));
            let p = if r.chance(2, 3) { o } else { nt(&mut g) };
            let x = fresh_term(&mut g);
            let mut a = vec![vec![Sym::N(t), Sym::N(o)], vec![x, Sym::N(p)]];
            if r.chance(1, 2) {
                a.reverse();
            }
            for v in a {
                g.rule(0, v);
            }
            g.rule(t, vec![x]);
            for _ in 0..n {
                let y = fresh_term(&mut g);
                let both = r.chance(7, 8);
                g.rule(o, vec![y]);
                if both && p != o {
                    g.rule(p, vec![y]);
                }
            }
            if !g.rules.iter().any(|x| x.lhs == p) {
                g.rule(p, vec![x]);
            }
        }
        4 => {
            // many rules that can be reduced at one place
            let (x, y) = (fresh_term(&mut g), fresh_term(&mut g));
            let apart = r.chance(1, 2);
            for _ in 0..n.min(60) {
                let k = nt(&mut g);
                let z = if apart { fresh_term(&mut g) } else { y };
                g.rule(0, vec![Sym::N(k), z]);
                g.rule(k, vec![x]);
            }
        }
        5 => {
            // a long chain
            let (o, c, x) = (fresh_term(&mut g), fresh_term(&mut g), fresh_term(&mut g));
            let mut at = 0;
            let stepped = r.chance(1, 2);
            // (the tool's time grows with the fourth power)
            for _ in 0..n.min(if stepped { 30 } else { 120 }) {
                let k = nt(&mut g);
                g.rule(at, vec![Sym::N(k)]);
                if stepped && r.chance(1, 2) {
                    let z = fresh_term(&mut g);
                    g.rule(at, vec![z, Sym::N(k)]);
                }
                at = k;
            }
            g.rule(at, vec![x]);
            g.rule(at, vec![o, Sym::N(0), c]);
        }
        _ => {
            // a row of parts that may be left out
            let mut row = vec![];
            let n = n.min(24);
            for _ in 0..n {
                let k = nt(&mut g);
                g.rule(k, vec![]);
                let z = fresh_term(&mut g);
                let v = match r.below(3) {
                    0 => vec![Sym::N(k), z],
                    _ => vec![z],
                };
                g.rule(k, v);
                row.push(Sym::N(k));
            }
            if r.chance(1, 2) {
                row.push(fresh_term(&mut g));
            }
            let last = g.rules.len();
            g.rule(0, row);
            g.rules[..=last].rotate_right(1);
        }
    }
    if r.chance(1, 4) && g.rules.len() > 3 {
        let m = g.rules.len();
        // (the start symbol's rules stay at the front)
        let f = g.rules.iter().take_while(|x| x.lhs == 0).count();
        if f < m {
            let by = r.below(m - f);
            g.rules[f..].rotate_left(by);
        }
    }
    g
}

/// A grammar of more tokens, rules, symbols in a rule or states than a byte counts, made of small ones told apart by
/// brackets of their own. `fit` picks the small ones.
pub fn wide(r: &mut Rng, fit: &dyn Fn(&Gram, usize) -> bool) -> Gram {
    if r.chance(1, 3) {
        for _ in 0..20 {
            let n = r.range(60, 320);
            let g = repeated(r, n);
            if fit(&g, 4000) {
                return g;
            }
        }
    }
    let mut g = Gram::new(0, 1);
    g.nts[0] = "Whole".into();
    // tokens of their own make many tokens
    let shared = r.chance(1, 2);
    let list = r.chance(1, 2);
    let marks: Vec<Sym> = (0..9).map(|_| fresh_term(&mut g)).collect();
    let mut rules = vec![];
    if list {
        g.nts.push("Part".into());
        g.rule(0, vec![Sym::N(0), Sym::N(1)]);
        g.rule(0, vec![Sym::N(1)]);
    }
    let n = r.range(35, 70);
    for k in 0..n {
        let h = loop {
            let mut h = if r.chance(1, 2) { tricky(r) } else { random_cfg(r) };
            if r.chance(1, 3) {
                vary(r, &mut h);
            }
            if reduced(&h) && fit(&h, 60) {
                break h;
            }
        };
        if g.terms.len() + h.terms.len() + 4 > 370 || rules.len() > 900 {
            break;
        }
        let at = embed(&mut g, &h, k, shared, &mut rules);
        let (mut o, c) = if shared { (vec![marks[k / 8], marks[k % 8]], marks[8]) } else { (vec![fresh_term(&mut g)], fresh_term(&mut g)) };
        o.push(Sym::N(at));
        if list || r.chance(1, 2) {
            o.push(c);
        }
        g.rule(if list { 1 } else { 0 }, o);
    }
    if r.chance(1, 3) {
        let m = r.range(250, 300);
        let mut rhs = vec![marks[8], marks[8]];
        rhs.extend((0..m).map(|_| marks[r.below(8)]));
        g.rule(if list { 1 } else { 0 }, rhs);
    }
    g.rules.extend(rules);
    if list && r.chance(1, 2) {
        // the many first, the start symbol's rules stay at the front
        let n = g.rules.len();
        g.rules[2..n].rotate_left(n / 2);
    }
    g
}

/// Sprinkle precedence declarations, tags and %prec over a grammar.
pub fn add_precedences(r: &mut Rng, g: &mut Gram) {
    let nt = g.terms.len() - 1;
    let mut all: Vec<Tag> = (1..=nt).map(Tag::Term).collect();
    let ntags = r.below(3);
    for i in 0..ntags {
        all.push(Tag::Name(format!("tag{i}")));
    }
    r.shuffle(&mut all);
    let keep = r.range(0, all.len());
    all.truncate(keep.max(ntags.min(all.len())));
    let mut i = 0;
    while i < all.len() {
        let n = r.range(1, 3).min(all.len() - i);
        let a = *r.pick(&[Assoc::Left, Assoc::Right, Assoc::Non, Assoc::Left]);
        g.precs.push((a, all[i..i + n].to_vec()));
        i += n;
    }
    let tags = g.tags();
    if r.chance(1, 6) {
        spare_levels(r, g);
    }
    for ru in g.rules.iter_mut() {
        // %prec needs at least one symbol in front of it
        if !ru.rhs.is_empty() && r.chance(1, 4) {
            ru.prec = if !tags.is_empty() && r.chance(2, 3) { Some(Tag::Name(r.pick(&tags).clone())) } else { Some(Tag::Term(r.range(1, nt))) };
        }
    }
}

/// Levels of precedence that nothing uses, before and between the others.
pub fn spare_levels(r: &mut Rng, g: &mut Gram) {
    let n = match r.below(4) {
        0 => r.range(1, 5),
        1 => r.range(6, 70),
        2 => r.range(110, 140),
        _ => r.range(230, 300),
    };
    let mut at = 0;
    for i in 0..n {
        // most of them in a few heaps
        if r.chance(1, 12) {
            at = r.range(0, g.precs.len());
        }
        let a = *r.pick(&[Assoc::Left, Assoc::Right, Assoc::Non]);
        g.precs.insert(at, (a, vec![Tag::Name(format!("spare{i}"))]));
    }
}

/// Add rules that end in, or contain, %error.
pub fn add_errors(r: &mut Rng, g: &mut Gram) {
    let nt = g.terms.len() - 1;
    for _ in 0..r.range(1, 2) {
        let n = r.below(g.nts.len());
        let rhs = match r.below(8) {
            0..=3 => vec![Sym::Err],
            4 => vec![Sym::T(r.range(1, nt)), Sym::Err],
            5 => vec![Sym::N(n), Sym::Err],
            6 => vec![Sym::Err, Sym::T(r.range(1, nt))],
            _ => vec![Sym::T(r.range(1, nt)), Sym::Err, Sym::T(r.range(1, nt))],
        };
        if g.rules.iter().any(|x| x.lhs == n && x.rhs == rhs) {
            continue;
        }
        // keep groups of alternatives together
        let at = g.rules.iter().rposition(|x| x.lhs == n).unwrap() + 1;
        g.rules.insert(at, Rule { lhs: n, rhs, prec: None, action: None, pred: None });
    }
}

/// Statement-list languages with error rules as people write them.
pub const WITH_ERRORS: &[&str] = &[
    "Ls: | Ls Line ; Line: E SEMI | SEMI | %e ; E: E + T | T ; T: id | num | ( E )",
    "Ls: | Ls Line ; Line: E SEMI | %e SEMI ; E: E + T | T ; T: id | ( E )",
    "Ls: Line | Ls Line ; Line: E SEMI | %e ; E: id | E + id | ( E ) | ( %e )",
    "P: Bs ; Bs: | Bs B ; B: { Ss } | %e ; Ss: | Ss St ; St: id = X SEMI | B | %e SEMI ; X: id | num | X + num",
    "L: [ Es ] ; Es: Ev | Es , Ev ; Ev: num | %e",
    "S: A %e | A b ; A: a | A a",
    "S: if C then S fi | x | %e ; C: c | %e",
    "Ls: | Ls Line ; Line: a b c | a %e | %e",
    "Ls: | Ls Line ; Line: k F SEMI | F2 SEMI | %e ; F: x y | x %e ; F2: z",
    "S: Xs ; Xs: | Xs X ; X: a Y b | %e ; Y: c | d Y | %e",
];

// ---------------------------------------------------------------- layout

fn separator(r: &mut Rng, comments: bool) -> String {
    const WS: &[&str] = &[" ", "\n", "  ", "\t", "\r\n", " \n ", "\n\n", "\u{b}", "\u{c}", "\n    ", "\r", "\u{a0}", "\u{3000}", "\u{2028}"];
    const CM: &[&str] = &[
        "// comment\n", "/* c */", "/* two\n lines */", "/**/", "// with \" a quote\n", "/* %% %token X \"y\" */", "//\r\n", "// !{ %{ ?( ) . | :\n", "/* // */", "// /*\n", "/***/", "/* é λ 😀 */", "// é\n", "/* * / ** */", "// c\r", "/* \r */", "/* \r\n\r */", "// \u{2028} c\n", "/*/*/",
    ];
    let mut s = String::new();
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
        if comments && r.chance(1, 4) {
            s.push_str(r.pick(CM));
        } else {
            s.push_str(r.pick(WS));
        }
    }
    s
}

/// Join specification tokens with random white space and comments.
pub fn layout(r: &mut Rng, v: &[String]) -> String {
    let comments = r.chance(3, 4);
    let tight = r.chance(1, 2);
    let mut s = String::new();
    if r.chance(1, 3) {
        s.push_str(&separator(r, comments));
    }
    let punct = |t: &str| t == ":" || t == "|" || t == "." || t.starts_with('"') || t.starts_with("!{") || t.starts_with("?(");
    for (i, t) in v.iter().enumerate() {
        s.push_str(t);
        let next = v.get(i + 1).map(|x| x.as_str()).unwrap_or("");
        if t.starts_with('(') {
            s.push_str(r.pick(&["\n", "\r\n"]));
            if r.chance(1, 2) {
                s.push_str(&separator(r, comments));
            }
        } else if tight && (punct(t) || punct(next)) && r.chance(1, 2) && !(t == "%%" || next.is_empty()) {
            // nothing between
        } else {
            s.push_str(&separator(r, comments));
        }
    }
    s
}

/// The kinds of action the harness writes.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Flavour {
    /// no action: the value is the first value or the default
    None,
    /// $$ = node(..)
    Node,
    /// $$ = nodeb(.., &$$, ..)
    Before,
    /// an action that does not assign
    Touch,
    /// $$ = the value of this member (1 based), nothing recorded
    Copy(usize),
}

/// Writes the actions (by flavour) into the rules. Production ids are rule index + 1.
pub fn set_actions(g: &mut Gram, fl: &[Flavour], inject: bool, r: &mut Rng) {
    for (i, f) in fl.iter().enumerate() {
        let ru = &mut g.rules[i];
        let args: Vec<String> = (1..=ru.rhs.len()).map(|k| format!("&${k}")).collect();
        let args = args.join(", ");
        let p = i + 1;
        let inj = if inject { " for (s, l) in injections() { $INJECT(s, l); }" } else { "" };
        let body = match f {
            Flavour::None => {
                ru.action = None;
                continue;
            }
            Flavour::Node => format!("$$ = node({p}, &[{args}]);{inj}"),
            Flavour::Before => format!("$$ = nodeb({p}, &$$, &[{args}]);{inj}"),
            Flavour::Touch => format!("touch({p}, &[{args}]);{inj}"),
            Flavour::Copy(k) => format!("$$ = ${k}.clone();"),
        };
        // many references
        let body = if r.chance(1, 6) {
            let n = *r.pick(&[2, 5, 12, 40]);
            let refs: Vec<String> = (0..n).map(|_| if ru.rhs.is_empty() || r.chance(1, 8) { "&$$".to_string() } else { format!("&${}", r.range(1, ru.rhs.len())) }).collect();
            format!("let _ = [{}]; {body}", refs.join(", "))
        } else {
            body
        };
        ru.action = Some(match r.below(8) {
            6 => format!(" {body} // to the end"),
            7 => format!("// {{\n{body}\n// }}"),
            0 => format!("\n    {body}\n"),
            1 => format!(" // a comment\n {body} "),
            2 => body,
            3 => format!(" /* c */ if true {{ {body} }} "),
            _ => format!(" {body} "),
        });
    }
}

/// Preambles that all say the same.
pub fn same_preamble(r: &mut Rng, path: &str) -> String {
    match r.below(8) {
        0 => format!("use {path};"),
        1 => format!(" use {path}; // names"),
        2 => format!("\r\nuse {path};\r\n// names"),
        3 => format!("// names\nuse {path};/* and\nmore */"),
        4 => format!("\nuse {path};\n//"),
        _ => format!("\nuse {path};\n"),
    }
}

pub fn random_flavours(r: &mut Rng, g: &Gram) -> Vec<Flavour> {
    g.rules
        .iter()
        .map(|ru| match r.below(10) {
            0 => Flavour::None,
            1 => Flavour::Touch,
            2 if !ru.rhs.is_empty() => Flavour::Copy(r.range(1, ru.rhs.len())),
            3 | 4 => Flavour::Before,
            _ => Flavour::Node,
        })
        .collect()
}

//! Generators of lexicons and of texts to lex with them.
use crate::rng::Rng;

/// A small regular expression syntax tree: prints as a pattern and samples matching strings.
#[derive(Clone, Debug)]
pub enum Re {
    Ch(char),
    Class(Vec<char>, bool),
    Any,
    Seq(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, usize, Option<usize>, bool),
    Raw(&'static str, &'static [&'static str]),
}

pub const ALPHA: &[char] = &['a', 'b', 'c', 'A', '0', '1', '_', '+', '-', '.', '(', '"', '\'', '\\', '#', '{', '}', 'é', 'λ', '😀', ' ', '\t', '\n', '\r'];
const SMALL: &[char] = &['a', 'b', 'c', '0', '+', 'é', ' ', '\n'];

const RAWS: &[(&str, &[&str])] = &[
    ("[a-z]+", &["a", "abc", "zz"]),
    ("[A-Za-z_][A-Za-z0-9_]*", &["a", "A0", "_x1", "abc"]),
    ("[0-9]+", &["0", "10", "42"]),
    ("[0-9]+(\\.[0-9]+)?", &["0", "1.0", "10.25"]),
    ("\\w+", &["a", "é1", "λ"]),
    ("\\d*", &["", "0", "11"]),
    ("a|ab", &["a", "ab"]),
    ("ab|a", &["a", "ab"]),
    ("a*|b+", &["", "aa", "b"]),
    ("(?i)abc", &["abc", "ABC", "aBc"]),
    ("\"[^\"]*\"", &["\"\"", "\"a b\"", "\"a\nb\"", "\"é\""]),
    ("\"([^\"\\\\]|\\\\.)*\"", &["\"a\\\"b\"", "\"\""]),
    ("'.'", &["'a'", "'é'", "'😀'"]),
    ("\\S+", &["abc", "+-", "é"]),
    ("[^a-z\\s]+", &["0", "++", "É"]),
    (".", &["a", "é", "+"]),
    ("(?s).", &["a", "\n"]),
    ("\\p{L}+", &["é", "λa", "abc"]),
    ("(?:0|1)+b?", &["0", "01b", "11"]),
    ("x*", &["", "x", "xx"]),
    ("a+?", &["a"]),
    ("(a|b)*c", &["c", "abc", "bbac"]),
    ("\\(\\*(.|\\n)*?\\*\\)", &["(**)", "(* a\n*)"]),
];
pub const SKIPS: &[(&str, &[&str])] = &[
    ("\\s+", &[" ", "\n", "\r\n", " \t "]),
    ("[ \\t]+", &[" ", "\t"]),
    ("\\r?\\n", &["\n", "\r\n"]),
    ("[\\n\\r]", &["\n", "\r"]),
    ("//[^\\n\\r]*", &["//", "// a b"]),
    ("#.*", &["#", "#abc"]),
    ("(//[^\\n\\r]*[\\n\\r]*)|(\\s*)", &["// x\n", " "]),
    ("/\\*(.|\\n|\\r)*?\\*/", &["/**/", "/* a\n b */"]),
    ("-+", &["-", "---"]),
    ("( )*", &["", " "]),
    ("é", &["é"]),
    ("aa", &["aa"]),
    (" ", &[" "]),
];

impl Re {
    pub fn random(r: &mut Rng, depth: usize) -> Re {
        let k = if depth == 0 { r.below(3) } else { r.below(9) };
        match k {
            0 | 1 => Re::Ch(*r.pick(SMALL)),
            2 => {
                let n = r.range(1, 3);
                Re::Class((0..n).map(|_| *r.pick(SMALL)).collect(), r.chance(1, 4))
            }
            3 => Re::Any,
            4 | 5 => {
                let n = r.range(1, 3);
                Re::Seq((0..n).map(|_| Re::random(r, depth - 1)).collect())
            }
            6 => {
                let n = r.range(2, 3);
                Re::Alt((0..n).map(|_| Re::random(r, depth - 1)).collect())
            }
            _ => {
                let min = r.below(2);
                let max = if r.chance(1, 2) { None } else { Some(min + 1 + r.below(2)) };
                Re::Rep(Box::new(Re::random(r, depth - 1)), min, max, r.chance(1, 6))
            }
        }
    }
    pub fn raw(r: &mut Rng) -> Re {
        let (p, s) = *r.pick(RAWS);
        Re::Raw(p, s)
    }
    fn cls(c: char) -> String {
        match c {
            '\n' => "\\n".into(),
            '\r' => "\\r".into(),
            '\t' => "\\t".into(),
            '-' | '^' | '[' | ']' | '\\' | '&' | '~' => format!("\\{c}"),
            c => c.to_string(),
        }
    }
    pub fn print(&self, top: bool) -> String {
        match self {
            Re::Ch(c) => match c {
                '\n' => "\\n".into(),
                '\r' => "\\r".into(),
                '\t' => "\\t".into(),
                c => regex::escape(&c.to_string()),
            },
            Re::Class(v, neg) => format!("[{}{}]", if *neg { "^" } else { "" }, v.iter().map(|c| Re::cls(*c)).collect::<String>()),
            Re::Any => ".".into(),
            Re::Seq(v) => v.iter().map(|x| x.print(false)).collect(),
            Re::Alt(v) => {
                let s = v.iter().map(|x| x.print(false)).collect::<Vec<_>>().join("|");
                if top { s } else { format!("({s})") }
            }
            Re::Rep(x, min, max, lazy) => {
                let inner = match **x {
                    Re::Ch(_) | Re::Class(..) | Re::Any => x.print(false),
                    _ => format!("(?:{})", x.print(true)),
                };
                let q = match (min, max) {
                    (0, None) => "*".to_string(),
                    (1, None) => "+".to_string(),
                    (0, Some(1)) => "?".to_string(),
                    (a, None) => format!("{{{a},}}"),
                    (a, Some(b)) => format!("{{{a},{b}}}"),
                };
                format!("{inner}{q}{}", if *lazy { "?" } else { "" })
            }
            Re::Raw(p, _) => {
                if top || !p.contains('|') {
                    p.to_string()
                } else {
                    format!("(?:{p})")
                }
            }
        }
    }
    pub fn sample(&self, r: &mut Rng) -> String {
        match self {
            Re::Ch(c) => c.to_string(),
            Re::Class(v, neg) => {
                if *neg {
                    let c: Vec<char> = ALPHA.iter().copied().filter(|c| !v.contains(c)).collect();
                    r.pick(&c).to_string()
                } else {
                    r.pick(v).to_string()
                }
            }
            Re::Any => r.pick(&ALPHA[..20]).to_string(),
            Re::Seq(v) => v.iter().map(|x| x.sample(r)).collect(),
            Re::Alt(v) => r.pick(v).clone().sample(r),
            Re::Rep(x, min, max, _) => {
                let hi = max.unwrap_or(min + 3);
                let n = r.range(*min, hi);
                (0..n).map(|_| x.sample(r)).collect()
            }
            Re::Raw(_, s) => r.pick(s).to_string(),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Lexi {
    pub lits: Vec<(usize, String)>,
    pub res: Vec<(usize, String)>,
    pub skips: Vec<String>,
    /// example strings per token (index = tag), for building texts
    pub samples: Vec<Vec<String>>,
    pub skip_samples: Vec<String>,
}

pub fn random_literal(r: &mut Rng) -> String {
    const POOL: &[&str] = &[
        "if", "i", "iff", "in", "int", "a", "ab", "abc", "abcd", "aé", "b", "+", "++", "+=", "=", "==", "===", "=>", "-", "->", "--", "(", "((", ")", "{", "}", "[", "|", "||", "*", "**", ".", "..", "...",
        "\\", "\\n", "\"", "'", "#", "##", "é", "éé", "λ", "😀", "0", "01", "1.0", "<", "<=", "<<", "<<=", " ", "a b", "\n", "/", "//", "/*", "$", "^", "?", "a\nb", "\u{e9}\u{301}", "A", "AB", "_", "_a",
    ];
    if r.chance(2, 3) {
        r.pick(POOL).to_string()
    } else {
        let n = r.range(1, 4);
        (0..n).map(|_| *r.pick(ALPHA)).collect()
    }
}

pub fn lexicon(r: &mut Rng) -> Lexi {
    let mut lx = Lexi::default();
    let mut used: Vec<String> = vec![];
    let style = r.below(6);
    let nl = match style {
        0 => 0,
        1 if r.chance(1, 12) => r.range(60, 400),
        1 => r.range(10, 30),
        _ => r.range(1, 8),
    };
    let nr = match style {
        0 => r.range(1, 4),
        2 => 0,
        3 if r.chance(1, 60) => r.range(20, 90),
        _ => r.range(0, 5),
    };
    let ns = r.below(4);
    let mut tag = 0;
    let mut order: Vec<bool> = vec![];
    order.extend(std::iter::repeat_n(true, nl));
    order.extend(std::iter::repeat_n(false, nr));
    r.shuffle(&mut order);
    for is_lit in order {
        if is_lit {
            let mut s = random_literal(r);
            // favour overlapping literals: extend or cut an earlier one
            if !lx.lits.is_empty() && r.chance(1, 3) {
                let base = r.pick(&lx.lits).1.clone();
                if r.chance(1, 2) {
                    s = base + &s;
                } else {
                    let n = base.chars().count();
                    s = base.chars().take(r.range(1, n)).collect();
                }
            }
            if !s.is_empty() && r.chance(1, 150) {
                s = s.repeat(r.range(100, 400));
            }
            // (a matcher node per byte, made recursively)
            if s.len() > 1000 || s.is_empty() || used.contains(&s) {
                continue;
            }
            used.push(s.clone());
            lx.samples.push(vec![s.clone()]);
            lx.lits.push((tag, s));
        } else {
            let re = if r.chance(2, 5) { Re::raw(r) } else { Re::random(r, 3) };
            let p = re.print(true);
            if p.is_empty() || used.contains(&p) || regex::Regex::new(&p).is_err() {
                continue;
            }
            used.push(p.clone());
            lx.samples.push((0..4).map(|_| re.sample(r)).collect());
            lx.res.push((tag, p));
        }
        tag += 1;
    }
    for _ in 0..ns {
        let (p, s) = *r.pick(SKIPS);
        if used.iter().any(|u| u == p) {
            continue;
        }
        used.push(p.to_string());
        lx.skips.push(p.to_string());
        lx.skip_samples.extend(s.iter().map(|x| x.to_string()));
    }
    lx
}

pub fn text(r: &mut Rng, lx: &Lexi, max_parts: usize) -> String {
    let mut s = String::new();
    let style = r.below(8);
    let n = match style {
        0 => r.below(2),
        _ => r.range(1, max_parts.max(1)),
    };
    for _ in 0..n {
        let k = r.below(12);
        match k {
            0..=5 if !lx.samples.is_empty() => {
                let v = r.pick(&lx.samples).clone();
                s.push_str(r.pick(&v));
            }
            6 | 7 if !lx.skip_samples.is_empty() => s.push_str(&r.pick(&lx.skip_samples).clone()),
            8 => s.push_str(r.pick(&["\n", "\r\n", "\r", "\n\n", " \r\n\n", "\r\r\n", "\u{2028}", "\u{85}"])),
            9 => s.push(*r.pick(ALPHA)),
            10 if style > 4 => {
                let m = r.range(1, 6);
                for _ in 0..m {
                    s.push(*r.pick(ALPHA));
                }
            }
            11 => s.push_str(r.pick(&["日本", "§", "\u{0}", "\u{feff}", "~", "@", "ß", "\u{301}"])),
            _ => {
                if style % 2 == 0 {
                    s.push(' ');
                }
            }
        }
    }
    s
}

pub fn label(r: &mut Rng) -> String {
    if r.chance(2, 3) {
        return r.pick(&["", "file.txt", "a b", "tab\there", "\"q\"", "é:1", ":", "x"]).to_string();
    }
    // blanks anywhere, nothing but blanks included
    let n = r.range(1, 4);
    (0..n).map(|_| *r.pick(&[" ", "\t", "x", "é", "a.b", "\"", "\\", "/", ":3", "日"])).collect()
}

/// A text dominated by one piece repeated very often.
pub fn long_text(r: &mut Rng, lx: &Lexi, max: usize) -> String {
    let mut s = if r.chance(1, 2) { text(r, lx, 3) } else { String::new() };
    let piece = match r.below(4) {
        0 if !lx.skip_samples.is_empty() => r.pick(&lx.skip_samples).clone(),
        1 => r.pick(ALPHA).to_string(),
        _ => {
            let v = r.pick(&lx.samples).clone();
            r.pick(&v).clone()
        }
    };
    let last = match piece.chars().last() {
        Some(c) if r.chance(1, 2) => c.to_string(),
        _ => piece.clone(),
    };
    s.push_str(&piece);
    if !last.is_empty() {
        let n = r.range(250, max) / last.len();
        s.push_str(&last.repeat(n));
    }
    s.push_str(&text(r, lx, 3));
    s
}

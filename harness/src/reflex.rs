//! Reference lexer and token-stream model, written from the documented rules.
use regex::Regex;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Loc {
    pub label: String,
    pub line: usize,
    pub off: usize,
}

/// Position of byte offset `at` in `text`: 1-based line (LF ends a line) and 1-based byte offset.
pub fn locate(text: &str, at: usize, label: &str) -> Loc {
    let b = &text.as_bytes()[..at];
    let line = 1 + b.iter().filter(|c| **c == b'\n').count();
    let off = match b.iter().rposition(|c| *c == b'\n') {
        Some(p) => at - p,
        None => at + 1,
    };
    Loc { label: label.to_string(), line, off }
}

pub fn show_loc(l: &Loc) -> String {
    if l.label.is_empty() {
        format!("{}:{}", l.line, l.off)
    } else if l.label.contains(' ') || l.label.contains('\t') {
        format!("\"{}\":{}:{}", l.label, l.line, l.off)
    } else {
        format!("{}:{}:{}", l.label, l.line, l.off)
    }
}

/// One thing delivered by a token stream. Tags are indices chosen by the caller.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Tok(usize, String, Loc),
    Unexpected(String, Loc),
    Ambiguous(Vec<usize>, String, Loc),
    End(Loc),
    Empty(Loc),
}

impl Item {
    pub fn loc(&self) -> &Loc {
        match self {
            Item::Tok(_, _, l) | Item::Unexpected(_, l) | Item::Ambiguous(_, _, l) | Item::End(l) | Item::Empty(l) => l,
        }
    }
    pub fn text(&self) -> &str {
        match self {
            Item::Tok(_, t, _) | Item::Unexpected(t, _) | Item::Ambiguous(_, t, _) => t,
            _ => "",
        }
    }
}

pub struct RefLex {
    pub lits: Vec<(usize, String)>,
    pub res: Vec<(usize, Regex)>,
    pub skips: Vec<Regex>,
}

fn anch(p: &str) -> Regex {
    Regex::new(&format!("\\A(?:{p})")).expect("reference pattern")
}

impl RefLex {
    pub fn new(lits: &[(usize, String)], res: &[(usize, String)], skips: &[String]) -> RefLex {
        RefLex {
            lits: lits.to_vec(),
            res: res.iter().map(|(t, p)| (*t, anch(p))).collect(),
            skips: skips.iter().map(|p| anch(p)).collect(),
        }
    }
    pub fn skip_len(&self, s: &str) -> usize {
        self.skips.iter().filter_map(|r| r.find(s)).map(|m| m.end()).find(|n| *n > 0).unwrap_or(0)
    }
    fn best_lit(&self, s: &str) -> Option<(usize, usize)> {
        self.lits.iter().filter(|(_, l)| s.starts_with(l.as_str())).map(|(t, l)| (l.len(), *t)).max().map(|(n, t)| (t, n))
    }
    fn best_res(&self, s: &str) -> (Vec<usize>, usize) {
        let ends: Vec<(usize, usize)> = self.res.iter().filter_map(|(t, r)| r.find(s).map(|m| (*t, m.end()))).filter(|x| x.1 > 0).collect();
        let n = ends.iter().map(|x| x.1).max().unwrap_or(0);
        (ends.iter().filter(|x| x.1 == n).map(|x| x.0).collect(), n)
    }
    pub fn something_matches(&self, s: &str) -> bool {
        self.skip_len(s) > 0 || self.best_lit(s).is_some() || self.best_res(s).1 > 0
    }
    /// Whole tokenisation of a text: items plus the byte offset of each item's start.
    pub fn lex(&self, text: &str, label: &str) -> (Vec<(usize, Item)>, Loc) {
        let mut out = vec![];
        let mut at = 0;
        loop {
            while at < text.len() {
                let n = self.skip_len(&text[at..]);
                if n == 0 {
                    break;
                }
                at += n;
            }
            if at >= text.len() {
                return (out, locate(text, at, label));
            }
            let rest = &text[at..];
            let loc = locate(text, at, label);
            let lit = self.best_lit(rest);
            let (tags, n) = self.best_res(rest);
            let litn = lit.map(|l| l.1).unwrap_or(0);
            let len;
            let item;
            if n > litn && tags.len() > 1 {
                len = n;
                item = Item::Ambiguous(tags, rest[..n].to_string(), loc);
            } else if n > litn {
                len = n;
                item = Item::Tok(tags[0], rest[..n].to_string(), loc);
            } else if let Some((t, l)) = lit {
                len = l;
                item = Item::Tok(t, rest[..l].to_string(), loc);
            } else {
                len = rest.char_indices().map(|(i, _)| i).skip(1).find(|i| self.something_matches(&rest[*i..])).unwrap_or(rest.len());
                item = Item::Unexpected(rest[..len].to_string(), loc);
            }
            out.push((at, item));
            at += len;
        }
    }
}

/// Model of a token stream with injection.
pub struct RefStream<'a> {
    lex: &'a RefLex,
    stack: Vec<(Vec<Item>, usize, Loc)>,
    front: Item,
}

impl<'a> RefStream<'a> {
    pub fn new(lex: &'a RefLex, text: &str, label: &str) -> Self {
        let (items, end) = lex.lex(text, label);
        let items: Vec<Item> = items.into_iter().map(|x| x.1).collect();
        let front = items.first().cloned().unwrap_or(Item::End(end.clone()));
        let stack = if items.is_empty() { vec![] } else { vec![(items, 0, end)] };
        RefStream { lex, stack, front }
    }
    pub fn front(&self) -> &Item {
        &self.front
    }
    pub fn is_empty(&self) -> bool {
        self.stack.is_empty()
    }
    pub fn depth(&self) -> usize {
        self.stack.len()
    }
    pub fn inject(&mut self, text: &str, label: &str) {
        let (items, end) = self.lex.lex(text, label);
        let items: Vec<Item> = items.into_iter().map(|x| x.1).collect();
        if !items.is_empty() {
            self.front = items[0].clone();
            self.stack.push((items, 0, end));
        }
    }
    pub fn advance(&mut self) {
        if self.stack.is_empty() {
            self.front = Item::Empty(self.front.loc().clone());
            return;
        }
        self.stack.last_mut().unwrap().1 += 1;
        let mut end = None;
        while let Some((items, i, e)) = self.stack.last() {
            if *i < items.len() {
                self.front = items[*i].clone();
                return;
            }
            end = Some(e.clone());
            self.stack.pop();
        }
        self.front = Item::End(end.unwrap());
    }
}

//! Glue between the reference model's vocabulary and lexan's types.
use crate::reflex::{Item, Loc};
use std::fmt::{Debug, Display};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Tg(pub u16);
impl Display for Tg {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "t{}", self.0)
    }
}
pub const END: Tg = Tg(9999);

pub fn loc(l: &lexan::Location) -> Loc {
    Loc { label: l.label().clone(), line: l.line_number(), off: l.offset() }
}

/// Convert a front() result; `ix` maps tags to indices (None = the end marker).
pub fn item<T: Copy + Eq + Ord + Debug + Display>(r: &Result<lexan::Token<T>, lexan::Error<T>>, ix: &dyn Fn(&T) -> Option<usize>) -> Item {
    match r {
        Ok(t) => match ix(t.tag()) {
            Some(i) => Item::Tok(i, t.lexeme().clone(), loc(t.location())),
            None => {
                if t.lexeme().is_empty() {
                    Item::End(loc(t.location()))
                } else {
                    Item::Tok(usize::MAX, t.lexeme().clone(), loc(t.location()))
                }
            }
        },
        Err(e) => lex_error(e, ix),
    }
}

pub fn lex_error<T: Copy + Eq + Ord + Debug + Display>(e: &lexan::Error<T>, ix: &dyn Fn(&T) -> Option<usize>) -> Item {
    match e {
        lexan::Error::UnexpectedText(s, l) => Item::Unexpected(s.clone(), loc(l)),
        // lexan does not export the list type's name but its field is public
        lexan::Error::AmbiguousMatches(v, s, l) => {
            let mut tags: Vec<usize> = v.0.iter().map(|t| ix(t).unwrap_or(usize::MAX)).collect();
            tags.sort();
            Item::Ambiguous(tags, s.clone(), loc(l))
        }
        lexan::Error::AdvancedWhenEmpty(l) => Item::Empty(loc(l)),
    }
}

pub fn tg_ix(t: &Tg) -> Option<usize> {
    if *t == END { None } else { Some(t.0 as usize) }
}

pub type An = lexan::LexicalAnalyzer<Tg>;

pub fn analyzer(lits: &[(usize, String)], res: &[(usize, String)], skips: &[String]) -> An {
    let l: Vec<(Tg, &str)> = lits.iter().map(|(t, s)| (Tg(*t as u16), s.as_str())).collect();
    let r: Vec<(Tg, &str)> = res.iter().map(|(t, s)| (Tg(*t as u16), s.as_str())).collect();
    let s: Vec<&str> = skips.iter().map(|s| s.as_str()).collect();
    An::new(&l, &r, &s, END)
}

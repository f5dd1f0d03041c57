//! Earley recogniser: is this a sentence, and if not which token is the first that no sentence can have there.
use crate::gram::{Gram, Sym, nullable};
use std::collections::HashSet;

/// Ok(()) or Err(index of the first impossible token; tokens.len() for the end).
pub fn check(g: &Gram, toks: &[usize]) -> Result<(), usize> {
    let null = nullable(g);
    let start = g.start();
    // (rule, dot, origin)
    let mut sets: Vec<Vec<(usize, usize, usize)>> = vec![];
    let mut seen: Vec<HashSet<(usize, usize, usize)>> = vec![];
    let mut first: Vec<(usize, usize, usize)> = (0..g.rules.len()).filter(|i| g.rules[*i].lhs == start).map(|i| (i, 0, 0)).collect();
    for k in 0..=toks.len() {
        let mut set = std::mem::take(&mut first);
        if set.is_empty() {
            return Err(k - 1);
        }
        let mut has: HashSet<(usize, usize, usize)> = set.iter().copied().collect();
        let mut i = 0;
        while i < set.len() {
            let (r, d, o) = set[i];
            i += 1;
            match g.rules[r].rhs.get(d) {
                None => {
                    let lhs = g.rules[r].lhs;
                    let from: Vec<(usize, usize, usize)> = if o == k { set.clone() } else { sets[o].clone() };
                    for (r2, d2, o2) in from {
                        if g.rules[r2].rhs.get(d2) == Some(&Sym::N(lhs)) && has.insert((r2, d2 + 1, o2)) {
                            set.push((r2, d2 + 1, o2));
                        }
                    }
                }
                Some(Sym::N(n)) => {
                    for r2 in 0..g.rules.len() {
                        if g.rules[r2].lhs == *n && has.insert((r2, 0, k)) {
                            set.push((r2, 0, k));
                        }
                    }
                    if null[*n] && has.insert((r, d + 1, o)) {
                        set.push((r, d + 1, o));
                    }
                }
                Some(Sym::T(t)) => {
                    if k < toks.len() && toks[k] == *t {
                        first.push((r, d + 1, o));
                    }
                }
                Some(Sym::Err) => {}
            }
        }
        sets.push(set);
        seen.push(has);
    }
    let last = sets.last().unwrap();
    if last.iter().any(|(r, d, o)| *o == 0 && g.rules[*r].lhs == start && *d == g.rules[*r].rhs.len()) { Ok(()) } else { Err(toks.len()) }
}

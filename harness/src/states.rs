//! Reading the report (.states) that accompanies a generated parser.
use crate::gram::{Gram, Text};
use crate::refdrv::Act;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default)]
pub struct RState {
    /// item text (production with a dot) and its look-ahead
    pub items: Vec<(String, BTreeSet<usize>)>,
    pub shifts: BTreeMap<usize, u32>,
    /// tokens, production text, accept?
    pub reds: Vec<(BTreeSet<usize>, String, bool)>,
    pub gotos: BTreeMap<String, u32>,
    pub recovery: Option<(u32, BTreeSet<usize>)>,
    /// (token, target, production text)
    pub sr: Vec<(usize, u32, String)>,
    /// intersections
    pub rr: Vec<(BTreeSet<usize>, String, String)>,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    /// name, text, attributes
    pub tokens: Vec<(String, String, String)>,
    pub tags: Vec<(String, String)>,
    pub nts: Vec<(String, BTreeSet<usize>, bool)>,
    pub prods: Vec<String>,
    pub states: Vec<RState>,
}

/// How tokens are shown.
pub struct Vocab {
    pub shown: Vec<String>,
}
impl Vocab {
    pub fn new(g: &Gram) -> Vocab {
        Vocab {
            shown: g
                .terms
                .iter()
                .enumerate()
                .map(|(i, t)| match &t.text {
                    _ if i == 0 => "AAEnd".to_string(),
                    Text::Lit(s) => format!("\"{s}\""),
                    Text::Re(_) => t.name.clone(),
                })
                .collect(),
        }
    }
    /// The token `s` starts with (longest), and what follows.
    fn eat<'a>(&self, s: &'a str) -> Option<(usize, &'a str)> {
        let (i, w) = self.shown.iter().enumerate().filter(|(_, w)| s.starts_with(w.as_str())).max_by_key(|(_, w)| w.len())?;
        Some((i, &s[w.len()..]))
    }
    fn list<'a>(&self, mut s: &'a str, sep: &str) -> Option<(BTreeSet<usize>, &'a str)> {
        let mut v = BTreeSet::new();
        loop {
            let (i, rest) = self.eat(s)?;
            v.insert(i);
            match rest.strip_prefix(sep) {
                Some(x) => s = x,
                None => return Some((v, rest)),
            }
        }
    }
    /// TokenSet{..}
    pub fn set<'a>(&self, s: &'a str) -> Option<(BTreeSet<usize>, &'a str)> {
        let s = s.strip_prefix("TokenSet{")?;
        if let Some(rest) = s.strip_prefix('}') {
            return Some((BTreeSet::new(), rest));
        }
        let (v, rest) = self.list(s, ", ")?;
        Some((v, rest.strip_prefix('}')?))
    }
}

fn state_ref(s: &str) -> Option<u32> {
    s.strip_prefix("State<")?.strip_suffix('>')?.parse().ok()
}

pub fn parse(text: &str, g: &Gram) -> Result<Report, String> {
    parse_states(text, g, true)
}

/// `all`: every state is there, in order. Otherwise only some of them are.
pub fn parse_states(text: &str, g: &Gram, all: bool) -> Result<Report, String> {
    let vo = Vocab::new(g);
    let mut r = Report::default();
    let mut sec = "";
    let mut lines = text.lines().peekable();
    let bad = |l: &str, why: &str| format!("{why}: {l:?}");
    while let Some(l) = lines.next() {
        if l.trim().is_empty() {
            continue;
        }
        // a state's header may follow a conflict list without an empty line
        if let Some(x) = l.strip_prefix("State<") {
            let n: usize = x.trim_end_matches(">:").parse().map_err(|_| bad(l, "state header"))?;
            if all && n != r.states.len() {
                return Err(bad(l, "states out of order"));
            }
            r.states.push(RState::default());
            sec = "state";
            continue;
        }
        match l {
            "Symbols:" => continue,
            "  Tokens:" => {
                sec = "tokens";
                continue;
            }
            "  Tags:" => {
                sec = "tags";
                continue;
            }
            "  Non Terminal Symbols:" => {
                sec = "nts";
                continue;
            }
            "Productions:" => {
                sec = "prods";
                continue;
            }
            "  Grammar Items:" => {
                sec = "items";
                continue;
            }
            "  Parser Action Table:" => {
                sec = "actions";
                continue;
            }
            "    Shifts:" => {
                sec = "shifts";
                continue;
            }
            "    Reductions:" => {
                sec = "reds";
                continue;
            }
            "  Go To Table:" => {
                sec = "gotos";
                continue;
            }
            "  Error Recovery State: <none>" => {
                sec = "after";
                continue;
            }
            "  Reduce/Reduce Conflicts:" => {
                sec = "rr";
                continue;
            }
            "  Shift/Reduce Conflicts:" => {
                // entries may run into each other; take the whole section apart
                let mut s = String::new();
                while let Some(n) = lines.peek() {
                    if n.starts_with("State<") || *n == "  Reduce/Reduce Conflicts:" {
                        break;
                    }
                    // the next section's header may follow on the same line
                    s.push_str(lines.next().unwrap());
                    s.push('\n');
                    if s.trim_end().ends_with("  Reduce/Reduce Conflicts:") {
                        let cut = s.trim_end().len() - "  Reduce/Reduce Conflicts:".len();
                        s.truncate(cut);
                        sec = "rr";
                        break;
                    }
                }
                let parts: Vec<&str> = s.split(":\n      shift -> ").collect();
                for i in 1..parts.len() {
                    let head = parts[i - 1];
                    let t = (0..vo.shown.len())
                        .filter(|t| head.ends_with(&format!("    {}", vo.shown[*t])))
                        .max_by_key(|t| vo.shown[*t].len())
                        .ok_or_else(|| bad(head, "conflict token"))?;
                    let (st, rest) = parts[i].split_once('\n').ok_or_else(|| bad(parts[i], "conflict"))?;
                    let st = state_ref(st).ok_or_else(|| bad(st, "conflict target"))?;
                    let red = rest.trim_start().strip_prefix("reduce ").ok_or_else(|| bad(rest, "conflict rule"))?;
                    let cut = red.find(": TokenSet{").ok_or_else(|| bad(red, "conflict set"))?;
                    r.states.last_mut().ok_or("no state")?.sr.push((t, st, red[..cut].to_string()));
                }
                continue;
            }
            _ => {}
        }
        if let Some(x) = l.strip_prefix("  Error Recovery State: ") {
            let n = state_ref(x).ok_or_else(|| bad(l, "recovery state"))?;
            let la = lines.next().unwrap_or("");
            let s = la.strip_prefix("    Look Ahead: ").ok_or_else(|| bad(la, "recovery look ahead"))?;
            let (v, _) = vo.set(s).ok_or_else(|| bad(la, "recovery look ahead"))?;
            r.states.last_mut().ok_or("no state")?.recovery = Some((n, v));
            sec = "after";
            continue;
        }
        match sec {
            "tokens" => {
                let (a, at) = l.trim_start().rsplit_once(": #").ok_or_else(|| bad(l, "token"))?;
                let (n, t) = a.split_once('(').ok_or_else(|| bad(l, "token"))?;
                r.tokens.push((n.into(), t.strip_suffix(')').ok_or_else(|| bad(l, "token"))?.into(), at.into()));
            }
            "tags" => {
                let (a, at) = l.trim_start().rsplit_once(": #").ok_or_else(|| bad(l, "tag"))?;
                r.tags.push((a.into(), at.into()));
            }
            "nts" => {
                let (a, x) = l.trim_start().split_once(": ").ok_or_else(|| bad(l, "non terminal"))?;
                let (v, rest) = vo.set(x).ok_or_else(|| bad(l, "first set"))?;
                r.nts.push((a.into(), v, rest == ":(true)"));
            }
            "prods" => r.prods.push(l.strip_prefix("  ").unwrap_or(l).to_string()),
            "items" => {
                let s = l.trim_start();
                let cut = s.rfind(": TokenSet{").ok_or_else(|| bad(l, "item"))?;
                let (v, _) = vo.set(&s[cut + 2..]).ok_or_else(|| bad(l, "item look ahead"))?;
                r.states.last_mut().ok_or("no state")?.items.push((s[..cut].to_string(), v));
            }
            "actions" | "gotos" if l.trim() == "<empty>" => {}
            "shifts" => {
                let (t, rest) = vo.eat(l.trim_start()).ok_or_else(|| bad(l, "shift"))?;
                let n = rest.strip_prefix(" -> ").and_then(state_ref).ok_or_else(|| bad(l, "shift"))?;
                if r.states.last_mut().ok_or("no state")?.shifts.insert(t, n).is_some() {
                    return Err(bad(l, "token shifted twice"));
                }
            }
            "reds" => {
                let (v, rest) = vo.list(l.trim_start(), " | ").ok_or_else(|| bad(l, "reduction"))?;
                let (text, acc) = if let Some(x) = rest.strip_prefix(": reduce ") {
                    (x, false)
                } else if let Some(x) = rest.strip_prefix(": accept ") {
                    (x, true)
                } else {
                    return Err(bad(l, "reduction"));
                };
                r.states.last_mut().ok_or("no state")?.reds.push((v, text.to_string(), acc));
            }
            "gotos" => {
                let (n, s) = l.trim_start().split_once(" -> ").ok_or_else(|| bad(l, "goto"))?;
                r.states.last_mut().ok_or("no state")?.gotos.insert(n.into(), state_ref(s).ok_or_else(|| bad(l, "goto"))?);
            }
            "rr" => {
                let (v, _) = vo.set(l.trim_start()).ok_or_else(|| bad(l, "reduce/reduce conflict"))?;
                let mut two = vec![];
                for _ in 0..2 {
                    let x = lines.next().unwrap_or("");
                    let x = x.trim_start().strip_prefix("reduce ").ok_or_else(|| bad(x, "conflicting rule"))?;
                    let cut = x.rfind(" : TokenSet{").ok_or_else(|| bad(x, "conflicting rule"))?;
                    two.push(x[..cut].to_string());
                }
                let b = two.pop().unwrap();
                let a = two.pop().unwrap();
                r.states.last_mut().ok_or("no state")?.rr.push((v, a, b));
            }
            _ => return Err(bad(l, "unexpected line")),
        }
    }
    Ok(r)
}

impl Report {
    /// Indices of the productions with this text.
    pub fn prod_ids(&self, text: &str) -> Vec<u32> {
        self.prods.iter().enumerate().filter(|(_, p)| p.as_str() == text).map(|x| x.0 as u32).collect()
    }
    pub fn prod_has_pred(&self, id: u32) -> bool {
        self.prods[id as usize].ends_with("?)")
    }
    /// The action on a token, as far as the report says (None: it is contradictory).
    pub fn act(&self, s: u32, t: usize) -> Option<Act> {
        let st = self.states.get(s as usize)?;
        let mut reds: Vec<(u32, bool)> = vec![];
        for (v, text, acc) in &st.reds {
            if v.contains(&t) {
                let ids = self.prod_ids(text);
                if ids.len() != 1 {
                    return None;
                }
                reds.push((ids[0], *acc));
            }
        }
        if let Some(n) = st.shifts.get(&t) {
            return if reds.is_empty() { Some(Act::Shift(*n)) } else { None };
        }
        match reds.len() {
            0 => Some(Act::Error),
            1 if !self.prod_has_pred(reds[0].0) => Some(if reds[0].1 { Act::Accept } else { Act::Reduce(reds[0].0) }),
            _ => {
                let guarded: Vec<u32> = reds.iter().map(|x| x.0).filter(|p| self.prod_has_pred(*p)).collect();
                let last: Vec<u32> = reds.iter().map(|x| x.0).filter(|p| !self.prod_has_pred(*p)).collect();
                if last.len() > 1 {
                    return None;
                }
                Some(Act::Chain(guarded, last.first().copied()))
            }
        }
    }
}

//! Reference LALR(1) construction: canonical LR(1) item sets merged by core, then conflict resolution by the
//! documented rules. Deliberately naive.
use crate::gram::{Assoc, Gram, Sym};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// A set of tokens.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct Bits([u64; Bits::WORDS]);
impl Bits {
    const WORDS: usize = 6;
    pub const MAX: usize = 64 * Bits::WORDS;
    pub const NONE: Bits = Bits([0; Bits::WORDS]);
    pub fn of(t: usize) -> Bits {
        let mut b = Bits::NONE;
        b.add(t);
        b
    }
    pub fn has(&self, t: usize) -> bool {
        self.0[t / 64] >> (t % 64) & 1 == 1
    }
    pub fn add(&mut self, t: usize) {
        self.0[t / 64] |= 1 << (t % 64);
    }
    pub fn remove(&mut self, o: &Bits) {
        self.0.iter_mut().zip(o.0).for_each(|(a, b)| *a &= !b);
    }
    pub fn is_empty(&self) -> bool {
        *self == Bits::NONE
    }
    pub fn and(mut self, o: &Bits) -> Bits {
        self.0.iter_mut().zip(o.0).for_each(|(a, b)| *a &= b);
        self
    }
}
impl std::ops::BitOrAssign<&Bits> for Bits {
    fn bitor_assign(&mut self, o: &Bits) {
        self.0.iter_mut().zip(o.0).for_each(|(a, b)| *a |= b);
    }
}
impl std::ops::BitOrAssign for Bits {
    fn bitor_assign(&mut self, o: Bits) {
        *self |= &o;
    }
}

#[derive(Clone, Debug)]
pub struct Prod {
    pub lhs: usize,
    pub rhs: Vec<Sym>,
    pub assoc: Assoc,
    pub prec: u32,
    pub pred: bool,
}

/// Productions as the generators number them.
#[derive(Clone, Debug)]
pub struct Prods {
    pub v: Vec<Prod>,
    pub nts: Vec<String>,
    pub start_nt: usize,
    pub err_nt: usize,
    pub nterms: usize,
    pub has_err: bool,
}

pub fn prods(g: &Gram) -> Prods {
    let n = g.nts.len();
    let mut nts = g.nts.clone();
    nts.push("AAStart".into());
    nts.push("AAError".into());
    let mut v = vec![Prod { lhs: n, rhs: vec![Sym::N(g.start())], assoc: Assoc::Non, prec: 0, pred: false }];
    for r in &g.rules {
        let (assoc, prec) = g.rule_prec(r);
        v.push(Prod {
            lhs: r.lhs,
            rhs: r.rhs.iter().map(|s| if *s == Sym::Err { Sym::N(n + 1) } else { *s }).collect(),
            assoc,
            prec,
            pred: r.pred.is_some(),
        });
    }
    let has_err = g.uses_error();
    if has_err {
        v.push(Prod { lhs: n + 1, rhs: vec![], assoc: Assoc::Non, prec: 0, pred: false });
    }
    Prods { v, nts, start_nt: n, err_nt: n + 1, nterms: g.terms.len(), has_err }
}

impl Prods {
    pub fn error_tail(&self, p: usize) -> bool {
        self.v[p].rhs.last() == Some(&Sym::N(self.err_nt))
    }
}

type Item = (usize, usize);

#[derive(Clone, Debug, Default)]
pub struct State {
    /// all items (kernel and closure) with LALR(1) look-aheads, before resolution
    pub items: BTreeMap<Item, Bits>,
    pub shifts: BTreeMap<usize, usize>,
    pub gotos: BTreeMap<usize, usize>,
    // after resolution
    pub red: BTreeMap<usize, Bits>,
    pub rshifts: BTreeMap<usize, usize>,
    pub sr: Vec<(usize, usize)>,
    pub rr: Vec<(usize, usize, Bits)>,
    /// pairs decided without leaving a conflict
    pub silent: usize,
}

#[derive(Clone, Debug)]
pub struct Auto {
    pub p: Prods,
    pub states: Vec<State>,
    pub lr1_states: usize,
}

struct First {
    nullable: Vec<bool>,
    first: Vec<Bits>,
    rules_of: Vec<Vec<usize>>,
}

fn firsts(p: &Prods) -> First {
    let n = p.nts.len();
    let mut f = First { nullable: vec![false; n], first: vec![Bits::NONE; n], rules_of: vec![vec![]; n] };
    for (i, pr) in p.v.iter().enumerate() {
        f.rules_of[pr.lhs].push(i);
    }
    loop {
        let mut ch = false;
        for pr in &p.v {
            let mut all = true;
            let mut set = Bits::NONE;
            for s in &pr.rhs {
                match s {
                    Sym::T(t) => {
                        set.add(*t);
                        all = false;
                    }
                    Sym::N(x) => {
                        set |= f.first[*x];
                        all = f.nullable[*x];
                    }
                    Sym::Err => unreachable!(),
                }
                if !all {
                    break;
                }
            }
            let mut more = f.first[pr.lhs];
            more |= set;
            if more != f.first[pr.lhs] || (all && !f.nullable[pr.lhs]) {
                f.first[pr.lhs] = more;
                f.nullable[pr.lhs] |= all;
                ch = true;
            }
        }
        if !ch {
            return f;
        }
    }
}

fn closure(p: &Prods, f: &First, kernel: &BTreeMap<Item, Bits>) -> BTreeMap<Item, Bits> {
    let mut m = kernel.clone();
    let mut todo: Vec<Item> = m.keys().copied().collect();
    while let Some(it) = todo.pop() {
        let la = m[&it];
        let pr = &p.v[it.0];
        let Some(Sym::N(n)) = pr.rhs.get(it.1) else { continue };
        let mut set = Bits::NONE;
        let mut all = true;
        for s in &pr.rhs[it.1 + 1..] {
            match s {
                Sym::T(t) => {
                    set.add(*t);
                    all = false;
                }
                Sym::N(x) => {
                    set |= f.first[*x];
                    all = f.nullable[*x];
                }
                Sym::Err => unreachable!(),
            }
            if !all {
                break;
            }
        }
        if all {
            set |= la;
        }
        for i in &f.rules_of[*n] {
            let mut fresh = false;
            let e = m.entry((*i, 0)).or_insert_with(|| {
                fresh = true;
                Bits::NONE
            });
            let before = *e;
            *e |= set;
            if *e != before || fresh {
                todo.push((*i, 0));
            }
        }
    }
    m
}

/// None if the canonical automaton has more than `cap` states.
pub fn build(g: &Gram, aug: bool, cap: usize) -> Option<Auto> {
    let p = prods(g);
    assert!(p.nterms <= Bits::MAX);
    let f = firsts(&p);
    // canonical LR(1)
    let k0: BTreeMap<Item, Bits> = [((0usize, 0usize), Bits::of(0))].into_iter().collect();
    let mut index: HashMap<Vec<(Item, Bits)>, usize> = HashMap::new();
    let mut kernels = vec![k0.clone()];
    let mut closures: Vec<BTreeMap<Item, Bits>> = vec![];
    let mut trans: Vec<BTreeMap<Sym, usize>> = vec![];
    index.insert(k0.into_iter().collect(), 0);
    let mut i = 0;
    while i < kernels.len() {
        let c = closure(&p, &f, &kernels[i]);
        let mut next: BTreeMap<Sym, BTreeMap<Item, Bits>> = BTreeMap::new();
        for ((pr, d), la) in &c {
            if let Some(s) = p.v[*pr].rhs.get(*d) {
                *next.entry(*s).or_default().entry((*pr, d + 1)).or_insert(Bits::NONE) |= la;
            }
        }
        let mut t = BTreeMap::new();
        for (s, k) in next {
            let key: Vec<(Item, Bits)> = k.iter().map(|(a, b)| (*a, *b)).collect();
            let n = match index.get(&key) {
                Some(n) => *n,
                None => {
                    let n = kernels.len();
                    if n >= cap {
                        return None;
                    }
                    index.insert(key, n);
                    kernels.push(k);
                    n
                }
            };
            t.insert(s, n);
        }
        trans.push(t);
        closures.push(c);
        i += 1;
    }
    // merge by core
    let mut core_ix: HashMap<Vec<Item>, usize> = HashMap::new();
    let mut of: Vec<usize> = vec![];
    let mut states: Vec<State> = vec![];
    for k in &kernels {
        let key: Vec<Item> = k.keys().copied().collect();
        let n = *core_ix.entry(key).or_insert_with(|| {
            states.push(State::default());
            states.len() - 1
        });
        of.push(n);
    }
    for (i, c) in closures.iter().enumerate() {
        let st = &mut states[of[i]];
        for (it, la) in c {
            *st.items.entry(*it).or_insert(Bits::NONE) |= la;
        }
        for (s, n) in &trans[i] {
            match s {
                Sym::T(t) => {
                    st.shifts.insert(*t, of[*n]);
                }
                Sym::N(x) => {
                    st.gotos.insert(*x, of[*n]);
                }
                Sym::Err => unreachable!(),
            }
        }
    }
    let mut a = Auto { lr1_states: kernels.len(), p, states };
    a.resolve(g, aug);
    Some(a)
}

impl Auto {
    fn resolve(&mut self, g: &Gram, aug: bool) {
        let p = self.p.clone();
        for st in self.states.iter_mut() {
            st.red = st.items.iter().filter(|((pr, d), _)| *d == p.v[*pr].rhs.len()).map(|((pr, _), la)| (*pr, *la)).collect();
            st.rshifts = st.shifts.clone();
            // shift/reduce: every (token, rule) pair on its own merits
            let before = st.red.clone();
            for t in st.shifts.keys() {
                let (_, tp) = g.tag_prec(&crate::gram::Tag::Term(*t));
                for (pr, la) in &before {
                    if !la.has(*t) {
                        continue;
                    }
                    let q = &p.v[*pr];
                    if tp < q.prec || (tp == q.prec && q.assoc == Assoc::Left) {
                        st.rshifts.remove(t);
                        st.silent += 1;
                    } else {
                        st.red.get_mut(pr).unwrap().remove(&Bits::of(*t));
                        if tp == q.prec && !p.error_tail(*pr) && q.assoc != Assoc::Right {
                            st.sr.push((*t, *pr));
                        } else {
                            st.silent += 1;
                        }
                    }
                }
            }
            // reduce/reduce
            let ids: Vec<usize> = st.red.keys().copied().collect();
            for (i, a) in ids.iter().enumerate() {
                for b in &ids[i + 1..] {
                    let inter = st.red[a].and(&st.red[b]);
                    if inter.is_empty() || (aug && p.v[*a].pred) {
                        continue;
                    }
                    if p.error_tail(*a) {
                        st.red.get_mut(a).unwrap().remove(&inter);
                        st.silent += 1;
                    } else {
                        st.red.get_mut(b).unwrap().remove(&inter);
                        if !p.error_tail(*b) {
                            st.rr.push((*a, *b, inter));
                        } else {
                            st.silent += 1;
                        }
                    }
                }
            }
        }
    }
    pub fn sr_count(&self) -> u32 {
        self.states.iter().map(|s| s.sr.len() as u32).sum()
    }
    pub fn rr_count(&self) -> u32 {
        self.states.iter().map(|s| s.rr.len() as u32).sum()
    }
    pub fn silent(&self) -> usize {
        self.states.iter().map(|s| s.silent).sum()
    }
    pub fn conflict_free(&self) -> bool {
        self.sr_count() == 0 && self.rr_count() == 0 && self.silent() == 0
    }
    pub fn look_ahead(&self, s: usize) -> Bits {
        let st = &self.states[s];
        let mut set = Bits::NONE;
        st.red.values().for_each(|b| set |= b);
        st.rshifts.keys().for_each(|t| set.add(*t));
        set
    }
    pub fn viable(&self, s: usize, t: usize) -> bool {
        let Some(e) = self.states[s].gotos.get(&self.p.err_nt) else { return false };
        self.states[*e].red.iter().any(|(pr, la)| self.p.error_tail(*pr) && la.has(t))
    }
    pub fn any_viable(&self) -> bool {
        (0..self.states.len()).any(|s| (0..self.p.nterms).any(|t| self.viable(s, t)))
    }
    pub fn tab(&self) -> crate::refdrv::Tab {
        use crate::refdrv::{Act, Tab};
        let mut t = Tab::default();
        t.prods = self.p.v.iter().map(|p| (p.lhs as u32, p.rhs.len())).collect();
        for (i, st) in self.states.iter().enumerate() {
            let mut row = vec![Act::Error; self.p.nterms];
            for (a, n) in &st.rshifts {
                row[*a] = Act::Shift(*n as u32);
            }
            for (a, act) in row.iter_mut().enumerate() {
                let c: Vec<usize> = st.red.iter().filter(|(_, la)| la.has(a)).map(|x| *x.0).collect();
                if c.is_empty() {
                    continue;
                }
                if c.iter().any(|x| self.p.v[*x].pred) {
                    let chain: Vec<u32> = c.iter().copied().filter(|x| self.p.v[*x].pred).map(|x| x as u32).collect();
                    let last = c.iter().copied().find(|x| !self.p.v[*x].pred).map(|x| x as u32);
                    *act = Act::Chain(chain, last);
                } else {
                    *act = if c[0] == 0 { Act::Accept } else { Act::Reduce(c[0] as u32) };
                }
            }
            t.rows.push(row);
            for (n, g) in &st.gotos {
                t.gotos.insert((i as u32, *n as u32), *g as u32);
                if *n == self.p.err_nt {
                    t.err_goto.insert(i as u32, *g as u32);
                }
            }
            t.look.push((0..self.p.nterms).filter(|a| self.look_ahead(i).has(*a)).collect());
        }
        t.viable = (0..self.p.nterms).map(|a| (0..self.states.len()).filter(|s| self.viable(*s, a)).map(|s| s as u32).collect::<BTreeSet<u32>>()).collect();
        t.set_depths();
        t
    }
}

//! Independent automata: built by walking a dense DFA byte by byte (not through its printed form).
use regex_automata::{dfa::{dense, Automaton}, util::start, util::syntax, Anchored};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

pub const NONE: usize = usize::MAX;

#[derive(Debug, Clone, PartialEq)]
pub struct D { pub tr: Vec<Vec<usize>>, pub acc: Vec<bool> } // start state is 0

impl D {
    /// The minimal trimmed automaton of the whole-string matches of `re` (None: not supported by the engine).
    pub fn of(re: &str, bytes_mode: bool) -> Option<D> {
        let dfa = dense::Builder::new()
            .configure(dense::DFA::config().start_kind(regex_automata::dfa::StartKind::Anchored).determinize_size_limit(Some(1 << 24)).dfa_size_limit(Some(1 << 24)))
            .syntax(syntax::Config::new().utf8(!bytes_mode))
            .thompson(regex_automata::nfa::thompson::Config::new().utf8(!bytes_mode))
            .build(&format!(r"\A(?:{})\z", re)).ok()?;
        let st = dfa.start_state(&start::Config::new().anchored(Anchored::Yes)).ok()?;
        let mut ids = HashMap::new();
        let mut q = VecDeque::new();
        ids.insert(st, 0usize); q.push_back(st);
        let mut tr: Vec<Vec<usize>> = vec![];
        let mut acc = vec![];
        while let Some(s) = q.pop_front() {
            let mut row = vec![NONE; 256];
            for b in 0..256usize {
                let n = dfa.next_state(s, b as u8);
                if dfa.is_dead_state(n) { continue; }
                if dfa.is_quit_state(n) { return None; }
                let l = ids.len();
                row[b] = *ids.entry(n).or_insert_with(|| { q.push_back(n); l });
            }
            tr.push(row);
            acc.push(dfa.is_match_state(dfa.next_eoi_state(s)));
        }
        Some(D { tr, acc }.minimal())
    }
    pub fn trim(mut self) -> D {
        let n = self.tr.len();
        let mut live = self.acc.clone();
        loop {
            let mut ch = false;
            for s in 0..n { if !live[s] && self.tr[s].iter().any(|&t| t != NONE && live[t]) { live[s] = true; ch = true; } }
            if !ch { break; }
        }
        for s in 0..n { for b in 0..256 { let t = self.tr[s][b]; if t != NONE && !live[t] { self.tr[s][b] = NONE; } } }
        self
    }
    pub fn minimal(self) -> D {
        let d = self.trim();
        let n = d.tr.len();
        let mut cls: Vec<usize> = d.acc.iter().map(|&a| a as usize).collect();
        loop {
            let mut m: HashMap<(usize, Vec<usize>), usize> = HashMap::new();
            let mut nc = vec![0; n];
            for s in 0..n {
                let key = (cls[s], d.tr[s].iter().map(|&t| if t == NONE { NONE } else { cls[t] }).collect());
                let l = m.len();
                nc[s] = *m.entry(key).or_insert(l);
            }
            let done = m.len() == cls.iter().collect::<BTreeSet<_>>().len();
            cls = nc;
            if done { break; }
        }
        // renumber from the start state, reachable only
        let mut rep: HashMap<usize, usize> = HashMap::new();
        for s in 0..n { rep.entry(cls[s]).or_insert(s); }
        let mut id: HashMap<usize, usize> = HashMap::new();
        let mut q = VecDeque::from([cls[0]]);
        id.insert(cls[0], 0);
        let (mut tr, mut acc) = (vec![], vec![]);
        while let Some(c) = q.pop_front() {
            let r = rep[&c];
            let mut row = vec![NONE; 256];
            for b in 0..256 { let t = d.tr[r][b]; if t != NONE { let l = id.len(); row[b] = *id.entry(cls[t]).or_insert_with(|| { q.push_back(cls[t]); l }); } }
            tr.push(row); acc.push(d.acc[r]);
        }
        D { tr, acc }
    }
    pub fn reenters_start(&self) -> bool { self.tr.iter().any(|r| r.contains(&0)) }
    pub fn accepts(&self, w: &[u8]) -> bool {
        let mut s = 0;
        for &b in w { s = self.tr[s][b as usize]; if s == NONE { return false; } }
        self.acc[s]
    }
    pub fn accept_states(&self) -> Vec<usize> { (0..self.acc.len()).filter(|&s| self.acc[s]).collect() }
}

/// Shortest byte string on which the two automata differ (or, with `subset`, that only the first accepts).
pub fn differ(a: &D, b: &D, subset: bool) -> Option<Vec<u8>> {
    let mut seen: HashMap<(usize, usize), Option<((usize, usize), u8)>> = HashMap::new();
    let mut q = VecDeque::from([(0usize, 0usize)]);
    seen.insert((0, 0), None);
    while let Some((x, y)) = q.pop_front() {
        let ax = x != NONE && a.acc[x];
        let by = y != NONE && b.acc[y];
        if ax != by && (!subset || ax) {
            let mut w = vec![];
            let mut c = (x, y);
            while let Some(Some((p, ch))) = seen.get(&c) { w.push(*ch); c = *p; }
            w.reverse();
            return Some(w);
        }
        for ch in 0..256usize {
            let nx = if x == NONE { NONE } else { a.tr[x][ch] };
            let ny = if y == NONE { NONE } else { b.tr[y][ch] };
            if nx == NONE && (ny == NONE || subset) { continue; }
            if !seen.contains_key(&(nx, ny)) { seen.insert((nx, ny), Some(((x, y), ch as u8))); q.push_back((nx, ny)); }
        }
    }
    None
}

/// Composition of part automata as the property states it: the start of each later part is merged into
/// every accept state of the parts before it; the later part wins on a byte both could take.
pub struct Composed {
    pub d: D,
    /// transitions (from, byte, to) of each part, as composed when the part was added
    pub part_edges: Vec<BTreeSet<(usize, usize)>>,
    pub starts: Vec<BTreeSet<usize>>,
    pub ends: Vec<BTreeSet<usize>>,
    pub conflict: bool,
    pub reentry: bool,
    /// some part other than the last ends in a state with outgoing transitions, or starts in an accept state
    pub overlap: bool,
}
pub fn compose(parts: &[D]) -> Composed {
    let mut c = Composed { d: D { tr: vec![], acc: vec![] }, part_edges: vec![], starts: vec![], ends: vec![], conflict: false, reentry: false, overlap: false };
    for (k, p) in parts.iter().enumerate() {
        if k == 0 {
            c.d = p.clone();
            let mut e = BTreeSet::new();
            for (s, r) in p.tr.iter().enumerate() { for &t in r { if t != NONE { e.insert((s, t)); } } }
            c.part_edges.push(e);
            c.starts.push(BTreeSet::new());
            c.ends.push(p.accept_states().into_iter().collect());
            continue;
        }
        if p.reenters_start() { c.reentry = true; return c; }
        let base = c.d.tr.len() - 1; // state s>0 of p becomes base+s
        let acc = c.d.accept_states();
        let mut e = BTreeSet::new();
        for &a in &acc {
            for b in 0..256 {
                let t = p.tr[0][b];
                if t == NONE { continue; }
                if c.d.tr[a][b] != NONE { c.conflict = true; }
                c.d.tr[a][b] = base + t;
                e.insert((a, base + t));
            }
            c.d.acc[a] = p.acc[0];
        }
        for s in 1..p.tr.len() {
            let row: Vec<usize> = p.tr[s].iter().map(|&t| if t == NONE { NONE } else { base + t }).collect();
            for &t in &row { if t != NONE { e.insert((base + s, t)); } }
            c.d.tr.push(row);
            c.d.acc.push(p.acc[s]);
        }
        c.part_edges.push(e);
        c.starts.push(acc.into_iter().collect());
        // the part ends in its accept states; its start stands for the states it was merged into
        let mut en: BTreeSet<usize> = (1..p.tr.len()).filter(|&s| p.acc[s]).map(|s| base + s).collect();
        if p.acc[0] { en.insert(NONE); c.overlap = true; }
        c.ends.push(en);
    }
    c
}

/// Automaton published by the compiler.
#[derive(Debug, Clone)]
pub struct G { pub acc: Vec<bool>, pub tr: Vec<BTreeMap<usize, BTreeSet<u8>>> }
impl G {
    /// Well-formedness: ids are 0..n-1, targets exist, deterministic.
    pub fn to_d(&self) -> Result<D, String> {
        let n = self.acc.len();
        let mut d = D { tr: vec![vec![NONE; 256]; n], acc: self.acc.clone() };
        for (s, m) in self.tr.iter().enumerate() {
            for (&t, bs) in m {
                if t >= n { return Err(format!("state {} has a transition to state {}, but there are {} states", s, t, n)); }
                for &b in bs {
                    if d.tr[s][b as usize] != NONE { return Err(format!("state {} has two targets for byte {}: {} and {}", s, b, d.tr[s][b as usize], t)); }
                    d.tr[s][b as usize] = t;
                }
            }
        }
        Ok(d)
    }
}

//! What the circuit of an automaton must compute on a message.
use crate::odfa::{D, NONE};
use std::collections::BTreeSet;

pub struct Scan {
    /// active non-initial states after i bytes of marker+message
    pub act: Vec<BTreeSet<usize>>,
    /// the step consuming byte i started over from the initial state
    pub fresh: Vec<bool>,
    pub ins: Vec<usize>,
}
pub fn scan(d: &D, msg: &[u8]) -> Scan {
    let mut ins = vec![255usize];
    ins.extend(msg.iter().map(|&b| b as usize));
    let mut act = vec![BTreeSet::new()];
    let mut fresh = vec![];
    for i in 0..ins.len() {
        let c = ins[i];
        let step = |s: usize| if c == 0 || d.tr[s][c] == NONE || d.tr[s][c] == 0 { None } else { Some(d.tr[s][c]) };
        let mut nx: BTreeSet<usize> = act[i].iter().filter_map(|&s| step(s)).collect();
        let f = nx.is_empty();
        if f { nx.extend(step(0)); }
        fresh.push(f);
        act.push(nx);
    }
    Scan { act, fresh, ins }
}
impl Scan {
    pub fn out(&self, acc: usize, end_anchor: bool) -> bool {
        let hit = self.act.iter().any(|a| a.contains(&acc));
        if !end_anchor { return hit; }
        let pad = self.ins.iter().filter(|&&b| b != 0).count();
        hit && self.act[pad].contains(&acc)
    }
    pub fn reveal(&self, acc: usize, out: bool, ranges: &BTreeSet<(usize, usize)>) -> Vec<i128> {
        let nb = self.ins.len(); // num_bytes
        let m = nb - 1;
        let on = |i: usize, s: usize| if s == 0 { i < nb } else { self.act[i].contains(&s) };
        let fz = |i: usize| if i >= nb { false } else { self.fresh[i] };
        let mut c2 = vec![false; m + 1];
        for n in (0..m).rev() {
            let c0 = on(n + 2, acc) || c2[n + 1];
            let c1 = !self.act[n + 2].is_empty() && c0;
            c2[n] = (!fz(n + 2) || on(n + 2, acc)) && c1;
        }
        (0..m).map(|n| {
            let sub = ranges.iter().any(|&(p, q)| on(n + 1, p) && (if p == 0 { fz(n + 1) } else { !fz(n + 1) }) && on(n + 2, q));
            if out && sub && c2[n] { self.ins[n + 1] as i128 } else { 0 }
        }).collect()
    }
}

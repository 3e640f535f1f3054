// ---------- languages ----------
pub open spec fn step(g: DFAGraph, p: int, r: int, b: u8) -> bool { 0 <= p < g.states@.len() && 0 <= r < g.states@.len() && has(tr(g, p), r as usize, b) }
pub open spec fn hop(g: DFAGraph, s: Seq<u8>, w: Seq<int>, i: int) -> bool { step(g, w[i], w[i + 1], s[i]) }
// w are the states the string s goes through from the state q on
pub open spec fn path(g: DFAGraph, q: int, s: Seq<u8>, w: Seq<int>) -> bool { w.len() == s.len() + 1 && w[0] == q && 0 <= q < g.states@.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] hop(g, s, w, i) }
// the strings that lead from state 0 to an accepting state
pub open spec fn accepts(g: DFAGraph, s: Seq<u8>) -> bool { exists|w: Seq<int>| #[trigger] path(g, 0, s, w) && acc(g.states@[w.last()]) }
pub proof fn path_in(g: DFAGraph, q: int, s: Seq<u8>, w: Seq<int>, i: int)
    requires path(g, q, s, w), 0 <= i < w.len()
    ensures 0 <= w[i] < g.states@.len()
{ if i > 0 { assert(hop(g, s, w, i - 1)); } }
pub open spec fn path_acc(g: DFAGraph, s: Seq<u8>, w: Seq<int>) -> bool { path(g, 0, s, w) && acc(g.states@[w.last()]) }
pub proof fn accepts_by(g: DFAGraph, s: Seq<u8>) -> (w: Seq<int>)
    requires accepts(g, s)
    ensures path_acc(g, s, w), 0 <= w.last() < g.states@.len()
{ let w = choose|w: Seq<int>| #[trigger] path(g, 0, s, w) && acc(g.states@[w.last()]); path_in(g, 0, s, w, w.len() - 1); w }
// no transition into the start
pub open spec fn no_reentry(g: DFAGraph) -> bool { forall|i: int| 0 <= i < g.states@.len() ==> !edge(#[trigger] tr(g, i), 0) }
// a byte that continues the automaton a after a match and starts b
pub open spec fn overlap(a: DFAGraph, b: DFAGraph) -> bool { exists|i: int, x: u8| 0 <= i < a.states@.len() && acc(a.states@[i]) && #[trigger] moves(tr(a, i), x) && moves(tr(b, 0), x) }
// net extended by g, whose states get the numbers after those of net
pub open spec fn extended(net: DFAGraph, g: DFAGraph, h: DFAGraph, r: DFAGraph) -> bool { wf(net) && wf(g) && shifted(g, h, net.states@.len() - 1) && composed(net, h, r) }
pub open spec fn hasp(g: DFAGraph, i: int, k: usize, b: u8) -> bool { has(tr(g, i), k, b) }
// the transitions of the extended automaton
pub proof fn extended_old(net: DFAGraph, g: DFAGraph, h: DFAGraph, r: DFAGraph, i: int, k: usize, b: u8)
    requires extended(net, g, h, r), 0 <= i < net.states@.len(), no_reentry(g)
    ensures hasp(r, i, k, b) ==> (k < net.states@.len() && hasp(net, i, k, b)) || (k >= net.states@.len() && k < r.states@.len() && acc(net.states@[i]) && hasp(g, 0, (k - net.states@.len() + 1) as usize, b)),
        acc(net.states@[i]) && net.states@.len() <= k && hasp(g, 0, (k - net.states@.len() + 1) as usize, b) ==> hasp(r, i, k, b),
        hasp(net, i, k, b) && !(acc(net.states@[i]) && moves(tr(g, 0), b)) ==> hasp(r, i, k, b),
        acc(r.states@[i]) == (acc(net.states@[i]) && acc(g.states@[0])),
{
    let n = net.states@.len() as int; let base = n - 1;
    assert(h.states@[0].state_type == g.states@[0].state_type);
    if !acc(net.states@[i]) { assert(r.states@[i] == net.states@[i]); if hasp(net, i, k, b) { assert(edge(tr(net, i), k)); } }
    else {
        assert(merged(net.states@[i], h.states@[0], r.states@[i]));
        let s = tr(net, i); let p = tr(h, 0); let q = tr(r, i);
        assert(has(q, k, b) == (if edge(p, k) { has(p, k, b) } else { has(s, k, b) && !moves(p, b) }));
        if edge(p, k) { assert(edge(tr(g, 0), (k - base) as usize)); assert((k - base) as usize != 0); assert(k >= n && k - base < g.states@.len()); assert(!edge(s, k)); }
        if has(s, k, b) { assert(edge(s, k)); assert(k < n); }
        if n <= k && hasp(g, 0, (k - n + 1) as usize, b) { assert(edge(tr(g, 0), (k - base) as usize)); assert(edge(p, ((k - base) as usize + base) as usize)); assert(((k - base) as usize + base) as usize == k); }
        if has(s, k, b) && !moves(tr(g, 0), b) {
            if moves(p, b) { let x = choose|x: usize| #[trigger] has(p, x, b); assert(edge(p, x)); assert(has(tr(g, 0), (x - base) as usize, b)); }
        }
    }
}
pub proof fn extended_new(net: DFAGraph, g: DFAGraph, h: DFAGraph, r: DFAGraph, j: int, k: usize, b: u8)
    requires extended(net, g, h, r), 1 <= j < g.states@.len(), no_reentry(g)
    ensures hasp(r, net.states@.len() - 1 + j, k, b) == (k >= net.states@.len() && hasp(g, j, (k - net.states@.len() + 1) as usize, b)),
        hasp(r, net.states@.len() - 1 + j, k, b) ==> net.states@.len() <= k && k < r.states@.len(),
        acc(r.states@[net.states@.len() - 1 + j]) == acc(g.states@[j]),
{
    let n = net.states@.len() as int; let base = n - 1;
    assert(h.states@[j] == r.states@[n + j - 1]);
    assert(h.states@[j].state_type == g.states@[j].state_type);
    let p = tr(h, j);
    if has(p, k, b) { assert(edge(p, k)); assert(edge(tr(g, j), (k - base) as usize)); assert((k - base) as usize != 0); assert(k >= n && k - base < g.states@.len()); }
    if k >= n && hasp(g, j, (k - base) as usize, b) { assert(edge(tr(g, j), (k - base) as usize)); assert(edge(p, ((k - base) as usize + base) as usize)); assert(((k - base) as usize + base) as usize == k); }
}
pub proof fn extended_wf(net: DFAGraph, g: DFAGraph, h: DFAGraph, r: DFAGraph)
    requires extended(net, g, h, r), r.states@.len() <= usize::MAX
    ensures wf(r)
{
    let n = net.states@.len() as int; let base = n - 1;
    assert forall|i: int| 0 <= i < r.states@.len() implies (#[trigger] r.states@[i]).state_id == i && det(tr(r, i)) && (forall|k: usize| #[trigger] edge(tr(r, i), k) ==> k < r.states@.len()) by {
        if i < n {
            if !acc(net.states@[i]) { assert(r.states@[i] == net.states@[i]); assert(det(tr(net, i))); assert forall|k: usize| #[trigger] edge(tr(r, i), k) implies k < r.states@.len() by { assert(edge(tr(net, i), k)); } }
            else {
                assert(merged(net.states@[i], h.states@[0], r.states@[i]));
                let s = tr(net, i); let p = tr(h, 0); let q = tr(r, i);
                shifted_edges(g, h, base, 0);
                assert(det(s)); assert(det(tr(g, 0)));
                assert forall|k: usize| #[trigger] edge(q, k) implies k < r.states@.len() by { if edge(s, k) { assert(k < n); } else { assert(edge(p, k)); } }
                assert forall|k1: usize, k2: usize, b: u8| #![trigger has(q, k1, b), has(q, k2, b)] has(q, k1, b) && has(q, k2, b) implies k1 == k2 by {
                    if edge(p, k1) { assert(has(p, k1, b)); assert(moves(p, b)); }
                    if edge(p, k2) { assert(has(p, k2, b)); assert(moves(p, b)); }
                }
            }
        } else {
            let j = i - base;
            assert(h.states@[j] == r.states@[n + j - 1]);
            shifted_edges(g, h, base, j);
        }
    }
}
pub proof fn shifted_edges(g: DFAGraph, h: DFAGraph, base: int, j: int)
    requires wf(g), shifted(g, h, base), 0 <= j < g.states@.len(), base >= 0
    ensures det(tr(h, j)), forall|k: usize| #[trigger] edge(tr(h, j), k) ==> base <= k < base + g.states@.len()
{
    assert(det(tr(g, j)));
    assert forall|k: usize| #[trigger] edge(tr(h, j), k) implies base <= k < base + g.states@.len() by { assert(edge(tr(g, j), (k - base) as usize)); }
    assert forall|k1: usize, k2: usize, b: u8| #![trigger has(tr(h, j), k1, b), has(tr(h, j), k2, b)] has(tr(h, j), k1, b) && has(tr(h, j), k2, b) implies k1 == k2 by {
        assert(edge(tr(h, j), k1) && edge(tr(h, j), k2));
        assert(has(tr(g, j), (k1 - base) as usize, b) && has(tr(g, j), (k2 - base) as usize, b));
    }
}
pub open spec fn parted(net: DFAGraph, g: DFAGraph, s: Seq<u8>, m: int) -> bool { 0 <= m <= s.len() && accepts(net, s.subrange(0, m)) && accepts(g, s.subrange(m, s.len() as int)) }
// where a path of the extended automaton leaves the states of net
pub proof fn leaves(net: DFAGraph, g: DFAGraph, h: DFAGraph, r: DFAGraph, s: Seq<u8>, w: Seq<int>, i: int) -> (m: int)
    requires extended(net, g, h, r), no_reentry(g), path(r, 0, s, w), 0 <= i < w.len()
    ensures 1 <= m <= i + 1, forall|x: int| 0 <= x < m ==> 0 <= #[trigger] w[x] < net.states@.len(), forall|x: int| m <= x <= i ==> net.states@.len() <= #[trigger] w[x] < r.states@.len()
    decreases i
{
    let n = net.states@.len() as int;
    if i == 0 { 1 } else {
        let m = leaves(net, g, h, r, s, w, i - 1);
        assert(hop(r, s, w, i - 1)); assert(step(r, w[i - 1], w[i], s[i - 1])); assert(hasp(r, w[i - 1], w[i] as usize, s[i - 1]));
        if m == i { extended_old(net, g, h, r, w[i - 1], w[i] as usize, s[i - 1]); if w[i] < n { m + 1 } else { m } }
        else { extended_new(net, g, h, r, w[i - 1] - n + 1, w[i] as usize, s[i - 1]); m }
    }
}
pub proof fn extended_sound(net: DFAGraph, g: DFAGraph, h: DFAGraph, r: DFAGraph, s: Seq<u8>) -> (m: int)
    requires extended(net, g, h, r), no_reentry(g), accepts(r, s), r.states@.len() <= usize::MAX
    ensures parted(net, g, s, m)
{
    let n = net.states@.len() as int; let l = s.len() as int;
    let w = accepts_by(r, s);
    let c = leaves(net, g, h, r, s, w, l);
    let m = c - 1;
    let u = s.subrange(0, m); let v = s.subrange(m, l);
    let wu = w.subrange(0, c);
    assert forall|i: int| 0 <= i < m implies #[trigger] hop(net, u, wu, i) by {
        assert(hop(r, s, w, i)); assert(hasp(r, w[i], w[i + 1] as usize, s[i]));
        extended_old(net, g, h, r, w[i], w[i + 1] as usize, s[i]);
        assert(wu[i] == w[i] && wu[i + 1] == w[i + 1] && u[i] == s[i]);
    }
    assert(path(net, 0, u, wu));
    assert(0 <= w[m] < n);
    if m == l {
        extended_old(net, g, h, r, w[m], 0, 0);
        assert(wu.last() == w[m]);
        assert(w.last() == w[m]);
        let z = seq![0int];
        assert(path(g, 0, v, z)); assert(acc(g.states@[z.last()]));
    } else {
        assert(hop(r, s, w, m)); assert(hasp(r, w[m], w[m + 1] as usize, s[m])); assert(n <= w[m + 1]);
        extended_old(net, g, h, r, w[m], w[m + 1] as usize, s[m]);
        assert(wu.last() == w[m]);
        let z = Seq::new((l - m + 1) as nat, |i: int| if i == 0 { 0 } else { w[m + i] - n + 1 });
        assert forall|i: int| 0 <= i < v.len() implies #[trigger] hop(g, v, z, i) by {
            assert(n <= w[m + i + 1] < r.states@.len());
            assert(v[i] == s[m + i] && z[i + 1] == w[m + i + 1] - n + 1);
            if i > 0 {
                assert(n <= w[m + i] < r.states@.len());
                assert(hop(r, s, w, m + i)); assert(step(r, w[m + i], w[m + i + 1], s[m + i])); assert(hasp(r, w[m + i], w[m + i + 1] as usize, s[m + i]));
                extended_new(net, g, h, r, w[m + i] - n + 1, w[m + i + 1] as usize, s[m + i]);
                assert(z[i] == w[m + i] - n + 1);
            }
        }
        assert(path(g, 0, v, z));
        assert(n <= w[l] < r.states@.len());
        extended_new(net, g, h, r, w[l] - n + 1, 0, 0);
        assert(z.last() == w[l] - n + 1);
    }
    m
}
pub proof fn extended_full(net: DFAGraph, g: DFAGraph, h: DFAGraph, r: DFAGraph, s: Seq<u8>, m: int)
    requires extended(net, g, h, r), no_reentry(g), !overlap(net, g), parted(net, g, s, m), r.states@.len() <= usize::MAX
    ensures accepts(r, s)
{
    let n = net.states@.len() as int; let l = s.len() as int;
    let u = s.subrange(0, m); let v = s.subrange(m, l);
    let a = accepts_by(net, u); let c = accepts_by(g, v);
    let w = Seq::new(s.len() + 1, |i: int| if i <= m { a[i] } else { c[i - m] + n - 1 });
    assert forall|i: int| 0 <= i < l implies #[trigger] hop(r, s, w, i) by {
        if i < m {
            assert(hop(net, u, a, i)); assert(u[i] == s[i]);
            assert(hasp(net, a[i], a[i + 1] as usize, s[i]));
            extended_old(net, g, h, r, a[i], a[i + 1] as usize, s[i]);
            if acc(net.states@[a[i]]) { assert(moves(tr(net, a[i]), s[i])); }
        } else {
            assert(hop(g, v, c, i - m)); assert(v[i - m] == s[i]);
            assert(step(g, c[i - m], c[i - m + 1], s[i]));
            assert(hasp(g, c[i - m], c[i - m + 1] as usize, s[i]));
            assert(edge(tr(g, c[i - m]), c[i - m + 1] as usize)); assert(c[i - m + 1] != 0);
            let k = (c[i - m + 1] + n - 1) as usize;
            if i == m { extended_old(net, g, h, r, a[m], k, s[i]); assert(w[i] == a[m] && a[m] == a.last()); assert((k - n + 1) as usize == c[1]); }
            else {
                assert(hop(g, v, c, i - m - 1)); assert(step(g, c[i - m - 1], c[i - m], v[i - m - 1])); assert(edge(tr(g, c[i - m - 1]), c[i - m] as usize)); assert(c[i - m] != 0);
                extended_new(net, g, h, r, c[i - m], k, s[i]);
                assert((k - n + 1) as usize == c[i - m + 1]);
            }
        }
    }
    assert(a[0] == 0 && w[0] == 0);
    assert(path(r, 0, s, w));
    if m == l { extended_old(net, g, h, r, a[m], 0, 0); assert(w.last() == a.last()); assert(c.last() == c[0]); }
    else {
        assert(hop(g, v, c, l - m - 1)); assert(step(g, c[l - m - 1], c[l - m], v[l - m - 1])); assert(edge(tr(g, c[l - m - 1]), c[l - m] as usize)); assert(c[l - m] != 0);
        extended_new(net, g, h, r, c[l - m], 0, 0);
        assert(w.last() == c.last() + n - 1);
    }
}
// a string leads through one sequence of states only
pub proof fn path_unique(g: DFAGraph, s: Seq<u8>, u: Seq<int>, w: Seq<int>, i: int)
    requires wf(g), path(g, 0, s, w), 0 <= i < w.len(), i < u.len() <= w.len(), path(g, 0, s.subrange(0, u.len() - 1), u)
    ensures u[i] == w[i]
    decreases i
{
    if i > 0 {
        path_unique(g, s, u, w, i - 1);
        let t = s.subrange(0, u.len() - 1);
        assert(hop(g, t, u, i - 1) && hop(g, s, w, i - 1) && t[i - 1] == s[i - 1]);
        assert(det(tr(g, u[i - 1]))); assert(g.states@[u[i]].state_id == u[i] && g.states@[w[i]].state_id == w[i]);
        assert(has(tr(g, u[i - 1]), u[i] as usize, s[i - 1]) && has(tr(g, u[i - 1]), w[i] as usize, s[i - 1]));
    }
}
pub proof fn path_grow(g: DFAGraph, s: Seq<u8>, i: int, w: Seq<int>, k: int)
    requires wf(g), 0 <= i < s.len(), path(g, 0, s.subrange(0, i), w), has(tr(g, w.last()), k as usize, s[i]), 0 <= k < g.states@.len()
    ensures path(g, 0, s.subrange(0, i + 1), w.push(k))
{
    let t = s.subrange(0, i); let t1 = s.subrange(0, i + 1); let w1 = w.push(k);
    path_in(g, 0, t, w, w.len() - 1);
    assert forall|j: int| 0 <= j < t1.len() implies #[trigger] hop(g, t1, w1, j) by { if j < i { assert(hop(g, t, w, j)); assert(t1[j] == t[j] && w1[j] == w[j] && w1[j + 1] == w[j + 1]); } else { assert(w1[j] == w.last() && w1[j + 1] == k); } }
}
pub proof fn path_stuck(g: DFAGraph, s: Seq<u8>, i: int, u: Seq<int>)
    requires wf(g), 0 <= i < s.len(), path(g, 0, s.subrange(0, i), u), forall|k: usize| !(#[trigger] has(tr(g, u.last()), k, s[i]))
    ensures !accepts(g, s)
{
    if accepts(g, s) { let w = accepts_by(g, s); path_unique(g, s, u, w, i); assert(hop(g, s, w, i)); assert(u.last() == u[i]); assert(has(tr(g, u.last()), w[i + 1] as usize, s[i])); }
}
pub proof fn path_ends(g: DFAGraph, s: Seq<u8>, u: Seq<int>)
    requires wf(g), path(g, 0, s, u)
    ensures accepts(g, s) == acc(g.states@[u.last()])
{ assert(s.subrange(0, s.len() as int) =~= s); if accepts(g, s) { let w = accepts_by(g, s); path_unique(g, s, u, w, u.len() - 1); } }

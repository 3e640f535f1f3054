// ---------- C08: in every witness of the text, the states are those of the scan, and a match is one of a substring ----------
pub open spec fn cut_out(v: Seq<int>, s: int, i: int) -> Seq<u8> { Seq::new((i - s) as nat, |q: int| v[s + q] as u8) }
pub proof fn active_path(g: DFAGraph, v: Seq<int>, i: int, j: int)
    requires wf(g), i >= 0, active(g, v, i, j), 1 <= j < g.states@.len() <= usize::MAX
    ensures exists|s: int, w: Seq<int>| 0 <= s < i && #[trigger] path(g, 0, cut_out(v, s, i), w) && w.last() == j
    decreases i
{
    if i > 0 {
        active_step(g, v, i - 1, j);
        let b = v[i - 1];
        if goes_on(g, v, i - 1, j) {
            let p = choose|p: int| 1 <= p < g.states@.len() && acts(g, v, i - 1)(p) && #[trigger] hit(g, p, j, b);
            assert(active(g, v, i - 1, p));
            active_path(g, v, i - 1, p);
            let (s, w) = choose|s: int, w: Seq<int>| 0 <= s < i - 1 && #[trigger] path(g, 0, cut_out(v, s, i - 1), w) && w.last() == p;
            let t = cut_out(v, s, i); let t0 = cut_out(v, s, i - 1); let w2 = w.push(j);
            assert(path(g, 0, t, w2)) by {
                assert forall|q: int| 0 <= q < t.len() implies #[trigger] hop(g, t, w2, q) by { if q < t0.len() { assert(hop(g, t0, w, q)); assert(t[q] == t0[q]); } else { assert(t[q] == b as u8); assert(w2[q] == p); } }
            }
            assert(w2.last() == j);
        } else {
            let t = cut_out(v, i - 1, i); let w = seq![0int, j];
            assert(path(g, 0, t, w)) by { assert forall|q: int| 0 <= q < t.len() implies #[trigger] hop(g, t, w, q) by { assert(q == 0); assert(t[0] == b as u8); } }
            assert(w.last() == j);
        }
    } else { active_step(g, v, 0, j); }
}
pub open spec fn some_match(g: DFAGraph, v: Seq<int>) -> bool { exists|s: int, i: int| 0 <= s < i <= v.len() && #[trigger] accepts(g, cut_out(v, s, i)) }
// the text of the generator, for every automaton: a witness that satisfies all its statements scans the message
pub proof fn C08_scan(t: VString, g: DFAGraph, name: Seq<u8>, ea: bool, w: Wit, n: int)
    requires is_allstr(t, g, name, ea), !has_newline(name), 0 <= n <= u64::MAX, csat(t.ls(), w, n)
    ensures scans(g, w, n)
{ reveal(is_allstr); let a = choose|a: int| #[trigger] only_acc(g, a) && (!has_newline(name) ==> circuit_text(t.ls(), g, ea, a)); assert(circuit_of(g, ea, a, w, n)); }
pub proof fn C08_match(t: VString, g: DFAGraph, name: Seq<u8>, ea: bool, w: Wit, n: int)
    requires is_allstr(t, g, name, ea), !has_newline(name), 0 <= n <= u64::MAX, csat(t.ls(), w, n), wf(g), !acc(g.states@[0]), g.states@.len() <= usize::MAX, sg(w, 8, 0, 0, 0) == 1
    ensures some_match(g, inputs(w, n))
{
    reveal(is_allstr); let a = choose|a: int| #[trigger] only_acc(g, a) && (!has_newline(name) ==> circuit_text(t.ls(), g, ea, a)); assert(circuit_of(g, ea, a, w, n));
    let v = inputs(w, n); assert(decides(g, w, n, a, ea)); count_le(v, n + 1);
    let i = if ea { count_nz(v, n + 1) } else { choose|i: int| 0 <= i <= n + 1 && #[trigger] active(g, v, i, a) };
    assert(active(g, v, i, a) && 0 <= i <= n + 1);
    active_path(g, v, i, a);
    let (s, p) = choose|s: int, p: Seq<int>| 0 <= s < i && #[trigger] path(g, 0, cut_out(v, s, i), p) && p.last() == a;
    assert(accepts(g, cut_out(v, s, i)));
}

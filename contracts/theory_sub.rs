// ---------- the substring constraints of a generated circuit ----------
// reading the positions of a text line by line
pub proof fn lat_stmt(v: Seq<VString>, w: Wit, n: int, q: int) requires csat(v, w, n), 0 <= q < v.len(), kind(v[q]) == 1 ensures holds_at(v[q], stk(v.take(q)), w, n) decreases v.len()
{ if q == v.len() - 1 { assert(v.drop_last() =~= v.take(q)); } else { lat_stmt(v.drop_last(), w, n, q); assert(v.drop_last().take(q) =~= v.take(q)); assert(v.drop_last()[q] == v[q]); } }
pub proof fn lat_step(v: Seq<VString>, q: int) requires 0 <= q < v.len() ensures stk(v.take(q + 1)) == (if kind(v[q]) == 2 { Some(v[q]) } else if kind(v[q]) == 3 { None } else { stk(v.take(q)) })
{ let t = v.take(q + 1); assert(t.last() == v[q]); assert(t.drop_last() =~= v.take(q)); }
pub open spec fn flat_at(v: Seq<VString>, q: int) -> bool { kind(v[q]) == 0 || kind(v[q]) == 1 }
pub proof fn lat_run(v: Seq<VString>, a: int, b: int) requires 0 <= a <= b <= v.len(), forall|q: int| a <= q < b ==> #[trigger] flat_at(v, q) ensures stk(v.take(b)) == stk(v.take(a)) decreases b - a
{ if a < b { lat_run(v, a, b - 1); lat_step(v, b - 1); assert(flat_at(v, b - 1)); } }
// statements, one loop over statements, nothing behind it; d: the position of the header
pub open spec fn looped(v: Seq<VString>, d: int) -> bool {
    0 <= d < v.len() - 1 && kind(v[d]) == 2 && kind(v.last()) == 3 && (forall|q: int| 0 <= q < d ==> #[trigger] flat_at(v, q)) && (forall|q: int| d < q < v.len() - 1 ==> #[trigger] flat_at(v, q))
}
pub proof fn looped_sat(v: Seq<VString>, d: int, w: Wit, n: int) requires looped(v, d), csat(v, w, n)
    ensures forall|q: int| 0 <= q < d && kind(#[trigger] v[q]) == 1 ==> lsat(v[q], w, n, 0),
        forall|q: int, i: int| #![trigger lsat(v[q], w, n, i)] d < q < v.len() && kind(v[q]) == 1 && flo(v[d], n) <= i < fhi(v[d], n) ==> lsat(v[q], w, n, i),
{
    assert(v.take(0).len() == 0);
    assert forall|q: int| 0 <= q < d && kind(#[trigger] v[q]) == 1 implies lsat(v[q], w, n, 0) by { lat_run(v, 0, q); lat_stmt(v, w, n, q); }
    lat_step(v, d);
    assert forall|q: int, i: int| #![trigger lsat(v[q], w, n, i)] d < q < v.len() && kind(v[q]) == 1 && flo(v[d], n) <= i < fhi(v[d], n) implies lsat(v[q], w, n, i) by {
        assert(q < v.len() - 1) by { if q == v.len() - 1 { assert(v[q] == v.last()); } }
        lat_run(v, d + 1, q); lat_stmt(v, w, n, q);
    }
}
pub proof fn looped_stk(v: Seq<VString>, d: int) requires looped(v, d) ensures stk(v).is_none()
{ let m = v.len() as int; assert(v.take(m) =~= v); lat_step(v, m - 1); assert(v[m - 1] == v.last()); }
// what the statements say: the scan from behind that follows the bytes up to the accepting state
pub open spec fn consi(w: Wit, n: int, a: int, k: int) -> bool {
    &&& sg(w, 10, 0, k, 0) == fe(mu(sg(w, 1, 0, k + 2, a), 1 - sg(w, 10, 0, k + 1, 2)) + sg(w, 10, 0, k + 1, 2))
    &&& sg(w, 10, 0, k, 1) == fe(mu(pt(w, 25, 0, k + 1, 3, 0), sg(w, 10, 0, k, 0)))
    &&& bit(fe(1 - sg(w, 3, 0, k + 2, 0))) && bit(sg(w, 1, 0, k + 2, a)) && bit(sg(w, 10, 0, k, 1)) ==> sg(w, 10, 0, k, 2) == b2i((fe(1 - sg(w, 3, 0, k + 2, 0)) == 1 || sg(w, 1, 0, k + 2, a) == 1) && sg(w, 10, 0, k, 1) == 1)
}
pub open spec fn consw(w: Wit, n: int, a: int) -> bool { sg(w, 10, 0, n, 2) == 0 && forall|k: int| 0 <= k < n ==> #[trigger] consi(w, n, a, k) }
#[verifier::opaque]
pub open spec fn cons_ok(v: Seq<VString>, a: int) -> bool { stk(v).is_none() && forall|w: Wit, n: int| n >= 0 && #[trigger] csat(v, w, n) ==> consw(w, n, a) }
pub open spec fn prevv(w: Wit, i: int, c: int) -> int { fe(mu(if c == 0 { sg(w, 3, 0, i + 1, 0) } else { 1 - sg(w, 3, 0, i + 1, 0) }, sg(w, 1, 0, i + 1, c))) }
pub open spec fn nextv(w: Wit, idx: int, i: int, rs: Seq<(usize, usize)>) -> Seq<int> { Seq::new(rs.len(), |t: int| fe(mu(sg(w, 11, idx, t, i), sg(w, 1, 0, i + 2, rs[t].1 as int)))) }
pub open spec fn prev_line(l: VString, idx: int, t: int, c: int) -> bool { kind(l) == 1 && forall|w: Wit, n: int, i: int| #[trigger] lsat(l, w, n, i) == (sg(w, 11, idx, t, i) == prevv(w, i, c)) }
pub open spec fn prev_lines(ls: Seq<VString>, idx: int, rs: Seq<(usize, usize)>, cnt: int) -> bool { ls.len() == cnt && forall|t: int| 0 <= t < cnt ==> prev_line(#[trigger] ls[t], idx, t, rs[t].0 as int) }
pub open spec fn sub_line(l: VString, idx: int, rs: Seq<(usize, usize)>) -> bool { kind(l) == 1 && forall|w: Wit, n: int, i: int| #[trigger] lsat(l, w, n, i) ==> or_rel(sg(w, 12, idx, i, 0), nextv(w, idx, i, rs)) }
pub open spec fn rev3(w: Wit, idx: int, i: int) -> bool { bit(sg(w, 8, 0, 0, 0)) && bit(sg(w, 12, idx, i, 0)) && bit(sg(w, 10, 0, i, 2)) ==> sg(w, 13, idx, i, 0) == b2i(sg(w, 8, 0, 0, 0) == 1 && sg(w, 12, idx, i, 0) == 1 && sg(w, 10, 0, i, 2) == 1) }
pub open spec fn rev_line1(l: VString, idx: int) -> bool { kind(l) == 1 && forall|w: Wit, n: int, i: int| #[trigger] lsat(l, w, n, i) == rev3(w, idx, i) }
pub open spec fn rev_line2(l: VString, idx: int) -> bool { kind(l) == 1 && forall|w: Wit, n: int, i: int| #[trigger] lsat(l, w, n, i) == (sg(w, 14, idx, i, 0) == fe(mu(inv(w, i + 1), sg(w, 13, idx, i, 0)))) }
pub open spec fn derefs(s: Seq<&(usize, usize)>) -> Seq<(usize, usize)> { Seq::new(s.len(), |q: int| *s[q]) }
pub open spec fn same_set(a: Seq<(usize, usize)>, b: Set<(usize, usize)>) -> bool { forall|x: (usize, usize)| #[trigger] a.contains(x) == b.contains(x) }
pub open spec fn same_elems(a: Seq<(usize, usize)>, b: Seq<(usize, usize)>) -> bool { forall|x: (usize, usize)| #[trigger] a.contains(x) == b.contains(x) }
pub open spec fn revi(w: Wit, idx: int, rs: Seq<(usize, usize)>, i: int) -> bool {
    &&& forall|t: int| 0 <= t < rs.len() ==> #[trigger] sg(w, 11, idx, t, i) == prevv(w, i, rs[t].0 as int)
    &&& or_rel(sg(w, 12, idx, i, 0), nextv(w, idx, i, rs)) && rev3(w, idx, i) && sg(w, 14, idx, i, 0) == fe(mu(inv(w, i + 1), sg(w, 13, idx, i, 0)))
}
pub open spec fn revw(w: Wit, n: int, idx: int, rs: Seq<(usize, usize)>) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] revi(w, idx, rs, i) }
#[verifier::opaque]
pub open spec fn rev_ok(v: Seq<VString>, idx: int, rs: Seq<(usize, usize)>) -> bool { stk(v).is_none() && forall|w: Wit, n: int| n >= 0 && #[trigger] csat(v, w, n) ==> revw(w, n, idx, rs) }
pub proof fn cons_new(v: Seq<VString>, a: int)
    requires v.len() == 7, kind(v[0]) == 0, kind(v[1]) == 1, kind(v[2]) == 2, kind(v[3]) == 1, kind(v[4]) == 1, kind(v[5]) == 1, kind(v[6]) == 3,
        forall|n: int| #[trigger] flo(v[2], n) == 0, forall|n: int| #[trigger] fhi(v[2], n) == n,
        forall|w: Wit, n: int| #[trigger] lsat(v[1], w, n, 0) ==> sg(w, 10, 0, n, 2) == 0,
        forall|w: Wit, n: int, i: int| #[trigger] lsat(v[3], w, n, i) && lsat(v[4], w, n, i) && lsat(v[5], w, n, i) ==> consi(w, n, a, n - 1 - i),
    ensures cons_ok(v, a)
{
    reveal(cons_ok);
    assert(looped(v, 2)) by { assert(v.last() == v[6]); assert forall|q: int| 2 < q < v.len() - 1 implies #[trigger] flat_at(v, q) by { assert(q == 3 || q == 4 || q == 5); } assert forall|q: int| 0 <= q < 2 implies #[trigger] flat_at(v, q) by { assert(q == 0 || q == 1); } }
    looped_stk(v, 2);
    assert forall|w: Wit, n: int| n >= 0 && #[trigger] csat(v, w, n) implies consw(w, n, a) by {
        looped_sat(v, 2, w, n); assert(flo(v[2], n) == 0 && fhi(v[2], n) == n);
        assert(lsat(v[1], w, n, 0));
        assert forall|k: int| 0 <= k < n implies #[trigger] consi(w, n, a, k) by { let i = n - 1 - k; assert(lsat(v[3], w, n, i) && lsat(v[4], w, n, i) && lsat(v[5], w, n, i)); }
    }
}
pub proof fn rev_new(v: Seq<VString>, d: int, c: int, idx: int, rs: Seq<(usize, usize)>, ps: Seq<VString>)
    requires looped(v, d), 0 <= d < c, c + rs.len() + 3 < v.len(), forall|n: int| #[trigger] flo(v[d], n) == 0, forall|n: int| #[trigger] fhi(v[d], n) == n,
        ps.len() == rs.len(), forall|t: int| 0 <= t < ps.len() ==> v[c + t] == #[trigger] ps[t], prev_lines(ps, idx, rs, rs.len() as int),
        sub_line(v[c + rs.len()], idx, rs), rev_line1(v[c + rs.len() + 1], idx), rev_line2(v[c + rs.len() + 2], idx),
    ensures rev_ok(v, idx, rs)
{
    reveal(rev_ok); looped_stk(v, d);
    assert forall|w: Wit, n: int| n >= 0 && #[trigger] csat(v, w, n) implies revw(w, n, idx, rs) by {
        looped_sat(v, d, w, n); assert(flo(v[d], n) == 0 && fhi(v[d], n) == n);
        assert forall|i: int| 0 <= i < n implies #[trigger] revi(w, idx, rs, i) by {
            let m = c + rs.len();
            assert(lsat(v[m], w, n, i)); assert(lsat(v[m + 1], w, n, i)); assert(lsat(v[m + 2], w, n, i));
            assert forall|t: int| 0 <= t < rs.len() implies #[trigger] sg(w, 11, idx, t, i) == prevv(w, i, rs[t].0 as int) by { assert(prev_line(ps[t], idx, t, rs[t].0 as int)); assert(lsat(v[c + t], w, n, i)); }
        }
    }
}
// all substrings
pub type Sets = Seq<VSet<(usize, usize)>>;
pub open spec fn rev_of(w: Wit, n: int, k: int, s: Set<(usize, usize)>) -> bool { exists|rs: Seq<(usize, usize)>| same_set(rs, s) && #[trigger] revw(w, n, k, rs) }
pub open spec fn subw(w: Wit, n: int, a: int, r: Sets, cnt: int) -> bool { consw(w, n, a) && forall|k: int| 0 <= k < cnt ==> #[trigger] rev_of(w, n, k, r[k]@) }
#[verifier::opaque]
pub open spec fn subs_ok(v: Seq<VString>, a: int, r: Sets, cnt: int) -> bool { stk(v).is_none() && forall|w: Wit, n: int| n >= 0 && #[trigger] csat(v, w, n) ==> subw(w, n, a, r, cnt) }
pub proof fn subs_none(u: Seq<VString>, v: Seq<VString>, a: int, r: Sets, l: VString) requires cons_ok(u, a), kind(l) == 0, v == u + seq![l] ensures subs_ok(v, a, r, 0)
{
    reveal(cons_ok); reveal(subs_ok); assert(v.drop_last() =~= u); assert(v.last() == l); 
    assert forall|w: Wit, n: int| n >= 0 && #[trigger] csat(v, w, n) implies subw(w, n, a, r, 0) by { assert(csat(u, w, n)); }
}
pub proof fn subs_step(u: Seq<VString>, t: Seq<VString>, a: int, r: Sets, cnt: int, rs: Seq<(usize, usize)>)
    requires subs_ok(u, a, r, cnt), rev_ok(t, cnt, rs), 0 <= cnt < r.len(), same_set(rs, r[cnt]@)
    ensures subs_ok(u + t, a, r, cnt + 1)
{
    reveal(subs_ok); reveal(rev_ok); stk_add(u, t);
    assert forall|w: Wit, n: int| n >= 0 && #[trigger] csat(u + t, w, n) implies subw(w, n, a, r, cnt + 1) by {
        csat_add(u, t, w, n);
        assert forall|k: int| 0 <= k < cnt + 1 implies #[trigger] rev_of(w, n, k, r[k]@) by { if k == cnt { assert(revw(w, n, k, rs)); } }
    }
}
pub proof fn subs_close(u: Seq<VString>, a: int, r: Sets, cnt: int, l: VString) requires subs_ok(u, a, r, cnt), kind(l) == 3 ensures subs_ok(u + seq![l], a, r, cnt)
{
    reveal(subs_ok); let v = u + seq![l]; assert(v.drop_last() =~= u); assert(v.last() == l);
    assert forall|w: Wit, n: int| n >= 0 && #[trigger] csat(v, w, n) implies subw(w, n, a, r, cnt) by { assert(csat(u, w, n)); }
}
// ---------- what is revealed ----------
// read from behind: from the byte k on, the scan went on without a restart up to the accepting state
pub open spec fn kept(g: DFAGraph, v: Seq<int>, n: int, a: int, k: int) -> bool decreases n - k
{ k < n && (active(g, v, k + 2, a) || k + 1 >= n || !stops(g, v, k + 2)) && alive(g, v, k + 2) && (active(g, v, k + 2, a) || kept(g, v, n, a, k + 1)) }
// the byte k was consumed by one of the transitions of s
pub open spec fn used(g: DFAGraph, v: Seq<int>, k: int, s: Set<(usize, usize)>) -> bool {
    exists|x: (usize, usize)| #[trigger] s.contains(x) && active(g, v, k + 1, x.0 as int) && (x.0 == 0) == stops(g, v, k + 1) && hit(g, x.0 as int, x.1 as int, v[k + 1])
}
pub open spec fn revealed(g: DFAGraph, v: Seq<int>, n: int, a: int, ea: bool, k: int, s: Set<(usize, usize)>) -> bool { matched(g, v, n, a, ea) && used(g, v, k, s) && kept(g, v, n, a, k) }
pub open spec fn reveals(g: DFAGraph, w: Wit, n: int, a: int, ea: bool, k: int, s: Set<(usize, usize)>) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] sg(w, 14, k, i, 0) == (if revealed(g, inputs(w, n), n, a, ea, i, s) { sg(w, 5, 0, i, 0) } else { 0 })
}
// every transition of the set is one of the automaton, none leads to the start
pub open spec fn set_fits(g: DFAGraph, s: Set<(usize, usize)>) -> bool { forall|x: (usize, usize)| #[trigger] s.contains(x) ==> x.0 < g.states@.len() && 1 <= x.1 < g.states@.len() && edge(tr(g, x.0 as int), x.1) }
// at most one state other than the start is active
pub proof fn one_active(g: DFAGraph, v: Seq<int>, i: int, p: int, q: int)
    requires gdet(g), i >= 0, active(g, v, i, p), active(g, v, i, q), 1 <= p < g.states@.len(), 1 <= q < g.states@.len(), g.states@.len() <= usize::MAX
    ensures p == q
    decreases i
{
    if i > 0 {
        active_step(g, v, i - 1, p); active_step(g, v, i - 1, q);
        let b = v[i - 1];
        if stops(g, v, i - 1) {
            assert(!goes_on(g, v, i - 1, p)) by { assert(!goes(g, acts(g, v, i - 1), b, p)); }
            assert(!goes_on(g, v, i - 1, q)) by { assert(!goes(g, acts(g, v, i - 1), b, q)); }
            assert(det(tr(g, 0))); assert(has(tr(g, 0), p as usize, b as u8)); assert(has(tr(g, 0), q as usize, b as u8));
        } else {
            let x = choose|x: int| 1 <= x < g.states@.len() && acts(g, v, i - 1)(x) && #[trigger] hit(g, x, p, b);
            let y = choose|y: int| 1 <= y < g.states@.len() && acts(g, v, i - 1)(y) && #[trigger] hit(g, y, q, b);
            one_active(g, v, i - 1, x, y);
            assert(det(tr(g, x))); assert(has(tr(g, x), p as usize, b as u8)); assert(has(tr(g, x), q as usize, b as u8));
        }
    } else { active_step(g, v, 0, p); }
}

// a published transition between the active states of two positions is the one that consumed the byte between them
pub proof fn took(g: DFAGraph, v: Seq<int>, k: int, x: (usize, usize))
    requires gdet(g), k >= 0, x.0 < g.states@.len(), 1 <= x.1 < g.states@.len(), g.states@.len() <= usize::MAX, edge(tr(g, x.0 as int), x.1)
    ensures (active(g, v, k + 1, x.0 as int) && (x.0 == 0) == stops(g, v, k + 1) && active(g, v, k + 2, x.1 as int)) == (active(g, v, k + 1, x.0 as int) && (x.0 == 0) == stops(g, v, k + 1) && hit(g, x.0 as int, x.1 as int, v[k + 1]))
{
    let c = x.0 as int; let y = x.1 as int; let b = v[k + 1];
    active_step(g, v, k + 1, y);
    if active(g, v, k + 1, c) && (c == 0) == stops(g, v, k + 1) {
        if c == 0 { assert(!goes_on(g, v, k + 1, y)) by { assert(!goes(g, acts(g, v, k + 1), b, y)); } }
        else {
            if active(g, v, k + 2, y) { let p = choose|p: int| 1 <= p < g.states@.len() && acts(g, v, k + 1)(p) && #[trigger] hit(g, p, y, b); one_active(g, v, k + 1, p, c); }
            if hit(g, c, y, b) { assert(acts(g, v, k + 1)(c)); assert(goes(g, acts(g, v, k + 1), b, y)); }
        }
    }
}
pub proof fn kept_ind(g: DFAGraph, w: Wit, n: int, a: int, k: int)
    requires scans(g, w, n), consw(w, n, a), 1 <= a < g.states@.len(), 0 <= k <= n
    ensures sg(w, 10, 0, k, 2) == b2i(kept(g, inputs(w, n), n, a, k))
    decreases n - k
{
    let v = inputs(w, n);
    if k < n {
        kept_ind(g, w, n, a, k + 1);
        assert(consi(w, n, a, k)); assert(states_are(g, w, n, k + 2)); assert(step_is(g, w, n, k + 1));
        let s = sg(w, 1, 0, k + 2, a); let c = sg(w, 10, 0, k + 1, 2); let f = sg(w, 3, 0, k + 2, 0);
        assert(s == b2i(active(g, v, k + 2, a)));
        assert(k + 1 < n ==> f == b2i(stops(g, v, k + 2))) by { if k + 1 < n { assert(step_is(g, w, n, k + 2)); } }
        assert(k + 1 >= n ==> f == 0);
        mu_bit(s, 1 - c); fe_small(0); fe_small(1); fe_small(mu(s, 1 - c) + c);
        mu_bit(pt(w, 25, 0, k + 1, 3, 0), sg(w, 10, 0, k, 0));
        fe_small(1 - f);
    }
}
pub proof fn reveal_ok(g: DFAGraph, w: Wit, n: int, a: int, ea: bool, k: int, rs: Seq<(usize, usize)>, s: Set<(usize, usize)>)
    requires scans(g, w, n), decides(g, w, n, a, ea), consw(w, n, a), revw(w, n, k, rs), same_set(rs, s), set_fits(g, s), gdet(g), 1 <= a < g.states@.len() <= usize::MAX, n >= 0
    ensures reveals(g, w, n, a, ea, k, s)
{
    let v = inputs(w, n); let sl = g.states@.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] sg(w, 14, k, i, 0) == (if revealed(g, v, n, a, ea, i, s) { sg(w, 5, 0, i, 0) } else { 0 }) by {
        assert(revi(w, k, rs, i)); assert(states_are(g, w, n, i + 1)); assert(states_are(g, w, n, i + 2)); assert(step_is(g, w, n, i + 1));
        let xs = nextv(w, k, i, rs); let f = sg(w, 3, 0, i + 1, 0);
        fe_small(0); fe_small(1);
        assert forall|t: int| 0 <= t < rs.len() implies #[trigger] xs[t] == b2i(active(g, v, i + 1, rs[t].0 as int) && (rs[t].0 == 0) == stops(g, v, i + 1) && hit(g, rs[t].0 as int, rs[t].1 as int, v[i + 1])) by {
            let x = rs[t]; assert(rs.contains(x)); assert(s.contains(x)); took(g, v, i, x);
            let c = sg(w, 1, 0, i + 1, x.0 as int); let y = sg(w, 1, 0, i + 2, x.1 as int);
            assert(c == b2i(active(g, v, i + 1, x.0 as int))) by { if x.0 == 0 { acts_zero(g, v, i + 1); } }
            assert(y == b2i(active(g, v, i + 2, x.1 as int)));
            assert(sg(w, 11, k, t, i) == prevv(w, i, x.0 as int));
            let u = if x.0 == 0 { f } else { 1 - f };
            mu_bit(u, c); mu_bit(sg(w, 11, k, t, i), y);
        }
        assert(bits(xs));
        assert(any1(xs) == used(g, v, i, s)) by {
            if any1(xs) { let t = choose|t: int| 0 <= t < xs.len() && #[trigger] xs[t] == 1; assert(rs.contains(rs[t])); assert(s.contains(rs[t])); }
            if used(g, v, i, s) { let x = choose|x: (usize, usize)| #[trigger] s.contains(x) && active(g, v, i + 1, x.0 as int) && (x.0 == 0) == stops(g, v, i + 1) && hit(g, x.0 as int, x.1 as int, v[i + 1]); assert(rs.contains(x)); let t = choose|t: int| 0 <= t < rs.len() && rs[t] == x; assert(xs[t] == 1); }
        }
        kept_ind(g, w, n, a, i);
        let r = sg(w, 13, k, i, 0);
        assert(r == b2i(revealed(g, v, n, a, ea, i, s)));
        mu_bit(inv(w, i + 1), r); axiom_sg(w, 5, 0, i, 0); fe_small(sg(w, 5, 0, i, 0)); assert(inv(w, i + 1) == sg(w, 5, 0, i, 0));
    }
}
pub proof fn acts_zero(g: DFAGraph, v: Seq<int>, i: int) ensures active(g, v, i, 0) decreases i { if i > 0 { acts_zero(g, v, i - 1); } }
// the text of the substring constraints
#[verifier::opaque]
pub open spec fn is_substrs(t: VString, r: RegexAndDFA) -> bool {
    exists|a: int| first_acc(r.dfa.states@, a) && #[trigger] subs_ok(t.ls(), a, r.substrings.substring_ranges@, r.substrings.substring_ranges@.len() as int)
}
pub proof fn dec_plain(n: int) ensures !has_newline(dec_text(n)) decreases n
{
    reveal_with_fuel(dec_text, 2); if n >= 10 {
        dec_plain(n / 10); let t = dec_text(n / 10); let e = (48 + n % 10) as u8; push_hasg(t, e);
        assert(dec_text(n) == t.push(e)); assert(t.push(e).contains(10u8) == (t.contains(10u8) || 10u8 == e)); assert(t.push(e).contains(13u8) == (t.contains(13u8) || 13u8 == e));
    } else if n >= 0 { let t = dec_text(n); assert(t.len() == 1 && t[0] == (48 + n) as u8); if t.contains(10) { let q = choose|q: int| 0 <= q < t.len() && t[q] == 10u8; } if t.contains(13) { let q = choose|q: int| 0 <= q < t.len() && t[q] == 13u8; } }
}
pub proof fn add_none() ensures forall|x: Seq<VString>| #[trigger] (Seq::<VString>::empty() + x) == x { assert forall|x: Seq<VString>| #[trigger] (Seq::<VString>::empty() + x) == x by { assert(Seq::<VString>::empty() + x =~= x); } }
pub uninterp spec fn made_substrs(t: VString, r: RegexAndDFA) -> bool;

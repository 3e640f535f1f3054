// ---------- what a generated circuit computes ----------
// the constraints of a text: a statement holds once outside of a loop, for every value of the loop variable inside of one
pub open spec fn stk(ls: Seq<VString>) -> Option<VString> decreases ls.len()
{ if ls.len() == 0 { None } else if kind(ls.last()) == 2 { Some(ls.last()) } else if kind(ls.last()) == 3 { None } else { stk(ls.drop_last()) } }
pub open spec fn holds_at(l: VString, h: Option<VString>, w: Wit, n: int) -> bool { match h { None => lsat(l, w, n, 0), Some(h) => forall|i: int| flo(h, n) <= i < fhi(h, n) ==> #[trigger] lsat(l, w, n, i) } }
pub open spec fn csat(ls: Seq<VString>, w: Wit, n: int) -> bool decreases ls.len()
{ ls.len() == 0 || (csat(ls.drop_last(), w, n) && (kind(ls.last()) == 1 ==> holds_at(ls.last(), stk(ls.drop_last()), w, n))) }
pub proof fn stk_add(a: Seq<VString>, b: Seq<VString>) requires stk(a).is_none() ensures stk(a + b) == stk(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); stk_add(a, b.drop_last()); } }
pub proof fn csat_add(a: Seq<VString>, b: Seq<VString>, w: Wit, n: int) requires stk(a).is_none(), csat(a + b, w, n) ensures csat(a, w, n), csat(b, w, n) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); csat_add(a, b.drop_last(), w, n); stk_add(a, b.drop_last()); } }
// the same on the list of texts that are joined by line breaks: each one line of its own, or only lines that constrain nothing
pub open spec fn kv(e: VString) -> int { if own(e) { kind(e) } else { 0 } }
pub open spec fn none_of(s: Seq<VString>) -> bool { forall|q: int| 0 <= q < s.len() ==> kind(#[trigger] s[q]) == 0 }
pub open spec fn plain(e: VString) -> bool { own(e) || none_of(e.ls()) }
pub open spec fn plains(v: Seq<VString>) -> bool { forall|q: int| 0 <= q < v.len() ==> plain(#[trigger] v[q]) }
pub open spec fn stkv(v: Seq<VString>) -> Option<VString> decreases v.len()
{ if v.len() == 0 { None } else if kv(v.last()) == 2 { Some(v.last()) } else if kv(v.last()) == 3 { None } else { stkv(v.drop_last()) } }
pub open spec fn csatv(v: Seq<VString>, w: Wit, n: int) -> bool decreases v.len()
{ v.len() == 0 || (csatv(v.drop_last(), w, n) && (kv(v.last()) == 1 ==> holds_at(v.last(), stkv(v.drop_last()), w, n))) }
pub proof fn zeros(a: Seq<VString>, z: Seq<VString>, w: Wit, n: int) requires none_of(z), csat(a + z, w, n) ensures csat(a, w, n) decreases z.len()
{ if z.len() == 0 { assert(a + z =~= a); } else { assert((a + z).drop_last() =~= a + z.drop_last()); assert(none_of(z.drop_last())) by { assert forall|q: int| 0 <= q < z.len() - 1 implies kind(#[trigger] z.drop_last()[q]) == 0 by { assert(kind(z[q]) == 0); } } zeros(a, z.drop_last(), w, n); } }
pub proof fn zeros_stk(a: Seq<VString>, z: Seq<VString>) requires none_of(z) ensures stk(a + z) == stk(a) decreases z.len()
{ if z.len() == 0 { assert(a + z =~= a); } else { assert((a + z).drop_last() =~= a + z.drop_last()); assert((a + z).last() == z.last()); assert(kind(z[z.len() - 1]) == 0); assert(none_of(z.drop_last())) by { assert forall|q: int| 0 <= q < z.len() - 1 implies kind(#[trigger] z.drop_last()[q]) == 0 by { assert(kind(z[q]) == 0); } } zeros_stk(a, z.drop_last()); } }
pub proof fn flat_stk(v: Seq<VString>) requires plains(v) ensures stk(flat_ls(v)) == stkv(v) decreases v.len()
{
    if v.len() > 0 {
        let a = flat_ls(v.drop_last()); let e = v.last();
        assert(plains(v.drop_last())) by { assert forall|q: int| 0 <= q < v.len() - 1 implies plain(#[trigger] v.drop_last()[q]) by { assert(plain(v[q])); } }
        assert(plain(v[v.len() - 1]));
        flat_stk(v.drop_last());
        if own(e) { assert((a + e.ls()).drop_last() =~= a); assert((a + e.ls()).last() == e); } else { zeros_stk(a, e.ls()); }
    }
}
pub proof fn flat_csat(v: Seq<VString>, w: Wit, n: int) requires plains(v), csat(flat_ls(v), w, n) ensures csatv(v, w, n) decreases v.len()
{
    if v.len() > 0 {
        let a = flat_ls(v.drop_last()); let e = v.last();
        assert(plains(v.drop_last())) by { assert forall|q: int| 0 <= q < v.len() - 1 implies plain(#[trigger] v.drop_last()[q]) by { assert(plain(v[q])); } }
        assert(plain(v[v.len() - 1]));
        if own(e) { assert((a + e.ls()).drop_last() =~= a); assert((a + e.ls()).last() == e); flat_stk(v.drop_last()); } else { zeros(a, e.ls(), w, n); }
        flat_csat(v.drop_last(), w, n);
    }
}
pub proof fn flat_add(a: Seq<VString>, b: Seq<VString>) ensures flat_ls(a + b) == flat_ls(a) + flat_ls(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(flat_ls(a) + flat_ls(b) =~= flat_ls(a)); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); flat_add(a, b.drop_last()); assert(flat_ls(a) + (flat_ls(b.drop_last()) + b.last().ls()) =~= (flat_ls(a) + flat_ls(b.drop_last())) + b.last().ls()); } }
// reading positions of a list
pub proof fn at_stmt(v: Seq<VString>, w: Wit, n: int, q: int) requires csatv(v, w, n), 0 <= q < v.len(), kv(v[q]) == 1 ensures holds_at(v[q], stkv(v.take(q)), w, n) decreases v.len()
{ if q == v.len() - 1 { assert(v.drop_last() =~= v.take(q)); } else { at_stmt(v.drop_last(), w, n, q); assert(v.drop_last().take(q) =~= v.take(q)); assert(v.drop_last()[q] == v[q]); } }
pub proof fn at_step(v: Seq<VString>, q: int) requires 0 <= q < v.len() ensures stkv(v.take(q + 1)) == (if kv(v[q]) == 2 { Some(v[q]) } else if kv(v[q]) == 3 { None } else { stkv(v.take(q)) })
{ let t = v.take(q + 1); assert(t.last() == v[q]); assert(t.drop_last() =~= v.take(q)); }
pub proof fn at_run(v: Seq<VString>, a: int, b: int) requires 0 <= a <= b <= v.len(), forall|q: int| a <= q < b ==> kv(#[trigger] v[q]) == 0 || kv(v[q]) == 1 ensures stkv(v.take(b)) == stkv(v.take(a)) decreases b - a
{ if a < b { at_run(v, a, b - 1); at_step(v, b - 1); assert(kv(v[b - 1]) == 0 || kv(v[b - 1]) == 1); } }
pub proof fn at_start(v: Seq<VString>) ensures stkv(v.take(0)).is_none(), v.take(v.len() as int) == v { assert(v.take(v.len() as int) =~= v); assert(v.take(0).len() == 0); }
// the loop over the bytes
pub proof fn block_csat(ls: Seq<VString>) requires block(ls)
    ensures plains(ls), stkv(ls).is_none(), forall|w: Wit, n: int, i: int| #![trigger csatv(ls, w, n), sat(ls, w, n, i)] csatv(ls, w, n) && flo(ls[0], n) <= i < fhi(ls[0], n) ==> sat(ls, w, n, i)
{
    let m = ls.len() as int;
    assert forall|q: int| 0 <= q < m implies plain(#[trigger] ls[q]) by { if 0 < q < m - 1 { assert(own(ls[q])); } else if q == 0 { } else { assert(ls[q] == ls.last()); } }
    at_start(ls); at_step(ls, 0); at_step(ls, m - 1); assert(ls[m - 1] == ls.last());
    assert forall|w: Wit, n: int, i: int| #![trigger csatv(ls, w, n), sat(ls, w, n, i)] csatv(ls, w, n) && flo(ls[0], n) <= i < fhi(ls[0], n) implies sat(ls, w, n, i) by {
        reveal(sat);
        assert forall|q: int| 0 <= q < ls.len() && kind(#[trigger] ls[q]) == 1 implies lsat(ls[q], w, n, i) by {
            assert(0 < q < m - 1) by { if q == m - 1 { assert(ls[q] == ls.last()); } }
            assert(own(ls[q]));
            assert forall|t: int| 1 <= t < q implies kv(#[trigger] ls[t]) == 0 || kv(ls[t]) == 1 by { assert(own(ls[t])); }
            at_run(ls, 1, q); at_stmt(ls, w, n, q);
        }
    }
}
// what the declarations say
pub open spec fn byte_in(w: Wit, i: int) -> bool { lt8(sg(w, 5, 0, i, 0), 255, sg(w, 6, 0, i, 0)) && sg(w, 6, 0, i, 0) == 1 && sg(w, 4, 0, i + 1, 0) == sg(w, 5, 0, i, 0) }
pub open spec fn declw(w: Wit, n: int, ea: bool) -> bool {
    sg(w, 4, 0, 0, 0) == 255 && (forall|i: int| 0 <= i < n ==> #[trigger] byte_in(w, i)) && sg(w, 3, 0, n + 1, 0) == 0 && (ea ==> sg(w, 7, 0, 0, 0) == 0)
}
pub open spec fn part_ok(v: Seq<VString>) -> bool { plains(v) && stkv(v).is_none() }
#[verifier::opaque]
pub open spec fn decl_ok(v: Seq<VString>, ea: bool) -> bool { part_ok(v) && forall|w: Wit, n: int| n >= 0 && #[trigger] csatv(v, w, n) ==> declw(w, n, ea) }
// what the statements before the loop over the bytes say
#[verifier::opaque]
pub open spec fn init_ok(v: Seq<VString>, sl: int) -> bool { part_ok(v) && forall|w: Wit, n: int| n >= 0 && #[trigger] csatv(v, w, n) ==> forall|j: int| 1 <= j < sl ==> #[trigger] sg(w, 1, 0, 0, j) == 0 }
// what the statements behind it say
pub open spec fn accs(w: Wit, n: int, a: int) -> Seq<int> { Seq::new((n + 2) as nat, |i: int| sg(w, 1, 0, i, a)) }
pub open spec fn eacs(w: Wit, n: int, a: int, i: int) -> bool { sg(w, 9, 0, i + 1, 0) == b2i(i == sg(w, 7, 0, n + 1, 0)) && sg(w, 9, 0, i + 1, 1) == fe(sg(w, 9, 0, i, 1) + mu(sg(w, 1, 0, i, a), sg(w, 9, 0, i + 1, 0))) }
pub open spec fn accw(w: Wit, n: int, a: int, ea: bool) -> bool {
    &&& or_rel(pt(w, 26, 0, 0, 3, 0), accs(w, n, a))
    &&& !ea ==> sg(w, 8, 0, 0, 0) == pt(w, 26, 0, 0, 3, 0)
    &&& ea ==> sg(w, 9, 0, 0, 1) == 0 && (forall|i: int| 0 <= i < n + 2 ==> #[trigger] eacs(w, n, a, i)) && sg(w, 8, 0, 0, 0) == fe(mu(pt(w, 26, 0, 0, 3, 0), sg(w, 9, 0, n + 2, 1)))
}
#[verifier::opaque]
pub open spec fn acc_ok(v: Seq<VString>, a: int, ea: bool) -> bool { part_ok(v) && forall|w: Wit, n: int| n >= 0 && #[trigger] csatv(v, w, n) ==> accw(w, n, a, ea) }
pub proof fn one_elem(s: Set<usize>, x: usize) requires s.len() == 1, s.contains(x), s.finite() ensures s == Set::<usize>::empty().insert(x)
{ let r = s.remove(x); assert(r.len() == 0); assert forall|y: usize| s.contains(y) implies y == x by { if y != x { assert(r.contains(y)); } } assert(s =~= Set::<usize>::empty().insert(x)); }
// ---------- the scan ----------
// v: the bytes that are read, 255 first. A state is active after i bytes if a transition leads there from a state other than the start
// that was active before, or, when no transition leads from such a state anywhere, from the start.
pub open spec fn hit(g: DFAGraph, p: int, j: int, b: int) -> bool { 1 <= b && b <= 255 && 0 <= p < g.states@.len() && 0 <= j < g.states@.len() && has(tr(g, p), j as usize, b as u8) }
pub open spec fn goes(g: DFAGraph, a: spec_fn(int) -> bool, b: int, j: int) -> bool { exists|p: int| 1 <= p < g.states@.len() && a(p) && #[trigger] hit(g, p, j, b) }
pub open spec fn goes_nowhere(g: DFAGraph, a: spec_fn(int) -> bool, b: int) -> bool { forall|j: int| 1 <= j < g.states@.len() ==> !(#[trigger] goes(g, a, b, j)) }
pub open spec fn acts(g: DFAGraph, v: Seq<int>, i: int) -> spec_fn(int) -> bool decreases i
{ if i <= 0 { |j: int| j == 0 } else { let a = acts(g, v, i - 1); |j: int| j == 0 || (0 < j < g.states@.len() && (goes(g, a, v[i - 1], j) || (goes_nowhere(g, a, v[i - 1]) && hit(g, 0, j, v[i - 1])))) } }
pub open spec fn active(g: DFAGraph, v: Seq<int>, i: int, j: int) -> bool { acts(g, v, i)(j) }
// a transition from an active state other than the start leads to j with the byte i
pub open spec fn goes_on(g: DFAGraph, v: Seq<int>, i: int, j: int) -> bool { goes(g, acts(g, v, i), v[i], j) }
pub open spec fn stops(g: DFAGraph, v: Seq<int>, i: int) -> bool { goes_nowhere(g, acts(g, v, i), v[i]) }
pub proof fn active_step(g: DFAGraph, v: Seq<int>, i: int, j: int) requires i >= 0, 1 <= j < g.states@.len()
    ensures active(g, v, i + 1, j) == (goes_on(g, v, i, j) || (stops(g, v, i) && hit(g, 0, j, v[i]))), !active(g, v, 0, j) {}
pub open spec fn alive(g: DFAGraph, v: Seq<int>, i: int) -> bool { exists|j: int| 1 <= j < g.states@.len() && #[trigger] active(g, v, i, j) }
pub open spec fn count_nz(v: Seq<int>, i: int) -> int decreases i { if i <= 0 { 0 } else { count_nz(v, i - 1) + b2i(v[i - 1] != 0) } }
pub open spec fn inputs(w: Wit, n: int) -> Seq<int> { Seq::new((n + 1) as nat, |i: int| inv(w, i)) }
pub open spec fn msg_ok(x: int) -> bool { x == P() - 1 || (0 <= x && x <= 254) }
// what a satisfied circuit for the automaton g over a message of n bytes looks like
pub open spec fn reads(w: Wit, n: int) -> bool { inv(w, 0) == 255 && forall|i: int| 0 <= i < n ==> inv(w, i + 1) == #[trigger] sg(w, 5, 0, i, 0) && msg_ok(sg(w, 5, 0, i, 0)) }
pub open spec fn states_are(g: DFAGraph, w: Wit, n: int, i: int) -> bool { forall|j: int| 1 <= j < g.states@.len() ==> #[trigger] sg(w, 1, 0, i, j) == b2i(active(g, inputs(w, n), i, j)) }
pub open spec fn step_is(g: DFAGraph, w: Wit, n: int, i: int) -> bool {
    sg(w, 1, 0, i, 0) == 1 && sg(w, 3, 0, i, 0) == b2i(stops(g, inputs(w, n), i)) && pt(w, 25, 0, i, 3, 0) == b2i(alive(g, inputs(w, n), i + 1))
}
pub open spec fn scans(g: DFAGraph, w: Wit, n: int) -> bool {
    &&& reads(w, n)
    &&& forall|i: int| 0 <= i <= n + 1 ==> #[trigger] states_are(g, w, n, i)
    &&& forall|i: int| 0 <= i <= n ==> #[trigger] step_is(g, w, n, i)
    &&& sg(w, 3, 0, n + 1, 0) == 0
}
// the output for the accepting state a
pub open spec fn ever(g: DFAGraph, v: Seq<int>, n: int, a: int) -> bool { exists|i: int| 0 <= i <= n && #[trigger] active(g, v, i, a) }
pub open spec fn matched(g: DFAGraph, v: Seq<int>, n: int, a: int, ea: bool) -> bool { if ea { active(g, v, count_nz(v, n + 1), a) } else { ever(g, v, n + 1, a) } }
pub open spec fn decides(g: DFAGraph, w: Wit, n: int, a: int, ea: bool) -> bool { sg(w, 8, 0, 0, 0) == b2i(matched(g, inputs(w, n), n, a, ea)) }
pub open spec fn only_acc(g: DFAGraph, a: int) -> bool { 0 <= a < g.states@.len() && acc(g.states@[a]) && forall|i: int| 0 <= i < g.states@.len() && acc(#[trigger] g.states@[i]) ==> i == a }
// the circuit: exactly one accepting state, and every witness of it scans and decides (an automaton whose start accepts is out of scope)
pub open spec fn circuit_of(g: DFAGraph, ea: bool, a: int, w: Wit, n: int) -> bool { scans(g, w, n) && (a != 0 ==> decides(g, w, n, a, ea)) }
pub open spec fn circuit_text(ls: Seq<VString>, g: DFAGraph, ea: bool, a: int) -> bool { stk(ls).is_none() && forall|w: Wit, n: int| 0 <= n <= u64::MAX && #[trigger] csat(ls, w, n) ==> circuit_of(g, ea, a, w, n) }

pub proof fn step_graph(rv: Rv, g: DFAGraph, w: Wit, n: int, i: int)
    requires rinv(rv, g), 0 <= i <= n, states_are(g, w, n, i), g.states@.len() <= usize::MAX
    ensures forall|j: usize| 1 <= j < g.states@.len() ==> #[trigger] contw(rv, w, i, j) == goes_on(g, inputs(w, n), i, j as int),
        anyc(rv, w, i, g.states@.len() as int) == !stops(g, inputs(w, n), i),
        forall|j: usize| 1 <= j < g.states@.len() ==> #[trigger] nexta(rv, w, i, g.states@.len() as int, j) == active(g, inputs(w, n), i + 1, j as int),
{
    let v = inputs(w, n); let sl = g.states@.len() as int; let b = v[i];
    assert(b == inv(w, i));
    assert forall|p: usize, j: usize| 0 <= p < sl && 0 <= j < sl implies (rhas(rv, j, p) && inb(b, #[trigger] rbytes(rv, j, p))) == hit(g, p as int, j as int, b) by {
        assert(rhas(rv, j, p) == (j < sl && p < sl && edge(tr(g, p as int), j)));
        if rhas(rv, j, p) && 1 <= b <= 255 { assert(rbytes(rv, j, p).contains(b as u8) == tr(g, p as int)[j]@.contains(b as u8)); }
    }
    assert forall|j: usize| 1 <= j < sl implies #[trigger] contw(rv, w, i, j) == goes_on(g, v, i, j as int) by {
        if contw(rv, w, i, j) {
            let p = choose|p: usize| p != 0 && #[trigger] rhas(rv, j, p) && sg(w, 1, 0, i, p as int) == 1 && inb(inv(w, i), rbytes(rv, j, p));
            assert(active(g, v, i, p as int)); assert(hit(g, p as int, j as int, b));
        }
        if goes_on(g, v, i, j as int) {
            let p = choose|p: int| 1 <= p < sl && acts(g, v, i)(p) && #[trigger] hit(g, p, j as int, v[i]); assert(active(g, v, i, p));
            let pu = p as usize; assert(hit(g, pu as int, j as int, b)); assert(rhas(rv, j, pu) == edge(tr(g, p), j)); assert(rbytes(rv, j, pu).contains(b as u8)); assert(inb(b, rbytes(rv, j, pu))); assert(sg(w, 1, 0, i, p) == 1);
        }
    }
    if anyc(rv, w, i, sl) { let j = choose|j: usize| 1 <= j < sl && #[trigger] contw(rv, w, i, j); assert(goes_on(g, v, i, j as int)); }
    if !stops(g, v, i) { let j = choose|j: int| 1 <= j < sl && #[trigger] goes(g, acts(g, v, i), v[i], j); let ju = j as usize; assert(goes_on(g, v, i, ju as int)); assert(contw(rv, w, i, ju)); }
    assert forall|j: usize| 1 <= j < sl implies #[trigger] nexta(rv, w, i, sl, j) == active(g, v, i + 1, j as int) by {
        assert(contw(rv, w, i, j) == goes_on(g, v, i, j as int)); active_step(g, v, i, j as int);
        let z = 0usize; assert((rhas(rv, j, z) && inb(b, rbytes(rv, j, z))) == hit(g, z as int, j as int, b));
    }
}
pub proof fn reads_of(w: Wit, n: int, ea: bool) requires declw(w, n, ea), n >= 0 ensures reads(w, n), forall|i: int| 0 <= i <= n ==> inok(#[trigger] inv(w, i))
{
    axiom_p();
    assert forall|i: int| 0 <= i < n implies inv(w, i + 1) == #[trigger] sg(w, 5, 0, i, 0) && msg_ok(sg(w, 5, 0, i, 0)) by {
        assert(byte_in(w, i)); axiom_sg(w, 5, 0, i, 0); fe_small(sg(w, 5, 0, i, 0) + 256 - 255);
    }
    assert forall|i: int| 0 <= i <= n implies inok(#[trigger] inv(w, i)) by { if i > 0 { assert(inv(w, (i - 1) + 1) == sg(w, 5, 0, i - 1, 0)); } }
}
pub proof fn scan_ind(ls: Seq<VString>, rv: Rv, g: DFAGraph, w: Wit, n: int, ea: bool, i: int)
    requires rinv(rv, g), 1 <= g.states@.len() <= usize::MAX, declw(w, n, ea), 0 <= i <= n + 1, n >= 0, step_ok(ls, rv, g.states@.len() as int, ea),
        forall|q: int| 0 <= q <= n ==> #[trigger] sat(ls, w, n, q), forall|j: int| 1 <= j < g.states@.len() ==> #[trigger] sg(w, 1, 0, 0, j) == 0,
    ensures states_are(g, w, n, i), i <= n ==> step_is(g, w, n, i) && stepw(rv, g.states@.len() as int, ea, w, i)
    decreases i
{
    let v = inputs(w, n); let sl = g.states@.len() as int;
    reads_of(w, n, ea); reveal(step_ok);
    if i > 0 {
        scan_ind(ls, rv, g, w, n, ea, i - 1); step_graph(rv, g, w, n, i - 1);
        assert forall|j: int| 1 <= j < sl implies #[trigger] sg(w, 1, 0, i, j) == b2i(active(g, v, i, j)) by { let ju = j as usize; assert(sg(w, 1, 0, (i - 1) + 1, ju as int) == b2i(nexta(rv, w, i - 1, sl, ju))); }
    }
    if i <= n {
        assert(sat(ls, w, n, i)); assert(inok(inv(w, i)));
        assert forall|j: int| 1 <= j < sl implies bit(#[trigger] sg(w, 1, 0, i, j)) by { }
        assert(stepw(rv, sl, ea, w, i));
        step_graph(rv, g, w, n, i);
        assert(anys(w, i + 1, sl) == alive(g, v, i + 1)) by {
            assert forall|j: int| 1 <= j < sl implies #[trigger] sg(w, 1, 0, i + 1, j) == b2i(active(g, v, i + 1, j)) by { let ju = j as usize; assert(sg(w, 1, 0, i + 1, ju as int) == b2i(nexta(rv, w, i, sl, ju))); }
            if anys(w, i + 1, sl) { let j = choose|j: int| 1 <= j < sl && #[trigger] sg(w, 1, 0, i + 1, j) == 1; assert(active(g, v, i + 1, j)); }
            if alive(g, v, i + 1) { let j = choose|j: int| 1 <= j < sl && #[trigger] active(g, v, i + 1, j); assert(sg(w, 1, 0, i + 1, j) == 1); }
        }
    }
}
pub proof fn count_le(v: Seq<int>, i: int) requires i >= 0 ensures 0 <= count_nz(v, i) <= i decreases i { if i > 0 { count_le(v, i - 1); } }
pub proof fn pad_ind(ls: Seq<VString>, rv: Rv, g: DFAGraph, w: Wit, n: int, i: int)
    requires rinv(rv, g), 1 <= g.states@.len() <= usize::MAX, declw(w, n, true), 0 <= i <= n + 1, 0 <= n <= u64::MAX, step_ok(ls, rv, g.states@.len() as int, true),
        forall|q: int| 0 <= q <= n ==> #[trigger] sat(ls, w, n, q), forall|j: int| 1 <= j < g.states@.len() ==> #[trigger] sg(w, 1, 0, 0, j) == 0,
    ensures sg(w, 7, 0, i, 0) == count_nz(inputs(w, n), i)
    decreases i
{
    if i > 0 { pad_ind(ls, rv, g, w, n, i - 1); scan_ind(ls, rv, g, w, n, true, i - 1); count_le(inputs(w, n), i - 1); axiom_p(); fe_small(count_nz(inputs(w, n), i - 1)); fe_small(count_nz(inputs(w, n), i - 1) + 1); assert(inputs(w, n)[i - 1] == inv(w, i - 1)); }
}
// the running sum of the end check: one as soon as the position c has been passed with a active there
pub proof fn end_ind(g: DFAGraph, w: Wit, n: int, a: int, c: int, i: int)
    requires 1 <= a < g.states@.len(), sg(w, 9, 0, 0, 1) == 0, 0 <= i <= n + 2, forall|q: int| 0 <= q < n + 2 ==> #[trigger] eacs(w, n, a, q), sg(w, 7, 0, n + 1, 0) == c,
        forall|q: int| 0 <= q <= n + 1 ==> #[trigger] states_are(g, w, n, q), n >= 0,
    ensures sg(w, 9, 0, i, 1) == b2i(0 <= c < i && active(g, inputs(w, n), c, a))
    decreases i
{
    if i > 0 {
        end_ind(g, w, n, a, c, i - 1); assert(eacs(w, n, a, i - 1)); assert(states_are(g, w, n, i - 1));
        let x = sg(w, 1, 0, i - 1, a); let e = sg(w, 9, 0, i, 0);
        assert(x == b2i(active(g, inputs(w, n), i - 1, a)));
        mu_bit(x, e); fe_small(0); fe_small(1);
    }
}
pub proof fn circuit_done(ls: Seq<VString>, rv: Rv, g: DFAGraph, w: Wit, n: int, a: int, ea: bool)
    requires rinv(rv, g), 1 <= g.states@.len() <= usize::MAX, declw(w, n, ea), 0 <= n <= u64::MAX, step_ok(ls, rv, g.states@.len() as int, ea),
        forall|q: int| 0 <= q <= n ==> #[trigger] sat(ls, w, n, q), forall|j: int| 1 <= j < g.states@.len() ==> #[trigger] sg(w, 1, 0, 0, j) == 0,
        accw(w, n, a, ea), 0 <= a < g.states@.len(),
    ensures circuit_of(g, ea, a, w, n)
{
    let v = inputs(w, n);
    reads_of(w, n, ea);
    assert forall|i: int| 0 <= i <= n + 1 implies #[trigger] states_are(g, w, n, i) by { scan_ind(ls, rv, g, w, n, ea, i); }
    assert forall|i: int| 0 <= i <= n implies #[trigger] step_is(g, w, n, i) by { scan_ind(ls, rv, g, w, n, ea, i); }
    if a != 0 {
        let xs = accs(w, n, a);
        assert forall|i: int| 0 <= i < xs.len() implies #[trigger] xs[i] == b2i(active(g, v, i, a)) by { assert(states_are(g, w, n, i)); }
        assert(bits(xs));
        assert(any1(xs) == ever(g, v, n + 1, a)) by {
            if any1(xs) { let q = choose|q: int| 0 <= q < xs.len() && #[trigger] xs[q] == 1; assert(active(g, v, q, a)); }
            if ever(g, v, n + 1, a) { let q = choose|q: int| 0 <= q <= n + 1 && #[trigger] active(g, v, q, a); assert(xs[q] == 1); }
        }
        if ea {
            pad_ind(ls, rv, g, w, n, n + 1); let c = count_nz(v, n + 1); count_le(v, n + 1);
            end_ind(g, w, n, a, c, n + 2);
            if active(g, v, c, a) { assert(ever(g, v, n + 1, a)); }
            mu_bit(pt(w, 26, 0, 0, 3, 0), sg(w, 9, 0, n + 2, 1)); fe_small(0); fe_small(1);
        }
    }
}
// the text of a circuit, and its parts put together
#[verifier::opaque]
pub open spec fn is_allstr(s: VString, g: DFAGraph, name: Seq<u8>, ea: bool) -> bool { exists|a: int| #[trigger] only_acc(g, a) && (!has_newline(name) ==> circuit_text(s.ls(), g, ea, a)) }
pub proof fn allstr_of(s: VString, g: DFAGraph, name: Seq<u8>, ea: bool, a: int)
    requires only_acc(g, a), !has_newline(name) ==> circuit_text(s.ls(), g, ea, a)
    ensures is_allstr(s, g, name, ea)
{ reveal(is_allstr); }
pub proof fn circuit_text_of(d: Seq<VString>, t: Seq<VString>, b: Seq<VString>, e: Seq<VString>, rv: Rv, g: DFAGraph, a: int, ea: bool)
    requires decl_ok(d, ea), init_ok(t, g.states@.len() as int), block(b), forall|n: int| #[trigger] flo(b[0], n) == 0 && fhi(b[0], n) == n + 1,
        step_ok(b, rv, g.states@.len() as int, ea), acc_ok(e, a, ea), rinv(rv, g), 1 <= g.states@.len() <= usize::MAX, 0 <= a < g.states@.len(),
    ensures circuit_text(flat_ls(d + t + b + e), g, ea, a)
{
    reveal(decl_ok); reveal(init_ok); reveal(acc_ok);
    let ls = flat_ls(d + t + b + e);
    flat_add(d + t + b, e); flat_add(d + t, b); flat_add(d, t); flat_stk(d); flat_stk(t); flat_stk(b); flat_stk(e);
    block_csat(b);
    let x = flat_ls(d); let y = flat_ls(t); let z = flat_ls(b); let u = flat_ls(e);
    stk_add(x, y); stk_add(x + y, z); stk_add(x + y + z, u);
    assert forall|w: Wit, n: int| 0 <= n <= u64::MAX && #[trigger] csat(ls, w, n) implies circuit_of(g, ea, a, w, n) by {
        csat_add(x + y + z, u, w, n); csat_add(x + y, z, w, n); csat_add(x, y, w, n);
        flat_csat(d, w, n); flat_csat(t, w, n); flat_csat(b, w, n); flat_csat(e, w, n);
        assert forall|q: int| 0 <= q <= n implies #[trigger] sat(b, w, n, q) by { assert(flo(b[0], n) == 0); }
        circuit_done(b, rv, g, w, n, a, ea);
    }
}
// where a text comes from: a result of the generator for these arguments (true of every result by definition; assumed where it returns)
pub uninterp spec fn made_allstr(s: VString, g: DFAGraph, name: Seq<u8>, pattern: Seq<u8>, ea: bool) -> bool;

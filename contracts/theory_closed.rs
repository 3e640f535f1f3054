// ---------- what the lines of a circuit do to its cells ----------
pub open spec fn b2n(b: bool) -> int { if b { 1 } else { 0 } }
// how often the line does it: once outside of a loop, for every value of the loop variable inside of one
pub open spec fn rng(l: VString, m: int, n: int, c: Cell, lo: int, hi: int) -> int decreases hi - lo { if hi <= lo { 0 } else { rng(l, m, n, c, lo, hi - 1) + b2n(fa(l, m, n, hi - 1, c)) } }
pub open spec fn times(l: VString, h: Option<VString>, m: int, n: int, c: Cell) -> int { match h { None => b2n(fa(l, m, n, 0, c)), Some(h) => rng(l, m, n, c, flo(h, n), fhi(h, n)) } }
// the header of the loop that is open behind the lines; nesting (0 none open, 1 one open, -1 not well formed)
pub open spec fn hdr(ls: Seq<VString>) -> Option<VString> decreases ls.len()
{ if ls.len() == 0 { None } else if kind(ls.last()) == 2 { Some(ls.last()) } else if kind(ls.last()) == 3 { None } else { hdr(ls.drop_last()) } }
pub open spec fn nest(ls: Seq<VString>) -> int decreases ls.len()
{ if ls.len() == 0 { 0 } else { let d = nest(ls.drop_last()); if kind(ls.last()) == 2 { if d == 0 { 1 } else { -1 } } else if kind(ls.last()) == 3 { if d == 1 { 0 } else { -1 } } else { d } } }
// how often the lines do m to the cell c, for n = msg_bytes
pub open spec fn tot(ls: Seq<VString>, m: int, n: int, c: Cell) -> int decreases ls.len()
{ if ls.len() == 0 { 0 } else { tot(ls.drop_last(), m, n, c) + times(ls.last(), hdr(ls.drop_last()), m, n, c) } }
pub proof fn rng_one(l: VString, m: int, n: int, c: Cell, lo: int, hi: int, it: int)
    requires forall|i: int| lo <= i < hi && #[trigger] fa(l, m, n, i, c) ==> i == it
    ensures rng(l, m, n, c, lo, hi) == b2n(lo <= it < hi && fa(l, m, n, it, c))
    decreases hi - lo
{ if lo < hi { rng_one(l, m, n, c, lo, hi - 1, it); } }
pub proof fn rng_pos(l: VString, m: int, n: int, c: Cell, lo: int, hi: int)
    ensures rng(l, m, n, c, lo, hi) >= 0, rng(l, m, n, c, lo, hi) > 0 ==> exists|i: int| lo <= i < hi && #[trigger] fa(l, m, n, i, c)
    decreases hi - lo
{ if lo < hi { rng_pos(l, m, n, c, lo, hi - 1); if fa(l, m, n, hi - 1, c) { assert(fa(l, m, n, hi - 1, c)); } } }
pub proof fn tot_pos(ls: Seq<VString>, m: int, n: int, c: Cell) ensures tot(ls, m, n, c) >= 0 decreases ls.len()
{ if ls.len() > 0 { tot_pos(ls.drop_last(), m, n, c); match hdr(ls.drop_last()) { None => {}, Some(h) => { rng_pos(ls.last(), m, n, c, flo(h, n), fhi(h, n)); } } } }
pub proof fn tot_add1(a: Seq<VString>, b: Seq<VString>, m: int, n: int, c: Cell)
    requires nest(a) == 0
    ensures hdr(a).is_none(), tot(a + b, m, n, c) == tot(a, m, n, c) + tot(b, m, n, c), nest(a + b) == nest(b), hdr(a + b) == hdr(b)
    decreases b.len()
{
    nest_hdr(a);
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); tot_add1(a, b.drop_last(), m, n, c); }
}
pub proof fn nest_hdr(a: Seq<VString>) ensures nest(a) == 0 ==> hdr(a).is_none(), nest(a) == 1 ==> hdr(a).is_some() decreases a.len() { if a.len() > 0 { nest_hdr(a.drop_last()); } }
pub proof fn tot_add(a: Seq<VString>, b: Seq<VString>)
    requires nest(a) == 0
    ensures nest(a + b) == nest(b), forall|m: int, n: int, c: Cell| #[trigger] tot(a + b, m, n, c) == tot(a, m, n, c) + tot(b, m, n, c)
{ assert forall|m: int, n: int, c: Cell| #[trigger] tot(a + b, m, n, c) == tot(a, m, n, c) + tot(b, m, n, c) by { tot_add1(a, b, m, n, c); } tot_add1(a, b, 0, 0, arbitrary()); }
// one more line
pub proof fn tot_push(a: Seq<VString>, l: VString)
    ensures forall|m: int, n: int, c: Cell| #[trigger] tot(a.push(l), m, n, c) == tot(a, m, n, c) + times(l, hdr(a), m, n, c),
        hdr(a.push(l)) == (if kind(l) == 2 { Some(l) } else if kind(l) == 3 { None } else { hdr(a) }),
        nest(a.push(l)) == (if kind(l) == 2 { if nest(a) == 0 { 1int } else { -1int } } else if kind(l) == 3 { if nest(a) == 1 { 0int } else { -1int } } else { nest(a) })
{ assert(a.push(l).drop_last() =~= a); assert(a.push(l).last() == l); }
// one more text of a list of texts
pub proof fn flat_push(v: Seq<VString>, q: int)
    requires 0 <= q < v.len(), v[q].ls().len() <= 1
    ensures v[q].ls().len() == 0 ==> flat_ls(v.take(q + 1)) == flat_ls(v.take(q)), v[q].ls().len() == 1 ==> flat_ls(v.take(q + 1)) == flat_ls(v.take(q)).push(v[q].ls()[0])
{ let t = v.take(q + 1); assert(t.drop_last() =~= v.take(q)); assert(t.last() == v[q]); let a = flat_ls(v.take(q)); if v[q].ls().len() == 0 { assert(a + v[q].ls() =~= a); } else { assert(a + v[q].ls() =~= a.push(v[q].ls()[0])); } }
pub proof fn flat_cat(a: Seq<VString>, b: Seq<VString>) ensures flat_ls(a + b) == flat_ls(a) + flat_ls(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(flat_ls(a) + flat_ls(b) =~= flat_ls(a)); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); flat_cat(a, b.drop_last()); assert(flat_ls(a) + (flat_ls(b.drop_last()) + b.last().ls()) =~= (flat_ls(a) + flat_ls(b.drop_last())) + b.last().ls()); } }
pub proof fn flat_own(v: Seq<VString>) requires forall|q: int| 0 <= q < v.len() ==> (#[trigger] v[q]).ls() == seq![v[q]] ensures flat_ls(v) == v decreases v.len()
{ if v.len() > 0 { assert forall|q: int| 0 <= q < v.len() - 1 implies (#[trigger] v.drop_last()[q]).ls() == seq![v.drop_last()[q]] by { assert(v[q].ls() == seq![v[q]]); } flat_own(v.drop_last()); assert(v[v.len() - 1].ls() == seq![v.last()]); assert(v.drop_last() + seq![v.last()] =~= v); } }
// ---------- the statements of the loop over the bytes ----------
// the round of the loop in which a cell is written: its row, or the round before for the states that follow
pub open spec fn itc(c: Cell) -> int { if c.s == 1 { if c.b == 0 { c.a } else { c.a - 1 } } else if c.s == 2 || c.s == 7 { c.a - 1 } else if c.s == 3 { c.a } else { c.b } }
pub open spec fn g(ls: Seq<VString>, m: int, n: int, c: Cell) -> int decreases ls.len() { if ls.len() == 0 { 0 } else { g(ls.drop_last(), m, n, c) + b2n(fa(ls.last(), m, n, itc(c), c)) } }
pub open spec fn d(u: Seq<VString>, v: Seq<VString>, m: int, n: int, c: Cell) -> int { g(v, m, n, c) - g(u, m, n, c) }
pub proof fn gp(u: Seq<VString>, l: VString) ensures forall|m: int, n: int, c: Cell| #[trigger] g(u.push(l), m, n, c) == g(u, m, n, c) + b2n(fa(l, m, n, itc(c), c))
{ assert(u.push(l).drop_last() =~= u); assert(u.push(l).last() == l); }
pub open spec fn comp(c: Cell) -> Cell { Cell { s: c.s, k: c.k, a: c.a, b: c.b, p: -1, q: 0 } }
pub open spec fn sgn(c: Cell, s: int, nd: int) -> bool { c.s == s && c.k == 0 && c.p == -1 && c.q == nd && (nd < 2 ==> c.b == 0) && (nd < 1 ==> c.a == 0) }
// the instances with indices from the first to the second counter: eq, lt, and, multi_or
pub struct Cnt { pub e: usize, pub l: usize, pub a: usize, pub o: usize }
pub open spec fn inst(c: Cell, x: Cnt, y: Cnt) -> bool {
    c.k == 0 && c.p == -1 && c.q == 0 && ((c.s == 21 && x.e <= c.a < y.e) || (c.s == 22 && x.l <= c.a < y.l) || (c.s == 23 && x.a <= c.a < y.a) || (c.s == 24 && x.o <= c.a < y.o))
}
pub open spec fn le4(x: Cnt, y: Cnt) -> bool { x.e <= y.e && x.l <= y.l && x.a <= y.a && x.o <= y.o }
pub open spec fn c0() -> Cnt { Cnt { e: 0, l: 0, a: 0, o: 0 } }
// what a statement of round i may read: the byte, the states of the round, outputs of instances of the round with an index below the counter
pub open spec fn rdb(i: int, c: Cell, y: Cnt, sl: int) -> bool {
    (sgn(c, 4, 1) && c.a == i) || (sgn(c, 1, 2) && c.a == i && 0 <= c.b < sl) || (c.p == 3 && c.q == 0 && c.b == i && inst(comp(c), c0(), y))
}
pub open spec fn lok(l: VString, y: Cnt, sl: int) -> bool {
    &&& kind(l) == 1 && l.ls() == seq![l]
    &&& forall|n: int, i: int, c: Cell| #[trigger] fa(l, 0, n, i, c) ==> i == itc(c)
    &&& forall|n: int, i: int, c: Cell| #[trigger] fa(l, 1, n, i, c) ==> i == itc(c)
    &&& forall|n: int, i: int, c: Cell| #[trigger] fa(l, 2, n, i, c) ==> rdb(i, c, y, sl)
    &&& forall|m: int, n: int, i: int, c: Cell| m >= 3 ==> !(#[trigger] fa(l, m, n, i, c))
}
// v has further statements behind those of u. They make each instance between the counters once, write each input an instance opens once
// and nothing else of an instance, and write of the signals only name[i+1][sj] of the signal name sn (0: none)
#[verifier::opaque]
pub open spec fn step(u: Seq<VString>, v: Seq<VString>, x: Cnt, y: Cnt, sn: int, sj: int, sl: int) -> bool {
    &&& u.len() <= v.len() && (forall|q: int| 0 <= q < u.len() ==> #[trigger] v[q] == u[q])
    &&& le4(x, y)
    &&& forall|q: int| u.len() <= q < v.len() ==> lok(#[trigger] v[q], y, sl)
    &&& forall|n: int, c: Cell| #[trigger] dok(u, v, x, y, sn, sj, n, c)
}
pub open spec fn dok(u: Seq<VString>, v: Seq<VString>, x: Cnt, y: Cnt, sn: int, sj: int, n: int, c: Cell) -> bool {
    let w = d(u, v, 0, n, c); let o = d(u, v, 1, n, c);
    &&& c.s < 20 ==> o == 0 && w == b2n(sn != 0 && sgn(c, sn, 2) && c.b == sj)
    &&& c.s >= 20 && c.p == -1 ==> o == 0 && w == b2n(inst(c, x, y))
    &&& c.s >= 20 && c.p != -1 ==> w == o && 0 <= o <= d(u, v, 0, n, comp(c)) && (c.p < 0 || c.p > 2 ==> o == 0)
}
pub proof fn lok_more(l: VString, y: Cnt, z: Cnt, sl: int) requires lok(l, y, sl), le4(y, z) ensures lok(l, z, sl) {}
pub proof fn step_none(u: Seq<VString>, x: Cnt, sl: int) ensures step(u, u, x, x, 0, 0, sl) { reveal(step); assert forall|n: int, c: Cell| #[trigger] dok(u, u, x, x, 0, 0, n, c) by {} }
pub proof fn step_add(u: Seq<VString>, v: Seq<VString>, w: Seq<VString>, x: Cnt, y: Cnt, z: Cnt, sn: int, sj: int, sl: int)
    requires step(u, v, x, y, 0, 0, sl), step(v, w, y, z, sn, sj, sl)
    ensures step(u, w, x, z, sn, sj, sl)
{
    reveal(step);
    assert forall|q: int| 0 <= q < u.len() implies #[trigger] w[q] == u[q] by { assert(v[q] == u[q]); }
    assert forall|q: int| u.len() <= q < w.len() implies lok(#[trigger] w[q], z, sl) by { if q < v.len() { assert(w[q] == v[q]); lok_more(v[q], y, z, sl); } }
    assert forall|n: int, c: Cell| #[trigger] dok(u, w, x, z, sn, sj, n, c) by { assert(dok(u, v, x, y, 0, 0, n, c) && dok(v, w, y, z, sn, sj, n, c)); assert(dok(u, v, x, y, 0, 0, n, comp(c)) && dok(v, w, y, z, sn, sj, n, comp(c))); }
}
// the outputs that may be combined: their instances are below the counters
pub open spec fn outs_lt(eo: Seq<(&VString, usize)>, y: Cnt) -> bool { forall|q: int| 0 <= q < eo.len() ==> isname(*(#[trigger] eo[q]).0) && ((nm(*eo[q].0) == 21 && eo[q].1 < y.e) || (nm(*eo[q].0) == 23 && eo[q].1 < y.a)) }
pub open spec fn outs_nm(eo: Seq<(&VString, usize)>) -> bool { forall|q: int| 0 <= q < eo.len() ==> isname(*(#[trigger] eo[q]).0) && (nm(*eo[q].0) == 21 || nm(*eo[q].0) == 23) }
pub open spec fn all_lt(v: Seq<usize>, k: int) -> bool { forall|q: int| 0 <= q < v.len() ==> #[trigger] v[q] < k }
pub open spec fn eqs_lt(v: Seq<Option<usize>>, k: int) -> bool { v.len() == 256 && forall|q: int| 0 <= q < v.len() && (#[trigger] v[q]).is_some() ==> v[q].unwrap() < k }
pub open spec fn rcs_lt(v: Seq<Vec<Option<(usize, usize)>>>, k: int) -> bool {
    v.len() == 256 && forall|q: int| 0 <= q < 256 ==> (#[trigger] v[q])@.len() == 256 && forall|t: int| 0 <= t < 256 && (#[trigger] v[q]@[t]).is_some() ==> v[q]@[t].unwrap().1 < k
}
pub open spec fn mos_lt(m: Map<VString, usize>, k: int) -> bool { forall|s: VString| m.contains_key(s) ==> #[trigger] m[s] < k }
// the row a state that follows is written to: its own, or the one that the restart is added to
pub open spec fn zsn(b: bool) -> int { if b { 2 } else { 1 } }
// a gate with k inputs, the first t of them written
pub open spec fn dmo(u: Seq<VString>, v: Seq<VString>, o: int, k: int, t: int, n: int, c: Cell) -> bool {
    let at = c.s == 24 && c.k == 0 && c.a == o;
    &&& d(u, v, 0, n, c) == b2n(at && c.p == -1 && c.q == 0) + b2n(at && c.p == 0 && 0 <= c.q < t)
    &&& d(u, v, 1, n, c) == b2n(at && c.p == 0 && 0 <= c.q < k)
}
// ---------- the statements behind those of the states ----------
pub open spec fn zne(zm: Map<usize, Vec<usize>>, b: int) -> bool { 0 <= b <= usize::MAX && zm.contains_key(b as usize) && zm[b as usize]@.len() > 0 }
// what a statement of round i may read, in all
pub open spec fn rdt(i: int, c: Cell, y: Cnt, zs: Seq<usize>, sl: int, ea: bool) -> bool {
    rdb(i, c, y, sl) || (sgn(c, 3, 1) && c.a == i) || (ea && sgn(c, 7, 1) && c.a == i) || ((sgn(c, 1, 2) || sgn(c, 2, 2)) && c.a == i + 1 && 1 <= c.b < sl && (c.s == 1 || zs.contains(c.b as usize)))
}
pub open spec fn tok(l: VString, y: Cnt, zs: Seq<usize>, sl: int, ea: bool) -> bool {
    &&& kind(l) == 1 && l.ls() == seq![l]
    &&& forall|n: int, i: int, c: Cell| #[trigger] fa(l, 0, n, i, c) ==> i == itc(c)
    &&& forall|n: int, i: int, c: Cell| #[trigger] fa(l, 1, n, i, c) ==> i == itc(c)
    &&& forall|n: int, i: int, c: Cell| #[trigger] fa(l, 2, n, i, c) ==> rdt(i, c, y, zs, sl, ea)
    &&& forall|m: int, n: int, i: int, c: Cell| m >= 3 ==> !(#[trigger] fa(l, m, n, i, c))
}
pub open spec fn at2(c: Cell, s: int, a: int, b: int) -> bool { sgn(c, s, 2) && c.a == a && c.b == b }
pub open spec fn fzd(u: Seq<VString>, v: Seq<VString>, zs: Seq<usize>, sl: int) -> bool {
    &&& v.len() == u.len() + 1 && (forall|q: int| 0 <= q < u.len() ==> #[trigger] v[q] == u[q])
    &&& tok(v.last(), c0(), zs, sl, false)
    &&& forall|n: int, c: Cell| #[trigger] d(u, v, 0, n, c) == b2n(sgn(c, 3, 1))
    &&& forall|n: int, c: Cell| #[trigger] d(u, v, 1, n, c) == 0
}
pub open spec fn zud(u: Seq<VString>, v: Seq<VString>, zm: Map<usize, Vec<usize>>, y: Cnt, zs: Seq<usize>, sl: int) -> bool {
    &&& u.len() <= v.len() && (forall|q: int| 0 <= q < u.len() ==> #[trigger] v[q] == u[q])
    &&& forall|q: int| u.len() <= q < v.len() ==> tok(#[trigger] v[q], y, zs, sl, false)
    &&& forall|n: int, c: Cell| #[trigger] d(u, v, 0, n, c) == b2n(sgn(c, 1, 2) && zne(zm, c.b))
    &&& forall|n: int, c: Cell| #[trigger] d(u, v, 1, n, c) == 0
}
// the gates noted for j are made, and j is a state that can be entered from the start
pub open spec fn zok(zm: Map<usize, Vec<usize>>, j: usize, y: Cnt, zs: Seq<usize>, sl: int) -> bool { zm[j]@.len() > 0 ==> 1 <= j < sl && zs.contains(j) && all_lt(zm[j]@, y.a as int) }
pub open spec fn zkey(it: Seq<(&usize, &Vec<usize>)>, k: int, b: int) -> bool { exists|q: int| 0 <= q < k && *(#[trigger] it[q]).0 == b && it[q].1@.len() > 0 }
pub proof fn zkey_step(it: Seq<(&usize, &Vec<usize>)>, k: int, m: Map<usize, Vec<usize>>)
    requires 0 <= k < it.len(), map_refs(it, m)
    ensures forall|b: int| #[trigger] zkey(it, k + 1, b) == (zkey(it, k, b) || (*it[k].0 == b && it[k].1@.len() > 0)), !zkey(it, k, *it[k].0 as int)
{
    assert forall|b: int| #[trigger] zkey(it, k + 1, b) == (zkey(it, k, b) || (*it[k].0 == b && it[k].1@.len() > 0)) by {
        if zkey(it, k + 1, b) { let q = choose|q: int| 0 <= q < k + 1 && *(#[trigger] it[q]).0 == b && it[q].1@.len() > 0; if q < k { assert(zkey(it, k, b)); } }
        if zkey(it, k, b) { let q = choose|q: int| 0 <= q < k && *(#[trigger] it[q]).0 == b && it[q].1@.len() > 0; assert(0 <= q < k + 1 && *it[q].0 == b); }
        if *it[k].0 == b && it[k].1@.len() > 0 { assert(zkey(it, k + 1, b)); }
    }
}
pub proof fn zkey_all(it: Seq<(&usize, &Vec<usize>)>, m: Map<usize, Vec<usize>>) requires map_refs(it, m) ensures forall|b: int| #[trigger] zkey(it, it.len() as int, b) == zne(m, b)
{
    assert forall|b: int| #[trigger] zkey(it, it.len() as int, b) == zne(m, b) by {
        if zkey(it, it.len() as int, b) { let q = choose|q: int| 0 <= q < it.len() && *(#[trigger] it[q]).0 == b && it[q].1@.len() > 0; assert(m.contains_key(*it[q].0)); }
        if zne(m, b) { let k = b as usize; assert(m.contains_key(k)); let q = choose|q: int| 0 <= q < it.len() && *(#[trigger] it[q]).0 == k; assert(it[q].1@.len() > 0); }
    }
}
pub open spec fn scd(u: Seq<VString>, v: Seq<VString>, sl: int) -> bool {
    &&& u.len() <= v.len() && (forall|q: int| 0 <= q < u.len() ==> #[trigger] v[q] == u[q])
    &&& forall|q: int, zs: Seq<usize>| #![trigger tok(v[q], c0(), zs, sl, false)] u.len() <= q < v.len() ==> tok(v[q], c0(), zs, sl, false)
    &&& forall|n: int, c: Cell| #[trigger] d(u, v, 0, n, c) == b2n(c.s == 25 && c.k == 0 && c.a == 0 && c.p == 0 && 0 <= c.q < sl - 1)
    &&& forall|n: int, c: Cell| #[trigger] d(u, v, 1, n, c) == 0
}
// ---------- the whole loop over the bytes ----------
// behind the head h: the statements of the states below j
#[verifier::opaque]
pub open spec fn bod(h: Seq<VString>, v: Seq<VString>, y: Cnt, zs: Seq<usize>, j: int, sl: int) -> bool {
    &&& h.len() <= v.len() && (forall|q: int| 0 <= q < h.len() ==> #[trigger] v[q] == h[q])
    &&& forall|q: int| h.len() <= q < v.len() ==> lok(#[trigger] v[q], y, sl)
    &&& forall|n: int, c: Cell| #[trigger] bok(h, v, y, zs, j, n, c)
}
pub open spec fn bok(h: Seq<VString>, v: Seq<VString>, y: Cnt, zs: Seq<usize>, j: int, n: int, c: Cell) -> bool {
    let w = d(h, v, 0, n, c); let o = d(h, v, 1, n, c);
    &&& c.s < 20 ==> o == 0 && w == b2n((sgn(c, 1, 2) || sgn(c, 2, 2)) && 1 <= c.b < j && c.s == zsn(zs.contains(c.b as usize)))
    &&& c.s >= 20 && c.p == -1 ==> o == 0 && w == b2n(inst(c, c0(), y))
    &&& c.s >= 20 && c.p != -1 ==> w == o && 0 <= o <= d(h, v, 0, n, comp(c)) && (c.p < 0 || c.p > 2 ==> o == 0)
}
pub proof fn bod_none(h: Seq<VString>, zs: Seq<usize>, sl: int) ensures bod(h, h, c0(), zs, 1, sl) { reveal(bod); assert forall|n: int, c: Cell| #[trigger] bok(h, h, c0(), zs, 1, n, c) by {} }
pub proof fn bod_step(h: Seq<VString>, u: Seq<VString>, v: Seq<VString>, x: Cnt, y: Cnt, z0: Seq<usize>, z1: Seq<usize>, j: usize, sl: int)
    requires bod(h, u, x, z0, j as int, sl), step(u, v, x, y, zsn(z1.contains(j)), j as int, sl), j >= 1, forall|k: usize| k < j ==> #[trigger] z0.contains(k) == z1.contains(k)
    ensures bod(h, v, y, z1, j + 1, sl)
{
    reveal(bod); reveal(step);
    assert forall|q: int| 0 <= q < h.len() implies #[trigger] v[q] == h[q] by { assert(u[q] == h[q]); }
    assert forall|q: int| h.len() <= q < v.len() implies lok(#[trigger] v[q], y, sl) by { if q < u.len() { assert(v[q] == u[q]); lok_more(u[q], x, y, sl); } }
    assert forall|n: int, c: Cell| #[trigger] bok(h, v, y, z1, j + 1, n, c) by {
        let s = zsn(z1.contains(j));
        assert(bok(h, u, x, z0, j as int, n, c) && dok(u, v, x, y, s, j as int, n, c)); assert(bok(h, u, x, z0, j as int, n, comp(c)) && dok(u, v, x, y, s, j as int, n, comp(c)));
        if 1 <= c.b < j { assert(z0.contains(c.b as usize) == z1.contains(c.b as usize)); }
    }
}
pub open spec fn hd_ok(h: Seq<VString>, sl: int, ea: bool) -> bool {
    &&& h.len() >= 1 && kind(h[0]) == 2 && (forall|n: int| #[trigger] flo(h[0], n) == 0) && (forall|n: int| #[trigger] fhi(h[0], n) == n + 1)
    &&& forall|m: int, n: int, i: int, c: Cell| !(#[trigger] fa(h[0], m, n, i, c))
    &&& forall|q: int, zs: Seq<usize>| #![trigger tok(h[q], c0(), zs, sl, ea)] 1 <= q < h.len() ==> tok(h[q], c0(), zs, sl, ea)
    &&& forall|n: int, c: Cell| #[trigger] g(h, 0, n, c) == b2n(c.s == 25 && c.k == 0 && c.a == 0 && c.p == -1 && c.q == 0) + b2n(sgn(c, 1, 2) && c.b == 0) + b2n(ea && sgn(c, 7, 1))
    &&& forall|n: int, c: Cell| #[trigger] g(h, 1, n, c) == b2n(c.s == 25 && c.k == 0 && c.a == 0 && c.p == 0 && 0 <= c.q < sl - 1)
}
// what the loop writes once
pub open spec fn blk_w(n: int, c: Cell, y: Cnt, sl: int, ea: bool) -> bool {
    ||| sgn(c, 1, 2) && c.b == 0 && 0 <= c.a <= n
    ||| sgn(c, 1, 2) && 1 <= c.b < sl && 1 <= c.a <= n + 1
    ||| sgn(c, 3, 1) && 0 <= c.a <= n
    ||| ea && sgn(c, 7, 1) && 1 <= c.a <= n + 1
    ||| (inst(c, c0(), y) || (c.s == 25 && c.k == 0 && c.a == 0 && c.p == -1 && c.q == 0)) && 0 <= c.b <= n
}
// the rows that the restart is added to: written at most once
pub open spec fn tmpc(n: int, c: Cell, sl: int) -> bool { sgn(c, 2, 2) && 1 <= c.b < sl && 1 <= c.a <= n + 1 }
pub open spec fn blk_r(n: int, c: Cell, y: Cnt, sl: int, ea: bool) -> bool {
    ||| blk_w(n, c, y, sl, ea) && c.s < 20
    ||| sgn(c, 4, 1) && 0 <= c.a <= n
    ||| sgn(c, 1, 2) && c.a == 0 && 1 <= c.b < sl
    ||| ea && sgn(c, 7, 1) && c.a == 0
    ||| c.s >= 20 && c.p == 3 && c.q == 0 && blk_w(n, comp(c), y, sl, ea)
}
pub open spec fn blk(ls: Seq<VString>, y: Cnt, sl: int, ea: bool) -> bool { nest(ls) == 0 && forall|n: int, c: Cell| n >= 0 ==> #[trigger] blk1(ls, y, sl, ea, n, c) }
pub open spec fn blk1(ls: Seq<VString>, y: Cnt, sl: int, ea: bool, n: int, c: Cell) -> bool {
    &&& c.s < 20 ==> tot(ls, 1, n, c) == 0
    &&& c.s < 20 && c.s != 2 ==> tot(ls, 0, n, c) == b2n(blk_w(n, c, y, sl, ea))
    &&& c.s == 2 ==> 0 <= tot(ls, 0, n, c) <= b2n(tmpc(n, c, sl))
    &&& c.s >= 20 && c.p == -1 ==> tot(ls, 1, n, c) == 0 && tot(ls, 0, n, c) == b2n(blk_w(n, c, y, sl, ea))
    &&& c.s >= 20 && c.p != -1 ==> tot(ls, 0, n, c) == tot(ls, 1, n, c) && 0 <= tot(ls, 1, n, c) <= b2n(blk_w(n, comp(c), y, sl, ea)) && (c.p < 0 || c.p > 2 ==> tot(ls, 1, n, c) == 0)
    &&& tot(ls, 2, n, c) > 0 ==> blk_r(n, c, y, sl, ea) || (tmpc(n, c, sl) && tot(ls, 0, n, c) == 1)
    &&& forall|m: int| m >= 3 ==> #[trigger] tot(ls, m, n, c) == 0
}
pub proof fn body_t(v: Seq<VString>, m: int, n: int, c: Cell)
    requires v.len() >= 1, kind(v[0]) == 2, forall|q: int| 1 <= q < v.len() ==> kind(#[trigger] v[q]) == 1, forall|i: int| !(#[trigger] fa(v[0], m, n, i, c)),
        forall|q: int, i: int| 1 <= q < v.len() && #[trigger] fa(v[q], m, n, i, c) ==> i == itc(c)
    ensures hdr(v) == Some(v[0]), nest(v) == 1, tot(v, m, n, c) == if flo(v[0], n) <= itc(c) < fhi(v[0], n) { g(v, m, n, c) } else { 0 }
    decreases v.len()
{
    let p = v.drop_last();
    if v.len() == 1 { assert(p.len() == 0); assert(!fa(v[0], m, n, 0, c)); assert(!fa(v[0], m, n, itc(c), c)); assert(nest(p) == 0 && hdr(p).is_none() && tot(p, m, n, c) == 0 && g(p, m, n, c) == 0); }
    else {
        assert forall|q: int| 1 <= q < p.len() implies kind(#[trigger] p[q]) == 1 by { assert(kind(v[q]) == 1); }
        assert forall|q: int, i: int| 1 <= q < p.len() && #[trigger] fa(p[q], m, n, i, c) implies i == itc(c) by { assert(fa(v[q], m, n, i, c)); }
        body_t(p, m, n, c); assert(p[0] == v[0]); assert(kind(v[v.len() - 1]) == 1);
        assert forall|i: int| flo(v[0], n) <= i < fhi(v[0], n) && #[trigger] fa(v.last(), m, n, i, c) implies i == itc(c) by { assert(fa(v[v.len() - 1], m, n, i, c)); }
        rng_one(v.last(), m, n, c, flo(v[0], n), fhi(v[0], n), itc(c));
    }
}
pub proof fn body_r(v: Seq<VString>, m: int, n: int, c: Cell)
    requires v.len() >= 1, kind(v[0]) == 2, forall|q: int| 1 <= q < v.len() ==> kind(#[trigger] v[q]) == 1, forall|i: int| !(#[trigger] fa(v[0], m, n, i, c))
    ensures hdr(v) == Some(v[0]), tot(v, m, n, c) >= 0, tot(v, m, n, c) > 0 ==> exists|q: int, i: int| 1 <= q < v.len() && flo(v[0], n) <= i < fhi(v[0], n) && #[trigger] fa(v[q], m, n, i, c)
    decreases v.len()
{
    let p = v.drop_last();
    if v.len() == 1 { assert(p.len() == 0); assert(!fa(v[0], m, n, 0, c)); }
    else {
        assert forall|q: int| 1 <= q < p.len() implies kind(#[trigger] p[q]) == 1 by { assert(kind(v[q]) == 1); }
        body_r(p, m, n, c); assert(p[0] == v[0]); assert(kind(v[v.len() - 1]) == 1);
        rng_pos(v.last(), m, n, c, flo(v[0], n), fhi(v[0], n));
        if tot(v, m, n, c) > 0 {
            if tot(p, m, n, c) > 0 { let (q, i) = choose|q: int, i: int| 1 <= q < p.len() && flo(v[0], n) <= i < fhi(v[0], n) && #[trigger] fa(p[q], m, n, i, c); assert(fa(v[q], m, n, i, c)); }
            else { let i = choose|i: int| flo(v[0], n) <= i < fhi(v[0], n) && #[trigger] fa(v.last(), m, n, i, c); assert(fa(v[v.len() - 1], m, n, i, c)); }
        }
    }
}
pub proof fn blk_new(ls: Seq<VString>, h: Seq<VString>, b: Seq<VString>, f1: Seq<VString>, f2: Seq<VString>, f3: Seq<VString>, y: Cnt, zs: Seq<usize>, zm: Map<usize, Vec<usize>>, sl: int, ea: bool)
    requires hd_ok(h, sl, ea), bod(h, b, y, zs, sl, sl), fzd(b, f1, zs, sl), zud(f1, f2, zm, y, zs, sl), scd(f2, f3, sl), ls.len() == f3.len() + 1, ls.drop_last() == f3, kind(ls.last()) == 3, 1 <= sl <= usize::MAX,
        forall|m: int, n: int, i: int, c: Cell| !(#[trigger] fa(ls.last(), m, n, i, c)),
        forall|j: usize| 1 <= j < sl ==> #[trigger] zs.contains(j) == zne(zm, j as int), forall|j: usize| #[trigger] zm.contains_key(j) ==> 1 <= j < sl,
    ensures blk(ls, y, sl, ea)
{
    reveal(bod);
    assert(ls == f3.push(ls.last()));
    assert(f3[0] == h[0]) by { assert(b[0] == h[0]); assert(f1[0] == b[0]); assert(f2[0] == f1[0]); }
    assert forall|q: int| 1 <= q < f3.len() implies tok(#[trigger] f3[q], y, zs, sl, ea) by {
        if q >= f2.len() { assert(tok(f3[q], c0(), zs, sl, false)); tok_more(f3[q], c0(), y, zs, sl, ea, false); }
        else { assert(f3[q] == f2[q]); if q >= f1.len() { assert(tok(f2[q], y, zs, sl, false)); tok_more(f2[q], y, y, zs, sl, ea, false); }
        else { assert(f2[q] == f1[q]); if q >= b.len() { assert(f1[q] == f1.last()); tok_more(f1[q], c0(), y, zs, sl, ea, false); }
        else { assert(f1[q] == b[q]); if q >= h.len() { assert(lok(b[q], y, sl)); }
        else { assert(b[q] == h[q]); assert(tok(h[q], c0(), zs, sl, ea)); tok_more(h[q], c0(), y, zs, sl, ea, ea); } } } }
    }
    tot_push(f3, ls.last());
    assert forall|n: int, c: Cell| n >= 0 implies #[trigger] blk1(ls, y, sl, ea, n, c) by { blk_one(ls, h, b, f1, f2, f3, y, zs, zm, sl, ea, n, c); blk_one(ls, h, b, f1, f2, f3, y, zs, zm, sl, ea, n, comp(c)); 
        assert forall|m: int| m >= 3 implies #[trigger] tot(ls, m, n, c) == 0 by { body_r(f3, m, n, c); if tot(f3, m, n, c) > 0 { let (q, i) = choose|q: int, i: int| 1 <= q < f3.len() && flo(f3[0], n) <= i < fhi(f3[0], n) && #[trigger] fa(f3[q], m, n, i, c); assert(tok(f3[q], y, zs, sl, ea)); } rng_pos(ls.last(), m, n, c, flo(h[0], n), fhi(h[0], n)); }
        body_r(f3, 2, n, c); rng_pos(ls.last(), 2, n, c, flo(h[0], n), fhi(h[0], n));
        if tot(f3, 2, n, c) > 0 {
            let (q, i) = choose|q: int, i: int| 1 <= q < f3.len() && flo(f3[0], n) <= i < fhi(f3[0], n) && #[trigger] fa(f3[q], 2, n, i, c);
            assert(tok(f3[q], y, zs, sl, ea)); assert(rdt(i, c, y, zs, sl, ea)); assert(0 <= i <= n);
        }
    }
    body_t(f3, 7, 0, Cell { s: 0, k: 0, a: 0, b: 0, p: 0, q: 0 });
}
pub proof fn tok_more(l: VString, x: Cnt, y: Cnt, zs: Seq<usize>, sl: int, ea: bool, eb: bool) requires tok(l, x, zs, sl, eb), le4(x, y), eb ==> ea ensures tok(l, y, zs, sl, ea) {}
// one cell
pub proof fn blk_one(ls: Seq<VString>, h: Seq<VString>, b: Seq<VString>, f1: Seq<VString>, f2: Seq<VString>, f3: Seq<VString>, y: Cnt, zs: Seq<usize>, zm: Map<usize, Vec<usize>>, sl: int, ea: bool, n: int, c: Cell)
    requires hd_ok(h, sl, ea), forall|n: int, c: Cell| #[trigger] bok(h, b, y, zs, sl, n, c), fzd(b, f1, zs, sl), zud(f1, f2, zm, y, zs, sl), scd(f2, f3, sl), ls == f3.push(ls.last()), kind(ls.last()) == 3, 1 <= sl <= usize::MAX, n >= 0,
        forall|m: int, n: int, i: int, c: Cell| !(#[trigger] fa(ls.last(), m, n, i, c)), f3.len() >= 1, f3[0] == h[0],
        forall|q: int| 1 <= q < f3.len() ==> tok(#[trigger] f3[q], y, zs, sl, ea),
        forall|j: usize| 1 <= j < sl ==> #[trigger] zs.contains(j) == zne(zm, j as int), forall|j: usize| #[trigger] zm.contains_key(j) ==> 1 <= j < sl,
    ensures
        tot(ls, 0, n, c) == (if 0 <= itc(c) <= n { g(f3, 0, n, c) } else { 0 }), tot(ls, 1, n, c) == (if 0 <= itc(c) <= n { g(f3, 1, n, c) } else { 0 }),
        c.s < 20 ==> g(f3, 1, n, c) == 0,
        c.s < 20 && c.s != 2 ==> tot(ls, 0, n, c) == b2n(blk_w(n, c, y, sl, ea)),
        c.s == 2 ==> g(f3, 0, n, c) == b2n(sgn(c, 2, 2) && 1 <= c.b < sl && zs.contains(c.b as usize)),
        c.s >= 20 && c.p == -1 ==> tot(ls, 1, n, c) == 0 && tot(ls, 0, n, c) == b2n(blk_w(n, c, y, sl, ea)),
        c.s >= 20 && c.p != -1 ==> tot(ls, 0, n, c) == tot(ls, 1, n, c) && 0 <= tot(ls, 1, n, c) <= b2n(blk_w(n, comp(c), y, sl, ea)) && (c.p < 0 || c.p > 2 ==> tot(ls, 1, n, c) == 0),
{
    assert(bok(h, b, y, zs, sl, n, c)); assert(bok(h, b, y, zs, sl, n, comp(c)));
    assert forall|m: int| 0 <= m <= 1 implies #[trigger] tot(ls, m, n, c) == (if 0 <= itc(c) <= n { g(f3, m, n, c) } else { 0 }) by {
        assert forall|q: int, i: int| 1 <= q < f3.len() && #[trigger] fa(f3[q], m, n, i, c) implies i == itc(c) by { assert(tok(f3[q], y, zs, sl, ea)); }
        body_t(f3, m, n, c); tot_push(f3, ls.last());
        rng_one(ls.last(), m, n, c, flo(h[0], n), fhi(h[0], n), 0);
    }
    let w = g(f3, 0, n, c); let o = g(f3, 1, n, c);
    assert(w == g(h, 0, n, c) + d(h, b, 0, n, c) + d(b, f1, 0, n, c) + d(f1, f2, 0, n, c) + d(f2, f3, 0, n, c));
    assert(o == g(h, 1, n, c) + d(h, b, 1, n, c) + d(b, f1, 1, n, c) + d(f1, f2, 1, n, c) + d(f2, f3, 1, n, c));
    let k = comp(c);
    assert(itc(k) == itc(c) || c.s < 20);
    if 1 <= c.b < sl { assert(zs.contains(c.b as usize) == zne(zm, c.b)); }
    if zne(zm, c.b) { assert(zm.contains_key(c.b as usize)); }
    assert(tot(ls, 0, n, c) == (if 0 <= itc(c) <= n { g(f3, 0, n, c) } else { 0 })); assert(tot(ls, 1, n, c) == (if 0 <= itc(c) <= n { g(f3, 1, n, c) } else { 0 }));
}
pub proof fn all_own(ls: Seq<VString>, h: Seq<VString>, b: Seq<VString>, f1: Seq<VString>, f2: Seq<VString>, f3: Seq<VString>, y: Cnt, zs: Seq<usize>, zm: Map<usize, Vec<usize>>, sl: int, ea: bool)
    requires hd_ok(h, sl, ea), h[0].ls() == seq![h[0]], bod(h, b, y, zs, sl, sl), fzd(b, f1, zs, sl), zud(f1, f2, zm, y, zs, sl), scd(f2, f3, sl), ls.len() == f3.len() + 1, ls.drop_last() == f3, ls.last().ls() == seq![ls.last()]
    ensures forall|q: int| 0 <= q < ls.len() ==> (#[trigger] ls[q]).ls() == seq![ls[q]]
{
    reveal(bod);
    assert forall|q: int| 0 <= q < ls.len() implies (#[trigger] ls[q]).ls() == seq![ls[q]] by {
        if q < f3.len() { assert(ls[q] == f3[q]);
        if q >= f2.len() { assert(tok(f3[q], c0(), zs, sl, false)); } else { assert(f3[q] == f2[q]); if q >= f1.len() { assert(tok(f2[q], y, zs, sl, false)); }
        else { assert(f2[q] == f1[q]); if q >= b.len() { assert(f1[q] == f1.last()); }
        else { assert(f1[q] == b[q]); if q >= h.len() { assert(lok(b[q], y, sl)); }
        else { assert(b[q] == h[q]); if q >= 1 { assert(tok(h[q], c0(), zs, sl, ea)); } } } } } }
    }
}
// one more text of a list, with what its line does
pub proof fn tq(v: Seq<VString>, q: int)
    requires 0 <= q < v.len(), v[q].ls().len() <= 1
    ensures v[q].ls().len() == 0 ==> flat_ls(v.take(q + 1)) == flat_ls(v.take(q)),
        v[q].ls().len() == 1 ==> ({
            let a = flat_ls(v.take(q)); let b = flat_ls(v.take(q + 1)); let l = v[q].ls()[0];
            &&& forall|m: int, n: int, c: Cell| #[trigger] tot(b, m, n, c) == tot(a, m, n, c) + times(l, hdr(a), m, n, c)
            &&& hdr(b) == (if kind(l) == 2 { Some(l) } else if kind(l) == 3 { None } else { hdr(a) })
            &&& nest(b) == (if kind(l) == 2 { if nest(a) == 0 { 1int } else { -1int } } else if kind(l) == 3 { if nest(a) == 1 { 0int } else { -1int } } else { nest(a) })
        })
{ flat_push(v, q); if v[q].ls().len() == 1 { tot_push(flat_ls(v.take(q)), v[q].ls()[0]); } }
// ---------- the declarations ----------
pub open spec fn dw0(n: int, c: Cell) -> bool { (sgn(c, 4, 1) && 0 <= c.a <= n) || (sgn(c, 6, 1) && 0 <= c.a < n) }
pub open spec fn dd0(n: int, c: Cell, y: Cnt) -> bool {
    ||| sgn(c, 30, 0) || sgn(c, 31, 0) || sgn(c, 32, 0) || sgn(c, 33, 0) || sgn(c, 8, 0)
    ||| (sgn(c, 5, 1) || sgn(c, 6, 1)) && 0 <= c.a < n
    ||| sgn(c, 4, 1) && 0 <= c.a <= n
    ||| inst(c, c0(), y) && 0 <= c.b <= n
}
pub open spec fn dw(n: int, c: Cell, ea: bool) -> bool { dw0(n, c) || (sgn(c, 3, 1) && c.a == n + 1) || (ea && sgn(c, 7, 1) && c.a == 0) }
pub open spec fn dd(n: int, c: Cell, y: Cnt, sl: int, ea: bool) -> bool {
    ||| dd0(n, c, y)
    ||| (sgn(c, 1, 2) || sgn(c, 2, 2)) && 0 <= c.a <= n + 1 && 0 <= c.b < sl
    ||| sgn(c, 3, 1) && 0 <= c.a <= n + 1
    ||| c.s == 25 && c.k == 0 && c.a == 0 && c.p == -1 && c.q == 0 && 0 <= c.b <= n
    ||| ea && sgn(c, 7, 1) && 0 <= c.a <= n + 1
}
// what lines do in all: written, declared; read at most; inputs and outputs declared
pub open spec fn does(ls: Seq<VString>, n: int, c: Cell, w: bool, r: bool, d: bool, i: bool, o: bool) -> bool {
    &&& tot(ls, 0, n, c) == b2n(w) && tot(ls, 1, n, c) == 0
    &&& (tot(ls, 2, n, c) > 0 ==> r) && tot(ls, 3, n, c) == 0
    &&& tot(ls, 4, n, c) == b2n(d) && tot(ls, 5, n, c) == b2n(i) && tot(ls, 6, n, c) == b2n(o)
}
pub open spec fn dec_mid(ls: Seq<VString>, y: Cnt, n: int, c: Cell) -> bool { does(ls, n, c, dw0(n, c), (sgn(c, 5, 1) || sgn(c, 6, 1)) && 0 <= c.a < n, dd0(n, c, y), sgn(c, 5, 1) && 0 <= c.a < n, sgn(c, 8, 0)) }
pub open spec fn dec1(ls: Seq<VString>, y: Cnt, sl: int, ea: bool, n: int, c: Cell) -> bool { does(ls, n, c, dw(n, c, ea), (sgn(c, 5, 1) || sgn(c, 6, 1)) && 0 <= c.a < n, dd(n, c, y, sl, ea), sgn(c, 5, 1) && 0 <= c.a < n, sgn(c, 8, 0)) }
pub open spec fn dec_ok(ls: Seq<VString>, y: Cnt, sl: int, ea: bool) -> bool { nest(ls) == 0 && forall|n: int, c: Cell| n >= 0 ==> #[trigger] dec1(ls, y, sl, ea, n, c) }
// the states before the first byte
pub open spec fn ini1(ls: Seq<VString>, sl: int, n: int, c: Cell) -> bool { does(ls, n, c, sgn(c, 1, 2) && c.a == 0 && 1 <= c.b < sl, false, false, false, false) }
pub open spec fn ini_ok(ls: Seq<VString>, sl: int) -> bool { nest(ls) == 0 && forall|n: int, c: Cell| n >= 0 ==> #[trigger] ini1(ls, sl, n, c) }
// the gate over the accepting states, and the output
pub open spec fn acp(c: Cell, p: int, q: int) -> bool { c.s == 26 && c.k == 0 && c.a == 0 && c.b == 0 && c.p == p && c.q == q }
pub open spec fn ac_w(n: int, c: Cell, ea: bool) -> bool { acp(c, -1, 0) || (acp(c, 0, c.q) && 0 <= c.q <= n + 1) || sgn(c, 8, 0) || (ea && sgn(c, 9, 2) && ((c.a == 0 && c.b == 1) || (1 <= c.a <= n + 2 && 0 <= c.b <= 1))) }
pub open spec fn ac_r(n: int, c: Cell, a: int, ea: bool) -> bool {
    ||| acp(c, 3, 0) || (sgn(c, 1, 2) && 0 <= c.a <= n + 1 && c.b == a)
    ||| ea && ((sgn(c, 7, 1) && c.a == n + 1) || (sgn(c, 9, 2) && ((0 <= c.a <= n + 2 && c.b == 1) || (1 <= c.a <= n + 2 && c.b == 0))))
}
pub open spec fn ac1(ls: Seq<VString>, a: int, ea: bool, n: int, c: Cell) -> bool {
    &&& tot(ls, 0, n, c) == b2n(ac_w(n, c, ea)) && tot(ls, 1, n, c) == b2n(acp(c, 0, c.q) && 0 <= c.q <= n + 1)
    &&& (tot(ls, 2, n, c) > 0 ==> ac_r(n, c, a, ea)) && tot(ls, 3, n, c) == 0
    &&& tot(ls, 4, n, c) == b2n(acp(c, -1, 0) || (ea && sgn(c, 9, 2) && 0 <= c.a <= n + 2 && 0 <= c.b <= 1)) && tot(ls, 5, n, c) == 0 && tot(ls, 6, n, c) == 0
}
pub open spec fn acc_shut(ls: Seq<VString>, a: int, ea: bool) -> bool { nest(ls) == 0 && forall|n: int, c: Cell| n >= 0 ==> #[trigger] ac1(ls, a, ea, n, c) }
pub open spec fn out_ok(s: Set<usize>, a: usize, ls: Seq<VString>, ea: bool) -> bool { s == Set::<usize>::empty().insert(a) && acc_shut(flat_ls(ls), a as int, ea) }
pub proof fn one_el(s: Set<usize>, x: usize) requires s.len() == 1, s.contains(x), s.finite() ensures s == Set::<usize>::empty().insert(x)
{ let r = s.remove(x); assert(r.len() == 0); assert forall|y: usize| s.contains(y) implies y == x by { if y != x { assert(r.contains(y)); } } assert(s =~= Set::<usize>::empty().insert(x)); }
pub open spec fn mids(v: Seq<VString>, y: Cnt) -> bool { nest(flat_ls(v)) == 0 && forall|n: int, c: Cell| n >= 0 ==> #[trigger] dec_mid(flat_ls(v), y, n, c) }
pub proof fn dec_push(u: Seq<VString>, v: Seq<VString>, x: Cnt, y: Cnt)
    requires mids(u, x), v == u.push(v.last()), v.last().ls() == seq![v.last()], kind(v.last()) == 0,
        forall|n: int, c: Cell, m: int, i: int| #[trigger] fa(v.last(), m, n, i, c) == (m == 4 && inst(c, c0(), y) && !inst(c, c0(), x) && 0 <= c.b <= n),
        forall|c: Cell| #[trigger] inst(c, c0(), x) ==> inst(c, c0(), y),
    ensures mids(v, y)
{
    let q = u.len() as int; assert(v.take(q) =~= u); assert(v.take(q + 1) =~= v); tq(v, q); nest_hdr(flat_ls(u));
    assert(v[q].ls()[0] == v.last());
    assert forall|n: int, c: Cell| n >= 0 implies #[trigger] dec_mid(flat_ls(v), y, n, c) by { assert(dec_mid(flat_ls(u), x, n, c)); assert(inst(c, c0(), x) ==> inst(c, c0(), y)); }
}
pub proof fn dec_six(u: Seq<VString>, v: Seq<VString>, y: Cnt, sl: int)
    requires mids(u, y), v.len() == u.len() + 6, v.take(u.len() as int) == u, ({ let q = u.len() as int;
        &&& forall|k: int| q <= k < q + 5 ==> (#[trigger] v[k]).ls() == seq![v[k]] && kind(v[k]) <= 1
        &&& forall|n: int, c: Cell, m: int, i: int| #[trigger] fa(v[q], m, n, i, c) == (m == 4 && sgn(c, 1, 2) && 0 <= c.a < n + 2 && 0 <= c.b < sl)
        &&& forall|n: int, c: Cell, m: int, i: int| #[trigger] fa(v[q + 1], m, n, i, c) == (m == 4 && sgn(c, 2, 2) && 0 <= c.a < n + 2 && 0 <= c.b < sl)
        &&& forall|n: int, c: Cell, m: int, i: int| #[trigger] fa(v[q + 2], m, n, i, c) == (m == 4 && sgn(c, 3, 1) && 0 <= c.a < n + 2)
        &&& forall|n: int, c: Cell, m: int, i: int| #[trigger] fa(v[q + 3], m, n, i, c) == (m == 0 && sgn(c, 3, 1) && c.a == n + 1)
        &&& forall|n: int, c: Cell, m: int, i: int| #[trigger] fa(v[q + 4], m, n, i, c) == (m == 4 && c.s == 25 && c.k == 0 && c.a == 0 && c.p == -1 && c.q == 0 && 0 <= c.b <= n)
        &&& v[q + 5].ls().len() == 0 })
    ensures nest(flat_ls(v)) == 0, forall|n: int, c: Cell| n >= 0 ==> #[trigger] dec1(flat_ls(v), y, sl, false, n, c)
{
    let q = u.len() as int; assert(v.take(q) =~= u); assert(v.take(q + 6) =~= v); nest_hdr(flat_ls(u));
    assert(v[q].ls() == seq![v[q]]); assert(v[q + 1].ls() == seq![v[q + 1]]); assert(v[q + 2].ls() == seq![v[q + 2]]); assert(v[q + 3].ls() == seq![v[q + 3]]); assert(v[q + 4].ls() == seq![v[q + 4]]);
    tq(v, q); tq(v, q + 1); tq(v, q + 2); tq(v, q + 3); tq(v, q + 4); tq(v, q + 5);
    assert forall|n: int, c: Cell| n >= 0 implies #[trigger] dec1(flat_ls(v), y, sl, false, n, c) by { assert(dec_mid(flat_ls(u), y, n, c)); }
}
pub proof fn dec_two(u: Seq<VString>, v: Seq<VString>, y: Cnt, sl: int)
    requires nest(flat_ls(u)) == 0, forall|n: int, c: Cell| n >= 0 ==> #[trigger] dec1(flat_ls(u), y, sl, false, n, c), v.len() == u.len() + 2, v.take(u.len() as int) == u, ({ let q = u.len() as int;
        &&& v[q].ls() == seq![v[q]] && kind(v[q]) <= 1 && v[q + 1].ls() == seq![v[q + 1]] && kind(v[q + 1]) <= 1
        &&& forall|n: int, c: Cell, m: int, i: int| #[trigger] fa(v[q], m, n, i, c) == (m == 4 && sgn(c, 7, 1) && 0 <= c.a < n + 2)
        &&& forall|n: int, c: Cell, m: int, i: int| #[trigger] fa(v[q + 1], m, n, i, c) == (m == 0 && sgn(c, 7, 1) && c.a == 0) })
    ensures dec_ok(flat_ls(v), y, sl, true)
{
    let q = u.len() as int; assert(v.take(q) =~= u); assert(v.take(q + 2) =~= v); nest_hdr(flat_ls(u));
    tq(v, q); tq(v, q + 1);
    assert forall|n: int, c: Cell| n >= 0 implies #[trigger] dec1(flat_ls(v), y, sl, true, n, c) by { assert(dec1(flat_ls(u), y, sl, false, n, c)); }
}
pub open spec fn dp5(ls: Seq<VString>, n: int, c: Cell) -> bool { does(ls, n, c, false, false, sgn(c, 31, 0) || sgn(c, 32, 0) || sgn(c, 33, 0) || (sgn(c, 5, 1) && 0 <= c.a < n), sgn(c, 5, 1) && 0 <= c.a < n, false) }
pub open spec fn dp11(ls: Seq<VString>, n: int, c: Cell) -> bool { does(ls, n, c, sgn(c, 4, 1) && c.a == 0, false, sgn(c, 31, 0) || sgn(c, 32, 0) || sgn(c, 33, 0) || sgn(c, 30, 0) || sgn(c, 8, 0) || ((sgn(c, 5, 1) || sgn(c, 6, 1)) && 0 <= c.a < n) || (sgn(c, 4, 1) && 0 <= c.a < n + 1), sgn(c, 5, 1) && 0 <= c.a < n, sgn(c, 8, 0)) }
// one more line
pub proof fn sq(v: Seq<VString>, q: int)
    requires 0 <= q < v.len()
    ensures ({
            let a = v.take(q); let b = v.take(q + 1); let l = v[q];
            &&& forall|m: int, n: int, c: Cell| #[trigger] tot(b, m, n, c) == tot(a, m, n, c) + times(l, hdr(a), m, n, c)
            &&& hdr(b) == (if kind(l) == 2 { Some(l) } else if kind(l) == 3 { None } else { hdr(a) })
            &&& nest(b) == (if kind(l) == 2 { if nest(a) == 0 { 1int } else { -1int } } else if kind(l) == 3 { if nest(a) == 1 { 0int } else { -1int } } else { nest(a) })
        })
{ tot_push(v.take(q), v[q]); assert(v.take(q + 1) =~= v.take(q).push(v[q])); }
// ---------- the substring constraints ----------
pub open spec fn cw(n: int, c: Cell) -> bool { sgn(c, 10, 2) && ((0 <= c.a < n && 0 <= c.b <= 2) || (c.a == n && c.b == 2)) }
pub open spec fn cr(n: int, c: Cell, a: int) -> bool {
    ||| cw(n, c) || (c.s == 25 && c.k == 0 && c.a == 0 && c.p == 3 && c.q == 0 && 1 <= c.b <= n)
    ||| (sgn(c, 1, 2) && 2 <= c.a <= n + 1 && c.b == a) || (sgn(c, 3, 1) && 2 <= c.a <= n + 1)
}
pub open spec fn cd(n: int, c: Cell) -> bool { sgn(c, 10, 2) && 0 <= c.a <= n && 0 <= c.b <= 2 }
pub open spec fn con1(ls: Seq<VString>, a: int, n: int, c: Cell) -> bool { does(ls, n, c, cw(n, c), cr(n, c, a), cd(n, c), false, false) }
pub open spec fn con_ok(ls: Seq<VString>, a: int) -> bool { nest(ls) == 0 && forall|n: int, c: Cell| n >= 0 ==> #[trigger] con1(ls, a, n, c) }
// the signals of substring k with m transitions
pub open spec fn rw(n: int, c: Cell, k: int, m: int) -> bool { c.k == k && c.p == -1 && ((c.s == 11 && c.q == 2 && 0 <= c.a < m && 0 <= c.b < n) || (12 <= c.s <= 14 && c.q == 1 && c.b == 0 && 0 <= c.a < n)) }
pub open spec fn rr(n: int, c: Cell, k: int, m: int, sl: int) -> bool {
    ||| rw(n, c, k, m) || sgn(c, 8, 0) || (sgn(c, 10, 2) && 0 <= c.a < n && c.b == 2) || (sgn(c, 4, 1) && 1 <= c.a <= n) || (sgn(c, 3, 1) && 1 <= c.a <= n)
    ||| sgn(c, 1, 2) && 0 <= c.b < sl && (1 <= c.a <= n || (c.b >= 1 && 2 <= c.a <= n + 1))
}
pub open spec fn rok(rs: Seq<(usize, usize)>, sl: int) -> bool { forall|q: int| 0 <= q < rs.len() ==> (#[trigger] rs[q]).0 < sl && 1 <= rs[q].1 < sl }
pub open spec fn rev1(ls: Seq<VString>, k: int, m: int, sl: int, n: int, c: Cell) -> bool { does(ls, n, c, rw(n, c, k, m), rr(n, c, k, m, sl), rw(n, c, k, m), false, c.s == 14 && rw(n, c, k, m)) }
pub open spec fn rev_ok(ls: Seq<VString>, k: int, m: int, sl: int) -> bool { nest(ls) == 0 && forall|n: int, c: Cell| n >= 0 ==> #[trigger] rev1(ls, k, m, sl, n, c) }
pub open spec fn prv(l: VString, k: int, t: int, cur: int) -> bool {
    &&& kind(l) == 1
    &&& forall|m: int, n: int, i: int, c: Cell| #[trigger] fa(l, m, n, i, c) ==> m == 0 || m == 2
    &&& forall|n: int, i: int, c: Cell| #[trigger] fa(l, 0, n, i, c) == (c == (Cell { s: 11, k: k, a: t, b: i, p: -1, q: 2 }))
    &&& forall|n: int, i: int, c: Cell| #[trigger] fa(l, 2, n, i, c) ==> (sgn(c, 3, 1) && c.a == i + 1) || (sgn(c, 1, 2) && c.a == i + 1 && c.b == cur)
}
pub open spec fn prvs(ls: Seq<VString>, k: int, rs: Seq<&(usize, usize)>, j: int) -> bool { ls.len() == j && forall|t: int| 0 <= t < j ==> prv(#[trigger] ls[t], k, t, rs[t].0 as int) }
pub open spec fn ons(l: VString, k: int, rs: Seq<&(usize, usize)>) -> bool {
    &&& kind(l) == 1
    &&& forall|m: int, n: int, i: int, c: Cell| #[trigger] fa(l, m, n, i, c) ==> m == 0 || m == 2
    &&& forall|n: int, i: int, c: Cell| #[trigger] fa(l, 0, n, i, c) == (c == (Cell { s: 12, k: k, a: i, b: 0, p: -1, q: 1 }))
    &&& forall|n: int, i: int, c: Cell| #[trigger] fa(l, 2, n, i, c) ==> exists|t: int| 0 <= t < rs.len() && #[trigger] onr(rs[t], t, k, i, c)
}
pub open spec fn onr(r: &(usize, usize), t: int, k: int, i: int, c: Cell) -> bool { c == (Cell { s: 11, k: k, a: t, b: i, p: -1, q: 2 }) || (sgn(c, 1, 2) && c.a == i + 2 && c.b == r.1) }
pub open spec fn rvl(ls: Seq<VString>, k: int) -> bool {
    &&& ls.len() == 2 && kind(ls[0]) == 1 && kind(ls[1]) == 1
    &&& forall|m: int, n: int, i: int, c: Cell| #[trigger] fa(ls[0], m, n, i, c) ==> m == 0 || m == 2
    &&& forall|m: int, n: int, i: int, c: Cell| #[trigger] fa(ls[1], m, n, i, c) ==> m == 0 || m == 2
    &&& forall|n: int, i: int, c: Cell| #[trigger] fa(ls[0], 0, n, i, c) == (c == (Cell { s: 13, k: k, a: i, b: 0, p: -1, q: 1 }))
    &&& forall|n: int, i: int, c: Cell| #[trigger] fa(ls[1], 0, n, i, c) == (c == (Cell { s: 14, k: k, a: i, b: 0, p: -1, q: 1 }))
    &&& forall|n: int, i: int, c: Cell| #[trigger] fa(ls[0], 2, n, i, c) ==> sgn(c, 8, 0) || c == (Cell { s: 12, k: k, a: i, b: 0, p: -1, q: 1 }) || (sgn(c, 10, 2) && c.a == i && c.b == 2)
    &&& forall|n: int, i: int, c: Cell| #[trigger] fa(ls[1], 2, n, i, c) ==> (sgn(c, 4, 1) && c.a == i + 1) || c == (Cell { s: 13, k: k, a: i, b: 0, p: -1, q: 1 })
}
// the four declarations
pub open spec fn rdc(ls: Seq<VString>, k: int, m: int) -> bool {
    &&& ls.len() >= 4 && kind(ls[0]) == 0 && kind(ls[1]) == 0 && kind(ls[2]) == 0 && kind(ls[3]) == 0
    &&& forall|g: int, n: int, i: int, c: Cell| #[trigger] fa(ls[0], g, n, i, c) == (g == 4 && c.s == 11 && c.k == k && 0 <= c.a < m && 0 <= c.b < n && c.p == -1 && c.q == 2)
    &&& forall|g: int, n: int, i: int, c: Cell| #[trigger] fa(ls[1], g, n, i, c) == (g == 4 && c.s == 12 && c.k == k && 0 <= c.a < n && c.b == 0 && c.p == -1 && c.q == 1)
    &&& forall|g: int, n: int, i: int, c: Cell| #[trigger] fa(ls[2], g, n, i, c) == (g == 4 && c.s == 13 && c.k == k && 0 <= c.a < n && c.b == 0 && c.p == -1 && c.q == 1)
    &&& forall|g: int, n: int, i: int, c: Cell| #[trigger] fa(ls[3], g, n, i, c) == ((g == 4 || g == 6) && c.s == 14 && c.k == k && 0 <= c.a < n && c.b == 0 && c.p == -1 && c.q == 1)
}
// the t first lines behind the head of the loop
pub open spec fn pm(v: Seq<VString>, k: int, t: int, n: int, c: Cell) -> bool {
    &&& tot(v.take(6 + t), 0, n, c) == b2n(c.s == 11 && c.k == k && c.p == -1 && c.q == 2 && 0 <= c.a < t && 0 <= c.b < n)
    &&& tot(v.take(6 + t), 1, n, c) == 0 && tot(v.take(6 + t), 3, n, c) == 0 && tot(v.take(6 + t), 5, n, c) == 0
}
pub proof fn rev_head(v: Seq<VString>, k: int, m: int, t: int, rs: Seq<&(usize, usize)>, sl: int, n: int, c: Cell)
    requires rdc(v, k, m), v.len() >= 6 + t, 0 <= t <= m, n >= 0, rs.len() == m,
        kind(v[4]) == 2 && flo(v[4], n) == 0 && fhi(v[4], n) == n && kind(v[5]) == 0, forall|g: int, i: int| !(#[trigger] fa(v[4], g, n, i, c)), forall|g: int, i: int| !(#[trigger] fa(v[5], g, n, i, c)),
        forall|q: int| 0 <= q < t ==> prv(#[trigger] v[6 + q], k, q, rs[q].0 as int),
        forall|q: int| 0 <= q < rs.len() ==> (#[trigger] rs[q]).0 < sl && 1 <= rs[q].1 < sl,
    ensures nest(v.take(6 + t)) == 1, hdr(v.take(6 + t)) == Some(v[4]), pm(v, k, t, n, c), tot(v.take(6 + t), 2, n, c) > 0 ==> rr(n, c, k, m, sl),
        tot(v.take(6 + t), 4, n, c) == b2n(rw(n, c, k, m)), tot(v.take(6 + t), 6, n, c) == b2n(c.s == 14 && rw(n, c, k, m)),
    decreases t
{
    if t == 0 {
        sq(v, 0); sq(v, 1); sq(v, 2); sq(v, 3); sq(v, 4); sq(v, 5);
        let x = v[5];
        rng_one(x, 0, n, c, 0, n, 0); rng_one(x, 1, n, c, 0, n, 0); rng_one(x, 2, n, c, 0, n, 0); rng_one(x, 3, n, c, 0, n, 0); rng_one(x, 4, n, c, 0, n, 0); rng_one(x, 5, n, c, 0, n, 0); rng_one(x, 6, n, c, 0, n, 0);
    } else {
        rev_head(v, k, m, t - 1, rs, sl, n, c); sq(v, 5 + t);
        let x = v[6 + (t - 1)]; assert(prv(x, k, t - 1, rs[t - 1].0 as int));
        rng_one(x, 0, n, c, 0, n, c.b); rng_pos(x, 2, n, c, 0, n);
        rng_one(x, 1, n, c, 0, n, 0); rng_one(x, 3, n, c, 0, n, 0); rng_one(x, 4, n, c, 0, n, 0); rng_one(x, 5, n, c, 0, n, 0); rng_one(x, 6, n, c, 0, n, 0);
    }
}
pub proof fn rev_new(v: Seq<VString>, k: int, rs: Seq<&(usize, usize)>, sl: int)
    requires rdc(v, k, rs.len() as int), v.len() == rs.len() + 10,
        kind(v[4]) == 2 && kind(v[5]) == 0, forall|n: int| #[trigger] flo(v[4], n) == 0, forall|n: int| #[trigger] fhi(v[4], n) == n, forall|g: int, n: int, i: int, c: Cell| !(#[trigger] fa(v[4], g, n, i, c)), forall|g: int, n: int, i: int, c: Cell| !(#[trigger] fa(v[5], g, n, i, c)),
        forall|q: int| 0 <= q < rs.len() ==> prv(#[trigger] v[6 + q], k, q, rs[q].0 as int),
        forall|q: int| 0 <= q < rs.len() ==> (#[trigger] rs[q]).0 < sl && 1 <= rs[q].1 < sl,
        ons(v[6 + rs.len() as int], k, rs), rvl(v.subrange(7 + rs.len() as int, 9 + rs.len() as int), k), kind(v[9 + rs.len() as int]) == 3, forall|g: int, n: int, i: int, c: Cell| !(#[trigger] fa(v[9 + rs.len() as int], g, n, i, c)),
    ensures rev_ok(v, k, rs.len() as int, sl)
{
    let m = rs.len() as int; let w = v.subrange(7 + m, 9 + m); assert(v[7 + m] == w[0] && v[8 + m] == w[1]); assert(v.take(10 + m) =~= v);
    assert forall|n: int, c: Cell| n >= 0 implies #[trigger] rev1(v, k, m, sl, n, c) && nest(v) == 0 by {
        rev_head(v, k, m, m, rs, sl, n, c);
        sq(v, 6 + m); sq(v, 7 + m); sq(v, 8 + m); sq(v, 9 + m);
        let x = v[6 + m]; let y = v[7 + m]; let z = v[8 + m]; let e = v[9 + m];
        rng_one(x, 0, n, c, 0, n, c.a); rng_one(y, 0, n, c, 0, n, c.a); rng_one(z, 0, n, c, 0, n, c.a);
        rng_pos(x, 2, n, c, 0, n); rng_pos(y, 2, n, c, 0, n); rng_pos(z, 2, n, c, 0, n); rng_one(e, 0, n, c, 0, n, 0); rng_one(e, 2, n, c, 0, n, 0);
        rng_one(x, 1, n, c, 0, n, 0); rng_one(x, 3, n, c, 0, n, 0); rng_one(x, 4, n, c, 0, n, 0); rng_one(x, 5, n, c, 0, n, 0); rng_one(x, 6, n, c, 0, n, 0);
        rng_one(y, 1, n, c, 0, n, 0); rng_one(y, 3, n, c, 0, n, 0); rng_one(y, 4, n, c, 0, n, 0); rng_one(y, 5, n, c, 0, n, 0); rng_one(y, 6, n, c, 0, n, 0);
        rng_one(z, 1, n, c, 0, n, 0); rng_one(z, 3, n, c, 0, n, 0); rng_one(z, 4, n, c, 0, n, 0); rng_one(z, 5, n, c, 0, n, 0); rng_one(z, 6, n, c, 0, n, 0);
        rng_one(e, 1, n, c, 0, n, 0); rng_one(e, 3, n, c, 0, n, 0); rng_one(e, 4, n, c, 0, n, 0); rng_one(e, 5, n, c, 0, n, 0); rng_one(e, 6, n, c, 0, n, 0);
        if rng(x, 2, n, c, 0, n) > 0 {
            let i = choose|i: int| 0 <= i < n && #[trigger] fa(x, 2, n, i, c); let t = choose|t: int| 0 <= t < rs.len() && #[trigger] onr(rs[t], t, k, i, c);
            assert(rs[t].0 < sl);
        }
    }
    assert(rev1(v, k, m, sl, 0, arbitrary()));
}
// the substrings below k; ms: how many transitions each has
pub open spec fn sw(n: int, c: Cell, ms: Seq<int>) -> bool { 0 <= c.k < ms.len() && rw(n, c, c.k, ms[c.k]) }
pub open spec fn sr(n: int, c: Cell, a: int, ms: Seq<int>, sl: int) -> bool {
    ||| cr(n, c, a) || sw(n, c, ms) || sgn(c, 8, 0) || (sgn(c, 4, 1) && 1 <= c.a <= n) || (sgn(c, 3, 1) && 1 <= c.a <= n)
    ||| sgn(c, 1, 2) && 0 <= c.b < sl && (1 <= c.a <= n || (c.b >= 1 && 2 <= c.a <= n + 1))
}
pub open spec fn sub1(ls: Seq<VString>, a: int, ms: Seq<int>, sl: int, n: int, c: Cell) -> bool { does(ls, n, c, cw(n, c) || sw(n, c, ms), sr(n, c, a, ms, sl), cd(n, c) || sw(n, c, ms), false, c.s == 14 && sw(n, c, ms)) }
#[verifier::opaque]
pub open spec fn subs(ls: Seq<VString>, a: int, ms: Seq<int>, sl: int) -> bool { nest(ls) == 0 && forall|n: int, c: Cell| n >= 0 ==> #[trigger] sub1(ls, a, ms, sl, n, c) }
pub proof fn subs_none(u: Seq<VString>, v: Seq<VString>, a: int, sl: int)
    requires con_ok(u, a), v.len() == 1, kind(v[0]) == 0, forall|g: int, n: int, i: int, c: Cell| !(#[trigger] fa(v[0], g, n, i, c))
    ensures subs(u + v, a, Seq::<int>::empty(), sl)
{
    reveal(subs); let w = u + v; let q = u.len() as int; sq(w, q); assert(w.take(q) =~= u); assert(w.take(q + 1) =~= w); nest_hdr(u);
    assert forall|n: int, c: Cell| n >= 0 implies #[trigger] sub1(w, a, Seq::<int>::empty(), sl, n, c) by { assert(con1(u, a, n, c)); }
}
pub proof fn subs_more(u: Seq<VString>, v: Seq<VString>, a: int, ms: Seq<int>, m: int, sl: int)
    requires subs(u, a, ms, sl), rev_ok(v, ms.len() as int, m, sl)
    ensures subs(u + v, a, ms.push(m), sl)
{
    reveal(subs); tot_add(u, v);
    assert forall|n: int, c: Cell| n >= 0 implies #[trigger] sub1(u + v, a, ms.push(m), sl, n, c) by { assert(sub1(u, a, ms, sl, n, c)); assert(rev1(v, ms.len() as int, m, sl, n, c)); tot_pos(u, 2, n, c); tot_pos(v, 2, n, c); }
}
// the published ranges belong to the automaton: states of it, and none leads into the start
pub open spec fn fits(r: RegexAndDFA, sl: int) -> bool {
    forall|k: int, x: (usize, usize)| 0 <= k < r.substrings.substring_ranges@.len() && #[trigger] r.substrings.substring_ranges@[k]@.contains(x) ==> x.0 < sl && 1 <= x.1 < sl
}
pub open spec fn subs_all(t: VString, r: RegexAndDFA, a: usize, ms: Seq<int>) -> bool { t.ls().len() > 0 && kind(t.ls().last()) == 3 && forall|sl: int| fits(r, sl) ==> #[trigger] subs(t.ls().drop_last(), a as int, ms, sl) }
pub proof fn dec_plainc(n: int) ensures !has_newline(dec_text(n)) decreases n
{
    reveal_with_fuel(dec_text, 2); if n >= 10 {
        dec_plainc(n / 10); let t = dec_text(n / 10); let e = (48 + n % 10) as u8; push_hasg(t, e);
        assert(dec_text(n) == t.push(e)); assert(t.push(e).contains(10u8) == (t.contains(10u8) || 10u8 == e)); assert(t.push(e).contains(13u8) == (t.contains(13u8) || 13u8 == e));
    } else if n >= 0 { let t = dec_text(n); assert(t.len() == 1 && t[0] == (48 + n) as u8); if t.contains(10) { let q = choose|q: int| 0 <= q < t.len() && t[q] == 10u8; } if t.contains(13) { let q = choose|q: int| 0 <= q < t.len() && t[q] == 13u8; } }
}
// ---------- the whole circuit ----------
// what holds of a cell in a circuit that is complete: no gate has another number of inputs than it is given; what is written is written once
// and declared; an input signal is declared and not written; an output is written; what is read is an input or written; an instance that is
// declared is made once and each of its inputs is written once
pub open spec fn cell1(ls: Seq<VString>, n: int, c: Cell) -> bool {
    let w = tot(ls, 0, n, c); let o = tot(ls, 1, n, c); let r = tot(ls, 2, n, c); let d = tot(ls, 4, n, c); let i = tot(ls, 5, n, c); let u = tot(ls, 6, n, c);
    &&& tot(ls, 3, n, c) == 0 && 0 <= w <= 1 && 0 <= d <= 1 && 0 <= i <= 1
    &&& c.p == -1 ==> o == 0 && (w == 1 ==> d == 1 && i == 0) && (i == 1 ==> d == 1) && (u > 0 ==> d == 1 && w == 1) && (r > 0 ==> d == 1 && w + i == 1)
    &&& c.p == -1 && 20 <= c.s < 30 ==> w == d
    &&& c.p != -1 ==> d == 0 && i == 0 && u == 0 && w == o && (w > 0 ==> tot(ls, 0, n, comp(c)) == 1) && (r > 0 ==> c.p == 3 && c.q == 0 && tot(ls, 0, n, comp(c)) == 1)
    &&& sgn(c, 30, 0) || sgn(c, 31, 0) || sgn(c, 32, 0) || sgn(c, 33, 0) ==> d == 1
}
// what the substring constraints rely on
pub open spec fn given(n: int, c: Cell, sl: int) -> bool {
    ||| sgn(c, 8, 0) || (sgn(c, 4, 1) && 0 <= c.a <= n) || (sgn(c, 3, 1) && 0 <= c.a <= n + 1)
    ||| sgn(c, 1, 2) && 0 <= c.b < sl && (0 <= c.a <= n || (c.b >= 1 && c.a == n + 1))
    ||| c.s == 25 && c.k == 0 && c.a == 0 && c.p == -1 && c.q == 0 && 0 <= c.b <= n
}
pub open spec fn main1(ls: Seq<VString>, sl: int, n: int, c: Cell) -> bool {
    &&& cell1(ls, n, c)
    &&& 10 <= c.s <= 14 ==> tot(ls, 0, n, c) == 0 && tot(ls, 2, n, c) == 0 && tot(ls, 4, n, c) == 0 && tot(ls, 5, n, c) == 0 && tot(ls, 6, n, c) == 0
    &&& given(n, c, sl) ==> tot(ls, 0, n, c) == 1 && tot(ls, 4, n, c) == 1 && tot(ls, 5, n, c) == 0
}
#[verifier::opaque]
pub open spec fn main_ok(ls: Seq<VString>, sl: int) -> bool { nest(ls) == 0 && forall|n: int, c: Cell| n >= 0 ==> #[trigger] main1(ls, sl, n, c) }
pub proof fn main_new(p: Seq<VString>, i: Seq<VString>, b: Seq<VString>, q: Seq<VString>, y: Cnt, sl: int, ea: bool, a: int)
    requires dec_ok(p, y, sl, ea), ini_ok(i, sl), blk(b, y, sl, ea), acc_shut(q, a, ea), 1 <= a < sl
    ensures main_ok(p + i + b + q, sl)
{
    reveal(main_ok);
    tot_add(p, i); tot_add(p + i, b); tot_add(p + i + b, q);
    let ls = p + i + b + q;
    assert forall|n: int, c: Cell| n >= 0 implies #[trigger] main1(ls, sl, n, c) by {
        let k = comp(c);
        assert(dec1(p, y, sl, ea, n, c) && ini1(i, sl, n, c) && blk1(b, y, sl, ea, n, c) && ac1(q, a, ea, n, c));
        assert(dec1(p, y, sl, ea, n, k) && ini1(i, sl, n, k) && blk1(b, y, sl, ea, n, k) && ac1(q, a, ea, n, k));
        assert(tot(b, 3, n, c) == 0 && tot(b, 4, n, c) == 0 && tot(b, 5, n, c) == 0 && tot(b, 6, n, c) == 0);
        tot_pos(p, 2, n, c); tot_pos(i, 2, n, c); tot_pos(b, 2, n, c); tot_pos(q, 2, n, c);
    }
}
// a complete circuit: its lines, closed by a brace
pub open spec fn shut(ls: Seq<VString>) -> bool { ls.len() > 0 && kind(ls.last()) == 3 && nest(ls.drop_last()) == 0 && forall|n: int, c: Cell| n >= 0 ==> #[trigger] cell1(ls.drop_last(), n, c) }
pub proof fn shut_main(u: Seq<VString>, v: Seq<VString>, sl: int) requires main_ok(u, sl), v.len() == 1, kind(v[0]) == 3 ensures shut(u + v)
{ reveal(main_ok); assert((u + v).drop_last() =~= u); assert forall|n: int, c: Cell| n >= 0 implies #[trigger] cell1(u, n, c) by { assert(main1(u, sl, n, c)); } }
pub proof fn shut_subs(u: Seq<VString>, v: Seq<VString>, sl: int, a: int, ms: Seq<int>)
    requires main_ok(u, sl), v.len() > 0, kind(v.last()) == 3, subs(v.drop_last(), a, ms, sl), 1 <= a < sl
    ensures shut(u + v)
{
    reveal(main_ok); reveal(subs); let t = v.drop_last(); let ls = u + t; assert((u + v).drop_last() =~= ls); tot_add(u, t);
    assert forall|n: int, c: Cell| n >= 0 implies #[trigger] cell1(ls, n, c) by {
        let k = comp(c);
        assert(main1(u, sl, n, c) && sub1(t, a, ms, sl, n, c)); assert(main1(u, sl, n, k) && sub1(t, a, ms, sl, n, k));
        tot_pos(u, 2, n, c); tot_pos(t, 2, n, c);
    }
}
pub open spec fn sound(g: DFAGraph, name: Seq<u8>) -> bool { !has_newline(name) && g.states@.len() >= 2 && !acc(g.states@[0]) }
pub open spec fn shut2(s: VString, t: VString) -> bool { cut(s@, t@) && shut(s.ls() + t.ls()) }

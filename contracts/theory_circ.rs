// ---------- the constraints of a generated circuit ----------
// sg: the value of the signal name<k>[a][b]; pt: of port[q] of the component comp[a][b] (ports: in 0, a 1, b 2, out 3); all modulo P
pub uninterp spec fn P() -> int;
pub axiom fn axiom_p() ensures P() > 0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000;
pub uninterp spec fn sg(w: Wit, name: int, k: int, a: int, b: int) -> int;
pub uninterp spec fn pt(w: Wit, comp: int, a: int, b: int, port: int, q: int) -> int;
pub axiom fn axiom_sg(w: Wit, name: int, k: int, a: int, b: int) ensures 0 <= sg(w, name, k, a, b) < P();
// a Vec of Strings takes 24 bytes per element and at most isize::MAX bytes: counters bounded by its length do not overflow when a small constant is added
pub axiom fn axiom_lines(v: Vec<VString>) ensures v@.len() <= usize::MAX / 24;
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn bit(x: int) -> bool { x == 0 || x == 1 }
pub open spec fn fe(x: int) -> int { x % P() }
#[verifier::opaque]
pub open spec fn mu(a: int, b: int) -> int { a * b }
pub open spec fn any1(s: Seq<int>) -> bool { exists|q: int| 0 <= q < s.len() && #[trigger] s[q] == 1 }
pub open spec fn bits(s: Seq<int>) -> bool { forall|q: int| 0 <= q < s.len() ==> bit(#[trigger] s[q]) }
// the gates (regex_helpers.circom and circomlib; decided by C13): MultiOR, MultiNOR over inputs of 0 and 1; LessThan(8)
pub open spec fn or_rel(x: int, s: Seq<int>) -> bool { bits(s) ==> x == b2i(any1(s)) }
pub open spec fn nor_rel(x: int, s: Seq<int>) -> bool { bits(s) ==> x == b2i(!any1(s)) }
pub open spec fn ports(w: Wit, c: int, a: int, b: int, n: int) -> Seq<int> { Seq::new(n as nat, |q: int| pt(w, c, a, b, 0, q)) }
pub open spec fn or_gate(w: Wit, c: int, a: int, b: int, n: int) -> bool { or_rel(pt(w, c, a, b, 3, 0), ports(w, c, a, b, n)) }
pub open spec fn and_gate(w: Wit, c: int, a: int, b: int) -> bool { pt(w, c, a, b, 3, 0) == fe(mu(pt(w, c, a, b, 1, 0), pt(w, c, a, b, 2, 0))) }
pub open spec fn eq_gate(w: Wit, c: int, a: int, b: int) -> bool { pt(w, c, a, b, 3, 0) == b2i(pt(w, c, a, b, 0, 0) == pt(w, c, a, b, 0, 1)) }
pub open spec fn lt8(x: int, y: int, o: int) -> bool { fe(x + 256 - y) < 512 && o == b2i(fe(x + 256 - y) < 256) }
pub open spec fn le8_gate(w: Wit, c: int, a: int, b: int) -> bool { lt8(pt(w, c, a, b, 0, 0), pt(w, c, a, b, 0, 1) + 1, pt(w, c, a, b, 3, 0)) }
pub proof fn fe_small(x: int) ensures 0 <= x < P() ==> fe(x) == x, -P() <= x < 0 ==> fe(x) == x + P(), P() <= x < 2 * P() ==> fe(x) == x - P(), P() > 1000000
{
    axiom_p(); let p = P();
    if 0 <= x < p { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, p, 0, x); }
    if -p <= x < 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, p, -1, x + p); }
    if p <= x < 2 * p { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, p, 1, x - p); }
}
pub proof fn mu_bit(a: int, b: int) ensures a == 0 ==> mu(a, b) == 0, b == 0 ==> mu(a, b) == 0, a == 1 ==> mu(a, b) == b, b == 1 ==> mu(a, b) == a
{ reveal(mu); if a == 0 || a == 1 || b == 0 || b == 1 { assert(a * 0 == 0 && a * 1 == a && 0 * b == 0 && 1 * b == b); } }
pub proof fn and_bits(w: Wit, c: int, a: int, b: int)
    requires and_gate(w, c, a, b), bit(pt(w, c, a, b, 1, 0)), bit(pt(w, c, a, b, 2, 0))
    ensures pt(w, c, a, b, 3, 0) == b2i(pt(w, c, a, b, 1, 0) == 1 && pt(w, c, a, b, 2, 0) == 1)
{ mu_bit(pt(w, c, a, b, 1, 0), pt(w, c, a, b, 2, 0)); fe_small(0); fe_small(1); }
// a statement sequence and its extension by further one-line statements
#[verifier::opaque]
pub open spec fn sat(ls: Seq<VString>, w: Wit, n: int, i: int) -> bool { forall|q: int| 0 <= q < ls.len() && kind(#[trigger] ls[q]) == 1 ==> lsat(ls[q], w, n, i) }
pub open spec fn ext(a: Seq<VString>, b: Seq<VString>) -> bool { a.len() <= b.len() && forall|q: int| 0 <= q < a.len() ==> #[trigger] b[q] == a[q] }
pub open spec fn grow(a: Seq<VString>, b: Seq<VString>) -> bool { ext(a, b) && forall|q: int| a.len() <= q < b.len() ==> kind(#[trigger] b[q]) == 1 && b[q].ls() == seq![b[q]] }
pub proof fn sat_at(ls: Seq<VString>, w: Wit, n: int, i: int, q: int) requires sat(ls, w, n, i), 0 <= q < ls.len(), kind(ls[q]) == 1 ensures lsat(ls[q], w, n, i) { reveal(sat); }
pub proof fn sat_ext(a: Seq<VString>, b: Seq<VString>) requires ext(a, b) ensures forall|w: Wit, n: int, i: int| #[trigger] sat(b, w, n, i) ==> sat(a, w, n, i)
{ assert forall|w: Wit, n: int, i: int| #[trigger] sat(b, w, n, i) implies sat(a, w, n, i) by { reveal(sat); assert forall|q: int| 0 <= q < a.len() && kind(#[trigger] a[q]) == 1 implies lsat(a[q], w, n, i) by { assert(b[q] == a[q]); } } }
// what a byte of the input is; the values an in[] signal can take
pub open spec fn inv(w: Wit, i: int) -> int { sg(w, 4, 0, i, 0) }
pub open spec fn inok(v: int) -> bool { v == P() - 1 || (0 <= v && v <= 255) }
pub open spec fn inb(v: int, k: Seq<u8>) -> bool { 1 <= v && v <= 255 && k.contains(v as u8) }
// the gate comp[k] says whether the byte is between lo and hi
#[verifier::opaque]
pub open spec fn gm(ls: Seq<VString>, c: int, k: int, lo: int, hi: int) -> bool { forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) ==> pt(w, c, k, i, 3, 0) == b2i(lo <= inv(w, i) && inv(w, i) <= hi) }
pub proof fn gm_ext(a: Seq<VString>, b: Seq<VString>, c: int, k: int, lo: int, hi: int) requires gm(a, c, k, lo, hi), ext(a, b) ensures gm(b, c, k, lo, hi) { reveal(gm); sat_ext(a, b); }
pub open spec fn eqs_ok(ls: Seq<VString>, ec: Seq<Option<usize>>) -> bool { ec.len() == 256 && forall|c: int| 0 <= c < 256 && (#[trigger] ec[c]).is_some() ==> gm(ls, 21, ec[c].unwrap() as int, c, c) }
pub proof fn eqs_ext(a: Seq<VString>, b: Seq<VString>, ec: Seq<Option<usize>>) requires eqs_ok(a, ec), ext(a, b) ensures eqs_ok(b, ec)
{ assert forall|c: int| 0 <= c < 256 && (#[trigger] ec[c]).is_some() implies gm(b, 21, ec[c].unwrap() as int, c, c) by { gm_ext(a, b, 21, ec[c].unwrap() as int, c, c); } }
// an equality gate from its three statements
pub proof fn eq_new(ls: Seq<VString>, q: int, k: int, c: int)
    requires 0 <= q && q + 2 < ls.len(), 1 <= c < 256, kind(ls[q]) == 1, kind(ls[q + 1]) == 1, kind(ls[q + 2]) == 1,
        forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q], w, n, i) == eq_gate(w, 21, k, i),
        forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q + 1], w, n, i) == (pt(w, 21, k, i, 0, 0) == inv(w, i)),
        forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q + 2], w, n, i) == (pt(w, 21, k, i, 0, 1) == c),
    ensures gm(ls, 21, k, c, c)
{
    reveal(gm);
    assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) implies pt(w, 21, k, i, 3, 0) == b2i(c <= inv(w, i) && inv(w, i) <= c) by { sat_at(ls, w, n, i, q); sat_at(ls, w, n, i, q + 1); sat_at(ls, w, n, i, q + 2); }
}
pub open spec fn rcs_ok(ls: Seq<VString>, rc: Seq<Vec<Option<(usize, usize)>>>) -> bool { rc.len() == 256 && (forall|c: int| 0 <= c < 256 ==> (#[trigger] rc[c])@.len() == 256)
    && forall|c: int, d: int| 0 <= c < 256 && 0 <= d < 256 && (#[trigger] rc[c]@[d]).is_some() ==> gm(ls, 23, rc[c]@[d].unwrap().1 as int, c, d) }
pub proof fn rcs_ext(a: Seq<VString>, b: Seq<VString>, rc: Seq<Vec<Option<(usize, usize)>>>) requires rcs_ok(a, rc), ext(a, b) ensures rcs_ok(b, rc)
{ assert forall|c: int, d: int| 0 <= c < 256 && 0 <= d < 256 && (#[trigger] rc[c]@[d]).is_some() implies gm(b, 23, rc[c]@[d].unwrap().1 as int, c, d) by { gm_ext(a, b, 23, rc[c]@[d].unwrap().1 as int, c, d); } }
pub proof fn rng_vals(v: int, lo: int, hi: int, a: int, b: int)
    requires inok(v), 1 <= lo && lo <= hi && hi <= 255, lt8(lo, v + 1, a), lt8(v, hi + 1, b)
    ensures bit(a), bit(b), (a == 1 && b == 1) == (lo <= v && v <= hi)
{
    fe_small(lo + 256 - (v + 1)); fe_small(v + 256 - (hi + 1));
}

// a range gate from its nine statements
pub proof fn rng_new(ls: Seq<VString>, q: int, l: int, a: int, lo: int, hi: int)
    requires 0 <= q && q + 8 < ls.len(), 1 <= lo && lo <= hi && hi <= 255, forall|t: int| q <= t < q + 9 ==> kind(#[trigger] ls[t]) == 1,
        forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q], w, n, i) == le8_gate(w, 22, l, i),
        forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q + 1], w, n, i) == (pt(w, 22, l, i, 0, 0) == lo),
        forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q + 2], w, n, i) == (pt(w, 22, l, i, 0, 1) == inv(w, i)),
        forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q + 3], w, n, i) == le8_gate(w, 22, l + 1, i),
        forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q + 4], w, n, i) == (pt(w, 22, l + 1, i, 0, 0) == inv(w, i)),
        forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q + 5], w, n, i) == (pt(w, 22, l + 1, i, 0, 1) == hi),
        forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q + 6], w, n, i) == and_gate(w, 23, a, i),
        forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q + 7], w, n, i) == (pt(w, 23, a, i, 1, 0) == pt(w, 22, l, i, 3, 0)),
        forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q + 8], w, n, i) == (pt(w, 23, a, i, 2, 0) == pt(w, 22, l + 1, i, 3, 0)),
    ensures gm(ls, 23, a, lo, hi)
{
    reveal(gm);
    assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) implies pt(w, 23, a, i, 3, 0) == b2i(lo <= inv(w, i) && inv(w, i) <= hi) by {
        assert(kind(ls[q]) == 1 && kind(ls[q + 1]) == 1 && kind(ls[q + 2]) == 1 && kind(ls[q + 3]) == 1 && kind(ls[q + 4]) == 1 && kind(ls[q + 5]) == 1 && kind(ls[q + 6]) == 1 && kind(ls[q + 7]) == 1 && kind(ls[q + 8]) == 1);
        sat_at(ls, w, n, i, q); sat_at(ls, w, n, i, q + 1); sat_at(ls, w, n, i, q + 2); sat_at(ls, w, n, i, q + 3); sat_at(ls, w, n, i, q + 4); sat_at(ls, w, n, i, q + 5); sat_at(ls, w, n, i, q + 6); sat_at(ls, w, n, i, q + 7); sat_at(ls, w, n, i, q + 8);
        rng_vals(inv(w, i), lo, hi, pt(w, 22, l, i, 3, 0), pt(w, 22, l + 1, i, 3, 0));
        and_bits(w, 23, a, i);
    }
}
// the outputs of the gates a list names; an or gate over them, shared by the text of the list
pub open spec fn outs(w: Wit, i: int, eo: Seq<(&VString, usize)>) -> Seq<int> { Seq::new(eo.len(), |q: int| pt(w, nm(*eo[q].0), eo[q].1 as int, i, 3, 0)) }
pub open spec fn pouts(w: Wit, i: int, ps: Seq<(VString, usize)>) -> Seq<int> { Seq::new(ps.len(), |q: int| pt(w, nm(ps[q].0), ps[q].1 as int, i, 3, 0)) }
pub open spec fn ands(w: Wit, i: int, s: Seq<usize>) -> Seq<int> { Seq::new(s.len(), |q: int| pt(w, 23, s[q] as int, i, 3, 0)) }
#[verifier::opaque]
pub open spec fn or1(ls: Seq<VString>, m: int, key: VString) -> bool { forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) ==> or_rel(pt(w, 24, m, i, 3, 0), pouts(w, i, un_pairs(key))) }
#[verifier::opaque]
pub open spec fn oro(ls: Seq<VString>, m: int, o: Seq<usize>) -> bool { forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) ==> or_rel(pt(w, 24, m, i, 3, 0), ands(w, i, o)) }
pub open spec fn or2(ls: Seq<VString>, m: int, key: VString) -> bool { oro(ls, m, un_nums(key)) }
pub open spec fn m1_ok(ls: Seq<VString>, m: Map<VString, usize>) -> bool { forall|k: VString| #[trigger] m.contains_key(k) ==> or1(ls, m[k] as int, k) }
pub open spec fn m2_ok(ls: Seq<VString>, m: Map<VString, usize>) -> bool { forall|k: VString| #[trigger] m.contains_key(k) ==> or2(ls, m[k] as int, k) }
pub proof fn m1_ext(a: Seq<VString>, b: Seq<VString>, m: Map<VString, usize>) requires m1_ok(a, m), ext(a, b) ensures m1_ok(b, m)
{ assert forall|k: VString| #[trigger] m.contains_key(k) implies or1(b, m[k] as int, k) by { reveal(or1); sat_ext(a, b); } }
pub proof fn m2_ext(a: Seq<VString>, b: Seq<VString>, m: Map<VString, usize>) requires m2_ok(a, m), ext(a, b) ensures m2_ok(b, m)
{ assert forall|k: VString| #[trigger] m.contains_key(k) implies or2(b, m[k] as int, k) by { reveal(oro); sat_ext(a, b); } }
// the gates named in eo together say whether the byte is in k
#[verifier::opaque]
pub open spec fn hits1(ls: Seq<VString>, eo: Seq<(&VString, usize)>, k: Seq<u8>) -> bool {
    (forall|q: int| 0 <= q < eo.len() ==> isname(*(#[trigger] eo[q]).0))
    && forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) ==> bits(outs(w, i, eo)) && any1(outs(w, i, eo)) == inb(inv(w, i), k)
}
pub proof fn hits1_names(ls: Seq<VString>, eo: Seq<(&VString, usize)>, k: Seq<u8>) requires hits1(ls, eo, k) ensures forall|q: int| 0 <= q < eo.len() ==> isname(*(#[trigger] eo[q]).0) { reveal(hits1); }
pub open spec fn named(eo: Seq<(&VString, usize)>) -> bool { forall|q: int| 0 <= q < eo.len() ==> isname(*(#[trigger] eo[q]).0) }
// the gate and[a] says whether state p is active and the byte is in k
#[verifier::opaque]
pub open spec fn tm(ls: Seq<VString>, a: int, p: int, k: Seq<u8>) -> bool { forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) && bit(sg(w, 1, 0, i, p)) ==> pt(w, 23, a, i, 3, 0) == b2i(sg(w, 1, 0, i, p) == 1 && inb(inv(w, i), k)) }
pub proof fn tm_ext(a: Seq<VString>, b: Seq<VString>, g: int, p: int, k: Seq<u8>) requires tm(a, g, p, k), ext(a, b) ensures tm(b, g, p, k) { reveal(tm); sat_ext(a, b); }
// the transition gate from its three statements: a and b inputs, and what the b input is
pub open spec fn tmb(ls: Seq<VString>, a: int, eo: Seq<(&VString, usize)>) -> bool { forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) ==> (bits(outs(w, i, eo)) ==> pt(w, 23, a, i, 2, 0) == b2i(any1(outs(w, i, eo)))) }
pub proof fn tm_new(l0: Seq<VString>, ls: Seq<VString>, q: int, a: int, p: int, eo: Seq<(&VString, usize)>)
    requires ext(l0, ls), 0 <= q && q + 1 < ls.len(), kind(ls[q]) == 1, kind(ls[q + 1]) == 1,
        forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q], w, n, i) == and_gate(w, 23, a, i),
        forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q + 1], w, n, i) == (pt(w, 23, a, i, 1, 0) == sg(w, 1, 0, i, p)),
        tmb(ls, a, eo),
    ensures forall|k: Seq<u8>| #[trigger] hits1(l0, eo, k) ==> tm(ls, a, p, k)
{
    assert forall|k: Seq<u8>| #[trigger] hits1(l0, eo, k) implies tm(ls, a, p, k) by {
        reveal(tm); reveal(hits1); sat_ext(l0, ls);
        assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) && bit(sg(w, 1, 0, i, p)) implies pt(w, 23, a, i, 3, 0) == b2i(sg(w, 1, 0, i, p) == 1 && inb(inv(w, i), k)) by {
            sat_at(ls, w, n, i, q); sat_at(ls, w, n, i, q + 1); and_bits(w, 23, a, i);
        }
    }
}
// one output
pub proof fn tmb_one(ls: Seq<VString>, q: int, a: int, eo: Seq<(&VString, usize)>)
    requires 0 <= q < ls.len(), kind(ls[q]) == 1, eo.len() == 1, forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q], w, n, i) == (pt(w, 23, a, i, 2, 0) == pt(w, nm(*eo[0].0), eo[0].1 as int, i, 3, 0))
    ensures tmb(ls, a, eo)
{
    assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) implies (bits(outs(w, i, eo)) ==> pt(w, 23, a, i, 2, 0) == b2i(any1(outs(w, i, eo)))) by {
        sat_at(ls, w, n, i, q); let s = outs(w, i, eo); assert(s.len() == 1);
        if bits(s) { assert(bit(s[0])); if s[0] == 1 { assert(any1(s)); } }
    }
}
// the or gate m, known to be the or of the outputs
pub open spec fn same_pairs(ps: Seq<(VString, usize)>, eo: Seq<(&VString, usize)>) -> bool { ps.len() == eo.len() && forall|q: int| 0 <= q < eo.len() ==> (#[trigger] ps[q]).0 == *eo[q].0 && ps[q].1 == eo[q].1 }
pub proof fn tmb_or(l0: Seq<VString>, ls: Seq<VString>, q: int, a: int, m: int, key: VString, eo: Seq<(&VString, usize)>)
    requires 0 <= q < ls.len(), kind(ls[q]) == 1, ext(l0, ls), or1(l0, m, key), same_pairs(un_pairs(key), eo), forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q], w, n, i) == (pt(w, 23, a, i, 2, 0) == pt(w, 24, m, i, 3, 0))
    ensures tmb(ls, a, eo)
{
    sat_ext(l0, ls); reveal(or1);
    assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) implies (bits(outs(w, i, eo)) ==> pt(w, 23, a, i, 2, 0) == b2i(any1(outs(w, i, eo)))) by {
        sat_at(ls, w, n, i, q); assert(pouts(w, i, un_pairs(key)) =~= outs(w, i, eo));
    }
}
// the new or gate m: its instance at q, its inputs after it
pub open spec fn input1(l: VString, m: int, t: int, e: (&VString, usize)) -> bool { kind(l) == 1 && forall|w: Wit, n: int, i: int| #[trigger] lsat(l, w, n, i) == (pt(w, 24, m, i, 0, t) == pt(w, nm(*e.0), e.1 as int, i, 3, 0)) }
pub open spec fn inputs1(ls: Seq<VString>, q: int, m: int, eo: Seq<(&VString, usize)>, upto: int) -> bool { ls.len() >= q + 1 + upto && forall|t: int| #![trigger ls[q + 1 + t]] 0 <= t < upto ==> input1(ls[q + 1 + t], m, t, eo[t]) }
pub proof fn or1_new(ls: Seq<VString>, q: int, m: int, key: VString, eo: Seq<(&VString, usize)>)
    requires 0 <= q < ls.len(), kind(ls[q]) == 1, same_pairs(un_pairs(key), eo), forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q], w, n, i) == or_gate(w, 24, m, i, eo.len() as int),
        inputs1(ls, q, m, eo, eo.len() as int),
    ensures or1(ls, m, key)
{
    reveal(or1);
    assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) implies or_rel(pt(w, 24, m, i, 3, 0), pouts(w, i, un_pairs(key))) by {
        sat_at(ls, w, n, i, q);
        let s = ports(w, 24, m, i, eo.len() as int); let o = pouts(w, i, un_pairs(key));
        assert(s.len() == o.len());
        assert forall|t: int| 0 <= t < s.len() implies s[t] == o[t] by { assert(input1(ls[q + 1 + t], m, t, eo[t])); sat_at(ls, w, n, i, q + 1 + t); assert(un_pairs(key)[t].0 == *eo[t].0); }
        assert(s =~= o);
    }
}
pub open spec fn zero_noted(a: Map<usize, Vec<usize>>, b: Map<usize, Vec<usize>>, i: usize, p: usize, g: usize) -> bool {
    if p == 0 { b.dom() == a.dom() && b[i]@ == a[i]@.push(g) && forall|j: usize| j != i && #[trigger] a.contains_key(j) ==> b[j] == a[j] } else { b == a }
}

// the state j after the step is the or of the listed transition gates
#[verifier::opaque]
pub open spec fn upd(ls: Seq<VString>, name: int, j: int, o: Seq<usize>) -> bool { forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) ==> or_rel(sg(w, name, 0, i + 1, j), ands(w, i, o)) }
pub proof fn upd_ext(a: Seq<VString>, b: Seq<VString>, name: int, j: int, o: Seq<usize>) requires upd(a, name, j, o), ext(a, b) ensures upd(b, name, j, o) { reveal(upd); sat_ext(a, b); }
pub open spec fn input2(l: VString, m: int, t: int, e: usize) -> bool { kind(l) == 1 && forall|w: Wit, n: int, i: int| #[trigger] lsat(l, w, n, i) == (pt(w, 24, m, i, 0, t) == pt(w, 23, e as int, i, 3, 0)) }
pub open spec fn inputs2(ls: Seq<VString>, q: int, m: int, o: Seq<usize>, upto: int) -> bool { ls.len() >= q + 1 + upto && forall|t: int| #![trigger ls[q + 1 + t]] 0 <= t < upto ==> input2(ls[q + 1 + t], m, t, o[t]) }
pub proof fn oro_new(ls: Seq<VString>, q: int, m: int, o: Seq<usize>)
    requires 0 <= q < ls.len(), kind(ls[q]) == 1, forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q], w, n, i) == or_gate(w, 24, m, i, o.len() as int), inputs2(ls, q, m, o, o.len() as int),
    ensures oro(ls, m, o)
{
    reveal(oro);
    assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) implies or_rel(pt(w, 24, m, i, 3, 0), ands(w, i, o)) by {
        sat_at(ls, w, n, i, q);
        let s = ports(w, 24, m, i, o.len() as int); let t0 = ands(w, i, o);
        assert forall|t: int| 0 <= t < s.len() implies s[t] == t0[t] by { assert(input2(ls[q + 1 + t], m, t, o[t])); sat_at(ls, w, n, i, q + 1 + t); }
        assert(s =~= t0);
    }
}
pub proof fn upd_or(l0: Seq<VString>, ls: Seq<VString>, q: int, name: int, j: int, m: int, o: Seq<usize>)
    requires ext(l0, ls), oro(l0, m, o), 0 <= q < ls.len(), kind(ls[q]) == 1, forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q], w, n, i) == (sg(w, name, 0, i + 1, j) == pt(w, 24, m, i, 3, 0))
    ensures upd(ls, name, j, o)
{ reveal(upd); reveal(oro); sat_ext(l0, ls); assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) implies or_rel(sg(w, name, 0, i + 1, j), ands(w, i, o)) by { sat_at(ls, w, n, i, q); } }
pub proof fn upd_one(ls: Seq<VString>, q: int, name: int, j: int, o: Seq<usize>)
    requires 0 <= q < ls.len(), kind(ls[q]) == 1, o.len() == 1, forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q], w, n, i) == (sg(w, name, 0, i + 1, j) == pt(w, 23, o[0] as int, i, 3, 0))
    ensures upd(ls, name, j, o)
{ reveal(upd); assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) implies or_rel(sg(w, name, 0, i + 1, j), ands(w, i, o)) by { sat_at(ls, w, n, i, q); let s = ands(w, i, o); assert(s.len() == 1); if bits(s) { assert(bit(s[0])); if s[0] == 1 { assert(any1(s)); } } } }
pub proof fn upd_none(ls: Seq<VString>, q: int, name: int, j: int, o: Seq<usize>)
    requires 0 <= q < ls.len(), kind(ls[q]) == 1, o.len() == 0, forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q], w, n, i) == (sg(w, name, 0, i + 1, j) == 0)
    ensures upd(ls, name, j, o)
{ reveal(upd); assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) implies or_rel(sg(w, name, 0, i + 1, j), ands(w, i, o)) by { sat_at(ls, w, n, i, q); let s = ands(w, i, o); assert(s.len() == 0); } }
// the states after the step, in which a state that can be entered from the start counts without that; the restart enable
pub open spec fn stn(zss: Seq<usize>, j: int) -> int { if zss.contains(j as usize) { 2 } else { 1 } }
pub open spec fn nxts(w: Wit, i: int, zss: Seq<usize>, sl: int) -> Seq<int> { Seq::new((sl - 1) as nat, |q: int| sg(w, stn(zss, q + 1), 0, i + 1, q + 1)) }
#[verifier::opaque]
pub open spec fn fz_ok(ls: Seq<VString>, zss: Seq<usize>, sl: int) -> bool { forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) ==> nor_rel(sg(w, 3, 0, i, 0), nxts(w, i, zss, sl)) }
pub proof fn fz_new(ls: Seq<VString>, q: int, zss: Seq<usize>, sl: int, xs: Seq<VString>)
    requires 0 <= q < ls.len(), kind(ls[q]) == 1, sl >= 1, xs.len() == sl - 1, forall|t: int, w: Wit, n: int, i: int| #![trigger xval(xs[t], w, n, i)] 0 <= t < xs.len() ==> xval(xs[t], w, n, i) == seq![sg(w, stn(zss, t + 1), 0, i + 1, t + 1)],
        forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q], w, n, i) == nor_rel(sg(w, 3, 0, i, 0), xvals(xs, w, n, i)),
    ensures fz_ok(ls, zss, sl)
{ reveal(fz_ok); assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) implies nor_rel(sg(w, 3, 0, i, 0), nxts(w, i, zss, sl)) by { sat_at(ls, w, n, i, q); assert(xvals(xs, w, n, i) =~= nxts(w, i, zss, sl)); } }
pub proof fn fz_ext(a: Seq<VString>, b: Seq<VString>, zss: Seq<usize>, sl: int) requires fz_ok(a, zss, sl), ext(a, b) ensures fz_ok(b, zss, sl) { reveal(fz_ok); sat_ext(a, b); }
// a state that can be entered from the start: it is also entered when the restart is enabled and one of the gates fires
pub open spec fn zins(w: Wit, i: int, j: int, v: Seq<usize>) -> Seq<int> { seq![sg(w, 2, 0, i + 1, j)] + Seq::new(v.len(), |q: int| fe(mu(sg(w, 3, 0, i, 0), pt(w, 23, v[q] as int, i, 3, 0)))) }
#[verifier::opaque]
pub open spec fn zu(ls: Seq<VString>, j: int, v: Seq<usize>) -> bool { forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) ==> or_rel(sg(w, 1, 0, i + 1, j), zins(w, i, j, v)) }
pub proof fn zu_ext(a: Seq<VString>, b: Seq<VString>, j: int, v: Seq<usize>) requires zu(a, j, v), ext(a, b) ensures zu(b, j, v) { reveal(zu); sat_ext(a, b); }
pub proof fn zu_new(ls: Seq<VString>, q: int, j: int, v: Seq<usize>, xs: Seq<VString>)
    requires 0 <= q < ls.len(), kind(ls[q]) == 1, xs.len() == v.len(), forall|t: int, w: Wit, n: int, i: int| #![trigger xval(xs[t], w, n, i)] 0 <= t < xs.len() ==> xval(xs[t], w, n, i) == seq![fe(mu(sg(w, 3, 0, i, 0), pt(w, 23, v[t] as int, i, 3, 0)))],
        forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[q], w, n, i) == or_rel(sg(w, 1, 0, i + 1, j), seq![sg(w, 2, 0, i + 1, j)] + xvals(xs, w, n, i)),
    ensures zu(ls, j, v)
{ reveal(zu); assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) implies or_rel(sg(w, 1, 0, i + 1, j), zins(w, i, j, v)) by { sat_at(ls, w, n, i, q); assert(seq![sg(w, 2, 0, i + 1, j)] + xvals(xs, w, n, i) =~= zins(w, i, j, v)); } }
pub open spec fn zus(ls: Seq<VString>, m: Map<usize, Vec<usize>>, j: usize) -> bool { m.contains_key(j) && m[j]@.len() > 0 ==> zu(ls, j as int, m[j]@) }
// the state-changed gate's inputs
pub open spec fn sc_in(l: VString, q: int) -> bool { kind(l) == 1 && forall|w: Wit, n: int, i: int| #[trigger] lsat(l, w, n, i) == (pt(w, 25, 0, i, 0, q) == sg(w, 1, 0, i + 1, q + 1)) }
pub open spec fn sc_ins(ls: Seq<VString>, a: int, cnt: int) -> bool { a + cnt <= ls.len() && forall|q: int| #![trigger ls[a + q]] 0 <= q < cnt ==> sc_in(ls[a + q], q) }
// the values covered by ranges
pub open spec fn inr(v: int, rs: Seq<(u8, u8)>, n: int) -> bool { exists|q: int| 0 <= q < n && (#[trigger] rs[q]).0 <= v && v <= rs[q].1 }
pub open spec fn has_n(s: Seq<u8>, n: int, x: u8) -> bool { exists|q: int| 0 <= q < n && #[trigger] s[q] == x }
pub proof fn has_n_step(s: Seq<u8>, n: int) requires 0 <= n < s.len() ensures forall|x: u8| #[trigger] has_n(s, n + 1, x) == (has_n(s, n, x) || x == s[n])
{ assert forall|x: u8| #[trigger] has_n(s, n + 1, x) == (has_n(s, n, x) || x == s[n]) by { if has_n(s, n + 1, x) { let q = choose|q: int| 0 <= q < n + 1 && #[trigger] s[q] == x; } if has_n(s, n, x) { let q = choose|q: int| 0 <= q < n && #[trigger] s[q] == x; assert(s[q] == x); } if x == s[n] { assert(s[n] == x); } } }
pub open spec fn rng_in(r: (u8, u8), k: Seq<u8>) -> bool { r.0 <= r.1 && forall|v: u8| r.0 <= v && v <= r.1 ==> #[trigger] k.contains(v) }
pub open spec fn rngs_in(rs: Seq<(u8, u8)>, k: Seq<u8>) -> bool { forall|q: int| 0 <= q < rs.len() ==> rng_in(#[trigger] rs[q], k) }
// the reverse graph: for every state the states before it and the bytes that lead from there
pub type Rv = Map<usize, VMap<usize, Vec<u8>>>;
pub open spec fn rhas(m: Rv, j: usize, p: usize) -> bool { m.contains_key(j) && m[j]@.contains_key(p) }
pub open spec fn rbytes(m: Rv, j: usize, p: usize) -> Seq<u8> { m[j]@[p]@ }
pub open spec fn rdom(m: Rv, n: int) -> bool { forall|j: usize| #[trigger] m.contains_key(j) == (j < n) }
pub open spec fn rinv(m: Rv, g: DFAGraph) -> bool {
    &&& rdom(m, g.states@.len() as int)
    &&& forall|j: usize, p: usize| #[trigger] rhas(m, j, p) == (j < g.states@.len() && p < g.states@.len() && edge(tr(g, p as int), j))
    &&& rsame(m, g)
}
pub open spec fn rsame(m: Rv, g: DFAGraph) -> bool { forall|j: usize, p: usize| #[trigger] rhas(m, j, p) ==> forall|b: u8| rbytes(m, j, p).contains(b) == #[trigger] tr(g, p as int)[j]@.contains(b) }
pub open spec fn kdone(s: Seq<(&usize, &VSet<u8>)>, n: int, j: usize) -> bool { exists|q: int| 0 <= q < n && *(#[trigger] s[q]).0 == j }
pub proof fn kdone_step(s: Seq<(&usize, &VSet<u8>)>, n: int) requires 0 <= n < s.len() ensures forall|j: usize| #[trigger] kdone(s, n + 1, j) == (kdone(s, n, j) || j == *s[n].0)
{ assert forall|j: usize| #[trigger] kdone(s, n + 1, j) == (kdone(s, n, j) || j == *s[n].0) by { if kdone(s, n + 1, j) { let q = choose|q: int| 0 <= q < n + 1 && *(#[trigger] s[q]).0 == j; } if kdone(s, n, j) { let q = choose|q: int| 0 <= q < n && *(#[trigger] s[q]).0 == j; assert(*s[q].0 == j); } if j == *s[n].0 { assert(*s[n].0 == j); } } }
pub proof fn push_has(s: Seq<u8>, e: u8) ensures forall|x: u8| #[trigger] s.push(e).contains(x) == (s.contains(x) || x == e)
{ assert forall|x: u8| #[trigger] s.push(e).contains(x) == (s.contains(x) || x == e) by { if s.contains(x) { let q = choose|q: int| 0 <= q < s.len() && s[q] == x; assert(s.push(e)[q] == x); } assert(s.push(e)[s.len() as int] == e); if s.push(e).contains(x) && x != e { let q = choose|q: int| 0 <= q < s.push(e).len() && s.push(e)[q] == x; assert(s[q] == x); } } }
// ---------- one step of the circuit ----------
pub open spec fn bitsat(w: Wit, i: int, sl: int) -> bool { forall|j: int| 1 <= j < sl ==> bit(#[trigger] sg(w, 1, 0, i, j)) }
pub open spec fn nz(k: Seq<u8>) -> bool { exists|b: u8| b != 0 && #[trigger] k.contains(b) }
pub open spec fn samenz(a: Seq<u8>, b: Seq<u8>) -> bool { forall|v: u8| v != 0 ==> #[trigger] a.contains(v) == b.contains(v) }
pub proof fn inb_same(v: int, a: Seq<u8>, b: Seq<u8>) requires samenz(a, b) ensures inb(v, a) == inb(v, b) { if 1 <= v <= 255 { assert(a.contains(v as u8) == b.contains(v as u8)); } }
// the byte is in one of the first nr ranges or one of the first nc single values
pub open spec fn ins(v: int, cs: Seq<&u8>, n: int) -> bool { exists|q: int| 0 <= q < n && *(#[trigger] cs[q]) == v }
#[verifier::opaque]
pub open spec fn hitsg(ls: Seq<VString>, eo: Seq<(&VString, usize)>, rs: Seq<(u8, u8)>, nr: int, cs: Seq<&u8>, nc: int) -> bool {
    named(eo) && forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) ==> bits(outs(w, i, eo)) && any1(outs(w, i, eo)) == (inr(inv(w, i), rs, nr) || ins(inv(w, i), cs, nc))
}
pub proof fn any_push(a: Seq<int>, x: int) ensures any1(a.push(x)) == (any1(a) || x == 1), bits(a.push(x)) == (bits(a) && bit(x))
{
    let b = a.push(x); assert(b[a.len() as int] == x);
    assert forall|q: int| 0 <= q < a.len() implies #[trigger] b[q] == a[q] by {}
    if any1(a) { let q = choose|q: int| 0 <= q < a.len() && #[trigger] a[q] == 1; assert(b[q] == 1); }
    if any1(b) && x != 1 { let q = choose|q: int| 0 <= q < b.len() && #[trigger] b[q] == 1; assert(a[q] == 1); }
    if bits(b) { assert forall|q: int| 0 <= q < a.len() implies bit(#[trigger] a[q]) by { assert(bit(b[q])); } assert(bit(b[a.len() as int])); }
}
pub proof fn hitsg_none(ls: Seq<VString>, eo: Seq<(&VString, usize)>, rs: Seq<(u8, u8)>, cs: Seq<&u8>) requires eo.len() == 0 ensures hitsg(ls, eo, rs, 0, cs, 0)
{ reveal(hitsg); assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) implies bits(outs(w, i, eo)) && any1(outs(w, i, eo)) == (inr(inv(w, i), rs, 0) || ins(inv(w, i), cs, 0)) by { assert(outs(w, i, eo).len() == 0); } }
pub proof fn hitsg_rng(l0: Seq<VString>, ls: Seq<VString>, e0: Seq<(&VString, usize)>, eo: Seq<(&VString, usize)>, rs: Seq<(u8, u8)>, nr: int, cs: Seq<&u8>)
    requires hitsg(l0, e0, rs, nr, cs, 0), ext(l0, ls), 0 <= nr < rs.len(), eo.len() == e0.len() + 1, eo.drop_last() == e0, isname(*eo.last().0), gm(ls, nm(*eo.last().0), eo.last().1 as int, rs[nr].0 as int, rs[nr].1 as int)
    ensures hitsg(ls, eo, rs, nr + 1, cs, 0)
{
    reveal(hitsg); reveal(gm); sat_ext(l0, ls);
    assert forall|q: int| 0 <= q < eo.len() implies isname(*(#[trigger] eo[q]).0) by { if q < e0.len() { assert(e0[q] == eo[q]); } }
    assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) implies bits(outs(w, i, eo)) && any1(outs(w, i, eo)) == (inr(inv(w, i), rs, nr + 1) || ins(inv(w, i), cs, 0)) by {
        let v = inv(w, i); let x = pt(w, nm(*eo.last().0), eo.last().1 as int, i, 3, 0);
        assert(outs(w, i, eo) =~= outs(w, i, e0).push(x)) by { assert forall|q: int| 0 <= q < e0.len() implies e0[q] == eo[q] by {} }
        any_push(outs(w, i, e0), x);
        assert(inr(v, rs, nr + 1) == (inr(v, rs, nr) || (rs[nr].0 <= v && v <= rs[nr].1))) by {
            if inr(v, rs, nr + 1) { let q = choose|q: int| 0 <= q < nr + 1 && (#[trigger] rs[q]).0 <= v && v <= rs[q].1; assert(q == nr || inr(v, rs, nr)); }
            if inr(v, rs, nr) { let q = choose|q: int| 0 <= q < nr && (#[trigger] rs[q]).0 <= v && v <= rs[q].1; assert(rs[q].0 <= v); }
        }
    }
}
pub proof fn hitsg_one(l0: Seq<VString>, ls: Seq<VString>, e0: Seq<(&VString, usize)>, eo: Seq<(&VString, usize)>, rs: Seq<(u8, u8)>, cs: Seq<&u8>, nc: int)
    requires hitsg(l0, e0, rs, rs.len() as int, cs, nc), ext(l0, ls), 0 <= nc < cs.len(), eo.len() == e0.len() + 1, eo.drop_last() == e0, isname(*eo.last().0), gm(ls, nm(*eo.last().0), eo.last().1 as int, *cs[nc] as int, *cs[nc] as int)
    ensures hitsg(ls, eo, rs, rs.len() as int, cs, nc + 1)
{
    reveal(hitsg); reveal(gm); sat_ext(l0, ls);
    assert forall|q: int| 0 <= q < eo.len() implies isname(*(#[trigger] eo[q]).0) by { if q < e0.len() { assert(e0[q] == eo[q]); } }
    assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) implies bits(outs(w, i, eo)) && any1(outs(w, i, eo)) == (inr(inv(w, i), rs, rs.len() as int) || ins(inv(w, i), cs, nc + 1)) by {
        let v = inv(w, i); let x = pt(w, nm(*eo.last().0), eo.last().1 as int, i, 3, 0);
        assert(outs(w, i, eo) =~= outs(w, i, e0).push(x)) by { assert forall|q: int| 0 <= q < e0.len() implies e0[q] == eo[q] by {} }
        any_push(outs(w, i, e0), x);
        assert(ins(v, cs, nc + 1) == (ins(v, cs, nc) || *cs[nc] == v)) by {
            if ins(v, cs, nc + 1) { let q = choose|q: int| 0 <= q < nc + 1 && *(#[trigger] cs[q]) == v; assert(q == nc || ins(v, cs, nc)); }
            if ins(v, cs, nc) { let q = choose|q: int| 0 <= q < nc && *(#[trigger] cs[q]) == v; assert(*cs[q] == v); }
        }
    }
}
pub proof fn hits_of(ls: Seq<VString>, eo: Seq<(&VString, usize)>, rs: Seq<(u8, u8)>, cs: Seq<&u8>, cset: Set<u8>, k: Seq<u8>)
    requires hitsg(ls, eo, rs, rs.len() as int, cs, cs.len() as int), set_refs(cs, cset), rngs_in(rs, k), !k.contains(0u8),
        forall|v: u8| #[trigger] k.contains(v) ==> inr(v as int, rs, rs.len() as int) || cset.contains(v), forall|v: u8| #[trigger] cset.contains(v) ==> k.contains(v),
    ensures hits1(ls, eo, k), named(eo)
{
    axiom_p();
    reveal(hitsg); reveal(hits1);
    assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) implies bits(outs(w, i, eo)) && any1(outs(w, i, eo)) == inb(inv(w, i), k) by {
        let v = inv(w, i);
        if inr(v, rs, rs.len() as int) { let q = choose|q: int| 0 <= q < rs.len() && (#[trigger] rs[q]).0 <= v && v <= rs[q].1; assert(rng_in(rs[q], k)); assert(k.contains(v as u8)); assert(v as u8 != 0); }
        if ins(v, cs, cs.len() as int) { let q = choose|q: int| 0 <= q < cs.len() && *(#[trigger] cs[q]) == v; assert(cset.contains(*cs[q])); assert(k.contains(v as u8)); }
        if inb(v, k) { if cset.contains(v as u8) { let q = choose|q: int| 0 <= q < cs.len() && *(#[trigger] cs[q]) == v as u8; assert(*cs[q] == v); } }
    }
}
// the transitions into a state that have been handled: the first cnt of the list it
pub type Ins<'a> = Seq<(&'a usize, &'a Vec<u8>)>;
pub open spec fn contq(it: Ins, cnt: int, w: Wit, i: int) -> bool { exists|q: int| 0 <= q < cnt && *(#[trigger] it[q]).0 != 0 && sg(w, 1, 0, i, *it[q].0 as int) == 1 && inb(inv(w, i), (*it[q].1)@) }
pub open spec fn zq(it: Ins, cnt: int) -> bool { exists|q: int| 0 <= q < cnt && *(#[trigger] it[q]).0 == 0 && nz((*it[q].1)@) }
#[verifier::opaque]
pub open spec fn outs_ok(ls: Seq<VString>, o: Seq<usize>, it: Ins, cnt: int, sl: int) -> bool {
    forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) && bitsat(w, i, sl) ==> bits(ands(w, i, o)) && any1(ands(w, i, o)) == contq(it, cnt, w, i)
}
pub proof fn contq_step(it: Ins, c: int, w: Wit, i: int) requires 0 <= c < it.len() ensures contq(it, c + 1, w, i) == (contq(it, c, w, i) || (*it[c].0 != 0 && sg(w, 1, 0, i, *it[c].0 as int) == 1 && inb(inv(w, i), (*it[c].1)@)))
{
    if contq(it, c + 1, w, i) { let q = choose|q: int| 0 <= q < c + 1 && *(#[trigger] it[q]).0 != 0 && sg(w, 1, 0, i, *it[q].0 as int) == 1 && inb(inv(w, i), (*it[q].1)@); assert(q == c || contq(it, c, w, i)); }
    if contq(it, c, w, i) { let q = choose|q: int| 0 <= q < c && *(#[trigger] it[q]).0 != 0 && sg(w, 1, 0, i, *it[q].0 as int) == 1 && inb(inv(w, i), (*it[q].1)@); assert(*it[q].0 != 0); }
    if *it[c].0 != 0 && sg(w, 1, 0, i, *it[c].0 as int) == 1 && inb(inv(w, i), (*it[c].1)@) { assert(*it[c].0 != 0); }
}
pub proof fn zq_step(it: Ins, c: int) requires 0 <= c < it.len() ensures zq(it, c + 1) == (zq(it, c) || (*it[c].0 == 0 && nz((*it[c].1)@)))
{
    if zq(it, c + 1) { let q = choose|q: int| 0 <= q < c + 1 && *(#[trigger] it[q]).0 == 0 && nz((*it[q].1)@); assert(q == c || zq(it, c)); }
    if zq(it, c) { let q = choose|q: int| 0 <= q < c && *(#[trigger] it[q]).0 == 0 && nz((*it[q].1)@); assert(*it[q].0 == 0); }
    if *it[c].0 == 0 && nz((*it[c].1)@) { assert(*it[c].0 == 0); }
}
pub proof fn outs_none(ls: Seq<VString>, o: Seq<usize>, it: Ins, sl: int) requires o.len() == 0 ensures outs_ok(ls, o, it, 0, sl)
{ reveal(outs_ok); assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) && bitsat(w, i, sl) implies bits(ands(w, i, o)) && any1(ands(w, i, o)) == contq(it, 0, w, i) by { assert(ands(w, i, o).len() == 0); } }
// a transition from the start, or one without a byte other than zero, changes nothing
pub proof fn outs_skip(l0: Seq<VString>, ls: Seq<VString>, o: Seq<usize>, it: Ins, c: int, sl: int)
    requires outs_ok(l0, o, it, c, sl), ext(l0, ls), 0 <= c < it.len(), *it[c].0 == 0 || !nz((*it[c].1)@)
    ensures outs_ok(ls, o, it, c + 1, sl)
{
    reveal(outs_ok); sat_ext(l0, ls);
    assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) && bitsat(w, i, sl) implies bits(ands(w, i, o)) && any1(ands(w, i, o)) == contq(it, c + 1, w, i) by {
        contq_step(it, c, w, i);
        if inb(inv(w, i), (*it[c].1)@) { assert((*it[c].1)@.contains(inv(w, i) as u8)); assert(inv(w, i) as u8 != 0); }
    }
}
pub proof fn outs_step(l0: Seq<VString>, ls: Seq<VString>, o: Seq<usize>, it: Ins, c: int, sl: int, a: usize, k: Seq<u8>)
    requires outs_ok(l0, o, it, c, sl), ext(l0, ls), 0 <= c < it.len(), 0 < *it[c].0 < sl, tm(ls, a as int, *it[c].0 as int, k), samenz(k, (*it[c].1)@)
    ensures outs_ok(ls, o.push(a), it, c + 1, sl)
{
    reveal(outs_ok); reveal(tm); sat_ext(l0, ls);
    assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) && bitsat(w, i, sl) implies bits(ands(w, i, o.push(a))) && any1(ands(w, i, o.push(a))) == contq(it, c + 1, w, i) by {
        contq_step(it, c, w, i); inb_same(inv(w, i), k, (*it[c].1)@);
        let x = pt(w, 23, a as int, i, 3, 0);
        assert(ands(w, i, o.push(a)) =~= ands(w, i, o).push(x)); any_push(ands(w, i, o), x);
        assert(bit(sg(w, 1, 0, i, *it[c].0 as int)));
    }
}
// the transitions into j, from states other than the start
pub open spec fn contw(rv: Rv, w: Wit, i: int, j: usize) -> bool { exists|p: usize| p != 0 && #[trigger] rhas(rv, j, p) && sg(w, 1, 0, i, p as int) == 1 && inb(inv(w, i), rbytes(rv, j, p)) }
pub open spec fn z0(rv: Rv, j: usize) -> bool { rhas(rv, j, 0) && nz(rbytes(rv, j, 0)) }
pub open spec fn ins_of(rv: Rv, j: usize, it: Ins) -> bool { map_refs(it, if rv.contains_key(j) { rv[j]@ } else { Map::<usize, Vec<u8>>::empty() }) }
#[verifier::opaque]
pub open spec fn cont_ok(ls: Seq<VString>, rv: Rv, name: int, j: usize, sl: int) -> bool { forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) && bitsat(w, i, sl) ==> sg(w, name, 0, i + 1, j as int) == b2i(contw(rv, w, i, j)) }
pub proof fn cont_new(l0: Seq<VString>, ls: Seq<VString>, rv: Rv, name: int, j: usize, sl: int, o: Seq<usize>, it: Ins)
    requires outs_ok(l0, o, it, it.len() as int, sl), ext(l0, ls), upd(ls, name, j as int, o), ins_of(rv, j, it)
    ensures cont_ok(ls, rv, name, j, sl), zq(it, it.len() as int) == z0(rv, j)
{
    reveal(outs_ok); reveal(upd); reveal(cont_ok); sat_ext(l0, ls);
    assert forall|p: usize| #[trigger] rhas(rv, j, p) implies exists|q: int| 0 <= q < it.len() && *(#[trigger] it[q]).0 == p && (*it[q].1)@ == rbytes(rv, j, p) by { let q = choose|q: int| 0 <= q < it.len() && *(#[trigger] it[q]).0 == p; assert(*it[q].0 == p); }
    assert forall|q: int| 0 <= q < it.len() implies rhas(rv, j, *(#[trigger] it[q]).0) && (*it[q].1)@ == rbytes(rv, j, *it[q].0) by {}
    if z0(rv, j) { let q = choose|q: int| 0 <= q < it.len() && *(#[trigger] it[q]).0 == 0usize && (*it[q].1)@ == rbytes(rv, j, 0usize); assert(*it[q].0 == 0); }
    assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) && bitsat(w, i, sl) implies sg(w, name, 0, i + 1, j as int) == b2i(contw(rv, w, i, j)) by {
        if contw(rv, w, i, j) { let p = choose|p: usize| p != 0 && #[trigger] rhas(rv, j, p) && sg(w, 1, 0, i, p as int) == 1 && inb(inv(w, i), rbytes(rv, j, p)); let q = choose|q: int| 0 <= q < it.len() && *(#[trigger] it[q]).0 == p && (*it[q].1)@ == rbytes(rv, j, p); assert(*it[q].0 != 0); }
        if contq(it, it.len() as int, w, i) { let q = choose|q: int| 0 <= q < it.len() && *(#[trigger] it[q]).0 != 0 && sg(w, 1, 0, i, *it[q].0 as int) == 1 && inb(inv(w, i), (*it[q].1)@); assert(rhas(rv, j, *it[q].0)); }
    }
}
// a state all of whose transitions have been handled
pub open spec fn zgate(ls: Seq<VString>, rv: Rv, zm: Map<usize, Vec<usize>>, j: usize) -> bool { zm.contains_key(j) && zm[j]@.len() == (if z0(rv, j) { 1int } else { 0int }) && (z0(rv, j) ==> tm(ls, zm[j]@[0] as int, 0, rbytes(rv, j, 0))) }
pub open spec fn stdone(ls: Seq<VString>, rv: Rv, zss: Seq<usize>, zm: Map<usize, Vec<usize>>, sl: int, j: usize) -> bool {
    cont_ok(ls, rv, stn(zss, j as int), j, sl) && zss.contains(j) == z0(rv, j) && zgate(ls, rv, zm, j)
}
pub proof fn stdone_ext(l0: Seq<VString>, ls: Seq<VString>, rv: Rv, z0s: Seq<usize>, zss: Seq<usize>, zm0: Map<usize, Vec<usize>>, zm: Map<usize, Vec<usize>>, sl: int, j: usize)
    requires stdone(l0, rv, z0s, zm0, sl, j), ext(l0, ls), zss.contains(j) == z0s.contains(j), zm.contains_key(j), zm[j] == zm0[j]
    ensures stdone(ls, rv, zss, zm, sl, j)
{ reveal(cont_ok); sat_ext(l0, ls); if z0(rv, j) { tm_ext(l0, ls, zm[j]@[0] as int, 0, rbytes(rv, j, 0)); } }
// everything the statements of the main loop say about one step
pub open spec fn anyc(rv: Rv, w: Wit, i: int, sl: int) -> bool { exists|j: usize| 1 <= j < sl && #[trigger] contw(rv, w, i, j) }
pub open spec fn nexta(rv: Rv, w: Wit, i: int, sl: int, j: usize) -> bool { contw(rv, w, i, j) || (!anyc(rv, w, i, sl) && rhas(rv, j, 0) && inb(inv(w, i), rbytes(rv, j, 0))) }
pub open spec fn anys(w: Wit, i: int, sl: int) -> bool { exists|j: int| 1 <= j < sl && #[trigger] sg(w, 1, 0, i, j) == 1 }
pub open spec fn stepw(rv: Rv, sl: int, ea: bool, w: Wit, i: int) -> bool {
    &&& sg(w, 1, 0, i, 0) == 1
    &&& forall|j: usize| 1 <= j < sl ==> #[trigger] sg(w, 1, 0, i + 1, j as int) == b2i(nexta(rv, w, i, sl, j))
    &&& sg(w, 3, 0, i, 0) == b2i(!anyc(rv, w, i, sl))
    &&& pt(w, 25, 0, i, 3, 0) == b2i(anys(w, i + 1, sl))
    &&& ea ==> sg(w, 7, 0, i + 1, 0) == fe(sg(w, 7, 0, i, 0) + b2i(inv(w, i) != 0))
}
#[verifier::opaque]
pub open spec fn step_ok(ls: Seq<VString>, rv: Rv, sl: int, ea: bool) -> bool { forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) && bitsat(w, i, sl) ==> stepw(rv, sl, ea, w, i) }
pub proof fn step_new(ls: Seq<VString>, rv: Rv, sl: int, ea: bool, zss: Seq<usize>, zm: Map<usize, Vec<usize>>, l0: Seq<VString>, l1: Seq<VString>, a: int)
    requires 1 <= sl <= usize::MAX, ls.len() > 2, ea ==> ls.len() > 3,
        forall|j: usize| 1 <= j < sl ==> #[trigger] stdone(l0, rv, zss, zm, sl, j), ext(l0, ls),
        fz_ok(l1, zss, sl), ext(l1, ls), forall|j: usize| #[trigger] zm.contains_key(j) ==> zus(ls, zm, j),
        sc_ins(ls, a, sl - 1), a >= 0, kind(ls[1]) == 1, kind(ls[2]) == 1,
        forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[1], w, n, i) == or_gate(w, 25, 0, i, sl - 1),
        forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[2], w, n, i) == (sg(w, 1, 0, i, 0) == 1),
        ea ==> kind(ls[3]) == 1 && forall|w: Wit, n: int, i: int| #[trigger] lsat(ls[3], w, n, i) == (sg(w, 7, 0, i + 1, 0) == fe(sg(w, 7, 0, i, 0) + b2i(inv(w, i) != 0))),
    ensures step_ok(ls, rv, sl, ea)
{
    reveal(step_ok); sat_ext(l0, ls); sat_ext(l1, ls); 
    assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) && bitsat(w, i, sl) implies stepw(rv, sl, ea, w, i) by {
        sat_at(ls, w, n, i, 1); sat_at(ls, w, n, i, 2); if ea { sat_at(ls, w, n, i, 3); }
        let nx = nxts(w, i, zss, sl);
        assert forall|j: usize| 1 <= j < sl implies #[trigger] nx[j - 1] == b2i(contw(rv, w, i, j)) by { assert(stdone(l0, rv, zss, zm, sl, j)); reveal(cont_ok); }
        assert(bits(nx)) by { assert forall|q: int| 0 <= q < nx.len() implies bit(#[trigger] nx[q]) by { let j = (q + 1) as usize; assert(nx[j - 1] == b2i(contw(rv, w, i, j))); } }
        assert(any1(nx) == anyc(rv, w, i, sl)) by {
            if any1(nx) { let q = choose|q: int| 0 <= q < nx.len() && #[trigger] nx[q] == 1; let j = (q + 1) as usize; assert(nx[j - 1] == b2i(contw(rv, w, i, j))); }
            if anyc(rv, w, i, sl) { let j = choose|j: usize| 1 <= j < sl && #[trigger] contw(rv, w, i, j); assert(nx[j - 1] == 1); }
        }
        reveal(fz_ok);
        let fz = sg(w, 3, 0, i, 0);
        assert(fz == b2i(!anyc(rv, w, i, sl)));
        assert forall|j: usize| 1 <= j < sl implies #[trigger] sg(w, 1, 0, i + 1, j as int) == b2i(nexta(rv, w, i, sl, j)) by {
            assert(stdone(l0, rv, zss, zm, sl, j)); assert(nx[j - 1] == b2i(contw(rv, w, i, j)));
            let hit0 = rhas(rv, j, 0) && inb(inv(w, i), rbytes(rv, j, 0));
            if z0(rv, j) {
                assert(zus(ls, zm, j)); reveal(zu); reveal(tm);
                let v = zm[j]@; let s = zins(w, i, j as int, v); let x = pt(w, 23, v[0] as int, i, 3, 0);
                assert(bitsat(w, i, sl)); assert(bit(sg(w, 1, 0, i, 0)));
                assert(x == b2i(hit0));
                mu_bit(fz, x); fe_small(0); fe_small(1);
                assert(s.len() == 2); assert(s[0] == nx[j - 1]); assert(s[1] == fe(mu(fz, x)));
                assert(bits(s));
                assert(any1(s) == (s[0] == 1 || s[1] == 1));
            } else if hit0 { assert(rbytes(rv, j, 0).contains(inv(w, i) as u8)); }
        }
        let ps = ports(w, 25, 0, i, sl - 1);
        assert forall|j: int| 1 <= j < sl implies #[trigger] sg(w, 1, 0, i + 1, j) == ps[j - 1] && bit(sg(w, 1, 0, i + 1, j)) by { assert(sc_in(ls[a + (j - 1)], j - 1)); sat_at(ls, w, n, i, a + (j - 1)); let ju = j as usize; assert(sg(w, 1, 0, i + 1, ju as int) == b2i(nexta(rv, w, i, sl, ju))); }
        assert(bits(ps)) by { assert forall|q: int| 0 <= q < ps.len() implies bit(#[trigger] ps[q]) by { assert(bit(sg(w, 1, 0, i + 1, q + 1))); } }
        assert(any1(ps) == anys(w, i + 1, sl)) by {
            if any1(ps) { let q = choose|q: int| 0 <= q < ps.len() && #[trigger] ps[q] == 1; assert(sg(w, 1, 0, i + 1, q + 1) == 1); }
            if anys(w, i + 1, sl) { let j = choose|j: int| 1 <= j < sl && #[trigger] sg(w, 1, 0, i + 1, j) == 1; assert(ps[j - 1] == 1); }
        }
    }
}
pub proof fn step_ext(a: Seq<VString>, b: Seq<VString>, rv: Rv, sl: int, ea: bool) requires step_ok(a, rv, sl, ea), ext(a, b) ensures step_ok(b, rv, sl, ea) { reveal(step_ok); sat_ext(a, b); }
// one loop: a header, statements, the closing brace; each its own line
pub open spec fn own(l: VString) -> bool { l.ls() == seq![l] }
pub open spec fn block(ls: Seq<VString>) -> bool {
    &&& ls.len() >= 2 && kind(ls[0]) == 2 && own(ls[0]) && kind(ls.last()) == 3 && own(ls.last())
    &&& forall|q: int| 0 < q < ls.len() - 1 ==> kind(#[trigger] ls[q]) == 1 && own(ls[q])
}
pub proof fn push_hasg<T>(s: Seq<T>, e: T) ensures forall|x: T| #[trigger] s.push(e).contains(x) == (s.contains(x) || x == e)
{ assert forall|x: T| #[trigger] s.push(e).contains(x) == (s.contains(x) || x == e) by { if s.contains(x) { let q = choose|q: int| 0 <= q < s.len() && s[q] == x; assert(s.push(e)[q] == x); } assert(s.push(e)[s.len() as int] == e); if s.push(e).contains(x) && x != e { let q = choose|q: int| 0 <= q < s.push(e).len() && s.push(e)[q] == x; assert(s[q] == x); } } }
pub proof fn hitsg_swap(ls: Seq<VString>, eo: Seq<(&VString, usize)>, rs: Seq<(u8, u8)>, nr: int, a: Seq<&u8>, b: Seq<&u8>) requires hitsg(ls, eo, rs, nr, a, 0) ensures hitsg(ls, eo, rs, nr, b, 0)
{ reveal(hitsg); assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) implies bits(outs(w, i, eo)) && any1(outs(w, i, eo)) == (inr(inv(w, i), rs, nr) || ins(inv(w, i), b, 0)) by { assert(!ins(inv(w, i), a, 0)); assert(!ins(inv(w, i), b, 0)); } }
pub proof fn tm_same(ls: Seq<VString>, a: int, p: int, k: Seq<u8>, k2: Seq<u8>) requires tm(ls, a, p, k), samenz(k, k2) ensures tm(ls, a, p, k2)
{ reveal(tm); assert forall|w: Wit, n: int, i: int| #[trigger] sat(ls, w, n, i) && inok(inv(w, i)) && bit(sg(w, 1, 0, i, p)) implies pt(w, 23, a, i, 3, 0) == b2i(sg(w, 1, 0, i, p) == 1 && inb(inv(w, i), k2)) by { inb_same(inv(w, i), k, k2); } }
pub proof fn zq_once(it: Ins, m: Map<usize, Vec<u8>>, c: int) requires map_refs(it, m), 0 <= c < it.len(), *it[c].0 == 0 ensures !zq(it, c)
{ if zq(it, c) { let q = choose|q: int| 0 <= q < c && *(#[trigger] it[q]).0 == 0 && nz((*it[q].1)@); assert(*it[q].0 != *it[c].0); } }

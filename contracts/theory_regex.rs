pub open spec fn ARROW() -> Seq<u8> { seq![61u8, 62u8] }
// ---------- how the automaton library prints bytes ----------
pub open spec fn hexu(n: int) -> u8 { if n < 10 { (48 + n) as u8 } else { (55 + n) as u8 } }
// one byte, as printed in a transition of the debug form of an automaton
pub open spec fn shown(b: u8) -> Seq<u8> {
    if b == 32 { seq![39u8, 32u8, 39u8] } else if b == 9 { seq![92u8, 116u8] } else if b == 13 { seq![92u8, 114u8] } else if b == 10 { seq![92u8, 110u8] }
    else if b == 39 { seq![92u8, 39u8] } else if b == 34 { seq![92u8, 34u8] } else if b == 92 { seq![92u8, 92u8] }
    else if 32 < b && b < 127 { seq![b] } else { seq![92u8, 120u8, hexu(b as int / 16), hexu(b as int % 16)] }
}
// the printed form, or (after parse_transition) a quote or backslash without its escape
pub open spec fn names(s: Seq<u8>, b: u8) -> bool { s == shown(b) || (s == seq![b] && (b == 34 || b == 39 || b == 92)) }
pub open spec fn label_range(l: Seq<u8>, x: u8, y: u8, s: Seq<u8>, e: Seq<u8>) -> bool { names(s, x) && names(e, y) && l == s + seq![45u8] + e }
// the bytes a label stands for
pub open spec fn in_label(l: Seq<u8>, b: u8) -> bool { names(l, b) || exists|x: u8, y: u8, s: Seq<u8>, e: Seq<u8>| #[trigger] label_range(l, x, y, s, e) && x <= b && b <= y }
pub open spec fn is_label(l: Seq<u8>) -> bool { (exists|b: u8| #[trigger] names(l, b)) || exists|x: u8, y: u8, s: Seq<u8>, e: Seq<u8>| #[trigger] label_range(l, x, y, s, e) }
pub open spec fn EOI() -> Seq<u8> { seq![69u8, 79u8, 73u8] }
// escapes the compiler knows
pub open spec fn esc(s: Seq<u8>) -> Option<u8> {
    if s == seq![92u8, 110u8] { Some(10u8) } else if s == seq![92u8, 114u8] { Some(13u8) } else if s == seq![92u8, 116u8] { Some(9u8) } else if s == seq![92u8, 118u8] { Some(11u8) }
    else if s == seq![92u8, 102u8] { Some(12u8) } else if s == seq![92u8, 48u8] { Some(0u8) } else if s == seq![92u8, 34u8] { Some(34u8) } else if s == seq![92u8, 39u8] { Some(39u8) }
    else if s == seq![92u8, 92u8] { Some(92u8) } else if s == seq![39u8, 32u8, 39u8] { Some(32u8) } else { None }
}
pub open spec fn esc_map(m: Map<&VString, u8>) -> bool {
    forall|k: &VString| #[trigger] m.contains_key(k) == esc(k@).is_some() && (m.contains_key(k) ==> m[k] == esc(k@).unwrap())
}
pub proof fn names_shape(s: Seq<u8>, b: u8)
    requires names(s, b)
    ensures 1 <= s.len() <= 4, one_line(s), s.len() > 1 ==> (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 45),
        s != seq![32u8], s.len() == 1 ==> s[0] == b,
{
    let (h, l) = (hexu(b as int / 16), hexu(b as int % 16));
    assert(h != 45 && l != 45 && h != 10 && l != 10 && h < 128 && l < 128);
    assert(1 <= s.len() <= 4);
    if s == seq![32u8] { assert(s.len() == 1 && s[0] == 32 && seq![32u8][0] == 32); }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != 10 && s[i] < 128 && (s.len() > 1 ==> s[i] != 45) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else { assert(i == 3); } }
}
pub proof fn esc_distinct()
    ensures
        esc(seq![92u8, 110u8]) == Some(10u8), esc(seq![92u8, 114u8]) == Some(13u8), esc(seq![92u8, 116u8]) == Some(9u8), esc(seq![92u8, 118u8]) == Some(11u8),
        esc(seq![92u8, 102u8]) == Some(12u8), esc(seq![92u8, 48u8]) == Some(0u8), esc(seq![92u8, 34u8]) == Some(34u8), esc(seq![92u8, 39u8]) == Some(39u8),
        esc(seq![92u8, 92u8]) == Some(92u8), esc(seq![39u8, 32u8, 39u8]) == Some(32u8),
        forall|s: Seq<u8>| (#[trigger] esc(s)).is_some() ==> s.len() == 2 || s.len() == 3,
        forall|s: Seq<u8>| (#[trigger] esc(s)).is_some() ==> s[1] != 120,
{
    let a = seq![92u8, 110u8]; let b = seq![92u8, 114u8]; let c = seq![92u8, 116u8]; let d = seq![92u8, 118u8]; let e = seq![92u8, 102u8]; let f = seq![92u8, 48u8]; let g = seq![92u8, 34u8]; let h = seq![92u8, 39u8]; let i = seq![92u8, 92u8]; let j = seq![39u8, 32u8, 39u8];
    assert(a[1] == 110 && b[1] == 114 && c[1] == 116 && d[1] == 118 && e[1] == 102 && f[1] == 48 && g[1] == 34 && h[1] == 39 && i[1] == 92 && j.len() == 3);
}
// the transitions n are the transitions o and those with the bytes in f to the state k
pub open spec fn grown(o: Tr, n: Tr, k: usize, f: spec_fn(u8) -> bool) -> bool {
    &&& forall|x: usize| #[trigger] edge(n, x) == (edge(o, x) || x == k)
    &&& forall|x: usize, b: u8| #[trigger] has(n, x, b) == (has(o, x, b) || (x == k && f(b)))
}
pub proof fn range_dash(l: Seq<u8>, x: u8, y: u8, s: Seq<u8>, e: Seq<u8>)
    requires label_range(l, x, y, s, e)
    ensures last_dash(l, s.len() as int), one_line(l), l.subrange(0, s.len() as int) == s, l.subrange(s.len() as int + 1, l.len() as int) == e,
        forall|b: u8| !#[trigger] names(l, b), l != seq![32u8], l.len() >= 3, l != shown(32u8),
{
    names_shape(s, x); names_shape(e, y);
    assert(l.subrange(0, s.len() as int) =~= s);
    assert(l.subrange(s.len() as int + 1, l.len() as int) =~= e);
    assert(l[s.len() as int] == 45);
    assert(dash(l, s.len() as int));
    assert forall|q: int| #[trigger] dash(l, q) implies q <= s.len() by {
        if q > s.len() { assert(l[q] == e[q - s.len() - 1]); }
    }
    assert forall|b: u8| !#[trigger] names(l, b) by { if names(l, b) { names_shape(l, b); } }
    assert(one_line(l)) by { assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]) != 10 && l[i] < 128 by { if i < s.len() { assert(l[i] == s[i]); } else if i > s.len() { assert(l[i] == e[i - s.len() - 1]); } } }
    names_shape(shown(32u8), 32u8);
}
pub proof fn single_no_dash(l: Seq<u8>, b: u8)
    requires names(l, b)
    ensures forall|p: int| !#[trigger] dash(l, p), one_line(l), forall|x: u8, y: u8, s: Seq<u8>, e: Seq<u8>| !#[trigger] label_range(l, x, y, s, e),
{
    names_shape(l, b);
    assert forall|x: u8, y: u8, s: Seq<u8>, e: Seq<u8>| !#[trigger] label_range(l, x, y, s, e) by { if label_range(l, x, y, s, e) { range_dash(l, x, y, s, e); } }
}
pub proof fn label_bytes_range(l: Seq<u8>, x: u8, y: u8, s: Seq<u8>, e: Seq<u8>, o: Tr, n: Tr, k: usize)
    requires label_range(l, x, y, s, e), forall|x1: u8, y1: u8, s1: Seq<u8>, e1: Seq<u8>| #[trigger] label_range(l, x1, y1, s1, e1) ==> grown(o, n, k, |b: u8| x1 <= b && b <= y1),
    ensures grown(o, n, k, |b: u8| in_label(l, b))
{
    range_dash(l, x, y, s, e);
    assert forall|x1: u8, y1: u8, s1: Seq<u8>, e1: Seq<u8>| #[trigger] label_range(l, x1, y1, s1, e1) implies x1 == x && y1 == y by {
        range_dash(l, x1, y1, s1, e1);
        assert(dash(l, s.len() as int) && dash(l, s1.len() as int));
        assert(s1 == s && e1 == e);
        names_fun(s, x, x1); names_fun(e, y, y1);
    }
    assert forall|b: u8| in_label(l, b) == (x <= b && b <= y) by {}
    assert(grown(o, n, k, |b: u8| x <= b && b <= y));
}
pub proof fn names_fun(s: Seq<u8>, b: u8, c: u8)
    requires names(s, b), names(s, c)
    ensures b == c
{
    names_shape(s, b); names_shape(s, c);
    esc_distinct();
    if s.len() == 4 {
        assert(s[2] == hexu(b as int / 16) && s[3] == hexu(b as int % 16) && s[2] == hexu(c as int / 16) && s[3] == hexu(c as int % 16));
        assert(hexd(hexu(b as int / 16)) == b as int / 16 && hexd(hexu(b as int % 16)) == b as int % 16);
        assert(hexd(hexu(c as int / 16)) == c as int / 16 && hexd(hexu(c as int % 16)) == c as int % 16);
    } else if s.len() == 2 || s.len() == 3 {
        assert(esc(s) == Some(b));
        assert(esc(s) == Some(c));
    }
}
pub proof fn label_bytes_single(l: Seq<u8>, c: u8, o: Tr, n: Tr, k: usize)
    requires names(l, c), grown(o, n, k, |b: u8| b == c),
    ensures grown(o, n, k, |b: u8| in_label(l, b))
{
    single_no_dash(l, c);
    assert forall|b: u8| in_label(l, b) == (b == c) by { if names(l, b) { names_fun(l, b, c); } }
}

// every key of a transition table is a label
pub open spec fn labelled(m: Map<VString, usize>) -> bool { forall|l: VString| #[trigger] m.contains_key(l) ==> is_label(l@) }
pub open spec fn label_edge(m: Map<VString, usize>, k: usize, b: u8) -> bool { exists|l: VString| #[trigger] m.contains_key(l) && m[l] == k && in_label(l@, b) }
// the transitions by byte of a table of labels
pub open spec fn bytes_of(m: Map<VString, usize>, e: Tr) -> bool {
    &&& forall|k: usize| #[trigger] edge(e, k) <==> (exists|l: VString| #[trigger] m.contains_key(l) && m[l] == k)
    &&& forall|k: usize, b: u8| #[trigger] has(e, k, b) <==> label_edge(m, k, b)
}
pub proof fn space_label() ensures is_label(shown(32u8)), forall|b: u8| #[trigger] in_label(shown(32u8), b) ==> b == 32, in_label(shown(32u8), 32u8), shown(32u8) == seq![39u8, 32u8, 39u8]
{
    assert(names(shown(32u8), 32u8)); single_no_dash(shown(32u8), 32u8);
    assert forall|b: u8| #[trigger] in_label(shown(32u8), b) implies b == 32 by { names_fun(shown(32u8), b, 32u8); }
}

// ---------- the printed automaton ----------
pub open spec fn printed_range(l: Seq<u8>, x: u8, y: u8) -> bool { x < y && l == shown(x) + seq![45u8] + shown(y) }
pub open spec fn printed_in(l: Seq<u8>, b: u8) -> bool { l == shown(b) || exists|x: u8, y: u8| #[trigger] printed_range(l, x, y) && x <= b && b <= y }
pub open spec fn printed_label(l: Seq<u8>) -> bool { l == EOI() || (exists|b: u8| l == #[trigger] shown(b)) || (exists|x: u8, y: u8| #[trigger] printed_range(l, x, y)) }
// parse_transition drops a backslash in third place, unless an x follows
#[verifier::opaque]
pub open spec fn norm(l: Seq<u8>) -> Seq<u8> { if l.len() > 2 && l[2] == 92 && !(l.len() > 3 && l[3] == 120) { l.subrange(0, 2) + l.subrange(3, l.len() as int) } else { l } }
pub proof fn shown_shape(b: u8)
    ensures 1 <= shown(b).len() <= 4, one_line(shown(b)), !is_blank(shown(b)[0]), !is_blank(shown(b).last()), shown(b).len() > 1 ==> (forall|i: int| 0 <= i < shown(b).len() ==> #[trigger] shown(b)[i] != 45 && shown(b)[i] != 61 && shown(b)[i] != 62),
        shown(b).len() == 1 ==> shown(b)[0] == b && 32 < b && b < 127, shown(b).len() == 2 ==> shown(b)[0] == 92 && shown(b)[1] != 120, shown(b).len() == 3 ==> b == 32, shown(b).len() == 4 ==> shown(b)[0] == 92 && shown(b)[1] == 120 && shown(b)[2] != 92,
        shown(b)[0] != 92 ==> shown(b).len() == 1 || shown(b).len() == 3,
{
    assert(hexu(b as int / 16) != 45 && hexu(b as int % 16) != 45 && hexu(b as int / 16) > 32 && hexu(b as int % 16) > 32 && hexu(b as int / 16) < 128 && hexu(b as int % 16) < 128);
    assert(hexu(b as int / 16) != 61 && hexu(b as int % 16) != 61 && hexu(b as int / 16) != 62 && hexu(b as int % 16) != 62 && hexu(b as int / 16) != 92);
}
pub proof fn eoi_shape()
    ensures !is_label(EOI()), forall|b: u8| !#[trigger] printed_in(EOI(), b), norm(EOI()) == EOI(),
{
    reveal(norm);
    assert forall|b: u8| !#[trigger] names(EOI(), b) by { if names(EOI(), b) { shown_shape(b); assert(shown(32u8)[0] == 39); } }
    assert forall|x: u8, y: u8, s: Seq<u8>, e: Seq<u8>| !#[trigger] label_range(EOI(), x, y, s, e) by { if label_range(EOI(), x, y, s, e) { assert(EOI()[s.len() as int] == 45); names_shape(s, x); names_shape(e, y); } }
    assert forall|b: u8| !#[trigger] printed_in(EOI(), b) by {
        if EOI() == shown(b) { assert(names(EOI(), b)); }
        assert forall|x: u8, y: u8| !#[trigger] printed_range(EOI(), x, y) by { if printed_range(EOI(), x, y) { assert(label_range(EOI(), x, y, shown(x), shown(y))); } }
    }
}

pub proof fn piece_ascii(m: Seq<u8>, s: Seq<u8>)
    requires piece(m, s), ascii(s)
    ensures ascii(m)
{
    let i = choose|i: int| 0 <= i && i + m.len() <= s.len() && m == #[trigger] s.subrange(i, i + m.len());
    assert forall|j: int| 0 <= j < m.len() implies (#[trigger] m[j]) < 128 by { assert(m[j] == s[i + j]); }
}
pub proof fn printed_label_shape(l: Seq<u8>)
    requires printed_label(l)
    ensures l.len() > 0, ascii(l), !is_blank(l[0]), !is_blank(l.last()), forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i && j == i + 1 && j < l.len() ==> !(l[i] == 61 && l[j] == 62)
{
    if l == EOI() {}
    else if exists|b: u8| l == #[trigger] shown(b) { shown_shape(choose|b: u8| l == #[trigger] shown(b)); }
    else {
        let (x, y) = choose|x: u8, y: u8| #[trigger] printed_range(l, x, y);
        shown_shape(x); shown_shape(y);
        let s = shown(x); let e = shown(y);
        assert(l[0] == s[0] && l.last() == e.last());
        assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]) < 128 && (i < s.len() ==> l[i] == s[i]) && (i == s.len() ==> l[i] == 45) && (i > s.len() ==> l[i] == e[i - s.len() - 1]) by {}
    }
}
pub proof fn trans_cut(s: Seq<u8>, p: PTrans, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, n: Seq<u8>, d: Seq<u8>)
    requires trans_parts(s, p, a, b, c, n, d), printed_label(p.label)
    ensures cut_once(s, ARROW(), a + p.label + b, c + n + d), padded(a + p.label + b, a, p.label, b), padded(c + n + d, c, n, d)
{
    printed_label_shape(p.label);
    let l = p.label; let left = a + l + b; let right = c + n + d; let o = ARROW();
    assert(s == left + o + right);
    assert forall|i: int| #[trigger] occurs(s, o, i) implies i == left.len() by {
        assert(s.subrange(i, i + 2)[0] == s[i] && s.subrange(i, i + 2)[1] == s[i + 1]);
        assert(s[i] == 61 && s[i + 1] == 62);
        assert forall|k: int| 0 <= k < right.len() implies (#[trigger] right[k]) != 61 by { if k < c.len() { assert(right[k] == c[k]); } else if k < c.len() + n.len() { assert(right[k] == n[k - c.len()]); } else { assert(right[k] == d[k - c.len() - n.len()]); } }
        if i > left.len() + 1 { assert(s[i] == right[i - left.len() - 2]); }
        if i < left.len() {
            assert(s[i] == left[i]);
            if i < a.len() { assert(left[i] == a[i]); }
            else if i >= a.len() + l.len() { assert(left[i] == b[i - a.len() - l.len()]); }
            else {
                assert(left[i] == l[i - a.len()]);
                if i + 1 < left.len() {
                    assert(s[i + 1] == left[i + 1]);
                    if i + 1 < a.len() + l.len() { assert(left[i + 1] == l[i + 1 - a.len()]); } else { assert(left[i + 1] == b[i + 1 - a.len() - l.len()]); }
                }
            }
        }
    }
}
// what parse_states knows of a printed state: its labels are printed labels, no two of them name the same byte (so each names a key of its own)
#[verifier::opaque]
pub open spec fn pstate_ok(p: PState) -> bool {
    &&& forall|j: int| 0 <= j < p.trans.len() ==> printed_label((#[trigger] p.trans[j]).label)
    &&& forall|i: int, j: int| 0 <= i < j < p.trans.len() ==> (#[trigger] p.trans[i]).label != (#[trigger] p.trans[j]).label
    &&& forall|i: int, j: int, b: u8| #![trigger printed_in(p.trans[i].label, b), printed_in(p.trans[j].label, b)] 0 <= i < p.trans.len() && 0 <= j < p.trans.len() && printed_in(p.trans[i].label, b) && printed_in(p.trans[j].label, b) ==> i == j
}
pub open spec fn printed_ok(ps: Seq<PState>) -> bool {
    &&& forall|i: int| 0 <= i < ps.len() ==> pstate_ok(#[trigger] ps[i])
    &&& forall|i: int, j: int| 0 <= i < j < ps.len() ==> (#[trigger] ps[i]).id != (#[trigger] ps[j]).id
}
// the first n transitions t as a table keyed by (normalized) label
pub open spec fn keys(m: Map<VString, usize>, t: Seq<PTrans>, l: VString, j: int) -> bool { m.contains_key(l) && norm(t[j].label) == l@ && m[l] == t[j].dst }
pub open spec fn key_from(m: Map<VString, usize>, t: Seq<PTrans>, n: int, l: VString) -> bool { exists|j: int| 0 <= j < n && #[trigger] keys(m, t, l, j) }
pub open spec fn key_of(m: Map<VString, usize>, t: Seq<PTrans>, j: int) -> bool { exists|l: VString| #[trigger] keys(m, t, l, j) }
#[verifier::opaque]
pub open spec fn keyed(m: Map<VString, usize>, t: Seq<PTrans>, n: int) -> bool {
    &&& forall|l: VString| #[trigger] m.contains_key(l) ==> key_from(m, t, n, l)
    &&& forall|j: int| 0 <= j < n ==> #[trigger] key_of(m, t, j)
}
pub proof fn keyed_none(m: Map<VString, usize>, t: Seq<PTrans>) ensures m == Map::<VString, usize>::empty() ==> keyed(m, t, 0) { reveal(keyed); }
pub proof fn keyed_step(m0: Map<VString, usize>, p: PState, i: int, k: VString)
    requires pstate_ok(p), 0 <= i < p.trans.len(), keyed(m0, p.trans, i), k@ == norm(p.trans[i].label)
    ensures keyed(m0.insert(k, p.trans[i].dst), p.trans, i + 1)
{
    reveal(keyed);
    let m = m0.insert(k, p.trans[i].dst); let t = p.trans;
    assert forall|l: VString| #[trigger] m.contains_key(l) implies key_from(m, t, i + 1, l) by {
        if l == k { assert(keys(m, t, l, i)); }
        else { assert(m0.contains_key(l)); assert(key_from(m0, t, i, l)); let j = choose|j: int| 0 <= j < i && #[trigger] keys(m0, t, l, j); assert(keys(m, t, l, j)); }
    }
    assert forall|j: int| 0 <= j < i + 1 implies #[trigger] key_of(m, t, j) by {
        if j == i { assert(keys(m, t, k, i)); }
        else {
            assert(key_of(m0, t, j));
            let l = choose|l: VString| #[trigger] keys(m0, t, l, j);
            if l == k { norm_keys(p, j, i); }
            assert(keys(m, t, l, j));
        }
    }
}
pub open spec fn read_state(s: DFAStateInfo, p: PState) -> bool { s.source == p.id && keyed(s.edges@, p.trans, p.trans.len() as int) && (s.typ@ == ACC()) == p.star && (!p.star ==> s.typ@.len() == 0) }
// the label after parse_transition names the bytes the printed label names
pub proof fn norm_label_one(l: Seq<u8>, c: u8)
    requires l == shown(c)
    ensures is_label(norm(l)), forall|b: u8| #[trigger] in_label(norm(l), b) == printed_in(l, b)
{
    reveal(norm);
    shown_shape(c);
    assert(norm(l) == l);
    assert(names(l, c)); single_no_dash(l, c);
    assert forall|b: u8| #[trigger] in_label(norm(l), b) == printed_in(l, b) by {
        if names(l, b) { names_fun(l, b, c); }
        if exists|x: u8, y: u8| #[trigger] printed_range(l, x, y) && x <= b && b <= y { let (x, y) = choose|x: u8, y: u8| #[trigger] printed_range(l, x, y) && x <= b && b <= y; assert(label_range(l, x, y, shown(x), shown(y))); }
    }
}
pub proof fn norm_label_range(l: Seq<u8>, x: u8, y: u8)
    requires printed_range(l, x, y), printed_label(l), !(exists|b: u8| l == #[trigger] shown(b))
    ensures is_label(norm(l)), forall|b: u8| #[trigger] in_label(norm(l), b) == printed_in(l, b)
{
    norm_range(l, x, y);
    let e = if norm(l) == l { shown(y) } else { seq![y] };
    let m = norm(l);
    assert(label_range(m, x, y, shown(x), e));
    range_dash(m, x, y, shown(x), e);
    assert forall|b: u8| in_label(m, b) implies #[trigger] printed_in(l, b) by { norm_label_in(l, x, y, e, b); }
    assert forall|b: u8| printed_in(l, b) implies #[trigger] in_label(m, b) by {
        let (x1, y1) = choose|x1: u8, y1: u8| #[trigger] printed_range(l, x1, y1) && x1 <= b && b <= y1;
        assert(label_range(l, x1, y1, shown(x1), shown(y1))); assert(label_range(l, x, y, shown(x), shown(y)));
        range_dash(l, x1, y1, shown(x1), shown(y1)); range_dash(l, x, y, shown(x), shown(y));
        assert(dash(l, shown(x).len() as int) && dash(l, shown(x1).len() as int));
        names_fun(shown(x), x, x1); names_fun(shown(y), y, y1);
    }
}
pub proof fn norm_label_in(l: Seq<u8>, x: u8, y: u8, e: Seq<u8>, b: u8)
    requires printed_range(l, x, y), label_range(norm(l), x, y, shown(x), e), in_label(norm(l), b)
    ensures printed_in(l, b)
{
    let m = norm(l);
    range_dash(m, x, y, shown(x), e);
    if names(m, b) { single_no_dash(m, b); assert(dash(m, shown(x).len() as int)); }
    else {
        let (x1, y1, s1, e1) = choose|x1: u8, y1: u8, s1: Seq<u8>, e1: Seq<u8>| #[trigger] label_range(m, x1, y1, s1, e1) && x1 <= b && b <= y1;
        range_dash(m, x1, y1, s1, e1);
        assert(dash(m, shown(x).len() as int) && dash(m, s1.len() as int));
        assert(s1 == shown(x) && e1 == e);
        names_fun(shown(x), x, x1); names_fun(e, y, y1);
        assert(printed_range(l, x, y));
    }
}
pub proof fn norm_label(l: Seq<u8>)
    requires printed_label(l), l != EOI()
    ensures is_label(norm(l)), forall|b: u8| #[trigger] in_label(norm(l), b) == printed_in(l, b)
{
    if exists|b: u8| l == #[trigger] shown(b) { let c = choose|b: u8| l == #[trigger] shown(b); norm_label_one(l, c); }
    else { let (x, y) = choose|x: u8, y: u8| #[trigger] printed_range(l, x, y); norm_label_range(l, x, y); }
}
pub proof fn norm_range(l: Seq<u8>, x: u8, y: u8)
    requires printed_range(l, x, y)
    ensures norm(l) == l || (norm(l) == shown(x) + seq![45u8] + seq![y] && (y == 34 || y == 39 || y == 92)), 
{
    reveal(norm);
    shown_shape(x); shown_shape(y);
    let s = shown(x); let e = shown(y);
    assert forall|i: int| 0 <= i < l.len() implies (i < s.len() ==> l[i] == s[i]) && (i == s.len() ==> l[i] == 45) && (i > s.len() ==> #[trigger] l[i] == e[i - s.len() - 1]) by {}
    if s.len() == 1 {
        assert(l[2] == e[0]);
        if e[0] == 92 {
            if e.len() == 2 {
                assert(l.len() == 4 && l[3] == e[1]);
                assert(y == 34 || y == 39 || y == 92);
                assert(norm(l) =~= s + seq![45u8] + seq![y]);
            } else if e.len() == 4 { assert(l[3] == 120); } else { assert(e.len() == 1 ==> y == 92); assert(false); }
        }
    } else if s.len() == 2 { assert(l[2] == 45); } else { assert(l[2] == s[2]); }
}
pub proof fn norm_keys(p: PState, i: int, j: int)
    requires pstate_ok(p), 0 <= i < p.trans.len(), 0 <= j < p.trans.len(), norm(p.trans[i].label) == norm(p.trans[j].label)
    ensures i == j
{
    reveal(pstate_ok);
    let a = p.trans[i].label; let c = p.trans[j].label;
    eoi_shape();
    if a != EOI() { norm_label(a); }
    if c != EOI() { norm_label(c); }
    if a == EOI() && c == EOI() { if i < j { assert(p.trans[i].label != p.trans[j].label); } else if j < i { assert(p.trans[j].label != p.trans[i].label); } }
    else if a != EOI() && c != EOI() {
        let b = label_some(a);
        assert(printed_in(a, b));
        assert(in_label(norm(a), b) == printed_in(a, b));
        assert(in_label(norm(c), b) == printed_in(c, b));
        assert(printed_in(p.trans[i].label, b) && printed_in(p.trans[j].label, b));
    }
}
pub proof fn label_some(l: Seq<u8>) -> (b: u8)
    requires printed_label(l), l != EOI()
    ensures printed_in(l, b)
{
    if exists|b: u8| l == #[trigger] shown(b) { choose|b: u8| l == #[trigger] shown(b) }
    else { let (x, y) = choose|x: u8, y: u8| #[trigger] printed_range(l, x, y); x }
}
pub open spec fn has_eoi(m: Map<VString, usize>) -> bool { exists|l: VString| #[trigger] m.contains_key(l) && l@ == EOI() }
pub open spec fn eoi_done(a: DFAStateInfo, b: DFAStateInfo) -> bool {
    &&& b.source == a.source
    &&& (b.typ@ == ACC()) == (has_eoi(a.edges@) || a.typ@ == ACC())
    &&& forall|l: VString| #[trigger] b.edges@.contains_key(l) == (a.edges@.contains_key(l) && l@ != EOI())
    &&& forall|l: VString| #[trigger] b.edges@.contains_key(l) ==> b.edges@[l] == a.edges@[l]
}
// ---------- breadth-first renumbering ----------
pub open spec fn src(t: Seq<DFAStateInfo>, q: usize) -> bool { exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).source == q }
pub open spec fn uniq_src(t: Seq<DFAStateInfo>) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).source != (#[trigger] t[j]).source }
pub open spec fn targets_ok(t: Seq<DFAStateInfo>) -> bool { forall|i: int, l: VString| 0 <= i < t.len() && #[trigger] t[i].edges@.contains_key(l) ==> src(t, t[i].edges@[l]) }
pub open spec fn reordered(t: Seq<DFAStateInfo>, ord: Seq<int>, start: usize) -> bool {
    &&& forall|i: int| 0 <= i < ord.len() ==> 0 <= #[trigger] ord[i] < t.len()
    &&& forall|i: int, j: int| 0 <= i < j < ord.len() ==> #[trigger] ord[i] != #[trigger] ord[j]
    &&& src(t, start) ==> ord.len() > 0 && t[ord[0]].source == start
    &&& !src(t, start) ==> ord.len() == 0
}
// r is the state ord[i] of t, with every state numbered by its position in ord
#[verifier::opaque]
pub open spec fn ren(t: Seq<DFAStateInfo>, ord: Seq<int>, r: DFAStateInfo, i: int) -> bool {
    &&& r.source == i && r.typ == t[ord[i]].typ
    &&& forall|l: VString| #[trigger] r.edges@.contains_key(l) == t[ord[i]].edges@.contains_key(l)
    &&& forall|l: VString| #[trigger] r.edges@.contains_key(l) ==> r.edges@[l] < ord.len() && t[ord[r.edges@[l] as int]].source == t[ord[i]].edges@[l]
}
pub open spec fn renumbered(t: Seq<DFAStateInfo>, ord: Seq<int>, r: Seq<DFAStateInfo>) -> bool { r.len() == ord.len() && forall|i: int| 0 <= i < r.len() ==> ren(t, ord, #[trigger] r[i], i) }
pub open spec fn seen(t: Seq<DFAStateInfo>, ord: Seq<int>, q: usize) -> bool { exists|i: int| 0 <= i < ord.len() && t[#[trigger] ord[i]].source == q }

pub open spec fn queued(d: usize, vis: Set<usize>, q: Seq<usize>) -> bool { vis.contains(d) || q.contains(d) }
#[verifier::opaque]
pub open spec fn closing(t: Seq<DFAStateInfo>, i: int, vis: Set<usize>, q: Seq<usize>) -> bool { forall|l: VString| #[trigger] t[i].edges@.contains_key(l) ==> queued(t[i].edges@[l], vis, q) }
#[verifier::opaque]
pub open spec fn srcs(t: Seq<DFAStateInfo>, start: usize, q: Seq<usize>) -> bool { forall|k: int| 0 <= k < q.len() ==> src(t, #[trigger] q[k]) || q[k] == start }
// breadth first: ord are the states reached so far, in order; vis their names; q the names still to be looked at
#[verifier::opaque]
pub open spec fn bfs(t: Seq<DFAStateInfo>, start: usize, ord: Seq<int>, sorted: Seq<DFAStateInfo>, vis: Set<usize>, q: Seq<usize>) -> bool {
    &&& sorted.len() == ord.len()
    &&& forall|i: int| 0 <= i < ord.len() ==> 0 <= #[trigger] ord[i] < t.len() && sorted[i] == t[ord[i]] && vis.contains(t[ord[i]].source)
    &&& forall|i: int, j: int| 0 <= i < j < ord.len() ==> #[trigger] ord[i] != #[trigger] ord[j]
    &&& forall|x: usize| #[trigger] vis.contains(x) && src(t, x) ==> seen(t, ord, x)
    &&& forall|i: int| 0 <= i < ord.len() ==> closing(t, #[trigger] ord[i], vis, q)
    &&& srcs(t, start, q)
    &&& vis.contains(start) || (ord.len() == 0 && q == seq![start])
    &&& src(t, start) && vis.contains(start) ==> ord.len() > 0 && t[ord[0]].source == start
    &&& !src(t, start) ==> ord.len() == 0 && (q.len() == 0 || q == seq![start])
}
pub proof fn bfs_start(t: Seq<DFAStateInfo>, start: usize)
    ensures bfs(t, start, Seq::empty(), Seq::empty(), Set::empty(), seq![start])
{ reveal(bfs); reveal(srcs); }
pub proof fn bfs_name(t: Seq<DFAStateInfo>, start: usize, ord: Seq<int>, sorted: Seq<DFAStateInfo>, vis: Set<usize>, q: Seq<usize>)
    requires bfs(t, start, ord, sorted, vis, q), q.len() > 0
    ensures src(t, q[0]) || q[0] == start, srcs(t, start, q.drop_first()), forall|x: usize| #[trigger] q.contains(x) ==> x == q[0] || q.drop_first().contains(x)
{
    reveal(bfs); reveal(srcs);
    let q1 = q.drop_first();
    assert forall|k: int| 0 <= k < q1.len() implies src(t, #[trigger] q1[k]) || q1[k] == start by { assert(q1[k] == q[k + 1]); }
    assert forall|x: usize| #[trigger] q.contains(x) implies x == q[0] || q1.contains(x) by {
        let k = choose|k: int| 0 <= k < q.len() && q[k] == x;
        if k > 0 { assert(q1[k - 1] == x); }
    }
}
// the state named is known already, or there is none of that name
pub proof fn bfs_skip(t: Seq<DFAStateInfo>, start: usize, ord: Seq<int>, sorted: Seq<DFAStateInfo>, vis: Set<usize>, q: Seq<usize>)
    requires bfs(t, start, ord, sorted, vis, q), q.len() > 0, vis.contains(q[0]) || !src(t, q[0])
    ensures bfs(t, start, ord, sorted, vis.insert(q[0]), q.drop_first())
{
    bfs_name(t, start, ord, sorted, vis, q);
    reveal(bfs);
    let v1 = vis.insert(q[0]); let q1 = q.drop_first();
    assert forall|i: int| 0 <= i < ord.len() implies closing(t, #[trigger] ord[i], v1, q1) by {
        assert(closing(t, ord[i], vis, q));
        reveal(closing);
        assert forall|l: VString| #[trigger] t[ord[i]].edges@.contains_key(l) implies queued(t[ord[i]].edges@[l], v1, q1) by { assert(queued(t[ord[i]].edges@[l], vis, q)); }
    }
    if q == seq![start] { assert(q1.len() == 0 && q[0] == start); }
    if !vis.contains(start) { assert(q[0] == start); }
}
pub proof fn bfs_step(t: Seq<DFAStateInfo>, start: usize, ord: Seq<int>, sorted: Seq<DFAStateInfo>, vis: Set<usize>, q: Seq<usize>, found: int, q2: Seq<usize>)
    requires bfs(t, start, ord, sorted, vis, q), q.len() > 0, !vis.contains(q[0]), 0 <= found < t.len(), t[found].source == q[0], srcs(t, start, q2),
        forall|x: usize| #[trigger] q.drop_first().contains(x) ==> q2.contains(x), closing(t, found, vis.insert(q[0]), q2),
    ensures bfs(t, start, ord.push(found), sorted.push(t[found]), vis.insert(q[0]), q2)
{
    bfs_name(t, start, ord, sorted, vis, q);
    reveal(bfs);
    let id = q[0]; let v1 = vis.insert(id); let o = ord.push(found); let s1 = sorted.push(t[found]);
    assert(src(t, id));
    assert forall|i: int| 0 <= i < o.len() implies 0 <= #[trigger] o[i] < t.len() && s1[i] == t[o[i]] && v1.contains(t[o[i]].source) by { if i < ord.len() { assert(o[i] == ord[i]); } }
    assert forall|i: int| 0 <= i < ord.len() implies #[trigger] ord[i] != found by { if ord[i] == found { assert(vis.contains(t[ord[i]].source)); } }
    assert forall|i: int, j: int| 0 <= i < j < o.len() implies #[trigger] o[i] != #[trigger] o[j] by { assert(o[i] == ord[i]); if j < ord.len() { assert(o[j] == ord[j]); } }
    assert forall|x: usize| #[trigger] v1.contains(x) && src(t, x) implies seen(t, o, x) by {
        if x == id { assert(t[o[ord.len() as int]].source == x); }
        else { assert(vis.contains(x)); let i = choose|i: int| 0 <= i < ord.len() && t[#[trigger] ord[i]].source == x; assert(o[i] == ord[i]); }
    }
    assert forall|i: int| 0 <= i < o.len() implies closing(t, #[trigger] o[i], v1, q2) by {
        if i < ord.len() {
            assert(o[i] == ord[i]); assert(closing(t, ord[i], vis, q));
            reveal(closing);
            assert forall|l: VString| #[trigger] t[ord[i]].edges@.contains_key(l) implies queued(t[ord[i]].edges@[l], v1, q2) by { assert(queued(t[ord[i]].edges@[l], vis, q)); }
        }
    }
    if src(t, start) {
        if ord.len() > 0 { assert(o[0] == ord[0]); if !vis.contains(start) { assert(false); } } else { if !vis.contains(start) { assert(q[0] == start); assert(o[0] == found); } }
    } else { assert(q == seq![start]); }
    if !vis.contains(start) { assert(q[0] == start); }
}
pub open spec fn all_seen(t: Seq<DFAStateInfo>, ord: Seq<int>) -> bool { forall|i: int, l: VString| 0 <= i < ord.len() && #[trigger] t[ord[i]].edges@.contains_key(l) ==> seen(t, ord, t[ord[i]].edges@[l]) }
pub proof fn bfs_done(t: Seq<DFAStateInfo>, start: usize, ord: Seq<int>, sorted: Seq<DFAStateInfo>, vis: Set<usize>)
    requires bfs(t, start, ord, sorted, vis, Seq::empty()), targets_ok(t)
    ensures reordered(t, ord, start), sorted.len() == ord.len(), forall|i: int| 0 <= i < ord.len() ==> #[trigger] sorted[i] == t[ord[i]], all_seen(t, ord)
{
    reveal(bfs);
    assert(Seq::<usize>::empty() != seq![start]) by { assert(seq![start].len() == 1); }
    assert forall|i: int, l: VString| 0 <= i < ord.len() && #[trigger] t[ord[i]].edges@.contains_key(l) implies seen(t, ord, t[ord[i]].edges@[l]) by {
        reveal(closing);
        assert(closing(t, ord[i], vis, Seq::empty()));
        let d = t[ord[i]].edges@[l];
        assert(queued(d, vis, Seq::empty()));
        assert(vis.contains(d)); assert(src(t, d));
    }
}
#[verifier::opaque]
pub open spec fn positions(t: Seq<DFAStateInfo>, ord: Seq<int>, m: Map<usize, usize>, n: int) -> bool {
    &&& forall|x: usize| #[trigger] m.contains_key(x) ==> m[x] < n && t[ord[m[x] as int]].source == x
    &&& forall|i: int| 0 <= i < n ==> m.contains_key(t[#[trigger] ord[i]].source)
}
pub proof fn positions_at(t: Seq<DFAStateInfo>, ord: Seq<int>, m: Map<usize, usize>, d: usize)
    requires positions(t, ord, m, ord.len() as int), seen(t, ord, d)
    ensures m.contains_key(d), m[d] < ord.len(), t[ord[m[d] as int]].source == d
{ reveal(positions); let i = choose|i: int| 0 <= i < ord.len() && t[#[trigger] ord[i]].source == d; assert(m.contains_key(t[ord[i]].source)); }
// ---------- language of the printed automaton ----------
pub open spec fn ptran(p: PState, b: u8, d: usize) -> bool { exists|j: int| 0 <= j < p.trans.len() && printed_in((#[trigger] p.trans[j]).label, b) && p.trans[j].dst == d }
pub open spec fn pgoes(p: PState, d: usize) -> bool { exists|j: int| 0 <= j < p.trans.len() && (#[trigger] p.trans[j]).label != EOI() && p.trans[j].dst == d }
pub open spec fn peoi(p: PState) -> bool { exists|j: int| 0 <= j < p.trans.len() && (#[trigger] p.trans[j]).label == EOI() }
pub open spec fn pedge(ps: Seq<PState>, a: usize, b: u8, d: usize) -> bool { exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).id == a && ptran(ps[i], b, d) }
pub open spec fn printed_byte(ps: Seq<PState>, b: u8) -> bool { exists|a: usize, d: usize| #[trigger] pedge(ps, a, b, d) }
pub open spec fn pacc(ps: Seq<PState>, a: usize) -> bool { exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).id == a && (ps[i].star || peoi(ps[i])) }
pub open spec fn plisted(ps: Seq<PState>, a: usize) -> bool { exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).id == a }
pub open spec fn ptargets(ps: Seq<PState>) -> bool { forall|i: int, d: usize| 0 <= i < ps.len() && #[trigger] pgoes(ps[i], d) ==> plisted(ps, d) }
pub open spec fn phop(ps: Seq<PState>, s: Seq<u8>, w: Seq<usize>, i: int) -> bool { pedge(ps, w[i], s[i], w[i + 1]) }
pub open spec fn ppath(ps: Seq<PState>, q: usize, s: Seq<u8>, w: Seq<usize>) -> bool { w.len() == s.len() + 1 && w[0] == q && forall|i: int| 0 <= i < s.len() ==> #[trigger] phop(ps, s, w, i) }
// the strings the printed automaton accepts
pub open spec fn plang(ps: Seq<PState>, q: usize, s: Seq<u8>) -> bool { exists|w: Seq<usize>| #[trigger] ppath(ps, q, s, w) && pacc(ps, w.last()) }
// t is what was read of the printed state p, without its end-of-input transition
#[verifier::opaque]
pub open spec fn hold(t: DFAStateInfo, p: PState) -> bool {
    &&& t.source == p.id && (t.typ@ == ACC()) == (p.star || peoi(p)) && labelled(t.edges@)
    &&& forall|k: usize| (exists|l: VString| #[trigger] t.edges@.contains_key(l) && t.edges@[l] == k) == #[trigger] pgoes(p, k)
    &&& forall|k: usize, b: u8| #[trigger] label_edge(t.edges@, k, b) == ptran(p, b, k)
}
pub proof fn pstate_label(p: PState, j: int) requires pstate_ok(p), 0 <= j < p.trans.len() ensures printed_label(p.trans[j].label) { reveal(pstate_ok); }
// the label of a transition and the key read from it
pub proof fn key_label(p: PState, m: Map<VString, usize>, l: VString, j: int)
    requires pstate_ok(p), 0 <= j < p.trans.len(), keys(m, p.trans, l, j)
    ensures (l@ == EOI()) == (p.trans[j].label == EOI()), l@ != EOI() ==> is_label(l@) && forall|b: u8| #[trigger] in_label(l@, b) == printed_in(p.trans[j].label, b)
{ pstate_label(p, j); eoi_shape(); if p.trans[j].label != EOI() { norm_label(p.trans[j].label); } }
pub proof fn read_hold(a: DFAStateInfo, t: DFAStateInfo, p: PState)
    requires read_state(a, p), eoi_done(a, t), pstate_ok(p)
    ensures hold(t, p)
{
    reveal(hold); reveal(keyed);
    let n = p.trans.len() as int; let m = a.edges@; let r = t.edges@;
    eoi_shape();
    assert(has_eoi(m) == peoi(p)) by {
        if has_eoi(m) { let l = choose|l: VString| #[trigger] m.contains_key(l) && l@ == EOI(); assert(key_from(m, p.trans, n, l)); let j = choose|j: int| 0 <= j < n && #[trigger] keys(m, p.trans, l, j); key_label(p, m, l, j); }
        if peoi(p) { let j = choose|j: int| 0 <= j < n && (#[trigger] p.trans[j]).label == EOI(); assert(key_of(m, p.trans, j)); let l = choose|l: VString| #[trigger] keys(m, p.trans, l, j); key_label(p, m, l, j); }
    }
    assert forall|l: VString| #[trigger] r.contains_key(l) implies is_label(l@) by { assert(m.contains_key(l)); assert(key_from(m, p.trans, n, l)); let j = choose|j: int| 0 <= j < n && #[trigger] keys(m, p.trans, l, j); key_label(p, m, l, j); }
    assert forall|k: usize| (exists|l: VString| #[trigger] r.contains_key(l) && r[l] == k) == #[trigger] pgoes(p, k) by { read_goes(p, m, r, k, a, t); }
    assert forall|k: usize, b: u8| #[trigger] label_edge(r, k, b) == ptran(p, b, k) by { read_edge(p, m, r, k, b, a, t); }
}
pub proof fn read_goes(p: PState, m: Map<VString, usize>, r: Map<VString, usize>, k: usize, a: DFAStateInfo, t: DFAStateInfo)
    requires pstate_ok(p), keyed(m, p.trans, p.trans.len() as int), m == a.edges@, r == t.edges@, eoi_done(a, t)
    ensures (exists|l: VString| #[trigger] r.contains_key(l) && r[l] == k) == pgoes(p, k)
{
    reveal(keyed);
    let n = p.trans.len() as int;
    if exists|l: VString| #[trigger] r.contains_key(l) && r[l] == k {
        let l = choose|l: VString| #[trigger] r.contains_key(l) && r[l] == k;
        assert(m.contains_key(l)); assert(key_from(m, p.trans, n, l));
        let j = choose|j: int| 0 <= j < n && #[trigger] keys(m, p.trans, l, j);
        key_label(p, m, l, j);
        assert(p.trans[j].label != EOI() && p.trans[j].dst == k);
    }
    if pgoes(p, k) {
        let j = choose|j: int| 0 <= j < n && (#[trigger] p.trans[j]).label != EOI() && p.trans[j].dst == k;
        assert(key_of(m, p.trans, j));
        let l = choose|l: VString| #[trigger] keys(m, p.trans, l, j);
        key_label(p, m, l, j);
        assert(r.contains_key(l)); assert(r[l] == m[l]);
    }
}
pub proof fn read_edge(p: PState, m: Map<VString, usize>, r: Map<VString, usize>, k: usize, b: u8, a: DFAStateInfo, t: DFAStateInfo)
    requires pstate_ok(p), keyed(m, p.trans, p.trans.len() as int), m == a.edges@, r == t.edges@, eoi_done(a, t)
    ensures label_edge(r, k, b) == ptran(p, b, k)
{
    reveal(keyed);
    let n = p.trans.len() as int;
    eoi_shape();
    if label_edge(r, k, b) {
        let l = choose|l: VString| #[trigger] r.contains_key(l) && r[l] == k && in_label(l@, b);
        assert(m.contains_key(l)); assert(key_from(m, p.trans, n, l));
        let j = choose|j: int| 0 <= j < n && #[trigger] keys(m, p.trans, l, j);
        key_label(p, m, l, j);
        assert(in_label(l@, b) == printed_in(p.trans[j].label, b));
    }
    if ptran(p, b, k) {
        let j = choose|j: int| 0 <= j < n && printed_in((#[trigger] p.trans[j]).label, b) && p.trans[j].dst == k;
        assert(key_of(m, p.trans, j));
        let l = choose|l: VString| #[trigger] keys(m, p.trans, l, j);
        key_label(p, m, l, j);
        assert(in_label(l@, b) == printed_in(p.trans[j].label, b));
        assert(r.contains_key(l)); assert(r[l] == m[l]);
    }
}
// g is the printed automaton with its states ids renumbered by position
#[verifier::opaque]
pub open spec fn sim(g: DFAGraph, ps: Seq<PState>, ids: Seq<usize>) -> bool {
    &&& ids.len() == g.states@.len()
    &&& forall|i: int, j: int| 0 <= i < j < ids.len() ==> #[trigger] ids[i] != #[trigger] ids[j]
    &&& forall|i: int, k: int, b: u8| 0 <= i < ids.len() && 0 <= k < ids.len() ==> #[trigger] step(g, i, k, b) == pedge(ps, ids[i], b, ids[k])
    &&& forall|i: int, b: u8, d: usize| 0 <= i < ids.len() && #[trigger] pedge(ps, ids[i], b, d) ==> ids.contains(d)
    &&& forall|i: int| 0 <= i < ids.len() ==> acc(#[trigger] g.states@[i]) == pacc(ps, ids[i])
}
pub proof fn sim_step(g: DFAGraph, ps: Seq<PState>, ids: Seq<usize>, p: int, b: u8, r: int, d: usize)
    requires sim(g, ps, ids), 0 <= p < ids.len()
    ensures ids.len() == g.states@.len(), 0 <= r < ids.len() ==> step(g, p, r, b) == pedge(ps, ids[p], b, ids[r]), pedge(ps, ids[p], b, d) ==> ids.contains(d)
{ reveal(sim); }
// the names of a printed path are among ids
pub proof fn ppath_in(g: DFAGraph, ps: Seq<PState>, ids: Seq<usize>, s: Seq<u8>, w: Seq<usize>, i: int)
    requires sim(g, ps, ids), ids.len() > 0, ppath(ps, ids[0], s, w), 0 <= i < w.len()
    ensures ids.contains(w[i])
    decreases i
{
    if i == 0 { assert(ids[0] == w[0]); } else {
        ppath_in(g, ps, ids, s, w, i - 1);
        assert(phop(ps, s, w, i - 1));
        let k = choose|k: int| 0 <= k < ids.len() && ids[k] == w[i - 1];
        sim_step(g, ps, ids, k, s[i - 1], 0, w[i]);
    }
}
pub proof fn sim_lang(g: DFAGraph, ps: Seq<PState>, ids: Seq<usize>)
    requires sim(g, ps, ids), ids.len() > 0
    ensures forall|s: Seq<u8>| #[trigger] accepts(g, s) == plang(ps, ids[0], s)
{
    assert forall|s: Seq<u8>| #[trigger] accepts(g, s) == plang(ps, ids[0], s) by {
        sim_step(g, ps, ids, 0, 0, 0, 0);
        if accepts(g, s) {
            let w = choose|w: Seq<int>| #[trigger] path(g, 0, s, w) && acc(g.states@[w.last()]);
            let v = Seq::new(w.len(), |i: int| ids[w[i]]);
            assert forall|i: int| 0 <= i < s.len() implies #[trigger] phop(ps, s, v, i) by { path_in(g, 0, s, w, i); path_in(g, 0, s, w, i + 1); assert(hop(g, s, w, i)); sim_step(g, ps, ids, w[i], s[i], w[i + 1], 0); }
            assert(ppath(ps, ids[0], s, v));
            path_in(g, 0, s, w, w.len() - 1); sim_acc(g, ps, ids, w.last());
            assert(v.last() == ids[w.last()]);
        }
        if plang(ps, ids[0], s) {
            let v = choose|v: Seq<usize>| #[trigger] ppath(ps, ids[0], s, v) && pacc(ps, v.last());
            let w = Seq::new(v.len(), |i: int| if i == 0 { 0 } else { choose|k: int| 0 <= k < ids.len() && ids[k] == v[i] });
            assert forall|i: int| 0 <= i < v.len() implies 0 <= #[trigger] w[i] < ids.len() && ids[w[i]] == v[i] by { ppath_in(g, ps, ids, s, v, i); if i > 0 { let k = choose|k: int| 0 <= k < ids.len() && ids[k] == v[i]; assert(ids.contains(v[i])); } }
            assert forall|i: int| 0 <= i < s.len() implies #[trigger] hop(g, s, w, i) by { assert(phop(ps, s, v, i)); assert(ids[w[i]] == v[i] && ids[w[i + 1]] == v[i + 1]); sim_step(g, ps, ids, w[i], s[i], w[i + 1], 0); }
            assert(path(g, 0, s, w));
            assert(ids[w.last()] == v.last());
            sim_acc(g, ps, ids, w.last());
        }
    }
}
pub proof fn sim_acc(g: DFAGraph, ps: Seq<PState>, ids: Seq<usize>, i: int)
    requires sim(g, ps, ids), 0 <= i < ids.len()
    ensures ids.len() == g.states@.len(), acc(g.states@[i]) == pacc(ps, ids[i])
{ reveal(sim); }
pub open spec fn holds(t: Seq<DFAStateInfo>, ps: Seq<PState>) -> bool { t.len() == ps.len() && forall|i: int| 0 <= i < t.len() ==> hold(#[trigger] t[i], ps[i]) }
pub open spec fn id_seq(t: Seq<DFAStateInfo>, ord: Seq<int>) -> Seq<usize> { Seq::new(ord.len(), |i: int| t[ord[i]].source) }
#[verifier::opaque]
pub open spec fn gnode(r: DFAStateInfo, n: DFAStateNode) -> bool { n.state_id == r.source && n.state_type == r.typ && bytes_of(r.edges@, n.transitions@) }
pub open spec fn gnodes(r: Seq<DFAStateInfo>, g: DFAGraph) -> bool { r.len() == g.states@.len() && forall|i: int| 0 <= i < r.len() ==> gnode(r[i], #[trigger] g.states@[i]) }
pub proof fn hold_step(t: Seq<DFAStateInfo>, ps: Seq<PState>, i: int, b: u8, d: usize)
    requires printed_ok(ps), holds(t, ps), 0 <= i < t.len()
    ensures pedge(ps, t[i].source, b, d) == label_edge(t[i].edges@, d, b), pacc(ps, t[i].source) == (t[i].typ@ == ACC())
{
    reveal(hold);
    assert(hold(t[i], ps[i]));
    assert(label_edge(t[i].edges@, d, b) == ptran(ps[i], b, d));
    assert(forall|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).id == ps[i].id ==> j == i);
}
pub proof fn renumbered_hits(t: Seq<DFAStateInfo>, ord: Seq<int>, r: Seq<DFAStateInfo>, i: int, k: usize, b: u8, d: usize)
    requires renumbered(t, ord, r), 0 <= i < r.len(), forall|x: int, y: int| #![trigger id_seq(t, ord)[x], id_seq(t, ord)[y]] 0 <= x < y < ord.len() ==> id_seq(t, ord)[x] != id_seq(t, ord)[y],
    ensures k < r.len() ==> label_edge(r[i].edges@, k, b) == label_edge(t[ord[i]].edges@, t[ord[k as int]].source, b),
        label_edge(t[ord[i]].edges@, d, b) ==> id_seq(t, ord).contains(d),
        (exists|l: VString| #[trigger] r[i].edges@.contains_key(l) && r[i].edges@[l] == k) ==> k < r.len(),
{
    reveal(ren);
    assert(ren(t, ord, r[i], i));
    let a = r[i].edges@; let c = t[ord[i]].edges@; let ids = id_seq(t, ord);
    if k < r.len() {
        let q = t[ord[k as int]].source;
        assert(ids[k as int] == q);
        if label_edge(a, k, b) { let l = choose|l: VString| #[trigger] a.contains_key(l) && a[l] == k && in_label(l@, b); assert(c.contains_key(l) && c[l] == q); }
        if label_edge(c, q, b) { let l = choose|l: VString| #[trigger] c.contains_key(l) && c[l] == q && in_label(l@, b); assert(a.contains_key(l)); assert(ids[a[l] as int] == q); }
    }
    if label_edge(c, d, b) { let l = choose|l: VString| #[trigger] c.contains_key(l) && c[l] == d && in_label(l@, b); assert(a.contains_key(l)); assert(ids[a[l] as int] == d); }
}
// reading, renumbering and splitting the labels into bytes keeps the language of the printed automaton
pub proof fn converted(ps: Seq<PState>, start: usize, t: Seq<DFAStateInfo>, ord: Seq<int>, r: Seq<DFAStateInfo>, g: DFAGraph)
    requires printed_ok(ps), holds(t, ps), uniq_src(t), reordered(t, ord, start), renumbered(t, ord, r), gnodes(r, g), r.len() > 0, g.states@.len() <= usize::MAX
    ensures wf(g), forall|s: Seq<u8>| #[trigger] accepts(g, s) == plang(ps, start, s), forall|i: int, k: usize, b: u8| 0 <= i < g.states@.len() && #[trigger] hasp(g, i, k, b) ==> printed_byte(ps, b), g.states@.len() <= ps.len()
{
    let ids = id_seq(t, ord); let n = r.len() as int;
    assert(src(t, start));
    assert(ids[0] == start);
    assert forall|x: int, y: int| 0 <= x < y < ord.len() implies #[trigger] ids[x] != #[trigger] ids[y] by { assert(ord[x] != ord[y]); assert(t[ord[x]].source != t[ord[y]].source); }
    assert forall|i: int, k: int, b: u8| 0 <= i < n && 0 <= k < n implies #[trigger] step(g, i, k, b) == pedge(ps, ids[i], b, ids[k]) by {
        reveal(gnode); assert(gnode(r[i], g.states@[i]));
        assert(has(tr(g, i), k as usize, b) == label_edge(r[i].edges@, k as usize, b));
        renumbered_hits(t, ord, r, i, k as usize, b, 0);
        hold_step(t, ps, ord[i], b, ids[k]);
    }
    assert forall|i: int, b: u8, d: usize| 0 <= i < n && #[trigger] pedge(ps, ids[i], b, d) implies ids.contains(d) by { hold_step(t, ps, ord[i], b, d); renumbered_hits(t, ord, r, i, 0, b, d); }
    assert forall|i: int| 0 <= i < n implies acc(#[trigger] g.states@[i]) == pacc(ps, ids[i]) by {
        reveal(gnode); reveal(ren); assert(gnode(r[i], g.states@[i])); assert(ren(t, ord, r[i], i)); hold_step(t, ps, ord[i], 0, 0);
    }
    assert(sim(g, ps, ids)) by { reveal(sim); }
    sim_lang(g, ps, ids);
    injective_len(ord, t.len() as int);
    assert forall|i: int| 0 <= i < n implies (#[trigger] g.states@[i]).state_id == i && det(tr(g, i)) by {
        reveal(gnode); reveal(ren); assert(gnode(r[i], g.states@[i])); assert(ren(t, ord, r[i], i));
        assert forall|k1: usize, k2: usize, b: u8| #![trigger has(tr(g, i), k1, b), has(tr(g, i), k2, b)] has(tr(g, i), k1, b) && has(tr(g, i), k2, b) implies k1 == k2 by {
            assert(edge(tr(g, i), k1) && edge(tr(g, i), k2));
            renumbered_hits(t, ord, r, i, k1, b, 0); renumbered_hits(t, ord, r, i, k2, b, 0);
            assert(step(g, i, k1 as int, b) && step(g, i, k2 as int, b));
            assert(pedge(ps, ids[i], b, ids[k1 as int]) && pedge(ps, ids[i], b, ids[k2 as int]));
            pedge_det(ps, ids[i], b, ids[k1 as int], ids[k2 as int]);
            if k1 < k2 { assert(ids[k1 as int] != ids[k2 as int]); } else if k2 < k1 { assert(ids[k2 as int] != ids[k1 as int]); }
        }
    }
    assert forall|i: int, k: usize| 0 <= i < n && #[trigger] edge(tr(g, i), k) implies k < n by { reveal(gnode); assert(gnode(r[i], g.states@[i])); renumbered_hits(t, ord, r, i, k, 0, 0); }
    assert forall|i: int, k: usize, b: u8| 0 <= i < g.states@.len() && #[trigger] hasp(g, i, k, b) implies printed_byte(ps, b) by { assert(edge(tr(g, i), k)); assert(step(g, i, k as int, b)); }
}
pub proof fn injective_len(ord: Seq<int>, n: int)
    requires n >= 0, forall|i: int| 0 <= i < ord.len() ==> 0 <= #[trigger] ord[i] < n, forall|i: int, j: int| 0 <= i < j < ord.len() ==> #[trigger] ord[i] != #[trigger] ord[j]
    ensures ord.len() <= n
    decreases n
{
    if n == 0 { if ord.len() > 0 { let x = ord[0]; assert(0 <= x && x < n); } }
    else if exists|q: int| 0 <= q < ord.len() && ord[q] == n - 1 {
        let q = choose|q: int| 0 <= q < ord.len() && ord[q] == n - 1;
        injective_len(ord.remove(q), n - 1);
    } else { injective_len(ord, n - 1); }
}
pub proof fn pedge_det(ps: Seq<PState>, a: usize, b: u8, d: usize, e: usize)
    requires printed_ok(ps), pedge(ps, a, b, d), pedge(ps, a, b, e)
    ensures d == e
{
    let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).id == a && ptran(ps[i], b, d);
    let j = choose|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).id == a && ptran(ps[j], b, e);
    assert(i == j);
    let p = ps[i]; assert(pstate_ok(p)); reveal(pstate_ok);
    let x = choose|x: int| 0 <= x < p.trans.len() && printed_in((#[trigger] p.trans[x]).label, b) && p.trans[x].dst == d;
    let y = choose|y: int| 0 <= y < p.trans.len() && printed_in((#[trigger] p.trans[y]).label, b) && p.trans[y].dst == e;
    assert(printed_in(p.trans[x].label, b) && printed_in(p.trans[y].label, b));
}
pub proof fn held_facts(t: Seq<DFAStateInfo>, ps: Seq<PState>)
    requires printed_ok(ps), holds(t, ps)
    ensures uniq_src(t), forall|d: usize| #[trigger] src(t, d) == plisted(ps, d), ptargets(ps) ==> targets_ok(t), forall|i: int| 0 <= i < t.len() ==> labelled((#[trigger] t[i]).edges@)
{
    reveal(hold);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).source == ps[i].id by { assert(hold(t[i], ps[i])); }
    assert forall|d: usize| #[trigger] src(t, d) == plisted(ps, d) by {
        if src(t, d) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).source == d; assert(ps[i].id == d); }
        if plisted(ps, d) { let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).id == d; assert(t[i].source == d); }
    }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).source != (#[trigger] t[j]).source by { assert(ps[i].id != ps[j].id); }
    if ptargets(ps) {
        assert forall|i: int, l: VString| 0 <= i < t.len() && #[trigger] t[i].edges@.contains_key(l) implies src(t, t[i].edges@[l]) by { assert(hold(t[i], ps[i])); assert(pgoes(ps[i], t[i].edges@[l])); }
    }
}

// ---------- halo2 tables ----------
pub open spec fn sp() -> Seq<u8> { seq![32u8] }
pub open spec fn nl() -> Seq<u8> { seq![10u8] }
pub open spec fn row3(r: (int, int, int)) -> Seq<u8> { dec_text(r.0) + sp() + dec_text(r.1) + sp() + dec_text(r.2) + nl() }
pub open spec fn flat3(s: Seq<(int, int, int)>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::<u8>::empty() } else { flat3(s.drop_last()) + row3(s.last()) } }
pub open spec fn row2(r: (int, int)) -> Seq<u8> { dec_text(r.0) + sp() + dec_text(r.1) + nl() }
pub open spec fn flat2(s: Seq<(int, int)>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::<u8>::empty() } else { flat2(s.drop_last()) + row2(s.last()) } }
// numbers separated by single blanks
pub open spec fn spaced(s: Seq<int>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::<u8>::empty() } else if s.len() == 1 { dec_text(s[0]) } else { spaced(s.drop_last()) + sp() + dec_text(s.last()) } }
pub open spec fn is_max(g: DFAGraph, m: usize) -> bool {
    &&& forall|j: int| 0 <= j < g.states@.len() ==> (#[trigger] g.states@[j]).state_id <= m
    &&& exists|j: int| 0 <= j < g.states@.len() && (#[trigger] g.states@[j]).state_id == m
}
// every transition of the automaton, once each
pub open spec fn all_rows(g: DFAGraph, rows: Seq<(int, int, int)>) -> bool {
    &&& rows.no_duplicates()
    &&& forall|r: (int, int, int)| #[trigger] rows.contains(r) == is_row(g, r)
}
pub open spec fn is_row(g: DFAGraph, r: (int, int, int)) -> bool { 0 <= r.0 < g.states@.len() && 0 <= r.1 <= usize::MAX && 0 <= r.2 <= 255 && has(tr(g, r.0), r.1 as usize, r.2 as u8) }
// the main table: initial state 0, the accepting state, the largest state, then the rows
pub open spec fn main_table(g: DFAGraph, t: Seq<u8>) -> bool { exists|a: int, m: usize, rows: Seq<(int, int, int)>| #[trigger] main_parts(g, t, a, m, rows) }
pub open spec fn main_parts(g: DFAGraph, t: Seq<u8>, a: int, m: usize, rows: Seq<(int, int, int)>) -> bool {
    first_acc(g.states@, a) && is_max(g, m) && all_rows(g, rows) && t == seq![48u8] + nl() + dec_text(a) + nl() + dec_text(m as int) + nl() + flat3(rows)
}
pub open spec fn inc(s: Seq<int>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i] < s[j] }
pub open spec fn inc2(s: Seq<(int, int)>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].0 < s[j].0 || (s[i].0 == s[j].0 && s[i].1 < s[j].1) }
// the elements of a set in increasing order
pub open spec fn listed(m: Set<usize>, s: Seq<int>) -> bool { inc(s) && forall|x: int| #[trigger] s.contains(x) == (0 <= x <= usize::MAX && m.contains(x as usize)) }
pub open spec fn listed2(m: Set<(usize, usize)>, s: Seq<(int, int)>) -> bool { inc2(s) && forall|x: (int, int)| #[trigger] s.contains(x) == (0 <= x.0 <= usize::MAX && 0 <= x.1 <= usize::MAX && m.contains((x.0 as usize, x.1 as usize))) }
// the table of one public part: its starts, its ends, its transitions, each sorted and once
pub open spec fn substr_table(starts: Set<usize>, ends: Set<usize>, edges: Set<(usize, usize)>, t: Seq<u8>) -> bool {
    exists|a: Seq<int>, b: Seq<int>, c: Seq<(int, int)>| #[trigger] substr_parts(starts, ends, edges, t, a, b, c)
}
pub open spec fn substr_parts(starts: Set<usize>, ends: Set<usize>, edges: Set<(usize, usize)>, t: Seq<u8>, a: Seq<int>, b: Seq<int>, c: Seq<(int, int)>) -> bool {
    listed(starts, a) && listed(ends, b) && listed2(edges, c) && t == spaced(a) + nl() + (spaced(b) + nl()) + flat2(c)
}
pub open spec fn substr_files(s: SubstringDefinitions, p: Seq<VPath>, n: int) -> bool {
    n > 0 ==> s.substring_boundaries.is_some() && s.substring_boundaries.unwrap()@.len() >= n && p.len() >= n
        && forall|k: int| 0 <= k < n ==> #[trigger] substr_file(s, p, k)
}
pub open spec fn substr_file(s: SubstringDefinitions, p: Seq<VPath>, k: int) -> bool {
    exists|t: Seq<u8>| #[trigger] wrote(p[k], t) && substr_table(s.substring_boundaries.unwrap()@[k].0@, s.substring_boundaries.unwrap()@[k].1@, s.substring_ranges@[k]@, t)
}
pub open spec fn halo_done(r: RegexAndDFA, all: VPath, p: Seq<VPath>, gen: bool) -> bool {
    &&& exists|t: Seq<u8>| #[trigger] wrote(all, t) && main_table(r.dfa, t)
    &&& gen ==> substr_files(r.substrings, p, r.substrings.substring_ranges@.len() as int)
}
// the texts of increasing numbers, joined with blanks
pub proof fn spaced_join(v: Seq<VString>, s: Seq<int>)
    requires v.len() == s.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == dec_text(s[i])
    ensures flat_bytes(v, sp()) == spaced(s)
    decreases s.len()
{
    if s.len() > 1 {
        let (v2, s2) = (v.drop_last(), s.drop_last());
        assert forall|i: int| 0 <= i < v2.len() implies (#[trigger] v2[i])@ == dec_text(s2[i]) by { assert(v2[i] == v[i] && s2[i] == s[i]); }
        spaced_join(v2, s2);
    }
}
pub proof fn rows_push(rows: Seq<(int, int, int)>, r: (int, int, int))
    requires rows.no_duplicates(), !rows.contains(r)
    ensures rows.push(r).no_duplicates(), flat3(rows.push(r)) == flat3(rows) + row3(r), forall|x: (int, int, int)| #[trigger] rows.push(r).contains(x) == (rows.contains(x) || x == r)
{ push_contains(rows, r); assert(rows.push(r).drop_last() == rows); }
pub open spec fn ints(s: Seq<&usize>) -> Seq<int> { Seq::new(s.len(), |q: int| *s[q] as int) }
pub open spec fn ints2(s: Seq<&(usize, usize)>) -> Seq<(int, int)> { Seq::new(s.len(), |q: int| (s[q].0 as int, s[q].1 as int)) }
pub proof fn listed_items(s: Seq<&usize>, m: Set<usize>)
    requires set_refs(s, m), set_sorted(s)
    ensures listed(m, ints(s))
{
    let v = ints(s);
    assert forall|x: int| #[trigger] v.contains(x) == (0 <= x <= usize::MAX && m.contains(x as usize)) by {
        if v.contains(x) { let q = choose|q: int| 0 <= q < v.len() && v[q] == x; assert(m.contains(*s[q])); }
        if 0 <= x <= usize::MAX && m.contains(x as usize) { let q = choose|q: int| 0 <= q < s.len() && *(#[trigger] s[q]) == x as usize; assert(v[q] == x); }
    }
    assert forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() implies v[i] < v[j] by { assert(usize::vlt(*s[i], *s[j])); }
}
pub proof fn listed_items2(s: Seq<&(usize, usize)>, m: Set<(usize, usize)>)
    requires nondec(s), s.no_duplicates(), forall|x: (usize, usize)| (exists|q: int| 0 <= q < s.len() && *(#[trigger] s[q]) == x) <==> m.contains(x)
    ensures listed2(m, ints2(s))
{
    let v = ints2(s);
    assert forall|x: (int, int)| #[trigger] v.contains(x) == (0 <= x.0 <= usize::MAX && 0 <= x.1 <= usize::MAX && m.contains((x.0 as usize, x.1 as usize))) by {
        if v.contains(x) { let q = choose|q: int| 0 <= q < v.len() && v[q] == x; assert(*s[q] == (x.0 as usize, x.1 as usize)); assert(m.contains(*s[q])); }
        if 0 <= x.0 <= usize::MAX && 0 <= x.1 <= usize::MAX && m.contains((x.0 as usize, x.1 as usize)) {
            let y = (x.0 as usize, x.1 as usize);
            let q = choose|q: int| 0 <= q < s.len() && *(#[trigger] s[q]) == y; assert(v[q] == x);
        }
    }
    assert forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() implies v[i].0 < v[j].0 || (v[i].0 == v[j].0 && v[i].1 < v[j].1) by {
        assert(!<&(usize, usize) as VOrd>::vlt(s[j], s[i]));
        assert(s[i] != s[j]);
    }
}

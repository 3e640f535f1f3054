// ---------- the fancy_regex crate ----------
#[verifier::external_body]
pub struct VFancy { x: u8 }
#[verifier::external_body]
pub struct VFancyCaps { x: u8 }
#[verifier::external_body]
pub struct VFancyMatch { x: u8 }
pub uninterp spec fn fr_valid(p: Seq<u8>) -> bool;                  // the library accepts the pattern
pub uninterp spec fn fr_groups(p: Seq<u8>) -> int;                  // its groups, the whole match included
// the search of a pattern in a text: given up (limits), no match, or the leftmost match with the spans of the groups
pub ghost enum FOut { GaveUp, NotFound, Found(Seq<Option<(usize, usize)>>) }
pub uninterp spec fn fr_run(p: Seq<u8>, s: Seq<u8>) -> FOut;
impl VFancy {
    pub uninterp spec fn pat(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(s: &VString) -> (r: Result<VFancy, VxForeign>) ensures r.is_ok() == fr_valid(s@), r.is_ok() ==> r.unwrap().pat() == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn captures_len(&self) -> (r: usize) ensures r as int == fr_groups(self.pat()) { unimplemented!() }
    #[verifier::external_body]
    pub fn captures(&self, s: &VString) -> (r: Result<Option<VFancyCaps>, VxForeign>) ensures match fr_run(self.pat(), s@) {
        FOut::GaveUp => r.is_err(), FOut::NotFound => r.is_ok() && r.unwrap().is_none(), FOut::Found(c) => r.is_ok() && r.unwrap().is_some() && r.unwrap().unwrap().groups() == c } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: VxForeign) { unimplemented!() }
}
impl VFancyCaps {
    pub uninterp spec fn groups(&self) -> Seq<Option<(usize, usize)>>;
    #[verifier::external_body]
    pub fn vx_get(&self, k: usize) -> (r: Option<VFancyMatch>) ensures
        r.is_some() == (k < self.groups().len() && self.groups()[k as int].is_some()), r.is_some() ==> r.unwrap().span() == self.groups()[k as int].unwrap() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.groups().len() { unimplemented!() }
}
impl VFancyMatch {
    pub uninterp spec fn span(&self) -> (usize, usize);
    #[verifier::external_body]
    pub fn start(&self) -> (r: usize) ensures r == self.span().0 { unimplemented!() }
    #[verifier::external_body]
    pub fn end(&self) -> (r: usize) ensures r == self.span().1 { unimplemented!() }
}
// the library's `From` for an error that is of the wanted type already
pub broadcast axiom fn axiom_err_same<T>(a: T) ensures #[trigger] err_from::<T, T>(a) == a;
// ---------- the decomposed regex as one pattern ----------
pub open spec fn def_of(ps: Seq<RegexPartConfig>, k: int) -> Seq<u8> { ps[k].regex_def@ }
pub open spec fn pat_of(ps: Seq<RegexPartConfig>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::<u8>::empty() } else { pat_of(ps, n - 1) + (seq![40u8] + def_of(ps, n - 1) + seq![41u8]) } }
pub open spec fn whole(ps: Seq<RegexPartConfig>) -> Seq<u8> { pat_of(ps, ps.len() as int) }
pub open spec fn all_valid(ps: Seq<RegexPartConfig>, n: int) -> bool { forall|k: int| 0 <= k < n ==> fr_valid(#[trigger] def_of(ps, k)) }
// the group that wraps part n: after the groups of the parts before it
pub open spec fn group_at(ps: Seq<RegexPartConfig>, n: int) -> int decreases n { if n <= 0 { 1 } else { group_at(ps, n - 1) + fr_groups(def_of(ps, n - 1)) } }
pub open spec fn span_at(ps: Seq<RegexPartConfig>, c: Seq<Option<(usize, usize)>>, k: int) -> (usize, usize) { c[group_at(ps, k)].unwrap() }
// what is returned: the spans of the wanted parts, in part order
pub open spec fn wanted(ps: Seq<RegexPartConfig>, c: Seq<Option<(usize, usize)>>, all: bool, n: int) -> Seq<(usize, usize)> decreases n {
    if n <= 0 { Seq::<(usize, usize)>::empty() } else if ps[n - 1].is_public || all { wanted(ps, c, all, n - 1).push(span_at(ps, c, n - 1)) } else { wanted(ps, c, all, n - 1) }
}
// assumed of the library: in a match of (p1)(p2)... every wrapping group took part, and they follow one another, on character boundaries
pub open spec fn span_ok(ps: Seq<RegexPartConfig>, c: Seq<Option<(usize, usize)>>, s: Seq<u8>, k: int) -> bool {
    1 <= group_at(ps, k) < c.len() && c[group_at(ps, k)].is_some() && span_at(ps, c, k).0 <= span_at(ps, c, k).1 <= s.len() && is_bound(s, span_at(ps, c, k).0 as int) && is_bound(s, span_at(ps, c, k).1 as int)
        && (k + 1 < ps.len() ==> span_at(ps, c, k).1 == span_at(ps, c, k + 1).0)
}
pub axiom fn axiom_groups(ps: Seq<RegexPartConfig>, s: Seq<u8>, c: Seq<Option<(usize, usize)>>)
    ensures all_valid(ps, ps.len() as int) && fr_run(whole(ps), s) == FOut::Found(c) ==> forall|k: int| 0 <= k < ps.len() ==> #[trigger] span_ok(ps, c, s, k);
// assumed: a pattern has at most one group for each of its bytes, besides the whole match; a text is shorter than 2^63 bytes
pub axiom fn axiom_group_count(p: Seq<u8>) ensures 1 <= fr_groups(p) <= p.len() + 1;
pub axiom fn axiom_text_len(s: VString) ensures s@.len() <= 0x7fff_ffff_ffff_ffff;
pub proof fn group_bound(ps: Seq<RegexPartConfig>, k: int, n: int)
    requires 0 <= k <= n <= ps.len()
    ensures 1 <= group_at(ps, k) <= 1 + pat_of(ps, k).len(), pat_of(ps, k).len() <= pat_of(ps, n).len()
    decreases n
{
    if k < n { group_bound(ps, k, n - 1); }
    else if k > 0 { group_bound(ps, k - 1, k - 1); axiom_group_count(def_of(ps, k - 1)); }
}
// the answer of the extraction: the spans of the leftmost match of the whole, or the first invalid part, or an error when nothing matches
pub open spec fn first_invalid(ps: Seq<RegexPartConfig>, k: int) -> bool { 0 <= k < ps.len() && !fr_valid(def_of(ps, k)) && all_valid(ps, k) }
pub open spec fn extracts(s: Seq<u8>, ps: Seq<RegexPartConfig>, all: bool, r: Result<Vec<(usize, usize)>, ExtractSubstrssError>) -> bool {
    if all_valid(ps, ps.len() as int) {
        match r {
            Ok(v) => fr_valid(whole(ps)) && (fr_run(whole(ps), s) matches FOut::Found(c) && v@ == wanted(ps, c, all, ps.len() as int)),
            Err(e) => !fr_valid(whole(ps)) || !(fr_run(whole(ps), s) is Found),
        }
    } else { r matches Err(e) && (e matches ExtractSubstrssError::InvalidRegexPart { part_index, regex_def, error } && first_invalid(ps, part_index as int) && regex_def@ == def_of(ps, part_index as int)) }
}
pub open spec fn texts_at(s: Seq<u8>, v: Seq<(usize, usize)>, t: Seq<VString>) -> bool { t.len() == v.len() && forall|k: int| 0 <= k < v.len() ==> (#[trigger] t[k])@ == s.subrange(v[k].0 as int, v[k].1 as int) }
pub open spec fn same_err<A, B>(a: Result<A, ExtractSubstrssError>, b: Result<B, ExtractSubstrssError>) -> bool { a matches Err(x) && b matches Err(y) && x == y }
pub open spec fn extracts_text(s: Seq<u8>, ps: Seq<RegexPartConfig>, all: bool, r: Result<Vec<VString>, ExtractSubstrssError>) -> bool {
    exists|q: Result<Vec<(usize, usize)>, ExtractSubstrssError>| #[trigger] extracts(s, ps, all, q) && (if q.is_ok() { r.is_ok() && texts_at(s, q.unwrap()@, r.unwrap()@) } else { same_err(q, r) })
}
pub open spec fn in_text(x: (usize, usize), s: Seq<u8>) -> bool { x.0 <= x.1 <= s.len() && is_bound(s, x.0 as int) && is_bound(s, x.1 as int) }
pub proof fn wanted_in(ps: Seq<RegexPartConfig>, c: Seq<Option<(usize, usize)>>, s: Seq<u8>, all: bool, n: int)
    requires 0 <= n <= ps.len(), forall|k: int| 0 <= k < ps.len() ==> #[trigger] span_ok(ps, c, s, k)
    ensures forall|q: int| 0 <= q < wanted(ps, c, all, n).len() ==> in_text(#[trigger] wanted(ps, c, all, n)[q], s)
    decreases n
{
    if n > 0 {
        wanted_in(ps, c, s, all, n - 1); assert(span_ok(ps, c, s, n - 1));
        let a = wanted(ps, c, all, n - 1); let b = wanted(ps, c, all, n);
        assert forall|q: int| 0 <= q < b.len() implies in_text(#[trigger] b[q], s) by { if q < a.len() { assert(b[q] == a[q]); assert(in_text(a[q], s)); } else { assert(b[q] == span_at(ps, c, n - 1)); } }
    }
}

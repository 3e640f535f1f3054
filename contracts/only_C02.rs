// the spans of consecutive parts are adjacent, and with private parts revealed they cover one stretch of the text, part by part
pub proof fn C02_adjacent(ps: Seq<RegexPartConfig>, s: Seq<u8>, r: Result<Vec<(usize, usize)>, ExtractSubstrssError>, n: int)
    requires extracts(s, ps, true, r), r.is_ok(), 0 <= n <= ps.len()
    ensures r.unwrap()@.len() == ps.len(), forall|k: int| 0 <= k && k + 1 < ps.len() ==> (#[trigger] r.unwrap()@[k]).1 == r.unwrap()@[k + 1].0
{
    let c = fr_run(whole(ps), s)->Found_0;
    axiom_groups(ps, s, c);
    wanted_all(ps, c, ps.len() as int);
    assert forall|k: int| 0 <= k && k + 1 < ps.len() implies (#[trigger] r.unwrap()@[k]).1 == r.unwrap()@[k + 1].0 by { assert(span_ok(ps, c, s, k)); }
}
pub proof fn wanted_all(ps: Seq<RegexPartConfig>, c: Seq<Option<(usize, usize)>>, n: int)
    requires 0 <= n <= ps.len()
    ensures wanted(ps, c, true, n).len() == n, forall|k: int| 0 <= k < n ==> #[trigger] wanted(ps, c, true, n)[k] == span_at(ps, c, k)
    decreases n
{
    if n > 0 { wanted_all(ps, c, n - 1); let a = wanted(ps, c, true, n - 1); let b = wanted(ps, c, true, n);
        assert forall|k: int| 0 <= k < n implies #[trigger] b[k] == span_at(ps, c, k) by { if k < n - 1 { assert(b[k] == a[k]); } } }
}
// hiding the private parts leaves out their spans and nothing else
pub open spec fn pub_before(ps: Seq<RegexPartConfig>, n: int) -> int decreases n { if n <= 0 { 0 } else { pub_before(ps, n - 1) + (if ps[n - 1].is_public { 1int } else { 0 }) } }
pub proof fn C02_public(ps: Seq<RegexPartConfig>, c: Seq<Option<(usize, usize)>>, n: int)
    requires 0 <= n <= ps.len()
    ensures wanted(ps, c, false, n).len() == pub_before(ps, n), forall|k: int| 0 <= k < n && (#[trigger] ps[k]).is_public ==> 0 <= pub_before(ps, k) < pub_before(ps, n) && wanted(ps, c, false, n)[pub_before(ps, k)] == span_at(ps, c, k)
    decreases n
{ if n > 0 { C02_public(ps, c, n - 1); } }

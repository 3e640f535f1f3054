// ---------- what the entry points write ----------
// the circom text: the text the generator made for the automaton, the name, the pattern and the anchor, then the substring constraints
// made for the automaton and its publication, if requested, or the closing brace
#[verifier::opaque]
pub open spec fn tail_is(t: VString, r: RegexAndDFA) -> bool { made_substrs(t, r) && is_substrs(t, r) && t@.len() > 0 && t@[0] == 10 }
#[verifier::opaque]
pub open spec fn head_is(s: VString, r: RegexAndDFA, name: Seq<u8>) -> bool { made_allstr(s, r.dfa, name, r.regex_pattern@, r.has_end_anchor) && is_allstr(s, r.dfa, name, r.has_end_anchor) }
pub open spec fn circom_is(text: Seq<u8>, r: RegexAndDFA, name: Seq<u8>, subs: bool) -> bool {
    if subs { exists|s: VString, t: VString| #[trigger] head_is(s, r, name) && #[trigger] tail_is(t, r) && text == s@ + t@ } else { exists|s: VString| #[trigger] head_is(s, r, name) && text == s@ + seq![10u8, 125u8] }
}
pub open spec fn ALLSTR_TXT() -> Seq<u8> { seq![97u8, 108u8, 108u8, 115u8, 116u8, 114u8, 46u8, 116u8, 120u8, 116u8] }
pub open spec fn SUBSTR_() -> Seq<u8> { seq![115u8, 117u8, 98u8, 115u8, 116u8, 114u8, 95u8] }
pub open spec fn DOT_TXT() -> Seq<u8> { seq![46u8, 116u8, 120u8, 116u8] }
pub open spec fn substr_name(k: int) -> Seq<u8> { SUBSTR_() + dec_text(k) + DOT_TXT() }
pub open spec fn substr_paths(dir: VPath, p: Seq<VPath>) -> bool { forall|k: int| 0 <= k < p.len() ==> #[trigger] p[k] == path_join(dir, substr_name(k)) }
// halo2 tables in the directory: the main one, and with substrings one for each published transition set, in order
pub open spec fn halo_out(r: RegexAndDFA, dir: Seq<u8>, subs: bool) -> bool {
    exists|d: VPath, p: Seq<VPath>| #[trigger] substr_paths(d, p) && d.txt() == dir && halo_done(r, path_join(d, ALLSTR_TXT()), p, subs)
}
pub open spec fn circom_out(r: RegexAndDFA, file: Seq<u8>, name: Seq<u8>, subs: bool) -> bool {
    exists|p: VPath, text: Seq<u8>| p.txt() == file && #[trigger] wrote(p, text) && circom_is(text, r, name, subs)
}
pub open spec fn outputs(r: RegexAndDFA, halo: Option<&VString>, circom: Option<&VString>, name: Option<&VString>, subs: bool) -> bool {
    &&& halo.is_some() ==> halo_out(r, halo.unwrap()@, subs)
    &&& circom.is_some() ==> name.is_some() && circom_out(r, circom.unwrap()@, name.unwrap()@, subs)
}
// the published sets and their boundaries belong together
pub open spec fn boundaries_fit(r: RegexAndDFA) -> bool { r.substrings.substring_boundaries.is_some() ==> r.substrings.substring_boundaries.unwrap()@.len() >= r.substrings.substring_ranges@.len() }
pub open spec fn or_default(o: Option<bool>, d: bool) -> bool { match o { Some(b) => b, None => d } }
// assumed: a definition has fewer than 2^31 parts (its text would need tens of gigabytes)
pub axiom fn axiom_parts(v: Vec<RegexPartConfig>) ensures v@.len() <= 0x7fff_ffff;
pub open spec fn from_definition(p0: Seq<RegexPartConfig>, p1: Seq<RegexPartConfig>, r: RegexAndDFA) -> bool {
    front_end(p0, p1, r) && p1.len() > 0 && r.has_end_anchor == end_anchored(p1.last().regex_def@) && r.regex_pattern@ == all_patterns(p1, p1.len() as int)
}
pub open spec fn from_regex(re: Seq<u8>, defs: Seq<Vec<(usize, usize)>>, r: RegexAndDFA) -> bool {
    re_auto(r.dfa, re) && r.regex_pattern@ == re && r.has_end_anchor == end_anchored(re) && same_ranges(defs, r.substrings.substring_ranges@)
}
pub open spec fn npub(s: Seq<RegexPartConfig>, n: int) -> int decreases n { if n <= 0 { 0 } else { npub(s, n - 1) + (if s[n - 1].is_public { 1int } else { 0 }) } }
pub open spec fn pub_index(s: Seq<RegexPartConfig>, n: int, pi: Seq<int>) -> bool {
    &&& forall|k: int| 0 <= k < pi.len() ==> 0 <= #[trigger] pi[k] < n && s[pi[k]].is_public
    &&& forall|k: int, m: int| 0 <= k < m < pi.len() ==> #[trigger] pi[k] < #[trigger] pi[m]
    &&& forall|i: int| 0 <= i < n && (#[trigger] s[i]).is_public ==> pi.contains(i)
}
pub proof fn pub_none(s: Seq<RegexPartConfig>, pi: Seq<int>) requires pub_index(s, 0, pi) ensures pi.len() == 0 { if pi.len() > 0 { let x = pi[0]; assert(0 <= x && x < 0); } }
pub proof fn pub_count(s: Seq<RegexPartConfig>, n: int, pi: Seq<int>)
    requires pub_index(s, n, pi), 0 <= n <= s.len()
    ensures pi.len() == npub(s, n)
    decreases n
{
    if n == 0 { pub_none(s, pi); }
    else if s[n - 1].is_public {
        assert(pi.contains(n - 1));
        let k = choose|k: int| 0 <= k < pi.len() && pi[k] == n - 1;
        if k < pi.len() - 1 { assert(pi[k] < pi[pi.len() - 1]); }
        let p2 = pi.drop_last();
        assert forall|q: int| 0 <= q < p2.len() implies 0 <= #[trigger] p2[q] < n - 1 && s[p2[q]].is_public by { assert(pi[q] < pi[k]); }
        assert forall|i: int| 0 <= i < n - 1 && (#[trigger] s[i]).is_public implies p2.contains(i) by { assert(pi.contains(i)); let q = choose|q: int| 0 <= q < pi.len() && pi[q] == i; assert(p2[q] == i); }
        assert forall|a: int, b: int| 0 <= a < b < p2.len() implies #[trigger] p2[a] < #[trigger] p2[b] by { assert(pi[a] < pi[b]); }
        pub_count(s, n - 1, p2);
    } else {
        assert forall|q: int| 0 <= q < pi.len() implies 0 <= #[trigger] pi[q] < n - 1 && s[pi[q]].is_public by { assert(pi[q] != n - 1); }
        pub_count(s, n - 1, pi);
    }
}
pub proof fn front_fits(p0: Seq<RegexPartConfig>, p1: Seq<RegexPartConfig>, r: RegexAndDFA)
    requires front_end(p0, p1, r)
    ensures boundaries_fit(r), r.substrings.substring_boundaries.is_some(), r.substrings.substring_ranges@.len() == npub(p1, p1.len() as int)
{
    let (at, js) = choose|at: Option<usize>, js: Seq<Joined>| caret_split(p0, at, p1) && #[trigger] front(p1, at.is_some(), r, js);
    let pi = choose|pi: Seq<int>| #[trigger] published(p1, p1.len() as int, js, pi, r.substrings.substring_ranges@, r.substrings.substring_boundaries.unwrap()@);
    reveal(published);
    pub_count(p1, p1.len() as int, pi);
}
pub proof fn npub_bound(s: Seq<RegexPartConfig>, n: int) requires n >= 0 ensures 0 <= npub(s, n) <= n decreases n { if n > 0 { npub_bound(s, n - 1); } }

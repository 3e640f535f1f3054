// ---------- regular expressions and the automata built from them ----------
// the pattern matches exactly the whole of the text (anchored at both ends by the compiler)
pub uninterp spec fn re_matches(pattern: Seq<u8>, s: Seq<u8>) -> bool;
pub open spec fn whole(r: Seq<u8>) -> Seq<u8> { seq![94u8, 40u8] + r + seq![41u8, 36u8] }
// the strings a regex of the user matches
pub open spec fn re_lang(r: Seq<u8>, s: Seq<u8>) -> bool { re_matches(whole(r), s) }
// assumed of the automaton library: an automaton built anchored and without byte classes prints, in its debug form, a deterministic automaton
// of ASCII text whose labels do not overlap, with every target listed; it accepts what the pattern matches, and none of it contains the byte 255
// (patterns match UTF-8 text); the start is listed unless the pattern matches nothing
pub axiom fn axiom_dfa(d: VDfa<Vec<u32>>)
    ensures ascii(dbg_text(&d)), d.conf().anchored && d.conf().plain_bytes ==> {
        let ps = printed(dbg_text(&d)); let q = printed_start(dbg_text(&d));
        &&& printed_ok(ps) && ptargets(ps) && has_start(dbg_text(&d)) && ps.len() <= 0xffff_ffff
        &&& forall|s: Seq<u8>| #[trigger] plang(ps, q, s) == re_matches(d.pat(), s)
        &&& !printed_byte(ps, 255)
        &&& plisted(ps, q) == exists|s: Seq<u8>| #[trigger] re_matches(d.pat(), s)
    };
// g accepts what the regex r matches
pub open spec fn re_auto(g: DFAGraph, r: Seq<u8>) -> bool { wf(g) && forall|s: Seq<u8>| #[trigger] accepts(g, s) == re_lang(r, s) }
pub open spec fn without(g: DFAGraph, b: u8) -> bool { forall|i: int, k: usize| 0 <= i < g.states@.len() ==> !#[trigger] hasp(g, i, k, b) }
pub open spec fn some_string(g: DFAGraph) -> bool { exists|s: Seq<u8>| #[trigger] accepts(g, s) }
pub open spec fn CARET() -> Seq<u8> { seq![94u8] }
// the automaton of a part; first: it is the part with the anchor
pub open spec fn part_auto(p: RegexPartConfig, first: bool, g: DFAGraph) -> bool {
    if first && p.regex_def@ == CARET() { simple_caret(g) } else if first { exists|raw: DFAGraph| re_auto(raw, p.regex_def@) && #[trigger] caret_added(raw, g) } else { re_auto(g, p.regex_def@) }
}
pub proof fn simple_caret_wf(g: DFAGraph) requires simple_caret(g) ensures wf(g)
{
    assert forall|i: int, k: usize| 0 <= i < 2 && #[trigger] edge(tr(g, i), k) implies k < 2 by {}
    assert forall|i: int| 0 <= i < 2 implies det(#[trigger] tr(g, i)) by {
        assert forall|k1: usize, k2: usize, b: u8| #![trigger has(tr(g, i), k1, b), has(tr(g, i), k2, b)] has(tr(g, i), k1, b) && has(tr(g, i), k2, b) implies k1 == k2 by { assert(edge(tr(g, i), k1) && edge(tr(g, i), k2)); }
    }
}
pub proof fn caret_added_wf(a: DFAGraph, r: DFAGraph) requires wf(a), caret_added(a, r), without(a, 255) ensures wf(r), r.states@.len() >= 2
{
    let j = choose|j: int| first_acc(r.states@, j) && ({ let t = r.states@[j].state_id; (forall|k: usize, b: u8| #[trigger] has(tr(r, 0), k, b) == (has(tr(a, 0), k, b) || (k == t && b == 255))) && (forall|k: usize| #[trigger] edge(tr(r, 0), k) == (edge(tr(a, 0), k) || k == t)) });
    assert(j != 0);
    assert forall|i: int| 0 <= i < r.states@.len() implies (#[trigger] r.states@[i]).state_id == i && det(tr(r, i)) && (forall|k: usize| #[trigger] edge(tr(r, i), k) ==> k < r.states@.len()) by {
        assert(a.states@[i].state_id == i);
        if i == 0 {
            assert(det(tr(a, 0)));
            assert forall|k1: usize, k2: usize, b: u8| #![trigger has(tr(r, 0), k1, b), has(tr(r, 0), k2, b)] has(tr(r, 0), k1, b) && has(tr(r, 0), k2, b) implies k1 == k2 by { assert(!hasp(a, 0, k1, 255) && !hasp(a, 0, k2, 255)); }
            assert forall|k: usize| #[trigger] edge(tr(r, 0), k) implies k < r.states@.len() by { if edge(tr(a, 0), k) {} }
        } else { assert(r.states@[i] == a.states@[i]); assert(det(tr(a, i))); assert forall|k: usize| #[trigger] edge(tr(r, i), k) implies k < r.states@.len() by { assert(edge(tr(a, i), k)); } }
    }
}
// ---------- the composition of the parts ----------
pub ghost struct Joined { pub before: DFAGraph, pub g: DFAGraph, pub h: DFAGraph, pub net: DFAGraph }   // of one part: what was composed before it, its automaton, the same renumbered, and what is composed with it
pub open spec fn joined(js: Seq<Joined>, i: int) -> bool {
    &&& wf(js[i].g) && wf(js[i].net)
    &&& if i == 0 { js[0].before.states@.len() == 0 && shifted(js[0].g, js[0].h, 0) && js[0].net == js[0].h } else { js[i].before == js[i - 1].net && extended(js[i].before, js[i].g, js[i].h, js[i].net) }
}
pub open spec fn link(parts: Seq<RegexPartConfig>, caret: bool, js: Seq<Joined>, i: int) -> bool { joined(js, i) && part_auto(parts[i], caret && i == 0, js[i].g) }
#[verifier::opaque]
pub open spec fn chain(parts: Seq<RegexPartConfig>, caret: bool, js: Seq<Joined>) -> bool {
    forall|i: int| 0 <= i < js.len() ==> #[trigger] link(parts, caret, js, i)
}
// the text falls into pieces that the automata of the parts accept one by one
pub open spec fn pieces(js: Seq<Joined>, s: Seq<u8>, c: Seq<int>) -> bool {
    &&& c.len() == js.len() + 1 && c[0] == 0 && c.last() == s.len()
    &&& forall|i: int| 0 <= i < js.len() ==> #[trigger] fits(js, s, c, i)
}
pub open spec fn fits(js: Seq<Joined>, s: Seq<u8>, c: Seq<int>, i: int) -> bool { 0 <= c[i] && c[i] <= c[i + 1] && c[i + 1] <= s.len() && accepts(js[i].g, s.subrange(c[i], c[i + 1])) }
pub open spec fn concatenation(js: Seq<Joined>, s: Seq<u8>) -> bool { exists|c: Seq<int>| #[trigger] pieces(js, s, c) }
// no part after the first re-enters its start
pub open spec fn no_reentries(js: Seq<Joined>) -> bool { forall|i: int| 1 <= i < js.len() ==> no_reentry((#[trigger] js[i]).g) }
// no byte continues what was matched before a part and starts the part
pub open spec fn no_overlaps(js: Seq<Joined>) -> bool { forall|i: int| 1 <= i < js.len() ==> !overlap((#[trigger] js[i]).before, js[i].g) }
pub open spec fn composed_lang(js: Seq<Joined>) -> bool {
    &&& no_reentries(js) ==> forall|s: Seq<u8>| #[trigger] accepts(js.last().net, s) ==> concatenation(js, s)
    &&& no_reentries(js) && no_overlaps(js) ==> forall|s: Seq<u8>| #[trigger] accepts(js.last().net, s) == concatenation(js, s)
}
pub proof fn shifted_same(g: DFAGraph, h: DFAGraph)
    requires wf(g), shifted(g, h, 0)
    ensures wf(h), forall|s: Seq<u8>| #[trigger] accepts(g, s) == accepts(h, s)
{
    assert forall|i: int| 0 <= i < g.states@.len() implies (#[trigger] h.states@[i]).state_id == i && det(tr(h, i)) && (forall|k: usize| #[trigger] edge(tr(h, i), k) ==> k < g.states@.len()) by { shifted_edges(g, h, 0, i); }
    assert forall|i: int, k: usize, b: u8| 0 <= i < g.states@.len() implies hasp(g, i, k, b) == #[trigger] hasp(h, i, k, b) by { if edge(tr(g, i), k) { assert(edge(tr(h, i), (k + 0) as usize)); } if edge(tr(h, i), k) { assert(edge(tr(g, i), (k - 0) as usize)); } }
    assert forall|s: Seq<u8>| #[trigger] accepts(g, s) == accepts(h, s) by {
        if accepts(g, s) { let w = accepts_by(g, s); assert forall|i: int| 0 <= i < s.len() implies #[trigger] hop(h, s, w, i) by { assert(hop(g, s, w, i)); assert(hasp(g, w[i], w[i + 1] as usize, s[i]) == hasp(h, w[i], w[i + 1] as usize, s[i])); } assert(path(h, 0, s, w)); assert(h.states@[w.last()].state_type == g.states@[w.last()].state_type); }
        if accepts(h, s) { let w = accepts_by(h, s); assert forall|i: int| 0 <= i < s.len() implies #[trigger] hop(g, s, w, i) by { assert(hop(h, s, w, i)); assert(hasp(g, w[i], w[i + 1] as usize, s[i]) == hasp(h, w[i], w[i + 1] as usize, s[i])); } assert(path(g, 0, s, w)); assert(h.states@[w.last()].state_type == g.states@[w.last()].state_type); }
    }
}
pub proof fn chain_at(parts: Seq<RegexPartConfig>, caret: bool, js: Seq<Joined>, i: int)
    requires chain(parts, caret, js), 0 <= i < js.len()
    ensures joined(js, i), part_auto(parts[i], caret && i == 0, js[i].g)
{ reveal(chain); assert(link(parts, caret, js, i)); }
pub proof fn chain_shorter(parts: Seq<RegexPartConfig>, caret: bool, js: Seq<Joined>)
    requires chain(parts, caret, js), js.len() > 0
    ensures chain(parts, caret, js.drop_last())
{ reveal(chain); let k = js.drop_last(); assert forall|i: int| 0 <= i < k.len() implies #[trigger] link(parts, caret, k, i) by { assert(link(parts, caret, js, i)); assert(k[i] == js[i]); if i > 0 { assert(k[i - 1] == js[i - 1]); } } }
pub proof fn chain_longer(parts: Seq<RegexPartConfig>, caret: bool, js: Seq<Joined>, j: Joined)
    requires chain(parts, caret, js), joined(js.push(j), js.len() as int), part_auto(parts[js.len() as int], caret && js.len() == 0, j.g)
    ensures chain(parts, caret, js.push(j))
{ reveal(chain); let k = js.push(j); assert forall|i: int| 0 <= i < k.len() implies #[trigger] link(parts, caret, k, i) by { if i < js.len() { assert(link(parts, caret, js, i)); assert(k[i] == js[i]); if i > 0 { assert(k[i - 1] == js[i - 1]); } } } }
pub proof fn pieces_one(js: Seq<Joined>, s: Seq<u8>)
    requires js.len() == 1
    ensures concatenation(js, s) == accepts(js[0].g, s)
{
    if accepts(js[0].g, s) { let c = seq![0int, s.len() as int]; assert(s.subrange(c[0], c[1]) =~= s); assert forall|i: int| 0 <= i < js.len() implies #[trigger] fits(js, s, c, i) by {} assert(pieces(js, s, c)); }
    if concatenation(js, s) { let c = choose|c: Seq<int>| #[trigger] pieces(js, s, c); assert(fits(js, s, c, 0)); assert(c[0] == 0); assert(c[0 + 1int] == c.last()); assert(s.subrange(c[0], c[0 + 1int]) =~= s); }
}
pub proof fn pieces_push(js: Seq<Joined>, s: Seq<u8>, m: int)
    requires js.len() >= 2, 0 <= m <= s.len(), concatenation(js.drop_last(), s.subrange(0, m)), accepts(js.last().g, s.subrange(m, s.len() as int))
    ensures concatenation(js, s)
{
    let js1 = js.drop_last(); let n = js.len() as int; let u = s.subrange(0, m);
    let c1 = choose|c: Seq<int>| #[trigger] pieces(js1, u, c);
    let c = c1.push(s.len() as int);
    assert forall|i: int| 0 <= i < js.len() implies #[trigger] fits(js, s, c, i) by {
        if i < n - 1 { assert(c[i] == c1[i] && c[i + 1] == c1[i + 1]); assert(fits(js1, u, c1, i)); assert(js1[i] == js[i]); assert(s.subrange(c[i], c[i + 1]) =~= u.subrange(c1[i], c1[i + 1])); }
        else { assert(c[i] == m && c[i + 1] == s.len()); }
    }
    assert(c[0] == c1[0]);
    assert(pieces(js, s, c));
}
pub proof fn pieces_pop(js: Seq<Joined>, s: Seq<u8>) -> (m: int)
    requires js.len() >= 2, concatenation(js, s)
    ensures 0 <= m <= s.len(), concatenation(js.drop_last(), s.subrange(0, m)), accepts(js.last().g, s.subrange(m, s.len() as int))
{
    let c = choose|c: Seq<int>| #[trigger] pieces(js, s, c);
    let n = js.len() as int; let js1 = js.drop_last();
    assert(fits(js, s, c, n - 1));
    let m = c[n - 1]; let u = s.subrange(0, m); let c1 = c.drop_last();
    piece_order(js, s, c, n - 1);
    assert forall|i: int| 0 <= i < js1.len() implies #[trigger] fits(js1, u, c1, i) by { assert(fits(js, s, c, i));
        assert(c1[i] == c[i] && c1[i + 1] == c[i + 1]); assert(0 <= c[i]); assert(js1[i] == js[i]); assert(c[i + 1] <= c[n - 1]); assert(s.subrange(c[i], c[i + 1]) =~= u.subrange(c1[i], c1[i + 1]));
    }
    assert(pieces(js1, u, c1));
    assert(c[n - 1 + 1] == s.len());
    m
}
pub proof fn piece_order(js: Seq<Joined>, s: Seq<u8>, c: Seq<int>, n: int)
    requires pieces(js, s, c), 0 <= n < c.len()
    ensures forall|i: int| 0 <= i <= n ==> #[trigger] c[i] <= c[n]
    decreases n
{ if n > 0 { piece_order(js, s, c, n - 1); assert(fits(js, s, c, n - 1)); } }
// the automaton composed of the parts accepts the concatenation of their languages
pub proof fn chain_lang(parts: Seq<RegexPartConfig>, caret: bool, js: Seq<Joined>)
    requires chain(parts, caret, js), js.len() > 0, forall|i: int| 0 <= i < js.len() ==> (#[trigger] js[i]).net.states@.len() <= usize::MAX
    ensures composed_lang(js)
    decreases js.len()
{
    let n = js.len() as int; let l = js[n - 1];
    chain_at(parts, caret, js, n - 1);
    if n == 1 {
        shifted_same(l.g, l.h);
        assert forall|s: Seq<u8>| #[trigger] accepts(l.net, s) == concatenation(js, s) by { pieces_one(js, s); assert(accepts(l.g, s) == accepts(l.h, s)); }
    } else {
        let js1 = js.drop_last();
        chain_shorter(parts, caret, js);
        assert forall|i: int| 0 <= i < js1.len() implies (#[trigger] js1[i]).net.states@.len() <= usize::MAX by { assert(js1[i] == js[i]); }
        chain_lang(parts, caret, js1);
        assert(js1.last() == js[n - 2]);
        if no_reentries(js) {
            assert forall|i: int| 1 <= i < js1.len() implies no_reentry((#[trigger] js1[i]).g) by { assert(js1[i] == js[i]); }
            assert(no_reentry(js[n - 1].g));
            assert forall|s: Seq<u8>| #[trigger] accepts(l.net, s) implies concatenation(js, s) by {
                let m = extended_sound(l.before, l.g, l.h, l.net, s);
                assert(concatenation(js1, s.subrange(0, m)));
                pieces_push(js, s, m);
            }
            if no_overlaps(js) {
                assert forall|i: int| 1 <= i < js1.len() implies !overlap((#[trigger] js1[i]).before, js1[i].g) by { assert(js1[i] == js[i]); }
                assert(!overlap(js[n - 1].before, js[n - 1].g));
                assert forall|s: Seq<u8>| #[trigger] accepts(l.net, s) == concatenation(js, s) by {
                    if concatenation(js, s) {
                        let m = pieces_pop(js, s);
                        assert(accepts(js1.last().net, s.subrange(0, m)));
                        assert(parted(l.before, l.g, s, m));
                        extended_full(l.before, l.g, l.h, l.net, s, m);
                    }
                }
            }
        }
    }
}
// ---------- what is published of a part ----------
pub open spec fn pub_of(j: Joined, rg: VSet<(usize, usize)>, bd: (VSet<usize>, VSet<usize>)) -> bool {
    &&& forall|a: usize| #[trigger] bd.0@.contains(a) <==> accid(j.before, a)
    &&& forall|a: usize| #[trigger] bd.1@.contains(a) <==> pub_end(j.before, j.h, a)
    &&& no_return(j.h) || j.before.states@.len() == 0 ==> forall|a: usize, k: usize| #[trigger] rg@.contains((a, k)) <==> pub_edge(j.before, j.h, a, k)
}
// pi are the indices of the public ones among the first n parts; for each of them, in order, the transitions and the boundary states are published
#[verifier::opaque]
pub open spec fn published(parts: Seq<RegexPartConfig>, n: int, js: Seq<Joined>, pi: Seq<int>, rg: Seq<VSet<(usize, usize)>>, bd: Seq<(VSet<usize>, VSet<usize>)>) -> bool {
    &&& rg.len() == pi.len() && bd.len() == pi.len()
    &&& forall|k: int| 0 <= k < pi.len() ==> 0 <= #[trigger] pi[k] < n && parts[pi[k]].is_public && pub_of(js[pi[k]], rg[k], bd[k])
    &&& forall|k: int, m: int| 0 <= k < m < pi.len() ==> #[trigger] pi[k] < #[trigger] pi[m]
    &&& forall|i: int| 0 <= i < n && (#[trigger] parts[i]).is_public ==> pi.contains(i)
}
pub proof fn published_none(parts: Seq<RegexPartConfig>, n: int, js: Seq<Joined>, pi: Seq<int>, rg: Seq<VSet<(usize, usize)>>, bd: Seq<(VSet<usize>, VSet<usize>)>, j: Joined)
    requires published(parts, n, js, pi, rg, bd), !parts[n].is_public, n == js.len()
    ensures published(parts, n + 1, js.push(j), pi, rg, bd)
{ reveal(published); }
pub proof fn published_one(parts: Seq<RegexPartConfig>, n: int, js: Seq<Joined>, pi: Seq<int>, rg: Seq<VSet<(usize, usize)>>, bd: Seq<(VSet<usize>, VSet<usize>)>, j: Joined, r: VSet<(usize, usize)>, b: (VSet<usize>, VSet<usize>))
    requires published(parts, n, js, pi, rg, bd), parts[n].is_public, pub_of(j, r, b), n == js.len()
    ensures published(parts, n + 1, js.push(j), pi.push(n), rg.push(r), bd.push(b))
{
    reveal(published);
    let p1 = pi.push(n);
    assert forall|i: int| 0 <= i < n + 1 && (#[trigger] parts[i]).is_public implies p1.contains(i) by { if i < n { assert(pi.contains(i)); let k = choose|k: int| 0 <= k < pi.len() && pi[k] == i; assert(p1[k] == i); } else { assert(p1[pi.len() as int] == n); } }
}
pub open spec fn front(parts: Seq<RegexPartConfig>, caret: bool, d: RegexAndDFA, js: Seq<Joined>) -> bool {
    &&& js.len() == parts.len() && js.len() > 0 && chain(parts, caret, js) && d.dfa == js.last().net && wf(d.dfa) && composed_lang(js)
    &&& d.substrings.substring_boundaries.is_some() && exists|pi: Seq<int>| #[trigger] published(parts, parts.len() as int, js, pi, d.substrings.substring_ranges@, d.substrings.substring_boundaries.unwrap()@)
}
// the patterns of the parts one after the other
pub open spec fn all_patterns(parts: Seq<RegexPartConfig>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { all_patterns(parts, n - 1) + parts[n - 1].regex_def@ } }
pub proof fn one_state(g: DFAGraph)
    requires wf(g), some_string(g), g.states@.len() == 1
    ensures acc(g.states@[0])
{ let s = choose|s: Seq<u8>| #[trigger] accepts(g, s); let w = accepts_by(g, s); }
pub proof fn part_wf(p: RegexPartConfig, first: bool, g: DFAGraph)
    requires part_auto(p, first, g), g.states@.len() >= 2 || some_string(g), first && p.regex_def@ != CARET() ==> wf(g)
    ensures wf(g)
{ if first && p.regex_def@ == CARET() { simple_caret_wf(g); } }
// a composition of one state accepts
pub open spec fn single_acc(g: DFAGraph) -> bool { g.states@.len() == 1 ==> acc(g.states@[0]) }
pub proof fn joined_one(net: DFAGraph, g: DFAGraph, h: DFAGraph, r: DFAGraph)
    requires wf(g), single_acc(g), if net.states@.len() == 0 { shifted(g, h, 0) && r == h } else { extended(net, g, h, r) && single_acc(net) }
    ensures single_acc(r)
{
    if r.states@.len() == 1 {
        assert(h.states@[0].state_type == g.states@[0].state_type);
        if net.states@.len() > 0 { assert(net.states@.len() == 1 && g.states@.len() == 1); assert(merged(net.states@[0], h.states@[0], r.states@[0])); }
    }
}
pub proof fn published_empty(parts: Seq<RegexPartConfig>, js: Seq<Joined>)
    ensures published(parts, 0, js, Seq::<int>::empty(), Seq::<VSet<(usize, usize)>>::empty(), Seq::<(VSet<usize>, VSet<usize>)>::empty())
{ reveal(published); }
pub proof fn chain_empty(parts: Seq<RegexPartConfig>, caret: bool) ensures chain(parts, caret, Seq::<Joined>::empty()) { reveal(chain); }
// the result of composing the parts p0: the parts p1 they become, with the anchor in a part of its own, and what is composed of them
pub open spec fn front_end(p0: Seq<RegexPartConfig>, p1: Seq<RegexPartConfig>, d: RegexAndDFA) -> bool {
    exists|at: Option<usize>, js: Seq<Joined>| caret_split(p0, at, p1) && #[trigger] front(p1, at.is_some(), d, js)
}
// parts that must compile: without the anchor, each matches something, none ends in a $ but the last
pub open spec fn plain_parts(p: Seq<RegexPartConfig>) -> bool {
    &&& p.len() > 0 && caret_idx(p[0].regex_def@).is_none()
    &&& forall|i: int| 0 <= i < p.len() ==> re_valid(whole((#[trigger] p[i]).regex_def@)) && (exists|s: Seq<u8>| #[trigger] re_lang(p[i].regex_def@, s)) && (i < p.len() - 1 ==> !end_anchored(p[i].regex_def@))
}
// the set of the transitions given in a list
pub open spec fn same_range(v: Seq<(usize, usize)>, r: VSet<(usize, usize)>) -> bool { forall|x: (usize, usize)| #[trigger] r@.contains(x) <==> v.contains(x) }
pub open spec fn same_ranges(v: Seq<Vec<(usize, usize)>>, r: Seq<VSet<(usize, usize)>>) -> bool { v.len() == r.len() && forall|k: int| 0 <= k < v.len() ==> same_range((#[trigger] v[k])@, r[k]) }

// ---------- C10: what every witness of the whole text reveals ----------
// s: the text of the generator, t: the text of the substring constraints, both of the same automaton
pub proof fn C10_reveal(s: VString, t: VString, r: RegexAndDFA, name: Seq<u8>, w: Wit, n: int, a: int, k: int)
    requires is_allstr(s, r.dfa, name, r.has_end_anchor), is_substrs(t, r), !has_newline(name), 0 <= n <= u64::MAX, csat(s.ls() + t.ls(), w, n), wf(r.dfa), r.dfa.states@.len() <= usize::MAX,
        only_acc(r.dfa, a), a != 0, 0 <= k < r.substrings.substring_ranges@.len(), set_fits(r.dfa, r.substrings.substring_ranges@[k]@),
    ensures reveals(r.dfa, w, n, a, r.has_end_anchor, k, r.substrings.substring_ranges@[k]@)
{
    let g = r.dfa; let ea = r.has_end_anchor; let rs = r.substrings.substring_ranges@;
    reveal(is_allstr); reveal(is_substrs); reveal(subs_ok);
    let x = choose|x: int| #[trigger] only_acc(g, x) && (!has_newline(name) ==> circuit_text(s.ls(), g, ea, x)); assert(x == a);
    let y = choose|y: int| first_acc(g.states@, y) && #[trigger] subs_ok(t.ls(), y, rs, rs.len() as int); assert(acc(g.states@[y])); assert(y == a);
    csat_add(s.ls(), t.ls(), w, n);
    assert(circuit_of(g, ea, a, w, n));
    assert(subw(w, n, a, rs, rs.len() as int));
    assert(rev_of(w, n, k, rs[k]@));
    let q = choose|q: Seq<(usize, usize)>| same_set(q, rs[k]@) && #[trigger] revw(w, n, k, q);
    reveal_ok(g, w, n, a, ea, k, q, rs[k]@);
}

// ---------- anchors in a pattern ----------
// where the first caret that is an anchor (not escaped, not in a character class) ends: right after it when it is outside of all
// groups, otherwise after the outermost group around it (or at the end of a pattern whose groups do not close)
pub open spec fn caret_end(s: Seq<u8>, i: int, groups: int, classes: int, found: bool) -> Option<int> decreases s.len() + 2 - i {
    if i < 0 || i >= s.len() { if found { Some(s.len() as int) } else { None } }
    else if s[i] == 92 { caret_end(s, i + 2, groups, classes, found) }
    else if s[i] == 91 {
        let j = if i + 1 < s.len() && s[i + 1] == 94 { i + 2 } else { i + 1 };
        let k = if j < s.len() && s[j] == 93 { j + 1 } else { j };
        caret_end(s, k, groups, classes + 1, found)
    }
    else if s[i] == 93 && classes > 0 { caret_end(s, i + 1, groups, classes - 1, found) }
    else if s[i] == 40 && classes == 0 { caret_end(s, i + 1, groups + 1, classes, found) }
    else if s[i] == 41 && classes == 0 {
        let g = if groups > 0 { groups - 1 } else { 0 };
        if found && g == 0 { Some(i + 1) } else { caret_end(s, i + 1, g, classes, found) }
    }
    else if s[i] == 94 && classes == 0 { if groups == 0 { Some(i + 1) } else { caret_end(s, i + 1, groups, classes, true) } }
    else { caret_end(s, i + 1, groups, classes, found) }
}
pub open spec fn caret_idx(s: Seq<u8>) -> Option<int> { caret_end(s, 0, 0, 0, false) }
// how many backslashes a text ends with
pub open spec fn tail_backslashes(s: Seq<u8>) -> nat decreases s.len() { if s.len() > 0 && s.last() == 92 { 1 + tail_backslashes(s.drop_last()) } else { 0 } }
// the text ends with a dollar sign that is not escaped
pub open spec fn end_anchored(s: Seq<u8>) -> bool { s.len() > 0 && s.last() == 36 && tail_backslashes(s.drop_last()) % 2 == 0 }
pub proof fn lemma_tail(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), forall|q: int| s.len() - n <= q < s.len() ==> #[trigger] s[q] == 92, n == s.len() || s[s.len() - n - 1] != 92
    ensures tail_backslashes(s) == n
    decreases s.len()
{ if n > 0 { assert(s[s.len() - 1] == 92); lemma_tail(s.drop_last(), n - 1); } else if s.len() > 0 { assert(s.last() == s[s.len() - 0 - 1]); } }
// the pattern up to the end of the anchor becomes a private part of its own in front; nothing else changes
pub open spec fn caret_split(before: Seq<RegexPartConfig>, at: Option<usize>, after: Seq<RegexPartConfig>) -> bool {
    match at {
        None => caret_idx(before[0].regex_def@).is_none() && after == before,
        Some(i) => caret_idx(before[0].regex_def@) == Some(i as int) && after.len() == before.len() + 1
            && !after[0].is_public && after[0].regex_def@ == before[0].regex_def@.subrange(0, i as int)
            && after[1].is_public == before[0].is_public && after[1].regex_def@ == before[0].regex_def@.subrange(i as int, before[0].regex_def@.len() as int)
            && forall|j: int| 2 <= j < after.len() ==> #[trigger] after[j] == before[j - 1],
    }
}

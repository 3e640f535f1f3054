fn find_caret_index
theory anchor
props C07 C14
ens
    match vx_r { Some(i) => caret_idx(regex@) == Some(i as int) && 0 < i <= regex@.len() && is_bound(regex@, i as int), None => caret_idx(regex@).is_none() },
at loop0.inv
    except_break
        caret_idx(regex@) == caret_end(regex@, idx as int, parenthesis_depth as int, class_depth as int, caret_found),
        caret_found ==> parenthesis_depth > 0,
    always
        regex_bytes@ == regex@ && regex_bytes@.len() <= 0x7fff_ffff_ffff_ffff,
        idx <= regex_bytes@.len() + 2 && parenthesis_depth <= idx && class_depth <= idx,
        caret_found ==> idx > 0,
    ensures
        caret_found ==> caret_idx(regex@) == Some(if idx <= regex@.len() { idx as int } else { regex@.len() as int }) && (idx >= regex@.len() || (idx > 0 && regex@[idx - 1] < 128)),
        !caret_found ==> caret_idx(regex@).is_none(),
    decreases regex_bytes@.len() + 2 - idx
at loop0.start
    proof { reveal_with_fuel(caret_end, 2); }
at loop0.after
    proof { if caret_found && idx < regex@.len() { axiom_utf8(*regex, idx - 1); } }
fn process_caret_in_regex
theory anchor
props C07 C14
ens
    old(decomposed_regex).parts@.len() == 0 ==> vx_r.is_err(),
    old(decomposed_regex).parts@.len() > 0 ==> vx_r.is_ok(),
    vx_r.is_ok() ==> caret_split(old(decomposed_regex).parts@, vx_r.unwrap(), final(decomposed_regex).parts@),
fn ends_with_end_anchor
theory anchor
props C07
ens
    vx_r == end_anchored(regex@),
at loop0.inv
    except_break
        vx_acc1 == vx_i0,
    always
        rest@ == regex@.drop_last() && vx_it0@ == rest@.reverse(),
        vx_acc1 <= vx_i0,
        forall|q: int| 0 <= q < vx_acc1 ==> #[trigger] vx_it0@[q] == 92,
    ensures
        vx_acc1 == vx_it0.len() || vx_it0@[vx_acc1 as int] != 92,
at loop0.after
    proof {
        let s = rest@;
        assert forall|q: int| s.len() - vx_acc1 <= q < s.len() implies #[trigger] s[q] == 92 by { assert(vx_it0@[s.len() - 1 - q] == s[q]); }
        if vx_acc1 < s.len() { assert(vx_it0@[vx_acc1 as int] == s[s.len() - vx_acc1 - 1]); }
        lemma_tail(s, vx_acc1 as int);
    }
fn validate_end_anchor
theory anchor
props C07 C14
req
    idx < decomposed_regex.parts@.len(),
ens
    end_anchored(regex.regex_def@) && idx != decomposed_regex.parts@.len() - 1 ==> vx_r.is_err(),
    !(end_anchored(regex.regex_def@) && idx != decomposed_regex.parts@.len() - 1) ==> vx_r.is_ok() && vx_r.unwrap() == end_anchored(regex.regex_def@),

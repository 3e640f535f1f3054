fn write_consecutive_logic
theory graph circ scan sub
props C10 C14
ens
    cons_ok(vx_r.ls(), accepted_state as int),
    vx_r@.len() > 0 && vx_r@[0] == 10 && vx_r@.last() == 10,
at fn.end
    proof {
        let a = accepted_state as int; let v = vx_ret.ls();
        assert(v.len() == 7);
        assert forall|w: Wit, n: int, i: int| #[trigger] lsat(v[3], w, n, i) && lsat(v[4], w, n, i) && lsat(v[5], w, n, i) implies consi(w, n, a, n - 1 - i) by {}
        cons_new(v, a);
    }
fn write_prev_states
theory graph circ scan sub
props C10 C14
ens
    prev_lines(vx_r.ls(), idx as int, derefs(ranges@), ranges@.len() as int),
    vx_r@.len() == 0 || vx_r@.last() == 10,
at loop0.inv
    seq_refs(vx_it0@, ranges@),
    prev_lines(prev_states.ls(), idx as int, derefs(ranges@), vx_i0 as int),
    prev_states@.len() == 0 || prev_states@.last() == 10,
fn write_is_substr
theory graph circ scan sub
props C10 C14
ens
    vx_r.ls().len() == 1 && sub_line(vx_r.ls()[0], idx as int, derefs(ranges@)),
    vx_r@.len() > 0 && vx_r@.last() == 10,
at loop0.inv
    seq_refs(vx_it0@, ranges@),
    vx_acc1@.len() == vx_i0,
    all_single(vx_acc1@),
    forall|t: int, w: Wit, n: int, i: int| #![trigger xval(vx_acc1@[t], w, n, i)] 0 <= t < vx_acc1@.len() ==> xval(vx_acc1@[t], w, n, i) == seq![fe(mu(sg(w, 11, idx as int, t, i), sg(w, 1, 0, i + 2, ranges@[t].1 as int)))],
at fn.start
    let ghost mut vx_xs = Seq::<VString>::empty();
at loop0.after
    proof { vx_xs = vx_acc1@; }
at fn.end
    proof {
        let rs = derefs(ranges@);
        assert(ranges.len() == ranges@.len());
        assert forall|w: Wit, n: int, i: int| #[trigger] xvals(vx_xs, w, n, i) == nextv(w, idx as int, i, rs) by { assert(xvals(vx_xs, w, n, i) =~= nextv(w, idx as int, i, rs)); }
    }
fn write_is_reveal_and_reveal
theory graph circ scan sub
props C10 C14
ens
    vx_r.ls().len() == 2 && rev_line1(vx_r.ls()[0], idx as int) && rev_line2(vx_r.ls()[1], idx as int),
    vx_r@.len() > 0 && vx_r@.last() == 10,
fn sort_ranges
theory graph circ scan sub
props C10 C14
ens
    same_elems(derefs(vx_r@), ranges@),
at loop0.inv
    seq_refs(vx_it0@, ranges@),
    vx_acc1@ == vx_it0@.take(vx_i0 as int),
at fn.end
    proof {
        let a = derefs(vx_ret@);
        assert forall|x: (usize, usize)| #[trigger] a.contains(x) == ranges@.contains(x) by {
            if a.contains(x) { let q = choose|q: int| 0 <= q < a.len() && a[q] == x; assert(vx_s0.contains(vx_ret@[q])); let t = choose|t: int| 0 <= t < vx_s0.len() && vx_s0[t] == vx_ret@[q]; assert(ranges@[t] == x); }
            if ranges@.contains(x) { let t = choose|t: int| 0 <= t < ranges@.len() && ranges@[t] == x; assert(vx_s0.contains(vx_s0[t])); assert(vx_ret@.contains(vx_s0[t])); let q = choose|q: int| 0 <= q < vx_ret@.len() && vx_ret@[q] == vx_s0[t]; assert(a[q] == x); }
        }
    }
at loop0.after
    proof { vx_s0 = vx_acc1@; }
at fn.start
    let ghost mut vx_s0 = Seq::<&(usize, usize)>::empty();
fn write_substr_logic
theory graph circ scan sub
props C10 C14
ens
    exists|rs: Seq<(usize, usize)>| same_elems(rs, ranges@) && #[trigger] rev_ok(vx_r.ls(), idx as int, rs),
    vx_r@.len() > 0 && vx_r@.last() == 10,
at fn.start
    proof { dec_plain(idx as int); }
at fn.end
    proof {
        let v = vx_ret.ls(); let rs = derefs(sorted_ranges@); let m = rs.len() as int; let ix = idx as int;
        assert(v.len() == m + 10);
        assert(kind(v[0]) == 0 && kind(v[1]) == 0 && kind(v[2]) == 0 && kind(v[3]) == 0 && kind(v[4]) == 2 && kind(v[5]) == 0);
        assert(sub_line(v[6 + m], ix, rs) && rev_line1(v[7 + m], ix) && rev_line2(v[8 + m], ix) && kind(v[9 + m]) == 3);
        assert forall|t: int| 0 <= t < m implies prev_line(#[trigger] v[6 + t], ix, t, rs[t].0 as int) by {}
        let ps = Seq::new(m as nat, |t: int| v[6 + t]);
        assert forall|t: int| 0 <= t < m implies prev_line(#[trigger] ps[t], ix, t, rs[t].0 as int) by { assert(prev_line(v[6 + t], ix, t, rs[t].0 as int)); }
        assert(v.last() == v[9 + m]);
        assert forall|q: int| 0 <= q < 4 implies #[trigger] flat_at(v, q) by { assert(q == 0 || q == 1 || q == 2 || q == 3); }
        assert forall|q: int| 4 < q < v.len() - 1 implies #[trigger] flat_at(v, q) by { if 6 <= q < 6 + m { assert(prev_line(v[6 + (q - 6)], ix, q - 6, rs[q - 6].0 as int)); } else { assert(q == 5 || q == 6 + m || q == 7 + m || q == 8 + m); } }
        assert(looped(v, 4));
        rev_new(v, 4, 6, ix, rs, ps);
    }
fn add_substrs_constraints
theory graph circ scan sub
props C10 C14
ens
    vx_r.is_ok() ==> is_substrs(vx_r.unwrap(), *regex_dfa) && made_substrs(vx_r.unwrap(), *regex_dfa) && vx_r.unwrap()@.len() > 0 && vx_r.unwrap()@[0] == 10,
at loop0.inv
    seq_refs(vx_it0@, regex_dfa.substrings.substring_ranges@),
    circom@.len() > 0 && circom@[0] == 10 && circom@.last() == 10,
    subs_ok(circom.ls(), accepted_state as int, regex_dfa.substrings.substring_ranges@, vx_i0 as int),
at loop0.start
    let ghost vx_u = circom.ls();
    let ghost vx_rg = regex_dfa.substrings.substring_ranges@;
at loop1.inv
    set_refs(vx_it1@, ranges@),
    vx_acc2@.len() == vx_i1,
    forall|q: int| 0 <= q < vx_i1 ==> #[trigger] vx_acc2@[q] == *vx_it1@[q],
at loop1.after
    proof { vx_rs = vx_acc2@; vx_it = vx_it1@; }
at fn.start
    let ghost mut vx_rs = Seq::<(usize, usize)>::empty();
    let ghost mut vx_it = Seq::<&(usize, usize)>::empty();
at loop0.after
    let ghost vx_w = circom.ls();
at call.write_consecutive_logic.0.after
    let ghost vx_c0 = circom.ls();
    proof { add_none(); assert(cons_ok(vx_c0, accepted_state as int)); }
at loop0.before
    proof { assert(circom.ls() =~= vx_c0 + seq![circom.ls().last()]); subs_none(vx_c0, circom.ls(), accepted_state as int, regex_dfa.substrings.substring_ranges@, circom.ls().last()); }
at loop0.end
    proof {
        let (rs, t) = choose|rs: Seq<(usize, usize)>, t: VString| same_elems(rs, vx_rs) && #[trigger] rev_ok(t.ls(), idx as int, rs) && circom.ls() == vx_u + t.ls();
        assert(same_set(rs, ranges@)) by {
            assert forall|x: (usize, usize)| #[trigger] rs.contains(x) == ranges@.contains(x) by {
                if rs.contains(x) { assert(vx_rs.contains(x)); let q = choose|q: int| 0 <= q < vx_rs.len() && vx_rs[q] == x; assert(*vx_it[q] == x); }
                if ranges@.contains(x) { let q = choose|q: int| 0 <= q < vx_it.len() && *(#[trigger] vx_it[q]) == x; assert(vx_rs[q] == x); assert(vx_rs.contains(x)); }
            }
        }
        subs_step(vx_u, t.ls(), accepted_state as int, vx_rg, idx as int, rs);
    }
at fn.end
    proof {
        let v = vx_ret.unwrap().ls(); let r = regex_dfa.substrings.substring_ranges@;
        subs_close(vx_w, accepted_state as int, r, r.len() as int, v.last()); assert(v =~= vx_w + seq![v.last()]);
        assert(first_acc(regex_dfa.dfa.states@, accepted_state as int));
        reveal(is_substrs);
        assume(made_substrs(vx_ret.unwrap(), *regex_dfa));
    }

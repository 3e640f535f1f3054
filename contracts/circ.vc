fn add_eq_check
theory graph circ
props C08 C09 C10 C14
req
    eqs_ok(old(lines)@, old(eq_checks)@),
    code != 0,
    *old(eq_i) <= old(lines)@.len(),
ens
    grow(old(lines)@, final(lines)@),
    eqs_ok(final(lines)@, final(eq_checks)@),
    *final(eq_i) <= final(lines)@.len(),
    gm(final(lines)@, 21, vx_r as int, code as int, code as int),
at fn.start
    proof { axiom_lines(*lines); }
at call.push.2.after
    let ghost vx_l = lines@;
    proof {
        let q = old(lines)@.len() as int;
        assert(grow(old(lines)@, lines@));
        assert(lines.len() == lines@.len());
        eq_new(lines@, q, *eq_i as int, code as int);
        eqs_ext(old(lines)@, lines@, eq_checks@);
    }
fn add_range_check
theory graph circ
props C08 C09 C10 C14
req
    rcs_ok(old(lines)@, old(range_checks)@),
    1 <= min <= max,
    *old(lt_i) <= old(lines)@.len(),
    *old(and_i) <= old(lines)@.len(),
ens
    grow(old(lines)@, final(lines)@),
    rcs_ok(final(lines)@, final(range_checks)@),
    *final(lt_i) <= final(lines)@.len(),
    *final(and_i) <= final(lines)@.len(),
    final(eq_outputs)@.len() == old(eq_outputs)@.len() + 1,
    final(eq_outputs)@.drop_last() == old(eq_outputs)@,
    isname(*final(eq_outputs)@.last().0),
    gm(final(lines)@, nm(*final(eq_outputs)@.last().0), final(eq_outputs)@.last().1 as int, min as int, max as int),
at fn.start
    proof { axiom_lines(*lines); }
at call.push.4.before
    proof { assert(lines.len() == lines@.len()); }
at call.push.9.after
    let ghost vx_q = old(lines)@.len() as int;
    proof {
        assert(grow(old(lines)@, lines@));
        assert(lines.len() == lines@.len());
        rng_new(lines@, vx_q, *lt_i as int, *and_i as int, min as int, max as int);
        rcs_ext(old(lines)@, lines@, range_checks@);
    }
fn add_state_transition
theory graph circ
props C08 C09 C10 C14
req
    named(eq_outputs@),
    eq_outputs@.len() > 0,
    m1_ok(old(lines)@, old(multi_or_checks1)@),
    old(zero_starting_and_idxes)@.contains_key(i),
    *old(and_i) <= old(lines)@.len(),
    *old(multi_or_i) <= old(lines)@.len(),
ens
    grow(old(lines)@, final(lines)@),
    m1_ok(final(lines)@, final(multi_or_checks1)@),
    *final(and_i) == *old(and_i) + 1,
    *final(and_i) <= final(lines)@.len(),
    *final(multi_or_i) <= final(lines)@.len(),
    zero_noted(old(zero_starting_and_idxes)@, final(zero_starting_and_idxes)@, i, prev_i, *old(and_i)),
    forall|k: Seq<u8>| #[trigger] hits1(old(lines)@, eq_outputs@, k) ==> tm(final(lines)@, *old(and_i) as int, prev_i as int, k),
at fn.start
    proof { axiom_lines(*lines); }
    let ghost vx_q = lines@.len() as int;
at call.push.1.after
    let ghost vx_l2 = lines@;
at call.push.2.after
    proof { tmb_one(lines@, vx_q + 2, *and_i as int, eq_outputs@); m1_ext(old(lines)@, lines@, multi_or_checks1@); assert(lines.len() == lines@.len()); }
at call.push.4.after
    proof { assert(lines.len() == lines@.len()); tmb_or(old(lines)@, lines@, vx_q + 2, *and_i as int, multi_or_index as int, eq_outputs_key, eq_outputs@); m1_ext(old(lines)@, lines@, multi_or_checks1@); }
at loop0.inv
    lines@.len() == vx_q + 3 + vx_i0,
    grow(old(lines)@, lines@),
    seq_refs(vx_it0@, eq_outputs@),
    ext(vx_l2, lines@),
    kind(lines@[vx_q + 2]) == 1,
    forall|w: Wit, n: int, i: int| #[trigger] lsat(lines@[vx_q + 2], w, n, i) == or_gate(w, 24, *multi_or_i as int, i, eq_outputs@.len() as int),
    inputs1(lines@, vx_q + 2, *multi_or_i as int, eq_outputs@, vx_i0 as int),
at loop0.start
    let ghost vx_lb = lines@;
at loop0.end
    proof {
        assert(ext(vx_lb, lines@));
        assert(input1(lines@[vx_q + 2 + vx_i0], *multi_or_i as int, vx_i0 - 1, eq_outputs@[vx_i0 - 1]));
        assert forall|t: int| #![trigger lines@[vx_q + 2 + 1 + t]] 0 <= t < vx_i0 implies input1(lines@[vx_q + 2 + 1 + t], *multi_or_i as int, t, eq_outputs@[t]) by { if t < vx_i0 - 1 { assert(lines@[vx_q + 2 + 1 + t] == vx_lb[vx_q + 2 + 1 + t]); } }
    }
at loop0.after
    let ghost vx_l3 = lines@;
    proof { or1_new(lines@, vx_q + 2, *multi_or_i as int, eq_outputs_key, eq_outputs@); m1_ext(old(lines)@, lines@, multi_or_checks1@); }
at call.push.7.after
    proof {
        assert(ext(vx_l3, lines@)); assert(lines.len() == lines@.len());
        tmb_or(vx_l3, lines@, lines@.len() - 1, *and_i as int, *multi_or_i as int, eq_outputs_key, eq_outputs@);
        m1_ext(vx_l3, lines@, multi_or_checks1@.insert(eq_outputs_key, *multi_or_i));
    }
at fn.end
    proof { assert(zero_starting_and_idxes@.dom() =~= old(zero_starting_and_idxes)@.dom()); tm_new(old(lines)@, lines@, vx_q, *old(and_i) as int, prev_i as int, eq_outputs@); }
fn add_multi_or_gate
theory graph circ
props C08 C09 C10 C14
req
    isname(*state_var),
ens
    grow(old(lines)@, final(lines)@),
    final(lines)@.len() >= old(lines)@.len() + 2,
    *final(multi_or_i) == *old(multi_or_i),
    oro(final(lines)@, *old(multi_or_i) as int, outputs@),
    upd(final(lines)@, nm(*state_var), i as int, outputs@),
at fn.start
    proof { axiom_lines(*lines); }
    let ghost vx_q = lines@.len() as int;
at loop0.inv
    lines@.len() == vx_q + 1 + vx_i0,
    grow(old(lines)@, lines@),
    seq_refs(vx_it0@, outputs@),
    kind(lines@[vx_q]) == 1,
    forall|w: Wit, n: int, i: int| #[trigger] lsat(lines@[vx_q], w, n, i) == or_gate(w, 24, *multi_or_i as int, i, outputs@.len() as int),
    inputs2(lines@, vx_q, *multi_or_i as int, outputs@, vx_i0 as int),
at loop0.start
    let ghost vx_lb = lines@;
at loop0.end
    proof {
        assert(ext(vx_lb, lines@));
        assert(input2(lines@[vx_q + vx_i0], *multi_or_i as int, vx_i0 - 1, outputs@[vx_i0 - 1]));
        assert forall|t: int| #![trigger lines@[vx_q + 1 + t]] 0 <= t < vx_i0 implies input2(lines@[vx_q + 1 + t], *multi_or_i as int, t, outputs@[t]) by { if t < vx_i0 - 1 { assert(lines@[vx_q + 1 + t] == vx_lb[vx_q + 1 + t]); } }
    }
at loop0.after
    let ghost vx_l3 = lines@;
    proof { oro_new(lines@, vx_q, *multi_or_i as int, outputs@); }
at fn.end
    proof { upd_or(vx_l3, lines@, lines@.len() - 1, nm(*state_var), i as int, *multi_or_i as int, outputs@); reveal(oro); sat_ext(vx_l3, lines@); }
fn add_state_update
theory graph circ
props C08 C09 C10 C14
req
    m2_ok(old(lines)@, old(multi_or_checks2)@),
    *old(multi_or_i) <= old(lines)@.len(),
ens
    grow(old(lines)@, final(lines)@),
    m2_ok(final(lines)@, final(multi_or_checks2)@),
    *final(multi_or_i) <= final(lines)@.len(),
    upd(final(lines)@, if zero_starting_states@.contains(i) { 2 } else { 1 }, i as int, outputs@),
at fn.start
    proof { axiom_lines(*lines); }
at match0.arm0.start
    proof { assert(isname(*state_var)); }
at fn.end
    proof {
        assert(lines.len() == lines@.len());
        let q = old(lines)@.len() as int; let name = nm(*state_var);
        if outputs@.len() == 0 { upd_none(lines@, q, name, i as int, outputs@); m2_ext(old(lines)@, lines@, old(multi_or_checks2)@); }
        else if outputs@.len() == 1 { upd_one(lines@, q, name, i as int, outputs@); m2_ext(old(lines)@, lines@, old(multi_or_checks2)@); }
    }
at if1.then.end
    proof { upd_or(old(lines)@, lines@, old(lines)@.len() as int, nm(*state_var), i as int, multi_or_index as int, outputs@); m2_ext(old(lines)@, lines@, old(multi_or_checks2)@); }
at if1.else.end
    proof { m2_ext(old(lines)@, lines@, old(multi_or_checks2)@); }
at call.add_multi_or_gate.0.after
    proof { assert(lines.len() == lines@.len()); }
fn add_from_zero_enabled
theory graph circ
props C08 C09 C10 C14
req
    state_len >= 1,
ens
    grow(old(lines)@, final(lines)@),
    fz_ok(final(lines)@, zero_starting_states@, state_len as int),
at loop0.inv
    1 <= vx_i0 <= state_len,
    vx_acc1@.len() == vx_i0 - 1,
    all_single(vx_acc1@),
    forall|t: int, w: Wit, n: int, i: int| #![trigger xval(vx_acc1@[t], w, n, i)] 0 <= t < vx_acc1@.len() ==> xval(vx_acc1@[t], w, n, i) == seq![sg(w, stn(zero_starting_states@, t + 1), 0, i + 1, t + 1)],
    decreases state_len - vx_i0
at fn.start
    let ghost mut vx_xs = Seq::<VString>::empty();
at loop0.after
    proof { vx_xs = vx_acc1@; }
at fn.end
    proof { fz_new(lines@, old(lines)@.len() as int, zero_starting_states@, state_len as int, vx_xs); }
fn add_zero_starting_state_updates
theory graph circ
props C08 C09 C10 C14
req
    forall|j: usize| #[trigger] zero_starting_and_idxes@.contains_key(j) ==> zero_starting_and_idxes@[j]@.len() < usize::MAX,
ens
    grow(old(lines)@, final(lines)@),
    forall|j: usize| #[trigger] zero_starting_and_idxes@.contains_key(j) ==> zus(final(lines)@, zero_starting_and_idxes@, j),
at fn.start
    let ghost mut vx_xs = Seq::<VString>::empty();
at loop0.inv
    grow(old(lines)@, lines@),
    map_refs(vx_it0@, zero_starting_and_idxes@),
    forall|q: int| 0 <= q < vx_i0 ==> zus(lines@, zero_starting_and_idxes@, *(#[trigger] vx_it0@[q]).0),
at loop0.start
    let ghost vx_lb = lines@;
at loop1.inv
    seq_refs(vx_it1@, vec@),
    vx_acc1@.len() == vx_i1,
    all_single(vx_acc1@),
    forall|t: int, w: Wit, n: int, i: int| #![trigger xval(vx_acc1@[t], w, n, i)] 0 <= t < vx_acc1@.len() ==> xval(vx_acc1@[t], w, n, i) == seq![fe(mu(sg(w, 3, 0, i, 0), pt(w, 23, vec@[t] as int, i, 3, 0)))],
at loop1.after
    proof { vx_xs = vx_acc1@; }
at call.push.0.after
    proof {
        zu_new(lines@, lines@.len() - 1, *i as int, vec@, vx_xs);
        assert forall|q: int| 0 <= q < vx_i0 implies zus(lines@, zero_starting_and_idxes@, *(#[trigger] vx_it0@[q]).0) by { let j = *vx_it0@[q].0; if q < vx_i0 - 1 && zero_starting_and_idxes@[j]@.len() > 0 { zu_ext(vx_lb, lines@, j as int, zero_starting_and_idxes@[j]@); } }
    }
fn add_state_changed_updates
theory graph circ
props C08 C09 C10 C14
req
    state_len >= 1,
ens
    grow(old(lines)@, final(lines)@),
    final(lines)@.len() == old(lines)@.len() + state_len - 1,
    sc_ins(final(lines)@, old(lines)@.len() as int, state_len - 1),
at loop0.inv
    1 <= vx_i0 <= state_len,
    grow(old(lines)@, lines@),
    lines@.len() == old(lines)@.len() + vx_i0 - 1,
    sc_ins(lines@, old(lines)@.len() as int, vx_i0 - 1),
    decreases state_len - vx_i0
at loop0.start
    let ghost vx_lb = lines@;
at loop0.end
    proof {
        let a = old(lines)@.len() as int;
        assert forall|q: int| #![trigger lines@[a + q]] 0 <= q < vx_i0 - 1 implies sc_in(lines@[a + q], q) by { if q < vx_i0 - 2 { assert(lines@[a + q] == vx_lb[a + q]); } }
    }
fn optimize_char_ranges
theory graph circ
props C08 C09 C10 C14 C11
req
    nondec(k@),
ens
    rngs_in(vx_r.0@, k@),
    forall|v: u8| #[trigger] k@.contains(v) ==> inr(v as int, vx_r.0@, vx_r.0@.len() as int) || vx_r.1@.contains(v),
    forall|v: u8| #[trigger] vx_r.1@.contains(v) ==> k@.contains(v),
at loop0.inv
    seq_refs(vx_it0@, k@),
    forall|v: u8| #[trigger] vx_acc1@.contains(v) == has_n(k@, vx_i0 as int, v),
at loop0.end
    proof { has_n_step(k@, vx_i0 - 1); }
at loop0.after
    proof { assert forall|v: u8| #[trigger] k@.contains(v) == has_n(k@, k@.len() as int, v) by {} }
at loop1.inv
    vx_it1@.len() == k@.len() - 1,
    forall|q: int| 0 <= q < vx_it1@.len() ==> *(#[trigger] vx_it1@[q]) == k@[q + 1],
    cur_max == k@[vx_i1 as int],
    rng_in((cur_min, cur_max), k@),
    rngs_in(min_maxes@, k@),
    forall|v: u8| #[trigger] vals@.contains(v) == k@.contains(v),
at loop1.start
    proof { assert(k@.contains(k@[vx_i1 as int])); assert(k@[vx_i1 - 1] <= k@[vx_i1 as int]); }
at loop2.inv
    seq_refs(vx_it2@, min_maxes@),
    rngs_in(min_maxes@, k@),
    forall|v: u8| #[trigger] vals@.contains(v) ==> k@.contains(v),
    forall|v: u8| #[trigger] k@.contains(v) ==> vals@.contains(v) || inr(v as int, min_maxes@, vx_i2 as int),
at loop3.inv
    0 < vx_i2 <= min_maxes@.len(),
    *min == min_maxes@[vx_i2 - 1].0 && *max == min_maxes@[vx_i2 - 1].1,
    forall|q: int| 0 <= q < vx_it3@.len() ==> *min <= #[trigger] vx_it3@[q] <= *max,
    forall|v: u8| #[trigger] vals@.contains(v) ==> k@.contains(v),
    forall|v: u8| #[trigger] k@.contains(v) ==> vals@.contains(v) || inr(v as int, min_maxes@, vx_i2 as int),
at loop3.before
    proof { assert forall|q: int| 0 <= q < vx_it3@.len() implies *min <= #[trigger] vx_it3@[q] <= *max by { assert(vx_it3@[q].vi() == (*min).vi() + q); } }
fn build_reverse_graph
theory graph circ
props C08 C09 C10 C14 C11
req
    dfa_graph.states@.len() == state_len,
    closed(*dfa_graph, 0, state_len as int),
ens
    vx_r.is_ok() == (exists|i: int| 0 <= i < state_len && acc(#[trigger] dfa_graph.states@[i])),
    vx_r.is_ok() ==> rinv(vx_r.unwrap().0@, *dfa_graph),
    vx_r.is_ok() ==> forall|i: usize| #[trigger] vx_r.unwrap().1@.contains(i) == (i < state_len && acc(dfa_graph.states@[i as int])),
at loop0.inv
    0 <= vx_i0 <= state_len,
    rdom(rev_graph@, vx_i0 as int),
    forall|j: usize, p: usize| !(#[trigger] rhas(rev_graph@, j, p)),
    decreases state_len - vx_i0
at loop0.start
    let ghost vx_r0 = rev_graph@;
at loop0.end
    proof { assert forall|j: usize, p: usize| !(#[trigger] rhas(rev_graph@, j, p)) by { if j != i && rev_graph@.contains_key(j) { assert(!(rhas(vx_r0, j, p))); } } }
at loop1.inv
    seq_refs(vx_it1@, dfa_graph.states@),
    rdom(rev_graph@, state_len as int),
    forall|j: usize, p: usize| #[trigger] rhas(rev_graph@, j, p) == (j < state_len && p < vx_i1 && edge(tr(*dfa_graph, p as int), j)),
    rsame(rev_graph@, *dfa_graph),
    forall|i: usize| #[trigger] accept_nodes@.contains(i) == (i < vx_i1 && acc(dfa_graph.states@[i as int])),
at loop2.inv
    map_refs(vx_it2@, tr(*dfa_graph, i as int)),
    rdom(rev_graph@, state_len as int),
    forall|j: usize, p: usize| #[trigger] rhas(rev_graph@, j, p) == (j < state_len && ((p < i && edge(tr(*dfa_graph, p as int), j)) || (p == i && kdone(vx_it2@, vx_i2 as int, j)))),
    rsame(rev_graph@, *dfa_graph),
at loop2.start
    let ghost vx_rb = rev_graph@;
    proof { assert(edge(tr(*dfa_graph, i as int), *vx_it2@[vx_i2 - 1].0)); }
at loop2.after
    proof {
        assert forall|j: usize| #[trigger] kdone(vx_it2@, vx_it2@.len() as int, j) == edge(tr(*dfa_graph, i as int), j) by {}
    }
at loop2.end
    proof {
        kdone_step(vx_it2@, vx_i2 - 1);
        assert forall|j: usize, p: usize| #[trigger] rhas(rev_graph@, j, p) == (rhas(vx_rb, j, p) || (j == *k && p == i)) by {}
        assert forall|j: usize, p: usize| #[trigger] rhas(rev_graph@, j, p) implies forall|b: u8| rbytes(rev_graph@, j, p).contains(b) == #[trigger] tr(*dfa_graph, p as int)[j]@.contains(b) by {
            if j == *k && p == i { assert(rbytes(rev_graph@, j, p) == chars@); } else { assert(rhas(vx_rb, j, p)); assert(rbytes(rev_graph@, j, p) == rbytes(vx_rb, j, p)); }
        }
    }
at loop3.before
    let ghost vx_v = Seq::new(vx_it3@.len(), |q: int| *vx_it3@[q]);
at loop3.start
    let ghost vx_ab = vx_acc1@;
at loop3.end
    proof { has_n_step(vx_v, vx_i3 - 1); push_has(vx_ab, *vx_e3); }
at loop3.after
    proof { assert forall|b: u8| #[trigger] vx_acc1@.contains(b) == v@.contains(b) by { if v@.contains(b) { let q = choose|q: int| 0 <= q < vx_it3@.len() && *(#[trigger] vx_it3@[q]) == b; assert(vx_v[q] == b); } } }
at loop1.end
    proof { if acc(*node) { assert(acc(dfa_graph.states@[i as int])); } }
at loop1.after
    proof {
        if exists|i: int| 0 <= i < state_len && acc(#[trigger] dfa_graph.states@[i]) { let i0 = choose|i: int| 0 <= i < state_len && acc(#[trigger] dfa_graph.states@[i]); assert(accept_nodes@.contains(i0 as usize)); }
        if accept_nodes@ != Set::<usize>::empty() { if forall|x: usize| !(#[trigger] accept_nodes@.contains(x)) { assert(accept_nodes@ =~= Set::<usize>::empty()); } }
    }
at loop3.inv
    set_refs(vx_it3@, v@),
    forall|b: u8| #[trigger] vx_acc1@.contains(b) == has_n(vx_v, vx_i3 as int, b),
fn generate_state_transition_logic
theory graph circ
props C08 C09 C10 C14
req
    state_len >= 1,
    forall|j: usize, p: usize| #[trigger] rhas(rev_graph@, j, p) ==> p < state_len,
ens
    block(vx_r.4@),
    forall|n: int| #[trigger] flo(vx_r.4@[0], n) == 0 && fhi(vx_r.4@[0], n) == n + 1,
    step_ok(vx_r.4@, rev_graph@, state_len as int, end_anchor),
at loop0.before
    let ghost vx_h = lines@;
    let ghost vx_rv = rev_graph@;
    let ghost vx_sl = state_len as int;
    proof { assert(lines.len() == lines@.len()); }
at loop0.inv
    1 <= vx_i0 <= state_len,
    grow(vx_h, lines@),
    eqs_ok(lines@, eq_checks@),
    rcs_ok(lines@, range_checks@),
    m1_ok(lines@, multi_or_checks1@),
    m2_ok(lines@, multi_or_checks2@),
    eq_i <= lines@.len(), lt_i <= lines@.len(), and_i <= lines@.len(), multi_or_i <= lines@.len(),
    forall|j: usize| #[trigger] zero_starting_and_idxes@.contains_key(j) == (1 <= j < vx_i0),
    forall|x: usize| #[trigger] zero_starting_states@.contains(x) ==> x < vx_i0,
    forall|j: usize| 1 <= j < vx_i0 ==> #[trigger] stdone(lines@, vx_rv, zero_starting_states@, zero_starting_and_idxes@, vx_sl, j),
    decreases state_len - vx_i0
at loop0.start
    let ghost vx_l0 = lines@;
    let ghost vx_z0 = zero_starting_states@;
    let ghost vx_m0 = zero_starting_and_idxes@;
at loop1.before
    proof { outs_none(lines@, outputs@, vx_it1@, vx_sl); }
at loop1.inv
    ins_of(vx_rv, i, vx_it1@),
    ext(vx_l0, lines@),
    grow(vx_h, lines@),
    eqs_ok(lines@, eq_checks@),
    rcs_ok(lines@, range_checks@),
    m1_ok(lines@, multi_or_checks1@),
    m2_ok(lines@, multi_or_checks2@),
    eq_i <= lines@.len(), lt_i <= lines@.len(), and_i <= lines@.len(), multi_or_i <= lines@.len(),
    forall|j: usize| #[trigger] zero_starting_and_idxes@.contains_key(j) == (1 <= j < vx_i0),
    forall|j: usize| 1 <= j < i ==> #[trigger] zero_starting_and_idxes@[j] == vx_m0[j],
    forall|x: usize| x != i ==> #[trigger] zero_starting_states@.contains(x) == vx_z0.contains(x),
    zero_starting_states@.contains(i) == zq(vx_it1@, vx_i1 as int),
    zero_starting_and_idxes@[i]@.len() == (if zq(vx_it1@, vx_i1 as int) { 1int } else { 0int }),
    zq(vx_it1@, vx_i1 as int) ==> tm(lines@, zero_starting_and_idxes@[i]@[0] as int, 0, rbytes(vx_rv, i, 0)),
    outs_ok(lines@, outputs@, vx_it1@, vx_i1 as int, vx_sl),
at loop1.start
    let ghost vx_l1 = lines@;
    let ghost vx_zz1 = zero_starting_states@;
    let ghost vx_zm1 = zero_starting_and_idxes@;
    let ghost vx_o1 = outputs@;
    proof { zq_step(vx_it1@, vx_i1 - 1); assert(rhas(vx_rv, i, *vx_it1@[vx_i1 - 1].0)); }
at loop2.inv
    seq_refs(vx_it2@, chars@),
    vx_acc2 == forall|q: int| 0 <= q < vx_i2 ==> #[trigger] chars@[q] == 0,
at loop2.after
    proof { if nz(chars@) { let b = choose|b: u8| b != 0 && #[trigger] chars@.contains(b); let q = choose|q: int| 0 <= q < chars@.len() && chars@[q] == b; assert(chars@[q] != 0); }
        if !vx_acc2 { let q = choose|q: int| 0 <= q < chars@.len() && #[trigger] chars@[q] != 0; assert(chars@.contains(chars@[q])); } }
at if1.then.start
    proof { outs_skip(vx_l1, lines@, outputs@, vx_it1@, vx_i1 - 1, vx_sl); }
at loop3.inv
    vx_it3@ == chars@,
    forall|v: u8| #[trigger] vx_x4@.contains(v) == (v != 0 && has_n(chars@, vx_i3 as int, v)),
at loop3.start
    let ghost vx_xb = vx_x4@;
at loop3.end
    proof { has_n_step(chars@, vx_i3 - 1); push_has(vx_xb, vx_e3); }
at call.retain.0.after
    let ghost vx_k0 = k@;
    proof { assert forall|v: u8| #[trigger] k@.contains(v) == (v != 0 && chars@.contains(v)) by {} }
at call.sort.0.after
    proof {
        assert forall|v: u8| #[trigger] k@.contains(v) == (v != 0 && chars@.contains(v)) by { assert(vx_k0.contains(v) == k@.contains(v)); }
        assert(!k@.contains(0u8)); assert(samenz(k@, chars@)); assert(nz(chars@));
        assert(k@.len() > 0) by { let b = choose|b: u8| b != 0 && #[trigger] chars@.contains(b); assert(k@.contains(b)); }
    }
at loop4.before
    proof { hitsg_none(lines@, eq_outputs@, vx_it4@, Seq::<&u8>::empty()); assert(ext(vx_l1, lines@)); }
at loop4.start
    let ghost vx_lb = lines@;
    let ghost vx_eb = eq_outputs@;
    proof { assert(rng_in(vx_it4@[vx_i4 - 1], k@)); assert(k@.contains(vx_it4@[vx_i4 - 1].0)); }
at loop4.end
    proof { eqs_ext(vx_lb, lines@, eq_checks@); hitsg_rng(vx_lb, lines@, vx_eb, eq_outputs@, vx_it4@, vx_i4 - 1, Seq::<&u8>::empty()); }
at loop5.before
    let ghost vx_l4 = lines@;
    proof { hitsg_swap(lines@, eq_outputs@, vx_it4@, vx_it4@.len() as int, Seq::<&u8>::empty(), vx_it5@); }
at loop5.start
    let ghost vx_lb = lines@;
    let ghost vx_eb = eq_outputs@;
    proof { assert(individual_chars@.contains(*vx_it5@[vx_i5 - 1])); }
at loop5.end
    proof { assert(eq_outputs@.drop_last() =~= vx_eb); hitsg_one(vx_lb, lines@, vx_eb, eq_outputs@, vx_it4@, vx_it5@, vx_i5 - 1); }
at call.add_state_transition.0.before
    let ghost vx_lt = lines@;
    let ghost vx_eo = eq_outputs@;
    proof {
        assert(eq_outputs@.len() > 0) by { let v = k@[0]; assert(k@.contains(v)); if individual_chars@.contains(v) { let q = choose|q: int| 0 <= q < vx_it5@.len() && *(#[trigger] vx_it5@[q]) == v; } }
        hits_of(lines@, eq_outputs@, vx_it4@, vx_it5@, individual_chars@, k@);
        rcs_ext(vx_l4, lines@, range_checks@); m1_ext(vx_l1, lines@, multi_or_checks1@);
    }
at call.add_state_transition.0.after
    proof {
        let c = vx_i1 - 1;
        assert(ext(vx_l1, lines@));
        eqs_ext(vx_lt, lines@, eq_checks@); rcs_ext(vx_lt, lines@, range_checks@); m2_ext(vx_l1, lines@, multi_or_checks2@);
        assert(hits1(vx_lt, vx_eo, k@));
        assert(tm(lines@, and_i - 1, *prev_i as int, k@));
        tm_same(lines@, and_i - 1, *prev_i as int, k@, chars@);
        push_hasg(vx_zz1, i);
        assert forall|j: usize| 1 <= j < i implies #[trigger] zero_starting_and_idxes@[j] == vx_m0[j] by { assert(vx_zm1.contains_key(j)); assert(vx_zm1[j] == vx_m0[j]); }
        if *prev_i == 0 {
            zq_once(vx_it1@, if vx_rv.contains_key(i) { vx_rv[i]@ } else { Map::<usize, Vec<u8>>::empty() }, c);
            outs_skip(vx_l1, lines@, outputs@, vx_it1@, c, vx_sl);
            assert(chars@ == rbytes(vx_rv, i, 0));
        } else {
            outs_step(vx_l1, lines@, outputs@, vx_it1@, c, vx_sl, (and_i - 1) as usize, k@);
            if zq(vx_it1@, c) { tm_ext(vx_l1, lines@, zero_starting_and_idxes@[i]@[0] as int, 0, rbytes(vx_rv, i, 0)); }
        }
    }
at call.add_state_update.0.before
    let ghost vx_lu = lines@;
    let ghost vx_ou = outputs@;
at loop0.end
    proof {
        assert(ext(vx_lu, lines@)); assert(ext(vx_l0, lines@));
        eqs_ext(vx_lu, lines@, eq_checks@); rcs_ext(vx_lu, lines@, range_checks@); m1_ext(vx_lu, lines@, multi_or_checks1@);
        cont_new(vx_lu, lines@, vx_rv, stn(zero_starting_states@, i as int), i, vx_sl, vx_ou, vx_it1@);
        if z0(vx_rv, i) { tm_ext(vx_lu, lines@, zero_starting_and_idxes@[i]@[0] as int, 0, rbytes(vx_rv, i, 0)); }
        assert(stdone(lines@, vx_rv, zero_starting_states@, zero_starting_and_idxes@, vx_sl, i));
        assert forall|j: usize| 1 <= j < vx_i0 implies #[trigger] stdone(lines@, vx_rv, zero_starting_states@, zero_starting_and_idxes@, vx_sl, j) by {
            if j < i { assert(stdone(vx_l0, vx_rv, vx_z0, vx_m0, vx_sl, j)); stdone_ext(vx_l0, lines@, vx_rv, vx_z0, zero_starting_states@, vx_m0, zero_starting_and_idxes@, vx_sl, j); }
        }
    }
at loop0.after
    let ghost vx_f0 = lines@;
    proof { assert forall|j: usize| #[trigger] zero_starting_and_idxes@.contains_key(j) implies zero_starting_and_idxes@[j]@.len() < usize::MAX by { assert(stdone(lines@, vx_rv, zero_starting_states@, zero_starting_and_idxes@, vx_sl, j)); } }
at call.add_from_zero_enabled.0.after
    let ghost vx_f1 = lines@;
at call.add_zero_starting_state_updates.0.after
    let ghost vx_f2 = lines@;
at call.add_state_changed_updates.0.after
    let ghost vx_f3 = lines@;
at fn.end
    proof {
        let ls = vx_ret.4@; let zm = zero_starting_and_idxes@;
        assert(ext(vx_f0, ls)); assert(ext(vx_f1, ls)); assert(ext(vx_f2, ls)); assert(ext(vx_f3, ls)); assert(ext(vx_h, ls));
        assert forall|j: usize| #[trigger] zm.contains_key(j) implies zus(ls, zm, j) by { assert(zus(vx_f2, zm, j)); if zm[j]@.len() > 0 { zu_ext(vx_f2, ls, j as int, zm[j]@); } }
        assert(sc_ins(ls, vx_f2.len() as int, vx_sl - 1)) by { assert forall|q: int| #![trigger ls[vx_f2.len() + q]] 0 <= q < vx_sl - 1 implies sc_in(ls[vx_f2.len() + q], q) by { assert(sc_in(vx_f3[vx_f2.len() + q], q)); } }
        assert(ls[0] == vx_h[0] && ls[1] == vx_h[1] && ls[2] == vx_h[2]); if end_anchor { assert(ls[3] == vx_h[3]); }
        step_new(ls, vx_rv, vx_sl, end_anchor, zero_starting_states@, zm, vx_f0, vx_f1, vx_f2.len() as int);
    }
at loop4.inv
    rngs_in(vx_it4@, k@),
    ext(vx_l1, lines@),
    grow(vx_h, lines@),
    eqs_ok(lines@, eq_checks@),
    rcs_ok(lines@, range_checks@),
    lt_i <= lines@.len(), and_i <= lines@.len(),
    eq_i <= lines@.len(), multi_or_i <= lines@.len(),
    eq_outputs@.len() == vx_i4,
    hitsg(lines@, eq_outputs@, vx_it4@, vx_i4 as int, Seq::<&u8>::empty(), 0),
at loop5.inv
    set_refs(vx_it5@, individual_chars@),
    ext(vx_l1, lines@),
    grow(vx_h, lines@),
    ext(vx_l4, lines@),
    eqs_ok(lines@, eq_checks@),
    eq_i <= lines@.len(), lt_i <= lines@.len(), and_i <= lines@.len(), multi_or_i <= lines@.len(),
    eq_outputs@.len() == vx_it4@.len() + vx_i5,
    hitsg(lines@, eq_outputs@, vx_it4@, vx_it4@.len() as int, vx_it5@, vx_i5 as int),
fn generate_declarations
theory graph circ scan
props C08 C09 C10 C14
ens
    !has_newline(template_name@) ==> decl_ok(vx_r@, end_anchor),
at fn.end
    proof {
        let v = vx_ret@;
        if !has_newline(template_name@) {
            reveal(decl_ok);
            let a = 17 + (if eq_i > 0 { 1int } else { 0 }) + (if lt_i > 0 { 1int } else { 0 }) + (if and_i > 0 { 1int } else { 0 }) + (if multi_or_i > 0 { 1int } else { 0 });
            assert(v.len() == a + 6 + (if end_anchor { 2int } else { 0 }));
            assert(plains(v));
            at_start(v); at_run(v, 0, 11); at_step(v, 11); at_step(v, 12); at_step(v, 13); at_step(v, 14); at_step(v, 15); at_run(v, 16, a + 3); at_run(v, a + 3, v.len() as int);
            if end_anchor { at_run(v, 16, a + 7); }
            assert(part_ok(v));
            assert forall|w: Wit, n: int| n >= 0 && #[trigger] csatv(v, w, n) implies declw(w, n, end_anchor) by {
                at_run(v, 0, 10);
                at_stmt(v, w, n, 10); at_stmt(v, w, n, 12); at_stmt(v, w, n, 13); at_stmt(v, w, n, 14); at_stmt(v, w, n, a + 3);
                if end_anchor { at_stmt(v, w, n, a + 7); }
                assert forall|i: int| 0 <= i < n implies #[trigger] byte_in(w, i) by { assert(lsat(v[12], w, n, i)); assert(lsat(v[13], w, n, i)); assert(lsat(v[14], w, n, i)); }
            }
        }
    }
fn generate_init_code
theory graph circ scan
props C08 C09 C10 C14
ens
    init_ok(vx_r@, state_len as int),
at fn.end
    proof {
        let v = vx_ret@;
        reveal(init_ok);
        at_start(v); at_step(v, 0); at_step(v, 1); at_step(v, 2); at_step(v, 3);
        assert forall|w: Wit, n: int| n >= 0 && #[trigger] csatv(v, w, n) implies forall|j: int| 1 <= j < state_len ==> #[trigger] sg(w, 1, 0, 0, j) == 0 by {
            at_stmt(v, w, n, 1);
            assert forall|j: int| 1 <= j < state_len implies #[trigger] sg(w, 1, 0, 0, j) == 0 by { assert(lsat(v[1], w, n, j)); }
        }
    }
fn generate_accept_logic
type vx_acc1 Option<&usize>
theory graph circ scan
props C08 C09 C10 C14
ens
    vx_r.is_ok() ==> exists|a: usize| accept_nodes@ == Set::<usize>::empty().insert(a) && acc_ok(vx_r.unwrap()@, a as int, end_anchor),
    forall|a: usize| accept_nodes@ == #[trigger] Set::<usize>::empty().insert(a) ==> vx_r.is_ok(),
at loop0.inv
    except_break
        vx_i0 == 0 && vx_acc1.is_none(),
    always
        vx_i0 <= vx_it0@.len() && vx_it0@.len() > 0,
        set_refs(vx_it0@, accept_nodes@),
    ensures
        vx_acc1.is_some() && accept_nodes@.contains(*vx_acc1.unwrap()),
    decreases
        vx_it0@.len() - vx_i0
at if0.then.start
    proof { assert forall|a: usize| accept_nodes@ == #[trigger] Set::<usize>::empty().insert(a) implies false by { assert(accept_nodes@.contains(a)); } }
at loop0.before
    proof { assert(vx_it0@.len() > 0) by { if forall|x: usize| !(#[trigger] accept_nodes@.contains(x)) { assert(accept_nodes@ =~= Set::<usize>::empty()); } } }
at fn.end
    proof {
        let v = vx_ret.unwrap()@; let a = accept_node as int; let ea = end_anchor;
        reveal(acc_ok);
        at_start(v); at_run(v, 0, 2); at_step(v, 2); at_step(v, 3); at_step(v, 4);
        if ea { at_run(v, 5, 7); at_step(v, 7); at_step(v, 8); at_step(v, 9); at_step(v, 10); at_step(v, 11); } else { at_step(v, 5); }
        assert(part_ok(v));
        assert forall|w: Wit, n: int| n >= 0 && #[trigger] csatv(v, w, n) implies accw(w, n, a, ea) by {
            at_run(v, 0, 1); at_stmt(v, w, n, 1); at_stmt(v, w, n, 3);
            let ps = ports(w, 26, 0, 0, n + 2); let xs = accs(w, n, a);
            assert forall|i: int| 0 <= i < n + 2 implies ps[i] == xs[i] by { assert(lsat(v[3], w, n, i)); }
            assert(ps =~= xs);
            if ea {
                at_run(v, 5, 6); at_stmt(v, w, n, 6); at_stmt(v, w, n, 8); at_stmt(v, w, n, 9); at_stmt(v, w, n, 11);
                assert forall|i: int| 0 <= i < n + 2 implies #[trigger] eacs(w, n, a, i) by { assert(lsat(v[8], w, n, i)); assert(lsat(v[9], w, n, i)); }
            } else { at_stmt(v, w, n, 5); }
        }
        assert(accept_nodes@ =~= Set::<usize>::empty().insert(accept_node)) by { one_elem(accept_nodes@, accept_node); }
    }
fn gen_circom_allstr
theory graph lang circ scan
props C08 C09 C10 C14
req
    closed(*dfa_graph, 0, dfa_graph.states@.len() as int),
ens
    vx_r.is_ok() ==> is_allstr(vx_r.unwrap(), *dfa_graph, template_name@, end_anchor) && made_allstr(vx_r.unwrap(), *dfa_graph, template_name@, regex_str@, end_anchor),
    forall|a: int| #[trigger] only_acc(*dfa_graph, a) ==> vx_r.is_ok(),
at call.generate_accept_logic.0.before
    proof {
        assert forall|a: int| #[trigger] only_acc(*dfa_graph, a) implies accept_nodes@ == Set::<usize>::empty().insert(a as usize) by {
            assert(accept_nodes@.contains(a as usize));
            assert(accept_nodes@ =~= Set::<usize>::empty().insert(a as usize));
        }
    }
at fn.end
    proof {
        let a = choose|a: usize| accept_nodes@ == Set::<usize>::empty().insert(a) && acc_ok(accept_lines@, a as int, end_anchor);
        assert(accept_nodes@.contains(a));
        assert forall|i: int| 0 <= i < dfa_graph.states@.len() && acc(#[trigger] dfa_graph.states@[i]) implies i == a by { assert(accept_nodes@.contains(i as usize)); }
        assert(dfa_graph.states.len() == dfa_graph.states@.len());
        assert(only_acc(*dfa_graph, a as int));
        let s = vx_ret.unwrap();
        assert(final_code@ =~= declarations@ + init_code@ + lines@ + accept_lines@);
        assert(s.ls() == flat_ls(declarations@ + init_code@ + lines@ + accept_lines@));
        if !has_newline(template_name@) {
            circuit_text_of(declarations@, init_code@, lines@, accept_lines@, rev_graph@, *dfa_graph, a as int, end_anchor);
            assert(circuit_text(s.ls(), *dfa_graph, end_anchor, a as int));
        }
        assert(only_acc(*dfa_graph, a as int) && (!has_newline(template_name@) ==> circuit_text(s.ls(), *dfa_graph, end_anchor, a as int)));
        allstr_of(s, *dfa_graph, template_name@, end_anchor, a as int);
        assume(made_allstr(vx_ret.unwrap(), *dfa_graph, template_name@, regex_str@, end_anchor));
    }

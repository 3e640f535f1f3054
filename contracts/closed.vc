fn add_eq_check
theory graph circ closed
props C11
req
    eqs_lt(old(eq_checks)@, *old(eq_i) as int),
    *old(eq_i) <= old(lines)@.len(),
ens
    eqs_lt(final(eq_checks)@, *final(eq_i) as int),
    vx_r < *final(eq_i),
    *old(eq_i) <= *final(eq_i),
    *final(eq_i) <= final(lines)@.len(),
    old(lines)@.len() <= final(lines)@.len(),
    forall|x: Cnt, y: Cnt, sl: int| x.e == *old(eq_i) && y == (Cnt { e: *final(eq_i), ..x }) ==> #[trigger] step(old(lines)@, final(lines)@, x, y, 0, 0, sl),
at fn.start
    proof { axiom_lines(*lines); assert forall|x: Cnt, sl: int| #[trigger] step(lines@, lines@, x, x, 0, 0, sl) by { step_none(lines@, x, sl); } }
at call.push.0.before
    let ghost vx_p0 = lines@;
at call.push.0.after
    proof { gp(vx_p0, lines@.last()); }
at call.push.1.before
    let ghost vx_p1 = lines@;
at call.push.1.after
    proof { gp(vx_p1, lines@.last()); }
at call.push.2.before
    let ghost vx_p2 = lines@;
at call.push.2.after
    proof { gp(vx_p2, lines@.last());assert(lines.len() == lines@.len()); }
at fn.end
    proof {
        let u = old(lines)@; let v = lines@;
        assert forall|x: Cnt, y: Cnt, sl: int| x.e == *old(eq_i) && y == (Cnt { e: *eq_i, ..x }) implies #[trigger] step(u, v, x, y, 0, 0, sl) by { reveal(step); assert forall|n: int, c: Cell| #[trigger] dok(u, v, x, y, 0, 0, n, c) by {} }
    }
fn add_range_check
theory graph circ closed
props C11
req
    rcs_lt(old(range_checks)@, *old(and_i) as int),
    *old(lt_i) <= old(lines)@.len(),
    *old(and_i) <= old(lines)@.len(),
ens
    rcs_lt(final(range_checks)@, *final(and_i) as int),
    *old(lt_i) <= *final(lt_i) && *old(and_i) <= *final(and_i),
    *final(lt_i) <= final(lines)@.len(),
    *final(and_i) <= final(lines)@.len(),
    final(eq_outputs)@.len() == old(eq_outputs)@.len() + 1,
    final(eq_outputs)@.drop_last() == old(eq_outputs)@,
    isname(*final(eq_outputs)@.last().0) && nm(*final(eq_outputs)@.last().0) == 23 && final(eq_outputs)@.last().1 < *final(and_i),
    old(lines)@.len() <= final(lines)@.len(),
    forall|x: Cnt, y: Cnt, sl: int| x.l == *old(lt_i) && x.a == *old(and_i) && y == (Cnt { l: *final(lt_i), a: *final(and_i), ..x }) ==> #[trigger] step(old(lines)@, final(lines)@, x, y, 0, 0, sl),
at fn.start
    proof { axiom_lines(*lines); assert forall|x: Cnt, sl: int| #[trigger] step(lines@, lines@, x, x, 0, 0, sl) by { step_none(lines@, x, sl); } }
at call.push.1.before
    let ghost vx_p1 = lines@;
at call.push.1.after
    proof { gp(vx_p1, lines@.last()); }
at call.push.2.before
    let ghost vx_p2 = lines@;
at call.push.2.after
    proof { gp(vx_p2, lines@.last()); }
at call.push.3.before
    let ghost vx_p3 = lines@;
at call.push.3.after
    proof { gp(vx_p3, lines@.last()); }
at call.push.4.before
    let ghost vx_p4 = lines@;
at call.push.4.after
    proof { gp(vx_p4, lines@.last()); }
at call.push.5.before
    let ghost vx_p5 = lines@;
at call.push.5.after
    proof { gp(vx_p5, lines@.last()); }
at call.push.6.before
    let ghost vx_p6 = lines@;
at call.push.6.after
    proof { gp(vx_p6, lines@.last()); }
at call.push.7.before
    let ghost vx_p7 = lines@;
at call.push.7.after
    proof { gp(vx_p7, lines@.last()); }
at call.push.8.before
    let ghost vx_p8 = lines@;
at call.push.8.after
    proof { gp(vx_p8, lines@.last()); }
at call.push.9.before
    let ghost vx_p9 = lines@;
at call.push.9.after
    proof { gp(vx_p9, lines@.last());assert(lines.len() == lines@.len()); }
at fn.end
    proof {
        let u = old(lines)@; let v = lines@;
        assert forall|x: Cnt, y: Cnt, sl: int| x.l == *old(lt_i) && x.a == *old(and_i) && y == (Cnt { l: *lt_i, a: *and_i, ..x }) implies #[trigger] step(u, v, x, y, 0, 0, sl) by { reveal(step); assert forall|n: int, c: Cell| #[trigger] dok(u, v, x, y, 0, 0, n, c) by {} }
    }
fn add_multi_or_gate
theory graph circ closed
props C11
req
    isname(*state_var) && (nm(*state_var) == 1 || nm(*state_var) == 2),
    *old(multi_or_i) < usize::MAX,
    i >= 1,
ens
    *final(multi_or_i) == *old(multi_or_i),
    final(lines)@.len() >= old(lines)@.len() + 2,
    old(lines)@.len() <= final(lines)@.len(),
    forall|x: Cnt, y: Cnt, sl: int| x.o == *old(multi_or_i) && y == (Cnt { o: (*old(multi_or_i) + 1) as usize, ..x }) && all_lt(outputs@, x.a as int) ==> #[trigger] step(old(lines)@, final(lines)@, x, y, nm(*state_var), i as int, sl),
at fn.start
    proof { axiom_lines(*lines); }
    let ghost vx_u = lines@;
at call.push.0.before
    let ghost vx_p0 = lines@;
at call.push.0.after
    proof { gp(vx_p0, lines@.last()); }
at call.push.1.before
    let ghost vx_p1 = lines@;
at call.push.1.after
    proof { gp(vx_p1, lines@.last()); }
at call.push.2.before
    let ghost vx_p2 = lines@;
at call.push.2.after
    proof { gp(vx_p2, lines@.last()); }
at loop0.inv
    lines@.len() == vx_u.len() + 1 + vx_i0,
    seq_refs(vx_it0@, outputs@),
    forall|q: int| 0 <= q < vx_u.len() ==> #[trigger] lines@[q] == vx_u[q],
    forall|y: Cnt, sl: int, q: int| y.o == *multi_or_i + 1 && all_lt(outputs@, y.a as int) && vx_u.len() <= q < lines@.len() ==> #[trigger] lok(lines@[q], y, sl),
    forall|n: int, c: Cell| #[trigger] dmo(vx_u, lines@, *multi_or_i as int, outputs@.len() as int, vx_i0 as int, n, c),
at loop0.before
    proof { assert forall|n: int, c: Cell| #[trigger] dmo(vx_u, lines@, *multi_or_i as int, outputs@.len() as int, 0, n, c) by {} }
at loop0.start
    let ghost vx_lb = lines@;
at loop0.end
    proof {
        assert(outputs@[vx_i0 - 1] == *and_i);
        assert forall|n: int, c: Cell| #[trigger] dmo(vx_u, lines@, *multi_or_i as int, outputs@.len() as int, vx_i0 as int, n, c) by { assert(dmo(vx_u, vx_lb, *multi_or_i as int, outputs@.len() as int, vx_i0 - 1, n, c)); }
    }
at loop0.after
    let ghost vx_l3 = lines@;
at fn.end
    proof {
        let u = old(lines)@; let v = lines@;
        assert forall|x: Cnt, y: Cnt, sl: int| x.o == *old(multi_or_i) && y == (Cnt { o: (*old(multi_or_i) + 1) as usize, ..x }) && all_lt(outputs@, x.a as int) implies #[trigger] step(u, v, x, y, nm(*state_var), i as int, sl) by {
            reveal(step);
            assert forall|q: int| u.len() <= q < v.len() implies lok(#[trigger] v[q], y, sl) by { if q < vx_l3.len() { assert(v[q] == vx_l3[q]); } }
            assert forall|n: int, c: Cell| #[trigger] dok(u, v, x, y, nm(*state_var), i as int, n, c) by { assert(dmo(u, vx_l3, *multi_or_i as int, outputs@.len() as int, outputs@.len() as int, n, c)); assert(dmo(u, vx_l3, *multi_or_i as int, outputs@.len() as int, outputs@.len() as int, n, comp(c))); }
        }
    }
fn add_state_transition
theory graph circ closed
props C11
req
    mos_lt(old(multi_or_checks1)@, *old(multi_or_i) as int),
    old(zero_starting_and_idxes)@.contains_key(i),
    eq_outputs@.len() > 0,
    outs_nm(eq_outputs@),
    *old(and_i) <= old(lines)@.len(),
    *old(multi_or_i) <= old(lines)@.len(),
ens
    mos_lt(final(multi_or_checks1)@, *final(multi_or_i) as int),
    *final(and_i) == *old(and_i) + 1,
    *old(multi_or_i) <= *final(multi_or_i),
    *final(and_i) <= final(lines)@.len(),
    *final(multi_or_i) <= final(lines)@.len(),
    zero_noted(old(zero_starting_and_idxes)@, final(zero_starting_and_idxes)@, i, prev_i, *old(and_i)),
    old(lines)@.len() <= final(lines)@.len(),
    forall|x: Cnt, y: Cnt, sl: int| x.a == *old(and_i) && x.o == *old(multi_or_i) && y == (Cnt { a: *final(and_i), o: *final(multi_or_i), ..x }) && outs_lt(eq_outputs@, x) && prev_i < sl ==> #[trigger] step(old(lines)@, final(lines)@, x, y, 0, 0, sl),
at fn.start
    proof { axiom_lines(*lines); }
    let ghost vx_u = lines@;
    let ghost mut vx_k = false;
    let ghost mut vx_l3 = lines@;
    let ghost mut vx_g5 = lines@;
at call.push.0.before
    let ghost vx_p0 = lines@;
at call.push.0.after
    proof { gp(vx_p0, lines@.last()); }
at call.push.1.before
    let ghost vx_p1 = lines@;
at call.push.1.after
    proof { gp(vx_p1, lines@.last());assert(lines.len() == lines@.len()); }
at call.push.2.before
    let ghost vx_p2 = lines@;
at call.push.2.after
    proof { gp(vx_p2, lines@.last());assert(lines.len() == lines@.len()); }
at call.push.4.before
    let ghost vx_p4 = lines@;
at call.push.4.after
    proof { gp(vx_p4, lines@.last());assert(lines.len() == lines@.len()); }
at call.push.5.before
    let ghost vx_p5 = lines@;
at call.push.5.after
    proof { gp(vx_p5, lines@.last()); }
at call.push.6.before
    let ghost vx_p6 = lines@;
at call.push.6.after
    proof { gp(vx_p6, lines@.last()); }
at call.push.7.before
    let ghost vx_p7 = lines@;
at call.push.7.after
    proof { gp(vx_p7, lines@.last());assert(lines.len() == lines@.len()); }
at loop0.inv
    lines@.len() == vx_u.len() + 3 + vx_i0,
    seq_refs(vx_it0@, eq_outputs@),
    forall|q: int| 0 <= q < vx_u.len() ==> #[trigger] lines@[q] == vx_u[q],
    forall|y: Cnt, sl: int, q: int| y.o == *multi_or_i + 1 && y.a == *and_i + 1 && outs_lt(eq_outputs@, Cnt { a: *and_i, ..y }) && prev_i < sl && vx_u.len() <= q < lines@.len() ==> #[trigger] lok(lines@[q], y, sl),
    forall|n: int, c: Cell| #[trigger] dmo(vx_p5, lines@, *multi_or_i as int, eq_outputs@.len() as int, vx_i0 as int, n, c),
at loop0.before
    proof { assert forall|n: int, c: Cell| #[trigger] dmo(vx_p5, lines@, *multi_or_i as int, eq_outputs@.len() as int, 0, n, c) by {} }
at loop0.start
    let ghost vx_lb = lines@;
at loop0.end
    proof {
        assert(isname(*eq_outputs@[vx_i0 - 1].0));
        assert forall|n: int, c: Cell| #[trigger] dmo(vx_p5, lines@, *multi_or_i as int, eq_outputs@.len() as int, vx_i0 as int, n, c) by { assert(dmo(vx_p5, vx_lb, *multi_or_i as int, eq_outputs@.len() as int, vx_i0 - 1, n, c)); }
    }
at loop0.after
    proof { vx_k = true; vx_l3 = lines@;
        assert forall|n: int, c: Cell| #[trigger] dmo(vx_p5, vx_l3, *multi_or_i as int, eq_outputs@.len() as int, eq_outputs@.len() as int, n, c) by {}
        vx_g5 = vx_p5;
    }
at fn.end
    proof {
        let u = old(lines)@; let v = lines@; let k = eq_outputs@.len() as int; let mo = *old(multi_or_i) as int;
        assert(zero_starting_and_idxes@.dom() =~= old(zero_starting_and_idxes)@.dom());
        assert forall|x: Cnt, y: Cnt, sl: int| x.a == *old(and_i) && x.o == *old(multi_or_i) && y == (Cnt { a: *and_i, o: *multi_or_i, ..x }) && outs_lt(eq_outputs@, x) && prev_i < sl implies #[trigger] step(u, v, x, y, 0, 0, sl) by {
            reveal(step);
            assert forall|q: int| u.len() <= q < v.len() implies lok(#[trigger] v[q], y, sl) by { if vx_k && q < vx_l3.len() { assert(v[q] == vx_l3[q]); } }
            assert forall|n: int, c: Cell| #[trigger] dok(u, v, x, y, 0, 0, n, c) by { if vx_k { assert(dmo(vx_g5, vx_l3, mo, k, k, n, c)); assert(dmo(vx_g5, vx_l3, mo, k, k, n, comp(c))); } }
        }
    }
fn add_state_update
theory graph circ closed
props C11
req
    mos_lt(old(multi_or_checks2)@, *old(multi_or_i) as int),
    *old(multi_or_i) <= old(lines)@.len(),
    i >= 1,
ens
    mos_lt(final(multi_or_checks2)@, *final(multi_or_i) as int),
    *old(multi_or_i) <= *final(multi_or_i),
    *final(multi_or_i) <= final(lines)@.len(),
    old(lines)@.len() <= final(lines)@.len(),
    forall|x: Cnt, y: Cnt, sl: int| x.o == *old(multi_or_i) && y == (Cnt { o: *final(multi_or_i), ..x }) && all_lt(outputs@, x.a as int) ==> #[trigger] step(old(lines)@, final(lines)@, x, y, zsn(zero_starting_states@.contains(i)), i as int, sl),
at fn.start
    proof { axiom_lines(*lines); }
at call.push.0.before
    let ghost vx_p0 = lines@;
at call.push.0.after
    proof { gp(vx_p0, lines@.last()); }
at call.add_multi_or_gate.0.after
    proof { assert(lines.len() == lines@.len()); }
at fn.end
    proof {
        assert(lines.len() == lines@.len());
        let u = old(lines)@; let v = lines@; let s = zsn(zero_starting_states@.contains(i));
        assert forall|x: Cnt, y: Cnt, sl: int| x.o == *old(multi_or_i) && y == (Cnt { o: *multi_or_i, ..x }) && all_lt(outputs@, x.a as int) implies #[trigger] step(u, v, x, y, s, i as int, sl) by {
            if *multi_or_i == *old(multi_or_i) { assert(v =~= u.push(v.last())); gp(u, v.last()); reveal(step); assert forall|n: int, c: Cell| #[trigger] dok(u, v, x, y, s, i as int, n, c) by {} }
        }
    }
fn add_from_zero_enabled
theory graph circ closed
props C11
req
    state_len >= 1,
ens
    fzd(old(lines)@, final(lines)@, zero_starting_states@, state_len as int),
at loop0.inv
    1 <= vx_i0 <= state_len,
    vx_acc1@.len() == vx_i0 - 1,
    all_single(vx_acc1@),
    forall|t: int, n: int, i: int, c: Cell| #![trigger xrd(vx_acc1@[t], n, i, c)] 0 <= t < vx_acc1@.len() ==> (xrd(vx_acc1@[t], n, i, c) ==> (sgn(c, 1, 2) || sgn(c, 2, 2)) && c.a == i + 1 && c.b == t + 1 && (c.s == 1 || zero_starting_states@.contains(c.b as usize))),
    decreases state_len - vx_i0
at call.push.0.before
    let ghost vx_p0 = lines@;
at call.push.0.after
    proof { gp(vx_p0, lines@.last()); }
at fn.end
    proof {
        let u = old(lines)@; let v = lines@; let zs = zero_starting_states@;
        assert forall|n: int, c: Cell| #[trigger] d(u, v, 0, n, c) == b2n(sgn(c, 3, 1)) by { if sgn(c, 3, 1) { assert(fa(v.last(), 0, n, c.a, c)); } }
        assert forall|n: int, c: Cell| #[trigger] d(u, v, 1, n, c) == 0 by {}
    }
fn add_zero_starting_state_updates
theory graph circ closed
props C11
req
    forall|j: usize| #[trigger] zero_starting_and_idxes@.contains_key(j) ==> j >= 1 && zero_starting_and_idxes@[j]@.len() < usize::MAX,
ens
    forall|y: Cnt, zs: Seq<usize>, sl: int| (forall|j: usize| #[trigger] zero_starting_and_idxes@.contains_key(j) ==> zok(zero_starting_and_idxes@, j, y, zs, sl)) ==> #[trigger] zud(old(lines)@, final(lines)@, zero_starting_and_idxes@, y, zs, sl),
at loop0.inv
    old(lines)@.len() <= lines@.len(),
    forall|q: int| 0 <= q < old(lines)@.len() ==> #[trigger] lines@[q] == old(lines)@[q],
    map_refs(vx_it0@, zero_starting_and_idxes@),
    forall|y: Cnt, zs: Seq<usize>, sl: int, q: int| #![trigger tok(lines@[q], y, zs, sl, false)] (forall|j: usize| #[trigger] zero_starting_and_idxes@.contains_key(j) ==> zok(zero_starting_and_idxes@, j, y, zs, sl)) && old(lines)@.len() <= q < lines@.len() ==> tok(lines@[q], y, zs, sl, false),
    forall|n: int, c: Cell| #[trigger] d(old(lines)@, lines@, 0, n, c) == b2n(sgn(c, 1, 2) && zkey(vx_it0@, vx_i0 as int, c.b)),
    forall|n: int, c: Cell| #[trigger] d(old(lines)@, lines@, 1, n, c) == 0,
at loop0.before
    proof {
        assert forall|n: int, c: Cell| #[trigger] d(old(lines)@, lines@, 0, n, c) == b2n(sgn(c, 1, 2) && zkey(vx_it0@, 0, c.b)) by {}
        assert forall|n: int, c: Cell| #[trigger] d(old(lines)@, lines@, 1, n, c) == 0 by {}
    }
at loop0.start
    let ghost vx_lb = lines@;
    proof { zkey_step(vx_it0@, vx_i0 - 1, zero_starting_and_idxes@); assert(zero_starting_and_idxes@.contains_key(*vx_it0@[vx_i0 - 1].0)); }
at loop1.inv
    seq_refs(vx_it1@, vec@),
    vx_acc1@.len() == vx_i1,
    all_single(vx_acc1@),
    forall|t: int, n: int, i: int, c: Cell| #![trigger xrd(vx_acc1@[t], n, i, c)] 0 <= t < vx_acc1@.len() ==> (xrd(vx_acc1@[t], n, i, c) ==> (sgn(c, 3, 1) && c.a == i) || (c.s == 23 && c.k == 0 && c.p == 3 && c.q == 0 && c.a == vec@[t] && c.b == i)),
at call.push.0.before
    let ghost vx_p0 = lines@;
at call.push.0.after
    proof { gp(vx_p0, lines@.last());
        let u = old(lines)@; let zm = zero_starting_and_idxes@; let l = lines@.last(); let j = *vx_it0@[vx_i0 - 1].0;
        assert forall|n: int, c: Cell| #[trigger] d(u, lines@, 0, n, c) == b2n(sgn(c, 1, 2) && zkey(vx_it0@, vx_i0 as int, c.b)) by {
            assert(d(u, vx_lb, 0, n, c) == b2n(sgn(c, 1, 2) && zkey(vx_it0@, vx_i0 - 1, c.b)));
            assert(fa(l, 0, n, itc(c), c) == (sgn(c, 1, 2) && c.b == j));
        }
        assert forall|n: int, c: Cell| #[trigger] d(u, lines@, 1, n, c) == 0 by { assert(d(u, vx_lb, 1, n, c) == 0); }
        assert forall|y: Cnt, zs: Seq<usize>, sl: int, q: int| #![trigger tok(lines@[q], y, zs, sl, false)] (forall|j: usize| #[trigger] zm.contains_key(j) ==> zok(zm, j, y, zs, sl)) && u.len() <= q < lines@.len() implies tok(lines@[q], y, zs, sl, false) by {
            if q < vx_lb.len() { assert(tok(vx_lb[q], y, zs, sl, false)); } else {
                assert(zok(zm, j, y, zs, sl));
                assert forall|n: int, i: int, c: Cell| #[trigger] fa(l, 2, n, i, c) implies rdt(i, c, y, zs, sl, false) by {
                    if c.s == 23 && c.p == 3 { assert(inst(comp(c), c0(), y)) by { assert(vec@.contains(c.a as usize)); } }
                }
            }
        } }
at loop0.after
    proof {
        zkey_all(vx_it0@, zero_starting_and_idxes@);
        let u = old(lines)@; let zm = zero_starting_and_idxes@;
        assert forall|y: Cnt, zs: Seq<usize>, sl: int| (forall|j: usize| #[trigger] zm.contains_key(j) ==> zok(zm, j, y, zs, sl)) implies #[trigger] zud(u, lines@, zm, y, zs, sl) by {
            assert forall|q: int| u.len() <= q < lines@.len() implies tok(#[trigger] lines@[q], y, zs, sl, false) by {}
            assert forall|n: int, c: Cell| #[trigger] d(u, lines@, 0, n, c) == b2n(sgn(c, 1, 2) && zne(zm, c.b)) by { assert(zkey(vx_it0@, vx_it0@.len() as int, c.b) == zne(zm, c.b)); }
        }
    }
fn add_state_changed_updates
theory graph circ closed
props C11
req
    state_len >= 1,
ens
    scd(old(lines)@, final(lines)@, state_len as int),
at loop0.inv
    1 <= vx_i0 <= state_len,
    old(lines)@.len() <= lines@.len(),
    forall|q: int| 0 <= q < old(lines)@.len() ==> #[trigger] lines@[q] == old(lines)@[q],
    forall|q: int, zs: Seq<usize>| #![trigger tok(lines@[q], c0(), zs, state_len as int, false)] old(lines)@.len() <= q < lines@.len() ==> tok(lines@[q], c0(), zs, state_len as int, false),
    forall|n: int, c: Cell| #[trigger] d(old(lines)@, lines@, 0, n, c) == b2n(c.s == 25 && c.k == 0 && c.a == 0 && c.p == 0 && 0 <= c.q < vx_i0 - 1),
    forall|n: int, c: Cell| #[trigger] d(old(lines)@, lines@, 1, n, c) == 0,
    decreases state_len - vx_i0
at loop0.start
    let ghost vx_lb = lines@;
at call.push.0.before
    let ghost vx_p0 = lines@;
at call.push.0.after
    proof { gp(vx_p0, lines@.last());
        let u = old(lines)@; let l = lines@.last();
        assert forall|n: int, c: Cell| #[trigger] d(u, lines@, 0, n, c) == b2n(c.s == 25 && c.k == 0 && c.a == 0 && c.p == 0 && 0 <= c.q < vx_i0 - 1) by {
            assert(d(u, vx_lb, 0, n, c) == b2n(c.s == 25 && c.k == 0 && c.a == 0 && c.p == 0 && 0 <= c.q < vx_i0 - 2));
            assert(fa(l, 0, n, itc(c), c) == (c.s == 25 && c.k == 0 && c.a == 0 && c.p == 0 && c.q == vx_i0 - 2));
        }
        assert forall|n: int, c: Cell| #[trigger] d(u, lines@, 1, n, c) == 0 by { assert(d(u, vx_lb, 1, n, c) == 0); }
        assert forall|q: int, zs: Seq<usize>| #![trigger tok(lines@[q], c0(), zs, state_len as int, false)] u.len() <= q < lines@.len() implies tok(lines@[q], c0(), zs, state_len as int, false) by { if q < vx_lb.len() { assert(tok(vx_lb[q], c0(), zs, state_len as int, false)); } } }
fn generate_state_transition_logic
theory graph circ closed
props C11
req
    state_len >= 1,
    forall|j: usize, p: usize| #[trigger] rhas(rev_graph@, j, p) ==> p < state_len,
ens
    blk(vx_r.4@, Cnt { e: vx_r.0, l: vx_r.1, a: vx_r.2, o: vx_r.3 }, state_len as int, end_anchor),
    forall|q: int| 0 <= q < vx_r.4@.len() ==> (#[trigger] vx_r.4@[q]).ls() == seq![vx_r.4@[q]],
at call.push.0.before
    let ghost vx_p0 = lines@;
at call.push.0.after
    proof { gp(vx_p0, lines@.last()); }
at call.push.1.before
    let ghost vx_p1 = lines@;
at call.push.1.after
    proof { gp(vx_p1, lines@.last()); }
at call.push.2.before
    let ghost vx_p2 = lines@;
at call.push.2.after
    proof { gp(vx_p2, lines@.last()); }
at call.push.3.before
    let ghost vx_p3 = lines@;
at call.push.3.after
    proof { gp(vx_p3, lines@.last()); }
at loop0.before
    let ghost vx_h = lines@;
    let ghost vx_rv = rev_graph@;
    let ghost vx_sl = state_len as int;
    proof {
        assert(lines.len() == lines@.len());
        assert forall|n: int, c: Cell| #[trigger] g(vx_h, 0, n, c) == b2n(c.s == 25 && c.k == 0 && c.a == 0 && c.p == -1 && c.q == 0) + b2n(sgn(c, 1, 2) && c.b == 0) + b2n(end_anchor && sgn(c, 7, 1)) by {}
        assert forall|n: int, c: Cell| #[trigger] g(vx_h, 1, n, c) == b2n(c.s == 25 && c.k == 0 && c.a == 0 && c.p == 0 && 0 <= c.q < vx_sl - 1) by {}
        assert(hd_ok(vx_h, vx_sl, end_anchor));
        bod_none(vx_h, zero_starting_states@, vx_sl);
    }
at loop0.inv
    1 <= vx_i0 <= state_len,
    bod(vx_h, lines@, Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i }, zero_starting_states@, vx_i0 as int, vx_sl),
    eqs_lt(eq_checks@, eq_i as int),
    rcs_lt(range_checks@, and_i as int),
    mos_lt(multi_or_checks1@, multi_or_i as int),
    mos_lt(multi_or_checks2@, multi_or_i as int),
    eq_i <= lines@.len(), lt_i <= lines@.len(), and_i <= lines@.len(), multi_or_i <= lines@.len(),
    forall|j: usize| #[trigger] zero_starting_and_idxes@.contains_key(j) == (1 <= j < vx_i0),
    forall|x: usize| #[trigger] zero_starting_states@.contains(x) ==> x < vx_i0,
    forall|j: usize| 1 <= j < vx_i0 ==> #[trigger] zero_starting_states@.contains(j) == zne(zero_starting_and_idxes@, j as int),
    forall|j: usize| #[trigger] zero_starting_and_idxes@.contains_key(j) ==> all_lt(zero_starting_and_idxes@[j]@, and_i as int) && zero_starting_and_idxes@[j]@.len() < usize::MAX,
    decreases state_len - vx_i0
at loop0.start
    let ghost vx_l0 = lines@;
    let ghost vx_x0 = Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i };
    let ghost vx_z0 = zero_starting_states@;
    let ghost vx_m0 = zero_starting_and_idxes@;
    proof { step_none(lines@, vx_x0, vx_sl); }
at loop1.inv
    ins_of(vx_rv, i, vx_it1@),
    step(vx_l0, lines@, vx_x0, Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i }, 0, 0, vx_sl),
    eqs_lt(eq_checks@, eq_i as int),
    rcs_lt(range_checks@, and_i as int),
    mos_lt(multi_or_checks1@, multi_or_i as int),
    mos_lt(multi_or_checks2@, multi_or_i as int),
    eq_i <= lines@.len(), lt_i <= lines@.len(), and_i <= lines@.len(), multi_or_i <= lines@.len(),
    forall|j: usize| #[trigger] zero_starting_and_idxes@.contains_key(j) == (1 <= j < vx_i0),
    forall|j: usize| 1 <= j < i ==> #[trigger] zero_starting_and_idxes@[j] == vx_m0[j],
    forall|x: usize| x != i ==> #[trigger] zero_starting_states@.contains(x) == vx_z0.contains(x),
    zero_starting_states@.contains(i) == (zero_starting_and_idxes@[i]@.len() > 0),
    zero_starting_and_idxes@[i]@.len() == (if zq(vx_it1@, vx_i1 as int) { 1int } else { 0int }),
    all_lt(zero_starting_and_idxes@[i]@, and_i as int),
    all_lt(outputs@, and_i as int),
    vx_x0.a <= and_i,
at loop1.start
    let ghost vx_zz1 = zero_starting_states@;
    let ghost vx_zm1 = zero_starting_and_idxes@;
    let ghost vx_a1 = and_i;
    proof { zq_step(vx_it1@, vx_i1 - 1); assert(rhas(vx_rv, i, *vx_it1@[vx_i1 - 1].0)); }
at loop2.inv
    seq_refs(vx_it2@, chars@),
    vx_acc2 == forall|q: int| 0 <= q < vx_i2 ==> #[trigger] chars@[q] == 0,
at loop2.after
    proof { if nz(chars@) { let b = choose|b: u8| b != 0 && #[trigger] chars@.contains(b); let q = choose|q: int| 0 <= q < chars@.len() && chars@[q] == b; assert(chars@[q] != 0); }
        if !vx_acc2 { let q = choose|q: int| 0 <= q < chars@.len() && #[trigger] chars@[q] != 0; assert(chars@.contains(chars@[q])); } }
at loop3.inv
    vx_it3@ == chars@,
    forall|v: u8| #[trigger] vx_x4@.contains(v) == (v != 0 && has_n(chars@, vx_i3 as int, v)),
at loop3.start
    let ghost vx_xb = vx_x4@;
at loop3.end
    proof { has_n_step(chars@, vx_i3 - 1); push_has(vx_xb, vx_e3); }
at call.retain.0.after
    let ghost vx_k0 = k@;
    proof { assert forall|v: u8| #[trigger] k@.contains(v) == (v != 0 && chars@.contains(v)) by {} }
at call.sort.0.after
    proof {
        assert forall|v: u8| #[trigger] k@.contains(v) == (v != 0 && chars@.contains(v)) by { assert(vx_k0.contains(v) == k@.contains(v)); }
        assert(k@.len() > 0) by { let b = choose|b: u8| b != 0 && #[trigger] chars@.contains(b); assert(k@.contains(b)); }
    }
at loop4.inv
    step(vx_l0, lines@, vx_x0, Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i }, 0, 0, vx_sl),
    eqs_lt(eq_checks@, eq_i as int),
    rcs_lt(range_checks@, and_i as int),
    mos_lt(multi_or_checks1@, multi_or_i as int),
    mos_lt(multi_or_checks2@, multi_or_i as int),
    eq_i <= lines@.len(), lt_i <= lines@.len(), and_i <= lines@.len(), multi_or_i <= lines@.len(),
    vx_a1 <= and_i,
    eq_outputs@.len() == vx_i4,
    outs_nm(eq_outputs@),
    outs_lt(eq_outputs@, Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i }),
at loop4.start
    let ghost vx_lb = lines@;
    let ghost vx_eb = eq_outputs@;
    let ghost vx_xb4 = Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i };
at loop4.end
    proof {
        step_add(vx_l0, vx_lb, lines@, vx_x0, vx_xb4, Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i }, 0, 0, vx_sl);
        assert forall|q: int| 0 <= q < eq_outputs@.len() - 1 implies #[trigger] eq_outputs@[q] == vx_eb[q] by { assert(eq_outputs@.drop_last()[q] == vx_eb[q]); }
    }
at loop5.inv
    step(vx_l0, lines@, vx_x0, Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i }, 0, 0, vx_sl),
    eqs_lt(eq_checks@, eq_i as int),
    rcs_lt(range_checks@, and_i as int),
    mos_lt(multi_or_checks1@, multi_or_i as int),
    mos_lt(multi_or_checks2@, multi_or_i as int),
    eq_i <= lines@.len(), lt_i <= lines@.len(), and_i <= lines@.len(), multi_or_i <= lines@.len(),
    vx_a1 <= and_i,
    eq_outputs@.len() == vx_it4@.len() + vx_i5,
    outs_nm(eq_outputs@),
    outs_lt(eq_outputs@, Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i }),
at loop5.start
    let ghost vx_lb = lines@;
    let ghost vx_xb5 = Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i };
at loop5.end
    proof { step_add(vx_l0, vx_lb, lines@, vx_x0, vx_xb5, Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i }, 0, 0, vx_sl); }
at call.add_state_transition.0.before
    let ghost vx_lt = lines@;
    let ghost vx_xt = Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i };
    proof {
        assert(eq_outputs@.len() > 0) by { let v = k@[0]; assert(k@.contains(v)); if individual_chars@.contains(v) { let q = choose|q: int| 0 <= q < vx_it5@.len() && *(#[trigger] vx_it5@[q]) == v; } }
    }
at call.add_state_transition.0.after
    proof {
        step_add(vx_l0, vx_lt, lines@, vx_x0, vx_xt, Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i }, 0, 0, vx_sl);
        push_hasg(vx_zz1, i);
        assert forall|j: usize| 1 <= j < i implies #[trigger] zero_starting_and_idxes@[j] == vx_m0[j] by { assert(vx_zm1.contains_key(j)); assert(vx_zm1[j] == vx_m0[j]); }
        if *prev_i == 0 { zq_once(vx_it1@, if vx_rv.contains_key(i) { vx_rv[i]@ } else { Map::<usize, Vec<u8>>::empty() }, vx_i1 - 1); }
    }
at call.add_state_update.0.before
    let ghost vx_lu = lines@;
    let ghost vx_xu = Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i };
at loop0.end
    proof {
        step_add(vx_l0, vx_lu, lines@, vx_x0, vx_xu, Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i }, zsn(zero_starting_states@.contains(i)), i as int, vx_sl);
        bod_step(vx_h, vx_l0, lines@, vx_x0, Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i }, vx_z0, zero_starting_states@, i, vx_sl);
        assert forall|j: usize| 1 <= j < vx_i0 implies #[trigger] zero_starting_states@.contains(j) == zne(zero_starting_and_idxes@, j as int) by { assert(zero_starting_and_idxes@.contains_key(j)); if j < i { assert(vx_m0.contains_key(j)); assert(vx_z0.contains(j) == zne(vx_m0, j as int)); } }
        assert forall|j: usize| #[trigger] zero_starting_and_idxes@.contains_key(j) implies all_lt(zero_starting_and_idxes@[j]@, and_i as int) && zero_starting_and_idxes@[j]@.len() < usize::MAX by { if j < i { assert(vx_m0.contains_key(j)); assert(zero_starting_and_idxes@[j] == vx_m0[j]); assert(all_lt(vx_m0[j]@, vx_x0.a as int)); } }
    }
at loop0.after
    let ghost vx_f0 = lines@;
    let ghost vx_y = Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i };
    proof { assert forall|j: usize| #[trigger] zero_starting_and_idxes@.contains_key(j) implies zok(zero_starting_and_idxes@, j, vx_y, zero_starting_states@, vx_sl) by { if zero_starting_and_idxes@[j]@.len() > 0 { assert(zne(zero_starting_and_idxes@, j as int)); } } }
at call.add_from_zero_enabled.0.after
    let ghost vx_f1 = lines@;
at call.add_zero_starting_state_updates.0.after
    let ghost vx_f2 = lines@;
at call.add_state_changed_updates.0.after
    let ghost vx_f3 = lines@;
at fn.end
    proof {
        let ls = vx_ret.4@; let zm = zero_starting_and_idxes@; let zs = zero_starting_states@;
        assert(zud(vx_f1, vx_f2, zm, vx_y, zs, vx_sl));
        assert(ls.drop_last() =~= vx_f3);
        blk_new(ls, vx_h, vx_f0, vx_f1, vx_f2, vx_f3, vx_y, zs, zm, vx_sl, end_anchor);
        all_own(ls, vx_h, vx_f0, vx_f1, vx_f2, vx_f3, vx_y, zs, zm, vx_sl, end_anchor);
    }
fn generate_declarations
theory graph circ closed
props C11
ens
    !has_newline(template_name@) ==> dec_ok(flat_ls(vx_r@), Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i }, state_len as int, end_anchor),
at if0.before
    let ghost vx_d0 = declarations@;
    let ghost vx_ok = !has_newline(template_name@);
    proof { if vx_ok {
        assert(vx_d0.len() == 17);
        let f5 = flat_ls(vx_d0.take(5)); let f11 = flat_ls(vx_d0.take(11)); let f15 = flat_ls(vx_d0.take(15));
        assert(hdr(f5).is_none() && nest(f5) == 0 && forall|n: int, c: Cell| #[trigger] dp5(f5, n, c)) by {
            assert(flat_ls(vx_d0.take(0)) == Seq::<VString>::empty());
            tq(vx_d0, 0); tq(vx_d0, 1); tq(vx_d0, 2); tq(vx_d0, 3); tq(vx_d0, 4);
        }
        assert(hdr(f11).is_none() && nest(f11) == 0 && forall|n: int, c: Cell| #[trigger] dp11(f11, n, c)) by {
            tq(vx_d0, 5); tq(vx_d0, 6); tq(vx_d0, 7); tq(vx_d0, 8); tq(vx_d0, 9); tq(vx_d0, 10);
            assert forall|n: int, c: Cell| #[trigger] dp11(f11, n, c) by {
                assert(dp5(f5, n, c));
            }
        }
        assert(nest(flat_ls(vx_d0)) == 0 && forall|n: int, c: Cell| n >= 0 ==> #[trigger] dec_mid(flat_ls(vx_d0), c0(), n, c)) by {
            tq(vx_d0, 11); tq(vx_d0, 12); tq(vx_d0, 13); tq(vx_d0, 14); tq(vx_d0, 15); tq(vx_d0, 16);
            assert(vx_d0.take(17) =~= vx_d0);
            assert forall|n: int, c: Cell| n >= 0 implies #[trigger] dec_mid(flat_ls(vx_d0), c0(), n, c) by {
                assert(dp11(f11, n, c));
                let x = vx_d0[12].ls()[0]; let y = vx_d0[13].ls()[0]; let z = vx_d0[14].ls()[0]; let e = vx_d0[15].ls()[0];
                rng_one(z, 0, n, c, 0, n, c.a - 1); rng_one(z, 2, n, c, 0, n, c.a); rng_one(x, 0, n, c, 0, n, c.a); rng_one(x, 2, n, c, 0, n, c.a); rng_one(y, 2, n, c, 0, n, c.a);
                rng_one(x, 1, n, c, 0, n, 0); rng_one(x, 3, n, c, 0, n, 0); rng_one(x, 4, n, c, 0, n, 0); rng_one(x, 5, n, c, 0, n, 0); rng_one(x, 6, n, c, 0, n, 0);rng_one(y, 0, n, c, 0, n, 0); rng_one(y, 1, n, c, 0, n, 0); rng_one(y, 3, n, c, 0, n, 0); rng_one(y, 4, n, c, 0, n, 0); rng_one(y, 5, n, c, 0, n, 0); rng_one(y, 6, n, c, 0, n, 0);rng_one(z, 1, n, c, 0, n, 0); rng_one(z, 3, n, c, 0, n, 0); rng_one(z, 4, n, c, 0, n, 0); rng_one(z, 5, n, c, 0, n, 0); rng_one(z, 6, n, c, 0, n, 0);rng_one(e, 0, n, c, 0, n, 0); rng_one(e, 1, n, c, 0, n, 0); rng_one(e, 2, n, c, 0, n, 0); rng_one(e, 3, n, c, 0, n, 0); rng_one(e, 4, n, c, 0, n, 0); rng_one(e, 5, n, c, 0, n, 0); rng_one(e, 6, n, c, 0, n, 0);
            }
        }
    } }
at if0.after
    let ghost vx_d1 = declarations@;
    proof { if vx_ok {
        let x = Cnt { e: 0, l: 0, a: 0, o: 0 }; let y = Cnt { e: eq_i, l: 0, a: 0, o: 0 };
        if eq_i > 0 { dec_push(vx_d0, vx_d1, x, y); } else { assert(vx_d0 == vx_d1 && x == y); }
    } }
at if1.after
    let ghost vx_d2 = declarations@;
    proof { if vx_ok {
        let x = Cnt { e: eq_i, l: 0, a: 0, o: 0 }; let y = Cnt { e: eq_i, l: lt_i, a: 0, o: 0 };
        if lt_i > 0 { dec_push(vx_d1, vx_d2, x, y); } else { assert(vx_d1 == vx_d2 && x == y); }
    } }
at if2.after
    let ghost vx_d3 = declarations@;
    proof { if vx_ok {
        let x = Cnt { e: eq_i, l: lt_i, a: 0, o: 0 }; let y = Cnt { e: eq_i, l: lt_i, a: and_i, o: 0 };
        if and_i > 0 { dec_push(vx_d2, vx_d3, x, y); } else { assert(vx_d2 == vx_d3 && x == y); }
    } }
at if3.after
    let ghost vx_d4 = declarations@;
    proof { if vx_ok {
        let x = Cnt { e: eq_i, l: lt_i, a: and_i, o: 0 }; let y = Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i };
        if multi_or_i > 0 { dec_push(vx_d3, vx_d4, x, y); } else { assert(vx_d3 == vx_d4 && x == y); }
    } }
at call.extend.0.after
    let ghost vx_d5 = declarations@;
    let ghost vx_y = Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i };
    proof { if vx_ok {
        assert(vx_d5.take(vx_d4.len() as int) =~= vx_d4);
        dec_six(vx_d4, vx_d5, vx_y, state_len as int);
    } }
at fn.end
    proof { if vx_ok && end_anchor {
        let v = vx_ret@;
        assert(v.take(vx_d5.len() as int) =~= vx_d5);
        dec_two(vx_d5, v, vx_y, state_len as int);
    } }
fn generate_init_code
theory graph circ closed
props C11
req
    state_len >= 1,
ens
    ini_ok(flat_ls(vx_r@), state_len as int),
at fn.end
    proof {
        let v = vx_ret@; assert(v.len() == 4); assert(v.take(4) =~= v);
        tq(v, 0); tq(v, 1); tq(v, 2); tq(v, 3);
        assert forall|n: int, c: Cell| n >= 0 implies #[trigger] ini1(flat_ls(v), state_len as int, n, c) by {
            let x = v[1].ls()[0]; let y = v[2].ls()[0]; let h = state_len as int;
            rng_one(x, 0, n, c, 1, h, c.b);
            rng_one(x, 1, n, c, 1, h, 0); rng_one(x, 2, n, c, 1, h, 0); rng_one(x, 3, n, c, 1, h, 0); rng_one(x, 4, n, c, 1, h, 0); rng_one(x, 5, n, c, 1, h, 0); rng_one(x, 6, n, c, 1, h, 0);
            rng_one(y, 0, n, c, 1, h, 0); rng_one(y, 1, n, c, 1, h, 0); rng_one(y, 2, n, c, 1, h, 0); rng_one(y, 3, n, c, 1, h, 0); rng_one(y, 4, n, c, 1, h, 0); rng_one(y, 5, n, c, 1, h, 0); rng_one(y, 6, n, c, 1, h, 0);
        }
    }
fn generate_accept_logic
type vx_acc1 Option<&usize>
theory graph circ closed
props C11
ens
    vx_r.is_ok() ==> exists|a: usize| #[trigger] out_ok(accept_nodes@, a, vx_r.unwrap()@, end_anchor),
at loop0.inv
    except_break
        vx_i0 == 0 && vx_acc1.is_none(),
    always
        vx_i0 <= vx_it0@.len() && vx_it0@.len() > 0,
        set_refs(vx_it0@, accept_nodes@),
    ensures
        vx_acc1.is_some() && accept_nodes@.contains(*vx_acc1.unwrap()),
    decreases
        vx_it0@.len() - vx_i0
at loop0.before
    proof { assert(vx_it0@.len() > 0) by { if forall|x: usize| !(#[trigger] accept_nodes@.contains(x)) { assert(accept_nodes@ =~= Set::<usize>::empty()); } } }
at fn.end
    proof {
        let v = vx_ret.unwrap()@; let a = accept_node as int; assert(v.take(v.len() as int) =~= v);
        tq(v, 0); tq(v, 1); tq(v, 2); tq(v, 3); tq(v, 4);
        nest_hdr(flat_ls(v.take(2)));
        let h = flat_ls(v.take(5));
        assert(nest(h) == 0);
        assert forall|n: int, c: Cell| n >= 0 implies tot(h, 0, n, c) == b2n(acp(c, -1, 0) || (acp(c, 0, c.q) && 0 <= c.q <= n + 1)) && (#[trigger] tot(h, 1, n, c)) == b2n(acp(c, 0, c.q) && 0 <= c.q <= n + 1) && (tot(h, 2, n, c) > 0 ==> sgn(c, 1, 2) && 0 <= c.a <= n + 1 && c.b == a) && tot(h, 3, n, c) == 0 && tot(h, 4, n, c) == b2n(acp(c, -1, 0)) && tot(h, 5, n, c) == 0 && tot(h, 6, n, c) == 0 by {
            let x = v[3].ls()[0]; let y = v[4].ls()[0]; let e = n + 2;
            rng_one(x, 0, n, c, 0, e, c.q); rng_one(x, 2, n, c, 0, e, c.a); rng_one(x, 1, n, c, 0, e, 0); rng_one(x, 3, n, c, 0, e, 0); rng_one(x, 4, n, c, 0, e, 0); rng_one(x, 5, n, c, 0, e, 0); rng_one(x, 6, n, c, 0, e, 0);rng_one(y, 0, n, c, 0, e, 0); rng_one(y, 1, n, c, 0, e, 0); rng_one(y, 2, n, c, 0, e, 0); rng_one(y, 3, n, c, 0, e, 0); rng_one(y, 4, n, c, 0, e, 0); rng_one(y, 5, n, c, 0, e, 0); rng_one(y, 6, n, c, 0, e, 0);
        }
        if end_anchor {
            tq(v, 5); tq(v, 6); tq(v, 7); tq(v, 8); tq(v, 9); tq(v, 10); tq(v, 11);
            assert forall|n: int, c: Cell| n >= 0 implies #[trigger] ac1(flat_ls(v), a, true, n, c) by {
                assert(tot(h, 1, n, c) == b2n(acp(c, 0, c.q) && 0 <= c.q <= n + 1));
                let x = v[8].ls()[0]; let y = v[9].ls()[0]; let z = v[10].ls()[0]; let e = n + 2;
                rng_one(x, 0, n, c, 0, e, c.a - 1); rng_one(y, 0, n, c, 0, e, c.a - 1); rng_pos(x, 2, n, c, 0, e); rng_pos(y, 2, n, c, 0, e); rng_one(x, 1, n, c, 0, e, 0); rng_one(x, 3, n, c, 0, e, 0); rng_one(x, 4, n, c, 0, e, 0); rng_one(x, 5, n, c, 0, e, 0); rng_one(x, 6, n, c, 0, e, 0);rng_one(y, 1, n, c, 0, e, 0); rng_one(y, 3, n, c, 0, e, 0); rng_one(y, 4, n, c, 0, e, 0); rng_one(y, 5, n, c, 0, e, 0); rng_one(y, 6, n, c, 0, e, 0);rng_one(z, 0, n, c, 0, e, 0); rng_one(z, 1, n, c, 0, e, 0); rng_one(z, 2, n, c, 0, e, 0); rng_one(z, 3, n, c, 0, e, 0); rng_one(z, 4, n, c, 0, e, 0); rng_one(z, 5, n, c, 0, e, 0); rng_one(z, 6, n, c, 0, e, 0);
            }
        } else {
            tq(v, 5);
            assert forall|n: int, c: Cell| n >= 0 implies #[trigger] ac1(flat_ls(v), a, false, n, c) by { assert(tot(h, 1, n, c) == b2n(acp(c, 0, c.q) && 0 <= c.q <= n + 1)); }
        }
        assert(acc_shut(flat_ls(v), a, end_anchor));
        assert(accept_nodes@ =~= Set::<usize>::empty().insert(accept_node)) by { one_el(accept_nodes@, accept_node); }
        assert(accept_nodes@.contains(accept_node));
        assert(out_ok(accept_nodes@, accept_node, v, end_anchor));
    }
fn sort_ranges
theory graph circ closed
props C11
ens
    vx_r@.len() == ranges@.len(),
    forall|q: int| 0 <= q < vx_r@.len() ==> ranges@.contains(*(#[trigger] vx_r@[q])),
at loop0.inv
    seq_refs(vx_it0@, ranges@),
    vx_acc1@ == vx_it0@.take(vx_i0 as int),
at fn.start
    let ghost mut vx_s0 = Seq::<&(usize, usize)>::empty();
at loop0.after
    proof { vx_s0 = vx_acc1@; }
at fn.end
    proof {
        assert forall|q: int| 0 <= q < vx_ret@.len() implies ranges@.contains(*(#[trigger] vx_ret@[q])) by { assert(vx_ret@.contains(vx_ret@[q])); assert(vx_s0.contains(vx_ret@[q])); let t = choose|t: int| 0 <= t < vx_s0.len() && vx_s0[t] == vx_ret@[q]; assert(ranges@[t] == *vx_ret@[q]); }
    }
fn write_consecutive_logic
theory graph circ closed
props C11
ens
    con_ok(vx_r.ls(), accepted_state as int),
    vx_r@.len() > 0 && vx_r@[0] == 10 && vx_r@.last() == 10,
at fn.end
    proof {
        let v = vx_ret.ls(); let a = accepted_state as int; assert(v.len() == 7); assert(v.take(7) =~= v);
        sq(v, 0); sq(v, 1); sq(v, 2); sq(v, 3); sq(v, 4); sq(v, 5); sq(v, 6);
        assert forall|n: int, c: Cell| n >= 0 implies #[trigger] con1(v, a, n, c) by {
            let x = v[3]; let y = v[4]; let z = v[5]; let e = v[6];
            rng_one(x, 0, n, c, 0, n, n - 1 - c.a); rng_one(y, 0, n, c, 0, n, n - 1 - c.a); rng_one(z, 0, n, c, 0, n, n - 1 - c.a);
            rng_pos(x, 2, n, c, 0, n); rng_pos(y, 2, n, c, 0, n); rng_pos(z, 2, n, c, 0, n);
            rng_one(x, 1, n, c, 0, n, 0); rng_one(x, 3, n, c, 0, n, 0); rng_one(x, 4, n, c, 0, n, 0); rng_one(x, 5, n, c, 0, n, 0); rng_one(x, 6, n, c, 0, n, 0);rng_one(y, 1, n, c, 0, n, 0); rng_one(y, 3, n, c, 0, n, 0); rng_one(y, 4, n, c, 0, n, 0); rng_one(y, 5, n, c, 0, n, 0); rng_one(y, 6, n, c, 0, n, 0);rng_one(z, 1, n, c, 0, n, 0); rng_one(z, 3, n, c, 0, n, 0); rng_one(z, 4, n, c, 0, n, 0); rng_one(z, 5, n, c, 0, n, 0); rng_one(z, 6, n, c, 0, n, 0);rng_one(e, 0, n, c, 0, n, 0); rng_one(e, 1, n, c, 0, n, 0); rng_one(e, 2, n, c, 0, n, 0); rng_one(e, 3, n, c, 0, n, 0); rng_one(e, 4, n, c, 0, n, 0); rng_one(e, 5, n, c, 0, n, 0); rng_one(e, 6, n, c, 0, n, 0);
        }
    }
fn write_prev_states
theory graph circ closed
props C11
ens
    prvs(vx_r.ls(), idx as int, ranges@, ranges@.len() as int),
    vx_r@.len() == 0 || vx_r@.last() == 10,
at loop0.inv
    seq_refs(vx_it0@, ranges@),
    prvs(prev_states.ls(), idx as int, ranges@, vx_i0 as int),
    prev_states@.len() == 0 || prev_states@.last() == 10,
fn write_is_substr
theory graph circ closed
props C11
ens
    vx_r.ls().len() == 1 && ons(vx_r.ls()[0], idx as int, ranges@),
    vx_r@.len() > 0 && vx_r@.last() == 10,
at loop0.inv
    seq_refs(vx_it0@, ranges@),
    vx_acc1@.len() == vx_i0,
    all_single(vx_acc1@),
    forall|t: int, n: int, i: int, c: Cell| #![trigger xrd(vx_acc1@[t], n, i, c)] 0 <= t < vx_acc1@.len() ==> (xrd(vx_acc1@[t], n, i, c) ==> onr(ranges@[t], t, idx as int, i, c)),
at fn.start
    let ghost mut vx_xs = Seq::<VString>::empty();
at loop0.after
    proof { vx_xs = vx_acc1@; }
at fn.end
    proof {
        assert(ranges.len() == ranges@.len());
        let l = vx_ret.ls()[0];
        assert forall|n: int, i: int, c: Cell| #[trigger] fa(l, 2, n, i, c) implies exists|t: int| 0 <= t < ranges@.len() && #[trigger] onr(ranges@[t], t, idx as int, i, c) by {
            assert(xrd(multi_or_inputs, n, i, c));
            let q = choose|q: int| 0 <= q < vx_xs.len() && #[trigger] xrd(vx_xs[q], n, i, c); assert(onr(ranges@[q], q, idx as int, i, c));
        }
    }
fn write_is_reveal_and_reveal
theory graph circ closed
props C11
ens
    rvl(vx_r.ls(), idx as int),
    vx_r@.len() > 0 && vx_r@.last() == 10,
fn write_substr_logic
theory graph circ closed
props C11
ens
    forall|sl: int| rok(ranges@, sl) ==> #[trigger] rev_ok(vx_r.ls(), idx as int, ranges@.len() as int, sl),
    vx_r@.len() > 0 && vx_r@.last() == 10,
at fn.start
    proof { dec_plainc(idx as int); }
at fn.end
    proof {
        let v = vx_ret.ls(); let rs = sorted_ranges@; let m = rs.len() as int; let ix = idx as int;
        assert(ranges.len() == ranges@.len());
        assert(v.len() == m + 10);
        assert(rdc(v, ix, m));
        assert(kind(v[4]) == 2 && kind(v[5]) == 0);
        assert(ons(v[6 + m], ix, rs) && kind(v[9 + m]) == 3);
        assert forall|t: int| 0 <= t < m implies prv(#[trigger] v[6 + t], ix, t, rs[t].0 as int) by {}
        let w = v.subrange(7 + m, 9 + m);
        assert(rvl(w, ix));
        assert forall|sl: int| rok(ranges@, sl) implies #[trigger] rev_ok(v, ix, m, sl) by {
            assert forall|q: int| 0 <= q < rs.len() implies (#[trigger] rs[q]).0 < sl && 1 <= rs[q].1 < sl by { let t = choose|t: int| 0 <= t < ranges@.len() && ranges@[t] == *rs[q]; assert(ranges@[t].0 < sl); }
            rev_new(v, ix, rs, sl);
        }
    }
fn add_substrs_constraints
theory graph circ closed
props C11
ens
    vx_r.is_ok() ==> exists|a: usize, ms: Seq<int>| a < regex_dfa.dfa.states@.len() && acc(regex_dfa.dfa.states@[a as int]) && #[trigger] subs_all(vx_r.unwrap(), *regex_dfa, a, ms),
    vx_r.is_ok() ==> vx_r.unwrap()@.len() > 0 && vx_r.unwrap()@[0] == 10,
at fn.start
    let ghost mut vx_rs = Seq::<(usize, usize)>::empty();
    let ghost mut vx_it = Seq::<&(usize, usize)>::empty();
    let ghost mut vx_ms = Seq::<int>::empty();
at call.write_consecutive_logic.0.after
    let ghost vx_c0 = circom.ls();
    proof { assert(con_ok(vx_c0, accepted_state as int)); }
at loop0.before
    proof { assert forall|sl: int| fits(*regex_dfa, sl) implies #[trigger] subs(circom.ls(), accepted_state as int, vx_ms, sl) by { let l = circom.ls(); let v = l.skip(vx_c0.len() as int); assert(l =~= vx_c0 + v); subs_none(vx_c0, v, accepted_state as int, sl); } }
at loop0.inv
    seq_refs(vx_it0@, regex_dfa.substrings.substring_ranges@),
    circom@.len() > 0 && circom@[0] == 10 && circom@.last() == 10,
    vx_ms.len() == vx_i0,
    forall|sl: int| fits(*regex_dfa, sl) ==> #[trigger] subs(circom.ls(), accepted_state as int, vx_ms, sl),
at loop0.start
    let ghost vx_u = circom.ls();
at loop1.inv
    set_refs(vx_it1@, ranges@),
    vx_acc2@.len() == vx_i1,
    forall|q: int| 0 <= q < vx_i1 ==> #[trigger] vx_acc2@[q] == *vx_it1@[q],
at loop1.after
    proof { vx_rs = vx_acc2@; vx_it = vx_it1@; }
at loop0.end
    proof {
        let ms = vx_ms; let m = vx_rs.len() as int; vx_ms = ms.push(m);
        assert forall|sl: int| fits(*regex_dfa, sl) implies #[trigger] subs(circom.ls(), accepted_state as int, vx_ms, sl) by {
            assert(rok(vx_rs, sl)) by { assert forall|q: int| 0 <= q < vx_rs.len() implies (#[trigger] vx_rs[q]).0 < sl && 1 <= vx_rs[q].1 < sl by { assert(vx_rs[q] == *vx_it[q]); assert(regex_dfa.substrings.substring_ranges@[vx_i0 - 1]@.contains(vx_rs[q])); } }
            let l = circom.ls();
            let v = choose|v: Seq<VString>| #[trigger] (vx_u + v) == l && rev_ok(v, vx_i0 - 1, m, sl);
            subs_more(vx_u, v, accepted_state as int, ms, m, sl);
        }
    }
at loop0.after
    let ghost vx_w = circom.ls();
at fn.end
    proof {
        let v = vx_ret.unwrap().ls();
        assert(v.drop_last() =~= vx_w);
        assert(subs_all(vx_ret.unwrap(), *regex_dfa, accepted_state, vx_ms));
    }
fn gen_circom_allstr
theory graph circ closed
props C11
req
    closed(*dfa_graph, 0, dfa_graph.states@.len() as int),
ens
    vx_r.is_ok() && sound(*dfa_graph, template_name@) ==> main_ok(vx_r.unwrap().ls(), dfa_graph.states@.len() as int),
at fn.end
    proof {
        let sl = dfa_graph.states@.len() as int;
        assert(dfa_graph.states.len() == dfa_graph.states@.len());
        let a = choose|a: usize| #[trigger] out_ok(accept_nodes@, a, accept_lines@, end_anchor);
        assert(accept_nodes@.contains(a));
        if sound(*dfa_graph, template_name@) {
            let y = Cnt { e: eq_i, l: lt_i, a: and_i, o: multi_or_i };
            assert(final_code@ =~= declarations@ + init_code@ + lines@ + accept_lines@);
            flat_cat(declarations@, init_code@); flat_cat(declarations@ + init_code@, lines@); flat_cat(declarations@ + init_code@ + lines@, accept_lines@); flat_own(lines@);
            main_new(flat_ls(declarations@), flat_ls(init_code@), lines@, flat_ls(accept_lines@), y, sl, end_anchor, a as int);
        }
    }
fn gen_circom_string
theory graph circ closed
props C11
req
    closed(regex_and_dfa.dfa, 0, regex_and_dfa.dfa.states@.len() as int),
ens
    vx_r.is_ok() && sound(regex_and_dfa.dfa, template_name@) && fits(*regex_and_dfa, regex_and_dfa.dfa.states@.len() as int) ==> shut(vx_r.unwrap().ls()),
at fn.end
    proof {
        let sl = regex_and_dfa.dfa.states@.len() as int; let r = *regex_and_dfa;
        if sound(r.dfa, template_name@) && fits(r, sl) {
            let (a, ms) = choose|a: usize, ms: Seq<int>| a < r.dfa.states@.len() && acc(r.dfa.states@[a as int]) && #[trigger] subs_all(substrs, r, a, ms);
            assert(a != 0);
            shut_subs(circom.ls(), substrs.ls(), sl, a as int, ms);
        }
    }
fn gen_circom_template
theory graph circ closed
props C11
req
    closed(regex_and_dfa.dfa, 0, regex_and_dfa.dfa.states@.len() as int),
ens
    vx_r.is_ok() && sound(regex_and_dfa.dfa, template_name@) && (gen_substrs ==> fits(*regex_and_dfa, regex_and_dfa.dfa.states@.len() as int)) ==> exists|s: VString, t: VString| #[trigger] shut2(s, t) && wrote(*circom_path, s@ + t@),
at fn.start
    let ghost mut vx_t: VString = arbitrary();
at call.add_substrs_constraints.0.after
    proof { vx_t = substrs; }
at fn.end
    proof {
        let sl = regex_and_dfa.dfa.states@.len() as int; let r = *regex_and_dfa;
        if sound(r.dfa, template_name@) && (gen_substrs ==> fits(r, sl)) {
            if gen_substrs {
                let (a, ms) = choose|a: usize, ms: Seq<int>| a < r.dfa.states@.len() && acc(r.dfa.states@[a as int]) && #[trigger] subs_all(vx_t, r, a, ms);
                assert(a != 0);
                shut_subs(circom.ls(), vx_t.ls(), sl, a as int, ms);
                assert(shut2(circom, vx_t)); assert(file.content() =~= circom@ + vx_t@);
            } else {
                let t = choose|t: VString| t@ == seq![10u8, 125u8] && t.ls().len() == 1 && #[trigger] kind(t.ls()[0]) == 3;
                shut_main(circom.ls(), t.ls(), sl);
                assert(shut2(circom, t)); assert(file.content() =~= circom@ + t@);
            }
        }
    }

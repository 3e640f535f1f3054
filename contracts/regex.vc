fn create_special_char_mappings
theory graph lang regex
props C04 C14
ens
    esc_map(vx_r@),
at loop0.inv
    forall|k: &VString| #[trigger] vx_acc1@.contains_key(k) <==> exists|q: int| 0 <= q < vx_i0 && (#[trigger] vx_it0@[q]).0 == k,
    forall|q: int| 0 <= q < vx_i0 ==> esc((#[trigger] vx_it0@[q]).0@) == Some(vx_it0@[q].1),
    forall|k: &VString| #[trigger] vx_acc1@.contains_key(k) ==> esc(k@) == Some(vx_acc1@[k]),
at loop0.start
    proof { esc_distinct(); }
at loop0.after
    proof {
        esc_distinct();
        assert forall|k: &VString| esc(k@).is_some() implies #[trigger] vx_acc1@.contains_key(k) by {
            assert(exists|q: int| 0 <= q < vx_it0@.len() && (#[trigger] vx_it0@[q]).0@ == k@) by {
                assert(vx_it0@.len() == 10);
                assert(vx_it0@[0].0@ == k@ || vx_it0@[1].0@ == k@ || vx_it0@[2].0@ == k@ || vx_it0@[3].0@ == k@ || vx_it0@[4].0@ == k@ || vx_it0@[5].0@ == k@ || vx_it0@[6].0@ == k@ || vx_it0@[7].0@ == k@ || vx_it0@[8].0@ == k@ || vx_it0@[9].0@ == k@);
            }
            let q = choose|q: int| 0 <= q < vx_it0@.len() && (#[trigger] vx_it0@[q]).0@ == k@;
            axiom_text(*vx_it0@[q].0, *k);
        }
    }
fn parse_char
theory graph lang regex
props C04 C14
req
    esc_map(special_char_mappings@),
ens
    forall|b: u8| #[trigger] names(s@, b) ==> vx_r.is_ok() && vx_r.unwrap() == b,
    s@ == seq![32u8] ==> vx_r.is_ok() && vx_r.unwrap() == 32,
at fn.start
    proof {
        axiom_utf8(*s, 1);
        esc_distinct();
        if s@.len() >= 2 { assert(s@.subrange(0, 2)[1] == s@[1]); assert(s@.subrange(0, 2)[0] == s@[0]); }
        assert forall|b: u8| #[trigger] names(s@, b) implies (esc(s@) == Some(b) && !(s@.len() >= 2 && s@[1] == 120)) || (s@.len() == 1 && s@[0] == b && esc(s@).is_none()) || (s@.len() == 4 && s@.subrange(0, 2) == seq![92u8, 120u8] && hex_val(s@.subrange(2, 4)) == Some(b as int)) by {
            if !(s@ == seq![b]) && esc(shown(b)).is_none() && !(32 < b && b < 127) {
                assert(s@.subrange(0, 2) =~= seq![92u8, 120u8]);
                axiom_hex2(s@.subrange(2, 4));
                assert(hexd(hexu(b as int / 16)) == b as int / 16);
                assert(hexd(hexu(b as int % 16)) == b as int % 16);
            }
        }
    }
fn process_range_edge
theory graph lang regex
props C04 C14
type vx_acc2 Vec<u8>
req
    esc_map(special_char_mappings@),
    re.pat() == DASHED(),
ens
    forall|x: u8, y: u8, s: Seq<u8>, e: Seq<u8>| #[trigger] label_range(key@, x, y, s, e) ==> vx_r.is_ok() && grown(old(edges)@, final(edges)@, value, |b: u8| x <= b && b <= y),
at fn.start
    proof {
        assert forall|x: u8, y: u8, s: Seq<u8>, e: Seq<u8>| #[trigger] label_range(key@, x, y, s, e) implies last_dash(key@, s.len() as int) && one_line(key@) && key@.subrange(0, s.len() as int) == s && key@.subrange(s.len() as int + 1, key@.len() as int) == e by { range_dash(key@, x, y, s, e); }
        assert forall|p: int, q: int| #[trigger] last_dash(key@, p) && #[trigger] last_dash(key@, q) implies p == q by { assert(dash(key@, p) && dash(key@, q)); }
    }
    let ghost e0 = edges@;
at call.parse_char.1.after
    proof {
        assert forall|x: u8, y: u8, s: Seq<u8>, e: Seq<u8>| #[trigger] label_range(key@, x, y, s, e) implies x == start_index && y == end_index by { assert(names(s, x) && names(e, y)); }
    }
at loop0.inv
    vx_acc2@ == vx_it0@.subrange(0, vx_i0 as int),
at loop0.after
    proof { assert(vx_acc2@ =~= vx_it0@); }
at loop1.inv
    forall|b: u8| #[trigger] vx_x3@.contains(b) <==> (edge(e0, value) && e0[value]@.contains(b)) || exists|q: int| 0 <= q < vx_i1 && (#[trigger] vx_it1@[q]) == b,
at loop1.after
    proof {
        assert forall|b: u8| #![trigger vx_x3@.contains(b)] (exists|q: int| 0 <= q < vx_it1@.len() && (#[trigger] vx_it1@[q]) == b) == (start_index <= b && b <= end_index) by {
            if start_index <= b && b <= end_index { assert(vx_it1@[b - start_index] == b) by { assert(char_range@[b - start_index].vi() == b); } }
        }
    }
fn process_single_edge
theory graph lang regex
props C04 C14
req
    esc_map(special_char_mappings@),
ens
    forall|c: u8| #[trigger] names(key@, c) ==> vx_r.is_ok() && grown(old(edges)@, final(edges)@, value, |b: u8| b == c),
    key@ == seq![32u8] ==> vx_r.is_ok() && grown(old(edges)@, final(edges)@, value, |b: u8| b == 32),
fn process_edge
theory graph lang regex
props C04 C14
req
    esc_map(special_char_mappings@),
ens
    is_label(key@) ==> vx_r.is_ok() && grown(old(edges)@, final(edges)@, value, |b: u8| in_label(key@, b)),
    key@ == seq![32u8] ==> vx_r.is_ok() && grown(old(edges)@, final(edges)@, value, |b: u8| b == 32),
at fn.start
    let ghost e0 = edges@;
    proof {
        if is_label(key@) {
            if exists|b: u8| #[trigger] names(key@, b) { single_no_dash(key@, choose|b: u8| #[trigger] names(key@, b)); }
            else { let (x, y, s, e) = choose|x: u8, y: u8, s: Seq<u8>, e: Seq<u8>| #[trigger] label_range(key@, x, y, s, e); range_dash(key@, x, y, s, e); assert(dash(key@, s.len() as int)); }
        }
    }
at fn.end
    proof {
        if is_label(key@) {
            if exists|b: u8| #[trigger] names(key@, b) { let c = choose|b: u8| #[trigger] names(key@, b); assert(grown(e0, edges@, value, |b: u8| b == c)); label_bytes_single(key@, c, e0, edges@, value); }
            else { let (x, y, s, e) = choose|x: u8, y: u8, s: Seq<u8>, e: Seq<u8>| #[trigger] label_range(key@, x, y, s, e); label_bytes_range(key@, x, y, s, e, e0, edges@, value); }
        }
    }
fn process_state_edges
theory graph lang regex
props C04 C14
ens
    labelled(state_edges@) ==> vx_r.is_ok() && bytes_of(state_edges@, vx_r.unwrap()@),
at loop0.inv
    labelled(state_edges@) ==> forall|k: usize| #[trigger] edge(edges@, k) <==> exists|q: int| 0 <= q < vx_i0 && *(#[trigger] vx_it0@[q]).1 == k,
    labelled(state_edges@) ==> forall|k: usize, b: u8| #[trigger] has(edges@, k, b) <==> exists|q: int| 0 <= q < vx_i0 && *(#[trigger] vx_it0@[q]).1 == k && in_label(vx_it0@[q].0@, b),
at loop0.start
    proof { space_label(); assert(*vx_e0.0 == *vx_it0@[vx_i0 - 1].0 && state_edges@.contains_key(*vx_it0@[vx_i0 - 1].0)); }
    let ghost e1 = edges@;
at loop0.end
    proof {
        if labelled(state_edges@) {
            let l = vx_it0@[vx_i0 - 1].0@; let v = *vx_it0@[vx_i0 - 1].1;
            assert(is_label(l));
            assert(grown(e1, edges@, v, |b: u8| in_label(l, b))) by {
                if l == shown(32u8) { assert(grown(e1, edges@, v, |b: u8| b == 32)); assert forall|b: u8| in_label(l, b) == (b == 32) by {} }
            }
            assert forall|k: usize| #[trigger] edge(edges@, k) <==> exists|q: int| 0 <= q < vx_i0 && *(#[trigger] vx_it0@[q]).1 == k by { assert(edge(edges@, k) == (edge(e1, k) || k == v)); }
            assert forall|k: usize, b: u8| #[trigger] has(edges@, k, b) <==> exists|q: int| 0 <= q < vx_i0 && *(#[trigger] vx_it0@[q]).1 == k && in_label(vx_it0@[q].0@, b) by { assert(has(edges@, k, b) == (has(e1, k, b) || (k == v && in_label(l, b)))); }
        }
    }
at loop0.after
    proof {
        if labelled(state_edges@) {
            assert forall|k: usize, b: u8| #[trigger] has(edges@, k, b) <==> label_edge(state_edges@, k, b) by {
                if label_edge(state_edges@, k, b) { let l = choose|l: VString| #[trigger] state_edges@.contains_key(l) && state_edges@[l] == k && in_label(l@, b); let q = choose|q: int| 0 <= q < vx_it0@.len() && *(#[trigger] vx_it0@[q]).0 == l; assert(*vx_it0@[q].1 == k); }
                if has(edges@, k, b) { let q = choose|q: int| 0 <= q < vx_it0@.len() && *(#[trigger] vx_it0@[q]).1 == k && in_label(vx_it0@[q].0@, b); assert(state_edges@.contains_key(*vx_it0@[q].0)); }
            }
            assert forall|k: usize| #[trigger] edge(edges@, k) <==> (exists|l: VString| #[trigger] state_edges@.contains_key(l) && state_edges@[l] == k) by {
                if exists|l: VString| #[trigger] state_edges@.contains_key(l) && state_edges@[l] == k { let l = choose|l: VString| #[trigger] state_edges@.contains_key(l) && state_edges@[l] == k; let q = choose|q: int| 0 <= q < vx_it0@.len() && *(#[trigger] vx_it0@[q]).0 == l; assert(*vx_it0@[q].1 == k); }
                if edge(edges@, k) { let q = choose|q: int| 0 <= q < vx_it0@.len() && *(#[trigger] vx_it0@[q]).1 == k; assert(state_edges@.contains_key(*vx_it0@[q].0)); }
            }
        }
    }
fn parse_transition
theory graph lang regex
props C04 C14
req
    ascii(transition@),
ens
    final(state).source == old(state).source, final(state).typ == old(state).typ,
    forall|p: PTrans| #[trigger] trans_text(transition@, p) && printed_label(p.label) ==> vx_r.is_ok() && exists|k: VString| k@ == norm(p.label) && final(state).edges@ == #[trigger] old(state).edges@.insert(k, p.dst),
at fn.start
    proof {
        reveal(norm);
        assert forall|p: PTrans| #[trigger] trans_text(transition@, p) && printed_label(p.label) implies exists|l: Seq<u8>, r: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, n: Seq<u8>, d: Seq<u8>| #![trigger cut_once(transition@, ARROW(), l, r), padded(l, a, p.label, b), padded(r, c, n, d)]
            cut_once(transition@, ARROW(), l, r) && padded(l, a, p.label, b) && padded(r, c, n, d) && dec_val(n) == Some(p.dst as int) by {
            let (a, b, c, n, d) = choose|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, n: Seq<u8>, d: Seq<u8>| #[trigger] trans_parts(transition@, p, a, b, c, n, d);
            trans_cut(transition@, p, a, b, c, n, d);
        }
    }
at call.trim.0.after
    let ghost g_src = src@;
    proof { piece_ascii(parts@[0]@, transition@); piece_ascii(src@, parts@[0]@); }
at if1.then.start
    proof { axiom_utf8(src, 1); axiom_utf8(src, 2); }
at call.insert.0.after
    proof {
        assert forall|p: PTrans| #[trigger] trans_text(transition@, p) && printed_label(p.label) implies exists|k: VString| k@ == norm(p.label) && state.edges@ == #[trigger] old(state).edges@.insert(k, p.dst) by {
            assert(g_src == p.label);
            assert(src@ == norm(p.label));
        }
    }
fn parse_states
theory graph lang regex
props C04 C14
req
    ascii(output@),
ens
    (forall|i: int| 0 <= i < printed(output@).len() ==> pstate_ok(#[trigger] printed(output@)[i])) ==> vx_r.is_ok() && final(dfa_info).states@.len() == old(dfa_info).states@.len() + printed(output@).len()
        && forall|i: int| 0 <= i < printed(output@).len() ==> read_state(#[trigger] final(dfa_info).states@[old(dfa_info).states@.len() + i], printed(output@)[i]),
at fn.start
    let ghost ps = printed(output@);
    let ghost n0 = dfa_info.states@.len();
    let ghost good = forall|i: int| 0 <= i < ps.len() ==> pstate_ok(#[trigger] ps[i]);
at loop0.inv
    good ==> dfa_info.states@.len() == n0 + vx_i0,
    good ==> forall|i: int| n0 <= i < n0 + vx_i0 ==> read_state(#[trigger] dfa_info.states@[i], ps[i - n0]),
at loop1.after
    proof {
        assert(printed_line(vx_it0@[vx_i0 - 1]@[0]@, p));
        assert(vx_it1@.len() == p.trans.len());
        assert(good ==> read_state(state, p));
    }
at loop0.start
    let ghost p = ps[vx_i0 - 1];
    proof { let c0 = vx_it0@[vx_i0 - 1]@[0]@; if c0.len() > 0 { assert(c0.subrange(0, 1) =~= seq![c0[0]]); assert(c0[0] == 42 ==> c0.subrange(0, 1) == seq![42u8]); if c0.subrange(0, 1) == seq![42u8] { assert(seq![42u8][0] == 42u8); } } }
    proof { assert(ascii(vx_it0@[vx_i0 - 1]@[0]@)); assert(good ==> pstate_ok(ps[vx_i0 - 1])); }
at loop1.before
    proof { assert(ACC().len() == 6); keyed_none(state.edges@, p.trans); }
    let ghost ty = state.typ;
at loop1.inv
    state.source == p.id, state.typ == ty,
    good ==> keyed(state.edges@, p.trans, vx_i1 as int),
at loop1.start
    let ghost m0 = state.edges@;
    proof { assert(ascii(vx_it1@[vx_i1 - 1]@[0]@)); if good { reveal(pstate_ok); assert(trans_text(vx_it1@[vx_i1 - 1]@[0]@, p.trans[vx_i1 - 1]) && printed_label(p.trans[vx_i1 - 1].label)); } }
at loop1.end
    proof {
        if good {
            let pt = p.trans[vx_i1 - 1];
            reveal(pstate_ok);
            assert(trans_text(transition@[0]@, pt) && printed_label(pt.label));
            let k = choose|k: VString| k@ == norm(pt.label) && state.edges@ == #[trigger] m0.insert(k, pt.dst);
            keyed_step(m0, p, vx_i1 - 1, k);
        }
    }
fn handle_eoi_transitions
theory graph lang regex
props C04 C14
ens
    final(dfa_info).states@.len() == old(dfa_info).states@.len(),
    forall|i: int| 0 <= i < old(dfa_info).states@.len() ==> eoi_done(old(dfa_info).states@[i], #[trigger] final(dfa_info).states@[i]),
at loop0.inv
    dfa_info.states@.len() == vx_n0, vx_n0 == old(dfa_info).states@.len(), vx_i0 <= vx_n0,
    forall|i: int| 0 <= i < vx_i0 ==> eoi_done(old(dfa_info).states@[i], #[trigger] dfa_info.states@[i]),
    forall|i: int| vx_i0 <= i < vx_n0 ==> #[trigger] dfa_info.states@[i] == old(dfa_info).states@[i],
at loop0.start
    proof { assert forall|a: VString, b: VString| #![trigger a@, b@] a@ == b@ implies a == b by { axiom_text(a, b); } }
fn find_start_state
theory graph lang regex
props C04 C14
ens
    vx_r.is_ok() ==> vx_r.unwrap() == printed_start(output@),
    has_start(output@) ==> vx_r.is_ok(),
fn sort_and_rename_states
theory graph lang regex
props C04 C14
type sorted_states Vec<DFAStateInfo>
type vx_acc1 Option<&DFAStateInfo>
type vx_acc4 VMap<usize, usize>
type vx_acc5 Vec<DFAStateInfo>
req
    uniq_src(dfa_info.states@),
    targets_ok(dfa_info.states@),
ens
    exists|ord: Seq<int>| #[trigger] reordered(dfa_info.states@, ord, start_state) && renumbered(dfa_info.states@, ord, vx_r.states@),
at fn.start
    let ghost t = dfa_info.states@;
    let ghost mut ord = Seq::<int>::empty();
    let ghost mut qg = seq![start_state];
at loop0.before
    proof { assert(queue@ =~= qg); bfs_start(t, start_state); }
at loop0.inv
    except_break
        qg == queue@,
    always
        t == dfa_info.states@,
        bfs(t, start_state, ord, sorted_states@, visited@, queue@),
    ensures
        queue@ == Seq::<usize>::empty(),
at loop0.start
    let ghost v0 = visited@;
    let ghost q1 = queue@;
    let ghost s0 = sorted_states@;
    let ghost mut found: int = -1;
    proof {
        assert(q1 == qg.drop_first() && state_id == qg[0]);
        bfs_name(t, start_state, ord, sorted_states@, v0, qg);
        if v0.contains(state_id) { assert(v0.insert(state_id) =~= v0); bfs_skip(t, start_state, ord, sorted_states@, v0, qg); }
    }
at loop0.end
    proof { qg = queue@; }
at loop1.inv
    except_break
        vx_acc1.is_none(),
        forall|i: int| 0 <= i < vx_i1 ==> (#[trigger] t[i]).source != state_id,
    always
        true,
    ensures
        match vx_acc1 { Some(s) => 0 <= found < t.len() && *s == t[found] && s.source == state_id, None => !src(t, state_id) },
at loop1.start
    proof { found = vx_i1 - 1; }
at loop1.after
    proof { if vx_acc1.is_none() { bfs_skip(t, start_state, ord, s0, v0, qg); } }
at if1.then.start
    proof {
        assert(src(t, state_id));
    }
at loop2.inv
    forall|x: usize| #[trigger] q1.contains(x) ==> queue@.contains(x),
    forall|p: int| 0 <= p < vx_i2 ==> queued(*(#[trigger] vx_it2@[p]), visited@, queue@),
    srcs(t, start_state, queue@),
at loop2.start
    let ghost qp = queue@;
    proof {
        push_contains(queue@, *vx_e2);
        let d = *vx_it2@[vx_i2 - 1];
        let l = choose|l: VString| #[trigger] state.edges@.contains_key(l) && state.edges@[l] == d;
        assert(t[found].edges@.contains_key(l));
        assert(src(t, d));
    }
at loop2.end
    proof {
        reveal(srcs);
        assert forall|k: int| 0 <= k < queue@.len() implies src(t, #[trigger] queue@[k]) || queue@[k] == start_state by { if k < qp.len() { assert(queue@[k] == qp[k]); } }
    }
at loop2.after
    proof {
        assert(closing(t, found, visited@, queue@)) by { reveal(closing); assert forall|l: VString| #[trigger] t[found].edges@.contains_key(l) implies queued(t[found].edges@[l], visited@, queue@) by { assert(state.edges@.contains_key(l)); } }
        bfs_step(t, start_state, ord, s0, v0, qg, found, queue@);
        ord = ord.push(found);
    }
at loop0.after
    proof { assert(targets_ok(t)); assert(queue@ == Seq::<usize>::empty()); assert(bfs(t, start_state, ord, sorted_states@, visited@, queue@));  bfs_done(t, start_state, ord, sorted_states@, visited@); reveal(positions); }
at loop3.inv
    positions(t, ord, vx_acc4@, vx_i3 as int),
at loop3.end
    proof { assert(*vx_it3@[vx_i3 - 1] == t[ord[vx_i3 - 1]]); reveal(positions); }
at loop4.inv
    vx_acc5@.len() == vx_i4,
    forall|i: int| 0 <= i < vx_i4 ==> ren(t, ord, #[trigger] vx_acc5@[i], i),
at loop5.before
    let ghost e0 = state.edges@;
    proof { assert(e0 == t[ord[vx_i4 - 1]].edges@); }
at loop5.inv
    state.source == new_id, state.typ == t[ord[vx_i4 - 1]].typ,
    forall|l: VString| #[trigger] state.edges@.contains_key(l) == e0.contains_key(l),
    forall|q: int| 0 <= q < vx_i5 ==> state.edges@[#[trigger] vx_it5@[q]] < ord.len() && t[ord[state.edges@[vx_it5@[q]] as int]].source == e0[vx_it5@[q]],
    forall|q: int| vx_i5 <= q < vx_it5@.len() ==> state.edges@[#[trigger] vx_it5@[q]] == e0[vx_it5@[q]],
    vx_i5 < vx_it5@.len() ==> state.edges@.contains_key(vx_it5@[vx_i5 as int]),
at loop5.start
    proof {
        let l = vx_it5@[vx_i5 - 1];
        assert(e0.dom().contains(l));
        assert(t[ord[vx_i4 - 1]].edges@.contains_key(l));
        positions_at(t, ord, state_map@, e0[l]);
    }
at loop5.end
    proof { if vx_i5 < vx_it5@.len() { assert(e0.dom().contains(vx_it5@[vx_i5 as int])); } }
at loop5.after
    proof {
        reveal(ren);
        assert forall|l: VString| #[trigger] state.edges@.contains_key(l) implies state.edges@[l] < ord.len() && t[ord[state.edges@[l] as int]].source == e0[l] by {
            assert(e0.dom().contains(l));
            let q = choose|q: int| 0 <= q < vx_it5@.len() && (#[trigger] vx_it5@[q]) == l;
            assert(vx_it5@[q] == l);
        }
        assert(ren(t, ord, state, vx_i4 - 1));
    }
at fn.end
    proof { assert(reordered(t, ord, start_state) && renumbered(t, ord, vx_ret.states@)); }
fn convert_dfa_to_graph
theory graph lang regex
props C04 C14
req
    ascii(dbg_text(&dfa)),
    printed_ok(printed(dbg_text(&dfa))),
ens
    vx_r.is_ok() ==> wf(vx_r.unwrap()) && forall|s: Seq<u8>| #[trigger] accepts(vx_r.unwrap(), s) == plang(printed(dbg_text(&dfa)), printed_start(dbg_text(&dfa)), s),
    vx_r.is_ok() ==> forall|i: int, k: usize, b: u8| 0 <= i < vx_r.unwrap().states@.len() && #[trigger] hasp(vx_r.unwrap(), i, k, b) ==> printed_byte(printed(dbg_text(&dfa)), b),
    vx_r.is_ok() ==> vx_r.unwrap().states@.len() <= printed(dbg_text(&dfa)).len() && plisted(printed(dbg_text(&dfa)), printed_start(dbg_text(&dfa))),
    ptargets(printed(dbg_text(&dfa))) && has_start(dbg_text(&dfa)) && plisted(printed(dbg_text(&dfa)), printed_start(dbg_text(&dfa))) ==> vx_r.is_ok(),
at fn.start
    let ghost ps = printed(dbg_text(&dfa));
    let ghost fine = ptargets(ps) && has_start(dbg_text(&dfa)) && plisted(ps, printed_start(dbg_text(&dfa)));
at call.handle_eoi_transitions.0.before
    let ghost a = dfa_info.states@;
at call.handle_eoi_transitions.0.after
    let ghost t = dfa_info.states@;
    proof {
        assert(holds(t, ps)) by { assert forall|i: int| 0 <= i < t.len() implies hold(#[trigger] t[i], ps[i]) by { assert(pstate_ok(ps[i])); assert(eoi_done(a[i], t[i])); assert(read_state(a[0 + i], ps[i])); read_hold(a[i], t[i], ps[i]); } }
        held_facts(t, ps);
    }
at loop0.inv
    forall|d: usize| #[trigger] vx_acc1@.contains(d) ==> src(t, d),
    forall|i: int| 0 <= i < vx_i0 ==> vx_acc1@.contains((#[trigger] t[i]).source),
at loop0.start
    proof { assert(src(t, t[vx_i0 - 1].source)); }
at loop1.inv
    forall|i: int, l: VString| 0 <= i < vx_i1 && #[trigger] t[i].edges@.contains_key(l) ==> src(t, t[i].edges@[l]),
at loop1.start
    proof { assert(*vx_it1@[vx_i1 - 1] == t[vx_i1 - 1]); }
at loop2.inv
    forall|q: int| 0 <= q < vx_i2 ==> src(t, *(#[trigger] vx_it2@[q])),
at loop2.start
    proof {
        let d = *vx_it2@[vx_i2 - 1];
        let l = choose|l: VString| state.edges@.contains_key(l) && state.edges@[l] == d;
        assert(t[vx_i1 - 1].edges@.contains_key(l));
        assert(fine ==> src(t, d));
        if src(t, d) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).source == d; assert(state_ids@.contains(t[i].source)); }
    }
at loop1.after
    proof { assert(targets_ok(t)); }
at loop3.before
    let ghost r = dfa_info.states@;
    let ghost ord = choose|ord: Seq<int>| #[trigger] reordered(t, ord, start_state) && renumbered(t, ord, r);
at loop3.inv
    graph.states@.len() == vx_i3,
    forall|i: int| 0 <= i < vx_i3 ==> gnode(r[i], #[trigger] graph.states@[i]),
at loop3.start
    proof { assert(ren(t, ord, r[vx_i3 - 1], vx_i3 - 1)); reveal(ren); assert(labelled(t[ord[vx_i3 - 1]].edges@)); assert(labelled(r[vx_i3 - 1].edges@)); }
at loop3.end
    proof { reveal(gnode); assert(gnode(r[vx_i3 - 1], graph.states@[vx_i3 - 1])); }
at loop3.after
    proof { converted(ps, start_state, t, ord, r, graph); }
fn create_dfa_config
theory graph lang regex front anchor
props C04
ens
    vx_r.conf().anchored && vx_r.conf().plain_bytes,
fn create_dfa_graph_from_regex
theory graph lang regex front anchor
props C04 C14
ens
    vx_r.is_ok() ==> re_auto(vx_r.unwrap(), regex@) && without(vx_r.unwrap(), 255) && some_string(vx_r.unwrap()),
    re_valid(whole(regex@)) && (exists|s: Seq<u8>| #[trigger] re_lang(regex@, s)) ==> vx_r.is_ok(),
at call.convert_dfa_to_graph.0.before
    let ghost d = dfa;
    proof { axiom_dfa(dfa); assert(d.pat() == whole(regex@)); if exists|s: Seq<u8>| #[trigger] re_lang(regex@, s) { let s = choose|s: Seq<u8>| #[trigger] re_lang(regex@, s); assert(re_matches(d.pat(), s)); } }
at fn.end
    proof {
        if vx_ret.is_ok() {
            let g = vx_ret.unwrap(); let ps = printed(dbg_text(&d)); let q = printed_start(dbg_text(&d));
            assert forall|s: Seq<u8>| #[trigger] accepts(g, s) == re_lang(regex@, s) by { assert(plang(ps, q, s) == re_matches(d.pat(), s)); }
            let s = choose|s: Seq<u8>| #[trigger] re_matches(d.pat(), s);
            assert(accepts(g, s) == re_lang(regex@, s));
        }
    }
fn match_string_with_dfa_graph
theory graph lang
props C04 C14
req
    wf(*graph),
ens
    vx_r == accepts(*graph, input@),
at fn.start
    let ghost mut w = seq![0int];
at loop0.before
    proof { assert(input@.subrange(0, 0) =~= Seq::<u8>::empty()); assert(path(*graph, 0, input@.subrange(0, 0), w)); }
at loop0.inv
    path(*graph, 0, input@.subrange(0, vx_i0 as int), w),
    w.last() == current_state,
    current_state < graph.states@.len(),
at loop1.inv
    except_break
        forall|q: int| 0 <= q < vx_i1 ==> !(#[trigger] vx_it1@[q]).1@.contains(byte),
        next_state.is_none(),
    always
        true,
    ensures
        match next_state { Some(k) => has(tr(*graph, current_state as int), k, byte), None => forall|q: int| 0 <= q < vx_it1@.len() ==> !(#[trigger] vx_it1@[q]).1@.contains(byte) },
at loop1.after
    proof {
        assert(input@[vx_i0 - 1] == byte);
        match next_state {
            Some(k) => { assert(edge(tr(*graph, current_state as int), k)); path_grow(*graph, input@, vx_i0 - 1, w, k as int); w = w.push(k as int); }
            None => {
                assert forall|k: usize| !(#[trigger] has(tr(*graph, w.last()), k, byte)) by { if edge(tr(*graph, w.last()), k) { let q = choose|q: int| 0 <= q < vx_it1@.len() && *(#[trigger] vx_it1@[q]).0 == k; assert(!vx_it1@[q].1@.contains(byte)); } }
                path_stuck(*graph, input@, vx_i0 - 1, w);
            }
        }
    }
at fn.end
    proof { assert(input@.subrange(0, input@.len() as int) =~= input@); path_ends(*graph, input@, w); assert(ACC().len() == 6); }
fn get_regex_and_dfa
theory graph lang regex front anchor
props C05 C06 C07 C14
type vx_acc2 Option<usize>
type substring_ranges_array Vec<VSet<(usize, usize)>>
type substring_boundaries_array Vec<(VSet<usize>, VSet<usize>)>
req
    old(decomposed_regex).parts@.len() <= 0x7fff_ffff,
ens
    vx_r.is_ok() ==> final(decomposed_regex).parts@.len() > 0 && front_end(old(decomposed_regex).parts@, final(decomposed_regex).parts@, vx_r.unwrap()),
    vx_r.is_ok() ==> vx_r.unwrap().has_end_anchor == end_anchored(final(decomposed_regex).parts@.last().regex_def@),
    vx_r.is_ok() ==> vx_r.unwrap().regex_pattern@ == all_patterns(final(decomposed_regex).parts@, final(decomposed_regex).parts@.len() as int),
    vx_r.is_ok() ==> forall|i: int| 0 <= i < final(decomposed_regex).parts@.len() - 1 ==> !end_anchored((#[trigger] final(decomposed_regex).parts@[i]).regex_def@),
    plain_parts(old(decomposed_regex).parts@) ==> vx_r.is_ok(),
at loop0.before
    let ghost parts = decomposed_regex.parts@;
    let ghost plain = plain_parts(old(decomposed_regex).parts@);
    let ghost caret = caret_position.is_some();
    let ghost mut js: Seq<Joined> = Seq::empty();
    let ghost mut pi: Seq<int> = Seq::empty();
    proof { published_empty(parts, js); chain_empty(parts, caret); }
at loop0.inv
    js.len() == vx_i0,
    parts.len() <= 0x8000_0000,
    chain(parts, caret, js),
    published(parts, vx_i0 as int, js, pi, substring_ranges_array@, substring_boundaries_array@),
    net_dfa_graph.states@.len() <= vx_i0 * 0x1_0000_0000,
    if vx_i0 == 0 { net_dfa_graph.states@.len() == 0 } else { js.last().net == net_dfa_graph && wf(net_dfa_graph) && single_acc(net_dfa_graph) },
    forall|i: int| 0 <= i < vx_i0 && i < parts.len() - 1 ==> !end_anchored((#[trigger] parts[i]).regex_def@),
    vx_i0 > 0 ==> end_anchor == end_anchored(parts[vx_i0 - 1].regex_def@),
at loop0.start
    let ghost net0 = net_dfa_graph;
    let ghost p = parts[vx_i0 - 1];
    let ghost first = caret && vx_i0 == 1;
at call.convert_dfa_to_graph.0.before
    let ghost d = dfa;
    proof {
        axiom_dfa(dfa); assert(d.pat() == whole(p.regex_def@));
        if plain { assert(parts == old(decomposed_regex).parts@); let s = choose|s: Seq<u8>| #[trigger] re_lang(p.regex_def@, s); assert(re_matches(d.pat(), s)); }
    }
at call.handle_caret_regex.0.before
    let ghost raw = dfa_graph;
    proof {
        let ps = printed(dbg_text(&d)); let q = printed_start(dbg_text(&d));
        assert forall|s: Seq<u8>| #[trigger] accepts(raw, s) == re_lang(p.regex_def@, s) by { assert(plang(ps, q, s) == re_matches(d.pat(), s)); }
        assert(re_auto(raw, p.regex_def@));
        assert(without(raw, 255)) by { assert forall|i: int, k: usize| 0 <= i < raw.states@.len() implies !(#[trigger] hasp(raw, i, k, 255)) by { if hasp(raw, i, k, 255) { assert(printed_byte(ps, 255)); } } }
        let s = choose|s: Seq<u8>| #[trigger] re_matches(d.pat(), s);
        assert(accepts(raw, s) == re_lang(p.regex_def@, s));
        assert(some_string(raw));
    }
at call.handle_caret_regex.0.after
    let ghost g = dfa_graph;
    proof {
        assert(part_auto(p, first, g));
        if first && p.regex_def@ == CARET() { simple_caret_wf(g); } else if first { caret_added_wf(raw, g); } else { if g.states@.len() == 1 { one_state(g); } }
        assert(wf(g) && single_acc(g));
    }
at loop1.inv
    vx_i1 == 0 ==> vx_acc2.is_none(),
    vx_i1 > 0 ==> vx_acc2 == Some((vx_i1 - 1) as usize),
at loop1.start
    proof { assert(net_dfa_graph.states@[vx_i1 - 1].state_id == vx_i1 - 1); }
at call.rename_states.0.after
    let ghost h = dfa_graph;
    let ghost base = max_state_index;
    let ghost j = Joined { before: net0, g: g, h: h, net: net0 };
    let ghost rg0 = substring_ranges_array@;
    let ghost bd0 = substring_boundaries_array@;
    proof { shifted_edges(g, h, base as int, 0); assert(det(tr(g, 0))); assert(h.states@[0].state_id == base); }
at if0.then.end
    proof { assert(pub_of(j, public_edges, (substr_starts, substr_ends))); assert(rg0.push(public_edges) == substring_ranges_array@ && bd0.push((substr_starts, substr_ends)) == substring_boundaries_array@); }
at call.add_dfa.0.after
    let ghost j1 = Joined { before: net0, g: g, h: h, net: net_dfa_graph };
    proof {
        let n = vx_i0 - 1; let net = net_dfa_graph;
        if p.is_public { assert(pub_of(j1, substring_ranges_array@.last(), substring_boundaries_array@.last())); published_one(parts, n, js, pi, rg0, bd0, j1, substring_ranges_array@.last(), substring_boundaries_array@.last()); pi = pi.push(n); } else { published_none(parts, n, js, pi, rg0, bd0, j1); }
        if n == 0 { shifted_same(g, h); assert(net == h); } else { assert(extended(net0, g, h, net)); assert(net.states.len() == net.states@.len()); extended_wf(net0, g, h, net); }
        joined_one(net0, g, h, net);
        assert(joined(js.push(j1), n)) by { if n > 0 { assert(js.push(j1)[n - 1] == js.last()); } }
        chain_longer(parts, caret, js, j1);
        js = js.push(j1);
    }
at loop0.after
    proof {
        assert(js.len() == parts.len());
        assert forall|i: int| 0 <= i < js.len() implies (#[trigger] js[i]).net.states@.len() <= usize::MAX by { assert(js[i].net.states.len() == js[i].net.states@.len()); }
        chain_lang(parts, caret, js);
    }
at loop2.inv
    vx_acc4@ == all_patterns(parts, vx_i2 as int),
at fn.end
    proof { let d = vx_ret.unwrap(); assert(published(parts, parts.len() as int, js, pi, d.substrings.substring_ranges@, d.substrings.substring_boundaries.unwrap()@)); assert(composed_lang(js)); assert(chain(parts, caret, js)); assert(d.dfa == js.last().net); assert(front(parts, caret, d, js)); }
fn create_regex_and_dfa_from_str_and_defs
theory graph lang regex front anchor
props C06 C07 C14
type vx_acc1 Vec<VSet<(usize, usize)>>
ens
    vx_r.is_ok() ==> re_auto(vx_r.unwrap().dfa, regex_str@) && without(vx_r.unwrap().dfa, 255) && some_string(vx_r.unwrap().dfa),
    vx_r.is_ok() ==> vx_r.unwrap().regex_pattern@ == regex_str@ && vx_r.unwrap().has_end_anchor == end_anchored(regex_str@),
    vx_r.is_ok() ==> vx_r.unwrap().substrings.substring_boundaries.is_none(),
    vx_r.is_ok() ==> same_ranges(substrs_defs_json.transitions@, vx_r.unwrap().substrings.substring_ranges@),
    re_valid(whole(regex_str@)) && (exists|s: Seq<u8>| #[trigger] re_lang(regex_str@, s)) ==> vx_r.is_ok(),
at loop0.inv
    vx_acc1@.len() == vx_i0,
    forall|k: int| 0 <= k < vx_i0 ==> same_range((#[trigger] vx_it0@[k])@, vx_acc1@[k]),
at loop1.inv
    forall|x: (usize, usize)| #[trigger] vx_acc2@.contains(x) <==> exists|q: int| 0 <= q < vx_i1 && (#[trigger] vx_it1@[q]) == x,
at loop1.after
    proof { assert(same_range(vx_it0@[vx_i0 - 1]@, vx_acc2)); }

fn get_accepted_state
theory graph
props C12 C09 C10 C14 C11
ens
    match vx_r { Some(i) => i < dfa.states@.len() && acc(dfa.states@[i as int]) && forall|j: int| 0 <= j < i ==> !acc(#[trigger] dfa.states@[j]),
                 None => forall|j: int| 0 <= j < dfa.states@.len() ==> !acc(#[trigger] dfa.states@[j]) },
at loop0.inv
    except_break
        forall|j: int| 0 <= j < vx_i0 ==> !acc(#[trigger] dfa.states@[j]),
        vx_acc1.is_none(),
    always
        true,
    ensures
        match vx_acc1 { Some(i) => i < dfa.states@.len() && acc(dfa.states@[i as int]) && forall|j: int| 0 <= j < i ==> !acc(#[trigger] dfa.states@[j]),
                 None => forall|j: int| 0 <= j < dfa.states@.len() ==> !acc(#[trigger] dfa.states@[j]) },
fn get_max_state
theory graph
props C12 C14
ens
    forall|j: int| 0 <= j < dfa.states@.len() ==> (#[trigger] dfa.states@[j]).state_id <= vx_r,
    dfa.states@.len() > 0 ==> exists|j: int| 0 <= j < dfa.states@.len() && (#[trigger] dfa.states@[j]).state_id == vx_r,
    dfa.states@.len() == 0 ==> vx_r == 0,
at loop0.inv
    forall|j: int| 0 <= j < vx_i0 ==> vx_acc1.is_some() && (#[trigger] dfa.states@[j]).state_id <= vx_acc1.unwrap(),
    vx_i0 > 0 ==> vx_acc1.is_some() && exists|j: int| 0 <= j < vx_i0 && (#[trigger] dfa.states@[j]).state_id == vx_acc1.unwrap(),
    vx_i0 == 0 ==> vx_acc1.is_none(),
at loop0.end
    proof { assert(vx_i0 > 0 && vx_e0 == dfa.states@[vx_i0 - 1]); }
fn collect_accepting_states
type accepting_states Vec<&DFAStateNode>
theory graph
props C06 C14
ens
    forall|id: usize| #[trigger] vx_r.1@.contains(id) <==> exists|j: int| 0 <= j < net_dfa.states@.len() && acc(#[trigger] net_dfa.states@[j]) && net_dfa.states@[j].state_id == id,
    forall|id: usize| #[trigger] vx_r.1@.contains(id) <==> exists|j: int| 0 <= j < vx_r.0@.len() && (#[trigger] vx_r.0@[j]).state_id == id,
at loop0.inv
    forall|id: usize| #[trigger] substring_starts@.contains(id) <==> exists|j: int| 0 <= j < vx_i0 && acc(#[trigger] net_dfa.states@[j]) && net_dfa.states@[j].state_id == id,
    forall|id: usize| #[trigger] substring_starts@.contains(id) <==> exists|j: int| 0 <= j < accepting_states@.len() && (#[trigger] accepting_states@[j]).state_id == id,
at loop0.start
    let ghost vx_g_acc = accepting_states@;
    let ghost vx_g_st = substring_starts@;
at loop0.end
    proof {
        if acc(net_dfa.states@[vx_i0 - 1]) {
            assert(accepting_states@.last().state_id == state.state_id);
            assert forall|id: usize| vx_g_st.contains(id) implies exists|j: int| 0 <= j < accepting_states@.len() && (#[trigger] accepting_states@[j]).state_id == id by {
                let j = choose|j: int| 0 <= j < vx_g_acc.len() && (#[trigger] vx_g_acc[j]).state_id == id; assert(accepting_states@[j] == vx_g_acc[j]);
            }
        }
    }
fn collect_public_edges
theory graph
props C06 C14
ens
    forall|a: usize, k: usize| #[trigger] vx_r@.contains((a, k)) <==> exists|j: int| 0 <= j < graph.states@.len() && #[trigger] edge(tr(*graph, j), k) && graph.states@[j].state_id == a,
at loop0.inv
    forall|a: usize, k: usize| #[trigger] vx_acc1@.contains((a, k)) <==> exists|j: int| 0 <= j < vx_i0 && #[trigger] edge(tr(*graph, j), k) && graph.states@[j].state_id == a,
at loop1.before
    let ghost vx_g0 = vx_acc1@;
at loop1.inv
    forall|a: usize, k: usize| #[trigger] vx_acc1@.contains((a, k)) <==> (vx_g0.contains((a, k)) || (a == state.state_id && exists|q: int| 0 <= q < vx_i1 && *(#[trigger] vx_it1@[q]) == k)),
at loop0.end
    proof {
        assert(*state == graph.states@[vx_i0 - 1]);
        assert forall|k: usize| #[trigger] edge(state.transitions@, k) <==> exists|q: int| 0 <= q < vx_it1@.len() && *(#[trigger] vx_it1@[q]) == k by { assert(state.transitions@.dom().contains(k) == edge(state.transitions@, k)); }
        assert forall|a: usize, k: usize| #[trigger] vx_acc1@.contains((a, k)) <==> exists|j: int| 0 <= j < vx_i0 && #[trigger] edge(tr(*graph, j), k) && graph.states@[j].state_id == a by {
            assert(edge(tr(*graph, vx_i0 - 1), k) == edge(state.transitions@, k));
        }
    }
fn collect_substr_ends
theory graph
props C06 C14
ens
    forall|id: usize| #[trigger] vx_r@.contains(id) <==> exists|j: int| 0 <= j < graph.states@.len() && acc(#[trigger] graph.states@[j]) && graph.states@[j].state_id == id,
at loop0.inv
    forall|id: usize| #[trigger] vx_acc1@.contains(id) <==> exists|j: int| 0 <= j < vx_i0 && acc(#[trigger] graph.states@[j]) && graph.states@[j].state_id == id,
fn update_state_type
theory graph
props C05 C14
ens
    acc(*final(target_state)) == acc(*source_state),
    final(target_state).state_id == old(target_state).state_id,
    final(target_state).transitions == old(target_state).transitions,
at fn.end
    proof { assert(ACC().len() == 6); }
fn process_accept_state
theory graph
props C05 C14
req
    det(start_state.transitions@),
ens
    merged(*old(accept_state), *start_state, *final(accept_state)),

fn merge_edges
theory graph
props C05 C14
req
    det(source_state.transitions@),
ens
    final(target_state).state_id == old(target_state).state_id,
    final(target_state).state_type == old(target_state).state_type,
    merged_edges(old(target_state).transitions@, source_state.transitions@, final(target_state).transitions@),
at fn.start
    let ghost t0 = target_state.transitions@;
    let ghost sm = source_state.transitions@;
at loop0.inv
    target_state.state_id == old(target_state).state_id && target_state.state_type == old(target_state).state_type,
    forall|k: usize| #[trigger] edge(target_state.transitions@, k) <==> edge(t0, k) || (exists|q: int| 0 <= q < vx_i0 && *(#[trigger] vx_it0@[q]).0 == k),
    forall|q: int| 0 <= q < vx_i0 ==> target_state.transitions@[*(#[trigger] vx_it0@[q]).0]@ == vx_it0@[q].1@,
    forall|k: usize, b: u8| #![trigger has(target_state.transitions@, k, b)] (forall|q: int| 0 <= q < vx_i0 ==> *(#[trigger] vx_it0@[q]).0 != k) ==> has(target_state.transitions@, k, b) == (has(t0, k, b) && !(exists|q: int| 0 <= q < vx_i0 && (#[trigger] vx_it0@[q]).1@.contains(b))),
at loop1.before
    let ghost t1 = target_state.transitions@;
at loop1.inv
    target_state.state_id == old(target_state).state_id && target_state.state_type == old(target_state).state_type,
    target_state.transitions@.dom() == t1.dom(),
    forall|k: usize, b: u8| #![trigger has(target_state.transitions@, k, b)] has(target_state.transitions@, k, b) == (has(t1, k, b) && !(exists|p: int| 0 <= p < vx_i1 && *(#[trigger] vx_it1@[p]) == b)),
at loop2.before
    let ghost t2 = target_state.transitions@;
at loop2.inv
    target_state.state_id == old(target_state).state_id && target_state.state_type == old(target_state).state_type,
    target_state.transitions@.dom() == t2.dom(),
    forall|q: int| 0 <= q < vx_i2 ==> (target_state.transitions@[#[trigger] vx_it2@[q]])@ == t2[vx_it2@[q]]@.remove(*edge_value),
    forall|q: int| vx_i2 <= q < vx_it2@.len() ==> target_state.transitions@[#[trigger] vx_it2@[q]] == t2[vx_it2@[q]],
at loop2.after
    proof {
        assert forall|k: usize, b: u8| #[trigger] has(target_state.transitions@, k, b) == (has(t2, k, b) && b != *edge_value) by {
            if t2.contains_key(k) { assert(t2.dom().contains(k)); }
            assert(target_state.transitions@.contains_key(k) == t2.contains_key(k)) by { assert(target_state.transitions@.dom().contains(k) == t2.dom().contains(k)); }
        }
    }
at loop3.before
    let ghost s0 = t2[vx_it2@[vx_i2 - 1]]@;
at loop3.inv
    forall|x: u8| #[trigger] vx_x2@.contains(x) <==> exists|p: int| 0 <= p < vx_i3 && (#[trigger] vx_it3@[p]) == x && x != *edge_value,
at loop3.after
    proof { assert(vx_x2@ =~= s0.remove(*edge_value)); }
at call.insert.0.before
    let ghost t4 = target_state.transitions@;
    proof {
        assert forall|x: usize| t4.contains_key(x) == t1.contains_key(x) by { assert(t4.dom().contains(x) == t1.dom().contains(x)); }
        assert forall|x: usize, b: u8| #[trigger] has(t4, x, b) == (has(t1, x, b) && !v@.contains(b)) by {}
    }
at call.insert.0.after
    proof {
        let t5 = target_state.transitions@;
        assert forall|x: usize| #[trigger] edge(t5, x) <==> edge(t0, x) || (exists|q: int| 0 <= q < vx_i0 && *(#[trigger] vx_it0@[q]).0 == x) by {
            assert(edge(t1, x) == t4.contains_key(x));
            assert(*vx_it0@[vx_i0 - 1].0 == *k);
        }
        assert forall|q: int| 0 <= q < vx_i0 implies t5[*(#[trigger] vx_it0@[q]).0]@ == vx_it0@[q].1@ by {
            if q < vx_i0 - 1 {
                let kq = *vx_it0@[q].0;
                assert(kq != *k);
                assert(edge(t1, kq));
                assert(t1[kq]@ == vx_it0@[q].1@);
                assert forall|b: u8| t4[kq]@.contains(b) == t1[kq]@.contains(b) by {
                    assert(has(t4, kq, b) == (has(t1, kq, b) && !v@.contains(b)));
                    assert(has(sm, kq, b) == vx_it0@[q].1@.contains(b));
                    assert(has(sm, *k, b) == v@.contains(b));
                }
                assert(t4[kq]@ =~= t1[kq]@);
            }
        }
        assert forall|x: usize, b: u8| (forall|q: int| 0 <= q < vx_i0 ==> *(#[trigger] vx_it0@[q]).0 != x) implies #[trigger] has(t5, x, b) == (has(t0, x, b) && !(exists|q: int| 0 <= q < vx_i0 && (#[trigger] vx_it0@[q]).1@.contains(b))) by {
            assert(*vx_it0@[vx_i0 - 1].0 != x);
            assert(has(t5, x, b) == has(t4, x, b));
            assert(has(t1, x, b) == (has(t0, x, b) && !(exists|q: int| 0 <= q < vx_i0 - 1 && (#[trigger] vx_it0@[q]).1@.contains(b))));
        }
    }
at loop0.after
    proof {
        let r = target_state.transitions@;
        assert forall|k: usize| edge(sm, k) == (exists|q: int| 0 <= q < vx_it0@.len() && *(#[trigger] vx_it0@[q]).0 == k) by {}
        assert forall|b: u8| moves(sm, b) == (exists|q: int| 0 <= q < vx_it0@.len() && (#[trigger] vx_it0@[q]).1@.contains(b)) by {
            if exists|q: int| 0 <= q < vx_it0@.len() && (#[trigger] vx_it0@[q]).1@.contains(b) {
                let q = choose|q: int| 0 <= q < vx_it0@.len() && (#[trigger] vx_it0@[q]).1@.contains(b);
                assert(has(sm, *vx_it0@[q].0, b));
            }
            if moves(sm, b) {
                let k = choose|k: usize| #[trigger] has(sm, k, b);
                let q = choose|q: int| 0 <= q < vx_it0@.len() && *(#[trigger] vx_it0@[q]).0 == k;
                assert(vx_it0@[q].1@.contains(b));
            }
        }
        assert forall|k: usize, b: u8| #[trigger] has(r, k, b) == (if edge(sm, k) { has(sm, k, b) } else { has(t0, k, b) && !moves(sm, b) }) by {
            if edge(sm, k) {
                let q = choose|q: int| 0 <= q < vx_it0@.len() && *(#[trigger] vx_it0@[q]).0 == k;
                assert(edge(r, k));
            }
        }
    }
fn rename_states
theory graph
props C05 C06 C14
type state_id_mapping VMap<usize, usize>
type vx_acc1 VMap<usize, usize>
type vx_acc2 Vec<DFAStateNode>
type vx_acc3 VMap<usize, VSet<u8>>
req
    numbered(*dfa_graph, 0),
    closed(*dfa_graph, 0, dfa_graph.states@.len() as int),
    dfa_graph.states@.len() + base <= usize::MAX,
ens
    shifted(*dfa_graph, vx_r, base as int),
at loop0.inv
    forall|q: usize| #[trigger] vx_acc1@.contains_key(q) <==> q < vx_i0,
    forall|q: usize| #[trigger] vx_acc1@.contains_key(q) ==> vx_acc1@[q] == q + base,
at loop0.end
    proof { assert(dfa_graph.states@[vx_i0 - 1].state_id == vx_i0 - 1); }
at loop1.inv
    vx_acc2@.len() == vx_i1,
    forall|i: int| 0 <= i < vx_i1 ==> (#[trigger] vx_acc2@[i]).state_id == base + i && vx_acc2@[i].state_type == dfa_graph.states@[i].state_type,
    forall|i: int, k: usize| 0 <= i < vx_i1 && #[trigger] edge(vx_acc2@[i].transitions@, k) ==> base <= k && edge(tr(*dfa_graph, i), (k - base) as usize) && vx_acc2@[i].transitions@[k] == tr(*dfa_graph, i)[(k - base) as usize],
    forall|i: int, k: usize| 0 <= i < vx_i1 && #[trigger] edge(tr(*dfa_graph, i), k) ==> k + base <= usize::MAX && edge(vx_acc2@[i].transitions@, (k + base) as usize),
at loop2.inv
    forall|k: usize| #[trigger] edge(vx_acc3@, k) ==> base <= k && edge(state.transitions@, (k - base) as usize) && vx_acc3@[k] == state.transitions@[(k - base) as usize],
    forall|q: int| 0 <= q < vx_i2 ==> edge(vx_acc3@, (*(#[trigger] vx_it2@[q]).0 + base) as usize),
at loop2.start
    proof { assert(edge(tr(*dfa_graph, vx_i1 - 1), *vx_e2.0)); assert(*state == dfa_graph.states@[vx_i1 - 1]); }
    let ghost a3 = vx_acc3@;
at loop2.end
    proof {
        assert(vx_e2_0.0 == *vx_e2.0 + base);
        assert(vx_acc3@ == a3.insert(vx_e2_0.0, *vx_e2.1));
        assert forall|k: usize| #[trigger] edge(vx_acc3@, k) implies base <= k && edge(state.transitions@, (k - base) as usize) && vx_acc3@[k] == state.transitions@[(k - base) as usize] by {
            if k != vx_e2_0.0 { assert(edge(a3, k)); } else { assert((k - base) as usize == *vx_e2.0); }
        }
        assert forall|q: int| 0 <= q < vx_i2 implies edge(vx_acc3@, (*(#[trigger] vx_it2@[q]).0 + base) as usize) by {
            if q < vx_i2 - 1 { assert(edge(a3, (*vx_it2@[q].0 + base) as usize)); }
        }
    }
at loop2.after
    proof { assert forall|k: usize| edge(state.transitions@, k) implies k + base <= usize::MAX && #[trigger] edge(vx_acc3@, (k + base) as usize) by {
        assert(edge(tr(*dfa_graph, vx_i1 - 1), k));
        let q = choose|q: int| 0 <= q < vx_it2@.len() && *(#[trigger] vx_it2@[q]).0 == k; assert(edge(vx_acc3@, (*vx_it2@[q].0 + base) as usize)); } }
at loop1.start
    let ghost a2 = vx_acc2@;
at loop1.end
    proof {
        assert(vx_acc2@ == a2.push(vx_e1_1));
        assert forall|i: int, k: usize| 0 <= i < vx_i1 && #[trigger] edge(vx_acc2@[i].transitions@, k) implies base <= k && edge(tr(*dfa_graph, i), (k - base) as usize) && vx_acc2@[i].transitions@[k] == tr(*dfa_graph, i)[(k - base) as usize] by {
            if i < vx_i1 - 1 { assert(vx_acc2@[i] == a2[i]); assert(edge(a2[i].transitions@, k)); } else { assert(vx_acc2@[i] == vx_e1_1); assert(edge(vx_e1_1.transitions@, k)); }
        }
        assert forall|i: int, k: usize| 0 <= i < vx_i1 && #[trigger] edge(tr(*dfa_graph, i), k) implies k + base <= usize::MAX && edge(vx_acc2@[i].transitions@, (k + base) as usize) by {
            if i < vx_i1 - 1 { assert(vx_acc2@[i] == a2[i]); } else { assert(vx_acc2@[i] == vx_e1_1); assert(edge(state.transitions@, k)); }
        }
    }
fn add_dfa
theory graph
props C05 C14
req
    graph.states@.len() > 0 && det(tr(*graph, 0)),
    numbered(*graph, graph.states@[0].state_id as int),
ens
    net_dfa.states@.len() == 0 ==> vx_r == *graph,
    net_dfa.states@.len() > 0 ==> composed(*net_dfa, *graph, vx_r),
at loop0.inv
    new_dfa.states@.len() == net_dfa.states@.len() && vx_n0 == net_dfa.states@.len() && vx_i0 <= vx_n0,
    *start_state == graph.states@[0],
    forall|i: int| 0 <= i < vx_i0 && !acc(net_dfa.states@[i]) ==> #[trigger] new_dfa.states@[i] == net_dfa.states@[i],
    forall|i: int| 0 <= i < vx_i0 && acc(net_dfa.states@[i]) ==> merged(net_dfa.states@[i], graph.states@[0], #[trigger] new_dfa.states@[i]),
    forall|i: int| vx_i0 <= i < vx_n0 ==> #[trigger] new_dfa.states@[i] == net_dfa.states@[i],
at loop1.before
    let ghost n1 = new_dfa.states@;
at loop1.inv
    new_dfa.states@.len() == n1.len() + (if vx_i1 == 0 { 0int } else { vx_i1 - 1 }),
    forall|i: int| 0 <= i < n1.len() ==> #[trigger] new_dfa.states@[i] == n1[i],
    forall|j: int| 1 <= j < vx_i1 ==> (#[trigger] graph.states@[j]) == new_dfa.states@[n1.len() + j - 1],
at loop1.start
    proof { assert(graph.states@[vx_i1 - 1].state_id == graph.states@[0].state_id + vx_i1 - 1); }
fn modify_graph_for_caret
type vx_acc1 Option<&DFAStateNode>
theory graph
props C07 C14
ens
    vx_r.is_ok() ==> caret_added(*old(graph), *final(graph)),
    old(graph).states@.len() == 0 ==> vx_r.is_err(),
at loop0.inv
    except_break
        vx_acc1.is_none(),
        forall|j: int| 0 <= j < vx_i0 ==> !acc(#[trigger] g1[j]),
    always
        true,
    ensures
        match vx_acc1 { Some(x) => exists|j: int| first_acc(g1, j) && *x == g1[j], None => true },
at loop0.start
    proof { if acc(g1[vx_i0 - 1]) { assert(first_acc(g1, vx_i0 - 1)); } }
at fn.end
    proof {
        let j = choose|j: int| first_acc(g1, j) && accepted_state == g1[j];
        assert(ACC().len() == 6);
        assert(j != 0);
        assert(forall|i: int| 1 <= i < g1.len() ==> graph.states@[i] == g1[i]);
        assert(first_acc(graph.states@, j)) by { assert forall|i: int| 0 <= i < j implies !acc(#[trigger] graph.states@[i]) by { assert(!acc(g1[i])); } }
        let t = accepted_state.state_id;
        let m0 = old(graph).states@[0].transitions@; let m1 = graph.states@[0].transitions@;
        assert(g1[0].transitions@ == m0);
        assert forall|k: usize, b: u8| #[trigger] has(m1, k, b) == (has(m0, k, b) || (k == t && b == 255)) by { if k == t { } else { } }
        assert forall|k: usize| #[trigger] edge(m1, k) == (edge(m0, k) || k == t) by { }
        assert(tr(*graph, 0) == m1 && tr(*old(graph), 0) == m0);
    }
at call.find.0.before
    let ghost g1 = graph.states@;
    proof { assert(ACC().len() == 6); assert(!acc(g1[0])); }
fn create_simple_caret_graph
theory graph
props C07 C14
ens
    simple_caret(vx_r),
at fn.end
    proof {
        let t = vx_ret.states@[0].transitions@;
        assert(ACC().len() == 6);
        assert(t.contains_key(1)); 
        assert(forall|k: usize| t.contains_key(k) ==> k == 1);
        assert(t[1]@.contains(255u8));
        assert(forall|b: u8| t[1]@.contains(b) ==> b == 255);
    }
fn handle_caret_regex
theory graph
props C07 C14
ens
    !(idx == 0 && caret_position.is_some()) ==> vx_r.is_ok() && *final(graph) == *old(graph),
    idx == 0 && caret_position.is_some() && regex.regex_def@ == seq![94u8] ==> vx_r.is_ok() && simple_caret(*final(graph)),
    idx == 0 && caret_position.is_some() && regex.regex_def@ != seq![94u8] && vx_r.is_ok() ==> caret_added(*old(graph), *final(graph)),
fn update_public_edges
theory graph
props C06 C14
type vx_acc1 Vec<(usize, usize)>
type edges_to_update Vec<(usize, usize)>
ens
    max_state_index == 0 ==> final(public_edges)@ == old(public_edges)@,
    max_state_index != 0 && (forall|a: usize| !(#[trigger] old(public_edges)@.contains((a, max_state_index)))) ==> forall|a: usize, k: usize| #[trigger] final(public_edges)@.contains((a, k)) <==>
        (a != max_state_index && old(public_edges)@.contains((a, k))) || (old(public_edges)@.contains((max_state_index, k)) && sacc(accepting_states@, a)),
at fn.start
    let ghost e0 = public_edges@;
    let ghost nr = forall|a: usize| !(#[trigger] e0.contains((a, max_state_index)));
at loop0.before
    let ghost mut gp: Seq<int> = Seq::empty();
    let ghost mut gi: Seq<int> = Seq::empty();
at loop0.inv
    public_edges@ == e0,
    gp.len() == vx_acc1@.len() && gi.len() == vx_i0,
    forall|q: int| 0 <= q < gp.len() ==> 0 <= #[trigger] gp[q] < vx_i0 && vx_acc1@[q] == *vx_it0@[gp[q]] && (vx_acc1@[q].0 == max_state_index || vx_acc1@[q].1 == max_state_index),
    forall|q: int, p: int| #![trigger gp[q], gp[p]] 0 <= q < p < gp.len() ==> gp[q] < gp[p],
    forall|q: int| 0 <= q < gi.len() && vx_it0@[q].0 == max_state_index ==> 0 <= #[trigger] gi[q] < gp.len() && gp[gi[q]] == q,
at loop0.start
    let ghost a0 = vx_acc1@;
at loop0.end
    proof {
        if vx_acc1@.len() > a0.len() { gi = gi.push(gp.len() as int); gp = gp.push(vx_i0 - 1); } else { gi = gi.push(-1int); }
    }
at loop0.after
    proof {
        assert forall|q: int| 0 <= q < vx_acc1@.len() implies e0.contains(#[trigger] vx_acc1@[q]) && (vx_acc1@[q].0 == max_state_index || vx_acc1@[q].1 == max_state_index) by { assert(vx_acc1@[q] == *vx_it0@[gp[q]]); }
        assert forall|q: int, p: int| #![trigger vx_acc1@[q], vx_acc1@[p]] 0 <= q < p < vx_acc1@.len() implies vx_acc1@[q] != vx_acc1@[p] by { assert(gp[q] < gp[p]); }
        assert forall|k: usize| #![trigger e0.contains((max_state_index, k))] e0.contains((max_state_index, k)) implies exists|q: int| 0 <= q < vx_acc1@.len() && (#[trigger] vx_acc1@[q]).1 == k && vx_acc1@[q].0 == max_state_index by {
            let q = choose|q: int| 0 <= q < vx_it0@.len() && *(#[trigger] vx_it0@[q]) == (max_state_index, k);
            assert(0 <= gi[q] < gp.len() && gp[gi[q]] == q);
            assert(vx_acc1@[gi[q]] == *vx_it0@[q]);
        }
    }
at loop1.before
    proof {
        assert(vx_it1@ == edges_to_update@);
        assert forall|q: int| nr && 0 <= q < vx_it1@.len() implies (#[trigger] vx_it1@[q]).0 == max_state_index && vx_it1@[q].1 != max_state_index by {
            assert(e0.contains((vx_it1@[q].0, vx_it1@[q].1)));
        }
    }
at loop1.inv
    nr ==> forall|a: usize, k: usize| #[trigger] public_edges@.contains((a, k)) <==> (a != max_state_index && e0.contains((a, k))) || (sacc(accepting_states@, a) && exists|q: int| 0 <= q < vx_i1 && (#[trigger] vx_it1@[q]).1 == k)
        || (a == max_state_index && exists|q: int| vx_i1 <= q < vx_it1@.len() && (#[trigger] vx_it1@[q]).1 == k),
at loop1.start
    let ghost c0 = public_edges@;
at call.remove.0.after
    let ghost c1 = public_edges@;
    proof {
        if nr {
            assert forall|a: usize, k: usize| #[trigger] c1.contains((a, k)) <==> (a != max_state_index && e0.contains((a, k))) || (sacc(accepting_states@, a) && exists|q: int| 0 <= q < vx_i1 - 1 && (#[trigger] vx_it1@[q]).1 == k)
                || (a == max_state_index && exists|q: int| vx_i1 <= q < vx_it1@.len() && (#[trigger] vx_it1@[q]).1 == k) by {
                if c0.contains((a, k)) { }
                assert(vx_it1@[vx_i1 - 1] == (from, to));
                if a == from && k == to {
                    assert forall|q: int| 0 <= q < vx_it1@.len() && q != vx_i1 - 1 implies (#[trigger] vx_it1@[q]).1 != to by { assert(vx_it1@[q] != vx_it1@[vx_i1 - 1]); }
                }
            }
        }
    }
at loop4.inv
    nr ==> forall|a: usize, k: usize| #[trigger] public_edges@.contains((a, k)) <==> c1.contains((a, k)) || (k == to && exists|p: int| 0 <= p < vx_i4 && (#[trigger] accepting_states@[p]).state_id == a),
at loop4.start
    proof { assert(**vx_it4@[vx_i4 - 1] == *accepting_states@[vx_i4 - 1]); }
at loop1.end
    proof {
        if nr {
            assert forall|a: usize, k: usize| #[trigger] public_edges@.contains((a, k)) <==> (a != max_state_index && e0.contains((a, k))) || (sacc(accepting_states@, a) && exists|q: int| 0 <= q < vx_i1 && (#[trigger] vx_it1@[q]).1 == k)
                || (a == max_state_index && exists|q: int| vx_i1 <= q < vx_it1@.len() && (#[trigger] vx_it1@[q]).1 == k) by {
                assert(vx_it1@[vx_i1 - 1].1 == to);
                if c1.contains((a, k)) { }
            }
        }
    }
fn process_public_regex
theory graph
props C06 C14
req
    numbered(*graph, previous_max_state_id as int) && graph.states@.len() > 0,
    if net_dfa.states@.len() == 0 { previous_max_state_id == 0 } else { numbered(*net_dfa, 0) && previous_max_state_id == net_dfa.states@.len() - 1 },
    net_dfa.states@.len() == 1 ==> acc(net_dfa.states@[0]),
ens
    !regex.is_public ==> vx_r.0@ == Set::<(usize, usize)>::empty() && vx_r.1.0@ == Set::<usize>::empty() && vx_r.1.1@ == Set::<usize>::empty(),
    regex.is_public ==> forall|a: usize| #[trigger] vx_r.1.0@.contains(a) <==> accid(*net_dfa, a),
    regex.is_public ==> forall|a: usize| #[trigger] vx_r.1.1@.contains(a) <==> pub_end(*net_dfa, *graph, a),
    regex.is_public && (no_return(*graph) || net_dfa.states@.len() == 0) ==> forall|a: usize, k: usize| #[trigger] vx_r.0@.contains((a, k)) <==> pub_edge(*net_dfa, *graph, a, k),
at call.extend.0.before
    let ghost se = substring_ends@;
at loop0.inv
    forall|a: usize| #[trigger] substring_ends@.contains(a) <==> se.contains(a) || exists|q: int| 0 <= q < vx_i0 && *(#[trigger] vx_it0@[q]) == a,
at call.collect_substr_ends.0.after
    let ghost se0 = substring_ends@;
    let ghost pe0 = public_edges@;
at call.update_public_edges.0.before
    proof {
        let z = previous_max_state_id;
        assert forall|a: usize| #[trigger] substring_ends@.contains(a) <==> pub_end(*net_dfa, *graph, a) by {
            assert(graph.states@[0].state_id == z);
            if pub_end(*net_dfa, *graph, a) {
                let j = choose|j: int| 0 <= j < graph.states@.len() && acc(#[trigger] graph.states@[j]) && known_as(*net_dfa, *graph, j, a);
                if j == 0 && net_dfa.states@.len() > 0 {
                    assert(se0.contains(z));
                    if z == 0 { assert(net_dfa.states@[0].state_id == 0); } else { assert(substring_starts@.contains(a)); }
                } else { assert(se0.contains(a)); if j > 0 { assert(graph.states@[j].state_id == z + j); } }
            }
            if substring_ends@.contains(a) {
                if z != 0 && se0.contains(z) && substring_starts@.contains(a) {
                    assert(accid(*net_dfa, a)); 
                    let j = choose|j: int| 0 <= j < graph.states@.len() && acc(#[trigger] graph.states@[j]) && graph.states@[j].state_id == z;
                    assert(j == 0); assert(known_as(*net_dfa, *graph, 0, a));
                } else {
                    assert(se0.contains(a));
                    let j = choose|j: int| 0 <= j < graph.states@.len() && acc(#[trigger] graph.states@[j]) && graph.states@[j].state_id == a;
                    if j == 0 && net_dfa.states@.len() > 0 { assert(a == z); if z == 0 { assert(acc(net_dfa.states@[0]) && net_dfa.states@[0].state_id == 0); assert(accid(*net_dfa, a)); } }
                    assert(known_as(*net_dfa, *graph, j, a));
                }
            }
        }
    }
at call.update_public_edges.0.after
    proof {
        let z = previous_max_state_id;
        assert(graph.states@[0].state_id == z);
        if no_return(*graph) || net_dfa.states@.len() == 0 {
            if z != 0 { assert forall|a: usize| !(#[trigger] pe0.contains((a, z))) by { } }
            assert forall|a: usize| sacc(accepting_states@, a) == accid(*net_dfa, a) by { if substring_starts@.contains(a) { } }
            assert forall|a: usize, k: usize| #[trigger] public_edges@.contains((a, k)) <==> pub_edge(*net_dfa, *graph, a, k) by {
                if pub_edge(*net_dfa, *graph, a, k) {
                    let j = choose|j: int| 0 <= j < graph.states@.len() && #[trigger] edge(tr(*graph, j), k) && known_as(*net_dfa, *graph, j, a);
                    assert(pe0.contains((graph.states@[j].state_id, k)));
                    assert(graph.states@[j].state_id == z + j);
                    if j == 0 && z == 0 && net_dfa.states@.len() > 0 { assert(net_dfa.states@[0].state_id == 0); }
                }
                if public_edges@.contains((a, k)) {
                    let f = if pe0.contains((a, k)) && (a != z || z == 0) { a } else { z };
                    assert(pe0.contains((f, k)));
                    let j = choose|j: int| 0 <= j < graph.states@.len() && #[trigger] edge(tr(*graph, j), k) && graph.states@[j].state_id == f;
                    assert(graph.states@[j].state_id == z + j);
                    if f == 0 && z == 0 && net_dfa.states@.len() > 0 { assert(acc(net_dfa.states@[0]) && net_dfa.states@[0].state_id == 0); assert(accid(*net_dfa, a)); }
                    assert(known_as(*net_dfa, *graph, j, a));
                }
            }
        }
    }

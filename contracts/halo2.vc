fn dfa_to_regex_def_text
theory graph halo
props C12 C14
ens
    match vx_r { Ok(t) => main_table(regex_and_dfa.dfa, t@), Err(_) => forall|j: int| 0 <= j < regex_and_dfa.dfa.states@.len() ==> !acc(#[trigger] regex_and_dfa.dfa.states@[j]) },
at loop0.before
    let ghost vx_head = text@;
    let ghost mut rows = Seq::<(int, int, int)>::empty();
    let ghost g = regex_and_dfa.dfa;
    proof { assert(text@ == vx_head + flat3(rows)); assert(vx_head == seq![48u8] + nl() + dec_text(accepted_state as int) + nl() + dec_text(max_state as int) + nl()); }
at loop0.inv
    rows.no_duplicates(),
    forall|r: (int, int, int)| #[trigger] rows.contains(r) == (is_row(g, r) && r.0 < vx_i0),
    text@ == vx_head + flat3(rows),
at loop1.inv
    rows.no_duplicates(),
    forall|r: (int, int, int)| #[trigger] rows.contains(r) == (is_row(g, r) && (r.0 < i || (r.0 == i && exists|q: int| 0 <= q < vx_i1 && *(#[trigger] vx_it1@[q]).0 == r.1))),
    text@ == vx_head + flat3(rows),
at loop1.start
    let ghost rows1 = rows;
at loop2.inv
    rows.no_duplicates(),
    forall|r: (int, int, int)| #[trigger] rows.contains(r) == (rows1.contains(r) || (r.0 == i && r.1 == *next_state && exists|q: int| 0 <= q < vx_i2 && *(#[trigger] vx_it2@[q]) == r.2)),
    text@ == vx_head + flat3(rows),
at loop2.end
    proof {
        let r = (i as int, *next_state as int, char as int);
        assert(vx_it1@[vx_i1 - 1].0 == next_state);
        assert(!rows.contains(r));
        let old = rows;
        rows_push(rows, r);
        rows = rows.push(r);
        assert(text@ =~= vx_head + (flat3(old) + row3(r)));
        assert forall|x: (int, int, int)| #[trigger] rows.contains(x) == (rows1.contains(x) || (x.0 == i && x.1 == *next_state && exists|q: int| 0 <= q < vx_i2 && *(#[trigger] vx_it2@[q]) == x.2)) by {
            if x == r { assert(*vx_it2@[vx_i2 - 1] == x.2); }
        }
    }
at loop1.end
    proof {
        assert forall|r: (int, int, int)| #[trigger] rows.contains(r) == (is_row(g, r) && (r.0 < i || (r.0 == i && exists|q: int| 0 <= q < vx_i1 && *(#[trigger] vx_it1@[q]).0 == r.1))) by {
            assert(*vx_it1@[vx_i1 - 1].0 == *next_state);
            assert(tr(g, i as int)[*next_state] == *chars);
            if r.0 == i && r.1 == *next_state {
                if is_row(g, r) { assert(chars@.contains(r.2 as u8)); }
                if exists|q: int| 0 <= q < vx_i2 && *(#[trigger] vx_it2@[q]) == r.2 { let q = choose|q: int| 0 <= q < vx_i2 && *(#[trigger] vx_it2@[q]) == r.2; assert(chars@.contains(*vx_it2@[q])); assert(is_row(g, r)); }
            }
        }
    }
at loop0.end
    proof {
        assert forall|r: (int, int, int)| #[trigger] rows.contains(r) == (is_row(g, r) && r.0 < vx_i0) by {
            if is_row(g, r) && r.0 == i { assert(tr(g, i as int).contains_key(r.1 as usize)); }
        }
    }
at fn.end
    proof {
        assert(first_acc(g.states@, accepted_state as int));
        assert(is_max(g, max_state));
        assert(all_rows(g, rows));
        assert(main_parts(g, text@, accepted_state as int, max_state, rows));
    }
fn gen_halo2_tables
type vx_acc2 Vec<VString>
type vx_acc3 Vec<VString>
type vx_acc4 Vec<&(usize, usize)>
theory graph halo
props C12 C14
req
    gen_substrs ==> substr_file_paths@.len() >= regex_and_dfa.substrings.substring_ranges@.len(),
    regex_and_dfa.substrings.substring_boundaries.is_some() ==> regex_and_dfa.substrings.substring_boundaries.unwrap()@.len() >= regex_and_dfa.substrings.substring_ranges@.len(),
ens
    vx_r.is_ok() ==> halo_done(*regex_and_dfa, *allstr_file_path, substr_file_paths@, gen_substrs),
    vx_r.is_ok() ==> exists|j: int| 0 <= j < regex_and_dfa.dfa.states@.len() && acc(#[trigger] regex_and_dfa.dfa.states@[j]),
    vx_r.is_ok() && gen_substrs && regex_and_dfa.substrings.substring_ranges@.len() > 0 ==> regex_and_dfa.substrings.substring_boundaries.is_some(),
at loop0.inv
    substr_files(regex_and_dfa.substrings, substr_file_paths@, vx_i0 as int),
at loop1.inv
    vx_acc2@.len() == vx_i1,
    forall|q: int| 0 <= q < vx_i1 ==> (#[trigger] vx_acc2@[q])@ == dec_text(*vx_it1@[q] as int),
at loop2.inv
    vx_acc3@.len() == vx_i2,
    forall|q: int| 0 <= q < vx_i2 ==> (#[trigger] vx_acc3@[q])@ == dec_text(*vx_it2@[q] as int),
at loop0.start
    let ghost mut sa = Seq::<int>::empty();
    let ghost mut sb = Seq::<int>::empty();
    let ghost mut so = Seq::<&(usize, usize)>::empty();
at loop1.after
    proof { spaced_join(vx_acc2@, ints(vx_it1@)); listed_items(vx_it1@, starts@); sa = ints(vx_it1@); }
at loop2.after
    proof { spaced_join(vx_acc3@, ints(vx_it2@)); listed_items(vx_it2@, ends@); sb = ints(vx_it2@); }
at loop3.inv
    vx_acc4@.len() == vx_i3,
    forall|q: int| 0 <= q < vx_i3 ==> #[trigger] vx_acc4@[q] == vx_it3@[q],
at loop3.after
    proof {
        let v = vx_acc4@;
        so = v;
        assert(v.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies v[i] != v[j] by { assert(v[i] == vx_it3@[i] && v[j] == vx_it3@[j]); } }
        assert forall|x: (usize, usize)| defs@.contains(x) == v.contains(&x) by {
            if defs@.contains(x) { let i = choose|i: int| 0 <= i < vx_it3@.len() && *(#[trigger] vx_it3@[i]) == x; assert(v[i] == &x); }
            if v.contains(&x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == &x; assert(defs@.contains(*vx_it3@[i])); }
        }
    }
at loop4.before
    let ghost sd = sorted_defs@;
    let ghost vx_head = writer.content();
    let ghost c = ints2(sd);
    proof {
        assert forall|x: (usize, usize)| (exists|q: int| 0 <= q < sd.len() && *(#[trigger] sd[q]) == x) <==> defs@.contains(x) by {
            if defs@.contains(x) { assert(so.contains(&x)); assert(sd.contains(&x)); let q = choose|q: int| 0 <= q < sd.len() && sd[q] == &x; assert(*sd[q] == x); }
            if exists|q: int| 0 <= q < sd.len() && *(#[trigger] sd[q]) == x { let q = choose|q: int| 0 <= q < sd.len() && *(#[trigger] sd[q]) == x; assert(sd[q] == &x); assert(sd.contains(&x)); assert(so.contains(&x)); }
        }
        listed_items2(sd, defs@);
        assert(vx_head =~= spaced(sa) + nl() + (spaced(sb) + nl()));
        assert(c.subrange(0, 0) =~= Seq::<(int, int)>::empty());
        assert(flat2(c.subrange(0, 0)) == Seq::<u8>::empty());
        assert(writer.content() =~= vx_head + flat2(c.subrange(0, 0)));
    }
at loop4.inv
    writer.content() == vx_head + flat2(c.subrange(0, vx_i4 as int)),
    writer.path() == substr_file_paths@[idx as int],
at loop4.end
    proof {
        let n = vx_i4 as int;
        assert(c.subrange(0, n).drop_last() =~= c.subrange(0, n - 1));
        assert(c.subrange(0, n).last() == (cur as int, next as int));
        assert(writer.content() =~= vx_head + (flat2(c.subrange(0, n - 1)) + row2((cur as int, next as int))));
    }
at loop0.end
    proof {
        let t = writer.content();
        let s = regex_and_dfa.substrings;
        assert(c.subrange(0, c.len() as int) =~= c);
        assert(substr_parts(starts@, ends@, defs@, t, sa, sb, c));
        assert(wrote(substr_file_paths@[idx as int], t));
        assert(substr_file(s, substr_file_paths@, idx as int));
        assert forall|k: int| 0 <= k < vx_i0 implies #[trigger] substr_file(s, substr_file_paths@, k) by { }
    }

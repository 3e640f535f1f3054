fn extract_substr_idxes
theory fancy
props C02 C03
type group_counts Vec<usize>
type public_idxes Vec<(usize, usize)>
type group_index usize
ens
    extracts(input_str@, regex_config.parts@, reveal_private, vx_r),
at fn.start
    broadcast use axiom_err_same;
    let ghost ps = regex_config.parts@;
at loop0.inv
    seq_refs(vx_it0@, ps),
    group_counts@.len() == vx_i0,
    all_valid(ps, vx_i0 as int),
    forall|k: int| 0 <= k < vx_i0 ==> #[trigger] group_counts@[k] == fr_groups(def_of(ps, k)),
at loop0.start
    proof { assert((*vx_e0).regex_def@ == def_of(ps, vx_i0 - 1)); }
at loop1.inv
    seq_refs(vx_it1@, ps),
    entire_regex_str@ == pat_of(ps, vx_i1 as int),
at loop2.before
    let ghost c = entire_captures.groups();
    proof { axiom_groups(ps, input_str@, c); axiom_text_len(entire_regex_str); }
at loop2.inv
    seq_refs(vx_it2@, ps),
    group_index == group_at(ps, vx_i2 as int),
    public_idxes@ == wanted(ps, c, reveal_private, vx_i2 as int),
at loop2.start
    proof { assert(span_ok(ps, c, input_str@, vx_i2 - 1)); group_bound(ps, vx_i2 as int, ps.len() as int); assert(group_counts@[vx_i2 - 1] == fr_groups(def_of(ps, vx_i2 - 1))); }
fn extract_substr
theory fancy
props C02
ens
    extracts_text(input_str@, regex_config.parts@, reveal_private, vx_r),
at fn.start
    broadcast use axiom_err_same;
at call.extract_substr_idxes.0.before
    let ghost mut vx_q: Result<Vec<(usize, usize)>, ExtractSubstrssError> = arbitrary();
at call.extract_substr_idxes.0.after
    proof {
        let ps = regex_config.parts@;
        vx_q = Ok(substr_idxes);
        let c = fr_run(whole(ps), input_str@)->Found_0;
        axiom_groups(ps, input_str@, c);
        wanted_in(ps, c, input_str@, reveal_private, ps.len() as int);
    }
at loop0.inv
    extracts(input_str@, regex_config.parts@, reveal_private, Ok(substr_idxes)),
    forall|q: int| 0 <= q < substr_idxes@.len() ==> in_text(#[trigger] substr_idxes@[q], input_str@),
    seq_refs(vx_it0@, substr_idxes@),
    vx_acc1@.len() == vx_i0,
    forall|k: int| 0 <= k < vx_i0 ==> (#[trigger] vx_acc1@[k])@ == input_str@.subrange(substr_idxes@[k].0 as int, substr_idxes@[k].1 as int),
at fn.end
    proof { assert(extracts(input_str@, regex_config.parts@, reveal_private, vx_q)); }
fn extract_email_addr_idxes
theory fancy
props C03
ens
    exists|cfg: DecomposedRegexConfig| #[trigger] json_is(txt_decomposed_defs_email_addr_json(), cfg) && extracts(input_str@, cfg.parts@, false, vx_r),
fn extract_email_domain_idxes
theory fancy
props C03
ens
    exists|cfg: DecomposedRegexConfig| #[trigger] json_is(txt_decomposed_defs_email_domain_json(), cfg) && extracts(input_str@, cfg.parts@, false, vx_r),
fn extract_from_all_idxes
theory fancy
props C03
ens
    exists|cfg: DecomposedRegexConfig| #[trigger] json_is(txt_decomposed_defs_from_all_json(), cfg) && extracts(input_str@, cfg.parts@, false, vx_r),
fn extract_from_addr_idxes
theory fancy
props C03
ens
    exists|cfg: DecomposedRegexConfig| #[trigger] json_is(txt_decomposed_defs_from_addr_json(), cfg) && extracts(input_str@, cfg.parts@, false, vx_r),
fn extract_to_all_idxes
theory fancy
props C03
ens
    exists|cfg: DecomposedRegexConfig| #[trigger] json_is(txt_decomposed_defs_to_all_json(), cfg) && extracts(input_str@, cfg.parts@, false, vx_r),
fn extract_to_addr_idxes
theory fancy
props C03
ens
    exists|cfg: DecomposedRegexConfig| #[trigger] json_is(txt_decomposed_defs_to_addr_json(), cfg) && extracts(input_str@, cfg.parts@, false, vx_r),
fn extract_subject_all_idxes
theory fancy
props C03
ens
    exists|cfg: DecomposedRegexConfig| #[trigger] json_is(txt_decomposed_defs_subject_all_json(), cfg) && extracts(input_str@, cfg.parts@, false, vx_r),
fn extract_body_hash_idxes
theory fancy
props C03
ens
    exists|cfg: DecomposedRegexConfig| #[trigger] json_is(txt_decomposed_defs_body_hash_json(), cfg) && extracts(input_str@, cfg.parts@, false, vx_r),
fn extract_timestamp_idxes
theory fancy
props C03
ens
    exists|cfg: DecomposedRegexConfig| #[trigger] json_is(txt_decomposed_defs_timestamp_json(), cfg) && extracts(input_str@, cfg.parts@, false, vx_r),
fn extract_message_id_idxes
theory fancy
props C03
ens
    exists|cfg: DecomposedRegexConfig| #[trigger] json_is(txt_decomposed_defs_message_id_json(), cfg) && extracts(input_str@, cfg.parts@, false, vx_r),

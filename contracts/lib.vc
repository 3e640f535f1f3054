fn gen_circom_template
theory graph lang regex front anchor halo circ scan sub out
props C15 C14 C08 C09 C10
req
    closed(regex_and_dfa.dfa, 0, regex_and_dfa.dfa.states@.len() as int),
ens
    vx_r.is_ok() ==> exists|text: Seq<u8>| #[trigger] wrote(*circom_path, text) && circom_is(text, *regex_and_dfa, template_name@, gen_substrs),
at fn.start
    let ghost mut vx_t: VString = arbitrary();
at call.add_substrs_constraints.0.after
    proof { vx_t = substrs; }
at fn.end
    proof {
        reveal(head_is); reveal(tail_is); assert(head_is(circom, *regex_and_dfa, template_name@));
        if gen_substrs { assert(tail_is(vx_t, *regex_and_dfa)); assert(file.content() =~= circom@ + vx_t@); } else { assert(file.content() =~= circom@ + seq![10u8, 125u8]); }
        assert(circom_is(file.content(), *regex_and_dfa, template_name@, gen_substrs));
    }
fn gen_circom_string
theory graph lang regex front anchor halo circ scan sub out
props C15 C14 C08 C09 C10
req
    closed(regex_and_dfa.dfa, 0, regex_and_dfa.dfa.states@.len() as int),
ens
    vx_r.is_ok() ==> circom_is(vx_r.unwrap()@, *regex_and_dfa, template_name@, true),
at fn.end
    proof { reveal(head_is); reveal(tail_is); assert(head_is(circom, *regex_and_dfa, template_name@) && tail_is(substrs, *regex_and_dfa)); }
fn generate_outputs
theory graph lang regex front anchor halo circ scan sub out
props C15 C12 C14
type vx_acc1 Vec<VPath>
req
    circom_file_path.is_some() ==> circom_template_name.is_some(),
    gen_substrs ==> num_public_parts >= regex_and_dfa.substrings.substring_ranges@.len(),
    boundaries_fit(*regex_and_dfa),
    closed(regex_and_dfa.dfa, 0, regex_and_dfa.dfa.states@.len() as int),
ens
    vx_r.is_ok() ==> outputs(*regex_and_dfa, halo2_dir_path, circom_file_path, circom_template_name, gen_substrs),
at loop0.inv
    vx_acc1@.len() == vx_i0,
    substr_paths(halo2_dir_path, vx_acc1@),
at if0.then.end
    proof { assert(halo_out(*regex_and_dfa, halo2_dir_path.txt(), gen_substrs)); }
fn gen_from_decomposed
theory graph lang regex front anchor halo circ scan sub out
props C15 C14
req
    circom_file_path.is_some() ==> circom_template_name.is_some(),
ens
    vx_r.is_ok() ==> exists|d: DecomposedRegexConfig, p: Seq<RegexPartConfig>, r: RegexAndDFA| #[trigger] file_is(decomposed_regex_path@, d) && #[trigger] from_definition(d.parts@, p, r) && outputs(r, halo2_dir_path, circom_file_path, circom_template_name, or_default(gen_substrs, false)),
at call.get_regex_and_dfa.0.before
    proof { axiom_parts(decomposed_regex_config.parts); }
    let ghost p0 = decomposed_regex_config.parts@;
    let ghost vx_d0 = decomposed_regex_config;
at call.get_regex_and_dfa.0.after
    proof { front_fits(p0, decomposed_regex_config.parts@, regex_and_dfa); }
    let ghost p1 = decomposed_regex_config.parts@;
at loop0.inv
    vx_acc2 == npub(decomposed_regex_config.parts@, vx_i0 as int),
    vx_acc2 <= vx_i0,
at fn.end
    proof { assert(file_is(decomposed_regex_path@, vx_d0)); assert(from_definition(vx_d0.parts@, p1, regex_and_dfa)); }
fn gen_circom_from_decomposed_regex
theory graph lang regex front anchor halo circ scan sub out
props C15 C14
req
    circom_file_path.is_some() ==> circom_template_name.is_some(),
ens
    vx_r.is_ok() ==> exists|r: RegexAndDFA| #[trigger] from_definition(old(decomposed_regex).parts@, final(decomposed_regex).parts@, r) && outputs(r, None, circom_file_path, circom_template_name, or_default(gen_substrs, false)),
at call.get_regex_and_dfa.0.before
    proof { axiom_parts(decomposed_regex.parts); }
    let ghost p0 = decomposed_regex.parts@;
at call.get_regex_and_dfa.0.after
    proof { front_fits(p0, decomposed_regex.parts@, regex_and_dfa); }
    let ghost p1 = decomposed_regex.parts@;
at loop0.inv
    vx_acc2 == npub(decomposed_regex.parts@, vx_i0 as int),
    vx_acc2 <= vx_i0,
at fn.end
    proof { assert(from_definition(p0, p1, regex_and_dfa)); }
fn load_substring_definitions_json
theory graph lang regex front anchor halo circ scan sub out
props C15 C14
ens
    vx_r.is_ok() ==> (match substrs_json_path { Some(p) => file_is(p@, vx_r.unwrap()), None => vx_r.unwrap().transitions@.len() == 0 }),
fn gen_from_raw
theory graph lang regex front anchor halo circ scan sub out
props C15 C14
req
    circom_file_path.is_some() ==> template_name.is_some(),
ens
    vx_r.is_ok() ==> exists|d: SubstringDefinitionsJson, r: RegexAndDFA| (match substrs_json_path { Some(p) => file_is(p@, d), None => d.transitions@.len() == 0 }) && #[trigger] from_regex(raw_regex@, d.transitions@, r) && outputs(r, halo2_dir_path, circom_file_path, template_name, or_default(gen_substrs, true)),
at call.create_regex_and_dfa_from_str_and_defs.0.before
    let ghost d0 = substrs_defs_json;
at fn.end
    proof { assert(from_regex(raw_regex@, d0.transitions@, regex_and_dfa)); }

// The command line and the JavaScript bindings of the compiler.
// 'panics': in JavaScript a panic of the function is the exception that reports the error; what is proved is what holds when it returns.
fn genFromDecomposed
theory graph lang regex front anchor halo circ scan sub out cli
props C15
ens
    vx_r.is_ok() ==> exists|d: DecomposedRegexConfig, p: Seq<RegexPartConfig>, r: RegexAndDFA| #[trigger] json_is(decomposedRegexJson@, d) && #[trigger] from_definition(d.parts@, p, r) && circom_is(vx_r.unwrap()@, r, circomTemplateName@, true),
at call.get_regex_and_dfa.0.before
    proof { axiom_parts(decomposed_regex_config.parts); }
    let ghost vx_d0 = decomposed_regex_config;
at call.get_regex_and_dfa.0.after
    proof { front_fits(vx_d0.parts@, decomposed_regex_config.parts@, regex_and_dfa); }
    let ghost vx_p1 = decomposed_regex_config.parts@;
at fn.end
    proof { assert(from_definition(vx_d0.parts@, vx_p1, regex_and_dfa)); }
fn genCircom
theory graph lang regex front anchor halo circ scan sub out cli
props C15
panics
ens
    exists|d: DecomposedRegexConfig, p: Seq<RegexPartConfig>, r: RegexAndDFA| #[trigger] js_is(decomposedRegex.val(), d) && #[trigger] from_definition(d.parts@, p, r) && circom_is(vx_r@, r, circomTemplateName@, true),
at call.get_regex_and_dfa.0.before
    proof { axiom_parts(decomposed_regex_config.parts); }
    let ghost vx_d0 = decomposed_regex_config;
at call.get_regex_and_dfa.0.after
    proof { front_fits(vx_d0.parts@, decomposed_regex_config.parts@, regex_and_dfa); }
    let ghost vx_p1 = decomposed_regex_config.parts@;
at fn.end
    proof { assert(from_definition(vx_d0.parts@, vx_p1, regex_and_dfa)); }
fn genRegexAndDfa
theory graph lang regex front anchor halo circ scan sub out cli
props C15
panics
ens
    exists|d: DecomposedRegexConfig, p: Seq<RegexPartConfig>, r: RegexAndDFA| #[trigger] js_is(decomposedRegex.val(), d) && #[trigger] from_definition(d.parts@, p, r) && un_auto(vx_r.text()) == r,
at call.get_regex_and_dfa.0.before
    proof { axiom_parts(decomposed_regex_config.parts); }
    let ghost vx_d0 = decomposed_regex_config;
at call.get_regex_and_dfa.0.after
    proof { front_fits(vx_d0.parts@, decomposed_regex_config.parts@, regex_and_dfa); }
    let ghost vx_p1 = decomposed_regex_config.parts@;
at fn.end
    proof { assert(from_definition(vx_d0.parts@, vx_p1, regex_and_dfa)); }
fn genFromRaw
theory graph lang regex front anchor halo circ scan sub out cli
props C15
panics
ens
    exists|d: SubstringDefinitionsJson, r: RegexAndDFA| #[trigger] json_is(substrsJson@, d) && #[trigger] from_regex(rawRegex@, d.transitions@, r) && circom_is(vx_r@, r, circomTemplateName@, true),
at call.create_regex_and_dfa_from_str_and_defs.0.before
    let ghost vx_d0 = substrs_defs_json;
at fn.end
    proof { assert(from_regex(rawRegex@, vx_d0.transitions@, regex_and_dfa)); }
fn process_decomposed
theory graph lang regex front anchor halo circ scan sub out cli
props C15
req
    cli.command is Decomposed,
    name_given(cli.command),
ens
    served(cli.command),
fn process_raw
theory graph lang regex front anchor halo circ scan sub out cli
props C15
req
    cli.command is Raw,
    name_given(cli.command),
ens
    served(cli.command),
fn vx_main
theory graph lang regex front anchor halo circ scan sub out cli
props C15
ens
    exists|c: Cli| #[trigger] given(c) && served(c.command),

// ---------- the command line and the JavaScript bindings ----------
// serde_json::to_string of an automaton with its publication: an injective text, given by its inverse
pub uninterp spec fn un_auto(t: Seq<u8>) -> RegexAndDFA;
impl VxJson for RegexAndDFA { open spec fn vx_is(&self, r: VString) -> bool { un_auto(r@) == *self } }
pub open spec fn from_decomposed_file(path: VString, halo: Option<VString>, circom: Option<VString>, name: Option<VString>, gen: Option<bool>) -> bool {
    exists|d: DecomposedRegexConfig, p: Seq<RegexPartConfig>, r: RegexAndDFA| #[trigger] file_is(path@, d) && #[trigger] from_definition(d.parts@, p, r) && outputs(r, opt_ref(halo), opt_ref(circom), opt_ref(name), or_default(gen, false))
}
pub open spec fn from_raw(re: VString, subs: Option<VString>, halo: Option<VString>, circom: Option<VString>, name: Option<VString>, gen: Option<bool>) -> bool {
    exists|d: SubstringDefinitionsJson, r: RegexAndDFA| (match subs { Some(p) => file_is(p@, d), None => d.transitions@.len() == 0 }) && #[trigger] from_regex(re@, d.transitions@, r) && outputs(r, opt_ref(halo), opt_ref(circom), opt_ref(name), or_default(gen, true))
}
// the arguments the process was given (clap), and that a template name comes with a circom path (the documented use)
pub uninterp spec fn given(c: Cli) -> bool;
pub open spec fn name_given(c: Commands) -> bool {
    match c { Commands::Decomposed { circom_file_path, template_name, .. } => circom_file_path.is_some() ==> template_name.is_some(), Commands::Raw { circom_file_path, template_name, .. } => circom_file_path.is_some() ==> template_name.is_some() }
}
// what the arguments ask for is what was written
pub open spec fn served(c: Commands) -> bool {
    match c {
        Commands::Decomposed { decomposed_regex_path, halo2_dir_path, circom_file_path, template_name, gen_substrs, .. } => from_decomposed_file(decomposed_regex_path, halo2_dir_path, circom_file_path, template_name, gen_substrs),
        Commands::Raw { raw_regex, substrs_json_path, halo2_dir_path, circom_file_path, template_name, gen_substrs, .. } => from_raw(raw_regex, substrs_json_path, halo2_dir_path, circom_file_path, template_name, gen_substrs),
    }
}
impl Cli { #[verifier::external_body] pub fn parse() -> (r: Cli) ensures given(r), name_given(r.command) { unimplemented!() } }

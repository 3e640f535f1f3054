
/// Appended by /verif to a copy of the crate: gives the harness access to crate-private entry points.
#[allow(dead_code)]
pub mod vx_probe {
    pub const AVAILABLE: bool = true;
    fn js<T: serde::Serialize>(v: &T) -> String { serde_json::to_string(v).unwrap() }
    fn rad(s: &str) -> crate::structs::RegexAndDFA { serde_json::from_str(s).expect("vx_probe: automaton json") }
    pub fn rad_decomposed(def: &str) -> Result<String, String> {
        let mut c: crate::DecomposedRegexConfig = serde_json::from_str(def).map_err(|e| e.to_string())?;
        crate::regex::get_regex_and_dfa(&mut c).map(|r| js(&r)).map_err(|e| e.to_string())
    }
    pub fn rad_raw(re: &str, subs: &str) -> Result<String, String> {
        let s: crate::structs::SubstringDefinitionsJson = serde_json::from_str(subs).map_err(|e| e.to_string())?;
        crate::regex::create_regex_and_dfa_from_str_and_defs(re, s).map(|r| js(&r)).map_err(|e| e.to_string())
    }
    pub fn circom(r: &str, name: &str) -> Result<String, String> { crate::circom::gen_circom_string(&rad(r), name).map_err(|e| e.to_string()) }
    pub fn circom_file(r: &str, path: &std::path::Path, name: &str, gen: bool) -> Result<(), String> {
        crate::circom::gen_circom_template(&rad(r), path, name, gen).map_err(|e| e.to_string())
    }
    pub fn halo2(r: &str, all: &std::path::PathBuf, subs: &[std::path::PathBuf], gen: bool) -> Result<(), String> {
        crate::halo2::gen_halo2_tables(&rad(r), all, subs, gen).map_err(|e| e.to_string())
    }
    pub fn wasm_decomposed(def: &str, name: &str) -> Option<String> { crate::wasm::genFromDecomposed(def, name).ok() }
    pub fn wasm_raw(re: &str, subs: &str, name: &str) -> Option<String> { Some(crate::wasm::genFromRaw(re, subs, name)) }
}

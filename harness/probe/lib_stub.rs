
#[allow(dead_code)]
pub mod vx_probe {
    pub const AVAILABLE: bool = false;
    type S = Result<String, String>;
    fn no<T>() -> Result<T, String> { Err("probe not available".into()) }
    pub fn rad_decomposed(_: &str) -> S { no() }
    pub fn rad_raw(_: &str, _: &str) -> S { no() }
    pub fn circom(_: &str, _: &str) -> S { no() }
    pub fn circom_file(_: &str, _: &std::path::Path, _: &str, _: bool) -> Result<(), String> { no() }
    pub fn halo2(_: &str, _: &std::path::PathBuf, _: &[std::path::PathBuf], _: bool) -> Result<(), String> { no() }
    pub fn wasm_decomposed(_: &str, _: &str) -> Option<String> { None }
    pub fn wasm_raw(_: &str, _: &str, _: &str) -> Option<String> { None }
}

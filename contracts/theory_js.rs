// ---------- the JavaScript bindings of the extraction ----------
// a configuration is passed as a text or as an object
pub open spec fn js_cfg(v: JsV, c: DecomposedRegexConfig) -> bool { match v { JsV::Str(t) => json_is(t, c), _ => js_is(v, c) } }
pub open spec fn js_cfg_fits(v: JsV) -> bool { match v { JsV::Str(t) => json_fits::<DecomposedRegexConfig>(t), _ => js_fits::<DecomposedRegexConfig>(v) } }
pub open spec fn js_span(x: (usize, usize), v: JsV) -> bool { v matches JsV::Arr(a) && a.len() == 2 && a[0] == JsV::Num(x.0 as int) && a[1] == JsV::Num(x.1 as int) }
pub open spec fn js_spans(q: Seq<(usize, usize)>, a: Seq<JsV>) -> bool { a.len() == q.len() && forall|k: int| 0 <= k < q.len() ==> js_span(q[k], #[trigger] a[k]) }
pub open spec fn js_texts(q: Seq<VString>, a: Seq<JsV>) -> bool { a.len() == q.len() && forall|k: int| 0 <= k < q.len() ==> #[trigger] a[k] == JsV::Str(q[k]@) }
pub open spec fn spans_given(q: Result<Vec<(usize, usize)>, ExtractSubstrssError>, r: Result<Array, JsValue>) -> bool { match q { Ok(v) => r.is_ok() && js_spans(v@, r.unwrap().items()), Err(_) => r.is_err() } }
pub open spec fn texts_given(q: Result<Vec<VString>, ExtractSubstrssError>, r: Result<Array, JsValue>) -> bool { match q { Ok(v) => r.is_ok() && js_texts(v@, r.unwrap().items()), Err(_) => r.is_err() } }
// what the binding returns is what the extraction returns; an error otherwise
pub open spec fn js_extracts(s: Seq<u8>, j: JsV, all: bool, r: Result<Array, JsValue>) -> bool {
    (!js_cfg_fits(j) && r.is_err()) || exists|c: DecomposedRegexConfig, q: Result<Vec<(usize, usize)>, ExtractSubstrssError>| #[trigger] js_cfg(j, c) && #[trigger] extracts(s, c.parts@, all, q) && spans_given(q, r)
}
pub open spec fn js_extracts_text(s: Seq<u8>, j: JsV, all: bool, r: Result<Array, JsValue>) -> bool {
    (!js_cfg_fits(j) && r.is_err()) || exists|c: DecomposedRegexConfig, q: Result<Vec<VString>, ExtractSubstrssError>| #[trigger] js_cfg(j, c) && #[trigger] extracts_text(s, c.parts@, all, q) && texts_given(q, r)
}
pub open spec fn js_preset(s: Seq<u8>, def: Seq<u8>, r: Result<Array, JsValue>) -> bool {
    exists|c: DecomposedRegexConfig, q: Result<Vec<(usize, usize)>, ExtractSubstrssError>| #[trigger] json_is(def, c) && #[trigger] extracts(s, c.parts@, false, q) && spans_given(q, r)
}
// assumed: the addresses of the JavaScript package have 32 bits, so a text and a list in its memory are shorter than 2^32
pub axiom fn axiom_wasm_text(s: VString) ensures s@.len() <= 0xffff_ffff;
pub axiom fn axiom_wasm_spans(v: Vec<(usize, usize)>) ensures v@.len() <= 0xffff_ffff;
pub axiom fn axiom_wasm_texts(v: Vec<VString>) ensures v@.len() <= 0xffff_ffff;

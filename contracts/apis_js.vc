// The JavaScript bindings.
fn padString
theory fancy js
props C01
req
    str@.len() <= paddedBytesSize,
    paddedBytesSize <= 0xffff_ffff,
ens
    vx_r.items().len() == paddedBytesSize,
    forall|k: int| 0 <= k < str@.len() ==> #[trigger] vx_r.items()[k] == JsV::Num(str@[k] as int),
    forall|k: int| str@.len() <= k < paddedBytesSize ==> #[trigger] vx_r.items()[k] == JsV::Num(0),
at loop0.before
    let ghost vx_b = padded_bytes@;
    proof { assert forall|k: int| 0 <= k < str@.len() implies #[trigger] vx_b[k] == str@[k] by { assert(vx_b.subrange(0, str@.len() as int)[k] == str@[k]); } }
at loop0.inv
    seq_refs(vx_it0@, vx_b),
    vx_b.len() == paddedBytesSize,
    arr.items().len() == vx_b.len(),
    forall|k: int| 0 <= k < vx_i0 ==> #[trigger] arr.items()[k] == JsV::Num(vx_b[k] as int),
fn parse_js_regex_config
theory fancy js
props C02 C03
ens
    match vx_r { Ok(c) => js_cfg(regex_config.val(), c), Err(_) => !js_cfg_fits(regex_config.val()) },
fn extractSubstrIdxes
theory fancy js
props C02 C03
ens
    js_extracts(inputStr@, regexConfig.val(), reveal_private, vx_r),
at fn.start
    let ghost mut vx_q: Result<Vec<(usize, usize)>, ExtractSubstrssError> = arbitrary();
at loop0.before
    proof {
        let ps = regex_config.parts@;
        vx_q = Ok(idxes);
        let c = fr_run(whole(ps), inputStr@)->Found_0;
        axiom_groups(ps, inputStr@, c);
        wanted_in(ps, c, inputStr@, reveal_private, ps.len() as int);
        axiom_wasm_text(*inputStr); axiom_wasm_spans(idxes);
    }
at loop0.inv
    seq_refs(vx_it0@, idxes@),
    idxes@.len() <= 0xffff_ffff,
    inputStr@.len() <= 0xffff_ffff,
    forall|q: int| 0 <= q < idxes@.len() ==> in_text(#[trigger] idxes@[q], inputStr@),
    arr.items().len() == idxes@.len(),
    forall|k: int| 0 <= k < vx_i0 ==> js_span(idxes@[k], #[trigger] arr.items()[k]),
at loop0.start
    proof { assert(in_text(idxes@[vx_i0 - 1], inputStr@)); }
at fn.end
    proof { assert(js_cfg(regexConfig.val(), regex_config)); assert(extracts(inputStr@, regex_config.parts@, reveal_private, vx_q)); }
fn extractSubstr
theory fancy js
props C02
ens
    js_extracts_text(inputStr@, regexConfig.val(), reveal_private, vx_r),
at fn.start
    let ghost mut vx_q: Result<Vec<VString>, ExtractSubstrssError> = arbitrary();
at loop0.before
    proof { vx_q = Ok(result_strs); axiom_wasm_texts(result_strs); }
    let ghost vx_t = result_strs@;
at loop0.inv
    vx_it0@ == vx_t,
    vx_t.len() <= 0xffff_ffff,
    js_array.items().len() == vx_t.len(),
    forall|k: int| 0 <= k < vx_i0 ==> #[trigger] js_array.items()[k] == JsV::Str(vx_t[k]@),
at fn.end
    proof { assert(js_cfg(regexConfig.val(), regex_config)); assert(extracts_text(inputStr@, regex_config.parts@, reveal_private, vx_q)); }
fn extractEmailAddrIdxes
theory fancy js
props C03
ens
    js_preset(inputStr@, txt_decomposed_defs_email_addr_json(), vx_r),
fn extractEmailDomainIdxes
theory fancy js
props C03
ens
    js_preset(inputStr@, txt_decomposed_defs_email_domain_json(), vx_r),
fn extractFromAllIdxes
theory fancy js
props C03
ens
    js_preset(inputStr@, txt_decomposed_defs_from_all_json(), vx_r),
fn extractFromAddrIdxes
theory fancy js
props C03
ens
    js_preset(inputStr@, txt_decomposed_defs_from_addr_json(), vx_r),
fn extractToAllIdxes
theory fancy js
props C03
ens
    js_preset(inputStr@, txt_decomposed_defs_to_all_json(), vx_r),
fn extractToAddrIdxes
theory fancy js
props C03
ens
    js_preset(inputStr@, txt_decomposed_defs_to_addr_json(), vx_r),
fn extractSubjectAllIdxes
theory fancy js
props C03
ens
    js_preset(inputStr@, txt_decomposed_defs_subject_all_json(), vx_r),
fn extractBodyHashIdxes
theory fancy js
props C03
ens
    js_preset(inputStr@, txt_decomposed_defs_body_hash_json(), vx_r),
fn extractTimestampIdxes
theory fancy js
props C03
ens
    js_preset(inputStr@, txt_decomposed_defs_timestamp_json(), vx_r),
fn extractMessageIdIdxes
theory fancy js
props C03
ens
    js_preset(inputStr@, txt_decomposed_defs_message_id_json(), vx_r),

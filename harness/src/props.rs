use crate::circ::{Bad, Lib};
use crate::odfa::{self, compose, differ, D, G, NONE};
use crate::rgen::{self, Rng};
use crate::scan::scan;
use crate::{quiet, Ctx, Fam, Out};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use zk_regex_apis::{extract_substrs as ex, padding};
use zk_regex_compiler as zc;
use zk_regex_compiler_probe::vx_probe as pb;

pub fn probe_available() -> bool { pb::AVAILABLE }

type Parts = Vec<(bool, String)>;
fn def_json(p: &Parts) -> String { json!({"parts": p.iter().map(|(b, r)| json!({"is_public": b, "regex_def": r})).collect::<Vec<_>>()}).to_string() }
fn zc_cfg(p: &Parts) -> zc::DecomposedRegexConfig { serde_json::from_str(&def_json(p)).unwrap() }
fn viol(what: &str, input: Value, expected: impl serde::Serialize, actual: impl serde::Serialize) -> Out {
    Out::Viol(json!({"what": what, "input": input, "expected": expected, "actual": actual}))
}
fn show(w: &[u8]) -> String { w.iter().map(|&b| std::ascii::escape_default(b).to_string()).collect() }
macro_rules! tri { ($e:expr) => { match $e { Ok(x) => x, Err(o) => return o } } }

// ---------- automata of the code under test ----------
/// The published automaton, its transition sets, boundaries and end-anchor mark.
pub struct Rad { pub g: G, pub d: D, pub ranges: Vec<BTreeSet<(usize, usize)>>, pub bounds: Option<Vec<(BTreeSet<usize>, BTreeSet<usize>)>>, pub anchor: bool, pub pattern: String }
fn g_of(v: &Value) -> G {
    let mut g = G { acc: vec![], tr: vec![] };
    for s in v["dfa"]["states"].as_array().unwrap() {
        g.acc.push(s["state_type"] == "accept");
        g.tr.push(s["transitions"].as_object().unwrap().iter().map(|(k, b)| (k.parse().unwrap(), b.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect())).collect());
    }
    g
}
fn set(v: &Value) -> BTreeSet<usize> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() }
fn pairs(v: &Value) -> BTreeSet<(usize, usize)> { v.as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap() as usize, x[1].as_u64().unwrap() as usize)).collect() }
/// Err: the structure itself is malformed.
fn rad_of(js: &str) -> Result<Rad, String> {
    let v: Value = serde_json::from_str(js).unwrap();
    for (i, s) in v["dfa"]["states"].as_array().unwrap().iter().enumerate() {
        if s["state_id"].as_u64() != Some(i as u64) { return Err(format!("state number {} at position {}", s["state_id"], i)); }
    }
    let g = g_of(&v);
    let d = g.to_d()?;
    Ok(Rad {
        g, d,
        ranges: v["substrings"]["substring_ranges"].as_array().unwrap().iter().map(pairs).collect(),
        bounds: v["substrings"]["substring_boundaries"].as_array().map(|a| a.iter().map(|x| (set(&x[0]), set(&x[1]))).collect()),
        anchor: v["has_end_anchor"].as_bool().unwrap(),
        pattern: v["regex_pattern"].as_str().unwrap_or("").to_string(),
    })
}
/// Err(Ok(msg)): the compiler reports an error; Err(Err(p)): it panics.
enum Fail { Error(String), Panic(String) }
fn rad_dec(c: &Ctx, p: &Parts) -> Result<Result<Rad, String>, Fail> {
    let def = def_json(p);
    if pb::AVAILABLE {
        return match quiet(|| pb::rad_decomposed(&def)) { Err(e) => Err(Fail::Panic(e)), Ok(Err(e)) => Err(Fail::Error(e)), Ok(Ok(s)) => Ok(rad_of(&s)) };
    }
    from_files(c, p)
}
/// The automaton read back from the public outputs (accept states: only the one named in the table).
fn from_files(c: &Ctx, p: &Parts) -> Result<Result<Rad, String>, Fail> {
    let h = c.dir.join("h2"); let _ = std::fs::remove_dir_all(&h); std::fs::create_dir_all(&h).unwrap();
    let f = c.dir.join("def.json"); std::fs::write(&f, def_json(p)).unwrap();
    match quiet(|| zc::gen_from_decomposed(f.to_str().unwrap(), h.to_str(), None, None, Some(true)).map_err(|e| e.to_string())) {
        Err(e) => return Err(Fail::Panic(e)), Ok(Err(e)) => return Err(Fail::Error(e)), _ => {}
    }
    let t = std::fs::read_to_string(h.join("allstr.txt")).unwrap();
    let mut l = t.lines();
    let nx = |l: &mut std::str::Lines| l.next().unwrap_or("").trim().parse::<usize>().unwrap_or(0);
    let (_, a, m) = (nx(&mut l), nx(&mut l), nx(&mut l));
    let mut g = G { acc: (0..=m).map(|s| s == a).collect(), tr: vec![BTreeMap::new(); m + 1] };
    for x in l {
        let v: Vec<usize> = x.split(' ').filter_map(|y| y.parse().ok()).collect();
        if v.len() != 3 || v[0] > m || v[2] > 255 { return Ok(Err(format!("row {:?}", x))); }
        g.tr[v[0]].entry(v[1]).or_insert_with(BTreeSet::new).insert(v[2] as u8);
    }
    let mut ranges = vec![]; let mut bounds = vec![];
    for k in 0.. {
        let Ok(t) = std::fs::read_to_string(h.join(format!("substr_{}.txt", k))) else { break };
        let nums = |s: &str| s.split(' ').filter_map(|y| y.parse().ok()).collect::<Vec<usize>>();
        let ls: Vec<&str> = t.lines().collect();
        bounds.push((nums(ls.first().unwrap_or(&"")).into_iter().collect(), nums(ls.get(1).unwrap_or(&"")).into_iter().collect()));
        ranges.push(ls.iter().skip(2).map(|s| { let v = nums(s); (v[0], v[1]) }).collect());
    }
    Ok(g.to_d().map(|d| Rad { g, d, ranges, bounds: Some(bounds), anchor: p.last().map_or(false, |x| x.1.ends_with('$')), pattern: p.iter().map(|x| x.1.clone()).collect() }))
}
fn rad_json(d: &D, ranges: &[BTreeSet<(usize, usize)>], bounds: Option<&[(BTreeSet<usize>, BTreeSet<usize>)]>, anchor: bool, pattern: &str) -> String {
    let states: Vec<Value> = (0..d.tr.len()).map(|s| {
        let mut m: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for b in 0..256 { if d.tr[s][b] != NONE { m.entry(d.tr[s][b]).or_default().push(b); } }
        json!({"state_type": if d.acc[s] { "accept" } else { "" }, "state_id": s, "transitions": m})
    }).collect();
    json!({"regex_pattern": pattern, "dfa": {"states": states}, "has_end_anchor": anchor, "substrings": {"substring_ranges": ranges, "substring_boundaries": bounds}}).to_string()
}
fn d_json(d: &D) -> Value {
    json!((0..d.tr.len()).map(|s| {
        let mut m: BTreeMap<usize, Vec<String>> = BTreeMap::new();
        let mut b = 0;
        while b < 256 { let t = d.tr[s][b]; let st = b; while b < 256 && d.tr[s][b] == t { b += 1; } if t != NONE { m.entry(t).or_default().push(format!("{}-{}", st, b - 1)); } }
        json!({"state": s, "accept": d.acc[s], "to": m})
    }).collect::<Vec<_>>())
}

// ---------- circuits ----------
fn helpers(c: &Ctx) -> String { std::fs::read_to_string(c.repo.join("packages/circom/circuits/regex_helpers.circom")).unwrap_or_default() }
struct Circuit { lib: Lib }
fn circuit(c: &Ctx, text: &str) -> Result<Circuit, String> { Lib::new(&[&helpers(c), text]).map(|lib| Circuit { lib }) }
type Ev = (bool, Vec<Vec<i128>>, HashMap<String, (Vec<usize>, Vec<Option<i128>>)>);
impl Circuit {
    fn eval(&self, t: &str, msg: &[u8]) -> Result<Ev, String> {
        let m: Vec<i128> = msg.iter().map(|&b| b as i128).collect();
        match self.lib.circuit(t, &m) {
            Ok((o, all)) => {
                let out = match o.get("out") { Some(v) if v.len() == 1 && (v[0] == 0 || v[0] == 1) => v[0] == 1, x => return Err(format!("output out: {:?}", x)) };
                let mut rev = vec![];
                for k in 0.. { match o.get(&format!("reveal{}", k)) { Some(v) => rev.push(v.clone()), None => break } }
                if rev.len() + 1 != o.len() { return Err(format!("unexpected outputs {:?}", o.keys().collect::<Vec<_>>())); }
                Ok((out, rev, all))
            }
            Err(Bad::Circuit(e)) => Err(format!("invalid circuit: {}", e)),
            Err(Bad::Unsat(e)) => Err(format!("constraints unsatisfiable for an honest message: {}", e)),
        }
    }
}
#[derive(PartialEq, Clone, Copy)]
enum Want { States, OutSig, Reveal, Valid }
/// Compares one circuit with the scan of its automaton on one message.
fn check_msg(ci: &Circuit, t: &str, d: &D, acc: usize, anchor: bool, ranges: &[BTreeSet<(usize, usize)>], msg: &[u8], w: Want, input: &dyn Fn() -> Value) -> Result<bool, Out> {
    let s = scan(d, msg);
    let (out, rev, all) = match ci.eval(t, msg) { Ok(x) => x, Err(e) => return Err(viol(&e, input(), "a valid circuit whose constraints every message satisfies", e.clone())) };
    let exp = s.out(acc, anchor);
    if w == Want::Valid { return Ok(exp); }
    if w == Want::States {
        if let Some((dims, data)) = all.get("states") {
            if dims.len() == 2 && dims[0] == s.act.len() && dims[1] == d.tr.len() {
                for i in 0..dims[0] { for j in 1..dims[1] {
                    let e = s.act[i].contains(&j) as i128;
                    if data[i * dims[1] + j] != Some(e) {
                        let mut v = input(); v["signal"] = json!(format!("states[{}][{}]", i, j));
                        return Err(viol("a state signal differs from the automaton scan", v, e, format!("{:?}", data[i * dims[1] + j])));
                    }
                } }
            }
        }
    }
    if out != exp { return Err(viol("the match output differs from the automaton scan", input(), exp, out)); }
    if w == Want::Reveal || w == Want::States {
        if rev.len() != ranges.len() && !(w == Want::States) { return Err(viol("number of reveal outputs", input(), ranges.len(), rev.len())); }
        if w == Want::Reveal {
            for (k, rg) in ranges.iter().enumerate() {
                let e = s.reveal(acc, exp, rg);
                if rev[k] != e { let mut v = input(); v["substring"] = json!(k); return Err(viol("a reveal output differs from the automaton scan", v, e, &rev[k])); }
            }
        }
    }
    Ok(exp)
}
fn circuit_case(c: &Ctx, r: &mut Rng, i: usize, w: Want) -> Out {
    if !pb::AVAILABLE { return Out::Done; }
    let (d, acc) = rgen::automaton(r);
    let anchor = match w { Want::OutSig => r.p(1, 2), _ => r.p(1, 5) };
    let n = d.tr.len();
    let edges: Vec<(usize, usize)> = (0..n).flat_map(|s| d.tr[s].iter().filter(|&&t| t != NONE && t != 0).map(move |&t| (s, t)).collect::<BTreeSet<_>>()).collect();
    if edges.is_empty() { return Out::Ok(None); }
    let ns = match w { Want::Reveal => if r.n(16) == 0 { 8 + r.n(6) } else { 1 + r.n(3) }, Want::Valid => if r.n(16) == 0 { 10 + r.n(3) } else { r.n(3) }, _ => r.n(2) };
    let many = r.n(10) == 0;
    let ranges: Vec<BTreeSet<(usize, usize)>> = (0..ns).map(|_| (0..1 + if many { r.n(24) } else { r.n(4) }).map(|_| *r.pick(&edges)).collect()).collect();
    let pattern = if w == Want::Valid { ["ab", "a\nb", "x\r\ny", "}\n}", "*/ a", "\n\tout <== 1;", "末", "//", "\r"][i % 9] } else { "p" };
    let js = rad_json(&d, &ranges, None, anchor, pattern);
    let subs = w == Want::Reveal || ns > 0 || r.p(1, 2);
    let text = if subs && (w != Want::Valid || i % 2 == 0) {
        match quiet(|| pb::circom(&js, "Tt")) { Ok(Ok(s)) => s, e => return viol("generation fails for an automaton with one accept state", json!({"automaton": d_json(&d), "accept": acc}), "circuit", format!("{:?}", e)) }
    } else {
        let f = c.dir.join("c.circom");
        match quiet(|| pb::circom_file(&js, &f, "Tt", subs)) { Ok(Ok(())) => std::fs::read_to_string(&f).unwrap(), e => return viol("generation fails for an automaton with one accept state", json!({"automaton": d_json(&d), "accept": acc}), "circuit", format!("{:?}", e)) }
    };
    let rg: Vec<_> = if subs { ranges.clone() } else { vec![] };
    let base = |msg: &[u8]| json!({"automaton": d_json(&d), "accept": acc, "end_anchor": anchor, "substrings": ranges, "message": msg, "pattern": pattern});
    let ci = match circuit(c, &text) { Ok(x) => x, Err(e) => return viol("the generated circuit does not parse", base(&[]), "a complete template", e) };
    if w == Want::Valid { if let Some(o) = text_shape(&text, pattern, &base) { return o; } }
    let mut hits = 0;
    for _ in 0..if w == Want::Valid { 2 } else { 5 } {
        let n = if d.tr.len() < 60 && r.n(8) == 0 { 10 + r.n(60) } else { 1 + r.n(9) };
        let m = rgen::message(r, &d, n);
        if tri!(check_msg(&ci, "Tt", &d, acc, anchor, &rg, &m, w, &|| base(&m))) { hits += 1; }
    }
    Out::Ok(Some(json!({"states": n, "accept": acc, "transitions": edges.len(), "substrings": ns, "end_anchor": anchor, "messages_accepted": hits, "case": i})))
}
fn text_shape(text: &str, pattern: &str, base: &dyn Fn(&[u8]) -> Value) -> Option<Out> {
    if !text.contains("pragma circom") { return Some(viol("no pragma", base(&[]), "pragma circom", "")); }
    let pat = pattern.replace('\n', "\\n").replace('\r', "\\r");
    let coms: Vec<&str> = text.lines().filter(|l| l.contains("// regex:")).collect();
    if coms.len() != 1 || coms[0].trim() != format!("// regex: {}", pat).trim() { return Some(viol("the pattern comment", base(&[]), format!("// regex: {}", pat), coms)); }
    if text.contains('\r') { return Some(viol("a raw carriage return in the circuit text", base(&[]), "escaped", "raw")); }
    None
}
fn c08_auto(c: &Ctx, r: &mut Rng, i: usize) -> Out { circuit_case(c, r, i, Want::States) }
fn c09_auto(c: &Ctx, r: &mut Rng, i: usize) -> Out { circuit_case(c, r, i, Want::OutSig) }
fn c10_auto(c: &Ctx, r: &mut Rng, i: usize) -> Out { circuit_case(c, r, i, Want::Reveal) }
fn c11_auto(c: &Ctx, r: &mut Rng, i: usize) -> Out { circuit_case(c, r, i, Want::Valid) }

/// A random decomposed definition whose parts behave (documented limitations respected); returns oracle automata.
fn parts(r: &mut Rng, n: usize, odd: usize) -> Option<(Parts, Vec<D>)> {
    let mut p = vec![]; let mut ds = vec![];
    for k in 0..n {
        let depth = if r.n(12) == 0 { 3 } else { 2 };
        let re = rgen::regex(r, depth, odd);
        let d = D::of(&re, false)?;
        if d.tr.len() > 40 { return None; }
        p.push((r.p(1, 2), re)); ds.push(d);
        let _ = k;
    }
    Some((p, ds))
}
fn gen_file(c: &Ctx, p: &Parts, subs: bool) -> Result<String, Fail> {
    let f = c.dir.join("d.circom");
    let _ = std::fs::remove_file(&f);
    let mut cfg = zc_cfg(p);
    match quiet(|| zc::gen_circom_from_decomposed_regex(&mut cfg, f.to_str(), Some("Tt"), Some(subs)).map_err(|e| e.to_string())) {
        Err(e) => Err(Fail::Panic(e)), Ok(Err(e)) => Err(Fail::Error(e)), Ok(Ok(())) => Ok(std::fs::read_to_string(&f).unwrap_or_default()),
    }
}
/// End to end: definition -> circuit file -> evaluation, against the composition of independent automata.
fn e2e(c: &Ctx, r: &mut Rng, _i: usize, w: Want) -> Out {
    let np = if r.n(10) == 0 { 4 + r.n(9) } else { 1 + r.n(3) };
    let Some((mut p, mut ds)) = parts(r, np, 2) else { return Out::Ok(None) };
    let mut anchor = false;
    if r.p(1, 4) { let l = p.len() - 1; p[l].1 += "$"; anchor = true; if p[l].1.contains('|') && !p[l].1.starts_with('(') { return Out::Ok(None); } }
    if r.p(1, 5) { // start anchor
        p.insert(0, (false, "^".into()));
        let mut t = vec![vec![NONE; 256]; 2]; t[0][255] = 1;
        ds.insert(0, D { tr: t, acc: vec![false, true] });
        let (a, b) = (p[0].1.clone(), p[1].1.clone());
        p[1].1 = a + &b; p.remove(0);
    }
    let cp = compose(&ds);
    let accs = cp.d.accept_states();
    if cp.reentry || ds[0].reenters_start() || accs.len() != 1 || accs[0] == 0 || cp.conflict { return Out::Ok(None); }
    let ranges_src: Vec<BTreeSet<(usize, usize)>> = { let off = ds.len() - p.len(); p.iter().enumerate().filter(|(_, x)| x.0).map(|(k, _)| cp.part_edges[k + off].clone()).collect() };
    if ranges_src.iter().any(|x| x.is_empty()) { return Out::Ok(None); }
    // a public first part that carries the start anchor is split: the anchor itself is private
    let text = match gen_file(c, &p, true) { Ok(t) => t, Err(Fail::Error(e)) | Err(Fail::Panic(e)) => return viol("generation fails for a valid definition", json!({"parts": p}), "circuit", e) };
    let base = |m: &[u8]| json!({"parts": p, "message": show(m), "message_bytes": m});
    let ci = match circuit(c, &text) { Ok(x) => x, Err(e) => return viol("the generated circuit does not parse", base(&[]), "a complete template", e) };
    let mut hits = 0;
    for _ in 0..4 {
        let n = 2 + r.n(10);
        let mut m = rgen::message(r, &cp.d, n);
        if let Some(z) = m.iter().position(|&b| b == 0) { for b in &mut m[z..] { *b = 0; } }
        if tri!(check_msg(&ci, "Tt", &cp.d, accs[0], anchor, &ranges_src, &m, if w == Want::States { Want::OutSig } else { w }, &|| base(&m))) { hits += 1; }
    }
    Out::Ok(Some(json!({"parts": p, "matched_messages": hits})))
}
fn e2e_states(c: &Ctx, r: &mut Rng, i: usize) -> Out { e2e(c, r, i, Want::States) }
fn e2e_out(c: &Ctx, r: &mut Rng, i: usize) -> Out { e2e(c, r, i, Want::OutSig) }
fn e2e_reveal(c: &Ctx, r: &mut Rng, i: usize) -> Out { e2e(c, r, i, Want::Reveal) }
fn e2e_valid(c: &Ctx, r: &mut Rng, i: usize) -> Out { e2e(c, r, i, Want::Valid) }

// C09: automata without exactly one accept state
fn c09_reject(c: &Ctx, r: &mut Rng, i: usize) -> Out {
    if pb::AVAILABLE && i % 2 == 0 {
        let (mut d, acc) = rgen::automaton(r);
        if d.tr.len() < 3 { return Out::Ok(None); }
        let zero = r.p(1, 2);
        if zero { d.acc[acc] = false; } else { let o = 1 + (acc % (d.tr.len() - 1)); d.acc[o] = true; if o == acc { return Out::Ok(None); } }
        let js = rad_json(&d, &[], None, r.p(1, 2), "p");
        let inp = json!({"automaton": d_json(&d)});
        let f = c.dir.join("x.circom");
        for k in 0..2 {
            let o = quiet(|| if k == 0 { pb::circom(&js, "T").map(|_| ()) } else { pb::circom_file(&js, &f, "T", false) });
            match o { Ok(Err(_)) => {} o => return viol("a circuit is generated for an automaton without exactly one accept state", inp, "error", format!("{:?}", o)) }
        }
        return Out::Ok(Some(json!({"accept_states": if zero { 0 } else { 2 }, "states": d.tr.len(), "case": i})));
    }
    let Some((p, ds)) = parts(r, 1, 1) else { return Out::Ok(None) };
    let n = ds[0].accept_states().len();
    if n == 1 { return Out::Ok(None); }
    match gen_file(c, &p, false) { Err(Fail::Error(_)) => Out::Ok(Some(json!({"parts": p, "accept_states": n}))), Ok(_) => viol("a circuit is generated for an automaton without exactly one accept state", json!({"parts": p}), "error", "circuit"), Err(Fail::Panic(e)) => viol("panic", json!({"parts": p}), "error", e) }
}
// C08: soundness against the regex engine
fn c08_sound(c: &Ctx, r: &mut Rng, _i: usize) -> Out {
    let np = 1 + r.n(3);
    let Some((p, ds)) = parts(r, np, 1) else { return Out::Ok(None) };
    let cp = compose(&ds);
    if cp.reentry || ds[0].reenters_start() || cp.d.accept_states().len() != 1 || cp.d.accept_states()[0] == 0 { return Out::Ok(None); }
    let text = match gen_file(c, &p, false) { Ok(t) => t, Err(Fail::Error(e)) | Err(Fail::Panic(e)) => return viol("generation fails for a valid definition", json!({"parts": p}), "circuit", e) };
    let all: String = p.iter().map(|x| format!("(?:{})", x.1)).collect();
    let Ok(re) = regex::Regex::new(&all) else { return Out::Ok(None) };
    let ci = match circuit(c, &text) { Ok(x) => x, Err(e) => return viol("the generated circuit does not parse", json!({"parts": p}), "a complete template", e) };
    let mut hits = 0;
    for _ in 0..4 {
        let mut m = String::new();
        for _ in 0..r.n(3) { m.push(rgen::any_char(r, 1)); }
        for x in &p { if r.p(9, 10) { if let Some(s) = rgen::sample(r, &x.1) { m += &s; } } }
        for _ in 0..r.n(3) { m.push(rgen::any_char(r, 1)); }
        if m.is_empty() || m.len() > 24 { continue; }
        let mut b = m.clone().into_bytes();
        b.resize(b.len() + r.n(3), 0);
        let o = match ci.eval("Tt", &b) { Ok(x) => x.0, Err(e) => return viol(&e, json!({"parts": p, "message": m}), "a valid circuit", e.clone()) };
        if o && !re.is_match(&m) { return viol("the circuit signals a match, but no substring of the message matches", json!({"parts": p, "message": m}), false, true); }
        // a message that is exactly one match and whose scan cannot be misled must be found: its first byte starts no earlier attempt
        if o { hits += 1; }
    }
    Out::Ok(Some(json!({"parts": p, "matched": hits})))
}

// ---------- C01 ----------
fn c01(c: &Ctx, r: &mut Rng, i: usize) -> Out {
    let n = if i < 3 { 0 } else { r.n(40) };
    let mut s: String = (0..n).map(|_| rgen::any_char(r, 5)).collect();
    if r.p(1, 5) { let e = *r.pick(&["\0", "\0\0", "\r\n", " ", "\u{feff}", "\u{80}", "\n\n"]); if r.p(1, 2) { s += e; } else { s.insert_str(0, e); } }
    if r.p(1, 40) { let m = 1 + r.n(300); s = s.repeat(m); }
    let size = s.len() + match i % 4 { 0 => 0, 1 => 1, 2 => r.n(8), _ => r.n(3000) };
    let inp = json!({"string": s, "size": size});
    let mut e = s.as_bytes().to_vec();
    while e.len() < size { e.push(0); }
    match quiet(|| padding::pad_string(&s, size)) {
        Ok(v) if v == e => {}
        Ok(v) => return viol("padded bytes", inp, e, v),
        Err(p) => return viol("panic", inp, e, p),
    }
    if c.nat.borrow().len() < 1500 { c.nat.borrow_mut().push(json!({"f": "padString", "a": [s, size], "r": e})); }
    Out::Ok(Some(inp))
}

// ---------- C02, C03 ----------
fn ex_cfg(p: &Parts) -> ex::DecomposedRegexConfig { serde_json::from_str(&def_json(p)).unwrap() }
const EXTRA: &[&str] = &["\\(", "\\)", "[(]", "[()]", "(?:ab|c)", "(?i)k", "(a|(b|c))", "((x)(y)?)", "\\\\\\(", "[^(\\r\\n]+", "a{1,3}?", ".+?", ".??", "(?P<n>z)", "(?<m>w)", "\\(?", "\\[", "é", "[^)]*\\)", "(?=b)", "(a)(b)", "(|x)", "x*", "(?s:.)", "\\d+", "\\w"];
/// Expected spans by an independent route: named groups around each part.
fn ref_spans(p: &Parts, s: &str) -> Result<Option<Vec<(usize, usize)>>, String> {
    let pat: String = p.iter().enumerate().map(|(k, x)| format!("(?P<zkpart{}>{})", k, x.1)).collect();
    let re = fancy_regex::Regex::new(&pat).map_err(|e| e.to_string())?;
    let c = re.captures(s).map_err(|e| e.to_string())?;
    Ok(c.map(|c| (0..p.len()).map(|k| { let m = c.name(&format!("zkpart{}", k)).unwrap(); (m.start(), m.end()) }).collect()))
}
fn extraction(c: &Ctx, p: &Parts, s: &str) -> Option<Out> {
    let inp = json!({"parts": p, "input": s});
    let Ok(exp) = ref_spans(p, s) else { return None };
    let cfg = ex_cfg(p);
    for reveal in [false, true] {
        let got = quiet(|| ex::extract_substr_idxes(s, &cfg, reveal));
        let strs = quiet(|| ex::extract_substr(s, &cfg, reveal));
        let want = exp.as_ref().map(|v| v.iter().zip(p).filter(|(_, x)| x.0 || reveal).map(|(y, _)| *y).collect::<Vec<_>>());
        let mut inp = inp.clone(); inp["reveal_private"] = json!(reveal);
        match (&want, got) {
            (_, Err(e)) => return Some(viol("panic", inp, &want, e)),
            (Some(w), Ok(Ok(g))) if *w == g => {}
            (None, Ok(Err(ex::ExtractSubstrssError::SubstringOfEntireNotFound(_)))) => {}
            (_, Ok(g)) => return Some(viol("extracted spans", inp, &want, format!("{:?}", g))),
        }
        let ws = want.as_ref().map(|v| v.iter().map(|&(a, b)| s[a..b].to_string()).collect::<Vec<_>>());
        match (&ws, strs) {
            (_, Err(e)) => return Some(viol("panic", inp, &ws, e)),
            (Some(w), Ok(Ok(g))) if *w == g => {}
            (None, Ok(Err(_))) => {}
            (_, Ok(g)) => return Some(viol("extracted strings", inp, &ws, format!("{:?}", g))),
        }
        if c.nat.borrow().len() < 400 {
            c.nat.borrow_mut().push(json!({"f": "extractSubstrIdxes", "a": [s, def_json(p), reveal], "r": want}));
            c.nat.borrow_mut().push(json!({"f": "extractSubstr", "a": [s, def_json(p), reveal], "r": ws}));
        }
    }
    if let Some(v) = &exp { for w in v.windows(2) { if w[0].1 != w[1].0 && !p.iter().any(|x| x.1.contains("(?=")) { return Some(viol("adjacency", inp, "adjacent spans", v)); } } }
    None
}
fn c02(c: &Ctx, r: &mut Rng, _i: usize) -> Out {
    let n = 1 + r.n(4);
    let p: Parts = (0..n).map(|_| (r.p(1, 2), if r.p(1, 3) { r.pick(EXTRA).to_string() } else { rgen::regex(r, 2, 4) })).collect();
    if p.iter().any(|x| fancy_regex::Regex::new(&x.1).is_err()) { return Out::Ok(None); }
    let mut s = String::new();
    for _ in 0..r.n(4) { s.push(rgen::any_char(r, 5)); }
    if r.p(1, 6) { for x in &p { if let Some(t) = rgen::sample(r, &x.1) { s += &t; } } s.push('é'); }
    for x in &p { if r.p(19, 20) { s += &rgen::sample(r, &x.1).unwrap_or_default(); } }
    for _ in 0..r.n(4) { s.push(rgen::any_char(r, 5)); }
    if let Some(o) = extraction(c, &p, &s) { return o; }
    Out::Ok(Some(json!({"parts": p, "input": s})))
}
fn c02_errors(_c: &Ctx, r: &mut Rng, _i: usize) -> Out {
    let n = 1 + r.n(4);
    let k = r.n(n);
    let bads = ["[^,+", "(", "a)", "*", "\\", "(?P<x", "[z-a]", "a{3,1}", "(?Z)", "\\q", "("];
    let p: Parts = (0..n).map(|j| (r.p(1, 2), if j == k { r.pick(&bads).to_string() } else { rgen::regex(r, 1, 3) })).collect();
    let Some(want) = p.iter().position(|x| fancy_regex::Regex::new(&x.1).is_err()) else { return Out::Ok(None) };
    let inp = json!({"parts": p});
    for rev in [false, true] {
        match quiet(|| ex::extract_substr_idxes("some (text) a,b", &ex_cfg(&p), rev)) {
            Ok(Err(ex::ExtractSubstrssError::InvalidRegexPart { part_index, ref regex_def, .. })) if part_index == want && *regex_def == p[want].1 => {}
            o => return viol("the invalid part is not named", inp, want, format!("{:?}", o)),
        }
    }
    Out::Ok(Some(inp))
}
fn c02_pieces(_c: &Ctx, r: &mut Rng, _i: usize) -> Out {
    // parts that only make sense, or only break, when joined
    let pcs = ["(?x)a #", "(?i)", "a|b", "|", "", "(?P<n>a)", "(?P<n>b)", "\\1", "x", "(?x) y", "[a-]", "\\Qa", "$", "^", "\\b"];
    let n = 1 + r.n(4);
    let p: Parts = (0..n).map(|_| (r.p(1, 2), r.pick(&pcs).to_string())).collect();
    let inp = json!({"parts": p});
    let s = ["abx", "", "b a y", "aab\nx"][r.n(4)];
    if let Err(e) = quiet(|| { let _ = ex::extract_substr(s, &ex_cfg(&p), true); }) { return viol("panic", inp, "a result or an error", e); }
    Out::Ok(Some(inp))
}
type Preset = (&'static str, fn(&str) -> Result<Vec<(usize, usize)>, ex::ExtractSubstrssError>, &'static str);
const PRESETS: &[Preset] = &[
    ("email_addr", ex::extract_email_addr_idxes, "extractEmailAddrIdxes"), ("email_domain", ex::extract_email_domain_idxes, "extractEmailDomainIdxes"),
    ("from_all", ex::extract_from_all_idxes, "extractFromAllIdxes"), ("from_addr", ex::extract_from_addr_idxes, "extractFromAddrIdxes"),
    ("to_all", ex::extract_to_all_idxes, "extractToAllIdxes"), ("to_addr", ex::extract_to_addr_idxes, "extractToAddrIdxes"),
    ("subject_all", ex::extract_subject_all_idxes, "extractSubjectAllIdxes"), ("body_hash", ex::extract_body_hash_idxes, "extractBodyHashIdxes"),
    ("timestamp", ex::extract_timestamp_idxes, "extractTimestampIdxes"), ("message_id", ex::extract_message_id_idxes, "extractMessageIdIdxes"),
];
fn published(c: &Ctx, name: &str) -> Option<(String, Parts)> {
    for d in ["packages/circom/circuits/common", "packages/apis/src/decomposed_defs"] {
        if let Ok(t) = std::fs::read_to_string(c.repo.join(d).join(format!("{}.json", name))) {
            let v: Value = serde_json::from_str(&t).ok()?;
            return Some((t.clone(), v["parts"].as_array()?.iter().map(|x| (x["is_public"].as_bool().or(x["isPublic"].as_bool()).unwrap_or(false), x["regex_def"].as_str().or(x["regexDef"].as_str()).unwrap_or("").to_string())).collect()));
        }
    }
    None
}
/// The decomposed definitions as published in this repository when the property was written.
const REFERENCE: &str = include_str!("../reference_defs.json");
fn ref_def(name: &str) -> Parts {
    let v: Value = serde_json::from_str(REFERENCE).unwrap();
    v[name]["parts"].as_array().unwrap().iter().map(|x| (x["is_public"].as_bool().unwrap(), x["regex_def"].as_str().unwrap().to_string())).collect()
}
fn text_for(r: &mut Rng, i: usize) -> (usize, String) {
    let k = i % PRESETS.len();
    let mut s = String::new();
    if r.p(1, 2) { s += *r.pick(&["", "x: y\r\n", "é ", "from:a@b.c\r\n", "subject:to:x\r\n"]); }
    let hdr = ["from:", "to:", "subject:", "dkim-signature:", "message-id:", "", "From:", "bh="];
    for _ in 0..1 + r.n(3) {
        match r.n(5) {
            0 => { let kk = if r.p(3, 4) { k } else { r.n(PRESETS.len()) }; for x in ref_def(PRESETS[kk].0) { s += &rgen::sample(r, &x.1).unwrap_or_default(); } }
            1 => { s += *r.pick(&hdr); s += *r.pick(&["\"A B\" <a.b@c.d>", "a@b.c", "<x@y.z>", "末神 <s@g.com>", "Re: hi <a@b>", "a@b@c.d", "<a@b.c> <d@e.f>", "v=1; a=rsa; bh=abc+/=; t=123;", "v=1; t=5; bh=Q=; b=", "<CAJ7Y6+@mail.gmail.com>"]); s += "\r\n"; }
            2 => { for _ in 0..r.n(5) { s.push(rgen::any_char(r, 5)); } }
            3 => { s += "\r\n"; for x in ref_def(PRESETS[k].0) { s += &rgen::sample(r, &x.1).unwrap_or_default(); } }
            _ => { s += *r.pick(&hdr); for x in ref_def(PRESETS[k].0).iter().skip(1) { s += &rgen::sample(r, &x.1).unwrap_or_default(); } }
        }
    }
    (k, s)
}
fn c03(c: &Ctx, r: &mut Rng, i: usize) -> Out {
    let (k, s) = text_for(r, i);
    let (name, f, js) = PRESETS[k];
    let inp = json!({"preset": name, "input": s});
    let Some((_, p)) = published(c, name) else { return viol("definition file is missing or unreadable", inp, "definition", "none") };
    let Ok(exp) = ref_spans(&p, &s) else { return Out::Ok(None) };
    let want = exp.map(|v| v.iter().zip(&p).filter(|(_, x)| x.0).map(|(y, _)| *y).collect::<Vec<_>>());
    match (&want, quiet(|| f(&s))) {
        (Some(w), Ok(Ok(g))) if *w == g => {}
        (None, Ok(Err(ex::ExtractSubstrssError::SubstringOfEntireNotFound(_)))) => {}
        (_, g) => return viol("preset extractor differs from its published definition", inp, &want, format!("{:?}", g)),
    }
    if c.nat.borrow().len() < 600 { c.nat.borrow_mut().push(json!({"f": js, "a": [s], "r": want})); }
    Out::Ok(Some(inp))
}
fn c03_defs(c: &Ctx, _r: &mut Rng, i: usize) -> Out {
    if i >= PRESETS.len() { return Out::Done; }
    let name = PRESETS[i].0;
    // the copies of one definition agree on every text: same parts
    let dirs = ["packages/circom/circuits/common", "packages/apis/src/decomposed_defs"];
    let want = ref_def(name);
    for d in dirs {
        let Ok(t) = std::fs::read_to_string(c.repo.join(d).join(format!("{}.json", name))) else { continue };
        let v: Value = match serde_json::from_str(&t) { Ok(v) => v, Err(e) => return viol("definition file does not parse", json!({"dir": d, "preset": name}), "json", e.to_string()) };
        let p: Parts = v["parts"].as_array().map(|a| a.iter().map(|x| (x["is_public"].as_bool().or(x["isPublic"].as_bool()).unwrap_or(false), x["regex_def"].as_str().or(x["regexDef"].as_str()).unwrap_or("").to_string())).collect()).unwrap_or_default();
        let same = p.len() == want.len() && p.iter().zip(&want).all(|(a, b)| a.0 == b.0 && (a.1 == b.1 || same_language(&a.1, &b.1)));
        if !same { return viol("a published definition changed its meaning", json!({"dir": d, "preset": name}), want, p); }
    }
    Out::Ok(Some(json!({"definition": name})))
}
fn same_language(a: &str, b: &str) -> bool { let h = |s: &str| regex_syntax::Parser::new().parse(s).ok(); match (h(a), h(b)) { (Some(x), Some(y)) => x == y, _ => false } }
const SHIPPED: &[&str] = &["body_hash", "email_addr", "email_domain", "from_all", "message_id", "subject_all", "timestamp", "to_all"];
fn c03_shipped(c: &Ctx, r: &mut Rng, i: usize) -> Out {
    let name = SHIPPED[i % SHIPPED.len()];
    let Ok(t) = std::fs::read_to_string(c.repo.join(format!("packages/circom/circuits/common/{}_regex.circom", name))) else { return viol("shipped circuit is missing", json!({"circuit": name}), "file", "none") };
    let p = ref_def(name);
    let g = match gen_file(c, &p, true) { Ok(t) => t, Err(Fail::Error(e)) | Err(Fail::Panic(e)) => return viol("generation fails for a published definition", json!({"definition": name}), "circuit", e) };
    let ci = match circuit(c, &t) { Ok(x) => x, Err(e) => return viol("a shipped circuit does not parse", json!({"circuit": name}), "a complete template", e) };
    // same constraints up to layout and the template's name: nothing left to compare
    let main = format!("{}Regex", name.split('_').map(|w| w[..1].to_uppercase() + &w[1..]).collect::<String>());
    let (ta, tb) = (crate::circ::parse(&t), crate::circ::parse(&g));
    if let (Ok(a), Ok(b)) = (&ta, &tb) {
        if a.len() == 1 && b.len() == 1 && a[0].name != main { return viol("template name of a shipped circuit", json!({"circuit": name}), main, &a[0].name); }
        if a.len() == 1 && b.len() == 1 && a[0].body == b[0].body && a[0].params == b[0].params { if i >= SHIPPED.len() { return if i >= 2 * SHIPPED.len() { Out::Done } else { Out::Ok(None) }; } return Out::Ok(Some(json!({"shipped": name, "constraints": "identical to the generated ones"}))); }
    }
    let cg = match circuit(c, &g) { Ok(x) => x, Err(e) => return viol("the generated circuit does not parse", json!({"definition": name}), "a complete template", e) };
    let mut m = String::new();
    if r.p(1, 2) { m += "\r\n"; }
    for x in &p { if r.p(14, 15) { m += &rgen::sample(r, &x.1).unwrap_or_default(); } }
    let mut b: Vec<u8> = m.bytes().take(90).collect();
    b.resize(b.len() + r.n(4), 0);
    if b.is_empty() { return Out::Ok(None); }
    let inp = json!({"circuit": name, "message": show(&b)});
    let x = ci.eval(&main, &b); let y = cg.eval("Tt", &b);
    match (&x, &y) {
        (Ok(x), Ok(y)) if x.0 == y.0 && x.1 == y.1 => Out::Ok(Some(inp)),
        _ => viol("a shipped circuit differs from its published definition", inp, format!("{:?}", y.map(|v| (v.0, v.1))), format!("{:?}", x.map(|v| (v.0, v.1)))),
    }
}

// ---------- C04 ----------
fn c04_one(c: &Ctx, re: &str) -> Out {
    let Some(d) = D::of(re, false) else { return Out::Ok(None) };
    let inp = json!({"regex": re});
    let empty = !d.acc.iter().any(|x| *x);
    match rad_dec(c, &vec![(false, re.to_string())]) {
        Err(Fail::Error(e)) | Err(Fail::Panic(e)) => if !empty && !(e.contains("No accepted") && !pb::AVAILABLE) { return viol("no automaton is built for a supported regex", inp, "automaton", e) },
        Ok(Err(e)) => return viol("malformed automaton", inp, "deterministic automaton with existing targets", e),
        Ok(Ok(g)) => if pb::AVAILABLE || d.accept_states().len() == 1 { if let Some(w) = differ(&g.d, &d, false) { return viol("the automaton and the regex disagree on a string", json!({"regex": re, "string": show(&w), "bytes": w}), d.accepts(&w), g.d.accepts(&w)); } },
    }
    if pb::AVAILABLE {
        match quiet(|| pb::rad_raw(re, "{\"transitions\":[]}")) {
            Err(e) => return viol("panic", inp, "automaton", e),
            Ok(Err(e)) => if !empty { return viol("no automaton is built for a supported raw regex", inp, "automaton", e) },
            Ok(Ok(s)) => match rad_of(&s) {
                Err(e) => return viol("malformed automaton", inp, "deterministic automaton with existing targets", e),
                Ok(g) => if let Some(w) = differ(&g.d, &d, false) { return viol("the automaton and the raw regex disagree on a string", json!({"raw_regex": re, "string": show(&w), "bytes": w}), d.accepts(&w), g.d.accepts(&w)); }
            }
        }
    }
    Out::Ok(Some(json!({"regex": re, "states": d.tr.len()})))
}
fn c04_bytes(c: &Ctx, _r: &mut Rng, i: usize) -> Out { if i >= 128 { return Out::Done; } c04_one(c, &format!("\\x{:02X}", i)) }
fn c04_two(c: &Ctx, r: &mut Rng, i: usize) -> Out {
    // two adjacent transitions of one state, all byte combinations in a seeded order; every range [a-b] and its complement
    let (a, b) = (r.n(128), r.n(128));
    match i % 3 {
        0 => c04_one(c, &format!("(\\x{:02X}x|\\x{:02X}y)", a, b)),
        1 => c04_one(c, &format!("[\\x{:02X}-\\x{:02X}]", a.min(b), a.max(b))),
        _ => c04_one(c, &format!("(\\x{:02X}|[\\x{:02X}-\\x{:02X}]z)", r.n(128), a.min(b), a.max(b))),
    }
}
fn c04_neg(c: &Ctx, _r: &mut Rng, i: usize) -> Out { if i >= 32 { return Out::Done; } let a = i * 4; c04_one(c, &format!("[^\\x{:02X}\\x{:02X}-\\x{:02X}]", a, (a + 7).min(127), (a + 9).min(127))) }
fn c04_fixed(c: &Ctx, _r: &mut Rng, i: usize) -> Out {
    const L: &[&str] = &["a", "a|b", "(a|b)c", "a*", "(ab)*c", "a+b", ".", "[^a]", "é", "[é-ü]", "末", "=", "-", "=-", "-=", "a-b", "a=b", "=>", "' '", " ", "'", "\\\\", "\"", "\\n", "\\r\\n", "\\t", ",", ", ", "\\x00a", "\\*", "\\x7f", "[-=]", "[ -~]", "[!-/]", "[,-=]", "[=->]", "[ -!]", "[\\x20-\\x2d]", "[\\x2d-\\x3d]", "[\\x3d-\\x40]x", "EOI", "[^\\r\\n]+", "\\w", "\\d", "\\s", "(a|)", "a??b", "x{2,4}", "[\\[-\\]]", "[\\\\-a]", "[\"-']", "['-,]", "\\x0b\\x0c", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10ffff}", "[\u{0}-\u{10ffff}]", "", "a{0}", "[a&&b]"];
    if i >= L.len() { return Out::Done; }
    c04_one(c, L[i])
}
fn c04_dense(c: &Ctx, r: &mut Rng, i: usize) -> Out {
    if i >= 48 && !c.thorough { return Out::Done; }
    // one state with many labels; many states in a row
    match i % 4 {
        0 => { let k = 2 + r.n(3); let v: Vec<String> = (1..128).filter(|b| r.n(8) > 0 && b % 64 != 9).map(|b| format!("\\x{:02X}{}", b, ["x", "y", "zz", "", "w"][(b * 7) % k])).collect(); c04_one(c, &format!("({})", v.join("|"))) }
        1 => { let m = 2 + r.n(2); c04_one(c, &format!("[{}]{}", (1..128).filter(|b| b % m == 0).map(|b| format!("\\x{:02X}", b)).collect::<String>(), *r.pick(&["", "+", "*x"]))) }
        2 => { let n = [3, 12, 40, 150][r.n(4)]; let re: String = (0..n).map(|_| { let ch = rgen::any_char(r, 1); rgen::lit(ch) }).collect(); c04_one(c, &re) }
        _ => { let (a, b) = (r.n(30), r.n(120)); c04_one(c, &format!("(a|b){{{},{}}}c", a, a + b)) }
    }
}
fn c04_rand(c: &Ctx, r: &mut Rng, i: usize) -> Out { let re = rgen::regex(r, 2 + i % 2, [2, 8][i % 2]); c04_one(c, &re) }

// ---------- C05, C06 ----------
/// Map from states of the reference composition to states of the published automaton, by walking both.
fn align(a: &D, b: &D) -> Option<HashMap<usize, usize>> {
    let mut m = HashMap::from([(0usize, 0usize)]);
    let mut q = vec![(0, 0)];
    while let Some((x, y)) = q.pop() {
        for ch in 0..256 {
            let (nx, ny) = (a.tr[x][ch], b.tr[y][ch]);
            if nx == NONE && ny == NONE { continue; }
            if nx == NONE || ny == NONE { return None; }
            match m.get(&nx) { Some(&z) if z != ny => return None, Some(_) => {} None => { m.insert(nx, ny); q.push((nx, ny)); } }
        }
    }
    if m.values().collect::<BTreeSet<_>>().len() != m.len() { return None; }
    Some(m)
}
fn c05_parts(r: &mut Rng, i: usize) -> Option<(Parts, Vec<D>)> {
    const FRIENDLY: &[&str] = &["a", "b+", "[0-9]+", "(x|yz)", "=", "[^;]+", ";", "(a|bc|d)", "x?y", "(a|ab)", "(b|ca|cb)", "a?", "[a-z]+", "@", "\\r\\n", "(|q)", "w(vw)*", "", "(ab)+c", "z{2,3}", "(s|tu|tv)", "m?"];
    let n = if r.n(10) == 0 { 5 + r.n(8) } else { 2 + r.n(3) };
    if i % 3 == 0 { return parts(r, n, 2); }
    let mut p = vec![]; let mut ds = vec![];
    for _ in 0..n { let re = r.pick(FRIENDLY).to_string(); ds.push(D::of(&re, false)?); p.push((r.p(1, 2), re)); }
    Some((p, ds))
}
fn c05(c: &Ctx, r: &mut Rng, i: usize) -> Out {
    let Some((p, ds)) = c05_parts(r, i) else { return Out::Ok(None) };
    if ds.iter().any(|d| !d.acc.iter().any(|x| *x)) { return Out::Ok(None); }
    let inp = json!({"parts": p});
    let g = match rad_dec(c, &p) { Err(Fail::Error(e)) | Err(Fail::Panic(e)) => { if !pb::AVAILABLE { return Out::Ok(None); } return viol("no automaton is composed for supported parts", inp, "automaton", e) } Ok(Err(e)) => return viol("the composed automaton is malformed", inp, "numbered states, existing targets, one target per byte", e), Ok(Ok(g)) => g };
    let cp = compose(&ds);
    let total: usize = ds.iter().map(|d| d.tr.len()).sum::<usize>() + 1 - ds.len();
    if cp.reentry { return Out::Ok(Some(json!({"parts": p, "reentry": true}))); }
    if !pb::AVAILABLE && cp.d.accept_states().len() != 1 { return Out::Ok(None); }
    if g.d.tr.len() != total { return viol("number of states of the composed automaton", inp, total, g.d.tr.len()); }
    if let Some(w) = differ(&g.d, &cp.d, false) { return viol("the composed automaton differs from merging each part's start into the accept states before it", json!({"parts": p, "string": show(&w), "bytes": w}), cp.d.accepts(&w), g.d.accepts(&w)); }
    let na = g.d.accept_states().len();
    if na != cp.d.accept_states().len() { return viol("number of accept states", inp, cp.d.accept_states().len(), na); }
    let cat: String = p.iter().map(|x| format!("(?:{})", x.1)).collect();
    if let Some(e) = D::of(&cat, false) {
        if let Some(w) = differ(&g.d, &e, cp.conflict) { return viol("the composed automaton is not the concatenation of the parts", json!({"parts": p, "string": show(&w), "bytes": w}), e.accepts(&w), g.d.accepts(&w)); }
    }
    Out::Ok(Some(json!({"parts": p, "byte_overlap": cp.conflict, "states": total})))
}
fn c06(c: &Ctx, r: &mut Rng, i: usize) -> Out {
    let Some((mut p, ds)) = c05_parts(r, i) else { return Out::Ok(None) };
    if ds.iter().any(|d| !d.acc.iter().any(|x| *x)) { return Out::Ok(None); }
    if !p.iter().any(|x| x.0) { let k = r.n(p.len()); p[k].0 = true; }
    let inp = json!({"parts": p});
    let cp = compose(&ds);
    if cp.reentry || ds[0].tr.is_empty() { return Out::Ok(None); }
    if !pb::AVAILABLE && cp.d.accept_states().len() != 1 { return Out::Ok(None); }
    let g = match rad_dec(c, &p) { Err(Fail::Error(e)) | Err(Fail::Panic(e)) => { if !pb::AVAILABLE { return Out::Ok(None); } return viol("no automaton is composed for supported parts", inp, "automaton", e) } Ok(Err(e)) => return viol("the composed automaton is malformed", inp, "well-formed", e), Ok(Ok(g)) => g };
    if g.d.tr.len() != cp.d.tr.len() { return viol("number of states of the composed automaton", inp, cp.d.tr.len(), g.d.tr.len()); }
    let pubs: Vec<usize> = (0..p.len()).filter(|&k| p[k].0).collect();
    if g.ranges.len() != pubs.len() { return viol("number of published transition sets", inp, pubs.len(), g.ranges.len()); }
    let bounds = match &g.bounds { Some(b) if b.len() == pubs.len() => b, b => return viol("number of published boundaries", inp, pubs.len(), format!("{:?}", b.as_ref().map(|x| x.len()))) };
    let Some(m) = align(&cp.d, &g.d) else {
        if cp.conflict { return Out::Ok(None); }
        return viol("the composed automaton differs from its parts", inp, d_json(&cp.d), d_json(&g.d));
    };
    let inv: HashMap<usize, usize> = m.iter().map(|(a, b)| (*b, *a)).collect();
    for (j, &k) in pubs.iter().enumerate() {
        let want: BTreeSet<(usize, usize)> = cp.part_edges[k].iter().filter_map(|(a, b)| Some((*m.get(a)?, *m.get(b)?))).collect();
        let got: BTreeSet<(usize, usize)> = g.ranges[j].iter().filter(|(a, b)| inv.contains_key(a) && inv.contains_key(b)).cloned().collect();
        let n = g.d.tr.len();
        if let Some(x) = g.ranges[j].iter().find(|(a, b)| *a >= n || *b >= n) { return viol("a published transition names a state that does not exist", inp, n, x); }
        if want != got { let mut v = inp.clone(); v["public_part"] = json!(k); return viol("published transitions of a part", v, want, got); }
        if m.len() == n && want.len() != g.ranges[j].len() { return viol("published transitions of a part", inp, want, &g.ranges[j]); }
        let acc_before: BTreeSet<usize> = if k == 0 { BTreeSet::new() } else { cp.starts[k].iter().filter_map(|s| m.get(s).copied()).collect() };
        let f = |s: &BTreeSet<usize>| s.iter().filter(|x| inv.contains_key(x)).cloned().collect::<BTreeSet<_>>();
        if f(&bounds[j].0) != acc_before { let mut v = inp.clone(); v["public_part"] = json!(k); return viol("published start states", v, acc_before, &bounds[j].0); }
        let mut e: BTreeSet<usize> = cp.ends[k].iter().filter(|&&s| s != NONE).filter_map(|s| m.get(s).copied()).collect();
        if cp.ends[k].contains(&NONE) { e.extend(acc_before.iter()); }
        if f(&bounds[j].1) != e { let mut v = inp.clone(); v["public_part"] = json!(k); return viol("published end states", v, e, &bounds[j].1); }
    }
    Out::Ok(Some(json!({"parts": p, "public": pubs, "states": g.d.tr.len()})))
}

// ---------- C07 ----------
fn byte_lang(pre: &str, rest: &str) -> Option<D> { D::of(&format!("(?:{})(?:{})", pre, rest), true) }
fn c07_caret(c: &Ctx, r: &mut Rng, i: usize) -> Out {
    const ALTS: &[&str] = &["\\r\\n", "x", "ab", "; ", "\\(", "q[0-9]", "\\[\\^", "(a|b)z", "é"];
    let mut rest = rgen::regex(r, 2, if i % 2 == 0 { 1 } else { 5 });
    if r.p(1, 3) { rest = format!("[^{}{}]", rgen::lit(rgen::any_char(r, 3)), rest.chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>()) + "x"; }
    let alt = *r.pick(ALTS);
    let form = i % 5;
    let (head, lang): (String, String) = match form {
        0 => ("^".into(), "\\xFF".into()),
        1 => (format!("(^|{})", alt), format!("\\xFF|(?u:{})", alt)),
        2 => (format!("({}|^)", alt), format!("\\xFF|(?u:{})", alt)),
        3 => (format!("(?:{}|^)", alt), format!("\\xFF|(?u:{})", alt)),
        _ => { let b = *r.pick(ALTS); (format!("({}|{}|^)", alt, b), format!("\\xFF|(?u:{})|(?u:{})", alt, b)) }
    };
    // the whole alternation must end in one dead-end state (see the known findings)
    let Some(dl) = D::of(&format!("(?-u:{})", lang), true) else { return Out::Ok(None) };
    let Some(dr) = D::of(&rest, false) else { return Out::Ok(None) };
    if dr.reenters_start() || !dr.acc.iter().any(|x| *x) || dr.tr.len() > 24 { return Out::Ok(None); }
    let acc = dl.accept_states();
    if acc.len() != 1 || dl.tr[acc[0]].iter().any(|&t| t != NONE) { return Out::Ok(None); }
    let mut p: Parts = vec![(r.p(1, 2), head.clone() + &rest)];
    let mut tail = String::new();
    if r.p(1, 3) { tail = "=[0-9]+;".into(); p.push((true, tail.clone())); }
    let inp = json!({"parts": p});
    let g = match rad_dec(c, &p) { Err(Fail::Error(e)) | Err(Fail::Panic(e)) => { if !pb::AVAILABLE { return Out::Ok(None); } return viol("no automaton is built for a documented use of ^", inp, "automaton", e) } Ok(Err(e)) => return viol("malformed automaton", inp, "well-formed", e), Ok(Ok(g)) => g };
    if g.anchor { return viol("an end anchor is reported", inp, false, true); }
    if pb::AVAILABLE && g.pattern != head.clone() + &rest + &tail { return viol("the pattern changed when the prefix was split off", inp, head + &rest + &tail, g.pattern); }
    let ds: Vec<D> = if tail.is_empty() { vec![dl, dr] } else { vec![dl, dr, D::of(&tail, false).unwrap()] };
    let cp = compose(&ds);
    if cp.reentry || (!pb::AVAILABLE && cp.d.accept_states().len() != 1) { return Out::Ok(None); }
    if let Some(w) = differ(&g.d, &cp.d, false) { return viol("the anchored automaton disagrees on a string (byte 255 is the message start)", json!({"parts": p, "string": show(&w), "bytes": w}), cp.d.accepts(&w), g.d.accepts(&w)); }
    // the anchor prefix is private: published sets are those of the public remainder
    let want = p.iter().filter(|x| x.0).count();
    if g.ranges.len() != want { return viol("number of published transition sets", inp, want, g.ranges.len()); }
    if let Some(m) = align(&cp.d, &g.d) {
        for (j, k) in (0..p.len()).filter(|&k| p[k].0).enumerate() {
            let e: BTreeSet<(usize, usize)> = cp.part_edges[k + 1].iter().filter_map(|(a, b)| Some((*m.get(a)?, *m.get(b)?))).collect();
            if m.len() == g.d.tr.len() && e != g.ranges[j] { return viol("published transitions of an anchored definition", inp, e, &g.ranges[j]); }
        }
    }
    Out::Ok(Some(json!({"parts": p, "form": form})))
}
fn c07_notcaret(c: &Ctx, r: &mut Rng, i: usize) -> Out {
    const FIX: &[&str] = &["\\^a", "a\\^", "[^a]b", "[a^]b", "[a^b]c", "(\\^|x)a", "(a|[^b]c)d", "((a)|b)c", "((a|b)(c|d))e", "[)^(]a", "[(^]", "\\\\\\^", "\\[\\^", "[\\]^]a", "[\\^]a", "[]^]a", "[^]^]a", "(a(b(c|d)))[^x]y", "[\\\\^]a", "a\\$", "\\$", "x\\\\\\$", "[$]", "a[$]", "(a|\\$)b\\$", "[^$]\\$", "\\(\\^", "[[:alpha:]^]a", "[a[b^]]c"];
    let re = if i < FIX.len() { FIX[i].to_string() } else {
        let n = 1 + r.n(4);
        (0..n).map(|_| match r.n(7) { 0 => "\\^".to_string(), 1 => "\\$".into(), 2 => "[^a]".into(), 3 => "[b^]".into(), 4 => "[$c]".into(), 5 => "(\\^|\\$)".into(), _ => rgen::regex(r, 1, 4) }).collect()
    };
    let Some(d) = D::of(&re, false) else { return Out::Ok(None) };
    if d.tr.len() > 40 { return Out::Ok(None); }
    let two = r.p(1, 3) && !d.reenters_start();
    let p: Parts = if two { vec![(r.p(1, 2), re.clone()), (r.p(1, 2), "#(a|b)".into())] } else { vec![(r.p(1, 2), re.clone())] };
    let inp = json!({"parts": p});
    let g = match rad_dec(c, &p) { Err(Fail::Error(e)) | Err(Fail::Panic(e)) => { if !pb::AVAILABLE { return Out::Ok(None); } return viol("an escaped or classed anchor character is not accepted", inp, "automaton", e) } Ok(Err(e)) => return viol("malformed automaton", inp, "well-formed", e), Ok(Ok(g)) => g };
    if g.anchor && pb::AVAILABLE { return viol("an escaped or classed $ is taken for the end anchor", inp, false, true); }
    let e = if two { let cp = compose(&[d, D::of("#(a|b)", false).unwrap()]); cp.d } else { d };
    if !pb::AVAILABLE && e.accept_states().len() != 1 { return Out::Ok(None); }
    if let Some(w) = differ(&g.d, &e, false) { return viol("an escaped or classed anchor character changes the automaton", json!({"parts": p, "string": show(&w), "bytes": w}), e.accepts(&w), g.d.accepts(&w)); }
    if g.ranges.len() != p.iter().filter(|x| x.0).count() { return viol("number of published transition sets", inp, p.iter().filter(|x| x.0).count(), g.ranges.len()); }
    if pb::AVAILABLE && !two {
        match quiet(|| pb::rad_raw(&re, "{\"transitions\":[]}")) { Ok(Ok(s)) => { let v: Value = serde_json::from_str(&s).unwrap(); if v["has_end_anchor"] != json!(false) { return viol("an escaped or classed $ is taken for the end anchor (raw)", json!({"raw": re}), false, true); } } o => return viol("raw regex fails", json!({"raw": re}), "automaton", format!("{:?}", o.map(|x| x.err()))) }
    }
    Out::Ok(Some(inp))
}
fn c07_dollar(c: &Ctx, r: &mut Rng, _i: usize) -> Out {
    let n = 1 + r.n(3);
    let Some((mut p, ds)) = parts(r, n, 2) else { return Out::Ok(None) };
    let k = r.n(n);
    p[k].1 += "$";
    let mid = (0..n - 1).any(|j| j == k);
    let inp = json!({"parts": p});
    let o = rad_dec(c, &p);
    if mid {
        return match o { Err(Fail::Error(_)) => Out::Ok(Some(inp)), Err(Fail::Panic(e)) => viol("panic", inp, "error", e), Ok(_) => viol("$ at the end of a part that is not the last is not rejected", inp, "error", "automaton") };
    }
    if ds.iter().any(|d| !d.acc.iter().any(|x| *x)) { return Out::Ok(None); }
    let g = match o { Err(Fail::Error(e)) | Err(Fail::Panic(e)) => { if !pb::AVAILABLE { return Out::Ok(None); } return viol("no automaton is built for a trailing $", inp, "automaton", e) } Ok(Err(e)) => return viol("malformed automaton", inp, "well-formed", e), Ok(Ok(g)) => g };
    if !g.anchor { return viol("a trailing $ is not reported as end anchor", inp, true, false); }
    let cp = compose(&ds);
    if cp.reentry { return Out::Ok(Some(inp)); }
    if !pb::AVAILABLE && cp.d.accept_states().len() != 1 { return Out::Ok(None); }
    if let Some(w) = differ(&g.d, &cp.d, false) { return viol("a trailing $ changes the automaton", json!({"parts": p, "string": show(&w), "bytes": w}), cp.d.accepts(&w), g.d.accepts(&w)); }
    if pb::AVAILABLE && n == 1 {
        match quiet(|| pb::rad_raw(&p[0].1, "{\"transitions\":[]}")) { Ok(Ok(s)) => { let v: Value = serde_json::from_str(&s).unwrap(); if v["has_end_anchor"] != json!(true) { return viol("a trailing $ is not reported as end anchor (raw)", json!({"raw": p[0].1}), true, false); } } o => return viol("raw regex fails", json!({"raw": p[0].1}), "automaton", format!("{:?}", o.map(|x| x.err()))) }
    }
    Out::Ok(Some(inp))
}
/// Matches in the circuit are tied to the message's start and end.
fn c07_circuit(c: &Ctx, r: &mut Rng, i: usize) -> Out {
    let word: String = (0..1 + r.n(3)).map(|_| *r.pick(&['a', 'b', 'c'])).collect();
    let (st, en) = (i % 2 == 0, i % 4 < 3);
    let raw = !st && en && i % 3 == 0;
    let pat = format!("{}{}{}", if st { "^" } else { "" }, word, if en { "$" } else { "" });
    let (text, inp) = if raw {
        let f = c.dir.join("r.circom");
        match quiet(|| zc::gen_from_raw(&pat, None, None, f.to_str(), Some("Tt"), Some(false)).map_err(|e| e.to_string())) { Ok(Ok(())) => {} o => return viol("generation fails", json!({"raw": pat}), "circuit", format!("{:?}", o)) }
        (std::fs::read_to_string(&f).unwrap(), json!({"raw": pat}))
    } else {
        let p: Parts = vec![(r.p(1, 2), pat.clone())];
        (match gen_file(c, &p, i % 5 == 0) { Ok(t) => t, Err(Fail::Error(e)) | Err(Fail::Panic(e)) => return viol("generation fails", json!({"parts": p}), "circuit", e) }, json!({"parts": p}))
    };
    let ci = match circuit(c, &text) { Ok(x) => x, Err(e) => return viol("the generated circuit does not parse", inp, "a complete template", e) };
    for _ in 0..4 {
        let pre: String = (0..r.n(3)).map(|_| *r.pick(&['x', 'y', 'z'])).collect();
        let suf: String = (0..r.n(3)).map(|_| *r.pick(&['x', 'y', 'z'])).collect();
        let pad = r.n(4);
        let mut m = format!("{}{}{}", pre, word, suf).into_bytes();
        m.resize(m.len() + pad, 0);
        let exp = (!st || pre.is_empty()) && (!en || suf.is_empty());
        let mut v = inp.clone(); v["message"] = json!(show(&m));
        match ci.eval("Tt", &m) { Ok(o) if o.0 == exp => {} Ok(o) => return viol("an anchored circuit accepts or rejects wrongly", v, exp, o.0), Err(e) => return viol(&e, v, exp, e.clone()) }
    }
    Out::Ok(Some(json!({"pattern": pat, "raw": raw})))
}
/// Recorded defects: reported by key, so that the driver can tell them from new violations.
fn c07_known(c: &Ctx, _r: &mut Rng, i: usize) -> Out {
    match i {
        0 => {
            let f = c.dir.join("r.circom");
            if !matches!(quiet(|| zc::gen_from_raw("^ab", None, None, f.to_str(), Some("Tt"), Some(false)).is_ok()), Ok(true)) { return Out::Ok(None); }
            let Ok(ci) = circuit(c, &std::fs::read_to_string(&f).unwrap()) else { return Out::Ok(None) };
            if let Ok(o) = ci.eval("Tt", b"xab") { if o.0 { c.nat.borrow_mut().push(json!({"finding": "raw-leading-caret", "what": "raw regex ^ab: circuit outputs 1 for message xab"})); } }
            Out::Ok(None)
        }
        1 => {
            let p: Parts = vec![(false, "(^|ba*)c".into())];
            if let Ok(Ok(g)) = rad_dec(c, &p) { if g.d.accepts(b"\xffaac") { c.nat.borrow_mut().push(json!({"finding": "caret-alternative-continues", "what": "part (^|ba*)c: the automaton accepts aac at the message start"})); } }
            Out::Ok(None)
        }
        _ => Out::Done,
    }
}

// ---------- C12 ----------
fn c12(c: &Ctx, r: &mut Rng, i: usize) -> Out {
    if !pb::AVAILABLE { return Out::Done; }
    let (mut d, acc) = rgen::automaton(r);
    let n = d.tr.len();
    let none = i % 7 == 3;
    if none { d.acc[acc] = false; }
    let multi = i % 5 == 2 && !none;
    if multi { d.acc[n - 1] = true; }
    let first = d.acc.iter().position(|x| *x);
    let ns = if r.n(14) == 0 { 9 + r.n(4) } else { r.n(4) };
    let ranges: Vec<BTreeSet<(usize, usize)>> = (0..ns).map(|_| { let (k, m) = if r.n(10) == 0 { (40, 300) } else { (6, 15) }; (0..r.n(k)).map(|_| (r.n(m), r.n(m))).collect() }).collect();
    let bounds: Vec<(BTreeSet<usize>, BTreeSet<usize>)> = (0..ns).map(|_| ((0..r.n(4)).map(|_| r.n(120)).collect(), (0..1 + r.n(3)).map(|_| r.n(120)).collect())).collect();
    let nob = i % 9 == 4;
    let gen = i % 6 != 5;
    let js = rad_json(&d, &ranges, if nob { None } else { Some(&bounds) }, false, "p");
    let h = c.dir.join("h12"); let _ = std::fs::remove_dir_all(&h); std::fs::create_dir_all(&h).unwrap();
    let subs: Vec<_> = (0..ns).map(|k| h.join(format!("s{}", k))).collect();
    let all = h.join("all");
    // a device on which every write fails: the loss has to be reported
    let full = std::path::PathBuf::from("/dev/full");
    let lost = i % 8 == 6 && !none && full.exists() && (ns > 0 && !nob && gen);
    let (all, subs) = if lost { if i % 16 == 6 { (full, subs) } else { let mut s = subs; s[0] = full; (all, s) } } else { (all, subs) };
    let inp = json!({"automaton": d_json(&d), "paths": [all, subs], "substrings": ranges, "boundaries": if nob { Value::Null } else { json!(bounds) }, "gen_substrs": gen});
    let o = match quiet(|| pb::halo2(&js, &all, &subs, gen)) { Err(e) => return viol("panic", inp, "tables or an error", e), Ok(o) => o };
    if none || (nob && ns > 0 && gen) { return if o.is_err() { Out::Ok(Some(json!({"error_case": i, "no_accept": none}))) } else { viol("no error although the accept state or the boundaries are missing", inp, "error", "tables") }; }
    if lost { return if o.is_err() { Out::Ok(Some(json!({"write_error_case": i}))) } else { viol("no error although a table could not be written (no space left on the device)", inp, "error", "success") }; }
    if let Err(e) = o { return viol("tables fail", inp, "tables", e); }
    let mut rows = BTreeSet::new();
    for s in 0..n { for b in 0..256 { if d.tr[s][b] != NONE { rows.insert((s, d.tr[s][b], b)); } } }
    let t = std::fs::read_to_string(&all).unwrap_or_default();
    let nums: Option<Vec<Vec<usize>>> = t.lines().map(|l| l.split_whitespace().map(|x| x.parse().ok()).collect()).collect();
    let Some(nums) = nums else { return viol("the main table holds something that is no number", inp, "numbers", t) };
    let head = vec![vec![0], vec![first.unwrap()], vec![n - 1]];
    if nums.len() < 3 || nums[..3] != head[..] { return viol("head of the main table (initial, accept, largest state)", inp, head, &nums[..nums.len().min(3)]); }
    let got: BTreeSet<(usize, usize, usize)> = nums[3..].iter().filter(|v| v.len() == 3).map(|v| (v[0], v[1], v[2])).collect();
    if got != rows || nums.len() - 3 != rows.len() { let diff: Vec<_> = got.symmetric_difference(&rows).take(5).collect(); return viol("rows of the main table", inp, rows.len(), json!({"rows": nums.len() - 3, "first differences": diff})); }
    for k in 0..ns {
        let f = std::fs::read_to_string(&subs[k]);
        if !gen { if f.is_ok() { return viol("substring table written although not requested", inp, "no file", "file"); } continue; }
        let join = |s: &BTreeSet<usize>| s.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        let mut e = format!("{}\n{}\n", join(&bounds[k].0), join(&bounds[k].1));
        for (a, b) in &ranges[k] { e += &format!("{} {}\n", a, b); }
        if f.as_deref().unwrap_or("<no file>") != e { return viol("substring table", inp, e, f.unwrap_or_default()); }
    }
    Out::Ok(Some(json!({"states": n, "rows": rows.len(), "substrings": ns, "gen_substrs": gen, "case": i})))
}
fn c12_e2e(c: &Ctx, r: &mut Rng, _i: usize) -> Out {
    let k = if r.n(10) == 0 { 3 + r.n(9) } else { 1 + r.n(2) };
    let Some((p, ds)) = parts(r, k, 2) else { return Out::Ok(None) };
    let cp = compose(&ds);
    if cp.reentry || cp.conflict || cp.d.accept_states().len() != 1 { return Out::Ok(None); }
    match from_files(c, &p) {
        Err(Fail::Error(e)) | Err(Fail::Panic(e)) => viol("tables fail for a valid definition", json!({"parts": p}), "tables", e),
        Ok(Err(e)) => viol("the main table is malformed", json!({"parts": p}), "well-formed rows", e),
        Ok(Ok(g)) => {
            if let Some(w) = differ(&g.d, &cp.d, false) { return viol("the main table does not describe the automaton of the definition", json!({"parts": p, "string": show(&w)}), cp.d.accepts(&w), g.d.accepts(&w)); }
            if g.ranges.len() != p.iter().filter(|x| x.0).count() { return viol("number of substring tables", json!({"parts": p}), p.iter().filter(|x| x.0).count(), g.ranges.len()); }
            Out::Ok(Some(json!({"parts": p})))
        }
    }
}

// ---------- C13 ----------
fn c13(c: &Ctx, r: &mut Rng, i: usize) -> Out {
    let lib = match Lib::new(&[&helpers(c)]) { Ok(l) => l, Err(e) => return viol("regex_helpers.circom does not parse", json!({}), "templates", e) };
    let (n, bits): (usize, Vec<i128>) = if i < 2046 { let n = (i + 2).ilog2() as usize; (n, (0..n).map(|k| ((i + 2) >> k & 1) as i128).collect()) } else { let n = 1 + r.n(60); let q = 1 + r.n(6); (n, (0..n).map(|_| (r.n(q) == 0) as i128).collect()) };
    let any = bits.iter().any(|&b| b == 1);
    let ck = |t: &str, ps: &[i128], ins: &[i128], e: i128| -> Option<Out> {
        let inp = json!({"template": t, "parameters": ps, "inputs": ins.iter().map(|x| x.to_string()).collect::<Vec<_>>()});
        match lib.gate(t, ps, ins) { Ok(v) if v == vec![e] => None, Ok(v) => Some(viol("gate output", inp, e.to_string(), format!("{:?}", v))), Err(b) => Some(viol("gate constraints", inp, e.to_string(), format!("{:?}", b))) }
    };
    if let Some(o) = ck("MultiOR", &[n as i128], &bits, any as i128) { return o; }
    if let Some(o) = ck("MultiNOR", &[n as i128], &bits, !any as i128) { return o; }
    let b = |k: usize| (i >> k & 1) as i128;
    if let Some(o) = ck("ORAnd", &[], &[b(0), b(1), b(2)], (b(0) | b(1)) & b(2)) { return o; }
    let byte = (i % 256) as i128; let acc = r.n(5000) as i128;
    if let Some(o) = ck("IsNotZeroAcc", &[], &[acc, byte], acc + (byte != 0) as i128) { return o; }
    Out::Ok(Some(json!({"arity": n, "inputs": bits, "byte": byte, "acc": acc.to_string()})))
}

// ---------- C14 ----------
fn junk(r: &mut Rng) -> String {
    const TOK: &[&str] = &["(", ")", "[", "]", "^", "$", "\\", "|", "*", "+", "?", "{", "}", "a", "b", "\\x", "\\xZZ", "[^", "(?", "(?:", "(?P<", "\\Q", "[[:", ":]]", "é", "-", "{1", "{2,1}", "\0", "\n", "&&", "\\p{", "(^", "^|", "\\b", "\\z", "\\A", "(?m)^", "a$", "\u{10ffff}", "[a", "(^|a", "\\^", "x", "末\\"];
    (0..r.n(6)).map(|_| *r.pick(TOK)).collect()
}
fn c14(c: &Ctx, r: &mut Rng, i: usize) -> Out {
    const FIX: &[&[&str]] = &[&[], &[""], &["", ""], &["(^a\\"], &["(^\\"], &["a)"], &[")"], &["((a)|b)c"], &["[a&&b]"], &["a", "[a&&b]"], &["[a&&b]", "a"], &["^"], &["(^)"], &["^^"], &["$"], &["^$"], &["a$", "b"], &["(|^)a"], &["\\"], &["[^"], &["(^|"], &["^", "a"], &["a*"], &["(?i)"], &["(^a)é\\"], &["\\é^"], &["[é^]"], &["\\b"], &["a\\b"], &["(?m)^a"], &["(a|^b)c"], &["x^y"]];
    let p: Parts = if i < FIX.len() { FIX[i].iter().map(|s| (true, s.to_string())).collect() } else { (0..r.n(4)).map(|_| (r.p(1, 2), junk(r))).collect() };
    let inp = json!({"parts": p});
    for subs in [true, false] {
        let h = c.dir.join("h14"); let _ = std::fs::create_dir_all(&h);
        let f = c.dir.join("d14.json"); std::fs::write(&f, def_json(&p)).unwrap();
        let o = c.dir.join("o14.circom");
        if let Err(e) = quiet(|| { let _ = zc::gen_from_decomposed(f.to_str().unwrap(), h.to_str(), None, None, Some(subs)); let _ = zc::gen_from_decomposed(f.to_str().unwrap(), None, o.to_str(), Some("T"), Some(subs)); }) { return viol("panic", inp, "success or an error", e); }
        let raw: String = p.iter().map(|x| x.1.clone()).collect();
        if let Err(e) = quiet(|| { let _ = zc::gen_from_raw(&raw, None, h.to_str(), None, None, Some(subs)); let _ = zc::gen_from_raw(&raw, None, None, o.to_str(), Some("T"), if i % 2 == 0 { None } else { Some(subs) }); }) { return viol("panic", json!({"raw": raw}), "success or an error", e); }
    }
    Out::Ok(Some(inp))
}
fn c14_files(c: &Ctx, r: &mut Rng, i: usize) -> Out {
    let f = c.dir.join("s14.json"); let h = c.dir.join("h14"); let _ = std::fs::create_dir_all(&h); let o = c.dir.join("o14.circom");
    const S: &[&str] = &["", "{", "[]", "{}", "{\"transitions\":[]}", "{\"transitions\":[[]]}", "{\"transitions\":[[[0,1]]]}", "{\"transitions\":[[[0,1],[99,100]],[]]}", "{\"transitions\":[[[1]]]}", "{\"transitions\":[[[-1,2]]]}", "{\"transitions\":{}}", "{\"parts\":[]}", "{\"parts\":[{\"is_public\":true}]}", "{\"parts\":[{\"is_public\":true,\"regex_def\":\"a\"},{}]}", "null", "\u{feff}{}", "{\"transitions\":[[[0,1],[1,1],[0,1]]]}"];
    let s = S[i % S.len()];
    if i >= 3 * S.len() { return Out::Done; }
    std::fs::write(&f, s).unwrap();
    let re = *r.pick(&["ab", "a+", "(a|b)c", "x$", "[a&&b]"]);
    let inp = json!({"file": s, "raw": re});
    let fs = f.to_str().unwrap();
    for g in [None, Some(true), Some(false)] {
        if let Err(e) = quiet(|| { let _ = zc::gen_from_raw(re, Some(fs), h.to_str(), None, None, g); let _ = zc::gen_from_raw(re, Some(fs), None, o.to_str(), Some("T"), g); let _ = zc::gen_from_decomposed(fs, h.to_str(), o.to_str(), Some("T"), g); let _ = zc::gen_from_raw(re, Some("/nonexistent/x.json"), h.to_str(), None, None, g); let _ = zc::gen_from_decomposed("/nonexistent/x.json", None, None, None, g); let _ = zc::gen_from_raw(re, None, Some("/nonexistent/dir"), None, None, g); let _ = zc::gen_from_raw(re, None, None, Some("/nonexistent/dir/x"), Some("T"), g); }) { return viol("panic", inp, "success or an error", e); }
    }
    Out::Ok(Some(inp))
}

// ---------- C15 ----------
fn ls(d: &std::path::Path) -> BTreeMap<String, String> { std::fs::read_dir(d).map(|x| x.filter_map(|e| e.ok()).map(|e| (e.file_name().to_string_lossy().to_string(), std::fs::read_to_string(e.path()).unwrap_or_default())).collect()).unwrap_or_default() }
fn c15(c: &Ctx, r: &mut Rng, i: usize) -> Out {
    let np = 1 + r.n(3);
    let Some((p, ds)) = parts(r, np, 2) else { return Out::Ok(None) };
    let cp = compose(&ds);
    if cp.reentry || ds[0].reenters_start() || cp.conflict || cp.d.accept_states().len() != 1 || cp.d.accept_states()[0] == 0 || cp.part_edges.iter().any(|x| x.is_empty()) { return Out::Ok(None); }
    let w = c.dir.join("w15"); let _ = std::fs::remove_dir_all(&w); std::fs::create_dir_all(w.join("h")).unwrap(); std::fs::create_dir_all(w.join("c")).unwrap();
    let def = w.join("def.json"); std::fs::write(&def, def_json(&p)).unwrap();
    let gen = [None, Some(true), Some(false)][i % 3];
    let mode = i / 3 % 4;
    let (hal, cir) = [(true, true), (true, false), (false, true), (false, false), (true, true)][r.n(5)];
    let name = *r.pick(&["Tmpl", "X", "FromAll9"]);
    let (hd, cf) = (w.join("h"), w.join("c").join("o.circom"));
    let raw: String = p.iter().map(|x| format!("({})", x.1)).collect();
    let subs_json = json!({"transitions": [[[0, 1]], [[0, 1], [1, 1]]]}).to_string();
    let sj = w.join("subs.json"); std::fs::write(&sj, &subs_json).unwrap();
    let given = r.p(1, 2);
    let inp = json!({"parts": p, "raw": raw, "entry": (["decomposed file", "decomposed struct", "raw", "wasm"])[mode], "halo2": hal, "circom": cir, "gen_substrs": gen, "template": name, "substring_file": given});
    let h = if hal { hd.to_str() } else { None }; let cc = if cir { cf.to_str() } else { None };
    let tn = if cir { Some(name) } else { None };
    if (mode == 0 || mode == 2) && r.p(1, 6) {    // a file that is no definition, or no file
        let good = if mode == 0 { def_json(&p) } else { subs_json.clone() };
        let cut = 1 + r.n(good.len() - 1);
        let bad = match r.n(5) { 0 => None, 1 => Some(String::new()), 2 => Some("{}".to_string()), 3 => Some(good.replacen('[', "{", 1)), _ => Some(good[..(0..=cut).rev().find(|k| good.is_char_boundary(*k)).unwrap()].to_string()) };
        let bf = w.join("bad.json"); if let Some(b) = &bad { std::fs::write(&bf, b).unwrap(); }
        let o = quiet(|| if mode == 0 { zc::gen_from_decomposed(bf.to_str().unwrap(), h, cc, tn, gen).map_err(|e| e.to_string()) } else { zc::gen_from_raw(&raw, bf.to_str(), h, cc, tn, gen).map_err(|e| e.to_string()) });
        let inp = json!({"file": bad, "entry": inp});
        match o { Err(e) => return viol("panic", inp, "an error", e), Ok(Ok(())) => return viol("a file that is no definition is accepted", inp, "an error", "success"), _ => {} }
        let left: Vec<String> = ls(&w.join("h")).into_keys().chain(ls(&w.join("c")).into_keys()).collect();
        if !left.is_empty() { return viol("outputs of a file that is no definition", inp, "no file", left); }
        return Out::Ok(Some(inp));
    }
    let o = quiet(|| match mode {
        0 => zc::gen_from_decomposed(def.to_str().unwrap(), h, cc, tn, gen).map_err(|e| e.to_string()),
        1 => { let mut cfg = zc_cfg(&p); zc::gen_circom_from_decomposed_regex(&mut cfg, cc, tn, gen).map_err(|e| e.to_string()) }
        2 => zc::gen_from_raw(&raw, if given { sj.to_str() } else { None }, h, cc, tn, gen).map_err(|e| e.to_string()),
        _ => { if pb::AVAILABLE { if let Some(s) = pb::wasm_decomposed(&def_json(&p), name) { std::fs::write(&cf, s).unwrap(); } else { return Err("wasm entry point fails".into()); } } Ok(()) }
    });
    let single = D::of(&raw, false).map(|d| d.accept_states().len() == 1 && d.accept_states()[0] != 0 && d.tr.len() > 1).unwrap_or(false);
    if mode == 2 && !single { return Out::Ok(None); }
    let subs = match mode { 0 | 1 => gen.unwrap_or(false), 2 => gen.unwrap_or(true), _ => true };
    let raw_halo2_subs = mode == 2 && hal && subs && given;
    match o { Err(e) => return viol("panic", inp, "outputs", e), Ok(Err(e)) => return if raw_halo2_subs { Out::Ok(Some(json!({"error": e, "case": inp}))) } else { viol("the entry point fails", inp, "outputs", e) }, Ok(Ok(())) => {} }
    if raw_halo2_subs { return viol("raw definitions have no boundaries, yet Halo2 substring tables are written", inp, "error", "success"); }
    let files_c: BTreeSet<String> = ls(&w.join("c")).into_keys().collect();
    let want_c: BTreeSet<String> = if (cir && mode < 3) || (mode == 3 && pb::AVAILABLE) { ["o.circom".to_string()].into() } else { BTreeSet::new() };
    if files_c != want_c { return viol("circom files written", inp, want_c, files_c); }
    let npub = if mode == 2 { if given { 2 } else { 0 } } else { p.iter().filter(|x| x.0).count() };
    let fh = ls(&w.join("h"));
    let mut want_h = BTreeSet::new();
    if hal && (mode == 0 || mode == 2) { want_h.insert("allstr.txt".to_string()); if subs { for k in 0..npub { want_h.insert(format!("substr_{}.txt", k)); } } }
    let got_h: BTreeSet<String> = fh.keys().cloned().collect();
    if got_h != want_h { return viol("halo2 files written", inp, want_h, got_h); }
    let others: BTreeSet<String> = ls(&w).into_keys().filter(|k| !["h", "c", "def.json", "subs.json"].contains(&k.as_str())).collect();
    if !others.is_empty() { return viol("unexpected files", inp, Vec::<String>::new(), others); }
    if !want_c.is_empty() {
        let text = std::fs::read_to_string(&cf).unwrap();
        let ci = match circuit(c, &text) { Ok(x) => x, Err(e) => return viol("the circuit file does not parse", inp, "a complete template", e) };
        if !ci.lib.t.contains_key(name) { return viol("template name", inp, name, text.lines().filter(|l| l.starts_with("template")).collect::<Vec<_>>()); }
        let pat: String = if mode == 2 { raw.clone() } else { p.iter().map(|x| x.1.clone()).collect() };
        if let Some(o) = text_shape(&text, &pat, &|_| inp.clone()) { return o; }
        let d = if mode == 2 { D::of(&raw, false).unwrap() } else { cp.d.clone() };
        let m = rgen::message(r, &d, 6);
        match ci.eval(name, &m) {
            Err(e) => return viol(&e, inp, "a valid circuit", e.clone()),
            Ok((out, rev, _)) => {
                let e = scan(&d, &m).out(d.accept_states()[0], false);
                if out != e { return viol("the circuit file is not the circuit of this definition", inp, e, out); }
                let wr = if subs { npub } else { 0 };
                if rev.len() != wr { return viol("number of reveal outputs", inp, wr, rev.len()); }
            }
        }
        if pb::AVAILABLE && mode < 2 && subs {
            let js = pb::rad_decomposed(&def_json(&p)); let t2 = js.and_then(|j| pb::circom(&j, name));
            if t2.as_deref() != Ok(&text) { return viol("the file and the string of the same definition differ", inp, t2, text); }
        }
        if pb::AVAILABLE && mode == 2 && subs && given {
            if pb::wasm_raw(&raw, &subs_json, name).as_deref() != Some(&text) { return viol("the raw file and the raw string of the same definition differ", inp, "", text); }
        }
    }
    Out::Ok(Some(inp))
}

// the command line (run as a process) and the JavaScript bindings (recorded here, run in node by check.py)
fn c15_bindings(c: &Ctx, r: &mut Rng, i: usize) -> Out {
    let np = 1 + r.n(3);
    let Some((mut p, _)) = parts(r, np, 2) else { return Out::Ok(None) };
    let broken = r.p(1, 8);
    if broken { let k = r.n(p.len()); p[k].1 = (*r.pick(&["(", "a)", "[b", "*"])).to_string(); }
    let w = c.dir.join("w15b"); let _ = std::fs::remove_dir_all(&w);
    for d in ["a", "b"] { std::fs::create_dir_all(w.join(d).join("h")).unwrap(); }
    let dj = def_json(&p);
    let def = w.join("def.json"); std::fs::write(&def, &dj).unwrap();
    let raw: String = p.iter().map(|x| format!("({})", x.1)).collect();
    let subs_json = json!({"transitions": [[[0, 1]], [[0, 1], [1, 1]]]}).to_string();
    let sj = w.join("subs.json"); std::fs::write(&sj, &subs_json).unwrap();
    let gen = [None, Some(true), Some(false)][r.n(3)];
    let (hal, cir) = [(true, true), (true, false), (false, true), (false, false)][r.n(4)];
    let given = r.p(1, 2); let israw = r.p(1, 2);
    let name = *r.pick(&["Tmpl", "X", "FromAll9"]);
    let inp = json!({"parts": p, "raw": if israw { Some(&raw) } else { None }, "substring_file": israw && given, "halo2": hal, "circom": cir, "gen_substrs": gen, "template": name});
    let ok_lib = pb::AVAILABLE.then(|| quiet(|| pb::rad_decomposed(&dj)));
    if let Some(cli) = std::env::var_os("ZKR_CLI") {
        if i % 2 == 0 {
            let path = |d: &str, f: &str| w.join(d).join(f).to_str().unwrap().to_string();
            let (h, o) = (hal.then(|| path("a", "h")), cir.then(|| path("a", "o.circom")));
            let tn = cir.then_some(name);
            let lib = quiet(|| if israw { zc::gen_from_raw(&raw, if given { sj.to_str() } else { None }, h.as_deref(), o.as_deref(), tn, gen).map_err(|e| e.to_string()) } else { zc::gen_from_decomposed(def.to_str().unwrap(), h.as_deref(), o.as_deref(), tn, gen).map_err(|e| e.to_string()) });
            let mut args: Vec<String> = vec![]; let short = r.p(1, 2);
            let mut arg = |s: &str, l: &str, v: String| { args.push(if short { format!("-{}", s) } else { format!("--{}", l) }); args.push(v); };
            if israw { arg("r", "raw-regex", raw.clone()); if given { arg("s", "substrs-json-path", sj.to_str().unwrap().into()); } } else { arg("d", "decomposed-regex-path", def.to_str().unwrap().into()); }
            if hal { arg("h", "halo2-dir-path", path("b", "h")); }
            if cir { arg("c", "circom-file-path", path("b", "o.circom")); arg("t", "template-name", name.to_string()); }
            if let Some(g) = gen { arg("g", "gen-substrs", g.to_string()); }
            args.insert(0, if israw { "raw" } else { "decomposed" }.to_string());
            // a process that does not end is ended, and says so
            let out = std::process::Command::new("timeout").arg("60").arg(&cli).args(&args).current_dir(&w).output().expect("cli");
            let fine = matches!(lib, Ok(Ok(())));
            if out.status.success() != fine { return viol("exit status of the command line", json!({"case": inp, "arguments": args}), format!("{:?}", lib), format!("{:?} {}", out.status, String::from_utf8_lossy(&out.stderr))); }
            let (mut fa, mut fb) = (ls(&w.join("a").join("h")), ls(&w.join("b").join("h")));
            for (d, f) in [("a", &mut fa), ("b", &mut fb)] { for (k, v) in ls(&w.join(d)) { if k != "h" { f.insert(k, v); } } }
            if fine && fa != fb { return viol("the command line writes other files than the library", json!({"case": inp, "arguments": args}), fa, fb); }
            let others: BTreeSet<String> = ls(&w).into_keys().filter(|k| !["a", "b", "def.json", "subs.json"].contains(&k.as_str())).collect();
            if !others.is_empty() { return viol("unexpected files", inp, Vec::<String>::new(), others); }
        }
    }
    if let Some(l) = ok_lib {
        if i < 60 && c.nat.borrow().len() < 200 {
            let rad = l.ok().and_then(|x| x.ok());
            let text = rad.as_ref().and_then(|j| quiet(|| pb::circom(j, name)).ok().and_then(|x| x.ok()));
            let mut nat = c.nat.borrow_mut();
            nat.push(json!({"f": "genFromDecomposed", "a": [dj, name], "r": text}));
            if let (Some(rad), Some(text)) = (rad, text) {
                nat.push(json!({"f": "genCircom", "a": [dj, name], "r": text, "object": true}));
                nat.push(json!({"f": "genRegexAndDfa", "a": [dj], "r": rad, "object": true, "json": true}));
                if let Ok(Ok(t)) = quiet(|| pb::rad_raw(&raw, &subs_json).and_then(|j| pb::circom(&j, name))) { nat.push(json!({"f": "genFromRaw", "a": [raw, subs_json, name], "r": t})); }
            }
        }
    }
    Out::Ok(Some(inp))
}

pub fn families(id: &str) -> Vec<Fam> {
    let f = |name, f| Fam { name, f };
    match id {
        "C01" => vec![f("pad", c01 as fn(&Ctx, &mut Rng, usize) -> Out)],
        "C02" => vec![f("extract", c02), f("invalid-part", c02_errors), f("joined-pieces", c02_pieces)],
        "C03" => vec![f("preset", c03), f("definitions", c03_defs), f("shipped-circuits", c03_shipped)],
        "C04" => vec![f("fixed", c04_fixed), f("bytes", c04_bytes), f("pairs-and-ranges", c04_two), f("negated", c04_neg), f("dense", c04_dense), f("random", c04_rand)],
        "C05" => vec![f("compose", c05)],
        "C06" => vec![f("public-edges", c06)],
        "C07" => vec![f("known", c07_known), f("caret", c07_caret), f("not-an-anchor", c07_notcaret), f("dollar", c07_dollar), f("circuit", c07_circuit)],
        "C08" => vec![f("automata", c08_auto), f("definitions", e2e_states), f("soundness", c08_sound)],
        "C09" => vec![f("automata", c09_auto), f("definitions", e2e_out), f("reject", c09_reject)],
        "C10" => vec![f("automata", c10_auto), f("definitions", e2e_reveal)],
        "C11" => vec![f("automata", c11_auto), f("definitions", e2e_valid)],
        "C12" => vec![f("tables", c12), f("definitions", c12_e2e)],
        "C13" => vec![f("gates", c13)],
        "C14" => vec![f("definitions", c14), f("files", c14_files)],
        "C15" => vec![f("entry-points", c15), f("bindings", c15_bindings)],
        _ => vec![],
    }
}
#[allow(dead_code)]
fn _unused() { let _ = odfa::NONE; }

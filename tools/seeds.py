R="packages/compiler/src/regex.rs"; C="packages/compiler/src/circom.rs"; H="packages/compiler/src/halo2.rs"; L="packages/compiler/src/lib.rs"
X="packages/apis/src/extract_substrs.rs"; PD="packages/apis/src/padding.rs"; HC="packages/circom/circuits/regex_helpers.circom"
SEEDS=[
dict(id="c01-char-count", property="C01", needs="a text with multi-byte characters", breaks="the number of zero bytes is computed from the number of characters, so multi-byte text is padded beyond the requested size",
 edits=[(PD,"padded_bytes_size - padded_bytes.len()","padded_bytes_size - str.chars().count()")],
 js='''const z=require(process.argv[2]);
const r=[...z.padString("h\\u00e9llo",10)];
const want=[...Buffer.from("h\\u00e9llo"),0,0,0,0];
if(JSON.stringify(r)!==JSON.stringify(want)){console.log(r,want);process.exit(1);}
if([...z.padString("abc",5)].join()!=="97,98,99,0,0")process.exit(1);
'''),
dict(id="c02-char-slices", property="C02", needs="multi-byte characters before the revealed part", breaks="byte offsets are used as character offsets when the substring texts are cut out",
 edits=[(X,".map(|&(start, end)| input_str[start..end].to_string())",".map(|&(start, end)| input_str.chars().skip(start).take(end - start).collect())")],
 rs='''use zk_regex_apis::extract_substrs::*;
fn main(){
 let c=DecomposedRegexConfig{parts:vec![RegexPartConfig{is_public:false,regex_def:"from:".into()},RegexPartConfig{is_public:true,regex_def:"[a-z\\u{e9}]+".into()},RegexPartConfig{is_public:false,regex_def:";".into()}]};
 for (t,w) in [("\\u{2713}\\u{2713} from:ren\\u{e9}e;","ren\\u{e9}e"),("from:abc;","abc"),("x\\u{1f600}from:z;","z")] {
  let r=extract_substr(t,&c,false).unwrap(); if r!=vec![w.to_string()] { println!("{:?} {:?}",t,r); std::process::exit(1); }
 }
}'''),
dict(id="c03-to-addr-def", property="C03", needs="the to-address extractor, on a header with a to: field", breaks="the to-address extractor applies the definition published for the from-address",
 edits=[(X,'include_str!("./decomposed_defs/to_addr.json")','include_str!("./decomposed_defs/from_addr.json")')],
 rs='''use zk_regex_apis::extract_substrs::*;
fn main(){
 let t="to:bob <bob@example.com>\\r\\nsubject:x\\r\\n";
 match extract_to_addr_idxes(t) { Ok(v) if v==vec![(8,23)] => {} r => { println!("{:?}",r.map_err(|e|e.to_string())); std::process::exit(1); } }
 match extract_to_addr_idxes("from:bob <bob@example.com>\\r\\n") { Err(_) => {} r => { println!("{:?}",r.ok()); std::process::exit(1); } }
}'''),
dict(id="c04-quote-mapping", property="C04", needs="a regex with a double quote", breaks="the printed form of the byte 34 is attributed to byte 39",
 edits=[(R,'''("\\\\\\"", 34),''','''("\\\\\\"", 39),''')],
 py='''o = raw('a"[x-z]', args=["--halo2-dir-path", "."], substrs=[])
print(o.err)
assert o.rc == 0 and accepts(o, b'a"x') and not accepts(o, b"a'x")
o = raw("a'b", args=["--halo2-dir-path", "."], substrs=[])
assert accepts(o, b"a'b") and not accepts(o, b'a"b')
'''),
dict(id="c05-self-loop-conflict", property="C05", needs="a part whose accept state loops on a byte with which the next part starts, such as [ab]+ before bc", breaks="the self-loop of an accept state keeps a byte that the next part's start takes over, so the composed automaton has two targets for that byte",
 edits=[(R,'''            target_state.transitions.values_mut().for_each(|values| {
                values.retain(|val| val != edge_value);
            });''','''            for (to, values) in target_state.transitions.iter_mut() {
                if *to != target_state.state_id {
                    values.retain(|val| val != edge_value);
                }
            }''')],
 py='''o = decomposed([(False, "x"), (False, "[ab]+"), (True, "bc")])
print(o.err)
assert o.rc == 0
acc, mx, t = table(o)
bad = {k: v for k, v in t.items() if len(v) != 1}
print(bad)
assert not bad
assert accepts(o, b"xaabc") and not accepts(o, b"xaa")
o = decomposed([(False, "a+"), (True, "[c-d]"), (False, "e")])
assert accepts(o, b"aade") and accepts(o, b"ace") and not accepts(o, b"ae")
'''),
dict(id="c06-first-accept-only", property="C06", needs="a public part preceded by parts that can end in several states, such as ab? before [c-d]+", breaks="the transitions that leave the start of a public part are attributed to the first accept state of the parts before it only",
 edits=[(R,'''        } else if from == max_state_index {
            for &accept_state in accepting_states {''','''        } else if from == max_state_index {
            for &accept_state in accepting_states.iter().take(1) {''')],
 py='''o = decomposed([(False, "xab?"), (True, "[c-d]+"), (False, "e")])
print(o.err)
assert o.rc == 0
acc, mx, t = table(o)
l = o.files["substr_0.txt"].splitlines()
starts, ends = [set(map(int, x.split())) for x in l[:2]]
got = set(tuple(map(int, x.split())) for x in l[2:])
want = set((a, v[0]) for (a, c), v in t.items() if c in b"cd")
print(got, want, starts)
assert len(starts) == 2 and got == want
assert circuit(o, b"xabcd.xe", 12)["out"] == 0
for m, w in ((b"-xacde", b"cd"), (b"-xabcde", b"cd")):
    r = circuit(o, m, 12); assert r["out"] == 1 and r["reveal0"].strip(b"\\0") == w, r
'''),
dict(id="c07-caret-prefix-public", property="C07", needs="a public first part that begins with an anchor", breaks="the prefix with the anchor that is split off a public part is public too, so it is revealed as a substring of its own",
 edits=[(R,"            is_public: false,\n            regex_def: caret_regex,","            is_public: first_part_is_public,\n            regex_def: caret_regex,"),
        (R,"    let caret_position = find_caret_index(&first_part.regex_def);","    let caret_position = find_caret_index(&first_part.regex_def);\n    let first_part_is_public = first_part.is_public;")],
 py='''o = decomposed([(True, "^ab"), (False, "c")])
print(o.err, list(o.files))
assert o.rc == 0 and "substr_0.txt" in o.files and "substr_1.txt" not in o.files
assert circuit(o, b"abc", 6) == {"out": 1, "reveal0": b"ab\\0\\0\\0\\0"}
assert circuit(o, b"xabc", 6)["out"] == 0
o = decomposed([(False, "(\\r\\n|^)to:"), (True, "[a-z]+"), (False, "!")])
assert o.rc == 0 and circuit(o, b"to:ab!", 9)["reveal0"].strip(b"\\0") == b"ab"
'''),
dict(id="c08-cached-or-start", property="C08", needs="a byte class that a transition from a non-initial state uses before a transition from the initial state does", breaks="a transition from the initial state is not offered for a restart when its byte test reuses an OR gate built before",
 edits=[(C,'''            multi_or_checks1.insert(eq_outputs_key, *multi_or_i);
            *multi_or_i += 1;
        }
        if prev_i == 0 {
            zero_starting_and_idxes.get_mut(&i).unwrap().push(*and_i);
        }
    }''','''            multi_or_checks1.insert(eq_outputs_key, *multi_or_i);
            *multi_or_i += 1;
            if prev_i == 0 {
                zero_starting_and_idxes.get_mut(&i).unwrap().push(*and_i);
            }
        }
    }''')],
 py='''import re as _re
for parts, pat in (([(False, "(a[xy]*c|[xy]d)"), (True, "z")], b"(a[xy]*c|[xy]d)z"), ([(False, "(b[pq]+k|c[rs]|[rs]d|[pq]m)"), (True, "z")], b"(b[pq]+k|c[rs]|[rs]d|[pq]m)z"), ([(False, "(a[xy]|[xy]b)"), (True, "c")], b"(a[xy]|[xy]b)c"), ([(False, "(ka|[pq]b|a[pq])"), (True, "z")], b"(ka|[pq]b|a[pq])z"), ([(False, "(b[cd]f|[cd]e)"), (True, "g+"), (False, "h")], b"(b[cd]f|[cd]e)g+h")):
    o = decomposed(parts)
    print(o.err); assert o.rc == 0
    for m in (b"axyxcz", b"acz", b".xdz", b"xdz", b"a.ydz", b"bpqkz", b"crz", b"qmz", b".sdz", b"axc", b"xbc", b"..ybc", b"ayc.", b"pbz", b"kaz", b".aqz", b"begh", b"bcfgh", b"cegh", b"xdegggh", b"de"):
        r = circuit(o, m, 10)["out"]
        assert r == int(_re.search(pat, m) is not None), (pat, m, r)
'''),
dict(id="c09-last-position", property="C09", needs="a match that ends with the last byte of a full buffer", breaks="the accept state is not looked at after the last byte",
 edits=[(C,'is_accepted = MultiOR(num_bytes+1);','is_accepted = MultiOR(num_bytes);'),
        (C,'''    accept_lines.push("\\tfor (var i = 0; i <= num_bytes; i++) {".to_string());
    accept_lines.push(format!(''','''    accept_lines.push("\\tfor (var i = 0; i < num_bytes; i++) {".to_string());
    accept_lines.push(format!(''')],
 py='''o = decomposed([(False, "a"), (True, "b+")])
print(o.err); assert o.rc == 0
for m, w in ((b"xxab", 1), (b"abxx", 1), (b"xxxa", 0), (b"ab", 1), (b"xab", 1)):
    r = circuit(o, m)["out"]; assert r == w, (m, r)
    r = circuit(o, m, 9)["out"]; assert r == w, (m, r)
'''),
dict(id="c10-restart-reveal", property="C10", needs="a public loop on a private start, and a message in which a failed attempt is followed by a match, such as aab for a, b*, c", breaks="a byte with which the scan restarts from the initial state is taken for a byte of a public transition that leads to the same state",
 edits=[(C,'[i] <== (1 - from_zero_enabled[i+1]) * states[i+1][{cur}];\\n"','[i] <== states[i+1][{cur}];\\n"')],
 py='''o = decomposed([(False, "a"), (True, "b*"), (False, "c")])
print(o.err); assert o.rc == 0
for m, w in ((b"aabbc", b"\\0\\0bb\\0"), (b"xabcx", b"\\0\\0b\\0\\0"), (b"aaabc", b"\\0\\0\\0b\\0"), (b"abaac", bytes(5))):
    r = circuit(o, m); assert r == {"out": 1, "reveal0": w}, (m, r)
'''),
dict(id="c11-padding-size", property="C11", needs="a regex with an end anchor", breaks="the signal that counts the non-zero bytes is declared one element too small, so the template does not compile",
 edits=[(C,'"\\tsignal padding_start[num_bytes+1];"','"\\tsignal padding_start[num_bytes];"')],
 py='''for parts in ([(False, "a"), (True, "b+"), (False, "c$")], [(False, "a"), (True, "b+"), (False, "c")]):
    o = decomposed(parts)
    print(o.err); assert o.rc == 0
    r = circuit(o, b"xabbc", 8); assert r == {"out": 1, "reveal0": b"\\0\\0bb\\0\\0\\0\\0"}, r
    r = circuit(o, b"xabbc"); assert r == {"out": 1, "reveal0": b"\\0\\0bb\\0"}, r
'''),
dict(id="c12-marker-row", property="C12", needs="an automaton with a transition on byte 255, such as one with a start anchor", breaks="the rows of the start marker (byte 255) are left out of the table",
 edits=[(H,"            for &char in chars {","            for &char in chars.iter().filter(|&&c| c < u8::MAX) {")],
 py='''o = decomposed([(False, "(\\r\\n|^)to:"), (True, "[a-z]+"), (False, "!")])
print(o.err); assert o.rc == 0
acc, mx, t = table(o)
assert accepts(o, b"\\xffto:ab!") and accepts(o, b"\\r\\nto:ab!") and not accepts(o, b"to:ab!")
'''),
dict(id="c13-or-sum", property="C13", needs="two inputs that are 1 at the same time", breaks="the OR gate outputs the number of inputs that are 1",
 edits=[(HC,'''    component is_zero = IsZero();
    is_zero.in <== sums[n-1];
    out <== 1 - is_zero.out;''','''    component is_zero = IsZero();
    is_zero.in <== sums[n-1];
    out <== (1 - is_zero.out) * sums[n-1];''')],
 py='''import itertools
P = 21888242871839275222246405745257275088548364400416034343698204186575808495617
text = open("packages/circom/circuits/regex_helpers.circom").read()
text = re.sub(r"//[^\\n]*", "", text)
def inst(name, n, vals):
    if name == "IsZero": return int(vals["in"] % P == 0)
    if name == "OR": return (vals["a"] + vals["b"] - vals["a"] * vals["b"]) % P
    if name == "AND": return vals["a"] * vals["b"] % P
    par, body = re.search(r"template %s\\((\\w*)\\) \\{(.*?)\\n\\}" % name, text, re.S).groups()
    env = {"vals": vals, "inst": inst, "P": P}
    if par: env[par] = n
    py, ind = [], 0
    for l in body.split("\\n"):
        l = re.sub(r"\\b(in|or|and)\\b", r"\\1_", l.strip()) if not l.strip().startswith("for") else l.strip()
        l = l.rstrip(";")
        m = re.fullmatch(r"for \\(var (\\w+) = (\\w+); \\w+ < (\\w+); \\w+\\+\\+\\) \\{", l)
        if not l: continue
        if m: py.append(" " * ind + "for %s in range(%s, %s):" % m.groups()); ind += 1; continue
        if l == "}": ind -= 1; continue
        m = re.fullmatch(r"signal input (\\w+).*", l)
        if m: py.append("%s = vals[%r]" % (m[1], m[1].rstrip("_"))); continue
        m = re.fullmatch(r"component (\\w+) = (\\w+)\\((\\w*)\\)", l)
        if m: py.append("%s = Box(%r, %s)" % (m[1], m[2], m[3] or "None")); continue
        m = re.fullmatch(r"signal (?:output )?(\\w+)(\\[\\w+\\])?", l)
        if m: py.append("%s = {}" % m[1]); continue
        m = re.fullmatch(r"(?:signal )?(?:output )?(.*?) <== (.*)", l); assert m, l
        e = re.sub(r"(\\w+)\\((\\w*)\\)\\(([^()]*)\\)", lambda k: "call(%r, %s, [%s])" % (k[1], k[2] or "None", k[3]), m[2])
        py.append(" " * ind + "%s = %s" % (m[1], e if "call(" in e else "(%s) %% P" % e))
    class Box:
        def __init__(s, nm, k): s.__dict__["_k"] = (nm, k); s.__dict__["_v"] = {}
        def __setattr__(s, a, v): s._v[a.rstrip("_")] = v
        def __getattr__(s, a): return inst(s._k[0], s._k[1], s._v)
    def call(nm, k, a):
        names = {"OR": ["a", "b"], "AND": ["a", "b"], "IsZero": ["in"], "MultiOR": ["in"]}[nm]
        return inst(nm, k, dict(zip(names, a)))
    env.update(Box=Box, call=call)
    exec("\\n".join(py), env)
    return env["out"]
for n in (1, 2, 3, 4):
    for v in itertools.product((0, 1), repeat=n):
        assert inst("MultiOR", n, {"in": list(v)}) == int(any(v)), ("MultiOR", v)
        assert inst("MultiNOR", n, {"in": list(v)}) == int(not any(v)), ("MultiNOR", v)
for v in itertools.product((0, 1), repeat=3): assert inst("ORAnd", None, {"in": list(v)}) == int((v[0] or v[1]) and v[2]), v
for a in (0, 3, 17):
    for b in (0, 1, 200, 255): assert inst("IsNotZeroAcc", None, {"acc": a, "in": b}) == a + int(b != 0)
'''),
dict(id="c14-caret-accept-panic", property="C14", needs="an anchored group that accepts only the empty string, such as (^) followed by more parts", breaks="a definition whose anchored group has no accept state left panics instead of being reported as an error",
 edits=[(R,'''        .find(|state| state.state_type == "accept")
        .ok_or_else(|| CompilerError::GraphError("Accept state not found".to_string()))?
        .clone();''','''        .find(|state| state.state_type == "accept")
        .expect("Accept state not found")
        .clone();''')],
 py='''for parts in ([(False, "(^)"), (True, "ab")], [(False, "(^|^)ab"), (True, "c")], [(True, "((^))x")], [(False, "(^)")]):
    o = decomposed(parts); print(o.rc, o.err.strip()[:200])
    assert not o.panicked
'''),
dict(id="c15-lib-default", property="C15", needs="the library entry point for a definition in memory, without the substring flag", breaks="the in-memory entry point generates the substring constraints by default, unlike the file-based one",
 edits=[(L,''') -> Result<(), CompilerError> {
    let gen_substrs = gen_substrs.unwrap_or(false);

    let regex_and_dfa = get_regex_and_dfa(decomposed_regex)?;''',''') -> Result<(), CompilerError> {
    let gen_substrs = gen_substrs.unwrap_or(true);

    let regex_and_dfa = get_regex_and_dfa(decomposed_regex)?;''')],
 rs='''use zk_regex_compiler::*;
fn main(){
 let d=std::env::current_dir().unwrap();
 let def="{\\"parts\\":[{\\"is_public\\":false,\\"regex_def\\":\\"a\\"},{\\"is_public\\":true,\\"regex_def\\":\\"b+\\"},{\\"is_public\\":false,\\"regex_def\\":\\"c\\"}]}";
 std::fs::write(d.join("d.json"),def).unwrap();
 let part=|p:bool,r:&str| RegexPartConfig{is_public:p,regex_def:r.to_string()};
 for g in [None,Some(false),Some(true)] {
  let (a,b)=(d.join("a.circom"),d.join("b.circom"));
  gen_from_decomposed(d.join("d.json").to_str().unwrap(),None,Some(a.to_str().unwrap()),Some("T"),g).unwrap();
  let mut c=DecomposedRegexConfig{parts:vec![part(false,"a"),part(true,"b+"),part(false,"c")].into()};
  gen_circom_from_decomposed_regex(&mut c,Some(b.to_str().unwrap()),Some("T"),g).unwrap();
  let (x,y)=(std::fs::read_to_string(a).unwrap(),std::fs::read_to_string(b).unwrap());
  if x!=y { println!("the entry points differ for {:?}",g); std::process::exit(1); }
  if x.contains("reveal0")!=(g==Some(true)) { println!("wrong default"); std::process::exit(1); }
 }
}'''),
dict(id="c08-key-prefix", property="C08", needs="two transitions whose byte sets have the same size and share their first four members", breaks="the OR gate of one byte set is reused for another one that only begins in the same way",
 edits=[(C,"let eq_outputs_key = serde_json::to_string(&eq_outputs).unwrap();",'''let head: Vec<_> = eq_outputs.iter().take(4).collect();
        let eq_outputs_key = serde_json::to_string(&(head, eq_outputs.len())).unwrap();''')],
 py='''import re as _re
o = decomposed([(False, "(x[acegi]|y[acegk])"), (True, "z")])
assert o.rc == 0
for m in (b"xaz", b"xiz", b"xkz", b"yiz", b"ykz", b".ygz"):
    assert circuit(o, m, 8)["out"] == int(_re.search(b"(x[acegi]|y[acegk])z", m) is not None), m
'''),
dict(id="c15-cli-substrs", property="C15", needs="the command line with a Halo2 directory and without -g", breaks="the command line generates the substrings by default when Halo2 tables are asked for",
 edits=[("packages/compiler/src/bin/compiler.rs",'''            &decomposed_regex_path,
            halo2_dir_path.as_deref(),
            circom_file_path.as_deref(),
            template_name.as_deref(),
            gen_substrs,''','''            &decomposed_regex_path,
            halo2_dir_path.as_deref(),
            circom_file_path.as_deref(),
            template_name.as_deref(),
            gen_substrs.or(halo2_dir_path.as_ref().map(|_| true)),''')],
 py='''import os
def go(extra):
    d = tempfile.mkdtemp(prefix="demo"); os.mkdir(d + "/h")
    json.dump({"parts": [{"is_public": p, "regex_def": r} for p, r in [(False, "a"), (True, "b+"), (False, "c")]]}, open(d + "/d.json", "w"))
    p = subprocess.run([cli(), "decomposed", "-d", d + "/d.json"] + [x.replace("@", d) for x in extra], capture_output=True, text=True)
    assert p.returncode == 0, p.stderr
    r = sorted(os.listdir(d + "/h")), os.path.exists(d + "/o.circom") and "reveal0" in open(d + "/o.circom").read()
    subprocess.run(["rm", "-rf", d]); return r
H, O = ["--halo2-dir-path", "@/h"], ["-c", "@/o.circom", "-t", "T"]
assert go(H + O) == (["allstr.txt"], False)
assert go(H) == (["allstr.txt"], False)
assert go(O) == ([], False)
assert go(H + O + ["-g", "true"]) == (["allstr.txt", "substr_0.txt"], True)
assert go(H + O + ["-g", "false"]) == (["allstr.txt"], False)
'''),
dict(id="c15-lenient-substrs", property="C15", needs="a substring file that is not valid", breaks="an invalid substring file is taken as one without substrings, and a circuit without reveals is written",
 edits=[(L,"            serde_json::from_reader(file).map_err(CompilerError::JsonParseError)",'''            Ok(
                serde_json::from_reader(file).unwrap_or(SubstringDefinitionsJson {
                    transitions: vec![],
                }),
            )''')],
 rs='''use zk_regex_compiler::*;
fn main(){
 let d=std::env::current_dir().unwrap();
 for t in ["{\\"transitions\\":[[[0,1]]", "{}", "", "{\\"transitions\\":[[[0]]]}"] {
  std::fs::write(d.join("s.json"),t).unwrap();
  let o=d.join("o.circom");
  if gen_from_raw("ab",Some(d.join("s.json").to_str().unwrap()),None,Some(o.to_str().unwrap()),Some("T"),None).is_ok() { println!("accepted: {:?}",t); std::process::exit(1); }
 }
 std::fs::write(d.join("s.json"),"{\\"transitions\\":[[[0,1]]]}").unwrap();
 gen_from_raw("ab",Some(d.join("s.json").to_str().unwrap()),None,Some(d.join("o.circom").to_str().unwrap()),Some("T"),None).unwrap();
}'''),
]

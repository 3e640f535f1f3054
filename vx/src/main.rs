//! vx: extracts functions from Rust sources and rewrites them, mechanically, into the core form that the contract
//! stage hands to Verus. Nothing here knows what a particular function is supposed to do.
//! usage: vx OUT.json FILE...      (prints nothing; exit 0 unless a file does not parse)
use proc_macro2::{Ident, Literal, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::{spanned::Spanned, *};

#[derive(Default)]
struct Reg { lits: Vec<Vec<u8>>, fmts: Vec<(Vec<String>, Vec<String>)> }
impl Reg {
    fn lit(&mut self, b: Vec<u8>) -> usize { if let Some(i) = self.lits.iter().position(|x| *x == b) { return i } self.lits.push(b); self.lits.len() - 1 }
    fn fmt(&mut self, p: (Vec<String>, Vec<String>)) -> usize { if let Some(i) = self.fmts.iter().position(|x| *x == p) { return i } self.fmts.push(p); self.fmts.len() - 1 }
}
struct Tr<'a> {
    reg: &'a mut Reg,
    loops: usize, ifs: usize, matches: usize, tmps: usize,
    uns: Vec<String>, calls: BTreeSet<String>,
    scalar_refs: BTreeSet<String>, // parameters of type &usize, &mut usize, ...
    refs: BTreeSet<String>,        // variables known to hold references
    marks: Vec<String>,
    mutrefs: BTreeSet<String>,     // variables bound to the elements of a mutable iteration
    mutnext: bool,
    ncall: HashMap<String, usize>,
}
fn ty_ident(s: &str) -> Option<&'static str> {
    Some(match s {
        "BTreeMap" | "HashMap" => "VMap", "BTreeSet" | "HashSet" => "VSet", "String" | "str" => "VString", "VecDeque" => "Vec",
        "Regex" => "VRegex", "Path" | "PathBuf" => "VPath", "File" => "VFile", "DFA" => "VDfa", "Config" => "VConfig", "BufWriter" => "VBufWriter", _ => return None,
    })
}
struct TyRw;
impl visit_mut::VisitMut for TyRw {
    fn visit_path_mut(&mut self, p: &mut Path) {
        for s in p.segments.iter_mut() { if let Some(n) = ty_ident(&s.ident.to_string()) { s.ident = Ident::new(n, s.ident.span()); } }
        visit_mut::visit_path_mut(self, p);
        // foreign paths keep their last segment only
        if p.segments.len() > 1 && matches!(p.segments[0].ident.to_string().as_str(), "std" | "crate" | "regex" | "fancy_regex" | "serde_json" | "super" | "io") {
            let l = p.segments.last().unwrap().clone(); p.segments.clear(); p.segments.push(l); p.leading_colon = None;
        }
        if p.segments.len() > 1 && matches!(p.segments[0].ident.to_string().as_str(), "serde_wasm_bindgen") {
            p.segments.clear(); p.segments.push(PathSegment::from(Ident::new("VxForeign", Span::call_site()))); p.leading_colon = None;
        }
    }
}
fn rw_ty(t: &Type) -> Type { let mut t = t.clone(); visit_mut::VisitMut::visit_type_mut(&mut TyRw, &mut t); if let Type::Path(p) = &t { if p.path.is_ident("VDfa") { } } t }
fn norm(t: &impl ToTokens) -> String { t.to_token_stream().to_string().split_whitespace().collect() }
fn is_ref_ty(t: &Type) -> bool { matches!(t, Type::Reference(_)) }
fn scalar_ref(t: &Type) -> bool { if let Type::Reference(r) = t { matches!(norm(&r.elem).as_str(), "usize" | "u8" | "u32" | "u64" | "bool") } else { false } }

enum Src { Items(TokenStream), Range(TokenStream, TokenStream), MutVec(TokenStream), MutVals(TokenStream) }
enum Ad { Map(ExprClosure), Filter(ExprClosure), Cloned, Enumerate, FlatMap(ExprClosure), TakeWhile(ExprClosure) }
struct Chain { src: Src, ads: Vec<Ad>, refs: bool }

impl<'a> Tr<'a> {
    fn un(&mut self, what: &str, t: &impl ToTokens) -> TokenStream { self.uns.push(format!("{}: {}", what, t.to_token_stream().to_string().chars().take(120).collect::<String>())); quote!({ vx_unsupported() }) }
    fn tmp(&mut self, p: &str) -> Ident { self.tmps += 1; format_ident!("vx_{}{}", p, self.tmps) }
    fn mark(&mut self, s: String) -> TokenStream { self.marks.push(s.clone()); quote!(vx_mark!(#s);) }
    fn lit(&mut self, b: &[u8]) -> TokenStream { let f = format_ident!("vx_lit_{}", self.reg.lit(b.to_vec())); quote!(#f()) }

    // ----- patterns: reference patterns become dereferencing bindings -----
    fn pat(&mut self, p: &Pat) -> (TokenStream, Vec<TokenStream>) {
        match p {
            Pat::Reference(r) => {
                if let Pat::Ident(i) = &*r.pat { if i.subpat.is_none() && i.by_ref.is_none() {
                    let t = self.tmp("p"); let n = &i.ident; let m = &i.mutability;
                    self.refs.remove(&n.to_string());
                    return (quote!(#t), vec![quote!(let #m #n = *#t;)]);
                } }
                if let Pat::Wild(_) = &*r.pat { return (quote!(_), vec![]); }
                let t = self.tmp("p");
                let (ip, pre) = self.pat(&r.pat);
                let mut v = vec![quote!(let #ip = *#t;)]; v.extend(pre);
                (quote!(#t), v)
            }
            Pat::Tuple(t) => { let mut a = vec![]; let mut v = vec![]; for e in &t.elems { let (x, y) = self.pat(e); a.push(x); v.extend(y); } if a.len() == 1 { let x = &a[0]; (quote!((#x,)), v) } else { (quote!((#(#a),*)), v) } }
            Pat::TupleStruct(t) => { let mut a = vec![]; let mut v = vec![]; for e in &t.elems { let (x, y) = self.pat(e); a.push(x); v.extend(y); } let p = self.path(&t.path); (quote!(#p(#(#a),*)), v) }
            Pat::Paren(x) => self.pat(&x.pat),
            Pat::Type(t) => { let (x, v) = self.pat(&t.pat); let ty = rw_ty(&t.ty); if is_ref_ty(&ty) { if let Pat::Ident(i) = &*t.pat { self.refs.insert(i.ident.to_string()); } } (quote!(#x: #ty), v) }
            Pat::Ident(i) if i.subpat.is_none() => { let n = &i.ident; let m = &i.mutability; let r = &i.by_ref; (quote!(#r #m #n), vec![]) }
            Pat::Wild(_) => (quote!(_), vec![]),
            Pat::Path(p) => { let p = self.path(&p.path); (quote!(#p), vec![]) }
            Pat::Lit(_) | Pat::Range(_) => (p.to_token_stream(), vec![]),
            Pat::Struct(s) => { let mut a = vec![]; let mut v = vec![]; for f in &s.fields { let (x, y) = self.pat(&f.pat); let m = &f.member; a.push(if f.colon_token.is_some() { quote!(#m: #x) } else { quote!(#x) }); v.extend(y); } let p = self.path(&s.path); let r = if s.rest.is_some() { if a.is_empty() { quote!(..) } else { quote!(, ..) } } else { quote!() }; (quote!(#p { #(#a),* #r }), v) }
            Pat::Or(o) => { let mut a = vec![]; for c in &o.cases { let (x, y) = self.pat(c); if !y.is_empty() { return (self.un("pattern", p), vec![]); } a.push(x); } (quote!(#(#a)|*), vec![]) }
            _ => (self.un("pattern", p), vec![]),
        }
    }
    fn pat_idents(p: &Pat, out: &mut Vec<String>) {
        struct V<'b>(&'b mut Vec<String>);
        impl<'b, 'ast> visit::Visit<'ast> for V<'b> { fn visit_pat_ident(&mut self, i: &'ast PatIdent) { self.0.push(i.ident.to_string()); } }
        visit::Visit::visit_pat(&mut V(out), p);
    }
    fn path(&mut self, p: &Path) -> TokenStream { if p.get_ident().map_or(false, |i| i.to_string().starts_with(|c: char| c.is_lowercase())) { return p.to_token_stream(); } let mut p = p.clone(); visit_mut::VisitMut::visit_path_mut(&mut TyRw, &mut p); p.to_token_stream() }

    // ----- chains -----
    fn chain(&mut self, e: &Expr) -> Option<Chain> {
        match e {
            Expr::Paren(p) => self.chain(&p.expr),
            Expr::Range(r) => {
                let (a, b) = (r.start.as_ref()?, r.end.as_ref()?);
                let (a, b) = (self.expr(a), self.expr(b));
                Some(match r.limits { RangeLimits::HalfOpen(_) => Chain { src: Src::Range(a, b), ads: vec![], refs: false }, RangeLimits::Closed(_) => Chain { src: Src::Items(quote!(vx_range_incl(#a, #b))), ads: vec![], refs: false } })
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let clo = || if let Some(Expr::Closure(c)) = m.args.first() { Some(c.clone()) } else { None };
                match n.as_str() {
                    "iter" if m.args.is_empty() => { let arr = matches!(&*m.receiver, Expr::Array(_)); let x = self.expr(&m.receiver); Some(Chain { src: Src::Items(if arr { quote!(vx_arr_items(#x)) } else { quote!(#x.vx_items()) }), ads: vec![], refs: true }) }
                    "bytes" if m.args.is_empty() => { let x = self.expr(&m.receiver); Some(Chain { src: Src::Items(quote!(#x.vx_bytes())), ads: vec![], refs: false }) }
                    "keys" | "values" if m.args.is_empty() => { let x = self.expr(&m.receiver); let f = format_ident!("vx_{}", n); Some(Chain { src: Src::Items(quote!(#x.#f())), ads: vec![], refs: true }) }
                    "into_iter" if m.args.is_empty() => { if let Some(c) = self.chain(&m.receiver) { return Some(c); } let x = self.expr(&m.receiver); Some(Chain { src: Src::Items(quote!(#x.vx_into_items())), ads: vec![], refs: false }) }
                    "iter_mut" if m.args.is_empty() => { let x = self.expr(&m.receiver); Some(Chain { src: Src::MutVec(x), ads: vec![], refs: true }) }
                    "values_mut" if m.args.is_empty() => { let x = self.expr(&m.receiver); Some(Chain { src: Src::MutVals(x), ads: vec![], refs: true }) }
                    "map" => { let k = match m.args.first() { Some(Expr::Path(p)) => { let l = p.path.segments.last().unwrap().ident.to_string(); if matches!(l.as_str(), "to_string" | "to_owned" | "clone") { let id = Ident::new(&l, Span::call_site()); parse_quote!(|vx_x| vx_x.#id()) } else { let p = &p.path; parse_quote!(|vx_x| #p(vx_x)) } } _ => clo()? }; let mut c = self.chain(&m.receiver)?; c.ads.push(Ad::Map(k)); c.refs = false; Some(c) }
                    "filter" => { let k = clo()?; let mut c = self.chain(&m.receiver)?; c.ads.push(Ad::Filter(k)); Some(c) }
                    "flat_map" => { let k = clo()?; let mut c = self.chain(&m.receiver)?; c.ads.push(Ad::FlatMap(k)); c.refs = false; Some(c) }
                    "take_while" => { let k = clo()?; let mut c = self.chain(&m.receiver)?; c.ads.push(Ad::TakeWhile(k)); Some(c) }
                    "cloned" | "copied" if m.args.is_empty() => { let mut c = self.chain(&m.receiver)?; c.ads.push(Ad::Cloned); c.refs = false; Some(c) }
                    "enumerate" if m.args.is_empty() => { let mut c = self.chain(&m.receiver)?; c.ads.push(Ad::Enumerate); Some(c) }
                    "rev" if m.args.is_empty() => { let c = self.chain(&m.receiver)?; if !c.ads.is_empty() { return None; } match c.src { Src::Items(s) => Some(Chain { src: Src::Items(quote!(vx_rev(#s))), ads: vec![], refs: c.refs }), _ => None } }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn is_chain(e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => Self::is_chain(&p.expr),
            Expr::Range(r) => r.start.is_some() && r.end.is_some(),
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "iter" | "bytes" | "keys" | "values" | "into_iter" | "iter_mut" | "values_mut" => m.args.is_empty(),
                "map" | "filter" | "flat_map" | "take_while" | "cloned" | "copied" | "enumerate" | "rev" => Self::is_chain(&m.receiver),
                _ => false,
            },
            _ => false,
        }
    }
    /// A loop over the chain; `body` gets the element expression and whether it is a reference.
    fn gen_loop(&mut self, c: Chain, body: &mut dyn FnMut(&mut Self, TokenStream, bool) -> TokenStream) -> TokenStream {
        let k = self.loops; self.loops += 1;
        let (i, e) = (format_ident!("vx_i{}", k), format_ident!("vx_e{}", k));
        let inv = self.mark(format!("loop{}.inv", k));
        let start = self.mark(format!("loop{}.start", k));
        let end = self.mark(format!("loop{}.end", k));
        let before = self.mark(format!("loop{}.before", k));
        let after = self.mark(format!("loop{}.after", k));
        let refs = match c.src { Src::MutVec(_) | Src::MutVals(_) => true, _ => true } && !matches!(c.src, Src::Range(..));
        self.mutnext = matches!(c.src, Src::MutVec(_) | Src::MutVals(_));
        let inner = self.gen_ads(k, &c.ads, 0, quote!(#e), c.refs || (refs && !c.ads.is_empty() && c.refs), &i, false, body);
        match c.src {
            Src::Items(s) => { let it = format_ident!("vx_it{}", k); quote! { let #it = #s; let mut #i: usize = 0; #before while #i < #it.len() { #inv let #e = vx_take(&#it, #i); #i = #i + 1; #start #inner #end } #after } }
            Src::Range(a, b) => { let n = format_ident!("vx_n{}", k); quote! { let mut #i = #a; let #n = #b; #before while #i < #n { #inv let #e = #i; #i = #i + 1; #start #inner #end } #after } }
            Src::MutVec(x) => { let n = format_ident!("vx_n{}", k); quote! { let mut #i: usize = 0; let #n: usize = #x.len(); #before while #i < #n { #inv let #e = &mut #x[#i]; #i = #i + 1; #start #inner #end } #after } }
            Src::MutVals(x) => { let it = format_ident!("vx_it{}", k); quote! { let #it = #x.vx_owned_keys(); let mut #i: usize = 0; #before while #i < #it.len() { #inv let #e = #x.vx_get_present(&#it[#i]); #i = #i + 1; #start #inner #end } #after } }
        }
    }
    fn bind(&mut self, p: &Pat, e: TokenStream, refs: bool) -> TokenStream {
        let mut ids = vec![]; Self::pat_idents(p, &mut ids);
        for i in &ids { self.mutrefs.remove(i); }
        if self.mutnext { if let Some(i) = ids.last() { self.mutrefs.insert(i.clone()); } self.mutnext = false; }
        for i in &ids { if refs { self.refs.insert(i.clone()); } else { self.refs.remove(i); } }
        let (q, pre) = self.pat(p);
        quote!(let #q = #e; #(#pre)*)
    }
    fn gen_ads(&mut self, k: usize, ads: &[Ad], j: usize, e: TokenStream, refs: bool, i: &Ident, counted: bool, body: &mut dyn FnMut(&mut Self, TokenStream, bool) -> TokenStream) -> TokenStream {
        if j == ads.len() { return body(self, e, refs); }
        let n = format_ident!("vx_e{}_{}", k, j);
        match &ads[j] {
            Ad::Map(c) => {
                if c.inputs.len() != 1 { return self.un("closure", c); }
                let b = self.bind(&c.inputs[0], e, refs);
                let v = self.expr(&c.body);
                let r = self.gen_ads(k, ads, j + 1, quote!(#n), false, i, counted, body);
                quote!(#b let #n = #v; #r)
            }
            Ad::Filter(c) | Ad::TakeWhile(c) => {
                if c.inputs.len() != 1 { return self.un("closure", c); }
                let b = self.bind(&c.inputs[0], quote!(&#e), true);
                let v = self.expr(&c.body);
                let t = format_ident!("vx_c{}_{}", k, j);
                let r = self.gen_ads(k, ads, j + 1, e, refs, i, true, body);
                if matches!(ads[j], Ad::Filter(_)) { quote!(let #t = { #b #v }; if #t { #r }) } else { quote!(let #t = { #b #v }; if !#t { break; } #r) }
            }
            Ad::Cloned => { let r = self.gen_ads(k, ads, j + 1, quote!(#n), false, i, counted, body); quote!(let #n = (#e).vx_clone(); #r) }
            Ad::Enumerate => {
                if counted { return self.un("enumerate after filter", &quote!()); }
                let r = self.gen_ads(k, ads, j + 1, quote!((#i - 1, #e)), refs, i, counted, body);
                r
            }
            Ad::FlatMap(c) => {
                if c.inputs.len() != 1 { return self.un("closure", c); }
                let b = self.bind(&c.inputs[0], e, refs);
                let fb: &Expr = match &*c.body { Expr::Block(bl) if bl.block.stmts.len() == 1 => match &bl.block.stmts[0] { Stmt::Expr(x, None) => x, _ => &c.body }, x => x };
                let Some(inner) = self.chain(fb) else { return self.un("flat_map", &*c.body) };
                // the rest of the outer chain continues inside the inner loop
                let rest: Vec<&Ad> = ads[j + 1..].iter().collect();
                if !rest.is_empty() { return self.un("adaptor after flat_map", &*c.body); }
                let l = self.gen_loop(inner, body);
                quote!(#b #l)
            }
        }
    }
    fn collect_ty(m: &ExprMethodCall) -> Option<Type> { m.turbofish.as_ref().and_then(|t| t.args.first()).and_then(|a| if let GenericArgument::Type(t) = a { Some(rw_ty(t)) } else { None }) }
    fn sink(&mut self, m: &ExprMethodCall, ty: Option<&Type>) -> Option<TokenStream> {
        let n = m.method.to_string();
        let acc = self.tmp("acc");
        let clo = || if let Some(Expr::Closure(c)) = m.args.first() { if c.inputs.len() == 1 { Some(c.clone()) } else { None } } else { None };
        match n.as_str() {
            "collect" | "collect_vec" => {
                let c = self.chain(&m.receiver)?;
                let t = Self::collect_ty(m).or(ty.cloned());
                let ann = match (&t, n.as_str()) { (Some(t), _) => quote!(: #t), (None, "collect_vec") => quote!(: Vec<_>), _ => quote!() };
                let a2 = acc.clone();
                let l = self.gen_loop(c, &mut |_, e, _| quote!(VxCollect::vx_add(&mut #a2, #e);));
                Some(quote!({ let mut #acc #ann = VxNew::vx_new(); #l #acc }))
            }
            "all" | "any" => {
                let k = clo()?; let c = self.chain(&m.receiver)?;
                let init = n == "all"; let a2 = acc.clone();
                let l = self.gen_loop(c, &mut |s, e, r| { let b = s.bind(&k.inputs[0], e, r); let v = s.expr(&k.body); if init { quote!(#b if !(#v) { #a2 = false; }) } else { quote!(#b if #v { #a2 = true; }) } });
                Some(quote!({ let mut #acc: bool = #init; #l #acc }))
            }
            "find" => {
                let k = clo()?; let c = self.chain(&m.receiver)?; let a2 = acc.clone();
                let l = self.gen_loop(c, &mut |s, e, _| { let b = s.bind(&k.inputs[0], quote!(&#e), true); let v = s.expr(&k.body); quote!(let vx_t = { #b #v }; if vx_t { #a2 = Some(#e); break; }) });
                Some(quote!({ let mut #acc = None; #l #acc }))
            }
            "position" => {
                let k = clo()?; let c = self.chain(&m.receiver)?; let a2 = acc.clone();
                if !c.ads.is_empty() { return None; }
                let i = format_ident!("vx_i{}", self.loops);
                let l = self.gen_loop(c, &mut |s, e, r| { let b = s.bind(&k.inputs[0], e, r); let v = s.expr(&k.body); quote!(#b if #v { #a2 = Some(#i - 1); break; }) });
                Some(quote!({ let mut #acc: Option<usize> = None; #l #acc }))
            }
            "max" | "min" if m.args.is_empty() => { let c = self.chain(&m.receiver)?; let a2 = acc.clone(); let f = format_ident!("vx_{}_opt", n); let l = self.gen_loop(c, &mut |_, e, _| quote!(#a2 = #f(#a2, #e);)); Some(quote!({ let mut #acc = None; #l #acc })) }
            "count" if m.args.is_empty() => { let c = self.chain(&m.receiver)?; let a2 = acc.clone(); let l = self.gen_loop(c, &mut |_, _, _| quote!(#a2 = #a2 + 1;)); Some(quote!({ let mut #acc: usize = 0; #l #acc })) }
            "next" if m.args.is_empty() => { let c = self.chain(&m.receiver)?; let a2 = acc.clone(); let l = self.gen_loop(c, &mut |_, e, _| quote!(#a2 = Some(#e); break;)); Some(quote!({ let mut #acc = None; #l #acc })) }
            "for_each" => { let k = clo()?; let c = self.chain(&m.receiver)?; let l = self.gen_loop(c, &mut |s, e, r| { let b = s.bind(&k.inputs[0], e, r); let v = s.expr(&k.body); quote!(#b #v;) }); Some(quote!({ #l })) }
            _ => None,
        }
    }
    fn block(&mut self, b: &Block) -> TokenStream {
        let saved = self.refs.clone();
        let mut v = vec![];
        for s in &b.stmts { v.push(self.stmt(s)); }
        self.refs = saved;
        quote!(#(#v)*)
    }
    /// marks around a statement that contains calls
    fn around(&mut self, before_calls: usize, names: Vec<String>, t: TokenStream) -> TokenStream {
        let _ = before_calls;
        let (mut pre, mut post) = (vec![], vec![]);
        for n in names { let k = self.ncall.entry(n.clone()).or_insert(0); let kk = *k; *k += 1; pre.push(self.mark(format!("call.{}.{}.before", n, kk))); post.push(self.mark(format!("call.{}.{}.after", n, kk))); }
        quote!(#(#pre)* #t #(#post)*)
    }
    fn names(e: &Expr) -> Vec<String> {
        struct V(Vec<String>);
        impl<'ast> visit::Visit<'ast> for V {
            fn visit_expr_call(&mut self, c: &'ast ExprCall) { visit::visit_expr_call(self, c); if let Expr::Path(p) = &*c.func { self.0.push(p.path.segments.last().unwrap().ident.to_string()); } }
            fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) { visit::visit_expr_method_call(self, c); self.0.push(c.method.to_string()); }
            fn visit_expr_block(&mut self, _: &'ast ExprBlock) {}
            fn visit_expr_if(&mut self, i: &'ast ExprIf) { self.visit_expr(&i.cond); }
            fn visit_expr_match(&mut self, i: &'ast ExprMatch) { self.visit_expr(&i.expr); }
            fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) {}
            fn visit_expr_while(&mut self, _: &'ast ExprWhile) {}
            fn visit_expr_loop(&mut self, _: &'ast ExprLoop) {}
            fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
        }
        let mut v = V(vec![]); visit::Visit::visit_expr(&mut v, e);
        let mut o: Vec<String> = vec![]; for n in v.0 { if !o.contains(&n) && !matches!(n.as_str(), "Ok" | "Err" | "Some" | "iter" | "collect" | "map" | "to_string" | "unwrap" | "as_str" | "clone" | "len") { o.push(n); } } o
    }
    fn stmt(&mut self, s: &Stmt) -> TokenStream {
        match s {
            Stmt::Local(l) => {
                if l.attrs.iter().any(|a| a.path().is_ident("cfg")) { return self.un("cfg", l); }
                let Some(init) = &l.init else { let (p, _) = self.pat(&l.pat); return quote!(let #p;) };
                let ty = if let Pat::Type(t) = &l.pat { Some(rw_ty(&t.ty)) } else { None };
                let names = Self::names(&init.expr);
                let e = self.expr_t(&init.expr, ty.as_ref());
                let mut ids = vec![]; Self::pat_idents(&l.pat, &mut ids);
                let isref = matches!(&*init.expr, Expr::Reference(_));
                for i in &ids { if isref { self.refs.insert(i.clone()); } else { self.refs.remove(i); } }
                let (p, pre) = self.pat(&l.pat);
                let t = if let Some((_, d)) = &init.diverge { let d = self.expr(d); quote!(let #p = #e else #d; #(#pre)*) } else { quote!(let #p = #e; #(#pre)*) };
                self.around(0, names, t)
            }
            Stmt::Expr(e, semi) => {
                let names = if semi.is_some() { Self::names(e) } else { vec![] };
                let k = self.ifs;
                let t = self.expr(e);
                let t = if matches!(e, Expr::If(ExprIf { else_branch: None, .. })) { let (x, y) = (self.mark(format!("if{}.before", k)), self.mark(format!("if{}.after", k))); quote!(#x #t #y) } else { t };
                let flow = matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_));
                let t = if semi.is_some() { if flow || matches!(e, Expr::If(ExprIf { else_branch: None, .. })) { t } else { quote!(#t;) } } else { t };
                self.around(0, names, t)
            }
            Stmt::Macro(m) => { let t = self.mac(&m.mac); if m.semi_token.is_some() { quote!(#t;) } else { t } }
            Stmt::Item(Item::Use(_)) => quote!(),
            Stmt::Item(i) => self.un("item", i),
        }
    }
    fn args_of(&mut self, tokens: TokenStream) -> Option<Vec<Expr>> {
        let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        parse::Parser::parse2(p, tokens).ok().map(|x| x.into_iter().collect())
    }
    /// format arguments: returns the call of the format function
    fn fmt(&mut self, args: &[Expr], suffix: &str) -> Option<TokenStream> {
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = args.first() else { return None };
        let f = s.value() + suffix;
        let mut pieces = vec![String::new()]; let mut kinds = vec![]; let mut vals: Vec<TokenStream> = vec![];
        let mut named: HashMap<String, Expr> = HashMap::new(); let mut pos: Vec<Expr> = vec![];
        for a in &args[1..] { if let Expr::Assign(x) = a { named.insert(norm(&x.left), (*x.right).clone()); } else { pos.push(a.clone()); } }
        let cs: Vec<char> = f.chars().collect(); let mut i = 0; let mut next = 0;
        while i < cs.len() {
            if cs[i] == '{' && cs.get(i + 1) == Some(&'{') { pieces.last_mut().unwrap().push('{'); i += 2; continue; }
            if cs[i] == '}' && cs.get(i + 1) == Some(&'}') { pieces.last_mut().unwrap().push('}'); i += 2; continue; }
            if cs[i] == '{' {
                let mut j = i + 1; while j < cs.len() && cs[j] != '}' { j += 1; }
                let spec: String = cs[i + 1..j].iter().collect();
                let (name, kind) = match spec.split_once(':') { Some((a, b)) => (a.to_string(), b.to_string()), None => (spec, String::new()) };
                if !(kind.is_empty() || kind == "?") { return None; }
                let e: Expr = if name.is_empty() { let e = pos.get(next)?.clone(); next += 1; e } else if let Ok(n) = name.parse::<usize>() { pos.get(n)?.clone() } else if let Some(e) = named.get(&name) { e.clone() } else { parse_str(&name).ok()? };
                let v = self.fmt_arg(&e);
                vals.push(v); kinds.push(kind); pieces.push(String::new()); i = j + 1; continue;
            }
            pieces.last_mut().unwrap().push(cs[i]); i += 1;
        }
        if kinds.is_empty() { let l = self.lit(pieces[0].as_bytes()); return Some(quote!(#l.vx_clone())); }
        let id = format_ident!("vx_fmt_{}", self.reg.fmt((pieces, kinds)));
        Some(quote!(#id(#(#vals),*)))
    }
    fn fmt_arg(&mut self, e: &Expr) -> TokenStream {
        if let Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { if self.scalar_refs.contains(&i.to_string()) { return quote!(&*#i); } } }
        let v = self.expr(e);
        if matches!(e, Expr::Binary(_) | Expr::Unary(_) | Expr::If(_) | Expr::Cast(_) | Expr::Match(_)) { quote!(&(#v)) } else { quote!(&#v) }
    }
    fn mac(&mut self, m: &Macro) -> TokenStream {
        let n = m.path.segments.last().unwrap().ident.to_string();
        match n.as_str() {
            "format" => { if let Some(a) = self.args_of(m.tokens.clone()) { if let Some(t) = self.fmt(&a, "") { return t; } } self.un("format", m) }
            "vec" => {
                if m.tokens.is_empty() { return quote!(Vec::new()); }
                if let Ok(r) = parse2::<ExprRepeat>({ let t = &m.tokens; quote!([#t]) }) { let (a, b) = (self.expr(&r.expr), self.expr(&r.len)); return quote!(vx_vec_repeat(#a, #b)); }
                if let Some(a) = self.args_of(m.tokens.clone()) { let v = self.tmp("v"); let a: Vec<_> = a.iter().map(|x| self.expr(x)).collect(); return quote!({ let mut #v = Vec::new(); #(#v.push(#a);)* #v }); }
                self.un("vec", m)
            }
            "writeln" | "write" => {
                if let Some(a) = self.args_of(m.tokens.clone()) { if a.len() >= 2 { let w = self.expr(&a[0]); if let Some(t) = self.fmt(&a[1..], if n == "writeln" { "\n" } else { "" }) { return quote!(#w.vx_write(#t)); } } }
                self.un("write", m)
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => quote!(vx_panic()),
            "assert" | "debug_assert" => { if let Some(a) = self.args_of(m.tokens.clone()) { let c = self.expr(&a[0]); return quote!(if !(#c) { vx_panic() }); } self.un("assert", m) }
            "assert_eq" | "debug_assert_eq" => { if let Some(a) = self.args_of(m.tokens.clone()) { if a.len() >= 2 { let (x, y) = (self.expr(&a[0]), self.expr(&a[1])); return quote!(if !(#x == #y) { vx_panic() }); } } self.un("assert", m) }
            "println" | "eprintln" | "print" | "eprint" | "dbg" => quote!(()),
            "include_str" => { let t = m.tokens.to_string(); quote!(vx_include_str(#t)) }
            "matches" => {
                let t: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
                if let Some(k) = t.iter().position(|x| matches!(x, TokenTree::Punct(p) if p.as_char() == ',')) {
                    let e: TokenStream = t[..k].iter().cloned().collect();
                    let mut r = t[k + 1..].to_vec();
                    if matches!(r.last(), Some(TokenTree::Punct(p)) if p.as_char() == ',') { r.pop(); }
                    let r: TokenStream = r.into_iter().collect();
                    if let Ok(x) = parse2::<Expr>(quote!(match #e { #r => true, _ => false })) { return self.expr(&x); }
                }
                self.un("macro", m)
            }
            _ => self.un("macro", m),
        }
    }
    fn is_ref_ident(&self, e: &Expr) -> bool { if let Expr::Path(p) = e { p.path.get_ident().map_or(false, |i| self.refs.contains(&i.to_string())) } else { false } }
    fn is_mutref(&self, e: &Expr) -> bool { if let Expr::Path(p) = e { p.path.get_ident().map_or(false, |i| self.mutrefs.contains(&i.to_string())) } else { false } }
    fn str_lit(e: &Expr) -> Option<Vec<u8>> { match e { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value().into_bytes()), Expr::Reference(r) => Self::str_lit(&r.expr), Expr::Paren(p) => Self::str_lit(&p.expr), Expr::Lit(ExprLit { lit: Lit::ByteStr(s), .. }) => Some(s.value()), _ => None } }
    fn cond(&mut self, e: &Expr, pres: &mut Vec<TokenStream>) -> TokenStream {
        match e {
            Expr::Let(l) => { let x = self.expr(&l.expr); let (p, pre) = self.pat(&l.pat); pres.extend(pre); quote!(let #p = #x) }
            Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => { let l = self.cond(&b.left, pres); let r = self.cond(&b.right, pres); quote!(#l && #r) }
            _ => self.expr(e),
        }
    }
    fn opt_match(&mut self, recv: &Expr, f: impl FnOnce(&mut Self, TokenStream) -> TokenStream) -> TokenStream { let r = self.expr(recv); f(self, r) }
    fn expr(&mut self, e: &Expr) -> TokenStream { self.expr_t(e, None) }
    fn expr_t(&mut self, e: &Expr, ty: Option<&Type>) -> TokenStream {
        match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Str(s) => self.lit(s.value().as_bytes()),
                Lit::ByteStr(s) => { let t = self.lit(&s.value()); quote!(#t.as_bytes()) }
                Lit::Byte(b) => { let v = Literal::u8_suffixed(b.value()); quote!(#v) }
                _ => l.to_token_stream(),
            },
            Expr::Path(p) => { if p.qself.is_some() { return self.un("path", p); } self.path(&p.path) }
            Expr::Paren(p) => { let x = self.expr_t(&p.expr, ty); quote!((#x)) }
            Expr::Group(p) => self.expr_t(&p.expr, ty),
            Expr::Macro(m) => self.mac(&m.mac),
            Expr::Tuple(t) => { let a: Vec<_> = t.elems.iter().map(|x| self.expr(x)).collect(); if a.len() == 1 { let x = &a[0]; quote!((#x,)) } else { quote!((#(#a),*)) } }
            Expr::Array(t) => { let a: Vec<_> = t.elems.iter().map(|x| self.expr(x)).collect(); quote!([#(#a),*]) }
            Expr::Field(f) => { let b = self.expr(&f.base); let m = &f.member; quote!(#b.#m) }
            Expr::Unary(u) => { let x = self.expr(&u.expr); let o = &u.op; quote!(#o #x) }
            Expr::Cast(c) => { let x = self.expr(&c.expr); let t = rw_ty(&c.ty); quote!((#x as #t)) }
            Expr::Reference(r) => { if let Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) = &*r.expr { return self.expr(&r.expr); } let x = self.expr(&r.expr); if x.to_string().starts_with("vx_slice_") { return x; } let m = &r.mutability; quote!(&#m #x) }
            Expr::Return(r) => { match &r.expr { Some(x) => { let x = self.expr(x); let k = self.mark("return".into()); quote!({ #k return #x }) } None => quote!(return) } }
            Expr::Break(b) if b.label.is_none() && b.expr.is_none() => quote!(break),
            Expr::Continue(c) if c.label.is_none() => quote!(continue),
            Expr::Block(b) if b.label.is_none() => { let x = self.block(&b.block); quote!({ #x }) }
            Expr::Assign(a) => { let (l, r) = (self.expr(&a.left), self.expr(&a.right)); quote!(#l = #r) }
            Expr::Index(i) => {
                let b = self.expr(&i.expr);
                if let Expr::Range(r) = &*i.index {
                    let s = r.start.as_ref().map(|x| self.expr(x)); let n = r.end.as_ref().map(|x| self.expr(x));
                    return match (s, n, r.limits) { (Some(s), Some(n), RangeLimits::HalfOpen(_)) => quote!(vx_slice_range(&#b, #s, #n)), (Some(s), None, _) => quote!(vx_slice_from(&#b, #s)), (None, Some(n), RangeLimits::HalfOpen(_)) => quote!(vx_slice_range(&#b, 0, #n)), _ => self.un("slice", i) };
                }
                let x = self.expr(&i.index); quote!(#b[#x])
            }
            Expr::Struct(s) => {
                let p = self.path(&s.path);
                let f: Vec<_> = s.fields.iter().map(|f| { let m = &f.member; let v = self.expr(&f.expr); quote!(#m: #v) }).collect();
                match &s.rest { Some(r) => { let r = self.expr(r); quote!(#p { #(#f,)* ..#r }) } None => quote!(#p { #(#f),* }) }
            }
            Expr::If(i) => {
                let k = self.ifs; self.ifs += 1;
                let saved = self.refs.clone();
                let mut pres = vec![];
                let c = self.cond(&i.cond, &mut pres);
                let (a, b) = (self.mark(format!("if{}.then.start", k)), self.mark(format!("if{}.then.end", k)));
                let tail_then = Self::tail_unit(&i.then_branch);
                let t = self.block(&i.then_branch);
                self.refs = saved;
                let b = if tail_then { b } else { quote!() };
                match &i.else_branch {
                    Some((_, e)) => match &**e {
                        Expr::Block(eb) => { let (x, y) = (self.mark(format!("if{}.else.start", k)), self.mark(format!("if{}.else.end", k))); let y = if Self::tail_unit(&eb.block) { y } else { quote!() }; let f = self.block(&eb.block); quote!(if #c { #a #(#pres)* #t #b } else { #x #f #y }) }
                        x => { let f = self.expr(x); quote!(if #c { #a #(#pres)* #t #b } else #f) }
                    },
                    None => quote!(if #c { #a #(#pres)* #t #b }),
                }
            }
            Expr::Match(m) => self.match_(m),
            Expr::ForLoop(f) => {
                if f.label.is_some() { return self.un("label", f); }
                let saved = self.refs.clone();
                let c = match &*f.expr {
                    Expr::Reference(r) if r.mutability.is_some() => { let x = self.expr(&r.expr); Chain { src: Src::MutVec(x), ads: vec![], refs: true } }
                    Expr::Reference(r) => { let x = self.expr(&r.expr); let src = if let Expr::Index(_) = &*r.expr { quote!((#x).vx_items()) } else { quote!(#x.vx_items()) }; Chain { src: Src::Items(src), ads: vec![], refs: true } }
                    x => match self.chain(x) { Some(c) => c, None => { let r = self.is_ref_ident(x) || matches!(x, Expr::MethodCall(m) if m.method == "unwrap_or"); let y = self.expr(x); Chain { src: Src::Items(quote!(#y.vx_into_items())), ads: vec![], refs: r } } },
                };
                let l = self.gen_loop(c, &mut |s, e, r| { let b = s.bind(&f.pat, e, r); let x = s.block(&f.body); quote!(#b #x) });
                self.refs = saved;
                quote!(#l)
            }
            Expr::While(w) => {
                if w.label.is_some() { return self.un("label", w); }
                let k = self.loops; self.loops += 1;
                let saved = self.refs.clone();
                let ms: Vec<_> = ["inv", "start", "end", "before", "after"].iter().map(|x| self.mark(format!("loop{}.{}", k, x))).collect();
                let (inv, start, end, before, after) = (&ms[0], &ms[1], &ms[2], &ms[3], &ms[4]);
                let mut pres = vec![];
                let islet = norm(&w.cond).starts_with("let");
                let c = self.cond(&w.cond, &mut pres);
                let b = self.block(&w.body);
                self.refs = saved;
                if islet { quote!(#before loop { #inv if #c { #start #(#pres)* #b #end } else { break; } } #after) } else { quote!(#before while #c { #inv #start #b #end } #after) }
            }
            Expr::Loop(w) => {
                if w.label.is_some() { return self.un("label", w); }
                let k = self.loops; self.loops += 1;
                let ms: Vec<_> = ["inv", "start", "end", "before", "after"].iter().map(|x| self.mark(format!("loop{}.{}", k, x))).collect();
                let (inv, start, end, before, after) = (&ms[0], &ms[1], &ms[2], &ms[3], &ms[4]);
                let b = self.block(&w.body);
                quote!(#before loop { #inv #start #b #end } #after)
            }
            Expr::Binary(b) => self.binary(b),
            Expr::Try(t) => { let x = self.expr(&t.expr); quote!(match #x { Ok(vx_v) => vx_v, Err(vx_e) => return Err(vx_err_from(vx_e)) }) }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    let full = norm(&p.path);
                    if last.chars().next().unwrap().is_lowercase() {
                        if full == "serde_json::to_string" { let a = self.expr(&c.args[0]); return quote!(vx_json_string(#a)); }
                        if full == "serde_json::from_str" || full == "serde_json::from_reader" { let a = self.expr(&c.args[0]); return quote!(vx_json_parse(#a)); }
                        if full == "std::fs::write" || full == "fs::write" { let (a, b) = (self.expr(&c.args[0]), self.expr(&c.args[1])); return quote!(vx_fs_write(#a, #b)); }
                        let low = |s: String| s.starts_with(|c: char| c.is_lowercase());
                        // a path of module names
                        let modules = p.path.segments.len() > 1 && p.path.segments.iter().all(|s| low(s.ident.to_string()))
                            && !matches!(p.path.segments[0].ident.to_string().as_str(), "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize" | "char" | "str" | "bool" | "std" | "core" | "alloc");
                        if p.path.segments.len() == 1 || modules || full.starts_with("crate::") || full.starts_with("self::") || full.starts_with("super::") { self.calls.insert(last.clone()); let a: Vec<_> = c.args.iter().map(|x| self.expr(x)).collect(); let f = Ident::new(&last, Span::call_site()); return quote!(#f(#(#a),*)); }
                        if full == "String::from" { let a = self.expr(&c.args[0]); return quote!(#a.vx_clone()); }
                        if full == "VecDeque::from" { let a: Vec<_> = c.args.iter().map(|x| self.expr(x)).collect(); return quote!(vx_vec_from(#(#a),*)); }
                        if full == "u8::from_str_radix" { let a: Vec<_> = c.args.iter().map(|x| self.expr(x)).collect(); return quote!(vx_u8_from_str_radix(#(#a),*)); }
                    }
                }
                let f = self.expr(&c.func); let a: Vec<_> = c.args.iter().map(|x| self.expr(x)).collect(); quote!(#f(#(#a),*))
            }
            Expr::MethodCall(m) => self.method(m, ty),
            Expr::Let(_) => self.un("let", e),
            _ => self.un("expression", e),
        }
    }
    fn tail_unit(b: &Block) -> bool { match b.stmts.last() { None => true, Some(Stmt::Expr(e, None)) => matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Assign(_)) , Some(Stmt::Expr(Expr::Return(_) | Expr::Break(_) | Expr::Continue(_), Some(_))) => false, Some(_) => true } }
    fn binary(&mut self, b: &ExprBinary) -> TokenStream {
        let ne = matches!(b.op, BinOp::Ne(_));
        if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) {
            for (x, y) in [(&b.left, &b.right), (&b.right, &b.left)] {
                if let Some(l) = Self::str_lit(y) { let a = self.expr(x); let l = self.lit(&l); let t = quote!(#a.vx_eq_str(#l)); return if ne { quote!(!#t) } else { t }; }
                if let Expr::Call(c) = &**y { if norm(&c.func) == "Some" { if let Expr::Reference(r) = &c.args[0] { let a = self.expr(x); let v = self.expr(&r.expr); let t = quote!(vx_is_some_eq(#a, #v)); return if ne { quote!(!#t) } else { t }; } let a = self.expr(x); let v = self.expr(&c.args[0]); let t = quote!(vx_is_some_val(#a, #v)); return if ne { quote!(!#t) } else { t }; } }
            }
        }
        let (mut l, mut r) = (self.expr(&b.left), self.expr(&b.right));
        let cmp = matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_));
        if cmp && self.is_ref_ident(&b.left) && self.is_ref_ident(&b.right) { l = quote!(*#l); r = quote!(*#r); }
        let strish = |e: &Expr| matches!(e, Expr::Reference(_)) || Self::str_lit(e).is_some();
        if let BinOp::AddAssign(_) = b.op { if strish(&b.right) { return quote!(#l.vx_push_str(#r)); } }
        if let BinOp::Add(_) = b.op { if strish(&b.right) { return quote!(vx_concat(#l, #r)); } }
        let o = &b.op; quote!(#l #o #r)
    }
    fn match_(&mut self, m: &ExprMatch) -> TokenStream {
        let k = self.matches; self.matches += 1;
        fn scalar(p: &Pat) -> bool { match p { Pat::Lit(_) | Pat::Range(_) => true, Pat::Or(o) => o.cases.iter().any(scalar), Pat::Paren(p) => scalar(&p.pat), _ => false } }
        if m.arms.iter().any(|a| scalar(&a.pat)) {
            let v = format_ident!("vx_m{}", k);
            let x = self.expr(&m.expr);
            let mut out = quote!({ vx_unreachable() });
            let mut arms = vec![];
            for (j, a) in m.arms.iter().enumerate() {
                let mut test = |s: &mut Self, p: &Pat| -> Option<TokenStream> { Some(match p {
                    Pat::Lit(l) => { let l = s.expr(&Expr::Lit(l.clone())); if l.to_string().starts_with("vx_lit_") { quote!(#v.vx_eq_str(#l)) } else { quote!(#v == #l) } }
                    Pat::Range(r) => { let a = r.start.as_ref().map(|x| s.expr(x)); let b = r.end.as_ref().map(|x| s.expr(x)); match (a, b, &r.limits) { (Some(a), Some(b), RangeLimits::Closed(_)) => quote!((#a <= #v && #v <= #b)), (Some(a), None, _) => quote!(#a <= #v), _ => return None } }
                    Pat::Wild(_) => quote!(true), Pat::Ident(i) if i.subpat.is_none() => { let _ = i; quote!(true) }
                    _ => return None }) };
                let mut c = match &a.pat { Pat::Or(o) => { let mut t = vec![]; for p in &o.cases { match test(self, p) { Some(x) => t.push(x), None => return self.un("pattern", p) } } quote!((#(#t)||*)) } p => match test(self, p) { Some(x) => x, None => return self.un("pattern", p) } };
                let bindv = if let Pat::Ident(i) = &a.pat { let i = &i.ident; quote!(let #i = #v;) } else { quote!() };
                if let Some((_, g)) = &a.guard { if !bindv.is_empty() { return self.un("guard", g); } let g = self.expr(g); c = quote!(#c && (#g)); }
                let (s, e) = (self.mark(format!("match{}.arm{}.start", k, j)), self.mark(format!("match{}.arm{}.end", k, j)));
                let (body, unit) = match &*a.body { Expr::Block(b) => (self.block(&b.block), Self::tail_unit(&b.block)), x => (self.expr(x), false) };
                let e = if unit { e } else { quote!() };
                arms.push((c, quote!({ #s #bindv #body #e })));
            }
            for (c, b) in arms.into_iter().rev() { out = if c.to_string() == "true" { b } else if out.to_string().contains("vx_unreachable") && out.to_string().len() < 30 { quote!(if #c #b else #out) } else { let o = out; if o.to_string().starts_with("if ") { quote!(if #c #b else #o) } else { quote!(if #c #b else #o) } }; }
            return quote!({ let #v = #x; #out });
        }
        let x = self.expr(&m.expr);
        let mut arms = vec![];
        for (j, a) in m.arms.iter().enumerate() {
            let saved = self.refs.clone();
            let (p, pre) = self.pat(&a.pat);
            let g = match &a.guard { Some((_, g)) => { if !pre.is_empty() { return self.un("guard", g); } let g = self.expr(g); quote!(if #g) } None => quote!() };
            let (s, e) = (self.mark(format!("match{}.arm{}.start", k, j)), self.mark(format!("match{}.arm{}.end", k, j)));
            let (body, unit) = match &*a.body { Expr::Block(b) => (self.block(&b.block), Self::tail_unit(&b.block)), x => (self.expr(x), false) };
            let e = if unit { e } else { quote!() };
            arms.push(quote!(#p #g => { #s #(#pre)* #body #e }));
            self.refs = saved;
        }
        quote!(match #x { #(#arms)* })
    }
    fn closure1(&mut self, e: Option<&Expr>) -> Option<ExprClosure> { if let Some(Expr::Closure(c)) = e { if c.inputs.len() <= 1 { return Some(c.clone()); } } None }
    fn method(&mut self, m: &ExprMethodCall, ty: Option<&Type>) -> TokenStream {
        let n = m.method.to_string();
        if Self::is_chain(&m.receiver) { if let Some(t) = self.sink(m, ty) { return t; } }
        // Option and Result combinators with closures
        match n.as_str() {
            "map_err" | "ok_or_else" | "ok_or" | "unwrap_or_else" | "and_then" | "map" | "unwrap_or" | "map_or" if !Self::is_chain(&m.receiver) => {
                let r = self.expr(&m.receiver);
                let v = self.tmp("o");
                match n.as_str() {
                    "ok_or" => { let e = self.expr(&m.args[0]); return quote!(match #r { Some(#v) => Ok(#v), None => Err(#e) }); }
                    "unwrap_or" => {
                        if let Expr::Reference(x) = &m.args[0] { let e = self.expr(&x.expr); return quote!(vx_opt_or_ref(#r, #e)); }
                        let e = self.expr(&m.args[0]); let e = if self.is_mutref(&m.args[0]) { quote!(&*#e) } else { e }; return quote!(vx_unwrap_or(#r, #e));
                    }
                    "ok_or_else" => if let Some(c) = self.closure1(m.args.first()) { let e = self.expr(&c.body); return quote!(match #r { Some(#v) => Ok(#v), None => Err(#e) }); },
                    "map_err" => {
                        if let Some(c) = self.closure1(m.args.first()) { if c.inputs.len() == 1 { let b = self.bind(&c.inputs[0], quote!(#v), false); let e = self.expr(&c.body); return quote!(match #r { Ok(vx_ok) => Ok(vx_ok), Err(#v) => { #b Err(#e) } }); } }
                        if let Expr::Path(p) = &m.args[0] { let f = self.path(&p.path); return quote!(match #r { Ok(vx_ok) => Ok(vx_ok), Err(#v) => Err(#f(#v)) }); }
                    }
                    "and_then" => if let Some(c) = self.closure1(m.args.first()) { if c.inputs.len() == 1 { let b = self.bind(&c.inputs[0], quote!(#v), false); let e = self.expr(&c.body); return quote!(match #r { Some(#v) => { #b #e } None => None }); } },
                    "map" => if let Some(c) = self.closure1(m.args.first()) { if c.inputs.len() == 1 { let b = self.bind(&c.inputs[0], quote!(#v), false); let e = self.expr(&c.body); return quote!(match #r { Some(#v) => { #b Some(#e) } None => None }); } },
                    _ => {}
                }
                return self.un("closure", m);
            }
            "or_insert_with" | "or_insert" | "or_default" => if let Expr::MethodCall(en) = &*m.receiver { if en.method == "entry" {
                let x = self.expr(&en.receiver); let k = self.expr(&en.args[0]);
                let d = match m.args.first() { Some(Expr::Closure(c)) => self.expr(&c.body), Some(Expr::Path(p)) => { let p = self.path(&p.path); quote!(#p()) } Some(e) => self.expr(e), None => quote!(Default::default()) };
                return quote!(#x.vx_entry_or(#k, #d));
            } },
            "retain" => if let Some(c) = self.closure1(m.args.first()) {
                let x = self.expr(&m.receiver);
                let xs = self.tmp("x");
                let ch = Chain { src: Src::Items(quote!(#xs.vx_drain_all())), ads: vec![], refs: false };
                let l = self.gen_loop(ch, &mut |s, e, _| { let b = s.bind(&c.inputs[0], quote!(&#e), true); let v = s.expr(&c.body); quote!(let vx_t = { #b #v }; if vx_t { VxCollect::vx_add(#xs, #e); }) });
                // the receiver is a place or a mutable reference
                let pl = if self.is_ref_ident(&m.receiver) { quote!(#x) } else { quote!(&mut #x) };
                return quote!({ let #xs = #pl; #l });
            },
            "extend" => {
                let x = self.expr(&m.receiver);
                let arg = &m.args[0];
                let c = match self.chain(arg) { Some(c) => c, None => match arg {
                    Expr::Array(a) => { let a: Vec<_> = a.elems.iter().map(|y| self.expr(y)).collect(); return quote!({ #(VxCollect::vx_add(&mut #x, #a);)* }); }
                    Expr::Reference(r) => { let y = self.expr(&r.expr); Chain { src: Src::Items(quote!(#y.vx_items())), ads: vec![Ad::Cloned], refs: true } }
                    y => { let y = self.expr(y); Chain { src: Src::Items(quote!(#y.vx_into_items())), ads: vec![], refs: false } } } };
                // queue.extend(.. references ..) copies
                let cl = c.refs;
                let direct = norm(&m.receiver);
                let mutref = !direct.contains('.') && !direct.contains('(') && self.refs.contains(&direct);
                let is_call = matches!(&*m.receiver, Expr::MethodCall(_));
                let xs = self.tmp("x");
                if is_call { let l = self.gen_loop(c, &mut |_, e, _| if cl { quote!(VxCollect::vx_add(#xs, (#e).vx_clone());) } else { quote!(VxCollect::vx_add(#xs, #e);) }); return quote!({ let #xs = #x; #l }); }
                let l = self.gen_loop(c, &mut |_, e, _| { let e = if cl { quote!((#e).vx_clone()) } else { e }; if mutref { quote!(VxCollect::vx_add(#x, #e);) } else { quote!(VxCollect::vx_add(&mut #x, #e);) } });
                return quote!({ #l });
            }
            "sort_by" | "sort_by_key" | "sort_unstable_by_key" | "sort_unstable_by" => {
                let x = self.expr(&m.receiver);
                let body = if let Some(Expr::Closure(c)) = m.args.first() { let mut names = vec![]; for p in &c.inputs { Self::pat_idents(p, &mut names); } let mut t = norm(c); for (i, nm) in names.iter().enumerate() { t = replace_ident(&t, nm, &format!("${}", i)); } t } else { String::new() };
                let key = match (n.as_str(), body.as_str()) {
                    ("sort_by", "|$0,$1|$0.0.cmp(&$1.0).then($0.1.cmp(&$1.1))") | ("sort_by_key" | "sort_unstable_by_key", "|&($0,$1)|(*$0,*$1)") | ("sort_by", "|$0,$1|$0.cmp($1)") => "vx_sort_pairs",
                    _ => "vx_sort_unknown",
                };
                let f = Ident::new(key, Span::call_site());
                return quote!(#x.#f());
            }
            "concat" if m.args.is_empty() => if let Expr::Array(a) = &*m.receiver { let v = self.tmp("v"); let a: Vec<_> = a.elems.iter().map(|y| self.expr(y)).collect(); return quote!({ let mut #v = Vec::new(); #(#v.vx_append_vec(#a);)* #v }); },
            "collect" if matches!(&*m.receiver, Expr::MethodCall(r) if r.method == "split" && r.args.len() == 1) => if let Expr::MethodCall(r) = &*m.receiver { let (x, a) = (self.expr(&r.receiver), self.expr(&r.args[0])); return quote!(#x.vx_split(#a)); },
            "nth" if matches!(&*m.receiver, Expr::MethodCall(r) if r.method == "chars") => if let Expr::MethodCall(r) = &*m.receiver { let (x, a) = (self.expr(&r.receiver), self.expr(&m.args[0])); return quote!(#x.vx_nth_char(#a)); },
            "parse" if m.turbofish.as_ref().map(|t| norm(t)) == Some("::<usize>".into()) => { let r = self.expr(&m.receiver); return quote!(#r.vx_parse_usize()); }
            "expect" => { let r = self.expr(&m.receiver); return quote!(#r.unwrap()); }
            "to_string" | "to_owned" if m.args.is_empty() => {
                if let Some(l) = Self::str_lit(&m.receiver) { let l = self.lit(&l); return quote!(#l.vx_clone()); }
                let r = self.expr(&m.receiver); return quote!(#r.vx_to_string());
            }
            "clone" | "cloned" | "copied" if m.args.is_empty() => { let r = self.expr(&m.receiver); return if n == "clone" { quote!(#r.vx_clone()) } else { quote!(vx_opt_cloned(#r)) }; }
            "to_vec" if m.args.is_empty() => { let r = self.expr(&m.receiver); return quote!(#r.vx_to_vec()); }
            _ => {}
        }
        if m.args.iter().any(|a| matches!(a, Expr::Closure(_))) { return self.un("closure", m); }
        if Self::is_chain(&m.receiver) && !matches!(n.as_str(), "iter" | "keys" | "values") { return self.un("chain", m); }
        let rn = match n.as_str() {
            "sort" | "sort_unstable" => "vx_sort", "join" => "vx_join", "contains" => "vx_contains", "get" => "vx_get", "first" => "vx_first", "last" => "vx_last", "get_mut" => "vx_get_mut", "append" => "vx_append", "unwrap_or_default" => "vx_unwrap_or_default",
            "push_front" => "vx_push_front", "pop_front" => "vx_pop_front", "push_back" => "vx_push_back", "front" => "vx_first", "push_str" => "vx_push_str", "dedup" => "vx_dedup", "insert" => "vx_insert", "remove" => "vx_remove", "clear" => "vx_clear", "is_empty" => "vx_is_empty",
            "iter" => "vx_items", "as_ref" => "vx_as_ref", "as_deref" => "vx_as_deref", "contains_key" => "vx_contains_key", "min" | "max" if m.args.len() == 1 => { let (a, b) = (self.expr(&m.receiver), self.expr(&m.args[0])); let f = format_ident!("vx_{}", n); return quote!(#f(#a, #b)); } "get_or_insert_with" | "min" | "max" => return self.un("method", m), o => o,
        };
        let r = self.expr(&m.receiver);
        let keyed = matches!(n.as_str(), "get" | "contains" | "contains_key" | "remove");
        let a: Vec<_> = m.args.iter().map(|x| { let e = self.expr(x); if keyed && self.is_mutref(x) { quote!(&*#e) } else { e } }).collect();
        let f = Ident::new(rn, Span::call_site());
        let tf = match &m.turbofish { Some(_) if rn == "parse" => { let t = m.turbofish.as_ref().unwrap(); let mut t = t.clone(); visit_mut::VisitMut::visit_angle_bracketed_generic_arguments_mut(&mut TyRw, &mut t); quote!(#t) } _ => quote!() };
        quote!(#r.#f #tf(#(#a),*))
    }
}
fn replace_ident(t: &str, id: &str, by: &str) -> String {
    let mut o = String::new(); let b: Vec<char> = t.chars().collect(); let mut i = 0;
    let w = |c: char| c.is_alphanumeric() || c == '_';
    while i < b.len() {
        if w(b[i]) && (i == 0 || (!w(b[i - 1]) && b[i - 1] != '$')) { let mut j = i; while j < b.len() && w(b[j]) { j += 1; } let s: String = b[i..j].iter().collect(); o += if s == id { by } else { &s }; i = j; } else { o.push(b[i]); i += 1; }
    }
    o
}
fn strip_doc(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("cfg") ) }

/// variables named like a keyword of the verifier get another name
fn plain_names(t: TokenStream) -> TokenStream {
    const KW: &[&str] = &["reveal", "proof", "spec", "ghost", "tracked", "assume", "forall", "exists", "choose", "requires", "ensures", "invariant", "decreases", "open", "closed", "when", "via", "by", "is", "has", "matches", "with", "broadcast", "global", "calc", "exec", "int", "nat", "implies", "default_ensures", "returns", "recommends", "opens_invariants", "no_unwind"];
    let mut bound = vec![];
    struct V<'b>(&'b mut Vec<String>);
    impl<'b, 'ast> visit::Visit<'ast> for V<'b> { fn visit_pat_ident(&mut self, i: &'ast PatIdent) { self.0.push(i.ident.to_string()); visit::visit_pat_ident(self, i); } }
    if let Ok(f) = parse2::<ItemFn>(t.clone()) { visit::Visit::visit_item_fn(&mut V(&mut bound), &f); }
    bound.retain(|x| KW.contains(&x.as_str()));
    if bound.is_empty() { return t; }
    fn go(t: TokenStream, bound: &[String]) -> TokenStream {
        let v: Vec<TokenTree> = t.into_iter().collect(); let mut out = vec![];
        let is = |t: Option<&TokenTree>, c: char| matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c);
        for k in 0..v.len() { out.push(match &v[k] {
            TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), go(g.stream(), bound)); n.set_span(g.span()); TokenTree::Group(n) }
            TokenTree::Ident(i) if bound.contains(&i.to_string()) && !(k > 0 && is(v.get(k - 1), '.') && !(k > 1 && is(v.get(k - 2), '.'))) && !(k > 0 && is(v.get(k - 1), ':') && k > 1 && is(v.get(k - 2), ':')) && !(is(v.get(k + 1), ':') && is(v.get(k + 2), ':')) => TokenTree::Ident(format_ident!("{}_v", i)),
            x => x.clone(),
        }); }
        out.into_iter().collect()
    }
    go(t, &bound)
}
fn do_fn(f: &ItemFn, file: &str, reg: &mut Reg) -> Value {
    let mut t = Tr { reg, loops: 0, ifs: 0, matches: 0, tmps: 0, uns: vec![], calls: Default::default(), scalar_refs: Default::default(), refs: Default::default(), marks: vec![], mutrefs: Default::default(), mutnext: false, ncall: Default::default() };
    let name = if f.sig.ident == "main" { "vx_main".to_string() } else { f.sig.ident.to_string() };
    let mut params = vec![]; let mut pnames = vec![];
    for a in &f.sig.inputs { match a {
        FnArg::Typed(p) => {
            let ty = rw_ty(&p.ty);
            if let Pat::Ident(i) = &*p.pat { let n = &i.ident; let m = &i.mutability; if scalar_ref(&p.ty) { t.scalar_refs.insert(n.to_string()); } if is_ref_ty(&p.ty) { t.refs.insert(n.to_string()); } params.push(quote!(#m #n: #ty)); pnames.push(n.to_string()); } else { t.un("parameter", p); }
        }
        _ => { t.un("self", a); }
    } }
    if f.sig.asyncness.is_some() || f.sig.unsafety.is_some() { t.un("signature", &f.sig); }
    let gen = &f.sig.generics;
    let ret = match &f.sig.output { ReturnType::Default => quote!(()), ReturnType::Type(_, x) => { let x = rw_ty(x); quote!(#x) } };
    let rty = match &f.sig.output { ReturnType::Default => None, ReturnType::Type(_, x) => Some(rw_ty(x)) };
    let start = t.mark("fn.start".into());
    let mut body = vec![];
    let n = f.block.stmts.len();
    for (k, s) in f.block.stmts.iter().enumerate() {
        if k + 1 == n { if let Stmt::Expr(e, None) = s {
            if matches!(e, Expr::ForLoop(_) | Expr::While(_)) { body.push(t.stmt(s)); continue; } else {
                let names = Tr::names(e);
                let x = t.expr_t(e, rty.as_ref());
                let end = t.mark("fn.end".into());
                let st = t.around(0, names, quote!(let vx_ret: #ret = #x;));
                body.push(quote!(#st #end vx_ret)); continue;
            }
        } }
        body.push(t.stmt(s));
    }
    if !matches!(f.block.stmts.last(), Some(Stmt::Expr(e, None)) if !matches!(e, Expr::ForLoop(_) | Expr::While(_))) { let e = t.mark("fn.end".into()); body.push(e); }
    let id = &Ident::new(&name, f.sig.ident.span());
    let out = quote!(fn #id #gen (#(#params),*) -> (vx_r: #ret) { #start #(#body)* });
    let fnx = quote!(fn #id #gen (#(#params),*) -> vx_named<#ret> { #start #(#body)* });
    let _ = out;
    let fnx = plain_names(fnx);
    json!({"name": name, "file": file, "line": f.sig.span().start().line, "params": pnames, "core": fnx.to_string(), "ret": ret.to_string(), "unsupported": t.uns, "calls": t.calls, "marks": t.marks, "loops": t.loops,
        "source_tokens": f.to_token_stream().into_iter().filter(|x| !matches!(x, TokenTree::Punct(_))).count()})
}
fn collect(items: &[Item], file: &str, reg: &mut Reg, fns: &mut Vec<Value>, structs: &mut Vec<Value>) {
    for i in items { match i {
        Item::Fn(f) if !strip_doc(&f.attrs) => fns.push(do_fn(f, file, reg)),
        Item::Struct(s) => {
            let n = &s.ident;
            if let Fields::Named(fs) = &s.fields {
                let f: Vec<_> = fs.named.iter().map(|f| { let (n, t) = (&f.ident, rw_ty(&f.ty)); quote!(pub #n: #t) }).collect();
                let g = &s.generics;
                structs.push(json!({"name": n.to_string(), "file": file, "text": quote!(pub struct #n #g { #(#f),* }).to_string()}));
            }
        }
        Item::Enum(e) => {
            let n = &e.ident;
            let known = ["VString", "usize", "bool", "u8"];
            let vs: Vec<_> = e.variants.iter().map(|v| { let i = &v.ident; let fix = |t: &Type| { let t = rw_ty(t); let s = norm(&t); let inner = s.strip_prefix("Option<").and_then(|x| x.strip_suffix('>')).unwrap_or(&s); if known.contains(&inner) { t.to_token_stream() } else { quote!(VxForeign) } };
                match &v.fields { Fields::Unit => quote!(#i), Fields::Unnamed(u) => { let t: Vec<_> = u.unnamed.iter().map(|f| fix(&f.ty)).collect(); quote!(#i(#(#t),*)) } Fields::Named(u) => { let t: Vec<_> = u.named.iter().map(|f| { let n = &f.ident; let t = fix(&f.ty); quote!(#n: #t) }).collect(); quote!(#i { #(#t),* }) } } }).collect();
            structs.push(json!({"name": n.to_string(), "file": file, "text": quote!(pub enum #n { #(#vs),* }).to_string()}));
        }
        Item::Const(c) => { let (n, t, e) = (&c.ident, rw_ty(&c.ty), &c.expr); structs.push(json!({"name": n.to_string(), "file": file, "text": quote!(pub const #n: #t = #e;).to_string()})); }
        _ => {}
    } }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut reg = Reg::default();
    let (mut fns, mut structs) = (vec![], vec![]);
    let mut errs: BTreeMap<String, String> = BTreeMap::new();
    for p in &a[2..] {
        match std::fs::read_to_string(p).map_err(|e| e.to_string()).and_then(|s| parse_file(&s).map_err(|e| e.to_string())) {
            Ok(f) => collect(&f.items, p, &mut reg, &mut fns, &mut structs),
            Err(e) => { errs.insert(p.clone(), e); }
        }
    }
    let lits: Vec<Value> = reg.lits.iter().map(|b| json!(b)).collect();
    let fmts: Vec<Value> = reg.fmts.iter().map(|(p, k)| json!({"pieces": p, "kinds": k})).collect();
    std::fs::write(&a[1], serde_json::to_string_pretty(&json!({"functions": fns, "types": structs, "lits": lits, "fmts": fmts, "errors": errs})).unwrap()).unwrap();
}

//! A small circom front end and evaluator, enough for the circuits of this repository.
//! It evaluates a template in statement order and rejects what circom would reject or what
//! leaves a signal unconstrained: `<--`, double assignment, reads of unassigned signals,
//! component inputs without a value, indices out of range, non-quadratic constraints.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
enum T { Id(String), Num(i128), Op(&'static str), End }

const OPS: &[&str] = &["<==", "==>", "<--", "-->", "===", "&&", "||", "==", "!=", "<=", ">=", "++", "--", "+=", "-=", "*=",
    "(", ")", "[", "]", "{", "}", ";", ",", ".", "+", "-", "*", "/", "\\", "%", "<", ">", "=", "!", "?", ":"];

fn lex(s: &str) -> Result<Vec<T>, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    'o: while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() { i += 1; continue; }
        if s[i..].starts_with("//") { while i < b.len() && b[i] != b'\n' { i += 1; } continue; }
        if s[i..].starts_with("/*") {
            match s[i..].find("*/") { Some(k) => { i += k + 2; continue; } None => return Err("unterminated comment".into()) }
        }
        if c == b'"' {
            let k = s[i + 1..].find('"').ok_or("unterminated string")?;
            out.push(T::Id(s[i..i + k + 2].to_string()));
            i += k + 2; continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') { i += 1; }
            out.push(T::Id(s[st..i].to_string())); continue;
        }
        if c.is_ascii_digit() {
            let st = i;
            while i < b.len() && b[i].is_ascii_alphanumeric() { i += 1; }
            out.push(T::Num(s[st..i].parse().map_err(|_| format!("bad number {}", &s[st..i]))?)); continue;
        }
        for op in OPS { if b[i..].starts_with(op.as_bytes()) { out.push(T::Op(op)); i += op.len(); continue 'o; } }
        return Err(format!("unexpected character {:?}", s[i..].chars().next()));
    }
    out.push(T::End);
    Ok(out)
}

#[derive(Debug, Clone, PartialEq)]
pub enum Acc { Idx(E), Mem(String) }
#[derive(Debug, Clone, PartialEq)]
pub enum E {
    Num(i128), Bin(&'static str, Box<E>, Box<E>), Un(&'static str, Box<E>),
    Lv(String, Vec<Acc>), Anon(String, Vec<E>, Vec<E>), Call(String, Vec<E>), Arr(Vec<E>), Tup(Vec<E>),
    Cond(Box<E>, Box<E>, Box<E>),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum K { In, Out, Mid, Var, Comp }
#[derive(Debug, Clone, PartialEq)]
pub enum S {
    Decl(K, String, Vec<E>, Option<(&'static str, E)>),
    Asg(E, &'static str, E),
    Eq(E, E),
    For(Box<S>, E, Box<S>, Vec<S>),
    While(E, Vec<S>),
    If(E, Vec<S>, Vec<S>),
    Blk(Vec<S>),
    Nop,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Tmpl { pub name: String, pub params: Vec<String>, pub body: Vec<S> }

struct P { t: Vec<T>, i: usize }
type R<X> = Result<X, String>;
impl P {
    fn pk(&self) -> &T { &self.t[self.i.min(self.t.len() - 1)] }
    fn nx(&mut self) -> T { let t = self.pk().clone(); self.i += 1; t }
    fn is(&self, o: &str) -> bool { matches!(self.pk(), T::Op(x) if *x == o) }
    fn isid(&self, o: &str) -> bool { matches!(self.pk(), T::Id(x) if x == o) }
    fn eat(&mut self, o: &str) -> bool { if self.is(o) { self.i += 1; true } else { false } }
    fn ex(&mut self, o: &str) -> R<()> { if self.eat(o) { Ok(()) } else { Err(format!("expected '{}' before {:?} (token {})", o, self.pk(), self.i)) } }
    fn id(&mut self) -> R<String> { match self.nx() { T::Id(s) => Ok(s), t => Err(format!("expected identifier, got {:?}", t)) } }
    fn file(&mut self) -> R<Vec<Tmpl>> {
        let mut v = vec![];
        loop {
            match self.pk().clone() {
                T::End => return Ok(v),
                T::Id(k) if k == "pragma" => { while !self.eat(";") { if *self.pk() == T::End { return Err("pragma".into()); } self.i += 1; } }
                T::Id(k) if k == "include" => { self.i += 1; self.id()?; self.ex(";")?; }
                T::Id(k) if k == "template" => {
                    self.i += 1;
                    let name = self.id()?;
                    self.ex("(")?;
                    let mut params = vec![];
                    while !self.eat(")") { params.push(self.id()?); if !self.is(")") { self.ex(",")?; } }
                    let body = self.block()?;
                    v.push(Tmpl { name, params, body });
                }
                T::Id(k) if k == "component" => { while !self.eat(";") { if *self.pk() == T::End { return Err("main".into()); } self.i += 1; } }
                t => return Err(format!("unexpected {:?} at top level", t)),
            }
        }
    }
    fn block(&mut self) -> R<Vec<S>> {
        self.ex("{")?;
        let mut v = vec![];
        while !self.eat("}") { if *self.pk() == T::End { return Err("unterminated template or block".into()); } v.push(self.stmt()?); }
        Ok(v)
    }
    fn body(&mut self) -> R<Vec<S>> { if self.is("{") { self.block() } else { Ok(vec![self.stmt()?]) } }
    fn decl(&mut self) -> R<S> {
        let mut k = match self.id()?.as_str() { "signal" => K::Mid, "var" => K::Var, "component" => K::Comp, _ => return Err("decl".into()) };
        if k == K::Mid { if self.isid("input") { self.i += 1; k = K::In } else if self.isid("output") { self.i += 1; k = K::Out } }
        let mut v = vec![];
        loop {
            let n = self.id()?;
            let mut d = vec![];
            while self.eat("[") { d.push(self.expr(0)?); self.ex("]")?; }
            let mut init = None;
            for o in ["<==", "<--", "="] { if self.eat(o) { init = Some((o, self.expr(0)?)); break; } }
            v.push(S::Decl(k, n, d, init));
            if !self.eat(",") { break; }
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { S::Blk(v) })
    }
    fn simple(&mut self) -> R<S> {
        if self.isid("signal") || self.isid("var") || self.isid("component") { return self.decl(); }
        let e = self.expr(0)?;
        if self.eat("++") { return Ok(S::Asg(e.clone(), "=", E::Bin("+", Box::new(e), Box::new(E::Num(1))))); }
        if self.eat("--") { return Ok(S::Asg(e.clone(), "=", E::Bin("-", Box::new(e), Box::new(E::Num(1))))); }
        for (o, b) in [("+=", "+"), ("-=", "-"), ("*=", "*")] {
            if self.eat(o) { let r = self.expr(0)?; return Ok(S::Asg(e.clone(), "=", E::Bin(b, Box::new(e), Box::new(r)))); }
        }
        for o in ["<==", "<--", "="] { if self.eat(o) { let r = self.expr(0)?; return Ok(S::Asg(e, o, r)); } }
        if self.eat("==>") { let r = self.expr(0)?; return Ok(S::Asg(r, "<==", e)); }
        if self.eat("-->") { let r = self.expr(0)?; return Ok(S::Asg(r, "<--", e)); }
        if self.eat("===") { let r = self.expr(0)?; return Ok(S::Eq(e, r)); }
        Err(format!("statement expected near {:?}", self.pk()))
    }
    fn stmt(&mut self) -> R<S> {
        if self.eat(";") { return Ok(S::Nop); }
        if self.is("{") { return Ok(S::Blk(self.block()?)); }
        if self.isid("for") {
            self.i += 1; self.ex("(")?;
            let a = self.simple()?; self.ex(";")?;
            let c = self.expr(0)?; self.ex(";")?;
            let st = self.simple()?; self.ex(")")?;
            return Ok(S::For(Box::new(a), c, Box::new(st), self.body()?));
        }
        if self.isid("while") { self.i += 1; self.ex("(")?; let c = self.expr(0)?; self.ex(")")?; return Ok(S::While(c, self.body()?)); }
        if self.isid("if") {
            self.i += 1; self.ex("(")?; let c = self.expr(0)?; self.ex(")")?;
            let a = self.body()?;
            let b = if self.isid("else") { self.i += 1; self.body()? } else { vec![] };
            return Ok(S::If(c, a, b));
        }
        if self.isid("assert") || self.isid("log") { while !self.eat(";") { if *self.pk() == T::End { return Err("eof".into()); } self.i += 1; } return Ok(S::Nop); }
        let s = self.simple()?;
        self.ex(";")?;
        Ok(s)
    }
    fn expr(&mut self, min: u8) -> R<E> {
        let mut l = self.unary()?;
        loop {
            let (o, p) = match self.pk() {
                T::Op(o) => match *o { "||" => ("||", 1), "&&" => ("&&", 2), "==" => ("==", 3), "!=" => ("!=", 3), "<" => ("<", 4), ">" => (">", 4),
                    "<=" => ("<=", 4), ">=" => (">=", 4), "+" => ("+", 5), "-" => ("-", 5), "*" => ("*", 6), "/" => ("/", 6), "\\" => ("\\", 6), "%" => ("%", 6), _ => break },
                _ => break };
            if p < min + 1 && min > 0 && p <= min { break; }
            if p <= min { break; }
            self.i += 1;
            let r = self.expr(p)?;
            l = E::Bin(o, Box::new(l), Box::new(r));
        }
        if min == 0 && self.eat("?") {
            let a = self.expr(0)?; self.ex(":")?; let b = self.expr(0)?;
            l = E::Cond(Box::new(l), Box::new(a), Box::new(b));
        }
        Ok(l)
    }
    fn list(&mut self, close: &str) -> R<Vec<E>> {
        let mut v = vec![];
        while !self.eat(close) { v.push(self.expr(0)?); if !self.is(close) { self.ex(",")?; } }
        Ok(v)
    }
    fn unary(&mut self) -> R<E> {
        if self.eat("-") { return Ok(E::Un("-", Box::new(self.unary()?))); }
        if self.eat("!") { return Ok(E::Un("!", Box::new(self.unary()?))); }
        match self.nx() {
            T::Num(n) => Ok(E::Num(n)),
            T::Op("(") => { let mut v = self.list(")")?; Ok(if v.len() == 1 { v.pop().unwrap() } else { E::Tup(v) }) }
            T::Op("[") => Ok(E::Arr(self.list("]")?)),
            T::Id(n) => {
                if self.eat("(") {
                    let ps = self.list(")")?;
                    if self.eat("(") { let a = self.list(")")?; return Ok(E::Anon(n, ps, a)); }
                    return Ok(E::Call(n, ps));
                }
                let mut acc = vec![];
                loop {
                    if self.eat("[") { acc.push(Acc::Idx(self.expr(0)?)); self.ex("]")?; }
                    else if self.eat(".") { acc.push(Acc::Mem(self.id()?)); }
                    else { break; }
                }
                Ok(E::Lv(n, acc))
            }
            t => Err(format!("unexpected {:?} in expression", t)),
        }
    }
}

pub fn parse(s: &str) -> R<Vec<Tmpl>> { P { t: lex(s)?, i: 0 }.file() }

/// A value with its polynomial degree in the signals (0: known at compile time).
#[derive(Debug, Clone, Copy, PartialEq)]
struct V { v: i128, d: u8 }
#[derive(Debug, Clone)]
enum Val { S(V), A(Vec<Val>) }

#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    /// The template is not a valid, fully constrained circuit.
    Circuit(String),
    /// The constraints have no solution for this input.
    Unsat(String),
}
fn bad<X>(s: impl Into<String>) -> Result<X, Bad> { Err(Bad::Circuit(s.into())) }

struct Sig { kind: K, dims: Vec<usize>, data: Vec<Option<V>> }
#[derive(Clone)]
struct Inst { tmpl: String, params: Vec<i128>, ins: HashMap<String, (Vec<usize>, Vec<Option<V>>)>, outs: Option<Rc<HashMap<String, (Vec<usize>, Vec<Option<V>>)>>> }
struct CompArr { dims: Vec<usize>, data: Vec<Option<Inst>> }
struct Env { sig: HashMap<String, Sig>, var: HashMap<String, V>, comp: HashMap<String, CompArr>, order_in: Vec<String>, order_out: Vec<String> }

pub struct Lib { pub t: HashMap<String, Rc<Tmpl>>, pub steps: std::cell::Cell<u64> }
type Ports = HashMap<String, (Vec<usize>, Vec<Option<V>>)>;

fn flat(dims: &[usize], idx: &[i128], what: &str) -> Result<(usize, usize), Bad> {
    let mut o = 0usize;
    for (k, &i) in idx.iter().enumerate() {
        if k >= dims.len() { return bad(format!("too many indices on {}", what)); }
        if i < 0 || i as usize >= dims[k] { return bad(format!("index {} out of range 0..{} on {}", i, dims[k], what)); }
        o = o * dims[k] + i as usize;
    }
    let rest: usize = dims[idx.len()..].iter().product();
    Ok((o * rest, rest))
}
fn build(dims: &[usize], data: &[V]) -> Val {
    if dims.is_empty() { return Val::S(data[0]); }
    let n: usize = dims[1..].iter().product();
    Val::A((0..dims[0]).map(|i| build(&dims[1..], &data[i * n..(i + 1) * n])).collect())
}
fn flatten(v: &Val, out: &mut Vec<V>) { match v { Val::S(x) => out.push(*x), Val::A(a) => a.iter().for_each(|x| flatten(x, out)) } }

const BUILTIN: &[(&str, usize, &[(&str, i8)])] = &[ // name, params, inputs (dimension: 0 scalar, n>0 fixed, -1 first parameter)
    ("IsEqual", 0, &[("in", 2)]), ("IsZero", 0, &[("in", 0)]), ("LessThan", 1, &[("in", 2)]), ("LessEqThan", 1, &[("in", 2)]),
    ("GreaterThan", 1, &[("in", 2)]), ("GreaterEqThan", 1, &[("in", 2)]), ("AND", 0, &[("a", 0), ("b", 0)]), ("OR", 0, &[("a", 0), ("b", 0)]),
    ("XOR", 0, &[("a", 0), ("b", 0)]), ("NAND", 0, &[("a", 0), ("b", 0)]), ("NOR", 0, &[("a", 0), ("b", 0)]), ("NOT", 0, &[("in", 0)]), ("MultiAND", 1, &[("in", -1)]),
];

impl Lib {
    pub fn new(srcs: &[&str]) -> R<Lib> {
        let mut t = HashMap::new();
        for s in srcs { for x in parse(s)? { t.insert(x.name.clone(), Rc::new(x)); } }
        Ok(Lib { t, steps: Default::default() })
    }
    fn in_ports(&self, tmpl: &str, params: &[i128]) -> Result<Vec<(String, Vec<usize>)>, Bad> {
        if let Some(t) = self.t.get(tmpl) {
            if t.params.len() != params.len() { return bad(format!("template {} takes {} parameters", tmpl, t.params.len())); }
            let mut env = Env { sig: HashMap::new(), var: HashMap::new(), comp: HashMap::new(), order_in: vec![], order_out: vec![] };
            for (n, v) in t.params.iter().zip(params) { env.var.insert(n.clone(), V { v: *v, d: 0 }); }
            let mut r = vec![];
            self.ports_of(&t.body, &mut env, &mut r)?;
            return Ok(r);
        }
        for (n, np, ins) in BUILTIN {
            if *n == tmpl {
                if *np != params.len() { return bad(format!("{} takes {} parameters", n, np)); }
                return Ok(ins.iter().map(|(i, d)| (i.to_string(), if *d == 0 { vec![] } else if *d < 0 { vec![params[0].max(0) as usize] } else { vec![*d as usize] })).collect());
            }
        }
        bad(format!("unknown template {}", tmpl))
    }
    fn ports_of(&self, body: &[S], env: &mut Env, r: &mut Vec<(String, Vec<usize>)>) -> Result<(), Bad> {
        for s in body {
            match s {
                S::Decl(K::In, n, d, _) => { let mut dims = vec![]; for e in d { dims.push(self.konst(e, env)? as usize); } r.push((n.clone(), dims)); }
                S::Decl(K::Var, n, _, Some((_, e))) => { let v = self.scalar(e, env); if let Ok(v) = v { env.var.insert(n.clone(), v); } }
                S::Blk(b) => self.ports_of(b, env, r)?,
                _ => {}
            }
        }
        Ok(())
    }
    fn builtin(&self, t: &str, p: &[i128], ins: &Ports) -> Result<Ports, Bad> {
        let g = |n: &str, i: usize| ins[n].1[i].unwrap().v;
        let ltn = |n: i128, a: i128, b: i128| -> Result<i128, Bad> {
            let x = a + (1i128 << n) - b;
            if x < 0 || x >= (1i128 << (n + 1)) { return Err(Bad::Unsat(format!("range of LessThan({})", n))); }
            Ok(1 - (x >> n))
        };
        let v = match t {
            "IsEqual" => (g("in", 0) == g("in", 1)) as i128,
            "IsZero" => (g("in", 0) == 0) as i128,
            "LessThan" => ltn(p[0], g("in", 0), g("in", 1))?,
            "LessEqThan" => ltn(p[0], g("in", 0), g("in", 1) + 1)?,
            "GreaterThan" => ltn(p[0], g("in", 1), g("in", 0))?,
            "GreaterEqThan" => ltn(p[0], g("in", 1), g("in", 0) + 1)?,
            "AND" => g("a", 0) * g("b", 0),
            "OR" => g("a", 0) + g("b", 0) - g("a", 0) * g("b", 0),
            "XOR" => g("a", 0) + g("b", 0) - 2 * g("a", 0) * g("b", 0),
            "NAND" => 1 - g("a", 0) * g("b", 0),
            "NOR" => g("a", 0) * g("b", 0) + 1 - g("a", 0) - g("b", 0),
            "NOT" => 1 - g("in", 0),
            "MultiAND" => { if p[0] < 1 { return bad("MultiAND without inputs"); } (0..p[0] as usize).map(|i| g("in", i)).product() }
            _ => unreachable!(),
        };
        Ok(HashMap::from([("out".to_string(), (vec![], vec![Some(V { v, d: 1 })]))]))
    }
    fn trigger(&self, inst: &mut Inst, what: &str) -> Result<(), Bad> {
        if inst.outs.is_some() { return Ok(()); }
        for (n, (_, d)) in &inst.ins { if d.iter().any(|x| x.is_none()) { return bad(format!("input {} of component {} ({}) is not fully assigned", n, what, inst.tmpl)); } }
        let o = self.run(&inst.tmpl, &inst.params, &inst.ins)?.0;
        inst.outs = Some(Rc::new(o));
        Ok(())
    }
    fn run(&self, tmpl: &str, params: &[i128], ins: &Ports) -> Result<(Ports, Vec<String>, Ports), Bad> {
        let t = match self.t.get(tmpl) { Some(t) => t.clone(), None => return Ok((self.builtin(tmpl, params, ins)?, vec!["out".into()], HashMap::new())) };
        let mut env = Env { sig: HashMap::new(), var: HashMap::new(), comp: HashMap::new(), order_in: vec![], order_out: vec![] };
        for (n, v) in t.params.iter().zip(params) { env.var.insert(n.clone(), V { v: *v, d: 0 }); }
        for (n, (dims, d)) in ins { env.sig.insert(n.clone(), Sig { kind: K::In, dims: dims.clone(), data: d.iter().map(|x| x.map(|x| V { v: x.v, d: 1 })).collect() }); }
        self.exec(&t.body, &mut env)?;
        let names: Vec<String> = env.comp.keys().cloned().collect();
        for n in names {
            let ca = env.comp.get_mut(&n).unwrap();
            for (k, c) in ca.data.iter_mut().enumerate() { if let Some(c) = c { self.trigger(c, &format!("{}[{}]", n, k))?; } }
        }
        let mut outs = HashMap::new();
        let mut all = HashMap::new();
        for n in &env.order_out {
            let s = &env.sig[n];
            if s.data.iter().any(|x| x.is_none()) { return bad(format!("output {} of {} is not fully assigned", n, tmpl)); }
            outs.insert(n.clone(), (s.dims.clone(), s.data.clone()));
        }
        for (n, s) in env.sig { all.insert(n, (s.dims, s.data)); }
        Ok((outs, env.order_out, all))
    }
    fn konst(&self, e: &E, env: &mut Env) -> Result<i128, Bad> {
        let v = self.scalar(e, env)?;
        if v.d != 0 { return bad("a signal is used where a constant is needed"); }
        Ok(v.v)
    }
    fn scalar(&self, e: &E, env: &mut Env) -> Result<V, Bad> { match self.eval(e, env)? { Val::S(v) => Ok(v), _ => bad("array where a scalar is needed") } }
    fn idx(&self, acc: &[Acc], env: &mut Env) -> Result<(Vec<i128>, Option<String>, Vec<i128>), Bad> {
        let (mut a, mut m, mut b) = (vec![], None, vec![]);
        for x in acc {
            match x {
                Acc::Idx(e) => { let v = self.konst(e, env)?; if m.is_none() { a.push(v) } else { b.push(v) } }
                Acc::Mem(n) => { if m.is_some() { return bad("nested member access"); } m = Some(n.clone()) }
            }
        }
        Ok((a, m, b))
    }
    fn eval(&self, e: &E, env: &mut Env) -> Result<Val, Bad> {
        Ok(Val::S(match e {
            E::Num(n) => V { v: *n, d: 0 },
            E::Un(o, a) => { let a = self.scalar(a, env)?; if *o == "-" { V { v: -a.v, d: a.d } } else { V { v: (a.v == 0) as i128, d: a.d } } }
            E::Cond(c, a, b) => { let c = self.konst(c, env)?; return self.eval(if c != 0 { a } else { b }, env); }
            E::Bin(o, a, b) => {
                let (a, b) = (self.scalar(a, env)?, self.scalar(b, env)?);
                let cmp = |x: bool| if a.d == 0 && b.d == 0 { Ok(V { v: x as i128, d: 0 }) } else { bad("comparison of signals") };
                match *o {
                    "+" => V { v: a.v + b.v, d: a.d.max(b.d) },
                    "-" => V { v: a.v - b.v, d: a.d.max(b.d) },
                    "*" => V { v: a.v * b.v, d: a.d.saturating_add(b.d) },
                    "/" | "\\" => { if b.v == 0 || a.d + b.d > 0 { return bad("division"); } V { v: a.v / b.v, d: 0 } }
                    "%" => { if b.v == 0 || a.d + b.d > 0 { return bad("modulo"); } V { v: a.v % b.v, d: 0 } }
                    "<" => cmp(a.v < b.v)?, ">" => cmp(a.v > b.v)?, "<=" => cmp(a.v <= b.v)?, ">=" => cmp(a.v >= b.v)?,
                    "==" => cmp(a.v == b.v)?, "!=" => cmp(a.v != b.v)?,
                    "&&" => cmp(a.v != 0 && b.v != 0)?, "||" => cmp(a.v != 0 || b.v != 0)?,
                    _ => return bad(format!("operator {}", o)),
                }
            }
            E::Arr(v) => { let mut r = vec![]; for x in v { r.push(self.eval(x, env)?); } return Ok(Val::A(r)); }
            E::Tup(_) => return bad("tuple expression"),
            E::Call(n, _) => return bad(format!("call of {}", n)),
            E::Anon(..) => { let mut r = self.anon(e, env)?; if r.len() != 1 { return bad("anonymous component with several outputs"); } return Ok(r.pop().unwrap()); }
            E::Lv(n, acc) => {
                if acc.is_empty() { if let Some(v) = env.var.get(n) { return Ok(Val::S(*v)); } }
                let (a, m, b) = self.idx(acc, env)?;
                if let Some(s) = env.sig.get(n) {
                    if m.is_some() { return bad(format!("member of signal {}", n)); }
                    let (o, k) = flat(&s.dims, &a, n)?;
                    let mut d = vec![];
                    for x in &s.data[o..o + k] { match x { Some(v) => d.push(V { v: v.v, d: 1 }), None => return bad(format!("signal {}{:?} is read but not assigned", n, a)) } }
                    return Ok(build(&s.dims[a.len()..], &d));
                }
                if env.comp.contains_key(n) {
                    let m = match m { Some(m) => m, None => return bad(format!("component {} used as value", n)) };
                    let ca = env.comp.get_mut(n).unwrap();
                    if a.len() != ca.dims.len() { return bad(format!("component {} indexed with {} of {} dimensions", n, a.len(), ca.dims.len())); }
                    let (o, _) = flat(&ca.dims, &a, n)?;
                    let what = format!("{}{:?}", n, a);
                    let c = match ca.data[o].as_mut() { Some(c) => c, None => return bad(format!("component {} is used but never created", what)) };
                    if c.ins.contains_key(&m) { return bad(format!("read of component input {}.{}", what, m)); }
                    self.trigger(c, &what)?;
                    let outs = c.outs.clone().unwrap();
                    let (dims, data) = match outs.get(&m) { Some(x) => x, None => return bad(format!("no output {} of {}", m, what)) };
                    let (o, k) = flat(dims, &b, &m)?;
                    let d: Vec<V> = data[o..o + k].iter().map(|x| V { v: x.unwrap().v, d: 1 }).collect();
                    return Ok(build(&dims[b.len()..], &d));
                }
                return bad(format!("unknown name {}", n));
            }
        }))
    }
    fn anon(&self, e: &E, env: &mut Env) -> Result<Vec<Val>, Bad> {
        let (t, ps, args) = match e { E::Anon(t, p, a) => (t, p, a), _ => return bad("anonymous component expected") };
        let mut params = vec![];
        for p in ps { params.push(self.konst(p, env)?); }
        let ports = self.in_ports(t, &params)?;
        if ports.len() != args.len() { return bad(format!("{} takes {} inputs", t, ports.len())); }
        let mut ins = HashMap::new();
        for ((n, dims), a) in ports.iter().zip(args) {
            let v = self.eval(a, env)?;
            let mut f = vec![];
            flatten(&v, &mut f);
            if f.len() != dims.iter().product::<usize>() || matches!(v, Val::S(_)) != dims.is_empty() { return bad(format!("input {} of {} has size {:?} but gets {} values", n, t, dims, f.len())); }
            if f.iter().any(|x| x.d > 2) { return bad("non-quadratic constraint"); }
            ins.insert(n.clone(), (dims.clone(), f.into_iter().map(Some).collect::<Vec<_>>()));
        }
        let (o, order, _) = self.run(t, &params, &ins)?;
        Ok(order.iter().map(|n| { let (d, x) = &o[n]; let f: Vec<V> = x.iter().map(|v| V { v: v.unwrap().v, d: 1 }).collect(); build(d, &f) }).collect())
    }
    fn assign(&self, lhs: &E, v: Val, env: &mut Env) -> Result<(), Bad> {
        let (n, acc) = match lhs { E::Lv(n, a) => (n, a), _ => return bad("bad assignment target") };
        let (a, m, b) = self.idx(acc, env)?;
        let mut f = vec![];
        flatten(&v, &mut f);
        if f.iter().any(|x| x.d > 2) { return bad(format!("non-quadratic constraint on {}", n)); }
        let put = |dims: &[usize], data: &mut [Option<V>], ix: &[i128], what: &str| -> Result<(), Bad> {
            let (o, k) = flat(dims, ix, what)?;
            if k != f.len() { return bad(format!("size mismatch in assignment to {}", what)); }
            for j in 0..k {
                if data[o + j].is_some() { return bad(format!("{}{:?} is assigned twice", what, ix)); }
                data[o + j] = Some(V { v: f[j].v, d: 1 });
            }
            Ok(())
        };
        if let Some(s) = env.sig.get_mut(n) {
            if s.kind == K::In { return bad(format!("assignment to input {}", n)); }
            if m.is_some() { return bad("member of signal"); }
            return put(&s.dims, &mut s.data, &a, n);
        }
        if let Some(ca) = env.comp.get_mut(n) {
            let m = match m { Some(m) => m, None => return bad(format!("<== on component {}", n)) };
            if a.len() != ca.dims.len() { return bad("component index"); }
            let (o, _) = flat(&ca.dims, &a, n)?;
            let c = match ca.data[o].as_mut() { Some(c) => c, None => return bad(format!("component {}{:?} is used but never created", n, a)) };
            let (dims, data) = match c.ins.get_mut(&m) { Some(x) => x, None => return bad(format!("no input {} of {}{:?}", m, n, a)) };
            return put(dims, data, &b, &format!("{}{:?}.{}", n, a, m));
        }
        bad(format!("unknown signal {}", n))
    }
    fn exec(&self, body: &[S], env: &mut Env) -> Result<(), Bad> {
        for s in body {
            self.steps.set(self.steps.get() + 1);
            if self.steps.get() > 200_000_000 { return bad("evaluation does not end"); }
            match s {
                S::Nop => {}
                S::Blk(b) => self.exec(b, env)?,
                S::Decl(k, n, d, init) => {
                    let mut dims = vec![];
                    for e in d { let v = self.konst(e, env)?; if v < 0 || v > 100_000_000 { return bad(format!("size of {}", n)); } dims.push(v as usize); }
                    match k {
                        K::Var => { let v = match init { Some((_, e)) => self.scalar(e, env)?, None => V { v: 0, d: 0 } }; env.var.insert(n.clone(), v); }
                        K::Comp => {
                            let t: usize = dims.iter().product();
                            if env.comp.contains_key(n) { return bad(format!("{} is declared twice", n)); }
                            env.comp.insert(n.clone(), CompArr { dims, data: vec![None; t] });
                            if let Some((o, e)) = init { self.asg(&E::Lv(n.clone(), vec![]), o, e, env)?; }
                        }
                        _ => {
                            if *k == K::In {
                                env.order_in.push(n.clone());
                                match env.sig.get(n) { Some(s) if s.dims == dims => {} _ => return bad(format!("input {} is missing or has another size", n)) }
                            } else {
                                if env.sig.contains_key(n) || env.var.contains_key(n) { return bad(format!("{} is declared twice", n)); }
                                if *k == K::Out { env.order_out.push(n.clone()); }
                                let t: usize = dims.iter().product();
                                env.sig.insert(n.clone(), Sig { kind: *k, dims, data: vec![None; t] });
                                if let Some((o, e)) = init { self.asg(&E::Lv(n.clone(), vec![]), o, e, env)?; }
                            }
                        }
                    }
                }
                S::Asg(l, o, r) => self.asg(l, o, r, env)?,
                S::Eq(a, b) => {
                    let (a, b) = (self.scalar(a, env)?, self.scalar(b, env)?);
                    if a.d.max(b.d) > 2 { return bad("non-quadratic constraint"); }
                    if a.v != b.v { return Err(Bad::Unsat(format!("{} === {}", a.v, b.v))); }
                }
                S::For(i, c, st, b) => {
                    let old = if let S::Decl(K::Var, n, _, _) = &**i { env.var.get(n).copied() } else { None };
                    self.exec(std::slice::from_ref(&**i), env)?;
                    while self.konst(c, env)? != 0 { self.exec(b, env)?; self.exec(std::slice::from_ref(&**st), env)?; }
                    if let S::Decl(K::Var, n, _, _) = &**i { match old { Some(v) => { env.var.insert(n.clone(), v); } None => { env.var.remove(n); } } }
                }
                S::While(c, b) => { while self.konst(c, env)? != 0 { self.exec(b, env)?; } }
                S::If(c, a, b) => { if self.konst(c, env)? != 0 { self.exec(a, env)? } else { self.exec(b, env)? } }
            }
        }
        Ok(())
    }
    fn asg(&self, l: &E, o: &str, r: &E, env: &mut Env) -> Result<(), Bad> {
        match o {
            "<--" => bad("signal assigned without a constraint (<--)"),
            "=" => {
                let (n, acc) = match l { E::Lv(n, a) => (n, a), _ => return bad("assignment target") };
                if env.comp.contains_key(n) {
                    let (t, ps) = match r { E::Call(t, p) => (t, p), _ => return bad("component expects a template") };
                    let mut params = vec![];
                    for p in ps { params.push(self.konst(p, env)?); }
                    let (a, m, _) = self.idx(acc, env)?;
                    if m.is_some() { return bad("component member"); }
                    let ports = self.in_ports(t, &params)?;
                    let ca = env.comp.get_mut(n).unwrap();
                    if a.len() != ca.dims.len() { return bad("component index"); }
                    let (o, _) = flat(&ca.dims, &a, n)?;
                    if ca.data[o].is_some() { return bad(format!("component {}{:?} is created twice", n, a)); }
                    ca.data[o] = Some(Inst { tmpl: t.clone(), params, ins: ports.into_iter().map(|(n, d)| { let k = d.iter().product(); (n, (d, vec![None; k])) }).collect(), outs: None });
                    return Ok(());
                }
                if !acc.is_empty() || !env.var.contains_key(n) { return bad(format!("= on {}", n)); }
                let v = self.scalar(r, env)?;
                env.var.insert(n.clone(), v);
                Ok(())
            }
            "<==" => {
                if let E::Tup(ts) = l {
                    let vs = self.anon(r, env)?;
                    if vs.len() != ts.len() { return bad("tuple size"); }
                    for (t, v) in ts.iter().zip(vs) { if let E::Lv(n, _) = t { if n == "_" { continue; } } self.assign(t, v, env)?; }
                    return Ok(());
                }
                let v = self.eval(r, env)?;
                self.assign(l, v, env)
            }
            _ => bad("assignment operator"),
        }
    }
    /// Evaluates template `t` on `msg`; returns output name -> values, and every signal.
    pub fn circuit(&self, t: &str, msg: &[i128]) -> Result<(HashMap<String, Vec<i128>>, HashMap<String, (Vec<usize>, Vec<Option<i128>>)>), Bad> {
        self.steps.set(0);
        let params = [msg.len() as i128];
        let ports = self.in_ports(t, &params)?;
        if ports.len() != 1 || ports[0].0 != "msg" || ports[0].1 != vec![msg.len()] { return bad(format!("template {} does not take exactly the input msg[{}]", t, msg.len())); }
        let ins = HashMap::from([("msg".to_string(), (vec![msg.len()], msg.iter().map(|v| Some(V { v: *v, d: 1 })).collect()))]);
        let (o, _, all) = self.run(t, &params, &ins)?;
        Ok((o.into_iter().map(|(n, (_, d))| (n, d.into_iter().map(|x| x.unwrap().v).collect())).collect(),
            all.into_iter().map(|(n, (d, x))| (n, (d, x.into_iter().map(|y| y.map(|z| z.v)).collect()))).collect()))
    }
    /// Evaluates a helper template on flat inputs, in declaration order.
    pub fn gate(&self, t: &str, params: &[i128], inputs: &[i128]) -> Result<Vec<i128>, Bad> {
        self.steps.set(0);
        let ports = self.in_ports(t, params)?;
        let mut k = 0;
        let mut ins = HashMap::new();
        for (n, d) in ports {
            let c: usize = d.iter().product();
            if k + c > inputs.len() { return bad("gate inputs"); }
            ins.insert(n, (d, inputs[k..k + c].iter().map(|v| Some(V { v: *v, d: 1 })).collect::<Vec<_>>()));
            k += c;
        }
        if k != inputs.len() { return bad("gate inputs"); }
        let (o, order, _) = self.run(t, params, &ins)?;
        Ok(order.iter().flat_map(|n| o[n].1.iter().map(|x| x.unwrap().v)).collect())
    }
}

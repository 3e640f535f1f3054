//! Seeded generators: regexes, decomposed definitions, automata, strings drawn from a regex.
use crate::odfa::{D, NONE};
use regex_syntax::hir::{Class, Hir, HirKind};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn u(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn n(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u() % n as u64) as usize } }
    pub fn p(&mut self, num: usize, den: usize) -> bool { self.n(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.n(v.len()); &v[i] }
}

pub const PLAIN: &[char] = &['a', 'b', 'c', 'd', 'x', '0', '1', '9', 'A', 'Z'];
pub const ODD: &[char] = &[' ', '\'', '"', '\\', '-', '=', ',', '>', '<', ':', '\t', '\n', '\r', '{', '}', '(', ')', '[', ']', '.', '*', '+', '?', '|', '$', '^', '/', '@', ';', '_', '~', '\x0b', '\x0c', '\x1f', '\x7f', '#', '!', '%', '&', '`', '\u{e9}', '\u{672b}', '\u{1f600}', 'E', 'O', 'I'];

pub fn lit(c: char) -> String {
    match c {
        '\n' => "\\n".into(), '\r' => "\\r".into(), '\t' => "\\t".into(),
        c if c.is_ascii_control() => format!("\\x{:02X}", c as u32),
        c if "\\.+*?()|[]{}^$#&-~".contains(c) => format!("\\{}", c),
        c => c.to_string(),
    }
}
pub fn any_char(r: &mut Rng, odd: usize) -> char { if r.n(10) < odd { *r.pick(ODD) } else { *r.pick(PLAIN) } }

pub fn class(r: &mut Rng, odd: usize) -> String {
    if r.p(1, 60) { let m = 2 + r.n(3); return format!("[{}]", (0x21..0x7f).filter(|b| b % m == 0).map(|b| lit(b as u8 as char)).collect::<String>()); }
    match r.n(8) {
        0 => "[a-c]".into(), 1 => "[0-9]".into(), 2 => "[a-z]".into(), 3 => "[A-Za-z0-9]".into(),
        4 => format!("[^{}]", { let c = any_char(r, odd); lit(c) }),
        5 => { let a = r.n(127) as u8; let b = a + r.n((127 - a) as usize + 1) as u8; format!("[\\x{:02X}-\\x{:02X}]", a.max(1), b.max(a.max(1))) }
        _ => { let n = 1 + r.n(4); let mut s = String::from("["); for _ in 0..n { let c = any_char(r, odd); s += &lit(c); } s + "]" }
    }
}
fn any_lit(r: &mut Rng, odd: usize) -> String { let c = any_char(r, odd); lit(c) }
/// A regex without anchors. `odd` in 0..=10 is the share of special characters.
pub fn regex(r: &mut Rng, depth: usize, odd: usize) -> String {
    if depth == 0 || r.p(2, 5) {
        return match r.n(6) { 0 => class(r, odd), _ => { let c = any_char(r, odd); lit(c) } };
    }
    match r.n(9) {
        0 | 1 | 2 | 3 => { let n = 2 + r.n(2); (0..n).map(|_| regex(r, depth - 1, odd)).collect() }
        4 | 5 => format!("({}|{})", regex(r, depth - 1, odd), regex(r, depth - 1, odd)),
        6 => format!("({})+", regex(r, depth - 1, odd)),
        7 => format!("({})?", regex(r, depth - 1, odd)),
        _ => match r.n(3) { 0 => format!("({})*", regex(r, depth - 1, odd)), 1 => if r.p(1, 12) { format!("({}){{1,{}}}", any_lit(r, odd), 3 + r.n(12)) } else { format!("({}){{1,2}}", regex(r, depth - 1, odd)) }, _ => format!("(?:{})", regex(r, depth - 1, odd)) },
    }
}

/// A random string matched by the whole regex.
pub fn sample(r: &mut Rng, re: &str) -> Option<String> {
    let h = regex_syntax::Parser::new().parse(re).ok()?;
    let mut out = String::new();
    hir(r, &h, &mut out, 3);
    Some(out)
}
fn hir(r: &mut Rng, h: &Hir, out: &mut String, rep: usize) {
    match h.kind() {
        HirKind::Empty | HirKind::Look(_) => {}
        HirKind::Literal(l) => out.push_str(&String::from_utf8_lossy(&l.0)),
        HirKind::Class(Class::Unicode(c)) => {
            let rs = c.ranges();
            if rs.is_empty() { return; }
            let g = r.pick(rs);
            let (a, b) = (g.start() as u32, g.end() as u32);
            let (a, b) = if r.p(4, 5) && a < 0x7f { (a.max(0x20).min(b), b.min(0x7e)) } else { (a, b.min(a + 0x1000)) };
            for _ in 0..20 { if let Some(ch) = char::from_u32(a + r.n((b.max(a) - a + 1) as usize) as u32) { out.push(ch); return; } }
            out.push(g.start());
        }
        HirKind::Class(Class::Bytes(c)) => { if let Some(g) = c.ranges().first() { out.push(g.start() as char) } }
        HirKind::Repetition(x) => {
            let lo = x.min as usize;
            let hi = x.max.map(|m| m as usize).unwrap_or(lo + rep).min(lo + rep);
            for _ in 0..lo + r.n(hi.max(lo) - lo + 1) { hir(r, &x.sub, out, rep); }
        }
        HirKind::Capture(c) => hir(r, &c.sub, out, rep),
        HirKind::Concat(v) => v.iter().for_each(|x| hir(r, x, out, rep)),
        HirKind::Alternation(v) => { let x = r.pick(v); hir(r, x, out, rep) }
    }
}

/// A random automaton with n states and one accept state other than the start.
pub fn automaton(r: &mut Rng) -> (D, usize) {
    let n = match r.n(24) { 0 => 2 + r.n(40), 1 => 8 + r.n(8), 2 if r.n(12) == 0 => 100 + r.n(200), _ => 2 + r.n(5) };
    let a = 1 + r.n(n - 1);
    let mut d = D { tr: vec![vec![NONE; 256]; n], acc: (0..n).map(|s| s == a).collect() };
    for s in 0..n {
        let k = if r.n(12) == 0 { 3 + r.n(12) } else { 1 + r.n(4) };
        for _ in 0..k {
            let t = if r.p(1, 30) { 0 } else { 1 + r.n(n - 1) };
            match r.n(10) {
                0 | 1 | 2 | 3 => { let b = b'a' + r.n(4) as u8; d.tr[s][b as usize] = t; }
                4 => { let b = r.n(256); d.tr[s][b] = t; }
                5 => { d.tr[s][*r.pick(&[0usize, 1, 255, 254, 32, 127, 128])] = t; }
                6 | 7 => { let lo = r.n(250); let len = *r.pick(&[1usize, 2, 15, 16, 17, 18, 30, 100]); for b in lo..(lo + len).min(256) { d.tr[s][b] = t; } }
                8 => { for b in b'a'..=b'z' { d.tr[s][b as usize] = t; } }
                _ => { for b in 1..255 { d.tr[s][b] = t; } for b in 97..(97 + r.n(3)) { d.tr[s][b] = NONE; } }
            }
        }
    }
    if n > 1 && r.n(8) == 0 {     // transitions whose byte sets share most of their members
        let lo = r.n(120); let k = 3 + r.n(6);
        let base: Vec<usize> = (0..k).map(|q| lo + 2 * q).collect();
        for _ in 0..2 + r.n(3) {
            let (s, t) = (r.n(n), 1 + r.n(n - 1));
            let drop = r.n(k + 2);
            if r.n(2) == 0 { d.tr[s] = vec![NONE; 256]; }
            for (q, b) in base.iter().enumerate() { if q != drop { d.tr[s][*b] = t; } }
            if r.n(3) == 0 { d.tr[s][lo + 2 * k] = t; }
        }
    }
    (d, a)
}

/// A message of exactly n bytes (none above 254) that tends to follow the automaton; zero-padded at the end at times.
pub fn message(r: &mut Rng, d: &D, n: usize) -> Vec<u8> {
    let body = if r.p(1, 3) { r.n(n + 1) } else { n };
    let mut m = vec![];
    let mut s = 0usize;
    let marker = d.tr[0][255];
    if marker != NONE && r.p(2, 3) { s = marker; }
    while m.len() < body {
        let opts: Vec<usize> = (0..255).filter(|&b| d.tr[s][b] != NONE).collect();
        if !opts.is_empty() && r.p(9, 10) {
            let b = if r.p(1, 4) { opts[0] } else if r.p(1, 4) { opts[opts.len() - 1] } else { *r.pick(&opts) };
            m.push(b as u8);
            s = d.tr[s][b];
        } else {
            m.push(match r.n(6) { 0 => r.n(255) as u8, 1 => 0, _ => b'a' + r.n(5) as u8 });
            s = 0;
        }
    }
    m.resize(n, 0);
    m
}

//! Hash-consed exact integer terms. A machine word of width w is represented by the
//! nonnegative integer it denotes; wrap-around is explicit (`Mod`).
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type T = u32;
pub type B = u32;
pub type M = u32;

pub const INF: i128 = 1 << 120;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(i128),
    Sym(u32),
    Sum(i128, Rc<[(i128, M)]>),
    Mod(T, u32),
    Div(T, u32),
    UDiv(T, T),
    URem(T, T),
    Ite(B, T, T),
    B2I(B),
    Clamp(T, i128, i128),
    BAnd(T, T),
    BXor(T, T),
    BOr(T, T),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum BNode {
    True,
    False,
    Le0(T),
    Eq0(T),
    Ne0(T),
    And(Rc<[B]>),
    Or(Rc<[B]>),
}

#[derive(Clone, Debug)]
pub struct Sym {
    pub name: String,
    pub lo: i128,
    pub hi: i128,
    pub refinable: bool,
    pub pix: Option<(u32, T)>,
}

#[derive(Clone, Default)]
pub struct Env {
    pub sym: BTreeMap<u32, (i128, i128)>,
    pub hom: BTreeMap<T, (i128, i128)>,
    pub cons: Vec<B>,
    pub infeasible: bool,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, T>,
    base: Vec<(i128, i128)>,
    dep: Vec<bool>,
    pub bnodes: Vec<BNode>,
    bmap: HashMap<BNode, B>,
    pub monos: Vec<Rc<[T]>>,
    mmap: HashMap<Rc<[T]>, M>,
    pub syms: Vec<Sym>,
    pub env: Rc<Env>,
    memo: HashMap<T, (i128, i128)>,
    pub zero: T,
    pub one: T,
}

pub const TRUE: B = 0;
pub const FALSE: B = 1;

fn clampi(x: i128) -> i128 { x.max(-INF).min(INF) }
fn sadd(a: i128, b: i128) -> i128 {
    if a >= INF || b >= INF { if a <= -INF || b <= -INF { return 0.max(INF) } return INF; }
    if a <= -INF || b <= -INF { return -INF; }
    clampi(a + b)
}
fn smul(a: i128, b: i128) -> i128 {
    match a.checked_mul(b) { Some(x) => clampi(x), None => if (a < 0) != (b < 0) { -INF } else { INF } }
}
fn mul_range(a: (i128, i128), b: (i128, i128)) -> (i128, i128) {
    let v = [smul(a.0, b.0), smul(a.0, b.1), smul(a.1, b.0), smul(a.1, b.1)];
    (*v.iter().min().unwrap(), *v.iter().max().unwrap())
}
pub fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { let t = a % b; a = b; b = t; } a }
pub fn p2(k: u32) -> i128 { 1i128 << k }

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![], map: HashMap::new(), base: vec![], dep: vec![], bnodes: vec![], bmap: HashMap::new(), monos: vec![],
            mmap: HashMap::new(), syms: vec![], env: Rc::new(Env::default()), memo: HashMap::new(), zero: 0, one: 0,
        };
        c.b(BNode::True);
        c.b(BNode::False);
        c.zero = c.k(0);
        c.one = c.k(1);
        c
    }
    pub fn set_env(&mut self, e: &Rc<Env>) {
        if !Rc::ptr_eq(&self.env, e) { self.env = e.clone(); self.memo.clear(); }
    }
    fn b(&mut self, n: BNode) -> B {
        if let Some(&i) = self.bmap.get(&n) { return i; }
        let i = self.bnodes.len() as B;
        self.bnodes.push(n.clone());
        self.bmap.insert(n, i);
        i
    }
    fn node(&mut self, n: Node) -> T {
        if let Some(&i) = self.map.get(&n) { return i; }
        let i = self.nodes.len() as T;
        let (r, d) = self.compute(&n, false);
        self.nodes.push(n.clone());
        self.map.insert(n, i);
        self.base.push(r);
        self.dep.push(d);
        i
    }
    /// Range (and dependence on refinable symbols) of a node
    fn compute(&mut self, n: &Node, env: bool) -> ((i128, i128), bool) {
        let rg = |s: &mut Ctx, t: T| -> (i128, i128) { if env { s.range(t) } else { s.base[t as usize] } };
        match n {
            Node::Const(c) => ((*c, *c), false),
            Node::Sym(s) => {
                let y = &self.syms[*s as usize];
                let mut r = (y.lo, y.hi);
                let d = y.refinable;
                if env { if let Some(e) = self.env.sym.get(s) { r = (r.0.max(e.0), r.1.min(e.1)); } }
                (r, d)
            }
            Node::Sum(c, v) => {
                let mut r = (*c, *c);
                let mut d = false;
                for (k, m) in v.iter() {
                    let fs = self.monos[*m as usize].clone();
                    let mut q = (1, 1);
                    let mut simple = true;
                    for (i, f) in fs.iter().enumerate() {
                        let x = rg(self, *f);
                        d |= self.dep[*f as usize];
                        if i > 0 { simple = false; }
                        q = if i == 0 { x } else { mul_range(q, x) };
                    }
                    if env && !simple {
                        let key = self.map.get(&Node::Sum(0, Rc::from(vec![(1, *m)]))).copied();
                        if let Some(e) = key.and_then(|k| self.env.hom.get(&k)) { q = (q.0.max(e.0), q.1.min(e.1)); }
                    }
                    let q = mul_range(q, (*k, *k));
                    r = (sadd(r.0, q.0), sadd(r.1, q.1));
                }
                if env && v.len() > 1 {
                    let (h, g, _) = self.hom_key(v);
                    if let Some(h) = h {
                        if let Some(e) = self.env.hom.get(&h).copied() {
                            let e = mul_range(e, (g, g));
                            r = (r.0.max(sadd(e.0, *c)), r.1.min(sadd(e.1, *c)));
                        }
                    }
                }
                (r, d)
            }
            Node::Mod(t, k) => {
                let d = self.dep[*t as usize];
                let r = rg(self, *t);
                if r.0 >= 0 && r.1 < p2(*k) { (r, d) } else { ((0, p2(*k) - 1), d) }
            }
            Node::Div(t, k) => {
                let r = rg(self, *t);
                let lo = if r.0 <= -INF { -INF } else { r.0 >> k };
                let hi = if r.1 >= INF { INF } else { r.1 >> k };
                ((lo, hi), self.dep[*t as usize])
            }
            Node::UDiv(a, b) => {
                let (x, y) = (rg(self, *a), rg(self, *b));
                ((x.0.max(0) / y.1.max(1), x.1 / y.0.max(1)), self.dep[*a as usize] | self.dep[*b as usize])
            }
            Node::URem(a, b) => {
                let (x, y) = (rg(self, *a), rg(self, *b));
                ((0, x.1.min(y.1 - 1).max(0)), self.dep[*a as usize] | self.dep[*b as usize])
            }
            Node::Ite(c, a, b) => {
                let (x, y) = (rg(self, *a), rg(self, *b));
                let d = self.dep[*a as usize] | self.dep[*b as usize] | self.bdep(*c);
                ((x.0.min(y.0), x.1.max(y.1)), d)
            }
            Node::B2I(b) => ((0, 1), self.bdep(*b)),
            Node::Clamp(t, lo, hi) => {
                let r = rg(self, *t);
                ((r.0.max(*lo).min(*hi), r.1.min(*hi).max(*lo)), self.dep[*t as usize])
            }
            Node::BAnd(a, b) => {
                let (x, y) = (rg(self, *a), rg(self, *b));
                ((0, x.1.min(y.1)), self.dep[*a as usize] | self.dep[*b as usize])
            }
            Node::BOr(a, b) => {
                let (x, y) = (rg(self, *a), rg(self, *b));
                let k = 128 - x.1.max(y.1).leading_zeros();
                ((x.0.max(y.0).max(0), p2(k) - 1), self.dep[*a as usize] | self.dep[*b as usize])
            }
            Node::BXor(a, b) => {
                let (x, y) = (rg(self, *a), rg(self, *b));
                let m = x.1.max(y.1);
                let k = 128 - m.leading_zeros();
                ((0, p2(k) - 1), self.dep[*a as usize] | self.dep[*b as usize])
            }
        }
    }
    fn bdep(&self, b: B) -> bool {
        match &self.bnodes[b as usize] {
            BNode::Le0(t) | BNode::Eq0(t) | BNode::Ne0(t) => self.dep[*t as usize],
            BNode::And(v) | BNode::Or(v) => v.iter().any(|x| self.bdep(*x)),
            _ => false,
        }
    }
    pub fn range(&mut self, t: T) -> (i128, i128) {
        if !self.dep[t as usize] { return self.base[t as usize]; }
        if let Some(r) = self.memo.get(&t) { return *r; }
        let n = self.nodes[t as usize].clone();
        let (r, _) = self.compute(&n, true);
        self.memo.insert(t, r);
        r
    }
    /// Homogeneous part divided by its gcd and with a positive leading coefficient.
    /// Returns (its term if it exists, signed gcd, parts)
    fn hom_key(&self, v: &[(i128, M)]) -> (Option<T>, i128, Vec<(i128, M)>) {
        let mut g = 0;
        for (k, _) in v { g = gcd(g, *k); }
        if v[0].0 < 0 { g = -g; }
        let p: Vec<(i128, M)> = v.iter().map(|(k, m)| (k / g, *m)).collect();
        if p.len() == 1 && p[0].0 == 1 {
            let fs = &self.monos[p[0].1 as usize];
            if fs.len() == 1 { return (Some(fs[0]), g, p); }
        }
        (self.map.get(&Node::Sum(0, Rc::from(p.clone()))).copied(), g, p)
    }

    // ---------------------------------------------------------------- constructors
    pub fn k(&mut self, c: i128) -> T { self.node(Node::Const(c)) }
    pub fn sym(&mut self, name: &str, lo: i128, hi: i128, refinable: bool) -> T {
        let i = self.syms.len() as u32;
        self.syms.push(Sym { name: name.to_string(), lo, hi, refinable, pix: None });
        self.node(Node::Sym(i))
    }
    pub fn sym_term(&mut self, s: u32) -> T { self.node(Node::Sym(s)) }
    pub fn as_const(&self, t: T) -> Option<i128> { if let Node::Const(c) = self.nodes[t as usize] { Some(c) } else { None } }
    /// Constant value, using the known ranges
    pub fn konst(&mut self, t: T) -> Option<i128> {
        if let Some(c) = self.as_const(t) { return Some(c); }
        let r = self.range(t);
        if r.0 == r.1 { Some(r.0) } else { None }
    }
    fn mono(&mut self, mut v: Vec<T>) -> M {
        v.sort();
        // b2i is idempotent
        let nodes = &self.nodes;
        v.dedup_by(|a, b| a == b && matches!(nodes[*a as usize], Node::B2I(_)));
        let v: Rc<[T]> = Rc::from(v);
        if let Some(&i) = self.mmap.get(&v) { return i; }
        let i = self.monos.len() as M;
        self.monos.push(v.clone());
        self.mmap.insert(v, i);
        i
    }
    /// (constant, parts) of a term
    pub fn parts(&mut self, t: T) -> (i128, Vec<(i128, M)>) {
        match &self.nodes[t as usize] {
            Node::Const(c) => (*c, vec![]),
            Node::Sum(c, v) => (*c, v.to_vec()),
            _ => { let m = self.mono(vec![t]); (0, vec![(1, m)]) }
        }
    }
    /// Factors of the terms of a sum
    pub fn atoms(&mut self, t: T) -> Vec<T> {
        let (_, v) = self.parts(t);
        v.iter().flat_map(|(_, m)| self.monos[*m as usize].to_vec()).collect()
    }
    pub fn sum(&mut self, c: i128, mut v: Vec<(i128, M)>) -> T {
        v.sort_by_key(|x| x.1);
        let mut w: Vec<(i128, M)> = Vec::with_capacity(v.len());
        for (k, m) in v {
            if let Some(l) = w.last_mut() { if l.1 == m { l.0 += k; continue; } }
            if let Some(l) = w.last() { if l.0 == 0 { w.pop(); } }
            w.push((k, m));
        }
        if let Some(l) = w.last() { if l.0 == 0 { w.pop(); } }
        if w.is_empty() { return self.k(c); }
        if c == 0 && w.len() == 1 && w[0].0 == 1 {
            let fs = &self.monos[w[0].1 as usize];
            if fs.len() == 1 { return fs[0]; }
        }
        self.node(Node::Sum(c, Rc::from(w)))
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        if a == self.zero { return b; }
        if b == self.zero { return a; }
        let (c1, mut v1) = self.parts(a);
        let (c2, v2) = self.parts(b);
        v1.extend(v2);
        self.sum(c1 + c2, v1)
    }
    pub fn addk(&mut self, a: T, k: i128) -> T {
        if k == 0 { return a; }
        let (c, v) = self.parts(a);
        self.sum(c + k, v)
    }
    pub fn scale(&mut self, a: T, k: i128) -> T {
        if k == 1 { return a; }
        if k == 0 { return self.zero; }
        let (c, v) = self.parts(a);
        let v = v.into_iter().map(|(x, m)| (x.checked_mul(k).expect("coefficient overflow"), m)).collect();
        self.sum(c * k, v)
    }
    pub fn sub(&mut self, a: T, b: T) -> T { let n = self.scale(b, -1); self.add(a, n) }
    pub fn mul(&mut self, a: T, b: T) -> T {
        if let Some(k) = self.as_const(a) { return self.scale(b, k); }
        if let Some(k) = self.as_const(b) { return self.scale(a, k); }
        let (c1, v1) = self.parts(a);
        let (c2, v2) = self.parts(b);
        if (v1.len() + 1) * (v2.len() + 1) > 40 {
            let m = self.mono(vec![a, b]);
            return self.sum(0, vec![(1, m)]);
        }
        let mut v = vec![];
        for (k, m) in &v1 { if c2 != 0 { v.push((k * c2, *m)); } }
        for (k, m) in &v2 { if c1 != 0 { v.push((k * c1, *m)); } }
        for (k, m) in &v1 {
            for (k2, m2) in &v2 {
                let mut f = self.monos[*m as usize].to_vec();
                f.extend(self.monos[*m2 as usize].iter());
                let mm = self.mono(f);
                v.push((k.checked_mul(*k2).expect("coefficient overflow"), mm));
            }
        }
        self.sum(c1 * c2, v)
    }
    fn atom_of(&self, m: M) -> Option<T> { let f = &self.monos[m as usize]; if f.len() == 1 { Some(f[0]) } else { None } }
    fn parts_range(&mut self, c: i128, v: &[(i128, M)]) -> (i128, i128) {
        if v.is_empty() { return (c, c); }
        let t = self.sum(c, v.to_vec());
        self.range(t)
    }
    /// two-valued term c + k * b
    fn two_valued(&self, t: T) -> Option<(B, i128, i128)> {
        match &self.nodes[t as usize] {
            Node::B2I(b) => Some((*b, 1, 0)),
            Node::Sum(c, v) if v.len() == 1 => {
                let a = self.atom_of(v[0].1)?;
                if let Node::B2I(b) = self.nodes[a as usize] { Some((b, c + v[0].0, *c)) } else { None }
            }
            _ => None,
        }
    }
    /// t mod 2^k
    pub fn wrap(&mut self, t: T, k: u32) -> T {
        let m = p2(k);
        let r = self.range(t);
        if r.0 >= 0 && r.1 < m { return t; }
        if let Some(c) = self.as_const(t) { return self.k(c.rem_euclid(m)); }
        if r.0 > -INF && r.1 < INF && r.0 >> k == r.1 >> k { return self.addk(t, -((r.0 >> k) << k)); }
        if let Some((b, x, y)) = self.two_valued(t) {
            let (x, y) = (x.rem_euclid(m), y.rem_euclid(m));
            let (x, y) = (self.k(x), self.k(y));
            return self.ite(b, x, y);
        }
        match self.nodes[t as usize].clone() {
            Node::Mod(u, j) => return self.wrap(u, k.min(j)),
            Node::Ite(b, x, y) if self.as_const(x).is_some() || self.as_const(y).is_some() => {
                let (x, y) = (self.wrap(x, k), self.wrap(y, k));
                return self.ite(b, x, y);
            }
            Node::Sum(c, v) => {
                // flatten inner mods and reduce coefficients symmetrically
                let sym = |x: i128| -> i128 { let y = x.rem_euclid(m); if y > m / 2 { y - m } else { y } };
                let mut c2 = c;
                let mut w: Vec<(i128, M)> = vec![];
                let mut changed = false;
                for (q, mm) in v.iter() {
                    let q2 = sym(*q);
                    if q2 == 0 { changed = true; continue; }
                    if let Some(a) = self.atom_of(*mm) {
                        if let Node::Mod(u, j) = self.nodes[a as usize] {
                            if j >= k || smul(q2, p2(j)) % m == 0 {
                                let (cc, vv) = self.parts(u);
                                c2 += cc.checked_mul(q2).unwrap_or_else(|| sym(cc) * q2);
                                for (x, y) in vv { w.push((sym(sym(x).checked_mul(q2).unwrap()), y)); }
                                changed = true;
                                continue;
                            }
                        }
                    }
                    if let Some(a) = self.atom_of(*mm) {
                        if let Some(d) = self.reduced_div(a, k) {
                            let (cc, vv) = self.parts(d);
                            c2 += cc.checked_mul(q2).unwrap_or_else(|| sym(cc) * q2);
                            for (x, y) in vv { w.push((sym(sym(x).checked_mul(q2).unwrap()), y)); }
                            changed = true;
                            continue;
                        }
                    }
                    let fs = self.monos[*mm as usize].clone();
                    if fs.len() == 2 && fs.iter().any(|f| matches!(self.nodes[*f as usize], Node::Mod(_, j) if j >= k)) {
                        let un = |s: &Ctx, f: T| match s.nodes[f as usize] { Node::Mod(u, j) if j >= k => u, _ => f };
                        let (x, y) = (un(self, fs[0]), un(self, fs[1]));
                        let p = self.mul(x, y);
                        let (cc, vv) = self.parts(p);
                        c2 += sym(cc).checked_mul(q2).unwrap();
                        for (x, y) in vv { w.push((sym(sym(x).checked_mul(q2).unwrap()), y)); }
                        changed = true;
                        continue;
                    }
                    if q2 != *q { changed = true; }
                    w.push((q2, *mm));
                }
                let c3 = sym(c2);
                if c3 != c { changed = true; }
                if changed {
                    let u = self.sum(c3, w);
                    if u != t { return self.wrap(u, k); }
                }
                // low part that cannot carry
                if let Some((lowt, rest, j)) = self.split_low(c, &v, k) {
                    let h = self.wrap(rest, k - j);
                    let h = self.scale(h, p2(j));
                    return self.add(lowt, h);
                }
            }
            Node::Div(..) => if let Some(d) = self.reduced_div(t, k) { return self.wrap(d, k); },
            _ => {}
        }
        self.node(Node::Mod(t, k))
    }
    /// A term that is congruent to the quotient `a` modulo 2^k, with smaller coefficients inside
    fn reduced_div(&mut self, a: T, k: u32) -> Option<T> {
        let Node::Div(u, j) = self.nodes[a as usize] else { return None };
        if k + j > 100 { return None; }
        let Node::Sum(c, v) = self.nodes[u as usize].clone() else { return None };
        let m = p2(k + j);
        let sym = |x: i128| -> i128 { let y = x.rem_euclid(m); if y > m / 2 { y - m } else { y } };
        if v.iter().all(|x| sym(x.0) == x.0) { return None; }
        let w: Vec<(i128, M)> = v.iter().map(|x| (sym(x.0), x.1)).collect();
        let s = self.sum(sym(c), w);
        Some(self.div(s, j))
    }
    /// t = low + 2^j * rest with low in [0, 2^j), 0 < j < k
    fn split_low(&mut self, c: i128, v: &[(i128, M)], k: u32) -> Option<(T, T, u32)> {
        let mut tz: Vec<u32> = v.iter().map(|x| x.0.trailing_zeros()).collect();
        // a symbol may be in several fields
        for x in v { if x.0 > 0 { let y = x.0 & (x.0 - 1); if y != 0 { tz.push(y.trailing_zeros()); } } }
        tz.sort();
        tz.dedup();
        for &j in tz.iter() {
            if j == 0 || j >= k { continue; }
            let cut = |q: i128| -> i128 { if q < 0 { if q.trailing_zeros() >= j { 0 } else { q } } else { q & (p2(j) - 1) } };
            let low: Vec<(i128, M)> = v.iter().map(|x| (cut(x.0), x.1)).filter(|x| x.0 != 0).collect();
            let cl = c.rem_euclid(p2(j));
            if low.is_empty() && cl == 0 {
                let rest: Vec<(i128, M)> = v.iter().map(|x| (x.0 >> j, x.1)).collect();
                let r = self.sum(c >> j, rest);
                return Some((self.zero, r, j));
            }
            let r = self.parts_range(cl, &low);
            if r.0 >= 0 && r.1 < p2(j) {
                let lowt = self.sum(cl, low);
                let rest: Vec<(i128, M)> = v.iter().map(|x| ((x.0 - cut(x.0)) >> j, x.1)).filter(|x| x.0 != 0).collect();
                let rest = self.sum(c >> j, rest);
                return Some((lowt, rest, j));
            }
        }
        None
    }
    /// floor(t / 2^k)
    pub fn div(&mut self, t: T, k: u32) -> T {
        if k == 0 { return t; }
        let r = self.range(t);
        if r.0 > -INF && r.1 < INF && r.0 >> k == r.1 >> k { return self.k(r.0 >> k); }
        if let Some((b, x, y)) = self.two_valued(t) {
            let (x, y) = (self.k(x >> k), self.k(y >> k));
            return self.ite(b, x, y);
        }
        match self.nodes[t as usize].clone() {
            Node::Mod(u, j) => {
                if j <= k { return self.zero; }
                let d = self.div(u, k);
                return self.wrap(d, j - k);
            }
            Node::Div(u, j) => return self.div(u, j + k),
            Node::Ite(b, x, y) if self.as_const(x).is_some() || self.as_const(y).is_some() => {
                let (x, y) = (self.div(x, k), self.div(y, k));
                return self.ite(b, x, y);
            }
            Node::Sum(c, v) => {
                // parts that are multiples of 2^k come out
                let whole: Vec<(i128, M)> = v.iter().map(|x| (x.0 / p2(k), x.1)).filter(|x| x.0 != 0).collect();
                if !whole.is_empty() || c >> k != 0 {
                    let rest: Vec<(i128, M)> = v.iter().map(|x| (x.0 % p2(k), x.1)).filter(|x| x.0 != 0).collect();
                    let rest = self.sum(c.rem_euclid(p2(k)), rest);
                    let d = self.div(rest, k);
                    let w = self.sum(c >> k, whole);
                    return self.add(d, w);
                }
                if let Some((_, rest, j)) = self.split_low(c, &v, k) { return self.div(rest, k - j); }
                // common power of two with a constant remainder
                let tz = v.iter().map(|x| x.0.trailing_zeros()).min().unwrap();
                if tz > 0 {
                    let tz = tz.min(k);
                    let w: Vec<(i128, M)> = v.iter().map(|x| (x.0 >> tz, x.1)).collect();
                    let u = self.sum(c >> tz, w);
                    return self.div(u, k - tz);
                }
            }
            _ => {}
        }
        self.node(Node::Div(t, k))
    }
    pub fn sgn(&mut self, t: T, w: u32) -> T {
        let h = p2(w - 1);
        let r = self.range(t);
        if r.1 < h { return t; }
        if r.0 >= h { return self.addk(t, -p2(w)); }
        if let Node::Mod(u, j) = self.nodes[t as usize] {
            if j == w {
                let r = self.range(u);
                if r.0 >= -h && r.1 < h { return u; }
            }
        }
        let a = self.addk(t, h);
        let a = self.wrap(a, w);
        self.addk(a, -h)
    }
    pub fn ite(&mut self, c: B, a: T, b: T) -> T {
        if c == TRUE { return a; }
        if c == FALSE { return b; }
        if a == b { return a; }
        let d = self.sub(a, b);
        if let Some(k) = self.as_const(d) {
            let (p, neg) = self.canon(c);
            let i = self.node(Node::B2I(p));
            let i = if neg { let n = self.scale(i, -1); self.addk(n, 1) } else { i };
            let s = self.scale(i, k);
            return self.add(s, b);
        }
        let (p, neg) = self.canon(c);
        if neg { self.node(Node::Ite(p, b, a)) } else { self.node(Node::Ite(c, a, b)) }
    }
    fn canon(&mut self, c: B) -> (B, bool) {
        let n = self.not(c);
        if n < c { (n, true) } else { (c, false) }
    }
    pub fn b2i(&mut self, c: B) -> T { let (o, z) = (self.one, self.zero); self.ite(c, o, z) }
    pub fn clamp(&mut self, t: T, lo: i128, hi: i128) -> T {
        let r = self.range(t);
        if r.0 >= lo && r.1 <= hi { return t; }
        if r.1 <= lo { return self.k(lo); }
        if r.0 >= hi { return self.k(hi); }
        if let Some((b, x, y)) = self.two_valued(t) {
            let (x, y) = (self.k(x.max(lo).min(hi)), self.k(y.max(lo).min(hi)));
            return self.ite(b, x, y);
        }
        // sides that cannot be exceeded are normalised away
        let lo2 = if r.0 >= lo { -INF } else { lo };
        let hi2 = if r.1 <= hi { INF } else { hi };
        if let Node::Clamp(u, l, h) = self.nodes[t as usize] {
            if lo2.max(l) <= hi2.min(h) { return self.clamp(u, lo2.max(l), hi2.min(h)); }
        }
        self.node(Node::Clamp(t, lo2, hi2))
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        if let Some(k) = self.konst(b) {
            if k > 0 && k & (k - 1) == 0 { return self.div(a, k.trailing_zeros()); }
            if let Some(x) = self.konst(a) { if k > 0 { return self.k(x / k); } }
            if k > 0 {
                // exact multiples
                let (c, v) = self.parts(a);
                if c % k == 0 && v.iter().all(|x| x.0 % k == 0) {
                    let v = v.into_iter().map(|x| (x.0 / k, x.1)).collect();
                    return self.sum(c / k, v);
                }
            }
        }
        let (x, y) = (self.range(a), self.range(b));
        if y.0 > 0 && x.0 >= 0 && x.1 < y.0 { return self.zero; }
        self.node(Node::UDiv(a, b))
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        if let Some(k) = self.konst(b) {
            if k > 0 && k & (k - 1) == 0 { return self.wrap(a, k.trailing_zeros()); }
            if let Some(x) = self.konst(a) { if k > 0 { return self.k(x % k); } }
        }
        let (x, y) = (self.range(a), self.range(b));
        if y.0 > 0 && x.0 >= 0 && x.1 < y.0 { return a; }
        self.node(Node::URem(a, b))
    }
    /// Bits that may be nonzero
    pub fn nzmask(&mut self, t: T) -> u128 {
        let r = self.range(t);
        if r.0 < 0 || r.1 >= INF { return !0; }
        let up = if r.1 == 0 { 0 } else { (!0u128) >> (r.1 as u128).leading_zeros() };
        match self.nodes[t as usize].clone() {
            Node::Const(c) => c as u128,
            Node::Sum(c, v) => {
                if c < 0 { return up; }
                let mut m = c as u128;
                for (k, mm) in v.iter() {
                    let fallback = |c: i128| { let tz = v.iter().map(|x| x.0.trailing_zeros()).min().unwrap().min(if c == 0 { 127 } else { c.trailing_zeros() }); up & !((1u128 << tz) - 1) };
                    if *k < 0 || k.count_ones() > 8 { return fallback(c); }
                    let a = match self.atom_of(*mm) { Some(a) => self.nzmask(a), None => { let t = self.sum(0, vec![(1, *mm)]); let r = self.range(t); if r.0 < 0 || r.1 >= INF { return up; } if r.1 == 0 { 0 } else { (!0u128) >> (r.1 as u128).leading_zeros() } } };
                    // fields that do not overlap
                    for i in 0..127 {
                        if k >> i & 1 == 0 { continue; }
                        if a != 0 && a.leading_zeros() <= i { return fallback(c); }
                        let a = a << i;
                        if a & m != 0 { return fallback(c); }
                        m |= a;
                    }
                }
                m & up
            }
            Node::Ite(_, a, b) => (self.nzmask(a) | self.nzmask(b)) & up,
            Node::BAnd(a, b) => self.nzmask(a) & self.nzmask(b) & up,
            Node::BOr(a, b) => (self.nzmask(a) | self.nzmask(b)) & up,
            _ => up,
        }
    }
    fn and_mask(&mut self, t: T, m: u128) -> T {
        let nz = self.nzmask(t);
        if nz & !m == 0 { return t; }
        let m = m & nz;
        if m == 0 { return self.zero; }
        let mut res = self.zero;
        let mut i = 0u32;
        // runs are extended over bits known to be zero
        while i < 127 {
            if m >> i & 1 == 1 {
                let mut j = i;
                let mut last = i;
                while j < 127 && (m >> j & 1 == 1 || nz >> j & 1 == 0) {
                    if m >> j & 1 == 1 { last = j; }
                    j += 1;
                    if nz >> j == 0 { break; }
                }
                let d = self.div(t, i);
                let d = if nz >> (last + 1) == 0 { d } else { self.wrap(d, last + 1 - i) };
                let s = self.scale(d, p2(i));
                res = self.add(res, s);
                i = last + 1;
            } else {
                i += 1;
            }
        }
        res
    }
    pub fn band(&mut self, a: T, b: T, w: u32) -> T {
        if a == b { return a; }
        if let Some(k) = self.as_const(a) { return self.and_mask(b, k as u128); }
        if let Some(k) = self.as_const(b) { return self.and_mask(a, k as u128); }
        let ones = p2(w) - 1;
        for (x, y) in [(a, b), (b, a)] {
            if let Some((c, p, q)) = self.two_valued(x) {
                if (p == ones || p == 0) && (q == ones || q == 0) {
                    let z = self.zero;
                    let (u, v) = (if p == ones { y } else { z }, if q == ones { y } else { z });
                    return self.ite(c, u, v);
                }
                let u = self.and_mask(y, p as u128);
                let v = self.and_mask(y, q as u128);
                return self.ite(c, u, v);
            }
        }
        let (x, y) = (self.nzmask(a), self.nzmask(b));
        if x & y == 0 { return self.zero; }
        let (a, b) = if x & y != x || x & y != y { (self.and_mask(a, y), self.and_mask(b, x)) } else { (a, b) };
        if a == b { return a; }
        if self.as_const(a).is_some() || self.as_const(b).is_some() { return self.band(a, b, w); }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.node(Node::BAnd(a, b))
    }
    pub fn bor(&mut self, a: T, b: T, w: u32) -> T {
        if a == b || self.as_const(b) == Some(0) { return a; }
        if self.as_const(a) == Some(0) { return b; }
        let i = self.band(a, b, w);
        if matches!(self.nodes[i as usize], Node::BAnd(..)) {
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            return self.node(Node::BOr(a, b));
        }
        let s = self.add(a, b);
        self.sub(s, i)
    }
    pub fn bxor(&mut self, a: T, b: T, w: u32) -> T {
        if a == b { return self.zero; }
        let n = self.nodes.len();
        let i = self.band(a, b, w);
        let leftover = matches!(self.nodes[i as usize], Node::BAnd(..)) && i as usize >= n;
        if leftover {
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            return self.node(Node::BXor(a, b));
        }
        let s = self.add(a, b);
        let i2 = self.scale(i, 2);
        self.sub(s, i2)
    }

    // ---------------------------------------------------------------- booleans
    pub fn le0(&mut self, t: T) -> B {
        let r = self.range(t);
        if r.1 <= 0 { return TRUE; }
        if r.0 > 0 { return FALSE; }
        if let Some((b, x, y)) = self.two_valued(t) {
            return match (x <= 0, y <= 0) { (true, true) => TRUE, (false, false) => FALSE, (true, false) => b, (false, true) => self.not(b) };
        }
        match self.nodes[t as usize].clone() {
            Node::Sum(c, v) => {
                let mut g = 0;
                for x in v.iter() { g = gcd(g, x.0); }
                if g > 1 {
                    // g*s + c <= 0  <=>  s <= floor(-c/g)
                    let f = (-c).div_euclid(g);
                    let w = v.iter().map(|x| (x.0 / g, x.1)).collect();
                    let u = self.sum(-f, w);
                    return self.le0(u);
                }
                // x > C / d, with d symbolic: comparisons against a quotient become products
                if v.iter().any(|x| self.is_udiv(x.1)) {
                    if let Some(b) = self.le_udiv(c, &v) { return b; }
                }
            }
            _ => {}
        }
        self.b(BNode::Le0(t))
    }
    fn is_udiv(&self, m: M) -> bool { self.atom_of(m).map_or(false, |a| matches!(self.nodes[a as usize], Node::UDiv(..))) }
    fn le_udiv(&mut self, c: i128, v: &[(i128, M)]) -> Option<B> {
        let qs: Vec<&(i128, M)> = v.iter().filter(|x| self.is_udiv(x.1)).collect();
        if qs.len() != 1 { return None; }
        let (k, m) = *qs[0];
        let a = self.atom_of(m)?;
        let Node::UDiv(n, d) = self.nodes[a as usize] else { return None };
        if self.range(d).0 <= 0 { return None; }
        let rest: Vec<(i128, M)> = v.iter().filter(|x| x.1 != m).cloned().collect();
        let r = self.sum(c, rest);
        if k == -1 {
            // r <= floor(n/d)  <=>  r*d <= n
            let p = self.mul(r, d);
            let q = self.sub(p, n);
            Some(self.le0(q))
        } else if k == 1 {
            // floor(n/d) <= -r  <=>  n < (1-r)*d  <=> n - (1-r)*d + 1 <= 0
            let x = self.scale(r, -1);
            let x = self.addk(x, 1);
            let p = self.mul(x, d);
            let q = self.sub(n, p);
            let q = self.addk(q, 1);
            Some(self.le0(q))
        } else { None }
    }
    pub fn eq0(&mut self, t: T) -> B {
        let r = self.range(t);
        if r.0 > 0 || r.1 < 0 { return FALSE; }
        if r.0 == 0 && r.1 == 0 { return TRUE; }
        if let Node::BOr(x, y) = self.nodes[t as usize] {
            let (p, q) = (self.eq0(x), self.eq0(y));
            return self.and(&[p, q]);
        }
        if let Some((b, x, y)) = self.two_valued(t) {
            return match (x == 0, y == 0) { (true, true) => TRUE, (false, false) => FALSE, (true, false) => b, (false, true) => self.not(b) };
        }
        match self.nodes[t as usize].clone() {
            Node::Sum(c, v) => {
                let mut g = 0;
                for x in v.iter() { g = gcd(g, x.0); }
                if c % g != 0 { return FALSE; }
                if v[0].0 < 0 { g = -g; }
                if g != 1 {
                    let w = v.iter().map(|x| (x.0 / g, x.1)).collect();
                    let u = self.sum(c / g, w);
                    return self.eq0(u);
                }
                // ite with a constant branch
                if v.len() == 1 {
                    if let Some(a) = self.atom_of(v[0].1) {
                        if let Node::Ite(b, x, y) = self.nodes[a as usize] {
                            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                                let (x, y) = (self.addk(x, c), self.addk(y, c));
                                let (p, q) = (self.eq0(x), self.eq0(y));
                                return self.bite(b, p, q);
                            }
                        }
                    }
                }
            }
            Node::Mod(u, k) => {
                let r = self.range(u);
                let m = p2(k);
                let (lo, hi) = (-(-r.0).div_euclid(m), r.1.div_euclid(m));
                if lo > hi { return FALSE; }
                if lo == hi { let u = self.addk(u, -lo * m); return self.eq0(u); }
                // (x - r)(x - s) with r - s odd: one factor is odd, so the other is a multiple of 2^k
                if let Some((x, r, s)) = self.odd_factors(u) {
                    let (p, q) = (self.addk(x, -r), self.addk(x, -s));
                    let (p, q) = (self.wrap(p, k), self.wrap(q, k));
                    let (p, q) = (self.eq0(p), self.eq0(q));
                    return self.or(&[p, q]);
                }
            }
            _ => {}
        }
        // a nonnegative (nonpositive) term is zero iff it is <= 0 (>= 0)
        if r.0 == 0 { return self.b(BNode::Le0(t)); }
        if r.1 == 0 { let n = self.scale(t, -1); return self.b(BNode::Le0(n)); }
        self.b(BNode::Eq0(t))
    }
    /// u = (x - r) (x - s) for integers r and s of different parity
    fn odd_factors(&self, u: T) -> Option<(T, i128, i128)> {
        let Node::Sum(c, v) = &self.nodes[u as usize] else { return None };
        let (mut x, mut a, mut b) = (None, 0, 0);
        for (k, m) in v.iter() {
            let f = &self.monos[*m as usize];
            if f.is_empty() || f.len() > 2 || f.iter().any(|t| *t != f[0]) || x.map_or(false, |y| y != f[0]) { return None; }
            x = Some(f[0]);
            if f.len() == 2 { a = *k } else { b = *k }
        }
        if a != 1 || b % 2 == 0 || b.abs() > p2(40) || c.abs() > p2(40) { return None; }
        let d = b * b - 4 * c;
        if d < 0 { return None; }
        let mut q = (d as f64).sqrt() as i128;
        while q * q > d { q -= 1; }
        while (q + 1) * (q + 1) <= d { q += 1; }
        if q * q != d || q % 2 == 0 { return None; }
        Some((x?, (-b + q) / 2, (-b - q) / 2))
    }
    pub fn bite(&mut self, c: B, p: B, q: B) -> B {
        if c == TRUE { return p; }
        if c == FALSE { return q; }
        if p == q { return p; }
        let n = self.not(c);
        let a = self.and(&[c, p]);
        let b = self.and(&[n, q]);
        self.or(&[a, b])
    }
    pub fn not(&mut self, b: B) -> B {
        match self.bnodes[b as usize].clone() {
            BNode::True => FALSE,
            BNode::False => TRUE,
            BNode::Le0(t) => { let n = self.scale(t, -1); let n = self.addk(n, 1); self.b(BNode::Le0(n)) }
            BNode::Eq0(t) => self.b(BNode::Ne0(t)),
            BNode::Ne0(t) => self.b(BNode::Eq0(t)),
            BNode::And(v) => { let w: Vec<B> = v.iter().map(|x| self.not(*x)).collect(); self.or(&w) }
            BNode::Or(v) => { let w: Vec<B> = v.iter().map(|x| self.not(*x)).collect(); self.and(&w) }
        }
    }
    pub fn and(&mut self, v: &[B]) -> B {
        let mut w: Vec<B> = vec![];
        for &x in v {
            if x == FALSE { return FALSE; }
            if x == TRUE { continue; }
            if let BNode::And(u) = self.bnodes[x as usize].clone() { w.extend(u.iter()); } else { w.push(x); }
        }
        w.sort();
        w.dedup();
        for i in 0..w.len() { let n = self.not(w[i]); if w.binary_search(&n).is_ok() { return FALSE; } }
        match w.len() { 0 => TRUE, 1 => w[0], _ => self.b(BNode::And(Rc::from(w))) }
    }
    pub fn or(&mut self, v: &[B]) -> B {
        let mut w: Vec<B> = vec![];
        for &x in v {
            if x == TRUE { return TRUE; }
            if x == FALSE { continue; }
            if let BNode::Or(u) = self.bnodes[x as usize].clone() { w.extend(u.iter()); } else { w.push(x); }
        }
        w.sort();
        w.dedup();
        for i in 0..w.len() { let n = self.not(w[i]); if w.binary_search(&n).is_ok() { return TRUE; } }
        match w.len() { 0 => FALSE, 1 => w[0], _ => self.b(BNode::Or(Rc::from(w))) }
    }
    pub fn bxor_b(&mut self, a: B, b: B) -> B { let n = self.not(b); self.bite(a, n, b) }
    pub fn le(&mut self, a: T, b: T) -> B { let d = self.sub(a, b); self.le0(d) }
    /// t >= 0
    pub fn not_neg(&mut self, t: T) -> B { let n = self.scale(t, -1); self.le0(n) }
    pub fn lt(&mut self, a: T, b: T) -> B { let d = self.sub(a, b); let d = self.addk(d, 1); self.le0(d) }
    pub fn eq(&mut self, a: T, b: T) -> B { let d = self.sub(a, b); self.eq0(d) }

    /// Re-evaluates a formula under the current ranges
    pub fn simp(&mut self, b: B) -> B {
        match self.bnodes[b as usize].clone() {
            BNode::True | BNode::False => b,
            BNode::Le0(t) => { let r = self.range(t); if r.1 <= 0 { TRUE } else if r.0 > 0 { FALSE } else { b } }
            BNode::Eq0(t) => { let r = self.range(t); if r.0 == 0 && r.1 == 0 { TRUE } else if r.0 > 0 || r.1 < 0 { FALSE } else { b } }
            BNode::Ne0(t) => { let r = self.range(t); if r.0 == 0 && r.1 == 0 { FALSE } else if r.0 > 0 || r.1 < 0 { TRUE } else { b } }
            BNode::And(v) => { let w: Vec<B> = v.iter().map(|x| self.simp(*x)).collect(); self.and(&w) }
            BNode::Or(v) => { let w: Vec<B> = v.iter().map(|x| self.simp(*x)).collect(); self.or(&w) }
        }
    }

    // ---------------------------------------------------------------- assumptions
    /// Environment strengthened with b
    pub fn assume(&mut self, env: &Rc<Env>, b: B) -> Rc<Env> {
        let mut e: Env = (**env).clone();
        if b != TRUE { e.cons.push(b); }
        self.set_env(env);
        let mut e = Rc::new(e);
        if b == TRUE { return e; }
        let cons = e.cons.clone();
        for pass in 0..4 {
            let mut changed = false;
            let n = cons.len();
            // the new fact first
            for i in (0..n).rev() {
                if pass > 0 && !changed && i < n.saturating_sub(64) { break; }
                let new = self.absorb(&e, cons[i]);
                if let Some(ne) = new { changed = true; e = Rc::new(ne); }
            }
            if !changed { break; }
        }
        e
    }
    fn absorb(&mut self, e: &Rc<Env>, b: B) -> Option<Env> {
        match self.bnodes[b as usize].clone() {
            BNode::Le0(t) => self.absorb_le(e, t),
            BNode::Eq0(t) => {
                let a = self.absorb_le(e, t);
                let n = self.scale(t, -1);
                let base = a.clone().map(Rc::new).unwrap_or_else(|| e.clone());
                let c = self.absorb_le(&base, n);
                c.or(a)
            }
            BNode::Ne0(t) => {
                self.set_env(e);
                let (c, v) = self.parts(t);
                if v.len() == 1 && v[0].0 == 1 {
                    let m = self.sum(0, v.clone());
                    let r = self.range(m);
                    if r.0 == -c { let mut n = (**e).clone(); self.bound(&mut n, m, (r.0 + 1, INF)); return Some(n); }
                    if r.1 == -c { let mut n = (**e).clone(); self.bound(&mut n, m, (-INF, r.1 - 1)); return Some(n); }
                }
                None
            }
            BNode::And(v) => {
                let mut cur: Option<Env> = None;
                for x in v.iter() {
                    let base = cur.clone().map(Rc::new).unwrap_or_else(|| e.clone());
                    if let Some(n) = self.absorb(&base, *x) { cur = Some(n); }
                }
                cur
            }
            BNode::False => { if e.infeasible { None } else { let mut n = (**e).clone(); n.infeasible = true; Some(n) } }
            _ => None,
        }
    }
    fn bound(&mut self, e: &mut Env, t: T, r: (i128, i128)) {
        if let Node::Sym(s) = self.nodes[t as usize] {
            if self.syms[s as usize].refinable {
                let x = e.sym.entry(s).or_insert((-INF, INF));
                *x = (x.0.max(r.0), x.1.min(r.1));
                if x.0 > x.1 { e.infeasible = true; }
                return;
            }
        }
        if self.dep[t as usize] {
            let x = e.hom.entry(t).or_insert((-INF, INF));
            *x = (x.0.max(r.0), x.1.min(r.1));
            if x.0 > x.1 { e.infeasible = true; }
        }
    }
    fn absorb_le(&mut self, e: &Rc<Env>, t: T) -> Option<Env> {
        if !self.dep[t as usize] { return None; }
        self.set_env(e);
        let (c, v) = self.parts(t);
        if v.is_empty() { return None; }
        let mut out: Option<Env> = None;
        // whole homogeneous part: g*h + c <= 0
        let (_, g, p) = self.hom_key(&v);
        let h = self.sum(0, p);
        let cur = self.range(h);
        if g > 0 {
            let hi = (-c).div_euclid(g);
            if hi < cur.1 { let mut n = (**e).clone(); self.bound(&mut n, h, (-INF, hi)); out = Some(n); }
        } else {
            // -|g|*h <= -c  =>  h >= ceil(c/|g|)
            let q = -g;
            let lo = -((-c).div_euclid(q));
            if lo > cur.0 { let mut n = (**e).clone(); self.bound(&mut n, h, (lo, INF)); out = Some(n); }
        }
        if v.len() > 1 {
            for i in 0..v.len() {
                let others: Vec<(i128, M)> = v.iter().enumerate().filter(|x| x.0 != i).map(|x| *x.1).collect();
                let mut lo = c;
                for (k, m) in &others {
                    let mt = self.sum(0, vec![(1, *m)]);
                    let r = self.range(mt);
                    lo = sadd(lo, mul_range(r, (*k, *k)).0);
                }
                if lo <= -INF { continue; }
                let (k, m) = v[i];
                let mt = self.sum(0, vec![(1, m)]);
                let r = self.range(mt);
                // k*m <= -lo
                if k > 0 {
                    let hi = (-lo).div_euclid(k);
                    if hi < r.1 { let mut n = out.take().unwrap_or_else(|| (**e).clone()); self.bound_mono(&mut n, mt, m, (-INF, hi)); out = Some(n); }
                } else {
                    let q = -k;
                    let l = -((-lo).div_euclid(q));
                    if l > r.0 { let mut n = out.take().unwrap_or_else(|| (**e).clone()); self.bound_mono(&mut n, mt, m, (l, INF)); out = Some(n); }
                }
            }
        } else {
            let (k, m) = v[0];
            let _ = k;
            if self.monos[m as usize].len() > 1 {
                if let Some(n) = out.as_mut() { let r = n.hom.get(&h).copied(); if let Some(r) = r { let mut n2 = n.clone(); self.bound_mono(&mut n2, h, m, r); out = Some(n2); } }
            }
        }
        out
    }
    fn bound_mono(&mut self, e: &mut Env, mt: T, m: M, r: (i128, i128)) {
        self.bound(e, mt, r);
        let fs = self.monos[m as usize].clone();
        if fs.len() == 2 {
            for (a, b) in [(fs[0], fs[1]), (fs[1], fs[0])] {
                let rb = self.range(b);
                let ra = self.range(a);
                if rb.0 >= 1 && ra.0 >= 0 && r.1 < INF {
                    let hi = r.1 / rb.0;
                    if hi < ra.1 { self.bound(e, a, (-INF, hi)); }
                }
            }
        }
    }
    fn walk(&self, b: &[B], ts: &[T], f: &mut dyn FnMut(T, &Node)) {
        let mut seen = std::collections::HashSet::new();
        let mut seenb = std::collections::HashSet::new();
        let mut st: Vec<T> = ts.to_vec();
        let mut sb: Vec<B> = b.to_vec();
        loop {
            if let Some(x) = sb.pop() {
                if !seenb.insert(x) { continue; }
                match &self.bnodes[x as usize] {
                    BNode::Le0(t) | BNode::Eq0(t) | BNode::Ne0(t) => st.push(*t),
                    BNode::And(v) | BNode::Or(v) => sb.extend(v.iter()),
                    _ => {}
                }
                continue;
            }
            let Some(t) = st.pop() else { break };
            if !seen.insert(t) { continue; }
            f(t, &self.nodes[t as usize]);
            match &self.nodes[t as usize] {
                Node::Const(_) | Node::Sym(_) => {}
                Node::Sum(_, v) => for (_, m) in v.iter() { st.extend(self.monos[*m as usize].iter()); },
                Node::Mod(t, _) | Node::Div(t, _) | Node::Clamp(t, _, _) => st.push(*t),
                Node::UDiv(a, b) | Node::URem(a, b) | Node::BAnd(a, b) | Node::BXor(a, b) | Node::BOr(a, b) => { st.push(*a); st.push(*b); }
                Node::Ite(c, a, b) => { sb.push(*c); st.push(*a); st.push(*b); }
                Node::B2I(c) => sb.push(*c),
            }
        }
    }
    /// Operands of bitwise nodes below the formulas
    pub fn bit_operands(&self, b: &[B]) -> Vec<T> {
        let mut out = vec![];
        self.walk(b, &[], &mut |t, n| { let _ = t; if let Node::BAnd(a, b) | Node::BXor(a, b) | Node::BOr(a, b) = n { out.push(*a); out.push(*b); } });
        out
    }
    pub fn collect_syms(&self, b: &[B], ts: &[T]) -> Vec<u32> {
        let mut out = vec![];
        self.walk(b, ts, &mut |_, n| { if let Node::Sym(s) = n { out.push(*s); } });
        out.sort();
        out
    }
    // ---------------------------------------------------------------- evaluation under a model
    pub fn eval(&self, t: T, m: &HashMap<u32, i128>, memo: &mut HashMap<T, i128>) -> i128 {
        if let Some(x) = memo.get(&t) { return *x; }
        let r = match &self.nodes[t as usize] {
            Node::Const(c) => *c,
            Node::Sym(s) => m.get(s).copied().unwrap_or_else(|| { let y = &self.syms[*s as usize]; if y.lo <= 0 && y.hi >= 0 { 0 } else { y.lo } }),
            Node::Sum(c, v) => {
                let mut r = *c;
                for (k, mm) in v.iter() {
                    let mut q = *k;
                    for f in self.monos[*mm as usize].iter() { q = q.wrapping_mul(self.eval(*f, m, memo)); }
                    r = r.wrapping_add(q);
                }
                r
            }
            Node::Mod(t, k) => self.eval(*t, m, memo).rem_euclid(p2(*k)),
            Node::Div(t, k) => self.eval(*t, m, memo) >> k,
            Node::UDiv(a, b) => { let d = self.eval(*b, m, memo); if d == 0 { 0 } else { self.eval(*a, m, memo) / d } }
            Node::URem(a, b) => { let d = self.eval(*b, m, memo); if d == 0 { 0 } else { self.eval(*a, m, memo) % d } }
            Node::Ite(c, a, b) => if self.beval(*c, m, memo) { self.eval(*a, m, memo) } else { self.eval(*b, m, memo) },
            Node::B2I(c) => self.beval(*c, m, memo) as i128,
            Node::Clamp(t, lo, hi) => self.eval(*t, m, memo).max(*lo).min(*hi),
            Node::BAnd(a, b) => self.eval(*a, m, memo) & self.eval(*b, m, memo),
            Node::BOr(a, b) => self.eval(*a, m, memo) | self.eval(*b, m, memo),
            Node::BXor(a, b) => self.eval(*a, m, memo) ^ self.eval(*b, m, memo),
        };
        memo.insert(t, r);
        r
    }
    pub fn beval(&self, b: B, m: &HashMap<u32, i128>, memo: &mut HashMap<T, i128>) -> bool {
        match &self.bnodes[b as usize] {
            BNode::True => true,
            BNode::False => false,
            BNode::Le0(t) => self.eval(*t, m, memo) <= 0,
            BNode::Eq0(t) => self.eval(*t, m, memo) == 0,
            BNode::Ne0(t) => self.eval(*t, m, memo) != 0,
            BNode::And(v) => v.clone().iter().all(|x| self.beval(*x, m, memo)),
            BNode::Or(v) => v.clone().iter().any(|x| self.beval(*x, m, memo)),
        }
    }
    /// The term with symbols replaced
    pub fn subst(&mut self, t: T, map: &HashMap<T, T>, memo: &mut HashMap<T, T>, bmemo: &mut HashMap<B, B>) -> T {
        if let Some(x) = map.get(&t) { return *x; }
        if let Some(x) = memo.get(&t) { return *x; }
        let n = self.nodes[t as usize].clone();
        let r = match n {
            Node::Const(_) | Node::Sym(_) => t,
            Node::Sum(c, v) => {
                let mut r = self.k(c);
                for (k, m) in v.iter() {
                    let f = self.monos[*m as usize].clone();
                    let mut q = self.one;
                    for x in f.iter() { let y = self.subst(*x, map, memo, bmemo); q = self.mul(q, y); }
                    let q = self.scale(q, *k);
                    r = self.add(r, q);
                }
                r
            }
            Node::Mod(a, k) => { let a = self.subst(a, map, memo, bmemo); self.wrap(a, k) }
            Node::Div(a, k) => { let a = self.subst(a, map, memo, bmemo); self.div(a, k) }
            Node::UDiv(a, b) => { let (a, b) = (self.subst(a, map, memo, bmemo), self.subst(b, map, memo, bmemo)); self.udiv(a, b) }
            Node::URem(a, b) => { let (a, b) = (self.subst(a, map, memo, bmemo), self.subst(b, map, memo, bmemo)); self.urem(a, b) }
            Node::Ite(c, a, b) => { let c = self.bsubst(c, map, memo, bmemo); let (a, b) = (self.subst(a, map, memo, bmemo), self.subst(b, map, memo, bmemo)); self.ite(c, a, b) }
            Node::B2I(c) => { let c = self.bsubst(c, map, memo, bmemo); self.b2i(c) }
            Node::Clamp(a, lo, hi) => { let a = self.subst(a, map, memo, bmemo); self.clamp(a, lo, hi) }
            Node::BAnd(a, b) => { let (a, b) = (self.subst(a, map, memo, bmemo), self.subst(b, map, memo, bmemo)); self.band(a, b, 64) }
            Node::BOr(a, b) => { let (a, b) = (self.subst(a, map, memo, bmemo), self.subst(b, map, memo, bmemo)); self.bor(a, b, 64) }
            Node::BXor(a, b) => { let (a, b) = (self.subst(a, map, memo, bmemo), self.subst(b, map, memo, bmemo)); self.bxor(a, b, 64) }
        };
        memo.insert(t, r);
        r
    }
    fn bsubst(&mut self, b: B, map: &HashMap<T, T>, memo: &mut HashMap<T, T>, bmemo: &mut HashMap<B, B>) -> B {
        if let Some(x) = bmemo.get(&b) { return *x; }
        let n = self.bnodes[b as usize].clone();
        let r = match n {
            BNode::True | BNode::False => b,
            BNode::Le0(t) => { let t = self.subst(t, map, memo, bmemo); self.le0(t) }
            BNode::Eq0(t) => { let t = self.subst(t, map, memo, bmemo); self.eq0(t) }
            BNode::Ne0(t) => { let t = self.subst(t, map, memo, bmemo); let e = self.eq0(t); self.not(e) }
            BNode::And(v) => { let v: Vec<B> = v.iter().map(|x| self.bsubst(*x, map, memo, bmemo)).collect(); self.and(&v) }
            BNode::Or(v) => { let v: Vec<B> = v.iter().map(|x| self.bsubst(*x, map, memo, bmemo)).collect(); self.or(&v) }
        };
        bmemo.insert(b, r);
        r
    }
    pub fn show(&self, t: T) -> String {
        match &self.nodes[t as usize] {
            Node::Const(c) => format!("{c}"),
            Node::Sym(s) => self.syms[*s as usize].name.clone(),
            Node::Sum(c, v) => {
                let mut s = String::from("(");
                for (i, (k, m)) in v.iter().enumerate() {
                    if i > 0 { s.push_str(" + "); }
                    if *k != 1 { s.push_str(&format!("{k}*")); }
                    s.push_str(&self.monos[*m as usize].iter().map(|x| self.show(*x)).collect::<Vec<_>>().join("*"));
                }
                if *c != 0 { s.push_str(&format!(" + {c}")); }
                s.push(')');
                s
            }
            Node::Mod(t, k) => format!("({} mod 2^{k})", self.show(*t)),
            Node::Div(t, k) => format!("({} >> {k})", self.show(*t)),
            Node::UDiv(a, b) => format!("({} / {})", self.show(*a), self.show(*b)),
            Node::URem(a, b) => format!("({} % {})", self.show(*a), self.show(*b)),
            Node::Ite(c, a, b) => format!("({} ? {} : {})", self.bshow(*c), self.show(*a), self.show(*b)),
            Node::B2I(c) => format!("[{}]", self.bshow(*c)),
            Node::Clamp(t, a, b) => format!("clamp({},{},{})", self.show(*t), if *a <= -INF { "-".into() } else { a.to_string() }, if *b >= INF { "-".into() } else { b.to_string() }),
            Node::BAnd(a, b) => format!("({} & {})", self.show(*a), self.show(*b)),
            Node::BOr(a, b) => format!("({} | {})", self.show(*a), self.show(*b)),
            Node::BXor(a, b) => format!("({} ^ {})", self.show(*a), self.show(*b)),
        }
    }
    pub fn bshow(&self, b: B) -> String {
        match &self.bnodes[b as usize] {
            BNode::True => "true".into(),
            BNode::False => "false".into(),
            BNode::Le0(t) => format!("{} <= 0", self.show(*t)),
            BNode::Eq0(t) => format!("{} == 0", self.show(*t)),
            BNode::Ne0(t) => format!("{} != 0", self.show(*t)),
            BNode::And(v) => format!("({})", v.iter().map(|x| self.bshow(*x)).collect::<Vec<_>>().join(" && ")),
            BNode::Or(v) => format!("({})", v.iter().map(|x| self.bshow(*x)).collect::<Vec<_>>().join(" || ")),
        }
    }
}

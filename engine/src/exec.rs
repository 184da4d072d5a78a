//! Symbolic executor for the parsed IR.
use crate::ir::{self, BinOp, Callee, Const, Func, Ins, Op, Pred, Type};
use crate::smt::{Sat, Smt};
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    /// Integer
    I(T),
    /// Boolean
    B(B),
    /// Pointer: object and offset. Object 0 is the address space itself
    P(u32, T),
    /// Function pointer
    F(u32),
    /// Byte `2` of the integer `0`, which has `1` bits
    Fr(T, u16, u16),
    /// Byte of a pointer
    PF(Rc<V>, u8),
    Vec(Rc<[V]>),
    Agg(Rc<[V]>),
    Undef,
    /// A value that depends on pixels, when these are not tracked
    Opq,
}

#[derive(Clone)]
pub struct Buf {
    pub name: String,
    pub len: T,
    pub src: bool,
    /// Bytes written, by offset
    pub writes: HashMap<T, V>,
    /// Ranges written with a length that is not a constant: (offset, length)
    pub ranges: Vec<(T, T)>,
}

#[derive(Clone)]
pub enum Obj {
    Small(Rc<Vec<V>>),
    Buf(Rc<Buf>),
    Dead,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Loc {
    pub f: u32,
    pub bb: u32,
    pub ip: u32,
}

#[derive(Clone, Copy, Debug)]
pub struct Acc {
    pub min: i128,
    pub max: i128,
    pub lmin: Loc,
    pub lmax: Loc,
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub bb: usize,
    pub ip: usize,
    pub prev: usize,
    pub regs: Vec<V>,
    pub dst: Option<usize>,
    pub allocas: Vec<u32>,
    /// Undecided branches taken in loops of this activation: (block, times)
    pub undecided: Vec<(usize, u32)>,
}

#[derive(Clone)]
pub struct State {
    pub env: Rc<Env>,
    pub frames: Vec<Frame>,
    pub mem: Vec<Obj>,
    pub acc: HashMap<(u32, T, bool), Acc>,
    pub racc: Vec<(u32, T, T, bool, Loc)>,
    /// Mutable globals read and written
    pub gread: BTreeMap<u32, Loc>,
    pub gwrite: BTreeMap<u32, Loc>,
    pub steps: u64,
    pub forks: u32,
    pub out: Vec<V>,
    pub events: Vec<String>,
}

#[derive(Clone, Debug)]
pub enum End {
    Ret(V),
    Panic(String, Loc),
    /// Undefined behaviour other than a buffer access: reached unreachable, wild pointer, ...
    Ub(String, Loc),
    /// In a loop whose iterations are not followed further
    Cut(Loc),
}

#[derive(Debug)]
pub enum Stop {
    Fork(B),
    Unsup(String),
    Panic(String),
    Ub(String),
    Finished(V),
    /// A loop whose iterations are not followed further
    Cut,
}
type X<A> = Result<A, Stop>;

pub struct Prog {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<ir::Global>,
    pub gidx: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
}

impl Prog {
    pub fn new(mods: Vec<ir::Module>) -> Prog {
        let mut p = Prog { funcs: vec![], fidx: HashMap::new(), globals: vec![], gidx: HashMap::new(), aliases: HashMap::new() };
        for m in mods {
            let mut fs: Vec<Func> = m.funcs.into_values().collect();
            fs.sort_by(|a, b| a.name.cmp(&b.name));
            for f in fs {
                p.fidx.insert(f.name.clone(), p.funcs.len() as u32);
                p.funcs.push(f);
            }
            let mut gs: Vec<ir::Global> = m.globals.into_values().collect();
            gs.sort_by(|a, b| a.name.cmp(&b.name));
            for g in gs {
                p.gidx.insert(g.name.clone(), p.globals.len() as u32 + 1);
                p.globals.push(g);
            }
            p.aliases.extend(m.aliases);
        }
        p
    }
    pub fn func(&self, n: &str) -> Option<u32> {
        if let Some(i) = self.fidx.get(n) { return Some(*i); }
        self.aliases.get(n).and_then(|a| self.func(a))
    }
    pub fn short(&self, f: u32) -> String {
        let f = &self.funcs[f as usize];
        if f.pretty.is_empty() { f.name.clone() } else { f.pretty.clone() }
    }
    pub fn loc(&self, l: Loc) -> String {
        let f = &self.funcs[l.f as usize];
        format!("{} block {} instruction {}", self.short(l.f), f.blocks[l.bb as usize].name, l.ip)
    }
}

/// Processor model
#[derive(Clone)]
pub enum Cpu {
    /// Fixed answers, by leaf
    Set(u32),
    /// Every answer is a symbol
    Symbolic,
}

pub struct Ex<'p> {
    pub p: &'p Prog,
    pub c: Ctx,
    pub smt: Smt,
    pub ginit: Vec<Obj>,
    pub cpu: Cpu,
    /// Value of the bytes of the images: tracked or not
    pub opaque: bool,
    /// Paths that touched an image end at a branch of a loop left undecided this many times
    pub cutoff: Option<u32>,
    pub pix: HashMap<(u32, T), T>,
    addrs: HashMap<u32, T>,
    addr_obj: HashMap<T, (u32, T)>,
    images: HashSet<u32>,
    pub cov: HashSet<(u32, u32)>,
    pub total_steps: u64,
    /// Sources that are zero up to a column and outside of some rows: stride, column, rows
    pub dull: HashMap<u32, (i128, i128, Vec<(i128, i128)>)>,
    pub paths: u64,
    pub max_steps: u64,
    pub max_paths: u64,
    pub deadline: Option<std::time::Instant>,
    pub cpuid_syms: HashMap<(T, T), Rc<[V]>>,
    pub cpuid_order: Vec<(T, T)>,
    pub xgetbv_sym: Option<T>,
    /// Fresh symbols introduced by loop summaries
    pub fresh: u32,
    /// Conditions whose outcome the solver could not determine
    pub unknown_forks: u64,
    pub symbranches: HashMap<(u32, u32), u8>,
}

fn const_int(c: &Const) -> Option<u128> {
    match c { Const::Int(k) => Some(*k), Const::Zero | Const::Null => Some(0), _ => None }
}

impl<'p> Ex<'p> {
    pub fn new(p: &'p Prog, timeout_ms: u64) -> Ex<'p> {
        let mut e = Ex {
            p, c: Ctx::new(), smt: Smt::new(timeout_ms), ginit: vec![Obj::Dead], cpu: Cpu::Set(2), opaque: false, cutoff: None, pix: HashMap::new(),
            addrs: HashMap::new(), addr_obj: HashMap::new(), images: HashSet::new(), cov: HashSet::new(), total_steps: 0, dull: HashMap::new(), paths: 0, max_steps: 50_000_000, max_paths: 20_000, deadline: None,
            cpuid_syms: HashMap::new(), cpuid_order: vec![], xgetbv_sym: None, fresh: 0, unknown_forks: 0, symbranches: HashMap::new(),
        };
        for g in &p.globals {
            let o = match &g.init {
                Some(k) => {
                    let mut b = vec![];
                    match e.const_val(&g.ty, k).and_then(|v| e.to_bytes(&g.ty, &v, &mut b)) { Ok(()) => Obj::Small(Rc::new(b)), Err(_) => Obj::Dead }
                }
                None => Obj::Dead,
            };
            e.ginit.push(o);
        }
        e
    }
    pub fn state(&mut self) -> State {
        State {
            env: Rc::new(Env::default()), frames: vec![], mem: self.ginit.clone(), acc: HashMap::new(), racc: vec![], gread: BTreeMap::new(), gwrite: BTreeMap::new(),
            steps: 0, forks: 0, out: vec![], events: vec![],
        }
    }
    pub fn nglobals(&self) -> u32 { self.p.globals.len() as u32 + 1 }
    pub fn alloc(&mut self, st: &mut State, bytes: Vec<V>) -> u32 { st.mem.push(Obj::Small(Rc::new(bytes))); st.mem.len() as u32 - 1 }
    pub fn alloc_buf(&mut self, st: &mut State, name: &str, len: T, src: bool) -> u32 {
        st.mem.push(Obj::Buf(Rc::new(Buf { name: name.into(), len, src, writes: HashMap::new(), ranges: vec![] })));
        let o = st.mem.len() as u32 - 1;
        if self.images.insert(o) { self.addrs.remove(&o); }
        o
    }
    pub fn fresh_name(&mut self, p: &str) -> String { self.fresh += 1; format!("{p}{}", self.fresh) }
    pub fn kint(&mut self, c: u128) -> V { V::I(self.c.k(c as i128)) }

    // ------------------------------------------------------------------ constants
    pub fn const_val(&mut self, ty: &Type, k: &Const) -> X<V> {
        Ok(match (k, ty) {
            (Const::Int(v), Type::Int(1)) => V::B(if *v & 1 == 1 { TRUE } else { FALSE }),
            (Const::Int(v), _) => self.kint(*v),
            (Const::Null, _) => V::P(0, self.c.zero),
            (Const::Undef, Type::Struct(f, _)) => V::Agg(f.iter().map(|t| self.const_val(t, k)).collect::<X<Vec<_>>>()?.into()),
            (Const::Undef, Type::Arr(n, t)) => { let x = self.const_val(t, k)?; V::Agg(vec![x; *n].into()) }
            (Const::Undef, Type::Vec(n, _)) => V::Vec(vec![V::Undef; *n].into()),
            (Const::Undef, _) => V::Undef,
            (Const::Zero, Type::Struct(f, _)) => V::Agg(f.iter().map(|t| self.const_val(t, k)).collect::<X<Vec<_>>>()?.into()),
            (Const::Zero, Type::Arr(n, t)) => { let x = self.const_val(t, k)?; V::Agg(vec![x; *n].into()) }
            (Const::Zero, Type::Vec(n, t)) => { let x = self.const_val(t, k)?; V::Vec(vec![x; *n].into()) }
            (Const::Zero, Type::Int(1)) => V::B(FALSE),
            (Const::Zero, Type::Int(_)) => V::I(self.c.zero),
            (Const::Zero, Type::Ptr) => V::P(0, self.c.zero),
            (Const::Agg(v), Type::Vec(..)) => V::Vec(v.iter().map(|(t, k)| self.const_val(t, k)).collect::<X<Vec<_>>>()?.into()),
            (Const::Agg(v), _) => V::Agg(v.iter().map(|(t, k)| self.const_val(t, k)).collect::<X<Vec<_>>>()?.into()),
            (Const::Bytes(b), _) => V::Agg(b.iter().map(|x| self.kint(*x as u128)).collect::<Vec<_>>().into()),
            (Const::Splat(b), Type::Vec(n, _)) => { let x = self.const_val(&b.0, &b.1)?; V::Vec(vec![x; *n].into()) }
            (Const::Global(n), _) => {
                if let Some(f) = self.p.func(n) { V::F(f) }
                else if let Some(g) = self.p.gidx.get(n) { V::P(*g, self.c.zero) }
                else if let Some(a) = self.p.aliases.get(n) { let a = a.clone(); return self.const_val(ty, &Const::Global(a)); }
                else { V::Undef }
            }
            (Const::Gep(t, b, idx), _) => {
                let b = self.const_val(&Type::Ptr, b)?;
                let mut ix = vec![];
                for (t, k) in idx { ix.push((t.clone(), self.const_val(t, k)?)); }
                self.gep(t, b, &ix)?
            }
            (Const::Cast(o, t, a, t2), _) => { let v = self.const_val(t, a)?; self.cast(o, t, v, t2)? }
            (Const::Bin(o, t, a, b), _) => {
                let (a, b) = (self.const_val(t, a)?, self.const_val(t, b)?);
                let op = match o.as_str() { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "xor" => BinOp::Xor, "and" => BinOp::And, "or" => BinOp::Or, _ => BinOp::Shl };
                self.bin(op, t, a, b)?
            }
            _ => return Err(Stop::Unsup(format!("constant {k:?} of type {ty:?}"))),
        })
    }
    fn op(&mut self, st: &State, ty: &Type, o: &Op) -> X<V> {
        match o {
            Op::Reg(r) => Ok(st.frames.last().unwrap().regs[*r].clone()),
            Op::Const(k) => self.const_val(ty, k),
        }
    }

    // ------------------------------------------------------------------ values
    fn addr_of(&mut self, o: u32) -> T {
        if o == 0 { return self.c.zero; }
        if let Some(t) = self.addrs.get(&o) { return *t; }
        // objects of the program and arrays of the caller are suitably aligned, images are not
        let k = if self.images.contains(&o) { 1 } else { 16 };
        let s = self.c.sym(&format!("addr{o}"), 64 / k, p2(47) / k, true);
        let t = self.c.scale(s, k);
        self.addr_obj.insert(s, (o, t));
        self.addrs.insert(o, t);
        t
    }
    /// Integer value
    pub fn int(&mut self, v: &V) -> X<T> {
        Ok(match v {
            V::I(t) => *t,
            V::B(b) => self.c.b2i(*b),
            V::Fr(t, w, i) => self.frag(*t, *w, *i, 1),
            V::P(o, off) => { let a = self.addr_of(*o); let s = self.c.add(a, *off); self.c.wrap(s, 64) }
            V::Undef => return Err(Stop::Unsup("undefined value used".into())),
            V::Opq => return Err(Stop::Unsup("untracked value used".into())),
            _ => return Err(Stop::Unsup(format!("integer expected: {v:?}"))),
        })
    }
    fn frag(&mut self, t: T, w: u16, i: u16, n: u16) -> T {
        if i == 0 && n * 8 == w { return t; }
        let d = self.c.div(t, 8 * i as u32);
        if (i + n) * 8 >= w { d } else { self.c.wrap(d, 8 * n as u32) }
    }
    pub fn boolean(&mut self, v: &V) -> X<B> {
        Ok(match v {
            V::B(b) => *b,
            V::I(t) => { let k = self.c.k(1); let x = self.c.wrap(*t, 1); self.c.eq(x, k) }
            V::Undef => return Err(Stop::Ub("branch on an undefined value".into())),
            V::Opq => return Err(Stop::Unsup("branch on an untracked value".into())),
            _ => return Err(Stop::Unsup(format!("boolean expected: {v:?}"))),
        })
    }
    pub fn to_bytes(&mut self, ty: &Type, v: &V, out: &mut Vec<V>) -> X<()> {
        let start = out.len();
        match (ty, v) {
            (Type::Int(1), _) => match v { V::Undef | V::Opq => out.push(v.clone()), _ => { let t = self.int(v)?; out.push(V::I(t)); } },
            (Type::Int(w), V::I(t)) => {
                let n = ty.size() as u16;
                if n == 1 { out.push(V::I(*t)); }
                else if let Some(k) = self.c.as_const(*t) { for i in 0..n { let x = self.kint(((k as u128) >> (8 * i)) & 255); out.push(x); } }
                else { for i in 0..n { out.push(V::Fr(*t, if w % 8 == 0 { *w as u16 } else { n * 8 }, i)); } }
            }
            (Type::Int(8), V::Fr(..)) => out.push(v.clone()),
            (Type::Int(_), V::B(_)) => { let t = self.int(v)?; self.to_bytes(ty, &V::I(t), out)?; }
            (Type::Int(_), V::P(..)) | (Type::Ptr, V::P(..)) | (Type::Ptr, V::F(_)) | (Type::Int(_), V::F(_)) => { let r = Rc::new(v.clone()); for i in 0..8 { out.push(V::PF(r.clone(), i)); } }
            (Type::Ptr, V::I(t)) => self.to_bytes(&Type::Int(64), &V::I(*t), out)?,
            (Type::Vec(n, t), V::Vec(l)) => {
                if **t == Type::Int(1) {
                    let mut bits = vec![];
                    for x in l.iter() { bits.push(self.int(x)?); }
                    for ch in bits.chunks(8) {
                        let mut s = self.c.zero;
                        for (i, b) in ch.iter().enumerate() { let y = self.c.scale(*b, p2(i as u32)); s = self.c.add(s, y); }
                        out.push(V::I(s));
                    }
                } else { for i in 0..*n { self.to_bytes(t, &l[i], out)?; } }
            }
            (Type::Arr(_, t), V::Agg(l)) => for x in l.iter() { self.to_bytes(t, x, out)?; },
            (Type::Struct(f, _), V::Agg(l)) => {
                let offs = ty.field_offsets();
                for (i, t) in f.iter().enumerate() {
                    while out.len() < start + offs[i] as usize { out.push(V::Undef); }
                    self.to_bytes(t, &l[i], out)?;
                }
                while out.len() < start + offs[f.len()] as usize { out.push(V::Undef); }
            }
            (_, V::Undef) => for _ in 0..ty.size() { out.push(V::Undef); },
            (_, V::Opq) => for _ in 0..ty.size() { out.push(V::Opq); },
            _ => return Err(Stop::Unsup(format!("store of {v:?} as {ty:?}"))),
        }
        Ok(())
    }
    pub fn from_bytes(&mut self, ty: &Type, b: &[V]) -> X<V> {
        match ty {
            Type::Int(1) => match &b[0] { V::Undef => Ok(V::Undef), V::Opq => Ok(V::Opq), x => { let t = self.int(x)?; let w = self.c.wrap(t, 1); let o = self.c.one; Ok(V::B(self.c.eq(w, o))) } },
            Type::Int(_) | Type::Ptr => {
                if b.len() == 1 { return Ok(b[0].clone()); }
                if b.iter().any(|x| matches!(x, V::Opq)) { return Ok(V::Opq); }
                if b.iter().any(|x| matches!(x, V::Undef)) { return Ok(V::Undef); }
                if let V::PF(p, 0) = &b[0] {
                    if b.len() == 8 && b.iter().enumerate().all(|(i, x)| matches!(x, V::PF(q, j) if **q == **p && *j as usize == i)) { return Ok((**p).clone()); }
                }
                if b.iter().any(|x| matches!(x, V::PF(..))) {
                    // bytes of pointers, as integers
                    let mut w = vec![];
                    for x in b { if let V::PF(p, i) = x { let t = self.int(p)?; w.push(V::Fr(t, 64, *i as u16)); } else { w.push(x.clone()); } }
                    return self.from_bytes(ty, &w);
                }
                let mut i = 0;
                let mut acc = self.c.zero;
                while i < b.len() {
                    let (t, n) = match &b[i] {
                        V::Fr(t, w, j) => {
                            let mut n = 1;
                            while i + n < b.len() && matches!(&b[i + n], V::Fr(t2, w2, j2) if t2 == t && w2 == w && *j2 as usize == *j as usize + n) { n += 1; }
                            (self.frag(*t, *w, *j, n as u16), n)
                        }
                        x => (self.int(x)?, 1),
                    };
                    let t = self.c.scale(t, p2(8 * i as u32));
                    acc = self.c.add(acc, t);
                    i += n;
                }
                if *ty == Type::Ptr { return self.int_to_ptr(acc); }
                Ok(V::I(acc))
            }
            Type::Vec(n, t) => {
                if **t == Type::Int(1) {
                    let mut v = vec![];
                    for i in 0..*n { let x = self.int(&b[i / 8])?; let d = self.c.div(x, (i % 8) as u32); let d = self.c.wrap(d, 1); let o = self.c.one; v.push(V::B(self.c.eq(d, o))); }
                    return Ok(V::Vec(v.into()));
                }
                let s = t.size() as usize;
                let mut v = Vec::with_capacity(*n);
                for i in 0..*n { v.push(self.from_bytes(t, &b[i * s..(i + 1) * s])?); }
                Ok(V::Vec(v.into()))
            }
            Type::Arr(n, t) => {
                let s = t.size() as usize;
                let mut v = Vec::with_capacity(*n);
                for i in 0..*n { v.push(self.from_bytes(t, &b[i * s..(i + 1) * s])?); }
                Ok(V::Agg(v.into()))
            }
            Type::Struct(f, _) => {
                let offs = ty.field_offsets();
                let mut v = vec![];
                for (i, t) in f.iter().enumerate() { let o = offs[i] as usize; v.push(self.from_bytes(t, &b[o..o + t.size() as usize])?); }
                Ok(V::Agg(v.into()))
            }
            _ => Err(Stop::Unsup(format!("load of {ty:?}"))),
        }
    }
    fn int_to_ptr(&mut self, t: T) -> X<V> {
        let (_, v) = self.c.parts(t);
        for (k, m) in v {
            if k == 1 || k == 16 {
                let f = self.c.monos[m as usize].clone();
                if f.len() == 1 { if let Some((o, base)) = self.addr_obj.get(&f[0]).copied() { let off = self.c.sub(t, base); return Ok(V::P(o, off)); } }
            }
        }
        Ok(V::P(0, t))
    }
    pub fn ptr(&mut self, v: &V) -> X<(u32, T)> {
        match v {
            V::P(o, t) => Ok((*o, *t)),
            V::I(t) => match self.int_to_ptr(*t)? { V::P(o, t) => Ok((o, t)), _ => unreachable!() },
            V::Undef => Err(Stop::Ub("access through an undefined pointer".into())),
            _ => Err(Stop::Unsup(format!("pointer expected: {v:?}"))),
        }
    }
    fn gep(&mut self, ty: &Type, base: V, idx: &[(Type, V)]) -> X<V> {
        if let V::Undef = base { return Ok(V::Undef); }
        let (o, mut off) = self.ptr(&base)?;
        let mut cur = ty.clone();
        for (i, (it, v)) in idx.iter().enumerate() {
            if let V::Opq = v { return Err(Stop::Unsup("address depends on an untracked value".into())); }
            if i > 0 {
                if let Type::Struct(f, _) = &cur {
                    let t = self.int(v)?;
                    let k = self.c.konst(t).ok_or(Stop::Unsup("symbolic field".into()))? as usize;
                    off = self.c.addk(off, cur.field_offsets()[k] as i128);
                    cur = f[k].clone();
                    continue;
                }
                cur = match &cur { Type::Arr(_, t) | Type::Vec(_, t) => (**t).clone(), _ => return Err(Stop::Unsup("gep".into())) };
            }
            let w = if let Type::Int(w) = it { *w } else { 64 };
            let t = self.int(v)?;
            let t = self.c.sgn(t, w);
            let t = self.c.scale(t, cur.size() as i128);
            off = self.c.add(off, t);
        }
        let r = self.c.range(off);
        let off = if r.0 >= -p2(63) && r.1 < p2(63) { off } else { let w = self.c.wrap(off, 64); self.c.sgn(w, 64) };
        Ok(V::P(o, off))
    }
    fn lanes<'a>(&self, v: &'a V, n: usize) -> X<Vec<V>> {
        match v { V::Vec(l) => Ok(l.to_vec()), V::Undef => Ok(vec![V::Undef; n]), V::Opq => Ok(vec![V::Opq; n]), _ => Err(Stop::Unsup(format!("vector expected: {v:?}"))) }
    }
    fn bin(&mut self, op: BinOp, ty: &Type, a: V, b: V) -> X<V> {
        if let Type::Vec(n, t) = ty {
            let (x, y) = (self.lanes(&a, *n)?, self.lanes(&b, *n)?);
            let mut r = Vec::with_capacity(*n);
            for (x, y) in x.into_iter().zip(y) { r.push(self.bin(op, t, x, y)?); }
            return Ok(V::Vec(r.into()));
        }
        if matches!(a, V::Opq) || matches!(b, V::Opq) { return Ok(V::Opq); }
        if matches!(a, V::Undef) || matches!(b, V::Undef) { return Ok(V::Undef); }
        let Type::Int(w) = ty else { return Err(Stop::Unsup(format!("arithmetic on {ty:?}"))) };
        let w = *w;
        if w == 1 {
            let (x, y) = (self.boolean(&a)?, self.boolean(&b)?);
            return Ok(V::B(match op {
                BinOp::And | BinOp::Mul => self.c.and(&[x, y]),
                BinOp::Or => self.c.or(&[x, y]),
                BinOp::Xor | BinOp::Add | BinOp::Sub => self.c.bxor_b(x, y),
                _ => return Err(Stop::Unsup("boolean arithmetic".into())),
            }));
        }
        // pointer differences
        if let (V::P(o1, x), V::P(o2, y), BinOp::Sub) = (&a, &b, op) {
            if o1 == o2 { let d = self.c.sub(*x, *y); return Ok(V::I(self.c.wrap(d, w))); }
        }
        let (x, y) = (self.int(&a)?, self.int(&b)?);
        let c = &mut self.c;
        Ok(V::I(match op {
            BinOp::Add => { let s = c.add(x, y); c.wrap(s, w) }
            BinOp::Sub => { let s = c.sub(x, y); c.wrap(s, w) }
            BinOp::Mul => {
                // products of small signed numbers stay exact
                let (rx, ry) = (c.range(x), c.range(y));
                let big = rx.1 >= p2(w - 1) || ry.1 >= p2(w - 1);
                let (p, q) = if big { (c.sgn(x, w), c.sgn(y, w)) } else { (x, y) };
                let s = c.mul(p, q);
                c.wrap(s, w)
            }
            BinOp::Shl | BinOp::LShr | BinOp::AShr => {
                match c.konst(y) {
                    Some(k) if k >= w as i128 => return Ok(V::Undef),
                    Some(k) => shift(c, op, x, k as u32, w),
                    None => {
                        let r = c.range(y);
                        let hi = r.1.min(w as i128 - 1);
                        if hi - r.0 > 64 { return Err(Stop::Unsup("shift by a symbolic amount".into())); }
                        let mut acc = shift(c, op, x, hi as u32, w);
                        for k in (r.0..hi).rev() {
                            let kk = c.k(k);
                            let e = c.eq(y, kk);
                            let s = shift(c, op, x, k as u32, w);
                            acc = c.ite(e, s, acc);
                        }
                        acc
                    }
                }
            }
            BinOp::And => c.band(x, y, w),
            BinOp::Or => c.bor(x, y, w),
            BinOp::Xor => c.bxor(x, y, w),
            BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                if c.konst(y) == Some(0) { return Err(Stop::Ub("division by zero".into())); }
                if matches!(op, BinOp::SDiv | BinOp::SRem) {
                    let (rx, ry) = (c.range(x), c.range(y));
                    if rx.1 >= p2(w - 1) || ry.1 >= p2(w - 1) {
                        // by a positive constant
                        if let Some(k) = c.konst(y) { if k > 0 && k < p2(w - 1) {
                            let s = c.sgn(x, w);
                            let neg = c.not_neg(s);
                            let m = c.scale(s, -1);
                            let absx = c.ite(neg, s, m);
                            let q = if op == BinOp::SDiv { c.udiv(absx, y) } else { c.urem(absx, y) };
                            let nq = c.scale(q, -1);
                            let r = c.ite(neg, q, nq);
                            return Ok(V::I(c.wrap(r, w)));
                        } }
                        return Err(Stop::Unsup("signed division".into()));
                    }
                }
                if c.range(y).0 <= 0 {
                    let z = c.eq0(y);
                    return Err(Stop::Fork(z));
                }
                if matches!(op, BinOp::UDiv | BinOp::SDiv) { c.udiv(x, y) } else { c.urem(x, y) }
            }
        }))
    }
    fn cast(&mut self, op: &str, t: &Type, v: V, t2: &Type) -> X<V> {
        if op == "bitcast" || op == "addrspacecast" {
            if t == t2 { return Ok(v); }
            let mut b = vec![];
            self.to_bytes(t, &v, &mut b)?;
            return self.from_bytes(t2, &b);
        }
        if let (Type::Vec(n, e), Type::Vec(_, e2)) = (t, t2) {
            let l = self.lanes(&v, *n)?;
            let mut r = vec![];
            for x in l { r.push(self.cast(op, e, x, e2)?); }
            return Ok(V::Vec(r.into()));
        }
        if matches!(v, V::Opq | V::Undef) { return Ok(v); }
        let w = if let Type::Int(w) = t { *w } else { 64 };
        let w2 = if let Type::Int(w) = t2 { *w } else { 64 };
        Ok(match op {
            "zext" => { let x = self.int(&v)?; V::I(x) }
            "sext" => { if w == 1 { let b = self.boolean(&v)?; let m = self.c.k(p2(w2) - 1); let z = self.c.zero; return Ok(V::I(self.c.ite(b, m, z))); } let x = self.int(&v)?; let s = self.c.sgn(x, w); V::I(self.c.wrap(s, w2)) }
            "trunc" => { let x = self.int(&v)?; let y = self.c.wrap(x, w2); if w2 == 1 { let o = self.c.one; V::B(self.c.eq(y, o)) } else { V::I(y) } }
            "ptrtoint" | "ptrtoaddr" => { if w2 == 64 { if let V::P(0, t) = v { V::I(t) } else { v } } else { let x = self.int(&v)?; V::I(self.c.wrap(x, w2)) } }
            "inttoptr" => { if let V::I(t) = v { self.int_to_ptr(t)? } else { v } }
            _ => return Err(Stop::Unsup(format!("cast {op}"))),
        })
    }
    fn icmp(&mut self, p: Pred, ty: &Type, a: V, b: V) -> X<V> {
        if let Type::Vec(n, t) = ty {
            let (x, y) = (self.lanes(&a, *n)?, self.lanes(&b, *n)?);
            let mut r = Vec::with_capacity(*n);
            for (x, y) in x.into_iter().zip(y) { r.push(self.icmp(p, t, x, y)?); }
            return Ok(V::Vec(r.into()));
        }
        if matches!(a, V::Opq) || matches!(b, V::Opq) { return Ok(V::Opq); }
        if matches!(a, V::Undef) || matches!(b, V::Undef) { return Ok(V::Undef); }
        let eqp = matches!(p, Pred::Eq | Pred::Ne);
        match (&a, &b) {
            (V::F(x), V::F(y)) if eqp => return Ok(V::B(if (x == y) == (p == Pred::Eq) { TRUE } else { FALSE })),
            (V::F(_), _) | (_, V::F(_)) if eqp => return Ok(V::B(if p == Pred::Eq { FALSE } else { TRUE })),
            (V::P(o1, x), V::P(o2, y)) => {
                if o1 == o2 {
                    let (x, y) = (*x, *y);
                    return Ok(V::B(self.cmp(p, x, y, None)));
                }
                if eqp && (*o1 != 0 && *o2 != 0 || (*o1 == 0 && self.c.as_const(*x) == Some(0)) || (*o2 == 0 && self.c.as_const(*y) == Some(0))) {
                    return Ok(V::B(if p == Pred::Eq { FALSE } else { TRUE }));
                }
            }
            _ => {}
        }
        let w = match ty { Type::Int(w) => *w, Type::Ptr => 64, _ => return Err(Stop::Unsup("icmp".into())) };
        if w == 1 && eqp {
            let (x, y) = (self.boolean(&a)?, self.boolean(&b)?);
            let ne = self.c.bxor_b(x, y);
            return Ok(V::B(if p == Pred::Ne { ne } else { self.c.not(ne) }));
        }
        let (x, y) = (self.int(&a)?, self.int(&b)?);
        Ok(V::B(self.cmp(p, x, y, Some(w))))
    }
    fn cmp(&mut self, p: Pred, x: T, y: T, w: Option<u32>) -> B {
        let c = &mut self.c;
        let (x, y) = match (p, w) { (Pred::Sgt | Pred::Sge | Pred::Slt | Pred::Sle, Some(w)) => (c.sgn(x, w), c.sgn(y, w)), _ => (x, y) };
        match p {
            Pred::Eq => c.eq(x, y),
            Pred::Ne => { let e = c.eq(x, y); c.not(e) }
            Pred::Ugt | Pred::Sgt => c.lt(y, x),
            Pred::Uge | Pred::Sge => c.le(y, x),
            Pred::Ult | Pred::Slt => c.lt(x, y),
            Pred::Ule | Pred::Sle => c.le(x, y),
        }
    }
    fn select(&mut self, b: B, x: &V, y: &V) -> X<V> {
        if b == TRUE { return Ok(x.clone()); }
        if b == FALSE { return Ok(y.clone()); }
        if x == y { return Ok(x.clone()); }
        Ok(match (x, y) {
            (V::Opq, _) | (_, V::Opq) => V::Opq,
            (V::B(p), V::B(q)) => V::B(self.c.bite(b, *p, *q)),
            (V::P(o, s), V::P(o2, t)) if o == o2 => V::P(*o, self.c.ite(b, *s, *t)),
            (V::P(..), _) | (_, V::P(..)) | (V::F(_), _) | (_, V::F(_)) => return Err(Stop::Fork(b)),
            (V::Vec(l), V::Vec(m)) => { let mut r = vec![]; for i in 0..l.len() { r.push(self.select(b, &l[i], &m[i])?); } V::Vec(r.into()) }
            (V::Agg(l), V::Agg(m)) => { let mut r = vec![]; for i in 0..l.len() { r.push(self.select(b, &l[i], &m[i])?); } V::Agg(r.into()) }
            // a poisoned arm may be anything, in particular the other arm
            (V::Undef, v) | (v, V::Undef) => v.clone(),
            _ => { let (s, t) = (self.int(x)?, self.int(y)?); V::I(self.c.ite(b, s, t)) }
        })
    }
    /// Truth value of a condition on this path, or a fork
    fn decide(&mut self, st: &State, b: B) -> X<bool> {
        self.c.set_env(&st.env);
        let b = self.c.simp(b);
        if b == TRUE { return Ok(true); }
        if b == FALSE { return Ok(false); }
        let n = self.c.not(b);
        let e = st.env.clone();
        if let Sat::Unsat = self.smt.check(&mut self.c, &e, &[b]) { return Ok(false); }
        self.c.set_env(&e);
        match self.smt.check(&mut self.c, &e, &[n]) {
            Sat::Unsat => return Ok(true),
            Sat::Unknown => self.unknown_forks += 1,
            _ => {}
        }
        self.c.set_env(&e);
        Err(Stop::Fork(b))
    }

    // ------------------------------------------------------------------ memory
    fn here(&self, st: &State) -> Loc { let f = st.frames.last().unwrap(); Loc { f: f.f, bb: f.bb as u32, ip: f.ip as u32 } }
    fn log_access(&mut self, st: &mut State, o: u32, off: T, n: i128, write: bool) {
        let (c, v) = self.c.parts(off);
        let h = self.c.sum(0, v);
        let l = self.here(st);
        let e = st.acc.entry((o, h, write)).or_insert(Acc { min: i128::MAX, max: i128::MIN, lmin: l, lmax: l });
        if c < e.min { e.min = c; e.lmin = l; }
        if c + n > e.max { e.max = c + n; e.lmax = l; }
    }
    fn small_off(&mut self, st: &State, off: T, n: i128, size: usize) -> X<usize> {
        match self.c.konst(off) {
            Some(k) if k >= 0 && k + n <= size as i128 => Ok(k as usize),
            Some(k) => Err(Stop::Ub(format!("access of {n} bytes at offset {k} of an object of {size} bytes"))),
            None => {
                // case split on the offset
                let e = st.env.clone();
                let (lo, hi) = (self.c.zero, self.c.k(size as i128 - n));
                let inb = { let a = self.c.le(lo, off); let b = self.c.le(off, hi); self.c.and(&[a, b]) };
                if !self.decide(st, inb)? { return Err(Stop::Ub("access outside of an object".into())); }
                self.c.set_env(&e);
                Ok(self.split(st, off)? as usize)
            }
        }
    }
    /// A value of the term, after a case split
    fn split(&mut self, st: &State, t: T) -> X<i128> {
        if let Some(k) = self.c.konst(t) { return Ok(k); }
        let e = st.env.clone();
        let mut q = e.cons.clone();
        for _ in 0..64 {
            match self.smt.check(&mut self.c, &e, &q) {
                Sat::Sat(mut m) => {
                    for (s, r) in &e.sym { m.entry(*s).or_insert_with(|| { let y = &self.c.syms[*s as usize]; let (lo, hi) = (y.lo.max(r.0), y.hi.min(r.1)); if lo <= 0 && hi >= 0 { 0 } else { lo } }); }
                    let k = self.c.eval(t, &m, &mut HashMap::new());
                    self.c.set_env(&e);
                    let kk = self.c.k(k);
                    let b = self.c.eq(t, kk);
                    if self.decide(st, b)? { return Ok(k); }
                    self.c.set_env(&e);
                    q.push(self.c.not(b));
                }
                _ => break,
            }
        }
        Err(Stop::Unsup("case split".into()))
    }
    fn note_global(&mut self, st: &mut State, o: u32, write: bool) {
        if o > 0 && o < self.nglobals() && !self.p.globals[o as usize - 1].constant {
            let l = self.here(st);
            if write { st.gwrite.entry(o).or_insert(l); } else { st.gread.entry(o).or_insert(l); }
        }
    }
    fn read(&mut self, st: &mut State, o: u32, off: T, n: usize) -> X<Vec<V>> {
        if n == 0 { return Ok(vec![]); }
        self.note_global(st, o, false);
        match st.mem.get(o as usize).cloned() {
            Some(Obj::Small(b)) => {
                let k = self.small_off(st, off, n as i128, b.len())?;
                Ok(b[k..k + n].to_vec())
            }
            Some(Obj::Buf(b)) => {
                self.log_access(st, o, off, n as i128, false);
                if self.opaque { return Ok(vec![V::Opq; n]); }
                if !b.ranges.is_empty() { return Err(Stop::Unsup("load after a store of symbolic length".into())); }
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    let t = self.c.addk(off, i as i128);
                    match b.writes.get(&t) {
                        Some(x) => v.push(x.clone()),
                        None => { let s = self.pixel(o, &b.name, t); v.push(V::I(s)); }
                    }
                }
                Ok(v)
            }
            _ => Err(Stop::Ub(format!("access through an invalid pointer (object {o}, offset {})", self.c.show(off)))),
        }
    }
    /// Initial content of an image byte
    pub fn pixel(&mut self, o: u32, name: &str, off: T) -> T {
        if let Some(s) = self.pix.get(&(o, off)) { return *s; }
        // very large images: zero, but for the ends of the last rows
        if let Some((stride, cols, rows)) = self.dull.get(&o) {
            if let Some(k) = self.c.as_const(off) {
                let (x, y) = (k % stride, k / stride);
                if x < *cols || !rows.iter().any(|(a, b)| y >= *a && y < *b) { return self.c.zero; }
            }
        }
        let n = format!("{name}[{}]", self.c.show(off));
        let s = self.c.sym(&n, 0, 255, false);
        if let Node::Sym(i) = self.c.nodes[s as usize] { self.c.syms[i as usize].pix = Some((o, off)); }
        self.pix.insert((o, off), s);
        s
    }
    fn write(&mut self, st: &mut State, o: u32, off: T, v: Vec<V>) -> X<()> {
        if v.is_empty() { return Ok(()); }
        self.note_global(st, o, true);
        if o > 0 && o < self.nglobals() && self.p.globals[o as usize - 1].constant { return Err(Stop::Ub("store to a constant".into())); }
        let size = match st.mem.get(o as usize) { Some(Obj::Small(b)) => Some(b.len()), Some(Obj::Buf(_)) => None, _ => return Err(Stop::Ub(format!("store through an invalid pointer (object {o}, offset {})", self.c.show(off)))) };
        if let Some(size) = size {
            let k = self.small_off(st, off, v.len() as i128, size)?;
            if let Obj::Small(b) = &mut st.mem[o as usize] {
                let b = Rc::make_mut(b);
                for (i, x) in v.into_iter().enumerate() { b[k + i] = x; }
            }
        } else {
            self.log_access(st, o, off, v.len() as i128, true);
            let offs: Vec<T> = (0..v.len()).map(|i| self.c.addk(off, i as i128)).collect();
            if let Obj::Buf(b) = &mut st.mem[o as usize] {
                let b = Rc::make_mut(b);
                for (t, x) in offs.into_iter().zip(v) { b.writes.insert(t, x); }
            }
        }
        Ok(())
    }
    pub fn load(&mut self, st: &mut State, ty: &Type, p: &V) -> X<V> {
        let (o, off) = self.ptr(p)?;
        let b = self.read(st, o, off, ty.size() as usize)?;
        self.from_bytes(ty, &b)
    }
    pub fn store(&mut self, st: &mut State, ty: &Type, v: &V, p: &V) -> X<()> {
        let (o, off) = self.ptr(p)?;
        let mut b = vec![];
        self.to_bytes(ty, v, &mut b)?;
        self.write(st, o, off, b)
    }
    /// The images of the caller may start at any address
    fn aligned(&mut self, st: &State, p: &V, al: u32) -> X<()> {
        if al <= 1 { return Ok(()); }
        if let V::P(o, off) = p {
            if let Some(Obj::Buf(b)) = st.mem.get(*o as usize) {
                let name = b.name.clone();
                self.c.set_env(&st.env);
                let a = self.addr_of(*o);
                let a = self.c.add(a, *off);
                let r = self.c.wrap(a, al.trailing_zeros());
                let z = self.c.zero;
                let ok = self.c.eq(r, z);
                match self.decide(st, ok) {
                    Ok(true) => {}
                    Ok(false) | Err(Stop::Fork(_)) => return Err(Stop::Ub(format!("access to {name} that requires an alignment of {al} bytes"))),
                    Err(e) => return Err(e),
                }
            }
        }
        Ok(())
    }
    /// Length of a block transfer: a constant, or a symbolic one on images when loops are summarised
    fn block_len(&mut self, st: &State, v: &V) -> X<Result<usize, T>> {
        let t = self.int(v)?;
        self.c.set_env(&st.env);
        match self.c.konst(t) {
            Some(k) if k < 1 << 20 => Ok(Ok(k as usize)),
            _ => Ok(Err(t)),
        }
    }

    // ------------------------------------------------------------------ calls
    pub fn call(&mut self, st: &mut State, f: u32, args: Vec<V>, dst: Option<usize>) -> X<()> {
        let fun = &self.p.funcs[f as usize];
        if fun.params.len() != args.len() { return Err(Stop::Unsup(format!("call of {} with {} arguments", fun.name, args.len()))); }
        if st.frames.len() > 64 { return Err(Stop::Unsup("recursion".into())); }
        let mut regs = vec![V::Undef; fun.nregs];
        for ((i, (_, r)), v) in fun.params.iter().enumerate().zip(args) {
            let v = if let Some(t) = &fun.byval[i] {
                let (o, off) = self.ptr(&v)?;
                let b = self.read(st, o, off, t.size() as usize)?;
                V::P(self.alloc(st, b), self.c.zero)
            } else { v };
            regs[*r] = v;
        }
        self.cov.insert((f, 0));
        if matches!(self.cpu, Cpu::Symbolic) {
            for k in ["+avx2", "+avx", "+sse2"] {
                if fun.feats.split(',').any(|x| x == k) { let e = format!("enter {}", &k[1..]); if !st.events.contains(&e) { st.events.push(e); } }
            }
        }
        st.frames.push(Frame { f, bb: 0, ip: 0, prev: usize::MAX, regs, dst, allocas: vec![], undecided: vec![] });
        Ok(())
    }
    fn ret(&mut self, st: &mut State, v: V) -> X<()> {
        let f = st.frames.pop().unwrap();
        for a in f.allocas { st.mem[a as usize] = Obj::Dead; }
        match st.frames.last_mut() {
            None => Err(Stop::Finished(v)),
            Some(c) => { if let Some(d) = f.dst { c.regs[d] = v; } Ok(()) }
        }
    }
    fn map2(&mut self, n: usize, a: &V, b: &V, mut f: impl FnMut(&mut Self, &V, &V) -> X<V>) -> X<V> {
        let (x, y) = (self.lanes(a, n)?, self.lanes(b, n)?);
        let mut r = vec![];
        for (x, y) in x.iter().zip(y.iter()) {
            let v = if matches!(x, V::Opq) || matches!(y, V::Opq) { V::Opq } else if matches!(x, V::Undef) || matches!(y, V::Undef) { V::Undef } else { f(self, x, y)? };
            r.push(v);
        }
        Ok(V::Vec(r.into()))
    }
    /// Calls that do not enter a function of the crate. Ok(None): a frame was pushed
    fn external(&mut self, st: &mut State, name: &str, rt: &Type, args: &[(Type, V)], dst: Option<usize>) -> X<Option<V>> {
        let a = |i: usize| args[i].1.clone();
        let none = Ok(Some(V::Undef));
        if name.contains("panic") || name.contains("slice_index_fail") || name.contains("unwrap_failed") || name.contains("expect_failed")
            || name.contains("index_fail") || name.contains("_fail") && name.contains("core") || name.contains("handle_alloc_error") || name.contains("handle_error") || name.contains("capacity_overflow") || name.contains("assert_failed") {
            return Err(Stop::Panic(name.to_string()));
        }
        if let Some(n) = name.strip_prefix("llvm.") {
            let base: &str = n;
            if base.starts_with("lifetime") || base.starts_with("assume") || base.starts_with("prefetch") || base.starts_with("experimental.noalias") || base.starts_with("dbg") { return none; }
            if base.starts_with("memcpy") || base.starts_with("memmove") {
                let len = self.block_len(st, &args[2].1)?;
                match len {
                    Ok(n) => { if n == 0 { return none; } let (so, soff) = self.ptr(&args[1].1)?; let b = self.read(st, so, soff, n)?; let (d, doff) = self.ptr(&args[0].1)?; self.write(st, d, doff, b)?; }
                    Err(t) => {
                        let (so, soff) = self.ptr(&args[1].1)?;
                        let (d, doff) = self.ptr(&args[0].1)?;
                        self.range_access(st, so, soff, t, false)?;
                        self.range_access(st, d, doff, t, true)?;
                    }
                }
                return none;
            }
            if base.starts_with("load.relative") { let (p, q) = (a(0), a(1)); return self.relative(st, &p, &q).map(Some); }
            if base.starts_with("memset") {
                let (d, doff) = self.ptr(&args[0].1)?;
                match self.block_len(st, &args[2].1)? {
                    Ok(n) => { let b = vec![a(1); n]; self.write(st, d, doff, b)?; }
                    Err(t) => self.range_access(st, d, doff, t, true)?,
                }
                return none;
            }
            let two = |s: &str| base.starts_with(s);
            if two("umul.with.overflow") || two("uadd.with.overflow") || two("usub.with.overflow") || two("smul.with.overflow") || two("sadd.with.overflow") || two("ssub.with.overflow") {
                let Type::Int(w) = args[0].0 else { return Err(Stop::Unsup(name.into())) };
                let (x, y) = (self.int(&args[0].1)?, self.int(&args[1].1)?);
                let c = &mut self.c;
                let signed = base.starts_with('s');
                let (x, y) = if signed { (c.sgn(x, w), c.sgn(y, w)) } else { (x, y) };
                let full = if base[1..].starts_with("mul") { c.mul(x, y) } else if base[1..].starts_with("add") { c.add(x, y) } else { c.sub(x, y) };
                let (lo, hi) = if signed { (-p2(w - 1), p2(w - 1) - 1) } else { (0, p2(w) - 1) };
                let (l, h) = (c.k(lo), c.k(hi));
                let (u, v) = (c.lt(full, l), c.lt(h, full));
                let o = c.or(&[u, v]);
                let r = c.wrap(full, w);
                return Ok(Some(V::Agg(vec![V::I(r), V::B(o)].into())));
            }
            for (pat, add, signed) in [("sadd.sat", true, true), ("uadd.sat", true, false), ("ssub.sat", false, true), ("usub.sat", false, false)] {
                if base.starts_with(pat) {
                    return self.lanewise(&args[0].0.clone(), a(0), a(1), &mut |s, w, x, y| {
                        let c = &mut s.c;
                        let (x, y) = if signed { (c.sgn(x, w), c.sgn(y, w)) } else { (x, y) };
                        let f = if add { c.add(x, y) } else { c.sub(x, y) };
                        let (lo, hi) = if signed { (-p2(w - 1), p2(w - 1) - 1) } else { (0, p2(w) - 1) };
                        let f = c.clamp(f, lo, hi);
                        c.wrap(f, w)
                    }).map(Some);
                }
            }
            for (pat, mx, signed) in [("umin", false, false), ("umax", true, false), ("smin", false, true), ("smax", true, true)] {
                if base.starts_with(pat) {
                    return self.lanewise(&args[0].0.clone(), a(0), a(1), &mut |s, w, x, y| {
                        let c = &mut s.c;
                        let (x, y) = if signed { (c.sgn(x, w), c.sgn(y, w)) } else { (x, y) };
                        let r = if let Some(k) = c.as_const(y) { if mx { c.clamp(x, k, INF) } else { c.clamp(x, -INF, k) } }
                            else if let Some(k) = c.as_const(x) { if mx { c.clamp(y, k, INF) } else { c.clamp(y, -INF, k) } }
                            else { let l = c.le(x, y); if mx { c.ite(l, y, x) } else { c.ite(l, x, y) } };
                        c.wrap(r, w)
                    }).map(Some);
                }
            }
            if base.starts_with("abs.") {
                return self.lanewise(&args[0].0.clone(), a(0), a(0), &mut |s, w, x, _| { let c = &mut s.c; let x = c.sgn(x, w); let m = c.scale(x, -1); let nn = c.not_neg(x); let r = c.ite(nn, x, m); c.wrap(r, w) }).map(Some);
            }
            if base.starts_with("bswap") {
                let mut b = vec![];
                self.to_bytes(&args[0].0, &args[0].1, &mut b)?;
                b.reverse();
                return self.from_bytes(rt, &b).map(Some);
            }
            if base.starts_with("fshl") || base.starts_with("fshr") {
                let left = base.starts_with("fshl");
                let (t, n) = match &args[0].0 { Type::Vec(n, t) => ((**t).clone(), *n), t => (t.clone(), 0) };
                let Type::Int(w) = t else { return Err(Stop::Unsup(name.into())) };
                let l: Vec<Vec<V>> = (0..3).map(|i| if n > 0 { self.lanes(&args[i].1, n) } else { Ok(vec![a(i)]) }).collect::<X<_>>()?;
                let mut r = vec![];
                for i in 0..l[0].len() {
                    if (0..3).any(|k| matches!(l[k][i], V::Opq)) { r.push(V::Opq); continue; }
                    let k = { let t = self.int(&l[2][i])?; self.c.konst(t).ok_or(Stop::Unsup("symbolic funnel shift".into()))? as u32 % w };
                    // bytes keep their identity
                    if k % 8 == 0 {
                        let mut b = vec![];
                        self.to_bytes(&t, &l[1][i], &mut b)?;
                        self.to_bytes(&t, &l[0][i], &mut b)?;
                        let nb = (w / 8) as usize;
                        let st = if left { nb - (k / 8) as usize } else { (k / 8) as usize };
                        r.push(self.from_bytes(&t, &b[st..st + nb])?);
                        continue;
                    }
                    let (hi, lo) = (self.int(&l[0][i])?, self.int(&l[1][i])?);
                    let sh = if left { w - k } else { k };
                    let h = self.c.scale(hi, p2(w));
                    let s = self.c.add(h, lo);
                    let d = self.c.div(s, sh);
                    r.push(V::I(self.c.wrap(d, w)));
                }
                return Ok(Some(if n > 0 { V::Vec(r.into()) } else { r.pop().unwrap() }));
            }
            if base.starts_with("x86.") {
                if let Some(v) = self.x86(st, base, args)? { return Ok(Some(v)); }
            }
            if base.starts_with("load.relative") {
                let (o, off) = self.ptr(&args[0].1)?;
                let k = self.int(&args[1].1)?;
                let at = self.c.add(off, k);
                let _ = at;
                return Err(Stop::Unsup(format!("load.relative on object {o}")));
            }
            if base.starts_with("ctpop") || base.starts_with("ctlz") || base.starts_with("cttz") {
                let t = self.int(&args[0].1)?;
                if let (Some(k), Type::Int(w)) = (self.c.konst(t), &args[0].0) {
                    let k = k as u128;
                    let r = if base.starts_with("ctpop") { k.count_ones() } else if base.starts_with("ctlz") { k.leading_zeros() - (128 - w) } else { k.trailing_zeros().min(*w) };
                    return Ok(Some(self.kint(r as u128)));
                }
            }
            if base.starts_with("expect") { return Ok(Some(a(0))); }
            if base.starts_with("is.constant") { return Ok(Some(V::B(FALSE))); }
            if base.starts_with("trap") { return Err(Stop::Panic("trap".into())); }
            return Err(Stop::Unsup(format!("intrinsic {name}")));
        }
        if name.contains("sync4once") && name.contains("Once4call") {
            // Once::call(state, ignore_poisoning, closure data, closure vtable, location) by the thread that wins:
            // runs the closure, then marks the state complete
            let (vo, voff) = self.ptr(&args[3].1)?;
            let slot = self.c.addk(voff, 32);
            let f = self.load(st, &Type::Ptr, &V::P(vo, slot))?;
            let V::F(f) = f else { return Err(Stop::Unsup("once: vtable".into())) };
            let mut pass = vec![a(2)];
            if self.p.funcs[f as usize].params.len() == 2 {
                // &OnceState: not poisoned
                let zero = V::I(self.c.zero);
                let o = self.alloc(st, vec![zero; 16]);
                pass.push(V::P(o, self.c.zero));
            }
            let z = self.c.zero;
            self.store(st, &Type::Int(32), &V::I(z), &args[0].1)?;
            st.events.push("once".into());
            self.call(st, f, pass, None)?;
            return Ok(None);
        }
        if name.contains("___rust_dealloc") || name.ends_with("__rust_dealloc") {
            let (o, _) = self.ptr(&args[0].1)?;
            if matches!(st.mem.get(o as usize), Some(Obj::Small(_))) { st.mem[o as usize] = Obj::Dead; }
            return none;
        }
        if name.contains("___rust_alloc") || name.contains("__rust_alloc") {
            let t = self.int(&args[0].1)?;
            let k = self.c.konst(t).ok_or(Stop::Unsup("allocation of a symbolic size".into()))?;
            let b = if name.contains("zeroed") { V::I(self.c.zero) } else { V::Undef };
            let o = self.alloc(st, vec![b; k as usize]);
            return Ok(Some(V::P(o, self.c.zero)));
        }
        if name.contains("rust_realloc") {
            let (o, off) = self.ptr(&args[0].1)?;
            let (old, new) = (self.int(&args[1].1)?, self.int(&args[3].1)?);
            let (Some(old), Some(new)) = (self.c.konst(old), self.c.konst(new)) else { return Err(Stop::Unsup("allocation of a symbolic size".into())) };
            let mut b = self.read(st, o, off, old.min(new) as usize)?;
            b.resize(new as usize, V::Undef);
            if matches!(st.mem.get(o as usize), Some(Obj::Small(_))) { st.mem[o as usize] = Obj::Dead; }
            let n = self.alloc(st, b);
            return Ok(Some(V::P(n, self.c.zero)));
        }
        if name.contains("no_alloc_shim") { return none; }
        if name.contains("3fmt6format12format_inner") {
            let (saved, depth) = (st.clone(), st.frames.len());
            let r = self.format(st, args, depth);
            if r.is_err() { *st = saved; }
            return r.map(Some);
        }
        if name.contains("Formatter9write_str") {
            let (o, off) = self.ptr(&args[1].1)?;
            let t = self.int(&args[2].1)?;
            let n = self.split(st, t)?;
            let b = self.read(st, o, off, n as usize)?;
            st.out.extend(b);
            return Ok(Some(V::B(FALSE)));
        }
        let _ = dst;
        Err(Stop::Unsup(format!("external function {name}")))
    }
    /// A formatted string: the pieces of the template, the arguments through their own functions
    fn format(&mut self, st: &mut State, args: &[(Type, V)], depth: usize) -> X<V> {
        let (to, toff) = self.ptr(&args[1].1)?;
        let mut at = match self.c.konst(toff) { Some(k) => k as usize, None => return Err(Stop::Unsup("format template".into())) };
        let Some(Obj::Small(t)) = st.mem.get(to as usize).cloned() else { return Err(Stop::Unsup("format template".into())) };
        let mut byte = |ex: &mut Self| -> X<u8> {
            let v = t.get(at).ok_or(Stop::Unsup("format template".into()))?.clone();
            at += 1;
            let v = ex.int(&v)?;
            ex.c.konst(v).map(|x| x as u8).ok_or(Stop::Unsup("format template".into()))
        };
        let (ao, aoff) = self.ptr(&args[2].1)?;
        let mut text: Vec<V> = vec![];
        let mut n = 0;
        loop {
            let k = byte(self)?;
            match k {
                0 => break,
                1..=0x7f => for _ in 0..k { let b = byte(self)?; text.push(self.kint(b as u128)); },
                0xC0 => {
                    let p = self.c.addk(aoff, 16 * n);
                    let q = self.c.addk(p, 8);
                    n += 1;
                    let v = self.load(st, &Type::Ptr, &V::P(ao, p))?;
                    let V::F(f) = self.load(st, &Type::Ptr, &V::P(ao, q))? else { return Err(Stop::Unsup("format argument".into())) };
                    let d = self.alloc(st, vec![V::Undef; 64]);
                    st.out.clear();
                    self.call(st, f, vec![v, V::P(d, self.c.zero)], None)?;
                    while st.frames.len() > depth { self.step(st)?; }
                    text.append(&mut st.out);
                }
                _ => return Err(Stop::Unsup("format option".into())),
            }
        }
        let len = self.kint(text.len() as u128);
        let o = self.alloc(st, text);
        let mut b = vec![];
        for (t, v) in [(Type::Int(64), len.clone()), (Type::Ptr, V::P(o, self.c.zero)), (Type::Int(64), len)] { self.to_bytes(&t, &v, &mut b)?; }
        let (ro, roff) = self.ptr(&args[0].1)?;
        self.write(st, ro, roff, b)?;
        Ok(V::Undef)
    }
    /// Pointer that an entry of a table of offsets stands for
    fn relative(&mut self, st: &mut State, p: &V, off: &V) -> X<V> {
        let (o, base) = self.ptr(p)?;
        let i = self.int(off)?;
        let i = self.c.sgn(i, 64);
        let at = self.c.add(base, i);
        let size = match st.mem.get(o as usize) { Some(Obj::Small(b)) => b.len(), _ => { let Some(g) = self.p.globals.get((o as usize).wrapping_sub(1)) else { return Err(Stop::Unsup("table of offsets".into())) }; g.ty.size() as usize } };
        let k = self.small_off(st, at, 4, size)?;
        if k % 4 != 0 { return Err(Stop::Unsup("table of offsets".into())); }
        let Some(ir::Global { init: Some(Const::Agg(v)), .. }) = self.p.globals.get((o as usize).wrapping_sub(1)) else { return Err(Stop::Unsup("table of offsets".into())) };
        // trunc (target - table)
        let Some((_, Const::Cast(_, _, d, _))) = v.get(k / 4) else { return Err(Stop::Unsup("table of offsets".into())) };
        let Const::Bin(sub, _, a, b) = &**d else { return Err(Stop::Unsup("table of offsets".into())) };
        let (Const::Cast(_, _, a, _), Const::Cast(_, _, b, _)) = (&**a, &**b) else { return Err(Stop::Unsup("table of offsets".into())) };
        if sub != "sub" { return Err(Stop::Unsup("table of offsets".into())); }
        let r = self.const_val(&Type::Ptr, a)?;
        match self.const_val(&Type::Ptr, b)? { V::P(x, z) if x == o && z == self.c.zero => Ok(r), _ => Err(Stop::Unsup("table of offsets".into())) }
    }
    fn range_access(&mut self, st: &mut State, o: u32, off: T, len: T, write: bool) -> X<()> {
        let l = self.here(st);
        st.racc.push((o, off, len, write, l));
        match &mut st.mem[o as usize] {
            Obj::Buf(b) => { if write { Rc::make_mut(b).ranges.push((off, len)); } Ok(()) }
            _ => Err(Stop::Unsup("transfer of symbolic length".into())),
        }
    }
    fn lanewise(&mut self, ty: &Type, a: V, b: V, f: &mut dyn FnMut(&mut Self, u32, T, T) -> T) -> X<V> {
        match ty {
            Type::Vec(n, t) => { let Type::Int(w) = **t else { return Err(Stop::Unsup("lanes".into())) }; self.map2(*n, &a, &b, |s, x, y| { let (x, y) = (s.int(x)?, s.int(y)?); Ok(V::I(f(s, w, x, y))) }) }
            Type::Int(w) => {
                if matches!(a, V::Opq) || matches!(b, V::Opq) { return Ok(V::Opq); }
                if matches!(a, V::Undef) || matches!(b, V::Undef) { return Ok(V::Undef); }
                let (x, y) = (self.int(&a)?, self.int(&b)?);
                Ok(V::I(f(self, *w, x, y)))
            }
            _ => Err(Stop::Unsup("lanes".into())),
        }
    }
    #[allow(clippy::too_many_lines)]
    fn x86(&mut self, st: &mut State, base: &str, args: &[(Type, V)]) -> X<Option<V>> {
        if base.contains("fence") || base.contains("vzero") || base.ends_with("pause") { return Ok(Some(V::Undef)); }
        if args.is_empty() { return Ok(None); }
        let n = match &args[0].0 { Type::Vec(n, _) => *n, _ => 0 };
        if base.contains(".ldu.dq") {
            let k = if base.contains("256") { 32 } else { 16 };
            return self.load(st, &Type::Vec(k, std::sync::Arc::new(Type::Int(8))), &args[0].1).map(Some);
        }
        if let (Type::Vec(_, t), Some((op, rest))) = (&args[0].0, [("psll", BinOp::Shl), ("psrl", BinOp::LShr), ("psra", BinOp::AShr)].into_iter().find_map(|(p, o)| base.split('.').find_map(|x| x.strip_prefix(p)).map(|r| (o, r.to_string())))) {
            let Type::Int(w) = **t else { return Ok(None) };
            // by a number, by the low half of a register, or lane by lane
            let amounts: Vec<V> = match rest.as_str() {
                "i" => vec![args[1].1.clone(); n],
                "v" => self.lanes(&args[1].1, n)?.to_vec(),
                _ => {
                    let mut b = vec![];
                    self.to_bytes(&args[1].0, &args[1].1, &mut b)?;
                    vec![self.from_bytes(&Type::Int(64), &b[..8])?; n]
                }
            };
            let x = self.lanes(&args[0].1, n)?.to_vec();
            let mut r = vec![];
            for (x, k) in x.into_iter().zip(amounts) {
                let k = self.int(&k)?;
                let k = self.c.konst(k).ok_or(Stop::Unsup("symbolic shift".into()))?;
                let z = V::I(self.c.zero);
                if k < 0 || k >= w as i128 {
                    if op != BinOp::AShr { r.push(z); continue; }
                    let m = V::I(self.c.k(w as i128 - 1));
                    r.push(self.bin(op, &Type::Int(w), x, m)?);
                    continue;
                }
                let k = V::I(self.c.k(k));
                r.push(self.bin(op, &Type::Int(w), x, k)?);
            }
            return Ok(Some(V::Vec(r.into())));
        }
        if base.contains("phadd.w") || base.contains("phadd.d") || base.contains("phsub.w") || base.contains("phsub.d") {
            let Type::Vec(_, t) = &args[0].0 else { return Ok(None) };
            let op = if base.contains("phadd") { BinOp::Add } else { BinOp::Sub };
            let l = [self.lanes(&args[0].1, n)?.to_vec(), self.lanes(&args[1].1, n)?.to_vec()];
            let half = if base.contains(".w") { 8 } else { 4 };
            let mut r = vec![];
            for part in 0..n / half { for x in &l { for i in 0..half / 2 {
                let k = part * half + 2 * i;
                r.push(self.bin(op, t, x[k].clone(), x[k + 1].clone())?);
            } } }
            return Ok(Some(V::Vec(r.into())));
        }
        if base.contains("pmul.hr.sw") {
            return self.map2(n, &args[0].1, &args[1].1, |s, x, y| {
                let (x, y) = (s.int(x)?, s.int(y)?);
                let (x, y) = (s.c.sgn(x, 16), s.c.sgn(y, 16));
                let m = s.c.mul(x, y);
                let m = s.c.addk(m, 0x4000);
                let d = s.c.div(m, 15);
                Ok(V::I(s.c.wrap(d, 16)))
            }).map(Some);
        }
        if base.contains("pblendvb") {
            let (x, y, m) = (self.lanes(&args[0].1, n)?.to_vec(), self.lanes(&args[1].1, n)?.to_vec(), self.lanes(&args[2].1, n)?.to_vec());
            let mut r = vec![];
            for i in 0..n {
                if matches!(m[i], V::Opq) { r.push(V::Opq); continue; }
                let t = self.int(&m[i])?;
                let k = self.c.k(127);
                let hi = self.c.lt(k, t);
                r.push(self.select(hi, &y[i], &x[i])?);
            }
            return Ok(Some(V::Vec(r.into())));
        }
        if base.contains("permd") || base.contains("permps") {
            let (x, m) = (self.lanes(&args[0].1, n)?.to_vec(), self.lanes(&args[1].1, n)?.to_vec());
            let mut r = vec![];
            for i in 0..n {
                let t = self.int(&m[i])?;
                let k = self.c.konst(t).ok_or(Stop::Unsup("symbolic permutation".into()))?;
                r.push(x[(k & 7) as usize].clone());
            }
            return Ok(Some(V::Vec(r.into())));
        }
        if base.contains("psad.bw") {
            if opq_any(args) { return Ok(Some(V::Vec(vec![V::Opq; n / 8].into()))); }
            let (x, y) = (self.lanes(&args[0].1, n)?.to_vec(), self.lanes(&args[1].1, n)?.to_vec());
            let mut r = vec![];
            for i in 0..n / 8 {
                let mut s = self.c.zero;
                for j in 8 * i..8 * i + 8 {
                    let (p, q) = (self.int(&x[j])?, self.int(&y[j])?);
                    let (d, e) = (self.c.sub(p, q), self.c.sub(q, p));
                    let nn = self.c.not_neg(d);
                    let a = self.c.ite(nn, d, e);
                    s = self.c.add(s, a);
                }
                r.push(V::I(s));
            }
            return Ok(Some(V::Vec(r.into())));
        }
        if base.contains("pmovmskb") {
            if opq_any(args) { return Ok(Some(V::Opq)); }
            let x = self.lanes(&args[0].1, n)?.to_vec();
            let mut s = self.c.zero;
            for (i, v) in x.iter().enumerate() {
                let t = self.int(v)?;
                let d = self.c.div(t, 7);
                let d = self.c.scale(d, p2(i as u32));
                s = self.c.add(s, d);
            }
            return Ok(Some(V::I(s)));
        }
        let opq = args.iter().any(|x| match &x.1 { V::Opq => true, V::Vec(l) => l.iter().any(|y| matches!(y, V::Opq)), _ => false });
        if base.contains("pmadd.wd") {
            if opq { return Ok(Some(V::Vec(vec![V::Opq; n / 2].into()))); }
            let (x, y) = (self.lanes(&args[0].1, n)?, self.lanes(&args[1].1, n)?);
            let mut r = vec![];
            for i in 0..n / 2 {
                if undef4(&x, &y, i) { r.push(V::Undef); continue; }
                let mut s = self.c.zero;
                for j in [2 * i, 2 * i + 1] {
                    let (p, q) = (self.int(&x[j])?, self.int(&y[j])?);
                    let (p, q) = (self.c.sgn(p, 16), self.c.sgn(q, 16));
                    let m = self.c.mul(p, q);
                    s = self.c.add(s, m);
                }
                r.push(V::I(self.c.wrap(s, 32)));
            }
            return Ok(Some(V::Vec(r.into())));
        }
        let pack = [("packssdw", 32u32, 16u32, true), ("packsswb", 16, 8, true), ("packuswb", 16, 8, false), ("packusdw", 32, 16, false)].into_iter().find(|p| base.contains(p.0));
        if let Some((_, w, w2, signed)) = pack {
            if opq { return Ok(Some(V::Vec(vec![V::Opq; n * 2].into()))); }
            let (x, y) = (self.lanes(&args[0].1, n)?, self.lanes(&args[1].1, n)?);
            let half = 128 / w as usize; // lanes of a 128-bit part
            let mut r = vec![];
            for part in 0..n / half {
                for l in [&x, &y] {
                    for i in 0..half {
                        if matches!(l[part * half + i], V::Undef) { r.push(V::Undef); continue; }
                        let t = self.int(&l[part * half + i])?;
                        let t = self.c.sgn(t, w);
                        let (lo, hi) = if signed { (-p2(w2 - 1), p2(w2 - 1) - 1) } else { (0, p2(w2) - 1) };
                        let t = self.c.clamp(t, lo, hi);
                        r.push(V::I(self.c.wrap(t, w2)));
                    }
                }
            }
            return Ok(Some(V::Vec(r.into())));
        }
        if base.contains("pshuf.b") {
            let (x, m) = (self.lanes(&args[0].1, n)?, self.lanes(&args[1].1, n)?);
            let mut r = vec![];
            for i in 0..n {
                let t = self.int(&m[i])?;
                let k = self.c.konst(t).ok_or(Stop::Unsup("symbolic byte shuffle".into()))?;
                r.push(if k & 0x80 != 0 { V::I(self.c.zero) } else { x[i / 16 * 16 + (k & 15) as usize].clone() });
            }
            return Ok(Some(V::Vec(r.into())));
        }
        if base.contains("pmulhu.w") || base.contains("pmulh.w") {
            let signed = base.contains("pmulh.w");
            return self.map2(n, &args[0].1, &args[1].1, |s, x, y| {
                let (x, y) = (s.int(x)?, s.int(y)?);
                let (x, y) = if signed { (s.c.sgn(x, 16), s.c.sgn(y, 16)) } else { (x, y) };
                let m = s.c.mul(x, y);
                let d = s.c.div(m, 16);
                Ok(V::I(s.c.wrap(d, 16)))
            }).map(Some);
        }
        if base.contains("pavg.b") || base.contains("pavg.w") {
            return self.map2(n, &args[0].1, &args[1].1, |s, x, y| { let (x, y) = (s.int(x)?, s.int(y)?); let m = s.c.add(x, y); let m = s.c.addk(m, 1); Ok(V::I(s.c.div(m, 1))) }).map(Some);
        }
        if base.contains("pmadd.ub.sw") {
            if opq { return Ok(Some(V::Vec(vec![V::Opq; n / 2].into()))); }
            let (x, y) = (self.lanes(&args[0].1, n)?, self.lanes(&args[1].1, n)?);
            let mut r = vec![];
            for i in 0..n / 2 {
                if undef4(&x, &y, i) { r.push(V::Undef); continue; }
                let mut s = self.c.zero;
                for j in [2 * i, 2 * i + 1] {
                    let (p, q) = (self.int(&x[j])?, self.int(&y[j])?);
                    let q = self.c.sgn(q, 8);
                    let m = self.c.mul(p, q);
                    s = self.c.add(s, m);
                }
                let s = self.c.clamp(s, -32768, 32767);
                r.push(V::I(self.c.wrap(s, 16)));
            }
            return Ok(Some(V::Vec(r.into())));
        }
        if base.starts_with("x86.xgetbv") {
            let t = match (&self.cpu, self.xgetbv_sym) {
                (Cpu::Set(_), _) => self.c.k(7),
                (_, Some(t)) => t,
                (_, None) => { let t = self.c.sym("xcr0", 0, p2(64) - 1, true); self.xgetbv_sym = Some(t); t }
            };
            st.events.push("xgetbv".into());
            return Ok(Some(V::I(t)));
        }
        Ok(None)
    }
    fn asm(&mut self, st: &mut State, text: &str, args: &[(Type, V)]) -> X<V> {
        if text.contains("cpuid") {
            let (leaf, sub) = (self.int(&args[0].1)?, self.int(&args[1].1)?);
            return self.cpuid(st, leaf, sub);
        }
        // core::hint::black_box
        if text.is_empty() { return Ok(V::Undef); }
        Err(Stop::Unsup(format!("assembly {text}")))
    }
    /// Answers in the order of the outputs of the instruction sequence: ebx, eax, ecx, edx
    fn cpuid(&mut self, st: &mut State, leaf: T, sub: T) -> X<V> {
        self.c.set_env(&st.env);
        if let Cpu::Set(s) = self.cpu {
            let l = self.c.konst(leaf).ok_or(Stop::Unsup("cpuid with a symbolic leaf".into()))?;
            let _ = sub;
            // 0: no SIMD, 1: sse2 only, 2: avx2
            let (a, b, c, d): (u32, u32, u32, u32) = match l {
                0 => (if s == 2 { 7 } else { 1 }, 0x756e_6547, 0x6c65_746e, 0x4965_6e69),
                1 => (0, 0, if s == 2 { 1 << 27 | 1 << 28 | 1 << 26 } else { 0 }, if s >= 1 { 1 << 26 | 1 << 25 } else { 0 }),
                7 => (0, if s == 2 { 1 << 5 } else { 0 }, 0, 0),
                _ => (0, 0, 0, 0),
            };
            let v = [b, a, c, d].iter().map(|x| self.kint(*x as u128)).collect::<Vec<_>>();
            return Ok(V::Agg(v.into()));
        }
        let key = (leaf, sub);
        st.events.push(format!("cpuid {} {}", self.c.show(leaf), self.c.show(sub)));
        if let Some(v) = self.cpuid_syms.get(&key) { return Ok(V::Agg(v.clone())); }
        let n = self.c.show(leaf);
        let v: Vec<V> = ["ebx", "eax", "ecx", "edx"].iter().map(|r| V::I(self.c.sym(&format!("cpuid{n}.{r}"), 0, p2(32) - 1, true))).collect();
        let v: Rc<[V]> = v.into();
        self.cpuid_syms.insert(key, v.clone());
        self.cpuid_order.push(key);
        Ok(V::Agg(v))
    }

    // ------------------------------------------------------------------ stepping
    fn goto(&mut self, st: &mut State, to: usize) -> X<()> {
        let fr = st.frames.last().unwrap();
        let (f, from) = (fr.f, fr.bb);
        let p = self.p;
        let fun = &p.funcs[f as usize];
        let mut vals = vec![];
        let mut n = 0;
        for i in &fun.blocks[to].code {
            let Ins::Phi(ty, v) = &i.ins else { break };
            n += 1;
            let Some((o, _)) = v.iter().find(|x| x.1 == from) else { return Err(Stop::Unsup("phi".into())) };
            vals.push((i.dst.unwrap(), self.op(st, ty, o)?));
        }
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals { fr.regs[d] = v; }
        fr.prev = from;
        fr.bb = to;
        fr.ip = n;
        self.cov.insert((f, to as u32));
        Ok(())
    }
    /// One instruction
    pub fn step(&mut self, st: &mut State) -> X<()> {
        let p = self.p;
        let (f, bb, ip) = { let fr = st.frames.last().unwrap(); (fr.f, fr.bb, fr.ip) };
        let ins = &p.funcs[f as usize].blocks[bb].code[ip];
        st.steps += 1;
        self.total_steps += 1;
        let mut res: Option<V> = None;
        match &ins.ins {
            Ins::Nop => {}
            Ins::Bin(op, ty, a, b) => { let (a, b) = (self.op(st, ty, a)?, self.op(st, ty, b)?); res = Some(match self.bin(*op, ty, a.clone(), b.clone()) {
                    Err(Stop::Fork(z)) => {
                        // only divisions: is the divisor zero?
                        if self.decide(st, z)? { return Err(Stop::Ub("division by zero".into())); }
                        let (x, y) = (self.int(&a)?, self.int(&b)?);
                        V::I(if matches!(op, BinOp::UDiv | BinOp::SDiv) { self.c.udiv(x, y) } else { self.c.urem(x, y) })
                    }
                    r => r?,
                });
            }
            Ins::Icmp(pr, ty, a, b) => { let (a, b) = (self.op(st, ty, a)?, self.op(st, ty, b)?); res = Some(self.icmp(*pr, ty, a, b)?); }
            Ins::Select(ct, c, ty, a, b) => {
                let c = self.op(st, ct, c)?;
                let (a, b) = (self.op(st, ty, a)?, self.op(st, ty, b)?);
                res = Some(match &c {
                    V::Vec(l) => {
                        let n = l.len();
                        let (x, y) = (self.lanes(&a, n)?, self.lanes(&b, n)?);
                        let mut r = vec![];
                        for i in 0..n { if matches!(l[i], V::Opq) { r.push(V::Opq); continue; } let b = self.boolean(&l[i])?; r.push(self.select(b, &x[i], &y[i])?); }
                        V::Vec(r.into())
                    }
                    V::Opq => if a == b { a } else if matches!(ty, Type::Ptr) { return Err(Stop::Unsup("pointer depends on an untracked value".into())) } else if let Type::Vec(n, _) = ty { V::Vec(vec![V::Opq; *n].into()) } else { V::Opq },
                    V::Undef => a,
                    _ => {
                        let x = self.boolean(&c)?;
                        let x = self.c.simp(x);
                        match self.select(x, &a, &b) { Err(Stop::Fork(x)) => { if self.decide(st, x)? { a } else { b } } r => r? }
                    }
                });
            }
            Ins::Cast(op, t, a, t2) => { let a = self.op(st, t, a)?; res = Some(self.cast(op, t, a, t2)?); }
            Ins::Load(ty, a, al) => { let a = self.op(st, &Type::Ptr, a)?; self.aligned(st, &a, *al)?; res = Some(self.load(st, ty, &a)?); }
            Ins::Store(ty, v, a, al) => { let v = self.op(st, ty, v)?; let a = self.op(st, &Type::Ptr, a)?; self.aligned(st, &a, *al)?; self.store(st, ty, &v, &a)?; }
            Ins::Gep(ty, b, idx) => {
                let b = self.op(st, &Type::Ptr, b)?;
                let mut ix = Vec::with_capacity(idx.len());
                for (t, o) in idx { ix.push((t.clone(), self.op(st, t, o)?)); }
                res = Some(self.gep(ty, b, &ix)?);
            }
            Ins::Alloca(ty, n) => {
                let mut s = ty.size() as usize;
                if let Some((t, o)) = n { let v = self.op(st, t, o)?; let t = self.int(&v)?; s *= self.c.konst(t).ok_or(Stop::Unsup("alloca".into()))? as usize; }
                let o = self.alloc(st, vec![V::Undef; s]);
                st.frames.last_mut().unwrap().allocas.push(o);
                res = Some(V::P(o, self.c.zero));
            }
            Ins::Phi(..) => return Err(Stop::Unsup("phi".into())),
            Ins::Call(rt, callee, args) => {
                let mut av = Vec::with_capacity(args.len());
                for (t, o) in args { av.push((t.clone(), self.op(st, t, o)?)); }
                match callee {
                    Callee::Asm(t) => res = Some(self.asm(st, t, &av)?),
                    Callee::Global(n) => {
                        if let Some(fi) = p.func(n) {
                            st.frames.last_mut().unwrap().ip += 1;
                            let r = self.call(st, fi, av.into_iter().map(|x| x.1).collect(), ins.dst);
                            if r.is_err() { st.frames.last_mut().unwrap().ip -= 1; }
                            return r;
                        }
                        st.frames.last_mut().unwrap().ip += 1;
                        let r = self.external(st, n, rt, &av, ins.dst);
                        match r {
                            Err(e) => { st.frames.last_mut().unwrap().ip -= 1; return Err(e); }
                            Ok(None) => return Ok(()),
                            Ok(Some(v)) => { if let Some(d) = ins.dst { st.frames.last_mut().unwrap().regs[d] = v; } return Ok(()); }
                        }
                    }
                    Callee::Indirect(o) => {
                        let v = self.op(st, &Type::Ptr, o)?;
                        let V::F(fi) = v else { return Err(Stop::Ub(format!("call through {v:?}"))) };
                        st.frames.last_mut().unwrap().ip += 1;
                        return self.call(st, fi, av.into_iter().map(|x| x.1).collect(), ins.dst);
                    }
                }
            }
            Ins::ExtractValue(t, a, ix) => {
                let mut v = self.op(st, t, a)?;
                for i in ix { v = match &v { V::Agg(l) => l[*i].clone(), V::Undef => V::Undef, _ => return Err(Stop::Unsup("extractvalue".into())) }; }
                res = Some(v);
            }
            Ins::InsertValue(t, a, t2, b, ix) => {
                let v = self.op(st, t, a)?;
                let x = self.op(st, t2, b)?;
                res = Some(insert_at(&v, t, ix, x)?);
            }
            Ins::ExtractElement(t, a, t2, i) => {
                let Type::Vec(n, _) = t else { return Err(Stop::Unsup("extractelement".into())) };
                let v = self.op(st, t, a)?;
                let l = self.lanes(&v, *n)?;
                let i = self.op(st, t2, i)?;
                let i = self.int(&i)?;
                let k = self.c.konst(i).ok_or(Stop::Unsup("symbolic lane".into()))? as usize;
                res = Some(l[k].clone());
            }
            Ins::InsertElement(t, a, t2, x, t3, i) => {
                let Type::Vec(n, _) = t else { return Err(Stop::Unsup("insertelement".into())) };
                let v = self.op(st, t, a)?;
                let mut l = self.lanes(&v, *n)?;
                let x = self.op(st, t2, x)?;
                let i = self.op(st, t3, i)?;
                let i = self.int(&i)?;
                let k = self.c.konst(i).ok_or(Stop::Unsup("symbolic lane".into()))? as usize;
                l[k] = x;
                res = Some(V::Vec(l.into()));
            }
            Ins::Shuffle(t, a, b, mt, m) => {
                let (Type::Vec(n, _), Type::Vec(k, _)) = (t, mt) else { return Err(Stop::Unsup("shuffle".into())) };
                let (a, b) = (self.op(st, t, a)?, self.op(st, t, b)?);
                let (x, y) = (self.lanes(&a, *n)?, self.lanes(&b, *n)?);
                let mut r = Vec::with_capacity(*k);
                let pick = |i: Option<u128>| match i { None => V::Undef, Some(i) if (i as usize) < *n => x[i as usize].clone(), Some(i) => y[i as usize - *n].clone() };
                match m {
                    Const::Agg(v) => for (_, c) in v { r.push(pick(const_int(c))); },
                    Const::Zero => for _ in 0..*k { r.push(pick(Some(0))); },
                    Const::Splat(s) => for _ in 0..*k { r.push(pick(const_int(&s.1))); },
                    _ => for _ in 0..*k { r.push(V::Undef); },
                }
                res = Some(V::Vec(r.into()));
            }
            Ins::Freeze(t, a) => { let v = self.op(st, t, a)?; res = Some(v); }
            Ins::AtomicRmw(o, a, t, v) => {
                let a = self.op(st, &Type::Ptr, a)?;
                let v = self.op(st, t, v)?;
                let old = self.load(st, t, &a)?;
                let new = match o.as_str() {
                    "xchg" => v,
                    "add" => self.bin(BinOp::Add, t, old.clone(), v)?,
                    "sub" => self.bin(BinOp::Sub, t, old.clone(), v)?,
                    "or" => self.bin(BinOp::Or, t, old.clone(), v)?,
                    "and" => self.bin(BinOp::And, t, old.clone(), v)?,
                    _ => return Err(Stop::Unsup("atomicrmw".into())),
                };
                self.store(st, t, &new, &a)?;
                res = Some(old);
            }
            Ins::CmpXchg(t, a, e, n) => {
                let a = self.op(st, &Type::Ptr, a)?;
                let (e, n) = (self.op(st, t, e)?, self.op(st, t, n)?);
                let old = self.load(st, t, &a)?;
                let V::B(b) = self.icmp(Pred::Eq, t, old.clone(), e)? else { return Err(Stop::Unsup("cmpxchg".into())) };
                let ok = self.decide(st, b)?;
                if ok { self.store(st, t, &n, &a)?; }
                res = Some(V::Agg(vec![old, V::B(if ok { TRUE } else { FALSE })].into()));
            }
            Ins::Unreachable => return Err(Stop::Ub("unreachable code reached".into())),
            Ins::Ret(v) => {
                let v = match v { Some((t, o)) => self.op(st, t, o)?, None => V::Undef };
                return self.ret(st, v);
            }
            Ins::Br(b) => { return self.goto(st, *b); }
            Ins::CondBr(c, a, b) => {
                let v = self.op(st, &Type::Int(1), c)?;
                let x = self.boolean(&v)?;
                let d = match self.decide(st, x) {
                    Err(Stop::Fork(x)) => { if let Some(n) = self.cutoff { self.count_fork(st, n)?; } return Err(Stop::Fork(x)); }
                    r => r?,
                };
                return self.goto(st, if d { *a } else { *b });
            }
            Ins::Switch(t, c, d, v) => {
                let x = self.op(st, t, c)?;
                if matches!(x, V::Undef) { return Err(Stop::Ub("switch on an undefined value".into())); }
                let x = self.int(&x)?;
                self.c.set_env(&st.env);
                for (k, l) in v {
                    let k = self.c.k(*k as i128);
                    let e = self.c.eq(x, k);
                    if self.decide(st, e)? { return self.goto(st, *l); }
                }
                return self.goto(st, *d);
            }
            Ins::Unsupported(s) => return Err(Stop::Unsup(format!("instruction {s}"))),
        }
        let fr = st.frames.last_mut().unwrap();
        if let (Some(d), Some(v)) = (ins.dst, res) { fr.regs[d] = v; }
        fr.ip += 1;
        Ok(())
    }

    /// Ends a path that went round a loop with an unknown number of iterations often enough
    fn count_fork(&mut self, st: &mut State, limit: u32) -> X<()> {
        let fr = st.frames.last_mut().unwrap();
        let bb = fr.bb;
        if !self.p.funcs[fr.f as usize].loops.values().any(|l| l[bb]) { return Ok(()); }
        let e = match fr.undecided.iter().position(|x| x.0 == bb) { Some(i) => &mut fr.undecided[i], None => { fr.undecided.push((bb, 0)); fr.undecided.last_mut().unwrap() } };
        e.1 += 1;
        if e.1 > if st.acc.is_empty() { 8 } else { limit } { Err(Stop::Cut) } else { Ok(()) }
    }

    fn in_time(&self) -> Result<(), String> {
        if self.deadline.map_or(false, |d| std::time::Instant::now() > d) { Err("time limit of the scenario".into()) } else { Ok(()) }
    }

    /// Explores every path, calling `f` at the end of each
    pub fn run(&mut self, st: State, f: &mut dyn FnMut(&mut Ex<'p>, State, End) -> Result<(), String>) -> Result<(), String> {
        let mut work = vec![st];
        while let Some(mut st) = work.pop() {
            self.c.set_env(&st.env);
            loop {
                let l = self.here(&st);
                let r = self.step(&mut st);
                match r {
                    Ok(()) => {
                        if st.steps > self.max_steps { return Err(format!("step limit at {}", self.p.loc(l))); }
                        if st.steps & 4095 == 0 { self.in_time()?; }
                    }
                    Err(Stop::Fork(b)) => {
                        self.in_time()?;
                        let n = self.c.not(b);
                        let (e1, e2) = (self.c.assume(&st.env, b), self.c.assume(&st.env, n));
                        let mut s2 = st.clone();
                        s2.env = e2;
                        st.env = e1;
                        st.forks += 1;
                        s2.forks += 1;
                        *self.symbranches.entry((l.f, l.bb)).or_insert(0) |= 1;
                        if !s2.env.infeasible { work.push(s2); }
                        if work.len() as u64 + self.paths > self.max_paths { return Err("path limit".into()); }
                        if st.env.infeasible { break; }
                        self.c.set_env(&st.env);
                    }
                    Err(Stop::Unsup(s)) => return Err(format!("{s} at {}", self.p.loc(l))),
                    Err(Stop::Panic(s)) => { self.paths += 1; f(self, st, End::Panic(s, l))?; break; }
                    Err(Stop::Ub(s)) => { self.paths += 1; f(self, st, End::Ub(s, l))?; break; }
                    Err(Stop::Cut) => { self.paths += 1; f(self, st, End::Cut(l))?; break; }
                    Err(Stop::Finished(v)) => { self.paths += 1; f(self, st, End::Ret(v))?; break; }
                }
            }
        }
        Ok(())
    }
}

/// One of the four lanes of a multiply-and-add is undefined
fn opq_any(args: &[(Type, V)]) -> bool { args.iter().any(|x| match &x.1 { V::Opq => true, V::Vec(l) => l.iter().any(|y| matches!(y, V::Opq)), _ => false }) }
fn undef4(x: &[V], y: &[V], i: usize) -> bool { [&x[2 * i], &x[2 * i + 1], &y[2 * i], &y[2 * i + 1]].iter().any(|v| matches!(v, V::Undef)) }

fn shift(c: &mut Ctx, op: BinOp, x: T, k: u32, w: u32) -> T {
    match op {
        BinOp::Shl => { let s = c.scale(x, p2(k)); c.wrap(s, w) }
        BinOp::LShr => c.div(x, k),
        _ => { let s = c.sgn(x, w); let d = c.div(s, k); c.wrap(d, w) }
    }
}

fn insert_at(v: &V, t: &Type, ix: &[usize], x: V) -> X<V> {
    if ix.is_empty() { return Ok(x); }
    let (mut l, sub): (Vec<V>, Vec<Type>) = match t {
        Type::Struct(f, _) => (match v { V::Agg(l) => l.to_vec(), _ => vec![V::Undef; f.len()] }, f.clone()),
        Type::Arr(n, e) => (match v { V::Agg(l) => l.to_vec(), _ => vec![V::Undef; *n] }, vec![(**e).clone(); *n]),
        _ => return Err(Stop::Unsup("insertvalue".into())),
    };
    l[ix[0]] = insert_at(&l[ix[0]], &sub[ix[0]], &ix[1..], x)?;
    Ok(V::Agg(l.into()))
}

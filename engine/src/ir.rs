//! Parser for the subset of textual LLVM IR that rustc emits for the crate under test.
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Type {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Vec(usize, Arc<Type>),
    Arr(usize, Arc<Type>),
    Struct(Vec<Type>, bool),
    Label,
    Metadata,
}

impl Type {
    pub fn align(&self) -> u64 {
        match self {
            Type::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Type::Ptr => 8,
            Type::Float(w) => (*w as u64) / 8,
            Type::Vec(..) => self.size().next_power_of_two(),
            Type::Arr(_, t) => t.align(),
            Type::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Type::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                if *w > 64 { (b + 15) / 16 * 16 } else { b.next_power_of_two() }
            }
            Type::Ptr => 8,
            Type::Float(w) => (*w as u64) / 8,
            Type::Vec(n, t) => {
                if let Type::Int(w) = **t { ((*n as u64) * (w as u64) + 7) / 8 } else { (*n as u64) * t.size() }
            }
            Type::Arr(n, t) => (*n as u64) * t.size(),
            Type::Struct(..) => {
                let offs = self.field_offsets();
                offs[offs.len() - 1]
            }
            _ => 0,
        }
    }
    /// Offsets of every field, followed by the total size
    pub fn field_offsets(&self) -> Vec<u64> {
        match self {
            Type::Struct(f, packed) => {
                let mut off = 0u64;
                let mut v = vec![];
                for t in f {
                    if !packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    v.push(off);
                    off += t.size();
                }
                let a = self.align();
                off = (off + a - 1) / a * a;
                v.push(off);
                v
            }
            _ => vec![0, self.size()],
        }
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Null,
    Undef,
    Zero,
    Agg(Vec<(Type, Const)>),
    Bytes(Vec<u8>),
    Global(String),
    Splat(Box<(Type, Const)>),
    Gep(Type, Box<Const>, Vec<(Type, Const)>),
    Bin(String, Type, Box<Const>, Box<Const>),
    Cast(String, Type, Box<Const>, Type),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(usize),
    Const(Const),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Global(String),
    Indirect(Op),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(BinOp, Type, Op, Op),
    Icmp(Pred, Type, Op, Op),
    Select(Type, Op, Type, Op, Op),
    Cast(String, Type, Op, Type),
    Load(Type, Op, u32),
    Store(Type, Op, Op, u32),
    Gep(Type, Op, Vec<(Type, Op)>),
    Alloca(Type, Option<(Type, Op)>),
    Phi(Type, Vec<(Op, usize)>),
    Call(Type, Callee, Vec<(Type, Op)>),
    ExtractValue(Type, Op, Vec<usize>),
    InsertValue(Type, Op, Type, Op, Vec<usize>),
    ExtractElement(Type, Op, Type, Op),
    InsertElement(Type, Op, Type, Op, Type, Op),
    Shuffle(Type, Op, Op, Type, Const),
    Freeze(Type, Op),
    AtomicRmw(String, Op, Type, Op),
    CmpXchg(Type, Op, Op, Op),
    Nop,
    Unreachable,
    Ret(Option<(Type, Op)>),
    Br(usize),
    CondBr(Op, usize, usize),
    Switch(Type, Op, usize, Vec<(u128, usize)>),
    Unsupported(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Debug)]
pub struct Instr {
    pub dst: Option<usize>,
    pub ins: Ins,
}

#[derive(Clone, Debug)]
pub struct Block {
    pub name: String,
    pub code: Vec<Instr>,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub ret: Type,
    pub params: Vec<(Type, usize)>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub pretty: String,
    /// Processor features the code of the function uses
    pub feats: String,
    pub byval: Vec<Option<Type>>,
    /// For every block that heads a natural loop: the blocks of that loop
    pub loops: HashMap<usize, Vec<bool>>,
}

#[derive(Clone, Debug)]
pub struct Global {
    pub name: String,
    pub ty: Type,
    pub init: Option<Const>,
    pub constant: bool,
}

#[derive(Default)]
pub struct Module {
    pub funcs: HashMap<String, Func>,
    pub decls: HashMap<String, bool>, // name -> is declared
    pub globals: HashMap<String, Global>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, Type>,
}

type R<T> = Result<T, String>;

struct P<'a> {
    s: &'a [u8],
    i: usize,
    types: &'a HashMap<String, Type>,
}

fn ident_char(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() { self.s[self.i] } else { 0 }
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let tail: String = String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..]).chars().take(80).collect();
        let all: String = String::from_utf8_lossy(self.s).chars().take(200).collect();
        Err(format!("{m} at `{tail}` in `{all}`"))
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c { self.i += 1; true } else { false }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) { Ok(()) } else { self.err(&format!("expected {}", c as char)) }
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && ident_char(self.s[self.i]) { self.i += 1; }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn peek_word(&mut self) -> String {
        let k = self.i;
        let w = self.word();
        self.i = k;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let k = self.i;
        if self.word() == w { true } else { self.i = k; false }
    }
    /// Name after % or @ (already consumed)
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i += 1;
            while self.s[self.i] != b'"' { self.i += 1; }
            let n = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            n
        } else {
            self.word()
        }
    }
    fn number(&mut self) -> R<i128> {
        self.ws();
        let st = self.i;
        if self.i < self.s.len() && self.s[self.i] == b'-' { self.i += 1; }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).unwrap().parse::<i128>().or_else(|_| self.err("number"))
    }
    fn ty(&mut self) -> R<Type> {
        let c = self.peek();
        let mut t = match c {
            b'{' => { self.i += 1; self.struct_body(b'}', false)? }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let t = self.struct_body(b'}', true)?;
                    self.expect(b'>')?;
                    t
                } else {
                    let n = self.number()? as usize;
                    if !self.eat_word("x") { return self.err("x"); }
                    let t = self.ty()?;
                    self.expect(b'>')?;
                    Type::Vec(n, Arc::new(t))
                }
            }
            b'[' => {
                self.i += 1;
                let n = self.number()? as usize;
                if !self.eat_word("x") { return self.err("x"); }
                let t = self.ty()?;
                self.expect(b']')?;
                Type::Arr(n, Arc::new(t))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                match self.types.get(&n) { Some(t) => t.clone(), None => return self.err("named type") }
            }
            _ => {
                let k = self.i;
                let w = self.word();
                match w.as_str() {
                    "void" => Type::Void,
                    "ptr" => Type::Ptr,
                    "half" => Type::Int(16),
                    "float" => Type::Int(32),
                    "double" => Type::Int(64),
                    "label" => Type::Label,
                    "metadata" => Type::Metadata,
                    _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()) => {
                        Type::Int(w[1..].parse().unwrap())
                    }
                    _ => { self.i = k; return self.err("type"); }
                }
            }
        };
        if t == Type::Ptr && self.peek_word() == "addrspace" {
            self.word();
            self.paren_skip()?;
        }
        // function type: only `ret (args)` in calls through varargs, not needed
        let _ = &mut t;
        Ok(t)
    }
    fn struct_body(&mut self, close: u8, packed: bool) -> R<Type> {
        let mut f = vec![];
        if self.eat(close) { return Ok(Type::Struct(f, packed)); }
        loop {
            f.push(self.ty()?);
            if self.eat(b',') { continue; }
            self.expect(close)?;
            return Ok(Type::Struct(f, packed));
        }
    }
    fn paren_skip(&mut self) -> R<()> {
        self.expect(b'(')?;
        let mut d = 1;
        while d > 0 {
            if self.i >= self.s.len() { return self.err("paren"); }
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } }
                _ => {}
            }
            self.i += 1;
        }
        Ok(())
    }
    /// Skips parameter/return/function attributes up to something that is not an attribute
    fn attrs(&mut self) -> R<Option<Type>> {
        let mut byval = None;
        loop {
            let c = self.peek();
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' { self.i += 1; }
                self.i += 1;
                if self.peek() == b'=' { self.i += 1; self.expect(b'"')?; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; }
                continue;
            }
            if c == b'#' { self.i += 1; self.word(); continue; }
            if !c.is_ascii_lowercase() { return Ok(byval); }
            let k = self.i;
            let w = self.word();
            match w.as_str() {
                "align" | "alignstack" => { if self.peek() == b'(' { self.paren_skip()?; } else { self.number()?; } }
                "byval" => { self.expect(b'(')?; byval = Some(self.ty()?); self.expect(b')')?; }
                "noundef" | "nonnull" | "noalias" | "readonly" | "readnone" | "writeonly" | "writable" | "signext"
                | "zeroext" | "inreg" | "nocapture" | "returned" | "immarg" | "swiftself" | "nest" | "nofree"
                | "allocptr" | "allocalign" | "dead_on_unwind" | "dead_on_return" | "noext" | "swiftasync" | "swifterror" => {
                    if self.peek() == b'(' && w == "dead_on_return" { self.paren_skip()?; }
                }
                "captures" | "range" | "dereferenceable" | "dereferenceable_or_null" | "sret" | "initializes" | "nofpclass"
                | "elementtype" | "preallocated" | "inalloca" | "byref" | "memory" => { if self.peek() == b'(' { self.paren_skip()?; } }
                _ => { self.i = k; return Ok(byval); }
            }
        }
    }
    fn cstring(&mut self) -> R<Vec<u8>> {
        self.expect(b'"')?;
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            let c = self.s[self.i];
            if c == b'\\' {
                if self.s[self.i + 1] == b'\\' { v.push(b'\\'); self.i += 2; continue; }
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                self.i += 3;
            } else {
                v.push(c);
                self.i += 1;
            }
        }
        self.i += 1;
        Ok(v)
    }
    fn konst(&mut self, ty: &Type) -> R<Const> {
        let c = self.peek();
        match c {
            b'@' => { self.i += 1; let n = self.name(); return Ok(Const::Global(n)); }
            b'-' | b'0'..=b'9' => {
                if let Type::Int(w) = ty {
                    let st = self.i;
                    let neg = self.s[self.i] == b'-';
                    if neg { self.i += 1; }
                    let st2 = self.i;
                    while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1; }
                    let _ = st;
                    let mag: u128 = std::str::from_utf8(&self.s[st2..self.i]).unwrap().parse().map_err(|_| "int literal".to_string())?;
                    let v = if neg { mag.wrapping_neg() } else { mag };
                    let v = if *w >= 128 { v } else { v & ((1u128 << w) - 1) };
                    return Ok(Const::Int(v));
                }
                return self.err("numeric constant of non integer type");
            }
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => { self.i += 1; return Ok(Const::Bytes(self.cstring()?)); }
            b'[' | b'{' | b'<' => {
                let mut packed = false;
                self.i += 1;
                let mut close = match c { b'[' => b']', b'{' => b'}', _ => b'>' };
                if c == b'<' && self.peek() == b'{' { self.i += 1; packed = true; close = b'}'; }
                let mut v = vec![];
                if !self.eat(close) {
                    loop {
                        let t = self.ty()?;
                        let k = self.konst(&t)?;
                        v.push((t, k));
                        if self.eat(b',') { continue; }
                        self.expect(close)?;
                        break;
                    }
                }
                if packed { self.expect(b'>')?; }
                return Ok(Const::Agg(v));
            }
            _ => {}
        }
        let w = self.word();
        match w.as_str() {
            "true" => Ok(Const::Int(1)),
            "false" => Ok(Const::Int(0)),
            "null" => Ok(Const::Null),
            "undef" | "poison" => Ok(Const::Undef),
            "none" => Ok(Const::Undef),
            "zeroinitializer" => Ok(Const::Zero),
            "splat" => {
                self.expect(b'(')?;
                let t = self.ty()?;
                let k = self.konst(&t)?;
                self.expect(b')')?;
                Ok(Const::Splat(Box::new((t, k))))
            }
            "getelementptr" => {
                loop {
                    let x = self.peek_word();
                    if x == "inbounds" || x == "nuw" || x == "nusw" { self.word(); }
                    else if x == "inrange" { self.word(); self.paren_skip()?; }
                    else { break; }
                }
                self.expect(b'(')?;
                let t = self.ty()?;
                self.expect(b',')?;
                let pt = self.ty()?;
                let base = self.konst(&pt)?;
                let mut idx = vec![];
                while self.eat(b',') {
                    let t = self.ty()?;
                    let k = self.konst(&t)?;
                    idx.push((t, k));
                }
                self.expect(b')')?;
                Ok(Const::Gep(t, Box::new(base), idx))
            }
            "ptrtoint" | "inttoptr" | "trunc" | "zext" | "sext" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                let _ = self.eat_word("nuw");
                let _ = self.eat_word("nsw");
                self.expect(b'(')?;
                let t = self.ty()?;
                let k = self.konst(&t)?;
                if !self.eat_word("to") { return self.err("to"); }
                let t2 = self.ty()?;
                self.expect(b')')?;
                Ok(Const::Cast(w, t, Box::new(k), t2))
            }
            "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                while matches!(self.peek_word().as_str(), "nuw" | "nsw") { self.word(); }
                self.expect(b'(')?;
                let t = self.ty()?;
                let a = self.konst(&t)?;
                self.expect(b',')?;
                let t2 = self.ty()?;
                let b = self.konst(&t2)?;
                self.expect(b')')?;
                Ok(Const::Bin(w, t, Box::new(a), Box::new(b)))
            }
            _ => self.err("constant"),
        }
    }
}

struct FnCtx {
    regs: HashMap<String, usize>,
    labels: HashMap<String, usize>,
}

impl FnCtx {
    fn reg(&mut self, n: &str) -> usize {
        let k = self.regs.len();
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn label(&mut self, n: &str) -> usize {
        let k = self.labels.len();
        *self.labels.entry(n.to_string()).or_insert(k)
    }
}

fn value(p: &mut P, f: &mut FnCtx, ty: &Type) -> R<Op> {
    if p.peek() == b'%' {
        p.i += 1;
        let n = p.name();
        Ok(Op::Reg(f.reg(&n)))
    } else {
        Ok(Op::Const(p.konst(ty)?))
    }
}

fn tvalue(p: &mut P, f: &mut FnCtx) -> R<(Type, Op)> {
    let t = p.ty()?;
    let v = value(p, f, &t)?;
    Ok((t, v))
}

fn label(p: &mut P, f: &mut FnCtx) -> R<usize> {
    if !p.eat_word("label") { return p.err("label"); }
    p.expect(b'%')?;
    let n = p.name();
    Ok(f.label(&n))
}

fn strip_comment(line: &str) -> &str {
    // comments start with ; outside of quotes
    let b = line.as_bytes();
    let mut q = false;
    for i in 0..b.len() {
        if b[i] == b'"' { q = !q; }
        if b[i] == b';' && !q { return &line[..i]; }
    }
    line
}

fn parse_ins(p: &mut P, f: &mut FnCtx) -> R<Instr> {
    let mut dst = None;
    if p.peek() == b'%' {
        p.i += 1;
        let n = p.name();
        dst = Some(f.reg(&n));
        p.expect(b'=')?;
    }
    let mut op = p.word();
    while matches!(op.as_str(), "tail" | "musttail" | "notail") { op = p.word(); }
    let ins = match op.as_str() {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
            while matches!(p.peek_word().as_str(), "nuw" | "nsw" | "exact" | "disjoint") { p.word(); }
            let t = p.ty()?;
            let a = value(p, f, &t)?;
            p.expect(b',')?;
            let b = value(p, f, &t)?;
            let o = match op.as_str() {
                "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "and" => BinOp::And, "or" => BinOp::Or, _ => BinOp::Xor,
            };
            Ins::Bin(o, t, a, b)
        }
        "icmp" => {
            if p.peek_word() == "samesign" { p.word(); }
            let pr = match p.word().as_str() {
                "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult,
                "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle,
                _ => return p.err("pred"),
            };
            let t = p.ty()?;
            let a = value(p, f, &t)?;
            p.expect(b',')?;
            let b = value(p, f, &t)?;
            Ins::Icmp(pr, t, a, b)
        }
        "select" => {
            let (ct, c) = tvalue(p, f)?;
            p.expect(b',')?;
            let (t, a) = tvalue(p, f)?;
            p.expect(b',')?;
            let (_, b) = tvalue(p, f)?;
            Ins::Select(ct, c, t, a, b)
        }
        "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
            while matches!(p.peek_word().as_str(), "nuw" | "nsw" | "nneg") { p.word(); }
            let (t, a) = tvalue(p, f)?;
            if !p.eat_word("to") { return p.err("to"); }
            let t2 = p.ty()?;
            Ins::Cast(op, t, a, t2)
        }
        "load" => {
            while matches!(p.peek_word().as_str(), "atomic" | "volatile") { p.word(); }
            let t = p.ty()?;
            p.expect(b',')?;
            let (_, a) = tvalue(p, f)?;
            Ins::Load(t, a, align_of(p))
        }
        "store" => {
            while matches!(p.peek_word().as_str(), "atomic" | "volatile") { p.word(); }
            let (t, v) = tvalue(p, f)?;
            p.expect(b',')?;
            let (_, a) = tvalue(p, f)?;
            Ins::Store(t, v, a, align_of(p))
        }
        "getelementptr" => {
            loop {
                let x = p.peek_word();
                if matches!(x.as_str(), "inbounds" | "nuw" | "nusw") { p.word(); }
                else if x == "inrange" { p.word(); p.paren_skip()?; }
                else { break; }
            }
            let t = p.ty()?;
            p.expect(b',')?;
            let (_, b) = tvalue(p, f)?;
            let mut idx = vec![];
            while p.eat(b',') {
                if p.peek() == b'!' { break; }
                idx.push(tvalue(p, f)?);
            }
            Ins::Gep(t, b, idx)
        }
        "alloca" => {
            if p.peek_word() == "inalloca" { p.word(); }
            let t = p.ty()?;
            let mut n = None;
            if p.eat(b',') && p.peek() == b'i' { n = Some(tvalue(p, f)?); }
            Ins::Alloca(t, n)
        }
        "phi" => {
            let t = p.ty()?;
            let mut v = vec![];
            loop {
                p.expect(b'[')?;
                let o = value(p, f, &t)?;
                p.expect(b',')?;
                p.expect(b'%')?;
                let n = p.name();
                p.expect(b']')?;
                v.push((o, f.label(&n)));
                if !p.eat(b',') { break; }
                if p.peek() == b'!' { break; }
            }
            Ins::Phi(t, v)
        }
        "call" | "invoke" => {
            // fast-math flags, calling conventions
            loop {
                let x = p.peek_word();
                if matches!(x.as_str(), "fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "preserve_allcc" | "nnan" | "fast" | "cold") { p.word(); } else { break; }
            }
            p.attrs()?;
            let t = p.ty()?;
            if p.peek() == b'(' { p.paren_skip()?; } // function type of varargs
            let c = p.peek();
            let callee = if c == b'@' {
                p.i += 1;
                Callee::Global(p.name())
            } else if c == b'%' {
                p.i += 1;
                let n = p.name();
                Callee::Indirect(Op::Reg(f.reg(&n)))
            } else if p.eat_word("asm") {
                while p.peek() != b'"' { p.word(); }
                let s = p.cstring()?;
                p.expect(b',')?;
                p.cstring()?;
                Callee::Asm(String::from_utf8_lossy(&s).into_owned())
            } else {
                Callee::Indirect(Op::Const(p.konst(&Type::Ptr)?))
            };
            let mut args = vec![];
            p.expect(b'(')?;
            if !p.eat(b')') {
                loop {
                    let t = p.ty()?;
                    if t == Type::Metadata {
                        // skip everything: the callees that take metadata are no-ops
                        return Ok(Instr { dst, ins: Ins::Nop });
                    }
                    p.attrs()?;
                    let v = value(p, f, &t)?;
                    args.push((t, v));
                    if p.eat(b',') { continue; }
                    p.expect(b')')?;
                    break;
                }
            }
            if op == "invoke" { return Ok(Instr { dst, ins: Ins::Unsupported("invoke".into()) }); }
            Ins::Call(t, callee, args)
        }
        "extractvalue" => {
            let (t, a) = tvalue(p, f)?;
            let mut v = vec![];
            while p.eat(b',') { if p.peek() == b'!' { break; } v.push(p.number()? as usize); }
            Ins::ExtractValue(t, a, v)
        }
        "insertvalue" => {
            let (t, a) = tvalue(p, f)?;
            p.expect(b',')?;
            let (t2, b) = tvalue(p, f)?;
            let mut v = vec![];
            while p.eat(b',') { if p.peek() == b'!' { break; } v.push(p.number()? as usize); }
            Ins::InsertValue(t, a, t2, b, v)
        }
        "extractelement" => {
            let (t, a) = tvalue(p, f)?;
            p.expect(b',')?;
            let (t2, b) = tvalue(p, f)?;
            Ins::ExtractElement(t, a, t2, b)
        }
        "insertelement" => {
            let (t, a) = tvalue(p, f)?;
            p.expect(b',')?;
            let (t2, b) = tvalue(p, f)?;
            p.expect(b',')?;
            let (t3, c) = tvalue(p, f)?;
            Ins::InsertElement(t, a, t2, b, t3, c)
        }
        "shufflevector" => {
            let (t, a) = tvalue(p, f)?;
            p.expect(b',')?;
            let (_, b) = tvalue(p, f)?;
            p.expect(b',')?;
            let mt = p.ty()?;
            let m = p.konst(&mt)?;
            Ins::Shuffle(t, a, b, mt, m)
        }
        "freeze" => {
            let (t, a) = tvalue(p, f)?;
            Ins::Freeze(t, a)
        }
        "fence" => Ins::Nop,
        "atomicrmw" => {
            if p.peek_word() == "volatile" { p.word(); }
            let o = p.word();
            let (_, ptr) = tvalue(p, f)?;
            p.expect(b',')?;
            let (t, v) = tvalue(p, f)?;
            Ins::AtomicRmw(o, ptr, t, v)
        }
        "cmpxchg" => {
            while matches!(p.peek_word().as_str(), "weak" | "volatile") { p.word(); }
            let (_, ptr) = tvalue(p, f)?;
            p.expect(b',')?;
            let (t, e) = tvalue(p, f)?;
            p.expect(b',')?;
            let (_, n) = tvalue(p, f)?;
            Ins::CmpXchg(t, ptr, e, n)
        }
        "unreachable" => Ins::Unreachable,
        "ret" => {
            let t = p.ty()?;
            if t == Type::Void { Ins::Ret(None) } else { let v = value(p, f, &t)?; Ins::Ret(Some((t, v))) }
        }
        "br" => {
            if p.peek_word() == "label" {
                Ins::Br(label(p, f)?)
            } else {
                let (_, c) = tvalue(p, f)?;
                p.expect(b',')?;
                let a = label(p, f)?;
                p.expect(b',')?;
                let b = label(p, f)?;
                Ins::CondBr(c, a, b)
            }
        }
        "switch" => {
            let (t, c) = tvalue(p, f)?;
            p.expect(b',')?;
            let d = label(p, f)?;
            p.expect(b'[')?;
            let mut v = vec![];
            while p.peek() != b']' {
                let t = p.ty()?;
                let k = match p.konst(&t)? { Const::Int(k) => k, _ => return p.err("switch value") };
                p.expect(b',')?;
                let l = label(p, f)?;
                v.push((k, l));
            }
            Ins::Switch(t, c, d, v)
        }
        _ => Ins::Unsupported(op.clone()),
    };
    Ok(Instr { dst, ins })
}

fn find_types(text: &str) -> R<HashMap<String, Type>> {
    let mut types = HashMap::new();
    let mut pending: Vec<(String, String)> = vec![];
    for l in text.lines() {
        if l.starts_with('%') {
            let empty = HashMap::new();
            let mut p = P { s: l.as_bytes(), i: 1, types: &empty };
            let n = p.name();
            p.expect(b'=')?;
            if !p.eat_word("type") { continue; }
            p.ws();
            pending.push((n, l[p.i..].to_string()));
        }
    }
    for _ in 0..20 {
        let mut rest = vec![];
        for (n, s) in pending {
            let r = if s.starts_with("opaque") { Ok(Type::Struct(vec![], true)) } else { P { s: s.as_bytes(), i: 0, types: &types }.ty() };
            match r { Ok(t) => { types.insert(n, t); } Err(_) => rest.push((n, s)) }
        }
        pending = rest;
        if pending.is_empty() { break; }
    }
    Ok(types)
}

fn parse_global(l: &str, types: &HashMap<String, Type>) -> R<Option<(Global, Option<String>)>> {
    let mut p = P { s: l.as_bytes(), i: 1, types };
    let name = p.name();
    p.expect(b'=')?;
    loop {
        let w = p.peek_word();
        match w.as_str() {
            "private" | "internal" | "external" | "linkonce_odr" | "weak_odr" | "weak" | "linkonce" | "common" | "available_externally"
            | "hidden" | "protected" | "default" | "dso_local" | "unnamed_addr" | "local_unnamed_addr" | "externally_initialized" | "extern_weak" | "appending" => { p.word(); }
            "thread_local" => { p.word(); if p.peek() == b'(' { p.paren_skip()?; } }
            "addrspace" => { p.word(); p.paren_skip()?; }
            _ => break,
        }
    }
    let kind = p.word();
    match kind.as_str() {
        "global" | "constant" => {}
        "alias" => {
            let _ = p.ty()?;
            p.expect(b',')?;
            let _ = p.ty()?;
            let c = p.konst(&Type::Ptr)?;
            if let Const::Global(t) = c {
                return Ok(Some((Global { name, ty: Type::Ptr, init: None, constant: true }, Some(t))));
            }
            return Ok(None);
        }
        _ => return Ok(None),
    }
    let ty = p.ty()?;
    let c = p.peek();
    let init = if c == 0 || c == b',' { None } else { Some(p.konst(&ty)?) };
    Ok(Some((Global { name, ty, init, constant: kind == "constant" }, None)))
}

pub fn parse(text: &str) -> R<Module> {
    let mut m = Module { types: find_types(text)?, ..Default::default() };
    let types = m.types.clone();
    let mut lines = text.lines().peekable();
    let mut groups: HashMap<String, String> = HashMap::new();
    let mut last_comment = String::new();
    while let Some(l) = lines.next() {
        if l.starts_with("; ") {
            if !l.starts_with("; Function Attrs") && !l.starts_with("; call") { last_comment = l[2..].to_string(); }
            continue;
        }
        if l.starts_with('@') {
            if let Some((g, alias)) = parse_global(l, &types)? {
                if let Some(t) = alias { m.aliases.insert(g.name.clone(), t); } else { m.globals.insert(g.name.clone(), g); }
            }
            continue;
        }
        if l.starts_with("declare ") {
            if let Some(a) = l.find('@') {
                let mut p = P { s: l.as_bytes(), i: a + 1, types: &types };
                let n = p.name();
                m.decls.insert(n, true);
            }
            last_comment.clear();
            continue;
        }
        if let Some(r) = l.strip_prefix("attributes ") {
            let n = r.split_whitespace().next().unwrap_or("").to_string();
            let v = r.split("\"target-features\"=\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or("");
            groups.insert(n, v.to_string());
            continue;
        }
        if !l.starts_with("define ") { continue; }
        let mut p = P { s: l.as_bytes(), i: 7, types: &types };
        loop {
            let w = p.peek_word();
            match w.as_str() {
                "private" | "internal" | "external" | "linkonce_odr" | "weak_odr" | "weak" | "linkonce" | "available_externally" | "hidden" | "protected"
                | "default" | "dso_local" | "fastcc" | "coldcc" | "ccc" | "dllexport" | "preserve_mostcc" => { p.word(); }
                _ => break,
            }
        }
        p.attrs()?;
        let ret = p.ty()?;
        p.expect(b'@')?;
        let name = p.name();
        let mut f = FnCtx { regs: HashMap::new(), labels: HashMap::new() };
        p.expect(b'(')?;
        let mut params = vec![];
        let mut byval = vec![];
        if !p.eat(b')') {
            loop {
                if p.peek() == b'.' { p.i += 3; p.expect(b')')?; break; }
                let t = p.ty()?;
                let bv = p.attrs()?;
                let r = if p.peek() == b'%' { p.i += 1; let n = p.name(); f.reg(&n) } else { let n = format!("{}", params.len()); f.reg(&n) };
                params.push((t, r));
                byval.push(bv);
                if p.eat(b',') { continue; }
                p.expect(b')')?;
                break;
            }
        }
        // attribute group of the function
        let rest = std::str::from_utf8(&p.s[p.i..]).unwrap_or("");
        let group: Option<String> = rest.split_whitespace().find(|x| x.starts_with('#')).map(|x| x.to_string());
        let mut blocks: HashMap<usize, Block> = HashMap::new();
        let mut cur: Option<(usize, Block)> = None;
        while let Some(l) = lines.next() {
            if l == "}" { break; }
            let l0 = l;
            if l0.starts_with(';') { continue; }
            if l0.trim().is_empty() { continue; }
            if !l0.starts_with(' ') {
                let l = strip_comment(l0).trim_end();
                let Some(l) = l.strip_suffix(':') else { return Err(format!("label expected: {l}")); };
                let n = l.trim_matches('"').to_string();
                if let Some((i, b)) = cur.take() { blocks.insert(i, b); }
                let i = f.label(&n);
                cur = Some((i, Block { name: n, code: vec![] }));
                continue;
            }
            if cur.is_none() {
                let n = format!("{}", params.len());
                let i = f.label(&n);
                cur = Some((i, Block { name: n, code: vec![] }));
            }
            let mut joined = strip_comment(l0).to_string();
            if joined.trim_start().starts_with("switch ") && !joined.contains(']') {
                for l in lines.by_ref() {
                    joined.push(' ');
                    joined.push_str(strip_comment(l).trim());
                    if l.trim_start().starts_with(']') { break; }
                }
            }
            if joined.trim_start().starts_with('#') { continue; } // debug records
            let mut p = P { s: joined.as_bytes(), i: 0, types: &types };
            let ins = parse_ins(&mut p, &mut f)?;
            if !matches!(ins.ins, Ins::Nop) { cur.as_mut().unwrap().1.code.push(ins); }
        }
        let entry = if let Some((i, b)) = cur.take() { blocks.insert(i, b); 0 } else { 0 };
        let _ = entry;
        let n = f.labels.len();
        let mut bl = vec![];
        for i in 0..n {
            match blocks.remove(&i) { Some(b) => bl.push(b), None => return Err(format!("missing block {i} in {name}")) }
        }
        let mut func = Func { name: name.clone(), ret, params, nregs: f.regs.len(), blocks: bl, pretty: std::mem::take(&mut last_comment), feats: group.unwrap_or_default(), byval, loops: HashMap::new() };
        func.loops = find_loops(&func);
        m.funcs.insert(name, func);
    }
    for f in m.funcs.values_mut() { f.feats = groups.get(&f.feats).cloned().unwrap_or_default(); }
    Ok(m)
}

/// The alignment an access promises
fn align_of(p: &P) -> u32 {
    let s = std::str::from_utf8(&p.s[p.i..]).unwrap_or("");
    match s.split("align ").nth(1) { Some(x) => x.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(1), None => 1 }
}

pub fn succs(b: &Block) -> Vec<usize> {
    match b.code.last().map(|i| &i.ins) {
        Some(Ins::Br(a)) => vec![*a],
        Some(Ins::CondBr(_, a, b)) => vec![*a, *b],
        Some(Ins::Switch(_, _, d, v)) => { let mut r = vec![*d]; r.extend(v.iter().map(|x| x.1)); r }
        _ => vec![],
    }
}

/// Natural loops: header -> membership. The entry block is the first label seen, index 0.
fn find_loops(f: &Func) -> HashMap<usize, Vec<bool>> {
    let n = f.blocks.len();
    let mut preds = vec![vec![]; n];
    for (i, b) in f.blocks.iter().enumerate() {
        for s in succs(b) { preds[s].push(i); }
    }
    // iterative dominators with bitsets
    let words = (n + 63) / 64;
    let full = vec![!0u64; words];
    let mut dom = vec![full.clone(); n];
    dom[0] = vec![0; words];
    dom[0][0] = 1;
    let mut changed = true;
    while changed {
        changed = false;
        for i in 1..n {
            let mut d = full.clone();
            for &p in &preds[i] { for w in 0..words { d[w] &= dom[p][w]; } }
            d[i / 64] |= 1 << (i % 64);
            if d != dom[i] { dom[i] = d; changed = true; }
        }
    }
    let mut loops: HashMap<usize, Vec<bool>> = HashMap::new();
    for (i, b) in f.blocks.iter().enumerate() {
        for h in succs(b) {
            if dom[i][h / 64] >> (h % 64) & 1 == 1 {
                let body = loops.entry(h).or_insert_with(|| { let mut v = vec![false; n]; v[h] = true; v });
                let mut st = vec![i];
                while let Some(x) = st.pop() {
                    if body[x] { continue; }
                    body[x] = true;
                    st.extend(preds[x].iter().copied());
                }
            }
        }
    }
    loops
}

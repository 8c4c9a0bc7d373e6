//! Parser for textual LLVM IR (the subset rustc emits), producing a compact program.

use crate::exec::Val;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Struct(Vec<Arc<Ty>>, bool),
    Array(u64, Arc<Ty>),
    Vector(u32, Arc<Ty>),
    Label,
    Meta,
    Func,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float => 32,
            Ty::Double => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vector(n, t) => (*n as u64 * t.store_size()).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vector(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Func => 0,
            Ty::Int(_) => {
                let s = self.store_size();
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => {
                let s = (*n as u64 * t.bits() as u64 + 7) / 8;
                s.next_power_of_two()
            }
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Array(_, t) => i as u64 * t.size(),
            Ty::Vector(_, t) => i as u64 * t.store_size(),
            _ => panic!("field_offset of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Arc<Ty> {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Array(_, t) | Ty::Vector(_, t) => t.clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) => *n as usize,
            Ty::Vector(n, _) => *n as usize,
            _ => panic!("count"),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..))
    }
}

pub type TyR = Arc<Ty>;

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    Con(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinK {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Zext,
    Sext,
    Trunc,
    Bitcast,
    PtrInt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(usize),
    Ext(Arc<str>),
    Indirect(Opd),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(u32, BinK, TyR, Opd, Opd),
    ICmp(u32, u8, TyR, Opd, Opd), // predicate index into PREDS
    FCmp(u32, String, TyR, Opd, Opd),
    Select(u32, Opd, TyR, Opd, Opd),
    Cast(u32, CastK, TyR, TyR, Opd),
    FNeg(u32, TyR, Opd),
    Alloca(u32, u64, u64),
    Load(u32, TyR, Opd),
    Store(TyR, Opd, Opd),
    /// base, constant offset, variable parts (index operand, index width, scale)
    Gep(u32, Opd, i64, Vec<(Opd, u32, i64)>),
    Call(Option<u32>, TyR, Callee, Vec<(TyR, Opd)>, Option<u32>), // invoke: Some(normal block)
    ExtractValue(u32, TyR, Opd, Vec<u32>),
    InsertValue(u32, TyR, Opd, TyR, Opd, Vec<u32>),
    ExtractElem(u32, TyR, Opd, Opd),
    InsertElem(u32, TyR, Opd, Opd, Opd),
    Shuffle(u32, TyR, Opd, Opd, Vec<u32>),
    AtomicRmw(u32, String, TyR, Opd, Opd),
    CmpXchg(u32, TyR, Opd, Opd, Opd),
    Freeze(u32, Opd),
    Fence,
    Phi(u32, TyR, Vec<(Opd, u32)>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(TyR, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Unsupported(String),
}

pub const PREDS: [&str; 10] = ["eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"];

pub struct Block {
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub name: String,
    pub params: Vec<(TyR, u32)>,
    pub ret: TyR,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub declared: bool,
}

pub struct Global {
    pub name: String,
    pub ty: TyR,
    pub init: Option<Val>,
    pub constant: bool,
    pub bytes: Vec<u8>,
    /// true where the byte is undefined
    pub undef: Vec<bool>,
}

pub struct Program {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, usize>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
}

/// Address layout: object id in the upper 32 bits, offset biased by BIAS below.
pub const BIAS: u64 = 0x1000_0000;
pub const FUNC_BASE: u64 = 0x7fff_0000_0000_0000;

pub fn obj_addr(id: u64) -> u64 {
    ((id + 1) << 32) + BIAS
}
pub fn func_addr(i: usize) -> u64 {
    FUNC_BASE + (i as u64) * 16
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),     // bare identifier / keyword / type name
    Loc(String),    // %name
    Glob(String),   // @name
    Num(String),
    Str(Vec<u8>),   // c"..."
    QStr(String),   // "..."
    Meta,           // !...
    P(char),
    Nl,
    Label(String),
}

fn unesc(s: &[u8]) -> Vec<u8> {
    let mut r = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && i + 2 <= s.len() - 1 {
            if s[i + 1] == b'\\' {
                r.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            r.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            r.push(s[i]);
            i += 1;
        }
    }
    r
}

fn lex(src: &str) -> Vec<Tok> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' => i += 1,
            b'\n' => {
                out.push(Tok::Nl);
                i += 1;
            }
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let name;
                if b[i + 1] == b'"' {
                    let st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = String::from_utf8_lossy(&unesc(&b[st..j])).to_string();
                    i = j + 1;
                } else {
                    let st = i + 1;
                    let mut j = st;
                    while j < b.len() && idc(b[j]) {
                        j += 1;
                    }
                    name = src[st..j].to_string();
                    i = j;
                }
                out.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glob(name) });
            }
            b'!' => {
                i += 1;
                // !name, !123, !{...}, !"..."
                if i < b.len() && b[i] == b'"' {
                    i += 1;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    i += 1;
                } else {
                    while i < b.len() && idc(b[i]) {
                        i += 1;
                    }
                }
                out.push(Tok::Meta);
            }
            b'#' => {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                out.push(Tok::Meta);
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                let s = String::from_utf8_lossy(&unesc(&b[st..j])).to_string();
                i = j + 1;
                if i < b.len() && b[i] == b':' {
                    i += 1;
                    out.push(Tok::Label(s));
                } else {
                    out.push(Tok::QStr(s));
                }
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(unesc(&b[st..j])));
                i = j + 1;
            }
            _ if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || b[i] == b'+' || (b[i] == b'-' && (b[i-1] == b'e'))) {
                    i += 1;
                }
                let s = src[st..i].to_string();
                if i < b.len() && b[i] == b':' {
                    i += 1;
                    out.push(Tok::Label(s));
                } else {
                    out.push(Tok::Num(s));
                }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                let s = src[st..i].to_string();
                if i < b.len() && b[i] == b':' {
                    i += 1;
                    out.push(Tok::Label(s));
                } else {
                    out.push(Tok::Id(s));
                }
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

struct Ctx<'a> {
    types: &'a HashMap<String, TyR>,
    fidx: &'a HashMap<String, usize>,
    gidx: &'a HashMap<String, usize>,
}

struct Ps<'a> {
    t: Vec<Tok>,
    i: usize,
    cx: &'a Ctx<'a>,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

impl<'a> Ps<'a> {
    fn peek(&self) -> &Tok {
        self.t.get(self.i).unwrap_or(&Tok::Nl)
    }
    fn next(&mut self) -> Tok {
        let t = self.t.get(self.i).cloned().unwrap_or(Tok::Nl);
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        *self.peek() == Tok::P(c)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected {:?} found {:?} near {:?}", c, self.peek(), &self.t[self.i.saturating_sub(12)..(self.i + 5).min(self.t.len())]);
        }
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Tok::Id(x) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_line(&mut self) {
        while self.i < self.t.len() && *self.peek() != Tok::Nl {
            self.i += 1;
        }
    }
    fn skip_nl(&mut self) {
        while self.i < self.t.len() && *self.peek() == Tok::Nl {
            self.i += 1;
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let k = self.regs.len() as u32;
        self.regs.insert(n.to_string(), k);
        k
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(r) = self.labels.get(n) {
            return *r;
        }
        let k = self.labels.len() as u32;
        self.labels.insert(n.to_string(), k);
        k
    }

    fn ty(&mut self) -> TyR {
        let base = match self.next() {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_id("addrspace") {
                        self.expect('(');
                        self.next();
                        self.expect(')');
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float,
                "double" => Ty::Double,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                _ if s.starts_with('i') && s[1..].chars().all(|c| c.is_ascii_digit()) && s.len() > 1 => {
                    Ty::Int(s[1..].parse().unwrap())
                }
                _ => panic!("type {} near {:?}", s, &self.t[self.i.saturating_sub(10)..(self.i + 5).min(self.t.len())]),
            },
            Tok::P('{') => {
                let f = self.tylist('}');
                Ty::Struct(f, false)
            }
            Tok::P('[') => {
                let n = self.num() as u64;
                assert!(self.eat_id("x"));
                let e = self.ty();
                self.expect(']');
                Ty::Array(n, e)
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let f = self.tylist('}');
                    self.expect('>');
                    Ty::Struct(f, true)
                } else {
                    let n = self.num() as u32;
                    assert!(self.eat_id("x"));
                    let e = self.ty();
                    self.expect('>');
                    Ty::Vector(n, e)
                }
            }
            Tok::Loc(n) => (**self.cx.types.get(&n).unwrap_or_else(|| panic!("unknown type %{}", n))).clone(),
            x => panic!("type token {:?} near {:?}", x, &self.t[self.i.saturating_sub(10)..(self.i + 5).min(self.t.len())]),
        };
        let mut t = Arc::new(base);
        // function type: ret (args)
        if self.is_p('(') && self.looks_like_fnty() {
            self.skip_paren();
            t = Arc::new((*t).clone());
        }
        t
    }
    fn looks_like_fnty(&self) -> bool {
        // only used after a type in a call: "void (ptr, ...) @f(...)"; detect a callee after the parens
        let mut d = 0;
        let mut k = self.i;
        while k < self.t.len() {
            match &self.t[k] {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return matches!(self.t.get(k + 1), Some(Tok::Glob(_)) | Some(Tok::Loc(_)));
                    }
                }
                Tok::Nl => return false,
                _ => {}
            }
            k += 1;
        }
        false
    }
    fn tylist(&mut self, end: char) -> Vec<TyR> {
        let mut f = Vec::new();
        if self.eat(end) {
            return f;
        }
        loop {
            f.push(self.ty());
            if self.eat(end) {
                return f;
            }
            self.expect(',');
        }
    }
    fn num(&mut self) -> i128 {
        match self.next() {
            Tok::Num(s) => s.parse().unwrap_or_else(|_| panic!("num {}", s)),
            x => panic!("number expected, {:?}", x),
        }
    }
    fn skip_paren(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Nl if self.i >= self.t.len() => return,
                _ => {}
            }
        }
    }

    /// Skip parameter attributes before a value.
    fn skip_attrs(&mut self) {
        loop {
            match self.peek().clone() {
                Tok::Id(s) => match s.as_str() {
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr"
                    | "inttoptr" | "ptrtoint" | "splat" | "none" | "sub" | "add" | "trunc" | "xor" | "bitcast" | "addrspacecast"
                    | "asm" => {
                        return
                    }
                    "align" => {
                        self.i += 1;
                        if self.is_p('(') {
                            self.skip_paren();
                        } else {
                            self.num();
                        }
                    }
                    "range" | "initializes" | "captures" | "dereferenceable" | "dereferenceable_or_null" | "memory"
                    | "sret" | "byval" | "nofpclass" | "elementtype" | "byref" | "inalloca" | "preallocated" | "dead_on_return" => {
                        self.i += 1;
                        if self.is_p('(') {
                            self.skip_paren();
                        }
                    }
                    _ => {
                        self.i += 1;
                        if self.is_p('(') {
                            self.skip_paren();
                        }
                    }
                },
                Tok::QStr(_) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }

    fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let n = ty.count();
                if n > 0 && matches!(ty, Ty::Array(..)) {
                    let z = Self::zero(&ty.elem(0));
                    Val::Agg(vec![z; n].into())
                } else {
                    Val::Agg((0..n).map(|i| Self::zero(&ty.elem(i))).collect::<Vec<_>>().into())
                }
            }
            _ => Val::C(0),
        }
    }
    fn undef(ty: &Ty) -> Val {
        match ty {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let n = ty.count();
                Val::Agg((0..n).map(|i| Self::undef(&ty.elem(i))).collect::<Vec<_>>().into())
            }
            _ => Val::Undef,
        }
    }

    fn constant(&mut self, ty: &TyR) -> Val {
        match self.next() {
            Tok::Num(s) => match &**ty {
                Ty::Double | Ty::Float => {
                    let bits = if let Some(h) = s.strip_prefix("0x") {
                        u64::from_str_radix(h.trim_start_matches(|c| c == 'H' || c == 'K'), 16).unwrap()
                    } else {
                        s.parse::<f64>().unwrap().to_bits()
                    };
                    if **ty == Ty::Float {
                        Val::C((f64::from_bits(bits) as f32).to_bits() as u128)
                    } else {
                        Val::C(bits as u128)
                    }
                }
                _ => {
                    let w = ty.bits();
                    let v: u128 = if let Some(n) = s.strip_prefix('-') {
                        (n.parse::<u128>().unwrap()).wrapping_neg()
                    } else {
                        s.parse::<u128>().unwrap()
                    };
                    Val::C(v & crate::bv::mask(w))
                }
            },
            Tok::Id(s) => match s.as_str() {
                "true" => Val::C(1),
                "false" => Val::C(0),
                "null" => Val::C(0),
                "none" => Val::C(0),
                "undef" | "poison" => Self::undef(ty),
                "zeroinitializer" => Self::zero(ty),
                "splat" => {
                    self.expect('(');
                    let t = self.ty();
                    let v = self.constant(&t);
                    self.expect(')');
                    Val::Agg(vec![v; ty.count()].into())
                }
                "getelementptr" => {
                    while matches!(self.peek(), Tok::Id(_)) {
                        self.i += 1;
                        if self.is_p('(') && matches!(&self.t[self.i - 1], Tok::Id(s) if s == "inrange") {
                            self.skip_paren();
                        }
                    }
                    self.expect('(');
                    let bt = self.ty();
                    self.expect(',');
                    let pt = self.ty();
                    let base = self.constant(&pt);
                    let mut off: i64 = 0;
                    let mut cur = bt.clone();
                    let mut first = true;
                    while self.eat(',') {
                        let it = self.ty();
                        let iv = match self.constant(&it) {
                            Val::C(v) => crate::bv::sext128(v, it.bits()) as i64,
                            x => panic!("gep const index {:?}", x),
                        };
                        if first {
                            off += iv * bt.size() as i64;
                            first = false;
                        } else {
                            off += match &*cur {
                                Ty::Struct(..) => cur.field_offset(iv as usize) as i64,
                                _ => iv * cur.elem(0).size() as i64,
                            };
                            cur = cur.elem(if matches!(&*cur, Ty::Struct(..)) { iv as usize } else { 0 });
                        }
                    }
                    self.expect(')');
                    match base {
                        Val::C(b) => Val::C((b as u64).wrapping_add(off as u64) as u128),
                        x => panic!("gep base {:?}", x),
                    }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" => {
                    self.expect('(');
                    let t = self.ty();
                    let v = self.constant(&t);
                    assert!(self.eat_id("to"));
                    let t2 = self.ty();
                    self.expect(')');
                    match v {
                        Val::C(x) => Val::C(x & crate::bv::mask(t2.bits())),
                        v => v,
                    }
                }
                "sub" | "add" | "xor" => {
                    while matches!(self.peek(), Tok::Id(_)) {
                        self.i += 1;
                    }
                    self.expect('(');
                    let t = self.ty();
                    let a = self.constant(&t);
                    self.expect(',');
                    let t2 = self.ty();
                    let b = self.constant(&t2);
                    self.expect(')');
                    match (a, b) {
                        (Val::C(a), Val::C(b)) => {
                            let r = match s.as_str() {
                                "sub" => a.wrapping_sub(b),
                                "add" => a.wrapping_add(b),
                                _ => a ^ b,
                            };
                            Val::C(r & crate::bv::mask(t.bits()))
                        }
                        _ => panic!("const expr"),
                    }
                }
                "dso_local_equivalent" | "no_cfi" => self.constant(ty),
                _ => panic!("constant {} near {:?}", s, &self.t[self.i.saturating_sub(10)..(self.i + 5).min(self.t.len())]),
            },
            Tok::Glob(n) => {
                if let Some(g) = self.cx.gidx.get(&n) {
                    Val::C(obj_addr(*g as u64) as u128)
                } else if let Some(f) = self.cx.fidx.get(&n) {
                    Val::C(func_addr(*f) as u128)
                } else {
                    panic!("unknown global @{}", n)
                }
            }
            Tok::Str(b) => Val::Agg(b.into_iter().map(|x| Val::C(x as u128)).collect::<Vec<_>>().into()),
            Tok::P('{') => {
                let v = self.constlist('}');
                Val::Agg(v.into())
            }
            Tok::P('[') => {
                let v = self.constlist(']');
                Val::Agg(v.into())
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let v = self.constlist('}');
                    self.expect('>');
                    Val::Agg(v.into())
                } else {
                    let v = self.constlist('>');
                    Val::Agg(v.into())
                }
            }
            Tok::P(c @ ('+' | '-')) if matches!(self.peek(), Tok::Id(n) if n == "inf" || n == "qnan" || n == "nan") => {
                let inf = matches!(self.peek(), Tok::Id(n) if n == "inf");
                self.i += 1;
                let neg = c == '-';
                Val::C(if **ty == Ty::Float {
                    (if inf { 0x7f800000u32 } else { 0x7fc00000 } | (neg as u32) << 31) as u128
                } else {
                    (if inf { 0x7ff0u64 << 48 } else { 0x7ff8 << 48 } | (neg as u64) << 63) as u128
                })
            }
            x => panic!("constant token {:?} near {:?}", x, &self.t[self.i.saturating_sub(10)..(self.i + 5).min(self.t.len())]),
        }
    }
    fn constlist(&mut self, end: char) -> Vec<Val> {
        let mut v = Vec::new();
        if self.eat(end) {
            return v;
        }
        loop {
            let t = self.ty();
            v.push(self.constant(&t));
            if self.eat(end) {
                return v;
            }
            self.expect(',');
        }
    }

    fn value(&mut self, ty: &TyR) -> Opd {
        if let Tok::Loc(n) = self.peek().clone() {
            self.i += 1;
            return Opd::Reg(self.reg(&n));
        }
        Opd::Con(self.constant(ty))
    }
    fn tyvalue(&mut self) -> (TyR, Opd) {
        let t = self.ty();
        self.skip_attrs();
        let v = self.value(&t);
        (t, v)
    }
    fn lab(&mut self) -> u32 {
        assert!(self.eat_id("label"), "label expected");
        match self.next() {
            Tok::Loc(n) => self.label(&n),
            x => panic!("label {:?}", x),
        }
    }

    fn inst(&mut self) -> Option<Inst> {
        let dst = if let Tok::Loc(n) = self.peek().clone() {
            self.i += 1;
            self.expect('=');
            Some(self.reg(&n))
        } else {
            None
        };
        let op = match self.next() {
            Tok::Id(s) => s,
            x => panic!("instruction {:?} near {:?}", x, &self.t[self.i.saturating_sub(10)..(self.i + 5).min(self.t.len())]),
        };
        let d = dst.unwrap_or(u32::MAX);
        let r = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or"
            | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let k = match op.as_str() {
                    "add" => BinK::Add,
                    "sub" => BinK::Sub,
                    "mul" => BinK::Mul,
                    "udiv" => BinK::UDiv,
                    "sdiv" => BinK::SDiv,
                    "urem" => BinK::URem,
                    "srem" => BinK::SRem,
                    "shl" => BinK::Shl,
                    "lshr" => BinK::LShr,
                    "ashr" => BinK::AShr,
                    "and" => BinK::And,
                    "or" => BinK::Or,
                    "xor" => BinK::Xor,
                    "fadd" => BinK::FAdd,
                    "fsub" => BinK::FSub,
                    "fmul" => BinK::FMul,
                    "fdiv" => BinK::FDiv,
                    _ => BinK::FRem,
                };
                self.skip_flags();
                let t = self.ty();
                let a = self.value(&t);
                self.expect(',');
                let b = self.value(&t);
                Inst::Bin(d, k, t, a, b)
            }
            "icmp" => {
                self.eat_id("samesign");
                let p = match self.next() {
                    Tok::Id(s) => PREDS.iter().position(|x| *x == s).unwrap() as u8,
                    x => panic!("{:?}", x),
                };
                let t = self.ty();
                let a = self.value(&t);
                self.expect(',');
                let b = self.value(&t);
                Inst::ICmp(d, p, t, a, b)
            }
            "fcmp" => {
                let mut pred = String::new();
                while let Tok::Id(s) = self.peek().clone() {
                    if matches!(s.as_str(), "double" | "float") {
                        break;
                    }
                    pred = s;
                    self.i += 1;
                }
                let t = self.ty();
                let a = self.value(&t);
                self.expect(',');
                let b = self.value(&t);
                Inst::FCmp(d, pred, t, a, b)
            }
            "fneg" => {
                self.skip_flags();
                let t = self.ty();
                let a = self.value(&t);
                Inst::FNeg(d, t, a)
            }
            "select" => {
                self.skip_flags();
                let (ct, c) = self.tyvalue();
                if ct.is_agg() {
                    self.skip_line();
                    return Some(Inst::Unsupported("vector select".into()));
                }
                self.expect(',');
                let (t, a) = self.tyvalue();
                self.expect(',');
                let (_, b) = self.tyvalue();
                Inst::Select(d, c, t, a, b)
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp"
            | "sitofp" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                let k = match op.as_str() {
                    "zext" => CastK::Zext,
                    "sext" => CastK::Sext,
                    "trunc" => CastK::Trunc,
                    "bitcast" => CastK::Bitcast,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => CastK::PtrInt,
                    "fptoui" => CastK::FpToUi,
                    "fptosi" => CastK::FpToSi,
                    "uitofp" => CastK::UiToFp,
                    "sitofp" => CastK::SiToFp,
                    "fpext" => CastK::FpExt,
                    _ => CastK::FpTrunc,
                };
                self.skip_flags();
                let t = self.ty();
                let a = self.value(&t);
                assert!(self.eat_id("to"));
                let t2 = self.ty();
                Inst::Cast(d, k, t, t2, a)
            }
            "alloca" => {
                let t = self.ty();
                let mut n = 1;
                let mut al = t.align();
                while self.eat(',') {
                    if self.eat_id("align") {
                        al = self.num() as u64;
                    } else if *self.peek() == Tok::Meta {
                        break;
                    } else {
                        let (_, v) = self.tyvalue();
                        if let Opd::Con(Val::C(k)) = v {
                            n = k as u64;
                        } else {
                            panic!("dynamic alloca");
                        }
                    }
                }
                Inst::Alloca(d, t.size() * n, al)
            }
            "load" => {
                self.eat_id("atomic");
                self.eat_id("volatile");
                let t = self.ty();
                self.expect(',');
                let (_, p) = self.tyvalue();
                Inst::Load(d, t, p)
            }
            "store" => {
                self.eat_id("atomic");
                self.eat_id("volatile");
                let (t, v) = self.tyvalue();
                self.expect(',');
                let (_, p) = self.tyvalue();
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                self.skip_flags();
                let bt = self.ty();
                self.expect(',');
                let (_, base) = self.tyvalue();
                let mut off: i64 = 0;
                let mut vars = Vec::new();
                let mut cur = bt.clone();
                let mut first = true;
                while self.eat(',') {
                    if *self.peek() == Tok::Meta {
                        break;
                    }
                    let it = self.ty();
                    let iv = self.value(&it);
                    let (sz, isstruct) = if first {
                        (bt.size() as i64, false)
                    } else {
                        match &*cur {
                            Ty::Struct(..) => (0, true),
                            _ => (cur.elem(0).size() as i64, false),
                        }
                    };
                    let con = match &iv {
                        Opd::Con(Val::C(v)) => Some(crate::bv::sext128(*v, it.bits()) as i64),
                        _ => None,
                    };
                    if isstruct {
                        let k = con.expect("struct index") as usize;
                        off += cur.field_offset(k) as i64;
                        cur = cur.elem(k);
                    } else {
                        if let Some(k) = con {
                            off = off.wrapping_add(k.wrapping_mul(sz));
                        } else {
                            vars.push((iv, it.bits(), sz));
                        }
                        if !first {
                            cur = cur.elem(0);
                        }
                    }
                    first = false;
                }
                Inst::Gep(d, base, off, vars)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op == "tail" || op == "musttail" || op == "notail" {
                    self.next();
                }
                let invoke = op == "invoke";
                // calling convention and return attributes
                let rt = self.ret_type();
                let callee = match self.next() {
                    Tok::Glob(n) => {
                        if let Some(f) = self.cx.fidx.get(&n) {
                            Callee::Func(*f)
                        } else {
                            Callee::Ext(n.into())
                        }
                    }
                    Tok::Loc(n) => Callee::Indirect(Opd::Reg(self.reg(&n))),
                    Tok::Id(s) if s == "asm" => {
                        let mut desc = String::from("asm");
                        while !self.is_p('(') {
                            if let Tok::QStr(q) = self.next() {
                                desc.push(' ');
                                desc.push_str(&q);
                            }
                        }
                        Callee::Ext(desc.into())
                    }
                    Tok::Id(s) if s == "null" || s == "poison" || s == "undef" => Callee::Ext("null".into()),
                    x => panic!("callee {:?} near {:?}", x, &self.t[self.i.saturating_sub(10)..(self.i + 5).min(self.t.len())]),
                };
                self.expect('(');
                let mut args = Vec::new();
                if !self.eat(')') {
                    loop {
                        if self.is_id("metadata") {
                            // skip metadata argument
                            let mut depth = 0;
                            loop {
                                match self.peek() {
                                    Tok::P('(') | Tok::P('{') => depth += 1,
                                    Tok::P(')') | Tok::P('}') if depth > 0 => depth -= 1,
                                    Tok::P(',') | Tok::P(')') if depth == 0 => break,
                                    _ => {}
                                }
                                self.i += 1;
                            }
                        } else {
                            args.push(self.tyvalue());
                        }
                        if self.eat(')') {
                            break;
                        }
                        self.expect(',');
                    }
                }
                let mut normal = None;
                if invoke {
                    while !self.is_id("to") {
                        self.i += 1;
                    }
                    self.i += 1;
                    normal = Some(self.lab());
                    // unwind label
                    while !self.is_id("unwind") {
                        self.i += 1;
                    }
                    self.i += 1;
                    let _ = self.lab();
                }
                Inst::Call(if *rt == Ty::Void { None } else { dst }, rt, callee, args, normal)
            }
            "extractvalue" => {
                let (t, v) = self.tyvalue();
                let mut ix = Vec::new();
                while self.eat(',') {
                    if *self.peek() == Tok::Meta {
                        break;
                    }
                    ix.push(self.num() as u32);
                }
                Inst::ExtractValue(d, t, v, ix)
            }
            "insertvalue" => {
                let (t, v) = self.tyvalue();
                self.expect(',');
                let (t2, x) = self.tyvalue();
                let mut ix = Vec::new();
                while self.eat(',') {
                    if *self.peek() == Tok::Meta {
                        break;
                    }
                    ix.push(self.num() as u32);
                }
                Inst::InsertValue(d, t, v, t2, x, ix)
            }
            "extractelement" => {
                let (t, v) = self.tyvalue();
                self.expect(',');
                let (_, i) = self.tyvalue();
                Inst::ExtractElem(d, t, v, i)
            }
            "insertelement" => {
                let (t, v) = self.tyvalue();
                self.expect(',');
                let (_, x) = self.tyvalue();
                self.expect(',');
                let (_, i) = self.tyvalue();
                Inst::InsertElem(d, t, v, x, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyvalue();
                self.expect(',');
                let (_, b) = self.tyvalue();
                self.expect(',');
                let (_, m) = self.tyvalue();
                let mut ix = Vec::new();
                if let Opd::Con(Val::Agg(v)) = m {
                    for x in v.iter() {
                        ix.push(match x {
                            Val::C(k) => *k as u32,
                            _ => u32::MAX,
                        });
                    }
                }
                Inst::Shuffle(d, t, a, b, ix)
            }
            "atomicrmw" => {
                self.eat_id("volatile");
                let k = match self.next() {
                    Tok::Id(s) => s,
                    x => panic!("{:?}", x),
                };
                let (_, p) = self.tyvalue();
                self.expect(',');
                let (t, v) = self.tyvalue();
                Inst::AtomicRmw(d, k, t, p, v)
            }
            "cmpxchg" => {
                self.eat_id("weak");
                self.eat_id("volatile");
                let (_, p) = self.tyvalue();
                self.expect(',');
                let (t, c) = self.tyvalue();
                self.expect(',');
                let (_, n) = self.tyvalue();
                Inst::CmpXchg(d, t, p, c, n)
            }
            "freeze" => {
                let (_, v) = self.tyvalue();
                Inst::Freeze(d, v)
            }
            "fence" => Inst::Fence,
            "phi" => {
                self.skip_flags();
                let t = self.ty();
                let mut v = Vec::new();
                loop {
                    if *self.peek() == Tok::Meta {
                        break;
                    }
                    self.expect('[');
                    let x = self.value(&t);
                    self.expect(',');
                    let l = match self.next() {
                        Tok::Loc(n) => self.label(&n),
                        x => panic!("{:?}", x),
                    };
                    self.expect(']');
                    v.push((x, l));
                    if !self.eat(',') {
                        break;
                    }
                }
                Inst::Phi(d, t, v)
            }
            "br" => {
                if self.is_id("label") {
                    Inst::Br(self.lab())
                } else {
                    let (_, c) = self.tyvalue();
                    self.expect(',');
                    let a = self.lab();
                    self.expect(',');
                    let b = self.lab();
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyvalue();
                self.expect(',');
                let def = self.lab();
                self.expect('[');
                let mut cases = Vec::new();
                loop {
                    self.skip_nl();
                    if self.eat(']') {
                        break;
                    }
                    let (_, c) = self.tyvalue();
                    self.expect(',');
                    let l = self.lab();
                    if let Opd::Con(Val::C(k)) = c {
                        cases.push((k, l));
                    }
                }
                Inst::Switch(t, v, def, cases)
            }
            "ret" => {
                if self.eat_id("void") {
                    Inst::Ret(None)
                } else {
                    let (_, v) = self.tyvalue();
                    Inst::Ret(Some(v))
                }
            }
            "unreachable" => Inst::Unreachable,
            "landingpad" => {
                self.skip_line();
                while matches!(self.t.get(self.i), Some(Tok::Nl)) && matches!(self.t.get(self.i + 1), Some(Tok::Id(s)) if s == "cleanup" || s == "catch" || s == "filter")
                {
                    self.i += 1;
                    self.skip_line();
                }
                Inst::Unsupported("landingpad".into())
            }
            _ => Inst::Unsupported(op.clone()),
        };
        self.skip_line();
        Some(r)
    }

    fn skip_flags(&mut self) {
        while let Tok::Id(s) = self.peek() {
            match s.as_str() {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz"
                | "arcp" | "contract" | "afn" | "reassoc" => self.i += 1,
                _ => break,
            }
        }
    }

    fn ret_type(&mut self) -> TyR {
        // skip calling conventions, fast-math flags and return attributes until something that is a type
        loop {
            match self.peek().clone() {
                Tok::Id(s) => {
                    let is_ty = matches!(s.as_str(), "void" | "ptr" | "float" | "double" | "metadata")
                        || (s.starts_with('i') && s.len() > 1 && s[1..].chars().all(|c| c.is_ascii_digit()));
                    if is_ty {
                        break;
                    }
                    self.i += 1;
                    if s == "align" && matches!(self.peek(), Tok::Num(_)) {
                        self.i += 1;
                    }
                    if self.is_p('(') {
                        self.skip_paren();
                    }
                }
                Tok::QStr(_) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                Tok::Num(_) => {
                    self.i += 1;
                }
                _ => break,
            }
        }
        self.ty()
    }
}

fn flatten(ty: &Ty, v: &Val, off: u64, out: &mut [u8], und: &mut [bool]) {
    match ty {
        Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
            if let Val::Agg(a) = v {
                for i in 0..ty.count() {
                    flatten(&ty.elem(i), &a[i], off + ty.field_offset(i), out, und);
                }
            } else {
                panic!("flatten");
            }
        }
        _ => {
            let n = ty.store_size() as usize;
            match v {
                Val::C(c) => {
                    for k in 0..n {
                        out[off as usize + k] = (c >> (8 * k)) as u8;
                        und[off as usize + k] = false;
                    }
                }
                _ => {
                    for k in 0..n {
                        und[off as usize + k] = true;
                    }
                }
            }
        }
    }
}

pub fn parse(text: &str) -> Program {
    let mut fidx: HashMap<String, usize> = HashMap::new();
    let mut gidx: HashMap<String, usize> = HashMap::new();
    let mut types: HashMap<String, TyR> = HashMap::new();
    // function source ranges
    let lines: Vec<&str> = text.lines().collect();
    let mut fsrc: Vec<(String, usize, usize, bool)> = Vec::new(); // name, first line, end line, declared
    let mut gsrc: Vec<(String, usize)> = Vec::new();
    let mut tsrc: Vec<(String, String)> = Vec::new();
    let gname = |l: &str| -> String {
        let at = l.find('@').unwrap();
        let rest = &l[at + 1..];
        if rest.starts_with('"') {
            let e = rest[1..].find('"').unwrap();
            String::from_utf8_lossy(&unesc(rest[1..1 + e].as_bytes())).to_string()
        } else {
            let e = rest
                .find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-'))
                .unwrap_or(rest.len());
            rest[..e].to_string()
        }
    };
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("define ") {
            let n = gname(l);
            let mut j = i + 1;
            while lines[j] != "}" {
                j += 1;
            }
            fidx.insert(n.clone(), fsrc.len());
            fsrc.push((n, i, j, false));
            i = j;
        } else if l.starts_with("declare ") {
            let n = gname(l);
            fidx.insert(n.clone(), fsrc.len());
            fsrc.push((n, i, i, true));
        } else if l.starts_with('@') {
            let n = gname(l);
            gidx.insert(n.clone(), gsrc.len());
            gsrc.push((n, i));
        } else if l.starts_with('%') {
            if let Some(p) = l.find(" = type ") {
                tsrc.push((l[1..p].trim_matches('"').to_string(), l[p + 8..].to_string()));
            }
        }
        i += 1;
    }
    for (n, b) in tsrc {
        let t = {
            let cx = Ctx { types: &types, fidx: &fidx, gidx: &gidx };
            let mut ps = Ps { t: lex(&b), i: 0, cx: &cx, regs: HashMap::new(), labels: HashMap::new() };
            if b.trim() == "opaque" {
                Arc::new(Ty::Struct(vec![], false))
            } else {
                ps.ty()
            }
        };
        types.insert(n, t);
    }
    let cx = Ctx { types: &types, fidx: &fidx, gidx: &gidx };
    let mut globals = Vec::new();
    for (n, li) in &gsrc {
        let l = lines[*li];
        let eq = l.find(" = ").unwrap();
        let mut ps = Ps { t: lex(&l[eq + 3..]), i: 0, cx: &cx, regs: HashMap::new(), labels: HashMap::new() };
        let mut constant = false;
        let mut external = false;
        let mut alias = false;
        loop {
            match ps.peek().clone() {
                Tok::Id(s) => {
                    ps.i += 1;
                    match s.as_str() {
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "global" => break,
                        "alias" => {
                            alias = true;
                            break;
                        }
                        "external" | "extern_weak" => external = true,
                        _ => {}
                    }
                    if ps.is_p('(') {
                        ps.skip_paren();
                    }
                }
                _ => {
                    ps.i += 1;
                }
            }
            if ps.i > ps.t.len() {
                panic!("global {}", l);
            }
        }
        let ty = ps.ty();
        let _ = alias;
        let init = if external || alias { None } else { Some(ps.constant(&ty)) };
        let sz = ty.size() as usize;
        let mut bytes = vec![0u8; sz];
        let mut undef = vec![true; sz];
        if let Some(v) = &init {
            flatten(&ty, v, 0, &mut bytes, &mut undef);
        }
        globals.push(Global { name: n.clone(), ty, init, constant, bytes, undef });
    }
    let mut funcs = Vec::new();
    for (n, a, b, decl) in &fsrc {
        let head = lines[*a];
        let mut ps = Ps { t: lex(head), i: 1, cx: &cx, regs: HashMap::new(), labels: HashMap::new() };
        let ret = ps.ret_type();
        ps.next(); // name
        ps.expect('(');
        let mut params = Vec::new();
        let mut unnamed = 0usize;
        if !ps.eat(')') {
            loop {
                if ps.is_p('.') || matches!(ps.peek(), Tok::Id(s) if s.starts_with("...")) {
                    ps.next();
                } else {
                    let t = ps.ty();
                    ps.skip_attrs();
                    let r = match ps.peek().clone() {
                        Tok::Loc(x) => {
                            ps.i += 1;
                            if x.chars().all(|c| c.is_ascii_digit()) {
                                unnamed += 1;
                            }
                            ps.reg(&x)
                        }
                        _ => {
                            let k = format!("arg{}", params.len());
                            ps.reg(&k)
                        }
                    };
                    params.push((t, r));
                }
                if ps.eat(')') {
                    break;
                }
                ps.expect(',');
            }
        }
        let mut blocks: Vec<Block> = Vec::new();
        let mut order: Vec<u32> = Vec::new();
        let mut nregs = ps.regs.len() as u32;
        if !*decl {
            let regs = std::mem::take(&mut ps.regs);
            let body = lines[*a + 1..*b].join("\n");
            let mut ps = Ps { t: lex(&body), i: 0, cx: &cx, regs, labels: HashMap::new() };
            // the entry block may be unlabelled; give it label index of its implicit number
            let mut cur: Option<(u32, Vec<Inst>)> = None;
            let mut done: HashMap<u32, Vec<Inst>> = HashMap::new();
            loop {
                ps.skip_nl();
                if ps.i >= ps.t.len() {
                    break;
                }
                if let Tok::Label(s) = ps.peek().clone() {
                    ps.i += 1;
                    if let Some((k, v)) = cur.take() {
                        order.push(k);
                        done.insert(k, v);
                    }
                    let k = ps.label(&s);
                    cur = Some((k, Vec::new()));
                    ps.skip_line();
                    continue;
                }
                if cur.is_none() {
                    // unlabelled entry: numbered after the unnamed parameters
                    let k = ps.label(&format!("{}", unnamed));
                    cur = Some((k, Vec::new()));
                }
                if let Some(x) = ps.inst() {
                    cur.as_mut().unwrap().1.push(x);
                }
            }
            if let Some((k, v)) = cur.take() {
                order.push(k);
                done.insert(k, v);
            }
            // renumber blocks in order
            let mut renum: HashMap<u32, u32> = HashMap::new();
            for (n2, k) in order.iter().enumerate() {
                renum.insert(*k, n2 as u32);
            }
            for k in &order {
                let mut v = done.remove(k).unwrap();
                for x in v.iter_mut() {
                    match x {
                        Inst::Br(a) => *a = renum[a],
                        Inst::CondBr(_, a, b) => {
                            *a = renum[a];
                            *b = renum[b];
                        }
                        Inst::Switch(_, _, d, c) => {
                            *d = renum[d];
                            for (_, l) in c.iter_mut() {
                                *l = renum[l];
                            }
                        }
                        Inst::Phi(_, _, p) => {
                            for (_, l) in p.iter_mut() {
                                *l = renum[l];
                            }
                        }
                        Inst::Call(_, _, _, _, Some(l)) => *l = renum[l],
                        _ => {}
                    }
                }
                blocks.push(Block { insts: v });
            }
            nregs = ps.regs.len() as u32;
        }
        funcs.push(Func { name: n.clone(), params, ret, nregs, blocks, declared: *decl });
    }
    Program { funcs, fidx: fidx.clone(), globals, gidx: gidx.clone() }
}

/// crude demangling of v0 / legacy names: the identifiers in order, joined with "::"
pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") && !n.starts_with("_ZN") {
        return n.to_string();
    }
    let mut i = 2;
    let mut parts: Vec<String> = Vec::new();
    while i < b.len() {
        if b[i] == b's' && (i + 1 < b.len()) {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j > i && b[i - 1] != b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let l: usize = n[i..j].parse().unwrap_or(0);
            let mut st = j;
            if st < b.len() && b[st] == b'_' {
                st += 1;
            }
            if l > 0 && st + l <= b.len() && l < 200 {
                let s = &n[st..st + l];
                if s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
                    parts.push(s.to_string());
                }
                i = st + l;
                continue;
            }
        }
        i += 1;
    }
    parts.retain(|p| !(p.len() == 17 && p.starts_with('h')));
    if parts.is_empty() {
        n.to_string()
    } else {
        parts.join("::")
    }
}

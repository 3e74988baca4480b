//! Parser for the textual LLVM IR that rustc/llvm-dis print, pre-decoded for execution.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty { Void, Int(u32), Ptr, Float, Double, Array(u64, TyId), Struct(Vec<TyId>, bool), Vector(u32, TyId), Meta, Other }

#[derive(Clone, Debug)]
pub enum V { C(u128), S(u32), A(Rc<Vec<V>>) }

#[derive(Clone, Debug)]
pub enum Opnd { Reg(u32), Const(V) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, Same, BitCast, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ptr(Opnd), Asm(String) }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, ty: TyId, dst: u32, a: Opnd, b: Opnd },
    ICmp { pred: Pred, ty: TyId, dst: u32, a: Opnd, b: Opnd },
    FCmp { pred: String, ty: TyId, dst: u32, a: Opnd, b: Opnd },
    FNeg { ty: TyId, dst: u32, a: Opnd },
    Cast { op: CastOp, from: TyId, to: TyId, dst: u32, a: Opnd },
    Select { ty: TyId, cty: TyId, dst: u32, c: Opnd, a: Opnd, b: Opnd },
    Load { ty: TyId, dst: u32, p: Opnd },
    Store { ty: TyId, v: Opnd, p: Opnd },
    Gep { dst: u32, base: Opnd, off: i64, var: Vec<(Opnd, TyId, i64)> },
    Alloca { dst: u32, size: u64, n: Opnd },
    Call { dst: Option<u32>, ret: TyId, callee: Callee, args: Vec<Opnd>, aty: Vec<TyId>, normal: Option<u32> },
    ExtractValue { dst: u32, a: Opnd, idx: Vec<u32> },
    InsertValue { dst: u32, a: Opnd, v: Opnd, idx: Vec<u32> },
    ExtractElement { dst: u32, a: Opnd, i: Opnd },
    InsertElement { dst: u32, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { dst: u32, a: Opnd, b: Opnd, m: Vec<u32> },
    Freeze { dst: u32, a: Opnd },
    AtomicRmw { op: String, ty: TyId, dst: u32, p: Opnd, v: Opnd },
    CmpXchg { ty: TyId, dst: u32, p: Opnd, c: Opnd, n: Opnd },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { ty: TyId, v: Opnd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opnd>),
    Unreachable,
    Nop,
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opnd)>)>, pub insts: Vec<Inst> }

#[derive(Debug)]
pub struct Func { pub name: String, pub id: u32, pub params: Vec<u32>, pub nregs: u32, pub blocks: Vec<Block>, pub defined: bool, pub ret: TyId, pub weak: bool }

pub struct Global { pub name: String, pub addr: u64, pub size: u64, pub konst: bool, pub init: Vec<u8> }

pub struct Module {
    pub tys: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
}

pub const BASE: u64 = 0x10000;
pub const FN_BASE: u64 = 0x7fff_0000_0000_0000;
pub fn obj_addr(id: u32) -> u64 { ((id as u64 + 1) << 32) + BASE }

#[derive(Clone, Debug, PartialEq)]
enum Tok { Local(String), Global(String), Word(String), Num(String), Str(Vec<u8>), CStr(Vec<u8>), P(char), Label(String), Ellipsis, Meta, Attr, Eof }

struct Lex<'a> { s: &'a [u8], p: usize }
fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Lex<'a> {
    fn qstr(&mut self) -> Vec<u8> {
        // at opening quote
        self.p += 1;
        let mut out = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                if self.s[self.p + 1] == b'\\' { out.push(b'\\'); self.p += 2; continue; }
                let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).unwrap());
                self.p += 3;
            } else { out.push(self.s[self.p]); self.p += 1; }
        }
        self.p += 1;
        out
    }
    fn ident(&mut self) -> String {
        if self.s[self.p] == b'"' { return String::from_utf8_lossy(&self.qstr()).into_owned(); }
        let st = self.p;
        while self.p < self.s.len() && idc(self.s[self.p]) { self.p += 1; }
        String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
    }
    fn next(&mut self) -> (Tok, bool) {
        let mut nl = false;
        loop {
            if self.p >= self.s.len() { return (Tok::Eof, true); }
            match self.s[self.p] {
                b'\n' => { nl = true; self.p += 1; }
                b' ' | b'\t' | b'\r' => self.p += 1,
                b';' => { while self.p < self.s.len() && self.s[self.p] != b'\n' { self.p += 1; } }
                _ => break,
            }
        }
        let c = self.s[self.p];
        if nl && (idc(c) || c == b'"') {
            // label?
            let save = self.p;
            let id = self.ident();
            if self.p < self.s.len() && self.s[self.p] == b':' { self.p += 1; return (Tok::Label(id), true); }
            self.p = save;
        }
        let t = match c {
            b'%' => { self.p += 1; Tok::Local(self.ident()) }
            b'@' => { self.p += 1; Tok::Global(self.ident()) }
            b'!' => { self.p += 1; if self.p < self.s.len() && self.s[self.p] == b'{' { Tok::Meta } else { while self.p < self.s.len() && (idc(self.s[self.p]) || self.s[self.p] == b'"') { if self.s[self.p] == b'"' { self.qstr(); } else { self.p += 1; } } Tok::Meta } }
            b'#' => { self.p += 1; while self.p < self.s.len() && idc(self.s[self.p]) { self.p += 1; } Tok::Attr }
            b'"' => Tok::Str(self.qstr()),
            b'c' if self.s.get(self.p + 1) == Some(&b'"') => { self.p += 1; Tok::CStr(self.qstr()) }
            b'.' if self.s[self.p..].starts_with(b"...") => { self.p += 3; Tok::Ellipsis }
            b'-' | b'0'..=b'9' => { let st = self.p; self.p += 1; while self.p < self.s.len() && (idc(self.s[self.p]) || self.s[self.p] == b'+') { self.p += 1; } Tok::Num(String::from_utf8_lossy(&self.s[st..self.p]).into_owned()) }
            _ if idc(c) => Tok::Word(self.ident()),
            _ => { self.p += 1; Tok::P(c as char) }
        };
        (t, nl)
    }
}

pub struct Parser<'a> {
    lx: Lex<'a>,
    cur: Tok,
    nl: bool,
    m: Module,
    // per function
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nregs: u32,
    nblocks: u32,
}

type Pos = (usize, Tok, bool);

fn align_up(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) { return i; }
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.tymap.insert(t, i);
        i
    }
    pub fn t(&self, i: TyId) -> &Ty { &self.tys[i as usize] }
    pub fn bits(&self, i: TyId) -> u32 {
        match self.t(i) { Ty::Int(n) => *n, Ty::Ptr | Ty::Double => 64, Ty::Float => 32, Ty::Vector(n, e) => n * self.bits(*e), t => panic!("bits of {:?}", t) }
    }
    pub fn store_size(&self, i: TyId) -> u64 {
        match self.t(i) { Ty::Int(n) => (*n as u64 + 7) / 8, Ty::Vector(n, e) => ((*n as u64) * self.bits(*e) as u64 + 7) / 8, _ => self.size(i) }
    }
    pub fn align(&self, i: TyId) -> u64 {
        match self.t(i) {
            Ty::Int(n) => ((*n as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr | Ty::Double => 8, Ty::Float => 4,
            Ty::Array(_, e) => self.align(*e),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|x| self.align(*x)).max().unwrap_or(1) },
            Ty::Vector(..) => self.store_size(i).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn size(&self, i: TyId) -> u64 {
        match self.t(i) {
            Ty::Int(_) => align_up(self.store_size(i), self.align(i)),
            Ty::Ptr | Ty::Double => 8, Ty::Float => 4,
            Ty::Array(n, e) => n * self.size(*e),
            Ty::Struct(f, p) => { let mut o = 0; for x in f { if !*p { o = align_up(o, self.align(*x)); } o += self.size(*x); } if !*p { o = align_up(o, self.align(i)); } o }
            Ty::Vector(..) => align_up(self.store_size(i), self.align(i)),
            _ => 0,
        }
    }
    pub fn field_off(&self, i: TyId, k: usize) -> u64 {
        match self.t(i) {
            Ty::Struct(f, p) => { let mut o = 0; for (j, x) in f.iter().enumerate() { if !*p { o = align_up(o, self.align(*x)); } if j == k { return o; } o += self.size(*x); } panic!() }
            Ty::Array(_, e) => self.size(*e) * k as u64,
            Ty::Vector(_, e) => self.store_size(*e) * k as u64,
            t => panic!("field_off {:?}", t),
        }
    }
    pub fn elem(&self, i: TyId, k: usize) -> TyId {
        match self.t(i) { Ty::Struct(f, _) => f[k], Ty::Array(_, e) | Ty::Vector(_, e) => *e, t => panic!("elem {:?}", t) }
    }
    pub fn nelem(&self, i: TyId) -> usize {
        match self.t(i) { Ty::Struct(f, _) => f.len(), Ty::Array(n, _) => *n as usize, Ty::Vector(n, _) => *n as usize, _ => 0 }
    }
    pub fn zero(&self, i: TyId) -> V {
        match self.t(i) {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => { let n = self.nelem(i); V::A(Rc::new((0..n).map(|k| self.zero(self.elem(i, k))).collect())) }
            _ => V::C(0),
        }
    }
    pub fn write_const(&self, ty: TyId, v: &V, out: &mut [u8]) {
        match v {
            V::C(c) => { let n = self.store_size(ty) as usize; for k in 0..n.min(16) { out[k] = (c >> (8 * k)) as u8; } }
            V::A(vs) => for (k, x) in vs.iter().enumerate() { let o = self.field_off(ty, k) as usize; self.write_const(self.elem(ty, k), x, &mut out[o..]); },
            V::S(_) => unreachable!(),
        }
    }
}

impl<'a> Parser<'a> {
    fn adv(&mut self) -> Tok { let (t, nl) = self.lx.next(); self.nl = nl; std::mem::replace(&mut self.cur, t) }
    fn save(&self) -> Pos { (self.lx.p, self.cur.clone(), self.nl) }
    fn restore(&mut self, p: Pos) { self.lx.p = p.0; self.cur = p.1; self.nl = p.2; }
    fn isp(&self, c: char) -> bool { self.cur == Tok::P(c) }
    fn isw(&self, w: &str) -> bool { if let Tok::Word(x) = &self.cur { x == w } else { false } }
    fn eatp(&mut self, c: char) -> bool { if self.isp(c) { self.adv(); true } else { false } }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.adv(); true } else { false } }
    fn exp(&mut self, c: char) { if !self.eatp(c) { self.err(&format!("expected {:?}", c)); } }
    fn err(&self, m: &str) -> ! {
        let st = self.lx.p.saturating_sub(200);
        panic!("IR parse: {} at {:?}\n...{}", m, self.cur, String::from_utf8_lossy(&self.lx.s[st..self.lx.p]));
    }
    fn skip_line(&mut self) { self.adv(); while !self.nl && self.cur != Tok::Eof { self.adv(); } }
    fn skip_rest(&mut self) { while !self.nl && self.cur != Tok::Eof { self.adv(); } }
    fn skip_paren(&mut self) { // at '('
        let mut d = 0;
        loop {
            match self.adv() { Tok::P('(') => d += 1, Tok::P(')') => { d -= 1; if d == 0 { return; } } Tok::Eof => panic!("eof"), _ => {} }
        }
    }
    fn is_type(&self) -> bool {
        match &self.cur {
            Tok::Word(w) => matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "half" | "x86_fp80" | "fp128" | "metadata" | "token" | "label" | "opaque" | "bfloat") || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit())),
            Tok::P('{') | Tok::P('[') | Tok::P('<') => true,
            Tok::Local(_) => true,
            _ => false,
        }
    }
    fn ptype(&mut self) -> TyId {
        let t = match self.adv() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void, "ptr" => { if self.isw("addrspace") { self.adv(); self.skip_paren(); } Ty::Ptr }
                "float" => Ty::Float, "double" => Ty::Double, "metadata" => Ty::Meta,
                "half" | "bfloat" => Ty::Int(16), "x86_fp80" => Ty::Int(80), "fp128" => Ty::Int(128),
                w if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()),
                _ => Ty::Other,
            },
            Tok::P('[') => { let n = self.num() as u64; self.adv(); let e = self.ptype(); self.exp(']'); Ty::Array(n, e) }
            Tok::P('{') => { let f = self.tlist('}'); Ty::Struct(f, false) }
            Tok::P('<') => {
                if self.eatp('{') { let f = self.tlist('}'); self.exp('>'); Ty::Struct(f, true) }
                else { let n = self.num() as u32; self.adv(); let e = self.ptype(); self.exp('>'); Ty::Vector(n, e) }
            }
            Tok::Local(n) => { return *self.m.named.get(&n).unwrap_or_else(|| panic!("named type {}", n)); }
            t => panic!("type expected: {:?}", t),
        };
        self.m.ty(t)
    }
    fn tlist(&mut self, end: char) -> Vec<TyId> {
        let mut f = vec![];
        while !self.eatp(end) { f.push(self.ptype()); self.eatp(','); }
        f
    }
    fn num(&mut self) -> i128 { match self.adv() { Tok::Num(s) => s.parse().unwrap_or_else(|_| panic!("num {}", s)), t => panic!("num expected {:?}", t) } }
    /// skip parameter/return attributes in front of a type or value
    fn skip_attrs(&mut self) {
        loop {
            if self.is_type() && !matches!(self.cur, Tok::Local(_)) { return; }
            match &self.cur {
                Tok::Word(w) => {
                    match w.as_str() {
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "splat" | "asm" | "blockaddress" | "addrspacecast" | "ptrtoaddr" | "shl" | "mul" | "and" | "or" | "icmp" | "select" | "dso_local_equivalent" | "no_cfi" => return,
                        "align" => { self.adv(); if self.isp('(') { self.skip_paren(); } else { self.adv(); } continue; }
                        _ => {}
                    }
                    self.adv();
                    if self.isp('(') { self.skip_paren(); }
                }
                Tok::Str(_) => { self.adv(); if self.eatp('=') { self.adv(); } }
                Tok::Attr => { self.adv(); }
                _ => return,
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) { return r; }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn blk(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.blocks.get(n) { return r; }
        let r = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n.to_string(), r);
        r
    }
    fn gaddr(&self, n: &str) -> u64 {
        let mut n = n;
        while let Some(a) = self.m.aliases.get(n) { n = a; }
        if let Some(&g) = self.m.gidx.get(n) { return self.m.globals[g as usize].addr; }
        if let Some(&f) = self.m.fidx.get(n) { if self.m.funcs[f as usize].weak && !self.m.funcs[f as usize].defined { return 0; } return FN_BASE + f as u64 * 16; }
        panic!("unknown global @{}", n)
    }
    fn cval(&mut self, ty: TyId) -> V { match self.val(ty) { Opnd::Const(v) => v, o => panic!("constant expected {:?}", o) } }
    fn cint(&mut self, ty: TyId) -> u128 { match self.cval(ty) { V::C(c) => c, v => panic!("int const {:?}", v) } }
    fn val(&mut self, ty: TyId) -> Opnd {
        let mk = |bits: u32, v: i128| -> V { let m = if bits >= 128 { !0u128 } else { (1u128 << bits) - 1 }; V::C((v as u128) & m) };
        match self.adv() {
            Tok::Local(n) => Opnd::Reg(self.reg(&n)),
            Tok::Global(n) => Opnd::Const(V::C(self.gaddr(&n) as u128)),
            Tok::Num(s) => {
                match self.m.t(ty) {
                    Ty::Double | Ty::Float => {
                        let d = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0)) } else { s.parse::<f64>().unwrap() };
                        if *self.m.t(ty) == Ty::Float { Opnd::Const(V::C((d as f32).to_bits() as u128)) } else { Opnd::Const(V::C(d.to_bits() as u128)) }
                    }
                    _ => {
                        let bits = self.m.bits(ty);
                        if s.starts_with("0x") { return Opnd::Const(V::C(0)); } // exotic FP constants: never executed here
                        let v: i128 = if s.starts_with('-') { s.parse::<i128>().unwrap() } else { s.parse::<u128>().unwrap() as i128 };
                        Opnd::Const(mk(bits, v))
                    }
                }
            }
            Tok::P(sg @ ('+' | '-')) => {
                // +inf, -inf, +qnan, ...
                let w = match self.adv() { Tok::Word(w) => w, t => self.err(&format!("value {:?}", t)) };
                if self.isp('(') { self.skip_paren(); }
                let d = if w == "inf" { f64::INFINITY } else { f64::NAN }; let d = if sg == '-' { -d } else { d };
                if *self.m.t(ty) == Ty::Float { Opnd::Const(V::C((d as f32).to_bits() as u128)) } else { Opnd::Const(V::C(d.to_bits() as u128)) }
            }
            Tok::CStr(b) => Opnd::Const(V::A(Rc::new(b.into_iter().map(|x| V::C(x as u128)).collect()))),
            Tok::P('{') => { let v = self.vlist('}'); Opnd::Const(V::A(Rc::new(v))) }
            Tok::P('[') => { let v = self.vlist(']'); Opnd::Const(V::A(Rc::new(v))) }
            Tok::P('<') => {
                if self.eatp('{') { let v = self.vlist('}'); self.exp('>'); Opnd::Const(V::A(Rc::new(v))) }
                else { let v = self.vlist('>'); Opnd::Const(V::A(Rc::new(v))) }
            }
            Tok::Word(w) => match w.as_str() {
                "true" => Opnd::Const(V::C(1)),
                "false" | "null" | "none" => Opnd::Const(V::C(0)),
                "undef" | "poison" | "zeroinitializer" => Opnd::Const(self.m.zero(ty)),
                "splat" => { self.exp('('); let t = self.ptype(); let v = self.cval(t); self.exp(')'); let n = self.m.nelem(ty); Opnd::Const(V::A(Rc::new(vec![v; n]))) }
                "getelementptr" => {
                    loop { match &self.cur { Tok::Word(_) => { self.adv(); if self.isp('(') && !self.peek_type_after_paren() { self.skip_paren(); } } _ => break } }
                    self.exp('(');
                    let t = self.ptype(); self.exp(',');
                    let pt = self.ptype();
                    let b = self.cint(pt);
                    let mut off = 0i64; let mut curt = t; let mut first = true;
                    while self.eatp(',') {
                        self.eatw("inrange");
                        let it = self.ptype();
                        let i = self.cint(it);
                        let bits = self.m.bits(it);
                        let i = crate::term::sx(i, bits as u16) as i64;
                        if first { off += i * self.m.size(t) as i64; first = false; } else { off += match self.m.t(curt) { Ty::Struct(..) => self.m.field_off(curt, i as usize) as i64, _ => self.m.size(self.m.elem(curt, 0)) as i64 * i }; curt = self.m.elem(curt, if let Ty::Struct(..) = self.m.t(curt) { i as usize } else { 0 }); }
                    }
                    self.exp(')');
                    Opnd::Const(V::C(((b as u64).wrapping_add(off as u64)) as u128))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                    self.exp('('); let t = self.ptype(); let v = self.cval(t); self.adv(); let t2 = self.ptype(); self.exp(')');
                    match v { V::C(c) => { let b = self.m.bits(t2); Opnd::Const(mk(b, c as i128)) } v => Opnd::Const(v) }
                }
                "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" => {
                    while let Tok::Word(_) = &self.cur { self.adv(); }
                    self.exp('('); let t = self.ptype(); let a = self.cint(t); self.exp(','); let t2 = self.ptype(); let b = self.cint(t2); self.exp(')');
                    let bits = self.m.bits(t);
                    let r = match w.as_str() { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "xor" => a ^ b, "and" => a & b, "or" => a | b, "shl" => a << b, _ => a.wrapping_mul(b) };
                    Opnd::Const(mk(bits, r as i128))
                }
                "dso_local_equivalent" | "no_cfi" => self.val(ty),
                _ => self.err(&format!("value word {}", w)),
            },
            Tok::Meta => Opnd::Const(V::C(0)),
            t => { self.err(&format!("value {:?}", t)) }
        }
    }
    fn peek_type_after_paren(&mut self) -> bool {
        let s = self.save();
        self.adv();
        let r = self.is_type();
        let isnum = matches!(self.cur, Tok::Num(_));
        self.restore(s);
        r && !isnum
    }
    fn vlist(&mut self, end: char) -> Vec<V> {
        let mut r = vec![];
        while !self.eatp(end) { let t = self.ptype(); r.push(self.cval(t)); self.eatp(','); }
        r
    }
    fn tv(&mut self) -> (TyId, Opnd) { let t = self.ptype(); self.skip_attrs_val(); let v = self.val(t); (t, v) }
    fn skip_attrs_val(&mut self) { self.skip_attrs() }
    fn label(&mut self) -> u32 { self.eatw("label"); match self.adv() { Tok::Local(n) => self.blk(&n), t => panic!("label {:?}", t) } }

    pub fn parse(text: &'a str) -> Module {
        let m = Module { tys: vec![], tymap: HashMap::new(), named: HashMap::new(), funcs: vec![], fidx: HashMap::new(), globals: vec![], gidx: HashMap::new(), aliases: HashMap::new() };
        let mut p = Parser { lx: Lex { s: text.as_bytes(), p: 0 }, cur: Tok::Eof, nl: true, m, regs: HashMap::new(), blocks: HashMap::new(), nregs: 0, nblocks: 0 };
        p.pass(true);
        p.lx.p = 0;
        p.pass(false);
        p.m
    }
    fn pass(&mut self, first: bool) {
        self.nl = true;
        self.cur = Tok::Eof;
        self.adv();
        loop {
            match self.cur.clone() {
                Tok::Eof => break,
                Tok::Meta | Tok::P('$') | Tok::P('^') => self.skip_line(),
                Tok::Word(w) => match w.as_str() {
                    "define" => self.func(first, true),
                    "declare" => self.func(first, false),
                    _ => self.skip_line(),
                },
                Tok::Local(n) => {
                    self.adv(); self.exp('='); self.adv(); // type
                    if first { let t = if self.isw("opaque") { self.adv(); self.m.ty(Ty::Other) } else { self.ptype() }; self.m.named.insert(n, t); } else { self.skip_rest(); }
                }
                Tok::Global(n) => self.global(first, n),
                _ => self.skip_line(),
            }
        }
    }
    fn global(&mut self, first: bool, name: String) {
        self.adv();
        self.exp('=');
        let mut ext = false;
        let konst;
        loop {
            match self.adv() {
                Tok::Word(w) => match w.as_str() {
                    "external" | "extern_weak" | "available_externally" => ext = w != "available_externally",
                    "global" => { konst = false; break; }
                    "constant" => { konst = true; break; }
                    "alias" | "ifunc" => {
                        let _ = self.ptype(); self.exp(','); let _ = self.ptype();
                        if let Tok::Global(t) = self.cur.clone() { if first { self.m.aliases.insert(name, t); } }
                        self.skip_rest();
                        return;
                    }
                    _ => { if self.isp('(') { self.skip_paren(); } }
                },
                Tok::Attr | Tok::Meta => {}
                t => panic!("global {:?}", t),
            }
        }
        let ty = self.ptype();
        if first {
            let size = if ext { 256 } else { self.m.size(ty) };
            let id = self.m.globals.len() as u32;
            self.m.globals.push(Global { name: name.clone(), addr: obj_addr(id), size, konst: konst && !ext, init: vec![] });
            self.m.gidx.insert(name, id);
            self.skip_rest();
        } else {
            let g = self.m.gidx[&name] as usize;
            let mut init = vec![0u8; self.m.globals[g].size as usize];
            if !ext && !(self.nl) {
                let v = self.cval(ty);
                self.m.write_const(ty, &v, &mut init);
            }
            self.m.globals[g].init = init;
            self.skip_rest();
        }
    }
    fn func(&mut self, first: bool, def: bool) {
        self.adv();
        let mut weak = false;
        // linkage, cc, attributes, return type
        loop {
            if self.isw("extern_weak") { weak = true; }
            if self.isw("cc") { self.adv(); self.adv(); continue; }
            if self.is_type() { break; }
            match self.cur.clone() {
                Tok::Word(w) => { self.adv(); if w == "align" { if self.isp('(') { self.skip_paren(); } else { self.adv(); } } else if self.isp('(') { self.skip_paren(); } }
                Tok::Str(_) => { self.adv(); if self.eatp('=') { self.adv(); } }
                Tok::Meta => { self.adv(); if !matches!(self.cur, Tok::Meta) {} }
                _ => { self.adv(); }
            }
        }
        let ret = self.ptype();
        let name = match self.adv() { Tok::Global(n) => n, t => panic!("fn name {:?}", t) };
        if first {
            let id = self.m.funcs.len() as u32;
            self.m.funcs.push(Func { name: name.clone(), id, params: vec![], nregs: 0, blocks: vec![], defined: def, ret, weak });
            self.m.fidx.insert(name, id);
            if def { // skip the body: a '}' at the start of a line
                let s = self.lx.s;
                let mut p = self.lx.p;
                loop { match s[p..].iter().position(|&c| c == b'\n') { Some(k) => { p += k + 1; if s.get(p) == Some(&b'}') { p += 1; break; } } None => panic!("eof in body") } }
                self.lx.p = p;
                self.adv();
            } else { self.skip_rest(); }
            return;
        }
        let id = self.m.fidx[&name];
        if !def { self.skip_rest(); return; }
        self.regs.clear(); self.blocks.clear(); self.nregs = 0; self.nblocks = 0;
        self.exp('(');
        let mut params = vec![];
        let mut unnamed = 0u32;
        while !self.eatp(')') {
            if self.cur == Tok::Ellipsis { self.adv(); continue; }
            let _t = self.ptype();
            // attributes up to ',' ')' or a local name
            loop {
                match self.cur.clone() {
                    Tok::Local(n) => { self.adv(); if n.bytes().all(|c| c.is_ascii_digit()) { unnamed = n.parse::<u32>().unwrap() + 1; } let r = self.reg(&n); params.push(r); break; }
                    Tok::P(',') | Tok::P(')') => { let n = unnamed.to_string(); unnamed += 1; let r = self.reg(&n); params.push(r); break; }
                    Tok::Word(w) => { self.adv(); if w == "align" { if self.isp('(') { self.skip_paren(); } else { self.adv(); } } else if self.isp('(') { self.skip_paren(); } }
                    Tok::Str(_) => { self.adv(); if self.eatp('=') { self.adv(); } }
                    _ => { self.adv(); }
                }
            }
            self.eatp(',');
        }
        while !self.isp('{') { self.adv(); }
        self.adv();
        let mut blocks: Vec<(u32, Block)> = vec![];
        let mut cur;
        let curid;
        if let Tok::Label(l) = self.cur.clone() { self.adv(); curid = self.blk(&l); } else { let n = unnamed.to_string(); curid = self.blk(&n); }
        let mut curid = curid;
        cur = Block::default();
        loop {
            match self.cur.clone() {
                Tok::P('}') => { self.adv(); break; }
                Tok::Label(l) => { self.adv(); blocks.push((curid, std::mem::take(&mut cur))); curid = self.blk(&l); }
                _ => self.inst(&mut cur),
            }
        }
        blocks.push((curid, cur));
        let n = self.nblocks as usize;
        let mut bv: Vec<Block> = (0..n).map(|_| Block::default()).collect();
        assert_eq!(blocks[0].0, 0, "entry block must be block 0 in {}", name);
        for (i, b) in blocks { bv[i as usize] = b; }
        let f = &mut self.m.funcs[id as usize];
        f.params = params; f.nregs = self.nregs; f.blocks = bv;
    }
    fn inst(&mut self, b: &mut Block) {
        let mut dst: Option<u32> = None;
        if self.cur == Tok::Attr { self.skip_rest_from_attr(); return; } // #dbg records
        if let Tok::Local(n) = self.cur.clone() { self.adv(); self.exp('='); dst = Some(self.reg(&n)); }
        let d = dst.unwrap_or(u32::MAX);
        let w = match self.adv() { Tok::Word(w) => w, t => self.err(&format!("inst {:?}", t)) };
        let i = match w.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while let Tok::Word(x) = &self.cur { if self.is_type() { break; } let _ = x; self.adv(); }
                let ty = self.ptype(); let a = self.val(ty); self.exp(','); let bb = self.val(ty);
                let op = match w.as_str() { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "fadd" => BinOp::FAdd, "fsub" => BinOp::FSub, "fmul" => BinOp::FMul, "fdiv" => BinOp::FDiv, _ => BinOp::FRem };
                Inst::Bin { op, ty, dst: d, a, b: bb }
            }
            "fneg" => { while !self.is_type() { self.adv(); } let ty = self.ptype(); let a = self.val(ty); Inst::FNeg { ty, dst: d, a } }
            "icmp" => {
                self.eatw("samesign");
                let p = match self.adv() { Tok::Word(w) => w, t => panic!("{:?}", t) };
                let pred = match p.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => panic!("{}", p) };
                let ty = self.ptype(); let a = self.val(ty); self.exp(','); let bb = self.val(ty);
                Inst::ICmp { pred, ty, dst: d, a, b: bb }
            }
            "fcmp" => {
                let mut p = String::new();
                while !self.is_type() { if let Tok::Word(w) = self.adv() { p = w; } }
                let ty = self.ptype(); let a = self.val(ty); self.exp(','); let bb = self.val(ty);
                Inst::FCmp { pred: p, ty, dst: d, a, b: bb }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" | "ptrtoaddr" => {
                while !self.is_type() { self.adv(); }
                let from = self.ptype(); let a = self.val(from); self.adv(); let to = self.ptype();
                let op = match w.as_str() { "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "bitcast" => CastOp::BitCast, "fptoui" => CastOp::FpToUi, "fptosi" => CastOp::FpToSi, "uitofp" => CastOp::UiToFp, "sitofp" => CastOp::SiToFp, "fpext" => CastOp::FpExt, "fptrunc" => CastOp::FpTrunc,
                    _ => { let (fb, tb) = (self.m.bits(from), self.m.bits(to)); if fb > tb { CastOp::Trunc } else if fb < tb { CastOp::ZExt } else { CastOp::Same } } };
                Inst::Cast { op, from, to, dst: d, a }
            }
            "select" => {
                while !self.is_type() { self.adv(); }
                let (cty, c) = self.tv(); self.exp(','); let (ty, a) = self.tv(); self.exp(','); let (_, bb) = self.tv();
                Inst::Select { ty, cty, dst: d, c, a, b: bb }
            }
            "load" => {
                self.eatw("atomic"); self.eatw("volatile");
                let ty = self.ptype(); self.exp(','); let (_, p) = self.tv();
                Inst::Load { ty, dst: d, p }
            }
            "store" => {
                self.eatw("atomic"); self.eatw("volatile");
                let (ty, v) = self.tv(); self.exp(','); let (_, p) = self.tv();
                Inst::Store { ty, v, p }
            }
            "getelementptr" => {
                while let Tok::Word(_) = &self.cur { if self.is_type() { break; } self.adv(); if self.isp('(') { self.skip_paren(); } }
                let t = self.ptype(); self.exp(',');
                let (_, base) = self.tv();
                let mut off = 0i64; let mut var = vec![]; let mut curt = t; let mut firsti = true;
                while self.eatp(',') {
                    if self.cur == Tok::Meta { break; }
                    let (it, iv) = self.tv();
                    let (scale, next);
                    if firsti { scale = self.m.size(t) as i64; next = t; firsti = false; }
                    else if let Ty::Struct(..) = self.m.t(curt) {
                        let k = match &iv { Opnd::Const(V::C(c)) => *c as usize, _ => panic!("struct gep") };
                        off += self.m.field_off(curt, k) as i64;
                        curt = self.m.elem(curt, k);
                        continue;
                    } else { next = self.m.elem(curt, 0); scale = self.m.size(next) as i64; }
                    curt = next;
                    match iv { Opnd::Const(V::C(c)) => { let bits = self.m.bits(it) as u16; off = off.wrapping_add((crate::term::sx(c, bits) as i64).wrapping_mul(scale)); } o => var.push((o, it, scale)) }
                }
                Inst::Gep { dst: d, base, off, var }
            }
            "alloca" => {
                self.eatw("inalloca");
                let t = self.ptype(); let size = self.m.size(t);
                let mut n = Opnd::Const(V::C(1));
                if self.isp(',') { let s = self.save(); self.adv(); if self.is_type() { let (_, v) = self.tv(); n = v; } else { self.restore(s); } }
                Inst::Alloca { dst: d, size, n }
            }
            "phi" => {
                while !self.is_type() { self.adv(); }
                let ty = self.ptype();
                let mut v = vec![];
                loop {
                    if !self.eatp('[') { break; }
                    let x = self.val(ty); self.exp(','); let l = self.label(); self.exp(']');
                    v.push((l, x));
                    if !self.eatp(',') { break; }
                }
                self.skip_rest();
                b.phis.push((d, v));
                return;
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let inv = w == "invoke";
                if w != "call" && !inv { self.adv(); }
                // cc / attrs / fmf
                loop {
                    if self.isw("cc") { self.adv(); self.adv(); continue; }
                    if self.is_type() { break; }
                    match self.cur.clone() {
                        Tok::Word(x) => { self.adv(); if x == "align" { if self.isp('(') { self.skip_paren(); } else { self.adv(); } } else if self.isp('(') { self.skip_paren(); } }
                        Tok::Str(_) => { self.adv(); if self.eatp('=') { self.adv(); } }
                        _ => { self.adv(); }
                    }
                }
                let ret = self.ptype();
                if self.isp('(') { self.skip_paren(); }
                let mut is_asm = None;
                let callee = match self.adv() {
                    Tok::Global(n) => { let mut n = n; while let Some(a) = self.m.aliases.get(&n) { n = a.clone(); } match self.m.fidx.get(&n) { Some(&f) => Callee::Fn(f), None => panic!("callee {}", n) } }
                    Tok::Local(n) => Callee::Ptr(Opnd::Reg(self.reg(&n))),
                    Tok::Word(x) if x == "asm" => {
                        while let Tok::Word(_) = &self.cur { self.adv(); }
                        let s = match self.adv() { Tok::Str(s) => String::from_utf8_lossy(&s).into_owned(), t => panic!("{:?}", t) };
                        self.exp(','); self.adv();
                        is_asm = Some(s.clone());
                        Callee::Asm(s)
                    }
                    Tok::Word(x) if x == "inttoptr" => { let pt = self.m.ty(Ty::Ptr); self.restore_word(x); let v = self.val(pt); Callee::Ptr(v) }
                    t => self.err(&format!("callee {:?}", t)),
                };
                let _ = is_asm;
                self.exp('(');
                let mut args = vec![]; let mut aty = vec![];
                while !self.eatp(')') {
                    let t = self.ptype();
                    if *self.m.t(t) == Ty::Meta {
                        // skip metadata operand
                        let mut dpt = 0;
                        loop { match &self.cur { Tok::P('(') | Tok::P('{') | Tok::P('[') => dpt += 1, Tok::P(')') | Tok::P('}') | Tok::P(']') => { if dpt == 0 { break; } dpt -= 1; } Tok::P(',') if dpt == 0 => break, _ => {} } self.adv(); }
                        self.eatp(',');
                        continue;
                    }
                    self.skip_call_attrs();
                    let v = self.val(t);
                    args.push(v); aty.push(t);
                    self.eatp(',');
                }
                let mut normal = None;
                if inv {
                    loop {
                        if self.isw("to") { self.adv(); normal = Some(self.label()); self.eatw("unwind"); let _ = self.label(); break; }
                        self.adv();
                    }
                }
                self.skip_rest();
                Inst::Call { dst, ret, callee, args, aty, normal }
            }
            "extractvalue" => { let (_, a) = self.tv(); let mut idx = vec![]; while self.eatp(',') { if self.cur == Tok::Meta { break; } idx.push(self.num() as u32); } Inst::ExtractValue { dst: d, a, idx } }
            "insertvalue" => { let (_, a) = self.tv(); self.exp(','); let (_, v) = self.tv(); let mut idx = vec![]; while self.eatp(',') { if self.cur == Tok::Meta { break; } idx.push(self.num() as u32); } Inst::InsertValue { dst: d, a, v, idx } }
            "extractelement" => { let (_, a) = self.tv(); self.exp(','); let (_, i) = self.tv(); Inst::ExtractElement { dst: d, a, i } }
            "insertelement" => { let (_, a) = self.tv(); self.exp(','); let (_, v) = self.tv(); self.exp(','); let (_, i) = self.tv(); Inst::InsertElement { dst: d, a, v, i } }
            "shufflevector" => {
                let (_, a) = self.tv(); self.exp(','); let (_, bb) = self.tv(); self.exp(','); let (_, m) = self.tv();
                let m = match m { Opnd::Const(V::A(v)) => v.iter().map(|x| match x { V::C(c) => *c as u32, _ => 0 }).collect(), _ => panic!("shuffle mask") };
                Inst::Shuffle { dst: d, a, b: bb, m }
            }
            "freeze" => { let (_, a) = self.tv(); Inst::Freeze { dst: d, a } }
            "fence" => { self.skip_rest(); Inst::Nop }
            "atomicrmw" => {
                self.eatw("volatile");
                let op = match self.adv() { Tok::Word(w) => w, t => panic!("{:?}", t) };
                let (_, p) = self.tv(); self.exp(','); let (ty, v) = self.tv();
                Inst::AtomicRmw { op, ty, dst: d, p, v }
            }
            "cmpxchg" => {
                self.eatw("weak"); self.eatw("volatile");
                let (_, p) = self.tv(); self.exp(','); let (ty, c) = self.tv(); self.exp(','); let (_, n) = self.tv();
                Inst::CmpXchg { ty, dst: d, p, c, n }
            }
            "br" => {
                if self.isw("label") { Inst::Br(self.label()) }
                else { let (_, c) = self.tv(); self.exp(','); let x = self.label(); self.exp(','); let y = self.label(); Inst::CondBr(c, x, y) }
            }
            "switch" => {
                let (ty, v) = self.tv(); self.exp(','); let def = self.label(); self.exp('[');
                let mut cases = vec![];
                while !self.eatp(']') { let t = self.ptype(); let c = self.cint(t); self.exp(','); let l = self.label(); cases.push((c, l)); }
                Inst::Switch { ty, v, def, cases }
            }
            "ret" => { let t = self.ptype(); if *self.m.t(t) == Ty::Void { Inst::Ret(None) } else { Inst::Ret(Some(self.val(t))) } }
            "unreachable" => Inst::Unreachable,
            "landingpad" => {
                let _ = self.ptype();
                loop { match self.cur.clone() { Tok::Word(w) if w == "cleanup" || w == "catch" || w == "filter" => self.skip_line_keep(), _ => break } }
                b.insts.push(Inst::Unsupported("landingpad".into()));
                return;
            }
            "resume" => { self.skip_rest(); Inst::Unsupported("resume".into()) }
            o => { let s = o.to_string(); self.skip_rest(); Inst::Unsupported(s) }
        };
        self.skip_rest();
        b.insts.push(i);
    }
    fn restore_word(&mut self, w: String) {
        // put a word back in front of the current token (only used for constant-expression callees)
        let p = self.lx.p;
        let s = self.lx.s;
        // rewind to the word
        let mut q = p;
        while !s[q..].starts_with(w.as_bytes()) { q -= 1; }
        self.lx.p = q;
        self.adv();
    }
    fn skip_line_keep(&mut self) { self.adv(); self.skip_rest(); }
    fn skip_rest_from_attr(&mut self) { self.adv(); self.skip_rest(); }
    fn skip_call_attrs(&mut self) {
        loop {
            match self.cur.clone() {
                Tok::Word(w) => match w.as_str() {
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "splat" | "blockaddress" | "addrspacecast" | "ptrtoaddr" | "mul" | "and" | "or" | "shl" => return,
                    "align" => { self.adv(); if self.isp('(') { self.skip_paren(); } else { self.adv(); } }
                    _ => { self.adv(); if self.isp('(') { self.skip_paren(); } }
                },
                Tok::Str(_) => { self.adv(); if self.eatp('=') { self.adv(); } }
                Tok::Attr => { self.adv(); }
                _ => return,
            }
        }
    }
}

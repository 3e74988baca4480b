//! Hash-consed bit-vector terms with a light simplifier.
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    Bin(Op, T, T),
    Ite(T, T, T),
    Zext(T),
    Sext(T),
    Extract(T, u16),
    Concat(T, T),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub k: K, pub w: u16 }

#[derive(Default, Clone)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for c in b { self.write_u64(*c as u64); } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
}
pub type Fx = std::hash::BuildHasherDefault<FxH>;

pub struct Terms {
    pub nodes: Vec<Node>,
    map: HashMap<Node, T, Fx>,
    xmemo: HashMap<(T, u16, u16), T, Fx>,
    bmemo: HashMap<(Op, T, T), T, Fx>,
    pub vars: Vec<T>,            // var index -> term
    supp: Vec<Option<std::rc::Rc<Vec<u32>>>>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
    last_model: usize,
}

#[inline]
pub fn mask(w: u16) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline]
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn fold(op: Op, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { (w - 1) as u32 } else { b as u32 }; ((sx(a, w) >> s) as u128) & m }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
    }
}
pub fn is_cmp(op: Op) -> bool { matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) }

impl Terms {
    pub fn new() -> Self {
        let mut t = Terms { nodes: vec![], map: HashMap::default(), xmemo: HashMap::default(), bmemo: HashMap::default(), vars: vec![], supp: vec![], memo: vec![], epoch: 1, last_model: 0 };
        // T = 0 is reserved ("no term") for the memory overlay
        t.mk(K::Const(0), 1);
        t.nodes[0].w = 0;
        t.map.clear();
        t
    }
    pub fn mk(&mut self, k: K, w: u16) -> T {
        let n = Node { k, w };
        if let Some(&t) = self.map.get(&n) { return t; }
        let t = self.nodes.len() as T;
        self.nodes.push(n);
        self.supp.push(None);
        self.memo.push((0, 0));
        self.map.insert(n, t);
        t
    }
    #[inline] pub fn w(&self, t: T) -> u16 { self.nodes[t as usize].w }
    #[inline] pub fn k(&self, t: T) -> K { self.nodes[t as usize].k }
    pub fn cst(&mut self, v: u128, w: u16) -> T { self.mk(K::Const(v & mask(w)), w) }
    pub fn as_const(&self, t: T) -> Option<u128> { if let K::Const(c) = self.k(t) { Some(c) } else { None } }
    /// A variable identified by its index (so that equal creation orders share terms).
    pub fn var(&mut self, idx: u32, w: u16) -> T {
        let t = self.mk(K::Var(idx), w);
        while self.vars.len() <= idx as usize { self.vars.push(0); }
        self.vars[idx as usize] = t;
        t
    }
    pub fn not1(&mut self, a: T) -> T { let o = self.cst(1, 1); self.bin(Op::Xor, a, o) }
    pub fn and1(&mut self, a: T, b: T) -> T { self.bin(Op::And, a, b) }
    pub fn or1(&mut self, a: T, b: T) -> T { self.bin(Op::Or, a, b) }

    /// number of leaves if the term is an Ite tree with constant leaves (bounded)
    fn const_tree(&self, t: T, budget: &mut i32) -> bool {
        *budget -= 1;
        if *budget < 0 { return false; }
        match self.k(t) {
            K::Const(_) => true,
            K::Ite(_, a, b) => self.const_tree(a, budget) && self.const_tree(b, budget),
            _ => false,
        }
    }
    pub fn is_const_tree(&self, t: T, n: i32) -> bool { let mut b = n; matches!(self.k(t), K::Ite(..)) && self.const_tree(t, &mut b) }
    pub fn map_tree(&mut self, t: T, f: &mut dyn FnMut(&mut Terms, u128) -> T) -> T {
        match self.k(t) {
            K::Const(c) => f(self, c),
            K::Ite(c, a, b) => { let x = self.map_tree(a, f); let y = self.map_tree(b, f); self.ite(c, x, y) }
            _ => unreachable!(),
        }
    }

    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        if let (K::Const(_), K::Const(_)) = (self.k(a), self.k(b)) { return self.bin0(op, a, b); }
        if let Some(&r) = self.bmemo.get(&(op, a, b)) { return r; }
        let r = self.bin0(op, a, b);
        self.bmemo.insert((op, a, b), r);
        r
    }
    fn bin0(&mut self, op: Op, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = if is_cmp(op) { 1 } else { w };
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { return self.cst(fold(op, w, x, y), rw); }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm {
            let ac = self.as_const(a).is_some();
            let bc = self.as_const(b).is_some();
            if (ac && !bc) || (!ac && !bc && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let m = mask(w);
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.cst(0, w),
                Op::And | Op::Or => return a,
                Op::Eq | Op::Ule | Op::Sle => return self.cst(1, 1),
                Op::Ult | Op::Slt => return self.cst(0, 1),
                _ => {}
            }
        }
        if let Some(c) = self.as_const(b) {
            match op {
                Op::Add | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if c == 0 => return a,
                Op::Sub => { let n = self.cst(0u128.wrapping_sub(c), w); return self.bin(Op::Add, a, n); }
                Op::Mul => {
                    if c == 0 { return b; }
                    if c == 1 { return a; }
                    if c.is_power_of_two() { let s = self.cst(c.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, s); }
                }
                Op::And => { if c == 0 { return b; } if c == m { return a; } }
                Op::Or => { if c == m { return b; } }
                Op::UDiv => { if c == 1 { return a; } if c.is_power_of_two() { let s = self.cst(c.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, s); } }
                Op::URem => { if c.is_power_of_two() { let s = self.cst(c - 1, w); return self.bin(Op::And, a, s); } }
                _ => {}
            }
            // push into constant Ite trees
            if self.is_const_tree(a, 64) {
                return self.map_tree(a, &mut |t, x| t.cst(fold(op, w, x, c), rw));
            }
            match (op, self.k(a)) {
                (Op::Add, K::Bin(Op::Add, x, y)) => if let Some(c2) = self.as_const(y) { let n = self.cst(c.wrapping_add(c2), w); return self.bin(Op::Add, x, n); },
                (Op::Xor, K::Bin(Op::Xor, x, y)) => if let Some(c2) = self.as_const(y) { let n = self.cst(c ^ c2, w); return self.bin(Op::Xor, x, n); },
                (Op::And, K::Bin(Op::And, x, y)) => if let Some(c2) = self.as_const(y) { let n = self.cst(c & c2, w); return self.bin(Op::And, x, n); },
                (Op::Or, K::Bin(Op::Or, x, y)) => if let Some(c2) = self.as_const(y) { let n = self.cst(c | c2, w); return self.bin(Op::Or, x, n); },
                (Op::And, K::Zext(x)) => {
                    let xw = self.w(x);
                    let cc = c & mask(xw);
                    let n = self.cst(cc, xw);
                    let r = self.bin(Op::And, x, n);
                    return self.zext(r, w);
                }
                (Op::Shl, _) => {
                    if c >= w as u128 { return self.cst(0, w); }
                    let lo = self.extract(a, 0, w - c as u16);
                    let z = self.cst(0, c as u16);
                    return self.concat(lo, z);
                }
                (Op::LShr, _) => {
                    if c >= w as u128 { return self.cst(0, w); }
                    let hi = self.extract(a, c as u16, w - c as u16);
                    return self.zext(hi, w);
                }
                (Op::Eq, k) => {
                    if w == 1 { return if c == 1 { a } else { self.not1(a) }; }
                    match k {
                        K::Zext(x) => {
                            let xw = self.w(x);
                            if c > mask(xw) { return self.cst(0, 1); }
                            let n = self.cst(c, xw);
                            return self.bin(Op::Eq, x, n);
                        }
                        K::Sext(x) => {
                            let xw = self.w(x);
                            if (sx(c & mask(xw), xw) as u128) & m != c { return self.cst(0, 1); }
                            let n = self.cst(c, xw);
                            return self.bin(Op::Eq, x, n);
                        }
                        K::Concat(h, l) => {
                            let lw = self.w(l);
                            let hw = self.w(h);
                            let ch = self.cst(c >> lw, hw);
                            let cl = self.cst(c, lw);
                            let e1 = self.bin(Op::Eq, h, ch);
                            if self.as_const(e1) == Some(0) { return e1; }
                            let e2 = self.bin(Op::Eq, l, cl);
                            return self.and1(e1, e2);
                        }
                        K::Bin(Op::Add, x, y) => if let Some(c2) = self.as_const(y) { let n = self.cst(c.wrapping_sub(c2), w); return self.bin(Op::Eq, x, n); },
                        K::Bin(Op::Xor, x, y) => {
                            if let Some(c2) = self.as_const(y) { let n = self.cst(c ^ c2, w); return self.bin(Op::Eq, x, n); }
                            if c == 0 { return self.bin(Op::Eq, x, y); }
                        }
                        K::Bin(Op::Sub, x, y) => if c == 0 { return self.bin(Op::Eq, x, y); },
                        K::Ite(cc, x, y) => {
                            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                                let e1 = self.bin(Op::Eq, x, b);
                                let e2 = self.bin(Op::Eq, y, b);
                                return self.ite(cc, e1, e2);
                            }
                        }
                        _ => {}
                    }
                }
                (Op::Ult, k) => {
                    if c == 0 { return self.cst(0, 1); }
                    if c == 1 { let z = self.cst(0, w); return self.bin(Op::Eq, a, z); }
                    if let K::Zext(x) = k {
                        let xw = self.w(x);
                        if c > mask(xw) { return self.cst(1, 1); }
                        let n = self.cst(c, xw);
                        return self.bin(Op::Ult, x, n);
                    }
                }
                (Op::Ule, _) => {
                    if c == m { return self.cst(1, 1); }
                    let n = self.cst(c + 1, w);
                    return self.bin(Op::Ult, a, n);
                }
                (Op::Slt, K::Zext(x)) | (Op::Sle, K::Zext(x)) => {
                    let _ = x;
                    if sx(c, w) < 0 { return self.cst(0, 1); }
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                (Op::Slt, K::Sext(x)) => {
                    // compare in the narrow width where the constant fits
                    let xw = self.w(x);
                    let cs = sx(c, w);
                    let (mn, mx) = (-(1i128 << (xw - 1)), (1i128 << (xw - 1)) - 1);
                    if cs > mx { return self.cst(1, 1); }
                    if cs <= mn { return self.cst(0, 1); }
                    let n = self.cst(cs as u128, xw);
                    return self.bin(Op::Slt, x, n);
                }
                _ => {}
            }
        }
        if let Some(c) = self.as_const(a) {
            match op {
                Op::Shl | Op::LShr | Op::UDiv | Op::URem if c == 0 => return a,
                Op::Ult => { // c < b
                    if c == m { return self.cst(0, 1); }
                    if let K::Zext(x) = self.k(b) {
                        let xw = self.w(x);
                        if c >= mask(xw) { return self.cst(0, 1); }
                        let n = self.cst(c, xw);
                        return self.bin(Op::Ult, n, x);
                    }
                    // c < b  <=>  not (b < c+1)
                    let n = self.cst(c + 1, w);
                    let l = self.bin(Op::Ult, b, n);
                    return self.not1(l);
                }
                Op::Ule => { // c <= b <=> not (b < c)
                    let l = self.bin(Op::Ult, b, a);
                    return self.not1(l);
                }
                Op::Slt | Op::Sle => {
                    if let K::Zext(_) = self.k(b) {
                        if sx(c, w) < 0 { return self.cst(1, 1); }
                        return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                    }
                    if op == Op::Sle { // c <= b <=> not (b < c)
                        let l = self.bin(Op::Slt, b, a);
                        return self.not1(l);
                    }
                    if sx(c, w) < sx(m >> 1, w) { // c < b <=> not (b < c+1)
                        let n = self.cst(c.wrapping_add(1), w);
                        let l = self.bin(Op::Slt, b, n);
                        return self.not1(l);
                    }
                }
                _ => {}
            }
            if self.is_const_tree(b, 64) {
                return self.map_tree(b, &mut |t, x| t.cst(fold(op, w, c, x), rw));
            }
        }
        // 0 - zext(bit)  and  x & mask(bit)
        if op == Op::Sub && self.as_const(a) == Some(0) {
            if let K::Zext(x) = self.k(b) { if self.w(x) == 1 { let (o, z) = (self.cst(m, w), self.cst(0, w)); return self.ite(x, o, z); } }
        }
        if op == Op::And && w > 1 {
            for (x, y) in [(a, b), (b, a)] {
                if let K::Ite(c, p, q) = self.k(y) {
                    match (self.as_const(p), self.as_const(q)) {
                        (Some(pv), Some(0)) if pv == m => { let z = self.cst(0, w); return self.ite(c, x, z); }
                        (Some(0), Some(qv)) if qv == m => { let z = self.cst(0, w); return self.ite(c, z, x); }
                        _ => {}
                    }
                }
            }
        }
        if op == Op::Mul && w > 1 {
            for (x, y) in [(a, b), (b, a)] {
                if let K::Zext(c) = self.k(y) { if self.w(c) == 1 { let z = self.cst(0, w); return self.ite(c, x, z); } }
            }
        }
        match op {
            Op::Eq | Op::Ult | Op::Ule => {
                if let (K::Zext(x), K::Zext(y)) = (self.k(a), self.k(b)) {
                    let (xw, yw) = (self.w(x), self.w(y));
                    let mw = xw.max(yw);
                    if mw < w {
                        let x2 = self.zext(x, mw);
                        let y2 = self.zext(y, mw);
                        return self.bin(op, x2, y2);
                    }
                }
                if op == Op::Ule { let l = self.bin(Op::Ult, b, a); return self.not1(l); }
            }
            Op::Slt | Op::Sle => {
                if let (K::Zext(_), K::Zext(_)) = (self.k(a), self.k(b)) {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
            }
            Op::And | Op::Or if w == 1 => {
                // x & !x, x | !x
                if let K::Bin(Op::Xor, x, y) = self.k(b) { if x == a && self.as_const(y) == Some(1) { return self.cst((op == Op::Or) as u128, 1); } }
                if let K::Bin(Op::Xor, x, y) = self.k(a) { if x == b && self.as_const(y) == Some(1) { return self.cst((op == Op::Or) as u128, 1); } }
            }
            Op::Or | Op::Xor | Op::Add => {
                // disjoint zext | (concat x 0)
                if let (K::Zext(x), K::Concat(h, l)) = (self.k(a), self.k(b)) {
                    if self.as_const(l) == Some(0) && self.w(x) <= self.w(l) {
                        let lw = self.w(l);
                        let x2 = self.zext(x, lw);
                        return self.concat(h, x2);
                    }
                }
                if let (K::Concat(h, l), K::Zext(x)) = (self.k(a), self.k(b)) {
                    if self.as_const(l) == Some(0) && self.w(x) <= self.w(l) {
                        let lw = self.w(l);
                        let x2 = self.zext(x, lw);
                        return self.concat(h, x2);
                    }
                }
            }
            _ => {}
        }
        self.mk(K::Bin(op, a, b), rw)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b { return a; }
        if let Some(x) = self.as_const(c) { return if x == 1 { a } else { b }; }
        let w = self.w(a);
        if let K::Bin(Op::Xor, x, y) = self.k(c) { if self.as_const(y) == Some(1) { return self.ite(x, b, a); } }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => { let n = self.not1(c); return self.and1(n, b); }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => { let n = self.not1(c); return self.or1(n, a); }
                _ => {}
            }
        }
        if let K::Ite(c2, x, _) = self.k(a) { if c2 == c { return self.ite(c, x, b); } }
        if let K::Ite(c2, _, y) = self.k(b) { if c2 == c { return self.ite(c, a, y); } }
        self.mk(K::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: T, w: u16) -> T {
        let aw = self.w(a);
        if aw == w { return a; }
        assert!(aw < w);
        match self.k(a) {
            K::Const(c) => self.cst(c, w),
            K::Zext(x) => self.zext(x, w),
            _ => {
                if self.is_const_tree(a, 64) { return self.map_tree(a, &mut |t, x| t.cst(x, w)); }
                self.mk(K::Zext(a), w)
            }
        }
    }
    pub fn sext(&mut self, a: T, w: u16) -> T {
        let aw = self.w(a);
        if aw == w { return a; }
        match self.k(a) {
            K::Const(c) => self.cst(sx(c, aw) as u128, w),
            K::Zext(x) => self.zext(x, w),
            _ => {
                if self.is_const_tree(a, 64) { return self.map_tree(a, &mut |t, x| t.cst(sx(x, aw) as u128, w)); }
                self.mk(K::Sext(a), w)
            }
        }
    }
    pub fn extract(&mut self, a: T, lo: u16, w: u16) -> T {
        if !matches!(self.k(a), K::Bin(..) | K::Ite(..) | K::Concat(..)) { return self.extract0(a, lo, w); }
        if let Some(&r) = self.xmemo.get(&(a, lo, w)) { return r; }
        let r = self.extract0(a, lo, w);
        self.xmemo.insert((a, lo, w), r);
        r
    }
    fn extract0(&mut self, a: T, lo: u16, w: u16) -> T {
        let aw = self.w(a);
        if lo == 0 && w == aw { return a; }
        assert!(lo + w <= aw);
        match self.k(a) {
            K::Const(c) => self.cst(c >> lo, w),
            K::Extract(x, l2) => self.extract(x, lo + l2, w),
            K::Zext(x) => {
                let xw = self.w(x);
                if lo >= xw { return self.cst(0, w); }
                if lo + w <= xw { return self.extract(x, lo, w); }
                let e = self.extract(x, lo, xw - lo);
                self.zext(e, w)
            }
            K::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw { return self.extract(h, lo - lw, w); }
                if lo + w <= lw { return self.extract(l, lo, w); }
                let lp = self.extract(l, lo, lw - lo);
                let hp = self.extract(h, 0, w - (lw - lo));
                self.concat(hp, lp)
            }
            K::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let x2 = self.extract(x, lo, w);
                let y2 = self.extract(y, lo, w);
                self.bin(op, x2, y2)
            }
            K::Bin(op @ (Op::Add | Op::Sub), x, y) if lo == 0 => {
                let x2 = self.extract(x, lo, w);
                let y2 = self.extract(y, lo, w);
                self.bin(op, x2, y2)
            }
            K::Ite(c, x, y) if self.as_const(x).is_some() || self.as_const(y).is_some() => {
                let x2 = self.extract(x, lo, w);
                let y2 = self.extract(y, lo, w);
                self.ite(c, x2, y2)
            }
            _ => self.mk(K::Extract(a, lo), w),
        }
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let w = self.w(h) + self.w(l);
        let lw = self.w(l);
        match (self.k(h), self.k(l)) {
            (K::Const(a), K::Const(b)) => return self.cst((a << lw) | b, w),
            (K::Const(0), _) => return self.zext(l, w),
            (K::Extract(x, hl), K::Extract(y, ll)) if x == y && hl == ll + lw => { let hw = self.w(h); return self.extract(x, ll, hw + lw); }
            (K::Extract(x, hl), _) if x == l && hl == lw => { let hw = self.w(h); return self.extract(x, 0, hw + lw); }
            (K::Extract(x, hl), K::Concat(m, r)) => {
                // re-associate so that adjacent extracts meet
                let mw = self.w(m);
                if let K::Extract(y, ml) = self.k(m) { if x == y && hl == ml + mw { let nm = self.concat(h, m); return self.concat(nm, r); } }
            }
            (K::Concat(a, b), _) => { let r = self.concat(b, l); return self.concat(a, r); }
            (K::Const(_), K::Concat(m, r)) if self.as_const(m).is_some() => { let nm = self.concat(h, m); return self.concat(nm, r); }
            _ => {}
        }
        // concat(0.., ..) with a zext on the left: zext(x) ++ l -> zext(x ++ l)
        if let K::Zext(x) = self.k(h) { let c = self.concat(x, l); return self.zext(c, w); }
        self.mk(K::Concat(h, l), w)
    }

    /// support: sorted variable indices
    pub fn support(&mut self, t: T) -> std::rc::Rc<Vec<u32>> {
        if let Some(s) = &self.supp[t as usize] { return s.clone(); }
        let r: Vec<u32> = match self.k(t) {
            K::Const(_) => vec![],
            K::Var(i) => vec![i],
            K::Bin(_, a, b) | K::Concat(a, b) => { let x = self.support(a); let y = self.support(b); merge(&x, &y) }
            K::Ite(a, b, c) => { let x = self.support(a); let y = self.support(b); let z = self.support(c); merge(&merge(&x, &y), &z) }
            K::Zext(a) | K::Sext(a) | K::Extract(a, _) => { let x = self.support(a); x.to_vec() }
        };
        let rc = std::rc::Rc::new(r);
        self.supp[t as usize] = Some(rc.clone());
        rc
    }
    /// rewrite with some variables replaced by constants
    pub fn subst(&mut self, t: T, f: &dyn Fn(u32) -> Option<u128>, memo: &mut HashMap<T, T>) -> T {
        let n = self.nodes[t as usize];
        match n.k { K::Const(_) => return t, K::Var(i) => return match f(i) { Some(v) => self.cst(v, n.w), None => t }, _ => {} }
        let sup = self.support(t);
        if !sup.iter().any(|v| f(*v).is_some()) { return t; }
        if let Some(&r) = memo.get(&t) { return r; }
        let r = match n.k {
            K::Bin(op, a, b) => { let x = self.subst(a, f, memo); let y = self.subst(b, f, memo); self.bin(op, x, y) }
            K::Ite(c, a, b) => { let c = self.subst(c, f, memo); match self.as_const(c) { Some(1) => self.subst(a, f, memo), Some(_) => self.subst(b, f, memo), None => { let x = self.subst(a, f, memo); let y = self.subst(b, f, memo); self.ite(c, x, y) } } }
            K::Zext(a) => { let x = self.subst(a, f, memo); self.zext(x, n.w) }
            K::Sext(a) => { let x = self.subst(a, f, memo); self.sext(x, n.w) }
            K::Extract(a, lo) => { let x = self.subst(a, f, memo); self.extract(x, lo, n.w) }
            K::Concat(h, l) => { let x = self.subst(h, f, memo); let y = self.subst(l, f, memo); self.concat(x, y) }
            _ => unreachable!(),
        };
        memo.insert(t, r);
        r
    }
    pub fn new_epoch(&mut self) { self.epoch += 1; self.last_model = 0; }
    pub fn eval(&mut self, t: T, model: &std::rc::Rc<Vec<u128>>) -> u128 {
        let id = std::rc::Rc::as_ptr(model) as usize;
        if id != self.last_model { self.epoch += 1; self.last_model = id; }
        self.ev(t, model)
    }
    /// evaluate against a throw-away assignment
    pub fn eval_with(&mut self, t: T, model: &[u128]) -> u128 { self.new_epoch(); let r = self.ev(t, model); self.new_epoch(); r }
    fn ev(&mut self, t: T, m: &[u128]) -> u128 {
        let n = self.nodes[t as usize];
        match n.k {
            K::Const(c) => return c,
            K::Var(i) => return m.get(i as usize).copied().unwrap_or(0) & mask(n.w),
            _ => {}
        }
        let (e, v) = self.memo[t as usize];
        if e == self.epoch { return v; }
        let r = match n.k {
            K::Bin(op, a, b) => { let x = self.ev(a, m); let y = self.ev(b, m); fold(op, self.w(a), x, y) }
            K::Ite(c, a, b) => if self.ev(c, m) == 1 { self.ev(a, m) } else { self.ev(b, m) },
            K::Zext(a) => self.ev(a, m),
            K::Sext(a) => { let x = self.ev(a, m); (sx(x, self.w(a)) as u128) & mask(n.w) }
            K::Extract(a, lo) => (self.ev(a, m) >> lo) & mask(n.w),
            K::Concat(h, l) => { let x = self.ev(h, m); let y = self.ev(l, m); (x << self.w(l)) | y }
            _ => unreachable!(),
        };
        self.memo[t as usize] = (self.epoch, r);
        r
    }
}

pub fn merge(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i] < b[j]) { r.push(a[i]); i += 1; }
        else if i >= a.len() || b[j] < a[i] { r.push(b[j]); j += 1; }
        else { r.push(a[i]); i += 1; j += 1; }
    }
    r
}

//! Symbolic interpreter for the decoded IR.
use crate::ir::*;
use crate::solver::*;
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj { data: Vec<u8>, sym: Vec<(T, u16)> }
impl Obj {
    fn new(n: usize) -> Obj { Obj { data: vec![0; n], sym: vec![] } }
}

#[derive(Clone)]
pub struct Frame { f: u32, blk: u32, pc: u32, regs: Vec<V>, allocas: Vec<u32>, dst: Option<u32>, normal: Option<u32> }

#[derive(Clone)]
pub struct State {
    mem: Vec<Option<Rc<Obj>>>,
    gmem: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    frames: Vec<Rc<Frame>>,
    pc: Vec<T>,
    known: Vec<(T, u128)>,
    fixed: Vec<u64>,
    dom: Vec<Option<Rc<[u64; 4]>>>,
    model: Rc<Vec<u128>>,
    vars: Vec<T>,
    obs: Vec<V>,
    steps: u64,
    panic_ok: bool,
    depth: u32,
}

pub struct Violation { pub tag: String, pub detail: String, pub inputs: Vec<u128>, pub stack: String }
pub struct Sample { pub inputs: Vec<u128>, pub obs: Vec<u128>, pub end: String }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Hook {
    None, Sym(u8), Panic, PanicNoUnwind, Alloc, AllocZ, Dealloc, Realloc, Malloc, Calloc, CRealloc, Free, PosixMemalign,
    Memcmp, Bcmp, Memcpy, Memset, Strlen, Nop, Ret0, RetNeg1, Intr(u16), Write, Abort, RandKeys,
}

enum Stop { Conc(T), End(String), Err(String), Viol(String, String) }
type R<X> = Result<X, Stop>;

pub struct Cfg { pub max_steps: u64, pub deadline: Instant, pub samples: usize, pub max_per_tag: usize, pub timeout_ms: u32, pub trace: bool }

#[derive(Default)]
pub struct Stats { pub paths: u64, pub instrs: u64, pub forks: u64, pub checks: u64, pub checks_sym: u64, pub assumed_out: u64, pub panics_ok: u64, pub concretized: u64, pub max_vars: u64, pub max_path_steps: u64 }

pub struct Eng {
    pub m: Rc<Module>,
    pub ts: Terms,
    pub so: Solver,
    pub cfg: Cfg,
    hooks: Vec<Hook>,
    inames: Vec<String>,
    gobj: Vec<Rc<Obj>>,
    pub st: Stats,
    pub viol: Vec<Violation>,
    tagc: HashMap<String, usize>,
    pub samples: Vec<Sample>,
    pub errors: Vec<String>,
    pub covered: Vec<Vec<bool>>,
    pub tags: HashMap<String, (u64, u64)>,
    pub timed_out: bool,
    pub ends: HashMap<String, u64>,
    seen_samples: u64,
}

fn mk(v: u128, w: u32) -> V { V::C(if w >= 128 { v } else { v & ((1u128 << w) - 1) }) }

const SYMS: &[&str] = &["__sym_bits", "__sym_assume", "__sym_check", "__sym_observe", "__sym_conc", "__sym_end", "__sym_panic_ok", "__sym_is_engine", "__sym_trace", "__sym_model"];

impl Eng {
    pub fn new(m: Module, cfg: Cfg) -> Eng {
        let mut inames: Vec<String> = vec![];
        let mut hooks = vec![];
        for f in &m.funcs {
            let n = f.name.as_str();
            let h = if n.starts_with("llvm.") { inames.push(n.to_string()); Hook::Intr(inames.len() as u16 - 1) }
                else if let Some(i) = SYMS.iter().position(|s| *s == n) { Hook::Sym(i as u8) }
                else if n.ends_with("___rust_alloc") || n == "__rust_alloc" || n.ends_with("__rdl_alloc") { Hook::Alloc }
                else if n.ends_with("___rust_alloc_zeroed") { Hook::AllocZ }
                else if n.ends_with("___rust_dealloc") { Hook::Dealloc }
                else if n.ends_with("___rust_realloc") { Hook::Realloc }
                else if n.contains("no_alloc_shim_is_unstable") { Hook::Nop }
                else if n.contains("9panicking9panic_fmt") || n.contains("9panicking11begin_panic") || n.contains("begin_panic_handler") || n.contains("10rust_panic") || n.contains("__rust_start_panic") { Hook::Panic }
                else if n.contains("9panicking19panic_cannot_unwind") || n.contains("panic_nounwind") || n.contains("panic_in_cleanup") { Hook::PanicNoUnwind }
                else if n.contains("handle_alloc_error") { Hook::PanicNoUnwind }
                else if n.contains("2io5stdio6__print") || n.contains("2io5stdio7__eprint") || n.contains("2io5stdio7_eprint") || n.contains("2io5stdio6_print") { Hook::Nop }
                else if n.contains("hashmap_random_keys") { Hook::RandKeys }
                else {
                    match n {
                        "malloc" => Hook::Malloc, "calloc" => Hook::Calloc, "realloc" => Hook::CRealloc, "free" => Hook::Free, "posix_memalign" => Hook::PosixMemalign,
                        "memcmp" => Hook::Memcmp, "bcmp" => Hook::Bcmp, "memcpy" | "memmove" => Hook::Memcpy, "memset" => Hook::Memset, "strlen" => Hook::Strlen,
                        "write" | "writev" => Hook::Write, "abort" | "exit" | "_exit" => Hook::Abort,
                        "getenv" | "__cxa_thread_atexit_impl" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "close" | "sigaction" | "signal" | "pthread_self" | "sched_yield" => Hook::Ret0,
                        "syscall" => Hook::RetNeg1,
                        _ => Hook::None,
                    }
                };
            hooks.push(h);
        }
        let gobj = m.globals.iter().map(|g| Rc::new(Obj { data: g.init.clone(), sym: vec![] })).collect();
        let covered = m.funcs.iter().map(|f| vec![false; f.blocks.len()]).collect();
        let mut so = Solver::new(cfg.timeout_ms);
        so.deadline = Some(cfg.deadline);
        Eng { m: Rc::new(m), ts: Terms::new(), so, cfg, hooks, inames, gobj, st: Stats::default(), viol: vec![], tagc: HashMap::new(), samples: vec![], errors: vec![], covered, tags: HashMap::new(), timed_out: false, ends: HashMap::new(), seen_samples: 0 }
    }
    pub fn initial(&mut self, entry: &str) -> State {
        let f = *self.m.fidx.get(entry).unwrap_or_else(|| { eprintln!("no entry {}", entry); std::process::exit(3) });
        let mut gm = vec![];
        for (i, g) in self.m.globals.iter().enumerate() { gm.push(if g.konst { None } else { Some(self.gobj[i].clone()) }); }
        let fr = self.mkframe(f, vec![], None, None);
        State { mem: vec![], gmem: gm, free: vec![], frames: vec![Rc::new(fr)], pc: vec![], known: vec![], fixed: vec![], dom: vec![], model: Rc::new(vec![]), vars: vec![], obs: vec![], steps: 0, panic_ok: false, depth: 0 }
    }
    fn mkframe(&mut self, f: u32, args: Vec<V>, dst: Option<u32>, normal: Option<u32>) -> Frame {
        let fu = &self.m.funcs[f as usize];
        let mut regs = vec![V::C(0); fu.nregs as usize];
        for (p, a) in fu.params.iter().zip(args) { regs[*p as usize] = a; }
        if let Some(c) = self.covered[f as usize].get_mut(0) { *c = true; }
        Frame { f, blk: 0, pc: 0, regs, allocas: vec![], dst, normal }
    }

    // ---------- values ----------
    pub fn term(&mut self, v: &V, w: u32) -> T { match v { V::C(c) => self.ts.cst(*c, w as u16), V::S(t) => { debug_assert_eq!(self.ts.w(*t) as u32, w); *t } V::A(_) => panic!("aggregate as scalar") } }
    fn val(&self, t: T) -> V { match self.ts.as_const(t) { Some(c) => V::C(c), None => V::S(t) } }
    fn bin(&mut self, op: Op, w: u32, a: &V, b: &V) -> V {
        match (a, b) {
            (V::C(x), V::C(y)) => V::C(fold(op, w as u16, *x, *y)),
            (V::A(x), V::A(y)) => { let (x, y) = (x.clone(), y.clone()); V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.bin(op, w, p, q)).collect())) }
            _ => { let x = self.term(a, w); let y = self.term(b, w); let r = self.ts.bin(op, x, y); self.val(r) }
        }
    }
    fn not1(&mut self, a: &V) -> V { self.bin(Op::Xor, 1, a, &V::C(1)) }
    fn ite(&mut self, m: &Module, ty: TyId, c: &V, a: &V, b: &V) -> V {
        match c {
            V::C(x) => if *x == 1 { a.clone() } else { b.clone() },
            V::S(ct) => match (a, b) {
                (V::A(x), V::A(y)) => { let (x, y) = (x.clone(), y.clone()); V::A(Rc::new((0..x.len()).map(|k| { let e = m.elem(ty, k); self.ite(m, e, c, &x[k], &y[k]) }).collect())) }
                _ => { let w = m.bits(ty); let x = self.term(a, w); let y = self.term(b, w); let r = self.ts.ite(*ct, x, y); self.val(r) }
            },
            V::A(cs) => { let cs = cs.clone(); match (a, b) { (V::A(x), V::A(y)) => { let (x, y) = (x.clone(), y.clone()); V::A(Rc::new((0..x.len()).map(|k| { let e = m.elem(ty, k); self.ite(m, e, &cs[k], &x[k], &y[k]) }).collect())) } _ => panic!("vector select") } }
        }
    }
    /// concrete value of a scalar, or a request to enumerate it
    fn conc(&mut self, st: &State, v: &V) -> R<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::S(t) => {
                if let Some((_, c)) = st.known.iter().rev().find(|(k, _)| k == t) { return Ok(*c); }
                if self.all_fixed(st, *t) { return Ok(self.ts.eval(*t, &st.model)); }
                Err(Stop::Conc(*t))
            }
            V::A(_) => Err(Stop::Err("aggregate where scalar expected".into())),
        }
    }
    fn all_fixed(&mut self, st: &State, t: T) -> bool {
        if st.fixed.is_empty() { return false; }
        let s = self.ts.support(t);
        s.iter().all(|v| st.fixed.get((*v / 64) as usize).map_or(false, |w| w >> (*v % 64) & 1 == 1))
    }
    fn add_pc(&mut self, st: &mut State, c: T) {
        if self.ts.as_const(c).is_some() { return; }
        if let K::Bin(Op::And, a, b) = self.ts.k(c) { if self.ts.w(c) == 1 { self.add_pc(st, a); self.add_pc(st, b); return; } }
        if st.pc.contains(&c) { return; }
        st.pc.push(c);
        let sup = self.ts.support(c);
        if sup.len() == 1 {
            let v = sup[0];
            let w = self.ts.w(st.vars[v as usize]);
            if w <= 8 {
                // the variable's domain under the constraints that mention it alone
                while st.dom.len() <= v as usize { st.dom.push(None); }
                let mut d = match &st.dom[v as usize] { Some(d) => **d, None => { let mut d = [0u64; 4]; for x in 0..1u32 << w { d[(x / 64) as usize] |= 1 << (x % 64); } d } };
                let mut asg = vec![0u128; v as usize + 1];
                for x in 0..1u32 << w { if d[(x / 64) as usize] >> (x % 64) & 1 == 1 { asg[v as usize] = x as u128; if self.ts.eval_with(c, &asg) == 0 { d[(x / 64) as usize] &= !(1 << (x % 64)); } } }
                let n: u32 = d.iter().map(|x| x.count_ones()).sum();
                st.dom[v as usize] = Some(Rc::new(d));
                if n == 1 { self.fix(st, v); }
                return;
            }
        }
        let var = match self.ts.k(c) { K::Bin(Op::Eq, a, b) => match (self.ts.k(a), self.ts.k(b)) { (K::Var(i), K::Const(_)) => Some(i), _ => None }, _ => None };
        if let Some(i) = var { self.fix(st, i); }
    }
    fn fix(&self, st: &mut State, i: u32) { while st.fixed.len() <= (i / 64) as usize { st.fixed.push(0); } st.fixed[(i / 64) as usize] |= 1 << (i % 64); }
    fn with_model(&mut self, st: &mut State, part: &[(u32, u128)]) {
        let mut m = (*st.model).clone();
        for &(i, v) in part { while m.len() <= i as usize { m.push(0); } m[i as usize] = v; }
        st.model = Rc::new(m);
        self.ts.new_epoch();
    }
    /// can `c` hold on this path?  (knows the path's model)
    fn feasible(&mut self, st: &State, c: T) -> Ans {
        if let Some(x) = self.ts.as_const(c) { return if x == 1 { Ans::Sat(Rc::new(vec![])) } else { Ans::Unsat }; }
        if self.ts.eval(c, &st.model) == 1 { return Ans::Sat(Rc::new(vec![])); }
        if self.all_fixed(st, c) { return Ans::Unsat; }
        let n = self.ts.not1(c);
        if st.pc.contains(&n) { return Ans::Unsat; }
        let sup = self.ts.support(c);
        if sup.len() == 1 {
            if let Some(Some(d)) = st.dom.get(sup[0] as usize).cloned() {
                let v = sup[0];
                let mut asg = vec![0u128; v as usize + 1];
                let mut hit = false;
                for x in 0..256u32 { if d[(x / 64) as usize] >> (x % 64) & 1 == 1 { asg[v as usize] = x as u128; if self.ts.eval_with(c, &asg) == 1 { hit = true; break; } } }
                if !hit { return Ans::Unsat; }
            }
        }
        // determined variables are replaced by their values before the solver sees the query
        let (c2, pc2) = if st.fixed.is_empty() { (c, None) } else {
            let model = st.model.clone();
            let fx = st.fixed.clone();
            let f = move |i: u32| -> Option<u128> { if fx.get((i / 64) as usize).map_or(false, |w| w >> (i % 64) & 1 == 1) { Some(model.get(i as usize).copied().unwrap_or(0)) } else { None } };
            let mut memo = HashMap::new();
            let c2 = self.ts.subst(c, &f, &mut memo);
            if self.ts.as_const(c2) == Some(0) { return Ans::Unsat; }
            let mut v = vec![];
            for &p in &st.pc { let q = self.ts.subst(p, &f, &mut memo); if self.ts.as_const(q).is_none() && !v.contains(&q) { v.push(q); } }
            (c2, Some(v))
        };
        let a = self.so.check(&mut self.ts, pc2.as_deref().unwrap_or(&st.pc), c2);
        if let Ans::Unknown = a { self.errors.push("solver returned unknown".into()); }
        a
    }

    // ---------- memory ----------
    fn obj<'a>(&'a self, st: &'a State, addr: u64, n: u64) -> R<(&'a Obj, usize, u32)> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff).wrapping_sub(BASE);
        if id == 0 { return Err(Stop::Viol("memory".into(), format!("access of {} bytes at invalid address {:#x}", n, addr))); }
        let id = id - 1;
        let ng = self.gobj.len() as u32;
        let o: &Obj = if id < ng { match &st.gmem[id as usize] { Some(o) => o, None => &self.gobj[id as usize] } }
            else { match st.mem.get((id - ng) as usize) { Some(Some(o)) => o, _ => return Err(Stop::Viol("memory".into(), format!("access of {} bytes at freed or unknown address {:#x}", n, addr))) } };
        if off > o.data.len() as u64 || off + n > o.data.len() as u64 { return Err(Stop::Viol("memory".into(), format!("out of bounds: {} bytes at offset {} of an object of {}", n, off as i64, o.data.len()))); }
        Ok((o, off as usize, id))
    }
    fn obj_mut<'a>(&self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        let (_, off, id) = self.obj(st, addr, n)?;
        let ng = self.gobj.len() as u32;
        let slot = if id < ng { &mut st.gmem[id as usize] } else { &mut st.mem[(id - ng) as usize] };
        match slot { Some(o) => Ok((Rc::make_mut(o), off)), None => Err(Stop::Viol("memory".into(), "write to constant memory".into())) }
    }
    fn alloc(&self, st: &mut State, n: u64) -> R<u64> {
        if n > 1 << 27 { return Err(Stop::Viol("memory".into(), format!("allocation of {} bytes", n))); }
        let o = Some(Rc::new(Obj::new(n as usize)));
        let ng = self.gobj.len() as u32;
        let id = if let Some(i) = st.free.pop() { st.mem[i as usize] = o; i } else { st.mem.push(o); st.mem.len() as u32 - 1 };
        Ok(obj_addr(id + ng))
    }
    fn dealloc(&self, st: &mut State, addr: u64) -> R<()> {
        if addr == 0 { return Ok(()); }
        self.obj(st, addr, 0)?;
        let id = (addr >> 32) as u32 - 1;
        let ng = self.gobj.len() as u32;
        if id < ng { return Err(Stop::Viol("memory".into(), "free of a global".into())); }
        st.mem[(id - ng) as usize] = None;
        st.free.push(id - ng);
        Ok(())
    }
    fn load_bytes(&mut self, st: &State, addr: u64, n: usize, bits: u32) -> R<V> {
        enum G { Done(V), Bytes(Vec<(T, u16, u8)>) }
        let g = {
            let (o, off, _) = self.obj(st, addr, n as u64)?;
            if o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| x.0 == 0) {
                let mut v = 0u128;
                for k in (0..n.min(16)).rev() { v = v << 8 | o.data[off + k] as u128; }
                G::Done(mk(v, bits))
            } else { G::Bytes((0..n).map(|k| (o.sym[off + k].0, o.sym[off + k].1, o.data[off + k])).collect()) }
        };
        match g {
            G::Done(v) => Ok(v),
            G::Bytes(b) => {
                let (t0, i0, _) = b[0];
                if t0 != 0 && i0 == 0 && b.iter().enumerate().all(|(k, x)| x.0 == t0 && x.1 == k as u16) && self.ts.w(t0) as usize == n * 8 {
                    let r = if bits as usize == n * 8 { t0 } else { self.ts.extract(t0, 0, bits as u16) };
                    return Ok(self.val(r));
                }
                let mut acc: Option<T> = None;
                for &(t, i, d) in b.iter() {
                    let x = if t == 0 { self.ts.cst(d as u128, 8) } else { self.ts.extract(t, i * 8, 8) };
                    acc = Some(match acc { None => x, Some(a) => self.ts.concat(x, a) });
                }
                let mut r = acc.unwrap();
                if (bits as usize) < n * 8 { r = self.ts.extract(r, 0, bits as u16); }
                Ok(self.val(r))
            }
        }
    }
    fn load(&mut self, m: &Module, st: &State, ty: TyId, addr: u64) -> R<V> {
        match m.t(ty) {
            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => { let n = m.store_size(ty) as usize; let b = m.bits(ty); self.load_bytes(st, addr, n, b) }
            Ty::Vector(n, e) if m.bits(*e) == 1 => { let (n, nb) = (*n, m.store_size(ty) as usize); let v = self.load_bytes(st, addr, nb, n)?; let mut r = vec![]; for k in 0..n { r.push(match &v { V::C(c) => V::C(c >> k & 1), V::S(t) => { let x = self.ts.extract(*t, k as u16, 1); self.val(x) } _ => unreachable!() }); } Ok(V::A(Rc::new(r))) }
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => { let k = m.nelem(ty); let mut v = vec![]; for i in 0..k { v.push(self.load(m, st, m.elem(ty, i), addr + m.field_off(ty, i))?); } Ok(V::A(Rc::new(v))) }
            t => Err(Stop::Err(format!("load of {:?}", t))),
        }
    }
    fn store(&mut self, m: &Module, st: &mut State, ty: TyId, v: &V, addr: u64) -> R<()> {
        match (m.t(ty), v) {
            (Ty::Vector(n, e), V::A(vs)) if m.bits(*e) == 1 => {
                let mut acc: Option<V> = None;
                let mut w = 0;
                for k in 0..*n as usize { acc = Some(match acc { None => vs[k].clone(), Some(a) => { let x = self.term(&vs[k], 1); let y = self.term(&a, w); let r = self.ts.concat(x, y); self.val(r) } }); w += 1; }
                let it = Ty::Int(*n); let tid = m.tys.iter().position(|x| *x == it).expect("mask int type") as TyId;
                self.store(m, st, tid, &acc.unwrap(), addr)
            }
            (_, V::A(vs)) => { for (i, x) in vs.iter().enumerate() { self.store(m, st, m.elem(ty, i), x, addr + m.field_off(ty, i))?; } Ok(()) }
            (_, V::C(c)) => {
                let n = m.store_size(ty) as usize;
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                for k in 0..n { o.data[off + k] = if k < 16 { (c >> (8 * k)) as u8 } else { 0 }; }
                if !o.sym.is_empty() { for k in 0..n { o.sym[off + k] = (0, 0); } }
                Ok(())
            }
            (_, V::S(t)) => {
                let n = m.store_size(ty) as usize;
                let mut t = *t;
                if (self.ts.w(t) as usize) < n * 8 { t = self.ts.zext(t, (n * 8) as u16); }
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                if o.sym.is_empty() { o.sym = vec![(0, 0); o.data.len()]; }
                for k in 0..n { o.sym[off + k] = (t, k as u16); }
                Ok(())
            }
        }
    }
    /// bytes as (concrete, term) pairs
    fn bytes(&mut self, st: &State, addr: u64, n: usize) -> R<Vec<V>> {
        if n == 0 { return Ok(vec![]); }
        let raw: Vec<(T, u16, u8)> = { let (o, off, _) = self.obj(st, addr, n as u64)?; (0..n).map(|k| if o.sym.is_empty() { (0, 0, o.data[off + k]) } else { (o.sym[off + k].0, o.sym[off + k].1, o.data[off + k]) }).collect() };
        Ok(raw.into_iter().map(|(t, i, d)| if t == 0 { V::C(d as u128) } else { let x = self.ts.extract(t, i * 8, 8); self.val(x) }).collect())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (data, sym) = { let (o, off, _) = self.obj(st, s, n)?; let r = off..off + n as usize; (o.data[r.clone()].to_vec(), if o.sym.is_empty() { vec![] } else { o.sym[r].to_vec() }) };
        let (o, off) = self.obj_mut(st, d, n)?;
        o.data[off..off + n as usize].copy_from_slice(&data);
        if !sym.is_empty() && sym.iter().any(|x| x.0 != 0) { if o.sym.is_empty() { o.sym = vec![(0, 0); o.data.len()]; } o.sym[off..off + n as usize].copy_from_slice(&sym); }
        else if !o.sym.is_empty() { for k in 0..n as usize { o.sym[off + k] = (0, 0); } }
        Ok(())
    }
    fn tz(&self, t: T) -> u16 {
        match self.ts.k(t) {
            K::Const(c) => if c == 0 { 127 } else { c.trailing_zeros() as u16 },
            K::Concat(h, l) => { let z = self.tz(l); if z >= self.ts.w(l) { self.ts.w(l) + self.tz(h).min(127 - self.ts.w(l)) } else { z } }
            K::Zext(a) => self.tz(a),
            K::Bin(Op::Add, a, b) | K::Bin(Op::Or, a, b) | K::Bin(Op::Xor, a, b) | K::Bin(Op::Sub, a, b) => self.tz(a).min(self.tz(b)),
            K::Bin(Op::Mul, a, b) => (self.tz(a) + self.tz(b)).min(127),
            K::Ite(_, a, b) => self.tz(a).min(self.tz(b)),
            _ => 0,
        }
    }
    /// load through a symbolic address; Err(Conc) when enumeration of the address is the better choice
    fn sym_load(&mut self, m: &Module, st: &State, ty: TyId, at: T) -> R<V> {
        let scalar = matches!(m.t(ty), Ty::Int(_));
        if !scalar { return Err(Stop::Conc(at)); }
        let n = m.store_size(ty);
        let bits = m.bits(ty);
        if self.ts.is_const_tree(at, 64) {
            let mut leaves = vec![];
            self.leaves(at, &mut leaves);
            let mut vals = HashMap::new();
            for &a in &leaves { match self.load(m, st, ty, a as u64) { Ok(v) => { let t = self.term(&v, bits); vals.insert(a, t); } Err(_) => return Err(Stop::Conc(at)) } }
            let r = self.ts.map_tree(at, &mut |_, x| vals[&x]);
            return Ok(self.val(r));
        }
        let a0 = self.ts.eval(at, &st.model) as u64;
        let (olen, obase, offv) = { let (o, off, _) = self.obj(st, a0, n)?; (o.data.len() as u64, a0 - off as u64, off as u64) };
        let base = self.ts.cst(obase as u128, 64);
        let offt = self.ts.bin(Op::Sub, at, base);
        let stride = 1u64 << self.tz(offt).min(12);
        let _ = offv;
        if olen / stride > 2048 || olen < n { return Err(Stop::Conc(at)); }
        let lim = self.ts.cst((olen - n + 1) as u128, 64);
        let inb = self.ts.bin(Op::Ult, offt, lim);
        let oob = self.ts.not1(inb);
        match self.feasible(st, oob) { Ans::Unsat => {} _ => return Err(Stop::Conc(at)) }
        let mut runs: Vec<(u64, T)> = vec![];
        let mut o = 0;
        while o + n <= olen {
            let v = self.load_bytes(st, obase + o, n as usize, bits)?;
            let t = self.term(&v, bits);
            if runs.last().map(|x| x.1) != Some(t) { runs.push((o, t)); }
            o += stride;
        }
        if runs.len() > 600 { return Err(Stop::Conc(at)); }
        let r = self.tree(offt, &runs);
        Ok(self.val(r))
    }
    fn tree(&mut self, off: T, runs: &[(u64, T)]) -> T {
        if runs.len() == 1 { return runs[0].1; }
        let k = runs.len() / 2;
        let l = self.tree(off, &runs[..k]);
        let r = self.tree(off, &runs[k..]);
        let b = self.ts.cst(runs[k].0 as u128, 64);
        let c = self.ts.bin(Op::Ult, off, b);
        self.ts.ite(c, l, r)
    }
    fn leaves(&self, t: T, out: &mut Vec<u128>) { match self.ts.k(t) { K::Const(c) => out.push(c), K::Ite(_, a, b) => { self.leaves(a, out); self.leaves(b, out); } _ => {} } }
    fn str_at(&mut self, st: &State, p: u64, n: u64) -> String {
        match self.bytes(st, p, n.min(4096) as usize) { Ok(b) => { let v: Vec<u8> = b.iter().map(|x| match x { V::C(c) => *c as u8, V::S(t) => self.ts.eval(*t, &st.model) as u8, _ => b'?' }).collect(); String::from_utf8_lossy(&v).into_owned() } Err(_) => "?".into() }
    }

    // ---------- path bookkeeping ----------
    fn inputs(&mut self, st: &State) -> Vec<u128> { let vs = st.vars.clone(); vs.iter().map(|&t| self.ts.eval(t, &st.model)).collect() }
    fn stack(&self, st: &State) -> String { st.frames.iter().rev().map(|f| pretty(&self.m.funcs[f.f as usize].name)).filter(|s| s.contains("syntaxis") || s.contains("harness")).take(6).collect::<Vec<_>>().join(" <- ") }
    fn violation(&mut self, st: &State, tag: &str, detail: &str) {
        let c = self.tagc.entry(tag.to_string()).or_insert(0);
        *c += 1;
        if *c > self.cfg.max_per_tag { return; }
        let inputs = self.inputs(st);
        let stack = self.stack(st);
        self.viol.push(Violation { tag: tag.into(), detail: detail.into(), inputs, stack });
    }
    fn end(&mut self, st: &State, why: &str) {
        self.st.paths += 1;
        *self.ends.entry(why.to_string()).or_insert(0) += 1;
        self.st.max_vars = self.st.max_vars.max(st.vars.len() as u64);
        self.st.max_path_steps = self.st.max_path_steps.max(st.steps);
        self.seen_samples += 1;
        let k = self.cfg.samples;
        if k == 0 { return; }
        // deterministic reservoir
        let n = self.seen_samples;
        let slot = if self.samples.len() < k { self.samples.len() } else { let h = n.wrapping_mul(0x9E3779B97F4A7C15) >> 20; let j = (h % n) as usize; if j >= k { return; } j };
        let inputs = self.inputs(st);
        let obs = st.obs.clone();
        let obs = obs.iter().map(|v| match v { V::C(c) => *c, V::S(t) => self.ts.eval(*t, &st.model), _ => 0 }).collect();
        let s = Sample { inputs, obs, end: why.to_string() };
        if slot == self.samples.len() { self.samples.push(s); } else { self.samples[slot] = s; }
    }

    /// run one state to the end of its path, pushing the alternatives met on the way
    pub fn run(&mut self, mut st: State, out: &mut Vec<State>) {
        let m = self.m.clone();
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xfff == 0 {
                if Instant::now() > self.cfg.deadline { self.timed_out = true; return; }
                if st.steps > self.cfg.max_steps { self.violation(&st, "step-limit", &format!("more than {} instructions on one path", self.cfg.max_steps)); self.end(&st, "step-limit"); return; }
            }
            st.steps += 1;
            self.st.instrs += 1;
            match self.step(&m, &mut st, out) {
                Ok(true) => {}
                Ok(false) => { self.end(&st, "done"); return; }
                Err(Stop::End(w)) => { if w == "assume" { self.st.assumed_out += 1; } else { self.end(&st, &w); } return; }
                Err(Stop::Err(e)) => { let s = self.stack(&st); let cur = st.frames.last().map(|f| m.funcs[f.f as usize].name.clone()).unwrap_or_default(); self.errors.push(format!("{} in {} [{}]", e, pretty(&cur), s)); return; }
                Err(Stop::Viol(t, d)) => {
                    self.violation(&st, &t, &d);
                    self.end(&st, &format!("violation:{}", t));
                    return;
                }
                Err(Stop::Conc(t)) => {
                    self.st.concretized += 1;
                    let v = self.ts.eval(t, &st.model);
                    let c = self.ts.cst(v, self.ts.w(t));
                    let eq = self.ts.bin(Op::Eq, t, c);
                    let ne = self.ts.not1(eq);
                    if let Ans::Sat(pm) = self.feasible(&st, ne) {
                        let mut o = st.clone();
                        self.with_model(&mut o, &pm);
                        self.add_pc(&mut o, ne);
                        o.depth += 1;
                        self.st.forks += 1;
                        out.push(o);
                    }
                    self.add_pc(&mut st, eq);
                    st.known.push((t, v));
                }
            }
        }
    }
    fn get(&self, st: &State, o: &Opnd) -> V { match o { Opnd::Const(v) => v.clone(), Opnd::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone() } }
    fn set(&self, st: &mut State, d: u32, v: V) { let fr = Rc::make_mut(st.frames.last_mut().unwrap()); fr.regs[d as usize] = v; fr.pc += 1; }
    fn next(&self, st: &mut State) { Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1; }
    fn goto(&mut self, m: &Module, st: &mut State, b: u32) {
        let (f, prev) = { let fr = st.frames.last().unwrap(); (fr.f, fr.blk) };
        let blk = &m.funcs[f as usize].blocks[b as usize];
        self.covered[f as usize][b as usize] = true;
        if blk.phis.is_empty() { let fr = Rc::make_mut(st.frames.last_mut().unwrap()); fr.blk = b; fr.pc = 0; return; }
        let mut vals = Vec::with_capacity(blk.phis.len());
        for (d, inc) in &blk.phis { let o = &inc.iter().find(|x| x.0 == prev).expect("phi").1; vals.push((*d, self.get(st, o))); }
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        for (d, v) in vals { fr.regs[d as usize] = v; }
        fr.blk = b; fr.pc = 0;
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::A(x), V::A(y)) = (a, b) { let (x, y) = (x.clone(), y.clone()); return V::A(Rc::new(x.iter().zip(y.iter()).map(|(p1, q)| self.icmp(p, w, p1, q)).collect())); }
        match p {
            Pred::Eq => self.bin(Op::Eq, w, a, b),
            Pred::Ne => { let r = self.bin(Op::Eq, w, a, b); self.not1(&r) }
            Pred::Ult => self.bin(Op::Ult, w, a, b), Pred::Ule => self.bin(Op::Ule, w, a, b),
            Pred::Ugt => self.bin(Op::Ult, w, b, a), Pred::Uge => self.bin(Op::Ule, w, b, a),
            Pred::Slt => self.bin(Op::Slt, w, a, b), Pred::Sle => self.bin(Op::Sle, w, a, b),
            Pred::Sgt => self.bin(Op::Slt, w, b, a), Pred::Sge => self.bin(Op::Sle, w, b, a),
        }
    }
    fn ebits(m: &Module, ty: TyId) -> u32 { match m.t(ty) { Ty::Vector(_, e) => m.bits(*e), _ => m.bits(ty) } }
    fn cast1(&mut self, op: CastOp, fw: u32, tw: u32, v: &V) -> R<V> {
        Ok(match (op, v) {
            (CastOp::Same, _) => v.clone(),
            (CastOp::Trunc, V::C(c)) => mk(*c, tw),
            (CastOp::ZExt, V::C(_)) => v.clone(),
            (CastOp::SExt, V::C(c)) => mk(sx(*c, fw as u16) as u128, tw),
            (CastOp::Trunc, V::S(t)) => { let r = self.ts.extract(*t, 0, tw as u16); self.val(r) }
            (CastOp::ZExt, V::S(t)) => { let r = self.ts.zext(*t, tw as u16); self.val(r) }
            (CastOp::SExt, V::S(t)) => { let r = self.ts.sext(*t, tw as u16); self.val(r) }
            (CastOp::UiToFp, V::C(c)) => if tw == 64 { V::C((*c as f64).to_bits() as u128) } else { V::C((*c as f32).to_bits() as u128) },
            (CastOp::SiToFp, V::C(c)) => { let x = sx(*c, fw as u16); if tw == 64 { V::C((x as f64).to_bits() as u128) } else { V::C((x as f32).to_bits() as u128) } }
            (CastOp::FpToUi, V::C(c)) => { let x = if fw == 64 { f64::from_bits(*c as u64) } else { f32::from_bits(*c as u32) as f64 }; mk(x as u128, tw) }
            (CastOp::FpToSi, V::C(c)) => { let x = if fw == 64 { f64::from_bits(*c as u64) } else { f32::from_bits(*c as u32) as f64 }; mk(x as i128 as u128, tw) }
            (CastOp::FpExt, V::C(c)) => V::C((f32::from_bits(*c as u32) as f64).to_bits() as u128),
            (CastOp::FpTrunc, V::C(c)) => V::C((f64::from_bits(*c as u64) as f32).to_bits() as u128),
            (_, V::S(t)) => return Err(Stop::Conc(*t)),
            (CastOp::BitCast, V::C(_)) => v.clone(),
            (_, V::A(_)) => return Err(Stop::Err("cast of aggregate".into())),
        })
    }
    fn bitcast(&mut self, m: &Module, from: TyId, to: TyId, v: &V) -> R<V> {
        // through one wide term
        let whole = match v {
            V::A(vs) => { let e = m.elem(from, 0); let w = m.bits(e); let mut acc: Option<T> = None; for x in vs.iter() { let t = self.term(x, w); acc = Some(match acc { None => t, Some(a) => self.ts.concat(t, a) }); } acc.unwrap() }
            _ => { let w = m.bits(from); self.term(v, w) }
        };
        match m.t(to) {
            Ty::Vector(n, e) => { let w = m.bits(*e); let mut r = vec![]; for k in 0..*n { let x = self.ts.extract(whole, (k * w) as u16, w as u16); r.push(self.val(x)); } Ok(V::A(Rc::new(r))) }
            _ => Ok(self.val(whole)),
        }
    }
    fn branch(&mut self, m: &Module, st: &mut State, c: T, a: u32, b: u32, out: &mut Vec<State>) {
        let v = self.ts.eval(c, &st.model);
        let (taken, other) = if v == 1 { (a, b) } else { (b, a) };
        let n = self.ts.not1(c);
        let (ct, co) = if v == 1 { (c, n) } else { (n, c) };
        if let Ans::Sat(pm) = self.feasible(st, co) {
            let mut o = st.clone();
            self.with_model(&mut o, &pm);
            self.add_pc(&mut o, co);
            o.depth += 1;
            self.goto(m, &mut o, other);
            self.st.forks += 1;
            out.push(o);
            self.add_pc(st, ct);
        }
        self.goto(m, st, taken);
    }
    fn step(&mut self, m: &Module, st: &mut State, out: &mut Vec<State>) -> R<bool> {
        let (f, blk, pc) = { let fr = st.frames.last().unwrap(); (fr.f, fr.blk, fr.pc) };
        let inst = &m.funcs[f as usize].blocks[blk as usize].insts[pc as usize];
        match inst {
            Inst::Bin { op, ty, dst, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let w = Self::ebits(m, *ty);
                let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr,
                    _ => {
                        let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                        let r = if w == 64 { let (p, q) = (f64::from_bits(x as u64), f64::from_bits(y as u64)); (match op { BinOp::FAdd => p + q, BinOp::FSub => p - q, BinOp::FMul => p * q, BinOp::FDiv => p / q, _ => p % q }).to_bits() as u128 } else { let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match op { BinOp::FAdd => p + q, BinOp::FSub => p - q, BinOp::FMul => p * q, BinOp::FDiv => p / q, _ => p % q }).to_bits() as u128 };
                        self.set(st, *dst, V::C(r));
                        return Ok(true);
                    } };
                if w > 128 { return Err(Stop::Err(format!("{}-bit arithmetic", w))); }
                let r = self.bin(o, w, &x, &y);
                self.set(st, *dst, r);
            }
            Inst::ICmp { pred, ty, dst, a, b } => { let (x, y) = (self.get(st, a), self.get(st, b)); let w = Self::ebits(m, *ty); let r = self.icmp(*pred, w, &x, &y); self.set(st, *dst, r); }
            Inst::FCmp { pred, ty, dst, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                let (p, q) = if m.bits(*ty) == 64 { (f64::from_bits(x as u64), f64::from_bits(y as u64)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                let un = p.is_nan() || q.is_nan();
                let r = match pred.as_str() { "oeq" => p == q, "ogt" => p > q, "oge" => p >= q, "olt" => p < q, "ole" => p <= q, "one" => !un && p != q, "ord" => !un, "uno" => un, "ueq" => un || p == q, "ugt" => un || p > q, "uge" => un || p >= q, "ult" => un || p < q, "ule" => un || p <= q, "une" => p != q, _ => pred == "true" };
                self.set(st, *dst, V::C(r as u128));
            }
            Inst::FNeg { ty, dst, a } => { let x = self.get(st, a); let x = self.conc(st, &x)?; let w = m.bits(*ty); self.set(st, *dst, V::C(x ^ (1u128 << (w - 1)))); }
            Inst::Cast { op, from, to, dst, a } => {
                let x = self.get(st, a);
                let r = if *op == CastOp::BitCast { if m.bits(*from) > 128 { return Err(Stop::Err("wide bitcast".into())); } self.bitcast(m, *from, *to, &x)? }
                else if let V::A(vs) = &x { let (fw, tw) = (Self::ebits(m, *from), Self::ebits(m, *to)); let mut r = vec![]; for v in vs.iter() { r.push(self.cast1(*op, fw, tw, v)?); } V::A(Rc::new(r)) }
                else {
                    let x = if matches!(op, CastOp::FpToUi | CastOp::FpToSi | CastOp::UiToFp | CastOp::SiToFp | CastOp::FpExt | CastOp::FpTrunc) { V::C(self.conc(st, &x)?) } else { x };
                    self.cast1(*op, m.bits(*from), m.bits(*to), &x)?
                };
                self.set(st, *dst, r);
            }
            Inst::Select { ty, cty: _, dst, c, a, b } => { let (c, x, y) = (self.get(st, c), self.get(st, a), self.get(st, b)); let r = self.ite(m, *ty, &c, &x, &y); self.set(st, *dst, r); }
            Inst::Load { ty, dst, p } => {
                let p = self.get(st, p);
                let v = match &p {
                    V::C(a) => self.load(m, st, *ty, *a as u64)?,
                    V::S(t) => { match self.conc(st, &p) { Ok(a) => self.load(m, st, *ty, a as u64)?, Err(_) => self.sym_load(m, st, *ty, *t)? } }
                    _ => return Err(Stop::Err("vector of pointers".into())),
                };
                self.set(st, *dst, v);
            }
            Inst::Store { ty, v, p } => { let p = self.get(st, p); let a = self.conc(st, &p)? as u64; let v = self.get(st, v); self.store(m, st, *ty, &v, a)?; self.next(st); }
            Inst::Gep { dst, base, off, var } => {
                let mut r = self.get(st, base);
                if let V::A(_) = r { return Err(Stop::Err("vector gep".into())); }
                if *off != 0 { r = self.bin(Op::Add, 64, &r, &V::C(*off as u64 as u128)); }
                for (o, ty, scale) in var {
                    let i = self.get(st, o);
                    let w = m.bits(*ty);
                    let i = if w < 64 { self.cast1(CastOp::SExt, w, 64, &i)? } else if w > 64 { self.cast1(CastOp::Trunc, w, 64, &i)? } else { i };
                    let x = self.bin(Op::Mul, 64, &i, &V::C(*scale as u64 as u128));
                    r = self.bin(Op::Add, 64, &r, &x);
                }
                self.set(st, *dst, r);
            }
            Inst::Alloca { dst, size, n } => {
                let n = self.get(st, n); let n = self.conc(st, &n)? as u64;
                let a = self.alloc(st, size * n)?;
                let id = (a >> 32) as u32 - 1;
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.allocas.push(id);
                fr.regs[*dst as usize] = V::C(a as u128);
                fr.pc += 1;
            }
            Inst::Call { dst, ret, callee, args, aty, normal } => return self.call(m, st, *dst, *ret, callee, args, aty, *normal, out),
            Inst::ExtractValue { dst, a, idx } => { let mut v = self.get(st, a); for i in idx { v = match &v { V::A(x) => x[*i as usize].clone(), _ => return Err(Stop::Err("extractvalue".into())) }; } self.set(st, *dst, v); }
            Inst::InsertValue { dst, a, v, idx } => { let x = self.get(st, a); let y = self.get(st, v); let r = insertv(&x, &y, idx); self.set(st, *dst, r); }
            Inst::ExtractElement { dst, a, i } => { let x = self.get(st, a); let i = self.get(st, i); let i = self.conc(st, &i)? as usize; match &x { V::A(v) => { let r = v[i].clone(); self.set(st, *dst, r) } _ => return Err(Stop::Err("extractelement".into())) } }
            Inst::InsertElement { dst, a, v, i } => { let x = self.get(st, a); let y = self.get(st, v); let i = self.get(st, i); let i = self.conc(st, &i)? as u32; let r = insertv(&x, &y, &[i]); self.set(st, *dst, r); }
            Inst::Shuffle { dst, a, b, m: mask } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                if let (V::A(x), V::A(y)) = (&x, &y) { let n = x.len(); let r = mask.iter().map(|&k| if (k as usize) < n { x[k as usize].clone() } else { y[(k as usize - n).min(y.len() - 1)].clone() }).collect(); self.set(st, *dst, V::A(Rc::new(r))); } else { return Err(Stop::Err("shuffle".into())); }
            }
            Inst::Freeze { dst, a } => { let x = self.get(st, a); self.set(st, *dst, x); }
            Inst::AtomicRmw { op, ty, dst, p, v } => {
                let p = self.get(st, p); let a = self.conc(st, &p)? as u64;
                let old = self.load(m, st, *ty, a)?; let v = self.get(st, v); let w = m.bits(*ty);
                let nv = match op.as_str() { "xchg" => v, "add" => self.bin(Op::Add, w, &old, &v), "sub" => self.bin(Op::Sub, w, &old, &v), "and" => self.bin(Op::And, w, &old, &v), "or" => self.bin(Op::Or, w, &old, &v), "xor" => self.bin(Op::Xor, w, &old, &v),
                    "umax" | "umin" => { let c = self.bin(Op::Ult, w, &old, &v); if op == "umax" { self.ite(m, *ty, &c, &v, &old) } else { self.ite(m, *ty, &c, &old, &v) } }
                    o => return Err(Stop::Err(format!("atomicrmw {}", o))) };
                self.store(m, st, *ty, &nv, a)?;
                self.set(st, *dst, old);
            }
            Inst::CmpXchg { ty, dst, p, c, n } => {
                let p = self.get(st, p); let a = self.conc(st, &p)? as u64;
                let old = self.load(m, st, *ty, a)?; let (c, n) = (self.get(st, c), self.get(st, n)); let w = m.bits(*ty);
                let eq = self.bin(Op::Eq, w, &old, &c);
                let nv = self.ite(m, *ty, &eq, &n, &old);
                self.store(m, st, *ty, &nv, a)?;
                self.set(st, *dst, V::A(Rc::new(vec![old, eq])));
            }
            Inst::Br(b) => self.goto(m, st, *b),
            Inst::CondBr(c, a, b) => { let c = self.get(st, c); match c { V::C(x) => self.goto(m, st, if x == 1 { *a } else { *b }), V::S(t) => self.branch(m, st, t, *a, *b, out), _ => return Err(Stop::Err("br".into())) } }
            Inst::Switch { ty, v, def, cases } => {
                let v = self.get(st, v);
                match &v {
                    V::C(x) => { let t = cases.iter().find(|c| c.0 == *x).map_or(*def, |c| c.1); self.goto(m, st, t); }
                    V::S(t) => {
                        let w = m.bits(*ty);
                        let x = self.ts.eval(*t, &st.model);
                        let tgt = cases.iter().find(|c| c.0 == x).map_or(*def, |c| c.1);
                        let mut groups: Vec<(u32, T)> = vec![];
                        let mut any = self.ts.cst(0, 1);
                        for (c, b) in cases {
                            let k = self.ts.cst(*c, w as u16);
                            let e = self.ts.bin(Op::Eq, *t, k);
                            any = self.ts.or1(any, e);
                            match groups.iter_mut().find(|g| g.0 == *b) { Some(g) => g.1 = self.ts.or1(g.1, e), None => groups.push((*b, e)) }
                        }
                        let d = self.ts.not1(any);
                        match groups.iter_mut().find(|g| g.0 == *def) { Some(g) => g.1 = self.ts.or1(g.1, d), None => groups.push((*def, d)) }
                        let mut mine = 0;
                        let mut forked = false;
                        for (b, c) in groups {
                            if b == tgt { mine = c; continue; }
                            if let Ans::Sat(pm) = self.feasible(st, c) {
                                let mut o = st.clone();
                                self.with_model(&mut o, &pm);
                                self.add_pc(&mut o, c);
                                o.depth += 1;
                                self.goto(m, &mut o, b);
                                self.st.forks += 1;
                                out.push(o);
                                forked = true;
                            }
                        }
                        if forked { self.add_pc(st, mine); }
                        self.goto(m, st, tgt);
                    }
                    _ => return Err(Stop::Err("switch".into())),
                }
            }
            Inst::Ret(o) => {
                let v = o.as_ref().map(|o| self.get(st, o));
                let fr = st.frames.pop().unwrap();
                let ng = self.gobj.len() as u32;
                for &id in fr.allocas.iter().rev() { st.mem[(id - ng) as usize] = None; st.free.push(id - ng); }
                if st.frames.is_empty() { return Ok(false); }
                if let (Some(d), Some(v)) = (fr.dst, v) { Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = v; }
                match fr.normal { Some(b) => self.goto(m, st, b), None => self.next(st) }
            }
            Inst::Unreachable => return Err(Stop::Viol("unreachable".into(), "reached an unreachable instruction".into())),
            Inst::Nop => self.next(st),
            Inst::Unsupported(s) => return Err(Stop::Err(format!("unsupported instruction {}", s))),
        }
        Ok(true)
    }
    fn fin(&mut self, m: &Module, st: &mut State, dst: Option<u32>, normal: Option<u32>, v: V) -> R<bool> {
        if let Some(d) = dst { Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = v; }
        match normal { Some(b) => self.goto(m, st, b), None => self.next(st) }
        Ok(true)
    }
    fn panic_stop(&mut self, st: &State, args: &[V]) -> Stop {
        // the location is the last argument: { file ptr, file len, line, col }
        let mut d = String::from("panic");
        if let Some(V::C(l)) = args.last() {
            let l = *l as u64;
            if let (Ok(V::C(p)), Ok(V::C(n)), Ok(V::C(line)), Ok(V::C(col))) = (self.load_bytes(st, l, 8, 64), self.load_bytes(st, l + 8, 8, 64), self.load_bytes(st, l + 16, 4, 32), self.load_bytes(st, l + 20, 4, 32)) {
                let s = self.str_at(st, p as u64, n as u64);
                d = format!("panic at {}:{}:{}", s, line, col);
            }
        }
        if st.panic_ok { self.st.panics_ok += 1; return Stop::End("panic".into()); }
        Stop::Viol("panic".into(), d)
    }
    #[allow(clippy::too_many_arguments)]
    fn call(&mut self, m: &Module, st: &mut State, dst: Option<u32>, ret: TyId, callee: &Callee, args: &[Opnd], aty: &[TyId], normal: Option<u32>, out: &mut Vec<State>) -> R<bool> {
        let av: Vec<V> = args.iter().map(|a| self.get(st, a)).collect();
        let f = match callee {
            Callee::Fn(f) => *f,
            Callee::Ptr(p) => {
                let p = self.get(st, p);
                let a = self.conc(st, &p)? as u64;
                if a < FN_BASE || (a - FN_BASE) % 16 != 0 || (a - FN_BASE) / 16 >= m.funcs.len() as u64 { return Err(Stop::Viol("memory".into(), format!("call of {:#x}", a))); }
                ((a - FN_BASE) / 16) as u32
            }
            Callee::Asm(_) => { let z = m.zero(ret); return self.fin(m, st, dst, normal, z); }
        };
        let h = self.hooks[f as usize];
        let c = |e: &mut Eng, k: usize| -> R<u64> { let v = av[k].clone(); Ok(e.conc(st, &v)? as u64) };
        match h {
            Hook::None => {
                let fu = &m.funcs[f as usize];
                if !fu.defined { return Err(Stop::Err(format!("call of undefined function {}", fu.name))); }
                if st.frames.len() > 3000 { return Err(Stop::Viol("stack-depth".into(), "more than 3000 nested calls".into())); }
                let fr = self.mkframe(f, av, dst, normal);
                st.frames.push(Rc::new(fr));
                Ok(true)
            }
            Hook::Sym(k) => {
                match SYMS[k as usize] {
                    "__sym_bits" => {
                        let w = c(self, 0)?;
                        let t = self.ts.var(st.vars.len() as u32, w as u16);
                        st.vars.push(t);
                        let r = self.ts.zext(t, 64);
                        let v = self.val(r);
                        self.fin(m, st, dst, normal, v)
                    }
                    "__sym_assume" => {
                        let t = self.nonzero(&av[0], m.bits(aty[0]));
                        match t {
                            V::C(0) => return Err(Stop::End("assume".into())),
                            V::C(_) => {}
                            V::S(t) => match self.feasible(st, t) { Ans::Sat(pm) => { if !pm.is_empty() { self.with_model(st, &pm); } self.add_pc(st, t); } _ => return Err(Stop::End("assume".into())) },
                            _ => {}
                        }
                        self.fin(m, st, dst, normal, V::C(0))
                    }
                    "__sym_check" => {
                        let (p, n) = (c(self, 1)?, c(self, 2)?);
                        let tag = self.str_at(st, p, n);
                        self.st.checks += 1;
                        let t = self.nonzero(&av[0], m.bits(aty[0]));
                        let e = self.tags.entry(tag.clone()).or_insert((0, 0));
                        e.0 += 1;
                        match t {
                            V::C(0) => return Err(Stop::Viol(tag, "check fails".into())),
                            V::C(_) => {}
                            V::S(t) => {
                                self.st.checks_sym += 1;
                                self.tags.get_mut(&tag).unwrap().1 += 1;
                                let neg = self.ts.not1(t);
                                match self.feasible(st, neg) {
                                    Ans::Unsat => {}
                                    Ans::Unknown => {}
                                    Ans::Sat(pm) => {
                                        let mut o = st.clone();
                                        if !pm.is_empty() { self.with_model(&mut o, &pm); }
                                        self.add_pc(&mut o, neg);
                                        self.violation(&o, &tag, "check fails");
                                        match self.feasible(st, t) { Ans::Sat(pm) => { if !pm.is_empty() { self.with_model(st, &pm); } self.add_pc(st, t); } _ => { return Err(Stop::End(format!("violation:{}", tag))) } }
                                    }
                                }
                            }
                            _ => {}
                        }
                        self.fin(m, st, dst, normal, V::C(0))
                    }
                    "__sym_observe" => { st.obs.push(av[0].clone()); self.fin(m, st, dst, normal, V::C(0)) }
                    "__sym_conc" => { let x = c(self, 0)?; self.fin(m, st, dst, normal, V::C(x as u128)) }
                    "__sym_end" => Err(Stop::End("end".into())),
                    "__sym_panic_ok" => { let x = c(self, 0)?; st.panic_ok = x != 0; self.fin(m, st, dst, normal, V::C(0)) }
                    "__sym_is_engine" => self.fin(m, st, dst, normal, V::C(1)),
                    "__sym_model" => { let x = match &av[0] { V::S(t) => self.ts.eval(*t, &st.model), V::C(c) => *c, _ => 0 }; self.fin(m, st, dst, normal, V::C(x)) }
                    "__sym_trace" => { let (p, n) = (c(self, 0)?, c(self, 1)?); let s = self.str_at(st, p, n); let v = match &av[2] { V::C(x) => format!("{}", x), V::S(t) => format!("sym({})", self.ts.eval(*t, &st.model)), _ => "agg".into() }; if self.cfg.trace { eprintln!("trace {} {}", s, v); } self.fin(m, st, dst, normal, V::C(0)) }
                    _ => unreachable!(),
                }
            }
            Hook::Panic => Err(self.panic_stop(st, &av)),
            Hook::PanicNoUnwind => Err(Stop::Viol("abort".into(), pretty(&m.funcs[f as usize].name))),
            Hook::Abort => Err(Stop::Viol("abort".into(), "process abort/exit".into())),
            Hook::Alloc | Hook::AllocZ | Hook::Malloc => { let n = c(self, 0)?; let a = self.alloc(st, n)?; self.fin(m, st, dst, normal, V::C(a as u128)) }
            Hook::Calloc => { let n = c(self, 0)? * c(self, 1)?; let a = self.alloc(st, n)?; self.fin(m, st, dst, normal, V::C(a as u128)) }
            Hook::PosixMemalign => { let p = c(self, 0)?; let n = c(self, 2)?; let a = self.alloc(st, n)?; let (o, off) = self.obj_mut(st, p, 8)?; o.data[off..off + 8].copy_from_slice(&a.to_le_bytes()); self.fin(m, st, dst, normal, V::C(0)) }
            Hook::Dealloc | Hook::Free => { let a = c(self, 0)?; self.dealloc(st, a)?; self.fin(m, st, dst, normal, V::C(0)) }
            Hook::Realloc | Hook::CRealloc => {
                let a = c(self, 0)?;
                let n = if h == Hook::Realloc { c(self, 3)? } else { c(self, 1)? };
                if a == 0 { let a = self.alloc(st, n)?; return self.fin(m, st, dst, normal, V::C(a as u128)); }
                if n > 1 << 27 { return Err(Stop::Viol("memory".into(), format!("allocation of {} bytes", n))); }
                let (o, _) = self.obj_mut(st, a, 0)?;
                o.data.resize(n as usize, 0);
                if !o.sym.is_empty() { o.sym.resize(n as usize, (0, 0)); }
                self.fin(m, st, dst, normal, V::C(a as u128))
            }
            Hook::Memcmp | Hook::Bcmp => {
                let (p, q, n) = (c(self, 0)?, c(self, 1)?, c(self, 2)?);
                let x = self.bytes(st, p, n as usize)?;
                let y = self.bytes(st, q, n as usize)?;
                let r = self.memcmp(&x, &y, h == Hook::Bcmp);
                self.fin(m, st, dst, normal, r)
            }
            Hook::Memcpy => { let (d, s, n) = (c(self, 0)?, c(self, 1)?, c(self, 2)?); self.copy(st, d, s, n)?; self.fin(m, st, dst, normal, V::C(d as u128)) }
            Hook::Memset => { let (d, n) = (c(self, 0)?, c(self, 2)?); let b = match &av[1] { V::C(x) => mk(*x, 8), v => self.cast1(CastOp::Trunc, 32, 8, v)? }; self.memset(m, st, d, &b, n)?; self.fin(m, st, dst, normal, V::C(d as u128)) }
            Hook::Strlen => {
                let p = c(self, 0)?;
                let mut n = 0u64;
                loop { let v = self.load_bytes(st, p + n, 1, 8)?; let x = self.conc(st, &v)?; if x == 0 { break; } n += 1; }
                self.fin(m, st, dst, normal, V::C(n as u128))
            }
            Hook::Nop | Hook::Ret0 => { let z = if *m.t(ret) == Ty::Void { V::C(0) } else { m.zero(ret) }; self.fin(m, st, dst, normal, z) }
            Hook::RetNeg1 => { let w = m.bits(ret); self.fin(m, st, dst, normal, mk(!0, w)) }
            Hook::Write => { let r = av[2].clone(); self.fin(m, st, dst, normal, r) }
            Hook::RandKeys => self.fin(m, st, dst, normal, V::A(Rc::new(vec![V::C(0x0123456789abcdef), V::C(0xfedcba9876543210)]))),
            Hook::Intr(k) => { let v = self.intrinsic(m, st, k, ret, &av, aty, out)?; self.fin(m, st, dst, normal, v) }
        }
    }
    fn nonzero(&mut self, v: &V, w: u32) -> V { let e = self.bin(Op::Eq, w, v, &V::C(0)); self.not1(&e) }
    fn memset(&mut self, _m: &Module, st: &mut State, d: u64, b: &V, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (o, off) = self.obj_mut(st, d, n)?;
        match b {
            V::C(x) => { for k in 0..n as usize { o.data[off + k] = *x as u8; } if !o.sym.is_empty() { for k in 0..n as usize { o.sym[off + k] = (0, 0); } } }
            V::S(t) => { if o.sym.is_empty() { o.sym = vec![(0, 0); o.data.len()]; } for k in 0..n as usize { o.sym[off + k] = (*t, 0); } }
            _ => {}
        }
        Ok(())
    }
    fn memcmp(&mut self, x: &[V], y: &[V], eqonly: bool) -> V {
        if eqonly {
            let mut all = self.ts.cst(1, 1);
            for (a, b) in x.iter().zip(y) { let e = self.bin(Op::Eq, 8, a, b); match e { V::C(0) => return V::C(1), V::C(_) => {} V::S(t) => all = self.ts.and1(all, t), _ => {} } }
            let (z, o) = (self.ts.cst(0, 32), self.ts.cst(1, 32));
            let r = self.ts.ite(all, z, o);
            return self.val(r);
        }
        let mut acc = self.ts.cst(0, 32);
        for (a, b) in x.iter().zip(y).rev() {
            let (p, q) = (self.term(a, 8), self.term(b, 8));
            let e = self.ts.bin(Op::Eq, p, q);
            let l = self.ts.bin(Op::Ult, p, q);
            let (mn, on) = (self.ts.cst(0xffff_ffff, 32), self.ts.cst(1, 32));
            let d = self.ts.ite(l, mn, on);
            acc = self.ts.ite(e, acc, d);
        }
        self.val(acc)
    }
    #[allow(clippy::too_many_arguments)]
    fn intrinsic(&mut self, m: &Module, st: &mut State, k: u16, ret: TyId, av: &[V], aty: &[TyId], _out: &mut Vec<State>) -> R<V> {
        let name = self.inames[k as usize].clone();
        let n = &name["llvm.".len()..];
        let z = V::C(0);
        if n.starts_with("lifetime.") || n.starts_with("dbg.") || n.starts_with("invariant.") || n.starts_with("donothing") || n.starts_with("sideeffect") || n.starts_with("experimental.noalias") || n.starts_with("stackrestore") || n.starts_with("prefetch") || n.starts_with("x86.sse2.pause") { return Ok(z); }
        if n.starts_with("stacksave") { return Ok(z); }
        if n.starts_with("assume") { return Ok(z); }
        if n.starts_with("expect") || n.starts_with("launder.invariant") || n.starts_with("strip.invariant") || n.starts_with("threadlocal.address") || n.starts_with("ssa.copy") { return Ok(av[0].clone()); }
        if n.starts_with("is.constant") { return Ok(V::C(0)); }
        if n.starts_with("trap") || n.starts_with("ubsantrap") || n.starts_with("debugtrap") { return Err(Stop::Viol("abort".into(), "trap".into())); }
        if n.starts_with("memcpy.") || n.starts_with("memmove.") || n.starts_with("memcpy.inline") {
            let len = self.conc(st, &av[2])? as u64; if len == 0 { return Ok(z); }
            let (d, s) = (self.conc(st, &av[0])? as u64, self.conc(st, &av[1])? as u64);
            self.copy(st, d, s, len)?; return Ok(z);
        }
        if n.starts_with("memset.") { let len = self.conc(st, &av[2])? as u64; if len == 0 { return Ok(z); } let d = self.conc(st, &av[0])? as u64; self.memset(m, st, d, &av[1], len)?; return Ok(z); }
        if n.starts_with("experimental.constrained") || n.starts_with("x86.") { return self.x86(n, av); }
        if n.starts_with("vector.reduce.") {
            let e = m.elem(aty[0], 0); let w = m.bits(e);
            if let V::A(v) = &av[0] {
                let op = n["vector.reduce.".len()..].split('.').next().unwrap();
                let mut acc = v[0].clone();
                for x in &v[1..] { acc = match op { "add" => self.bin(Op::Add, w, &acc, x), "mul" => self.bin(Op::Mul, w, &acc, x), "and" => self.bin(Op::And, w, &acc, x), "or" => self.bin(Op::Or, w, &acc, x), "xor" => self.bin(Op::Xor, w, &acc, x), "umax" | "umin" | "smax" | "smin" => self.minmax(m, e, op, &acc, x), o => return Err(Stop::Err(format!("reduce {}", o))) }; }
                return Ok(acc);
            }
        }
        // element-wise for vectors
        if let (Some(V::A(_)), Ty::Vector(cnt, e)) = (av.first(), m.t(ret)) {
            let (cnt, e) = (*cnt as usize, *e);
            let mut r = vec![];
            for i in 0..cnt {
                let a: Vec<V> = av.iter().map(|v| match v { V::A(x) => x[i].clone(), o => o.clone() }).collect();
                let at: Vec<TyId> = aty.iter().map(|t| match m.t(*t) { Ty::Vector(_, e) => *e, _ => *t }).collect();
                r.push(self.intrinsic(m, st, k, e, &a, &at, _out)?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        let w = if aty.is_empty() { 64 } else { match m.t(aty[0]) { Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => m.bits(aty[0]), _ => 64 } };
        if n.contains(".with.overflow") {
            let op = n.split('.').next().unwrap();
            let (a, b) = (&av[0], &av[1]);
            let (r, o) = match op {
                "uadd" => { let r = self.bin(Op::Add, w, a, b); let o = self.bin(Op::Ult, w, &r, a); (r, o) }
                "usub" => { let r = self.bin(Op::Sub, w, a, b); let o = self.bin(Op::Ult, w, a, b); (r, o) }
                "umul" | "smul" | "sadd" | "ssub" => {
                    let sg = op.starts_with('s');
                    let ww = if op.ends_with("mul") { 2 * w } else { w + 1 };
                    if ww > 128 { // 128-bit operands: concrete only
                        let (x, y) = (self.conc(st, a)?, self.conc(st, b)?);
                        let (r, o) = x.overflowing_mul(y);
                        return Ok(V::A(Rc::new(vec![V::C(r), V::C(o as u128)])));
                    }
                    let ext = if sg { CastOp::SExt } else { CastOp::ZExt };
                    let (x, y) = (self.cast1(ext, w, ww, a)?, self.cast1(ext, w, ww, b)?);
                    let big = self.bin(if op.ends_with("mul") { Op::Mul } else if op == "sadd" { Op::Add } else { Op::Sub }, ww, &x, &y);
                    let r = self.cast1(CastOp::Trunc, ww, w, &big)?;
                    let back = self.cast1(ext, w, ww, &r)?;
                    let e = self.bin(Op::Eq, ww, &back, &big);
                    let o = self.not1(&e);
                    (r, o)
                }
                _ => return Err(Stop::Err(name.clone())),
            };
            return Ok(V::A(Rc::new(vec![r, o])));
        }
        let head = n.split('.').next().unwrap();
        match head {
            "umax" | "umin" | "smax" | "smin" => Ok(self.minmax(m, ret, head, &av[0], &av[1])),
            "uadd" | "usub" if n.contains(".sat") => {
                let ty = ret;
                if head == "uadd" { let r = self.bin(Op::Add, w, &av[0], &av[1]); let o = self.bin(Op::Ult, w, &r, &av[0]); Ok(self.ite(m, ty, &o, &mk(!0, w), &r)) }
                else { let r = self.bin(Op::Sub, w, &av[0], &av[1]); let o = self.bin(Op::Ult, w, &av[0], &av[1]); Ok(self.ite(m, ty, &o, &V::C(0), &r)) }
            }
            "sadd" | "ssub" if n.contains(".sat") => {
                // exact in twice the width, then clamped
                let ww = 2 * w;
                let (x, y) = (self.cast1(CastOp::SExt, w, ww, &av[0])?, self.cast1(CastOp::SExt, w, ww, &av[1])?);
                let r = self.bin(if head == "sadd" { Op::Add } else { Op::Sub }, ww, &x, &y);
                let max = mk((1u128 << (w - 1)) - 1, ww); let min = mk((1u128 << (w - 1)).wrapping_neg(), ww);
                let hi = self.bin(Op::Slt, ww, &max, &r); let lo = self.bin(Op::Slt, ww, &r, &min);
                let pick = |s: &mut Self, c: &V, a: &V, b: &V| -> V { match c { V::C(1) => a.clone(), V::C(_) => b.clone(), c => { let c = s.term(c, 1); let (a, b) = (s.term(a, ww), s.term(b, ww)); let r = s.ts.ite(c, a, b); s.val(r) } } };
                let r = pick(self, &lo, &min, &r); let r = pick(self, &hi, &max, &r);
                self.cast1(CastOp::Trunc, ww, w, &r)
            }
            "ctpop" => match &av[0] {
                V::C(x) => Ok(V::C(x.count_ones() as u128)),
                v => { let t = self.term(v, w); let mut acc = self.ts.cst(0, w as u16); for i in 0..w { let b = self.ts.extract(t, i as u16, 1); let b = self.ts.zext(b, w as u16); acc = self.ts.bin(Op::Add, acc, b); } Ok(self.val(acc)) }
            },
            "ctlz" | "cttz" => match &av[0] {
                V::C(x) => Ok(V::C(if head == "ctlz" { if *x == 0 { w } else { x.leading_zeros() - (128 - w) } } else if *x == 0 { w } else { x.trailing_zeros() } as u128)),
                v => {
                    let t = self.term(v, w);
                    let mut acc = self.ts.cst(w as u128, w as u16);
                    // the last test applied wins: highest (ctlz) / lowest (cttz) set bit
                    for j in 0..w { let i = if head == "ctlz" { j } else { w - 1 - j }; let b = self.ts.extract(t, i as u16, 1); let r = if head == "ctlz" { w - 1 - i } else { i }; let c = self.ts.cst(r as u128, w as u16); acc = self.ts.ite(b, c, acc); }
                    // scanning loops index memory with this: one value per path keeps their addresses concrete
                    let v = self.val(acc);
                    Ok(V::C(self.conc(st, &v)?))
                }
            },
            "bswap" => { let t = self.term(&av[0], w); let mut acc: Option<T> = None; for i in 0..w / 8 { let b = self.ts.extract(t, (i * 8) as u16, 8); acc = Some(match acc { None => b, Some(a) => self.ts.concat(a, b) }); } Ok(self.val(acc.unwrap())) }
            "bitreverse" => { let t = self.term(&av[0], w); let mut acc: Option<T> = None; for i in 0..w { let b = self.ts.extract(t, i as u16, 1); acc = Some(match acc { None => b, Some(a) => self.ts.concat(a, b) }); } Ok(self.val(acc.unwrap())) }
            "fshl" | "fshr" => {
                let s = self.bin(Op::URem, w, &av[2], &V::C(w as u128));
                let s = self.conc(st, &s)? as u32;
                if s == 0 { return Ok(if head == "fshl" { av[0].clone() } else { av[1].clone() }); }
                let s = if head == "fshl" { s } else { w - s };
                let a = self.bin(Op::Shl, w, &av[0], &V::C(s as u128));
                let b = self.bin(Op::LShr, w, &av[1], &V::C((w - s) as u128));
                Ok(self.bin(Op::Or, w, &a, &b))
            }
            "abs" => { let neg = self.bin(Op::Slt, w, &av[0], &V::C(0)); let mz = self.bin(Op::Sub, w, &V::C(0), &av[0]); Ok(self.ite(m, ret, &neg, &mz, &av[0])) }
            "ucmp" | "scmp" => {
                let rw = m.bits(ret);
                let lt = self.bin(if head == "ucmp" { Op::Ult } else { Op::Slt }, w, &av[0], &av[1]);
                let eq = self.bin(Op::Eq, w, &av[0], &av[1]);
                let r = self.ite(m, ret, &eq, &V::C(0), &V::C(1));
                Ok(self.ite(m, ret, &lt, &mk(!0, rw), &r))
            }
            "ptrmask" => Ok(self.bin(Op::And, 64, &av[0], &av[1])),
            "load" => { // llvm.load.relative
                let p = self.conc(st, &av[0])? as u64; let o = self.conc(st, &av[1])? as u64;
                let v = self.load_bytes(st, p.wrapping_add(o), 4, 32)?; let x = self.conc(st, &v)?;
                Ok(V::C(p.wrapping_add(sx(x, 32) as u64) as u128))
            }
            "fabs" | "floor" | "ceil" | "trunc" | "rint" | "round" | "sqrt" => {
                let x = self.conc(st, &av[0])?;
                let f = f64::from_bits(x as u64);
                let r = match head { "fabs" => f.abs(), "floor" => f.floor(), "ceil" => f.ceil(), "trunc" => f.trunc(), "round" => f.round(), "sqrt" => f.sqrt(), _ => f.round() };
                Ok(V::C(r.to_bits() as u128))
            }
            "fptoui" | "fptosi" => {
                let x = self.conc(st, &av[0])?; let f = if w == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 }; let rw = m.bits(ret);
                if head == "fptoui" { let mx = if rw >= 128 { u128::MAX } else { (1u128 << rw) - 1 }; Ok(V::C((f as u128).min(mx))) } else { let (mn, mx) = (-(1i128 << (rw - 1)), (1i128 << (rw - 1)) - 1); Ok(mk((f as i128).clamp(mn, mx) as u128, rw)) }
            }
            _ => Err(Stop::Err(format!("intrinsic {}", name))),
        }
    }
    fn minmax(&mut self, m: &Module, ty: TyId, op: &str, a: &V, b: &V) -> V {
        let w = m.bits(ty);
        let c = self.bin(if op.starts_with('u') { Op::Ult } else { Op::Slt }, w, a, b);
        if op.ends_with("min") { self.ite(m, ty, &c, a, b) } else { self.ite(m, ty, &c, b, a) }
    }
    fn x86(&mut self, n: &str, av: &[V]) -> R<V> {
        if n.starts_with("x86.sse2.pmovmskb.128") {
            if let V::A(v) = &av[0] {
                let v = v.clone();
                let mut acc: Option<T> = None;
                for x in v.iter() { let t = self.term(x, 8); let b = self.ts.extract(t, 7, 1); acc = Some(match acc { None => b, Some(a) => self.ts.concat(b, a) }); }
                let r = self.ts.zext(acc.unwrap(), 32);
                return Ok(self.val(r));
            }
        }
        Err(Stop::Err(format!("intrinsic {}", n)))
    }
}

fn insertv(a: &V, v: &V, idx: &[u32]) -> V {
    if idx.is_empty() { return v.clone(); }
    match a { V::A(x) => { let mut n = (**x).clone(); n[idx[0] as usize] = insertv(&n[idx[0] as usize], v, &idx[1..]); V::A(Rc::new(n)) } _ => panic!("insertvalue") }
}

/// identifiers of a v0-mangled name, joined
pub fn pretty(n: &str) -> String {
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        // disambiguators and base-62 back references
        if (b[i] == b's' || b[i] == b'B') && i + 1 < b.len() { if let Some(k) = b[i + 1..].iter().position(|&c| c == b'_') { if k < 16 && b[i + 1..i + 1 + k].iter().all(|c| c.is_ascii_alphanumeric()) { i += k + 2; continue; } } }
        if b[i].is_ascii_digit() {
            let mut j = i; let mut v = 0usize;
            while j < b.len() && b[j].is_ascii_digit() { v = v * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if v > 0 && j + v <= b.len() { out.push(String::from_utf8_lossy(&b[j..j + v]).into_owned()); i = j + v; continue; }
            i = j; continue;
        }
        i += 1;
    }
    out.join("::")
}

pub fn uniq(v: Vec<String>) -> Vec<String> { let mut s = HashSet::new(); v.into_iter().filter(|x| s.insert(x.clone())).collect() }

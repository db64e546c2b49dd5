//! Symbolic interpreter for the parsed IR: depth-first path exploration with state merging at post-dominators.
use crate::expr::*;
use crate::ir::*;
use crate::solver::{Res, Solver};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq)]
pub struct Cell { id: u32, k: u8 } // id 0: concrete byte k; otherwise byte k of expression id
pub struct Obj { base: u64, cells: Vec<Cell>, ro: bool, heap: bool }
impl Clone for Obj { fn clone(&self) -> Obj { Obj { base: self.base, cells: self.cells.clone(), ro: self.ro, heap: self.heap } } }

pub struct FInfo { pub f: Func, ipdom: Vec<Option<u32>>, live: Vec<Vec<u64>>, rty: Vec<Ty> }
#[derive(Clone)]
pub struct Frame { f: Rc<FInfo>, blk: u32, ip: usize, regs: Vec<Val>, allocas: Vec<u64>, ret_dst: Option<u32>, resume: Option<u32> }
#[derive(Clone)]
pub struct State { frames: Vec<Rc<Frame>>, mem: BTreeMap<u64, Rc<Obj>>, bump: u64, sbump: u64, pc: Vec<Id>, model: Rc<RefCell<Model>>, syms: Vec<u32>, notes: Vec<(Val, u32)>, panic_ok: Id, merge: u64, reach: BTreeSet<u32>, mem_lim: Option<Id>, steps: u64, uf: Vec<(u32, Id, Id)>, rsplit: bool }
#[derive(Clone, Copy)]
struct Stop { depth: usize, blk: u32 }
pub enum Ctl { Fork(Id), Err(String), Dead }
type R<T> = Result<T, Ctl>;
enum Step { Go, Dead, Done, Stop, Branch(Vec<(Id, u32)>), Retry(Id) }

pub struct Violation { pub kind: String, pub id: u64, pub loc: Vec<(String, u32, String)>, pub values: Vec<u128>, pub panic_fn: String, pub rechecked: bool }
pub struct Sample { pub values: Vec<u128>, pub notes: Vec<u64>, pub panicked: bool }
pub struct Cfg { pub params: Vec<u64>, pub max_paths: u64, pub max_secs: f64, pub max_insts: u64, pub keep_going: bool, pub samples: usize, pub verbose: bool, pub merge: u64, pub fp: bool, pub path_insts: u64 }

pub struct Exec {
    pub m: Module, pub ar: Arena, pub sv: Solver, pub cfg: Cfg,
    funcs: HashMap<Rc<str>, Option<Rc<FInfo>>>, gobj: HashMap<u64, Rc<Obj>>, gsorted: Vec<(u64, u64, usize)>,
    pub dbg_seen: Vec<bool>, pub fn_seen: HashSet<Rc<str>>, pub insts: u64, pub paths: u64, pub panics_ok: u64, pub infeasible: u64, pub forks: u64, pub merges: u64, pub checks: u64, pub checks_symbolic: u64, pub max_pc: usize, pub max_syms: usize, pub sym_bits: u64,
    pub violations: Vec<Violation>, vseen: HashSet<(String, u64)>, pub samples: Vec<Sample>, pub reach: BTreeMap<u32, u64>, t0: Instant, pub check_ids: BTreeMap<u64, u64>, dead: bool, pub assumed: u64, pub stuck: Option<Vec<u128>>, pub folded: u64, pub real: bool, pub under: Option<String>,
}

fn is_noise(n: &str) -> bool { n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.invariant") || n == "llvm.assume" || n.starts_with("llvm.prefetch") || n == "llvm.donothing" || n.starts_with("llvm.fake.use") }

impl Exec {
    pub fn new(m: Module, cfg: Cfg, fp: bool, timeout_ms: u32) -> Exec {
        let mut g: Vec<(u64, u64, usize)> = m.globals.iter().enumerate().map(|(i, g)| (g.addr, g.size, i)).collect(); g.sort();
        let nd = m.md.keys().copied().max().unwrap_or(0) as usize + 1;
        Exec { m, ar: Arena::new(), sv: Solver::new(timeout_ms, fp), cfg, funcs: HashMap::new(), gobj: HashMap::new(), gsorted: g, dbg_seen: vec![false; nd], fn_seen: HashSet::new(), insts: 0, paths: 0, panics_ok: 0, infeasible: 0, forks: 0, merges: 0, checks: 0, checks_symbolic: 0, max_pc: 0, max_syms: 0, sym_bits: 0,
            violations: vec![], vseen: HashSet::new(), samples: vec![], reach: BTreeMap::new(), t0: Instant::now(), check_ids: BTreeMap::new(), dead: false, assumed: 0, stuck: None, folded: 0, real: false, under: None }
    }
    pub fn secs(&self) -> f64 { self.t0.elapsed().as_secs_f64() }
    fn finfo(&mut self, n: &Rc<str>) -> Option<Rc<FInfo>> {
        if let Some(f) = self.funcs.get(n) { return f.clone(); }
        let r = self.m.func(n).map(|f| Rc::new(self.analyse(f)));
        self.funcs.insert(n.clone(), r.clone()); r
    }
    fn analyse(&self, f: Func) -> FInfo {
        let nb = f.blocks.len();
        let mut succ: Vec<Vec<usize>> = vec![vec![]; nb]; let mut exits = vec![false; nb];
        for (b, ins) in f.blocks.iter().enumerate() {
            let dead = ins.iter().any(|i| if let Inst::Call(Callee::Named(n), ..) = &i.inst { *self.m.decl_noreturn.get(&**n).unwrap_or(&false) } else { false });
            if dead { continue; }
            match &ins.last().unwrap().inst {
                Inst::Br(t) => succ[b].push(*t as usize), Inst::CondBr(_, x, y) => { succ[b].push(*x as usize); succ[b].push(*y as usize) }
                Inst::Switch(_, _, d, cs) => { succ[b].push(*d as usize); for c in cs { succ[b].push(c.1 as usize) } }
                Inst::Call(_, _, _, Some(d)) => succ[b].push(*d as usize),
                Inst::Ret(..) => exits[b] = true, _ => {}
            }
        }
        // blocks that can reach a return
        let mut ok = exits.clone(); loop { let mut ch = false; for b in 0..nb { if !ok[b] && succ[b].iter().any(|s| ok[*s]) { ok[b] = true; ch = true; } } if !ch { break; } }
        // post-dominator sets as bitsets (virtual exit = nb)
        let words = (nb + 1 + 63) / 64; let full = vec![!0u64; words];
        let mut pd: Vec<Vec<u64>> = vec![full.clone(); nb];
        let mut ch = true;
        while ch { ch = false;
            for b in (0..nb).rev() { if !ok[b] { continue; }
                let mut n = if exits[b] { let mut z = vec![0u64; words]; z[nb / 64] |= 1 << (nb % 64); z } else { full.clone() };
                if !exits[b] { for s in &succ[b] { if ok[*s] { for w in 0..words { n[w] &= pd[*s][w]; } } } }
                n[b / 64] |= 1 << (b % 64);
                if n != pd[b] { pd[b] = n; ch = true; } } }
        let cnt: Vec<u32> = pd.iter().map(|v| v.iter().map(|x| x.count_ones()).sum()).collect();
        let ipdom = (0..nb).map(|b| { if !ok[b] { return None; } // the strict post-dominator with the most post-dominators
            let mut best: Option<(u32, u32)> = None; for c in 0..nb { if c != b && ok[c] && pd[b][c / 64] >> (c % 64) & 1 == 1 { if best.map_or(true, |x| cnt[c] > x.0) { best = Some((cnt[c], c as u32)); } } } best.map(|x| x.1) }).collect();
        // liveness (before first non-phi)
        let rw = (f.nregs + 63) / 64;
        let mut live: Vec<Vec<u64>> = vec![vec![0; rw]; nb];
        let mut uses: Vec<Vec<u64>> = vec![vec![0; rw]; nb]; let mut defs: Vec<Vec<u64>> = vec![vec![0; rw]; nb]; let mut phid: Vec<Vec<u64>> = vec![vec![0; rw]; nb];
        let mut phiu: Vec<Vec<(u32, u32)>> = vec![vec![]; nb]; // (pred, reg)
        for b in 0..nb { for i in &f.blocks[b] {
            if let Inst::Phi(_, v) = &i.inst { if let Some(d) = i.dst { phid[b][d as usize / 64] |= 1 << (d % 64); } for (p, o) in v { if let Opd::Reg(r) = o { phiu[b].push((*p, *r)); } } continue; }
            for_regs(&i.inst, &mut |r| { if defs[b][r as usize / 64] >> (r % 64) & 1 == 0 { uses[b][r as usize / 64] |= 1 << (r % 64); } });
            if let Some(d) = i.dst { defs[b][d as usize / 64] |= 1 << (d % 64); } } }
        let mut ch = true;
        while ch { ch = false;
            for b in (0..nb).rev() {
                let mut out = vec![0u64; rw];
                for &s in &succ[b] { for w in 0..rw { out[w] |= live[s][w] & !phid[s][w]; } for (p, r) in &phiu[s] { if *p as usize == b { out[*r as usize / 64] |= 1 << (r % 64); } } }
                let n: Vec<u64> = (0..rw).map(|w| uses[b][w] | (out[w] & !defs[b][w])).collect();
                if n != live[b] { live[b] = n; ch = true; } } }
        let mut rty = vec![Ty::Other; f.nregs];
        for (k, p) in f.params.iter().enumerate() { rty[*p as usize] = f.ptys[k].clone(); }
        for b in &f.blocks { for i in b { if let Some(d) = i.dst { rty[d as usize] = result_ty(&i.inst); } } }
        FInfo { f, ipdom, live, rty }
    }

    // ---------- values ----------
    fn ex(&mut self, v: &Val, w: u32) -> Id { match v { Val::C(k) => self.ar.konst(*k, w), Val::S(i) => { debug_assert_eq!(self.ar.w(*i), w); *i } Val::Agg(_) => panic!("aggregate as scalar") } }
    fn mkv(&self, i: Id) -> Val { match self.ar.cval(i) { Some(k) => Val::C(k), None => Val::S(i) } }
    #[inline] fn get(fr: &Frame, o: &Opd) -> Val { match o { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() } }
    fn eval(&self, s: &State, i: Id) -> u128 { self.ar.eval(i, &mut s.model.borrow_mut()) }

    // ---------- memory ----------
    fn global_obj(&mut self, addr: u64) -> Option<Rc<Obj>> {
        let k = self.gsorted.partition_point(|g| g.0 <= addr); if k == 0 { return None; }
        let (ga, gs, gi) = self.gsorted[k - 1]; if addr > ga + gs { return None; }
        if let Some(o) = self.gobj.get(&ga) { return Some(o.clone()); }
        let g = &self.m.globals[gi];
        let mut cells = vec![Cell { id: 0, k: 0 }; gs as usize];
        if !g.external { let v = self.m.global_init(g); let ty = g.ty.clone(); fill(&mut cells, 0, &ty, &v); }
        let o = Rc::new(Obj { base: ga, cells, ro: self.m.globals[gi].constant, heap: false });
        self.gobj.insert(ga, o.clone()); Some(o)
    }
    fn find(&mut self, s: &State, addr: u64) -> Option<Rc<Obj>> {
        if let Some((b, o)) = s.mem.range(..=addr).next_back() { if addr <= *b + o.cells.len() as u64 { if addr < *b + o.cells.len() as u64 || o.cells.is_empty() { return Some(o.clone()); } } }
        if addr < 0x1000_0000 { return self.global_obj(addr); }
        None
    }
    fn alloc(&mut self, s: &mut State, size: u64, align: u64, heap: bool) -> u64 {
        let al = align.max(16);
        let p = if heap { &mut s.bump } else { &mut s.sbump };
        *p = (*p + al - 1) / al * al; let a = *p; *p += size + 32;
        s.mem.insert(a, Rc::new(Obj { base: a, cells: vec![Cell { id: 0, k: 0 }; size as usize], ro: false, heap }));
        a
    }
    fn resolve(&mut self, s: &mut State, a: &Val, n: u64, what: &str) -> R<(Rc<Obj>, Result<u64, Id>)> {
        match a {
            Val::C(x) => {
                let x = *x as u64;
                match self.find(s, x) { Some(o) if x + n <= o.base + o.cells.len() as u64 => { let off = x - o.base; Ok((o, Ok(off))) }
                    _ => Err(Ctl::Err(format!("{} of {} bytes at invalid address {:#x}", what, n, x))) }
            }
            Val::S(e) => {
                let e = *e; let x = self.eval(s, e) as u64;
                let Some(o) = self.find(s, x) else { return Err(Ctl::Err(format!("{} at invalid symbolic address (model {:#x}) {}", what, x, self.ar.show(e, 5)))) };
                let sz = o.cells.len() as u64;
                if x + n > o.base + sz { return Err(Ctl::Err(format!("{} beyond object (model {:#x} base {:#x} size {})", what, x, o.base, sz))); }
                let f = self.ar.facts(e);
                let lo = o.base as u128; let hi = (o.base + sz - n) as u128;
                if !(f.lo >= lo && f.hi <= hi) {
                    let kb = self.ar.konst(lo, 64); let off = self.ar.mk(Op::Sub, 64, e, kb, NONE, 0); let lim = self.ar.konst((hi - lo) + 1, 64); let inb = self.ar.ult(off, lim);
                    self.must(s, inb)?;
                }
                let kb = self.ar.konst(lo, 64); let off = self.ar.mk(Op::Sub, 64, e, kb, NONE, 0);
                match self.ar.cval(off) { Some(k) => Ok((o, Ok(k as u64))), None => Ok((o, Err(off))) }
            }
            _ => Err(Ctl::Err("aggregate address".into())),
        }
    }
    /// c holds in the model; returns Ok if it holds on the whole path, otherwise asks for a fork on c
    fn must(&mut self, s: &mut State, c: Id) -> R<()> {
        if self.ar.cval(c) == Some(1) { return Ok(()); }
        let n = self.ar.not1(c);
        match self.chk(&s.pc, n) { Res::Unsat => { if self.real { self.addpc(s, c); } Ok(()) } Res::Sat(_) => Err(Ctl::Fork(c)), Res::Unknown => Err(Ctl::Err(format!("solver returned unknown {}", self.sv.note))) }
    }
    fn concretize(&mut self, s: &mut State, v: &Val, w: u32) -> R<u128> {
        match v { Val::C(k) => Ok(*k), Val::S(e) => { let x = self.eval(s, *e); let k = self.ar.konst(x, w); let c = self.ar.eq(*e, k); self.must(s, c)?; Ok(x) } _ => Err(Ctl::Err("concretize aggregate".into())) }
    }
    /// candidate offsets for a symbolic in-object offset
    fn cands(&mut self, s: &mut State, off: Id, max: u64) -> Vec<u64> {
        let mut out: Vec<u64> = vec![];
        self.lin(off, &mut out, max);
        if out.is_empty() {
            let f = self.ar.facts(off); let mut o = f.lo.min(u64::MAX as u128) as u64; let hi = (f.hi.min(max as u128)) as u64;
            while o <= hi { let x = o as u128; if x & f.kz == 0 && (!x) & f.ko & ones(64) == 0 { out.push(o); } o += 1; }
        }
        out.retain(|x| *x <= max); out.sort(); out.dedup();
        if out.len() > 24 { // prune with the solver: ask for the real extremes by feasibility of each candidate
            let mut keep = vec![];
            for &k in &out { let kk = self.ar.konst(k as u128, 64); let c = self.ar.eq(off, kk); match self.chk(&s.pc, c) { Res::Unsat => {} _ => keep.push(k) } }
            out = keep;
        }
        out
    }
    /// values of expressions of the shape const + c * x with few x
    fn lin(&mut self, e: Id, out: &mut Vec<u64>, max: u64) {
        fn go(ar: &Arena, e: Id, d: u32) -> Option<Vec<u64>> {
            let n = ar.node(e);
            if let Some(k) = ar.cval(e) { return Some(vec![k as u64]); }
            if d == 0 { return None; }
            let f = ar.facts(e);
            let range = |f: &Facts| -> Option<Vec<u64>> { if f.hi - f.lo <= 64 { Some((f.lo..=f.hi).filter(|x| x & f.kz == 0 && (!x) & f.ko & ones(64) == 0).map(|x| x as u64).collect()) } else { None } };
            let r = match n.op {
                Op::Ite => { let mut a = go(ar, n.b, d - 1)?; a.extend(go(ar, n.c, d - 1)?); Some(a) }
                Op::Add => { let a = go(ar, n.a, d - 1)?; let b = go(ar, n.b, d - 1)?; if a.len() * b.len() > 512 { None } else { let m = ones(n.w as u32) as u64; Some(a.iter().flat_map(|x| b.iter().map(move |y| x.wrapping_add(*y) & m)).collect()) } }
                Op::Mul => { let k = ar.cval(n.b)? as u64; let a = go(ar, n.a, d - 1)?; let m = ones(n.w as u32) as u64; Some(a.iter().map(|x| x.wrapping_mul(k) & m).collect()) }
                Op::Shl => { let k = ar.cval(n.b)? as u32; let a = go(ar, n.a, d - 1)?; let m = ones(n.w as u32) as u64; Some(a.iter().map(|x| (x << k) & m).collect()) }
                Op::Concat => { let lw = ar.w(n.b); let a = go(ar, n.a, d - 1)?; let b = go(ar, n.b, d - 1)?; if a.len() * b.len() > 512 { None } else { Some(a.iter().flat_map(|x| b.iter().map(move |y| (x << lw) | *y)).collect()) } }
                Op::ZExt => go(ar, n.a, d - 1),
                _ => None,
            };
            let r = r.or_else(|| range(&f));
            r.map(|mut v| { v.sort(); v.dedup(); v.retain(|x| (*x as u128) & f.kz == 0 && *x as u128 >= f.lo && *x as u128 <= f.hi); v })
        }
        if let Some(v) = go(&self.ar, e, 12) { if v.len() <= 512 { *out = v.into_iter().filter(|x| *x <= max).collect(); } }
    }
    fn cells_read(&mut self, c: &[Cell]) -> Val {
        let n = c.len();
        if c.iter().all(|x| x.id == 0) { let mut v = 0u128; for i in (0..n).rev() { v = v << 8 | c[i].k as u128; } return Val::C(v); }
        let id0 = c[0].id;
        if id0 != 0 && c[0].k == 0 && self.ar.w(Id(id0)) as usize == 8 * n && c.iter().enumerate().all(|(i, x)| x.id == id0 && x.k as usize == i) { return self.mkv(Id(id0)); }
        // group runs
        let mut acc: Option<Id> = None; let mut i = 0;
        while i < n {
            let mut j = i + 1;
            let part = if c[i].id == 0 { while j < n && c[j].id == 0 { j += 1; } let mut v = 0u128; for t in (i..j).rev() { v = v << 8 | c[t].k as u128; } self.ar.konst(v, 8 * (j - i) as u32) }
                else { while j < n && c[j].id == c[i].id && c[j].k as usize == c[i].k as usize + (j - i) { j += 1; } self.ar.extract(Id(c[i].id), 8 * c[i].k as u32, 8 * (j - i) as u32) };
            acc = Some(match acc { None => part, Some(l) => self.ar.concat(part, l) });
            i = j;
        }
        self.mkv(acc.unwrap())
    }
    fn cells_of(&mut self, v: &Val, n: usize, w: u32) -> Vec<Cell> {
        match v {
            Val::C(k) => (0..n).map(|i| Cell { id: 0, k: if i < 16 { (k >> (8 * i)) as u8 } else { 0 } }).collect(),
            Val::S(e) => { let e = if (w as usize) < 8 * n { self.ar.zext(*e, 8 * n as u32) } else { *e };
                if let Some(k) = self.ar.cval(e) { return (0..n).map(|i| Cell { id: 0, k: (k >> (8 * i)) as u8 }).collect(); }
                (0..n).map(|i| { let kz = self.ar.facts(e); let m = 0xffu128 << (8 * i); if kz.kz & m == m { Cell { id: 0, k: 0 } } else { Cell { id: e.0, k: i as u8 } } }).collect() }
            _ => panic!("cells of aggregate"),
        }
    }
    fn load(&mut self, s: &mut State, a: &Val, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Struct(fs, _) => { let (offs, _) = ty.layout(); let mut v = vec![]; for (i, t) in fs.iter().enumerate() { let p = self.addo(a, offs[i]); v.push(self.load(s, &p, t)?); } return Ok(Val::Agg(Rc::new(v))); }
            Ty::Arr(n, t) => { let mut v = vec![]; for i in 0..*n { let p = self.addo(a, i * t.size()); v.push(self.load(s, &p, t)?); } return Ok(Val::Agg(Rc::new(v))); }
            Ty::Vec(n, t) => { if let Ty::Int(w) = **t { if w < 8 { let x = self.load(s, a, &Ty::Int((*n as u32) * w))?; return Ok(self.unpack(&x, *n as u32, w)); } } let mut v = vec![]; for i in 0..*n { let p = self.addo(a, i * t.size()); v.push(self.load(s, &p, t)?); } return Ok(Val::Agg(Rc::new(v))); }
            _ => {}
        }
        let w = ty.bits(); let n = ((w + 7) / 8) as u64;
        let (o, off) = self.resolve(s, a, n, "load")?;
        let v = match off {
            Ok(k) => { let k = k as usize; self.cells_read(&o.cells[k..k + n as usize]) }
            Err(off) => {
                let max = o.cells.len() as u64 - n;
                let cs = self.cands(s, off, max);
                if cs.is_empty() { return Err(Ctl::Err("no candidate offsets".into())); }
                let bw = 8 * n as u32;
                // group equal values
                let mut groups: Vec<(Id, Vec<u64>)> = vec![]; let mut ix: HashMap<Id, usize> = HashMap::new();
                for k in cs { let v = self.cells_read(&o.cells[k as usize..(k + n) as usize]); let e = self.ex(&v, bw); let g = *ix.entry(e).or_insert_with(|| { groups.push((e, vec![])); groups.len() - 1 }); groups[g].1.push(k); }
                let def = groups.iter().enumerate().max_by_key(|(_, g)| g.1.len()).unwrap().0;
                let mut r = groups[def].0;
                for (i, (e, ks)) in groups.iter().enumerate() { if i == def { continue; } let mut c = self.ar.konst(0, 1); for k in ks { let kk = self.ar.konst(*k as u128, 64); let q = self.ar.eq(off, kk); c = self.ar.or1(c, q); } r = self.ar.ite(c, *e, r); }
                self.mkv(r)
            }
        };
        Ok(if w < 8 * n as u32 { match v { Val::C(k) => Val::C(mask(k, w)), Val::S(e) => { let x = self.ar.extract(e, 0, w); self.mkv(x) } x => x } } else { v })
    }
    fn addo(&mut self, a: &Val, k: u64) -> Val { if k == 0 { return a.clone(); } match a { Val::C(x) => Val::C(mask(x.wrapping_add(k as u128), 64)), Val::S(e) => { let kk = self.ar.konst(k as u128, 64); let r = self.ar.mk(Op::Add, 64, *e, kk, NONE, 0); self.mkv(r) } _ => panic!() } }
    fn obj_mut<'a>(&self, s: &'a mut State, o: &Rc<Obj>) -> R<&'a mut Obj> {
        if o.ro { return Err(Ctl::Err("store to constant".into())); }
        let e = s.mem.entry(o.base).or_insert_with(|| o.clone());
        Ok(Rc::make_mut(e))
    }
    fn store(&mut self, s: &mut State, a: &Val, ty: &Ty, v: &Val) -> R<()> {
        match (ty, v) {
            (Ty::Struct(fs, _), Val::Agg(vs)) => { let (offs, _) = ty.layout(); for (i, t) in fs.iter().enumerate() { let p = self.addo(a, offs[i]); self.store(s, &p, t, &vs[i])?; } return Ok(()); }
            (Ty::Arr(_, t), Val::Agg(vs)) => { for (i, x) in vs.iter().enumerate() { let p = self.addo(a, i as u64 * t.size()); self.store(s, &p, t, x)?; } return Ok(()); }
            (Ty::Vec(n, t), Val::Agg(vs)) => { if let Ty::Int(w) = **t { if w < 8 { let x = self.pack(vs, w); return self.store(s, a, &Ty::Int(*n as u32 * w), &x); } } for (i, x) in vs.iter().enumerate() { let p = self.addo(a, i as u64 * t.size()); self.store(s, &p, t, x)?; } return Ok(()); }
            (_, Val::Agg(_)) => return Err(Ctl::Err("aggregate store".into())),
            _ => {}
        }
        let w = ty.bits(); let n = ((w + 7) / 8) as u64;
        let (o, off) = self.resolve(s, a, n, "store")?;
        match off {
            Ok(k) => { let cs = self.cells_of(v, n as usize, w); let ob = self.obj_mut(s, &o)?; ob.cells[k as usize..(k + n) as usize].copy_from_slice(&cs); }
            Err(off) => {
                let max = o.cells.len() as u64 - n;
                let cs = self.cands(s, off, max); let bw = 8 * n as u32;
                let ve = self.ex(v, w); let ve = if w < bw { self.ar.zext(ve, bw) } else { ve };
                let mut cells = o.cells.clone();
                for k in cs { let old = self.cells_read(&cells[k as usize..(k + n) as usize]); let old = self.ex(&old, bw); let kk = self.ar.konst(k as u128, 64); let q = self.ar.eq(off, kk); let nv = self.ar.ite(q, ve, old); let nv = self.mkv(nv); let nc = self.cells_of(&nv, n as usize, bw); cells[k as usize..(k + n) as usize].copy_from_slice(&nc); }
                self.obj_mut(s, &o)?.cells = cells;
            }
        }
        Ok(())
    }
    fn pack(&mut self, vs: &[Val], w: u32) -> Val {
        if vs.iter().all(|v| matches!(v, Val::C(_))) && vs.len() as u32 * w <= 128 { let mut r = 0u128; for (i, v) in vs.iter().enumerate() { if let Val::C(k) = v { r |= mask(*k, w) << (i as u32 * w); } } return Val::C(r); }
        let mut acc: Option<Id> = None; for v in vs { let e = self.ex(v, w); acc = Some(match acc { None => e, Some(l) => self.ar.concat(e, l) }); }
        self.mkv(acc.unwrap())
    }
    fn unpack(&mut self, v: &Val, n: u32, w: u32) -> Val {
        Val::Agg(Rc::new((0..n).map(|i| match v { Val::C(k) => Val::C(mask(k >> (i * w), w)), Val::S(e) => { let x = self.ar.extract(*e, i * w, w); self.mkv(x) } _ => panic!() }).collect()))
    }
    fn copy_mem(&mut self, s: &mut State, d: &Val, src: &Val, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (so, soff) = self.resolve(s, src, n, "memcpy source")?;
        let (dob, doff) = self.resolve(s, d, n, "memcpy destination")?;
        match (soff, doff) {
            (Ok(a), Ok(b)) => { let cs: Vec<Cell> = so.cells[a as usize..(a + n) as usize].to_vec(); let ob = self.obj_mut(s, &dob)?; ob.cells[b as usize..(b + n) as usize].copy_from_slice(&cs); Ok(()) }
            _ => { // word by word
                let mut vals = vec![]; let mut k = 0; while k < n { let step = if n - k >= 8 { 8 } else { 1 }; let p = self.addo(src, k); vals.push((k, step, self.load(s, &p, &Ty::Int(step as u32 * 8))?)); k += step; }
                for (k, st, v) in vals { let p = self.addo(d, k); self.store(s, &p, &Ty::Int(st as u32 * 8), &v)?; } Ok(()) }
        }
    }

    /// without floating-point theory a symbolic operand of a floating-point operation is case-split into its values
    fn fcon(&mut self, s: &mut State, v: Val, t: &Ty) -> R<Val> {
        if self.cfg.fp { return Ok(v); }
        match &v {
            Val::C(_) => Ok(v),
            Val::S(_) => Ok(Val::C(self.concretize(s, &v, t.bits())?)),
            Val::Agg(x) => { let e = match t { Ty::Vec(_, e) => (**e).clone(), _ => return Ok(v) }; let mut o = vec![]; for y in x.iter() { o.push(self.fcon(s, y.clone(), &e)?); } Ok(Val::Agg(Rc::new(o))) }
        }
    }
    // ---------- scalar operations ----------
    fn bin(&mut self, op: Bin, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let (Ty::Vec(_, t), Val::Agg(x), Val::Agg(y)) = (ty, a, b) { let mut v = vec![]; for i in 0..x.len() { v.push(self.bin(op, t, &x[i], &y[i])?); } return Ok(Val::Agg(Rc::new(v))); }
        let w = ty.bits();
        if *ty == Ty::F32 { if let (Val::C(x), Val::C(y)) = (a, b) { let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32)); let r = match op { Bin::FAdd => x + y, Bin::FSub => x - y, Bin::FMul => x * y, Bin::FDiv => x / y, _ => x % y }; return Ok(Val::C(r.to_bits() as u128)); } return Err(Ctl::Err("symbolic f32".into())); }
        let o = match op { Bin::Add => Op::Add, Bin::Sub => Op::Sub, Bin::Mul => Op::Mul, Bin::UDiv => Op::UDiv, Bin::SDiv => Op::SDiv, Bin::URem => Op::URem, Bin::SRem => Op::SRem, Bin::And => Op::And, Bin::Or => Op::Or, Bin::Xor => Op::Xor, Bin::Shl => Op::Shl, Bin::LShr => Op::LShr, Bin::AShr => Op::AShr, Bin::FAdd => Op::FAdd, Bin::FSub => Op::FSub, Bin::FMul => Op::FMul, Bin::FDiv => Op::FDiv, Bin::FRem => Op::FRem };
        if let (Val::C(x), Val::C(y)) = (a, b) { return Ok(Val::C(apply(o, w, 0, *x, w, *y, w, 0))); }
        let (mut x, mut y) = (self.ex(a, w), self.ex(b, w));
        // a+b and b+a, a*b and b*a are the same double: one expression (constants second)
        if matches!(o, Op::FAdd | Op::FMul) && (self.ar.cval(x).is_some(), x) > (self.ar.cval(y).is_some(), y) { std::mem::swap(&mut x, &mut y); }
        let r = self.ar.mk(o, w, x, y, NONE, 0); Ok(self.mkv(r))
    }
    fn icmp(&mut self, p: Pred, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let (Ty::Vec(_, t), Val::Agg(x), Val::Agg(y)) = (ty, a, b) { let mut v = vec![]; for i in 0..x.len() { v.push(self.icmp(p, t, &x[i], &y[i])?); } return Ok(Val::Agg(Rc::new(v))); }
        let w = ty.bits();
        if let (Val::C(x), Val::C(y)) = (a, b) { let (x, y) = (*x, *y); let (sx, sy) = (sext(x, w), sext(y, w)); return Ok(Val::C(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy } as u128)); }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = match p { Pred::Eq => self.ar.eq(x, y), Pred::Ne => { let e = self.ar.eq(x, y); self.ar.not1(e) } Pred::Ult => self.ar.ult(x, y), Pred::Ugt => self.ar.ult(y, x), Pred::Uge => { let e = self.ar.ult(x, y); self.ar.not1(e) } Pred::Ule => { let e = self.ar.ult(y, x); self.ar.not1(e) }
            Pred::Slt => self.ar.mk(Op::Slt, 1, x, y, NONE, 0), Pred::Sgt => self.ar.mk(Op::Slt, 1, y, x, NONE, 0), Pred::Sge => { let e = self.ar.mk(Op::Slt, 1, x, y, NONE, 0); self.ar.not1(e) } Pred::Sle => { let e = self.ar.mk(Op::Slt, 1, y, x, NONE, 0); self.ar.not1(e) } };
        Ok(self.mkv(r))
    }
    fn fcmp(&mut self, p: &str, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let (Ty::Vec(_, t), Val::Agg(x), Val::Agg(y)) = (ty, a, b) { let mut v = vec![]; for i in 0..x.len() { v.push(self.fcmp(p, t, &x[i], &y[i])?); } return Ok(Val::Agg(Rc::new(v))); }
        let (x, y) = if *ty == Ty::F32 { if let (Val::C(x), Val::C(y)) = (a, b) { let (x, y) = (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64); (self.ar.konst(x.to_bits() as u128, 64), self.ar.konst(y.to_bits() as u128, 64)) } else { return Err(Ctl::Err("symbolic f32".into())); } } else { (self.ex(a, 64), self.ex(b, 64)) };
        let m = |ar: &mut Arena, o: Op, x: Id, y: Id| ar.mk(o, 1, x, y, NONE, 0);
        let uno = m(&mut self.ar, Op::FUno, x, y);
        let base = match &p[1..] { "eq" => m(&mut self.ar, Op::FEq, x, y), "lt" => m(&mut self.ar, Op::FLt, x, y), "gt" => m(&mut self.ar, Op::FLt, y, x), "le" => m(&mut self.ar, Op::FLe, x, y), "ge" => m(&mut self.ar, Op::FLe, y, x),
            "ne" => { let e = m(&mut self.ar, Op::FEq, x, y); let ne = self.ar.not1(e); if &p[..1] == "u" { return Ok(self.mkv(ne)); } let nu = self.ar.not1(uno); self.ar.and1(ne, nu) }
            "rd" => { let r = self.ar.not1(uno); return Ok(self.mkv(r)); } "no" => return Ok(self.mkv(uno)), "rue" => return Ok(Val::C(1)), "alse" => return Ok(Val::C(0)), _ => return Err(Ctl::Err(format!("fcmp {}", p))) };
        let r = if &p[..1] == "u" { self.ar.or1(uno, base) } else { base };
        Ok(self.mkv(r))
    }
    fn cast(&mut self, c: Cast, t1: &Ty, v: &Val, t2: &Ty) -> R<Val> {
        if c == Cast::BitCast {
            match (t1, t2, v) {
                (Ty::Vec(_, e), t, Val::Agg(vs)) if t.is_scalar() => { return Ok(self.pack(vs, e.bits())); }
                (t, Ty::Vec(n, e), x) if t.is_scalar() => { return Ok(self.unpack(x, *n as u32, e.bits())); }
                (Ty::Vec(_, e), Ty::Vec(n2, e2), Val::Agg(vs)) => { if vs.iter().all(|v| matches!(v, Val::C(_))) || e.bits() as usize * vs.len() <= 128 { let p = self.pack(vs, e.bits()); return Ok(self.unpack(&p, *n2 as u32, e2.bits())); } return Err(Ctl::Err("vector bitcast".into())); }
                _ => return Ok(v.clone()),
            }
        }
        if let (Ty::Vec(_, a), Ty::Vec(_, b), Val::Agg(vs)) = (t1, t2, v) { let mut o = vec![]; for x in vs.iter() { o.push(self.cast(c, a, x, b)?); } return Ok(Val::Agg(Rc::new(o))); }
        let (w1, w2) = (t1.bits(), t2.bits());
        if *t1 == Ty::F32 || *t2 == Ty::F32 {
            let Val::C(k) = v else { return Err(Ctl::Err("symbolic f32 cast".into())) }; let k = *k;
            let r: u128 = match c { Cast::FPExt => ((f32::from_bits(k as u32) as f64).to_bits()) as u128, Cast::FPTrunc => ((f64::from_bits(k as u64) as f32).to_bits()) as u128, Cast::UIToFP => ((k as f32).to_bits()) as u128, Cast::SIToFP => ((sext(k, w1) as f32).to_bits()) as u128,
                Cast::FPToUI => apply(Op::F2U, w2, 0, (f32::from_bits(k as u32) as f64).to_bits() as u128, 64, 0, 1, 0), Cast::FPToSI => apply(Op::F2S, w2, 0, (f32::from_bits(k as u32) as f64).to_bits() as u128, 64, 0, 1, 0), _ => k };
            return Ok(Val::C(r));
        }
        let o = match c { Cast::Trunc => { if let Val::C(k) = v { return Ok(Val::C(mask(*k, w2))); } let x = self.ex(v, w1); let r = self.ar.extract(x, 0, w2); return Ok(self.mkv(r)); }
            Cast::ZExt => Op::ZExt, Cast::SExt => Op::SExt, Cast::PtrToInt | Cast::IntToPtr => { let op = if w2 > w1 { Cast::ZExt } else if w2 < w1 { Cast::Trunc } else { return Ok(v.clone()) }; return self.cast(op, &Ty::Int(w1), v, &Ty::Int(w2)); }
            Cast::UIToFP => Op::U2F, Cast::SIToFP => Op::S2F, Cast::FPToUI => Op::F2U, Cast::FPToSI => Op::F2S, _ => return Err(Ctl::Err(format!("cast {:?}", c))) };
        if let Val::C(k) = v { return Ok(Val::C(apply(o, w2, 0, *k, w1, 0, 1, 0))); }
        let x = self.ex(v, w1); let r = self.ar.mk(o, w2, x, NONE, NONE, 0); Ok(self.mkv(r))
    }
    fn select(&mut self, c: &Val, ct: &Ty, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let (Ty::Vec(_, _), Val::Agg(cs)) = (ct, c) { if let (Ty::Vec(_, t), Val::Agg(x), Val::Agg(y)) = (ty, a, b) { let mut v = vec![]; for i in 0..cs.len() { v.push(self.select(&cs[i], &Ty::Int(1), t, &x[i], &y[i])?); } return Ok(Val::Agg(Rc::new(v))); } }
        match c { Val::C(k) => Ok(if *k & 1 == 1 { a.clone() } else { b.clone() }), Val::S(ci) => self.ite_val(*ci, ty, a, b), _ => Err(Ctl::Err("select".into())) }
    }
    fn ite_val(&mut self, c: Id, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        match ty {
            Ty::Struct(fs, _) => { if let (Val::Agg(x), Val::Agg(y)) = (a, b) { let mut v = vec![]; for i in 0..x.len() { v.push(self.ite_val(c, &fs[i], &x[i], &y[i])?); } return Ok(Val::Agg(Rc::new(v))); } Err(Ctl::Err("ite struct".into())) }
            Ty::Arr(_, t) | Ty::Vec(_, t) => { if let (Val::Agg(x), Val::Agg(y)) = (a, b) { let mut v = vec![]; for i in 0..x.len() { v.push(self.ite_val(c, t, &x[i], &y[i])?); } return Ok(Val::Agg(Rc::new(v))); } Err(Ctl::Err("ite array".into())) }
            _ => { let w = ty.bits(); let (x, y) = (self.ex(a, w), self.ex(b, w)); let r = self.ar.ite(c, x, y); Ok(self.mkv(r)) }
        }
    }
    fn model_with(&self, s: &State, upd: &[(u32, u128)]) -> Rc<RefCell<Model>> {
        let mut sym = s.model.borrow().sym.clone();
        for (k, v) in upd { let k = *k as usize; if sym.len() <= k { sym.resize(k + 1, 0); } sym[k] = *v; }
        Rc::new(RefCell::new(Model::new(sym)))
    }
    /// current state takes the side of c its model satisfies; returns the other side if feasible
    fn split(&mut self, s: &mut State, c: Id) -> R<Option<State>> {
        let v = self.eval(s, c);
        let n = self.ar.not1(c); let (tk, ot) = if v != 0 { (c, n) } else { (n, c) };
        match self.chk(&s.pc, ot) {
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Ctl::Err(format!("solver returned unknown {}", self.sv.note))),
            Res::Sat(m) => { let mut o = s.clone(); o.model = self.model_with(s, &m); self.addpc(&mut o, ot); self.addpc(s, tk); self.forks += 1; Ok(Some(o)) }
        }
    }
    /// real mode: a value the path condition fixes is that constant
    fn pinned(&mut self, s: &State, v: Val) -> Val {
        let Val::S(e) = v else { return v };
        let mut m: HashMap<Id, Id, Fx> = HashMap::with_hasher(Fx);
        for &p in &s.pc { let n = self.ar.node(p); if n.op == Op::Eq { if self.ar.cval(n.b).is_some() { m.insert(n.a, n.b); } else if self.ar.cval(n.a).is_some() { m.insert(n.b, n.a); } } }
        if m.is_empty() { return v; }
        let mut memo = HashMap::with_hasher(Fx); let mut left = 500;
        match self.ar.subst(e, &m, &mut memo, &mut left) { Some(q) if self.ar.cval(q).is_some() => self.mkv(q), _ => v }
    }
    /// is pc /\ c satisfiable? Facts of the path condition are substituted into c first; most queries fold to a constant there.
    fn chk(&mut self, pc: &[Id], c: Id) -> Res {
        if self.ar.cval(c) == Some(0) { return Res::Unsat; }
        let mut m: HashMap<Id, Id, Fx> = HashMap::with_hasher(Fx);
        let (one, zero) = (self.ar.konst(1, 1), self.ar.konst(0, 1));
        for &p in pc {
            let n = self.ar.node(p);
            match n.op {
                Op::Not => { m.insert(n.a, zero); }
                Op::Eq => { m.insert(p, one);
                    let (a, b) = if self.ar.cval(n.b).is_some() { (n.a, n.b) } else if self.ar.cval(n.a).is_some() { (n.b, n.a) } else if n.a > n.b { (n.a, n.b) } else { (n.b, n.a) };
                    let better = match m.get(&a) { None => true, Some(o) => self.ar.cval(*o).is_none() }; if better { m.insert(a, b); } }
                _ => { m.insert(p, one); }
            }
        }
        let mut memo = HashMap::with_hasher(Fx); let mut left = 4000;
        let r = self.ar.subst(c, &m, &mut memo, &mut left);
        let q = match r { Some(q) if q != c => q, _ => c };
        if self.ar.cval(q) == Some(0) { self.folded += 1; return Res::Unsat; }
        self.sv.check(&self.ar, pc, q)
    }
    fn addpc(&mut self, s: &mut State, c: Id) {
        if self.ar.cval(c) == Some(1) { return; }
        let n = self.ar.node(c);
        if n.op == Op::And { self.addpc(s, n.a); self.addpc(s, n.b); return; }
        if !s.pc.contains(&c) { s.pc.push(c); }
        // real mode: where the low bits of a value are fixed and the rest must be zero, the value is fixed
        if self.real && n.op == Op::Eq { if let Some(k) = self.ar.cval(n.b) { let x = self.ar.node(n.a); if x.op == Op::Extract && x.k == 0 {
            let w = self.ar.w(x.a); let kk = self.ar.konst(k, w); let e = self.ar.eq(x.a, kk); let ne = self.ar.not1(e);
            if !s.pc.contains(&e) && self.ar.cval(e).is_none() { if let Res::Unsat = self.chk(&s.pc.clone(), ne) { self.addpc(s, e); } } } } }
        if s.pc.len() > self.max_pc { self.max_pc = s.pc.len(); }
    }

    // ---------- exploration ----------
    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let n: Rc<str> = Rc::from(entry);
        let f = self.finfo(&n).ok_or_else(|| format!("no function {}", entry))?;
        self.fn_seen.insert(n);
        let fr = Frame { regs: vec![Val::C(0); f.f.nregs], f, blk: 0, ip: 0, allocas: vec![], ret_dst: None, resume: None };
        let ok0 = self.ar.konst(0, 1);
        let merge = self.cfg.merge;
        let s = State { frames: vec![Rc::new(fr)], mem: BTreeMap::new(), bump: 0x1000_0000_0000, sbump: 0x7000_0000_0000, pc: vec![], model: Rc::new(RefCell::new(Model::new(vec![]))), syms: vec![], notes: vec![], panic_ok: ok0, merge, reach: BTreeSet::new(), mem_lim: None, steps: 0, uf: vec![], rsplit: false };
        let mut out = vec![];
        self.run(s, None, &mut out, 0)
    }
    fn run(&mut self, init: State, stop: Option<Stop>, out: &mut Vec<State>, depth: u32) -> Result<(), String> {
        let mut work = vec![init];
        while let Some(mut s) = work.pop() {
            if self.dead { return Ok(()); }
            if self.secs() > self.cfg.max_secs { return Err(format!("time bound {}s exceeded", self.cfg.max_secs)); }
            if self.paths + self.infeasible > self.cfg.max_paths { return Err("path bound exceeded".into()); }
            loop {
                match self.go(&mut s, stop) {
                    Ok(Step::Go) => {}
                    Ok(Step::Dead) => break,
                    Ok(Step::Done) => { self.finish(&s, false); break; }
                    Ok(Step::Stop) => { out.push(s); break; }
                    Ok(Step::Retry(c)) => { match self.split(&mut s, c) { Ok(Some(o)) => work.push(o), Ok(None) => {} Err(Ctl::Err(e)) => return Err(self.at(&s, e)), _ => unreachable!() } }
                    Ok(Step::Branch(alts)) => {
                        // feasibility of each alternative
                        let mut live: Vec<(State, u32)> = vec![];
                        let tk = alts.iter().position(|(c, _)| self.eval(&s, *c) != 0).ok_or("no branch alternative holds in the model")?;
                        for (i, (c, b)) in alts.iter().enumerate() {
                            if i == tk { continue; }
                            match self.chk(&s.pc, *c) { Res::Unsat => {} Res::Unknown => return Err(self.at(&s, "solver returned unknown".into())),
                                Res::Sat(m) => { let mut o = s.clone(); o.model = self.model_with(&s, &m); self.addpc(&mut o, *c); live.push((o, *b)); self.forks += 1; } }
                        }
                        let J = { let fr = s.frames.last().unwrap(); fr.f.ipdom[fr.blk as usize] };
                        let depth_f = s.frames.len();
                        if live.is_empty() { match self.goto(&mut s, alts[tk].1, stop) { Ok(true) => { out.push(s); break; } Ok(false) => continue, Err(Ctl::Err(e)) => return Err(self.at(&s, e)), _ => unreachable!() } }
                        let merging = s.merge > 0 && J.is_some() && depth < 4000;
                        self.addpc(&mut s, alts[tk].0);
                        let mut all = vec![(s, alts[tk].1)]; all.extend(live);
                        if merging {
                            let st = Some(Stop { depth: depth_f, blk: J.unwrap() });
                            let mut res: Vec<State> = vec![];
                            for (mut o, b) in all {
                                match self.goto(&mut o, b, st) { Ok(true) => res.push(o), Ok(false) => self.run(o, st, &mut res, depth + 1)?, Err(Ctl::Err(e)) => return Err(self.at(&o, e)), _ => unreachable!() }
                                if self.dead { return Ok(()); }
                            }
                            let res = self.merge_all(res);
                            // the merge point may be the enclosing stop
                            for o in res { if let Some(x) = stop { if x.depth == depth_f && Some(x.blk) == J { out.push(o); continue; } } work.push(o); }
                            break;
                        } else {
                            for (mut o, b) in all { match self.goto(&mut o, b, stop) { Ok(true) => out.push(o), Ok(false) => work.push(o), Err(Ctl::Err(e)) => return Err(self.at(&o, e)), _ => unreachable!() } }
                            break;
                        }
                    }
                    Err(Ctl::Fork(c)) => { match self.split(&mut s, c) { Ok(Some(o)) => work.push(o), Ok(None) => {} Err(Ctl::Err(e)) => return Err(self.at(&s, e)), _ => unreachable!() } }
                    Err(Ctl::Dead) => break,
                    Err(Ctl::Err(e)) => return Err(self.at(&s, e)),
                }
            }
        }
        Ok(())
    }
    fn at(&mut self, s: &State, e: String) -> String {
        if self.stuck.is_none() { let v = self.values(&s.model.borrow().sym, s); self.stuck = Some(v); }
        let mut t = e;
        for fr in s.frames.iter().rev().take(4) { let ins = &fr.f.f.blocks[fr.blk as usize]; let k = fr.ip.min(ins.len() - 1); let ch = self.m.dbg_chain(ins[k].dbg); t += &format!("\n   in {} [{}]", fr.f.f.name, ch.iter().map(|c| format!("{}:{}", c.0, c.1)).collect::<Vec<_>>().join(" < ")); }
        t
    }
    fn merge_all(&mut self, mut v: Vec<State>) -> Vec<State> {
        let mut out: Vec<State> = vec![];
        v.reverse();
        'n: while let Some(s) = v.pop() {
            for i in 0..out.len() { if let Some(m) = self.merge2(&out[i], &s) { out[i] = m; self.merges += 1; continue 'n; } }
            out.push(s);
        }
        out
    }
    fn merge2(&mut self, a: &State, b: &State) -> Option<State> {
        if a.frames.len() != b.frames.len() || a.syms != b.syms || a.notes.len() != b.notes.len() || a.merge != b.merge || a.uf.len() != b.uf.len() || (0..a.uf.len()).any(|i| a.uf[i].0 != b.uf[i].0) { return None; }
        let (fa, fb) = (a.frames.last().unwrap(), b.frames.last().unwrap());
        if fa.blk != fb.blk || fa.ip != fb.ip || !Rc::ptr_eq(&fa.f, &fb.f) { return None; }
        for i in 0..a.frames.len() - 1 { if !Rc::ptr_eq(&a.frames[i], &b.frames[i]) { return None; } }
        // differing objects
        for (k, o) in &a.mem { if let Some(p) = b.mem.get(k) { if p.cells.len() != o.cells.len() { return None; } } }
        // objects that live on one side only must not overlap those of the other side
        { let (mut x, mut y) = (a.mem.iter().peekable(), b.mem.iter().peekable()); let mut end = 0u64;
          loop { let (k, l) = match (x.peek(), y.peek()) { (None, None) => break, (Some(p), None) => { let r = (*p.0, p.1.cells.len()); x.next(); r } (None, Some(q)) => { let r = (*q.0, q.1.cells.len()); y.next(); r }
              (Some(p), Some(q)) => { let r = if p.0 <= q.0 { (*p.0, p.1.cells.len()) } else { (*q.0, q.1.cells.len()) }; if p.0 == q.0 { x.next(); y.next(); } else if p.0 < q.0 { x.next(); } else { y.next(); } r } };
            if k < end { return None; } end = k + l as u64; } }
        let mut k = 0; while k < a.pc.len() && k < b.pc.len() && a.pc[k] == b.pc[k] { k += 1; }
        let limit = a.merge; let mut cost = 0u64;
        for (kk, o) in &a.mem { if let Some(p) = b.mem.get(kk) { if !Rc::ptr_eq(o, p) { for i in 0..o.cells.len() { if o.cells[i] != p.cells[i] { cost += 1; } } } } }
        if cost > limit * 8 { return None; }
        let one = self.ar.konst(1, 1);
        let mut sa = one; for c in &a.pc[k..] { sa = self.ar.and1(sa, *c); }
        let mut sb = one; for c in &b.pc[k..] { sb = self.ar.and1(sb, *c); }
        let sel = { let mut r = None; for c in &a.pc[k..] { let n = self.ar.not1(*c); if b.pc[k..].contains(&n) { r = Some(*c); break; } } r.unwrap_or(sa) };
        let mut m = a.clone();
        m.pc.truncate(k);
        let or = self.ar.or1(sa, sb); self.addpc(&mut m, or);
        // common facts of both suffixes
        for c in &a.pc[k..] { if b.pc[k..].contains(c) { self.addpc(&mut m, *c); } }
        // registers
        let live = fa.f.live[fa.blk as usize].clone();
        { let mut fr = (**fa).clone();
            for r in 0..fr.regs.len() {
                if live[r / 64] >> (r % 64) & 1 == 0 { fr.regs[r] = Val::C(0); continue; }
                let t = fa.f.rty[r].clone(); let nv = self.mval(sel, &t, &fa.regs[r], &fb.regs[r])?; fr.regs[r] = nv;
            }
            *m.frames.last_mut().unwrap() = Rc::new(fr); }
        // memory
        for (kk, p) in &b.mem {
            match a.mem.get(kk) {
                None => { if !self.gobj.contains_key(kk) { m.mem.insert(*kk, p.clone()); } else { let g = self.gobj[kk].clone(); let n = self.mobj(sel, &g, p); m.mem.insert(*kk, Rc::new(n)); } }
                Some(o) => if !Rc::ptr_eq(o, p) { let n = self.mobj(sel, o, p); m.mem.insert(*kk, Rc::new(n)); }
            }
        }
        for (kk, o) in &a.mem { if b.mem.get(kk).is_none() { if let Some(g) = self.gobj.get(kk).cloned() { let n = self.mobj(sel, o, &g); m.mem.insert(*kk, Rc::new(n)); } } }
        m.steps = a.steps.max(b.steps);
        for i in 0..a.uf.len() { let (x, y) = (a.uf[i], b.uf[i]); if x != y { let p = self.ar.ite(sel, x.1, y.1); let q = self.ar.ite(sel, x.2, y.2); m.uf[i] = (x.0, p, q); } } m.bump = a.bump.max(b.bump); m.sbump = a.sbump.max(b.sbump);
        for i in 0..a.notes.len() { let w = a.notes[i].1; let (x, y) = (a.notes[i].0.clone(), b.notes[i].0.clone()); let (x, y) = (self.ex(&x, w), self.ex(&y, w)); let r = self.ar.ite(sel, x, y); m.notes[i].0 = self.mkv(r); }
        m.panic_ok = self.ar.ite(sel, a.panic_ok, b.panic_ok);
        m.reach.extend(b.reach.iter());
        Some(m)
    }
    fn mval(&mut self, c: Id, ty: &Ty, a: &Val, b: &Val) -> Option<Val> {
        match (a, b) {
            (Val::C(x), Val::C(y)) if x == y => Some(a.clone()),
            (Val::S(x), Val::S(y)) if x == y => Some(a.clone()),
            (Val::Agg(x), Val::Agg(y)) => { if Rc::ptr_eq(x, y) { return Some(a.clone()); } if x.len() != y.len() { return None; } let mut v = vec![]; for i in 0..x.len() { let t = match ty { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => return None }; v.push(self.mval(c, &t, &x[i], &y[i])?); } Some(Val::Agg(Rc::new(v))) }
            (Val::Agg(_), _) | (_, Val::Agg(_)) => None,
            _ => { if !ty.is_scalar() { return None; } let w = ty.bits(); let (x, y) = (self.ex(a, w), self.ex(b, w)); let r = self.ar.ite(c, x, y); Some(self.mkv(r)) }
        }
    }
    fn mobj(&mut self, c: Id, a: &Rc<Obj>, b: &Rc<Obj>) -> Obj {
        let mut o = (**a).clone(); let n = o.cells.len(); let mut i = 0;
        while i < n {
            if a.cells[i] == b.cells[i] { i += 1; continue; }
            // widen to an aligned power-of-two group when the differing bytes lie in one
            let g = if i % 8 == 0 || true { let st = i / 8 * 8; if st + 8 <= n { (st, 8) } else if i / 4 * 4 + 4 <= n { (i / 4 * 4, 4) } else { (i, 1) } } else { (i, 1) };
            let (st, l) = g;
            let x = self.cells_read(&a.cells[st..st + l]); let y = self.cells_read(&b.cells[st..st + l]);
            let (x, y) = (self.ex(&x, 8 * l as u32), self.ex(&y, 8 * l as u32));
            let r = self.ar.ite(c, x, y); let r = self.mkv(r); let cs = self.cells_of(&r, l, 8 * l as u32);
            for t in 0..l { if st + t >= i || a.cells[st + t] == b.cells[st + t] { o.cells[st + t] = cs[t]; } }
            i = st + l;
        }
        o
    }
    fn finish(&mut self, s: &State, panicked: bool) {
        self.paths += 1;
        for r in &s.reach { *self.reach.entry(*r).or_insert(0) += 1; }
        let okm = !self.real || s.pc.iter().all(|p| self.eval(s, *p) != 0);
        if okm && self.samples.len() < self.cfg.samples {
            let values = self.values(&s.model.borrow().sym, s);
            let notes = s.notes.iter().map(|(v, _)| match v { Val::C(k) => *k as u64, Val::S(e) => self.eval(s, *e) as u64, _ => 0 }).collect();
            self.samples.push(Sample { values, notes, panicked });
        }
    }
    fn values(&self, sym: &[u128], s: &State) -> Vec<u128> { s.syms.iter().enumerate().map(|(i, w)| mask(*sym.get(i).unwrap_or(&0), *w)).collect() }
    /// move to block b, evaluating its phis; true if this is the stop point
    fn goto(&mut self, s: &mut State, b: u32, stop: Option<Stop>) -> R<bool> {
        let depth = s.frames.len();
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        let prev = fr.blk; let f = fr.f.clone(); let ins = &f.f.blocks[b as usize];
        let mut vals: Vec<(u32, Val)> = vec![]; let mut ip = 0;
        while ip < ins.len() { if let Inst::Phi(_, v) = &ins[ip].inst { let o = v.iter().find(|x| x.0 == prev).ok_or_else(|| Ctl::Err("phi without edge".into()))?; vals.push((ins[ip].dst.unwrap(), Self::get(fr, &o.1))); ip += 1; } else { break; } }
        for (r, v) in vals { fr.regs[r as usize] = v; }
        fr.blk = b; fr.ip = ip;
        Ok(matches!(stop, Some(x) if x.depth == depth && x.blk == b))
    }
    fn set(&self, s: &mut State, d: Option<u32>, v: Val) { if let Some(d) = d { let fr = Rc::make_mut(s.frames.last_mut().unwrap()); fr.regs[d as usize] = v; } }
    fn adv(&self, s: &mut State) { Rc::make_mut(s.frames.last_mut().unwrap()).ip += 1; }
    /// execute until something happens
    fn go(&mut self, s: &mut State, stop: Option<Stop>) -> R<Step> {
        loop {
            if Rc::strong_count(s.frames.last().unwrap()) > 1 { Rc::make_mut(s.frames.last_mut().unwrap()); }
            let fr = Rc::get_mut(s.frames.last_mut().unwrap()).unwrap();
            let f = fr.f.clone();
            let i = &f.f.blocks[fr.blk as usize][fr.ip];
            self.insts += 1; s.steps += 1;
            if s.steps > self.cfg.path_insts { let sym = s.model.borrow().sym.clone(); self.violate(s, "hang", 0, vec![], &sym, ""); return Ok(Step::Dead); }
            if self.insts & 0xffff == 0 { if self.secs() > self.cfg.max_secs { if self.stuck.is_none() { let v = self.values(&s.model.borrow().sym, s); self.stuck = Some(v); } return Err(Ctl::Err(format!("time bound {}s exceeded", self.cfg.max_secs))); } if self.insts > self.cfg.max_insts { return Err(Ctl::Err("instruction bound exceeded".into())); } }
            if i.dbg != 0 { self.dbg_seen[i.dbg as usize] = true; }
            macro_rules! fin { ($v:expr) => {{ let mut v = $v; if self.real { v = self.pinned(s, v); } let fr = Rc::make_mut(s.frames.last_mut().unwrap()); if let Some(d) = i.dst { fr.regs[d as usize] = v; } fr.ip += 1; continue; }} }
            match &i.inst {
                Inst::Bin(op, t, a, b) => { let (mut a, mut b) = (Self::get(fr, a), Self::get(fr, b)); if matches!(op, Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem) { a = self.fcon(s, a, t)?; b = self.fcon(s, b, t)?; } else if self.real && matches!(op, Bin::Shl | Bin::LShr | Bin::AShr) && matches!(b, Val::S(_)) { b = Val::C(self.concretize(s, &b, t.bits())?); } fin!(self.bin(*op, t, &a, &b)?) }
                Inst::ICmp(p, t, a, b) => { let (a, b) = (Self::get(fr, a), Self::get(fr, b)); fin!(self.icmp(*p, t, &a, &b)?) }
                Inst::FCmp(p, t, a, b) => { let (a, b) = (Self::get(fr, a), Self::get(fr, b)); let a = self.fcon(s, a, t)?; let b = self.fcon(s, b, t)?; fin!(self.fcmp(p, t, &a, &b)?) }
                Inst::Cast(c, t1, v, t2) => { let mut v = Self::get(fr, v); if matches!(c, Cast::UIToFP | Cast::SIToFP | Cast::FPToUI | Cast::FPToSI | Cast::FPExt | Cast::FPTrunc) { v = self.fcon(s, v, t1)?; if self.cfg.fp && matches!(c, Cast::FPToUI | Cast::FPToSI) { if let Some(r) = self.int_div(s, &v, t2.bits(), *c == Cast::FPToSI) { fin!(r) } } } fin!(self.cast(*c, t1, &v, t2)?) }
                Inst::FNeg(t, v) => { let v = Self::get(fr, v); if self.real && matches!(v, Val::S(_)) { let m = Val::C((-1.0f64).to_bits() as u128); fin!(self.bin(Bin::FMul, &Ty::F64, &v, &m)?) } let w = t.bits(); let k = Val::C(1u128 << (w - 1)); fin!(self.bin(Bin::Xor, &Ty::Int(w), &v, &k)?) }
                Inst::Freeze(_, v) => { let v = Self::get(fr, v); fin!(v) }
                Inst::Select(ct, c, t, a, b) => { let (c, a, b) = (Self::get(fr, c), Self::get(fr, a), Self::get(fr, b)); fin!(self.select(&c, ct, t, &a, &b)?) }
                Inst::Load(t, a) => { let a = Self::get(fr, a); fin!(self.load(s, &a, t)?) }
                Inst::Store(t, v, a) => { let (v, a) = (Self::get(fr, v), Self::get(fr, a)); self.store(s, &a, t, &v)?; fin!(Val::C(0)) }
                Inst::Gep(b, off, ix) => {
                    let b = Self::get(fr, b); let mut acc = b; let mut koff = *off;
                    let mut parts: Vec<(Val, u32, i64)> = vec![];
                    for (o, w, st) in ix { match Self::get(fr, o) { Val::C(k) => koff = koff.wrapping_add((sext(k, *w) as i64).wrapping_mul(*st)), v => parts.push((v, *w, *st)) } }
                    for (v, w, st) in parts { let v = self.cast(if w < 64 { Cast::SExt } else { Cast::PtrToInt }, &Ty::Int(w), &v, &Ty::Int(64))?; let m = self.bin(Bin::Mul, &Ty::Int(64), &v, &Val::C(mask(st as u128, 64)))?; acc = self.bin(Bin::Add, &Ty::Int(64), &acc, &m)?; }
                    let r = self.bin(Bin::Add, &Ty::Int(64), &acc, &Val::C(mask(koff as u128, 64)))?; fin!(r)
                }
                Inst::Extract(_, v, ix) => { let mut v = Self::get(fr, v); for k in ix { v = match &v { Val::Agg(x) => x[*k as usize].clone(), _ => return Err(Ctl::Err("extractvalue".into())) }; } fin!(v) }
                Inst::Insert(t, v, e, ix) => { let base = Self::get(fr, v); let e = Self::get(fr, e); let base = match base { Val::Agg(_) => base, _ => P::zero(t) }; fin!(insert(&base, &e, ix)) }
                Inst::Alloca(t, n) => { let sz = t.size() * n; let al = t.align(); let a = self.alloc(s, sz, al, false); let fr = Rc::make_mut(s.frames.last_mut().unwrap()); fr.allocas.push(a); fin!(Val::C(a as u128)) }
                Inst::Fence => fin!(Val::C(0)),
                Inst::AtomicRmw(op, a, t, v) => { let (a, v) = (Self::get(fr, a), Self::get(fr, v)); let old = self.load(s, &a, t)?;
                    let n = match op.as_str() { "xchg" => v, "add" => self.bin(Bin::Add, t, &old, &v)?, "sub" => self.bin(Bin::Sub, t, &old, &v)?, "and" => self.bin(Bin::And, t, &old, &v)?, "or" => self.bin(Bin::Or, t, &old, &v)?, "xor" => self.bin(Bin::Xor, t, &old, &v)?, _ => return Err(Ctl::Err(format!("atomicrmw {}", op))) };
                    self.store(s, &a, t, &n)?; fin!(old) }
                Inst::CmpXchg(a, t, c, n) => { let (a, c, n) = (Self::get(fr, a), Self::get(fr, c), Self::get(fr, n)); let old = self.load(s, &a, t)?; let e = self.icmp(Pred::Eq, t, &old, &c)?; let nv = self.select(&e, &Ty::Int(1), t, &n, &old)?; self.store(s, &a, t, &nv)?; fin!(Val::Agg(Rc::new(vec![old, e]))) }
                Inst::ExtElt(_, v, k) => { let (v, k) = (Self::get(fr, v), Self::get(fr, k)); match (v, k) { (Val::Agg(x), Val::C(k)) => fin!(x[k as usize].clone()), _ => return Err(Ctl::Err("extractelement".into())) } }
                Inst::InsElt(t, v, e, k) => { let (v, e, k) = (Self::get(fr, v), Self::get(fr, e), Self::get(fr, k)); let v = match v { Val::Agg(_) => v, _ => P::zero(t) }; match k { Val::C(k) => fin!(insert(&v, &e, &[k as u32])), _ => return Err(Ctl::Err("insertelement".into())) } }
                Inst::Shuffle(_, a, b, mk) => { let (a, b) = (Self::get(fr, a), Self::get(fr, b)); match (a, b) { (Val::Agg(x), Val::Agg(y)) => { let r = mk.iter().map(|k| { let k = *k as usize; if k < x.len() { x[k].clone() } else { y[(k - x.len()).min(y.len() - 1)].clone() } }).collect(); fin!(Val::Agg(Rc::new(r))) } _ => return Err(Ctl::Err("shuffle".into())) } }
                Inst::Br(b) => { let b = *b; if self.goto(s, b, stop)? { return Ok(Step::Stop); } }
                Inst::CondBr(c, a, b) => { let (a, b) = (*a, *b); match Self::get(fr, c) { Val::C(k) => { if self.goto(s, if k & 1 == 1 { a } else { b }, stop)? { return Ok(Step::Stop); } }
                    Val::S(c) => { let n = self.ar.not1(c); return Ok(Step::Branch(vec![(c, a), (n, b)])); } _ => return Err(Ctl::Err("br".into())) } }
                Inst::Switch(t, v, d, cs) => { match Self::get(fr, v) {
                    Val::C(k) => { let b = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d); if self.goto(s, b, stop)? { return Ok(Step::Stop); } }
                    Val::S(e) => { let w = t.bits(); let mut by: BTreeMap<u32, Id> = BTreeMap::new(); let mut none = self.ar.konst(1, 1); let zero = self.ar.konst(0, 1);
                        for (k, b) in cs { let kk = self.ar.konst(*k, w); let q = self.ar.eq(e, kk); let nq = self.ar.not1(q); none = self.ar.and1(none, nq); let o = *by.get(b).unwrap_or(&zero); let o2 = self.ar.or1(o, q); by.insert(*b, o2); }
                        let o = *by.get(d).unwrap_or(&zero); let o2 = self.ar.or1(o, none); by.insert(*d, o2);
                        return Ok(Step::Branch(by.into_iter().map(|(b, c)| (c, b)).filter(|(c, _)| *c != zero).collect())); }
                    _ => return Err(Ctl::Err("switch".into())) } }
                Inst::Ret(_, v) => {
                    let v = v.as_ref().map(|v| Self::get(fr, v));
                    let fr = s.frames.pop().unwrap();
                    for a in &fr.allocas { s.mem.remove(a); }
                    if s.frames.is_empty() { s.frames.push(fr); return Ok(Step::Done); }
                    let (d, res) = (fr.ret_dst, fr.resume);
                    if let Some(v) = v { self.set(s, d, v); }
                    match res { Some(b) => { if self.goto(s, b, stop)? { return Ok(Step::Stop); } } None => self.adv(s) }
                    if let Some(x) = stop { if s.frames.len() < x.depth { return Err(Ctl::Err("returned past a merge point".into())); } }
                }
                Inst::Unreachable => return Err(Ctl::Err("reached unreachable".into())),
                Inst::Phi(..) => return Err(Ctl::Err("stray phi".into())),
                Inst::Unsupported(l) => return Err(Ctl::Err(format!("unsupported instruction: {}", l.trim()))),
                Inst::Call(cal, args, rty, dest) => {
                    let name: Rc<str> = match cal { Callee::Named(n) => n.clone(), Callee::Ptr(o) => { let v = Self::get(fr, o); let a = self.concretize(s, &v, 64)? as u64; match self.m.addr_fn.get(&a) { Some(n) => n.clone(), None => return Err(Ctl::Err(format!("indirect call to {:#x}", a))) } } };
                    if is_noise(&name) { if name.as_ref() == "llvm.assume" { } self.adv(s); continue; }
                    let fr = s.frames.last().unwrap();
                    let av: Vec<Val> = args.iter().map(|(_, o)| Self::get(fr, o)).collect();
                    if let Some(r) = self.builtin(s, &name, args, &av, rty, i.dbg)? {
                        match r { Bi::Val(v) => { self.set(s, i.dst, v); match dest { Some(b) => { let b = *b; if self.goto(s, b, stop)? { return Ok(Step::Stop); } } None => self.adv(s) } }
                            Bi::End => return Ok(Step::Dead) }
                        if self.dead { return Ok(Step::Dead); }
                        continue;
                    }
                    if *self.m.decl_noreturn.get(&*name).unwrap_or(&false) { return self.panic_event(s, &name, i.dbg); }
                    let Some(g) = self.finfo(&name) else { return Err(Ctl::Err(format!("call to unmodelled external {}", name))) };
                    self.fn_seen.insert(name.clone());
                    if s.frames.len() > 200 { return Err(Ctl::Err("call depth".into())); }
                    let mut regs = vec![Val::C(0); g.f.nregs];
                    for (k, p) in g.f.params.iter().enumerate() { if k < av.len() { regs[*p as usize] = av[k].clone(); } }
                    // byval is not used by rustc for Rust ABI
                    s.frames.push(Rc::new(Frame { f: g, blk: 0, ip: 0, regs, allocas: vec![], ret_dst: i.dst, resume: *dest }));
                }
            }
        }
    }
    fn panic_event(&mut self, s: &mut State, name: &str, dbg: u32) -> R<Step> {
        let ok = s.panic_ok; let bad = self.ar.not1(ok);
        self.checks += 1; *self.check_ids.entry(0).or_insert(0) += 1;
        if self.ar.cval(bad).is_none() { self.checks_symbolic += 1; }
        let mut loc = self.m.dbg_chain(dbg); let mut t = vec![]; for fr in s.frames.iter().rev().skip(1) { let ins = &fr.f.f.blocks[fr.blk as usize]; let k = fr.ip.min(ins.len() - 1); t.extend(self.m.dbg_chain(ins[k].dbg)); } loc.extend(t);
        match self.sv_check_model(s, bad)? {
            None => { self.panics_ok += 1; self.finish(s, true); }
            Some(sym) => { self.violate(s, "panic", 0, loc, &sym, name); }
        }
        Ok(Step::Dead)
    }
    fn sv_check_model(&mut self, s: &State, c: Id) -> R<Option<Vec<u128>>> {
        if self.ar.cval(c) == Some(0) { return Ok(None); }
        if self.real {
            let okm = |me: &Self, sym: Vec<u128>| -> bool { let mut m = Model::new(sym); s.pc.iter().all(|p| me.ar.eval(*p, &mut m) != 0) && me.ar.eval(c, &mut m) != 0 };
            if okm(self, s.model.borrow().sym.clone()) { return Ok(Some(s.model.borrow().sym.clone())); }
            return match self.chk(&s.pc, c) { Res::Unsat => Ok(None), Res::Unknown => Err(Ctl::Err(format!("solver returned unknown: {}", self.sv.note))), Res::Sat(m) => { let sym = self.model_with(s, &m).borrow().sym.clone(); if okm(self, sym.clone()) { Ok(Some(sym)) } else { Err(Ctl::Err("a model over the reals has no matching doubles".into())) } } };
        }
        if self.eval(s, c) != 0 { return Ok(Some(s.model.borrow().sym.clone())); }
        match self.chk(&s.pc, c) { Res::Unsat => Ok(None), Res::Sat(m) => Ok(Some(self.model_with(s, &m).borrow().sym.clone())), Res::Unknown => Err(Ctl::Err(format!("solver returned unknown {}", self.sv.note))) }
    }
    fn violate(&mut self, s: &State, kind: &str, id: u64, loc: Vec<(String, u32, String)>, sym: &[u128], f: &str) {
        let lk = loc.iter().find(|l| l.0.contains("src/") && !l.0.contains("/rustc/") && !l.0.contains("library/")).map(|l| l.1 as u64).unwrap_or(0);
        let key = (kind.to_string(), if kind == "panic" { lk } else { id });
        if !self.vseen.insert(key) { return; }
        let values = self.values(sym, s);
        self.violations.push(Violation { kind: kind.into(), id, loc, values, panic_fn: f.into(), rechecked: false });
        if !self.cfg.keep_going { self.dead = true; }
    }
    fn builtin(&mut self, s: &mut State, name: &str, args: &[(Ty, Opd)], av: &[Val], rty: &Ty, dbg: u32) -> R<Option<Bi>> {
        macro_rules! ret { ($v:expr) => { return Ok(Some(Bi::Val($v))) } }
        if let Some(r) = name.strip_prefix("llvm.") { return self.intrinsic(s, r, args, av, rty).map(|v| Some(Bi::Val(v))); }
        if let Some(r) = name.strip_prefix("sx_") {
            match r {
                "sym" => { let w = self.concretize(s, &av[0], 32)? as u32; let k = s.syms.len() as u32; s.syms.push(w); self.max_syms = self.max_syms.max(s.syms.len()); self.sym_bits = self.sym_bits.max(s.syms.iter().map(|x| *x as u64).sum());
                    let x = self.ar.sym(k, w); let x = self.ar.zext(x, 64); ret!(self.mkv(x)) }
                "uf" => {
                    let which = self.concretize(s, &av[0], 32)? as u32; let x = self.ex(&av[1], 64); let w = self.concretize(s, &av[2], 32)? as u32;
                    let k = s.syms.len() as u32; s.syms.push(w); self.max_syms = self.max_syms.max(s.syms.len()); self.sym_bits = self.sym_bits.max(s.syms.iter().map(|x| *x as u64).sum());
                    if let Some(e) = s.uf.iter().find(|e| e.0 == which && e.1 == x) { let v = e.2; let r = self.mkv(v); ret!(r) }
                    let f = self.ar.sym(k, w); let mut v = self.ar.zext(f, 64);
                    for i in (0..s.uf.len()).rev() { let e = s.uf[i]; if e.0 == which { let c = self.ar.eq(e.1, x); v = self.ar.ite(c, e.2, v); } }
                    s.uf.push((which, x, v));
                    if s.uf.len() > 96 { let sym = s.model.borrow().sym.clone(); self.violate(s, "hang", 0, vec![], &sym, ""); return Ok(Some(Bi::End)); } // rehashing without end
                    let r = self.mkv(v); ret!(r)
                }
                "real" => { // a double in [lo, hi]
                    let (lo, hi) = (f64::from_bits(self.concretize(s, &av[0], 64)? as u64), f64::from_bits(self.concretize(s, &av[1], 64)? as u64)); let k = s.syms.len() as u32; s.syms.push(64); self.max_syms = self.max_syms.max(s.syms.len()); self.sym_bits = self.sym_bits.max(s.syms.iter().map(|x| *x as u64).sum());
                    let Some(r) = self.sv.rl.as_mut() else { return Err(Ctl::Err("real symbol outside real mode".into())) };
                    if let Some(o) = r.ranges.insert(k, (lo, hi, true)) { if o != (lo, hi, true) { return Err(Ctl::Err("real symbol with two ranges".into())); } }
                    s.model = self.model_with(s, &[(k, ((lo * hi).sqrt()).clamp(lo, hi).to_bits() as u128)]); let x = self.ar.sym(k, 64); ret!(self.mkv(x)) }
                "int" => { let (lo, hi) = (self.concretize(s, &av[0], 64)? as u64, self.concretize(s, &av[1], 64)? as u64); let w = 64 - hi.leading_zeros(); let k = s.syms.len() as u32; s.syms.push(w); self.max_syms = self.max_syms.max(s.syms.len()); self.sym_bits = self.sym_bits.max(s.syms.iter().map(|x| *x as u64).sum());
                    let Some(r) = self.sv.rl.as_mut() else { return Err(Ctl::Err("real symbol outside real mode".into())) };
                    if let Some(o) = r.ranges.insert(k, (lo as f64, hi as f64, false)) { if o != (lo as f64, hi as f64, false) { return Err(Ctl::Err("symbol with two ranges".into())); } }
                    s.model = self.model_with(s, &[(k, lo as u128)]); let x = self.ar.sym(k, w); let x = self.ar.zext(x, 64); ret!(self.mkv(x)) }
                "param" => { let k = self.concretize(s, &av[0], 32)? as usize; match self.cfg.params.get(k) { Some(v) => ret!(Val::C(*v as u128)), None => return Err(Ctl::Err(format!("parameter {} not given", k))) } }
                "assume" => {
                    let c = self.ex(&av[0], 1); self.assumed += 1;
                    if self.eval(s, c) != 0 { self.addpc(s, c); ret!(Val::C(0)) }
                    match self.chk(&s.pc, c) { Res::Unsat => { self.infeasible += 1; return Err(Ctl::Dead); } Res::Unknown => return Err(Ctl::Err("solver returned unknown".into())), Res::Sat(m) => { s.model = self.model_with(s, &m); self.addpc(s, c); ret!(Val::C(0)) } }
                }
                "check" => {
                    let id = self.concretize(s, &av[1], 32)? as u64; let c = self.ex(&av[0], 1); self.checks += 1; *self.check_ids.entry(id).or_insert(0) += 1;
                    if self.ar.cval(c).is_none() { self.checks_symbolic += 1; }
                    let n = self.ar.not1(c);
                    if let Some(sym) = self.sv_check_model(s, n)? { let mut loc = self.m.dbg_chain(dbg); for fr in s.frames.iter().rev().skip(1) { let ins = &fr.f.f.blocks[fr.blk as usize]; let k = fr.ip.min(ins.len() - 1); loc.extend(self.m.dbg_chain(ins[k].dbg)); } self.violate(s, "check", id, loc, &sym, "");
                        if self.dead { return Err(Ctl::Dead); }
                        // continue on the side where it holds
                        if self.eval(s, c) == 0 { match self.chk(&s.pc, c) { Res::Sat(m) => s.model = self.model_with(s, &m), _ => return Err(Ctl::Dead) } }
                        self.addpc(s, c); }
                    ret!(Val::C(0))
                }
                "note" => { s.notes.push((av[0].clone(), 64)); ret!(Val::C(0)) }
                "reach" => { let k = self.concretize(s, &av[0], 32)? as u32; s.reach.insert(k); ret!(Val::C(0)) }
                "panic_ok" => { let c = self.ex(&av[0], 1); s.panic_ok = c; ret!(Val::C(0)) }
                "merge" => { s.merge = self.concretize(s, &av[0], 64)? as u64; ret!(Val::C(0)) }
                "split" => { let v = self.concretize(s, &av[0], 64)?; ret!(Val::C(v)) }
                "rng_split" => { s.rsplit = self.concretize(s, &av[0], 1)? & 1 == 1; ret!(Val::C(0)) }
                "rsplit" => { if s.rsplit { let v = self.concretize(s, &av[0], 64)?; ret!(Val::C(v)) } ret!(av[0].clone()) }
                "symbolic" => ret!(Val::C(1)),
                _ => return Err(Ctl::Err(format!("unknown api {}", name))),
            }
        }
        if name.contains("___rust_no_alloc_shim") || name.contains("__rust_no_alloc_shim") { ret!(Val::C(0)) }
        let is_f = matches!(name, "log" | "log2" | "log10" | "exp" | "exp2" | "pow" | "floor" | "ceil" | "round" | "trunc" | "sqrt" | "fabs" | "rint" | "log1p" | "expm1" | "fmin" | "fmax");
        if is_f && !self.m.fn_src.contains_key(name) { let mut a2 = vec![]; for v in av { a2.push(self.fcon(s, v.clone(), &Ty::F64)?); } let a2 = self.pick(s, name, &a2)?; let av = &a2[..]; return self.ffun(name, av).map(|v| Some(Bi::Val(v))); }
        match name {
            "malloc" | "calloc" | "realloc" | "posix_memalign" | "aligned_alloc" | "free" | "memcmp" | "bcmp" | "strlen" | "memchr" | "getrandom" | "syscall" | "getenv" | "__cxa_thread_atexit_impl" | "memcpy" | "memmove" | "memset" => {}
            _ => { if name.contains("hashmap_random_keys") { ret!(Val::Agg(Rc::new(vec![Val::C(0x0123456789abcdef), Val::C(0xfedcba9876543210)]))) } return Ok(None) }
        }
        if self.m.fn_src.contains_key(name) { return Ok(None); }
        let cz = |me: &mut Self, s: &mut State, k: usize| -> R<u64> { me.concretize(s, &av[k], 64).map(|x| x as u64) };
        // allocations of symbolic or very large size: address space is reserved, the first bytes are backed; any access beyond is an error
        if matches!(name, "malloc" | "calloc" | "aligned_alloc" | "posix_memalign") {
            let (k, one) = match name { "malloc" => (0, true), "calloc" => if matches!(av[1], Val::C(1)) { (0, true) } else { (1, matches!(av[0], Val::C(1))) }, "aligned_alloc" => (1, true), _ => (2, true) };
            let large = match &av[k] { Val::C(n) => *n > 1 << 22 && *n <= 1 << 46, Val::S(_) => true, _ => false };
            let only = match &av[k] { Val::S(e) => { let x = self.eval(s, *e); let kk = self.ar.konst(x, 64); let c = self.ar.eq(*e, kk); let n = self.ar.not1(c); matches!(self.chk(&s.pc, n), Res::Unsat) } _ => false };
            if one && large && !only {
                let n = self.ex(&av[k], 64); let lim = self.ar.konst(1 << 46, 64); let over = self.ar.ult(lim, n);
                match self.chk(&s.pc, over) { Res::Unsat => {} _ => return Err(Ctl::Err("allocation size not bounded by 2^46".into())) }
                let a = self.alloc(s, 4096, 64, true); s.bump += 1 << 46;
                if name == "posix_memalign" { self.store(s, &av[0], &Ty::Ptr, &Val::C(a as u128))?; ret!(Val::C(0)) }
                ret!(Val::C(a as u128))
            }
        }
        match name {
            "malloc" => { let n = cz(self, s, 0)?; self.big(n)?; let a = self.alloc(s, n, 16, true); ret!(Val::C(a as u128)) }
            "calloc" => { let n = cz(self, s, 0)?.checked_mul(cz(self, s, 1)?).unwrap_or(u64::MAX); self.big(n)?; let a = self.alloc(s, n, 16, true); ret!(Val::C(a as u128)) }
            "aligned_alloc" => { let al = cz(self, s, 0)?; let n = cz(self, s, 1)?; self.big(n)?; let a = self.alloc(s, n, al, true); ret!(Val::C(a as u128)) }
            "posix_memalign" => { let al = cz(self, s, 1)?; let n = cz(self, s, 2)?; self.big(n)?; let a = self.alloc(s, n, al, true); self.store(s, &av[0], &Ty::Ptr, &Val::C(a as u128))?; ret!(Val::C(0)) }
            "realloc" => { let p = cz(self, s, 0)?; let n = cz(self, s, 1)?; self.big(n)?; let old = s.mem.get(&p).cloned(); let a = self.alloc(s, n, 16, true);
                if let Some(o) = old { let l = (o.cells.len()).min(n as usize); let ob = Rc::make_mut(s.mem.get_mut(&a).unwrap()); ob.cells[..l].copy_from_slice(&o.cells[..l]); s.mem.remove(&p); } else if p != 0 { return Err(Ctl::Err("realloc of unknown block".into())); }
                ret!(Val::C(a as u128)) }
            "free" => { let p = cz(self, s, 0)?; if p != 0 && s.mem.remove(&p).is_none() { return Err(Ctl::Err(format!("free of unknown block {:#x}", p))); } ret!(Val::C(0)) }
            "memcpy" | "memmove" => { let n = cz(self, s, 2)?; self.copy_mem(s, &av[0], &av[1], n)?; ret!(av[0].clone()) }
            "memset" => { let n = cz(self, s, 2)?; self.memset(s, &av[0], &av[1], 32, n)?; ret!(av[0].clone()) }
            "memcmp" | "bcmp" => {
                let n = cz(self, s, 2)?; let w = rty.bits();
                let mut r = self.ar.konst(0, w); let m1 = self.ar.konst(!0, w); let p1 = self.ar.konst(1, w);
                let mut k = n; 
                while k > 0 { k -= 1; let (pa, pb) = (self.addo(&av[0], k), self.addo(&av[1], k)); let x = self.load(s, &pa, &Ty::Int(8))?; let y = self.load(s, &pb, &Ty::Int(8))?; let (x, y) = (self.ex(&x, 8), self.ex(&y, 8)); let e = self.ar.eq(x, y); let l = self.ar.ult(x, y); let d = self.ar.ite(l, m1, p1); r = self.ar.ite(e, r, d); }
                ret!(self.mkv(r))
            }
            "strlen" => { let mut n = 0u64; loop { let p = self.addo(&av[0], n); match self.load(s, &p, &Ty::Int(8))? { Val::C(0) => break, _ => n += 1 } } ret!(Val::C(n as u128)) }
            "getrandom" => { let n = cz(self, s, 1)?; self.memset(s, &av[0], &Val::C(0x5a), 8, n)?; ret!(Val::C(n as u128)) }
            "syscall" => { let nr = cz(self, s, 0)?; if nr == 318 { let n = cz(self, s, 2)?; self.memset(s, &av[1], &Val::C(0x5a), 8, n)?; ret!(Val::C(n as u128)) } return Err(Ctl::Err(format!("syscall {}", nr))) }
            "getenv" => ret!(Val::C(0)),
            "__cxa_thread_atexit_impl" => ret!(Val::C(0)),
            _ => Err(Ctl::Err(format!("unmodelled external {}", name))),
        }
    }
    fn big(&self, n: u64) -> R<()> { if n > (1 << 24) { Err(Ctl::Err(format!("allocation of {} bytes is outside the modelled bound", n))) } else { Ok(()) } }
    /// bit-precise mode has no logarithms and the like of symbolic values: go on with the current model's value only. A violation found
    /// this way is real; without one the job has no verdict (`under`).
    fn pick(&mut self, s: &mut State, name: &str, av: &[Val]) -> R<Vec<Val>> {
        if !self.cfg.fp || self.real || matches!(name, "floor" | "ceil" | "trunc" | "round" | "rint" | "roundeven" | "sqrt" | "fabs" | "fmin" | "fmax" | "copysign") { return Ok(av.to_vec()); }
        let mut o = vec![];
        for v in av { match v { Val::S(e) => { let x = self.eval(s, *e); let k = self.ar.konst(x, self.ar.w(*e)); let c = self.ar.eq(*e, k); self.addpc(s, c); self.under = Some(format!("transcendental {} of a symbolic value in bit-precise mode: followed for one value only", name)); o.push(Val::C(x)); } _ => o.push(v.clone()) } }
        Ok(o)
    }
    fn ffun(&mut self, name: &str, av: &[Val]) -> R<Val> {
        let k = fun_id(name);
        let w = 64; let a = self.ex(&av[0], w); let b = if av.len() > 1 { let bw = match &av[1] { Val::S(e) => self.ar.w(*e), _ => 64 }; self.ex(&av[1], bw) } else { NONE };
        let r = self.ar.mk(Op::FFun, 64, a, b, NONE, k); Ok(self.mkv(r))
    }
    /// round/ceil/floor/trunc(x / K) as an integer, for an integer x with |x| < 2^34 and an integer constant K <= 2^16: the
    /// double-precision quotient is exact enough (distance of x/K to the nearest other half integer is >= 2^-17, the rounding
    /// error is <= 2^-19 there) that integer division gives the same value.
    fn int_div(&mut self, s: &State, v: &Val, w2: u32, signed: bool) -> Option<Val> {
        if self.real { return None; }
        let Val::S(e) = v else { return None };
        let mut n = self.ar.node(*e); let mut mode = "trunc"; let mut q = *e;
        if n.op == Op::FFun { mode = FUNS[n.k as usize]; if !matches!(mode, "round" | "ceil" | "floor" | "trunc") { return None; } q = n.a; n = self.ar.node(q); }
        let (x, k) = match n.op {
            Op::FDiv => { let k = f64::from_bits(self.ar.cval(n.b)? as u64); (n.a, k) }
            Op::FMul => { let k = match self.ar.cval(n.b) { Some(k) => (n.a, k), None => (n.b, self.ar.cval(n.a)?) }; let f = f64::from_bits(k.1 as u64); if f.to_bits() & ((1 << 52) - 1) != 0 { return None; } (k.0, 1.0 / f) }
            _ => (q, 1.0) };
        if !(k >= 1.0 && k <= 65536.0) || k.fract() != 0.0 { return None; }
        let k = k as u128; let xn = self.ar.node(x); let sx = match xn.op { Op::S2F => true, Op::U2F => false, _ => return None };
        let i = xn.a; let iw = self.ar.w(i); let i = if iw < 72 { if sx { self.ar.sext(i, 72) } else { self.ar.zext(i, 72) } } else { return None };
        for b in [6u32, 10, 18, 34] {
            let off = self.ar.konst(1 << b, 72); let t = self.ar.mk(Op::Add, 72, i, off, NONE, 0); let lim = self.ar.konst(2 << b, 72); let inb = self.ar.ult(t, lim); let out = self.ar.not1(inb);
            if self.eval(s, out) != 0 { continue; }
            match self.chk(&s.pc, out) { Res::Unsat => {} Res::Sat(_) => continue, Res::Unknown => return None }
            let w = (b + 3).max(20); let y = self.ar.extract(i, 0, w); let kk = self.ar.konst(k, w); let zero = self.ar.konst(0, w);
            let qq = self.ar.mk(Op::SDiv, w, y, kk, NONE, 0); let m = self.ar.mk(Op::Mul, w, qq, kk, NONE, 0); let r = self.ar.mk(Op::Sub, w, y, m, NONE, 0);
            let (up, down) = match mode {
                "ceil" => (Some(self.ar.mk(Op::Slt, 1, zero, r, NONE, 0)), None), "floor" => (None, Some(self.ar.mk(Op::Slt, 1, r, zero, NONE, 0))), "trunc" => (None, None),
                _ => { let r2 = self.ar.mk(Op::Add, w, r, r, NONE, 0); let km = self.ar.konst(k - 1, w); let nk = self.ar.konst(1u128.wrapping_sub(k), w); (Some(self.ar.mk(Op::Slt, 1, km, r2, NONE, 0)), Some(self.ar.mk(Op::Slt, 1, r2, nk, NONE, 0))) } };
            let mut res = qq; let one = self.ar.konst(1, w);
            if let Some(c) = up { let p = self.ar.mk(Op::Add, w, res, one, NONE, 0); res = self.ar.ite(c, p, res); }
            if let Some(c) = down { let p = self.ar.mk(Op::Sub, w, res, one, NONE, 0); res = self.ar.ite(c, p, res); }
            if !signed { let neg = self.ar.mk(Op::Slt, 1, res, zero, NONE, 0); res = self.ar.ite(neg, zero, res); }
            let res = if w2 > w { self.ar.sext(res, w2) } else if w2 < w { return None } else { res };
            return Some(self.mkv(res));
        }
        None
    }
    fn memset(&mut self, s: &mut State, d: &Val, v: &Val, vw: u32, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (o, off) = self.resolve(s, d, n, "memset")?;
        let b = match v { Val::C(k) => Cell { id: 0, k: *k as u8 }, Val::S(e) => { let _ = vw; let x = self.ar.extract(*e, 0, 8); match self.ar.cval(x) { Some(k) => Cell { id: 0, k: k as u8 }, None => Cell { id: x.0, k: 0 } } } _ => return Err(Ctl::Err("memset".into())) };
        match off { Ok(k) => { let ob = self.obj_mut(s, &o)?; for c in &mut ob.cells[k as usize..(k + n) as usize] { *c = b; } Ok(()) }
            Err(_) => { let bv = Val::S(self.ar.konst(b.k as u128, 8)); let bv = if b.id == 0 { Val::C(b.k as u128) } else { let _ = bv; self.mkv(Id(b.id)) }; for i in 0..n { let p = self.addo(d, i); self.store(s, &p, &Ty::Int(8), &bv)?; } Ok(()) } }
    }
    fn intrinsic(&mut self, s: &mut State, r: &str, args: &[(Ty, Opd)], av: &[Val], rty: &Ty) -> R<Val> {
        let base = r.split('.').next().unwrap(); let mut idv: Option<Val> = None;
        let cv; let mut av = av;
        if !self.cfg.fp && (FUNS.contains(&base) || matches!(base, "fma" | "fmuladd" | "fptoui" | "fptosi" | "minnum" | "maxnum" | "minimumnum" | "maximumnum" | "powi" | "is")) { let mut a2 = vec![]; for (k, v) in av.iter().enumerate() { a2.push(if args[k].0.is_scalar() || matches!(args[k].0, Ty::Vec(..)) { self.fcon(s, v.clone(), &args[k].0)? } else { v.clone() }); } cv = a2; av = &cv; }
        match base {
            "memcpy" | "memmove" => { let w = args[2].0.bits(); let n = self.concretize(s, &av[2], w)? as u64; self.copy_mem(s, &av[0], &av[1], n)?; return Ok(Val::C(0)); }
            "memset" => { let w = args[2].0.bits(); let n = self.concretize(s, &av[2], w)? as u64; self.memset(s, &av[0], &av[1], 8, n)?; return Ok(Val::C(0)); }
            "threadlocal" => return Ok(av[0].clone()),
            "load" => { let p = self.bin(Bin::Add, &Ty::Int(64), &av[0], &av[1])?; let o = self.load(s, &p, &Ty::Int(32))?; let o = self.cast(Cast::SExt, &Ty::Int(32), &o, &Ty::Int(64))?; return self.bin(Bin::Add, &Ty::Int(64), &av[0], &o); }
            "trap" => return Err(Ctl::Err("llvm.trap".into())),
            "is" => { if r.starts_with("is.constant") { return Ok(Val::C(0)); }
                let (Val::C(x), Val::C(m)) = (&av[0], &av[1]) else { return Err(Ctl::Err("symbolic is.fpclass".into())) };
                let f = f64::from_bits(*x as u64); if args[0].0 != Ty::F64 { return Err(Ctl::Err("is.fpclass".into())); } let m = *m as u32; let neg = f.is_sign_negative(); use std::num::FpCategory::*;
                let bit = match f.classify() { Nan => if x >> 51 & 1 == 1 { 1 } else { 0 }, Infinite => if neg { 2 } else { 9 }, Normal => if neg { 3 } else { 8 }, Subnormal => if neg { 4 } else { 7 }, Zero => if neg { 5 } else { 6 } };
                return Ok(Val::C((m >> bit & 1) as u128)); }
            "expect" => return Ok(av[0].clone()),
            "objectsize" => return Ok(Val::C(ones(64))),
            "x86" => return Err(Ctl::Err(format!("intrinsic {}", r))),
            _ => {}
        }
        // element-wise for vectors
        if let Ty::Vec(n, e) = rty { if !r.starts_with("vector") && r.split('.').nth(1) != Some("with") { let mut out = vec![]; for k in 0..*n as usize { let a2: Vec<(Ty, Opd)> = args.iter().map(|(t, o)| (match t { Ty::Vec(_, e) => (**e).clone(), t => t.clone() }, o.clone())).collect(); let v2: Vec<Val> = av.iter().map(|v| match v { Val::Agg(x) => x[k].clone(), v => v.clone() }).collect(); out.push(self.intrinsic(s, r, &a2, &v2, e)?); } return Ok(Val::Agg(Rc::new(out))); } }
        if base == "vector" {
            let kind = r.split('.').nth(2).unwrap_or(""); if let (Ty::Vec(_, e), Val::Agg(xs)) = (&args[0].0, &av[0]) { let mut acc = xs[0].clone(); for x in &xs[1..] { acc = match kind { "add" => self.bin(Bin::Add, e, &acc, x)?, "or" => self.bin(Bin::Or, e, &acc, x)?, "and" => self.bin(Bin::And, e, &acc, x)?, "xor" => self.bin(Bin::Xor, e, &acc, x)?, "mul" => self.bin(Bin::Mul, e, &acc, x)?,
                "umax" => { let c = self.icmp(Pred::Ugt, e, &acc, x)?; self.select(&c, &Ty::Int(1), e, &acc, x)? } "umin" => { let c = self.icmp(Pred::Ult, e, &acc, x)?; self.select(&c, &Ty::Int(1), e, &acc, x)? } "smax" => { let c = self.icmp(Pred::Sgt, e, &acc, x)?; self.select(&c, &Ty::Int(1), e, &acc, x)? } "smin" => { let c = self.icmp(Pred::Slt, e, &acc, x)?; self.select(&c, &Ty::Int(1), e, &acc, x)? } _ => return Err(Ctl::Err(format!("intrinsic {}", r))) }; } return Ok(acc); }
            return Err(Ctl::Err(format!("intrinsic {}", r)));
        }
        let ty = &args[0].0; let w = if ty.is_scalar() { ty.bits() } else { return Err(Ctl::Err(format!("intrinsic {}", r))) };
        let two = |me: &mut Self, p: Pred| -> R<Val> { let c = me.icmp(p, ty, &av[0], &av[1])?; me.select(&c, &Ty::Int(1), ty, &av[0], &av[1]) };
        let name2: Vec<&str> = r.split('.').collect();
        match base {
            "umax" => return two(self, Pred::Ugt), "umin" => return two(self, Pred::Ult), "smax" => return two(self, Pred::Sgt), "smin" => return two(self, Pred::Slt),
            "uadd" | "sadd" | "usub" | "ssub" | "umul" | "smul" => {
                let sg = base.starts_with('s'); let bop = match &base[1..] { "add" => Bin::Add, "sub" => Bin::Sub, _ => Bin::Mul };
                let res = self.bin(bop, ty, &av[0], &av[1])?;
                let ov: Val = if let (Val::C(x), Val::C(y)) = (&av[0], &av[1]) {
                    let (x, y) = (*x, *y);
                    let o = if sg { let (a, b) = (sext(x, w), sext(y, w)); let f = match bop { Bin::Add => a.checked_add(b), Bin::Sub => a.checked_sub(b), _ => a.checked_mul(b) }; f.map_or(true, |v| w < 128 && sext(mask(v as u128, w), w) != v) }
                        else { let f = match bop { Bin::Add => x.checked_add(y), Bin::Sub => x.checked_sub(y), _ => x.checked_mul(y) }; f.map_or(true, |v| mask(v, w) != v) };
                    Val::C(o as u128)
                } else {
                    let (x, y) = (self.ex(&av[0], w), self.ex(&av[1], w));
                    let o = match (sg, bop) {
                        (false, Bin::Sub) => self.ar.ult(x, y),
                        (false, Bin::Add) => { let r = self.ex(&res, w); self.ar.ult(r, x) }
                        _ => { let ew = if bop == Bin::Mul { 2 * w } else { w + 1 }; if ew > 128 { return Err(Ctl::Err("wide overflow".into())); }
                            let xo = if sg { Op::SExt } else { Op::ZExt };
                            let a = self.ar.mk(xo, ew, x, NONE, NONE, 0); let b = self.ar.mk(xo, ew, y, NONE, NONE, 0); let o = match bop { Bin::Add => Op::Add, Bin::Sub => Op::Sub, _ => Op::Mul };
                            let p = self.ar.mk(o, ew, a, b, NONE, 0);
                            if sg && { let f = self.ar.facts(p); ew <= 120 && f.sl >= -(1i128 << (w - 1)) && f.sh < 1i128 << (w - 1) } { self.ar.konst(0, 1) } else if sg { let lo = self.ar.extract(p, 0, w); let back = self.ar.mk(Op::SExt, ew, lo, NONE, NONE, 0); let e = self.ar.eq(back, p); self.ar.not1(e) } else { let h = self.ar.extract(p, w, ew - w); let z = self.ar.konst(0, ew - w); let e = self.ar.eq(h, z); self.ar.not1(e) } }
                    };
                    self.mkv(o)
                };
                if name2.get(1) == Some(&"sat") {
                    let lim = match (sg, bop) { (false, Bin::Sub) => Val::C(0), (false, _) => Val::C(ones(w)), (true, Bin::Mul) => return Err(Ctl::Err(format!("intrinsic {}", r))),
                        // signed saturation: the limit has the sign of the first operand
                        _ => { let c = self.icmp(Pred::Slt, ty, &av[0], &Val::C(0))?; self.select(&c, &Ty::Int(1), ty, &Val::C(1u128 << (w - 1)), &Val::C((1u128 << (w - 1)) - 1))? } };
                    return self.select(&ov, &Ty::Int(1), ty, &lim, &res);
                }
                return Ok(Val::Agg(Rc::new(vec![res, ov])));
            }
            "fshl" | "fshr" => {
                let k = self.bin(Bin::URem, ty, &av[2], &Val::C(w as u128))?;
                if let Val::C(k) = k { let k = if base == "fshl" { k as u32 } else { (w - k as u32) % w }; if k == 0 { return Ok(if base == "fshl" { av[0].clone() } else { av[1].clone() }); }
                    let (x, y) = (self.ex(&av[0], w), self.ex(&av[1], w)); let h = self.ar.extract(x, 0, w - k); let l = self.ar.extract(y, w - k, k); let r = self.ar.concat(h, l); return Ok(self.mkv(r)); }
                let (x, y, k) = (self.ex(&av[0], w), self.ex(&av[1], w), self.ex(&k, w)); let c = self.ar.concat(x, y); let k2 = self.ar.zext(k, 2 * w);
                let r = if base == "fshl" { let t = self.ar.mk(Op::Shl, 2 * w, c, k2, NONE, 0); self.ar.extract(t, w, w) } else { let t = self.ar.mk(Op::LShr, 2 * w, c, k2, NONE, 0); self.ar.extract(t, 0, w) };
                return Ok(self.mkv(r));
            }
            "ctpop" => { if let Val::C(k) = av[0] { return Ok(Val::C(k.count_ones() as u128)); } let x = self.ex(&av[0], w); let r = self.ar.popcount(x, w); return Ok(self.mkv(r)); }
            "cttz" => { if let Val::C(k) = av[0] { return Ok(Val::C(if k == 0 { w } else { k.trailing_zeros() } as u128)); } let x = self.ex(&av[0], w); let r = self.ar.cttz(x, w); return Ok(self.mkv(r)); }
            "ctlz" => { if let Val::C(k) = av[0] { return Ok(Val::C(if k == 0 { w } else { k.leading_zeros() - (128 - w) } as u128)); } let x = self.ex(&av[0], w); if self.real { // case split on the position of the leading one
                    let k = self.eval(s, x); let c = if k == 0 { let z = self.ar.konst(0, w); self.ar.eq(x, z) } else { let n = 127 - k.leading_zeros(); let lo = self.ar.konst(1 << n, w); let a = self.ar.ult(x, lo); let a = self.ar.not1(a); if n + 1 < w { let hi = self.ar.konst(2 << n, w); let b = self.ar.ult(x, hi); self.ar.and1(a, b) } else { a } };
                    self.must(s, c)?; return Ok(Val::C(if k == 0 { w } else { k.leading_zeros() - (128 - w) } as u128)); }
                let r = self.ar.ctlz(x, w); return Ok(self.mkv(r)); }
            "bswap" => { let x = self.ex(&av[0], w); let mut acc: Option<Id> = None; for i in 0..w / 8 { let b = self.ar.extract(x, 8 * (w / 8 - 1 - i), 8); acc = Some(match acc { None => b, Some(l) => self.ar.concat(b, l) }); } return Ok(self.mkv(acc.unwrap())); }
            "bitreverse" => { let x = self.ex(&av[0], w); let mut acc: Option<Id> = None; for i in 0..w { let b = self.ar.extract(x, w - 1 - i, 1); acc = Some(match acc { None => b, Some(l) => self.ar.concat(b, l) }); } return Ok(self.mkv(acc.unwrap())); }
            "abs" => { let z = Val::C(0); let n = self.bin(Bin::Sub, ty, &z, &av[0])?; let c = self.icmp(Pred::Slt, ty, &av[0], &z)?; return self.select(&c, &Ty::Int(1), ty, &n, &av[0]); }
            "ucmp" | "scmp" => { let rw = rty.bits(); let (lt, gt) = if base == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) }; let l = self.icmp(lt, ty, &av[0], &av[1])?; let g = self.icmp(gt, ty, &av[0], &av[1])?; let x = self.select(&g, &Ty::Int(1), rty, &Val::C(1), &Val::C(0))?; return self.select(&l, &Ty::Int(1), rty, &Val::C(ones(rw)), &x); }
            "fptoui" | "fptosi" if self.cfg.fp && matches!(&av[0], Val::S(_)) && name2.get(1) == Some(&"sat") && { idv = self.int_div(s, &av[0], rty.bits(), base == "fptosi"); idv.is_some() } => return Ok(idv.unwrap()),
            "fptoui" if name2.get(1) == Some(&"sat") => return self.cast(Cast::FPToUI, ty, &av[0], rty),
            "fptosi" if name2.get(1) == Some(&"sat") => return self.cast(Cast::FPToSI, ty, &av[0], rty),
            "fma" | "fmuladd" => { let p = self.bin(Bin::FMul, ty, &av[0], &av[1])?; if let (Val::C(_), Val::C(_)) = (&p, &av[2]) { if let (Val::C(a), Val::C(b), Val::C(c)) = (&av[0], &av[1], &av[2]) { return Ok(Val::C(f64::from_bits(*a as u64).mul_add(f64::from_bits(*b as u64), f64::from_bits(*c as u64)).to_bits() as u128)); } } return Err(Ctl::Err("symbolic fma".into())); }
            "minnum" | "minimumnum" => return self.ffun("fmin", av), "maxnum" | "maximumnum" => return self.ffun("fmax", av),
            "copysign" => { let (x, y) = (self.ex(&av[0], 64), self.ex(&av[1], 64)); let s1 = self.ar.extract(y, 63, 1); let m = self.ar.extract(x, 0, 63); let r = self.ar.concat(s1, m); return Ok(self.mkv(r)); }
            "fabs" if self.real => return self.ffun("fabs", av),
            "powi" | "ldexp" if self.real => { let k = self.concretize(s, &av[1], args[1].0.bits())?; if k == 0 { return Ok(Val::C(if base == "powi" { 1.0f64.to_bits() as u128 } else if let Val::C(c) = av[0] { c } else { return Ok(av[0].clone()) })); } if k == 1 && base == "powi" { return Ok(av[0].clone()); } return self.ffun(base, &[av[0].clone(), Val::C(k)]); }
            "fabs" => { let x = self.ex(&av[0], 64); let m = self.ar.extract(x, 0, 63); let r = self.ar.zext(m, 64); return Ok(self.mkv(r)); }
            _ => {}
        }
        if FUNS.contains(&base) && *ty == Ty::F64 { let av = self.pick(s, base, av)?; return self.ffun(base, &av); }
        Err(Ctl::Err(format!("unmodelled intrinsic llvm.{}", r)))
    }
}
pub enum Bi { Val(Val), End }
fn insert(base: &Val, e: &Val, ix: &[u32]) -> Val { if ix.is_empty() { return e.clone(); } match base { Val::Agg(x) => { let mut v = (**x).clone(); v[ix[0] as usize] = insert(&x[ix[0] as usize], e, &ix[1..]); Val::Agg(Rc::new(v)) } _ => panic!("insertvalue") } }
fn fill(cells: &mut [Cell], off: usize, ty: &Ty, v: &Val) {
    match (ty, v) {
        (Ty::Struct(fs, _), Val::Agg(vs)) => { let (o, _) = ty.layout(); for (i, t) in fs.iter().enumerate() { fill(cells, off + o[i] as usize, t, &vs[i]); } }
        (Ty::Arr(_, t), Val::Agg(vs)) | (Ty::Vec(_, t), Val::Agg(vs)) => { for (i, x) in vs.iter().enumerate() { fill(cells, off + i * t.size() as usize, t, x); } }
        (t, Val::C(k)) => { for i in 0..t.size() as usize { cells[off + i] = Cell { id: 0, k: if i < 16 { (k >> (8 * i)) as u8 } else { 0 } }; } }
        _ => panic!("global initializer"),
    }
}
fn for_regs(i: &Inst, f: &mut dyn FnMut(u32)) {
    let mut o = |x: &Opd| if let Opd::Reg(r) = x { f(*r) };
    match i {
        Inst::Bin(_, _, a, b) | Inst::ICmp(_, _, a, b) | Inst::FCmp(_, _, a, b) => { o(a); o(b) }
        Inst::Cast(_, _, a, _) | Inst::FNeg(_, a) | Inst::Load(_, a) | Inst::Freeze(_, a) | Inst::CondBr(a, _, _) | Inst::Switch(_, a, _, _) | Inst::Extract(_, a, _) => o(a),
        Inst::Store(_, a, b) | Inst::Insert(_, a, b, _) | Inst::ExtElt(_, a, b) | Inst::Shuffle(_, a, b, _) | Inst::AtomicRmw(_, a, _, b) => { o(a); o(b) }
        Inst::Gep(b, _, ix) => { o(b); for (x, _, _) in ix { o(x) } }
        Inst::Phi(_, v) => { for (_, x) in v { o(x) } }
        Inst::Select(_, c, _, a, b) | Inst::CmpXchg(c, _, a, b) | Inst::InsElt(_, c, a, b) => { o(c); o(a); o(b) }
        Inst::Call(c, args, _, _) => { if let Callee::Ptr(x) = c { o(x) } for (_, x) in args { o(x) } }
        Inst::Ret(_, Some(v)) => o(v),
        _ => {}
    }
}

fn result_ty(i: &Inst) -> Ty {
    let cmp = |t: &Ty| match t { Ty::Vec(n, _) => Ty::Vec(*n, Rc::new(Ty::Int(1))), _ => Ty::Int(1) };
    match i {
        Inst::Bin(_, t, ..) | Inst::FNeg(t, _) | Inst::Load(t, _) | Inst::Phi(t, _) | Inst::Select(_, _, t, ..) | Inst::Insert(t, ..) | Inst::AtomicRmw(_, _, t, _) | Inst::Freeze(t, _) | Inst::InsElt(t, ..) | Inst::Call(_, _, t, _) => t.clone(),
        Inst::ICmp(_, t, ..) | Inst::FCmp(_, t, ..) => cmp(t),
        Inst::Cast(_, _, _, t) => t.clone(),
        Inst::Gep(..) | Inst::Alloca(..) => Ty::Ptr,
        Inst::Extract(t, _, ix) => { let mut c = t.clone(); for k in ix { c = match &c { Ty::Struct(f, _) => f[*k as usize].clone(), Ty::Arr(_, t) => (**t).clone(), _ => Ty::Other }; } c }
        Inst::CmpXchg(_, t, ..) => Ty::Struct(Rc::new(vec![t.clone(), Ty::Int(1)]), false),
        Inst::ExtElt(Ty::Vec(_, t), ..) => (**t).clone(),
        Inst::Shuffle(Ty::Vec(_, t), _, _, m) => Ty::Vec(m.len() as u64, t.clone()),
        _ => Ty::Other,
    }
}

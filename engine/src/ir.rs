//! Parser for the subset of textual LLVM IR that rustc emits.
use crate::expr::Id;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Vec(u64, Rc<Ty>), Other }

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; if b <= 1 { 1 } else if b <= 2 { 2 } else if b <= 4 { 4 } else if b <= 8 { 8 } else { (b + 15) / 16 * 16 } }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t { Ty::Int(w) => (n * w as u64 + 7) / 8, _ => n * t.size() },
            Ty::Struct(..) => { let (o, s) = self.layout(); let _ = o; s }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(_) => self.size().min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().max(1),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        if let Ty::Struct(f, p) = self {
            let mut o = 0u64; let mut v = vec![];
            for t in f.iter() { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } v.push(o); o += t.size(); }
            if !*p { let a = self.align(); o = (o + a - 1) / a * a; }
            (v, o)
        } else { panic!("layout of non-struct") }
    }
    /// bit width of a first-class scalar
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => panic!("bits of {:?}", self) } }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) }
}

#[derive(Clone, Debug)]
pub enum Val { C(u128), S(Id), Agg(Rc<Vec<Val>>) }

#[derive(Clone, Debug)]
pub enum Opd { Reg(u32), K(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, UIToFP, SIToFP, FPToUI, FPToSI, FPExt, FPTrunc }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(Bin, Ty, Opd, Opd),
    ICmp(Pred, Ty, Opd, Opd),
    FCmp(String, Ty, Opd, Opd),
    Cast(Cast, Ty, Opd, Ty),
    FNeg(Ty, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, i64, Vec<(Opd, u32, i64)>),
    Phi(Ty, Vec<(u32, Opd)>),
    Select(Ty, Opd, Ty, Opd, Opd),
    Call(Callee, Vec<(Ty, Opd)>, Ty, Option<u32>), // last: normal dest block for invoke
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<Opd>),
    Unreachable,
    Extract(Ty, Opd, Vec<u32>),
    Insert(Ty, Opd, Opd, Vec<u32>),
    Alloca(Ty, u64),
    AtomicRmw(String, Opd, Ty, Opd),
    CmpXchg(Opd, Ty, Opd, Opd),
    Fence,
    Freeze(Ty, Opd),
    ExtElt(Ty, Opd, Opd),
    InsElt(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Vec<i64>),
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub enum Callee { Named(Rc<str>), Ptr(Opd) }

pub struct I { pub dst: Option<u32>, pub inst: Inst, pub dbg: u32 }
pub struct Func { pub name: Rc<str>, pub params: Vec<u32>, pub ptys: Vec<Ty>, pub nregs: usize, pub blocks: Vec<Vec<I>>, pub noreturn: bool }

pub struct Global { pub name: String, pub ty: Ty, pub init: String, pub constant: bool, pub external: bool, pub addr: u64, pub size: u64, pub align: u64 }

pub struct Module {
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub gaddr: HashMap<String, u64>,
    pub fn_src: HashMap<String, (usize, usize)>,
    pub fn_addr: HashMap<String, u64>,
    pub addr_fn: HashMap<u64, Rc<str>>,
    pub decl_noreturn: HashMap<String, bool>,
    pub attr_noreturn: HashMap<String, bool>,
    pub lines: Vec<String>,
    pub md: HashMap<u32, usize>,
}

pub struct P<'a> { pub s: &'a [u8], pub i: usize, pub m: &'a Module, pub regs: Option<&'a mut HashMap<String, u32>> }

fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> P<'a> {
    pub fn new(s: &'a str, m: &'a Module) -> Self { P { s: s.as_bytes(), i: 0, m, regs: None } }
    pub fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') { self.i += 1; }
            if self.s[self.i.min(self.s.len())..].starts_with(b"/*") { while !self.s[self.i..].starts_with(b"*/") { self.i += 1; } self.i += 2; } else { return; }
        }
    }
    pub fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    pub fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    pub fn need(&mut self, c: u8) { if !self.eat(c) { panic!("IR parse: expected '{}' at ...{}", c as char, self.rest()) } }
    pub fn rest(&self) -> String { String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..]).chars().take(160).collect() }
    pub fn word(&mut self) -> &'a str {
        self.ws(); let b = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) { self.i += 1; }
        std::str::from_utf8(&self.s[b..self.i]).unwrap()
    }
    pub fn peek_word(&mut self) -> &'a str { let i = { self.ws(); self.i }; let w = self.word(); self.i = i; w }
    pub fn eat_word(&mut self, w: &str) -> bool { if self.peek_word() == w { self.word(); true } else { false } }
    /// name after a sigil
    pub fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1; let b = self.i;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = String::from_utf8_lossy(&self.s[b..self.i]).to_string(); self.i += 1; r
        } else {
            let b = self.i; while self.i < self.s.len() && is_id(self.s[self.i]) { self.i += 1; }
            String::from_utf8_lossy(&self.s[b..self.i]).to_string()
        }
    }
    pub fn skip_balanced(&mut self) { // at '('
        let mut d = 0; let mut q = false;
        loop {
            let c = self.s[self.i]; self.i += 1;
            if q { if c == b'"' { q = false; } continue; }
            match c { b'"' => q = true, b'(' => d += 1, b')' => { d -= 1; if d == 0 { return; } } _ => {} }
        }
    }
    pub fn at_type(&mut self) -> bool {
        let c = self.peek();
        if c == b'{' || c == b'[' || c == b'<' || c == b'%' { return true; }
        let w = self.peek_word();
        match w { "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "metadata" | "label" | "token" | "bfloat" => true,
            _ => w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()) }
    }
    pub fn skip_attrs(&mut self) {
        loop {
            if self.i >= self.s.len() { return; }
            if self.at_type() { return; }
            let c = self.peek();
            if c == b'#' { self.i += 1; self.word(); continue; }
            if c == b'"' { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; if self.eat(b'=') { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; } continue; }
            let w = self.peek_word();
            if w.is_empty() { return; }
            if w.as_bytes()[0].is_ascii_digit() || w.as_bytes()[0] == b'-' || w == "true" || w == "false" || w == "null" || w == "undef" || w == "poison" || w == "zeroinitializer" || w == "getelementptr" || w == "inttoptr" || w == "ptrtoint" || w == "blockaddress" || w == "splat" { return; }
            self.word();
            if w == "align" || w == "cc" || w == "addrspace" { if self.peek() == b'(' { self.skip_balanced(); } else { self.word(); } continue; }
            if self.i < self.s.len() && self.s[self.i] == b'(' { self.skip_balanced(); }
        }
    }
    pub fn ty(&mut self) -> Ty {
        let mut t = match self.peek() {
            b'{' => { self.i += 1; self.struct_body(b'}', false) }
            b'[' => { self.i += 1; let n: u64 = self.word().parse().unwrap(); assert!(self.eat_word("x")); let t = self.ty(); self.need(b']'); Ty::Arr(n, Rc::new(t)) }
            b'<' => { self.i += 1;
                if self.peek() == b'{' { self.i += 1; let t = self.struct_body(b'}', true); self.need(b'>'); t }
                else { let n: u64 = self.word().parse().unwrap(); assert!(self.eat_word("x")); let t = self.ty(); self.need(b'>'); Ty::Vec(n, Rc::new(t)) } }
            b'%' => { self.i += 1; let n = self.name(); self.m.types.get(&n).cloned().unwrap_or(Ty::Other) }
            _ => { let w = self.word(); match w {
                "ptr" => Ty::Ptr, "void" => Ty::Void, "float" => Ty::F32, "double" => Ty::F64, "metadata" | "label" | "token" | "half" | "fp128" | "x86_fp80" | "opaque" | "bfloat" => Ty::Other,
                _ => { if w.starts_with('i') { if let Ok(n) = w[1..].parse() { Ty::Int(n) } else { panic!("type {}", w) } } else { panic!("IR parse: type '{}' at {}", w, self.rest()) } } } }
        };
        // function types (varargs callee types)
        loop {
            if self.peek() == b'(' && matches!(t, Ty::Void | Ty::Int(_) | Ty::Ptr) && { let sv = self.i; self.i += 1; let r = self.at_type() || self.peek() == b'.' || self.peek() == b')'; let r2 = { // must look like a type list: find matching paren then space + @ or %
                    self.i = sv; self.skip_balanced(); let c = self.peek(); c == b'@' || c == b'%' }; self.i = sv; r && r2 } {
                self.skip_balanced(); continue;
            }
            if self.peek_word() == "addrspace" { self.word(); self.skip_balanced(); continue; }
            break;
        }
        if t == Ty::Other { t = Ty::Other; }
        t
    }
    fn struct_body(&mut self, close: u8, packed: bool) -> Ty {
        let mut v = vec![];
        while self.peek() != close { v.push(self.ty()); self.eat(b','); }
        self.need(close);
        Ty::Struct(Rc::new(v), packed)
    }
    pub fn reg(&mut self, n: String) -> u32 {
        let r = self.regs.as_mut().unwrap(); let k = r.len() as u32; *r.entry(n).or_insert(k)
    }
    pub fn val(&mut self, t: &Ty) -> Opd {
        if self.peek() == b'%' { self.i += 1; let n = self.name(); return Opd::Reg(self.reg(n)); }
        Opd::K(self.konst(t))
    }
    pub fn tval(&mut self) -> (Ty, Opd) { let t = self.ty(); self.skip_attrs_val(); let v = self.val(&t); (t, v) }
    pub fn skip_attrs_val(&mut self) {
        // parameter attributes between type and value
        loop {
            let c = self.peek();
            if c == b'"' { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; if self.eat(b'=') { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; } continue; }
            if !c.is_ascii_alphabetic() { return; }
            let w = self.peek_word(); if w.starts_with("f0x") || w.starts_with("0x") { return; }
            match w { "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "c" | "add" | "sub" | "trunc" | "none" | "bitcast" | "xor" | "dso_local_equivalent" | "no_cfi" | "blockaddress" => return, _ => {} }
            self.word();
            if w == "align" { if self.peek() == b'(' { self.skip_balanced(); } else { self.word(); } continue; }
            if self.i < self.s.len() && self.s[self.i] == b'(' { self.skip_balanced(); }
        }
    }
    pub fn zero(t: &Ty) -> Val {
        match t {
            Ty::Arr(n, e) => Val::Agg(Rc::new((0..*n).map(|_| Self::zero(e)).collect())),
            Ty::Vec(n, e) => Val::Agg(Rc::new((0..*n).map(|_| Self::zero(e)).collect())),
            Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(Self::zero).collect())),
            _ => Val::C(0),
        }
    }
    pub fn konst(&mut self, t: &Ty) -> Val {
        match self.peek() {
            b'@' => { self.i += 1; let n = self.name(); return Val::C(self.m.addr_of(&n) as u128); }
            b'{' => { self.i += 1; let v = self.list(b'}'); return Val::Agg(Rc::new(v)); }
            b'[' => { self.i += 1; let v = self.list(b']'); return Val::Agg(Rc::new(v)); }
            b'<' => { self.i += 1; if self.peek() == b'{' { self.i += 1; let v = self.list(b'}'); self.need(b'>'); return Val::Agg(Rc::new(v)); } let v = self.list(b'>'); return Val::Agg(Rc::new(v)); }
            b'!' => { self.i = self.s.len(); return Val::C(0); }
            _ => {}
        }
        if self.peek() == b'c' && self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' {
            self.i += 2; let mut v = vec![];
            while self.s[self.i] != b'"' {
                if self.s[self.i] == b'\\' { let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    if self.s[self.i + 1] == b'\\' { v.push(Val::C(b'\\' as u128)); self.i += 2; continue; }
                    v.push(Val::C(u8::from_str_radix(h, 16).unwrap() as u128)); self.i += 3; }
                else { v.push(Val::C(self.s[self.i] as u128)); self.i += 1; }
            }
            self.i += 1; return Val::Agg(Rc::new(v));
        }
        let st = self.i;
        let w = self.word();
        match w {
            "true" => Val::C(1), "false" | "null" | "none" => Val::C(0),
            "undef" | "poison" | "zeroinitializer" => Self::zero(t),
            "splat" => { self.need(b'('); let et = self.ty(); let v = self.konst(&et); self.need(b')'); let n = match t { Ty::Vec(n, _) => *n, _ => panic!() }; Val::Agg(Rc::new(vec![v; n as usize])) }
            "getelementptr" => {
                while self.peek().is_ascii_alphabetic() { self.word(); if self.i < self.s.len() && self.s[self.i] == b'(' && { let w = self.peek(); w == b'(' } { // inrange(...) or the operand list
                        let sv = self.i; self.i += 1; if self.at_type() { self.i = sv; break; } self.i = sv; self.skip_balanced(); } }
                self.need(b'('); let bt = self.ty(); self.need(b',');
                let (_, b) = self.tval(); let mut base = match b { Opd::K(Val::C(x)) => x as u64, _ => panic!("gep const") };
                let mut cur = bt.clone(); let mut first = true;
                while self.eat(b',') {
                    let (it, iv) = self.tval(); let k = match iv { Opd::K(Val::C(x)) => sext(x, it.bits()) as i64, _ => panic!() };
                    if first { base = base.wrapping_add((cur.size() as i64).wrapping_mul(k) as u64); first = false; continue; }
                    match cur.clone() { Ty::Arr(_, e) | Ty::Vec(_, e) => { base = base.wrapping_add((e.size() as i64).wrapping_mul(k) as u64); cur = (*e).clone(); }
                        Ty::Struct(f, _) => { base = base.wrapping_add(cur.layout().0[k as usize]); cur = f[k as usize].clone(); } _ => panic!("gep const type") }
                }
                self.need(b')'); Val::C(base as u128)
            }
            "inttoptr" | "ptrtoint" | "trunc" | "bitcast" => { self.need(b'('); let (_, v) = self.tval(); assert!(self.eat_word("to")); let tt = self.ty(); self.need(b')');
                match v { Opd::K(Val::C(x)) => Val::C(if let Ty::Int(b) = tt { mask(x, b) } else { x }), _ => panic!() } }
            "add" | "sub" | "xor" => { while self.peek() != b'(' { self.word(); } self.need(b'('); let (t1, a) = self.tval(); self.need(b','); let (_, b) = self.tval(); self.need(b')');
                match (a, b) { (Opd::K(Val::C(x)), Opd::K(Val::C(y))) => Val::C(mask(match w { "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), _ => x ^ y }, t1.bits())), _ => panic!() } }
            _ => {
                match t {
                    Ty::F64 | Ty::F32 => {
                        // decimal or 0x hex; decimal may contain '+'
                        let mut e = self.i; while e < self.s.len() && (is_id(self.s[e]) || self.s[e] == b'+') { e += 1; }
                        let txt = std::str::from_utf8(&self.s[st..e]).unwrap().trim(); self.i = e;
                        if let Some(h) = txt.strip_prefix("f0x") { Val::C(u128::from_str_radix(h, 16).unwrap()) } else if let Some(h) = txt.strip_prefix("0x") { let b = u64::from_str_radix(h, 16).unwrap(); let f = f64::from_bits(b);
                            if *t == Ty::F64 { Val::C(b as u128) } else { Val::C((f as f32).to_bits() as u128) } }
                        else { let f: f64 = txt.parse().unwrap_or_else(|_| panic!("float const {} in {}", txt, String::from_utf8_lossy(self.s))); if *t == Ty::F64 { Val::C(f.to_bits() as u128) } else { Val::C((f as f32).to_bits() as u128) } }
                    }
                    Ty::Int(b) => { if let Ok(x) = w.parse::<i128>() { Val::C(mask(x as u128, *b)) } else if let Ok(x) = w.parse::<u128>() { Val::C(mask(x, *b)) } else { panic!("IR parse: int const '{}' near {}", w, self.rest()) } }
                    _ => panic!("IR parse: const '{}' of {:?} near {}", w, t, self.rest()),
                }
            }
        }
    }
    fn list(&mut self, close: u8) -> Vec<Val> {
        let mut v = vec![];
        while self.peek() != close { let t = self.ty(); v.push(self.konst(&t)); self.eat(b','); }
        self.need(close); v
    }
}

pub fn mask(x: u128, w: u32) -> u128 { if w >= 128 { x } else { x & ((1u128 << w) - 1) } }
pub fn sext(x: u128, w: u32) -> i128 { if w >= 128 { x as i128 } else { let s = 128 - w; ((x << s) as i128) >> s } }

impl Module {
    pub fn addr_of(&self, n: &str) -> u64 {
        if let Some(a) = self.gaddr.get(n) { return *a; }
        if let Some(a) = self.fn_addr.get(n) { return *a; }
        panic!("unknown global @{}", n)
    }
    pub fn load(path: &str) -> Module {
        let txt = std::fs::read(path).expect("read IR"); let txt = String::from_utf8_lossy(&txt).into_owned();
        let lines: Vec<String> = txt.lines().map(|s| s.to_string()).collect();
        let mut m = Module { types: HashMap::new(), globals: vec![], gaddr: HashMap::new(), fn_src: HashMap::new(), fn_addr: HashMap::new(), addr_fn: HashMap::new(), decl_noreturn: HashMap::new(), attr_noreturn: HashMap::new(), lines: vec![], md: HashMap::new() };
        let mut gl: Vec<usize> = vec![]; let mut i = 0; let mut fnaddr = 0x1000u64; let mut fattr: HashMap<String, String> = HashMap::new();
        let mut aliases = vec![];
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with('@') { if l.contains(" alias ") { aliases.push(i) } else { gl.push(i); } }
            else if l.starts_with('%') {
                let eq = l.find(" = type ").unwrap(); let n = l[1..eq].trim_matches('"').to_string();
                let t = { let mut p = P::new(&l[eq + 8..], &m); if p.peek_word() == "opaque" { Ty::Other } else { p.ty() } };
                m.types.insert(n, t);
            }
            else if l.starts_with("define") || l.starts_with("declare") {
                let at = l.find('@').unwrap(); let mut p = P::new(&l[at + 1..], &m); let n = p.name();
                p.skip_balanced(); let tail = p.rest_full();
                if let Some(h) = tail.find('#') { let w: String = tail[h..].chars().take_while(|c| !c.is_whitespace()).collect(); fattr.insert(n.clone(), w); }
                m.fn_addr.insert(n.clone(), fnaddr); m.addr_fn.insert(fnaddr, Rc::from(n.as_str())); fnaddr += 16;
                if l.starts_with("define") { let b = i; while lines[i] != "}" { i += 1; } m.fn_src.insert(n, (b, i)); }
                else { m.decl_noreturn.insert(n, false); }
            }
            else if l.starts_with("attributes #") {
                let n: String = l[11..].chars().take_while(|c| !c.is_whitespace()).collect();
                m.attr_noreturn.insert(n, l.contains(" noreturn "));
            }
            else if l.starts_with('!') { let e = l.find(' ').unwrap_or(l.len()); if let Ok(k) = l[1..e].parse::<u32>() { m.md.insert(k, i); } }
            i += 1;
        }
        for (n, a) in &fattr { let nr = *m.attr_noreturn.get(a).unwrap_or(&false); m.decl_noreturn.insert(n.clone(), nr); }
        // globals: two passes (addresses first)
        let mut addr = 0x10_0000u64;
        for &k in &gl {
            let l = &lines[k]; let mut p = P::new(&l[1..], &m); let n = p.name(); p.need(b'=');
            let mut external = false; let constant;
            loop { let w = p.word(); match w { "external" | "extern_weak" => external = true, "global" => { constant = false; break; } "constant" => { constant = true; break; } "" => panic!("global {}", l), _ => { if p.i < p.s.len() && p.s[p.i] == b'(' { p.skip_balanced(); } } } }
            let ty = p.ty(); let rest = p.rest_full();
            let size = ty.size(); let mut align = ty.align().max(1); if let Some(a) = rest.rfind(", align ") { let d: String = rest[a + 8..].chars().take_while(|c| c.is_ascii_digit()).collect(); align = d.parse().unwrap_or(align); }
            addr = (addr + align.max(16) - 1) / align.max(16) * align.max(16);
            m.gaddr.insert(n.clone(), addr);
            m.globals.push(Global { name: n, ty, init: if external { String::new() } else { rest }, constant, external, addr, size, align });
            addr += size + 32;
        }
        for k in aliases { let l = &lines[k]; let (n, tgt) = { let mut p = P::new(&l[1..], &m); let n = p.name(); let a = l.rfind('@').unwrap(); let mut q = P::new(&l[a + 1..], &m); (n, q.name()) };
            if let Some(a) = m.gaddr.get(&tgt).copied() { m.gaddr.insert(n, a); } else if let Some(a) = m.fn_addr.get(&tgt).copied() { m.fn_addr.insert(n, a); } }
        m.lines = lines;
        m
    }
    pub fn global_init(&self, g: &Global) -> Val {
        let mut p = P::new(&g.init, self);
        p.konst(&g.ty)
    }
    pub fn func(&self, name: &str) -> Option<Func> {
        let &(b, e) = self.fn_src.get(name)?;
        let mut regs: HashMap<String, u32> = HashMap::new(); let mut params = vec![]; let mut ptys = vec![];
        {
            let l = &self.lines[b]; let at = l.find('@').unwrap();
            let mut p = P::new(&l[at + 1..], self); p.regs = Some(&mut regs); p.name(); p.need(b'(');
            let mut anon = 0;
            while p.peek() != b')' {
                if p.peek() == b'.' { p.i += 3; continue; }
                ptys.push(p.ty()); p.skip_attrs_val();
                if p.peek() == b'%' { p.i += 1; let n = p.name(); if n.parse::<u32>().is_ok() { anon += 1; } let r = p.reg(n); params.push(r); } else { let n = format!("{}", anon); anon += 1; let r = p.reg(n); params.push(r); }
                p.eat(b',');
            }
            drop(p);
            // join continuation lines
            let mut body: Vec<String> = vec![];
            for l in &self.lines[b + 1..e] {
                if l.is_empty() || l.trim_start().starts_with(';') || l.trim_start().starts_with("#dbg") { continue; }
                if (l.starts_with("    ") || l.starts_with("  ]")) && !body.is_empty() { let k = body.len() - 1; body[k].push(' '); body[k].push_str(l.trim()); } else { body.push(l.clone()); }
            }
            let mut labels: HashMap<String, u32> = HashMap::new(); let mut nb = 0u32;
            let first_label = body.first().map(|l| !l.starts_with(' ')).unwrap_or(false);
            if !first_label { labels.insert(format!("{}", anon), 0); nb = 1; }
            let lab = |l: &str| -> String { if l.starts_with('"') { let e = l[1..].find('"').unwrap(); l[1..1 + e].to_string() } else { let e = l.find(':').unwrap(); l[..e].to_string() } };
            for l in &body { if !l.starts_with(' ') { labels.insert(lab(l), nb); nb += 1; } }
            let mut blocks: Vec<Vec<I>> = vec![]; if !first_label { blocks.push(vec![]); }
            for l in &body {
                if !l.starts_with(' ') { blocks.push(vec![]); continue; }
                let ins = self.inst(l, &mut regs, &labels);
                blocks.last_mut().unwrap().push(ins);
            }
            return Some(Func { name: Rc::from(name), params, ptys, nregs: regs.len(), blocks, noreturn: *self.decl_noreturn.get(name).unwrap_or(&false) });
        }
    }
    fn inst(&self, l: &str, regs: &mut HashMap<String, u32>, labels: &HashMap<String, u32>) -> I {
        let dbg = if let Some(k) = l.rfind("!dbg !") { l[k + 6..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0) } else { 0 };
        let mut p = P::new(l, self); p.regs = Some(regs);
        let mut dst = None;
        if p.peek() == b'%' { p.i += 1; let n = p.name(); dst = Some(p.reg(n)); p.need(b'='); }
        let inst = Self::inst2(&mut p, labels, l);
        I { dst, inst, dbg }
    }
    fn inst2(p: &mut P, labels: &HashMap<String, u32>, l: &str) -> Inst {
        let mut op = p.word();
        if op == "tail" || op == "musttail" || op == "notail" { op = p.word(); }
        let label = |p: &mut P| -> u32 { p.need(b'%'); let n = p.name(); *labels.get(&n).unwrap_or_else(|| panic!("label {}", n)) };
        let b = match op { "add" => Some(Bin::Add), "sub" => Some(Bin::Sub), "mul" => Some(Bin::Mul), "udiv" => Some(Bin::UDiv), "sdiv" => Some(Bin::SDiv), "urem" => Some(Bin::URem), "srem" => Some(Bin::SRem), "and" => Some(Bin::And), "or" => Some(Bin::Or), "xor" => Some(Bin::Xor), "shl" => Some(Bin::Shl), "lshr" => Some(Bin::LShr), "ashr" => Some(Bin::AShr), "fadd" => Some(Bin::FAdd), "fsub" => Some(Bin::FSub), "fmul" => Some(Bin::FMul), "fdiv" => Some(Bin::FDiv), "frem" => Some(Bin::FRem), _ => None };
        if let Some(b) = b { while !p.at_type() { p.word(); } let (t, a) = p.tval(); p.need(b','); let c = p.val(&t); return Inst::Bin(b, t, a, c); }
        let c = match op { "trunc" => Some(Cast::Trunc), "zext" => Some(Cast::ZExt), "sext" => Some(Cast::SExt), "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt), "inttoptr" => Some(Cast::IntToPtr), "bitcast" => Some(Cast::BitCast), "uitofp" => Some(Cast::UIToFP), "sitofp" => Some(Cast::SIToFP), "fptoui" => Some(Cast::FPToUI), "fptosi" => Some(Cast::FPToSI), "fpext" => Some(Cast::FPExt), "fptrunc" => Some(Cast::FPTrunc), _ => None };
        if let Some(c) = c { while !p.at_type() { p.word(); } let (t, a) = p.tval(); assert!(p.eat_word("to")); let t2 = p.ty(); return Inst::Cast(c, t, a, t2); }
        match op {
            "icmp" => {
                let mut w = p.word(); if w == "samesign" { w = p.word(); }
                let pr = match w { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => panic!("icmp {}", w) };
                let (t, a) = p.tval(); p.need(b','); let b = p.val(&t); Inst::ICmp(pr, t, a, b)
            }
            "fcmp" => { let mut w = p.word(); while matches!(w, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { w = p.word(); } let w = w.to_string(); let (t, a) = p.tval(); p.need(b','); let b = p.val(&t); Inst::FCmp(w, t, a, b) }
            "fneg" => { while !p.at_type() { p.word(); } let (t, a) = p.tval(); Inst::FNeg(t, a) }
            "load" => { p.eat_word("atomic"); p.eat_word("volatile"); let t = p.ty(); p.need(b','); let (_, a) = p.tval(); Inst::Load(t, a) }
            "store" => { p.eat_word("atomic"); p.eat_word("volatile"); let (t, v) = p.tval(); p.need(b','); let (_, a) = p.tval(); Inst::Store(t, v, a) }
            "getelementptr" => {
                while !p.at_type() { p.word(); if p.i < p.s.len() && p.s[p.i] == b'(' { p.skip_balanced(); } }
                let bt = p.ty(); p.need(b','); let (_, base) = p.tval();
                let mut off = 0i64; let mut idx = vec![]; let mut cur = bt; let mut first = true;
                while p.eat(b',') {
                    if p.peek() == b'!' { break; }
                    let (it, iv) = p.tval();
                    let step;
                    if first { step = cur.size() as i64; first = false; }
                    else { match cur.clone() { Ty::Arr(_, e) | Ty::Vec(_, e) => { step = e.size() as i64; cur = (*e).clone(); }
                        Ty::Struct(f, _) => { let k = match iv { Opd::K(Val::C(x)) => x as usize, _ => panic!() }; off = off.wrapping_add(cur.layout().0[k] as i64); cur = f[k].clone(); continue; } _ => return Inst::Unsupported(l.to_string()) } }
                    match iv { Opd::K(Val::C(x)) => off = off.wrapping_add((sext(x, it.bits()) as i64).wrapping_mul(step)), Opd::Reg(_) => { if !it.is_scalar() { return Inst::Unsupported(l.to_string()); } idx.push((iv, it.bits(), step)) } _ => return Inst::Unsupported(l.to_string()) }
                }
                Inst::Gep(base, off, idx)
            }
            "phi" => { while !p.at_type() { p.word(); } let t = p.ty(); let mut v = vec![]; loop { p.need(b'['); let x = p.val(&t); p.need(b','); let lb = label(p); p.need(b']'); v.push((lb, x)); if !p.eat(b',') { break; } if p.peek() != b'[' { break; } } Inst::Phi(t, v) }
            "select" => { while !p.at_type() { p.word(); } let (ct, c) = p.tval(); p.need(b','); let (t, a) = p.tval(); p.need(b','); let (_, b) = p.tval(); Inst::Select(ct, c, t, a, b) }
            "br" => { if p.peek_word() == "label" { p.word(); Inst::Br(label(p)) } else { let (_, c) = p.tval(); p.need(b','); p.word(); let a = label(p); p.need(b','); p.word(); let b = label(p); Inst::CondBr(c, a, b) } }
            "switch" => { let (t, v) = p.tval(); p.need(b','); p.word(); let d = label(p); p.need(b'['); let mut cs = vec![]; while p.peek() != b']' { let (_, k) = p.tval(); p.need(b','); p.word(); let lb = label(p); if let Opd::K(Val::C(x)) = k { cs.push((x, lb)) } else { panic!() } } Inst::Switch(t, v, d, cs) }
            "ret" => { if p.peek_word() == "void" { Inst::Ret(Ty::Void, None) } else { let (t, v) = p.tval(); Inst::Ret(t, Some(v)) } }
            "unreachable" => Inst::Unreachable,
            "extractvalue" => { let (t, v) = p.tval(); let mut ix = vec![]; while p.eat(b',') { if p.peek() == b'!' { break; } ix.push(p.word().parse().unwrap()); } Inst::Extract(t, v, ix) }
            "insertvalue" => { let (t, v) = p.tval(); p.need(b','); let (_, e) = p.tval(); let mut ix = vec![]; while p.eat(b',') { if p.peek() == b'!' { break; } ix.push(p.word().parse().unwrap()); } Inst::Insert(t, v, e, ix) }
            "alloca" => { p.eat_word("inalloca"); let t = p.ty(); let mut n = 1u64; if p.eat(b',') { if p.at_type() { let (_, k) = p.tval(); if let Opd::K(Val::C(x)) = k { n = x as u64; } else { return Inst::Unsupported(l.to_string()); } } } Inst::Alloca(t, n) }
            "atomicrmw" => { p.eat_word("volatile"); let o = p.word().to_string(); let (_, a) = p.tval(); p.need(b','); let (t, v) = p.tval(); Inst::AtomicRmw(o, a, t, v) }
            "cmpxchg" => { p.eat_word("weak"); p.eat_word("volatile"); let (_, a) = p.tval(); p.need(b','); let (t, c) = p.tval(); p.need(b','); let (_, n) = p.tval(); Inst::CmpXchg(a, t, c, n) }
            "fence" => Inst::Fence,
            "freeze" => { let (t, v) = p.tval(); Inst::Freeze(t, v) }
            "extractelement" => { let (t, v) = p.tval(); p.need(b','); let (_, k) = p.tval(); Inst::ExtElt(t, v, k) }
            "insertelement" => { let (t, v) = p.tval(); p.need(b','); let (_, e) = p.tval(); p.need(b','); let (_, k) = p.tval(); Inst::InsElt(t, v, e, k) }
            "shufflevector" => { let (t, a) = p.tval(); p.need(b','); let (_, b) = p.tval(); p.need(b','); let (_, mk) = p.tval(); let ix = match mk { Opd::K(Val::Agg(v)) => v.iter().map(|x| if let Val::C(c) = x { *c as i64 } else { 0 }).collect(), _ => return Inst::Unsupported(l.to_string()) }; Inst::Shuffle(t, a, b, ix) }
            "call" | "invoke" => {
                p.skip_attrs(); let t = p.ty();
                let callee = match p.peek() {
                    b'@' => { p.i += 1; Callee::Named(Rc::from(p.name().as_str())) }
                    b'%' => { p.i += 1; let n = p.name(); Callee::Ptr(Opd::Reg(p.reg(n))) }
                    _ => { return Inst::Unsupported(l.to_string()) }
                };
                p.need(b'('); let mut args = vec![];
                while p.peek() != b')' {
                    let t = p.ty();
                    if t == Ty::Other { // metadata argument
                        let mut d = 0; loop { let c = p.peek(); if d == 0 && (c == b',' || c == b')') { break; } if c == b'(' { d += 1; } if c == b')' { d -= 1; } if c == b'"' { p.i += 1; while p.s[p.i] != b'"' { p.i += 1; } } p.i += 1; }
                        args.push((Ty::Other, Opd::K(Val::C(0)))); p.eat(b','); continue;
                    }
                    p.skip_attrs_val(); let v = p.val(&t); args.push((t, v)); p.eat(b',');
                }
                p.need(b')');
                let dest = if op == "invoke" { let s = p.rest_full(); let k = s.find("to label %").expect("invoke dest"); let mut q = P::new(&s[k + 10..], p.m); let n = q.name(); Some(labels[&n]) } else { None };
                Inst::Call(callee, args, t, dest)
            }
            _ => Inst::Unsupported(l.to_string()),
        }
    }
    /// (file, line, function) chain for a debug location, innermost first
    pub fn dbg_chain(&self, mut id: u32) -> Vec<(String, u32, String)> {
        let mut out = vec![];
        for _ in 0..64 {
            let Some(&ln) = self.md.get(&id) else { break };
            let l = &self.lines[ln];
            let get = |k: &str| -> Option<u32> { let p = l.find(k)?; l[p + k.len()..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok() };
            let line = get("line: ").unwrap_or(0);
            let Some(mut sc) = get("scope: !") else { break };
            let mut func = String::new(); let mut file = String::new();
            for _ in 0..32 {
                let Some(&sl) = self.md.get(&sc) else { break }; let s = &self.lines[sl];
                let gs = |k: &str| -> Option<u32> { let p = s.find(k)?; s[p + k.len()..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok() };
                if file.is_empty() { if let Some(f) = gs("file: !") { if let Some(&fl) = self.md.get(&f) { let fs = &self.lines[fl]; if let Some(p) = fs.find("filename: \"") { file = fs[p + 11..].chars().take_while(|c| *c != '"').collect(); if !file.starts_with('/') { if let Some(p) = fs.find("directory: \"") { file = format!("{}/{}", fs[p + 12..].chars().take_while(|c| *c != '"').collect::<String>(), file); } } } } } }
                if s.contains("!DISubprogram(") { if let Some(p) = s.find("name: \"") { func = s[p + 7..].chars().take_while(|c| *c != '"').collect(); } break; }
                match gs("scope: !") { Some(x) => sc = x, None => break }
            }
            out.push((file, line, func));
            match get("inlinedAt: !") { Some(x) => id = x, None => break }
        }
        out
    }
}
impl<'a> P<'a> { pub fn rest_full(&self) -> String { String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..]).to_string() } }

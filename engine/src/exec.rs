//! The symbolic executor: one path at a time, depth first, forking on symbolic control flow.
use crate::ir::{self, Bin, Callee, Cast, Cc, Cst, Module, Opd, Ty, I};
use crate::term::{mask, sx, Op, Terms, N, T};
use crate::z3::{Answer, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(T),
    A(Rc<Vec<V>>),
}

pub enum Stop {
    /// this path is over
    Path,
    /// this path is abandoned without a verdict
    Give(String),
}
pub type R<X> = Result<X, Stop>;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub ssize: Option<T>,
    pub data: Vec<u8>,
    pub sym: Vec<T>,
    pub kind: Kind,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Const,
    Global,
    Heap,
    Stack,
}

type Page = [Option<Rc<Obj>>; 64];

#[derive(Clone)]
pub struct Mem {
    pages: Vec<Option<Rc<Page>>>,
    next: u32,
    free: Vec<u32>,
}

fn empty_page() -> Page {
    std::array::from_fn(|_| None)
}

impl Mem {
    /// Bytes on the heap.
    fn live(&self) -> u64 {
        let objs = self.pages.iter().flatten().flat_map(|p| p.iter()).flatten();
        objs.filter(|o| o.kind == Kind::Heap).map(|o| o.size).sum()
    }
    fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.pages.get(id as usize / 64)?.as_ref()?[id as usize % 64].as_ref()
    }
    fn get_mut(&mut self, id: u32) -> &mut Obj {
        let p = Rc::make_mut(self.pages[id as usize / 64].as_mut().unwrap());
        Rc::make_mut(p[id as usize % 64].as_mut().unwrap())
    }
    fn put(&mut self, id: u32, o: Obj) {
        let p = id as usize / 64;
        if self.pages.len() <= p {
            self.pages.resize(p + 1, None);
        }
        let pg = self.pages[p].get_or_insert_with(|| Rc::new(empty_page()));
        Rc::make_mut(pg)[id as usize % 64] = Some(Rc::new(o));
    }
    fn add(&mut self, o: Obj) -> u32 {
        let id = if o.kind == Kind::Stack { self.free.pop() } else { None };
        let id = id.unwrap_or_else(|| {
            self.next += 1;
            self.next - 1
        });
        self.put(id, o);
        id
    }
    fn del(&mut self, id: u32) {
        let k = id as usize / 64;
        let p = self.pages[k].as_mut().unwrap();
        let pm = Rc::make_mut(p);
        let stack = pm[id as usize % 64].as_ref().map_or(false, |o| o.kind == Kind::Stack);
        pm[id as usize % 64] = None;
        if stack {
            self.free.push(id);
        } else if pm.iter().all(|x| x.is_none()) {
            self.pages[k] = None;
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    f: &'static Fun,
    regs: Vec<V>,
    bb: u32,
    prev: u32,
    ip: u32,
    allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Mem,
    pc: Vec<T>,
    conc: Rc<HashMap<T, u128>>,
    model: Rc<Vec<u8>>,
    inputs: Rc<Vec<Vec<T>>>,
    nvars: u32,
    steps: u64,
    reach: Rc<BTreeSet<String>>,
    notes: Rc<Vec<String>>,
    depth: u32,
    trail: u64,
    /// Single allocations beyond this are violations.
    alloc_limit: u64,
    /// All threads, of which the first is the program's own; empty until another one starts.
    thr: Vec<Thread>,
    cur: usize,
    /// How often a thread may still be interrupted by another.
    budget: u32,
    /// The current thread has just been given its turn.
    fresh: bool,
    /// Depth of sections in which no other thread runs (those of stand-ins).
    held: u32,
    turn: Turn,
}

#[derive(Clone)]
pub struct Thread {
    /// The stack, while another thread runs.
    frames: Vec<Rc<Frame>>,
    /// The address it waits at.
    wait: Option<u64>,
    /// Waits until all others are done.
    joining: bool,
    done: bool,
}
/// What the current thread asked for with its last call.
#[derive(Clone, Copy, PartialEq)]
pub enum Turn {
    Keep,
    /// It cannot go on.
    Block,
    /// Let another one run, if there is one.
    Yield,
}

#[derive(Clone, Debug)]
pub enum Target {
    Fun(usize),
    Intr(String),
    Ext(String),
}

pub struct Fun {
    pub f: ir::Func,
    pub csts: Vec<V>,
    pub targets: Vec<Target>,
    pub idx: usize,
    pub name: String,
    pub hook: Option<String>,
    /// Prints a number of so many bytes (0: a text) into a message.
    pub prints: Option<u64>,
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub at: Vec<String>,
    pub inputs: Vec<Vec<u8>>,
    pub notes: Vec<String>,
}

pub struct Cfg {
    pub steps: u64,
    pub seconds: f64,
    pub paths: u64,
    pub enum_limit: u32,
    pub trace: bool,
    /// which part of the tree of paths this process explores: (index, number of parts)
    pub shard: (u64, u64),
    pub thorough: bool,
    pub samples: usize,
}

pub struct Eng {
    funs: Vec<Option<&'static Fun>>,
    raw: Vec<Option<ir::Func>>,
    by_name: HashMap<String, usize>,
    gaddr: HashMap<String, u64>,
    gtab: Vec<(u64, u64, u32)>,
    pub ts: Terms,
    pub z: Z3,
    pub cfg: Cfg,
    st: State,
    work: Vec<State>,
    vpool: Vec<T>,
    pub viol: Vec<Violation>,
    pub gave_up: BTreeMap<String, u64>,
    pub reach: BTreeMap<String, u64>,
    pub paths: u64,
    pub assumed_away: u64,
    pub instrs: u64,
    pub forks: u64,
    pub checks: u64,
    pub checks_sym: u64,
    pub max_depth: u32,
    pub max_steps: u64,
    pub max_inputs: usize,
    pub seen: HashSet<usize>,
    pub left: usize,
    start: Instant,
    enums: HashMap<(T, usize), u32>,
    /// inputs of some paths that ran to their end
    pub samples: Vec<Vec<Vec<u8>>>,
    completed: u64,
    rng: u64,
}

const SHARD_DEPTH: u32 = 14;

const FUN_BASE: u64 = 0x6000_0000;
const LOCAL_BASE: u64 = 0x5e3d_0000;
const LOCAL_STEP: u64 = 0x1_0000;
const MAX_THREADS: usize = 5;
const GLOB_BASE: u64 = 0x0010_0000;
const BIG: u64 = 1 << 46;
const BACK: u64 = 1 << 16;

pub fn demangle(n: &str) -> String {
    if !n.starts_with("_ZN") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 3;
    let mut out: Vec<String> = Vec::new();
    while i < b.len() && b[i].is_ascii_digit() {
        let mut k = 0usize;
        while i < b.len() && b[i].is_ascii_digit() {
            k = k * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + k > n.len() {
            break;
        }
        out.push(n[i..i + k].to_string());
        i += k;
    }
    if out.last().map_or(false, |l| l.len() == 17 && l.starts_with('h')) {
        out.pop();
    }
    let s = out.join("::");
    let mut r = String::new();
    let mut k = 0;
    let sb = s.as_bytes();
    while k < s.len() {
        if sb[k] == b'$' {
            if let Some(e) = s[k + 1..].find('$') {
                let t = &s[k + 1..k + 1 + e];
                let x = match t {
                    "LT" => "<",
                    "GT" => ">",
                    "RF" => "&",
                    "BP" => "*",
                    "LP" => "(",
                    "RP" => ")",
                    "C" => ",",
                    "SP" => "@",
                    "u20" => " ",
                    "u7b" => "{",
                    "u7d" => "}",
                    "u5b" => "[",
                    "u5d" => "]",
                    "u27" => "'",
                    "u3b" => ";",
                    "u2b" => "+",
                    "u22" => "\"",
                    "u7e" => "~",
                    _ => "?",
                };
                r.push_str(x);
                k += e + 2;
                continue;
            }
        }
        if s[k..].starts_with("..") {
            r.push_str("::");
            k += 2;
            continue;
        }
        r.push(sb[k] as char);
        k += 1;
    }
    r.trim_start_matches('_').to_string()
}

/// Functions of the program whose body is replaced by the engine.
/// Functions of `core::fmt` that print a number or quote a text.  Applied to symbolic values they
/// print nothing: the text of a message is the one thing nothing here depends on.
fn prints(name: &str) -> Option<u64> {
    if name.contains("4core3fmt3num") || name.contains("4core3fmt5float") {
        let i = name.find("$u20$for$u20$")? + 13;
        return match &name[i..i + name[i..].find("$GT$")?] {
            "u8" | "i8" => Some(1),
            "u16" | "i16" => Some(2),
            "u32" | "i32" | "f32" => Some(4),
            "u64" | "i64" | "usize" | "isize" | "f64" => Some(8),
            "u128" | "i128" => Some(16),
            _ => None,
        };
    }
    if name.starts_with("_ZN40_$LT$str$u20$as$u20$core..fmt..Debug$GT$3fmt") {
        return Some(0);
    }
    None
}

fn hook_of(name: &str, dem: &str) -> Option<String> {
    let h = match dem {
        "core::panicking::panic_fmt" | "core::panicking::panic_nounwind_fmt" => "panic_fmt",
        "core::panicking::panic_nounwind_fmt::runtime" => "panic_fmt",
        "core::panicking::panic_cannot_unwind" | "core::panicking::panic_in_cleanup" => "panic_plain",
        "alloc::alloc::handle_alloc_error" | "std::alloc::rust_oom" => "oom",
        "std::process::abort" | "std::process::exit" => "abort",
        "std::io::stdio::print" | "std::io::stdio::_print" | "std::io::stdio::eprint" | "std::io::stdio::_eprint" => "nop",
        _ => "",
    };
    if !h.is_empty() {
        return Some(h.to_string());
    }
    if dem.contains("hashmap_random_keys") {
        return Some("random_keys".into());
    }
    match name {
        "__rust_alloc" | "__rust_alloc_zeroed" | "__rust_dealloc" | "__rust_realloc" => Some(name.to_string()),
        "__sym_bytes" | "__sym_choose" | "__sym_assume" | "__sym_check" | "__sym_fail" | "__sym_reach" | "__sym_note" | "__sym_thorough" | "__sym_alloc_limit" | "__sym_live" | "__sym_thread" | "__sym_join"
        | "__sym_hold" => {
            Some(name.to_string())
        }
        "rust_begin_unwind" | "_rust_begin_unwind" | "__rust_start_panic" | "rust_panic" => Some("panic_plain".into()),
        _ => None,
    }
}

impl Eng {
    pub fn new(m: Module, cfg: Cfg, z3ms: u32) -> Eng {
        let mut gaddr = HashMap::new();
        let mut gtab = Vec::new();
        let mut a = GLOB_BASE;
        let mut id = 1u32;
        for g in &m.globals {
            if g.init.is_none() && g.weak {
                gaddr.insert(g.name.clone(), 0);
                continue;
            }
            if g.local {
                continue;
            }
            let al = g.align.max(g.ty.align()).max(1);
            a = (a + al - 1) / al * al;
            gaddr.insert(g.name.clone(), a);
            let s = g.ty.size();
            gtab.push((a, s, id));
            id += 1;
            a += s + 16;
        }
        assert!(a < LOCAL_BASE, "globals too large");
        // what each thread has of its own, once for every thread
        let mut locals = Vec::new();
        for k in 0..MAX_THREADS {
            let mut a = LOCAL_BASE + LOCAL_STEP * k as u64;
            for (i, g) in m.globals.iter().enumerate() {
                if !g.local {
                    continue;
                }
                a = (a + 63) / 64 * 64;
                if k == 0 {
                    gaddr.insert(g.name.clone(), a);
                }
                let s = g.ty.size();
                gtab.push((a, s, id));
                locals.push((i, s, id));
                id += 1;
                a += s + 16;
            }
            assert!(a < LOCAL_BASE + LOCAL_STEP * (k as u64 + 1), "too much data of threads");
        }
        let mut by_name = HashMap::new();
        for (k, f) in m.funcs.iter().enumerate() {
            by_name.insert(f.name.clone(), k);
            gaddr.insert(f.name.clone(), FUN_BASE + 16 * k as u64);
        }
        let mut e = Eng {
            funs: vec![],
            raw: vec![],
            by_name,
            gaddr,
            gtab,
            ts: Terms::new(),
            z: Z3::new(z3ms),
            cfg,
            st: State {
                frames: vec![],
                mem: Mem { pages: vec![], next: id, free: vec![] },
                pc: vec![],
                conc: Rc::new(HashMap::new()),
                model: Rc::new(vec![]),
                inputs: Rc::new(vec![]),
                nvars: 0,
                steps: 0,
                reach: Rc::new(BTreeSet::new()),
                notes: Rc::new(vec![]),
                alloc_limit: u64::MAX,
                thr: vec![],
                cur: 0,
                budget: 0,
                fresh: false,
                held: 0,
                turn: Turn::Keep,
                depth: 0,
                trail: 0,
            },
            work: vec![],
            vpool: vec![],
            viol: vec![],
            gave_up: BTreeMap::new(),
            reach: BTreeMap::new(),
            paths: 0,
            assumed_away: 0,
            instrs: 0,
            forks: 0,
            checks: 0,
            checks_sym: 0,
            max_depth: 0,
            max_steps: 0,
            max_inputs: 0,
            seen: HashSet::new(),
            left: 0,
            start: Instant::now(),
            enums: HashMap::new(),
            samples: vec![],
            completed: 0,
            rng: 0x9e3779b97f4a7c15,
        };
        // aliases: resolve in rounds
        for _ in 0..3 {
            for (n, c) in &m.aliases {
                if let Cst::Global(g) = c {
                    if let Some(x) = e.gaddr.get(g).cloned() {
                        e.gaddr.insert(n.clone(), x);
                    }
                    if let Some(k) = e.by_name.get(g).cloned() {
                        e.by_name.insert(n.clone(), k);
                    }
                }
            }
        }
        // declared functions get addresses past the defined ones (only so that they can be compared)
        let mut k = m.funcs.len() as u64;
        for (n, _) in &m.decls {
            if !e.gaddr.contains_key(n) {
                e.gaddr.insert(n.clone(), FUN_BASE + 16 * k);
                k += 1;
            }
        }
        let mut gi = 0;
        for g in &m.globals {
            if g.init.is_none() && g.weak || g.local {
                continue;
            }
            let (_, s, id) = e.gtab[gi];
            gi += 1;
            let mut d = vec![0u8; s as usize];
            if let Some(c) = &g.init {
                e.write_cst(&g.ty, c, &mut d);
            }
            let kind = if g.constant { Kind::Const } else { Kind::Global };
            e.st.mem.put(id, Obj { size: s, ssize: None, data: d, sym: vec![], kind });
        }
        for (i, s, id) in locals {
            let mut d = vec![0u8; s as usize];
            if let Some(c) = &m.globals[i].init {
                e.write_cst(&m.globals[i].ty, c, &mut d);
            }
            e.st.mem.put(id, Obj { size: s, ssize: None, data: d, sym: vec![], kind: Kind::Global });
        }
        for f in m.funcs {
            e.raw.push(Some(f));
            e.funs.push(None);
        }
        e
    }

    fn fun(&mut self, k: usize) -> &'static Fun {
        if let Some(f) = self.funs[k] {
            return f;
        }
        let f = self.raw[k].take().unwrap();
        let csts = f.csts.iter().map(|(t, c)| self.cst_val(t, c)).collect();
        let targets = f
            .calls
            .iter()
            .map(|c| match &c.callee {
                Callee::Direct(n) => {
                    if n.starts_with("llvm.") {
                        Target::Intr(n[5..].to_string())
                    } else if let Some(k) = self.by_name.get(n) {
                        Target::Fun(*k)
                    } else {
                        Target::Ext(n.clone())
                    }
                }
                Callee::Asm(_) => Target::Intr("asm".into()),
                Callee::Indirect(_) => Target::Ext(String::new()),
            })
            .collect();
        let dem = demangle(&f.name);
        let hook = hook_of(&f.name, &dem);
        let prints = prints(&f.name);
        let b: &'static Fun = Box::leak(Box::new(Fun { f, csts, targets, idx: k, name: dem, hook, prints }));
        self.funs[k] = Some(b);
        b
    }

    // ---------------------------------------------------------------- constants
    fn cst_int(&self, ty: &Ty, c: &Cst) -> u128 {
        match c {
            Cst::Int(v) => *v,
            Cst::Undef | Cst::Zero => 0,
            Cst::Global(n) => *self.gaddr.get(n).unwrap_or_else(|| panic!("unknown global {}", n)) as u128,
            Cst::Gep(t, l) => {
                let mut a = self.cst_int(&l[0].0, &l[0].1) as u64;
                let mut cur: Option<Ty> = None;
                for (it, ic) in &l[1..] {
                    let ix = ir::sext64(self.cst_int(it, ic), it.bits());
                    match cur.take() {
                        None => {
                            a = a.wrapping_add((ix.wrapping_mul(t.size() as i64)) as u64);
                            cur = Some(t.clone());
                        }
                        Some(s @ Ty::Struct(..)) => {
                            a = a.wrapping_add(s.field_offset(ix as usize));
                            cur = Some(s.elem(ix as usize));
                        }
                        Some(s) => {
                            let e = s.elem(0);
                            a = a.wrapping_add((ix.wrapping_mul(e.size() as i64)) as u64);
                            cur = Some(e);
                        }
                    }
                }
                a as u128
            }
            Cst::Cast(b, to) => self.cst_int(&b.0, &b.1) & mask(to.bits()),
            Cst::Bin(o, t, b) => {
                let x = self.cst_int(t, &b.0);
                let y = self.cst_int(t, &b.1);
                let r = match o.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    "xor" => x ^ y,
                    "and" => x & y,
                    "or" => x | y,
                    "shl" => x << y,
                    _ => panic!("const op {}", o),
                };
                r & mask(t.bits())
            }
            c => panic!("constant {:?} of type {:?}", c, ty),
        }
    }
    fn write_cst(&self, ty: &Ty, c: &Cst, d: &mut [u8]) {
        match c {
            Cst::Zero | Cst::Undef => {}
            Cst::Bytes(b) => d[..b.len()].copy_from_slice(b),
            Cst::Agg(l) => {
                for (i, (t, c)) in l.iter().enumerate() {
                    let o = ty.field_offset(i) as usize;
                    let n = t.size() as usize;
                    let e = (o + n).min(d.len());
                    self.write_cst(t, c, &mut d[o..e]);
                }
            }
            c => {
                let v = self.cst_int(ty, c);
                let n = ty.store_size() as usize;
                d[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }
    fn zero(ty: &Ty) -> V {
        if ty.is_agg() {
            V::A(Rc::new((0..ty.count()).map(|i| Self::zero(&ty.elem(i))).collect()))
        } else {
            V::C(0)
        }
    }
    fn cst_val(&self, ty: &Ty, c: &Cst) -> V {
        match c {
            Cst::Zero | Cst::Undef if ty.is_agg() => Self::zero(ty),
            Cst::Agg(l) => V::A(Rc::new(l.iter().map(|(t, c)| self.cst_val(t, c)).collect())),
            Cst::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
            _ if matches!(ty, Ty::Meta | Ty::Label) => V::C(0),
            c => V::C(self.cst_int(ty, c)),
        }
    }

    // ---------------------------------------------------------------- values
    fn t(&mut self, v: &V, w: u32) -> T {
        match v {
            V::C(c) => self.ts.c(*c, w),
            V::S(t) => *t,
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, t: T) -> V {
        match self.ts.cval(t) {
            Some(c) => V::C(c),
            None => match self.st.conc.get(&t) {
                Some(c) => V::C(*c),
                None => V::S(t),
            },
        }
    }

    // ---------------------------------------------------------------- solver
    fn slice(&self, c: T) -> Vec<T> {
        let mut vars: Vec<u64> = (**self.ts.vars(c)).clone();
        let mut key = vec![c];
        let mut rest: Vec<T> = self.st.pc.clone();
        loop {
            let mut again = false;
            rest.retain(|p| {
                let pv = self.ts.vars(*p);
                if pv.iter().zip(vars.iter()).any(|(a, b)| a & b != 0) {
                    if vars.len() < pv.len() {
                        vars.resize(pv.len(), 0);
                    }
                    for (i, x) in pv.iter().enumerate() {
                        vars[i] |= x;
                    }
                    key.push(*p);
                    again = true;
                    false
                } else {
                    true
                }
            });
            if !again {
                break;
            }
        }
        key.sort();
        key.dedup();
        key
    }
    /// Is `c` possible on this path? Gives a model when it is.
    fn possible(&mut self, c: T) -> R<Option<Rc<Vec<u8>>>> {
        if let Some(v) = self.ts.cval(c) {
            return Ok(if v != 0 { Some(self.st.model.clone()) } else { None });
        }
        if self.ts.eval(c, &self.st.model.clone()) != 0 {
            return Ok(Some(self.st.model.clone()));
        }
        let key = self.slice(c);
        match self.z.check(&self.ts, key) {
            Answer::Unsat => Ok(None),
            Answer::Sat(l) => {
                let mut m = (*self.st.model).clone();
                for (v, x) in l {
                    if m.len() <= v as usize {
                        m.resize(v as usize + 1, 0);
                    }
                    m[v as usize] = x;
                }
                Ok(Some(Rc::new(m)))
            }
            Answer::Unknown => Err(Stop::Give("solver gave up on a query".into())),
        }
    }
    fn learn(&mut self, c: T, val: u128) {
        // facts for rewriting only
        let conc = Rc::make_mut(&mut self.st.conc);
        if conc.insert(c, val).is_some() {
            return;
        }
        match *self.ts.node(c) {
            N::Bin(Op::And, a, b) if val == 1 && self.ts.w(c) == 1 => {
                self.learn(a, 1);
                self.learn(b, 1);
            }
            N::Bin(Op::Or, a, b) if val == 0 && self.ts.w(c) == 1 => {
                self.learn(a, 0);
                self.learn(b, 0);
            }
            N::Bin(Op::Xor, a, k) if self.ts.cval(k) == Some(1) && self.ts.w(c) == 1 => self.learn(a, val ^ 1),
            N::Eq(a, b) if val == 1 => {
                if let Some(k) = self.ts.cval(b) {
                    self.learn(a, k);
                }
            }
            N::Cat(ref l) => {
                let l = l.clone();
                let mut sh = 0;
                for p in l.iter().rev() {
                    let w = self.ts.w(*p);
                    if self.ts.cval(*p).is_none() {
                        self.learn(*p, (val >> sh) & mask(w));
                    }
                    sh += w;
                }
            }
            _ => {}
        }
    }
    fn assume(&mut self, c: T) {
        if self.ts.cval(c).is_some() {
            return;
        }
        if let N::Bin(Op::And, a, b) = *self.ts.node(c) {
            self.assume(a);
            self.assume(b);
            Rc::make_mut(&mut self.st.conc).insert(c, 1);
            return;
        }
        self.st.pc.push(c);
        self.learn(c, 1);
    }
    /// The truth of `c` on this path; forks when both are possible. `rerun`: the sibling executes
    /// the current instruction again.
    fn decide(&mut self, c: T) -> R<bool> {
        if let V::C(x) = self.v(c) {
            return Ok(x != 0);
        }
        let m = self.st.model.clone();
        let b = self.ts.eval(c, &m) != 0;
        let nc = self.ts.not(c);
        let (yes, no) = if b { (c, nc) } else { (nc, c) };
        match self.possible(no)? {
            None => {
                let (k, v) = (c, b as u128);
                self.learn(k, v);
            }
            Some(m2) => {
                let mut sib = self.st.clone();
                std::mem::swap(&mut sib, &mut self.st);
                self.st.model = m2;
                self.step_trail(!b as u64);
                self.assume(no);
                let skip = self.foreign();
                std::mem::swap(&mut sib, &mut self.st);
                if !skip {
                    self.work.push(sib);
                }
                self.forks += 1;
                self.step_trail(b as u64);
                if self.foreign() {
                    return Err(Stop::Path);
                }
                self.assume(yes);
            }
        }
        Ok(b)
    }
    /// One value of `t`; forks over the others.
    fn pin(&mut self, v: &V, w: u32) -> R<u128> {
        let t = match v {
            V::C(c) => return Ok(*c),
            V::S(t) => *t,
            V::A(_) => panic!("pin aggregate"),
        };
        if let V::C(c) = self.v(t) {
            return Ok(c);
        }
        let m = self.st.model.clone();
        let x = self.ts.eval(t, &m);
        let k = self.ts.c(x, w);
        let e = self.ts.eq(t, k);
        let before = self.forks;
        let r = self.decide(e)?;
        if self.forks > before {
            let site = self.site();
            let n = self.enums.entry((t, site)).or_insert(0);
            *n += 1;
            if *n > self.cfg.enum_limit {
                return Err(Stop::Give("too many values of one symbolic quantity".into()));
            }
        }
        debug_assert!(r);
        self.learn(t, x);
        Ok(x)
    }
    fn site(&self) -> usize {
        let f = self.st.frames.last().unwrap();
        (f.f.idx << 24) ^ ((f.bb as usize) << 10) ^ f.ip as usize
    }

    // ---------------------------------------------------------------- verdicts
    fn where_(&self) -> Vec<String> {
        let mut v: Vec<String> = self.st.frames.iter().rev().map(|f| f.f.name.clone()).collect();
        v.truncate(24);
        v
    }
    fn inputs(&mut self, m: &Rc<Vec<u8>>) -> Vec<Vec<u8>> {
        let l = self.st.inputs.clone();
        l.iter().map(|g| g.iter().map(|t| self.ts.eval(*t, m) as u8).collect()).collect()
    }
    fn fail<X>(&mut self, kind: &str, msg: String, m: Option<Rc<Vec<u8>>>) -> R<X> {
        let m = m.unwrap_or_else(|| self.st.model.clone());
        let inputs = self.inputs(&m);
        let at = self.where_();
        let notes = (*self.st.notes).clone();
        if !self.viol.iter().any(|v| v.kind == kind && v.msg == msg) {
            self.viol.push(Violation { kind: kind.into(), msg, at, inputs, notes });
        }
        Err(Stop::Path)
    }

    // ---------------------------------------------------------------- memory
    fn obj_at(&self, a: u64) -> Option<(u32, u64, u64)> {
        if a < 1 << 32 {
            let k = match self.gtab.binary_search_by(|x| x.0.cmp(&a)) {
                Ok(k) => k,
                Err(0) => return None,
                Err(k) => k - 1,
            };
            let (b, s, id) = self.gtab[k];
            if a <= b + s {
                Some((id, a - b, b))
            } else {
                None
            }
        } else {
            let id = (a >> 32) as u32;
            self.st.mem.get(id)?;
            Some((id, a & 0xffff_ffff, a & !0xffff_ffff))
        }
    }
    fn place(&mut self, a: u64, n: u64, write: bool) -> R<(u32, u64)> {
        let (id, off) = match self.obj_at(a) {
            Some((id, off, _)) => (id, off),
            None => return self.fail("memory", format!("access to unmapped address {:#x}", a), None),
        };
        let o = self.st.mem.get(id).unwrap();
        if write && o.kind == Kind::Const {
            return self.fail("memory", "write to constant memory".into(), None);
        }
        if let Some(s) = o.ssize {
            let end = self.ts.c((off + n) as u128, 64);
            let bad = self.ts.ult(s, end);
            if let Some(m) = self.possible(bad)? {
                return self.fail("memory", "access past the end of an allocation of variable size".into(), Some(m));
            }
            if off + n > self.st.mem.get(id).unwrap().size {
                if off + n > 1 << 24 {
                    return Err(Stop::Give("very large access".into()));
                }
                let o = self.st.mem.get_mut(id);
                o.data.resize((off + n) as usize, 0);
                if !o.sym.is_empty() {
                    o.sym.resize((off + n) as usize, 0);
                }
                o.size = off + n;
            }
        } else if off + n > o.size {
            return self.fail("memory", format!("access of {} bytes at offset {} of {} ({:?})", n, off, o.size, o.kind), None);
        }
        Ok((id, off))
    }
    fn load_int(&mut self, id: u32, off: u64, n: u64, w: u32) -> V {
        let o = self.st.mem.get(id).unwrap().clone();
        let r = off as usize..(off + n) as usize;
        if o.sym.is_empty() || o.sym[r.clone()].iter().all(|x| *x == 0) {
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(&o.data[r]);
            return V::C(u128::from_le_bytes(b) & mask(w));
        }
        let mut parts = Vec::with_capacity(n as usize);
        let mut all = true;
        for i in r.rev() {
            let s = o.sym[i];
            if s == 0 {
                parts.push(self.ts.c(o.data[i] as u128, 8));
            } else if let Some(c) = self.st.conc.get(&s) {
                parts.push(self.ts.c(*c, 8));
            } else {
                all = false;
                parts.push(s);
            }
        }
        let _ = all;
        let t = self.ts.cat(&parts);
        let t = if n as u32 * 8 > w { self.ts.ext(t, 0, w) } else { t };
        self.v(t)
    }
    fn load(&mut self, a: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Struct(..) | Ty::Array(..) => {
                let mut v = Vec::new();
                for i in 0..ty.count() {
                    v.push(self.load(a + ty.field_offset(i), &ty.elem(i))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Vector(n, e) => {
                let ew = e.bits();
                if ew % 8 != 0 {
                    let sz = ty.store_size();
                    let (id, off) = self.place(a, sz, false)?;
                    let x = self.load_int(id, off, sz, sz as u32 * 8);
                    let t = self.t(&x, sz as u32 * 8);
                    let v = (0..*n).map(|i| {
                        let y = self.ts.ext(t, i * ew, ew);
                        self.v(y)
                    }).collect();
                    return Ok(V::A(Rc::new(v)));
                }
                let mut v = Vec::new();
                for i in 0..*n {
                    v.push(self.load(a + (i * ew / 8) as u64, e)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => {
                let n = ty.store_size();
                let (id, off) = self.place(a, n, false)?;
                Ok(self.load_int(id, off, n, ty.bits()))
            }
        }
    }
    fn store(&mut self, a: u64, ty: &Ty, v: &V) -> R<()> {
        match v {
            V::A(l) => {
                if let Ty::Vector(n, e) = ty {
                    let ew = e.bits();
                    if ew % 8 != 0 {
                        let w = ty.store_size() as u32 * 8;
                        let mut parts = Vec::new();
                        if w > n * ew {
                            parts.push(self.ts.c(0, w - n * ew));
                        }
                        for x in l.iter().rev() {
                            parts.push(self.t(x, ew));
                        }
                        let t = self.ts.cat(&parts);
                        let x = self.v(t);
                        return self.store(a, &Ty::Int(w), &x);
                    }
                }
                for (i, x) in l.iter().enumerate() {
                    self.store(a + ty.field_offset(i), &ty.elem(i), x)?;
                }
                Ok(())
            }
            V::C(c) => {
                let n = ty.store_size();
                let (id, off) = self.place(a, n, true)?;
                let o = self.st.mem.get_mut(id);
                let r = off as usize..(off + n) as usize;
                o.data[r.clone()].copy_from_slice(&c.to_le_bytes()[..n as usize]);
                if !o.sym.is_empty() {
                    for x in &mut o.sym[r] {
                        *x = 0;
                    }
                }
                Ok(())
            }
            V::S(t) => {
                let n = ty.store_size();
                let w = ty.bits();
                let (id, off) = self.place(a, n, true)?;
                let t = self.ts.zext(*t, (n * 8) as u32);
                let _ = w;
                let mut b = Vec::with_capacity(n as usize);
                for i in 0..n {
                    b.push(self.ts.ext(t, i as u32 * 8, 8));
                }
                for (i, x) in b.into_iter().enumerate() {
                    self.put_byte(id, off as usize + i, x);
                }
                Ok(())
            }
        }
    }
    fn put_byte(&mut self, id: u32, i: usize, t: T) {
        let c = self.ts.cval(t).or_else(|| self.st.conc.get(&t).cloned());
        let o = self.st.mem.get_mut(id);
        match c {
            Some(c) => {
                o.data[i] = c as u8;
                if !o.sym.is_empty() {
                    o.sym[i] = 0;
                }
            }
            None => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                o.sym[i] = t;
            }
        }
    }
    /// Bytes as terms (concrete ones as constants).
    fn bytes(&mut self, a: u64, n: u64) -> R<Vec<T>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.place(a, n, false)?;
        let o = self.st.mem.get(id).unwrap().clone();
        let mut v = Vec::with_capacity(n as usize);
        for i in off as usize..(off + n) as usize {
            if o.sym.is_empty() || o.sym[i] == 0 {
                v.push(self.ts.c(o.data[i] as u128, 8));
            } else if let Some(c) = self.st.conc.get(&o.sym[i]) {
                v.push(self.ts.c(*c, 8));
            } else {
                v.push(o.sym[i]);
            }
        }
        Ok(v)
    }
    fn copy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.place(s, n, false)?;
        let (di, dof) = self.place(d, n, true)?;
        let src = self.st.mem.get(si).unwrap().clone();
        let sr = so as usize..(so + n) as usize;
        let dr = dof as usize..(dof + n) as usize;
        let dst = self.st.mem.get_mut(di);
        if si == di {
            dst.data.copy_within(sr.clone(), dr.start);
            if !dst.sym.is_empty() {
                dst.sym.copy_within(sr, dr.start);
            }
            return Ok(());
        }
        dst.data[dr.clone()].copy_from_slice(&src.data[sr.clone()]);
        if !src.sym.is_empty() && src.sym[sr.clone()].iter().any(|x| *x != 0) {
            if dst.sym.is_empty() {
                dst.sym = vec![0; dst.data.len()];
            }
            dst.sym[dr].copy_from_slice(&src.sym[sr]);
        } else if !dst.sym.is_empty() {
            for x in &mut dst.sym[dr] {
                *x = 0;
            }
        }
        Ok(())
    }
    fn cstr(&self, a: u64, n: u64) -> String {
        if let Some((id, off, _)) = self.obj_at(a) {
            let o = self.st.mem.get(id).unwrap();
            let e = ((off + n) as usize).min(o.data.len());
            if (off as usize) <= e {
                return String::from_utf8_lossy(&o.data[off as usize..e]).into_owned();
            }
        }
        String::new()
    }
    fn peek(&self, a: u64) -> u64 {
        if let Some((id, off, _)) = self.obj_at(a) {
            let o = self.st.mem.get(id).unwrap();
            if off as usize + 8 <= o.data.len() {
                return u64::from_le_bytes(o.data[off as usize..off as usize + 8].try_into().unwrap());
            }
        }
        0
    }
    fn malloc(&mut self, size: &V, kind: Kind) -> R<V> {
        if self.st.alloc_limit != u64::MAX {
            let l = self.ts.c(self.st.alloc_limit as u128, 64);
            let t = self.t(size, 64);
            let bad = self.ts.ult(l, t);
            let m = match self.v(bad) {
                V::C(0) => None,
                V::C(_) => Some(self.st.model.clone()),
                _ => self.possible(bad)?,
            };
            if m.is_some() {
                return self.fail("check", "no memory is allocated by an announced length".into(), m);
            }
            self.learn(bad, 0);
        }
        let (n, ss) = match size {
            V::C(c) => (*c as u64, None),
            V::S(t) => {
                let t = *t;
                match self.v(t) {
                    V::C(c) => (c as u64, None),
                    _ => {
                        let lim = self.ts.c(BIG as u128, 64);
                        let big = self.ts.ult(lim, t);
                        if self.decide(big)? {
                            return Ok(V::C(0));
                        }
                        (BACK, Some(t))
                    }
                }
            }
            V::A(_) => unreachable!(),
        };
        if ss.is_none() && n > BIG {
            return Ok(V::C(0));
        }
        if ss.is_none() && n > 1 << 28 {
            return Err(Stop::Give("very large allocation".into()));
        }
        let id = self.st.mem.add(Obj { size: n, ssize: ss, data: vec![0; n as usize], sym: vec![], kind });
        Ok(V::C((id as u128) << 32))
    }
    fn free(&mut self, a: u64) -> R<()> {
        match self.obj_at(a) {
            Some((id, 0, _)) if self.st.mem.get(id).unwrap().kind == Kind::Heap => {
                self.st.mem.del(id);
                Ok(())
            }
            _ => self.fail("memory", "invalid free".into(), None),
        }
    }

    // ---------------------------------------------------------------- running
    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let k = *self.by_name.get(entry).ok_or(format!("no function {}", entry))?;
        let f = self.fun(k);
        self.push_frame(f, vec![]);
        self.start = Instant::now();
        loop {
            match self.path() {
                Ok(()) => {
                    self.sample();
                    self.end_path()
                }
                Err(Stop::Path) => self.end_path(),
                Err(Stop::Give(s)) => {
                    if std::env::var("ENGINE_TRACE").is_ok() {
                        let f = self.st.frames.last().unwrap();
                        eprintln!("gave up: {} at {:?} block {} instruction {}", s, self.where_(), f.bb, f.ip);
                    }
                    *self.gave_up.entry(s).or_insert(0) += 1;
                    self.end_path();
                }
            }
            if !self.viol.is_empty() {
                self.left = self.work.len();
                return Ok(());
            }
            if self.start.elapsed().as_secs_f64() > self.cfg.seconds || self.paths >= self.cfg.paths {
                self.left = self.work.len();
                if self.left > 0 {
                    *self.gave_up.entry("time or path limit".into()).or_insert(0) += 1;
                }
                return Ok(());
            }
            match self.work.pop() {
                Some(s) => self.st = s,
                None => return Ok(()),
            }
        }
    }
    fn mine(&self) -> bool {
        self.cfg.shard.1 <= 1 || (self.st.trail >> 20) % self.cfg.shard.1 == self.cfg.shard.0
    }
    /// One more decision on the current path.
    fn step_trail(&mut self, which: u64) {
        self.st.depth += 1;
        if self.st.depth <= SHARD_DEPTH {
            self.st.trail = (self.st.trail ^ (which + 1)).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23);
        }
    }
    fn foreign(&self) -> bool {
        self.st.depth == SHARD_DEPTH && !self.mine()
    }
    fn sample(&mut self) {
        if !self.mine() {
            return;
        }
        self.completed += 1;
        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let m = self.st.model.clone();
        if self.samples.len() < self.cfg.samples {
            let i = self.inputs(&m);
            self.samples.push(i);
        } else if self.cfg.samples > 0 {
            let k = ((self.rng >> 33) % self.completed) as usize;
            if k < self.samples.len() {
                self.samples[k] = self.inputs(&m);
            }
        }
    }
    fn end_path(&mut self) {
        if !self.mine() {
            return;
        }
        self.paths += 1;
        self.max_depth = self.max_depth.max(self.st.depth);
        self.max_steps = self.max_steps.max(self.st.steps);
        self.max_inputs = self.max_inputs.max(self.st.inputs.iter().map(|x| x.len()).sum());
        for r in self.st.reach.clone().iter() {
            *self.reach.entry(r.clone()).or_insert(0) += 1;
        }
    }
    fn push_frame(&mut self, f: &'static Fun, args: Vec<V>) {
        let mut regs = vec![V::C(0); f.f.nregs as usize];
        for ((_, r), a) in f.f.params.iter().zip(args) {
            regs[*r as usize] = a;
        }
        self.seen.insert(f.idx);
        self.st.frames.push(Rc::new(Frame { f, regs, bb: 0, prev: 0, ip: 0, allocas: vec![] }));
    }
    #[inline]
    fn top(&mut self) -> &mut Frame {
        Rc::make_mut(self.st.frames.last_mut().unwrap())
    }
    #[inline]
    fn o(&self, f: &'static Fun, o: &Opd) -> V {
        match o {
            Opd::Reg(r) => self.st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::Cst(c) => {
                let v = &f.csts[*c as usize];
                match v {
                    V::C(a) if self.st.cur != 0 && *a >= LOCAL_BASE as u128 && *a < (LOCAL_BASE + LOCAL_STEP) as u128 => {
                        V::C(*a + LOCAL_STEP as u128 * self.st.cur as u128)
                    }
                    _ => v.clone(),
                }
            }
        }
    }
    fn set(&mut self, d: Option<u32>, v: V) {
        let t = self.top();
        if let Some(d) = d {
            t.regs[d as usize] = v;
        }
        t.ip += 1;
    }
    fn goto(&mut self, bb: u32) {
        let fr = self.st.frames.last().unwrap();
        let f = fr.f;
        let from = fr.bb;
        let phis = &f.f.blocks[bb as usize].phis;
        if phis.is_empty() {
            let t = self.top();
            t.prev = from;
            t.bb = bb;
            t.ip = 0;
            return;
        }
        let vals: Vec<V> = phis
            .iter()
            .map(|p| self.o(f, p.inc.get(&from).unwrap_or_else(|| panic!("phi in {}", f.name))))
            .collect();
        let t = self.top();
        for (p, v) in phis.iter().zip(vals) {
            t.regs[p.dst as usize] = v;
        }
        t.prev = from;
        t.bb = bb;
        t.ip = 0;
    }
    /// Return `v` from the top frame.
    fn ret(&mut self, v: V) -> bool {
        let fr = self.st.frames.pop().unwrap();
        for a in &fr.allocas {
            self.st.mem.del(*a);
        }
        if self.st.frames.is_empty() {
            return true;
        }
        self.after_call(v);
        false
    }
    /// The call at the top frame's current instruction is done.
    fn after_call(&mut self, v: V) {
        let fr = self.st.frames.last().unwrap();
        let f = fr.f;
        let ins = &f.f.blocks[fr.bb as usize].ins[fr.ip as usize];
        let c = match ins.i {
            I::Call(k) => &f.f.calls[k],
            _ => unreachable!(),
        };
        let n = c.normal;
        self.set(ins.dst, v);
        if let Some(n) = n {
            self.goto(n);
        }
    }

    fn path(&mut self) -> R<()> {
        let mut tick = 0u32;
        loop {
            let fr = self.st.frames.last().unwrap();
            let f = fr.f;
            let ins = &f.f.blocks[fr.bb as usize].ins[fr.ip as usize];
            if ins.atomic && self.st.cur != 0 && self.st.held == 0 {
                if self.st.fresh {
                    self.st.fresh = false;
                } else if self.st.budget > 0 {
                    self.interrupt()?;
                }
            }
            self.instrs += 1;
            self.st.steps += 1;
            if self.st.steps > self.cfg.steps {
                return self.fail("hang", "no end within the instruction budget".into(), None);
            }
            tick += 1;
            if tick & 0xfffff == 0 && self.start.elapsed().as_secs_f64() > self.cfg.seconds + 20.0 {
                return Err(Stop::Give("time or path limit".into()));
            }
            match &ins.i {
                I::Bin(b, ty, x, y) => {
                    let (x, y) = (self.o(f, x), self.o(f, y));
                    let r = self.binop(*b, ty, &x, &y)?;
                    self.set(ins.dst, r);
                }
                I::Icmp(cc, ty, x, y) => {
                    let (x, y) = (self.o(f, x), self.o(f, y));
                    let r = self.icmp(*cc, ty, &x, &y);
                    self.set(ins.dst, r);
                }
                I::Load(ty, p) => {
                    let p = self.o(f, p);
                    let r = match p {
                        V::C(a) => self.load(a as u64, ty)?,
                        _ => self.load_sym(&p, ty)?,
                    };
                    self.set(ins.dst, r);
                }
                I::Store(ty, v, p) => {
                    let v = self.o(f, v);
                    let p = self.o(f, p);
                    let a = self.pin(&p, 64)? as u64;
                    self.store(a, ty, &v)?;
                    self.set(None, V::C(0));
                }
                I::Gep(b, off, vars) => {
                    let base = self.o(f, b);
                    let mut acc = match &base {
                        V::C(c) => V::C((*c as u64).wrapping_add(*off as u64) as u128),
                        V::S(t) => {
                            let k = self.ts.c(*off as u64 as u128, 64);
                            let r = self.ts.bin(Op::Add, *t, k);
                            self.v(r)
                        }
                        _ => return Err(Stop::Give("vector gep".into())),
                    };
                    for (o, w, s) in vars {
                        let x = self.o(f, o);
                        acc = match (&acc, &x) {
                            (V::C(a), V::C(i)) => {
                                let i = ir::sext64(*i, *w);
                                V::C((*a as u64).wrapping_add((i as u64).wrapping_mul(*s)) as u128)
                            }
                            _ => {
                                let a = self.t(&acc, 64);
                                let i = self.t(&x, *w);
                                let i = self.ts.sext(i, 64);
                                let k = self.ts.c(*s as u128, 64);
                                let p = self.ts.bin(Op::Mul, i, k);
                                let r = self.ts.bin(Op::Add, a, p);
                                self.v(r)
                            }
                        };
                    }
                    self.set(ins.dst, acc);
                }
                I::Br(b) => self.goto(*b),
                I::CondBr(c, x, y) => {
                    let c = self.o(f, c);
                    let b = match c {
                        V::C(c) => c & 1 != 0,
                        V::S(t) => self.decide(t)?,
                        _ => unreachable!(),
                    };
                    self.goto(if b { *x } else { *y });
                }
                I::Switch(ty, v, d, cs) => {
                    let v = self.o(f, v);
                    let w = ty.bits();
                    let t = match v {
                        V::C(c) => V::C(c),
                        V::S(t) => self.v(t),
                        _ => unreachable!(),
                    };
                    match t {
                        V::C(c) => {
                            let b = cs.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*d);
                            self.goto(b);
                        }
                        V::S(t) => {
                            let m = self.st.model.clone();
                            let x = self.ts.eval(t, &m);
                            let b = cs.iter().find(|k| k.0 == x).map(|k| k.1).unwrap_or(*d);
                            // v goes to b
                            let mut here = self.ts.c(0, 1);
                            let mut other = self.ts.c(0, 1);
                            for (k, l) in cs {
                                let kc = self.ts.c(*k, w);
                                let e = self.ts.eq(t, kc);
                                if *l == b {
                                    here = self.ts.bin(Op::Or, here, e);
                                } else {
                                    other = self.ts.bin(Op::Or, other, e);
                                }
                            }
                            if b == *d {
                                here = self.ts.not(other);
                            }
                            if !self.decide(here)? {
                                return Err(Stop::Give("switch".into()));
                            }
                            self.goto(b);
                        }
                        _ => unreachable!(),
                    }
                }
                I::Ret(v) => {
                    let r = match v {
                        Some((_, o)) => self.o(f, o),
                        None => V::C(0),
                    };
                    if self.ret(r) {
                        if self.st.cur == 0 {
                            return Ok(());
                        }
                        let c = self.st.cur;
                        self.st.thr[c].done = true;
                        self.next_thread(Turn::Block)?;
                    }
                }
                I::Call(k) => {
                    self.call(f, *k)?;
                    if self.st.turn != Turn::Keep {
                        let t = std::mem::replace(&mut self.st.turn, Turn::Keep);
                        self.next_thread(t)?;
                    }
                }
                I::Select(ct, ty, c, x, y) => {
                    let c = self.o(f, c);
                    let (x, y) = (self.o(f, x), self.o(f, y));
                    let r = match (&c, ct) {
                        (V::C(c), _) => {
                            if c & 1 != 0 {
                                x
                            } else {
                                y
                            }
                        }
                        (V::A(cs), _) => {
                            let (xs, ys) = match (&x, &y) {
                                (V::A(a), V::A(b)) => (a.clone(), b.clone()),
                                _ => unreachable!(),
                            };
                            let et = ty.elem(0);
                            let w = et.bits();
                            let mut out = Vec::new();
                            for i in 0..cs.len() {
                                let ct = self.t(&cs[i], 1);
                                let a = self.t(&xs[i], w);
                                let b = self.t(&ys[i], w);
                                let r = self.ts.ite(ct, a, b);
                                out.push(self.v(r));
                            }
                            V::A(Rc::new(out))
                        }
                        (V::S(t), _) => {
                            if let V::C(b) = self.v(*t) {
                                if b != 0 {
                                    x
                                } else {
                                    y
                                }
                            } else if *ty == Ty::Ptr || ty.is_agg() {
                                if self.decide(*t)? {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                let w = ty.bits();
                                let a = self.t(&x, w);
                                let b = self.t(&y, w);
                                let r = self.ts.ite(*t, a, b);
                                self.v(r)
                            }
                        }
                    };
                    self.set(ins.dst, r);
                }
                I::Cast(c, from, x, to) => {
                    let x = self.o(f, x);
                    let r = self.cast(*c, from, &x, to)?;
                    self.set(ins.dst, r);
                }
                I::Alloca(ty, n, _) => {
                    let k = match n {
                        Some(o) => {
                            let v = self.o(f, o);
                            self.pin(&v, 64)? as u64
                        }
                        None => 1,
                    };
                    let s = ty.size() * k;
                    let id = self.st.mem.add(Obj { size: s, ssize: None, data: vec![0; s as usize], sym: vec![], kind: Kind::Stack });
                    self.top().allocas.push(id);
                    self.set(ins.dst, V::C((id as u128) << 32));
                }
                I::Extract(_, a, ix) => {
                    let mut v = self.o(f, a);
                    for i in ix {
                        v = match &v {
                            V::A(l) => l[*i as usize].clone(),
                            _ => unreachable!(),
                        };
                    }
                    self.set(ins.dst, v);
                }
                I::Insert(_, a, _, v, ix) => {
                    let a = self.o(f, a);
                    let v = self.o(f, v);
                    let r = insert(&a, v, ix);
                    self.set(ins.dst, r);
                }
                I::ExtractEl(_, a, i) => {
                    let a = self.o(f, a);
                    let i = self.o(f, i);
                    let i = self.pin(&i, 64)? as usize;
                    let v = match &a {
                        V::A(l) => l[i].clone(),
                        _ => unreachable!(),
                    };
                    self.set(ins.dst, v);
                }
                I::InsertEl(_, a, v, i) => {
                    let a = self.o(f, a);
                    let v = self.o(f, v);
                    let i = self.o(f, i);
                    let i = self.pin(&i, 64)? as u32;
                    let r = insert(&a, v, &[i]);
                    self.set(ins.dst, r);
                }
                I::Shuffle(_, a, b, m) => {
                    let (a, b) = match (self.o(f, a), self.o(f, b)) {
                        (V::A(a), V::A(b)) => (a, b),
                        _ => unreachable!(),
                    };
                    let n = a.len() as i32;
                    let r = m
                        .iter()
                        .map(|i| {
                            if *i < 0 {
                                V::C(0)
                            } else if *i < n {
                                a[*i as usize].clone()
                            } else {
                                b[(*i - n) as usize].clone()
                            }
                        })
                        .collect();
                    self.set(ins.dst, V::A(Rc::new(r)));
                }
                I::Freeze(_, a) => {
                    let v = self.o(f, a);
                    self.set(ins.dst, v);
                }
                I::Fence => self.set(None, V::C(0)),
                I::AtomicRmw(op, ty, p, v) => {
                    let p = self.o(f, p);
                    let v = self.o(f, v);
                    let a = self.pin(&p, 64)? as u64;
                    let old = self.load(a, ty)?;
                    let w = ty.bits();
                    let n = match op.as_str() {
                        "xchg" => v,
                        "add" => self.binop(Bin::Add, ty, &old, &v)?,
                        "sub" => self.binop(Bin::Sub, ty, &old, &v)?,
                        "and" => self.binop(Bin::And, ty, &old, &v)?,
                        "or" => self.binop(Bin::Or, ty, &old, &v)?,
                        "xor" => self.binop(Bin::Xor, ty, &old, &v)?,
                        "nand" => {
                            let x = self.binop(Bin::And, ty, &old, &v)?;
                            self.binop(Bin::Xor, ty, &x, &V::C(mask(w)))?
                        }
                        "max" | "min" | "umax" | "umin" => {
                            let (a, b) = (self.t(&old, w), self.t(&v, w));
                            let c = if op.starts_with('u') { self.ts.ult(a, b) } else { self.ts.slt(a, b) };
                            let r = if op.ends_with("max") { self.ts.ite(c, b, a) } else { self.ts.ite(c, a, b) };
                            self.v(r)
                        }
                        o => return Err(Stop::Give(format!("atomicrmw {}", o))),
                    };
                    self.store(a, ty, &n)?;
                    self.set(ins.dst, old);
                }
                I::CmpXchg(ty, p, c, n) => {
                    let p = self.o(f, p);
                    let c = self.o(f, c);
                    let n = self.o(f, n);
                    let a = self.pin(&p, 64)? as u64;
                    let old = self.load(a, ty)?;
                    let e = self.icmp(Cc::Eq, ty, &old, &c);
                    let b = match e {
                        V::C(x) => x != 0,
                        V::S(t) => self.decide(t)?,
                        _ => unreachable!(),
                    };
                    if b {
                        self.store(a, ty, &n)?;
                    }
                    self.set(ins.dst, V::A(Rc::new(vec![old, V::C(b as u128)])));
                }
                I::Fcmp(cc, ty, x, y) => {
                    let (x, y) = (self.o(f, x), self.o(f, y));
                    let (a, b) = (self.fp(&x, ty)?, self.fp(&y, ty)?);
                    let un = a.is_nan() || b.is_nan();
                    let r = match cc.as_str() {
                        "oeq" => a == b,
                        "one" => a != b && !un,
                        "olt" => a < b,
                        "ole" => a <= b,
                        "ogt" => a > b,
                        "oge" => a >= b,
                        "ord" => !un,
                        "uno" => un,
                        "ueq" => a == b || un,
                        "une" => a != b || un,
                        "ult" => a < b || un,
                        "ule" => a <= b || un,
                        "ugt" => a > b || un,
                        "uge" => a >= b || un,
                        "true" => true,
                        _ => false,
                    };
                    self.set(ins.dst, V::C(r as u128));
                }
                I::FNeg(ty, x) => {
                    let x = self.o(f, x);
                    let a = -self.fp(&x, ty)?;
                    self.set(ins.dst, unfp(a, ty));
                }
                I::Unreachable => return self.fail("memory", "unreachable code reached".into(), None),
                I::Phi => unreachable!(),
                I::LandingPad | I::Resume => return Err(Stop::Give("unwinding".into())),
            }
        }
    }

    // ---------------------------------------------------------------- threads
    fn runnable(&self, k: usize) -> bool {
        let t = &self.st.thr[k];
        !t.done && t.wait.is_none() && (!t.joining || self.st.thr.iter().enumerate().all(|(i, t)| i == k || t.done))
    }
    fn switch(&mut self, k: usize) {
        let c = self.st.cur;
        if c == k {
            return;
        }
        let f = std::mem::take(&mut self.st.thr[k].frames);
        self.st.thr[c].frames = std::mem::replace(&mut self.st.frames, f);
        if self.st.thr[k].joining {
            // all others are done
            self.st.thr.clear();
            self.st.cur = 0;
            return;
        }
        self.st.cur = k;
        self.st.fresh = true;
    }
    fn says(&mut self, how: &str, k: usize) {
        let at = self.st.frames.last().map_or(String::new(), |f| f.f.name.clone());
        let s = format!("thread {} {} in {}: thread {} runs", self.st.cur, how, at, k);
        Rc::make_mut(&mut self.st.notes).push(s);
    }
    /// Before an atomic access any other thread may run instead.
    fn interrupt(&mut self) -> R<()> {
        for k in 0..self.st.thr.len() {
            if k == self.st.cur || !self.runnable(k) {
                continue;
            }
            let mut s = self.st.clone();
            std::mem::swap(&mut s, &mut self.st);
            self.step_trail(k as u64 + 1);
            let skip = self.foreign();
            self.st.budget -= 1;
            self.says("is interrupted", k);
            self.switch(k);
            std::mem::swap(&mut s, &mut self.st);
            if !skip {
                self.work.push(s);
            }
            self.forks += 1;
            self.step_trail(0);
            if self.foreign() {
                return Err(Stop::Path);
            }
        }
        Ok(())
    }
    /// Another thread runs, whichever it is.
    fn next_thread(&mut self, why: Turn) -> R<()> {
        let mut l: Vec<usize> = (0..self.st.thr.len()).filter(|k| *k != self.st.cur && self.runnable(*k)).collect();
        if l.is_empty() {
            if why == Turn::Yield {
                return Ok(());
            }
            return self.fail("deadlock", "every thread waits".into(), None);
        }
        let here = l.pop().unwrap();
        for k in &l {
            let mut s = self.st.clone();
            std::mem::swap(&mut s, &mut self.st);
            self.step_trail(*k as u64 + 1);
            let skip = self.foreign();
            self.says("pauses", *k);
            self.switch(*k);
            std::mem::swap(&mut s, &mut self.st);
            if !skip {
                self.work.push(s);
            }
            self.forks += 1;
        }
        if !l.is_empty() {
            self.step_trail(0);
            if self.foreign() {
                return Err(Stop::Path);
            }
        }
        self.says("pauses", here);
        self.switch(here);
        Ok(())
    }

    fn fp(&mut self, v: &V, ty: &Ty) -> R<f64> {
        let c = self.pin(v, ty.bits())?;
        Ok(match ty {
            Ty::F64 => f64::from_bits(c as u64),
            Ty::F32 => f32::from_bits(c as u32) as f64,
            _ => return Err(Stop::Give("floating point type".into())),
        })
    }

    fn binop(&mut self, b: Bin, ty: &Ty, x: &V, y: &V) -> R<V> {
        if let (V::A(p), V::A(q)) = (x, y) {
            let et = ty.elem(0);
            let mut out = Vec::with_capacity(p.len());
            for i in 0..p.len() {
                out.push(self.binop(b, &et, &p[i], &q[i])?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        if matches!(b, Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem) {
            let (p, q) = (self.fp(x, ty)?, self.fp(y, ty)?);
            let r = match b {
                Bin::FAdd => p + q,
                Bin::FSub => p - q,
                Bin::FMul => p * q,
                Bin::FDiv => p / q,
                _ => p % q,
            };
            return Ok(unfp(r, ty));
        }
        let w = ty.bits();
        let op = match b {
            Bin::Add => Op::Add,
            Bin::Sub => {
                if let (V::C(p), V::C(q)) = (x, y) {
                    return Ok(V::C(p.wrapping_sub(*q) & mask(w)));
                }
                let (p, q) = (self.t(x, w), self.t(y, w));
                let r = self.ts.sub(p, q);
                return Ok(self.v(r));
            }
            Bin::Mul => Op::Mul,
            Bin::UDiv => Op::UDiv,
            Bin::SDiv => Op::SDiv,
            Bin::URem => Op::URem,
            Bin::SRem => Op::SRem,
            Bin::And => Op::And,
            Bin::Or => Op::Or,
            Bin::Xor => Op::Xor,
            Bin::Shl => Op::Shl,
            Bin::LShr => Op::LShr,
            Bin::AShr => Op::AShr,
            _ => unreachable!(),
        };
        if matches!(b, Bin::Xor) && w == 64 {
            for c in [x, y] {
                if let V::C(c) = c {
                    if crate::term::SIP_INIT.contains(&(*c as u64)) {
                        return Ok(V::S(self.ts.sip));
                    }
                }
            }
        }
        if let (V::C(p), V::C(q)) = (x, y) {
            return Ok(V::C(crate::term::fold(op, w, *p, *q)));
        }
        let (p, q) = (self.t(x, w), self.t(y, w));
        let r = self.ts.bin(op, p, q);
        Ok(self.v(r))
    }
    fn icmp(&mut self, cc: Cc, ty: &Ty, x: &V, y: &V) -> V {
        if let (V::A(p), V::A(q)) = (x, y) {
            let et = ty.elem(0);
            let out = (0..p.len()).map(|i| self.icmp(cc, &et, &p[i], &q[i])).collect();
            return V::A(Rc::new(out));
        }
        let w = ty.bits();
        if let (V::C(p), V::C(q)) = (x, y) {
            let (p, q) = (*p, *q);
            let r = match cc {
                Cc::Eq => p == q,
                Cc::Ne => p != q,
                Cc::Ult => p < q,
                Cc::Ule => p <= q,
                Cc::Ugt => p > q,
                Cc::Uge => p >= q,
                Cc::Slt => sx(p, w) < sx(q, w),
                Cc::Sle => sx(p, w) <= sx(q, w),
                Cc::Sgt => sx(p, w) > sx(q, w),
                Cc::Sge => sx(p, w) >= sx(q, w),
            };
            return V::C(r as u128);
        }
        let (p, q) = (self.t(x, w), self.t(y, w));
        let s = &mut self.ts;
        let r = match cc {
            Cc::Eq => s.eq(p, q),
            Cc::Ne => {
                let e = s.eq(p, q);
                s.not(e)
            }
            Cc::Ult => s.ult(p, q),
            Cc::Ugt => s.ult(q, p),
            Cc::Ule => {
                let e = s.ult(q, p);
                s.not(e)
            }
            Cc::Uge => {
                let e = s.ult(p, q);
                s.not(e)
            }
            Cc::Slt => s.slt(p, q),
            Cc::Sgt => s.slt(q, p),
            Cc::Sle => {
                let e = s.slt(q, p);
                s.not(e)
            }
            Cc::Sge => {
                let e = s.slt(p, q);
                s.not(e)
            }
        };
        self.v(r)
    }
    fn cast(&mut self, c: Cast, from: &Ty, x: &V, to: &Ty) -> R<V> {
        match c {
            Cast::Bitcast => {
                if from.bits() == to.bits() && !from.is_agg() && !to.is_agg() {
                    return Ok(x.clone());
                }
                // through one wide integer
                let t = match x {
                    V::A(l) => {
                        let w = from.elem(0).bits();
                        let parts: Vec<T> = l.iter().rev().map(|v| self.t(v, w)).collect();
                        if from.bits() > 128 {
                            return Err(Stop::Give("wide bitcast".into()));
                        }
                        self.ts.cat(&parts)
                    }
                    v => self.t(v, from.bits()),
                };
                if let Ty::Vector(n, e) = to {
                    let w = e.bits();
                    let out = (0..*n)
                        .map(|i| {
                            let y = self.ts.ext(t, i * w, w);
                            self.v(y)
                        })
                        .collect();
                    return Ok(V::A(Rc::new(out)));
                }
                Ok(self.v(t))
            }
            Cast::Fp(k) => {
                if let V::A(_) = x {
                    return Err(Stop::Give("vector fp cast".into()));
                }
                let w = from.bits();
                Ok(match k {
                    0 => V::C((self.fp(x, from)? as u128) & mask(to.bits())),
                    1 => V::C((self.fp(x, from)? as i128) as u128 & mask(to.bits())),
                    2 => {
                        let c = self.pin(x, w)?;
                        unfp(c as f64, to)
                    }
                    3 => {
                        let c = self.pin(x, w)?;
                        unfp(sx(c, w) as f64, to)
                    }
                    _ => unfp(self.fp(x, from)?, to),
                })
            }
            _ => {
                if let V::A(l) = x {
                    let (fe, te) = (from.elem(0), to.elem(0));
                    let mut out = Vec::new();
                    for v in l.iter() {
                        out.push(self.cast(c, &fe, v, &te)?);
                    }
                    return Ok(V::A(Rc::new(out)));
                }
                let (fw, tw) = (from.bits(), to.bits());
                Ok(match x {
                    V::C(v) => match c {
                        Cast::SExt => V::C(sx(*v, fw) as u128 & mask(tw)),
                        _ => V::C(*v & mask(tw)),
                    },
                    V::S(t) => {
                        let r = match c {
                            Cast::SExt => self.ts.sext(*t, tw),
                            _ => self.ts.zext(*t, tw),
                        };
                        self.v(r)
                    }
                    _ => unreachable!(),
                })
            }
        }
    }
    fn load_sym(&mut self, p: &V, ty: &Ty) -> R<V> {
        let t = match p {
            V::S(t) => *t,
            _ => unreachable!(),
        };
        if let V::C(a) = self.v(t) {
            return self.load(a as u64, ty);
        }
        let m = self.st.model.clone();
        let a0 = self.ts.eval(t, &m) as u64;
        if !ty.is_agg() && *ty != Ty::Ptr {
            if let Some((id, _, base)) = self.obj_at(a0) {
                let o = self.st.mem.get(id).unwrap().clone();
                let n = ty.store_size();
                if o.ssize.is_none() && o.size <= 1024 && o.size >= n {
                    let b = self.ts.c(base as u128, 64);
                    let d = self.ts.sub(t, b);
                    let lim = self.ts.c((o.size - n) as u128, 64);
                    let bad = self.ts.ult(lim, d);
                    if self.possible(bad)?.is_none() {
                        let mut conds = Vec::new();
                        for off in 0..=(o.size - n) {
                            let k = self.ts.c((base + off) as u128, 64);
                            let e = self.ts.eq(t, k);
                            if self.ts.cval(e) != Some(0) {
                                conds.push((e, off));
                            }
                        }
                        if conds.len() <= 300 && !conds.is_empty() {
                            let w = ty.bits();
                            let mut r: Option<T> = None;
                            for (e, off) in conds.into_iter().rev() {
                                let x = self.load_int(id, off, n, w);
                                let x = self.t(&x, w);
                                r = Some(match r {
                                    None => x,
                                    Some(q) => self.ts.ite(e, x, q),
                                });
                            }
                            return Ok(self.v(r.unwrap()));
                        }
                    }
                }
            }
        }
        let a = self.pin(p, 64)? as u64;
        self.load(a, ty)
    }

    // ---------------------------------------------------------------- calls
    fn call(&mut self, f: &'static Fun, k: usize) -> R<()> {
        let c = &f.f.calls[k];
        let args: Vec<V> = c.args.iter().map(|(_, o)| self.o(f, o)).collect();
        let target = match &c.callee {
            Callee::Indirect(o) => {
                let v = self.o(f, o);
                let a = self.pin(&v, 64)? as u64;
                let i = (a.wrapping_sub(FUN_BASE) / 16) as usize;
                if a < FUN_BASE || i >= self.funs.len() {
                    return self.fail("memory", format!("call of {:#x}", a), None);
                }
                Target::Fun(i)
            }
            _ => f.targets[k].clone(),
        };
        match target {
            Target::Fun(i) => {
                let g = self.fun(i);
                if let Some(h) = &g.hook {
                    let r = self.builtin(h, &args, c)?;
                    self.after_call(r);
                    return Ok(());
                }
                if let Some(n) = g.prints {
                    let p = if n == 0 { 2 } else { 1 };
                    let sym = args[..p].iter().any(|v| matches!(v, V::S(_))) || {
                        let n = if let (0, V::C(l)) = (n, &args[1]) { *l as u64 } else { n };
                        let a = if let V::C(a) = &args[0] { *a as u64 } else { 0 };
                        match self.obj_at(a) {
                            Some((id, off, _)) => {
                                let o = self.st.mem.get(id).unwrap();
                                !o.sym.is_empty() && o.sym.iter().skip(off as usize).take(n as usize).any(|t| *t != 0)
                            }
                            None => false,
                        }
                    };
                    if sym {
                        self.after_call(V::C(0));
                        return Ok(());
                    }
                }
                if self.st.frames.len() > 2000 {
                    return self.fail("hang", "unbounded recursion".into(), None);
                }
                self.push_frame(g, args);
                Ok(())
            }
            Target::Intr(n) => {
                let r = self.intrinsic(&n, &args, c)?;
                self.after_call(r);
                Ok(())
            }
            Target::Ext(n) => {
                let r = self.builtin(&n, &args, c)?;
                self.after_call(r);
                Ok(())
            }
        }
    }

    fn overflow(&mut self, op: &str, w: u32, a: T, b: T) -> (T, T) {
        let s = &mut self.ts;
        match op {
            "uadd" => {
                let r = s.bin(Op::Add, a, b);
                let o = s.ult(r, a);
                (r, o)
            }
            "usub" => {
                let r = s.sub(a, b);
                let o = s.ult(a, b);
                (r, o)
            }
            "umul" => {
                let (x, y) = (s.zext(a, 2 * w), s.zext(b, 2 * w));
                let p = s.bin(Op::Mul, x, y);
                let r = s.ext(p, 0, w);
                let h = s.ext(p, w, w);
                let z = s.c(0, w);
                let e = s.eq(h, z);
                let o = s.not(e);
                (r, o)
            }
            "sadd" | "ssub" => {
                let (x, y) = (s.sext(a, w + 1), s.sext(b, w + 1));
                let p = if op == "sadd" { s.bin(Op::Add, x, y) } else { s.sub(x, y) };
                let r = s.ext(p, 0, w);
                let q = s.sext(r, w + 1);
                let e = s.eq(p, q);
                let o = s.not(e);
                (r, o)
            }
            _ => {
                let (x, y) = (s.sext(a, 2 * w), s.sext(b, 2 * w));
                let p = s.bin(Op::Mul, x, y);
                let r = s.ext(p, 0, w);
                let q = s.sext(r, 2 * w);
                let e = s.eq(p, q);
                let o = s.not(e);
                (r, o)
            }
        }
    }
    fn each(&mut self, ty: &Ty, a: &V, g: &mut dyn FnMut(&mut Terms, T, u32) -> T) -> V {
        if let V::A(l) = a {
            let et = ty.elem(0);
            let l = l.clone();
            let o = l.iter().map(|v| self.each(&et, v, g)).collect();
            return V::A(Rc::new(o));
        }
        let w = ty.bits();
        let t = self.t(a, w);
        let r = g(&mut self.ts, t, w);
        self.v(r)
    }
    fn each2(&mut self, ty: &Ty, a: &V, b: &V, g: &mut dyn FnMut(&mut Terms, T, T, u32) -> T) -> V {
        if let (V::A(l), V::A(m)) = (a, b) {
            let et = ty.elem(0);
            let (l, m) = (l.clone(), m.clone());
            let o = l.iter().zip(m.iter()).map(|(v, u)| self.each2(&et, v, u, g)).collect();
            return V::A(Rc::new(o));
        }
        let w = ty.bits();
        let (t, u) = (self.t(a, w), self.t(b, w));
        let r = g(&mut self.ts, t, u, w);
        self.v(r)
    }

    fn intrinsic(&mut self, n: &str, a: &[V], c: &'static ir::Call) -> R<V> {
        let base = n.split('.').next().unwrap();
        let ty = c.args.get(0).map(|x| x.0.clone()).unwrap_or(Ty::Void);
        let z = V::C(0);
        match base {
            "lifetime" | "experimental" | "dbg" | "donothing" | "prefetch" | "invariant" | "assume" | "asm" | "x86" | "var"
            | "stackrestore" | "va_end" => {
                if n == "x86.sse2.pause" && !self.st.thr.is_empty() {
                    self.st.turn = Turn::Yield;
                }
                if n == "x86.sse2.pause" || base != "x86" {
                    return Ok(if c.ret == Ty::Void { z } else { Self::zero(&c.ret) });
                }
                Err(Stop::Give(format!("intrinsic {}", n)))
            }
            "expect" | "threadlocal" | "ssa" | "launder" | "strip" => Ok(a[0].clone()),
            "is" => Ok(z), // is.constant
            "memcpy" | "memmove" => {
                let l = self.pin(&a[2], 64)? as u64;
                if l == 0 {
                    return Ok(z);
                }
                let s = self.pin(&a[1], 64)? as u64;
                let d = self.pin(&a[0], 64)? as u64;
                self.copy(d, s, l)?;
                Ok(z)
            }
            "memset" => {
                self.memset(&a[0], &a[1], &a[2])?;
                Ok(z)
            }
            "load" => {
                // load.relative
                let p = self.pin(&a[0], 64)? as u64;
                let o = self.pin(&a[1], c.args[1].0.bits())?;
                let o = ir::sext64(o, c.args[1].0.bits());
                let at = p.wrapping_add(o as u64);
                let v = self.load(at, &Ty::Int(32))?;
                let v = self.pin(&v, 32)?;
                Ok(V::C(p.wrapping_add(ir::sext64(v, 32) as u64) as u128))
            }
            "trap" | "ubsantrap" => self.fail("abort", "trap".into(), None),
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                if n.contains("with.overflow") {
                    let w = ty.bits();
                    if let (V::C(x), V::C(y)) = (&a[0], &a[1]) {
                        if let Some((r, o)) = ovf(base, w, *x, *y) {
                            return Ok(V::A(Rc::new(vec![V::C(r), V::C(o as u128)])));
                        }
                    }
                    if w > 64 && base.ends_with("mul") {
                        return Err(Stop::Give("wide multiplication overflow".into()));
                    }
                    if w > 127 {
                        return Err(Stop::Give("wide overflow arithmetic".into()));
                    }
                    let (x, y) = (self.t(&a[0], w), self.t(&a[1], w));
                    let (r, o) = self.overflow(base, w, x, y);
                    return Ok(V::A(Rc::new(vec![self.v(r), self.v(o)])));
                }
                if n.contains(".sat.") {
                    return Ok(self.each2(&ty, &a[0], &a[1], &mut |s, x, y, w| match base {
                        "uadd" => {
                            let r = s.bin(Op::Add, x, y);
                            let o = s.ult(r, x);
                            let m = s.c(mask(w), w);
                            s.ite(o, m, r)
                        }
                        "usub" => {
                            let r = s.sub(x, y);
                            let o = s.ult(x, y);
                            let m = s.c(0, w);
                            s.ite(o, m, r)
                        }
                        _ => {
                            let (p, q) = (s.sext(x, w + 1), s.sext(y, w + 1));
                            let r = if base == "sadd" { s.bin(Op::Add, p, q) } else { s.sub(p, q) };
                            let hi = s.c(mask(w - 1), w + 1);
                            let lo0 = s.c(1u128 << (w - 1), w);
                            let lo = s.sext(lo0, w + 1);
                            let c1 = s.slt(hi, r);
                            let c2 = s.slt(r, lo);
                            let r1 = s.ite(c1, hi, r);
                            let r2 = s.ite(c2, lo, r1);
                            s.ext(r2, 0, w)
                        }
                    }));
                }
                Err(Stop::Give(format!("intrinsic {}", n)))
            }
            "umin" | "umax" | "smin" | "smax" => Ok(self.each2(&ty, &a[0], &a[1], &mut |s, x, y, _| {
                let l = if base.starts_with('u') { s.ult(x, y) } else { s.slt(x, y) };
                if base.ends_with("min") {
                    s.ite(l, x, y)
                } else {
                    s.ite(l, y, x)
                }
            })),
            "ucmp" | "scmp" => {
                let w = ty.bits();
                let (x, y) = (self.t(&a[0], w), self.t(&a[1], w));
                let s = &mut self.ts;
                let (l, g) = if base == "ucmp" { (s.ult(x, y), s.ult(y, x)) } else { (s.slt(x, y), s.slt(y, x)) };
                let rw = c.ret.bits();
                let (m1, z0, p1) = (s.c(mask(rw), rw), s.c(0, rw), s.c(1, rw));
                let r = s.ite(g, p1, z0);
                let r = s.ite(l, m1, r);
                Ok(self.v(r))
            }
            "abs" => Ok(self.each(&ty, &a[0], &mut |s, x, w| {
                let z = s.c(0, w);
                let n = s.sub(z, x);
                let l = s.slt(x, z);
                s.ite(l, n, x)
            })),
            "ctpop" => Ok(self.each(&ty, &a[0], &mut |s, x, w| {
                let mut r = s.c(0, w);
                for i in 0..w {
                    let b = s.ext(x, i, 1);
                    let b = s.zext(b, w);
                    r = s.bin(Op::Add, r, b);
                }
                r
            })),
            "ctlz" | "cttz" => Ok(self.each(&ty, &a[0], &mut |s, x, w| {
                let mut r = s.c(w as u128, w);
                for k in 0..w {
                    let i = if base == "ctlz" { k } else { w - 1 - k };
                    let b = s.ext(x, i, 1);
                    let n = s.c(if base == "ctlz" { w - 1 - i } else { i } as u128, w);
                    r = s.ite(b, n, r);
                }
                r
            })),
            "bswap" => Ok(self.each(&ty, &a[0], &mut |s, x, w| {
                let p: Vec<T> = (0..w / 8).map(|i| s.ext(x, i * 8, 8)).collect();
                s.cat(&p)
            })),
            "bitreverse" => Ok(self.each(&ty, &a[0], &mut |s, x, w| {
                let p: Vec<T> = (0..w).map(|i| s.ext(x, i, 1)).collect();
                s.cat(&p)
            })),
            "fshl" | "fshr" => {
                let w = ty.bits();
                let k = self.pin(&a[2], w)? as u32 % w;
                let (x, y) = (self.t(&a[0], w), self.t(&a[1], w));
                let s = &mut self.ts;
                if x == s.sip && y == s.sip {
                    return Ok(V::S(x));
                }
                let k = if base == "fshl" { k } else { (w - k) % w };
                let r = if k == 0 {
                    if base == "fshl" {
                        x
                    } else {
                        y
                    }
                } else {
                    let h = s.ext(x, 0, w - k);
                    let l = s.ext(y, w - k, k);
                    s.cat(&[h, l])
                };
                Ok(self.v(r))
            }
            "ptrmask" => {
                let (x, y) = (self.t(&a[0], 64), self.t(&a[1], 64));
                let r = self.ts.bin(Op::And, x, y);
                Ok(self.v(r))
            }
            "vector" if n.starts_with("vector.reduce") => {
                let l = match &a[0] {
                    V::A(l) => l.clone(),
                    _ => unreachable!(),
                };
                let et = ty.elem(0);
                let w = et.bits();
                let kind = n.split('.').nth(2).unwrap();
                let mut r = self.t(&l[0], w);
                for v in &l[1..] {
                    let x = self.t(v, w);
                    let s = &mut self.ts;
                    r = match kind {
                        "add" => s.bin(Op::Add, r, x),
                        "mul" => s.bin(Op::Mul, r, x),
                        "and" => s.bin(Op::And, r, x),
                        "or" => s.bin(Op::Or, r, x),
                        "xor" => s.bin(Op::Xor, r, x),
                        "umax" | "umin" | "smax" | "smin" => {
                            let c = if kind.starts_with('u') { s.ult(r, x) } else { s.slt(r, x) };
                            if kind.ends_with("max") {
                                s.ite(c, x, r)
                            } else {
                                s.ite(c, r, x)
                            }
                        }
                        k => return Err(Stop::Give(format!("vector.reduce.{}", k))),
                    };
                }
                Ok(self.v(r))
            }
            "objectsize" => Ok(V::C(mask(c.ret.bits()))),
            "stacksave" | "returnaddress" | "frameaddress" => Ok(z),
            "fabs" | "floor" | "ceil" | "trunc" | "sqrt" | "rint" | "round" | "nearbyint" => {
                let x = self.fp(&a[0], &ty)?;
                let r = match base {
                    "fabs" => x.abs(),
                    "floor" => x.floor(),
                    "ceil" => x.ceil(),
                    "trunc" => x.trunc(),
                    "sqrt" => x.sqrt(),
                    _ => x.round(),
                };
                Ok(unfp(r, &ty))
            }
            "fptoui" | "fptosi" => {
                // .sat
                let x = self.fp(&a[0], &ty)?;
                let w = c.ret.bits();
                let r = if base == "fptoui" {
                    (x as u128).min(mask(w))
                } else {
                    let m = (mask(w) >> 1) as i128;
                    ((x as i128).clamp(-m - 1, m)) as u128 & mask(w)
                };
                Ok(V::C(r))
            }
            _ => Err(Stop::Give(format!("intrinsic {}", n))),
        }
    }
    fn memset(&mut self, d: &V, b: &V, n: &V) -> R<()> {
        // clearing a whole allocation of variable size
        if let (V::S(t), V::C(0), V::C(da)) = (n, b, d) {
            if let Some((id, 0, _)) = self.obj_at(*da as u64) {
                let o = self.st.mem.get(id).unwrap();
                if o.ssize == Some(*t) && o.sym.is_empty() && o.data.iter().all(|x| *x == 0) {
                    return Ok(());
                }
            }
        }
        let n = self.pin(n, 64)? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = self.pin(d, 64)? as u64;
        let (id, off) = self.place(d, n, true)?;
        match b {
            V::C(x) => {
                let o = self.st.mem.get_mut(id);
                let r = off as usize..(off + n) as usize;
                o.data[r.clone()].fill(*x as u8);
                if !o.sym.is_empty() {
                    o.sym[r].fill(0);
                }
            }
            V::S(t) => {
                for i in 0..n {
                    self.put_byte(id, (off + i) as usize, *t);
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }

    fn builtin(&mut self, n: &str, a: &[V], c: &'static ir::Call) -> R<V> {
        let z = V::C(0);
        match n {
            "__rust_alloc" | "malloc" => self.malloc(&a[0], Kind::Heap),
            "__rust_alloc_zeroed" => self.malloc(&a[0], Kind::Heap),
            "calloc" => {
                let (x, y) = (self.pin(&a[0], 64)?, self.pin(&a[1], 64)?);
                self.malloc(&V::C(x * y), Kind::Heap)
            }
            "posix_memalign" => {
                let p = self.pin(&a[0], 64)? as u64;
                let m = self.malloc(&a[2], Kind::Heap)?;
                self.store(p, &Ty::Ptr, &m)?;
                Ok(z)
            }
            "aligned_alloc" => self.malloc(&a[1], Kind::Heap),
            "__rust_dealloc" | "free" => {
                let p = self.pin(&a[0], 64)? as u64;
                if p != 0 {
                    self.free(p)?;
                }
                Ok(z)
            }
            "__rust_realloc" | "realloc" => {
                let p = self.pin(&a[0], 64)? as u64;
                let ns = if n == "realloc" { &a[1] } else { &a[3] };
                if p == 0 {
                    return self.malloc(ns, Kind::Heap);
                }
                let (id, off) = match self.obj_at(p) {
                    Some((id, off, _)) => (id, off),
                    None => return self.fail("memory", "realloc of unmapped memory".into(), None),
                };
                if off != 0 || self.st.mem.get(id).unwrap().kind != Kind::Heap {
                    return self.fail("memory", "invalid realloc".into(), None);
                }
                let q = self.malloc(ns, Kind::Heap)?;
                let qa = match q {
                    V::C(0) => return Ok(q),
                    V::C(x) => x as u64,
                    _ => unreachable!(),
                };
                let o = self.st.mem.get(id).unwrap().clone();
                let nid = (qa >> 32) as u32;
                let d = self.st.mem.get_mut(nid);
                let k = (o.size.min(d.size)) as usize;
                d.data[..k].copy_from_slice(&o.data[..k]);
                if !o.sym.is_empty() {
                    d.sym = vec![0; d.data.len()];
                    d.sym[..k].copy_from_slice(&o.sym[..k]);
                }
                self.st.mem.del(id);
                Ok(q)
            }
            "memcpy" | "memmove" => {
                let l = self.pin(&a[2], 64)? as u64;
                if l > 0 {
                    let s = self.pin(&a[1], 64)? as u64;
                    let d = self.pin(&a[0], 64)? as u64;
                    self.copy(d, s, l)?;
                }
                Ok(a[0].clone())
            }
            "memset" => {
                let b = match &a[1] {
                    V::C(x) => V::C(x & 0xff),
                    V::S(t) => {
                        let t = self.ts.ext(*t, 0, 8);
                        self.v(t)
                    }
                    _ => unreachable!(),
                };
                self.memset(&a[0], &b, &a[2])?;
                Ok(a[0].clone())
            }
            "memcmp" | "bcmp" => {
                let l = self.pin(&a[2], 64)? as u64;
                let p = self.pin(&a[0], 64)? as u64;
                let q = self.pin(&a[1], 64)? as u64;
                let x = self.bytes(p, l)?;
                let y = self.bytes(q, l)?;
                let s = &mut self.ts;
                let mut r = s.c(0, 32);
                for i in (0..l as usize).rev() {
                    let e = s.eq(x[i], y[i]);
                    if n == "bcmp" {
                        let one = s.c(1, 32);
                        r = s.ite(e, r, one);
                    } else {
                        let lt = s.ult(x[i], y[i]);
                        let (m1, p1) = (s.c(mask(32), 32), s.c(1, 32));
                        let d = s.ite(lt, m1, p1);
                        r = s.ite(e, r, d);
                    }
                }
                Ok(self.v(r))
            }
            "strlen" => {
                let p = self.pin(&a[0], 64)? as u64;
                let mut k = 0;
                loop {
                    let b = self.load(p + k, &Ty::Int(8))?;
                    if self.pin(&b, 8)? == 0 {
                        return Ok(V::C(k as u128));
                    }
                    k += 1;
                }
            }
            "panic_fmt" => {
                let fmt = self.pin(&a[0], 64)? as u64;
                let pieces = self.peek(fmt);
                let np = self.peek(fmt + 8);
                let mut m = String::new();
                for i in 0..np.min(6) {
                    let p = self.peek(pieces + 16 * i);
                    let l = self.peek(pieces + 16 * i + 8);
                    m.push_str(&self.cstr(p, l.min(200)));
                    if i + 1 < np {
                        m.push_str("{}");
                    }
                }
                let loc = match a.last() {
                    Some(V::C(l)) => *l as u64,
                    _ => 0,
                };
                let mut s = String::new();
                if loc != 0 && a.len() >= 2 {
                    let p = self.peek(loc);
                    let l = self.peek(loc + 8);
                    let line = self.peek(loc + 16) as u32;
                    s = format!(" at {}:{}", self.cstr(p, l.min(300)), line);
                }
                self.fail("panic", format!("{}{}", m, s), None)
            }
            "panic_plain" => self.fail("panic", "panic".into(), None),
            "oom" => self.fail("alloc", "memory allocation failure aborts the process".into(), None),
            "abort" | "exit" | "_exit" => self.fail("abort", "process aborts".into(), None),
            "nop" => Ok(if c.ret == Ty::Void { z } else { Self::zero(&c.ret) }),
            "random_keys" => Ok(V::A(Rc::new(vec![V::C(0x0706050403020100), V::C(0x0f0e0d0c0b0a0908)]))),
            "__sym_bytes" => {
                let p = self.pin(&a[0], 64)? as u64;
                let l = self.pin(&a[1], 64)? as u64;
                let mut g = Vec::new();
                for _ in 0..l {
                    g.push(self.fresh());
                }
                if l > 0 {
                    let (id, off) = self.place(p, l, true)?;
                    for (i, t) in g.iter().enumerate() {
                        self.put_byte(id, off as usize + i, *t);
                    }
                }
                Rc::make_mut(&mut self.st.inputs).push(g);
                Ok(z)
            }
            "__sym_choose" => {
                // one fresh byte below n: one path per value, no query needed
                let k = self.pin(&a[0], 64)? as u64;
                assert!(k > 0 && k <= 256);
                let t = self.fresh();
                Rc::make_mut(&mut self.st.inputs).push(vec![t]);
                let i = match self.ts.node(t) {
                    N::Var(i) => *i as usize,
                    _ => unreachable!(),
                };
                for x in (0..k).rev() {
                    let mut s = self.st.clone();
                    std::mem::swap(&mut s, &mut self.st);
                    let m = Rc::make_mut(&mut self.st.model);
                    if m.len() <= i {
                        m.resize(i + 1, 0);
                    }
                    m[i] = x as u8;
                    let kc = self.ts.c(x as u128, 8);
                    let e = self.ts.eq(t, kc);
                    self.assume(e);
                    self.step_trail(x);
                    let skip = self.foreign();
                    if x > 0 {
                        self.after_call(V::C(x as u128));
                    }
                    std::mem::swap(&mut s, &mut self.st);
                    if x > 0 {
                        if !skip {
                            self.work.push(s);
                        }
                        self.forks += 1;
                    } else {
                        self.st = s;
                        if skip {
                            return Err(Stop::Path);
                        }
                    }
                }
                Ok(V::C(0))
            }
            "__sym_assume" => {
                let w = c.args[0].0.bits();
                let t = self.t(&a[0], w);
                let k = self.ts.c(0, w);
                let e = self.ts.eq(t, k);
                let ok = self.ts.not(e);
                if let V::C(x) = self.v(ok) {
                    if x == 0 {
                        self.assumed_away += 1;
                        return Err(Stop::Path);
                    }
                    return Ok(z);
                }
                match self.possible(ok)? {
                    None => {
                        self.assumed_away += 1;
                        Err(Stop::Path)
                    }
                    Some(m) => {
                        self.st.model = m;
                        self.assume(ok);
                        Ok(z)
                    }
                }
            }
            "__sym_check" => {
                let w = c.args[0].0.bits();
                let t = self.t(&a[0], w);
                let k = self.ts.c(0, w);
                let bad = self.ts.eq(t, k);
                self.checks += 1;
                if let V::S(_) = self.v(bad) {
                    self.checks_sym += 1;
                }
                let isbad = match self.v(bad) {
                    V::C(x) => {
                        if x != 0 {
                            Some(self.st.model.clone())
                        } else {
                            None
                        }
                    }
                    _ => self.possible(bad)?,
                };
                if let Some(m) = isbad {
                    let p = self.pin(&a[1], 64)? as u64;
                    let l = self.pin(&a[2], 64)? as u64;
                    let s = self.cstr(p, l);
                    return self.fail("check", s, Some(m));
                }
                self.learn(bad, 0);
                Ok(z)
            }
            "__sym_alloc_limit" => {
                self.st.alloc_limit = self.pin(&a[0], 64)? as u64;
                Ok(z)
            }
            "__sym_live" => Ok(V::C(self.st.mem.live() as u128)),
            "__sym_thorough" => Ok(V::C(self.cfg.thorough as u128)),
            "__sym_fail" => {
                let p = self.pin(&a[0], 64)? as u64;
                let l = self.pin(&a[1], 64)? as u64;
                let s = self.cstr(p, l);
                self.fail("check", s, None)
            }
            "__sym_reach" => {
                let p = self.pin(&a[0], 64)? as u64;
                let l = self.pin(&a[1], 64)? as u64;
                let s = self.cstr(p, l);
                if !self.st.reach.contains(&s) {
                    Rc::make_mut(&mut self.st.reach).insert(s);
                }
                Ok(z)
            }
            "__sym_note" => {
                let p = self.pin(&a[0], 64)? as u64;
                let l = self.pin(&a[1], 64)? as u64;
                let s = self.cstr(p, l);
                Rc::make_mut(&mut self.st.notes).push(s);
                Ok(z)
            }
            "syscall" => {
                let k = self.pin(&a[0], 64)?;
                match k {
                    202 => {
                        let op = self.pin(&a[2], c.args[2].0.bits())? & 0x7f;
                        let p = self.pin(&a[1], 64)? as u64;
                        let n = self.pin(&a[3], c.args[3].0.bits())?;
                        if op == 0 || op == 9 {
                            let v = self.load(p, &Ty::Int(32))?;
                            if self.pin(&v, 32)? != n & mask(32) {
                                // the value has changed: EAGAIN
                                return Ok(V::C(mask(64)));
                            }
                            if self.st.thr.is_empty() {
                                return self.fail("deadlock", "the only thread blocks on a lock".into(), None);
                            }
                            let k = self.st.cur;
                            self.st.thr[k].wait = Some(p);
                            self.st.turn = Turn::Block;
                            return Ok(z);
                        }
                        let mut woken = 0;
                        for t in self.st.thr.iter_mut() {
                            if t.wait == Some(p) && woken < (n & mask(31)) {
                                t.wait = None;
                                woken += 1;
                            }
                        }
                        Ok(V::C(woken))
                    }
                    318 => {
                        let p = self.pin(&a[1], 64)?;
                        let l = self.pin(&a[2], 64)?;
                        self.memset(&V::C(p), &V::C(1), &V::C(l))?;
                        Ok(V::C(l))
                    }
                    k => Err(Stop::Give(format!("system call {}", k))),
                }
            }
            "getrandom" => {
                self.memset(&a[0], &V::C(1), &a[1])?;
                Ok(a[1].clone())
            }
            "__sym_thread" => {
                let f = self.pin(&a[0], 64)? as u64;
                let i = (f.wrapping_sub(FUN_BASE) / 16) as usize;
                if self.st.thr.is_empty() {
                    self.st.thr.push(Thread { frames: vec![], wait: None, joining: false, done: false });
                }
                assert!(self.st.thr.len() < MAX_THREADS, "too many threads");
                let g = self.fun(i);
                self.push_frame(g, vec![a[1].clone()]);
                let fr = self.st.frames.pop().unwrap();
                self.st.thr.push(Thread { frames: vec![fr], wait: None, joining: false, done: false });
                Ok(z)
            }
            "__sym_join" => {
                self.st.budget = self.pin(&a[0], 64)? as u32;
                if !self.st.thr.is_empty() {
                    self.st.thr[0].joining = true;
                    self.st.turn = Turn::Block;
                }
                Ok(z)
            }
            "__sym_hold" => {
                let d = self.pin(&a[0], 64)? as u32;
                self.st.held = self.st.held.wrapping_add(d);
                Ok(z)
            }
            "sched_yield" => {
                if !self.st.thr.is_empty() {
                    self.st.turn = Turn::Yield;
                }
                Ok(z)
            }
            "pthread_self" => Ok(V::C(1 + self.st.cur as u128)),
            "__cxa_thread_atexit_impl" | "write" | "pthread_key_create" | "pthread_setspecific"
            | "pthread_mutex_lock" | "pthread_mutex_unlock" | "getenv" | "close" | "sigaltstack" | "munmap" => Ok(z),
            "pthread_getspecific" => Ok(z),
            "open64" | "open" => Ok(V::C(mask(32))),
            "sysconf" => Ok(V::C(1)),
            "sched_getaffinity" => Ok(V::C(mask(32))),
            "__errno_location" => {
                let id = self.st.mem.add(Obj { size: 4, ssize: None, data: vec![0; 4], sym: vec![], kind: Kind::Heap });
                Ok(V::C((id as u128) << 32))
            }
            _ => Err(Stop::Give(format!("external function {}", n))),
        }
    }
    fn fresh(&mut self) -> T {
        // variables are numbered per path so that equal prefixes share terms
        let k = self.st.nvars as usize;
        self.st.nvars += 1;
        while self.vpool.len() <= k {
            let t = self.ts.var();
            self.vpool.push(t);
        }
        self.vpool[k]
    }
    pub fn seen_names(&self) -> Vec<String> {
        let mut v: Vec<String> = self.seen.iter().map(|k| self.funs[*k].unwrap().name.clone()).collect();
        v.sort();
        v.dedup();
        v
    }
}

fn insert(a: &V, v: V, ix: &[u32]) -> V {
    if ix.is_empty() {
        return v;
    }
    match a {
        V::A(l) => {
            let mut n = (**l).clone();
            n[ix[0] as usize] = insert(&l[ix[0] as usize], v, &ix[1..]);
            V::A(Rc::new(n))
        }
        _ => unreachable!(),
    }
}
fn unfp(v: f64, ty: &Ty) -> V {
    match ty {
        Ty::F32 => V::C((v as f32).to_bits() as u128),
        _ => V::C(v.to_bits() as u128),
    }
}
fn ovf(op: &str, w: u32, x: u128, y: u128) -> Option<(u128, bool)> {
    let m = mask(w);
    Some(match op {
        "uadd" => {
            let r = x.checked_add(y)?;
            (r & m, r > m)
        }
        "usub" => (x.wrapping_sub(y) & m, x < y),
        "umul" => {
            let r = x.checked_mul(y)?;
            (r & m, r > m)
        }
        _ => {
            let (p, q) = (sx(x, w), sx(y, w));
            let r = match op {
                "sadd" => p.checked_add(q)?,
                "ssub" => p.checked_sub(q)?,
                _ => p.checked_mul(q)?,
            };
            let t = r as u128 & m;
            (t, sx(t, w) != r)
        }
    })
}

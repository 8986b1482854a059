//! Textual LLVM IR (as rustc 1.85 / LLVM 19 writes it) into a compact executable form.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Array(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vector(u32, Rc<Ty>),
    Func,
    Label,
    Meta,
}

fn rup(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    /// Width in bits of a scalar or vector.
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            Ty::Vector(n, t) => n * t.bits(),
            t => panic!("bits of {:?}", t),
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(..) => self.size(),
            _ => (self.bits() as u64 + 7) / 8,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => ((*n as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(_, true) => 1,
            Ty::Struct(f, false) => f.iter().map(|t| t.align()).max().unwrap_or(1),
            Ty::Vector(..) => ((self.bits() as u64 + 7) / 8).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        o = rup(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    rup(o, self.align())
                }
            }
            Ty::Void | Ty::Func => 0,
            _ => rup(self.store_size(), self.align()),
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = rup(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Array(_, t) => t.size() * i as u64,
            Ty::Vector(_, t) => t.store_size() * i as u64,
            _ => panic!("field_offset"),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
            t => panic!("elem of {:?}", t),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) => *n as usize,
            Ty::Vector(n, _) => *n as usize,
            _ => panic!("count"),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..))
    }
}

/// A constant as written; resolved to a value once global addresses are known.
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Undef,
    Zero,
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Cst)>),
    Global(String),
    Gep(Ty, Vec<(Ty, Cst)>),
    Cast(Box<(Ty, Cst)>, Ty),
    Bin(String, Ty, Box<(Cst, Cst)>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    Cst(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cc {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bitcast,
    PtrInt,
    Fp(u8),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Indirect(Opd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, Ty, Opd, Opd),
    Icmp(Cc, Ty, Opd, Opd),
    Fcmp(String, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    Cast(Cast, Ty, Opd, Ty),
    Select(Ty, Ty, Opd, Opd, Opd),
    Alloca(Ty, Option<Opd>, u64),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    /// base, constant offset, (index operand, index type bits, scale)
    Gep(Opd, i64, Vec<(Opd, u32, u64)>),
    Call(usize),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Phi,
    Extract(Ty, Opd, Vec<u32>),
    Insert(Ty, Opd, Ty, Opd, Vec<u32>),
    ExtractEl(Ty, Opd, Opd),
    InsertEl(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Vec<i32>),
    AtomicRmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Freeze(Ty, Opd),
    Fence,
    LandingPad,
    Resume,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub callee: Callee,
    pub ret: Ty,
    pub args: Vec<(Ty, Opd)>,
    /// For `invoke`: where to go on return.
    pub normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub struct Ins {
    pub dst: Option<u32>,
    pub i: I,
    /// An atomic access: another thread may run before it.
    pub atomic: bool,
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: Ty,
    pub inc: HashMap<u32, Opd>,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<Ins>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub ret: Ty,
    pub params: Vec<(Ty, u32)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub calls: Vec<Call>,
    pub csts: Vec<(Ty, Cst)>,
    pub vararg: bool,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub constant: bool,
    pub weak: bool,
    /// Each thread has its own.
    pub local: bool,
    pub align: u64,
}

pub struct Module {
    pub globals: Vec<Global>,
    pub aliases: Vec<(String, Cst)>,
    pub funcs: Vec<Func>,
    pub decls: Vec<(String, bool)>,
    /// Function name -> byte range of its text, parsed on first use.
    pub text: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    Glob(String),
    Loc(String),
    Meta(String),
    Attr,
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Int(String),
    Hex(String),
    P(u8),
    Dots,
    Eof,
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    tok: Tok,
    start: usize,
    types: HashMap<String, Ty>,
    later: HashMap<String, usize>,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    csts: Vec<(Ty, Cst)>,
    atomic: bool,
}

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn err(&self, m: &str) -> ! {
        let a = self.start.saturating_sub(200);
        let b = (self.start + 120).min(self.s.len());
        panic!(
            "IR parse error: {} at ...{}<<<HERE>>>{}",
            m,
            String::from_utf8_lossy(&self.s[a..self.start]),
            String::from_utf8_lossy(&self.s[self.start..b])
        )
    }
    fn quoted(&mut self) -> Vec<u8> {
        let mut o = Vec::new();
        loop {
            let c = self.s[self.i];
            self.i += 1;
            match c {
                b'"' => return o,
                b'\\' => {
                    if self.s[self.i] == b'\\' {
                        o.push(b'\\');
                        self.i += 1;
                    } else {
                        let h = std::str::from_utf8(&self.s[self.i..self.i + 2]).unwrap();
                        o.push(u8::from_str_radix(h, 16).unwrap());
                        self.i += 2;
                    }
                }
                c => o.push(c),
            }
        }
    }
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let q = self.quoted();
            return String::from_utf8_lossy(&q).into_owned();
        }
        let a = self.i;
        while self.i < self.s.len() && idc(self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[a..self.i]).into_owned()
    }
    fn next(&mut self) -> Tok {
        let t = self.lex();
        std::mem::replace(&mut self.tok, t)
    }
    fn lex(&mut self) -> Tok {
        loop {
            if self.i >= self.s.len() {
                self.start = self.i;
                return Tok::Eof;
            }
            let c = self.s[self.i];
            if c.is_ascii_whitespace() {
                self.i += 1;
            } else if c == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                break;
            }
        }
        self.start = self.i;
        let c = self.s[self.i];
        match c {
            b'@' => {
                self.i += 1;
                Tok::Glob(self.name())
            }
            b'%' => {
                self.i += 1;
                Tok::Loc(self.name())
            }
            b'!' => {
                self.i += 1;
                if self.s[self.i] == b'"' {
                    self.i += 1;
                    self.quoted();
                    return Tok::Meta(String::new());
                }
                Tok::Meta(self.name())
            }
            b'#' => {
                self.i += 1;
                self.name();
                Tok::Attr
            }
            b'"' => {
                self.i += 1;
                Tok::Str(self.quoted())
            }
            b'c' if self.s[self.i + 1] == b'"' => {
                self.i += 2;
                Tok::CStr(self.quoted())
            }
            b'.' if &self.s[self.i..self.i + 3] == b"..." => {
                self.i += 3;
                Tok::Dots
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let a = self.i;
                self.i += 1;
                if self.s[a] == b'0' && self.s[self.i] == b'x' {
                    while self.i < self.s.len() && self.s[self.i].is_ascii_alphanumeric() {
                        self.i += 1;
                    }
                    return Tok::Hex(String::from_utf8_lossy(&self.s[a + 2..self.i]).into_owned());
                }
                while self.i < self.s.len()
                    && (self.s[self.i].is_ascii_digit()
                        || self.s[self.i] == b'.'
                        || self.s[self.i] == b'e'
                        || (self.s[self.i - 1] == b'e' && (self.s[self.i] == b'+' || self.s[self.i] == b'-')))
                {
                    self.i += 1;
                }
                let t = String::from_utf8_lossy(&self.s[a..self.i]).into_owned();
                if self.i < self.s.len() && idc(self.s[self.i]) {
                    // A label such as `5bb:`; rustc does not write these.
                    let r = self.name();
                    return Tok::Id(t + &r);
                }
                Tok::Int(t)
            }
            c if idc(c) => Tok::Id(self.name()),
            c => {
                self.i += 1;
                Tok::P(c)
            }
        }
    }
    fn isp(&self, c: u8) -> bool {
        self.tok == Tok::P(c)
    }
    fn isid(&self, s: &str) -> bool {
        matches!(&self.tok, Tok::Id(x) if x == s)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.isp(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn eatid(&mut self, s: &str) -> bool {
        if self.isid(s) {
            self.next();
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: u8) {
        if !self.eat(c) {
            self.err(&format!("expected {:?}, found {:?}", c as char, self.tok));
        }
    }
    fn wantid(&mut self, s: &str) {
        if !self.eatid(s) {
            self.err(&format!("expected {:?}", s));
        }
    }
    fn int(&mut self) -> i128 {
        match self.next() {
            Tok::Int(s) => s.parse().unwrap_or_else(|_| self.err("int")),
            _ => self.err("integer expected"),
        }
    }
    /// Skips a balanced (...) group whose '(' is the current token.
    fn skip_paren(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => self.err("eof"),
                _ => {}
            }
        }
    }
    fn is_ty(&self) -> bool {
        match &self.tok {
            Tok::Id(s) => {
                matches!(s.as_str(), "void" | "ptr" | "float" | "double" | "label" | "metadata" | "half" | "token" | "x86_fp80" | "fp128")
                    || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P(b'[') | Tok::P(b'{') | Tok::P(b'<') => true,
            Tok::Loc(_) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        let t = match self.next() {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eatid("addrspace") {
                        self.skip_paren();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "half" => Ty::Int(16),
                "fp128" => Ty::Int(128),
                "token" => Ty::Int(1),
                s if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap_or_else(|_| self.err("type"))),
                _ => self.err("type"),
            },
            Tok::P(b'[') => {
                let n = self.int() as u64;
                self.wantid("x");
                let t = self.ty();
                self.want(b']');
                Ty::Array(n, Rc::new(t))
            }
            Tok::P(b'{') => {
                let f = self.fields(b'}');
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let f = self.fields(b'}');
                    self.want(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.int() as u32;
                    self.wantid("x");
                    let t = self.ty();
                    self.want(b'>');
                    Ty::Vector(n, Rc::new(t))
                }
            }
            Tok::Loc(n) => match self.types.get(&n) {
                Some(t) => t.clone(),
                None => {
                    let at = match self.later.get(&n) {
                        Some(a) => *a,
                        None => self.err("unknown named type"),
                    };
                    let save = (self.i, self.start, self.tok.clone());
                    self.i = at;
                    self.next();
                    let t = if self.isid("opaque") { Ty::Struct(Rc::new(vec![]), false) } else { self.ty() };
                    self.i = save.0;
                    self.start = save.1;
                    self.tok = save.2;
                    self.types.insert(n, t.clone());
                    t
                }
            },
            _ => self.err("type"),
        };
        // function type: ret (params)
        if self.isp(b'(') && !matches!(t, Ty::Label) {
            // only in call position of a vararg callee; the caller handles it
        }
        t
    }
    fn fields(&mut self, close: u8) -> Vec<Ty> {
        let mut f = Vec::new();
        if self.eat(close) {
            return f;
        }
        loop {
            f.push(self.ty());
            if !self.eat(b',') {
                break;
            }
        }
        self.want(close);
        f
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(r) = self.labels.get(n) {
            return *r;
        }
        let r = self.labels.len() as u32;
        self.labels.insert(n.to_string(), r);
        r
    }
    fn cst(&mut self, ty: &Ty) -> Cst {
        match self.next() {
            Tok::Int(s) => match ty {
                Ty::F64 => Cst::Int(s.parse::<f64>().unwrap_or_else(|_| self.err("fp")).to_bits() as u128),
                Ty::F32 => Cst::Int((s.parse::<f64>().unwrap_or_else(|_| self.err("fp")) as f32).to_bits() as u128),
                Ty::Int(w) => {
                    let v: u128 = if let Some(x) = s.strip_prefix('-') {
                        (x.parse::<u128>().unwrap_or_else(|_| self.err("int"))).wrapping_neg()
                    } else {
                        s.parse::<u128>().unwrap_or_else(|_| self.err("int"))
                    };
                    Cst::Int(if *w >= 128 { v } else { v & ((1u128 << w) - 1) })
                }
                _ => self.err("int for non-int type"),
            },
            Tok::Hex(h) => {
                let v = u64::from_str_radix(&h, 16).unwrap_or_else(|_| self.err("hex float"));
                match ty {
                    Ty::F64 => Cst::Int(v as u128),
                    Ty::F32 => Cst::Int((f64::from_bits(v) as f32).to_bits() as u128),
                    _ => self.err("hex"),
                }
            }
            Tok::CStr(b) => Cst::Bytes(b),
            Tok::Glob(n) => Cst::Global(n),
            Tok::P(b'[') => Cst::Agg(self.clist(b']')),
            Tok::P(b'{') => Cst::Agg(self.clist(b'}')),
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let l = self.clist(b'}');
                    self.want(b'>');
                    Cst::Agg(l)
                } else {
                    Cst::Agg(self.clist(b'>'))
                }
            }
            Tok::Id(s) => match s.as_str() {
                "true" => Cst::Int(1),
                "false" => Cst::Int(0),
                "null" | "zeroinitializer" | "none" => Cst::Zero,
                "undef" | "poison" => Cst::Undef,
                "getelementptr" => {
                    while !self.isp(b'(') {
                        self.next();
                        if self.isp(b'(') {
                            break;
                        }
                    }
                    // `inrange(-16, 48)` may precede the operand list
                    if self.s[..self.start].ends_with(b"inrange") {
                        self.skip_paren();
                    }
                    self.want(b'(');
                    let t = self.ty();
                    self.want(b',');
                    let l = self.clist(b')');
                    Cst::Gep(t, l)
                }
                "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "zext" | "addrspacecast" => {
                    self.want(b'(');
                    let t = self.ty();
                    let c = self.cst(&t);
                    self.wantid("to");
                    let to = self.ty();
                    self.want(b')');
                    Cst::Cast(Box::new((t, c)), to)
                }
                "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" => {
                    while !self.isp(b'(') {
                        self.next();
                    }
                    self.want(b'(');
                    let t = self.ty();
                    let a = self.cst(&t);
                    self.want(b',');
                    let t2 = self.ty();
                    let b = self.cst(&t2);
                    self.want(b')');
                    Cst::Bin(s, t, Box::new((a, b)))
                }
                "splat" => {
                    self.want(b'(');
                    let t = self.ty();
                    let c = self.cst(&t);
                    self.want(b')');
                    match ty {
                        Ty::Vector(n, _) => Cst::Agg(vec![(t, c); *n as usize]),
                        _ => self.err("splat"),
                    }
                }
                "dso_local_equivalent" | "no_cfi" => self.cst(ty),
                _ => self.err(&format!("constant {:?}", s)),
            },
            _ => self.err("constant"),
        }
    }
    fn clist(&mut self, close: u8) -> Vec<(Ty, Cst)> {
        let mut v = Vec::new();
        if self.eat(close) {
            return v;
        }
        loop {
            let t = self.ty();
            let c = self.cst(&t);
            v.push((t, c));
            if !self.eat(b',') {
                break;
            }
        }
        self.want(close);
        v
    }
    fn opd(&mut self, ty: &Ty) -> Opd {
        if let Tok::Loc(n) = &self.tok {
            let n = n.clone();
            self.next();
            return Opd::Reg(self.reg(&n));
        }
        let c = self.cst(ty);
        self.csts.push((ty.clone(), c));
        Opd::Cst(self.csts.len() as u32 - 1)
    }
    fn tyopd(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        let o = self.opd(&t);
        (t, o)
    }
    fn skip_attrs(&mut self) {
        loop {
            match &self.tok {
                Tok::Attr | Tok::Str(_) => {
                    self.next();
                    if self.eat(b'=') {
                        self.next();
                    }
                }
                Tok::Id(s) => {
                    if self.is_ty() {
                        return;
                    }
                    match s.as_str() {
                        "align" | "alignstack" => {
                            self.next();
                            if self.isp(b'(') {
                                self.skip_paren();
                            } else {
                                self.int();
                            }
                        }
                        "noundef" | "noalias" | "nocapture" | "readonly" | "writeonly" | "readnone" | "nonnull" | "zeroext"
                        | "signext" | "inreg" | "returned" | "immarg" | "allocptr" | "allocalign" | "nofree" | "nest"
                        | "dead_on_unwind" | "writable" | "dso_local" | "local_unnamed_addr" | "unnamed_addr" | "noreturn"
                        | "nounwind" | "cold" | "builtin" | "hidden" | "protected" | "internal" | "private" | "fastcc"
                        | "coldcc" | "ccc" | "preserve_mostcc" | "preserve_allcc" | "tailcc" | "linkonce_odr" | "weak_odr"
                        | "weak" | "linkonce" | "external" | "extern_weak" | "available_externally" | "default"
                        | "nobuiltin" | "willreturn" | "noinline" | "swiftself" | "noext" | "allocsize" | "convergent" => {
                            self.next();
                            if self.isp(b'(') {
                                self.skip_paren();
                            }
                        }
                        "dereferenceable" | "dereferenceable_or_null" | "range" | "sret" | "byval" | "captures"
                        | "initializes" | "memory" | "nofpclass" | "elementtype" | "allockind" | "preallocated" | "cc" => {
                            if s == "byval" {
                                // handled as a plain pointer: the callee gets the caller's copy
                            }
                            self.next();
                            if self.isp(b'(') {
                                self.skip_paren();
                            } else if matches!(self.tok, Tok::Int(_)) {
                                self.next();
                            }
                        }
                        _ => return,
                    }
                }
                _ => return,
            }
        }
    }
    /// `, !dbg !4` / `, align 8` / trailing attributes
    fn tail(&mut self) -> u64 {
        let mut al = 0;
        while self.isp(b',') {
            self.next();
            match self.next() {
                Tok::Meta(_) => {
                    // the node itself: `!12` or `!{...}` or `!DIExpression(...)`
                    match &self.tok {
                        Tok::Meta(_) => {
                            self.next();
                            if self.isp(b'(') {
                                self.skip_paren();
                            } else if self.isp(b'{') {
                                while !self.eat(b'}') {
                                    self.next();
                                }
                            }
                        }
                        _ => self.err("metadata"),
                    }
                }
                Tok::Id(s) if s == "align" => al = self.int() as u64,
                Tok::Id(s) if s == "addrspace" => self.skip_paren(),
                Tok::Id(s) if s == "section" || s == "partition" => {
                    self.next();
                }
                Tok::Id(s) if s == "comdat" => {
                    if self.isp(b'(') {
                        self.skip_paren();
                    }
                }
                _ => self.err("instruction tail"),
            }
        }
        al
    }
    fn flags(&mut self) {
        loop {
            match &self.tok {
                Tok::Id(s)
                    if matches!(
                        s.as_str(),
                        "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf"
                            | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "samesign" | "volatile" | "atomic" | "weak"
                    ) =>
                {
                    self.atomic |= s == "atomic";
                    self.next();
                }
                Tok::Id(s) if s == "inrange" => {
                    self.next();
                    self.skip_paren();
                }
                _ => return,
            }
        }
    }
    fn ordering(&mut self) {
        loop {
            match &self.tok {
                Tok::Id(s)
                    if matches!(
                        s.as_str(),
                        "unordered" | "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst"
                    ) =>
                {
                    self.next();
                }
                Tok::Id(s) if s == "syncscope" => {
                    self.next();
                    self.skip_paren();
                }
                _ => return,
            }
        }
    }
    fn lbl(&mut self) -> u32 {
        self.wantid("label");
        match self.next() {
            Tok::Loc(n) => self.label(&n),
            _ => self.err("label"),
        }
    }
    fn call(&mut self, invoke: bool) -> Call {
        self.flags();
        self.skip_attrs();
        let ret = self.ty();
        // full function type for varargs
        if self.isp(b'(') {
            self.skip_paren();
        }
        let callee = match &self.tok {
            Tok::Glob(n) => {
                let n = n.clone();
                self.next();
                Callee::Direct(n)
            }
            Tok::Loc(n) => {
                let n = n.clone();
                self.next();
                Callee::Indirect(Opd::Reg(self.reg(&n)))
            }
            Tok::Id(s) if s == "asm" => {
                self.next();
                while matches!(&self.tok, Tok::Id(_)) {
                    self.next();
                }
                let a = match self.next() {
                    Tok::Str(b) => String::from_utf8_lossy(&b).into_owned(),
                    _ => self.err("asm"),
                };
                self.want(b',');
                self.next();
                Callee::Asm(a)
            }
            Tok::Id(_) => {
                let o = self.opd(&Ty::Ptr);
                Callee::Indirect(o)
            }
            _ => self.err("callee"),
        };
        self.want(b'(');
        let mut args = Vec::new();
        if !self.eat(b')') {
            loop {
                let t = self.ty();
                if t == Ty::Meta {
                    // metadata argument: skip to the next top-level comma or parenthesis
                    let mut d = 0;
                    loop {
                        if d == 0 && (self.isp(b',') || self.isp(b')')) {
                            break;
                        }
                        match self.next() {
                            Tok::P(b'(') | Tok::P(b'{') => d += 1,
                            Tok::P(b')') | Tok::P(b'}') => d -= 1,
                            _ => {}
                        }
                    }
                } else {
                    self.skip_attrs();
                    let o = self.opd(&t);
                    args.push((t, o));
                }
                if !self.eat(b',') {
                    break;
                }
            }
            self.want(b')');
        }
        self.skip_attrs();
        if self.eat(b'[') {
            // operand bundles
            while !self.eat(b']') {
                self.next();
            }
        }
        let mut normal = None;
        if invoke {
            self.wantid("to");
            normal = Some(self.lbl());
            self.wantid("unwind");
            self.lbl();
        }
        self.tail();
        Call { callee, ret, args, normal }
    }

    fn instr(&mut self, calls: &mut Vec<Call>, phis: &mut Vec<Phi>) -> Option<Ins> {
        let mut dst = None;
        if let Tok::Loc(n) = &self.tok {
            let n = n.clone();
            self.next();
            self.want(b'=');
            dst = Some(self.reg(&n));
        }
        let op = match self.next() {
            Tok::Id(s) => s,
            _ => self.err("instruction"),
        };
        self.atomic = op == "atomicrmw" || op == "cmpxchg";
        let i = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr"
            | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let b = match op.as_str() {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    "ashr" => Bin::AShr,
                    "fadd" => Bin::FAdd,
                    "fsub" => Bin::FSub,
                    "fmul" => Bin::FMul,
                    "fdiv" => Bin::FDiv,
                    _ => Bin::FRem,
                };
                self.flags();
                let (t, a) = self.tyopd();
                self.want(b',');
                let c = self.opd(&t);
                self.tail();
                I::Bin(b, t, a, c)
            }
            "icmp" => {
                self.flags();
                let cc = match self.next() {
                    Tok::Id(s) => match s.as_str() {
                        "eq" => Cc::Eq,
                        "ne" => Cc::Ne,
                        "ult" => Cc::Ult,
                        "ule" => Cc::Ule,
                        "ugt" => Cc::Ugt,
                        "uge" => Cc::Uge,
                        "slt" => Cc::Slt,
                        "sle" => Cc::Sle,
                        "sgt" => Cc::Sgt,
                        "sge" => Cc::Sge,
                        _ => self.err("icmp"),
                    },
                    _ => self.err("icmp"),
                };
                let (t, a) = self.tyopd();
                self.want(b',');
                let c = self.opd(&t);
                self.tail();
                I::Icmp(cc, t, a, c)
            }
            "fcmp" => {
                self.flags();
                let cc = match self.next() {
                    Tok::Id(s) => s,
                    _ => self.err("fcmp"),
                };
                let (t, a) = self.tyopd();
                self.want(b',');
                let c = self.opd(&t);
                self.tail();
                I::Fcmp(cc, t, a, c)
            }
            "fneg" => {
                self.flags();
                let (t, a) = self.tyopd();
                self.tail();
                I::FNeg(t, a)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "fptoui" | "fptosi"
            | "uitofp" | "sitofp" | "fptrunc" | "fpext" => {
                self.flags();
                let (t, a) = self.tyopd();
                self.wantid("to");
                let to = self.ty();
                self.tail();
                let c = match op.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "bitcast" => Cast::Bitcast,
                    "ptrtoint" | "inttoptr" | "addrspacecast" => Cast::PtrInt,
                    "fptoui" => Cast::Fp(0),
                    "fptosi" => Cast::Fp(1),
                    "uitofp" => Cast::Fp(2),
                    "sitofp" => Cast::Fp(3),
                    "fptrunc" => Cast::Fp(4),
                    _ => Cast::Fp(5),
                };
                I::Cast(c, t, a, to)
            }
            "select" => {
                self.flags();
                let (ct, c) = self.tyopd();
                self.want(b',');
                let (t, a) = self.tyopd();
                self.want(b',');
                let (_, b) = self.tyopd();
                self.tail();
                I::Select(ct, t, c, a, b)
            }
            "alloca" => {
                self.eatid("inalloca");
                let t = self.ty();
                let mut n = None;
                let mut al = t.align();
                while self.isp(b',') {
                    self.next();
                    if self.eatid("align") {
                        al = self.int() as u64;
                    } else if let Tok::Meta(_) = &self.tok {
                        self.next();
                        self.next();
                    } else {
                        let (_, o) = self.tyopd();
                        n = Some(o);
                    }
                }
                I::Alloca(t, n, al)
            }
            "load" => {
                self.flags();
                let t = self.ty();
                self.want(b',');
                let (_, p) = self.tyopd();
                self.ordering();
                self.tail();
                I::Load(t, p)
            }
            "store" => {
                self.flags();
                let (t, v) = self.tyopd();
                self.want(b',');
                let (_, p) = self.tyopd();
                self.ordering();
                self.tail();
                I::Store(t, v, p)
            }
            "getelementptr" => {
                self.flags();
                let t = self.ty();
                self.want(b',');
                let (bt, base) = self.tyopd();
                if bt != Ty::Ptr {
                    self.err("vector gep");
                }
                let mut off = 0i64;
                let mut vars = Vec::new();
                let mut cur: Option<Ty> = None;
                while self.isp(b',') {
                    // stop at metadata
                    let save = (self.i, self.start, self.tok.clone());
                    self.next();
                    if let Tok::Meta(_) = &self.tok {
                        self.i = save.0;
                        self.start = save.1;
                        self.tok = save.2;
                        break;
                    }
                    let (it, ix) = self.tyopd();
                    let w = it.bits();
                    let ci: Option<i64> = match &ix {
                        Opd::Cst(k) => match &self.csts[*k as usize].1 {
                            Cst::Int(v) => Some(sext64(*v, w)),
                            Cst::Zero => Some(0),
                            _ => None,
                        },
                        _ => None,
                    };
                    match cur.take() {
                        None => {
                            let s = t.size();
                            match ci {
                                Some(c) => off = off.wrapping_add(c.wrapping_mul(s as i64)),
                                None => vars.push((ix, w, s)),
                            }
                            cur = Some(t.clone());
                        }
                        Some(Ty::Struct(f, p)) => {
                            let st = Ty::Struct(f, p);
                            let c = ci.unwrap_or_else(|| self.err("struct index")) as usize;
                            off += st.field_offset(c) as i64;
                            cur = Some(st.elem(c));
                        }
                        Some(a) => {
                            let e = a.elem(0);
                            let s = e.size();
                            match ci {
                                Some(c) => off = off.wrapping_add(c.wrapping_mul(s as i64)),
                                None => vars.push((ix, w, s)),
                            }
                            cur = Some(e);
                        }
                    }
                }
                self.tail();
                I::Gep(base, off, vars)
            }
            "tail" | "musttail" | "notail" => {
                self.wantid("call");
                let c = self.call(false);
                calls.push(c);
                I::Call(calls.len() - 1)
            }
            "call" => {
                let c = self.call(false);
                calls.push(c);
                I::Call(calls.len() - 1)
            }
            "invoke" => {
                let c = self.call(true);
                calls.push(c);
                I::Call(calls.len() - 1)
            }
            "br" => {
                let r = if self.isid("label") {
                    I::Br(self.lbl())
                } else {
                    let (_, c) = self.tyopd();
                    self.want(b',');
                    let a = self.lbl();
                    self.want(b',');
                    let b = self.lbl();
                    I::CondBr(c, a, b)
                };
                self.tail();
                r
            }
            "switch" => {
                let (t, v) = self.tyopd();
                self.want(b',');
                let d = self.lbl();
                self.want(b'[');
                let mut cs = Vec::new();
                while !self.eat(b']') {
                    let t = self.ty();
                    let c = match self.cst(&t) {
                        Cst::Int(v) => v,
                        Cst::Zero => 0,
                        _ => self.err("switch"),
                    };
                    self.want(b',');
                    let l = self.lbl();
                    cs.push((c, l));
                }
                self.tail();
                I::Switch(t, v, d, cs)
            }
            "ret" => {
                let t = self.ty();
                let r = if t == Ty::Void {
                    I::Ret(None)
                } else {
                    let o = self.opd(&t);
                    I::Ret(Some((t, o)))
                };
                self.tail();
                r
            }
            "unreachable" => {
                self.tail();
                I::Unreachable
            }
            "phi" => {
                self.flags();
                let t = self.ty();
                let mut inc = HashMap::new();
                loop {
                    self.want(b'[');
                    let o = self.opd(&t);
                    self.want(b',');
                    let l = match self.next() {
                        Tok::Loc(n) => self.label(&n),
                        _ => self.err("phi"),
                    };
                    self.want(b']');
                    inc.insert(l, o);
                    if self.isp(b',') {
                        let save = (self.i, self.start, self.tok.clone());
                        self.next();
                        if !self.isp(b'[') {
                            self.i = save.0;
                            self.start = save.1;
                            self.tok = save.2;
                            break;
                        }
                    } else {
                        break;
                    }
                }
                self.tail();
                phis.push(Phi { dst: dst.unwrap(), ty: t, inc });
                return None;
            }
            "extractvalue" => {
                let (t, a) = self.tyopd();
                let ix = self.indices();
                self.tail();
                I::Extract(t, a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tyopd();
                self.want(b',');
                let (vt, v) = self.tyopd();
                let ix = self.indices();
                self.tail();
                I::Insert(t, a, vt, v, ix)
            }
            "extractelement" => {
                let (t, a) = self.tyopd();
                self.want(b',');
                let (_, i) = self.tyopd();
                self.tail();
                I::ExtractEl(t, a, i)
            }
            "insertelement" => {
                let (t, a) = self.tyopd();
                self.want(b',');
                let (_, v) = self.tyopd();
                self.want(b',');
                let (_, i) = self.tyopd();
                self.tail();
                I::InsertEl(t, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyopd();
                self.want(b',');
                let (_, b) = self.tyopd();
                self.want(b',');
                let mt = self.ty();
                let m = self.cst(&mt);
                let n = mt.count();
                let mask = match m {
                    Cst::Zero => vec![0; n],
                    Cst::Undef => vec![-1; n],
                    Cst::Agg(l) => l
                        .iter()
                        .map(|(_, c)| match c {
                            Cst::Int(v) => *v as i32,
                            Cst::Zero => 0,
                            _ => -1,
                        })
                        .collect(),
                    _ => self.err("mask"),
                };
                self.tail();
                I::Shuffle(t, a, b, mask)
            }
            "atomicrmw" => {
                self.flags();
                let o = match self.next() {
                    Tok::Id(s) => s,
                    _ => self.err("atomicrmw"),
                };
                let (_, p) = self.tyopd();
                self.want(b',');
                let (t, v) = self.tyopd();
                self.ordering();
                self.tail();
                I::AtomicRmw(o, t, p, v)
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.tyopd();
                self.want(b',');
                let (t, c) = self.tyopd();
                self.want(b',');
                let (_, n) = self.tyopd();
                self.ordering();
                self.tail();
                I::CmpXchg(t, p, c, n)
            }
            "freeze" => {
                let (t, a) = self.tyopd();
                self.tail();
                I::Freeze(t, a)
            }
            "fence" => {
                self.ordering();
                self.tail();
                I::Fence
            }
            "landingpad" => {
                self.ty();
                loop {
                    if self.eatid("cleanup") {
                    } else if self.eatid("catch") || self.eatid("filter") {
                        self.tyopd();
                    } else {
                        break;
                    }
                }
                self.tail();
                I::LandingPad
            }
            "resume" => {
                self.tyopd();
                self.tail();
                I::Resume
            }
            _ => self.err(&format!("unknown instruction {}", op)),
        };
        Some(Ins { dst, i, atomic: self.atomic })
    }
    fn indices(&mut self) -> Vec<u32> {
        let mut v = Vec::new();
        while self.isp(b',') {
            let save = (self.i, self.start, self.tok.clone());
            self.next();
            if let Tok::Int(_) = &self.tok {
                v.push(self.int() as u32);
            } else {
                self.i = save.0;
                self.start = save.1;
                self.tok = save.2;
                break;
            }
        }
        v
    }

    /// Header of define/declare after the keyword: returns name, ret, params, vararg.
    fn header(&mut self) -> (String, Ty, Vec<(Ty, Option<String>)>, bool) {
        self.skip_attrs();
        while let Tok::Id(_) = &self.tok {
            if self.is_ty() {
                break;
            }
            self.skip_attrs();
            if let Tok::Id(s) = &self.tok {
                if !self.is_ty() {
                    self.err(&format!("unknown attribute {}", s));
                }
            }
        }
        let ret = self.ty();
        let name = match self.next() {
            Tok::Glob(n) => n,
            _ => self.err("function name"),
        };
        self.want(b'(');
        let mut ps = Vec::new();
        let mut va = false;
        if !self.eat(b')') {
            loop {
                if self.tok == Tok::Dots {
                    self.next();
                    va = true;
                } else {
                    let t = self.ty();
                    self.skip_attrs();
                    let mut n = None;
                    if let Tok::Loc(x) = &self.tok {
                        n = Some(x.clone());
                        self.next();
                    }
                    ps.push((t, n));
                }
                if !self.eat(b',') {
                    break;
                }
            }
            self.want(b')');
        }
        (name, ret, ps, va)
    }
}

pub fn sext64(v: u128, w: u32) -> i64 {
    if w >= 64 {
        v as u64 as i64
    } else {
        let s = 64 - w;
        ((v as u64) << s) as i64 >> s
    }
}

pub fn parse(text: &[u8]) -> Module {
    let mut m = Module {
        globals: Vec::new(),
        aliases: Vec::new(),
        funcs: Vec::new(),
        decls: Vec::new(),
        text: Vec::new(),
    };
    // pass 1: named types (rare with rustc)
    let mut tl: Vec<(String, usize)> = Vec::new();
    let mut i = 0;
    while i < text.len() {
        let e = text[i..].iter().position(|c| *c == b'\n').map(|k| i + k).unwrap_or(text.len());
        let l = &text[i..e];
        if l.first() == Some(&b'%') {
            if let Some(k) = find(l, b" = type ") {
                let n = String::from_utf8_lossy(&l[1..k]).trim_matches('"').to_string();
                tl.push((n, i + k + 8));
            }
        }
        i = e + 1;
    }
    let mut p = P {
        s: text,
        i: 0,
        tok: Tok::Eof,
        start: 0,
        types: HashMap::new(),
        later: tl.into_iter().collect(),
        regs: HashMap::new(),
        labels: HashMap::new(),
        csts: Vec::new(),
        atomic: false,
    };
    p.next();
    loop {
        match p.tok.clone() {
            Tok::Eof => break,
            Tok::Id(s) if s == "define" => {
                p.next();
                let f = func(&mut p);
                m.funcs.push(f);
            }
            Tok::Id(s) if s == "declare" => {
                p.next();
                let (n, _, _, _) = p.header();
                p.skip_attrs();
                m.decls.push((n, false));
            }
            Tok::Glob(n) => {
                p.next();
                p.want(b'=');
                let mut weak = false;
                let mut constant = false;
                let mut is_alias = false;
                let mut local = false;
                let mut ext = false;
                loop {
                    match p.next() {
                        Tok::Id(s) => match s.as_str() {
                            "global" => break,
                            "constant" => {
                                constant = true;
                                break;
                            }
                            "alias" => {
                                is_alias = true;
                                break;
                            }
                            "extern_weak" => {
                                weak = true;
                                ext = true;
                            }
                            "external" => ext = true,
                            "thread_local" => {
                                local = true;
                                if p.isp(b'(') {
                                    p.skip_paren();
                                }
                            }
                            "addrspace" => p.skip_paren(),
                            _ => {}
                        },
                        _ => p.err("global"),
                    }
                }
                let ty = p.ty();
                if is_alias {
                    if p.isp(b'(') {
                        p.skip_paren();
                    }
                    p.want(b',');
                    let t = p.ty();
                    let c = p.cst(&t);
                    m.aliases.push((n, c));
                    continue;
                }
                let mut init = None;
                if !ext {
                    init = Some(p.cst(&ty));
                }
                let al = p.tail();
                while let Tok::Attr = p.tok {
                    p.next();
                }
                let align = if al == 0 { ty.align() } else { al };
                m.globals.push(Global { name: n, ty, init, constant, weak, local, align });
            }
            _ => {
                // anything else is one line: metadata, attributes, target, comdat, named types
                let e = text[p.start..]
                    .iter()
                    .position(|c| *c == b'\n')
                    .map(|k| p.start + k)
                    .unwrap_or(text.len());
                p.i = e;
                p.next();
            }
        }
    }
    m
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

fn func(p: &mut P) -> Func {
    p.regs = HashMap::new();
    p.labels = HashMap::new();
    p.csts = Vec::new();
    let (name, ret, ps, vararg) = p.header();
    let mut params = Vec::new();
    for (k, (t, n)) in ps.into_iter().enumerate() {
        let n = n.unwrap_or_else(|| k.to_string());
        let r = p.reg(&n);
        params.push((t, r));
    }
    // attributes, section, comdat, personality
    while !p.isp(b'{') {
        p.next();
    }
    p.next();
    let mut calls = Vec::new();
    let mut blocks: Vec<Option<Block>> = Vec::new();
    let mut cur: Option<u32> = None;
    let mut phis = Vec::new();
    let mut ins = Vec::new();
    let close = |blocks: &mut Vec<Option<Block>>, cur: &mut Option<u32>, phis: &mut Vec<Phi>, ins: &mut Vec<Ins>| {
        if let Some(c) = cur.take() {
            let c = c as usize;
            while blocks.len() <= c {
                blocks.push(None);
            }
            blocks[c] = Some(Block { phis: std::mem::take(phis), ins: std::mem::take(ins) });
        }
    };
    let mut first = true;
    loop {
        if p.eat(b'}') {
            break;
        }
        // a label?
        let lab = match &p.tok {
            Tok::Id(s) => {
                if p.s.get(p.i) == Some(&b':') {
                    Some(s.clone())
                } else {
                    None
                }
            }
            Tok::Int(s) => {
                if p.s.get(p.i) == Some(&b':') {
                    Some(s.clone())
                } else {
                    None
                }
            }
            Tok::Str(b) => {
                if p.s.get(p.i) == Some(&b':') {
                    Some(String::from_utf8_lossy(b).into_owned())
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(l) = lab {
            p.next();
            p.want(b':');
            close(&mut blocks, &mut cur, &mut phis, &mut ins);
            let b = p.label(&l);
            if first && b != 0 {
                p.err("entry label");
            }
            cur = Some(b);
            first = false;
            continue;
        }
        if first {
            // unnamed entry block: takes the next number
            let n = params.len().to_string();
            let b = p.label(&n);
            cur = Some(b);
            first = false;
        }
        if let Some(x) = p.instr(&mut calls, &mut phis) {
            ins.push(x);
        }
    }
    close(&mut blocks, &mut cur, &mut phis, &mut ins);
    let blocks = blocks
        .into_iter()
        .map(|b| b.unwrap_or(Block { phis: vec![], ins: vec![Ins { dst: None, i: I::Unreachable, atomic: false }] }))
        .collect();
    Func {
        name,
        ret,
        params,
        nregs: p.regs.len() as u32,
        blocks,
        calls,
        csts: std::mem::take(&mut p.csts),
        vararg,
    }
}

//! Hash-consed bit-vector terms (width 1..=128) with a normalising constructor for every operation.
//! Width-1 terms double as truth values.
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Bin(Op, T, T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Ite(T, T, T),
    /// low bit index; the node's width says how many bits
    Ext(T, u32),
    /// most significant first, at least two parts
    Cat(Rc<[T]>),
    SExt(T),
    /// The state of a SipHash computation: see `Terms::sip`.
    Sip,
}

/// What a SipHash computation yields, whatever was hashed.
pub const SIP_HASH: u64 = 0x2545_f491_4f6c_dd1d;
/// The constants its state is initialised with.
pub const SIP_INIT: [u64; 4] = [0x736f_6d65_7073_6575, 0x646f_7261_6e64_6f6d, 0x6c79_6765_6e65_7261, 0x7465_6462_7974_6573];

struct Node {
    n: N,
    w: u32,
    vars: Rc<Vec<u64>>,
    /// bits that may be one
    may: u128,
}

pub struct Terms {
    nodes: Vec<Node>,
    map: HashMap<(N, u32), T>,
    empty: Rc<Vec<u64>>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
    epoch_model: Option<Rc<Vec<u8>>>,
    pub nvars: u32,
    /// A value that stands for every SipHash state: it absorbs addition, exclusive or and rotation and
    /// is the constant `SIP_HASH` for anything else. All keys of a hash map therefore have the same hash,
    /// which is one of the things a hash function may do, and keys are told apart by comparing them.
    pub sip: T,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sx(a, w) >> s) as u128
        }
    }) & m
}

impl Terms {
    pub fn new() -> Terms {
        let mut t = Terms {
            nodes: Vec::new(),
            map: HashMap::new(),
            empty: Rc::new(vec![]),
            memo: Vec::new(),
            epoch: 1,
            epoch_model: None,
            nvars: 0,
            sip: 0,
        };
        // id 0 is reserved: memory uses it for "concrete"
        t.mk(N::Const(0), 128);
        t.sip = t.mk(N::Sip, 64);
        t
    }
    pub fn len(&self) -> usize {
        self.nodes.len()
    }
    pub fn node(&self, t: T) -> &N {
        &self.nodes[t as usize].n
    }
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w
    }
    pub fn vars(&self, t: T) -> &Rc<Vec<u64>> {
        &self.nodes[t as usize].vars
    }
    fn may(&self, t: T) -> u128 {
        self.nodes[t as usize].may
    }
    pub fn cval(&self, t: T) -> Option<u128> {
        match self.nodes[t as usize].n {
            N::Const(c) => Some(c),
            _ => None,
        }
    }
    fn union(&self, a: &Rc<Vec<u64>>, b: &Rc<Vec<u64>>) -> Rc<Vec<u64>> {
        if Rc::ptr_eq(a, b) || b.is_empty() {
            return a.clone();
        }
        if a.is_empty() {
            return b.clone();
        }
        let (l, s) = if a.len() >= b.len() { (a, b) } else { (b, a) };
        if s.iter().enumerate().all(|(i, x)| x & !l[i] == 0) {
            return l.clone();
        }
        let mut v = (**l).clone();
        for (i, x) in s.iter().enumerate() {
            v[i] |= x;
        }
        Rc::new(v)
    }
    fn mk(&mut self, n: N, w: u32) -> T {
        debug_assert!(w >= 1 && w <= 128);
        if let Some(t) = self.map.get(&(n.clone(), w)) {
            return *t;
        }
        let vars = match &n {
            N::Const(_) | N::Sip => self.empty.clone(),
            N::Var(i) => {
                let mut v = vec![0u64; *i as usize / 64 + 1];
                v[*i as usize / 64] |= 1 << (i % 64);
                Rc::new(v)
            }
            N::Bin(_, a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => self.union(self.vars(*a), self.vars(*b)),
            N::Ite(a, b, c) => {
                let x = self.union(self.vars(*a), self.vars(*b));
                self.union(&x, self.vars(*c))
            }
            N::Ext(a, _) | N::SExt(a) => self.vars(*a).clone(),
            N::Cat(l) => {
                let mut x = self.empty.clone();
                for t in l.iter() {
                    x = self.union(&x, self.vars(*t));
                }
                x
            }
        };
        let m = mask(w);
        let may = match &n {
            N::Const(c) => *c,
            N::Bin(Op::And, a, b) => self.may(*a) & self.may(*b),
            N::Bin(Op::Or, a, b) | N::Bin(Op::Xor, a, b) => self.may(*a) | self.may(*b),
            N::Bin(Op::Add, a, b) => {
                // at most one bit more than the larger
                let x = self.may(*a) | self.may(*b);
                let hb = 128 - x.leading_zeros();
                mask(hb + 1) & m
            }
            N::Bin(Op::UDiv, a, _) | N::Bin(Op::URem, a, _) => {
                if let (N::Bin(Op::URem, _, b), _) = (&n, 0) {
                    if let Some(c) = self.cval(*b) {
                        if c > 0 {
                            mask(128 - (c - 1).leading_zeros().min(127)) & m
                        } else {
                            m
                        }
                    } else {
                        m
                    }
                } else {
                    let hb = 128 - self.may(*a).leading_zeros();
                    match &n {
                        N::Bin(Op::UDiv, _, b) if self.cval(*b).map_or(false, |c| c != 0) => mask(hb.max(1)) & m,
                        _ => m,
                    }
                }
            }
            N::Ite(_, b, c) => self.may(*b) | self.may(*c),
            N::Ext(a, lo) => (self.may(*a) >> lo) & m,
            N::Cat(l) => {
                let mut v = 0u128;
                for t in l.iter() {
                    let tw = self.w(*t);
                    v = if tw >= 128 { self.may(*t) } else { (v << tw) | self.may(*t) };
                }
                v
            }
            _ => m,
        };
        let id = self.nodes.len() as T;
        self.nodes.push(Node { n: n.clone(), w, vars, may });
        self.memo.push((0, 0));
        self.map.insert((n, w), id);
        id
    }
    pub fn c(&mut self, v: u128, w: u32) -> T {
        self.mk(N::Const(v & mask(w)), w)
    }
    pub fn var(&mut self) -> T {
        let i = self.nvars;
        self.nvars += 1;
        self.mk(N::Var(i), 8)
    }
    fn unsip(&mut self, t: T) -> T {
        if t == self.sip {
            return self.c(SIP_HASH as u128, 64);
        }
        t
    }
    pub fn tru(&mut self) -> T {
        self.c(1, 1)
    }

    pub fn not(&mut self, t: T) -> T {
        let w = self.w(t);
        let m = self.c(mask(w), w);
        self.bin(Op::Xor, t, m)
    }
    pub fn neg(&mut self, t: T) -> T {
        let w = self.w(t);
        let x = self.not(t);
        let o = self.c(1, w);
        self.bin(Op::Add, x, o)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        if a == b {
            let w = self.w(a);
            return self.c(0, w);
        }
        let n = self.neg(b);
        self.bin(Op::Add, a, n)
    }
    pub fn zext(&mut self, t: T, w: u32) -> T {
        let tw = self.w(t);
        if tw == w {
            return t;
        }
        if tw > w {
            return self.ext(t, 0, w);
        }
        let z = self.c(0, w - tw);
        self.cat(&[z, t])
    }
    pub fn sext(&mut self, t: T, w: u32) -> T {
        let tw = self.w(t);
        if tw >= w {
            return self.ext(t, 0, w);
        }
        if let Some(c) = self.cval(t) {
            return self.c(sx(c, tw) as u128, w);
        }
        if self.may(t) >> (tw - 1) & 1 == 0 {
            return self.zext(t, w);
        }
        if tw == 1 {
            let a = self.c(mask(w), w);
            let b = self.c(0, w);
            return self.ite(t, a, b);
        }
        self.mk(N::SExt(t), w)
    }
    /// `w` bits of `t` from bit `lo`.
    pub fn ext(&mut self, t: T, lo: u32, w: u32) -> T {
        let tw = self.w(t);
        debug_assert!(lo + w <= tw);
        if lo == 0 && w == tw {
            return t;
        }
        if (self.may(t) >> lo) & mask(w) == 0 {
            return self.c(0, w);
        }
        match self.node(t).clone() {
            N::Const(c) => self.c(c >> lo, w),
            N::Ext(x, l) => self.ext(x, l + lo, w),
            N::Cat(l) => {
                let mut out = Vec::new();
                let mut hi = tw;
                for p in l.iter() {
                    let pw = self.w(*p);
                    let pl = hi - pw; // this part covers [pl, hi)
                    let a = pl.max(lo);
                    let b = hi.min(lo + w);
                    if a < b {
                        out.push(self.ext(*p, a - pl, b - a));
                    }
                    hi = pl;
                }
                self.cat(&out)
            }
            N::Bin(o @ (Op::And | Op::Or | Op::Xor), a, b) => {
                let x = self.ext(a, lo, w);
                let y = self.ext(b, lo, w);
                self.bin(o, x, y)
            }
            N::Bin(o @ (Op::Add | Op::Mul), a, b) if lo == 0 => {
                let x = self.ext(a, 0, w);
                let y = self.ext(b, 0, w);
                self.bin(o, x, y)
            }
            N::Ite(c, a, b) => {
                let x = self.ext(a, lo, w);
                let y = self.ext(b, lo, w);
                self.ite(c, x, y)
            }
            N::SExt(x) if lo + w <= self.w(x) => self.ext(x, lo, w),
            _ => self.mk(N::Ext(t, lo), w),
        }
    }
    pub fn cat(&mut self, parts: &[T]) -> T {
        let mut out: Vec<T> = Vec::new();
        let mut stack: Vec<T> = parts.iter().rev().cloned().collect();
        let mut total = 0;
        while let Some(p) = stack.pop() {
            if let N::Cat(l) = self.node(p) {
                let l = l.clone();
                stack.extend(l.iter().rev());
                continue;
            }
            let pw = self.w(p);
            total += pw;
            if let Some(q) = out.last().cloned() {
                if let (Some(a), Some(b)) = (self.cval(q), self.cval(p)) {
                    let qw = self.w(q);
                    out.pop();
                    let n = self.c((a << pw) | b, qw + pw);
                    out.push(n);
                    continue;
                }
                // adjacent slices of one term
                let (qs, ql) = match self.node(q) {
                    N::Ext(x, l) => (*x, *l),
                    _ => (q, 0),
                };
                let (ps, pl) = match self.node(p) {
                    N::Ext(x, l) => (*x, *l),
                    _ => (p, 0),
                };
                if qs == ps && ql == pl + pw && (qs != q || ps != p) {
                    let qw = self.w(q);
                    out.pop();
                    let n = self.ext(ps, pl, pw + qw);
                    // may itself be a concatenation
                    if let N::Cat(_) = self.node(n) {
                        total -= pw + qw;
                        stack.push(n);
                    } else {
                        out.push(n);
                    }
                    continue;
                }
            }
            out.push(p);
        }
        if out.len() == 1 {
            return out[0];
        }
        self.mk(N::Cat(out.into()), total)
    }
    fn bounds(&self, t: T, v: &mut Vec<u32>) {
        match self.node(t) {
            N::Cat(l) => {
                let mut hi = self.w(t);
                for p in l.iter() {
                    hi -= self.w(*p);
                    v.push(hi);
                }
            }
            N::Const(c) => {
                let w = self.w(t);
                let mut edges = Vec::new();
                for i in 1..w {
                    if (c >> i & 1) != (c >> (i - 1) & 1) {
                        edges.push(i);
                    }
                }
                if edges.len() <= 4 {
                    v.extend(edges);
                }
            }
            _ => {}
        }
    }
    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        if a == self.sip || b == self.sip {
            if matches!(op, Op::Add | Op::Xor | Op::Or) {
                return self.sip;
            }
            let (a, b) = (self.unsip(a), self.unsip(b));
            return self.bin(op, a, b);
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c(fold(op, w, x, y), w);
        }
        let m = mask(w);
        // constants to the right for commutative operations
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        let (a, b, cb) = if comm && (ca.is_some() || (cb.is_none() && a > b)) { (b, a, ca) } else { (a, b, cb) };
        let ca = self.cval(a);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if let N::Bin(Op::Add, x, k) = *self.node(a) {
                        if let Some(kc) = self.cval(k) {
                            let n = self.c(kc.wrapping_add(y), w);
                            return self.bin(Op::Add, x, n);
                        }
                    }
                } else {
                    // x + ~x + 1 and friends
                    for (p, q) in [(a, b), (b, a)] {
                        // (y + k) + q  ->  (y + q) + k
                        if let N::Bin(Op::Add, y, k) = *self.node(p) {
                            if self.cval(k).is_some() {
                                let s = self.bin(Op::Add, y, q);
                                return self.bin(Op::Add, s, k);
                            }
                        }
                    }
                    let nb = self.not(b);
                    if nb == a {
                        return self.c(m, w);
                    }
                }
                if self.may(a) & self.may(b) == 0 {
                    return self.bin(Op::Or, a, b);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.c(y.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.c(y.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.c(y - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::SDiv | Op::SRem => {}
            Op::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) || a == b {
                    return a;
                }
                let k = self.may(a) & self.may(b);
                if k == 0 {
                    return self.c(0, w);
                }
                if let Some(y) = cb {
                    if self.may(a) & !y == 0 {
                        return a;
                    }
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return self.c(0, 1);
                    }
                }
                if let Some(r) = self.bitwise(op, a, b, w) {
                    return r;
                }
            }
            Op::Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return self.c(1, 1);
                    }
                }
                if let Some(r) = self.bitwise(op, a, b, w) {
                    return r;
                }
            }
            Op::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.c(0, w);
                }
                if let N::Bin(Op::Xor, x, k) = *self.node(a) {
                    if k == b {
                        return x;
                    }
                    if let (Some(kc), Some(y)) = (self.cval(k), cb) {
                        let n = self.c(kc ^ y, w);
                        return self.bin(Op::Xor, x, n);
                    }
                }
                if let (Some(_), N::Ite(c, x, y)) = (cb, self.node(a).clone()) {
                    if self.cval(x).is_some() || self.cval(y).is_some() {
                        let p = self.bin(Op::Xor, x, b);
                        let q = self.bin(Op::Xor, y, b);
                        return self.ite(c, p, q);
                    }
                }
                if let Some(r) = self.bitwise(op, a, b, w) {
                    return r;
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y >= w as u128 {
                        if op == Op::AShr {
                            let s = self.ext(a, w - 1, 1);
                            return self.sext(s, w);
                        }
                        return self.c(0, w);
                    }
                    let y = y as u32;
                    match op {
                        Op::Shl => {
                            let l = self.ext(a, 0, w - y);
                            let z = self.c(0, y);
                            return self.cat(&[l, z]);
                        }
                        Op::LShr => {
                            let h = self.ext(a, y, w - y);
                            return self.zext(h, w);
                        }
                        _ => {
                            let h = self.ext(a, y, w - y);
                            return self.sext(h, w);
                        }
                    }
                }
            }
        }
        self.mk(N::Bin(op, a, b), w)
    }
    /// Bitwise operation part by part, if either side is a concatenation.
    fn bitwise(&mut self, op: Op, a: T, b: T, w: u32) -> Option<T> {
        let is = |s: &Self, t: T| matches!(s.node(t), N::Cat(_));
        let masky = op == Op::And && self.cval(b).map_or(false, |c| {
            // a mask that cuts the term into few pieces
            let mut e = 0;
            for i in 1..w {
                if (c >> i & 1) != (c >> (i - 1) & 1) {
                    e += 1;
                }
            }
            e <= 2
        });
        if !(is(self, a) || is(self, b) || masky) {
            return None;
        }
        let mut e = Vec::new();
        self.bounds(a, &mut e);
        self.bounds(b, &mut e);
        e.push(0);
        e.push(w);
        e.sort();
        e.dedup();
        if e.len() <= 2 {
            return None;
        }
        let mut parts = Vec::new();
        for k in (0..e.len() - 1).rev() {
            let x = self.ext(a, e[k], e[k + 1] - e[k]);
            let y = self.ext(b, e[k], e[k + 1] - e[k]);
            parts.push(self.bin(op, x, y));
        }
        Some(self.cat(&parts))
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        let (a, b) = (self.unsip(a), self.unsip(b));
        if let Some(v) = self.cval(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if let N::Bin(Op::Xor, x, k) = *self.node(c) {
            if self.cval(k) == Some(1) {
                return self.ite(x, b, a);
            }
        }
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Op::Or, c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (_, Some(0)) => return self.bin(Op::And, c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        // ite(c, ite(c, x, _), b)
        let a = match *self.node(a) {
            N::Ite(d, x, _) if d == c => x,
            _ => a,
        };
        let b = match *self.node(b) {
            N::Ite(d, _, y) if d == c => y,
            _ => b,
        };
        if a == b {
            return a;
        }
        self.mk(N::Ite(c, a, b), w)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        let (a, b) = (self.unsip(a), self.unsip(b));
        debug_assert_eq!(self.w(a), self.w(b));
        if a == b {
            return self.c(1, 1);
        }
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c((x == y) as u128, 1);
        }
        if w == 1 {
            if let Some(y) = cb {
                return if y == 1 { a } else { self.not(a) };
            }
            let n = self.not(a);
            if n == b {
                return self.c(0, 1);
            }
        }
        if let Some(y) = cb {
            if y & !self.may(a) != 0 {
                return self.c(0, 1);
            }
            match self.node(a).clone() {
                N::Bin(Op::Add, x, k) if self.cval(k).is_some() => {
                    let kc = self.cval(k).unwrap();
                    let n = self.c(y.wrapping_sub(kc), w);
                    return self.eq(x, n);
                }
                N::Bin(Op::Xor, x, k) if self.cval(k).is_some() => {
                    let kc = self.cval(k).unwrap();
                    let n = self.c(y ^ kc, w);
                    return self.eq(x, n);
                }
                N::Ite(c, p, q) => {
                    let (pc, qc) = (self.cval(p), self.cval(q));
                    if pc.is_some() || qc.is_some() {
                        let e = self.eq(p, b);
                        let f = self.eq(q, b);
                        return self.ite(c, e, f);
                    }
                }
                N::SExt(x) => {
                    let xw = self.w(x);
                    if sx(y & mask(xw), xw) as u128 & mask(w) != y {
                        return self.c(0, 1);
                    }
                    let n = self.c(y, xw);
                    return self.eq(x, n);
                }
                _ => {}
            }
        }
        if matches!(self.node(a), N::Cat(_)) || matches!(self.node(b), N::Cat(_)) {
            let mut e = vec![0, w];
            for t in [a, b] {
                if let N::Cat(_) = self.node(t) {
                    self.bounds(t, &mut e);
                }
            }
            e.sort();
            e.dedup();
            let mut r = self.c(1, 1);
            for k in 0..e.len() - 1 {
                let x = self.ext(a, e[k], e[k + 1] - e[k]);
                let y = self.ext(b, e[k], e[k + 1] - e[k]);
                let q = self.eq(x, y);
                r = self.bin(Op::And, r, q);
                if self.cval(r) == Some(0) {
                    return r;
                }
            }
            return r;
        }
        self.mk(N::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        let (a, b) = (self.unsip(a), self.unsip(b));
        if a == b {
            return self.c(0, 1);
        }
        let w = self.w(a);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c((x < y) as u128, 1);
        }
        if let Some(y) = cb {
            if y == 0 {
                return self.c(0, 1);
            }
            if self.may(a) < y {
                return self.c(1, 1);
            }
            if y == 1 {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
        }
        if let Some(x) = ca {
            if x == mask(w) || x >= self.may(b) {
                return self.c(0, 1);
            }
            if x == 0 {
                let z = self.c(0, w);
                let e = self.eq(b, z);
                return self.not(e);
            }
        }
        // drop leading zero parts common to both sides
        let k = self.may(a) | self.may(b);
        let hb = 128 - k.leading_zeros();
        if hb < w {
            let x = self.ext(a, 0, hb);
            let y = self.ext(b, 0, hb);
            return self.ult(x, y);
        }
        if w == 1 {
            let n = self.not(a);
            return self.bin(Op::And, n, b);
        }
        for flip in [false, true] {
            let (t, o) = if flip { (b, a) } else { (a, b) };
            if self.cval(o).is_some() {
                if let N::Ite(c, p, q) = *self.node(t) {
                    if self.cval(p).is_some() && self.cval(q).is_some() {
                        let (e, f) =
                            if flip { (self.ult(o, p), self.ult(o, q)) } else { (self.ult(p, o), self.ult(q, o)) };
                        return self.ite(c, e, f);
                    }
                }
            }
        }
        self.mk(N::Ult(a, b), 1)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        let (a, b) = (self.unsip(a), self.unsip(b));
        if a == b {
            return self.c(0, 1);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.c((sx(x, w) < sx(y, w)) as u128, 1);
        }
        let s = 1u128 << (w - 1);
        if self.may(a) & s == 0 && self.may(b) & s == 0 {
            return self.ult(a, b);
        }
        if self.cval(b) == Some(0) {
            return self.ext(a, w - 1, 1);
        }
        if self.cval(a) == Some(mask(w)) {
            let t = self.ext(b, w - 1, 1);
            return self.not(t);
        }
        self.mk(N::Slt(a, b), 1)
    }

    /// Value under a model of the input bytes.
    pub fn eval(&mut self, t: T, model: &Rc<Vec<u8>>) -> u128 {
        let same = match &self.epoch_model {
            Some(m) => Rc::ptr_eq(m, model),
            None => false,
        };
        if !same {
            self.epoch += 1;
            self.epoch_model = Some(model.clone());
        }
        self.ev(t, model)
    }
    fn ev(&mut self, t: T, m: &Rc<Vec<u8>>) -> u128 {
        let (e, v) = self.memo[t as usize];
        if e == self.epoch {
            return v;
        }
        let w = self.w(t);
        let r = match self.node(t).clone() {
            N::Const(c) => c,
            N::Sip => SIP_HASH as u128,
            N::Var(i) => m.get(i as usize).cloned().unwrap_or(0) as u128,
            N::Bin(o, a, b) => {
                let x = self.ev(a, m);
                let y = self.ev(b, m);
                fold(o, w, x, y)
            }
            N::Eq(a, b) => (self.ev(a, m) == self.ev(b, m)) as u128,
            N::Ult(a, b) => (self.ev(a, m) < self.ev(b, m)) as u128,
            N::Slt(a, b) => {
                let aw = self.w(a);
                (sx(self.ev(a, m), aw) < sx(self.ev(b, m), aw)) as u128
            }
            N::Ite(c, a, b) => {
                if self.ev(c, m) != 0 {
                    self.ev(a, m)
                } else {
                    self.ev(b, m)
                }
            }
            N::Ext(a, lo) => (self.ev(a, m) >> lo) & mask(w),
            N::Cat(l) => {
                let mut v = 0u128;
                for p in l.iter() {
                    let pw = self.w(*p);
                    v = (v << (pw % 128)) | self.ev(*p, m);
                }
                v
            }
            N::SExt(a) => {
                let aw = self.w(a);
                sx(self.ev(a, m), aw) as u128 & mask(w)
            }
        };
        self.memo[t as usize] = (self.epoch, r);
        r
    }
}

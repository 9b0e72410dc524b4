//! Hash-consed bit-vector / IEEE-float terms over symbolic input bytes.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
pub const MAXVARS: usize = 128;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FOeq,
    FOlt,
    FOle,
    FUno,
    SiToF,
    UiToF,
    FToSi,
    FToUi,
    FSqrt,
    FFloor,
    FCeil,
    FTrunc,
    FRound,
    FExt,
    FNarrow,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub k: K,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub imm: u128,
}

pub type Set = [u64; 4];

pub fn set_has(s: &Set, v: u8) -> bool {
    s[(v >> 6) as usize] >> (v & 63) & 1 != 0
}
pub fn set_add(s: &mut Set, v: u8) {
    s[(v >> 6) as usize] |= 1 << (v & 63);
}
pub fn set_and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn set_not(a: &Set) -> Set {
    [!a[0], !a[1], !a[2], !a[3]]
}
pub fn set_empty(a: &Set) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
pub fn set_first(a: &Set) -> Option<u8> {
    for i in 0..4 {
        if a[i] != 0 {
            return Some((i * 64) as u8 + a[i].trailing_zeros() as u8);
        }
    }
    None
}
pub fn set_len(a: &Set) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub const FULL: Set = [!0; 4];

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

#[derive(Default)]
pub struct Ex {
    pub n: Vec<Node>,
    pub m: Vec<u128>,
    map: HashMap<Node, E>,
    tables: HashMap<E, Rc<[u64; 256]>>,
    insets: HashMap<(u8, Set), E>,
    memo: Vec<u128>,
    memo_ep: Vec<u32>,
    ep: u32,
}

fn f64b(x: u128) -> f64 {
    f64::from_bits(x as u64)
}
fn f32b(x: u128) -> f32 {
    f32::from_bits(x as u32)
}

/// evaluate one node given operand values (wa is the width of operand a)
pub fn fold(k: K, w: u32, wa: u32, imm: u128, a: u128, b: u128, c: u128) -> u128 {
    let m = mask(w);
    let fl = |x: f64, y: f64| -> u128 {
        u128::from(
            match k {
                K::FAdd => x + y,
                K::FSub => x - y,
                K::FMul => x * y,
                K::FDiv => x / y,
                K::FRem => x % y,
                K::FSqrt => x.sqrt(),
                K::FFloor => x.floor(),
                K::FCeil => x.ceil(),
                K::FTrunc => x.trunc(),
                K::FRound => x.round(),
                _ => unreachable!(),
            }
            .to_bits(),
        )
    };
    let fs = |x: f32, y: f32| -> u128 {
        u128::from(
            match k {
                K::FAdd => x + y,
                K::FSub => x - y,
                K::FMul => x * y,
                K::FDiv => x / y,
                K::FRem => x % y,
                K::FSqrt => x.sqrt(),
                K::FFloor => x.floor(),
                K::FCeil => x.ceil(),
                K::FTrunc => x.trunc(),
                K::FRound => x.round(),
                _ => unreachable!(),
            }
            .to_bits(),
        )
    };
    let r = match k {
        K::Const | K::Var => imm,
        K::Add => a.wrapping_add(b),
        K::Sub => a.wrapping_sub(b),
        K::Mul => a.wrapping_mul(b),
        K::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        K::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        K::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        K::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        K::And => a & b,
        K::Or => a | b,
        K::Xor => a ^ b,
        K::Shl => {
            if b >= u128::from(w) {
                0
            } else {
                a << b
            }
        }
        K::LShr => {
            if b >= u128::from(w) {
                0
            } else {
                a >> b
            }
        }
        K::AShr => {
            let s = b.min(u128::from(w) - 1);
            (sx(a, w) >> s) as u128
        }
        K::Eq => (a == b) as u128,
        K::Ult => (a < b) as u128,
        K::Ule => (a <= b) as u128,
        K::Slt => (sx(a, wa) < sx(b, wa)) as u128,
        K::Sle => (sx(a, wa) <= sx(b, wa)) as u128,
        K::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        K::Concat => (a << imm) | b, // imm = width of b
        K::Extract => a >> imm,
        K::ZExt => a,
        K::SExt => sx(a, wa) as u128,
        K::FAdd | K::FSub | K::FMul | K::FDiv | K::FRem | K::FSqrt | K::FFloor | K::FCeil
        | K::FTrunc | K::FRound => {
            if w == 64 {
                fl(f64b(a), f64b(b))
            } else {
                fs(f32b(a), f32b(b))
            }
        }
        K::FOeq | K::FOlt | K::FOle | K::FUno => {
            let (x, y) = if wa == 64 {
                (f64b(a), f64b(b))
            } else {
                (f64::from(f32b(a)), f64::from(f32b(b)))
            };
            (match k {
                K::FOeq => x == y,
                K::FOlt => x < y,
                K::FOle => x <= y,
                _ => x.is_nan() || y.is_nan(),
            }) as u128
        }
        K::SiToF => {
            let x = sx(a, wa);
            if w == 64 {
                u128::from((x as f64).to_bits())
            } else {
                u128::from((x as f32).to_bits())
            }
        }
        K::UiToF => {
            if w == 64 {
                u128::from((a as f64).to_bits())
            } else {
                u128::from((a as f32).to_bits())
            }
        }
        K::FToSi => {
            let x = if wa == 64 { f64b(a) } else { f64::from(f32b(a)) };
            // out of range is handled by the caller (sat) ; plain conversion is poison there
            (x as i128) as u128
        }
        K::FToUi => {
            let x = if wa == 64 { f64b(a) } else { f64::from(f32b(a)) };
            x as u128
        }
        K::FExt => u128::from(f64::from(f32b(a)).to_bits()),
        K::FNarrow => u128::from((f64b(a) as f32).to_bits()),
    };
    r & m
}

impl Ex {
    pub fn new() -> Self {
        let mut x = Self::default();
        x.raw(Node { k: K::Const, w: 1, a: 0, b: 0, c: 0, imm: 0 }); // id 0 unused
        x
    }
    pub fn w(&self, e: E) -> u32 {
        u32::from(self.n[e as usize].w)
    }
    pub fn node(&self, e: E) -> Node {
        self.n[e as usize]
    }
    fn raw(&mut self, nd: Node) -> E {
        if self.n.len() > 0 {
            if let Some(e) = self.map.get(&nd) {
                return *e;
            }
        }
        let id = self.n.len() as E;
        let m = match nd.k {
            K::Const => 0,
            K::Var => 1u128 << nd.imm,
            _ => {
                let mut m = self.m[nd.a as usize];
                if nd.b != 0 {
                    m |= self.m[nd.b as usize];
                }
                if nd.c != 0 {
                    m |= self.m[nd.c as usize];
                }
                m
            }
        };
        self.n.push(nd);
        self.m.push(m);
        self.memo.push(0);
        self.memo_ep.push(0);
        if id > 0 {
            self.map.insert(nd, id);
        }
        id
    }
    pub fn cst(&mut self, v: u128, w: u32) -> E {
        self.raw(Node { k: K::Const, w: w as u16, a: 0, b: 0, c: 0, imm: v & mask(w) })
    }
    pub fn var(&mut self, i: usize) -> E {
        self.raw(Node { k: K::Var, w: 8, a: 0, b: 0, c: 0, imm: i as u128 })
    }
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.k == K::Const {
            Some(n.imm)
        } else {
            None
        }
    }
    pub fn single_var(&self, e: E) -> Option<usize> {
        let m = self.m[e as usize];
        if m != 0 && m & (m - 1) == 0 {
            Some(m.trailing_zeros() as usize)
        } else {
            None
        }
    }
    /// values of a single-variable expression for every value of its variable
    pub fn table(&mut self, e: E) -> Rc<[u64; 256]> {
        if let Some(t) = self.tables.get(&e) {
            return t.clone();
        }
        let nd = self.node(e);
        let mut t = [0u64; 256];
        match nd.k {
            K::Const => t = [nd.imm as u64; 256],
            K::Var => {
                for (i, x) in t.iter_mut().enumerate() {
                    *x = i as u64;
                }
            }
            _ => {
                let wide = nd.w > 64
                    || self.w(nd.a) > 64
                    || (nd.b != 0 && self.w(nd.b) > 64)
                    || (nd.c != 0 && self.w(nd.c) > 64);
                if wide {
                    let v = self.m[e as usize].trailing_zeros() as usize;
                    let mut model = [0u8; MAXVARS];
                    for i in 0..256 {
                        model[v] = i as u8;
                        t[i] = self.eval(e, &model) as u64;
                    }
                } else {
                    let a = self.table(nd.a);
                    let b = if nd.b != 0 { self.table(nd.b) } else { a.clone() };
                    let c = if nd.c != 0 { self.table(nd.c) } else { a.clone() };
                    let wa = self.w(nd.a);
                    for i in 0..256 {
                        t[i] = fold(
                            nd.k,
                            u32::from(nd.w),
                            wa,
                            nd.imm,
                            u128::from(a[i]),
                            u128::from(b[i]),
                            u128::from(c[i]),
                        ) as u64;
                    }
                }
            }
        }
        let r = Rc::new(t);
        self.tables.insert(e, r.clone());
        r
    }
    /// set of variable values making a single-variable boolean true
    pub fn truth(&mut self, e: E) -> Set {
        let t = self.table(e);
        let mut s = [0; 4];
        for i in 0..256 {
            if t[i] != 0 {
                set_add(&mut s, i as u8);
            }
        }
        s
    }
    pub fn inset(&mut self, v: usize, s: &Set) -> E {
        if set_empty(s) {
            return self.cst(0, 1);
        }
        if *s == FULL {
            return self.cst(1, 1);
        }
        if let Some(e) = self.insets.get(&(v as u8, *s)) {
            return *e;
        }
        let ranges = |s: &Set| {
            let mut r = Vec::new();
            let mut i = 0usize;
            while i < 256 {
                if set_has(s, i as u8) {
                    let lo = i;
                    while i < 256 && set_has(s, i as u8) {
                        i += 1;
                    }
                    r.push((lo, i - 1));
                } else {
                    i += 1;
                }
            }
            r
        };
        let neg = set_not(s);
        let (r1, r2) = (ranges(s), ranges(&neg));
        // prefer a positive form unless the complement is strictly simpler
        let single = |r: &Vec<(usize, usize)>| r.iter().filter(|(a, b)| a == b).count();
        let e = if r2.len() < r1.len() || (r2.len() == r1.len() && single(&r2) > single(&r1)) {
            let x = self.ranges_expr(v, &r2);
            let one = self.cst(1, 1);
            self.raw(Node { k: K::Xor, w: 1, a: x, b: one, c: 0, imm: 0 })
        } else {
            self.ranges_expr(v, &r1)
        };
        self.insets.insert((v as u8, *s), e);
        e
    }
    fn ranges_expr(&mut self, v: usize, r: &[(usize, usize)]) -> E {
        let x = self.var(v);
        let mut out = 0;
        for (lo, hi) in r {
            let l = self.cst(*lo as u128, 8);
            let h = self.cst(*hi as u128, 8);
            let t = if lo == hi {
                self.raw(Node { k: K::Eq, w: 1, a: x, b: l, c: 0, imm: 0 })
            } else {
                let lo_t = self.raw(Node { k: K::Ule, w: 1, a: l, b: x, c: 0, imm: 0 });
                let hi_t = self.raw(Node { k: K::Ule, w: 1, a: x, b: h, c: 0, imm: 0 });
                if *lo == 0 {
                    hi_t
                } else if *hi == 255 {
                    lo_t
                } else {
                    self.raw(Node { k: K::And, w: 1, a: lo_t, b: hi_t, c: 0, imm: 0 })
                }
            };
            out = if out == 0 {
                t
            } else {
                self.raw(Node { k: K::Or, w: 1, a: out, b: t, c: 0, imm: 0 })
            };
        }
        out
    }
    /// finish: canonicalise single-variable results
    fn fin(&mut self, nd: Node) -> E {
        let e = self.raw(nd);
        if let Some(v) = self.single_var(e) {
            if nd.w == 1 {
                let s = self.truth(e);
                return self.inset(v, &s);
            }
            if nd.w <= 64 && !matches!(nd.k, K::Var | K::ZExt | K::Concat | K::Extract) {
                let t = self.table(e);
                let f = t[0];
                if t.iter().all(|x| *x == f) {
                    return self.cst(u128::from(f), u32::from(nd.w));
                }
            }
        }
        e
    }
    pub fn not(&mut self, a: E) -> E {
        let one = self.cst(1, 1);
        self.bin(K::Xor, a, one)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(K::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(K::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(K::Eq, a, b)
    }
    pub fn eqc(&mut self, a: E, v: u128) -> E {
        let c = self.cst(v, self.w(a));
        self.bin(K::Eq, a, c)
    }
    /// two-operand operators, except Concat
    pub fn bin(&mut self, k: K, mut a: E, mut b: E) -> E {
        let wa = self.w(a);
        let cmp = matches!(
            k,
            K::Eq | K::Ult | K::Ule | K::Slt | K::Sle | K::FOeq | K::FOlt | K::FOle | K::FUno
        );
        let w = if cmp { 1 } else { wa };
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = fold(k, w, wa, 0, x, y, 0);
            return self.cst(v, w);
        }
        // constants to the right for commutative ops
        if matches!(k, K::Add | K::Mul | K::And | K::Or | K::Xor | K::Eq) {
            if ca.is_some() || (cb.is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        let na = self.node(a);
        let nb = self.node(b);
        let m = mask(wa);
        match k {
            K::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(c) = cb {
                    if na.k == K::Add {
                        if let Some(c2) = self.is_const(na.b) {
                            let s = self.cst(c.wrapping_add(c2), wa);
                            return self.bin(K::Add, na.a, s);
                        }
                    }
                }
                if let Some(r) = self.disjoint(a, b) {
                    return r;
                }
            }
            K::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(c) = cb {
                    let s = self.cst(0u128.wrapping_sub(c), wa);
                    return self.bin(K::Add, a, s);
                }
            }
            K::Mul => {
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == 1 {
                        return a;
                    }
                    if c.is_power_of_two() {
                        let s = self.cst(u128::from(c.trailing_zeros()), wa);
                        return self.bin(K::Shl, a, s);
                    }
                }
            }
            K::UDiv => {
                if let Some(c) = cb {
                    if c == 1 {
                        return a;
                    }
                    if c.is_power_of_two() {
                        let s = self.cst(u128::from(c.trailing_zeros()), wa);
                        return self.bin(K::LShr, a, s);
                    }
                }
            }
            K::URem => {
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let s = self.cst(c - 1, wa);
                        return self.bin(K::And, a, s);
                    }
                }
            }
            K::And => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == m {
                        return a;
                    }
                    if (c & (c + 1)) == 0 {
                        let k = 128 - c.leading_zeros();
                        let x = self.extract(a, 0, k);
                        return self.zext(x, wa);
                    }
                    if na.k == K::And {
                        if let Some(c2) = self.is_const(na.b) {
                            let s = self.cst(c & c2, wa);
                            return self.bin(K::And, na.a, s);
                        }
                    }
                    // split over concatenations / zero extension
                    if na.k == K::Concat {
                        let lw = na.imm as u32;
                        let ch = self.cst(c >> lw, wa - lw);
                        let cl = self.cst(c, lw);
                        let h = self.bin(K::And, na.a, ch);
                        let l = self.bin(K::And, na.b, cl);
                        return self.concat(h, l);
                    }
                    if na.k == K::ZExt {
                        let iw = self.w(na.a);
                        let cl = self.cst(c, iw);
                        let l = self.bin(K::And, na.a, cl);
                        return self.zext(l, wa);
                    }
                }
                if w == 1 && (self.negated(a, b)) {
                    return self.cst(0, 1);
                }
            }
            K::Or => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c == m {
                        return b;
                    }
                }
                if w == 1 && (self.negated(a, b)) {
                    return self.cst(1, 1);
                }
                if let Some(r) = self.disjoint(a, b) {
                    return r;
                }
                if na.k == K::Concat && nb.k == K::Concat && na.imm == nb.imm {
                    let h = self.bin(K::Or, na.a, nb.a);
                    let l = self.bin(K::Or, na.b, nb.b);
                    return self.concat(h, l);
                }
            }
            K::Xor => {
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if na.k == K::Xor {
                        if let Some(c2) = self.is_const(na.b) {
                            let s = self.cst(c ^ c2, wa);
                            return self.bin(K::Xor, na.a, s);
                        }
                    }
                    if w == 1 {
                        // not of a comparison
                        match na.k {
                            K::Ult => return self.bin(K::Ule, na.b, na.a),
                            K::Ule => return self.bin(K::Ult, na.b, na.a),
                            K::Slt => return self.bin(K::Sle, na.b, na.a),
                            K::Sle => return self.bin(K::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
                if let Some(r) = self.disjoint(a, b) {
                    return r;
                }
            }
            K::Shl => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= u128::from(wa) {
                        return self.cst(0, wa);
                    }
                    let c = c as u32;
                    let hi = self.extract(a, 0, wa - c);
                    let z = self.cst(0, c);
                    return self.concat(hi, z);
                }
            }
            K::LShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= u128::from(wa) {
                        return self.cst(0, wa);
                    }
                    let c = c as u32;
                    let hi = self.extract(a, c, wa - c);
                    return self.zext(hi, wa);
                }
            }
            K::AShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    let c = (c as u32).min(wa - 1);
                    let hi = self.extract(a, c, wa - c);
                    return self.sext(hi, wa);
                }
            }
            K::Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                if let Some(c) = cb {
                    if wa == 1 {
                        return if c == 1 { a } else { self.not(a) };
                    }
                    match na.k {
                        K::ZExt => {
                            let iw = self.w(na.a);
                            if c > mask(iw) {
                                return self.cst(0, 1);
                            }
                            return self.eqc(na.a, c);
                        }
                        K::SExt => {
                            let iw = self.w(na.a);
                            let t = c & mask(iw);
                            if (sx(t, iw) as u128) & m != c {
                                return self.cst(0, 1);
                            }
                            return self.eqc(na.a, t);
                        }
                        K::Concat => {
                            let lw = na.imm as u32;
                            let h = self.eqc(na.a, c >> lw);
                            if self.is_const(h) == Some(0) {
                                return h;
                            }
                            let l = self.eqc(na.b, c & mask(lw));
                            return self.and(h, l);
                        }
                        K::Add => {
                            if let Some(c2) = self.is_const(na.b) {
                                return self.eqc(na.a, c.wrapping_sub(c2) & m);
                            }
                        }
                        K::Xor => {
                            if let Some(c2) = self.is_const(na.b) {
                                return self.eqc(na.a, c ^ c2);
                            }
                            if c == 0 {
                                return self.bin(K::Eq, na.a, na.b);
                            }
                        }
                        K::Sub => {
                            if c == 0 {
                                return self.bin(K::Eq, na.a, na.b);
                            }
                            if let Some(c2) = self.is_const(na.a) {
                                return self.eqc(na.b, c2.wrapping_sub(c) & m);
                            }
                        }
                        K::Or => {
                            if c == 0 {
                                let x = self.eqc(na.a, 0);
                                let y = self.eqc(na.b, 0);
                                return self.and(x, y);
                            }
                        }
                        K::Ite => {
                            let (x, y) = (self.is_const(na.b), self.is_const(na.c));
                            if x.is_some() || y.is_some() {
                                let t = self.eqc(na.b, c);
                                let f = self.eqc(na.c, c);
                                return self.ite(na.a, t, f);
                            }
                        }
                        _ => {}
                    }
                } else {
                    if na.k == K::Concat && nb.k == K::Concat && na.imm == nb.imm {
                        let h = self.bin(K::Eq, na.a, nb.a);
                        let l = self.bin(K::Eq, na.b, nb.b);
                        return self.and(h, l);
                    }
                    if na.k == nb.k
                        && (na.k == K::ZExt || na.k == K::SExt)
                        && self.w(na.a) == self.w(nb.a)
                    {
                        return self.bin(K::Eq, na.a, nb.a);
                    }
                    if na.k == K::ZExt && nb.k == K::ZExt {
                        let (x, y) = (self.w(na.a), self.w(nb.a));
                        let mw = x.max(y);
                        let p = self.zext(na.a, mw);
                        let q = self.zext(nb.a, mw);
                        return self.bin(K::Eq, p, q);
                    }
                }
            }
            K::Ult | K::Ule => {
                if a == b {
                    return self.cst(u128::from(k == K::Ule), 1);
                }
                if let Some(c) = cb {
                    if k == K::Ult {
                        if c == 0 {
                            return self.cst(0, 1);
                        }
                        if c == 1 {
                            return self.eqc(a, 0);
                        }
                        // x < c  ==>  x <= c-1
                        let c1 = self.cst(c - 1, wa);
                        return self.bin(K::Ule, a, c1);
                    }
                    if c == m {
                        return self.cst(1, 1);
                    }
                    if c == 0 {
                        return self.eqc(a, 0);
                    }
                    if na.k == K::ZExt {
                        let iw = self.w(na.a);
                        if c >= mask(iw) {
                            return self.cst(1, 1);
                        }
                        let c1 = self.cst(c, iw);
                        return self.bin(K::Ule, na.a, c1);
                    }
                    if na.k == K::Ite && (self.is_const(na.b).is_some() || self.is_const(na.c).is_some()) {
                        let t = self.bin(k, na.b, b);
                        let f = self.bin(k, na.c, b);
                        return self.ite(na.a, t, f);
                    }
                    if na.k == K::Concat {
                        // high part decides when the low part of the constant is all ones
                        let lw = na.imm as u32;
                        if c & mask(lw) == mask(lw) {
                            let c1 = self.cst(c >> lw, wa - lw);
                            return self.bin(K::Ule, na.a, c1);
                        }
                    }
                }
                if let Some(c) = ca {
                    if k == K::Ult {
                        if c == m {
                            return self.cst(0, 1);
                        }
                        let c1 = self.cst(c + 1, wa);
                        return self.bin(K::Ule, c1, b);
                    }
                    if c == 0 {
                        return self.cst(1, 1);
                    }
                    if c == m {
                        return self.eqc(b, m);
                    }
                    if nb.k == K::ZExt {
                        let iw = self.w(nb.a);
                        if c > mask(iw) {
                            return self.cst(0, 1);
                        }
                        let c1 = self.cst(c, iw);
                        return self.bin(K::Ule, c1, nb.a);
                    }
                    if nb.k == K::Ite && (self.is_const(nb.b).is_some() || self.is_const(nb.c).is_some()) {
                        let t = self.bin(k, a, nb.b);
                        let f = self.bin(k, a, nb.c);
                        return self.ite(nb.a, t, f);
                    }
                    if nb.k == K::Concat {
                        let lw = nb.imm as u32;
                        if c & mask(lw) == 0 {
                            let c1 = self.cst(c >> lw, wa - lw);
                            return self.bin(K::Ule, c1, nb.a);
                        }
                    }
                }
                if na.k == K::ZExt && nb.k == K::ZExt {
                    let mw = self.w(na.a).max(self.w(nb.a));
                    if mw < wa {
                        let p = self.zext(na.a, mw);
                        let q = self.zext(nb.a, mw);
                        return self.bin(k, p, q);
                    }
                }
            }
            K::Slt | K::Sle => {
                if a == b {
                    return self.cst(u128::from(k == K::Sle), 1);
                }
                let nonneg = |s: &Self, e: E, n: &Node| match n.k {
                    K::ZExt => s.w(n.a) < wa,
                    K::Const => n.imm >> (wa - 1) == 0,
                    _ => {
                        let _ = e;
                        false
                    }
                };
                if nonneg(self, a, &na) && nonneg(self, b, &nb) {
                    return self.bin(if k == K::Slt { K::Ult } else { K::Ule }, a, b);
                }
                if na.k == K::SExt && nb.k == K::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(k, na.a, nb.a);
                }
                if na.k == K::SExt {
                    if let Some(c) = cb {
                        let iw = self.w(na.a);
                        let t = c & mask(iw);
                        if (sx(t, iw) as u128) & m == c {
                            let c1 = self.cst(t, iw);
                            return self.bin(k, na.a, c1);
                        }
                    }
                }
                if na.k == K::Ite && cb.is_some() && (self.is_const(na.b).is_some() || self.is_const(na.c).is_some()) {
                    let t = self.bin(k, na.b, b);
                    let f = self.bin(k, na.c, b);
                    return self.ite(na.a, t, f);
                }
                if nb.k == K::Ite && ca.is_some() && (self.is_const(nb.b).is_some() || self.is_const(nb.c).is_some()) {
                    let t = self.bin(k, a, nb.b);
                    let f = self.bin(k, a, nb.c);
                    return self.ite(nb.a, t, f);
                }
                // sign test of zero-extended on one side and constant negative on other
                if nonneg(self, a, &na) {
                    if let Some(c) = cb {
                        if c >> (wa - 1) == 1 {
                            return self.cst(0, 1);
                        }
                    }
                }
                if nonneg(self, b, &nb) {
                    if let Some(c) = ca {
                        if c >> (wa - 1) == 1 {
                            return self.cst(1, 1);
                        }
                    }
                }
            }
            _ => {}
        }
        self.fin(Node { k, w: w as u16, a, b, c: 0, imm: 0 })
    }
    fn negated(&self, a: E, b: E) -> bool {
        let (na, nb) = (self.node(a), self.node(b));
        let one = |e: E| self.is_const(e) == Some(1);
        (na.k == K::Xor && na.w == 1 && na.a == b && one(na.b))
            || (nb.k == K::Xor && nb.w == 1 && nb.a == a && one(nb.b))
    }
    /// a | b (or + or ^) where the set bits cannot overlap, as a concatenation
    fn disjoint(&mut self, a: E, b: E) -> Option<E> {
        for (x, y) in [(a, b), (b, a)] {
            let (nx, ny) = (self.node(x), self.node(y));
            if nx.k == K::Concat && self.is_const(nx.b) == Some(0) {
                let lw = nx.imm as u32;
                let w = u32::from(nx.w);
                match ny.k {
                    K::ZExt if self.w(ny.a) <= lw => {
                        let l = self.zext(ny.a, lw);
                        return Some(self.concat(nx.a, l));
                    }
                    K::Const if ny.imm <= mask(lw) => {
                        let l = self.cst(ny.imm, lw);
                        return Some(self.concat(nx.a, l));
                    }
                    K::Concat if self.is_const(ny.a) == Some(0) && (ny.imm as u32) <= lw => {
                        let l = self.extract(y, 0, lw);
                        let _ = w;
                        return Some(self.concat(nx.a, l));
                    }
                    _ => {}
                }
            }
            // ZExt(Concat(h, 0)) | ZExt(small)
            if nx.k == K::ZExt {
                let ni = self.node(nx.a);
                if ni.k == K::Concat && self.is_const(ni.b) == Some(0) {
                    let lw = ni.imm as u32;
                    let ok = match ny.k {
                        K::ZExt => self.w(ny.a) <= lw,
                        K::Const => ny.imm <= mask(lw),
                        _ => false,
                    };
                    if ok {
                        let l = self.extract(y, 0, lw);
                        let c = self.concat(ni.a, l);
                        return Some(self.zext(c, u32::from(nx.w)));
                    }
                }
            }
        }
        None
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        assert!(w <= 128);
        let (ch, cl) = (self.is_const(h), self.is_const(l));
        if let (Some(a), Some(b)) = (ch, cl) {
            return self.cst((a << wl) | b, w);
        }
        if ch == Some(0) {
            return self.zext(l, w);
        }
        let (nh, nl) = (self.node(h), self.node(l));
        if nh.k == K::Extract && nl.k == K::Extract && nh.a == nl.a && nh.imm == nl.imm + u128::from(wl) {
            return self.extract(nh.a, nl.imm as u32, w);
        }
        // put the bytes of a stored choice together again
        if nh.k == K::Ite && nl.k == K::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b);
            let y = self.concat(nh.c, nl.c);
            return self.ite(nh.a, x, y);
        }
        if nh.k == K::Ite && cl.is_some() && self.is_const(nh.b).is_some() && self.is_const(nh.c).is_some() {
            let x = self.concat(nh.b, l);
            let y = self.concat(nh.c, l);
            return self.ite(nh.a, x, y);
        }
        if nl.k == K::Ite && ch.is_some() && self.is_const(nl.b).is_some() && self.is_const(nl.c).is_some() {
            let x = self.concat(h, nl.b);
            let y = self.concat(h, nl.c);
            return self.ite(nl.a, x, y);
        }
        // Concat(h, Concat(m, l)) where h,m adjacent extracts
        if nl.k == K::Concat {
            let nm = self.node(nl.a);
            if nh.k == K::Extract && nm.k == K::Extract && nh.a == nm.a && nh.imm == nm.imm + u128::from(nm.w) {
                let hm = self.concat(h, nl.a);
                return self.concat(hm, nl.b);
            }
            if ch.is_some() {
                if let Some(_) = self.is_const(nl.a) {
                    let hm = self.concat(h, nl.a);
                    return self.concat(hm, nl.b);
                }
            }
        }
        if nh.k == K::Concat {
            if cl.is_some() && self.is_const(nh.b).is_some() {
                let lo = self.concat(nh.b, l);
                return self.concat(nh.a, lo);
            }
            let nm = self.node(nh.b);
            if nl.k == K::Extract && nm.k == K::Extract && nl.a == nm.a && nm.imm == nl.imm + u128::from(nl.w) {
                let lo = self.concat(nh.b, l);
                return self.concat(nh.a, lo);
            }
        }
        if nh.k == K::ZExt {
            let i = self.concat(nh.a, l);
            return self.zext(i, w);
        }
        self.fin(Node { k: K::Concat, w: w as u16, a: h, b: l, c: 0, imm: u128::from(wl) })
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        let na = self.node(a);
        match na.k {
            K::Const => return self.cst(na.imm >> lo, w),
            K::Extract => return self.extract(na.a, lo + na.imm as u32, w),
            K::Concat => {
                let lw = na.imm as u32;
                if lo >= lw {
                    return self.extract(na.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(na.b, lo, w);
                }
                let l = self.extract(na.b, lo, lw - lo);
                let h = self.extract(na.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            K::ZExt => {
                let iw = self.w(na.a);
                if lo >= iw {
                    return self.cst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(na.a, lo, w);
                }
                let x = self.extract(na.a, lo, iw - lo);
                return self.zext(x, w);
            }
            K::SExt => {
                let iw = self.w(na.a);
                if lo + w <= iw {
                    return self.extract(na.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(na.a, lo, iw - lo);
                    return self.sext(x, w);
                }
            }
            K::And | K::Or | K::Xor => {
                let x = self.extract(na.a, lo, w);
                let y = self.extract(na.b, lo, w);
                return self.bin(na.k, x, y);
            }
            K::Add | K::Sub | K::Mul if lo == 0 => {
                let x = self.extract(na.a, 0, w);
                let y = self.extract(na.b, 0, w);
                return self.bin(na.k, x, y);
            }
            K::Ite => {
                let x = self.extract(na.b, lo, w);
                let y = self.extract(na.c, lo, w);
                return self.ite(na.a, x, y);
            }
            _ => {}
        }
        self.fin(Node { k: K::Extract, w: w as u16, a, b: 0, c: 0, imm: u128::from(lo) })
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if w == wa {
            return a;
        }
        let na = self.node(a);
        match na.k {
            K::Const => return self.cst(na.imm, w),
            K::ZExt => return self.zext(na.a, w),
            _ => {}
        }
        self.fin(Node { k: K::ZExt, w: w as u16, a, b: 0, c: 0, imm: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if w == wa {
            return a;
        }
        let na = self.node(a);
        match na.k {
            K::Const => {
                let v = sx(na.imm, wa) as u128;
                return self.cst(v, w);
            }
            K::ZExt => return self.zext(na.a, w),
            K::SExt => return self.sext(na.a, w),
            _ => {}
        }
        self.fin(Node { k: K::SExt, w: w as u16, a, b: 0, c: 0, imm: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(v) = self.is_const(c) {
            return if v != 0 { a } else { b };
        }
        let w = self.w(a);
        let nc = self.node(c);
        if nc.k == K::Xor && self.is_const(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (self.node(a), self.node(b));
        if na.k == K::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.k == K::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if na.k == K::ZExt && nb.k == K::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.ite(c, na.a, nb.a);
            return self.zext(x, w);
        }
        if na.k == K::ZExt {
            if let Some(v) = self.is_const(b) {
                let iw = self.w(na.a);
                if v <= mask(iw) {
                    let cc = self.cst(v, iw);
                    let x = self.ite(c, na.a, cc);
                    return self.zext(x, w);
                }
            }
        }
        self.fin(Node { k: K::Ite, w: w as u16, a: c, b: a, c: b, imm: 0 })
    }
    /// one-operand float ops and conversions; w is the result width
    pub fn un(&mut self, k: K, a: E, w: u32) -> E {
        let wa = self.w(a);
        if let Some(v) = self.is_const(a) {
            let r = fold(k, w, wa, 0, v, 0, 0);
            return self.cst(r, w);
        }
        self.fin(Node { k, w: w as u16, a, b: 0, c: 0, imm: 0 })
    }
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.ep += 1;
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u8]) -> u128 {
        if self.memo_ep[e as usize] == self.ep {
            return self.memo[e as usize];
        }
        let nd = self.node(e);
        let r = match nd.k {
            K::Const => return nd.imm,
            K::Var => u128::from(*model.get(nd.imm as usize).unwrap_or(&0)),
            K::Ite => {
                if self.ev(nd.a, model) != 0 {
                    self.ev(nd.b, model)
                } else {
                    self.ev(nd.c, model)
                }
            }
            _ => {
                let a = self.ev(nd.a, model);
                let b = if nd.b != 0 { self.ev(nd.b, model) } else { 0 };
                let wa = self.w(nd.a);
                fold(nd.k, u32::from(nd.w), wa, nd.imm, a, b, 0)
            }
        };
        self.memo_ep[e as usize] = self.ep;
        self.memo[e as usize] = r;
        r
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.node(e);
        match n.k {
            K::Const => format!("{:#x}:{}", n.imm, n.w),
            K::Var => format!("v{}", n.imm),
            _ if depth == 0 => "..".to_string(),
            _ => {
                let mut s = format!("({:?}:{}", n.k, n.w);
                if matches!(n.k, K::Extract | K::Concat) {
                    s += &format!("@{}", n.imm);
                }
                for x in [n.a, n.b, n.c] {
                    if x != 0 {
                        s += " ";
                        s += &self.show(x, depth - 1);
                    }
                }
                s + ")"
            }
        }
    }
}

//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::state::*;
use crate::ty::{Ty, T};
use crate::z3::{Z, R};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Debug, Clone)]
pub enum End {
    Done,
    Assume,
    Exit(i32),
    /// a property violation on this path (kind, message)
    Bad(String, String),
    /// the engine cannot decide this path
    Unsup(String),
}

pub type Res<X> = Result<X, End>;
pub type Handler = fn(&mut Eng, &mut State, &[Val], &'static str) -> Res<Val>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, Vec<u8>)>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub done: u64,
    pub assumed_away: u64,
    pub exits: u64,
    pub forks: u64,
    pub steps: u64,
    pub domain_decided: u64,
    pub cache_hits: u64,
    pub asserts: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub solver_s: f64,
    pub max_query_s: f64,
    pub covers: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub viol_counts: BTreeMap<String, u64>,
    pub inconclusive: BTreeMap<String, u64>,
    pub funcs: std::collections::BTreeSet<String>,
    pub samples: Vec<Vec<(String, Vec<u8>)>>,
}

pub struct Opts {
    pub max_steps: u64,
    pub time: f64,
    pub fp_concretize: bool,
    pub max_viol: u64,
    pub trace: bool,
    pub vtrace: bool,
}

pub struct Eng {
    pub m: Module,
    pub ex: Ex,
    pub z: Z,
    pub gmap: Vec<u32>,
    pub queue: Vec<State>,
    pub st: Stats,
    pub o: Opts,
    pub handlers: Vec<Option<Option<Handler>>>,
    pub cache: HashMap<Vec<E>, Option<Vec<u8>>>,
    pub t0: Instant,
    pub panic_fn: Vec<u8>,
    /// instruction at which forked states restart
    pub seen_sample: HashSet<u64>,
    pub prof: Vec<u64>,
    pub fork_at: HashMap<(u32, u32), u64>,
}

pub fn cmask(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}

impl Eng {
    pub fn new(m: Module, o: Opts) -> (Self, State) {
        let mut mem = Mem::default();
        let null = mem.add(Obj { size: 0, data: vec![], sym: vec![] });
        mem.free(null);
        let mut gmap = vec![];
        let mut m = m;
        for (a, sz, bytes, _) in std::mem::take(&mut m.gobjs) {
            let i = mem.add(Obj { size: sz, data: bytes, sym: vec![] });
            let g0 = (a >> 6) as usize;
            let g1 = ((a + sz) >> 6) as usize;
            while gmap.len() <= g1 {
                gmap.push(0u32);
            }
            for g in g0..=g1 {
                gmap[g] = i;
            }
            let _ = a;
        }
        // base addresses are recomputed from the granule map
        let nf = m.fns.len();
        let mut panic_fn = vec![0u8; nf];
        for (i, f) in m.fns.iter().enumerate() {
            let n = f.name;
            if n.contains("4core9panicking")
                || n.contains("rust_begin_unwind")
                || n.contains("3std9panicking20rust_panic_with_hook")
                || n.contains("alloc_error_handler")
                || n.contains("18handle_alloc_error")
            {
                panic_fn[i] = 1;
            }
        }
        let mut fs = Fs::default();
        for n in ["<stdin>", "<stdout>", "<stderr>"] {
            fs.files.insert(n.to_string(), Rc::new(vec![]));
            fs.fds.push(Some(Fd { path: n.to_string(), pos: 0, append: false }));
        }
        let st = State {
            frames: vec![],
            mem,
            cons: Rc::new(vec![]),
            multi: 0,
            dom: Rc::new(vec![]),
            model: vec![],
            known: Rc::new(vec![]),
            inputs: Rc::new(vec![]),
            fs: Rc::new(fs),
            steps: 0,
            forks: 0,
            errno: 0,
            kv: Rc::new(BTreeMap::new()),
            pending: None,
        };
        let z = Z::new(400_000_000);
        (
            Self {
                m,
                ex: Ex::new(),
                z,
                gmap,
                queue: vec![],
                st: Stats::default(),
                o,
                handlers: vec![None; nf],
                cache: HashMap::new(),
                t0: Instant::now(),
                panic_fn,
                seen_sample: HashSet::new(),
                prof: vec![0; nf],
                fork_at: HashMap::new(),
            },
            st,
        )
    }

    // ---------------------------------------------------------------- solver

    pub fn add_con(&mut self, st: &mut State, e: E) {
        if self.ex.is_const(e).is_some() {
            return;
        }
        let n = self.ex.node(e);
        if n.k == K::And && n.w == 1 && self.ex.single_var(e).is_none() {
            self.add_con(st, n.a);
            self.add_con(st, n.b);
            return;
        }
        if let Some(v) = self.ex.single_var(e) {
            let s = self.ex.truth(e);
            let d = Rc::make_mut(&mut st.dom);
            d[v] = set_and(&d[v], &s);
            return;
        }
        if st.cons.contains(&e) {
            return;
        }
        st.multi |= self.ex.m[e as usize];
        Rc::make_mut(&mut st.cons).push(e);
    }

    fn has_fp(&self, e: E, seen: &mut HashSet<E>) -> bool {
        if !seen.insert(e) {
            return false;
        }
        let n = self.ex.node(e);
        if matches!(n.k, K::Const | K::Var) {
            return false;
        }
        if (n.k as u32) >= (K::FAdd as u32) {
            return true;
        }
        (n.a != 0 && self.has_fp(n.a, seen))
            || (n.b != 0 && self.has_fp(n.b, seen))
            || (n.c != 0 && self.has_fp(n.c, seen))
    }

    /// a model of (path and cond), or None when unsatisfiable
    pub fn feasible(&mut self, st: &State, cond: E) -> Res<Option<Vec<u8>>> {
        if let Some(c) = self.ex.is_const(cond) {
            return Ok(if c != 0 { Some(st.model.clone()) } else { None });
        }
        let cm = self.ex.m[cond as usize];
        if let Some(v) = self.ex.single_var(cond) {
            let s = set_and(&st.dom[v], &self.ex.truth(cond));
            if set_empty(&s) {
                self.st.domain_decided += 1;
                return Ok(None);
            }
            if st.multi >> v & 1 == 0 {
                self.st.domain_decided += 1;
                let mut m = st.model.clone();
                if !set_has(&s, m[v]) {
                    m[v] = set_first(&s).unwrap();
                }
                return Ok(Some(m));
            }
        }
        if self.ex.eval(cond, &st.model) != 0 {
            return Ok(Some(st.model.clone()));
        }
        // slice
        let mut mk = cm;
        let mut cs: Vec<E> = vec![cond];
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.cons.iter().enumerate() {
                if !used[i] && self.ex.m[*c as usize] & mk != 0 {
                    used[i] = true;
                    mk |= self.ex.m[*c as usize];
                    cs.push(*c);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut v = mk;
        while v != 0 {
            let i = v.trailing_zeros() as usize;
            v &= v - 1;
            if st.dom[i] != FULL {
                let e = self.ex.inset(i, &st.dom[i]);
                cs.push(e);
            }
        }
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) {
            self.st.cache_hits += 1;
            return Ok(r.as_ref().map(|m| {
                let mut o = st.model.clone();
                let mut v = mk;
                while v != 0 {
                    let i = v.trailing_zeros() as usize;
                    v &= v - 1;
                    o[i] = m[i];
                }
                o
            }));
        }
        let mut seen = HashSet::new();
        let fp = cs.iter().any(|e| self.has_fp(*e, &mut seen));
        match self.z.check(&self.ex, &cs, &st.model, mk, fp) {
            R::Sat(m) => {
                for c in &cs {
                    if self.ex.eval(*c, &m) == 0 {
                        return Err(End::Unsup(format!(
                            "model does not satisfy the query: {}",
                            self.ex.show(*c, 4)
                        )));
                    }
                }
                self.cache.insert(cs, Some(m.clone()));
                Ok(Some(m))
            }
            R::Unsat => {
                self.cache.insert(cs, None);
                Ok(None)
            }
            R::Unknown => Err(End::Unsup("solver returned unknown".into())),
        }
    }

    fn note_fork(&mut self, st: &State) {
        self.st.forks += 1;
        if self.o.trace {
            if let Some(f) = st.frames.last() {
                *self.fork_at.entry((f.func.id, f.pc)).or_insert(0) += 1;
            }
        }
    }

    /// decide a boolean; forks when both values are possible.  The other side restarts at the
    /// current instruction with the opposite constraint.
    pub fn decide(&mut self, st: &mut State, c: E) -> Res<bool> {
        if let Some(v) = self.ex.is_const(c) {
            return Ok(v != 0);
        }
        let here = self.ex.eval(c, &st.model) != 0;
        let nc = self.ex.not(c);
        let (mine, other) = if here { (c, nc) } else { (nc, c) };
        if let Some(m) = self.feasible(st, other)? {
            let mut o = st.clone();
            o.model = m;
            o.forks += 1;
            self.add_con(&mut o, other);
            self.note_fork(st);
            self.queue.push(o);
            st.forks += 1;
            self.add_con(st, mine);
        }
        Ok(here)
    }

    /// concrete value of an expression; forks over the alternatives
    pub fn concretize(&mut self, st: &mut State, e: E) -> Res<u128> {
        if let Some(v) = self.ex.is_const(e) {
            return Ok(v);
        }
        for (k, v) in st.known.iter() {
            if *k == e {
                return Ok(*v);
            }
        }
        let v = self.ex.eval(e, &st.model);
        let c = self.ex.eqc(e, v);
        let n = self.ex.not(c);
        if let Some(m) = self.feasible(st, n)? {
            let mut o = st.clone();
            o.model = m;
            o.forks += 1;
            self.add_con(&mut o, n);
            self.note_fork(st);
            self.queue.push(o);
            st.forks += 1;
            self.add_con(st, c);
        }
        Rc::make_mut(&mut st.known).push((e, v));
        Ok(v)
    }
    pub fn conc(&mut self, st: &mut State, v: &Val) -> Res<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::W(x) => Ok(**x as u64),
            Val::S(e) => Ok(self.concretize(st, *e)? as u64),
            Val::A(_) => Err(End::Unsup("aggregate where a scalar is expected".into())),
        }
    }

    /// concrete bits of a floating-point operand
    pub fn conc_fp(&mut self, st: &mut State, v: &Val, w: u32) -> Res<u128> {
        let e = self.e_of(v, w);
        self.concretize(st, e)
    }

    // ---------------------------------------------------------------- values

    pub fn e_of(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::I(x) => self.ex.cst(u128::from(*x), w),
            Val::W(x) => self.ex.cst(**x, w),
            Val::S(e) => {
                debug_assert_eq!(self.ex.w(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn v_of(&self, e: E) -> Val {
        let n = self.ex.node(e);
        if n.k == K::Const {
            mkint(n.imm, u32::from(n.w))
        } else {
            Val::S(e)
        }
    }
    fn wide(v: &Val) -> u128 {
        match v {
            Val::I(x) => u128::from(*x),
            Val::W(x) => **x,
            _ => unreachable!(),
        }
    }
    fn is_c(v: &Val) -> bool {
        matches!(v, Val::I(_) | Val::W(_))
    }

    pub fn bin(&mut self, st: &mut State, k: K, w: u32, a: &Val, b: &Val) -> Res<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match k {
                K::Add => x.wrapping_add(y),
                K::Sub => x.wrapping_sub(y),
                K::And => x & y,
                K::Or => x | y,
                K::Xor => x ^ y,
                K::Mul => x.wrapping_mul(y),
                K::Shl => {
                    if y < 64 {
                        x << y
                    } else {
                        0
                    }
                }
                K::LShr => {
                    if y < 64 {
                        x >> y
                    } else {
                        0
                    }
                }
                K::UDiv if y != 0 => x / y,
                K::URem if y != 0 => x % y,
                _ => {
                    return Ok(mkint(fold(k, w, w, 0, u128::from(x), u128::from(y), 0), w));
                }
            };
            return Ok(Val::I(cmask(r, w)));
        }
        if Self::is_c(a) && Self::is_c(b) {
            return Ok(mkint(fold(k, w, w, 0, Self::wide(a), Self::wide(b), 0), w));
        }
        let ea = self.e_of(a, w);
        let eb = self.e_of(b, w);
        if (k as u32) >= (K::FAdd as u32) {
            let m = self.ex.m[ea as usize] | self.ex.m[eb as usize];
            if (self.o.fp_concretize && m & (m - 1) != 0) || k == K::FRem {
                let x = self.concretize(st, ea)?;
                let y = self.concretize(st, eb)?;
                return Ok(mkint(fold(k, w, w, 0, x, y, 0), w));
            }
        }
        let r = self.ex.bin(k, ea, eb);
        Ok(self.v_of(r))
    }

    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = 64 - w.min(64);
            let (sx_, sy) = (((x << s) as i64), ((y << s) as i64));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx_ > sy,
                Pred::Sge => sx_ >= sy,
                Pred::Slt => sx_ < sy,
                Pred::Sle => sx_ <= sy,
            };
            return Val::I(u64::from(r));
        }
        let ea = self.e_of(a, w);
        let eb = self.e_of(b, w);
        let r = match p {
            Pred::Eq => self.ex.bin(K::Eq, ea, eb),
            Pred::Ne => {
                let x = self.ex.bin(K::Eq, ea, eb);
                self.ex.not(x)
            }
            Pred::Ugt => self.ex.bin(K::Ult, eb, ea),
            Pred::Uge => self.ex.bin(K::Ule, eb, ea),
            Pred::Ult => self.ex.bin(K::Ult, ea, eb),
            Pred::Ule => self.ex.bin(K::Ule, ea, eb),
            Pred::Sgt => self.ex.bin(K::Slt, eb, ea),
            Pred::Sge => self.ex.bin(K::Sle, eb, ea),
            Pred::Slt => self.ex.bin(K::Slt, ea, eb),
            Pred::Sle => self.ex.bin(K::Sle, ea, eb),
        };
        self.v_of(r)
    }

    fn fcmp(&mut self, st: &mut State, p: &str, w: u32, a: &Val, b: &Val) -> Res<Val> {
        let mut ea = self.e_of(a, w);
        let mut eb = self.e_of(b, w);
        if self.o.fp_concretize {
            let m = self.ex.m[ea as usize] | self.ex.m[eb as usize];
            if m != 0 && m & (m - 1) != 0 {
                let x = self.concretize(st, ea)?;
                let y = self.concretize(st, eb)?;
                ea = self.ex.cst(x, w);
                eb = self.ex.cst(y, w);
            }
        }
        let x = &mut self.ex;
        let r = match p {
            "oeq" => x.bin(K::FOeq, ea, eb),
            "olt" => x.bin(K::FOlt, ea, eb),
            "ole" => x.bin(K::FOle, ea, eb),
            "ogt" => x.bin(K::FOlt, eb, ea),
            "oge" => x.bin(K::FOle, eb, ea),
            "uno" => x.bin(K::FUno, ea, eb),
            "ord" => {
                let u = x.bin(K::FUno, ea, eb);
                x.not(u)
            }
            "one" => {
                let l = x.bin(K::FOlt, ea, eb);
                let g = x.bin(K::FOlt, eb, ea);
                x.or(l, g)
            }
            "une" => {
                let e = x.bin(K::FOeq, ea, eb);
                x.not(e)
            }
            "ueq" => {
                let e = x.bin(K::FOeq, ea, eb);
                let u = x.bin(K::FUno, ea, eb);
                x.or(e, u)
            }
            "ult" => {
                let e = x.bin(K::FOle, eb, ea);
                x.not(e)
            }
            "ule" => {
                let e = x.bin(K::FOlt, eb, ea);
                x.not(e)
            }
            "ugt" => {
                let e = x.bin(K::FOle, ea, eb);
                x.not(e)
            }
            "uge" => {
                let e = x.bin(K::FOlt, ea, eb);
                x.not(e)
            }
            "true" => x.cst(1, 1),
            "false" => x.cst(0, 1),
            _ => return Err(End::Unsup(format!("fcmp {p}"))),
        };
        Ok(self.v_of(r))
    }

    fn select(&mut self, c: &Val, a: Val, b: Val, w: u32, ty: T) -> Res<Val> {
        match c {
            Val::I(x) => Ok(if *x != 0 { a } else { b }),
            Val::S(e) => match (&a, &b) {
                (Val::A(x), Val::A(y)) => {
                    let mut v = vec![];
                    for i in 0..x.len() {
                        let et = self.m.ty.elem(ty, i);
                        let w = self.m.ty.bits(et);
                        v.push(self.select(c, x[i].clone(), y[i].clone(), w, et)?);
                    }
                    Ok(Val::A(Rc::new(v)))
                }
                _ => {
                    let ea = self.e_of(&a, w);
                    let eb = self.e_of(&b, w);
                    let r = self.ex.ite(*e, ea, eb);
                    Ok(self.v_of(r))
                }
            },
            _ => Err(End::Unsup("select condition".into())),
        }
    }

    fn cast(&mut self, st: &mut State, c: Cast, fw: u32, tw: u32, a: &Val) -> Res<Val> {
        match (c, a) {
            (Cast::Trunc, Val::I(x)) => return Ok(Val::I(cmask(*x, tw))),
            (Cast::ZExt, Val::I(x)) if tw <= 64 => return Ok(Val::I(*x)),
            (Cast::SExt, Val::I(x)) if tw <= 64 => {
                let s = 64 - fw;
                return Ok(Val::I(cmask((((*x << s) as i64) >> s) as u64, tw)));
            }
            (Cast::Bit, _) => return Ok(a.clone()),
            _ => {}
        }
        let mut e = self.e_of(a, fw);
        let r = match c {
            Cast::Trunc => self.ex.extract(e, 0, tw),
            Cast::ZExt => self.ex.zext(e, tw),
            Cast::SExt => self.ex.sext(e, tw),
            Cast::Bit => e,
            _ => {
                let m = self.ex.m[e as usize];
                if self.o.fp_concretize && m != 0 && m & (m - 1) != 0 {
                    let v = self.concretize(st, e)?;
                    e = self.ex.cst(v, fw);
                }
                let k = match c {
                    Cast::FToSi => K::FToSi,
                    Cast::FToUi => K::FToUi,
                    Cast::SiToF => K::SiToF,
                    Cast::UiToF => K::UiToF,
                    Cast::FExt => K::FExt,
                    _ => K::FNarrow,
                };
                let bit = if self.ex.w(e) == 1 {
                    Some(e)
                } else {
                    let n = self.ex.node(e);
                    if n.k == K::ZExt && self.ex.w(n.a) == 1 { Some(n.a) } else { None }
                };
                match bit {
                    Some(c) if tw == 64 && k == K::UiToF => {
                        let one = self.ex.cst(u128::from(1.0f64.to_bits()), 64);
                        let zero = self.ex.cst(0, 64);
                        self.ex.ite(c, one, zero)
                    }
                    _ => self.ex.un(k, e, tw),
                }
            }
        };
        Ok(self.v_of(r))
    }

    /// flatten a value into little-endian byte terms
    fn bits_of(&mut self, v: &Val, ty: T, out: &mut Vec<E>) {
        // produces a list of 1-bit-or-wider chunks, least significant first
        match v {
            Val::A(xs) => {
                for (i, x) in xs.iter().enumerate() {
                    let et = self.m.ty.elem(ty, i);
                    self.bits_of(x, et, out);
                }
            }
            _ => {
                let w = self.m.ty.bits(ty);
                let e = self.e_of(v, w);
                out.push(e);
            }
        }
    }
    fn bitcast(&mut self, a: &Val, from: T, to: T) -> Res<Val> {
        let mut ch = vec![];
        self.bits_of(a, from, &mut ch);
        // target lanes
        let (tw, n) = match self.m.ty.get(to) {
            Ty::Vec(n, e) => (self.m.ty.bits(*e), *n as usize),
            _ => (self.m.ty.bits(to), 1),
        };
        let mut lanes = vec![];
        let mut pos = 0usize; // chunk index
        let mut off = 0u32; // bit offset in chunk
        for _ in 0..n {
            let mut acc: Option<E> = None;
            let mut got = 0;
            while got < tw {
                let e = ch[pos];
                let w = self.ex.w(e);
                let take = (w - off).min(tw - got);
                let part = self.ex.extract(e, off, take);
                acc = Some(match acc {
                    None => part,
                    Some(l) => self.ex.concat(part, l),
                });
                got += take;
                off += take;
                if off == w {
                    pos += 1;
                    off = 0;
                }
            }
            lanes.push(self.v_of(acc.unwrap()));
        }
        if matches!(self.m.ty.get(to), Ty::Vec(..)) {
            Ok(Val::A(Rc::new(lanes)))
        } else {
            Ok(lanes.pop().unwrap())
        }
    }

    // ---------------------------------------------------------------- memory

    /// object and offset for a concrete address
    pub fn resolve(&self, st: &State, addr: u64, n: u64) -> Res<(u32, u64)> {
        let (idx, off) = self.locate(addr);
        if let Some(o) = st.mem.get(idx) {
            if off + n <= o.size {
                return Ok((idx, off));
            }
            return Err(End::Bad("memory".into(), format!("access of {n} bytes at offset {off} of an object of {} bytes", o.size)));
        }
        if n == 0 {
            return Ok((0, 0));
        }
        Err(End::Bad("memory".into(), format!("access of {n} bytes at invalid address {addr:#x}")))
    }
    pub fn locate(&self, addr: u64) -> (u32, u64) {
        if addr >> 32 == 0 {
            let g = (addr >> 6) as usize;
            if g < self.gmap.len() {
                let i = self.gmap[g];
                if i != 0 {
                    // start of the object: first granule with this id
                    let mut s = g;
                    while s > 0 && self.gmap[s - 1] == i {
                        s -= 1;
                    }
                    return (i, addr - ((s as u64) << 6));
                }
            }
            return (0, addr);
        }
        ((addr >> 32) as u32, addr & 0xffff_ffff)
    }
    pub fn load_bytes(&self, st: &State, idx: u32, off: u64, n: u64) -> Vec<SB> {
        let mut v = Vec::with_capacity(n as usize);
        if n == 0 {
            return v;
        }
        let o = st.mem.get(idx).unwrap();
        for i in off as usize..(off + n) as usize {
            v.push(SB { b: *o.data.get(i).unwrap_or(&0), e: *o.sym.get(i).unwrap_or(&0) });
        }
        v
    }
    pub fn store_bytes(&self, st: &mut State, idx: u32, off: u64, bs: &[SB]) {
        if bs.is_empty() {
            return;
        }
        let o = st.mem.get_mut(idx).unwrap();
        let end = off as usize + bs.len();
        if o.data.len() < end {
            let cap = (end * 2).min(o.size as usize).max(end);
            o.data.resize(cap, 0);
        }
        for (i, b) in bs.iter().enumerate() {
            let p = off as usize + i;
            o.data[p] = b.b;
            if b.e != 0 {
                if o.sym.len() <= p {
                    let l = o.data.len();
                    o.sym.resize(l, 0);
                }
                o.sym[p] = b.e;
            } else if p < o.sym.len() {
                o.sym[p] = 0;
            }
        }
    }
    fn load_at(&mut self, st: &State, addr: u64, w: u32) -> Res<Val> {
        let n = u64::from((w + 7) / 8);
        let (idx, off) = self.resolve(st, addr, n)?;
        let o = st.mem.get(idx).unwrap();
        let (p, q) = (off as usize, (off + n) as usize);
        let symbolic = !o.sym.is_empty() && p < o.sym.len() && o.sym[p..q.min(o.sym.len())].iter().any(|x| *x != 0);
        if !symbolic {
            if n <= 8 {
                let mut b = [0u8; 8];
                if q <= o.data.len() {
                    b[..n as usize].copy_from_slice(&o.data[p..q]);
                } else if p < o.data.len() {
                    let l = o.data.len() - p;
                    b[..l].copy_from_slice(&o.data[p..]);
                }
                return Ok(Val::I(cmask(u64::from_le_bytes(b), w)));
            }
            let mut b = [0u8; 16];
            for i in p..q {
                b[i - p] = *o.data.get(i).unwrap_or(&0);
            }
            return Ok(mkint(u128::from_le_bytes(b), w));
        }
        let bs = self.load_bytes(st, idx, off, n);
        let e = self.join(&bs);
        let e = if u64::from(w) < n * 8 { self.ex.extract(e, 0, w) } else { e };
        Ok(self.v_of(e))
    }
    /// little-endian concatenation of byte values
    pub fn join(&mut self, bs: &[SB]) -> E {
        let mut acc: Option<E> = None;
        for b in bs {
            let e = if b.e != 0 { b.e } else { self.ex.cst(u128::from(b.b), 8) };
            acc = Some(match acc {
                None => e,
                Some(l) => self.ex.concat(e, l),
            });
        }
        acc.unwrap()
    }
    fn known(&self, st: &State, e: E) -> Option<u128> {
        st.known.iter().find(|x| x.0 == e).map(|x| x.1)
    }
    pub fn load(&mut self, st: &mut State, p: &Val, w: u32) -> Res<Val> {
        match p {
            Val::I(a) => self.load_at(st, *a, w),
            Val::S(e) => {
                if let Some(v) = self.known(st, *e) {
                    return self.load_at(st, v as u64, w);
                }
                self.sym_load(st, *e, w)
            }
            _ => Err(End::Unsup("pointer".into())),
        }
    }
    fn sym_load(&mut self, st: &mut State, e: E, w: u32) -> Res<Val> {
        let n = u64::from((w + 7) / 8);
        if let Some(v) = self.ex.single_var(e) {
            let t = self.ex.table(e);
            let mut addrs: BTreeMap<u64, Set> = BTreeMap::new();
            for i in 0..256usize {
                if set_has(&st.dom[v], i as u8) {
                    set_add(addrs.entry(t[i]).or_insert([0; 4]), i as u8);
                }
            }
            let mut vals: Vec<(E, Set)> = vec![];
            for (a, s) in addrs {
                match self.load_at(st, a, w) {
                    Ok(x) => {
                        let x = self.e_of(&x, w);
                        if let Some(y) = vals.iter_mut().find(|y| y.0 == x) {
                            for i in 0..4 {
                                y.1[i] |= s[i];
                            }
                        } else {
                            vals.push((x, s));
                        }
                    }
                    Err(b) => {
                        let c = self.ex.inset(v, &s);
                        if let Some(m) = self.feasible(st, c)? {
                            st.model = m;
                            self.add_con(st, c);
                            return Err(b);
                        }
                    }
                }
            }
            vals.sort_by_key(|x| set_len(&x.1));
            let Some((mut acc, _)) = vals.pop() else { return Err(End::Unsup("no address".into())) };
            for (x, s) in vals.iter().rev() {
                let c = self.ex.inset(v, s);
                acc = self.ex.ite(c, *x, acc);
            }
            return Ok(self.v_of(acc));
        }
        let a0 = self.ex.eval(e, &st.model) as u64;
        let (idx, off) = self.resolve(st, a0, n)?;
        let size = st.mem.get(idx).unwrap().size;
        let base = a0 - off;
        if size <= 4096 {
            let lo = self.ex.cst(u128::from(base), 64);
            let hi = self.ex.cst(u128::from(base + size - n), 64);
            let x = self.ex.bin(K::Ult, e, lo);
            let y = self.ex.bin(K::Ult, hi, e);
            let out = self.ex.or(x, y);
            if self.feasible(st, out)?.is_none() {
                // alignment
                let mut step = 1;
                if n > 1 {
                    let c = self.ex.cst(u128::from(a0), 64);
                    let dlt = self.ex.bin(K::Sub, e, c);
                    let nn = self.ex.cst(u128::from(n), 64);
                    let r = self.ex.bin(K::URem, dlt, nn);
                    let z = self.ex.eqc(r, 0);
                    let z = self.ex.not(z);
                    if n.is_power_of_two() && self.feasible(st, z)?.is_none() {
                        step = n;
                    }
                }
                let first = off % step;
                let cnt = (size - n - first) / step + 1;
                if cnt <= 512 {
                    let mut vals: Vec<(E, Vec<u64>)> = vec![];
                    for i in 0..cnt {
                        let a = base + first + i * step;
                        let x = self.load_at(st, a, w)?;
                        let x = self.e_of(&x, w);
                        if let Some(y) = vals.iter_mut().find(|y| y.0 == x) {
                            y.1.push(a);
                        } else {
                            vals.push((x, vec![a]));
                        }
                    }
                    vals.sort_by_key(|x| x.1.len());
                    let (mut acc, _) = vals.pop().unwrap();
                    for (x, aa) in vals.iter().rev() {
                        let mut c = self.ex.cst(0, 1);
                        for a in aa {
                            let q = self.ex.eqc(e, u128::from(*a));
                            c = self.ex.or(c, q);
                        }
                        acc = self.ex.ite(c, *x, acc);
                    }
                    return Ok(self.v_of(acc));
                }
            }
        }
        let a = self.concretize(st, e)? as u64;
        self.load_at(st, a, w)
    }
    fn load_ty(&mut self, st: &mut State, p: &Val, ty: T) -> Res<Val> {
        match self.m.ty.count(ty) {
            None => {
                let w = self.m.ty.bits(ty);
                self.load(st, p, w)
            }
            Some(n) => {
                let a = self.conc(st, p)?;
                let mut v = vec![];
                for i in 0..n {
                    let et = self.m.ty.elem(ty, i);
                    let off = self.m.ty.field_off(ty, i);
                    v.push(self.load_ty(st, &Val::I(a + off), et)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
        }
    }
    pub fn store(&mut self, st: &mut State, p: &Val, v: &Val, w: u32) -> Res<()> {
        let a = self.conc(st, p)?;
        let n = u64::from((w + 7) / 8);
        let (idx, off) = self.resolve(st, a, n)?;
        match v {
            Val::I(x) => {
                let o = st.mem.get_mut(idx).unwrap();
                let (p, q) = (off as usize, (off + n) as usize);
                if o.data.len() < q {
                    let cap = (q * 2).min(o.size as usize).max(q);
                    o.data.resize(cap, 0);
                }
                if n <= 8 {
                    o.data[p..q].copy_from_slice(&x.to_le_bytes()[..n as usize]);
                } else {
                    o.data[p..q].copy_from_slice(&u128::from(*x).to_le_bytes()[..n as usize]);
                }
                if !o.sym.is_empty() {
                    for i in p..q.min(o.sym.len()) {
                        o.sym[i] = 0;
                    }
                }
            }
            Val::W(x) => {
                let b: Vec<SB> = x.to_le_bytes()[..n as usize].iter().map(|b| SB { b: *b, e: 0 }).collect();
                self.store_bytes(st, idx, off, &b);
            }
            Val::S(e) => {
                let e = if u64::from(w) < n * 8 { self.ex.zext(*e, (n * 8) as u32) } else { *e };
                let mut b = vec![];
                for i in 0..n {
                    let x = self.ex.extract(e, (i * 8) as u32, 8);
                    b.push(match self.ex.is_const(x) {
                        Some(c) => SB { b: c as u8, e: 0 },
                        None => SB { b: 0, e: x },
                    });
                }
                self.store_bytes(st, idx, off, &b);
            }
            Val::A(_) => return Err(End::Unsup("store aggregate".into())),
        }
        Ok(())
    }
    fn store_ty(&mut self, st: &mut State, p: &Val, v: &Val, ty: T) -> Res<()> {
        match v {
            Val::A(xs) => {
                let a = self.conc(st, p)?;
                if let Ty::Vec(_, e) = self.m.ty.get(ty) {
                    if self.m.ty.bits(*e) < 8 {
                        return Err(End::Unsup("store of bit vector".into()));
                    }
                }
                for (i, x) in xs.iter().enumerate() {
                    let et = self.m.ty.elem(ty, i);
                    let off = self.m.ty.field_off(ty, i);
                    self.store_ty(st, &Val::I(a + off), x, et)?;
                }
                Ok(())
            }
            _ => {
                let w = self.m.ty.bits(ty);
                self.store(st, p, v, w)
            }
        }
    }
    pub fn alloc(&mut self, st: &mut State, size: u64) -> Res<u64> {
        if size > 0xf000_0000 {
            return Err(End::Unsup(format!("allocation of {size} bytes")));
        }
        let i = st.mem.add(Obj { size, data: vec![], sym: vec![] });
        Ok(u64::from(i) << 32)
    }

    // ---------------------------------------------------------------- control

    pub fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| demangle(self.m.fns[f.func.id as usize].name)).collect()
    }
    pub fn inputs(&self, st: &State) -> Vec<(String, Vec<u8>)> {
        st.inputs
            .iter()
            .map(|(n, a, l)| (n.clone(), st.model[*a as usize..(*a + *l) as usize].to_vec()))
            .collect()
    }
    pub fn violation(&mut self, st: &State, kind: &str, msg: &str) {
        let key = format!("{kind}: {msg}");
        let c = self.st.viol_counts.entry(key).or_insert(0);
        *c += 1;
        if *c <= 3 {
            let v = Violation {
                kind: kind.to_string(),
                msg: msg.to_string(),
                stack: self.stack(st),
                inputs: self.inputs(st),
            };
            self.st.violations.push(v);
        }
    }
    pub fn push_fn(&mut self, st: &mut State, id: u32, args: &[Val], ret: u32, next: u32) -> Res<()> {
        let f = self.m.func(id).map_err(End::Unsup)?.ok_or_else(|| End::Unsup(format!("no body: {}", self.m.fns[id as usize].name)))?;
        let mut regs = Vec::with_capacity(f.nregs as usize);
        regs.extend_from_slice(&args[..args.len().min(f.nparams as usize)]);
        regs.resize(f.nregs as usize, Val::I(0));
        if st.frames.len() > 2000 {
            return Err(End::Bad("stack".into(), "call depth over 2000".into()));
        }
        st.frames.push(Rc::new(Frame { func: f, pc: 0, regs, allocas: vec![], ret, next }));
        Ok(())
    }

    /// run one path to its end
    pub fn run_path(&mut self, mut st: State) {
        let r = self.run(&mut st);
        self.st.paths += 1;
        self.st.steps += st.steps;
        if self.st.samples.len() < 3 && matches!(r, End::Done) && self.st.paths % 7 == 1 {
            let i = self.inputs(&st);
            self.st.samples.push(i);
        }
        match r {
            End::Done => self.st.done += 1,
            End::Assume => self.st.assumed_away += 1,
            End::Exit(_) => self.st.exits += 1,
            End::Bad(k, m) => {
                let m = if k == "panic" || k == "memory" {
                    // name the innermost frame of the code under test
                    let s = self.stack(&st);
                    let w = s.iter().find(|x| x.contains("cdx::")).cloned().unwrap_or_else(|| s.first().cloned().unwrap_or_default());
                    format!("{m} in {w}")
                } else {
                    m
                };
                self.violation(&st, &k, &m);
            }
            End::Unsup(m) => {
                if self.o.trace {
                    eprintln!("unsupported: {m}\n  {:?}", self.stack(&st));
                }
                let top = self.stack(&st).first().cloned().unwrap_or_default();
                *self.st.inconclusive.entry(format!("{m} [in {top}]")).or_insert(0) += 1;
            }
        }
    }

    fn run(&mut self, st: &mut State) -> End {
        loop {
            match self.steps(st) {
                Ok(()) => {}
                Err(e) => return e,
            }
        }
    }

    fn take_edge(fr: &mut Frame, e: u32) {
        let ed: *const Edge = &fr.func.edges[e as usize];
        let ed = unsafe { &*ed };
        match ed.moves.len() {
            0 => {}
            1 => {
                let (d, o) = &ed.moves[0];
                let v = Self::ov(fr, o);
                fr.regs[*d as usize] = v;
            }
            _ => {
                let vs: Vec<Val> = ed.moves.iter().map(|(_, o)| Self::ov(fr, o)).collect();
                for ((d, _), v) in ed.moves.iter().zip(vs) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.pc = ed.pc;
    }
    #[inline]
    fn ov(fr: &Frame, o: &Op) -> Val {
        match o {
            Op::R(r) => fr.regs[*r as usize].clone(),
            Op::V(v) => v.clone(),
        }
    }

    /// execute until a call, return or other frame change
    #[allow(clippy::too_many_lines)]
    fn steps(&mut self, st: &mut State) -> Res<()> {
        let n = st.frames.len();
        if n == 0 {
            return Err(End::Done);
        }
        loop {
            st.steps += 1;
            if st.steps & 0xffff == 0 {
                if st.steps > self.o.max_steps {
                    return Err(End::Bad("hang".into(), format!("more than {} steps", self.o.max_steps)));
                }
                if self.t0.elapsed().as_secs_f64() > self.o.time {
                    return Err(End::Unsup("time limit".into()));
                }
            }
            let fr: *mut Frame = Rc::make_mut(&mut st.frames[n - 1]);
            let fr = unsafe { &mut *fr };
            let inst: *const Inst = &fr.func.code[fr.pc as usize];
            let inst = unsafe { &*inst };
            if self.o.vtrace {
                eprintln!("{}:{} {:?}", fr.func.id, fr.pc, inst);
            }
            match inst {
                Inst::Bin { k, w, a, b, d } => {
                    let x = Self::ov(fr, a);
                    let y = Self::ov(fr, b);
                    let r = self.bin(st, *k, *w, &x, &y)?;
                    self.set(st, *d, r);
                }
                Inst::Load { ty, w, p, d } => {
                    let p = Self::ov(fr, p);
                    let r = if *w != 0 { self.load(st, &p, *w)? } else { self.load_ty(st, &p, *ty)? };
                    self.set(st, *d, r);
                }
                Inst::Store { ty, w, v, p } => {
                    let v = Self::ov(fr, v);
                    let p = Self::ov(fr, p);
                    if *w != 0 {
                        self.store(st, &p, &v, *w)?;
                    } else {
                        self.store_ty(st, &p, &v, *ty)?;
                    }
                    self.adv(st);
                }
                Inst::Gep { base, off, idx, d } => {
                    let b = Self::ov(fr, base);
                    let mut c: u64 = *off as u64;
                    let mut sym: Option<E> = None;
                    match b {
                        Val::I(x) => c = c.wrapping_add(x),
                        Val::S(e) => sym = Some(e),
                        _ => return Err(End::Unsup("gep base".into())),
                    }
                    for (o, w, sc) in idx {
                        match Self::ov(fr, o) {
                            Val::I(x) => {
                                let s = 64 - *w;
                                let x = ((x << s) as i64) >> s;
                                c = c.wrapping_add(x.wrapping_mul(*sc) as u64);
                            }
                            Val::S(e) => {
                                let e = self.ex.sext(e, 64);
                                let k = self.ex.cst(*sc as u128, 64);
                                let t = self.ex.bin(K::Mul, e, k);
                                sym = Some(match sym {
                                    None => t,
                                    Some(s) => self.ex.bin(K::Add, s, t),
                                });
                            }
                            _ => return Err(End::Unsup("gep index".into())),
                        }
                    }
                    let r = match sym {
                        None => Val::I(c),
                        Some(s) => {
                            let k = self.ex.cst(u128::from(c), 64);
                            let e = self.ex.bin(K::Add, s, k);
                            self.v_of(e)
                        }
                    };
                    self.set(st, *d, r);
                }
                Inst::ICmp { p, w, a, b, d, vec } => {
                    let x = Self::ov(fr, a);
                    let y = Self::ov(fr, b);
                    let r = if *vec {
                        let (Val::A(x), Val::A(y)) = (&x, &y) else { return Err(End::Unsup("icmp".into())) };
                        let v = (0..x.len()).map(|i| self.icmp(*p, *w, &x[i], &y[i])).collect();
                        Val::A(Rc::new(v))
                    } else {
                        self.icmp(*p, *w, &x, &y)
                    };
                    self.set(st, *d, r);
                }
                Inst::Br(e) => Self::take_edge(fr, *e),
                Inst::CBr { c, t, f } => {
                    let v = Self::ov(fr, c);
                    match v {
                        Val::I(x) => Self::take_edge(fr, if x != 0 { *t } else { *f }),
                        Val::S(e) => {
                            let k = self.decide(st, e)?;
                            let fr = Rc::make_mut(&mut st.frames[n - 1]);
                            Self::take_edge(fr, if k { *t } else { *f });
                        }
                        _ => return Err(End::Unsup("br".into())),
                    }
                }
                Inst::Switch { v, w, def, cases } => {
                    let v = Self::ov(fr, v);
                    let target = match v {
                        Val::I(x) => cases.iter().find(|c| c.0 == u128::from(x)).map_or(*def, |c| c.1),
                        Val::W(x) => cases.iter().find(|c| c.0 == *x).map_or(*def, |c| c.1),
                        Val::S(e) => self.switch(st, e, *w, *def, cases)?,
                        Val::A(_) => return Err(End::Unsup("switch".into())),
                    };
                    let fr = Rc::make_mut(&mut st.frames[n - 1]);
                    Self::take_edge(fr, target);
                }
                Inst::Select { c, a, b, w, d, ty, vec } => {
                    let cv = Self::ov(fr, c);
                    let x = Self::ov(fr, a);
                    let y = Self::ov(fr, b);
                    let r = if *vec {
                        let (Val::A(c), Val::A(x), Val::A(y)) = (&cv, &x, &y) else {
                            return Err(End::Unsup("select".into()));
                        };
                        let mut v = vec![];
                        for i in 0..c.len() {
                            v.push(self.select(&c[i], x[i].clone(), y[i].clone(), *w, *ty)?);
                        }
                        Val::A(Rc::new(v))
                    } else {
                        self.select(&cv, x, y, *w, *ty)?
                    };
                    self.set(st, *d, r);
                }
                Inst::Cast { c, from, to, fw, tw, a, d, vec } => {
                    let x = Self::ov(fr, a);
                    let r = if *c == Cast::Bit {
                        let tv = matches!(self.m.ty.get(*to), Ty::Vec(..));
                        if *vec || tv {
                            self.bitcast(&x, *from, *to)?
                        } else {
                            x
                        }
                    } else if *vec {
                        let Val::A(xs) = &x else { return Err(End::Unsup("cast".into())) };
                        let mut v = vec![];
                        for y in xs.iter() {
                            v.push(self.cast(st, *c, *fw, *tw, y)?);
                        }
                        Val::A(Rc::new(v))
                    } else {
                        self.cast(st, *c, *fw, *tw, &x)?
                    };
                    self.set(st, *d, r);
                }
                Inst::Call { f, args, d, ret, next } => {
                    let mut av: Vec<Val> = Vec::with_capacity(args.len());
                    for a in args {
                        av.push(Self::ov(fr, a));
                    }
                    let id = match f {
                        Callee::Fn(i) => *i,
                        Callee::Ind(o) => {
                            let p = Self::ov(fr, o);
                            let a = self.conc(st, &p)?;
                            let i = (a >> 32).wrapping_sub(FN_BASE);
                            if a & 0xffff_ffff != 0 || i >= self.m.fns.len() as u64 {
                                return Err(End::Bad("memory".into(), format!("call of invalid address {a:#x}")));
                            }
                            i as u32
                        }
                        Callee::Asm(t) => {
                            let r = if t.contains("sqrtsd") {
                                let e = self.e_of(&av[0], 64);
                                let r = self.ex.un(K::FSqrt, e, 64);
                                self.v_of(r)
                            } else {
                                undef(&self.m.ty, *ret)
                            };
                            if *d != NO_EDGE {
                                self.set_noadv(st, *d, r);
                            }
                            self.adv(st);
                            continue;
                        }
                    };
                    if self.panic_fn[id as usize] != 0 {
                        return Err(End::Bad("panic".into(), demangle(self.m.fns[id as usize].name)));
                    }
                    if self.m.fns[id as usize].span.is_some() && self.handlers[id as usize].is_none() {
                        // defined: advance the caller, then enter
                        if let Some(h) = crate::libc::over(self.m.fns[id as usize].name) {
                            self.handlers[id as usize] = Some(Some(h));
                        } else {
                            let fr = Rc::make_mut(&mut st.frames[n - 1]);
                            fr.pc += 1;
                            self.push_fn(st, id, &av, *d, *next)?;
                            return Ok(());
                        }
                    }
                    let name = self.m.fns[id as usize].name;
                    let h = match self.handlers[id as usize] {
                        Some(h) => h,
                        None => {
                            let h = crate::libc::lookup(name);
                            self.handlers[id as usize] = Some(h);
                            h
                        }
                    };
                    let Some(h) = h else { return Err(End::Unsup(format!("external function {name}"))) };
                    let r = match st.pending.take() {
                        Some(v) => Val::I(v),
                        None => h(self, st, &av, name)?,
                    };
                    if *d != NO_EDGE {
                        self.set_noadv(st, *d, r);
                    }
                    let l = st.frames.len();
                    if l != n {
                        return Err(End::Unsup("handler changed frames".into()));
                    }
                    let fr = Rc::make_mut(&mut st.frames[n - 1]);
                    if *next == NO_EDGE {
                        fr.pc += 1;
                    } else {
                        Self::take_edge(fr, *next);
                    }
                }
                Inst::Ret(o) => {
                    let v = o.as_ref().map(|o| Self::ov(fr, o));
                    let (ret, next) = (fr.ret, fr.next);
                    let al = std::mem::take(&mut fr.allocas);
                    for a in al {
                        st.mem.free(a);
                    }
                    st.frames.pop();
                    let Some(f) = st.frames.last_mut() else { return Err(End::Done) };
                    let f = Rc::make_mut(f);
                    if ret != NO_EDGE {
                        if let Some(v) = v {
                            f.regs[ret as usize] = v;
                        }
                    }
                    if next != NO_EDGE {
                        Self::take_edge(f, next);
                    }
                    return Ok(());
                }
                Inst::Alloca { size, n: cnt, d } => {
                    let c = Self::ov(fr, cnt);
                    let c = self.conc(st, &c)?;
                    let a = self.alloc(st, size * c)?;
                    let fr = Rc::make_mut(&mut st.frames[n - 1]);
                    fr.allocas.push((a >> 32) as u32);
                    self.set(st, *d, Val::I(a));
                }
                Inst::Extract { a, path, d } => {
                    let mut v = Self::ov(fr, a);
                    for p in path {
                        let Val::A(x) = &v else { return Err(End::Unsup("extractvalue".into())) };
                        let y = x[*p as usize].clone();
                        v = y;
                    }
                    self.set(st, *d, v);
                }
                Inst::Insert { a, v, path, d, .. } => {
                    let x = Self::ov(fr, a);
                    let y = Self::ov(fr, v);
                    let r = insert(&x, path, y);
                    self.set(st, *d, r);
                }
                Inst::ExtractEl { a, i, d, .. } => {
                    let x = Self::ov(fr, a);
                    let iv = Self::ov(fr, i);
                    let i = self.conc(st, &iv)?;
                    let Val::A(x) = &x else { return Err(End::Unsup("extractelement".into())) };
                    let r = x[i as usize].clone();
                    self.set(st, *d, r);
                }
                Inst::InsertEl { a, v, i, d, .. } => {
                    let x = Self::ov(fr, a);
                    let y = Self::ov(fr, v);
                    let iv = Self::ov(fr, i);
                    let i = self.conc(st, &iv)?;
                    let r = insert(&x, &[i as u32], y);
                    self.set(st, *d, r);
                }
                Inst::Shuffle { a, b, m, d, .. } => {
                    let (Val::A(x), Val::A(y)) = (Self::ov(fr, a), Self::ov(fr, b)) else {
                        return Err(End::Unsup("shuffle".into()));
                    };
                    let v = m
                        .iter()
                        .map(|i| {
                            let i = *i as usize;
                            if i < x.len() {
                                x[i].clone()
                            } else {
                                y[i - x.len()].clone()
                            }
                        })
                        .collect();
                    self.set(st, *d, Val::A(Rc::new(v)));
                }
                Inst::VBin { k, w, a, b, d } => {
                    let (Val::A(x), Val::A(y)) = (Self::ov(fr, a), Self::ov(fr, b)) else {
                        return Err(End::Unsup("vector op".into()));
                    };
                    let mut v = vec![];
                    for i in 0..x.len() {
                        v.push(self.bin(st, *k, *w, &x[i], &y[i])?);
                    }
                    self.set(st, *d, Val::A(Rc::new(v)));
                }
                Inst::FNeg { w, a, d, vec } => {
                    if *vec {
                        return Err(End::Unsup("vector fneg".into()));
                    }
                    let x = Self::ov(fr, a);
                    let s = mkint(1u128 << (w - 1), *w);
                    let r = self.bin(st, K::Xor, *w, &x, &s)?;
                    self.set(st, *d, r);
                }
                Inst::FCmp { p, w, a, b, d, vec } => {
                    if *vec {
                        return Err(End::Unsup("vector fcmp".into()));
                    }
                    let x = Self::ov(fr, a);
                    let y = Self::ov(fr, b);
                    let r = self.fcmp(st, p, *w, &x, &y)?;
                    self.set(st, *d, r);
                }
                Inst::Rmw { op, w, p, v, d, .. } => {
                    let p = Self::ov(fr, p);
                    let v = Self::ov(fr, v);
                    let a = Val::I(self.conc(st, &p)?);
                    let old = self.load(st, &a, *w)?;
                    let new = match op.as_str() {
                        "xchg" => v,
                        "add" => self.bin(st, K::Add, *w, &old, &v)?,
                        "sub" => self.bin(st, K::Sub, *w, &old, &v)?,
                        "and" => self.bin(st, K::And, *w, &old, &v)?,
                        "or" => self.bin(st, K::Or, *w, &old, &v)?,
                        "xor" => self.bin(st, K::Xor, *w, &old, &v)?,
                        "umax" | "umin" => {
                            let c = self.icmp(if op == "umax" { Pred::Ugt } else { Pred::Ult }, *w, &old, &v);
                            self.select(&c, old.clone(), v, *w, 0)?
                        }
                        _ => return Err(End::Unsup(format!("atomicrmw {op}"))),
                    };
                    self.store(st, &a, &new, *w)?;
                    if *d == NO_EDGE {
                        self.adv(st);
                    } else {
                        self.set(st, *d, old);
                    }
                }
                Inst::CmpXchg { p, c, n: nv, w, d, .. } => {
                    let p = Self::ov(fr, p);
                    let c = Self::ov(fr, c);
                    let nv = Self::ov(fr, nv);
                    let a = Val::I(self.conc(st, &p)?);
                    let old = self.load(st, &a, *w)?;
                    let eq = self.icmp(Pred::Eq, *w, &old, &c);
                    let b = match eq {
                        Val::I(x) => x != 0,
                        Val::S(e) => self.decide(st, e)?,
                        _ => false,
                    };
                    if b {
                        self.store(st, &a, &nv, *w)?;
                    }
                    self.set(st, *d, Val::A(Rc::new(vec![old, Val::I(u64::from(b))])));
                }
                Inst::Copy { a, d } => {
                    let v = Self::ov(fr, a);
                    self.set(st, *d, v);
                }
                Inst::Nop => self.adv(st),
                Inst::Unreachable => {
                    return Err(End::Bad("unreachable".into(), "reached unreachable code".into()));
                }
                Inst::Bad(m) => return Err(End::Unsup(m.clone())),
            }
        }
    }

    #[inline]
    fn set(&mut self, st: &mut State, d: u32, v: Val) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.regs[d as usize] = v;
        fr.pc += 1;
    }
    #[inline]
    fn set_noadv(&mut self, st: &mut State, d: u32, v: Val) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.regs[d as usize] = v;
    }
    #[inline]
    fn adv(&mut self, st: &mut State) {
        Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
    }

    fn switch(&mut self, st: &mut State, e: E, w: u32, def: u32, cases: &[(u128, u32)]) -> Res<u32> {
        // group cases by target block
        let func = st.frames.last().unwrap().func.clone();
        let key = |ed: u32| {
            let e = &func.edges[ed as usize];
            e.pc
        };
        let mut groups: Vec<(u32, E)> = vec![];
        let mut any = self.ex.cst(0, 1);
        for (v, ed) in cases {
            let _ = w;
            let c = self.ex.eqc(e, *v);
            any = self.ex.or(any, c);
            if let Some(g) = groups.iter_mut().find(|g| key(g.0) == key(*ed)) {
                g.1 = self.ex.or(g.1, c);
            } else {
                groups.push((*ed, c));
            }
        }
        let dc = self.ex.not(any);
        if let Some(g) = groups.iter_mut().find(|g| key(g.0) == key(def)) {
            g.1 = self.ex.or(g.1, dc);
        } else {
            groups.push((def, dc));
        }
        // the group holding under the current model continues; the rest restart here
        let mut mine = None;
        let mut rest = self.ex.cst(0, 1);
        for (ed, c) in &groups {
            if mine.is_none() && self.ex.eval(*c, &st.model) != 0 {
                mine = Some((*ed, *c));
            } else {
                rest = self.ex.or(rest, *c);
            }
        }
        let (ed, c) = mine.ok_or_else(|| End::Unsup("switch".into()))?;
        let _ = rest;
        let nc = self.ex.not(c);
        if let Some(m) = self.feasible(st, nc)? {
            let mut o = st.clone();
            o.model = m;
            o.forks += 1;
            self.add_con(&mut o, nc);
            self.note_fork(st);
            self.queue.push(o);
            st.forks += 1;
            self.add_con(st, c);
        }
        Ok(ed)
    }
}

fn insert(x: &Val, path: &[u32], v: Val) -> Val {
    let Val::A(xs) = x else { return v };
    let mut xs = (**xs).clone();
    let i = path[0] as usize;
    if path.len() == 1 {
        xs[i] = v;
    } else {
        xs[i] = insert(&xs[i], &path[1..], v);
    }
    Val::A(Rc::new(xs))
}

/// readable approximation of a v0-mangled name
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            // crate disambiguator Cs<base62>_
            i += 2;
            while i < b.len() && b[i] != b'_' {
                i += 1;
            }
            i += 1;
            continue;
        }
        if b[i] == b's' && i + 1 < b.len() && (b[i + 1] == b'_' || b[i + 1].is_ascii_alphanumeric()) && !b[i + 1].is_ascii_digit() {
            // s<base62>_ disambiguator
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i <= 4 {
                i = j + 1;
                continue;
            }
        }
        if b[i] == b'B' {
            // back reference
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if l > 0 && j + l <= b.len() {
                out.push(n[j..j + l].to_string());
                i = j + l;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

//! Reader for the textual LLVM IR that rustc emits (the subset that occurs), with lazy
//! decoding of function bodies.
use crate::expr::{mask, E, K};
use crate::ty::{Ty, Types, T};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    W(Rc<u128>),
    S(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    V(Val),
}

pub const FN_BASE: u64 = 0x7000_0000;

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Op),
    Asm(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
    FToSi,
    FToUi,
    SiToF,
    UiToF,
    FExt,
    FNarrow,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Debug)]
pub enum Inst {
    Bin { k: K, w: u32, a: Op, b: Op, d: u32 },
    VBin { k: K, w: u32, a: Op, b: Op, d: u32 },
    FNeg { w: u32, a: Op, d: u32, vec: bool },
    ICmp { p: Pred, w: u32, a: Op, b: Op, d: u32, vec: bool },
    FCmp { p: &'static str, w: u32, a: Op, b: Op, d: u32, vec: bool },
    Cast { c: Cast, from: T, to: T, fw: u32, tw: u32, a: Op, d: u32, vec: bool },
    Select { c: Op, a: Op, b: Op, w: u32, d: u32, ty: T, vec: bool },
    Load { ty: T, w: u32, p: Op, d: u32 },
    Store { ty: T, w: u32, v: Op, p: Op },
    Gep { base: Op, off: i64, idx: Vec<(Op, u32, i64)>, d: u32 },
    Alloca { size: u64, n: Op, d: u32 },
    Call { f: Callee, args: Vec<Op>, d: u32, ret: T, next: u32 },
    Br(u32),
    CBr { c: Op, t: u32, f: u32 },
    Switch { v: Op, w: u32, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Op>),
    Unreachable,
    Extract { a: Op, path: Vec<u32>, d: u32 },
    Insert { a: Op, v: Op, path: Vec<u32>, d: u32, ty: T },
    ExtractEl { a: Op, i: Op, d: u32, w: u32 },
    InsertEl { a: Op, v: Op, i: Op, d: u32, ty: T },
    Shuffle { a: Op, b: Op, m: Vec<i64>, d: u32, ty: T },
    Rmw { op: String, w: u32, p: Op, v: Op, ty: T, d: u32 },
    CmpXchg { p: Op, c: Op, n: Op, w: u32, ty: T, d: u32 },
    Copy { a: Op, d: u32 },
    Nop,
    Bad(String),
}

#[derive(Debug, Default)]
pub struct Edge {
    pub pc: u32,
    pub moves: Vec<(u32, Op)>,
}

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub nregs: u32,
    pub nparams: u32,
    pub code: Vec<Inst>,
    pub edges: Vec<Edge>,
}

pub struct FnDecl {
    pub name: &'static str,
    pub span: Option<(usize, usize)>,
    pub func: Option<Rc<Func>>,
}

pub struct Module {
    pub text: &'static [u8],
    pub ty: Types,
    pub globals: HashMap<&'static str, u64>,
    pub fns: Vec<FnDecl>,
    pub fn_ids: HashMap<&'static str, u32>,
    /// global objects: address, size, initial bytes
    pub gobjs: Vec<(u64, u64, Vec<u8>, &'static str)>,
    pub aliases: Vec<(&'static str, &'static str)>,
}

pub fn undef(ty: &Types, t: T) -> Val {
    match ty.get(t) {
        Ty::Struct(f, _) => {
            let f = f.clone();
            Val::A(Rc::new(f.iter().map(|x| undef(ty, *x)).collect()))
        }
        Ty::Arr(n, e) | Ty::Vec(n, e) => {
            let v = undef(ty, *e);
            Val::A(Rc::new(vec![v; *n as usize]))
        }
        Ty::Int(w) if *w > 64 => Val::W(Rc::new(0)),
        _ => Val::I(0),
    }
}

pub fn mkint(v: u128, w: u32) -> Val {
    let v = v & mask(w);
    if w > 64 {
        Val::W(Rc::new(v))
    } else {
        Val::I(v as u64)
    }
}

struct Rd<'a> {
    s: &'static [u8],
    i: usize,
    m: &'a mut Module,
    regs: HashMap<&'static str, u32>,
    /// may white space cross a line end?
    nl: bool,
}

type Res<X> = Result<X, String>;

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Rd<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'\n' if !self.nl => break,
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < self.s.len() && self.s[self.i] != b'\n' {
                        self.i += 1;
                    }
                }
                _ => break,
            }
        }
    }
    fn pk(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn ch(&mut self, c: u8) -> bool {
        if self.pk() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: u8) -> Res<()> {
        if self.ch(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", c as char, self.ctx()))
        }
    }
    fn ctx(&self) -> String {
        let e = (self.i + 60).min(self.s.len());
        String::from_utf8_lossy(&self.s[self.i.min(e)..e]).to_string()
    }
    fn word_peek(&mut self) -> &'static str {
        self.ws();
        let st = self.i;
        let mut j = st;
        while j < self.s.len() && is_id(self.s[j]) {
            j += 1;
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[st..j]) }
    }
    fn word(&mut self) -> &'static str {
        let w = self.word_peek();
        self.i += w.len();
        w
    }
    fn kw(&mut self, k: &str) -> bool {
        if self.word_peek() == k {
            self.i += k.len();
            true
        } else {
            false
        }
    }
    /// identifier after % or @ (possibly quoted)
    fn name(&mut self) -> &'static str {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            unsafe { std::str::from_utf8_unchecked(&self.s[st..j]) }
        } else {
            let st = self.i;
            let mut j = st;
            while j < self.s.len() && is_id(self.s[j]) {
                j += 1;
            }
            self.i = j;
            unsafe { std::str::from_utf8_unchecked(&self.s[st..j]) }
        }
    }
    fn num(&mut self) -> Res<u64> {
        self.ws();
        let w = self.word();
        w.parse::<u64>().map_err(|_| format!("number expected: {w} {}", self.ctx()))
    }
    fn parens(&mut self) {
        // skip a balanced parenthesised group
        if self.pk() != b'(' {
            return;
        }
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn ty(&mut self) -> Res<T> {
        let c = self.pk();
        let t = match c {
            b'[' => {
                self.i += 1;
                let n = self.num()?;
                if !self.kw("x") {
                    return Err("x".into());
                }
                let e = self.ty()?;
                self.need(b']')?;
                self.m.ty.intern(Ty::Arr(n, e))
            }
            b'<' => {
                self.i += 1;
                if self.pk() == b'{' {
                    self.i += 1;
                    let f = self.ty_list(b'}')?;
                    self.need(b'>')?;
                    self.m.ty.intern(Ty::Struct(f, true))
                } else {
                    let n = self.num()?;
                    if !self.kw("x") {
                        return Err("x".into());
                    }
                    let e = self.ty()?;
                    self.need(b'>')?;
                    self.m.ty.intern(Ty::Vec(n, e))
                }
            }
            b'{' => {
                self.i += 1;
                let f = self.ty_list(b'}')?;
                self.m.ty.intern(Ty::Struct(f, false))
            }
            b'%' => {
                self.i += 1;
                let n = self.name().to_string();
                self.m.ty.intern(Ty::Named(n))
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => self.m.ty.intern(Ty::Void),
                    "ptr" => {
                        if self.word_peek() == "addrspace" {
                            self.word();
                            self.parens();
                        }
                        self.m.ty.intern(Ty::Ptr)
                    }
                    "float" => self.m.ty.intern(Ty::F32),
                    "double" => self.m.ty.intern(Ty::F64),
                    "half" | "bfloat" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "opaque" => {
                        self.m.ty.intern(Ty::Other)
                    }
                    _ => {
                        if let Some(n) = w.strip_prefix('i') {
                            if let Ok(n) = n.parse::<u32>() {
                                return Ok(self.m.ty.intern(Ty::Int(n)));
                            }
                        }
                        return Err(format!("type? '{w}' {}", self.ctx()));
                    }
                }
            }
        };
        Ok(t)
    }
    fn ty_list(&mut self, end: u8) -> Res<Vec<T>> {
        let mut v = vec![];
        if self.ch(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.ch(b',') {
                continue;
            }
            self.need(end)?;
            return Ok(v);
        }
    }
    fn reg(&mut self, n: &'static str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn global_addr(&mut self, n: &'static str) -> Res<u64> {
        if let Some(a) = self.m.globals.get(n) {
            return Ok(*a);
        }
        if let Some(f) = self.m.fn_ids.get(n) {
            return Ok((FN_BASE + u64::from(*f)) << 32);
        }
        Err(format!("unknown global @{n}"))
    }
    fn float_const(&mut self, t: T, w: &str) -> Res<Val> {
        let f64b = |x: f64| x.to_bits();
        let is64 = matches!(self.m.ty.get(t), Ty::F64);
        let to = |x: f64| if is64 { f64b(x) } else { u64::from((x as f32).to_bits()) };
        if let Some(h) = w.strip_prefix("f0x") {
            let v = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
            return Ok(Val::I(v));
        }
        if let Some(h) = w.strip_prefix("0x") {
            // classic notation: always the bits of a double
            let v = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
            return Ok(Val::I(if is64 { v } else { to(f64::from_bits(v)) }));
        }
        match w {
            "+inf" | "inf" => return Ok(Val::I(to(f64::INFINITY))),
            "-inf" => return Ok(Val::I(to(f64::NEG_INFINITY))),
            "+nan" | "+qnan" | "nan" | "qnan" => return Ok(Val::I(to(f64::NAN))),
            "-nan" | "-qnan" => return Ok(Val::I(if is64 { 0xfff8_0000_0000_0000 } else { 0xffc0_0000 })),
            _ => {}
        }
        w.parse::<f64>().map(|x| Val::I(to(x))).map_err(|_| format!("float? {w}"))
    }
    /// a value of type t (constant or register)
    fn val(&mut self, t: T) -> Res<Op> {
        let c = self.pk();
        match c {
            b'%' => {
                self.i += 1;
                let n = self.name();
                Ok(Op::R(self.reg(n)))
            }
            _ => Ok(Op::V(self.cval(t)?)),
        }
    }
    fn cval(&mut self, t: T) -> Res<Val> {
        let c = self.pk();
        match c {
            b'@' => {
                self.i += 1;
                let n = self.name();
                Ok(Val::I(self.global_addr(n)?))
            }
            b'c' if self.s[self.i + 1] == b'"' => {
                self.i += 2;
                let mut v = vec![];
                while self.s[self.i] != b'"' {
                    let ch = self.s[self.i];
                    if ch == b'\\' {
                        if self.s[self.i + 1] == b'\\' {
                            v.push(Val::I(u64::from(b'\\')));
                            self.i += 2;
                        } else {
                            let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                            v.push(Val::I(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?));
                            self.i += 3;
                        }
                    } else {
                        v.push(Val::I(u64::from(ch)));
                        self.i += 1;
                    }
                }
                self.i += 1;
                Ok(Val::A(Rc::new(v)))
            }
            b'[' | b'{' | b'<' => {
                self.i += 1;
                let mut end = match c {
                    b'[' => b']',
                    b'{' => b'}',
                    _ => b'>',
                };
                let mut packed = false;
                if c == b'<' && self.pk() == b'{' {
                    self.i += 1;
                    end = b'}';
                    packed = true;
                }
                let mut v = vec![];
                if !self.ch(end) {
                    loop {
                        let et = self.ty()?;
                        v.push(self.cval(et)?);
                        if self.ch(b',') {
                            continue;
                        }
                        self.need(end)?;
                        break;
                    }
                }
                if packed {
                    self.need(b'>')?;
                }
                Ok(Val::A(Rc::new(v)))
            }
            b'+' => {
                self.i += 1;
                let w = self.word();
                if self.pk() == b'(' {
                    self.parens();
                }
                let w = format!("+{w}");
                self.float_const(t, &w)
            }
            _ => {
                let w = self.word();
                // exponent sign such as 1.0e+00
                let mut ws = w.to_string();
                if (ws.ends_with('e') || ws.ends_with('E')) && self.i < self.s.len() && self.s[self.i] == b'+' {
                    self.i += 1;
                    let r = self.word();
                    ws.push('+');
                    ws.push_str(r);
                }
                match ws.as_str() {
                    "true" => return Ok(Val::I(1)),
                    "false" => return Ok(Val::I(0)),
                    "null" | "none" => return Ok(Val::I(0)),
                    "undef" | "poison" | "zeroinitializer" => return Ok(undef(&self.m.ty, t)),
                    "splat" => {
                        self.need(b'(')?;
                        let et = self.ty()?;
                        let v = self.cval(et)?;
                        self.need(b')')?;
                        let n = self.m.ty.count(t).unwrap_or(1);
                        return Ok(Val::A(Rc::new(vec![v; n])));
                    }
                    "getelementptr" => {
                        while self.pk() != b'(' {
                            let w = self.word();
                            if w == "inrange" {
                                self.parens();
                            }
                            if w.is_empty() {
                                return Err("gep const".into());
                            }
                        }
                        self.need(b'(')?;
                        let st = self.ty()?;
                        self.need(b',')?;
                        let pt = self.ty()?;
                        let Val::I(b) = self.cval(pt)? else { return Err("gep base".into()) };
                        let mut off = 0i64;
                        let mut cur = st;
                        let mut first = true;
                        while self.ch(b',') {
                            let it = self.ty()?;
                            let Val::I(ix) = self.cval(it)? else { return Err("gep idx".into()) };
                            let w = self.m.ty.bits(it);
                            let ix = crate::expr::sx(u128::from(ix), w) as i64;
                            if first {
                                off += ix * self.m.ty.size(cur) as i64;
                                first = false;
                            } else {
                                off += self.m.ty.field_off(cur, ix as usize) as i64;
                                cur = self.m.ty.elem(cur, ix as usize);
                            }
                        }
                        self.need(b')')?;
                        return Ok(Val::I(b.wrapping_add(off as u64)));
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "ptrtoaddr" => {
                        self.need(b'(')?;
                        let ft = self.ty()?;
                        let v = self.cval(ft)?;
                        if !self.kw("to") {
                            return Err("to".into());
                        }
                        let tt = self.ty()?;
                        self.need(b')')?;
                        let Val::I(x) = v else { return Err("const cast".into()) };
                        let tw = self.m.ty.bits(tt);
                        return Ok(mkint(u128::from(x), tw));
                    }
                    "add" | "sub" | "xor" | "and" | "mul" | "shl" => {
                        while self.pk() != b'(' {
                            self.word();
                        }
                        self.need(b'(')?;
                        let at = self.ty()?;
                        let Val::I(x) = self.cval(at)? else { return Err("const op".into()) };
                        self.need(b',')?;
                        let bt = self.ty()?;
                        let Val::I(y) = self.cval(bt)? else { return Err("const op".into()) };
                        self.need(b')')?;
                        let w = self.m.ty.bits(at);
                        let r = match ws.as_str() {
                            "add" => x.wrapping_add(y),
                            "sub" => x.wrapping_sub(y),
                            "xor" => x ^ y,
                            "and" => x & y,
                            "shl" => x << y,
                            _ => x.wrapping_mul(y),
                        };
                        return Ok(mkint(u128::from(r), w));
                    }
                    _ => {}
                }
                match self.m.ty.get(t) {
                    Ty::F32 | Ty::F64 => {
                        if self.pk() == b'(' && (ws.ends_with("nan")) {
                            self.parens();
                        }
                        self.float_const(t, &ws)
                    }
                    Ty::Int(wd) => {
                        let wd = *wd;
                        if let Some(h) = ws.strip_prefix("u0x").or(ws.strip_prefix("s0x")) {
                            let v = u128::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                            return Ok(mkint(v, wd));
                        }
                        if let Some(n) = ws.strip_prefix('-') {
                            let v = n.parse::<u128>().map_err(|_| format!("int? {ws}"))?;
                            Ok(mkint(0u128.wrapping_sub(v), wd))
                        } else {
                            let v = ws.parse::<u128>().map_err(|_| format!("int? '{ws}' {}", self.ctx()))?;
                            Ok(mkint(v, wd))
                        }
                    }
                    _ => Err(format!("const? '{ws}' {}", self.ctx())),
                }
            }
        }
    }
    /// skip parameter attributes between a type and its value
    fn attrs(&mut self) {
        loop {
            let c = self.pk();
            if matches!(c, b'%' | b'@' | b'[' | b'{' | b'<' | b'+' | b'-' | b')' | b',') || c.is_ascii_digit() {
                return;
            }
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.pk() == b'=' {
                    self.i += 1;
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                continue;
            }
            let w = self.word_peek();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr"
                | "ptrtoint" | "inttoptr" | "splat" | "c" | "none" | "trunc" | "sub" | "add" | "xor" | "inf"
                | "nan" | "qnan" | "bitcast" | "ptrtoaddr" => return,
                "" => return,
                _ => {
                    if w.starts_with("f0x") || w.starts_with("u0x") || w.starts_with("s0x") {
                        return;
                    }
                    self.i += w.len();
                    if w == "align" && self.pk() != b'(' {
                        let _ = self.num();
                    } else if self.pk() == b'(' {
                        self.parens();
                    }
                }
            }
        }
    }
    fn tval(&mut self) -> Res<(T, Op)> {
        let t = self.ty()?;
        self.attrs();
        let v = self.val(t)?;
        Ok((t, v))
    }
    fn label(&mut self) -> Res<&'static str> {
        if !self.kw("label") {
            return Err(format!("label expected {}", self.ctx()));
        }
        self.need(b'%')?;
        Ok(self.name())
    }
}

fn kind(w: &str) -> Option<K> {
    Some(match w {
        "add" => K::Add,
        "sub" => K::Sub,
        "mul" => K::Mul,
        "udiv" => K::UDiv,
        "sdiv" => K::SDiv,
        "urem" => K::URem,
        "srem" => K::SRem,
        "and" => K::And,
        "or" => K::Or,
        "xor" => K::Xor,
        "shl" => K::Shl,
        "lshr" => K::LShr,
        "ashr" => K::AShr,
        "fadd" => K::FAdd,
        "fsub" => K::FSub,
        "fmul" => K::FMul,
        "fdiv" => K::FDiv,
        "frem" => K::FRem,
        _ => return None,
    })
}

fn is_flag(w: &str) -> bool {
    matches!(
        w,
        "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf"
            | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak"
    )
}

impl Module {
    pub fn load(path: &str) -> Result<Self, String> {
        let data = std::fs::read(path).map_err(|e| format!("{path}: {e}"))?;
        let text: &'static [u8] = Box::leak(data.into_boxed_slice());
        let mut m = Self {
            text,
            ty: Types::default(),
            globals: HashMap::new(),
            fns: vec![],
            fn_ids: HashMap::new(),
            gobjs: vec![],
            aliases: vec![],
        };
        // pass 1: top level structure
        let mut i = 0;
        let n = text.len();
        let mut gdefs: Vec<(&'static str, usize)> = vec![];
        let mut tdefs: Vec<usize> = vec![];
        while i < n {
            let eol = memchr(b'\n', text, i);
            match text[i] {
                b'@' => {
                    let (nm, j) = top_name(text, i + 1);
                    gdefs.push((nm, j));
                }
                b'%' => tdefs.push(i),
                b'd' => {
                    let def = text[i..].starts_with(b"define");
                    let decl = text[i..].starts_with(b"declare");
                    if def || decl {
                        // the name is the first @ on the line that is followed by a name and (
                        let mut j = i;
                        let mut nm = "";
                        let mut e = i;
                        while j < eol {
                            if text[j] == b'@' {
                                let (x, k) = top_name(text, j + 1);
                                if k < n && text[k] == b'(' {
                                    nm = x;
                                    e = k;
                                    break;
                                }
                            }
                            j += 1;
                        }
                        let id = m.fns.len() as u32;
                        let mut end = eol;
                        let span = if def {
                            // the end is a line "}"
                            let mut p = eol;
                            loop {
                                if p + 1 < n && text[p + 1] == b'}' {
                                    end = p + 2;
                                    break;
                                }
                                if p >= n {
                                    end = n;
                                    break;
                                }
                                p = memchr(b'\n', text, p + 1);
                            }
                            Some((e, end))
                        } else {
                            None
                        };
                        m.fns.push(FnDecl { name: nm, span, func: None });
                        m.fn_ids.insert(nm, id);
                        i = end + 1;
                        continue;
                    }
                }
                _ => {}
            }
            i = eol + 1;
        }
        // types
        for p in tdefs {
            let (nm, j) = top_name(text, p + 1);
            let mut r = Rd { s: text, i: j, m: &mut m, regs: HashMap::new(), nl: true };
            if r.ch(b'=') && r.kw("type") {
                if let Ok(t) = r.ty() {
                    m.ty.named.insert(nm.to_string(), t);
                }
            }
        }
        // pass 2: sizes and addresses of globals
        let mut addr = 0x10000u64;
        let mut inits = vec![];
        for (nm, p) in &gdefs {
            let mut r = Rd { s: text, i: *p, m: &mut m, regs: HashMap::new(), nl: true };
            r.need(b'=')?;
            let mut ext = false;
            loop {
                let w = r.word();
                match w {
                    "external" | "extern_weak" => ext = true,
                    "global" | "constant" => break,
                    "alias" => break,
                    "" => return Err(format!("global @{nm}: {}", r.ctx())),
                    _ => {
                        if r.pk() == b'(' {
                            r.parens();
                        }
                    }
                }
            }
            let is_alias = text[*p..r.i].windows(5).any(|w| w == b"alias");
            let t = r.ty()?;
            if is_alias {
                r.need(b',')?;
                r.ty()?;
                r.need(b'@')?;
                let target = r.name();
                m.aliases.push((nm, target));
                continue;
            }
            let pos = r.i;
            let sz = m.ty.size(t);
            m.globals.insert(nm, addr);
            inits.push((*nm, addr, sz, t, if ext { None } else { Some(pos) }));
            addr += (sz.max(1) + 16 + 63) / 64 * 64;
        }
        for (a, t) in m.aliases.clone() {
            if let Some(x) = m.globals.get(t).copied() {
                m.globals.insert(a, x);
            } else if let Some(f) = m.fn_ids.get(t).copied() {
                m.fn_ids.insert(a, f);
            }
        }
        // pass 3: initialisers
        for (nm, a, sz, t, pos) in inits {
            let mut bytes = vec![];
            if let Some(p) = pos {
                let mut r = Rd { s: text, i: p, m: &mut m, regs: HashMap::new(), nl: true };
                if !r.kw("zeroinitializer") {
                    bytes = vec![0u8; sz as usize];
                    let v = r.cval(t).map_err(|e| format!("@{nm}: {e}"))?;
                    m.put(t, &v, &mut bytes);
                }
            }
            m.gobjs.push((a, sz, bytes, nm));
        }
        Ok(m)
    }
    fn put(&self, t: T, v: &Val, out: &mut [u8]) {
        match v {
            Val::I(x) => {
                let n = self.ty.size(t) as usize;
                out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            Val::W(x) => {
                let n = self.ty.size(t) as usize;
                out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            Val::A(vs) => {
                for (i, x) in vs.iter().enumerate() {
                    let et = self.ty.elem(t, i);
                    let o = self.ty.field_off(t, i) as usize;
                    self.put(et, x, &mut out[o..]);
                }
            }
            Val::S(_) => unreachable!(),
        }
    }
    pub fn func(&mut self, id: u32) -> Result<Option<Rc<Func>>, String> {
        if let Some(f) = &self.fns[id as usize].func {
            return Ok(Some(f.clone()));
        }
        let Some((s, e)) = self.fns[id as usize].span else { return Ok(None) };
        let f = Rc::new(self.decode(id, s, e).map_err(|x| format!("decoding {}: {x}", self.fns[id as usize].name))?);
        self.fns[id as usize].func = Some(f.clone());
        Ok(Some(f))
    }
    fn decode(&mut self, id: u32, start: usize, end: usize) -> Result<Func, String> {
        let s = &self.text[..end];
        let mut r = Rd { s, i: start, m: self, regs: HashMap::new(), nl: true };
        r.need(b'(')?;
        let mut np = 0u32;
        let mut numbered = 0u32;
        if !r.ch(b')') {
            loop {
                if r.pk() == b'.' {
                    while r.pk() == b'.' {
                        r.i += 1;
                    }
                } else {
                    let _ = r.ty()?;
                    r.attrs();
                    if r.pk() == b'%' {
                        r.i += 1;
                        let n = r.name();
                        if n.bytes().all(|b| b.is_ascii_digit()) {
                            numbered += 1;
                        }
                        r.reg(n);
                    } else {
                        let n: &'static str = Box::leak(format!("#arg{np}").into_boxed_str());
                        r.reg(n);
                    }
                    np += 1;
                }
                if r.ch(b',') {
                    continue;
                }
                r.need(b')')?;
                break;
            }
        }
        // to the opening brace at end of the line
        let eol = memchr(b'\n', s, r.i);
        r.i = eol + 1;
        r.nl = false;
        let mut code: Vec<Inst> = vec![];
        let mut labels: HashMap<&'static str, u32> = HashMap::new();
        let mut cur: &'static str = "";
        let mut phis: HashMap<&'static str, Vec<(u32, Vec<(Op, &'static str)>)>> = HashMap::new();
        let mut edges: Vec<(&'static str, &'static str)> = vec![];
        let mut first = true;
        // unnamed entry block gets the next number
        loop {
            // line start
            let eol = memchr(b'\n', s, r.i);
            let line = &s[r.i..eol.min(s.len())];
            if line.is_empty() {
                r.i = eol + 1;
                if r.i >= s.len() {
                    break;
                }
                continue;
            }
            if line[0] == b'}' {
                break;
            }
            if line[0] == b';' {
                r.i = eol + 1;
                continue;
            }
            if line[0] != b' ' && line[0] != b';' {
                // label
                let (nm, j) = if line[0] == b'"' {
                    r.i += 0;
                    let n = r.name();
                    (n, r.i)
                } else {
                    let n = r.name();
                    (n, r.i)
                };
                let _ = j;
                labels.insert(nm, code.len() as u32);
                cur = nm;
                first = false;
                r.i = eol + 1;
                continue;
            }
            if first {
                // implicit entry label: the first unused number
                let nm: &'static str = Box::leak(format!("{numbered}").into_boxed_str());
                labels.insert(nm, 0);
                cur = nm;
                first = false;
            }
            let t = r.pk();
            if t == b'#' || t == b'!' {
                r.i = memchr(b'\n', s, r.i) + 1;
                continue;
            }
            let st = r.i;
            r.nl = false;
            match r.inst(cur, &mut edges, &mut phis) {
                Ok(Some(i)) => code.push(i),
                Ok(None) => {}
                Err(e) => {
                    let eol = memchr(b'\n', s, st);
                    let l = String::from_utf8_lossy(&s[st..eol]).to_string();
                    code.push(Inst::Bad(format!("{e} in: {l}")));
                    r.i = st;
                    // a failing switch/invoke spans lines; find its end
                    if l.contains("switch") {
                        while s[r.i] != b']' {
                            r.i += 1;
                        }
                    }
                }
            }
            r.nl = false;
            let e2 = memchr(b'\n', s, r.i);
            r.i = e2 + 1;
            if r.i >= s.len() {
                break;
            }
        }
        let nregs = r.regs.len() as u32;
        let mut es = vec![];
        for (from, to) in edges {
            let pc = *labels.get(to).ok_or_else(|| format!("label {to}"))?;
            let mut moves = vec![];
            if let Some(ps) = phis.get(to) {
                for (d, inc) in ps {
                    if let Some((o, _)) = inc.iter().find(|(_, l)| *l == from) {
                        moves.push((*d, o.clone()));
                    } else {
                        return Err(format!("phi in {to} lacks {from}"));
                    }
                }
            }
            es.push(Edge { pc, moves });
        }
        // calls continue at the next instruction; invokes carry an edge id in `next`
        Ok(Func { id, nregs, nparams: np, code, edges: es })
    }
}

pub const NO_EDGE: u32 = u32::MAX;

impl<'a> Rd<'a> {
    fn edge(
        &mut self,
        edges: &mut Vec<(&'static str, &'static str)>,
        from: &'static str,
        to: &'static str,
    ) -> u32 {
        edges.push((from, to));
        edges.len() as u32 - 1
    }
    #[allow(clippy::too_many_lines)]
    fn inst(
        &mut self,
        cur: &'static str,
        edges: &mut Vec<(&'static str, &'static str)>,
        phis: &mut HashMap<&'static str, Vec<(u32, Vec<(Op, &'static str)>)>>,
    ) -> Res<Option<Inst>> {
        let mut d = NO_EDGE;
        if self.pk() == b'%' {
            self.i += 1;
            let n = self.name();
            d = self.reg(n);
            self.need(b'=')?;
        }
        let mut w = self.word();
        while matches!(w, "tail" | "musttail" | "notail") {
            w = self.word();
        }
        if let Some(k) = kind(w) {
            while is_flag(self.word_peek()) {
                self.word();
            }
            let t = self.ty()?;
            let a = self.val(t)?;
            self.need(b',')?;
            let b = self.val(t)?;
            if let Ty::Vec(_, e) = self.m.ty.get(t) {
                let w = self.m.ty.bits(*e);
                return Ok(Some(Inst::VBin { k, w, a, b, d }));
            }
            let w = self.m.ty.bits(t);
            return Ok(Some(Inst::Bin { k, w, a, b, d }));
        }
        match w {
            "fneg" => {
                while is_flag(self.word_peek()) {
                    self.word();
                }
                let (t, a) = self.tval()?;
                let (w, vec) = self.lane(t);
                Ok(Some(Inst::FNeg { w, a, d, vec }))
            }
            "icmp" => {
                while is_flag(self.word_peek()) {
                    self.word();
                }
                let p = match self.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => return Err(format!("pred {x}")),
                };
                let t = self.ty()?;
                let a = self.val(t)?;
                self.need(b',')?;
                let b = self.val(t)?;
                let (w, vec) = self.lane(t);
                Ok(Some(Inst::ICmp { p, w, a, b, d, vec }))
            }
            "fcmp" => {
                while is_flag(self.word_peek()) {
                    self.word();
                }
                let p = self.word();
                let t = self.ty()?;
                let a = self.val(t)?;
                self.need(b',')?;
                let b = self.val(t)?;
                let (w, vec) = self.lane(t);
                Ok(Some(Inst::FCmp { p, w, a, b, d, vec }))
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptosi" | "fptoui" | "sitofp"
            | "uitofp" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                while is_flag(self.word_peek()) {
                    self.word();
                }
                let (from, a) = self.tval()?;
                if !self.kw("to") {
                    return Err("cast to".into());
                }
                let to = self.ty()?;
                let (fw, vec) = self.lane(from);
                let (tw, _) = self.lane(to);
                let c = match w {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if tw < fw {
                            Cast::Trunc
                        } else {
                            Cast::ZExt
                        }
                    }
                    "bitcast" => Cast::Bit,
                    "fptosi" => Cast::FToSi,
                    "fptoui" => Cast::FToUi,
                    "sitofp" => Cast::SiToF,
                    "uitofp" => Cast::UiToF,
                    "fpext" => Cast::FExt,
                    _ => Cast::FNarrow,
                };
                Ok(Some(Inst::Cast { c, from, to, fw, tw, a, d, vec }))
            }
            "select" => {
                while is_flag(self.word_peek()) {
                    self.word();
                }
                let (ct, c) = self.tval()?;
                self.need(b',')?;
                let (t, a) = self.tval()?;
                self.need(b',')?;
                let (_, b) = self.tval()?;
                let vec = matches!(self.m.ty.get(ct), Ty::Vec(..));
                let (w, _) = self.lane(t);
                Ok(Some(Inst::Select { c, a, b, w, d, ty: t, vec }))
            }
            "load" => {
                while is_flag(self.word_peek()) {
                    self.word();
                }
                let ty = self.ty()?;
                self.need(b',')?;
                let (_, p) = self.tval()?;
                let w = self.m.ty.bits(ty);
                Ok(Some(Inst::Load { ty, w, p, d }))
            }
            "store" => {
                while is_flag(self.word_peek()) {
                    self.word();
                }
                let (ty, v) = self.tval()?;
                self.need(b',')?;
                let (_, p) = self.tval()?;
                let w = self.m.ty.bits(ty);
                Ok(Some(Inst::Store { ty, w, v, p }))
            }
            "getelementptr" => {
                while is_flag(self.word_peek()) {
                    self.word();
                }
                let st = self.ty()?;
                self.need(b',')?;
                let (pt, base) = self.tval()?;
                if matches!(self.m.ty.get(pt), Ty::Vec(..)) {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut c = st;
                let mut first = true;
                loop {
                    if self.pk() != b',' {
                        break;
                    }
                    let save = self.i;
                    self.i += 1;
                    if self.pk() == b'!' {
                        self.i = save;
                        break;
                    }
                    let (it, v) = self.tval()?;
                    let iw = self.m.ty.bits(it);
                    if first {
                        let sz = self.m.ty.size(c) as i64;
                        first = false;
                        match &v {
                            Op::V(Val::I(x)) => {
                                off = off.wrapping_add((crate::expr::sx(u128::from(*x), iw) as i64).wrapping_mul(sz));
                            }
                            _ => idx.push((v, iw, sz)),
                        }
                    } else {
                        match self.m.ty.get(c).clone() {
                            Ty::Struct(..) => {
                                let Op::V(Val::I(x)) = v else { return Err("struct gep".into()) };
                                off += self.m.ty.field_off(c, x as usize) as i64;
                                c = self.m.ty.elem(c, x as usize);
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                let sz = self.m.ty.size(e) as i64;
                                match &v {
                                    Op::V(Val::I(x)) => {
                                        off = off
                                            .wrapping_add((crate::expr::sx(u128::from(*x), iw) as i64).wrapping_mul(sz));
                                    }
                                    _ => idx.push((v, iw, sz)),
                                }
                                c = e;
                            }
                            _ => return Err("gep into scalar".into()),
                        }
                    }
                }
                Ok(Some(Inst::Gep { base, off, idx, d }))
            }
            "alloca" => {
                while matches!(self.word_peek(), "inalloca" | "swifterror") {
                    self.word();
                }
                let t = self.ty()?;
                let size = self.m.ty.size(t);
                let mut n = Op::V(Val::I(1));
                if self.pk() == b',' {
                    let save = self.i;
                    self.i += 1;
                    if self.word_peek().starts_with('i') {
                        let (_, v) = self.tval()?;
                        n = v;
                    } else {
                        self.i = save;
                    }
                }
                Ok(Some(Inst::Alloca { size, n, d }))
            }
            "br" => {
                if self.word_peek() == "label" {
                    let l = self.label()?;
                    let e = self.edge(edges, cur, l);
                    return Ok(Some(Inst::Br(e)));
                }
                let (_, c) = self.tval()?;
                self.need(b',')?;
                let l1 = self.label()?;
                self.need(b',')?;
                let l2 = self.label()?;
                let t = self.edge(edges, cur, l1);
                let f = self.edge(edges, cur, l2);
                Ok(Some(Inst::CBr { c, t, f }))
            }
            "switch" => {
                let (ty, v) = self.tval()?;
                let w = self.m.ty.bits(ty);
                self.need(b',')?;
                let l = self.label()?;
                let def = self.edge(edges, cur, l);
                self.need(b'[')?;
                let mut cases = vec![];
                self.nl = true;
                while !self.ch(b']') {
                    let (_, c) = self.tval()?;
                    self.need(b',')?;
                    let l = self.label()?;
                    let e = self.edge(edges, cur, l);
                    let x = match c {
                        Op::V(Val::I(x)) => u128::from(x),
                        Op::V(Val::W(x)) => *x,
                        _ => return Err("switch case".into()),
                    };
                    cases.push((x, e));
                }
                self.nl = false;
                Ok(Some(Inst::Switch { v, w, def, cases }))
            }
            "ret" => {
                if self.kw("void") {
                    return Ok(Some(Inst::Ret(None)));
                }
                let (_, v) = self.tval()?;
                Ok(Some(Inst::Ret(Some(v))))
            }
            "unreachable" => Ok(Some(Inst::Unreachable)),
            "phi" => {
                while is_flag(self.word_peek()) {
                    self.word();
                }
                let t = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.need(b'[')?;
                    let v = self.val(t)?;
                    self.need(b',')?;
                    self.need(b'%')?;
                    let l = self.name();
                    self.need(b']')?;
                    inc.push((v, l));
                    if self.pk() == b',' {
                        let save = self.i;
                        self.i += 1;
                        if self.pk() == b'[' {
                            continue;
                        }
                        self.i = save;
                    }
                    break;
                }
                phis.entry(cur).or_default().push((d, inc));
                Ok(None)
            }
            "extractvalue" => {
                let (_, a) = self.tval()?;
                let path = self.path()?;
                Ok(Some(Inst::Extract { a, path, d }))
            }
            "insertvalue" => {
                let (ty, a) = self.tval()?;
                self.need(b',')?;
                let (_, v) = self.tval()?;
                let path = self.path()?;
                Ok(Some(Inst::Insert { a, v, path, d, ty }))
            }
            "extractelement" => {
                let (t, a) = self.tval()?;
                self.need(b',')?;
                let (_, i) = self.tval()?;
                let (w, _) = self.lane(t);
                Ok(Some(Inst::ExtractEl { a, i, d, w }))
            }
            "insertelement" => {
                let (ty, a) = self.tval()?;
                self.need(b',')?;
                let (_, v) = self.tval()?;
                self.need(b',')?;
                let (_, i) = self.tval()?;
                Ok(Some(Inst::InsertEl { a, v, i, d, ty }))
            }
            "shufflevector" => {
                let (ty, a) = self.tval()?;
                self.need(b',')?;
                let (_, b) = self.tval()?;
                self.need(b',')?;
                let (_, m) = self.tval()?;
                let Op::V(Val::A(ms)) = m else { return Err("shuffle mask".into()) };
                let m = ms
                    .iter()
                    .map(|x| match x {
                        Val::I(v) => *v as i64,
                        _ => 0,
                    })
                    .collect();
                Ok(Some(Inst::Shuffle { a, b, m, d, ty }))
            }
            "atomicrmw" => {
                while is_flag(self.word_peek()) {
                    self.word();
                }
                let op = self.word().to_string();
                let (_, p) = self.tval()?;
                self.need(b',')?;
                let (ty, v) = self.tval()?;
                let w = self.m.ty.bits(ty);
                Ok(Some(Inst::Rmw { op, w, p, v, ty, d }))
            }
            "cmpxchg" => {
                while is_flag(self.word_peek()) {
                    self.word();
                }
                let (_, p) = self.tval()?;
                self.need(b',')?;
                let (ty, c) = self.tval()?;
                self.need(b',')?;
                let (_, n) = self.tval()?;
                let w = self.m.ty.bits(ty);
                Ok(Some(Inst::CmpXchg { p, c, n, w, ty, d }))
            }
            "fence" => Ok(Some(Inst::Nop)),
            "freeze" => {
                let (_, a) = self.tval()?;
                Ok(Some(Inst::Copy { a, d }))
            }
            "call" | "invoke" => {
                // flags, calling convention, return attributes
                loop {
                    let c = self.pk();
                    if matches!(c, b'[' | b'{' | b'<' | b'%') {
                        break;
                    }
                    let x = self.word_peek();
                    if x == "void" || x == "ptr" || x == "double" || x == "float" || x == "half" {
                        break;
                    }
                    if x.len() > 1 && x.starts_with('i') && x[1..].bytes().all(|b| b.is_ascii_digit()) {
                        break;
                    }
                    if c == b'"' {
                        self.attrs();
                        continue;
                    }
                    if x.is_empty() {
                        return Err(format!("call {}", self.ctx()));
                    }
                    self.i += x.len();
                    if x == "cc" {
                        let _ = self.num();
                    }
                    if x == "align" {
                        let _ = self.num();
                    } else if self.pk() == b'(' {
                        self.parens();
                    }
                }
                let ret = self.ty()?;
                if self.pk() == b'(' {
                    self.parens();
                }
                let f = if self.word_peek() == "asm" {
                    self.word();
                    let mut t = String::new();
                    // up to the argument list: two quoted strings
                    let mut q = 0;
                    while q < 4 {
                        let c = self.s[self.i];
                        if c == b'"' {
                            q += 1;
                        }
                        t.push(c as char);
                        self.i += 1;
                    }
                    Callee::Asm(t)
                } else if self.pk() == b'@' {
                    self.i += 1;
                    let n = self.name();
                    match self.m.fn_ids.get(n) {
                        Some(x) => Callee::Fn(*x),
                        None => return Err(format!("call to unknown @{n}")),
                    }
                } else {
                    let t = self.m.ty.intern(Ty::Ptr);
                    Callee::Ind(self.val(t)?)
                };
                self.need(b'(')?;
                let mut args = vec![];
                if !self.ch(b')') {
                    loop {
                        if self.word_peek() == "metadata" {
                            // metadata argument: skip to , or ) at depth 0
                            let mut dd = 0;
                            while self.i < self.s.len() {
                                match self.s[self.i] {
                                    b'(' => dd += 1,
                                    b')' if dd == 0 => break,
                                    b')' => dd -= 1,
                                    b',' if dd == 0 => break,
                                    _ => {}
                                }
                                self.i += 1;
                            }
                            args.push(Op::V(Val::I(0)));
                        } else {
                            let (_, v) = self.tval()?;
                            args.push(v);
                        }
                        if self.ch(b',') {
                            continue;
                        }
                        self.need(b')')?;
                        break;
                    }
                }
                let mut next = NO_EDGE;
                if w == "invoke" {
                    self.nl = true;
                    while !self.kw("to") {
                        if self.pk() == b'#' {
                            self.i += 1;
                            self.word();
                        } else if self.pk() == b'[' {
                            while self.s[self.i] != b']' {
                                self.i += 1;
                            }
                            self.i += 1;
                        } else {
                            let x = self.word();
                            if x.is_empty() {
                                return Err(format!("invoke {}", self.ctx()));
                            }
                        }
                    }
                    let l = self.label()?;
                    next = self.edge(edges, cur, l);
                }
                Ok(Some(Inst::Call { f, args, d, ret, next }))
            }
            "landingpad" => {
                // clauses follow on their own lines
                loop {
                    let eol = memchr(b'\n', self.s, self.i);
                    let st = eol + 1;
                    if st >= self.s.len() {
                        break;
                    }
                    let e2 = memchr(b'\n', self.s, st);
                    let l = String::from_utf8_lossy(&self.s[st..e2]).trim().to_string();
                    if l.starts_with("cleanup") || l.starts_with("catch ") || l.starts_with("filter ") {
                        self.i = st;
                    } else {
                        break;
                    }
                }
                Ok(Some(Inst::Bad("landingpad".into())))
            }
            "resume" => Ok(Some(Inst::Bad("resume".into()))),
            _ => Err(format!("opcode {w}")),
        }
    }
    fn lane(&self, t: T) -> (u32, bool) {
        match self.m.ty.get(t) {
            Ty::Vec(_, e) => (self.m.ty.bits(*e), true),
            _ => (self.m.ty.bits(t), false),
        }
    }
    fn path(&mut self) -> Res<Vec<u32>> {
        let mut v = vec![];
        while self.pk() == b',' {
            let save = self.i;
            self.i += 1;
            if !self.pk().is_ascii_digit() {
                self.i = save;
                break;
            }
            v.push(self.num()? as u32);
        }
        Ok(v)
    }
}

pub fn memchr(c: u8, s: &[u8], from: usize) -> usize {
    if from >= s.len() {
        return s.len();
    }
    extern "C" {
        fn memchr(s: *const u8, c: i32, n: usize) -> *const u8;
    }
    unsafe {
        let p = memchr(s.as_ptr().add(from), i32::from(c), s.len() - from);
        if p.is_null() {
            s.len()
        } else {
            p as usize - s.as_ptr() as usize
        }
    }
}

fn top_name(t: &'static [u8], i: usize) -> (&'static str, usize) {
    if t[i] == b'"' {
        let j = memchr(b'"', t, i + 1);
        (unsafe { std::str::from_utf8_unchecked(&t[i + 1..j]) }, j + 1)
    } else {
        let mut j = i;
        while j < t.len() && is_id(t[j]) {
            j += 1;
        }
        (unsafe { std::str::from_utf8_unchecked(&t[i..j]) }, j)
    }
}

//! LLVM types: interning, sizes, layout (x86-64).
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, T),
    Vec(u64, T),
    Struct(Vec<T>, bool),
    Named(String),
    Func,
    Other,
}

#[derive(Default)]
pub struct Types {
    pub tys: Vec<Ty>,
    map: HashMap<Ty, T>,
    pub named: HashMap<String, T>,
}

impl Types {
    pub fn intern(&mut self, t: Ty) -> T {
        if let Some(x) = self.map.get(&t) {
            return *x;
        }
        let id = self.tys.len() as T;
        self.tys.push(t.clone());
        self.map.insert(t, id);
        id
    }
    pub fn get(&self, t: T) -> &Ty {
        match &self.tys[t as usize] {
            Ty::Named(n) => match self.named.get(n) {
                Some(x) => self.get(*x),
                None => &self.tys[t as usize],
            },
            x => x,
        }
    }
    /// bit width of a scalar (int, float, pointer)
    pub fn bits(&self, t: T) -> u32 {
        match self.get(t) {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn align(&self, t: T) -> u64 {
        match self.get(t) {
            Ty::Int(w) => {
                let b = (u64::from(*w) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, e) => self.align(*e),
            Ty::Vec(..) => self.size(t).next_power_of_two().max(1),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|x| self.align(*x)).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size in bytes
    pub fn size(&self, t: T) -> u64 {
        match self.get(t) {
            Ty::Int(w) => {
                let b = (u64::from(*w) + 7) / 8;
                let a = b.next_power_of_two().min(16);
                b.div_ceil(a) * a
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Vec(n, e) => {
                let b = u64::from(self.bits(*e)) * n;
                b.div_ceil(8)
            }
            Ty::Struct(f, p) => {
                let mut off = 0u64;
                for x in f {
                    if !*p {
                        let a = self.align(*x);
                        off = off.div_ceil(a) * a;
                    }
                    off += self.size(*x);
                }
                if !*p {
                    let a = self.align(t);
                    off = off.div_ceil(a) * a;
                }
                off
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, t: T, n: usize) -> u64 {
        match self.get(t) {
            Ty::Struct(f, p) => {
                let mut off = 0u64;
                for (i, x) in f.iter().enumerate() {
                    if !*p {
                        let a = self.align(*x);
                        off = off.div_ceil(a) * a;
                    }
                    if i == n {
                        return off;
                    }
                    off += self.size(*x);
                }
                off
            }
            Ty::Arr(_, e) => self.size(*e) * n as u64,
            Ty::Vec(_, e) => self.size(*e) * n as u64,
            _ => 0,
        }
    }
    pub fn elem(&self, t: T, n: usize) -> T {
        match self.get(t) {
            Ty::Struct(f, _) => f[n],
            Ty::Arr(_, e) | Ty::Vec(_, e) => *e,
            _ => t,
        }
    }
    pub fn count(&self, t: T) -> Option<usize> {
        match self.get(t) {
            Ty::Struct(f, _) => Some(f.len()),
            Ty::Arr(n, _) | Ty::Vec(n, _) => Some(*n as usize),
            _ => None,
        }
    }
}

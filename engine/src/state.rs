//! Execution state: frames, copy-on-write memory, path condition, virtual files.
use crate::expr::{Set, E};
use crate::ir::{Func, Val};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
    /// where the caller wants the result
    pub ret: u32,
    /// edge the caller continues on (invoke) or NO_EDGE
    pub next: u32,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    /// bytes beyond data.len() are zero
    pub data: Vec<u8>,
    /// symbolic bytes: 0 = concrete; may be shorter than data
    pub sym: Vec<E>,
}

const CH: usize = 64;
type Chunk = Rc<Vec<Option<Rc<Obj>>>>;

#[derive(Clone, Default)]
pub struct Mem {
    chunks: Vec<Chunk>,
    pub next: u32,
}

impl Mem {
    pub fn get(&self, i: u32) -> Option<&Obj> {
        self.chunks.get(i as usize / CH)?.get(i as usize % CH)?.as_deref()
    }
    pub fn get_mut(&mut self, i: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(i as usize / CH)?;
        Rc::make_mut(c)[i as usize % CH].as_mut().map(Rc::make_mut)
    }
    pub fn add(&mut self, o: Obj) -> u32 {
        let i = self.next as usize;
        self.next += 1;
        if i / CH >= self.chunks.len() {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[i / CH])[i % CH] = Some(Rc::new(o));
        i as u32
    }
    pub fn free(&mut self, i: u32) -> bool {
        if let Some(c) = self.chunks.get_mut(i as usize / CH) {
            Rc::make_mut(c)[i as usize % CH].take().is_some()
        } else {
            false
        }
    }
}

#[derive(Clone, Copy)]
pub struct SB {
    pub b: u8,
    pub e: E,
}

#[derive(Clone)]
pub struct Fd {
    pub path: String,
    pub pos: u64,
    pub append: bool,
}

#[derive(Clone, Default)]
pub struct Fs {
    pub files: BTreeMap<String, Rc<Vec<SB>>>,
    pub dirs: BTreeMap<String, ()>,
    pub fds: Vec<Option<Fd>>,
    /// successive transfer limits per path ("w:PATH" for writes)
    pub chunks: BTreeMap<String, Vec<u64>>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    /// constraints over more than one variable
    pub cons: Rc<Vec<E>>,
    pub multi: u128,
    pub dom: Rc<Vec<Set>>,
    pub model: Vec<u8>,
    pub known: Rc<Vec<(E, u128)>>,
    pub inputs: Rc<Vec<(String, u32, u32)>>,
    pub fs: Rc<Fs>,
    pub steps: u64,
    pub forks: u32,
    pub errno: u32,
    pub kv: Rc<BTreeMap<u64, u64>>,
    /// result of the call at the current instruction (a forked sym_choice)
    pub pending: Option<u64>,
}

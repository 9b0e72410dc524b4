//! Environment: LLVM intrinsics, the C library surface std needs (allocation, memory, a virtual
//! file system, single thread), and the harness interface `sym_*`.
//!
//! Handlers must be restartable: every decision (fork) comes before the first effect on the state.
use crate::exec::*;
use crate::expr::*;
use crate::ir::{mkint, Val};
use crate::state::*;
use std::rc::Rc;

type R = Res<Val>;

fn z() -> Val {
    Val::I(0)
}
fn neg1() -> Val {
    Val::I(0xffff_ffff)
}
fn neg1_64() -> Val {
    Val::I(u64::MAX)
}

fn nop(_: &mut Eng, _: &mut State, _: &[Val], _: &'static str) -> R {
    Ok(z())
}

// ------------------------------------------------------------------ memory

fn malloc(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let n = e.conc(st, &a[0])?;
    if n > 0xf000_0000 {
        return Ok(z());
    }
    Ok(Val::I(e.alloc(st, n)?))
}
fn calloc(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let n = e.conc(st, &a[0])?;
    let m = e.conc(st, &a[1])?;
    let n = n.saturating_mul(m);
    if n > 0xf000_0000 {
        return Ok(z());
    }
    Ok(Val::I(e.alloc(st, n)?))
}
fn free(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let p = e.conc(st, &a[0])?;
    if p == 0 {
        return Ok(z());
    }
    let (i, off) = e.locate(p);
    if p >> 32 == 0 || off != 0 || !st.mem.free(i) {
        return Err(End::Bad("memory".into(), format!("invalid free of {p:#x}")));
    }
    Ok(z())
}
fn realloc(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let p = e.conc(st, &a[0])?;
    let n = e.conc(st, &a[1])?;
    if n > 0xf000_0000 {
        return Ok(z());
    }
    if p == 0 {
        return Ok(Val::I(e.alloc(st, n)?));
    }
    let (i, off) = e.locate(p);
    let Some(o) = st.mem.get(i) else {
        return Err(End::Bad("memory".into(), format!("invalid realloc of {p:#x}")));
    };
    if off != 0 || p >> 32 == 0 {
        return Err(End::Bad("memory".into(), format!("invalid realloc of {p:#x}")));
    }
    let mut c = o.clone();
    c.size = n;
    c.data.truncate(n as usize);
    c.sym.truncate(n as usize);
    st.mem.free(i);
    let j = st.mem.add(c);
    Ok(Val::I(u64::from(j) << 32))
}
fn posix_memalign(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let n = e.conc(st, &a[2])?;
    let p = e.alloc(st, n)?;
    e.store(st, &a[0], &Val::I(p), 64)?;
    Ok(z())
}
fn copy(e: &mut Eng, st: &mut State, d: u64, s: u64, n: u64) -> Res<()> {
    if n == 0 {
        return Ok(());
    }
    let (si, so) = e.resolve(st, s, n)?;
    let (di, dof) = e.resolve(st, d, n)?;
    let o = st.mem.get(si).unwrap();
    let (p, q) = (so as usize, (so + n) as usize);
    let sym = !o.sym.is_empty() && p < o.sym.len() && o.sym[p..q.min(o.sym.len())].iter().any(|x| *x != 0);
    if sym {
        let b = e.load_bytes(st, si, so, n);
        e.store_bytes(st, di, dof, &b);
        return Ok(());
    }
    let mut buf = vec![0u8; n as usize];
    let l = o.data.len();
    if p < l {
        let m = q.min(l);
        buf[..m - p].copy_from_slice(&o.data[p..m]);
    }
    put(st, di, dof, &buf);
    Ok(())
}
/// store concrete bytes
fn put(st: &mut State, i: u32, off: u64, b: &[u8]) {
    if b.is_empty() {
        return;
    }
    let o = st.mem.get_mut(i).unwrap();
    let (p, q) = (off as usize, off as usize + b.len());
    if o.data.len() < q {
        let cap = (q * 2).min(o.size as usize).max(q);
        o.data.resize(cap, 0);
    }
    o.data[p..q].copy_from_slice(b);
    if p < o.sym.len() {
        let m = q.min(o.sym.len());
        o.sym[p..m].fill(0);
    }
}
fn memcpy(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let d = e.conc(st, &a[0])?;
    let s = e.conc(st, &a[1])?;
    let n = e.conc(st, &a[2])?;
    copy(e, st, d, s, n)?;
    Ok(Val::I(d))
}
fn memset(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let d = e.conc(st, &a[0])?;
    let n = e.conc(st, &a[2])?;
    if n == 0 {
        return Ok(Val::I(d));
    }
    let (i, off) = e.resolve(st, d, n)?;
    match &a[1] {
        Val::I(x) => {
            let b = vec![*x as u8; n as usize];
            put(st, i, off, &b);
        }
        v => {
            let Val::S(x) = v else { return Err(End::Unsup("memset".into())) };
            let x = e.ex.extract(*x, 0, 8);
            let b = vec![SB { b: 0, e: x }; n as usize];
            e.store_bytes(st, i, off, &b);
        }
    }
    Ok(Val::I(d))
}
fn get(e: &mut Eng, st: &mut State, p: u64, n: u64) -> Res<Vec<SB>> {
    if n == 0 {
        return Ok(vec![]);
    }
    let (i, o) = e.resolve(st, p, n)?;
    Ok(e.load_bytes(st, i, o, n))
}
pub fn sbe(e: &mut Eng, b: SB) -> E {
    if b.e != 0 {
        b.e
    } else {
        e.ex.cst(u128::from(b.b), 8)
    }
}
fn memcmp(e: &mut Eng, st: &mut State, a: &[Val], name: &'static str) -> R {
    let p = e.conc(st, &a[0])?;
    let q = e.conc(st, &a[1])?;
    let n = e.conc(st, &a[2])?;
    let x = get(e, st, p, n)?;
    let y = get(e, st, q, n)?;
    if name == "bcmp" {
        let mut eq = e.ex.cst(1, 1);
        for i in 0..x.len() {
            let (u, v) = (sbe(e, x[i]), sbe(e, y[i]));
            let c = e.ex.eq(u, v);
            eq = e.ex.and(eq, c);
        }
        let ne = e.ex.not(eq);
        let r = e.ex.zext(ne, 32);
        return Ok(e.v_of(r));
    }
    let mut acc = e.ex.cst(0, 32);
    for i in (0..x.len()).rev() {
        let (u, v) = (sbe(e, x[i]), sbe(e, y[i]));
        let c = e.ex.eq(u, v);
        let l = e.ex.bin(K::Ult, u, v);
        let lt = e.ex.cst(0xffff_ffff, 32);
        let gt = e.ex.cst(1, 32);
        let d = e.ex.ite(l, lt, gt);
        acc = e.ex.ite(c, acc, d);
    }
    Ok(e.v_of(acc))
}
fn strlen(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let p = e.conc(st, &a[0])?;
    Ok(Val::I(cstr(e, st, p)?.len() as u64))
}
/// bytes of a C string, concretised
fn cstr(e: &mut Eng, st: &mut State, p: u64) -> Res<Vec<u8>> {
    let mut v = vec![];
    let mut i = 0;
    loop {
        let b = get(e, st, p + i, 1)?[0];
        let c = if b.e != 0 { e.concretize(st, b.e)? as u8 } else { b.b };
        if c == 0 {
            return Ok(v);
        }
        v.push(c);
        i += 1;
    }
}
fn rstr(e: &mut Eng, st: &mut State, p: &Val, n: &Val) -> Res<String> {
    let p = e.conc(st, p)?;
    let n = e.conc(st, n)?;
    let b = get(e, st, p, n)?;
    let mut v = vec![];
    for x in b {
        v.push(if x.e != 0 { e.concretize(st, x.e)? as u8 } else { x.b });
    }
    Ok(String::from_utf8_lossy(&v).to_string())
}

// ------------------------------------------------------------------ files

const ENOENT: u32 = 2;
const EBADF: u32 = 9;
const EEXIST: u32 = 17;
const EINVAL: u32 = 22;
const ENOSYS: u32 = 38;

fn err(e: &mut Eng, st: &mut State, n: u32) {
    st.errno = n;
    let p = errno_obj(e, st);
    if let Ok(p) = p {
        let _ = e.store(st, &Val::I(p), &Val::I(u64::from(n)), 32);
    }
}
fn errno_obj(e: &mut Eng, st: &mut State) -> Res<u64> {
    if let Some(p) = st.kv.get(&1) {
        return Ok(*p);
    }
    let p = e.alloc(st, 8)?;
    Rc::make_mut(&mut st.kv).insert(1, p);
    Ok(p)
}
fn errno_location(e: &mut Eng, st: &mut State, _: &[Val], _: &'static str) -> R {
    Ok(Val::I(errno_obj(e, st)?))
}
fn norm(p: &[u8]) -> String {
    let s = String::from_utf8_lossy(p).to_string();
    if !s.contains("//") && !s.contains("./") && !(s.len() > 1 && s.ends_with('/')) {
        return s;
    }
    let parts: Vec<&str> = s.split('/').filter(|x| !x.is_empty() && *x != ".").collect();
    let r = parts.join("/");
    if s.starts_with('/') {
        format!("/{r}")
    } else if r.is_empty() {
        ".".to_string()
    } else {
        r
    }
}
// ------------------------------------------------------------------ other programs
// A program is a file; what every program does is in `spawn` below and, for native replay, in the
// shell script the harness writes into that file.
fn pipe2(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let p = e.conc(st, &a[0])?;
    let fs = Rc::make_mut(&mut st.fs);
    let n = fs.fds.len();
    let path = format!("<pipe{n}>");
    fs.files.insert(path.clone(), Rc::new(vec![]));
    fs.fds.push(Some(Fd { path: path.clone(), pos: 0, append: false }));
    fs.fds.push(Some(Fd { path, pos: 0, append: true }));
    let (i, o) = e.resolve(st, p, 8)?;
    let mut b = (n as u32).to_le_bytes().to_vec();
    b.extend_from_slice(&(n as u32 + 1).to_le_bytes());
    put(st, i, o, &b);
    Ok(z())
}
fn poll(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let p = e.conc(st, &a[0])?;
    let n = e.conc(st, &a[1])?;
    for k in 0..n {
        let ev = get(e, st, p + 8 * k + 4, 2)?;
        let (i, o) = e.resolve(st, p + 8 * k + 6, 2)?;
        put(st, i, o, &[ev[0].b, ev[1].b]);
    }
    Ok(Val::I(n))
}
const DUP: u64 = 0xD0_0000;
fn spawn_dup2(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let f = e.conc(st, &a[1])?;
    let t = e.conc(st, &a[2])?;
    Rc::make_mut(&mut st.kv).insert(DUP + t, f);
    Ok(z())
}
fn text(s: &str) -> Rc<Vec<SB>> {
    Rc::new(s.bytes().map(|b| SB { b, e: 0 }).collect())
}
/// writes its arguments to p.args, its input to p.in and the file named by its first argument, if it is there, to p.seen;
/// then p.out to standard output, p.err to standard error and p.new and p.new2, if there are any, to the files named by its first and second argument
fn spawn(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let p = e.conc(st, &a[1])?;
    let prog = norm(&cstr(e, st, p)?);
    if !st.fs.files.contains_key(&prog) {
        return Ok(Val::I(ENOENT as u64));
    }
    let argv = e.conc(st, &a[4])?;
    let mut args = vec![];
    loop {
        let b = get(e, st, argv + 8 * args.len() as u64, 8)?;
        let q = u64::from_le_bytes(std::array::from_fn(|k| b[k].b));
        if q == 0 {
            break;
        }
        args.push(norm_arg(&cstr(e, st, q)?));
    }
    let fs = Rc::make_mut(&mut st.fs);
    let rest: Vec<&str> = args[1..].iter().map(String::as_str).collect();
    fs.files.insert("p.args".into(), text(&format!("{}\n", rest.join("\n"))));
    let fd = |fs: &Fs, n: u64| -> Option<Fd> { st.kv.get(&(DUP + n)).and_then(|f| fs.fds.get(*f as usize).cloned().flatten()) };
    if let Some(f) = fd(fs, 0) {
        let d = fs.files.get(&f.path).cloned().unwrap_or_default();
        fs.files.insert("p.in".into(), d);
    }
    if let Some(x) = rest.first() {
        let x = norm(x.as_bytes());
        if let Some(d) = fs.files.get(&x).cloned() {
            fs.files.insert("p.seen".into(), d);
        }
        if let Some(d) = fs.files.get("p.new").cloned() {
            fs.files.insert(x, d);
        }
    }
    if let (Some(x), Some(d)) = (rest.get(1), fs.files.get("p.new2").cloned()) {
        fs.files.insert(norm(x.as_bytes()), d);
    }
    for (n, name) in [(1, "p.out"), (2, "p.err")] {
        if let (Some(f), Some(d)) = (fd(fs, n), fs.files.get(name).cloned()) {
            let mut v = fs.files.get(&f.path).map(|x| x.to_vec()).unwrap_or_default();
            v.extend_from_slice(&d);
            fs.files.insert(f.path, Rc::new(v));
        }
    }
    let q = e.conc(st, &a[0])?;
    let (i, o) = e.resolve(st, q, 4)?;
    put(st, i, o, &[77, 0, 0, 0]);
    Ok(z())
}
fn norm_arg(p: &[u8]) -> String {
    String::from_utf8_lossy(p).to_string()
}
/// every program ends with the status in p.code
fn waitpid(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let q = e.conc(st, &a[1])?;
    let code: u8 = st.fs.files.get("p.code").map_or(0, |d| d.iter().fold(0, |n, x| n * 10 + (x.b - b'0')));
    if q != 0 {
        let (i, o) = e.resolve(st, q, 4)?;
        put(st, i, o, &[0, code, 0, 0]);
    }
    Ok(Val::I(77))
}
fn libc_version(e: &mut Eng, st: &mut State, _: &[Val], _: &'static str) -> R {
    let p = malloc(e, st, &[Val::I(8)], "malloc")?;
    let a = e.conc(st, &p)?;
    let (i, o) = e.resolve(st, a, 5)?;
    put(st, i, o, b"2.39\0");
    Ok(p)
}
fn open64(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let p = e.conc(st, &a[0])?;
    let fl = e.conc(st, &a[1])?;
    let s = norm(&cstr(e, st, p)?);
    if s.starts_with("/proc") || s.starts_with("/sys") || s.starts_with("/dev") {
        err(e, st, ENOENT);
        return Ok(neg1());
    }
    let fs = Rc::make_mut(&mut st.fs);
    let exists = fs.files.contains_key(&s);
    if exists && fl & 0o300 == 0o300 {
        err(e, st, EEXIST);
        return Ok(neg1());
    }
    if !exists {
        if fl & 0o100 == 0 {
            err(e, st, ENOENT);
            return Ok(neg1());
        }
        fs.files.insert(s.clone(), Rc::new(vec![]));
    } else if fl & 0o1000 != 0 {
        fs.files.insert(s.clone(), Rc::new(vec![]));
    }
    fs.fds.push(Some(Fd { path: s, pos: 0, append: fl & 0o2000 != 0 }));
    Ok(Val::I(fs.fds.len() as u64 - 1))
}
fn close(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let f = e.conc(st, &a[0])? as usize;
    let fs = Rc::make_mut(&mut st.fs);
    match fs.fds.get_mut(f) {
        Some(x) if x.is_some() => {
            *x = None;
            Ok(z())
        }
        _ => {
            err(e, st, EBADF);
            Ok(neg1())
        }
    }
}
/// how many bytes the next read/write on a path transfers at most: `sym_file_chunks`
fn next_chunk(st: &mut State, path: &str) -> Option<u64> {
    let fs = Rc::make_mut(&mut st.fs);
    let c = fs.chunks.get_mut(path)?;
    if c.is_empty() {
        return None;
    }
    Some(c.remove(0))
}
fn do_read(e: &mut Eng, st: &mut State, f: usize, p: u64, n: u64) -> R {
    let Some(Some(fd)) = st.fs.fds.get(f).cloned() else {
        err(e, st, EBADF);
        return Ok(neg1_64());
    };
    let data = st.fs.files.get(&fd.path).cloned().unwrap_or_default();
    let pos = (fd.pos as usize).min(data.len());
    let mut k = (n as usize).min(data.len() - pos);
    if k > 0 {
        if let Some(c) = next_chunk(st, &fd.path) {
            k = k.min(c.max(1) as usize);
        }
        let (i, o) = e.resolve(st, p, k as u64)?;
        e.store_bytes(st, i, o, &data[pos..pos + k]);
    }
    let fs = Rc::make_mut(&mut st.fs);
    if let Some(Some(fd)) = fs.fds.get_mut(f) {
        fd.pos += k as u64;
    }
    Ok(Val::I(k as u64))
}
fn read(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let f = e.conc(st, &a[0])? as usize;
    let p = e.conc(st, &a[1])?;
    let n = e.conc(st, &a[2])?;
    do_read(e, st, f, p, n)
}
fn write_bytes(e: &mut Eng, st: &mut State, f: usize, b: &[SB]) -> R {
    let Some(Some(fd)) = st.fs.fds.get(f).cloned() else {
        err(e, st, EBADF);
        return Ok(neg1_64());
    };
    let mut k = b.len();
    if k > 0 {
        let wp = format!("w:{}", fd.path);
        if let Some(c) = next_chunk(st, &wp) {
            if c == 0 {
                // injected failure: no space left
                err(e, st, 28);
                return Ok(neg1_64());
            }
            k = k.min(c as usize);
        }
    }
    let fs = Rc::make_mut(&mut st.fs);
    let file = Rc::make_mut(fs.files.entry(fd.path.clone()).or_default());
    let pos = if fd.append || fd.path.starts_with('<') { file.len() } else { fd.pos as usize };
    if file.len() < pos + k {
        file.resize(pos + k, SB { b: 0, e: 0 });
    }
    file[pos..pos + k].copy_from_slice(&b[..k]);
    if let Some(Some(x)) = fs.fds.get_mut(f) {
        x.pos = (pos + k) as u64;
    }
    Ok(Val::I(k as u64))
}
fn write(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let f = e.conc(st, &a[0])? as usize;
    let p = e.conc(st, &a[1])?;
    let n = e.conc(st, &a[2])?;
    let b = get(e, st, p, n)?;
    write_bytes(e, st, f, &b)
}
fn writev(e: &mut Eng, st: &mut State, a: &[Val], name: &'static str) -> R {
    let f = e.conc(st, &a[0])? as usize;
    let p = e.conc(st, &a[1])?;
    let n = e.conc(st, &a[2])? & 0xffff_ffff;
    if name == "readv" {
        // one segment per call is a legal short read
        for i in 0..n {
            let b = e.load(st, &Val::I(p + i * 16), 64)?;
            let l = e.load(st, &Val::I(p + i * 16 + 8), 64)?;
            let (b, l) = (e.conc(st, &b)?, e.conc(st, &l)?);
            if l > 0 {
                return do_read(e, st, f, b, l);
            }
        }
        return Ok(z());
    }
    let mut all = vec![];
    for i in 0..n {
        let b = e.load(st, &Val::I(p + i * 16), 64)?;
        let l = e.load(st, &Val::I(p + i * 16 + 8), 64)?;
        let (b, l) = (e.conc(st, &b)?, e.conc(st, &l)?);
        all.extend(get(e, st, b, l)?);
    }
    write_bytes(e, st, f, &all)
}
fn lseek64(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let f = e.conc(st, &a[0])? as usize;
    let o = e.conc(st, &a[1])? as i64;
    let wh = e.conc(st, &a[2])?;
    let Some(Some(fd)) = st.fs.fds.get(f).cloned() else {
        err(e, st, EBADF);
        return Ok(neg1_64());
    };
    let len = st.fs.files.get(&fd.path).map_or(0, |x| x.len()) as i64;
    let np = match wh & 0xff {
        0 => o,
        1 => fd.pos as i64 + o,
        _ => len + o,
    };
    if np < 0 {
        err(e, st, EINVAL);
        return Ok(neg1_64());
    }
    if let Some(Some(x)) = Rc::make_mut(&mut st.fs).fds.get_mut(f) {
        x.pos = np as u64;
    }
    Ok(Val::I(np as u64))
}
fn put_stat(e: &mut Eng, st: &mut State, p: u64, size: u64, dir: bool) -> Res<()> {
    let (i, o) = e.resolve(st, p, 144)?;
    let mut b = vec![0u8; 144];
    let mode: u32 = if dir { 0o040_755 } else { 0o100_644 };
    b[16] = 1;
    b[24..28].copy_from_slice(&mode.to_le_bytes());
    b[48..56].copy_from_slice(&size.to_le_bytes());
    b[56..64].copy_from_slice(&4096u64.to_le_bytes());
    b[64..72].copy_from_slice(&size.div_ceil(512).to_le_bytes());
    put(st, i, o, &b);
    Ok(())
}
fn fstat64(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let f = e.conc(st, &a[0])? as usize;
    let p = e.conc(st, &a[1])?;
    let Some(Some(fd)) = st.fs.fds.get(f).cloned() else {
        err(e, st, EBADF);
        return Ok(neg1());
    };
    let len = st.fs.files.get(&fd.path).map_or(0, |x| x.len()) as u64;
    put_stat(e, st, p, len, false)?;
    Ok(z())
}
fn stat64(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let p = e.conc(st, &a[0])?;
    let s = norm(&cstr(e, st, p)?);
    let q = e.conc(st, &a[1])?;
    if st.fs.dirs.contains_key(&s) || s == "/tmp" || s == "." || s == "/" {
        put_stat(e, st, q, 0, true)?;
        return Ok(z());
    }
    let Some(f) = st.fs.files.get(&s) else {
        err(e, st, ENOENT);
        return Ok(neg1());
    };
    let l = f.len() as u64;
    put_stat(e, st, q, l, false)?;
    Ok(z())
}
fn nosys(e: &mut Eng, st: &mut State, _: &[Val], _: &'static str) -> R {
    err(e, st, ENOSYS);
    Ok(neg1())
}
fn nosys64(e: &mut Eng, st: &mut State, _: &[Val], _: &'static str) -> R {
    err(e, st, ENOSYS);
    Ok(neg1_64())
}
fn mkdir(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let p = e.conc(st, &a[0])?;
    let s = norm(&cstr(e, st, p)?);
    let fs = Rc::make_mut(&mut st.fs);
    if fs.dirs.contains_key(&s) {
        err(e, st, EEXIST);
        return Ok(neg1());
    }
    fs.dirs.insert(s, ());
    Ok(z())
}
fn unlink(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let p = e.conc(st, &a[0])?;
    let s = norm(&cstr(e, st, p)?);
    let fs = Rc::make_mut(&mut st.fs);
    if fs.files.remove(&s).is_none() {
        err(e, st, ENOENT);
        return Ok(neg1());
    }
    Ok(z())
}
/// path of a name relative to a directory descriptor
fn at(e: &mut Eng, st: &mut State, d: &Val, p: &Val) -> Res<String> {
    let d = e.conc(st, d)?;
    let p = e.conc(st, p)?;
    let s = norm(&cstr(e, st, p)?);
    if s.starts_with('/') || d as u32 as i32 == -100 {
        return Ok(s);
    }
    match st.fs.fds.get(d as u32 as usize) {
        Some(Some(f)) => Ok(format!("{}/{}", f.path, s)),
        _ => Ok(s),
    }
}
fn openat64(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let s = at(e, st, &a[0], &a[1])?;
    if !st.fs.dirs.contains_key(&s) {
        err(e, st, if st.fs.files.contains_key(&s) { 20 } else { ENOENT });
        return Ok(neg1());
    }
    let fs = Rc::make_mut(&mut st.fs);
    fs.fds.push(Some(Fd { path: s, pos: 0, append: false }));
    Ok(Val::I(fs.fds.len() as u64 - 1))
}
/// DIR: descriptor, then a dirent64 whose name is the last one returned
fn fdopendir(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let f = e.conc(st, &a[0])?;
    let p = e.alloc(st, 8 + 19 + 256)?;
    let (i, o) = e.resolve(st, p, 8)?;
    put(st, i, o, &f.to_le_bytes());
    Ok(Val::I(p))
}
fn opendir(e: &mut Eng, st: &mut State, a: &[Val], n: &'static str) -> R {
    let b = [Val::I(-100i64 as u64), a[0].clone()];
    match openat64(e, st, &b, n)? {
        Val::I(x) if (x as u32 as i32) >= 0 => fdopendir(e, st, &[Val::I(x)], n),
        _ => Ok(z()),
    }
}
fn readdir64(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let p = e.conc(st, &a[0])?;
    let raw = get(e, st, p, 8 + 19 + 256)?;
    let f = u64::from_le_bytes(std::array::from_fn(|i| raw[i].b)) as usize;
    let last: Vec<u8> = raw[27..].iter().map(|x| x.b).take_while(|x| *x != 0).collect();
    let last = String::from_utf8_lossy(&last).to_string();
    let Some(Some(fd)) = st.fs.fds.get(f) else {
        return Ok(z());
    };
    let pre = format!("{}/", fd.path);
    let mut best: Option<(String, u8)> = None;
    let files = st.fs.files.keys().map(|k| (k, 8u8));
    let dirs = st.fs.dirs.keys().map(|k| (k, 4u8));
    for (k, t) in files.chain(dirs) {
        if let Some(n) = k.strip_prefix(&pre) {
            if !n.contains('/') && n > last.as_str() && best.as_ref().is_none_or(|b| n < b.0.as_str()) {
                best = Some((n.to_string(), t));
            }
        }
    }
    let Some((n, t)) = best else {
        return Ok(z());
    };
    let mut d = vec![0u8; 19 + 256];
    d[0] = 1;
    d[16..18].copy_from_slice(&275u16.to_le_bytes());
    d[18] = t;
    d[19..19 + n.len()].copy_from_slice(n.as_bytes());
    let (i, o) = e.resolve(st, p + 8, 275)?;
    put(st, i, o, &d);
    Ok(Val::I(p + 8))
}
fn closedir(e: &mut Eng, st: &mut State, a: &[Val], n: &'static str) -> R {
    let p = e.conc(st, &a[0])?;
    let raw = get(e, st, p, 8)?;
    let f = u64::from_le_bytes(std::array::from_fn(|i| raw[i].b));
    free(e, st, a, n)?;
    close(e, st, &[Val::I(f)], n)
}
fn dirfd(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let p = e.conc(st, &a[0])?;
    let raw = get(e, st, p, 8)?;
    Ok(Val::I(u64::from_le_bytes(std::array::from_fn(|i| raw[i].b))))
}
fn unlinkat(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let s = at(e, st, &a[0], &a[1])?;
    let fl = e.conc(st, &a[2])?;
    let fs = Rc::make_mut(&mut st.fs);
    let r = if fl & 0x200 != 0 { fs.dirs.remove(&s).is_some() } else { fs.files.remove(&s).is_some() };
    if r {
        return Ok(z());
    }
    let n = if fs.dirs.contains_key(&s) { 21 } else if fs.files.contains_key(&s) { 20 } else { ENOENT };
    err(e, st, n);
    Ok(neg1())
}
fn rmdir(e: &mut Eng, st: &mut State, a: &[Val], n: &'static str) -> R {
    unlinkat(e, st, &[Val::I(-100i64 as u64), a[0].clone(), Val::I(0x200)], n)
}
fn mmap64(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let n = e.conc(st, &a[1])?;
    let f = e.conc(st, &a[4])? as u32 as i32;
    let off = e.conc(st, &a[5])? as usize;
    if n == 0 {
        err(e, st, 22);
        return Ok(neg1_64());
    }
    let mut data = vec![];
    if f >= 0 {
        let Some(Some(fd)) = st.fs.fds.get(f as usize) else {
            err(e, st, EBADF);
            return Ok(neg1_64());
        };
        if let Some(x) = st.fs.files.get(&fd.path) {
            data = x[off.min(x.len())..x.len().min(off + n as usize)].to_vec();
        }
    }
    let p = e.alloc(st, n)?;
    if !data.is_empty() {
        let (i, o) = e.resolve(st, p, data.len() as u64)?;
        e.store_bytes(st, i, o, &data);
    }
    Ok(Val::I(p))
}
fn getcwd(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let p = e.conc(st, &a[0])?;
    let (i, o) = e.resolve(st, p, 6)?;
    put(st, i, o, b"/work\0");
    Ok(Val::I(p))
}

// ------------------------------------------------------------------ process

fn abort(_: &mut Eng, _: &mut State, _: &[Val], _: &'static str) -> R {
    Err(End::Bad("abort".into(), "abort()".into()))
}
fn trap(_: &mut Eng, _: &mut State, _: &[Val], _: &'static str) -> R {
    Err(End::Bad("abort".into(), "trap".into()))
}
fn exit(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let c = e.conc(st, &a[0])?;
    Err(End::Exit(c as i32))
}
fn getrandom(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let p = e.conc(st, &a[0])?;
    let n = e.conc(st, &a[1])?;
    let (i, o) = e.resolve(st, p, n)?;
    put(st, i, o, &vec![7u8; n as usize]);
    Ok(Val::I(n))
}
fn clock_gettime(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let p = e.conc(st, &a[1])?;
    let (i, o) = e.resolve(st, p, 16)?;
    put(st, i, o, &[0, 0, 0, 0x60, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    Ok(z())
}
fn syscall(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let n = e.conc(st, &a[0])?;
    match n {
        202 => Ok(z()),           // futex
        186 => Ok(Val::I(1)),     // gettid
        318 => getrandom(e, st, &a[1..], "getrandom"),
        _ => Err(End::Unsup(format!("syscall {n}"))),
    }
}
fn sysconf(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let n = e.conc(st, &a[0])?;
    Ok(Val::I(match n & 0xffff_ffff {
        30 => 4096,
        _ => 4,
    }))
}
fn one(_: &mut Eng, _: &mut State, _: &[Val], _: &'static str) -> R {
    Ok(Val::I(1))
}
fn strerror_r(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let p = e.conc(st, &a[1])?;
    let (i, o) = e.resolve(st, p, 8)?;
    put(st, i, o, b"oserror\0");
    Ok(z())
}
fn key_create(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let k = *st.kv.get(&2).unwrap_or(&1);
    Rc::make_mut(&mut st.kv).insert(2, k + 1);
    e.store(st, &a[0], &Val::I(k), 32)?;
    Ok(z())
}
fn key_get(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let k = e.conc(st, &a[0])?;
    Ok(Val::I(*st.kv.get(&(1000 + k)).unwrap_or(&0)))
}
fn key_set(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let k = e.conc(st, &a[0])?;
    let v = e.conc(st, &a[1])?;
    Rc::make_mut(&mut st.kv).insert(1000 + k, v);
    Ok(z())
}

// ------------------------------------------------------------------ harness interface

fn sym_bytes(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let p = e.conc(st, &a[0])?;
    let n = e.conc(st, &a[1])?;
    let name = rstr(e, st, &a[2], &a[3])?;
    new_vars(e, st, p, n, &name)?;
    Ok(z())
}
fn new_vars(e: &mut Eng, st: &mut State, p: u64, n: u64, name: &str) -> Res<usize> {
    let first = st.model.len();
    if first + n as usize > MAXVARS {
        return Err(End::Unsup("too many symbolic bytes".into()));
    }
    let mut b = vec![];
    for i in 0..n as usize {
        let x = e.ex.var(first + i);
        b.push(SB { b: 0, e: x });
        st.model.push(b'a');
        Rc::make_mut(&mut st.dom).push(FULL);
    }
    if p != 0 && n > 0 {
        let (i, o) = e.resolve(st, p, n)?;
        e.store_bytes(st, i, o, &b);
    }
    Rc::make_mut(&mut st.inputs).push((name.to_string(), first as u32, n as u32));
    Ok(first)
}
/// a byte below n; concretised by forking
fn sym_choice(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let n = e.conc(st, &a[0])?;
    let name = rstr(e, st, &a[1], &a[2])?;
    if n == 0 || n > 256 {
        return Err(End::Unsup("sym_choice".into()));
    }
    // restart-safe: fork explicitly here instead of through concretize
    let base = st.clone();
    for i in (1..n).rev() {
        let mut o = base.clone();
        let v = new_vars(e, &mut o, 0, 1, &name)?;
        o.model[v] = i as u8;
        let mut s = [0u64; 4];
        set_add(&mut s, i as u8);
        Rc::make_mut(&mut o.dom)[v] = s;
        o.forks += 1;
        o.pending = Some(i);
        e.queue.push(o);
        e.st.forks += 1;
    }
    let v = new_vars(e, st, 0, 1, &name)?;
    st.model[v] = 0;
    Rc::make_mut(&mut st.dom)[v] = [1, 0, 0, 0];
    Ok(z())
}
fn cond(e: &mut Eng, v: &Val) -> E {
    match v {
        Val::I(x) => e.ex.cst(u128::from(*x != 0), 1),
        Val::S(x) => {
            let w = e.ex.w(*x);
            if w == 1 {
                *x
            } else {
                let c = e.ex.eqc(*x, 0);
                e.ex.not(c)
            }
        }
        _ => panic!("condition"),
    }
}
fn sym_assume(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let c = cond(e, &a[0]);
    match e.feasible(st, c)? {
        Some(m) => {
            st.model = m;
            e.add_con(st, c);
            Ok(z())
        }
        None => Err(End::Assume),
    }
}
fn sym_assert(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let c = cond(e, &a[0]);
    e.st.asserts += 1;
    if e.ex.is_const(c) == Some(1) {
        return Ok(z());
    }
    let n = e.ex.not(c);
    if let Some(m) = e.feasible(st, n)? {
        let msg = rstr(e, st, &a[1], &a[2])?;
        let mut o = st.clone();
        o.model = m;
        e.violation(&o, "assert", &msg);
        match e.feasible(st, c)? {
            Some(m) => {
                st.model = m;
                e.add_con(st, c);
            }
            None => return Err(End::Assume),
        }
    }
    Ok(z())
}
fn sym_fail(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let msg = rstr(e, st, &a[0], &a[1])?;
    Err(End::Bad("assert".into(), msg))
}
fn sym_cover(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let msg = rstr(e, st, &a[0], &a[1])?;
    *e.st.covers.entry(msg).or_insert(0) += 1;
    Ok(z())
}
fn sym_concretize(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    Ok(Val::I(e.conc(st, &a[0])?))
}
fn sym_file_set(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let name = rstr(e, st, &a[0], &a[1])?;
    let p = e.conc(st, &a[2])?;
    let n = e.conc(st, &a[3])?;
    let b = get(e, st, p, n)?;
    Rc::make_mut(&mut st.fs).files.insert(name, Rc::new(b));
    Ok(z())
}
/// length of a virtual file (u64::MAX when absent); copies up to cap bytes
fn sym_file_get(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let name = rstr(e, st, &a[0], &a[1])?;
    let p = e.conc(st, &a[2])?;
    let cap = e.conc(st, &a[3])?;
    let Some(f) = st.fs.files.get(&name).cloned() else { return Ok(neg1_64()) };
    let k = (cap as usize).min(f.len());
    if k > 0 {
        let (i, o) = e.resolve(st, p, k as u64)?;
        e.store_bytes(st, i, o, &f[..k]);
    }
    Ok(Val::I(f.len() as u64))
}
/// transfer limits for successive read()s on a file ("w:PATH": write()s, 0 = fails)
fn sym_file_chunks(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let name = rstr(e, st, &a[0], &a[1])?;
    let p = e.conc(st, &a[2])?;
    let n = e.conc(st, &a[3])?;
    let b = get(e, st, p, n)?;
    let mut v = vec![];
    for x in b {
        v.push(if x.e != 0 { e.concretize(st, x.e)? as u64 } else { u64::from(x.b) });
    }
    Rc::make_mut(&mut st.fs).chunks.insert(name, v);
    Ok(z())
}

// ------------------------------------------------------------------ overrides of defined functions

/// first position of a byte, deciding position by position
fn mem_search(e: &mut Eng, st: &mut State, needle: E, p: u64, n: u64, rev: bool) -> Res<Option<u64>> {
    let b = get(e, st, p, n)?;
    for j in 0..n {
        let i = if rev { n - 1 - j } else { j };
        let x = sbe(e, b[i as usize]);
        let c = e.ex.eq(x, needle);
        if e.decide(st, c)? {
            return Ok(Some(i));
        }
    }
    Ok(None)
}
fn libc_memchr(e: &mut Eng, st: &mut State, a: &[Val], name: &'static str) -> R {
    let p = e.conc(st, &a[0])?;
    let n = e.conc(st, &a[2])?;
    let x = e.e_of(&a[1], 32);
    let x = e.ex.extract(x, 0, 8);
    Ok(Val::I(mem_search(e, st, x, p, n, name == "memrchr")?.map_or(0, |i| p + i)))
}
/// core::slice::memchr::memchr_aligned / memrchr: (needle, ptr, len) -> {i64 tag, i64 index}
fn core_memchr(e: &mut Eng, st: &mut State, a: &[Val], name: &'static str) -> R {
    let p = e.conc(st, &a[1])?;
    let n = e.conc(st, &a[2])?;
    let x = e.e_of(&a[0], 8);
    let r = mem_search(e, st, x, p, n, name.contains("memrchr"))?;
    Ok(Val::A(Rc::new(match r {
        Some(i) => vec![Val::I(1), Val::I(i)],
        None => vec![Val::I(0), Val::I(0)],
    })))
}

pub fn over(name: &str) -> Option<Handler> {
    if name.contains("4core5slice6memchr14memchr_aligned") || name.contains("4core5slice6memchr7memrchr") {
        return Some(core_memchr);
    }
    None
}

// ------------------------------------------------------------------ intrinsics

/// (lanes, width, is float) of the last type suffix of an intrinsic name
fn suffix(name: &str) -> (usize, u32) {
    let t = name.rsplit('.').next().unwrap_or("");
    let (n, t) = if let Some(r) = t.strip_prefix('v') {
        let p = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        (r[..p].parse().unwrap_or(1), &r[p..])
    } else {
        (0, t)
    };
    (n, t.get(1..).and_then(|x| x.parse().ok()).unwrap_or(64))
}
fn lanes(e: &mut Eng, st: &mut State, a: &[Val], name: &'static str, f: fn(&mut Eng, &mut State, &[Val], &'static str, u32) -> R) -> R {
    let (n, w) = suffix(name);
    if n == 0 {
        return f(e, st, a, name, w);
    }
    let mut out = vec![];
    for i in 0..n {
        let args: Vec<Val> = a
            .iter()
            .map(|x| match x {
                Val::A(v) => v[i].clone(),
                y => y.clone(),
            })
            .collect();
        out.push(f(e, st, &args, name, w)?);
    }
    Ok(Val::A(Rc::new(out)))
}
fn minmax(e: &mut Eng, st: &mut State, a: &[Val], name: &'static str) -> R {
    lanes(e, st, a, name, |e, _, a, name, w| {
        let (x, y) = (e.e_of(&a[0], w), e.e_of(&a[1], w));
        let c = if name.contains(".u") { e.ex.bin(K::Ult, x, y) } else { e.ex.bin(K::Slt, x, y) };
        let r = if name.contains("min") { e.ex.ite(c, x, y) } else { e.ex.ite(c, y, x) };
        Ok(e.v_of(r))
    })
}
fn abs(e: &mut Eng, st: &mut State, a: &[Val], name: &'static str) -> R {
    lanes(e, st, a, name, |e, _, a, _, w| {
        let x = e.e_of(&a[0], w);
        let zr = e.ex.cst(0, w);
        let c = e.ex.bin(K::Slt, x, zr);
        let n = e.ex.bin(K::Sub, zr, x);
        let r = e.ex.ite(c, n, x);
        Ok(e.v_of(r))
    })
}
fn sat(e: &mut Eng, st: &mut State, a: &[Val], name: &'static str) -> R {
    lanes(e, st, a, name, |e, _, a, name, w| {
        let (x, y) = (e.e_of(&a[0], w), e.e_of(&a[1], w));
        let r = if name.contains("uadd") {
            let s = e.ex.bin(K::Add, x, y);
            let c = e.ex.bin(K::Ult, s, x);
            let m = e.ex.cst(mask(w), w);
            e.ex.ite(c, m, s)
        } else if name.contains("usub") {
            let s = e.ex.bin(K::Sub, x, y);
            let c = e.ex.bin(K::Ult, x, y);
            let m = e.ex.cst(0, w);
            e.ex.ite(c, m, s)
        } else {
            let (xs, ys) = (e.ex.sext(x, w + 1), e.ex.sext(y, w + 1));
            let s = e.ex.bin(if name.contains("sadd") { K::Add } else { K::Sub }, xs, ys);
            let hi = e.ex.cst(mask(w - 1), w + 1);
            let lo = e.ex.cst(!mask(w - 1) & mask(w + 1), w + 1);
            let c = e.ex.bin(K::Slt, hi, s);
            let d = e.ex.bin(K::Slt, s, lo);
            let t = e.ex.ite(d, lo, s);
            let t = e.ex.ite(c, hi, t);
            e.ex.extract(t, 0, w)
        };
        Ok(e.v_of(r))
    })
}
fn overflow(e: &mut Eng, _: &mut State, a: &[Val], name: &'static str) -> R {
    let (_, w) = suffix(name);
    let (x, y) = (e.e_of(&a[0], w), e.e_of(&a[1], w));
    let k = if name.contains("add") {
        K::Add
    } else if name.contains("sub") {
        K::Sub
    } else {
        K::Mul
    };
    let signed = name.contains(".s");
    let r = e.ex.bin(k, x, y);
    let o = match (k, signed) {
        (K::Add, false) => e.ex.bin(K::Ult, r, x),
        (K::Sub, false) => e.ex.bin(K::Ult, x, y),
        (K::Add | K::Sub, true) => {
            let p = e.ex.bin(K::Xor, x, r);
            let q = if k == K::Add { e.ex.bin(K::Xor, y, r) } else { e.ex.bin(K::Xor, x, y) };
            let t = e.ex.bin(K::And, p, q);
            e.ex.extract(t, w - 1, 1)
        }
        _ => {
            let (v, c) = if e.ex.is_const(x).is_some() { (y, e.ex.is_const(x)) } else { (x, e.ex.is_const(y)) };
            match (c, signed) {
                (Some(0 | 1), _) => e.ex.cst(0, 1),
                (Some(c), false) => {
                    let lim = e.ex.cst(mask(w) / c, w);
                    e.ex.bin(K::Ult, lim, v)
                }
                (Some(c), true) if sx(c, w) > 0 => {
                    let c = sx(c, w);
                    let hi = mask(w - 1) as i128 / c;
                    let lo = (-(mask(w - 1) as i128) - 1) / c;
                    let hi = e.ex.cst(hi as u128 & mask(w), w);
                    let lo = e.ex.cst(lo as u128 & mask(w), w);
                    let p = e.ex.bin(K::Slt, hi, v);
                    let q = e.ex.bin(K::Slt, v, lo);
                    e.ex.or(p, q)
                }
                _ => {
                    if w > 64 {
                        return Err(End::Unsup(format!("{name} symbolic")));
                    }
                    let (p, q) = if signed { (e.ex.sext(x, 2 * w), e.ex.sext(y, 2 * w)) } else { (e.ex.zext(x, 2 * w), e.ex.zext(y, 2 * w)) };
                    let m = e.ex.bin(K::Mul, p, q);
                    let l = e.ex.extract(m, 0, w);
                    let b = if signed { e.ex.sext(l, 2 * w) } else { e.ex.zext(l, 2 * w) };
                    let c = e.ex.eq(m, b);
                    e.ex.not(c)
                }
            }
        }
    };
    let (r, o) = (e.v_of(r), e.v_of(o));
    Ok(Val::A(Rc::new(vec![r, o])))
}
fn cmp3(e: &mut Eng, _: &mut State, a: &[Val], name: &'static str) -> R {
    let (_, w) = suffix(name);
    let rn = &name[..name.rfind('.').unwrap()];
    let (_, rw) = suffix(rn);
    let (x, y) = (e.e_of(&a[0], w), e.e_of(&a[1], w));
    let lt = if name.contains("ucmp") { e.ex.bin(K::Ult, x, y) } else { e.ex.bin(K::Slt, x, y) };
    let eq = e.ex.eq(x, y);
    let (m1, p1, zz) = (e.ex.cst(mask(rw), rw), e.ex.cst(1, rw), e.ex.cst(0, rw));
    let t = e.ex.ite(eq, zz, p1);
    let r = e.ex.ite(lt, m1, t);
    Ok(e.v_of(r))
}
fn ctpop(e: &mut Eng, st: &mut State, a: &[Val], name: &'static str) -> R {
    lanes(e, st, a, name, |e, _, a, _, w| {
        if let Val::I(x) = &a[0] {
            return Ok(Val::I(u64::from(x.count_ones())));
        }
        let x = e.e_of(&a[0], w);
        let mut s = e.ex.cst(0, w);
        for i in 0..w {
            let b = e.ex.extract(x, i, 1);
            let b = e.ex.zext(b, w);
            s = e.ex.bin(K::Add, s, b);
        }
        Ok(e.v_of(s))
    })
}
fn ctz(e: &mut Eng, st: &mut State, a: &[Val], name: &'static str) -> R {
    lanes(e, st, &a[..1], name, |e, _, a, name, w| {
        let lead = name.contains("ctlz");
        if let Val::I(x) = &a[0] {
            let r = if *x == 0 {
                w
            } else if lead {
                x.leading_zeros() - (64 - w)
            } else {
                x.trailing_zeros()
            };
            return Ok(Val::I(u64::from(r)));
        }
        let x = e.e_of(&a[0], w);
        let mut acc = e.ex.cst(u128::from(w), w);
        for j in 0..w {
            let i = if lead { j } else { w - 1 - j };
            let b = e.ex.extract(x, i, 1);
            let v = e.ex.cst(u128::from(if lead { w - 1 - i } else { i }), w);
            acc = e.ex.ite(b, v, acc);
        }
        Ok(e.v_of(acc))
    })
}
fn bswap(e: &mut Eng, st: &mut State, a: &[Val], name: &'static str) -> R {
    lanes(e, st, a, name, |e, _, a, _, w| {
        let x = e.e_of(&a[0], w);
        let mut acc = e.ex.extract(x, 0, 8);
        for i in 1..w / 8 {
            let b = e.ex.extract(x, i * 8, 8);
            acc = e.ex.concat(acc, b);
        }
        Ok(e.v_of(acc))
    })
}
fn bitreverse(e: &mut Eng, st: &mut State, a: &[Val], name: &'static str) -> R {
    lanes(e, st, a, name, |e, _, a, _, w| {
        let x = e.e_of(&a[0], w);
        let mut acc = e.ex.extract(x, 0, 1);
        for i in 1..w {
            let b = e.ex.extract(x, i, 1);
            acc = e.ex.concat(acc, b);
        }
        Ok(e.v_of(acc))
    })
}
fn fsh(e: &mut Eng, st: &mut State, a: &[Val], name: &'static str) -> R {
    lanes(e, st, a, name, |e, st, a, name, w| {
        let s = (e.conc(st, &a[2])? % u64::from(w)) as u32;
        let (x, y) = (e.e_of(&a[0], w), e.e_of(&a[1], w));
        let left = name.contains("fshl");
        let r = if s == 0 {
            if left {
                x
            } else {
                y
            }
        } else {
            let s = if left { s } else { w - s };
            // high part: low w-s bits of x; low part: high s bits of y
            let h = e.ex.extract(x, 0, w - s);
            let l = e.ex.extract(y, w - s, s);
            e.ex.concat(h, l)
        };
        Ok(e.v_of(r))
    })
}
fn fsat(e: &mut Eng, st: &mut State, a: &[Val], name: &'static str) -> R {
    // llvm.fptosi.sat.i64.f64
    let rn = &name[..name.rfind('.').unwrap()];
    let (_, w) = suffix(rn);
    let (_, fw) = suffix(name);
    let x = e.conc_fp(st, &a[0], fw)?;
    let v = if fw == 64 { f64::from_bits(x as u64) } else { f64::from(f32::from_bits(x as u32)) };
    let r: u128 = if name.contains("fptosi") {
        if w == 64 {
            v as i64 as u128
        } else if w == 32 {
            v as i32 as u128
        } else if w == 16 {
            v as i16 as u128
        } else {
            v as i8 as u128
        }
    } else if w == 64 {
        u128::from(v as u64)
    } else if w == 32 {
        u128::from(v as u32)
    } else if w == 16 {
        u128::from(v as u16)
    } else {
        u128::from(v as u8)
    };
    Ok(mkint(r & mask(w), w))
}
fn fun(e: &mut Eng, st: &mut State, a: &[Val], name: &'static str) -> R {
    let (_, w) = suffix(name);
    let k = match name.split('.').nth(1).unwrap_or("") {
        "fabs" => {
            let m = mkint(mask(w - 1), w);
            return e.bin(st, K::And, w, &a[0], &m);
        }
        "copysign" => {
            let m = mkint(mask(w - 1), w);
            let s = mkint(1u128 << (w - 1), w);
            let x = e.bin(st, K::And, w, &a[0], &m)?;
            let y = e.bin(st, K::And, w, &a[1], &s)?;
            return e.bin(st, K::Or, w, &x, &y);
        }
        "sqrt" => K::FSqrt,
        "floor" => K::FFloor,
        "ceil" => K::FCeil,
        "trunc" => K::FTrunc,
        "round" => K::FRound,
        _ => return Err(End::Unsup(name.to_string())),
    };
    let x = e.e_of(&a[0], w);
    let r = e.ex.un(k, x, w);
    Ok(e.v_of(r))
}
fn libm(e: &mut Eng, st: &mut State, a: &[Val], name: &'static str) -> R {
    let mut v = vec![];
    for x in a {
        v.push(f64::from_bits(e.conc_fp(st, x, 64)? as u64));
    }
    let n = name.strip_prefix("llvm.").map_or(name, |x| x.strip_suffix(".f64").unwrap_or(x));
    let x = v[0];
    let r = match n {
        "acos" => x.acos(),
        "acosh" => x.acosh(),
        "asin" => x.asin(),
        "asinh" => x.asinh(),
        "atan" => x.atan(),
        "atanh" => x.atanh(),
        "atan2" => x.atan2(v[1]),
        "cbrt" => x.cbrt(),
        "cosh" => x.cosh(),
        "expm1" => x.exp_m1(),
        "hypot" => x.hypot(v[1]),
        "cos" => x.cos(),
        "exp" => x.exp(),
        "exp2" => x.exp2(),
        "fma" | "fmuladd" => x.mul_add(v[1], v[2]),
        "log" => x.ln(),
        "log10" => x.log10(),
        "log2" => x.log2(),
        "log1p" => x.ln_1p(),
        "maximumnum" | "maxnum" => x.max(v[1]),
        "minimumnum" | "minnum" => x.min(v[1]),
        "pow" => x.powf(v[1]),
        "sin" => x.sin(),
        "sinh" => x.sinh(),
        "tan" => x.tan(),
        "tanh" => x.tanh(),
        "fmod" => x % v[1],
        _ => return Err(End::Unsup(format!("libm {n}"))),
    };
    Ok(Val::I(r.to_bits()))
}
fn powi(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let x = f64::from_bits(e.conc_fp(st, &a[0], 64)? as u64);
    let n = e.conc(st, &a[1])? as i32;
    Ok(Val::I(x.powi(n).to_bits()))
}
fn load_relative(e: &mut Eng, st: &mut State, a: &[Val], _: &'static str) -> R {
    let b = e.conc(st, &a[0])?;
    let o = e.conc(st, &a[1])?;
    let v = e.load(st, &Val::I(b.wrapping_add(o)), 32)?;
    let v = e.conc(st, &v)? as u32 as i32;
    Ok(Val::I(b.wrapping_add(v as i64 as u64)))
}
fn id(_: &mut Eng, _: &mut State, a: &[Val], _: &'static str) -> R {
    Ok(a[0].clone())
}
fn reduce(e: &mut Eng, st: &mut State, a: &[Val], name: &'static str) -> R {
    let (_, w) = suffix(name);
    let Val::A(x) = &a[0] else { return Err(End::Unsup(name.into())) };
    let op = name.split('.').nth(3).unwrap_or("");
    let mut acc = x[0].clone();
    for y in &x[1..] {
        acc = match op {
            "add" => e.bin(st, K::Add, w, &acc, y)?,
            "or" => e.bin(st, K::Or, w, &acc, y)?,
            "and" => e.bin(st, K::And, w, &acc, y)?,
            "xor" => e.bin(st, K::Xor, w, &acc, y)?,
            "mul" => e.bin(st, K::Mul, w, &acc, y)?,
            "umax" | "umin" | "smax" | "smin" => {
                let (p, q) = (e.e_of(&acc, w), e.e_of(y, w));
                let c = e.ex.bin(if op.starts_with('u') { K::Ult } else { K::Slt }, p, q);
                let r = if op.ends_with("min") { e.ex.ite(c, p, q) } else { e.ex.ite(c, q, p) };
                e.v_of(r)
            }
            _ => return Err(End::Unsup(name.into())),
        };
    }
    Ok(acc)
}

pub fn lookup(name: &str) -> Option<Handler> {
    if let Some(n) = name.strip_prefix("llvm.") {
        let b = n.split('.').next().unwrap_or("");
        return Some(match b {
            "memcpy" | "memmove" => memcpy,
            "memset" => memset,
            "assume" | "lifetime" | "experimental" | "donothing" | "prefetch" | "sideeffect" | "dbg" => nop,
            "umax" | "umin" | "smax" | "smin" => minmax,
            "abs" => abs,
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                if n.contains("with.overflow") {
                    overflow
                } else if n.contains(".sat") {
                    sat
                } else {
                    return None;
                }
            }
            "ucmp" | "scmp" => cmp3,
            "ctpop" => ctpop,
            "ctlz" | "cttz" => ctz,
            "bswap" => bswap,
            "bitreverse" => bitreverse,
            "fshl" | "fshr" => fsh,
            "fptosi" | "fptoui" => fsat,
            "fabs" | "copysign" | "sqrt" | "floor" | "ceil" | "trunc" | "round" => fun,
            "acos" | "asin" | "atan" | "atan2" | "cosh" | "sinh" | "tan" | "tanh" | "cos" | "sin" | "exp" | "exp2" | "log" | "log10" | "log2" | "pow" | "fma"
            | "fmuladd" | "maximumnum" | "minimumnum" | "maxnum" | "minnum" => libm,
            "powi" => powi,
            "load" if n.starts_with("load.relative") => load_relative,
            "threadlocal" => id,
            "is" if n.starts_with("is.constant") => nop,
            "expect" => id,
            "vector" if n.starts_with("vector.reduce") => reduce,
            "trap" | "ubsantrap" => trap,
            "x86" if n.ends_with("pause") => nop,
            "x86" if n.contains("xgetbv") => nop,
            _ => return None,
        });
    }
    Some(match name {
        "malloc" => malloc,
        "calloc" => calloc,
        "realloc" => realloc,
        "free" => free,
        "posix_memalign" => posix_memalign,
        "memcpy" | "memmove" => memcpy,
        "memset" => memset,
        "memcmp" | "bcmp" => memcmp,
        "strlen" => strlen,
        "memchr" | "memrchr" => libc_memchr,
        "poll" => poll,
        "pipe2" => pipe2,
        "posix_spawn" | "posix_spawnp" => spawn,
        "posix_spawn_file_actions_adddup2" => spawn_dup2,
        "waitpid" => waitpid,
        "gnu_get_libc_version" => libc_version,
        "open64" | "open" => open64,
        "close" => close,
        "read" => read,
        "write" => write,
        "readv" | "writev" => writev,
        "lseek64" | "lseek" => lseek64,
        "fstat64" | "fstat" => fstat64,
        "stat64" | "stat" | "lstat64" | "lstat" => stat64,
        "statx" => nosys,
        "mkdir" => mkdir,
        "unlink" => unlink,
        "openat64" | "openat" => openat64,
        "opendir" => opendir,
        "fdopendir" => fdopendir,
        "readdir64" | "readdir" => readdir64,
        "closedir" => closedir,
        "dirfd" => dirfd,
        "unlinkat" => unlinkat,
        "rmdir" => rmdir,
        "mmap64" | "mmap" => mmap64,
        "getcwd" => getcwd,
        "readlink" | "copy_file_range" => nosys64,
        "fcntl" | "ioctl" | "isatty" => nop,
        "sendfile64" | "splice" => nosys64,
        "abort" => abort,
        "exit" | "_exit" => exit,
        "getrandom" => getrandom,
        "clock_gettime" => clock_gettime,
        "syscall" => syscall,
        "sysconf" => sysconf,
        "getenv" => nop,
        "gettid" | "pthread_self" | "getpid" => one,
        "__cxa_thread_atexit_impl" => nop,
        "__errno_location" => errno_location,
        "__xpg_strerror_r" => strerror_r,
        "sigaction" | "sigaltstack" | "signal" | "mprotect" | "munmap" | "pause" | "chmod" | "sigemptyset" | "sigaddset" | "posix_spawnattr_init" | "posix_spawnattr_destroy" | "posix_spawnattr_setflags" | "posix_spawnattr_setsigdefault" | "posix_spawn_file_actions_init" | "posix_spawn_file_actions_destroy" | "pthread_attr_destroy" | "pthread_key_delete" | "sched_yield" => nop,
        "pthread_key_create" => key_create,
        "pthread_getspecific" => key_get,
        "pthread_setspecific" => key_set,
        "getauxval" => nop,
        "sched_getaffinity" => nosys,
        "acos" | "acosh" | "asin" | "asinh" | "atan" | "atanh" | "atan2" | "cbrt" | "cosh" | "expm1" | "hypot" | "log1p" | "sinh" | "tan" | "tanh" | "fmod" | "pow"
        | "exp" | "log" | "log10" | "log2" | "sin" | "cos" | "exp2" => libm,
        "sym_bytes" => sym_bytes,
        "sym_choice" => sym_choice,
        "sym_assume" => sym_assume,
        "sym_assert" => sym_assert,
        "sym_fail" => sym_fail,
        "sym_cover" => sym_cover,
        "sym_concretize" => sym_concretize,
        "sym_file_set" => sym_file_set,
        "sym_file_get" => sym_file_get,
        "sym_file_chunks" => sym_file_chunks,
        _ => return None,
    })
}

//! Harness interface.  Under symx the `sym_*` functions are interpreted by the engine; in the
//! native replay binary they are defined in src/bin/replay.rs and read a recorded input.
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn sym_choice(n: usize, name: *const u8, nl: usize) -> usize;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, m: *const u8, ml: usize);
    fn sym_fail(m: *const u8, ml: usize);
    fn sym_cover(m: *const u8, ml: usize);
    fn sym_file_set(p: *const u8, pl: usize, d: *const u8, dl: usize);
    fn sym_file_get(p: *const u8, pl: usize, d: *mut u8, cap: usize) -> usize;
    fn sym_file_chunks(p: *const u8, pl: usize, d: *const u8, dl: usize);
}
/// thorough tier: larger bounds
pub const DEEP: bool = cfg!(feature = "thorough");
pub const fn tier(quick: usize, thorough: usize) -> usize {
    if DEEP {
        thorough
    } else {
        quick
    }
}
/// `n` arbitrary bytes
pub fn bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { sym_bytes(v.as_mut_ptr(), n, name.as_ptr(), name.len()) };
    }
    v
}
/// `N` arbitrary bytes
pub fn arr<const N: usize>(name: &str) -> [u8; N] {
    let mut v = [0u8; N];
    unsafe { sym_bytes(v.as_mut_ptr(), N, name.as_ptr(), name.len()) };
    v
}
/// between `lo` and `hi` arbitrary bytes
pub fn bytes_upto(name: &str, lo: usize, hi: usize) -> Vec<u8> {
    let n = lo + choice(name, hi - lo + 1);
    bytes(name, n)
}
/// `n` bytes, each drawn from `alpha`
pub fn from(name: &str, n: usize, alpha: &[u8]) -> Vec<u8> {
    let v = bytes(name, n);
    for b in &v {
        assume(member(*b, alpha));
    }
    v
}
pub fn from_upto(name: &str, lo: usize, hi: usize, alpha: &[u8]) -> Vec<u8> {
    let n = lo + choice(name, hi - lo + 1);
    from(name, n, alpha)
}
/// branch-free membership
#[inline]
pub fn member(b: u8, alpha: &[u8]) -> bool {
    let mut r = false;
    for a in alpha {
        r |= b == *a;
    }
    r
}
pub fn u64v(name: &str) -> u64 {
    u64::from_le_bytes(arr::<8>(name))
}
/// an arbitrary value below `n` (one path per value)
pub fn choice(name: &str, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    unsafe { sym_choice(n, name.as_ptr(), name.len()) }
}
pub fn pick<'a, T>(name: &str, v: &'a [T]) -> &'a T {
    &v[choice(name, v.len())]
}
pub fn flag(name: &str) -> bool {
    choice(name, 2) == 1
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn check(c: bool, msg: &str) {
    unsafe { sym_assert(c, msg.as_ptr(), msg.len()) }
}
pub fn fail(msg: &str) -> ! {
    unsafe { sym_fail(msg.as_ptr(), msg.len()) };
    loop {}
}
pub fn cover(name: &str) {
    unsafe { sym_cover(name.as_ptr(), name.len()) }
}
pub fn file_set(path: &str, data: &[u8]) {
    unsafe { sym_file_set(path.as_ptr(), path.len(), data.as_ptr(), data.len()) }
}
pub fn file_get(path: &str) -> Option<Vec<u8>> {
    unsafe {
        let n = sym_file_get(path.as_ptr(), path.len(), std::ptr::null_mut(), 0);
        if n == usize::MAX {
            return None;
        }
        let mut v = vec![0u8; n];
        if n > 0 {
            sym_file_get(path.as_ptr(), path.len(), v.as_mut_ptr(), n);
        }
        Some(v)
    }
}
/// limits on how much successive read()s of a file return
pub fn file_chunks(path: &str, c: &[u8]) {
    unsafe { sym_file_chunks(path.as_ptr(), path.len(), c.as_ptr(), c.len()) }
}
/// equality without an early exit
#[inline]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    r
}
/// the lines of a text, without their newlines; the text must end with a newline or be empty
pub fn lines_of(t: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut cur = vec![];
    for b in t {
        if *b == b'\n' {
            v.push(std::mem::take(&mut cur));
        } else {
            cur.push(*b);
        }
    }
    check(cur.is_empty(), "output does not end with a newline");
    v
}
/// as lines_of, with the last newline optional
pub fn lines_lax(t: &[u8]) -> Vec<Vec<u8>> {
    let mut t = t.to_vec();
    if let Some(b) = t.last() {
        if *b != b'\n' {
            t.push(b'\n');
        }
    }
    lines_of(&t)
}
/// the columns of a line (without newline)
pub fn cols_of(l: &[u8], delim: u8) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut cur = vec![];
    for b in l {
        if *b == delim {
            v.push(std::mem::take(&mut cur));
        } else {
            cur.push(*b);
        }
    }
    v.push(cur);
    v
}
/// how many of `v` equal `x`
pub fn count(v: &[Vec<u8>], x: &[u8]) -> usize {
    let mut n = 0;
    for y in v {
        n += usize::from(same(x, y));
    }
    n
}
/// same lines with the same multiplicities
pub fn same_multiset(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
    let mut r = a.len() == b.len();
    for x in a {
        r &= count(a, x) == count(b, x);
    }
    r
}
/// a text line of up to `hi` bytes without newline (and without the column delimiter, unless `tab`)
pub fn word(name: &str, lo: usize, hi: usize, al: &[u8]) -> Vec<u8> {
    let v = if al.is_empty() { bytes_upto(name, lo, hi) } else { from_upto(name, lo, hi, al) };
    for b in &v {
        assume(*b != b'\n');
        assume(*b != b'\t');
    }
    v
}
pub fn catv(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}
/// join lines, each with a newline; the last one only if `nl`
/// arbitrary: does the text end with a newline? (a last line that is empty needs one)
pub fn ends(lines: &[Vec<u8>]) -> bool {
    match lines.last() {
        Some(l) if !l.is_empty() => flag("nl"),
        _ => true,
    }
}
pub fn text_of(lines: &[Vec<u8>], nl: bool) -> Vec<u8> {
    let mut v = vec![];
    for (i, l) in lines.iter().enumerate() {
        v.extend_from_slice(l);
        if nl || i + 1 < lines.len() {
            v.push(b'\n');
        }
    }
    v
}
/// unwrap without formatting machinery
pub fn ok<T, X>(r: Result<T, X>, msg: &str) -> T {
    match r {
        Ok(v) => v,
        Err(_) => fail(msg),
    }
}
#[macro_export]
macro_rules! harness {
    ($($name:ident $body:block)*) => {
        $( #[no_mangle] pub extern "C" fn $name() { $body; $crate::api::cover("end"); } )*
        pub fn entries() -> Vec<(&'static str, extern "C" fn())> {
            vec![$((stringify!($name), $name as extern "C" fn())),*]
        }
    };
}
/// run a command of the command line tool, as its main function does; returns what it wrote to standard output
#[cfg(feature = "cli")]
pub fn tool(args: &[&str]) -> (bool, Vec<u8>) {
    use std::io::Write;
    let mut v = vec!["cdx".to_string()];
    for a in args {
        v.push(a.to_string());
    }
    file_set("<stdout>", b"");
    let mut s = crate::globals::Settings::new();
    let r = crate::inner_main(v, &mut s);
    let _ = std::io::stdout().flush();
    (r.is_ok(), file_get("<stdout>").unwrap_or_default())
}

static mut SCREEN: Option<(u16, u16)> = None;
/// the size of the terminal, if there is one
pub fn screen(size: Option<(u16, u16)>) {
    unsafe { SCREEN = size }
}
extern "C" {
    fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
}
/// the only requests anything here makes: the size of the terminal, and whether to block
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: i32, request: u64, size: *mut u16) -> i32 {
    match SCREEN {
        Some((rows, cols)) if request == 0x5413 => {
            *size = rows;
            *size.add(1) = cols;
            0
        }
        _ if request == 0x5421 => fcntl(fd, 4, if *size == 0 { 0 } else { 0o4000 }),
        _ => -1,
    }
}

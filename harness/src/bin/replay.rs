//! Native replay of a recorded input: `replay ENTRY INPUT` in a scratch directory.
//! exit 0: held, 42: assertion failed, 43: assumption not met, 101: panic
use std::io::Write;
use std::sync::Mutex;

static IN: Mutex<Vec<(String, Vec<u8>)>> = Mutex::new(vec![]);
static CH: Mutex<Vec<(String, Vec<u8>)>> = Mutex::new(vec![]);

unsafe fn s(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).to_string()
}
fn next(name: &str, n: usize) -> Vec<u8> {
    let mut g = IN.lock().unwrap();
    if g.is_empty() {
        eprintln!("REPLAY: input exhausted at {name}");
        std::process::exit(44);
    }
    let (nm, v) = g.remove(0);
    if nm != name || v.len() != n {
        eprintln!("REPLAY: expected {nm}[{}], harness asked for {name}[{n}]", v.len());
        std::process::exit(44);
    }
    v
}
#[no_mangle]
extern "C" fn sym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize) {
    let v = next(&unsafe { s(name, nl) }, n);
    unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), p, n) };
}
#[no_mangle]
extern "C" fn sym_choice(_n: usize, name: *const u8, nl: usize) -> usize {
    next(&unsafe { s(name, nl) }, 1)[0] as usize
}
#[no_mangle]
extern "C" fn sym_assume(c: bool) {
    if !c {
        eprintln!("REPLAY: assumption not met");
        std::process::exit(43);
    }
}
#[no_mangle]
extern "C" fn sym_assert(c: bool, m: *const u8, ml: usize) {
    if !c {
        eprintln!("REPLAY-FAILED: {}", unsafe { s(m, ml) });
        std::process::exit(42);
    }
}
#[no_mangle]
extern "C" fn sym_fail(m: *const u8, ml: usize) {
    eprintln!("REPLAY-FAILED: {}", unsafe { s(m, ml) });
    std::process::exit(42);
}
#[no_mangle]
extern "C" fn sym_cover(_m: *const u8, _ml: usize) {}
fn path(p: &str) -> String {
    match p {
        "<stdout>" => "stdout.cap".into(),
        "<stderr>" => "stderr.cap".into(),
        "<stdin>" => "stdin.cap".into(),
        p => p.to_string(),
    }
}
#[no_mangle]
extern "C" fn sym_file_set(p: *const u8, pl: usize, d: *const u8, dl: usize) {
    let n = unsafe { s(p, pl) };
    let v = unsafe { std::slice::from_raw_parts(d, dl) };
    let f = path(&n);
    if let Some((d, _)) = f.rsplit_once('/') {
        std::fs::create_dir_all(d).unwrap();
    }
    std::fs::write(&f, v).unwrap();
    if n == "<stdin>" {
        unsafe {
            let c = std::ffi::CString::new(f.clone()).unwrap();
            let fd = libc::open(c.as_ptr(), 0);
            libc::dup2(fd, 0);
            libc::close(fd);
        }
    }
    if n == "<stdout>" {
        let _ = std::io::stdout().flush();
        unsafe {
            let c = std::ffi::CString::new(f).unwrap();
            let fd = libc::open(c.as_ptr(), libc::O_CREAT | libc::O_TRUNC | libc::O_RDWR | libc::O_APPEND, 0o600);
            libc::dup2(fd, 1);
            libc::close(fd);
        }
    }
}
#[no_mangle]
extern "C" fn sym_file_get(p: *const u8, pl: usize, d: *mut u8, cap: usize) -> usize {
    let n = unsafe { s(p, pl) };
    if n == "<stdout>" {
        let _ = std::io::stdout().flush();
    }
    let Ok(v) = std::fs::read(path(&n)) else { return usize::MAX };
    let k = v.len().min(cap);
    unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), d, k) };
    v.len()
}
#[no_mangle]
extern "C" fn sym_file_chunks(p: *const u8, pl: usize, d: *const u8, dl: usize) {
    let n = unsafe { s(p, pl) };
    CH.lock().unwrap().push((path(&n), unsafe { std::slice::from_raw_parts(d, dl) }.to_vec()));
}
/// interposed read(): honours the transfer limits recorded by sym_file_chunks
#[no_mangle]
unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    let mut n = n;
    if let Ok(mut g) = CH.try_lock() {
        if !g.is_empty() {
            let l = format!("/proc/self/fd/{fd}\0");
            let mut b = [0u8; 4096];
            let k = libc::readlink(l.as_ptr().cast(), b.as_mut_ptr().cast(), 4096);
            if k > 0 {
                let t = String::from_utf8_lossy(&b[..k as usize]).to_string();
                for (f, c) in g.iter_mut() {
                    if t.ends_with(&format!("/{f}")) && !c.is_empty() {
                        n = n.min(usize::from(c.remove(0)).max(1));
                        break;
                    }
                }
            }
        }
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as isize
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).unwrap();
    // one input per line: name, tab, decimal bytes separated by blanks
    let mut v = vec![];
    for l in text.lines().filter(|l| !l.starts_with('#') && !l.is_empty()) {
        let (n, b) = l.split_once('\t').unwrap();
        v.push((n.to_string(), b.split_whitespace().map(|x| x.parse().unwrap()).collect()));
    }
    *IN.lock().unwrap() = v;
    for (n, f) in vh::entries() {
        if n == a[1] {
            f();
            eprintln!("REPLAY: held");
            std::process::exit(0);
        }
    }
    eprintln!("REPLAY: no entry {}", a[1]);
    std::process::exit(45);
}

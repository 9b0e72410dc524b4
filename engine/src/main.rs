//! symx: symbolic execution of rustc's LLVM IR.
//! usage: symx FILE.ll ENTRY --out DIR [--time S] [--steps N] [--workers N] [--stop N] [--fp-conc] [--trace] [--dump DIR]
#![allow(clippy::all)]
mod exec;
mod expr;
mod ir;
mod libc;
mod state;
mod ty;
mod z3;
use exec::*;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn inputs(v: &[(String, Vec<u8>)]) -> String {
    let p: Vec<String> = v.iter().map(|(n, b)| format!("[{},{:?}]", js(n), b)).collect();
    format!("[{}]", p.join(","))
}

fn report(e: &mut Eng, path: &str, left: usize, wall: f64) {
    let s = &e.st;
    let mut o = String::from("{");
    let _ = write!(
        o,
        "\"paths\":{},\"done\":{},\"assumed_away\":{},\"exits\":{},\"forks\":{},\"steps\":{},\"domain_decided\":{},\"cache_hits\":{},\"asserts\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"left\":{},\"wall_s\":{:.3},\"terms\":{}",
        s.paths, s.done, s.assumed_away, s.exits, s.forks, s.steps, s.domain_decided, s.cache_hits, s.asserts, e.z.queries, e.z.sat, e.z.unsat, e.z.time, e.z.max_time, left, wall, e.ex.m.len()
    );
    let m: Vec<String> = s.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let _ = write!(o, ",\"covers\":{{{}}}", m.join(","));
    let m: Vec<String> = s.inconclusive.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let _ = write!(o, ",\"inconclusive\":{{{}}}", m.join(","));
    let m: Vec<String> = s.viol_counts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let _ = write!(o, ",\"viol_counts\":{{{}}}", m.join(","));
    let m: Vec<String> = s
        .violations
        .iter()
        .map(|v| {
            let st: Vec<String> = v.stack.iter().take(12).map(|x| js(x)).collect();
            format!("{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"inputs\":{}}}", js(&v.kind), js(&v.msg), st.join(","), inputs(&v.inputs))
        })
        .collect();
    let _ = write!(o, ",\"violations\":[{}]", m.join(","));
    let m: Vec<String> = s.samples.iter().map(|v| inputs(v)).collect();
    let _ = write!(o, ",\"samples\":[{}]", m.join(","));
    let mut fs: Vec<String> = vec![];
    for f in &e.m.fns {
        if f.func.is_some() {
            let d = demangle(f.name);
            if d.contains("cdx::") || d.starts_with("cdx") {
                fs.push(js(&d));
            }
        }
    }
    fs.sort();
    fs.dedup();
    let _ = write!(o, ",\"funcs\":[{}]}}", fs.join(","));
    std::fs::write(path, o).unwrap();
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    h.join().unwrap();
}

fn real_main() {
    let mut pos = vec![];
    let (mut time, mut steps, mut workers, mut stop, mut out) = (600.0, 40_000_000u64, 8usize, 24u64, String::from("."));
    let (mut fpc, mut trace, mut dump) = (false, false, None);
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut nx = || it.next().expect("value");
        match a.as_str() {
            "--time" => time = nx().parse().unwrap(),
            "--steps" => steps = nx().parse().unwrap(),
            "--workers" => workers = nx().parse().unwrap(),
            "--stop" => stop = nx().parse().unwrap(),
            "--out" => out = nx(),
            "--fp-conc" => fpc = true,
            "--trace" => trace = true,
            "--dump" => dump = Some(nx()),
            "--version" => {
                println!("symx 0.1 / {}", z3::version());
                return;
            }
            _ => pos.push(a),
        }
    }
    let t0 = std::time::Instant::now();
    let m = match ir::Module::load(&pos[0]) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("symx: cannot read the IR: {e}");
            std::process::exit(3);
        }
    };
    if trace {
        eprintln!("loaded in {:.2}s: {} functions, {} globals", t0.elapsed().as_secs_f64(), m.fns.len(), m.gobjs.len());
    }
    let (mut e, base) = Eng::new(m, Opts { max_steps: steps, time, fp_concretize: fpc, max_viol: stop, trace, vtrace: std::env::var("SYMX_V").is_ok() });
    e.z.dump = dump;
    std::fs::create_dir_all(&out).unwrap();
    // entries may be separated by commas; each gets its own report
    for entry in pos[1].split(',') {
        let Some(id) = e.m.fn_ids.get(entry).copied() else {
            eprintln!("symx: no entry {entry}");
            std::process::exit(3);
        };
        e.st = Stats::default();
        e.queue.clear();
        let t1 = std::time::Instant::now();
        let mut st = base.clone();
        if let Err(x) = e.push_fn(&mut st, id, &[], ir::NO_EDGE, ir::NO_EDGE) {
            eprintln!("symx: {x:?}");
            std::process::exit(3);
        }
        run_entry(&mut e, st, entry, &out, workers, stop, t1, time);
    }
}

fn run_entry(e: &mut Eng, st: state::State, entry: &str, out: &str, workers: usize, stop: u64, t1: std::time::Instant, time: f64) {
    e.t0 = t1;
    let (q0, s0, u0, ti0) = (e.z.queries, e.z.sat, e.z.unsat, e.z.time);
    let _ = (q0, s0, u0, ti0);
    e.z.queries = 0;
    e.z.sat = 0;
    e.z.unsat = 0;
    e.z.time = 0.0;
    e.z.max_time = 0.0;
    let mut q: std::collections::VecDeque<state::State> = std::collections::VecDeque::new();
    q.push_back(st);
    let want = if workers > 1 { workers * 48 } else { usize::MAX };
    let wall = |t: &std::time::Instant| t.elapsed().as_secs_f64();
    let mut n = 0;
    while let Some(s) = if workers > 1 { q.pop_front() } else { q.pop_back() } {
        e.run_path(s);
        q.extend(e.queue.drain(..));
        n += 1;
        if workers > 1 && (q.len() >= want || (n > 4000 && q.len() > workers * 4)) {
            break;
        }
        if e.st.violations.len() as u64 >= stop || wall(&t1) > time {
            break;
        }
    }
    let left = q.len();
    if workers <= 1 || left == 0 || e.st.violations.len() as u64 >= stop || wall(&t1) > time {
        report(e, &format!("{out}/{entry}.0.json"), left, wall(&t1));
        if e.o.trace {
            trace_out(e);
        }
        return;
    }
    report(e, &format!("{out}/{entry}.0.json"), 0, wall(&t1));
    let sh = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
    let next = unsafe { &*(sh as *const AtomicU64) };
    let viol = unsafe { &*(sh.add(64) as *const AtomicU64) };
    let mut pids = vec![];
    // interleave so that neighbours (similar subtrees) go to different workers
    let items: Vec<state::State> = q.into_iter().collect();
    for w in 0..workers {
        let pid = unsafe { fork() };
        if pid == 0 {
            e.st = Stats::default();
            e.z.queries = 0;
            e.z.sat = 0;
            e.z.unsat = 0;
            e.z.time = 0.0;
            e.z.max_time = 0.0;
            let mut left = 0;
            loop {
                let i = next.fetch_add(1, SeqCst) as usize;
                if i >= items.len() {
                    break;
                }
                let mut stack = vec![items[i].clone()];
                while let Some(s) = stack.pop() {
                    let nv = e.st.violations.len();
                    e.run_path(s);
                    let d = e.st.violations.len() - nv;
                    if d > 0 {
                        viol.fetch_add(d as u64, SeqCst);
                    }
                    stack.append(&mut e.queue);
                    if viol.load(SeqCst) >= stop || wall(&t1) > time {
                        left += stack.len();
                        break;
                    }
                }
                if viol.load(SeqCst) >= stop || wall(&t1) > time {
                    let done = next.swap(u64::MAX / 2, SeqCst) as usize;
                    if done < items.len() {
                        left += items.len() - done;
                    }
                    break;
                }
            }
            report(e, &format!("{out}/{entry}.{}.json", w + 1), left, wall(&t1));
            if e.o.trace {
                trace_out(e);
            }
            unsafe { _exit(0) };
        }
        pids.push(pid);
    }
    let mut bad = false;
    for p in pids {
        let mut s = 0i32;
        unsafe { waitpid(p, &mut s, 0) };
        if s != 0 {
            bad = true;
        }
    }
    if bad {
        eprintln!("symx: a worker died");
        std::process::exit(3);
    }
}

fn trace_out(e: &Eng) {
    let mut v: Vec<_> = e.fork_at.iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(*x.1));
    let mut s = String::new();
    for ((f, pc), n) in v.iter().take(8) {
        let _ = writeln!(s, "  forks {n} at {}:{pc}", demangle(e.m.fns[*f as usize].name));
    }
    let mut p: Vec<(usize, u64)> = e.prof.iter().copied().enumerate().filter(|x| x.1 > 0).collect();
    p.sort_by_key(|x| std::cmp::Reverse(x.1));
    for (f, n) in p.iter().take(8) {
        let _ = writeln!(s, "  calls {n} of {}", demangle(e.m.fns[*f].name));
    }
    eprintln!("{s}");
}

//! C13: numbers are read as they are written
use crate::api::*;
use cdx::num::*;
use cdx::prelude::*;

const K2: &[u8] = b"KMGTPEZY";
const K10: &[u8] = b"kmgtpezy";
/// the multiplier of a suffix letter, saturated to 64 bits
fn mult(b: u8) -> Option<u64> {
    for i in 0..8u32 {
        if b == K2[i as usize] {
            return Some(if i < 6 { 1u64 << (10 * (i + 1)) } else { u64::MAX });
        }
        if b == K10[i as usize] {
            return Some(if i < 6 { 1000u64.pow(i + 1) } else { u64::MAX });
        }
    }
    None
}
/// (value, how many bytes belong to the number) of an unsigned integer
fn unsigned(t: &[u8], max: u64) -> (u64, usize) {
    let mut p = usize::from(!t.is_empty() && t[0] == b'+');
    let start = p;
    let mut v: u128 = 0;
    while p < t.len() && t[p].is_ascii_digit() {
        v = v * 10 + u128::from(t[p] - b'0');
        p += 1;
    }
    if p == start {
        return (0, 0);
    }
    if p < t.len() {
        if let Some(m) = mult(t[p]) {
            v = sat(v, max) * u128::from(m);
            p += 1;
        }
    }
    (sat(v, max) as u64, p)
}
fn sat(v: u128, max: u64) -> u128 {
    if v > u128::from(max) { u128::from(max) } else { v }
}
fn signed(t: &[u8]) -> (i64, usize) {
    if !t.is_empty() && t[0] == b'-' {
        if t.len() > 1 && t[1] == b'+' {
            return (0, 0);
        }
        let (v, n) = unsigned(&t[1..], i64::MAX as u64);
        (-(v as i64), if n == 0 { 0 } else { n + 1 })
    } else {
        let (v, n) = unsigned(t, i64::MAX as u64);
        (v as i64, n)
    }
}
fn junk() -> (Junk, usize, bool) {
    let j = choice("junk", 3);
    let min = flag("min");
    (Junk { junk_type: [JunkType::Any, JunkType::Trailing, JunkType::None][j], junk_val: if min { JunkVal::Min } else { JunkVal::Max } }, j, min)
}
fn is_junk(j: usize, t: &[u8], used: usize) -> bool {
    match j {
        0 => false,
        1 => used == 0,
        _ => used == 0 || used < t.len(),
    }
}

harness! {
c13_usize {
    let t = from_upto("t", 0, tier(4, 5), b"0129+-kKTx");
    let (v, n) = unsigned(&t, u64::MAX);
    let (got, rest) = t[..].to_usize();
    check(got as u64 == v, "unsigned integer is misread");
    check(rest.len() == t.len() - n, "unsigned integer ends at the wrong place");
    check(t[..].to_usize_lossy() as u64 == v, "unsigned integer is misread (lossy)");
    let w = t[..].to_usize_whole(b"", "");
    check(w.is_ok() == (n == t.len()), "text after an integer is accepted, or an integer refused");
    let (j, k, min) = junk();
    let g = t[..].to_usize_junk(&j);
    check(g as u64 == if is_junk(k, &t, n) { if min { 0 } else { u64::MAX } } else { v }, "junk value of an unsigned integer is wrong");
    cover(if n == 0 { "junk" } else { "number" });
}
c13_isize {
    let t = from_upto("t", 0, tier(4, 5), b"0129+-kKTx");
    let (v, n) = signed(&t);
    let (got, rest) = t[..].to_isize();
    check(got as i64 == v, "signed integer is misread");
    check(rest.len() == t.len() - n, "signed integer ends at the wrong place");
    check(t[..].to_isize_whole(b"", "").is_ok() == (n == t.len()), "text after an integer is accepted, or an integer refused");
    let (j, k, min) = junk();
    let g = t[..].to_isize_junk(&j);
    check(g as i64 == if is_junk(k, &t, n) { if min { i64::MIN } else { i64::MAX } } else { v }, "junk value of a signed integer is wrong");
    cover(if n == 0 { "junk" } else { "number" });
}
c13_letter {
    // every suffix letter, and any other byte after a digit
    let t = catv(&[&from("d", 1, b"0123456789"), &bytes("l", 1)]);
    let (v, n) = unsigned(&t, u64::MAX);
    let (got, rest) = t[..].to_usize();
    check(got as u64 == v && rest.len() == t.len() - n, "unsigned integer with suffix is misread");
    let (v, n) = signed(&t);
    let (got, rest) = t[..].to_isize();
    check(got as i64 == v && rest.len() == t.len() - n, "signed integer with suffix is misread");
    let (v, n) = signed(&catv(&[b"-", &t]));
    let u = catv(&[b"-", &t]);
    let (got, rest) = u[..].to_isize();
    check(got as i64 == v && rest.len() == u.len() - n, "negative integer with suffix is misread");
    cover(if n == 3 { "suffix" } else { "none" });
}
c13_big {
    // around the largest values, nothing overflows
    let base: &[u8] = *pick("base", &[&b"1844674407370955161"[..], b"922337203685477580", b"9999999999999999999", b"18014398509481983", b"17179869183", b"18446744073709551", b"9223372036854775"]);
    let tail = from_upto("tail", 0, tier(1, 2), b"056789");
    let suf: &[u8] = *pick("suffix", &[&b""[..], b"K", b"k", b"G", b"E", b"Y"]);
    let t = catv(&[base, &tail, suf]);
    let (v, n) = unsigned(&t, u64::MAX);
    let (got, rest) = t[..].to_usize();
    check(got as u64 == v && rest.len() == t.len() - n, "large unsigned integer is misread");
    let t = if flag("neg") { catv(&[b"-", &t]) } else { t };
    let (v, n) = signed(&t);
    let (got, rest) = t[..].to_isize();
    check(got as i64 == v && rest.len() == t.len() - n, "large signed integer is misread");
}
c13_float {
    // sign, digits, fraction, exponent, suffix
    let neg = choice("sign", 3);
    let int = from_upto("i", 1, 2, b"0159");
    let frac = if flag("dot") { Some(from_upto("f", 0, 1, b"05")) } else { None };
    let (exp, e): (&str, i32) = *pick("exp", &[("", 0), ("e2", 2), ("E+1", 1), ("e-1", -1), ("e3", 3), ("e10", 10)]);
    let (suf, m): (&str, f64) = *pick("suf", &[("", 1.0), ("k", 1e3), ("K", 1024.0), ("G", 1073741824.0), ("m", 1e6)]);
    let tail: &str = if flag("tail") { "x" } else { "" };
    let mut t = [&b""[..], b"+", b"-"][neg].to_vec();
    t.extend_from_slice(&int);
    let mut v = 0i64;
    for b in &int { v = v * 10 + i64::from(*b - b'0'); }
    v *= 10;
    if let Some(f) = &frac {
        t.push(b'.');
        t.extend_from_slice(f);
        if !f.is_empty() { v += i64::from(f[0] - b'0'); }
    }
    t.extend_from_slice(exp.as_bytes());
    t.extend_from_slice(suf.as_bytes());
    t.extend_from_slice(tail.as_bytes());
    let mut want = v as f64 / 10.0;
    for _ in 0..e { want *= 10.0; }
    for _ in e..0 { want *= 0.1; }
    want *= m;
    if neg == 2 { want = -want; }
    let (got, rest) = t[..].to_f64();
    let d = got - want;
    check(d <= want.abs() * 1e-14 && -d <= want.abs() * 1e-14, "floating point number is misread");
    check(rest.len() == tail.len(), "floating point number ends at the wrong place");
}
c13_print {
    // power formats: what is printed reads back as about the same number
    let mant = 1 + choice("a", 9);
    let second = choice("b", 10);
    let third = *pick("c", &[0usize, 4, 6, 9]);
    let scale = if flag("huge") { 13 + choice("more", 15) } else { choice("scale", 12) };
    let neg = flag("neg");
    let mut v = (mant * 100 + second * 10 + third) as f64;
    for _ in 0..scale { v *= 10.0; }
    if neg { v = -v; }
    let p2 = flag("p2");
    let f = ok(NumFormat::new(if p2 { "Power2" } else { "p10" }), "format");
    let mut o = Vec::new();
    ok(f.print(v, &mut o), "print");
    let (got, rest) = o[..].to_f64();
    check(rest.is_empty(), "printed number does not read back");
    check(o.len() <= 7 || scale > 23, "short format is not short");
    let d = got - v;
    check(d.abs() <= v.abs() * 0.1, "printed number is far from the value");
}
c13_short {
    // plain, float and short formats read back as the same number; short is the shorter of the two
    let m = *pick("m", &[0i64, 1, 5, 12, 125, 1000, 4096, 99999]);
    let e = choice("e", tier(14, 20)) as i32 - tier(7, 10) as i32;
    let mut v = m as f64;
    for _ in 0..e { v *= 10.0; }
    for _ in e..0 { v /= 10.0; }
    if flag("neg") { v = -v; }
    let mut o: Vec<Vec<u8>> = vec![];
    for f in ["plain", "Float", "short"] {
        let mut w = Vec::new();
        ok(ok(NumFormat::new(f), "format").print(v, &mut w), "print");
        let (got, rest) = w[..].to_f64();
        let d = got - v;
        check(rest.is_empty() && d.abs() <= v.abs() * 1e-14, "printed number does not read back");
        o.push(w);
    }
    check(o[2].len() == o[0].len().min(o[1].len()), "short is not the shorter of plain and float");
    check(same(&o[2], &o[0]) || same(&o[2], &o[1]), "short is neither plain nor float");
    let mut w = Vec::new();
    ok(NumFormat::default().print(v, &mut w), "print");
    check(same(&w, &o[2]), "the default format is not short");
}
c13_letterf {
    // every suffix letter and any other byte after a digit, as a floating point number, in bytes and in text
    let t = catv(&[&from("d", 1, b"0123456789"), &bytes("l", 1)]);
    assume((t[1] != b'.') & (t[1] != b'e') & (t[1] < 128) & !((t[1] >= b'0') & (t[1] <= b'9')));
    let d = f64::from(t[0] - b'0');
    let (mut want, mut n) = (d, 1);
    for (base, l) in [(1024.0, b"KMGTPEZY"), (1000.0, b"kmgtpezy")] {
        let mut m = 1.0;
        for c in l {
            m *= base;
            if t[1] == *c {
                want = d * m;
                n = 2;
            }
        }
    }
    // E is an exponent only if digits follow
    let (got, rest) = t[..].to_f64();
    let e = got - want;
    check(e <= want * 1e-14 && -e <= want * 1e-14, "floating point number with suffix is misread");
    check(rest.len() == 2 - n, "floating point number with suffix ends at the wrong place");
    let Ok(s) = std::str::from_utf8(&t) else { fail("ascii") };
    let (g, r) = s.to_f64();
    check(g.to_bits() == got.to_bits() && r.len() == rest.len(), "text and bytes are read differently");
    check(s.to_f64_lossy().to_bits() == got.to_bits() && t[..].to_f64_lossy().to_bits() == got.to_bits(), "lossy reading differs");
    check(s.to_f64_whole(b"", "").is_ok() == (n == 2), "text after a number is accepted, or a number refused");
    cover(if n == 2 { "suffix" } else { "none" });
}
c13_str {
    // text is read like bytes
    let t = from_upto("t", 0, tier(3, 4), b"09+-.kKx");
    let Ok(s) = std::str::from_utf8(&t) else { fail("ascii") };
    let (j, _, _) = junk();
    match choice("kind", 3) {
        0 => {
            check(s.to_usize().0 == t[..].to_usize().0 && s.to_usize().1.len() == t[..].to_usize().1.len(), "unsigned text and bytes differ");
            check(s.to_usize_lossy() == t[..].to_usize_lossy() && s.to_usize_junk(&j) == t[..].to_usize_junk(&j), "unsigned text and bytes differ");
            check(s.to_usize_whole(b"", "").is_ok() == t[..].to_usize_whole(b"", "").is_ok(), "unsigned text and bytes differ");
        }
        1 => {
            check(s.to_isize().0 == t[..].to_isize().0 && s.to_isize().1.len() == t[..].to_isize().1.len(), "signed text and bytes differ");
            check(s.to_isize_lossy() == t[..].to_isize_lossy() && s.to_isize_junk(&j) == t[..].to_isize_junk(&j), "signed text and bytes differ");
            check(s.to_isize_whole(b"", "").is_ok() == t[..].to_isize_whole(b"", "").is_ok(), "signed text and bytes differ");
        }
        _ => {
            let (a, b) = (s.to_f64(), t[..].to_f64());
            check(a.0.to_bits() == b.0.to_bits() && a.1.len() == b.1.len(), "floating point text and bytes differ");
            check(s.to_f64_junk(&j).to_bits() == t[..].to_f64_junk(&j).to_bits(), "floating point text and bytes differ");
        }
    }
    cover("end");
}
c13_junkf {
    // what counts as junk in a floating point number
    let (j, k, min) = junk();
    let t = catv(&[*pick("lead", &[&b""[..], b"x", b"-", b" "]), &from_upto("d", 0, 2, b"17"), &from_upto("tail", 0, 2, b"x,")]);
    let (v, rest) = t[..].to_f64();
    let used = t.len() - rest.len();
    let want = if is_junk(k, &t, used) { if min { f64::MIN } else { f64::MAX } } else { v };
    let g = t[..].to_f64_junk(&j);
    check(g == want || (g.is_infinite() && want.abs() == f64::MAX && (g < 0.0) == (want < 0.0)), "junk value of a floating point number is wrong");
    cover("end");
}
}

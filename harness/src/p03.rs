//! C03: each ordering means what it says, and a key looks at its own column only
use crate::api::*;
use cdx::comp::*;
use cdx::util::{TextFileMode, TextLine};
use std::cmp::Ordering;
use std::cmp::Ordering::*;

fn o_bytes(a: &[u8], b: &[u8]) -> Ordering {
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] != b[i] {
            return if a[i] < b[i] { Less } else { Greater };
        }
        i += 1;
    }
    a.len().cmp(&b.len())
}
fn o_lower(v: &[u8]) -> Vec<u8> {
    v.iter().map(|c| if *c >= b'A' && *c <= b'Z' { *c + 32 } else { *c }).collect()
}
fn expect(spec: &str, a: &[u8], b: &[u8], o: Ordering) {
    let mut c = ok(CompMaker::make_comp(spec), "make_comp");
    check(c.comp(a, b) == o, "ordering differs from its definition");
    check(c.equal(a, b) == (o == Equal), "equality differs from its definition");
    c.set(a);
    check(c.comp_self(b) == o, "ordering of a stored value differs from its definition");
    check(c.equal_self(b) == (o == Equal), "equality with a stored value differs from its definition");
    match o {
        Less => cover("less"),
        Equal => cover("equal"),
        Greater => cover("greater"),
    }
}
/// a decimal number as text, with its sign and its digits padded to fixed positions
struct Dec {
    t: Vec<u8>,
    neg: bool,
    d: Vec<u8>,
}
fn decimal(name: &str, maxi: usize, maxf: usize, commas: bool) -> Dec {
    let neg = flag(name);
    let ni = choice(name, maxi + 1);
    let nf = choice(name, maxf + 2); // 0: no point
    let mut t = Vec::new();
    if neg {
        t.push(b'-');
    }
    let comma = if commas && ni > 1 { choice(name, ni) } else { 0 };
    let mut d = vec![b'0'; maxi - ni];
    for (i, x) in from(name, ni, b"0123456789").iter().enumerate() {
        if comma != 0 && i == comma {
            t.push(b',');
        }
        t.push(*x);
        d.push(*x);
    }
    if nf > 0 {
        t.push(b'.');
        for x in &from(name, nf - 1, b"0123456789") {
            t.push(*x);
            d.push(*x);
        }
    }
    while d.len() < maxi + maxf {
        d.push(b'0');
    }
    if neg {
        // the sign of zero is not part of the claim
        let mut z = false;
        for x in &d {
            z |= *x != b'0';
        }
        assume(z);
    }
    Dec { t, neg, d }
}
fn o_dec(a: &Dec, b: &Dec) -> Ordering {
    match (a.neg, b.neg) {
        (false, false) => o_bytes(&a.d, &b.d),
        (true, true) => o_bytes(&b.d, &a.d),
        (true, false) => Less,
        (false, true) => Greater,
    }
}
/// dotted sections without leading zeros
fn sections(name: &str, maxs: usize, maxd: usize) -> (Vec<u8>, Vec<u32>) {
    let n = 1 + choice(name, maxs);
    let mut t = Vec::new();
    let mut v = Vec::new();
    for i in 0..n {
        if i > 0 {
            t.push(b'.');
        }
        let nd = 1 + choice(name, maxd);
        let d = from(name, nd, b"0123456789");
        if nd > 1 {
            assume(d[0] != b'0');
        }
        let mut x = 0u32;
        for c in &d {
            x = x * 10 + u32::from(*c - b'0');
        }
        v.push(x);
        t.extend_from_slice(&d);
    }
    (t, v)
}
/// n columns of up to `hi` bytes
fn cols(name: &str, n: usize, hi: usize, al: &[u8]) -> Vec<Vec<u8>> {
    (0..n)
        .map(|_| {
            let v = if al.is_empty() { bytes_upto(name, 0, hi) } else { from_upto(name, 0, hi, al) };
            for b in &v {
                assume(*b != b'\n');
                assume(*b != b'\t');
            }
            v
        })
        .collect()
}
fn join(c: &[Vec<u8>]) -> Vec<u8> {
    let mut v = Vec::new();
    for (i, x) in c.iter().enumerate() {
        if i > 0 {
            v.push(b'\t');
        }
        v.extend_from_slice(x);
    }
    v.push(b'\n');
    v
}
fn keyed(specs: &[&str], a: &[Vec<u8>], b: &[Vec<u8>], o: Ordering, stored: Option<&[u8]>) {
    let mut l = LineCompList::new();
    for s in specs {
        ok(l.add(s), "add key");
    }
    ok(l.lookup(&["one", "two", "three"]), "lookup");
    let (la, lb) = (join(a), join(b));
    check(l.comp_lines(&la, &lb) == o, "key list does not order by its columns in turn");
    check(l.equal_lines(&la, &lb) == (o == Equal), "key list equality wrong");
    let m = TextFileMode::default();
    let mut ta = TextLine::new();
    let mut tb = TextLine::new();
    ta.raw().extend_from_slice(&la);
    tb.raw().extend_from_slice(&lb);
    ta.split(&m);
    tb.split(&m);
    check(l.comp_cols(&ta, &tb) == o, "key list does not order split lines by its columns in turn");
    check(l.equal_cols(&ta, &tb) == (o == Equal), "key list equality of split lines wrong");
    if let Some(v) = stored {
        ok(l.set(v, b'\t'), "set");
        check(l.comp_self_line(&lb) == o, "stored key orders differently against a line");
        check(l.equal_self_line(&lb) == (o == Equal), "stored key equality wrong against a line");
        check(l.comp_self_cols(&tb) == o, "stored key orders differently against a split line");
        check(l.equal_self_cols(&tb) == (o == Equal), "stored key equality wrong against a split line");
    }
    match o {
        Less => cover("less"),
        Equal => cover("equal"),
        Greater => cover("greater"),
    }
}

harness! {
c03_plain {
    let (a, b) = (bytes_upto("a", 0, tier(3, 5)), bytes_upto("b", 0, tier(3, 5)));
    expect("plain", &a, &b, o_bytes(&a, &b));
}
c03_lower {
    let (a, b) = (bytes_upto("a", 0, tier(3, 4)), bytes_upto("b", 0, tier(3, 4)));
    expect("lower", &a, &b, o_bytes(&o_lower(&a), &o_lower(&b)));
}
c03_len {
    // also beyond what fits in one or two bytes
    let pre = vec![b'x'; *pick("long", &[0usize, 250, 65530])];
    let (a, b) = (catv(&[&pre, &bytes_upto("a", 0, 9)]), catv(&[if flag("both") { &pre } else { b"" }, &bytes_upto("b", 0, 9)]));
    expect("length", &a, &b, a.len().cmp(&b.len()));
}
c03_num {
    let (a, b) = (decimal("a", 3, 2, true), decimal("b", 3, 2, true));
    expect("numeric", &a.t, &b.t, o_dec(&a, &b));
}
c03_num_blank {
    let (a, b) = (decimal("a", 2, 1, false), decimal("b", 2, 1, false));
    let mut p = b" \t "[..choice("blanks", 4)].to_vec();
    p.extend_from_slice(&a.t);
    expect("numeric", &p, &b.t, o_dec(&a, &b));
}
c03_float {
    let (a, b) = (decimal("a", tier(1, 2), 1, false), decimal("b", tier(1, 2), 1, false));
    expect("float", &a.t, &b.t, o_dec(&a, &b));
}
c03_ip {
    let (a, x) = sections("a", tier(2, 3), tier(2, 2));
    let (b, y) = sections("b", tier(2, 3), tier(2, 2));
    expect("ip", &a, &b, x.cmp(&y));
}
c03_ip_blank {
    // blanks before an address do not count
    let (a, x) = sections("a", 2, 1);
    let (b, y) = sections("b", 2, 1);
    let p = from_upto("p", 0, 1, b" \t");
    let q = from_upto("q", 0, 1, b" \t");
    expect("ip", &catv(&[&p, &a]), &catv(&[&q, &b]), x.cmp(&y));
}
c03_cols {
    let i = choice("col", 3);
    let s = *pick("spec", &[["one,plain", "two,plain", "three,plain"], ["1", "2", "3"], ["one,rev", "two,plain.rev", "3,rev"]]);
    let a = cols("a", 3, 1, b"");
    let b = cols("b", 3, 1, b"");
    let mut o = o_bytes(&a[i], &b[i]);
    if s[i].contains("rev") {
        o = o.reverse();
    }
    keyed(&[s[i]], &a, &b, o, Some(&a[i]));
}
c03_two {
    let (s, i, j, r) = *pick("spec", &[
        (["one,plain", "three,plain"], 0usize, 2usize, [false, false]),
        (["2,plain.rev", "1,plain"], 1, 0, [true, false]),
        (["three,plain", "two,rev"], 2, 1, [false, true]),
        (["3,rev", "one,rev.plain"], 2, 0, [true, true]),
    ]);
    let a = cols("a", 3, 1, b"ab");
    let b = cols("b", 3, 1, b"ab");
    let mut x = o_bytes(&a[i], &b[i]);
    let mut y = o_bytes(&a[j], &b[j]);
    if r[0] {
        x = x.reverse();
    }
    if r[1] {
        y = y.reverse();
    }
    let mut v = a[i].clone();
    v.push(b'\t');
    v.extend_from_slice(&a[j]);
    keyed(&s, &a, &b, x.then(y), Some(&v));
}
c03_missing {
    // a line with too few columns has empty values there
    let s = *pick("spec", &["three,plain", "three,length"]);
    let n = 1 + choice("n", 3);
    let a = cols("a", n, 1, b"");
    let b = cols("b", 3, 1, b"");
    let mut aa = a.clone();
    while aa.len() < 3 {
        aa.push(vec![]);
    }
    let o = if s == "three,plain" { o_bytes(&aa[2], &b[2]) } else { aa[2].len().cmp(&b[2].len()) };
    keyed(&[s], &a, &b, o, None);
}
c03_expr {
    // the value of an expression over the columns
    let (s, f): (&str, fn(i32, i32, i32) -> i32) = *pick("spec", &[
        (",expr,[two]", (|_, b, _| b) as fn(i32, i32, i32) -> i32),
        (",expr,c1-c3", |a, _, c| a - c),
        (",expr,[one]*10+[three]", |a, _, c| a * 10 + c),
        (",expr.rev,c2-c1", |a, b, _| a - b),
    ]);
    let a = cols("a", 3, 1, b"0125");
    let b = cols("b", 3, 1, b"0125");
    let n = |c: &[Vec<u8>], i: usize| if c[i].is_empty() { 0 } else { i32::from(c[i][0] - b'0') };
    let (x, y) = (f(n(&a, 0), n(&a, 1), n(&a, 2)), f(n(&b, 0), n(&b, 1), n(&b, 2)));
    let second = flag("second");
    let mut o = x.cmp(&y);
    if second { o = o.then(o_bytes(&a[2], &b[2]).reverse()); }
    let v = if s.contains("rev") { -x } else { x };
    if second { keyed(&[s, "3,rev"], &a, &b, o, None); } else { keyed(&[s], &a, &b, o, Some(v.to_string().as_bytes())); }
}
c03_junk {
    // what the modifiers strict, trail and low do to text which is not a number
    let k = choice("kind", 3);
    let low = flag("low");
    let spec = format!("{}float{}", ["", "trail.", "strict."][k], if low { ".LOW" } else { "" });
    let one = |name: &str| -> (Vec<u8>, i64) {
        let n = choice(name, 3);
        let d = from(name, n, b"05");
        let tail = *pick(name, &[&b""[..], b"x", b" "]);
        let lead = flag(name);
        let mut val = 0i64;
        for c in &d {
            val = val * 10 + i64::from(*c - b'0');
        }
        if lead {
            val = 0;
        }
        let prefix = n > 0 && !lead;
        let whole = prefix && tail.is_empty();
        let junk = match k { 0 => false, 1 => !prefix, _ => !whole };
        (catv(&[if lead { b"q" } else { b"" }, &d, tail]), if !junk { val } else if low { -1 } else { 1000 })
    };
    let (a, x) = one("a");
    let (b, y) = one("b");
    let o = x.cmp(&y);
    expect(&spec, &a, &b, o);
    expect(&format!("rev.{spec}"), &a, &b, o.reverse());
    let mut l = LineCompList::new();
    ok(l.add(&format!("2,{spec}")), "add key");
    ok(l.lookup(&["one", "two"]), "lookup");
    check(l.comp_lines(&catv(&[b"5\t", &a, b"\n"]), &catv(&[b"7\t", &b, b"\n"])) == o, "a key with modifiers orders wrongly");
    cover("end");
}
}

//! C02: the sort keys cached in items decide exactly as the comparison itself does
use crate::api::*;
use cdx::comp::*;
use cdx::util::{TextFileMode, TextLine};
use std::cmp::Ordering::*;

/// a is at a non-zero offset, so that a cache computed from the wrong bytes shows
fn cached(spec: &[&str], names: &[&str], a: &[u8], b: &[u8]) {
    let mut base: Vec<u8> = b"z9\t8y\n".to_vec();
    let mut ia = Item::new();
    let mut ib = Item::new();
    ia.offset = base.len() as u32;
    ia.size_plus = a.len() as u32;
    base.extend_from_slice(a);
    ib.offset = base.len() as u32;
    ib.size_plus = b.len() as u32;
    base.extend_from_slice(b);
    base.extend_from_slice(b"77\t66\n");
    let mut l = LineCompList::new();
    for s in spec {
        ok(l.add(s), "add key");
    }
    ok(l.lookup(names), "lookup");
    l.fill_cache_line(&mut ia, &base);
    l.fill_cache_line(&mut ib, &base);
    check(same(ia.get(&base), a) && same(ib.get(&base), b), "filling the cache changed which bytes the item denotes");
    let x = l.comp_lines(a, b);
    let e = l.equal_lines(a, b);
    check(l.comp_items(&base, &ia, &ib) == x, "comparing cached items disagrees with comparing the lines");
    check(l.comp_items(&base, &ib, &ia) == x.reverse(), "comparing cached items disagrees with comparing the lines (swapped)");
    check(l.equal_items(&base, &ia, &ib) == e, "equality of cached items disagrees with equality of the lines");
    check(e == (x == Equal), "equality of lines disagrees with their comparison");
    // the same lines split into columns
    let m = TextFileMode::default();
    let mut ta = TextLine::new();
    let mut tb = TextLine::new();
    ta.raw().extend_from_slice(a);
    tb.raw().extend_from_slice(b);
    ta.split(&m);
    tb.split(&m);
    check(l.comp_cols(&ta, &tb) == x, "comparing split lines disagrees with comparing the lines");
    check(l.equal_cols(&ta, &tb) == e, "equality of split lines disagrees with equality of the lines");
    let mut ja = Item::new();
    let mut jb = Item::new();
    ja.offset = ia.offset;
    ja.size_plus = a.len() as u32;
    jb.offset = ib.offset;
    jb.size_plus = b.len() as u32;
    l.fill_cache_cols(&mut ja, &ta);
    l.fill_cache_cols(&mut jb, &tb);
    check(l.comp_items(&base, &ja, &jb) == x, "items cached from split lines disagree with comparing the lines");
    match x {
        Less => cover("less"),
        Equal => cover("equal"),
        Greater => cover("greater"),
    }
}
fn line(name: &str, hi: usize, al: &[u8]) -> Vec<u8> {
    let mut v = if al.is_empty() { bytes_upto(name, 0, hi) } else { from_upto(name, 0, hi, al) };
    for b in &v {
        assume(*b != b'\n');
    }
    v.push(b'\n');
    v
}
/// key column of up to `hi` bytes with a second column of one byte
fn kline(name: &str, pre: &[u8], hi: usize, al: &[u8]) -> Vec<u8> {
    let mut v = pre.to_vec();
    v.extend(if al.is_empty() { bytes_upto(name, 0, hi) } else { from_upto(name, 0, hi, al) });
    for b in &v[pre.len()..] {
        assume(*b != b'\n');
        assume(*b != b'\t');
    }
    v.push(b'\t');
    let s = bytes(name, 1);
    assume(s[0] != b'\n');
    assume(s[0] != b'\t');
    v.extend(s);
    v.push(b'\n');
    v
}
const NAMES: &[&str] = &["k", "v"];
const NUM: &[u8] = b"019,.-K";
const FLT: &[u8] = b"01.-eK";

harness! {
c02_whole {
    let s = *pick("spec", &["", ",plain", ",rev", ",lower", ",lower.rev", ",length", ",len.rev", ",equal"]);
    cached(&[s], NAMES, &line("a", tier(2, 3), b""), &line("b", tier(2, 3), b""));
}

c02_long {
    let s = *pick("spec", &["k,plain", "k,plain.rev", "k,lower", "k,lower.rev"]);
    let p = *pick("pre", &[&b""[..], b"abc", b"abcdef"]);
    cached(&[s], NAMES, &kline("a", p, 3, b""), &kline("b", p, 3, b""));
}
c02_len {
    let s = *pick("spec", &[",length", "k,len.rev", "k,plain", ",lower"]);
    let pre = vec![b'x'; 252];
    cached(&[s], NAMES, &kline("a", &pre, 3, b"xy"), &kline("b", if flag("both") { &pre } else { b"" }, 3, b"xy"));
}
c02_col {
    let s = *pick("spec", &["k,plain", "2,plain", "2,plain.rev", "k,len", "v,lower.rev", "k,ip", "k,ip.rev"]);
    cached(&[s], NAMES, &kline("a", b"", tier(1, 2), b""), &kline("b", b"", tier(1, 2), b""));
}
c02_num {
    let s = *pick("spec", &["k,numeric", "k,num.rev"]);
    cached(&[s], NAMES, &kline("a", b"", tier(3, 4), NUM), &kline("b", b"", tier(3, 4), NUM));
}
c02_float {
    let s = *pick("spec", &["k,float", "k,float.rev"]);
    cached(&[s], NAMES, &kline("a", b"", tier(2, 3), FLT), &kline("b", b"", tier(2, 3), FLT));
}
c02_expr {
    let s = *pick("spec", &["e,expr,k", "e,expr.rev,k", "e,expr,k/k"]);
    cached(&[s], NAMES, &kline("a", b"", 2, b"01-"), &kline("b", b"", 2, b"01-"));
}
c02_multi {
    let s = *pick("spec", &[&["k,plain", "v,plain.rev"], &["k,lower.rev", "v,plain"], &["v,len", "k,plain"], &["k,num", "2,lower"], &["k,equal", "v,ip.rev"]]);
    cached(s, NAMES, &kline("a", b"", tier(1, 2), b""), &kline("b", b"", tier(1, 2), b""));
}
}

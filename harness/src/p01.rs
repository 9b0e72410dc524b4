//! C01: every ordering is a consistent total preorder
use crate::api::*;
use cdx::comp::*;
use std::cmp::Ordering;
use std::cmp::Ordering::*;

fn laws2(spec: &str, a: &[u8], b: &[u8]) {
    let mut c = ok(CompMaker::make_comp(spec), "make_comp");
    let x = c.comp(a, b);
    check(c.comp(b, a) == x.reverse(), "comp(b,a) is not the opposite of comp(a,b)");
    check(c.comp(a, a) == Equal, "comp(a,a) is not Equal");
    check(c.equal(a, b) == (x == Equal), "equal(a,b) disagrees with comp(a,b)");
    check(c.equal(b, a) == (x == Equal), "equal(b,a) disagrees with comp(a,b)");
    check(c.equal(a, a), "equal(a,a) is false");
    c.set(a);
    check(c.comp_self(b) == x, "comparing a stored value disagrees with comparing the two values");
    check(c.equal_self(b) == (x == Equal), "equal against a stored value disagrees");
    match x {
        Less => cover("less"),
        Equal => cover("equal"),
        Greater => cover("greater"),
    }
}
fn le(x: Ordering) -> bool {
    x != Greater
}
fn laws3(spec: &str, a: &[u8], b: &[u8], d: &[u8]) {
    let c = ok(CompMaker::make_comp(spec), "make_comp");
    let ab = c.comp(a, b);
    let bd = c.comp(b, d);
    let ad = c.comp(a, d);
    check(!(le(ab) && le(bd)) || le(ad), "a<=b and b<=c but not a<=c");
    check(!(ab == Equal && bd == Equal) || ad == Equal, "a==b and b==c but not a==c");
    cover("end");
}
fn rev(spec: &str, rspec: &str, a: &[u8], b: &[u8]) {
    let c = ok(CompMaker::make_comp(spec), "make_comp");
    let mut r = ok(CompMaker::make_comp(rspec), "make_comp");
    let x = c.comp(a, b);
    check(r.comp(a, b) == x.reverse(), "rev is not the exact reversal");
    check(r.equal(a, b) == (x == Equal), "rev changes equality");
    r.set(a);
    check(r.comp_self(b) == x.reverse(), "rev is not the exact reversal for a stored value");
    check(r.equal_self(b) == (x == Equal), "rev changes equality for a stored value");
    cover("end");
}
const NUM: &[u8] = b"019,.- X";
const IP: &[u8] = b"019. X";
const FLT: &[u8] = b"01.-eK";

fn two(lo: usize, hi: usize) -> (Vec<u8>, Vec<u8>) {
    (bytes_upto("a", lo, hi), bytes_upto("b", lo, hi))
}
fn two_of(hi: usize, al: &[u8]) -> (Vec<u8>, Vec<u8>) {
    (from_upto("a", 0, hi, al), from_upto("b", 0, hi, al))
}
fn three_of(hi: usize, al: &[u8]) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    (from_upto("a", 0, hi, al), from_upto("b", 0, hi, al), from_upto("c", 0, hi, al))
}

harness! {
c01_plain2 { let (a, b) = two(0, tier(4, 8)); laws2("plain", &a, &b); }
c01_lower2 { let (a, b) = two(0, tier(3, 4)); laws2("lower", &a, &b); }
c01_len2 { let (a, b) = two(0, tier(4, 8)); laws2("length", &a, &b); }
c01_eq2 { let (a, b) = two(0, 3); laws2("equal", &a, &b); }
c01_num2 { let (a, b) = two(0, tier(3, 4)); laws2("numeric", &a, &b); }
c01_ip2 { let (a, b) = two(0, tier(3, 5)); laws2("ip", &a, &b); }
c01_float2 { let (a, b) = two_of(tier(3, 4), FLT); laws2("float", &a, &b); }
c01_plain3 { let n = tier(3, 4); laws3("plain", &bytes_upto("a", 0, n), &bytes_upto("b", 0, n), &bytes_upto("c", 0, n)); }
c01_lower3 { let n = tier(2, 3); laws3("lower", &bytes_upto("a", 0, n), &bytes_upto("b", 0, n), &bytes_upto("c", 0, n)); }
c01_num3 { let (a, b, c) = three_of(tier(3, 4), NUM); laws3("numeric", &a, &b, &c); }
c01_ip3 { let (a, b, c) = three_of(tier(3, 4), IP); laws3("ip", &a, &b, &c); }
c01_float3 { let (a, b, c) = three_of(tier(2, 3), FLT); laws3("float", &a, &b, &c); }
c01_random2 { let (a, b) = two_of(1, b"abcd"); laws2("random", &a, &b); }
c01_random3 { let (a, b, c) = three_of(1, b"abcd"); laws3("random", &a, &b, &c); }
c01_fcmp {
    let (x, y, z) = (f64::from_bits(u64v("x")), f64::from_bits(u64v("y")), f64::from_bits(u64v("z")));
    use cdx::num::{fcmp, ulp_to_ulong};
    let xy = fcmp(x, y);
    let yz = fcmp(y, z);
    let xz = fcmp(x, z);
    check(fcmp(y, x) == xy.reverse(), "float ordering is not antisymmetric");
    check(fcmp(x, x) == Equal, "float ordering is not reflexive");
    check(!(le(xy) && le(yz)) || le(xz), "float ordering is not transitive");
    check(ulp_to_ulong(x).cmp(&ulp_to_ulong(y)) == xy, "integer image of a float is not order-preserving");
    cover("end");
}
c01_rev {
    let (m, r) = *pick("m", &[("plain", "plain.rev"), ("lower", "rev.lower"), ("length", "len.rev"), ("numeric", "num.rev"), ("ip", "ip.rev"), ("", "rev")]);
    let (a, b) = two(0, tier(2, 3));
    rev(m, r, &a, &b);
}
c01_rev_float { let (a, b) = two_of(tier(2, 3), FLT); rev("float", "float.rev", &a, &b); }
}

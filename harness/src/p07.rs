//! C07: binary search finds exactly the matching lines of a sorted file
use crate::api::*;
use cdx::binsearch::*;
use cdx::comp::*;
use std::cmp::Ordering::{self, *};

const HEAD: &[u8] = b" CDX\tone\ttwo\n";
/// key of a row (its first or second column)
fn key(l: &[u8], col: usize) -> Vec<u8> {
    cols_of(l, b'\t').get(col).cloned().unwrap_or_default()
}
fn order(spec: &str, a: &[u8], b: &[u8]) -> Ordering {
    ok(CompMaker::make_comp(spec), "make_comp").comp(a, b)
}
/// assume the rows are sorted; the numbers of the first and one past the last matching row
fn expect(kind: &str, col: usize, rows: &[Vec<u8>], pat: &[u8]) -> (usize, usize) {
    for w in rows.windows(2) {
        assume(order(kind, &key(&w[0], col), &key(&w[1], col)) != Greater);
    }
    let (mut lo, mut hi) = (0, 0);
    for r in rows {
        match order(kind, &key(r, col), pat) {
            Less => { lo += 1; hi += 1; }
            Equal => hi += 1,
            Greater => {}
        }
    }
    (lo, hi)
}
fn lib(kind: &str, rows: &[Vec<u8>], pat: &[u8], nl: bool) {
    let (lo, hi) = expect(kind, 0, rows, pat);
    let data = text_of(rows, nl);
    let off = |n: usize| (data.len()).min(rows[..n].iter().map(|r| r.len() + 1).sum());
    let mut c = LineCompList::new();
    ok(c.add(&format!("1,{kind}")), "add key");
    ok(c.set(pat, b','), "set");
    ok(c.lookup(&["one", "two"]), "lookup");
    let got = equal_range(&data, &mut c).to_vec();
    check(same(&got, &data[off(lo)..off(hi)]), "equal range is not exactly the matching lines");
    let first = lower_bound(&data, &mut c).to_vec();
    let (a, b) = if lo == hi { (0, 0) } else { (off(lo), off(lo + 1)) };
    check(same(&first, &data[a..b]), "lower bound is not the first matching line");
    check(upper_bound_n(&data, &mut c) == off(hi), "upper bound is not the start of the first greater line");
    let (s, _) = lower_bound_n(&data, &mut c);
    check(s == off(lo), "lower bound does not start at the first line that is not less");
    cover(if lo == hi { "none" } else { "some" });
}
fn cli(args: &[&str], kind: &str, col: usize, rows: &[Vec<u8>], pat: &[u8], head: bool, ctx: [usize; 4], nl: bool) {
    let (lo, hi) = expect(kind, col, rows, pat);
    file_set("in", &catv(&[if head { HEAD } else { b"" }, &text_of(rows, nl)]));
    let (b, a) = if lo == hi { (ctx[1], ctx[3]) } else { (ctx[0], ctx[2]) };
    let (lo, hi) = (lo.saturating_sub(b), rows.len().min(hi + a));
    let want = catv(&[if head { HEAD } else { b"" }, &text_of(&rows[lo..hi], true)]);
    let p = String::from_utf8(pat.to_vec()).unwrap();
    let mut v = vec!["binsearch"];
    v.extend(args);
    v.push(&p);
    v.push("in");
    let (r, out) = tool(&v);
    check(r, "binsearch failed");
    check(same(&out, &want), "binsearch did not print exactly the matching lines");
    cover(if lo == hi { "none" } else { "some" });
}
fn rows(n: usize, hi: usize, al: &[u8], vl: &[u8]) -> Vec<Vec<u8>> {
    (0..n).map(|_| {
        let k = word("k", 0, hi, al);
        if vl.is_empty() { k } else { catv(&[&k, b"\t", &from("v", 1, vl)]) }
    }).collect()
}

harness! {
c07_plain {
    let k = *pick("key", &["plain", "plain.rev", "lower"]);
    let n = choice("lines", 4);
    let r = rows(n, 1, b"", b"");
    lib(k, &r, &word("p", 0, 1, b""), ends(&r));
}
c07_long {
    let k = *pick("key", &["plain", "plain.rev"]);
    let n = choice("lines", tier(5, 6));
    let r = rows(n, 2, b"ab", b"");
    lib(k, &r, &word("p", 0, 2, b"ab"), ends(&r));
}
c07_num {
    let k = *pick("key", &["num", "num.rev", "len"]);
    let n = choice("lines", 4);
    let r = rows(n, tier(1, 2), b"019-", b"x");
    lib(k, &r, &word("p", 0, 2, b"019-"), ends(&r));
}
c07_cli {
    // pattern as the user gives it; concrete to the argument parser
    let n = choice("lines", 5);
    let r = rows(n, 1, b"abc", b"");
    cli(&[], "plain", 0, &r, *pick("pat", &[&b"b"[..], b"a", b"c", b"bb"]), false, [0; 4], ends(&r));
}
c07_head {
    let n = choice("lines", 4);
    let col = choice("col", 2);
    let rev = flag("rev");
    let r: Vec<Vec<u8>> = rows(n, 1, b"ano", b"z").into_iter().map(|r| if col == 0 { r } else { catv(&[b"z\t", &r[..r.len() - 2]]) }).collect();
    let k = [["-kone", "-kone,rev"], ["-k2", "-ktwo,plain.rev"]][col][usize::from(rev)];
    let p = *pick("pat", &[&b"a"[..], b"one", b"n", b"two", b"o"]);
    let nl = r.is_empty() || flag("nl");
    cli(&[k], if rev { "plain.rev" } else { "plain" }, col, &r, p, true, [0; 4], nl);
}
c07_context {
    let n = choice("lines", 5);
    let r = rows(n, 1, b"abc", b"");
    let (s, c) = *pick("ctx", &[("1", [1, 1, 1, 1]), ("2,0", [2, 2, 0, 0]), ("0,1", [0, 0, 1, 1]), ("1.0,2.1", [1, 0, 2, 1]), ("0.1,0", [0, 1, 0, 0])]);
    let head = flag("head");
    if !head && n > 0 { assume(!r[0].is_empty()); }
    cli(&["-C", s], "plain", 0, &r, b"b", head, c, ends(&r));
}
c07_two {
    // several keys, with a delimiter of the user's choice
    let n = choice("lines", 4);
    let r: Vec<Vec<u8>> = (0..n).map(|_| catv(&[&from("a", 1, b"ab"), b"\t", &from("b", 1, b"xy")])).collect();
    for w in r.windows(2) {
        assume(w[0] <= w[1]);
    }
    let want: Vec<Vec<u8>> = r.iter().filter(|x| same(x, b"a\ty")).cloned().collect();
    file_set("in", &text_of(&r, true));
    let (ok, out) = tool(*pick("args", &[&["binsearch", "-k1", "-k2", "a,y", "in"][..], &["binsearch", "-k1", "-k2", "-s", ":", "a:y", "in"]]));
    check(ok, "binsearch failed");
    check(same(&out, &text_of(&want, true)), "binsearch by two keys did not print exactly the matching lines");
    cover("end");
}
c07_files {
    // several files, file names in front
    let (a, b) = (choice("lines", 3), choice("lines2", 3));
    let (x, y) = (rows(a, 1, b"ab", b""), rows(b, 1, b"ab", b""));
    for r in [&x, &y] {
        expect("plain", 0, r, b"b");
    }
    std::fs::create_dir("d").ok();
    file_set("in", &text_of(&x, true));
    file_set("in2", &text_of(&y, true));
    let name = flag("name");
    let (ok, out) = tool(if name { &["binsearch", "-H", "1", "b", "in", "in2"] } else { &["binsearch", "b", "in", "in2"] });
    check(ok, "binsearch failed");
    let mut want = vec![];
    for (n, r) in [("in\t", &x), ("in2\t", &y)] {
        for l in r {
            if same(l, b"b") {
                want.push(if name { catv(&[n.as_bytes(), l]) } else { l.clone() });
            }
        }
    }
    check(same(&out, &text_of(&want, true)), "binsearch in several files is wrong");
    cover("end");
}
}

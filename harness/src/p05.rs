//! C05: merging sorted files gives one sorted file with exactly the lines of all of them
use crate::api::*;
use cdx::comp::*;
use cdx::sort::*;
use std::cmp::Ordering::*;

fn nl(v: &[u8]) -> Vec<u8> {
    catv(&[v, b"\n"])
}
fn run(specs: &[&str], names: &[&str], files: &[&[Vec<u8>]], head: &[u8], unique: bool) {
    let mut l = LineCompList::new();
    for s in specs {
        ok(l.add(s), "add key");
    }
    ok(l.lookup(names), "lookup");
    let mut all: Vec<Vec<u8>> = vec![];
    let mut fnames = vec![];
    for (i, f) in files.iter().enumerate() {
        for w in f.windows(2) {
            assume(l.comp_lines(&nl(&w[0]), &nl(&w[1])) != Greater);
        }
        let n = format!("in{i}");
        file_set(&n, &catv(&[head, &text_of(f, ends(f))]));
        fnames.push(n);
        all.extend_from_slice(f);
    }
    let mut c = SortConfig::default();
    c.alt_merge = flag("alt");
    let mut l2 = LineCompList::new();
    for s in specs {
        ok(l2.add(s), "add key");
    }
    let mut out: Vec<u8> = vec![];
    ok(c.merge(&fnames, &mut l2, &mut out, unique), "merge failed");
    check(out.len() >= head.len() && same(&out[..head.len()], head), "header is not first in the output");
    let out = lines_lax(&out[head.len()..]);
    for w in out.windows(2) {
        let o = l.comp_lines(&nl(&w[0]), &nl(&w[1]));
        check(o != Greater, "merged output is not in order");
        check(!unique || o != Equal, "equal lines in unique output");
    }
    if unique {
        for x in &all {
            let mut some = false;
            for y in &out {
                some |= l.equal_lines(&nl(x), &nl(y));
            }
            check(some, "no line of the output stands for an input line");
        }
        for y in &out {
            check(count(&all, y) > 0, "output line is not an input line");
        }
    } else {
        check(same_multiset(&all, &out), "merged output is not a permutation of the input");
    }
    cover("end");
}
fn file(n: usize, hi: usize, al: &[u8]) -> Vec<Vec<u8>> {
    let n = choice("lines", n + 1);
    (0..n).map(|i| {
        let w = word("w", 0, hi, al);
        if i == 0 && !w.is_empty() {
            assume(w[0] != b' ');
        }
        w
    }).collect()
}
fn rows(n: usize, hi: usize, al: &[u8], bl: &[u8]) -> Vec<Vec<u8>> {
    let n = choice("lines", n + 1);
    (0..n).map(|_| catv(&[&word("k", 0, hi, al), b"\t", &from("v", 1, bl)])).collect()
}

harness! {
c05_one { let s = *pick("key", &["", ",rev"]); run(&[s], &[], &[&file(3, 1, b"ab")], b"", flag("unique")); }
c05_two { let s = *pick("key", &["", ",rev", ",lower"]); run(&[s], &[], &[&file(2, 1, b""), &file(2, 1, b"")], b"", flag("unique")); }
c05_three { run(&[*pick("key", &["", ",rev"])], &[], &[&file(2, 1, b"ab"), &file(1, 1, b"ab"), &file(2, 1, b"ab")], b"", flag("unique")); }
c05_four { run(&[""], &[], &[&file(1, 1, b"ab"), &file(1, 1, b"ab"), &file(1, 1, b"ab"), &file(1, 1, b"ab")], b"", flag("unique")); }
c05_num { let s = *pick("key", &["1,num", "2,rev"]); run(&[s], &["c1", "c2"], &[&rows(2, 1, b"19", b"xy"), &rows(2, 1, b"19", b"xy")], b"", flag("unique")); }
c05_head { let s: &[&str] = *pick("keys", &[&["v"][..], &["k,num.rev", "v"], &["v,rev", "k"], &[",len", "v"]]); run(s, &["k", "v"], &[&rows(2, 1, b"19", b"xy"), &rows(1, 1, b"19", b"xy")], b" CDX\tk\tv\n", flag("unique")); }
}

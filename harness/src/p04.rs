//! C04: sort is an ordered permutation of its input
use crate::api::*;
use cdx::comp::*;
use cdx::sort::*;
use std::cmp::Ordering::*;

fn keys(specs: &[&str]) -> LineCompList {
    let mut l = LineCompList::new();
    for s in specs {
        ok(l.add(s), "add key");
    }
    ok(l.lookup(&["k", "v"]), "lookup");
    l
}
fn nl(v: &[u8]) -> Vec<u8> {
    let mut v = v.to_vec();
    v.push(b'\n');
    v
}
/// `out` holds the lines `inp` in order, each once, or one per class of equal lines
fn sorted(specs: &[&str], inp: &[Vec<u8>], out: &[Vec<u8>], unique: bool) {
    let mut l = keys(specs);
    for w in out.windows(2) {
        let o = l.comp_lines(&nl(&w[0]), &nl(&w[1]));
        check(o != Greater, "output is not in order");
        check(!unique || o != Equal, "equal lines in unique output");
    }
    if unique {
        for x in inp {
            let mut some = false;
            for y in out {
                some |= l.equal_lines(&nl(x), &nl(y));
            }
            check(some, "no line of the output stands for an input line");
        }
        for y in out {
            check(count(inp, y) > 0, "output line is not an input line");
        }
    } else {
        check(same_multiset(inp, out), "output is not a permutation of the input");
    }
    cover("end");
}
fn run(specs: &[&str], files: &[&[u8]], head: &[u8], unique: bool, inp: &[Vec<u8>], alloc: usize) {
    let mut out: Vec<u8> = vec![];
    let mut names = vec![];
    for (i, f) in files.iter().enumerate() {
        let n = format!("in{i}");
        file_set(&n, f);
        names.push(n);
    }
    let mut l = LineCompList::new();
    for s in specs {
        ok(l.add(s), "add key");
    }
    if alloc == 0 {
        ok(SortConfig::default().sort(&names, l, &mut out, unique), "sort failed");
    } else {
        let mut s = Sorter::new(l, alloc, unique);
        for n in &names {
            ok(s.add_file(n, &mut out), "add_file failed");
        }
        ok(s.finalize(&mut out), "finalize failed");
    }
    check(out.len() >= head.len() && same(&out[..head.len()], head), "header is not first in the output");
    sorted(specs, inp, &lines_of(&out[head.len()..]), unique);
}
fn words(n: usize, hi: usize, al: &[u8]) -> Vec<Vec<u8>> {
    (0..n).map(|i| {
        let w = word("w", 0, hi, al);
        if i == 0 && w.len() >= 1 {
            assume(w[0] != b' ');
        }
        w
    }).collect()
}

fn rows(n: usize, hi: usize, al: &[u8], bl: &[u8]) -> Vec<Vec<u8>> {
    (0..n).map(|_| catv(&[&word("k", 0, hi, al), b"\t", &from("v", 1, bl)])).collect()
}
/// unique output keeps the first of equal lines
fn firsts(specs: &[&str], inp: &[Vec<u8>], out: &[Vec<u8>]) {
    let mut l = keys(specs);
    for y in out {
        for x in inp {
            if l.equal_lines(&nl(x), &nl(y)) {
                check(same(x, y), "unique output does not hold the first of equal lines");
                break;
            }
        }
    }
}

harness! {
c04_whole {
    let s = *pick("key", &["", ",rev", ",lower", ",len"]);
    let n = choice("lines", tier(4, 5));
    let w = words(n, if n == 4 { 1 } else { 2 }, b"aB\x01");
    let f = text_of(&w, ends(&w));
    run(&[s], &[&f], b"", flag("unique"), &w, 0);
}
c04_bytes {
    let s = *pick("key", &["", ",plain.rev", ",lower"]);
    let mut w = words(2, 2, b"");
    w.push(word("w", 0, tier(2, 3), b""));
    let f = text_of(&w, ends(&w));
    run(&[s], &[&f], b"", flag("unique"), &w, 0);
}
c04_long {
    // lines agreeing in their first eight bytes
    let s = *pick("key", &["", ",rev", "1,plain", "1,plain.rev", "1,lower.rev"]);
    let w: Vec<Vec<u8>> = (0..3).map(|_| catv(&[b"abcdefgh", &word("w", 0, 1, b"")])).collect();
    let f = text_of(&w, true);
    run(&[s], &[&f], b"", flag("unique"), &w, 0);
}
c04_head {
    let s: &[&str] = *pick("keys", &[&["k,num", "v,plain.rev"][..], &["v"], &["v,rev", "k"], &["k,ip.rev"], &["2,plain", "1,numeric.rev"]]);
    let n = choice("lines", 4);
    let r = rows(n, 1, b"0918.", b"xy");
    let head = b" CDX\tk\tv\n";
    let f = catv(&[head, &text_of(&r, n == 0 || flag("nl"))]);
    run(s, &[&f], head, flag("unique"), &r, 0);
}
c04_files {
    let (s, n) = (*pick("key", &["", "v,rev", "1,num"]), choice("lines", 4));
    let r = rows(3, 1, b"019", b"xy");
    let h: &[u8] = if s == "v,rev" { b" CDX\tk\tv\n" } else { b"" };
    let f0 = catv(&[h, &text_of(&r[..n], n == 0 || flag("nl"))]);
    let f1 = catv(&[h, &text_of(&r[n..], n == 3 || flag("nl"))]);
    run(&[s], &[&f0, &f1], h, flag("unique"), &r, 0);
}
c04_chunks {
    // the reader hands over the file in arbitrary pieces
    let w = vec![word("w", 1, 1, b""), word("w", 0, 2, b"ab"), word("w", 1, 1, b"ab")];
    assume(w[0][0] != b' ');
    let f = text_of(&w, flag("nl"));
    let c = [1 + choice("c", 3) as u8, 1 + choice("c", 3) as u8, 1 + choice("c", 2) as u8];
    file_chunks("in0", &c);
    run(&[""], &[&f], b"", false, &w, 0);
}
c04_spill {
    // room for only `cap` bytes of text, so runs are spilled and merged
    let s = *pick("key", &["", ",rev", ",len"]);
    let cap = 3 + choice("cap", 4);
    let w = words(4, 2, b"ab");
    let f = text_of(&w, ends(&w));
    run(&[s], &[&f], b"", flag("unique"), &w, cap * 2);
}
c04_spill2 {
    let cap = 6 + choice("cap", 4);
    let r = rows(4, 1, b"019", b"xy");
    let n = choice("split", 5);
    let f0 = text_of(&r[..n], n == 0 || flag("nl"));
    let f1 = text_of(&r[n..], true);
    run(&["1,num.rev"], &[&f0, &f1], b"", flag("unique"), &r, cap * 2);
}
c04_longline {
    // a line longer than the buffer
    let w = words(2, 4, b"ab");
    let f = text_of(&w, ends(&w));
    run(&[""], &[&f], b"", false, &w, 4);
}
c04_first {
    let s = *pick("key", &["k", "k,lower", "k,len", "v,rev"]);
    let r = rows(3, 1, b"aA", b"xy");
    file_set("in0", &text_of(&r, true));
    let mut l = LineCompList::new();
    ok(l.add(if s.starts_with('k') { if s == "k" { "1" } else if s == "k,len" { "1,len" } else { "1,lower" } } else { "2,rev" }), "add");
    let mut out: Vec<u8> = vec![];
    ok(SortConfig::default().sort(&["in0".to_string()], l, &mut out, true), "sort failed");
    let o = lines_of(&out);
    sorted(&[s], &r, &o, true);
    firsts(&[s], &r, &o);
}
}

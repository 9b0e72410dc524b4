//! C16: uniq collapses each run of lines with equal keys into one line
use crate::api::*;

fn key(l: &[u8], kind: usize) -> Vec<u8> {
    match kind {
        0 => l.to_vec(),
        1 => cols_of(l, b'\t')[0].clone(),
        2 => cols_of(l, b'\t').get(1).cloned().unwrap_or_default(),
        3 => cols_of(l, b'\t')[0].to_ascii_lowercase(),
        4 => vec![cols_of(l, b'\t')[0].len() as u8],
        5 => catv(&[&[l.len() as u8], &key(l, 2)]),
        _ => catv(&[&key(l, 3), b"\t", &key(l, 2)]),
    }
}
const KEYS: [&[&str]; 7] = [&[""], &["1"], &["2"], &["1,lower"], &["1,len"], &[",len", "2"], &["1,lower", "+1"]];
#[derive(Clone, Copy, PartialEq)]
enum W { First, Last, Min, Max }
/// which: Min and Max by the second column
fn expect(rows: &[Vec<u8>], kind: usize, which: W, pos: usize, head: Option<&[u8]>, name: &str) -> Vec<u8> {
    let mut out = vec![];
    if let Some(h) = head {
        let cols = &h[5..];
        out = match pos {
            0 => h.to_vec(),
            1 => catv(&[b" CDX\t", name.as_bytes(), b"\t", cols]),
            _ => catv(&[h, b"\t", name.as_bytes()]),
        };
        out.push(b'\n');
    }
    let mut i = 0;
    while i < rows.len() {
        let mut best = i;
        let mut j = i + 1;
        while j < rows.len() && same(&key(&rows[i], kind), &key(&rows[j], kind)) {
            let (a, b) = (key(&rows[best], 2), key(&rows[j], 2));
            if match which { W::First => false, W::Last => true, W::Min => b < a, W::Max => b > a } {
                best = j;
            }
            j += 1;
        }
        let n = [b'0' + (j - i) as u8];
        match pos {
            0 => out.extend_from_slice(&rows[best]),
            1 => out.extend_from_slice(&catv(&[&n, b"\t", &rows[best]])),
            _ => out.extend_from_slice(&catv(&[&rows[best], b"\t", &n])),
        }
        out.push(b'\n');
        i = j;
    }
    cover("end");
    out
}
fn run(rows: &[Vec<u8>], kind: usize, wsel: usize, csel: usize, head: Option<&[u8]>, nl: bool) {
    let mut v = vec!["uniq"];
    for k in KEYS[kind] {
        v.extend(["-k", k]);
    }
    let (which, warg) = [(W::First, ""), (W::First, "first"), (W::Last, "last"), (W::Min, "min,2"), (W::Max, "MAX,2")][wsel];
    if !warg.is_empty() {
        v.extend(["-w", warg]);
    }
    let (pos, carg, name) = [(0, "", ""), (1, "N", "N"), (1, ",begin", "count"), (2, "num,end", "num")][csel];
    if pos > 0 {
        v.extend(["-c", carg]);
    }
    let mut f = vec![];
    if let Some(h) = head {
        f = catv(&[h, b"\n"]);
    }
    file_set("in", &catv(&[&f, &text_of(rows, nl)]));
    v.push("in");
    let want = if rows.is_empty() && head.is_none() { vec![] } else { expect(rows, kind, which, pos, head, name) };
    let (r, out) = tool(&v);
    check(r, "uniq failed");
    check(same(&out, &want), "uniq output is not one line per run of equal lines");
}
fn rows(n: usize, kl: &[u8], vl: &[u8]) -> Vec<Vec<u8>> {
    (0..n).map(|_| catv(&[&word("k", 0, 1, kl), b"\t", &from("v", 1, vl)])).collect()
}

harness! {
c16_plain {
    // plain uniq, every byte
    let n = choice("lines", tier(4, 5));
    let r: Vec<Vec<u8>> = (0..n).map(|i| { let w = word("w", 0, 2, b""); if i == 0 && !w.is_empty() { assume(w[0] != b' '); } w }).collect();
    run(&r, choice("key", 2), 0, 0, None, ends(&r));
}
c16_count {
    let n = choice("lines", 4);
    let r = rows(n, b"aA", b"xy");
    run(&r, choice("key", 7), choice("which", 5), 1 + choice("count", 3), None, r.is_empty() || flag("nl"));
}
c16_which {
    let n = choice("lines", 4);
    let r = rows(n, b"aA", b"xyz");
    run(&r, choice("key", 7), 1 + choice("which", 4), 0, None, r.is_empty() || flag("nl"));
}
c16_head {
    let n = choice("lines", tier(3, 4));
    let r = rows(n, b"ab", b"xy");
    run(&r, choice("key", 3), choice("which", 5), choice("count", 4), Some(b" CDX\tone\ttwo"), r.is_empty() || flag("nl"));
}
}

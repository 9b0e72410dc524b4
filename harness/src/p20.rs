//! C20: transpose exchanges rows and columns, and tabs shows a file within its rectangle
use crate::api::*;
use cdx::prelude::*;
use cdx::tabs::{show, show2, Rect};

/// a file of n rows, with between 1 and most columns of values each
fn rows(n: usize, least: usize, most: usize, len: usize, al: &[u8]) -> Vec<Vec<Vec<u8>>> {
    (0..n).map(|_| {
        let k = least + choice("cols", most - least + 1);
        (0..k).map(|_| from_upto("v", 0, len, al)).collect()
    }).collect()
}
fn joined(r: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    for (i, c) in r.iter().enumerate() {
        if i > 0 { o.push(b'\t'); }
        o.extend_from_slice(c);
    }
    o
}
fn no_header(r: &[Vec<u8>]) {
    assume(r[0].is_empty() || r[0][0] != b' ');
}

fn center(t: &[u8], w: usize) -> Vec<u8> {
    let left = (w - t.len()) / 2;
    let mut v = vec![b' '; left];
    v.extend_from_slice(t);
    v.resize(w, b' ');
    v
}

harness! {
c20_transpose {
    let n = 1 + choice("rows", tier(2, 3));
    let c = 1 + choice("width", 2);
    let r = rows(n, c, c, 1, b"");
    for x in &r { for y in x { for b in y { assume(*b != b'\t' && *b != b'\n'); } } }
    no_header(&r[0]);
    let lines: Vec<Vec<u8>> = r.iter().map(|x| joined(x)).collect();
    let eol = flag("eol");
    assume(eol || !lines[n - 1].is_empty());
    let t = text_of(&lines, eol);
    file_set("f", &t);
    let h = flag("h");
    let (k, o) = if h { tool(&["transpose", "-h", "f"]) } else { tool(&["transpose", "f"]) };
    check(k, "transpose failed");
    let mut want = if h { b" CDX\t".to_vec() } else { vec![] };
    for i in 0..c {
        let v: Vec<Vec<u8>> = r.iter().map(|x| x[i].clone()).collect();
        want.extend_from_slice(&joined(&v));
        want.push(b'\n');
    }
    check(same(&o, &want), "transpose is wrong");
}
c20_transpose_head {
    // column names become the first column; short lines lack the rest, long lines keep only the named
    let n = choice("rows", 4);
    let r = rows(n, 1, 3, 1, b"ab");
    let mut t = b" CDX\tx\ty\n".to_vec();
    let lines: Vec<Vec<u8>> = r.iter().map(|x| joined(x)).collect();
    t.extend_from_slice(&text_of(&lines, true));
    file_set("f", &t);
    let (lim, m) = *pick("lines", &[("", 9), ("1", 1), ("2", 2)]);
    let (k, o) = if lim.is_empty() { tool(&["transpose", "f"]) } else { tool(&["transpose", "-n", lim, "f"]) };
    check(k, "transpose failed");
    let mut want = vec![];
    for i in 0..2 {
        want.push(b"xy"[i]);
        for x in r.iter().take(m) {
            want.push(b'\t');
            if let Some(c) = x.get(i) { want.extend_from_slice(c); }
        }
        want.push(b'\n');
    }
    check(same(&o, &want), "transpose of a file with a header is wrong");
}
c20_tabs {
    // every line of the display fits the width; what fits is shown in full, in columns
    let n = 1 + choice("rows", 2);
    let head = flag("head");
    let mut r = rows(n, 1, 3, 2, b"a");
    let lines: Vec<Vec<u8>> = r.iter().map(|x| joined(x)).collect();
    let t = if head { catv(&[b" CDX\tx\tyyy\n", &text_of(&lines, true)]) } else { text_of(&lines, true) };
    file_set("f", &t);
    if head { r.insert(0, vec![b"x".to_vec(), b"yyy".to_vec()]); }
    let width = *pick("width", &[0usize, 3, 6, 8, 10]);
    let height = choice("height", tier(3, 5));
    r.truncate(height.max(usize::from(head)));
    let mut v = vec![];
    ok(show2("f", &Rect::new(width, height), &mut v, &TextFileMode::default()), "show2");
    check(v.len() == r.len(), "wrong number of lines");
    let mut sizes: Vec<usize> = if head { vec![0; 2] } else { vec![0; cols_of(&lines[0], b'\t').len()] };
    for x in &r {
        while sizes.len() < x.len() { sizes.push(0); }
        for (i, c) in x.iter().enumerate() { sizes[i] = sizes[i].max(c.len()); }
    }
    let fits = sizes.iter().sum::<usize>() + sizes.len() <= width;
    for (k, x) in r.iter().enumerate() {
        let o = v[k].as_bytes();
        if fits {
            let mut want = vec![];
            for (i, c) in x.iter().enumerate() {
                if i > 0 { want.push(b' '); }
                let pad = sizes[i] - c.len();
                let left = if head && k == 0 { pad / 2 } else { 0 };
                want.extend(vec![b' '; left]);
                want.extend_from_slice(c);
                want.extend(vec![b' '; pad - left]);
            }
            check(same(o, &want), "columns are not shown in full");
        } else {
            check(o.len() < width.max(sizes.len()), "line too long");
        }
    }
}
c20_tabs_cut {
    // what does not fit is cut, the widest column first, and columns still line up
    let l = from_upto("l", 0, 5, b"a");
    let r = from_upto("r", 0, 5, b"a");
    let l2 = from_upto("l2", 0, 5, b"a");
    file_set("f", &catv(&[&l, b"\t", &r, b"\n", &l2, b"\tb\n"]));
    let width = 2 + choice("width", 8);
    let mut v = vec![];
    ok(show2("f", &Rect::new(width, 9), &mut v, &TextFileMode::default()), "show2");
    let (mut a, mut b) = (l.len().max(l2.len()), r.len().max(1));
    while a + b > width - 2 {
        if a >= b { a -= 1 } else { b -= 1 }
    }
    let cut = |x: &[u8], n: usize| { let mut y = x[..x.len().min(n)].to_vec(); y.resize(n, b' '); y };
    check(v.len() == 2, "wrong number of lines");
    check(same(v[0].as_bytes(), &catv(&[&cut(&l, a), b" ", &cut(&r, b)])), "line is cut wrongly");
    check(same(v[1].as_bytes(), &catv(&[&cut(&l2, a), b" ", &cut(b"b", b)])), "line is cut wrongly");
}
c20_screen {
    // the tool uses the terminal it has, whatever its size, and divides it between the files
    let tty = flag("tty");
    let (rows, wide) = if tty { (choice("rows", 9), *pick("cols", &[0usize, 4, 20])) } else { (25, 100) };
    screen(if tty { Some((rows as u16, wide as u16)) } else { None });
    let nf = 1 + choice("files", 3);
    let names = ["f", "g", "a-long-name"];
    for k in 0..nf {
        let n = choice("lines", tier(3, 4));
        let head = flag("head");
        let mut t = if head { b" CDX\tx\n".to_vec() } else { vec![] };
        for _ in 0..n { t.extend_from_slice(&catv(&[&from("v", 1, b"ab"), b"\tz\n"])); }
        file_set(names[k], &t);
    }
    let mut a = vec!["tabs"];
    a.extend(&names[..nf]);
    let (k, o) = tool(&a);
    check(k, "tabs failed");
    let out = lines_of(&o);
    for l in &out { check(l.len() <= wide.max(2), "line wider than the screen"); }
    let room = rows.saturating_sub(1);
    // two lines less one per file for names and separators, and an equal share of what is left to each in turn
    let mut left = if nf == 1 { room } else { room.saturating_sub(2 * nf - 1) };
    let mut want = vec![];
    for i in 0..nf {
        let mut v = vec![];
        let w = ok(show2(names[i], &Rect::new(wide, left / (nf - i)), &mut v, &TextFileMode::default()), "show2");
        left = left.saturating_sub(v.len());
        if nf > 1 && names[i].len() <= w { want.push(center(names[i].as_bytes(), w)); }
        for x in v { want.push(x.into_bytes()); }
        if i + 1 < nf { want.push(vec![b'-'; w]); }
    }
    check(out.len() == want.len(), "wrong number of lines");
    for i in 0..want.len() { check(same(&out[i], &want[i]), "not what fits the screen"); }
    check(room < 3 * nf || out.len() <= room, "more lines than the screen has");
}
c20_show {
    // both ways to show a file agree
    let (l, r) = (from_upto("l", 0, 3, b"a"), from_upto("r", 0, 2, b"a"));
    let head = flag("head");
    file_set("f", &catv(&[if head { b" CDX\tx\tyyy\n" } else { b"" }, &l, b"\t", &r, b"\nb", if flag("ragged") { b"\tc\td\n" } else { b"\n" }]));
    let rect = Rect::new(choice("width", 9), choice("height", 4));
    let mut v = vec![];
    ok(show2("f", &rect, &mut v, &TextFileMode::default()), "show2");
    file_set("<stdout>", b"");
    ok(show("f", &rect, &TextFileMode::default()), "show");
    let o = file_get("<stdout>").unwrap_or_default();
    let mut want = vec![];
    for x in v { want.extend_from_slice(x.as_bytes()); want.push(b'\n'); }
    check(same(&o, &want), "show and show2 differ");
}
}

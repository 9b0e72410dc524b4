//! C09: the reader yields exactly the lines and columns of the file
use crate::api::*;
use cdx::util::*;

struct Want {
    head: Option<Vec<Vec<u8>>>,
    lines: Vec<Vec<u8>>,
    /// length of the header line
    skip: usize,
}
/// read with the library and compare
fn read(data: &[u8], spec: &str, back: usize, split: bool, want: &Want) {
    file_set("dir/in", data);
    let text = ok(TextFileMode::new(spec), "text mode");
    let mut f = ok(Reader::new_open_with("dir/in", back, &text), "open failed");
    check(f.is_empty() == data.is_empty() || spec == "s", "wrong answer to: is the file empty");
    check(f.has_header() == want.head.is_some(), "header not recognized, or seen where there is none");
    if let Some(h) = &want.head {
        let n = f.names();
        check(n.len() == h.len(), "wrong number of column names");
        for (a, b) in n.iter().zip(h.iter()) {
            check(same(a.as_bytes(), b), "wrong column name");
        }
    } else if !want.lines.is_empty() {
        let n = f.names();
        check(n.len() == cols_of(&want.lines[0], text.delim).len(), "wrong number of invented column names");
        for (i, a) in n.iter().enumerate() {
            check(same(a.as_bytes(), &[b'c', b'1' + i as u8]), "wrong invented column name");
        }
    }
    f.do_split(split);
    let mut loc = FileLocList::new();
    ok(loc.push("line,bytes,name,name.1"), "file location");
    let mut off = want.skip;
    for (i, l) in want.lines.iter().enumerate() {
        check(!f.is_done(), "fewer lines than the file has");
        check(same(f.curr_nl(), l), "line differs from the file");
        check(same(f.curr_line().line(), &catv(&[l, b"\n"])), "line with newline differs");
        let mut w = vec![];
        ok(f.write_curr(&mut w), "write");
        check(same(&w, &catv(&[l, b"\n"])), "written line differs");
        if split {
            let c = cols_of(l, text.delim);
            check(f.curr_line().len() == c.len(), "wrong number of columns");
            for (j, x) in c.iter().enumerate() {
                check(same(f.curr_line().get(j), x), "wrong column");
            }
            check(f.curr_line().get(c.len()).is_empty(), "column past the end is not empty");
        }
        for b in 1..=back {
            if i >= b {
                check(same(f.prev_nl(b), &want.lines[i - b]), "previous line differs");
            }
        }
        check(f.line_number() == i + 1, "wrong line number");
        let mut w = vec![];
        ok(loc.write_data(&mut w, b'|', f.loc()), "file location");
        let s = format!("{}|{}|dir/in|in|", i + 1, off);
        check(same(&w, s.as_bytes()), "wrong file location");
        off += l.len() + 1;
        let done = ok(f.getline(), "getline failed");
        check(done == f.is_done(), "getline and is_done disagree");
    }
    check(f.is_done(), "more lines than the file has");
    if !want.lines.is_empty() && back > 0 {
        check(same(f.prev_nl(1), &want.lines[want.lines.len() - 1]), "last line is lost at end of file");
    }
    cover("end");
}
fn chunks() -> Vec<u8> {
    let n = choice("chunks", 4);
    (0..n).map(|_| 1 + choice("chunk", 3) as u8).collect()
}
fn no_head(data: &[u8]) -> Want {
    Want { head: None, lines: lines_lax(data), skip: 0 }
}

harness! {
c09_raw {
    // any contents whatever
    let d = bytes_upto("d", 0, tier(5, 6));
    if !d.is_empty() { assume(d[0] != b' '); }
    if d.len() >= 3 { assume(d[0] != 0x1f); }
    file_chunks("dir/in", &[]);
    let w = no_head(&d);
    read(&d, "", 1, flag("split"), &w);
}
c09_chunk {
    // read() returning few bytes at a time
    let d = from_upto("d", 0, tier(4, 5), b"a\t\n");
    file_chunks("dir/in", &chunks());
    let w = no_head(&d);
    read(&d, *pick("mode", &["", "n"]), 1 + choice("back", 2), true, &w);
}
c09_head {
    // the header, in every mode
    let h = *pick("head", &[&b" CDX\ta\tbc\n"[..], b" CDX\tx\n", b" CDX\ta\tbc", b" CD\ta\n", b"\n CDX\tb\n", b"CDX\ta\tb\n", b" cdx\ta\n", b""]);
    let d = if !h.is_empty() && h[h.len() - 1] != b'\n' { vec![] } else { from_upto("d", 0, 3, b"a\t\n") };
    let all = catv(&[h, &d]);
    file_chunks("dir/in", &chunks());
    let mode = *pick("mode", &["m", "n", "s", "y", ""]);
    let cdx = h.starts_with(b" CDX");
    let mut rest = lines_lax(&all);
    let mut w = Want { head: None, lines: vec![], skip: 0 };
    if !all.is_empty() && (mode == "y" || (cdx && mode != "n")) {
        let first = rest.remove(0);
        w.skip = first.len() + 1;
        if mode == "s" {
            w.skip = 0; // byte offsets after a skipped header are not claimed
        } else {
            let mut c = cols_of(&first, b'\t');
            if cdx { c.remove(0); }
            w.head = Some(c);
        }
    }
    w.lines = rest;
    read(&all, mode, 1, true, &w);
}
c09_delim {
    let (spec, d) = *pick("delim", &[("m,", b','), ("ns", b' '), ("m|", b'|'), ("mtp", b'\t')]);
    let x = bytes_upto("d", 0, 4);
    if !x.is_empty() { assume(x[0] != b' '); }
    if x.len() >= 3 { assume(x[0] != 0x1f); }
    let _ = d;
    let w = no_head(&x);
    read(&x, spec, 1, true, &w);
}
c09_reuse {
    // a longer line before a shorter one, more lines than the reader remembers
    let n = 2 + choice("lines", tier(3, 4));
    let l: Vec<Vec<u8>> = (0..n).map(|_| from_upto("l", 0, 2, b"a\t")).collect();
    let nl = ends(&l);
    let w = Want { head: None, lines: l.clone(), skip: 0 };
    read(&text_of(&l, nl), "", choice("back", 4), flag("split"), &w);
}
c09_big {
    // lines across the reader's buffers
    let pre = 8189 + choice("pre", 4);
    let d = catv(&[&vec![b'x'; pre], &from("d", 3, b"a\t\n"), b"y"]);
    let w = no_head(&d);
    read(&d, "", 1, true, &w);
}
c09_gzip {
    // compressed files, also in several members
    let (d, t): (Vec<u8>, &[u8]) = match choice("gz", 3) {
        0 => (GZ_C.to_vec(), b"x\ty\nz"),
        1 => (catv(&[GZ_A, GZ_B]), b" CDX\tp\tq\na\tb\nc\n"),
        _ => (catv(&[GZ_C, GZ_C]), b"x\ty\nzx\ty\nz"),
    };
    file_chunks("dir/in", &chunks());
    let mut w = no_head(t);
    if t[0] == b' ' {
        w = Want { head: Some(vec![b"p".to_vec(), b"q".to_vec()]), lines: lines_lax(&t[9..]), skip: 9 };
    }
    file_set("dir/in", &d);
    let f = ok(get_reader("dir/in"), "open");
    let mut all = vec![];
    let mut f = f;
    ok(std::io::Read::read_to_end(&mut *f, &mut all), "read");
    check(same(&all, t), "decompressed text differs");
    drop(f);
    file_chunks("dir/in", &chunks());
    read(&d, "", 1, true, &w);
}
}
const GZ_A: &[u8] = &[31, 139, 8, 0, 0, 0, 0, 0, 2, 255, 83, 112, 6, 0, 119, 38, 136, 59, 2, 0, 0, 0];
const GZ_B: &[u8] = &[31, 139, 8, 0, 0, 0, 0, 0, 2, 255, 115, 137, 224, 44, 224, 44, 228, 74, 228, 76, 226, 74, 230, 2, 0, 225, 135, 31, 81, 13, 0, 0, 0];
const GZ_C: &[u8] = &[31, 139, 8, 0, 0, 0, 0, 0, 2, 255, 171, 224, 172, 228, 170, 2, 0, 238, 48, 151, 99, 5, 0, 0, 0];

//! C08: column values survive being written and read back
use crate::api::*;
use cdx::util::*;

/// the values a reader of the mode gets back
fn stored(v: &[u8], m: &TextFileMode) -> Vec<u8> {
    v.iter().map(|c| if m.col_mode == QuoteMode::Plain && (*c == m.delim || *c == b'\n') { m.repl } else { *c }).collect()
}
fn row(m: &TextFileMode, v: &[Vec<u8>]) -> Vec<u8> {
    let mut w = vec![];
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            w.push(m.delim);
        }
        ok(m.write(&mut w, x), "write");
    }
    w.push(b'\n');
    w
}
/// write rows, read them back
fn trip(spec: &str, rows: &[Vec<Vec<u8>>]) {
    let m = ok(TextFileMode::new(spec), "text mode");
    let mut all = vec![];
    let mut raw = vec![];
    for r in rows {
        let t = row(&m, r);
        all.extend_from_slice(&t);
        raw.push(t);
    }
    file_set("in", &all);
    let back = choice("back", 2) + 1;
    let mut f = ok(Reader::new_open_with("in", back, &m), "open");
    let mut t = TextLine::new();
    for (i, r) in rows.iter().enumerate() {
        check(!f.is_done(), "rows are missing");
        check(f.curr_line().len() == r.len(), "wrong number of columns read back");
        for (j, v) in r.iter().enumerate() {
            check(same(f.curr_line().get(j), &stored(v, &m)), "a value read back differs");
        }
        check(f.curr_line().get(r.len()).is_empty(), "column past the end");
        // a line is copied as it was written
        let mut w = vec![];
        ok(f.write_curr(&mut w), "write");
        check(same(&w, &raw[i]), "copied line differs from the input");
        check(same(f.curr_line().line(), &raw[i]), "line differs from the input");
        check(same(f.curr_nl(), &raw[i][..raw[i].len() - 1]), "line without newline differs from the input");
        t.assign(f.curr_line());
        check(same(t.line(), &raw[i]), "assigned line differs");
        check(t.len() == r.len(), "assigned line has other columns");
        ok(f.getline(), "getline");
    }
    check(f.is_done(), "too many rows read back");
    cover("end");
}
fn vals(n: usize, hi: usize, al: &[u8]) -> Vec<Vec<u8>> {
    (0..n).map(|_| if al.is_empty() { bytes_upto("v", 0, hi) } else { from_upto("v", 0, hi, al) }).collect()
}
/// keep a first value from looking like a header or compressed data, which it may
fn start(r: &[Vec<Vec<u8>>]) {
    if let Some(x) = r.first().and_then(|r| r.first()).and_then(|v| v.first()) {
        assume(*x != b' ' && *x != 0x1f);
    }
}
fn mode() -> &'static str {
    pick("mode", &["ntb", "ntq", "ntp", "n,b", "n,q", "n;p_", "n b", "n|qs"])
}

harness! {
c08_one {
    // one value of any bytes
    let v = vals(1, tier(3, 4), b"");
    let m = mode();
    let r = [v];
    start(&r);
    trip(m, &r);
}
c08_two {
    let n = 1 + choice("cols", 2);
    let r = [vals(n, if n == 1 { 3 } else { tier(2, 3) }, b"\t\n\"\\nt,a")];
    start(&r);
    trip(*pick("mode", &["ntb", "ntq", "n,q", "n,b", "ntp"]), &r);
}
c08_rows {
    let r = [vals(2, 1, b"\t\n\"\\a"), vals(1 + choice("cols", 2), 1, b"\n\"\\b")];
    start(&r);
    trip(*pick("mode", &["ntb", "ntq", "ntp"]), &r);
}
c08_quote {
    // quotes in the middle of a value, as other programs write them
    let m = ok(TextFileMode::new("n,q"), "mode");
    let a = from_upto("a", 1, 2, b"x,");
    let b = from_upto("b", 0, 2, b"y\"");
    let k = choice("form", 3);
    if k == 0 { assume(!a.contains(&b',')); }
    let (t, w) = match k {
        // unquoted text, then ""
        0 => (catv(&[&a, b"\"\"z"]), catv(&[&a, b"\"z"])),
        1 => (catv(&[b"\"", &a, b"\"z"]), catv(&[&a, b"z"])),
        _ => (catv(&[b"q\"", &a, b"\""]), catv(&[b"q", &a])),
    };
    let mut all = catv(&[&t, b","]);
    ok(m.write(&mut all, &b), "write");
    all.push(b'\n');
    let mut l = TextLine::new();
    let eof = ok(m.read_line(&mut &all[..], l.raw()), "read");
    check(!eof, "no line");
    l.split(&m);
    check(l.len() == 2, "wrong number of columns");
    check(same(l.get(0), &w), "partly quoted value misread");
    check(same(l.get(1), &b), "value after a partly quoted value misread");
    cover("end");
}
c08_tool {
    // through the command line: converting between modes and copying lines
    let i = *pick("in", &["ntb", "ntq"]);
    let o = *pick("out", &["ntb", "ntq", "ntp_"]);
    let (mi, mo) = (ok(TextFileMode::new(i), "mode"), ok(TextFileMode::new(o), "mode"));
    let r = vals(2, 1, b"\t\n\"\\a");
    start(&[r.clone()]);
    let t = row(&mi, &r);
    file_set("in", &t);
    let (k, out) = tool(&["cut", "--text-in", i, "--text-out", o, "-f", "2,1", "in"]);
    check(k, "cut failed");
    check(same(&out, &row(&mo, &[r[1].clone(), r[0].clone()])), "values changed when converting between text modes");
    let (k, out) = tool(&["cgrep", "--text-in", i, "-p", "1,exact,a", "in"]);
    check(k, "cgrep failed");
    check(same(&out, if same(&r[0], b"a") { &t } else { b"" }), "line copied by cgrep differs");
    let (k, out) = tool(&["uniq", "--text-in", i, "-k", "1", "in"]);
    check(k, "uniq failed");
    check(same(&out, &t), "line copied by uniq differs");
    cover("end");
}
c08_copy {
    // lines that tools keep for later are written as they were read, and values compare as what they mean
    let i = *pick("in", &["ntb", "ntq", "n,q"]);
    let m = ok(TextFileMode::new(i), "mode");
    let n = 2 + choice("n", tier(1, 2));
    let rows: Vec<Vec<Vec<u8>>> = (0..n).map(|_| vec![from_upto("k", 0, 1, b"\t\"\\a"), from_upto("v", 0, 1, b"\n\"x")]).collect();
    start(&rows);
    let raw: Vec<Vec<u8>> = rows.iter().map(|r| row(&m, r)).collect();
    file_set("in", &raw.concat());
    let k = choice("tool", 7);
    let args: &[&str] = [&["uniq", "-k", "1", "-w", "last"][..], &["uniq", "-k", "1", "-w", "max,2"], &["uniq", "-k", "1", "-w", "min,2"], &["uniq", "-k", "1"], &["sample", "-r", "2,1"], &["sample", "-f", "2"], &["cat", "-p", "no"]][k];
    let mut want: Vec<u8> = vec![];
    if k < 4 {
        let mut i = 0;
        while i < n {
            let (mut j, mut best) = (i, i);
            while j < n && same(&rows[j][0], &rows[i][0]) {
                let o = rows[j][1].cmp(&rows[best][1]);
                if k == 0 || (k == 1 && o == std::cmp::Ordering::Greater) || (k == 2 && o == std::cmp::Ordering::Less) {
                    best = j;
                }
                j += 1;
            }
            want.extend_from_slice(&raw[best]);
            i = j;
        }
    } else if k == 5 {
        for r in raw.iter().step_by(2) {
            want.extend_from_slice(r);
        }
    } else if k == 4 {
        want = raw[..2].concat();
    } else {
        want = raw.concat();
    }
    let mut a = vec![args[0], "--text-in", i];
    a.extend_from_slice(&args[1..]);
    a.push("in");
    let (good, out) = tool(&a);
    check(good, "tool failed");
    check(same(&out, &want), "a line was changed in passing");
    cover("end");
}
}

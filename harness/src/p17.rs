//! C17: cat numbers, skips, removes and pads lines, paste puts lines side by side
use crate::api::*;

fn digits(n: i64) -> Vec<u8> {
    n.to_string().into_bytes()
}

harness! {
c17_number {
    // numbering, unnumbered and removed lines, over two files
    let head = flag("head");
    let skip = flag("skip");
    let remove = flag("remove");
    let (opt, start, end, name): (&str, Option<i64>, bool, &str) = *pick("opt", &[
        ("", None, false, ""), ("-b", Some(1), false, "number"), ("-e", Some(1), true, "number"),
        ("n,7,end", Some(7), true, "n"), ("n,-1", Some(-1), false, "n"), ("n", Some(0), false, "n"), ("n,0,BEGIN", Some(0), false, "n")]);
    assume(start.is_some() | skip | remove);
    let mut a: Vec<&str> = vec!["cat"];
    if !opt.is_empty() && opt.as_bytes()[0] == b'n' {
        a.push("-n");
    }
    if !opt.is_empty() {
        a.push(opt);
    }
    if skip {
        a.extend_from_slice(&["-s", "exact,x"]);
    }
    if remove {
        a.extend_from_slice(&["-r", "exact,y"]);
    }
    let mut n = start.unwrap_or(0);
    let mut want = vec![];
    if head {
        want.extend_from_slice(b" CDX\t");
        if start.is_some() && !end {
            want.extend_from_slice(name.as_bytes());
            want.push(b'\t');
        }
        want.push(b'h');
        if start.is_some() && end {
            want.push(b'\t');
            want.extend_from_slice(name.as_bytes());
        }
        want.push(b'\n');
    }
    for k in 0..2usize {
        let m = choice("lines", if k == 0 { tier(3, 4) } else { 2 });
        let ls: Vec<Vec<u8>> = (0..m).map(|_| from_upto("l", 0, 1, b"xyz")).collect();
        let t = text_of(&ls, ends(&ls));
        file_set(["f", "g"][k], &if head { catv(&[b" CDX\th\n", &t]) } else { t });
        for l in &ls {
            if remove && same(l, b"y") {
                continue;
            }
            let mut num = vec![];
            if !(skip && same(l, b"x")) {
                num = digits(n);
                n += 1;
            }
            let parts = if start.is_none() { vec![&l[..]] } else if end { vec![&l[..], &num[..]] } else { vec![&num[..], &l[..]] };
            for (i, p) in parts.iter().enumerate() {
                if i > 0 {
                    want.push(b'\t');
                }
                want.extend_from_slice(p);
            }
            want.push(b'\n');
        }
    }
    a.push("f");
    a.push("g");
    let (good, out) = tool(&a);
    check(good, "cat failed");
    check(same(&out, &want), "cat numbered, skipped or removed the wrong lines");
}
c17_pad {
    // newline padding at the end of each file, of the output, or not at all
    let mode = choice("mode", 4);
    let mut a = vec!["cat"];
    if mode < 3 {
        a.extend_from_slice(&["-p", ["yes", "No", "End"][mode]]);
    }
    a.extend_from_slice(&["f", "g"]);
    let head = flag("head");
    let h: &[u8] = if head { b" CDX\ta\n" } else { b"" };
    let mut want = h.to_vec();
    for k in 0..2usize {
        let t = bytes_upto("t", 0, tier(2, 3));
        for i in 0..t.len() {
            // not a header
            assume((i > 0) | (t[i] != b' ') | head);
        }
        file_set(["f", "g"][k], &catv(&[h, &t]));
        want.extend_from_slice(&t);
        if (mode == 0 || mode == 3) && !t.is_empty() && t[t.len() - 1] != b'\n' {
            want.push(b'\n');
        }
    }
    if mode == 2 && !want.is_empty() && want[want.len() - 1] != b'\n' {
        want.push(b'\n');
    }
    let (good, out) = tool(&a);
    check(good, "cat failed");
    check(same(&out, &want), "cat changed its input");
}
c17_big {
    // longer than the buffer of cat and of the reader
    let at = choice("at", 4);
    let size = [8190usize, 8192, 16384, 16390][choice("size", 4)];
    let mut t = vec![b'q'; size];
    let b = bytes("b", 4);
    for i in 0..4 {
        t[[0, 8190 - 4, size - 6, size - 4][at] + i] = b[i];
    }
    assume((t[0] != b' ') & (t[0] != 0x1f) & (t[size - 1] != b'\n'));
    t.push(b'\n');
    file_set("f", &t);
    let (good, out) = tool(&["cat", "f", "f"]);
    check(good, "cat failed");
    check(same(&out, &catv(&[&t, &t])), "cat changed a large file");
}
c17_paste {
    // two or three files of one or two columns, of different lengths
    let nf = 2 + choice("files", 2);
    let mode = choice("mode", 4); // exact (default), exact, early, late
    let head = flag("head");
    let fill = if mode == 3 { choice("fill", if head { 5 } else { 4 }) } else { 0 };
    let col = if fill == 2 || fill == 4 { choice("col", nf + 1) } else { 9 };
    let mut a = vec!["paste"];
    if mode > 0 {
        a.extend_from_slice(&["-e", ["exact", "Early", "late"][mode - 1]]);
    }
    match fill {
        1 => a.extend_from_slice(&["-d", "zz"]),
        2 => a.extend_from_slice(&["-d", "zz", "-d", ["w,1", "w,2", "w,3", "w,4"][col]]),
        4 => a.extend_from_slice(&["-d", "zz", "-d", ["w,a", "w,b", "w,c", "w,d"][col]]),
        3 => a.push("-l"),
        _ => {}
    }
    let mut rows: Vec<Vec<Vec<u8>>> = vec![];
    for k in 0..nf {
        let m = choice("lines", if nf == 2 { 3 } else { tier(2, 3) });
        // without header the number of columns is known from the first line only
        let two = k == 0;
        assume(head | (m > 0));
        let v: Vec<Vec<u8>> = (0..m)
            .map(|_| {
                let x = bytes("v", 1);
                assume((x[0] != b'\n') & (x[0] != b'\t') & (x[0] != b' '));
                if two { catv(&[&x, b"\t", &x]) } else { x }
            })
            .collect();
        let h: &[u8] = if head { [&b" CDX\ta\tb\n"[..], b" CDX\tc\n", b" CDX\td\n"][k] } else { b"" };
        let nl = k > 0 || v.is_empty() || flag("nl");
        file_set(["f", "g", "h"][k], &catv(&[h, &text_of(&v, nl)]));
        a.push(["f", "g", "h"][k]);
        rows.push(v);
    }
    let longest = rows.iter().map(Vec::len).max().unwrap_or(0);
    let shortest = rows.iter().map(Vec::len).min().unwrap_or(0);
    let (good, out) = tool(&a);
    check(good == (mode >= 2 || longest == shortest), "paste accepts files of different lengths, or refuses good ones");
    let mut want = if head { if nf == 2 { b" CDX\ta\tb\tc\n".to_vec() } else { b" CDX\ta\tb\tc\td\n".to_vec() } } else { vec![] };
    for i in 0..if mode == 3 { longest } else { shortest } {
        for (k, r) in rows.iter().enumerate() {
            if k > 0 {
                want.push(b'\t');
            }
            if i < r.len() {
                want.extend_from_slice(&r[i]);
            } else if fill == 3 && !r.is_empty() {
                want.extend_from_slice(&r[r.len() - 1]);
            } else {
                let d: &[u8] = if fill != 0 && fill != 3 { b"zz" } else { b"" };
                if k == 0 {
                    want.extend_from_slice(if col == 0 { b"w" } else { d });
                    want.push(b'\t');
                }
                want.extend_from_slice(if col == k + 1 { b"w" } else { d });
            }
        }
        want.push(b'\n');
    }
    check(same(&out, &want), "paste wrote the wrong rows");
    cover(if good { "good" } else { "bad" });
}
c17_names {
    // repeated column names
    let x = bytes("x", 1);
    assume((x[0] == b'a') | (x[0] == b'b'));
    let y = bytes("y", 1);
    assume((y[0] == b'a') | (y[0] == b'c'));
    file_set("f", &catv(&[b" CDX\ta\t", &y, b"1\n1\t2\n"]));
    file_set("g", &catv(&[b" CDX\t", &x, b"\n3\n"]));
    let dup = x[0] == b'a';
    let used = y[0] == b'a';
    let mut want = catv(&[b" CDX\ta\t", &y, b"1\t"]);
    let mut bad = false;
    let k = choice("k", 7);
    let a: &[&str] = match k {
        0 => { bad = dup; want.extend_from_slice(&x); &["paste", "f", "g"] }
        1 => { bad = dup; want.extend_from_slice(&x); &["paste", "-D", "fail", "f", "g"] }
        2 => { want.extend_from_slice(&x); &["paste", "-D", "allow", "f", "g"] }
        3 => { want.extend_from_slice(if !dup { &x } else if used { b"a2" } else { b"a1" }); &["paste", "-D", "Numeric", "f", "g"] }
        4 => { bad = !dup; want.extend_from_slice(b"z"); &["paste", "-r", "a.z", "f", "g"] }
        5 => { want.extend_from_slice(if dup { b"z" } else { &x }); &["paste", "-R", "-r", "a.z", "f", "g"] }
        _ => { bad = (dup & used) | !dup; want.extend_from_slice(b"a1"); &["paste", "-r", "a.a1", "f", "g"] }
    };
    want.extend_from_slice(b"\n1\t2\t3\n");
    let (good, out) = tool(a);
    check(good != bad, "repeated column names are accepted or refused wrongly");
    if !bad {
        check(same(&out, &want), "repeated column names are handled wrongly");
    }
    cover(if good { "good" } else { "bad" });
}
c17_default {
    // values for some columns, and a default for the others
    let mut v = cdx::column::ScopedValues::new();
    let n = choice("n", 3);
    let d = from("default", 1, b"0123456789");
    v.set_default(&String::from_utf8_lossy(&d));
    let names = ["a", "b", "c"];
    let mut want = vec![d[0]; n];
    let mut set = vec![false; n];
    let mut bad = false;
    for _ in 0..choice("values", 3) {
        let x = from("value", 1, b"0123456789");
        let c = choice("col", 5); // a 3 2 end- 2-
        let cs = ["a", "3", "2", "+1", "2-"][c];
        if flag("one") {
            ok(v.add(&format!("{},{}", String::from_utf8_lossy(&x), cs), ','), "add");
        } else {
            ok(v.add2(&String::from_utf8_lossy(&x), cs), "add2");
        }
        if c == 0 { bad |= n == 0; }
        if c == 3 { bad |= n == 0; }
        if c == 4 { bad |= n < 2; }
        for i in 0..n {
            let hit = match c { 0 => i == 0, 1 => i == 2, 2 => i == 1, 3 => i + 1 == n, _ => i >= 1 };
            if hit {
                want[i] = x[0];
                set[i] = true;
            }
        }
    }
    let r = v.lookup(&names[..n]);
    if !bad || r.is_ok() {
        check(r.is_ok(), "a default value is refused");
        if n > 0 {
            ok(v.make_ints(), "make_ints");
            ok(v.make_floats(), "make_floats");
        }
        for i in 0..n {
            check(same(v.get(i).as_bytes(), &[want[i]]), "wrong default value");
            check(v.has_value(i) == set[i], "wrong word on whether there is a value");
            check(v.get_int(i) == isize::from(want[i] - b'0'), "wrong integer value");
            check(v.get_float(i) == f64::from(want[i] - b'0'), "wrong floating point value");
        }
        check(!v.has_value(n), "a column which is not there has a value");
    }
    cover(if r.is_ok() { "good" } else { "bad" });
}
}

//! C11: files are combined under one header, or refused
use crate::api::*;
use cdx::util::*;

const A: &[u8] = b" CDX\ta\tb\n";
const B: &[u8] = b" CDX\ta\tc\n";
/// a file of one of five kinds: (header, data lines)
fn file(kind: usize, al: &[u8]) -> (Vec<u8>, Vec<Vec<u8>>) {
    let data = |lo: usize| -> Vec<Vec<u8>> {
        let n = lo + choice("lines", 3 - lo);
        (0..n).map(|_| from_upto("d", 1, tier(1, 2), al)).collect()
    };
    match kind {
        0 => (vec![], vec![]),
        1 => (A.to_vec(), data(0)),
        2 => (vec![], data(1)),
        _ => (B.to_vec(), data(0)),
    }
}
fn combine(args: &[&str], num: bool, files: &[(Vec<u8>, Vec<Vec<u8>>)]) {
    let mut names = vec![];
    for (i, f) in files.iter().enumerate() {
        let n = format!("f{i}");
        let nl = f.1.is_empty() || f.1[f.1.len() - 1].is_empty() || flag("nl");
        file_set(&n, &catv(&[&f.0, &text_of(&f.1, nl)]));
        names.push(n);
    }
    let mut bad = false;
    let mut head: Option<&[u8]> = None;
    let mut want = vec![];
    for f in files {
        if f.0.is_empty() && f.1.is_empty() {
            continue;
        }
        match head {
            None => {
                head = Some(&f.0);
                want = if num && !f.0.is_empty() { catv(&[b" CDX\tn", &f.0[4..]]) } else { f.0.clone() };
            }
            Some(h) => bad |= !same(h, &f.0),
        }
        want.extend_from_slice(&text_of(&f.1, true));
    }
    let mut v = args.to_vec();
    v.extend(names.iter().map(|x| x.as_str()));
    let (k, out) = tool(&v);
    check(k != bad, if bad { "files with different headers were combined" } else { "files with the same header were refused" });
    if !bad {
        check(same(&out, &want), "output is not the header once, followed by the lines of every file");
    }
    cover(if bad { "bad" } else { "good" });
}

harness! {
c11_mode {
    // the documented modes, for any sequence of first lines
    let (m, name) = *pick("mode", &[(0, "Match"), (1, "require"), (2, "STRIP"), (3, "none"), (4, "trust"), (5, "ignore")]);
    let mut c = HeaderChecker::from_mode(ok(name.parse::<HeaderMode>(), "mode"));
    let mut first: Option<Vec<u8>> = None;
    for _ in 0..tier(3, 4) {
        let l: Vec<u8> = match choice("line", 5) {
            0 => A.to_vec(),
            1 => B.to_vec(),
            2 => catv(&[b"x", &bytes("d", 1)]),
            3 => catv(&[b" CDX\t", &from("h", 1, b"abZ"), b"\n"]),
            _ => vec![],
        };
        let cdx = l.first() == Some(&b' ');
        let head: Vec<u8> = if cdx { l.clone() } else { vec![] };
        let same_head = first.as_ref().map_or(true, |f| same(f, &head));
        let is_first = first.is_none();
        let want = if l.is_empty() {
            Some(false)
        } else {
            match m {
                0 => if same_head { Some(is_first || !cdx) } else { None },
                1 => if cdx && same_head { Some(is_first) } else { None },
                2 => Some(!cdx),
                3 => if cdx { None } else { Some(true) },
                4 => Some(is_first || !cdx),
                _ => Some(true),
            }
        };
        let got = c.check(&l, "f");
        match (want, got) {
            (None, r) => {
                check(r.is_err(), "header that breaks the mode was accepted");
                cover("bad");
                return;
            }
            (Some(w), Ok(g)) => check(w == g, "wrong decision whether the first line belongs in the output"),
            (Some(_), Err(_)) => fail("header that the mode allows was refused"),
        }
        if !l.is_empty() && is_first {
            first = Some(head);
        }
    }
    cover("good");
}
c11_names {
    // which headers are well formed
    let x = bytes_upto("h", 1, tier(3, 4));
    for b in &x {
        assume(*b != b'\n' && *b < 128);
    }
    let delim = *pick("delim", &[b'\t', b',', b' ']);
    let mut good = true;
    for c in cols_of(&x, delim) {
        good &= !c.is_empty() && c[0].is_ascii_alphabetic();
        for b in c {
            good &= b.is_ascii_alphanumeric() || b == b'_';
        }
    }
    let mut c = HeaderChecker::new();
    let r = c.check(&catv(&[b" CDX", &[delim], &x, b"\n"]), "f");
    check(r.is_ok() == good, "header with a bad column name accepted, or a good one refused");
    cover(if good { "good" } else { "bad" });
}
c11_cat {
    let a: &[&str] = *pick("tool", &[&["cat"][..], &["cat", "-p", "End"], &["cat", "-r", "exact,QQQ"], &["cgrep"]]);
    let f: Vec<_> = (0..2).map(|_| file(choice("kind", 4), b"x\t")).collect();
    if a.len() == 3 && a[1] == "-p" {
        // joined without newlines only if told so
        for g in &f { assume(g.1.is_empty() || g.1.len() == 2); }
        let t: Vec<Vec<u8>> = f.iter().map(|g| catv(&[&g.0, &text_of(&g.1, true)])).collect();
        file_set("f0", &t[0]);
        file_set("f1", &t[1]);
        if (f[0].0.is_empty() && f[0].1.is_empty()) || (f[1].0.is_empty() && f[1].1.is_empty()) || same(&f[0].0, &f[1].0) {
            let (k, out) = tool(&["cat", "-p", "End", "f0", "f1"]);
            check(k, "cat failed");
            let h = if f[0].0.is_empty() { &f[1].0 } else { &f[0].0 };
            check(same(&out, &catv(&[h, &text_of(&f[0].1, true), &text_of(&f[1].1, true)])), "cat -p End is wrong");
        }
        cover("good");
        return;
    }
    combine(a, false, &f);
}
c11_three {
    let a: &[&str] = *pick("tool", &[&["cat"][..], &["cgrep"], &["cut", "-f", "1,2"], &["sample", "-r", "1-9"]]);
    let mut f: Vec<_> = (0..3).map(|_| file(choice("kind", 4), b"x")).collect();
    for g in f.iter_mut() {
        for l in g.1.iter_mut() {
            l.extend_from_slice(b"\ty");
        }
    }
    combine(a, false, &f);
}
c11_any {
    // whatever follows " CDX" in the first line, no tool crashes
    let h = bytes_upto("h", 0, tier(2, 3));
    let t = *pick("rest", &[&b""[..], b"\n", b"\na\tb\n", b"\ta\nx"]);
    file_set("f", &catv(&[b" CDX", &h, t]));
    file_set("g", b" CDX\ta\nx\n");
    let args: &[&str] = *pick("tool", &[&["cat", "f"][..], &["cat", "-b", "f"], &["cut", "-f", "1", "f"], &["cgrep", "-p", "1,exact,a", "f"], &["sort", "f"], &["sort", "-c", "f"], &["sort", "-m", "f", "g"],
        &["uniq", "-k", "1", "f"], &["binsearch", "x", "f"], &["join", "f", "g"], &["paste", "f", "g"], &["verify", "f"], &["sample", "-r", "1", "f"], &["transpose", "f"], &["wc", "f"], &["wc", "-C", "f"]]);
    let _ = tool(args);
    cover("end");
}
}

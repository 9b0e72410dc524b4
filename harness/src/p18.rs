//! C18: transforms
use crate::api::*;
use cdx::prelude::*;
use cdx::trans::*;

fn run(spec: &str, v: &[u8]) -> Option<Vec<u8>> {
    let mut t = ok(TransList::new(spec), "transform refused");
    let l = TextLine::new();
    // a second use of the same chain is not affected by the first
    let first = match t.trans(v, &l) {
        Ok(r) => Some(r.to_vec()),
        Err(_) => None,
    };
    let second = match t.trans(v, &l) {
        Ok(r) => Some(r.to_vec()),
        Err(_) => None,
    };
    match (&first, &second) {
        (Some(a), Some(b)) => check(same(a, b), "using a transform twice gives different results"),
        (None, None) => {}
        _ => fail("using a transform twice gives different results"),
    }
    first
}
fn digit(b: u8) -> usize {
    let k = choice("digit", 10);
    assume(b == b'0' + k as u8);
    k
}
fn lower(b: u8) -> u8 {
    b + 32 * u8::from((b >= b'A') & (b <= b'Z'))
}
fn upper(b: u8) -> u8 {
    b - 32 * u8::from((b >= b'a') & (b <= b'z'))
}
/// words separated by single blanks
fn norm(v: &[u8]) -> Vec<u8> {
    let mut r: Vec<u8> = vec![];
    let mut gap = false;
    for b in v {
        if *b <= b' ' {
            gap = true;
        } else {
            if gap && !r.is_empty() {
                r.push(b' ');
            }
            gap = false;
            r.push(*b);
        }
    }
    r
}
fn six(n: u8) -> u8 {
    match n {
        0..=25 => b'A' + n,
        26..=51 => b'a' + (n - 26),
        52..=61 => b'0' + (n - 52),
        62 => b'+',
        _ => b'/',
    }
}
fn base64(v: &[u8]) -> Vec<u8> {
    let mut r = vec![];
    for c in v.chunks(3) {
        let (a, b, d) = (c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0));
        r.push(six(a >> 2));
        r.push(six((a & 3) << 4 | b >> 4));
        r.push(if c.len() > 1 { six((b & 15) << 2 | d >> 6) } else { b'=' });
        r.push(if c.len() > 2 { six(d & 63) } else { b'=' });
    }
    r
}

harness! {
c18_case {
    let v = bytes_upto("v", 0, tier(4, 6));
    let low = flag("low");
    let r = run(if low { "lower" } else { "upper" }, &v);
    let w: Vec<u8> = v.iter().map(|b| if low { lower(*b) } else { upper(*b) }).collect();
    check(same(&ok(r.ok_or(()), "transform failed"), &w), "lower or upper changed the wrong characters");
}
c18_alias {
    // the other names, also as the first transform of the program
    let v = bytes_upto("v", 1, 2);
    let low = flag("low");
    let r = run(if low { "lowercase" } else { "uppercase" }, &v);
    let w: Vec<u8> = v.iter().map(|b| if low { lower(*b) } else { upper(*b) }).collect();
    check(same(&ok(r.ok_or(()), "transform failed"), &w), "lowercase or uppercase changed the wrong characters");
}
c18_norm {
    let v = bytes_upto("v", 0, tier(4, 6));
    let r = ok(run("normspace", &v).ok_or(()), "transform failed");
    check(same(&r, &norm(&v)), "normspace is not words separated by single blanks");
}
c18_utf8 {
    // ASCII text is treated the same in utf8 mode; a few other letters
    let v = bytes_upto("v", 0, tier(3, 4));
    for b in &v {
        assume((*b < 127) & ((*b >= b' ') | (*b == b'\t') | (*b == b'\n')));
    }
    let k = choice("k", 3);
    let r = ok(run(["utf8.lower", "upper.utf8", "normspace.utf8"][k], &v).ok_or(()), "transform failed");
    let w: Vec<u8> = match k {
        0 => v.iter().map(|b| lower(*b)).collect(),
        1 => v.iter().map(|b| upper(*b)).collect(),
        _ => norm(&v),
    };
    check(same(&r, &w), "utf8 transform changed ASCII text wrongly");
}
c18_base64 {
    let v = if flag("any") { bytes_upto("v", 0, tier(2, 3)) } else { from_upto("v", 3, tier(4, 5), &[0, b'a', 0x80, 0xff]) };
    let e = ok(run("to_base64", &v).ok_or(()), "to_base64 failed");
    check(same(&e, &base64(&v)), "to_base64 is not base64");
    let d = ok(run("from_base64", &e).ok_or(()), "from_base64 refused the output of to_base64");
    check(same(&d, &v), "from_base64 does not undo to_base64");
}
c18_bytes {
    let v = bytes_upto("v", 0, 4);
    let s = from_upto("s", 1, 3, b"01234-,");
    // oracle
    let mut want = vec![];
    let mut bad = false;
    for item in cols_of(&s, b',') {
        let p = cols_of(&item, b'-');
        let num = |t: &Vec<u8>| -> Option<usize> {
            let mut n = 0;
            for b in t {
                if !b.is_ascii_digit() {
                    return None;
                }
                n = n * 10 + digit(*b);
            }
            Some(n)
        };
        let r = match p.len() {
            1 => num(&p[0]).map(|x| (x, x)),
            2 => num(&p[0]).and_then(|x| num(&p[1]).map(|y| (x, y))),
            _ => None,
        };
        match r {
            Some((x, y)) if x > 0 && x <= y => {
                for i in x - 1..y {
                    if i < v.len() {
                        want.push(v[i]);
                    }
                }
            }
            _ => bad = true,
        }
    }
    let spec = catv(&[b"bytes,", &s]);
    let Ok(spec) = std::str::from_utf8(&spec) else { fail("alphabet") };
    match TransList::new(spec) {
        Err(_) => {
            check(bad, "byte ranges are refused");
            cover("bad");
        }
        Ok(mut t) => {
            check(!bad, "malformed byte ranges are accepted");
            let r = ok(t.trans(&v, &TextLine::new()), "bytes failed").to_vec();
            check(same(&r, &want), "bytes selected the wrong bytes");
            cover("good");
        }
    }
}
c18_chain {
    // one transform after the other, in every order and length
    const N: [&str; 4] = ["lower", "normspace", "bytes,2-3", "upper"];
    let v = bytes_upto("v", 0, 3);
    let n = 1 + choice("n", 3);
    let mut spec = String::new();
    let mut w = v.clone();
    for i in 0..n {
        let k = choice("k", 4);
        if i > 0 {
            spec.push('+');
        }
        spec.push_str(N[k]);
        w = match k {
            0 => w.iter().map(|b| lower(*b)).collect(),
            1 => norm(&w),
            2 => w.iter().skip(1).take(2).copied().collect(),
            _ => w.iter().map(|b| upper(*b)).collect(),
        };
    }
    let r = ok(run(&spec, &v).ok_or(()), "chain failed");
    check(same(&r, &w), "chain of transforms is not their composition");
}
c18_cut {
    // in a column specification, only the column it is given for
    let (x, y) = (word("x", 0, 2, b"aB c"), word("y", 0, 2, b"aB c"));
    file_set("f", &catv(&[b" CDX\tp\tq\n", &x, b"\t", &y, b"\n"]));
    let up = |v: &[u8]| -> Vec<u8> { v.iter().map(|b| upper(*b)).collect() };
    let lo = |v: &[u8]| -> Vec<u8> { v.iter().map(|b| lower(*b)).collect() };
    let k = choice("k", 5);
    let args: &[&str] = [
        &["cut", "-f", "p+upper", "-f", "q", "f"][..], &["cut", "-f", "p", "-f", "q+lower", "f"], &["cut", "-f", "p+normspace+upper", "-f", "2", "f"],
        &["cut", "-f", "1,2+upper", "f"], &["cut", "-f", "q+uppercase", "-f", "p+lowercase", "f"]][k];
    let (a, b, h): (_, _, &[u8]) = match k {
        0 => (up(&x), y.clone(), b"p\tq"),
        1 => (x.clone(), lo(&y), b"p\tq"),
        2 => (up(&norm(&x)), y.clone(), b"p\tq"),
        3 => (up(&x), up(&y), b"p\tq"),
        _ => (up(&y), lo(&x), b"q\tp"),
    };
    let (good, out) = tool(args);
    check(good, "cut failed");
    check(same(&out, &catv(&[b" CDX\t", h, b"\n", &a, b"\t", &b, b"\n"])), "cut transformed the wrong column");
}
c18_unknown {
    let s = from_upto("s", 0, 3, b"up.,+8");
    let Ok(s) = std::str::from_utf8(&s) else { fail("alphabet") };
    check(TransList::new(s).is_err(), "unknown transform accepted");
}
c18_letters {
    // letters beyond ASCII, and what is no text at all
    const P: [(&str, &str); 7] = [("a", "A"), ("\u{e9}", "\u{c9}"), ("\u{3c9}", "\u{3a9}"), ("\u{436}", "\u{416}"), ("\u{df}", "SS"), ("\u{101}", "\u{100}"), ("-", "-")];
    let n = 1 + choice("n", 2);
    let up = flag("up");
    let (mut s, mut w) = (String::new(), String::new());
    for _ in 0..n {
        let p = pick("p", &P);
        if p.1 == "SS" { assume(up); }
        s.push_str(if up { p.0 } else { p.1 });
        w.push_str(if up { p.1 } else { p.0 });
    }
    let r = ok(run(if up { "utf8.upper" } else { "utf8.lower" }, s.as_bytes()).ok_or(()), "transform failed");
    check(same(&r, w.as_bytes()), "case of letters beyond ASCII is wrong");
    // bytes mode leaves them alone
    let r = ok(run(if up { "upper" } else { "lower" }, s.as_bytes()).ok_or(()), "transform failed");
    let v: Vec<u8> = s.bytes().map(|b| if up { upper(b) } else { lower(b) }).collect();
    check(same(&r, &v), "letters beyond ASCII changed without utf8");
    // blanks beyond ASCII
    let b = *pick("blank", &[" ", "\u{a0}", "\u{2003}", "\u{3000}", "\t "]);
    let t = format!("{}{s}{b}x{}", if flag("lead") { b } else { "" }, if flag("trail") { b } else { "" });
    let r = ok(run("utf8.normspace", t.as_bytes()).ok_or(()), "transform failed");
    check(same(&r, format!("{s} x").as_bytes()), "normspace beyond ASCII is wrong");
}
}

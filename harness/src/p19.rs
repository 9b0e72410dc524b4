//! C19: sample selects the lines it was asked for
use crate::api::*;
use cdx::sampler::Smooth;

/// lines 1 to n, each with its number and an arbitrary byte
fn file(n: usize) -> (Vec<Vec<u8>>, Vec<u8>) {
    let x = bytes("x", 1);
    assume((x[0] != b'\n') & (x[0] != b'\t'));
    let v: Vec<Vec<u8>> = (1..=n).map(|i| catv(&[i.to_string().as_bytes(), &x])).collect();
    let t = text_of(&v, n == 0 || flag("nl"));
    (v, t)
}
fn number(t: &[u8]) -> Option<usize> {
    let mut n = 0usize;
    for b in t {
        if !((*b >= b'0') & (*b <= b'9')) {
            return None;
        }
        n = n * 10 + digit(*b);
    }
    Some(n)
}
fn digit(b: u8) -> usize {
    let k = choice("digit", 10);
    assume(b == b'0' + k as u8);
    k
}
fn spaced(out: &[Vec<u8>], all: &[Vec<u8>], k: usize) {
    let k = k.max(2);
    let n = all.len();
    check(out.len() == if n < k { n } else { k }, "sample has the wrong size");
    if n == 0 {
        return;
    }
    let mut at = 0;
    let mut last = 0;
    let mut gap = 0;
    for (i, l) in out.iter().enumerate() {
        while at < n && !same(&all[at], l) {
            at += 1;
        }
        check(at < n, "sample is not some of the lines in their order");
        if at >= n {
            return;
        }
        if i == 0 {
            check(at == 0, "sample does not begin with the first line");
        } else if at - last > gap {
            gap = at - last;
        }
        last = at;
        at += 1;
    }
    check(last + 1 == n, "sample does not end with the last line");
    // more or less evenly
    check(gap * (k - 1) <= 3 * n, "sample is unevenly spaced");
}

harness! {
c19_smooth {
    let k = choice("k", tier(7, 10));
    let n = choice("n", tier(24, 60));
    let v: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8]).collect();
    let mut s = Smooth::new(k);
    for l in &v {
        s.add(l);
    }
    let mut o: Vec<u8> = vec![];
    ok(s.finalize(&mut o), "sample failed");
    let out: Vec<Vec<u8>> = o.iter().map(|b| vec![*b]).collect();
    spaced(&out, &v, k);
}
c19_sample {
    let n = choice("n", tier(7, 12));
    let k = choice("k", 5);
    let (v, t) = file(n);
    let head = flag("head");
    let h: &[u8] = if head { b" CDX\ta\n" } else { b"" };
    file_set("f", &catv(&[h, &t]));
    let (good, out) = tool(&["sample", "-s", &k.to_string(), "f"]);
    check(good, "sample failed");
    check(same(&out[..h.len()], h), "sample lost the header");
    spaced(&lines_of(&out[h.len()..]), &v, k);
}
c19_for {
    let (v, t) = file(5);
    file_set("f", &t);
    let s = from_upto("s", 0, tier(5, 6), b"0123,x");
    let p = cols_of(&s, b',');
    let mut a = [1usize, 1, 99];
    let mut bad = s.is_empty() || p.len() > 3;
    for (i, x) in p.iter().enumerate().take(3) {
        match number(x) {
            Some(n) if n > 0 => a[i] = n,
            _ => bad = true,
        }
    }
    let Ok(s) = std::str::from_utf8(&s) else { fail("alphabet") };
    let (good, out) = tool(&["sample", "-f", s, "f"]);
    check(good != bad, "for specification accepted or refused wrongly");
    if !bad {
        let mut want = vec![];
        let mut i = a[1];
        while i <= a[2] && i <= 5 {
            want.push(v[i - 1].clone());
            i += a[0];
        }
        check(same(&out, &text_of(&want, true)), "sample --for wrote the wrong lines");
    }
    cover(if good { "good" } else { "bad" });
}
c19_range {
    let (v, t) = file(5);
    file_set("f", &t);
    let s = from_upto("s", 1, tier(4, 5), b"0136,-");
    let mut pick = [false; 6];
    let mut bad = false;
    for x in cols_of(&s, b',') {
        let p = cols_of(&x, b'-');
        let r = match p.len() {
            1 => number(&p[0]).map(|x| (x, x)),
            2 => number(&p[0]).and_then(|x| number(&p[1]).map(|y| (x, y))),
            _ => None,
        };
        match r {
            None => bad = true,
            Some((x, y)) => {
                for i in 1..6 {
                    pick[i] |= (x <= i) & (i <= y);
                }
            }
        }
    }
    let Ok(s) = std::str::from_utf8(&s) else { fail("alphabet") };
    assume(s.as_bytes()[0] != b'-');
    let (good, out) = tool(&["sample", "-r", s, "f"]);
    check(good != bad, "range accepted or refused wrongly");
    if !bad {
        let mut want = vec![];
        for i in 1..6 {
            if pick[i] {
                want.push(v[i - 1].clone());
            }
        }
        check(same(&out, &text_of(&want, true)), "sample --range wrote the wrong lines");
    }
    cover(if good { "good" } else { "bad" });
}
c19_files {
    // line numbers and samples are per file
    let (v, t) = file(3);
    let w = vec![b"p".to_vec(), b"q".to_vec()];
    file_set("f", &t);
    file_set("g", b"p\nq\n");
    let (args, pf, pg): (&[&str], &[usize], &[usize]) = *pick("k", &[
        (&["sample", "-r", "2-3", "f", "g"][..], &[1, 2][..], &[1][..]), (&["sample", "-f", "2", "f", "g"], &[0, 2], &[0]),
        (&["sample", "-s", "2", "f", "g"], &[0, 2], &[0, 1]), (&["sample", "-f", "1,3", "f", "g"], &[2], &[])]);
    let (good, out) = tool(args);
    check(good, "sample failed");
    let mut want = vec![];
    for i in pf {
        want.push(v[*i].clone());
    }
    for i in pg {
        want.push(w[*i].clone());
    }
    check(same(&out, &text_of(&want, true)), "sample of two files wrote the wrong lines");
}
}

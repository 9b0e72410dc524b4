//! C12: patterns match exactly what their method says; cgrep selects exactly the matching lines
use crate::api::*;
use cdx::matcher::*;
use cdx::prelude::*;

fn st(v: &[u8]) -> &str {
    ok(std::str::from_utf8(v), "ascii")
}
fn lower(b: u8) -> u8 {
    b | (u8::from(b >= b'A' && b <= b'Z') << 5)
}
fn fold(v: &[u8], ic: bool) -> Vec<u8> {
    if ic { v.iter().map(|b| lower(*b)).collect() } else { v.to_vec() }
}
fn trim(v: &[u8]) -> &[u8] {
    let mut v = v;
    while !v.is_empty() && v[0] <= b' ' {
        v = &v[1..];
    }
    while !v.is_empty() && v[v.len() - 1] <= b' ' {
        v = &v[..v.len() - 1];
    }
    v
}
fn starts(h: &[u8], n: &[u8]) -> bool {
    n.len() <= h.len() && same(&h[..n.len()], n)
}
/// does `m` (0 exact, 1 prefix, 2 suffix, 3 infix) accept?
fn plain(m: usize, h: &[u8], n: &[u8]) -> bool {
    match m {
        0 => same(h, n),
        1 => starts(h, n),
        2 => n.len() <= h.len() && same(&h[h.len() - n.len()..], n),
        _ => {
            let mut r = n.is_empty();
            for i in 0..h.len() {
                r |= starts(&h[i..], n);
            }
            r
        }
    }
}
const NAME: [&str; 4] = ["exact", "prefix", "suffix", "infix"];
/// shell wildcard match, by dynamic programming
fn glob<T: Copy + PartialEq>(w: &[T], b: &[T], star: T, any: T) -> bool {
    let mut row: Vec<bool> = vec![false; b.len() + 1];
    row[0] = true;
    for p in w {
        let s = *p == star;
        let mut next = vec![row[0] & s];
        for j in 0..b.len() {
            let hit = (*p == any) | (*p == b[j]);
            let v = (s & (row[j + 1] | next[j])) | (!s & hit & row[j]);
            next.push(v);
        }
        row = next;
    }
    row[b.len()]
}
fn det(spec: usize, yes: usize, no: usize, k: usize) -> bool {
    match spec {
        0 => no == 0,
        1 => yes > 0,
        2 => yes == 0,
        3 => no > 0,
        4 => yes > 0 && no > 0,
        5 => yes == 0 || no == 0,
        6 => yes <= k,
        7 => yes >= k,
        8 => yes == k,
        9 => no <= k,
        10 => no >= k,
        _ => no == k,
    }
}
const DET: [&str; 12] = ["all", "some", "none", "notall", "mixed", "uniform", "atmost,", "atleast,", "exactly,", "atmostno,", "atleastno,", "exactlyno,"];

harness! {
c12_text {
    // exact, prefix, suffix, infix, with and without case, on arbitrary bytes
    let m = choice("method", 4);
    let ic = flag("case");
    let p = bytes_upto("p", 0, 2);
    for b in &p { assume(*b < 128); }
    let v = bytes_upto("v", 0, tier(3, 4));
    let want = plain(m, &fold(&v, ic), &fold(&p, ic));
    let spec = format!("{}{},{}", if ic { "case." } else { "" }, NAME[m], st(&p));
    let c = ok(MatchMaker::make(&spec), "matcher");
    check(c.umatch(&v) == want, "matcher does not do what its name says");
    cover(if want { "yes" } else { "no" });
}
c12_mods {
    // modifiers: not, trim, null, in any combination
    let m = choice("method", 4);
    let (not, tr, null) = (flag("not"), flag("trim"), flag("null"));
    let p = from_upto("p", 0, 1, b"ab ");
    let v = from_upto("v", 0, tier(3, 4), b"ab \t");
    let t: &[u8] = if tr { trim(&v) } else { &v };
    let want = not ^ ((null && t.is_empty()) || plain(m, t, &p));
    let spec = format!("{}{}{}{},{}", if not { "Not." } else { "" }, if tr { "TRIM." } else { "" }, if null { "null." } else { "" }, NAME[m], st(&p));
    let c = ok(MatchMaker::make(&spec), "matcher");
    check(c.umatch(&v) == want, "modifiers of a matcher are not applied (bytes)");
    check(c.smatch(st(&v)) == want, "modifiers of a matcher are not applied (string)");
    check(c.do_match_safe(&v) == want, "modifiers of a matcher are not applied (do_match_safe)");
    let mut l = MatcherList::new_with(Combiner::And);
    ok(l.push(&spec), "push");
    check(l.umatch(&v) == want, "modifiers of a matcher are not applied (list)");
    cover(if want { "yes" } else { "no" });
}
c12_utf8 {
    // character patterns ignore case for every letter, not only ASCII
    const CH: [&str; 9] = ["a", "A", "\u{e9}", "\u{c9}", "\u{df}", "\u{2126}", "\u{3c9}", "\u{23a}", "\u{2c65}"];
    const LO: [char; 9] = ['a', 'a', '\u{e9}', '\u{e9}', '\u{df}', '\u{3c9}', '\u{3c9}', '\u{2c65}', '\u{2c65}'];
    let m = choice("method", 5);
    let mut s = [String::new(), String::new()];
    let mut l: [Vec<char>; 2] = [vec![], vec![]];
    for k in 0..2 {
        for _ in 0..choice("n", 2 + k) + usize::from(k == 0) {
            let c = choice("ch", CH.len());
            s[k].push_str(CH[c]);
            l[k].push(LO[c]);
        }
    }
    let (p, v) = (&l[0], &l[1]);
    let want = match m {
        0 | 4 => p == v,
        1 => v.starts_with(p),
        2 => v.ends_with(p),
        _ => p.is_empty() || v.windows(p.len()).any(|w| w == &p[..]),
    };
    let name = if m == 4 { "glob" } else { NAME[m] };
    let c = ok(MatchMaker::make(&format!("utf8.case.{},{}", name, s[0])), "matcher");
    check(c.smatch(&s[1]) == want, "case of non-ASCII letters is not ignored");
    cover(if want { "yes" } else { "no" });
}
c12_glob {
    let w = from_upto("w", 0, tier(4, 5), b"ab*?");
    let v = from_upto("v", 0, tier(4, 5), b"ab");
    let want = glob(&w, &v, b'*', b'?');
    let c = ok(MatchMaker::make(&format!("glob,{}", st(&w))), "matcher");
    check(c.umatch(&v) == want, "glob does not match like a shell pattern (bytes)");
    cover(if want { "yes" } else { "no" });
}
c12_glob_str {
    let w = from_upto("w", 0, 3, b"ab*?");
    let v = from_upto("v", 0, 3, b"abA");
    let ic = flag("case");
    let want = glob(&fold(&w, ic), &fold(&v, ic), b'*', b'?');
    let c = ok(MatchMaker::make(&format!("utf8.{}glob,{}", if ic { "case." } else { "" }, st(&w))), "matcher");
    check(c.smatch(st(&v)) == want, "glob does not match like a shell pattern (characters)");
    check(c.umatch(&v) == want, "glob does not match like a shell pattern (bytes)");
    cover(if want { "yes" } else { "no" });
}
c12_glob_any {
    let w = bytes_upto("w", 0, 3);
    for b in &w { assume(*b < 128); }
    let v = bytes_upto("v", 0, 3);
    let ic = flag("case");
    let want = glob(&fold(&w, ic), &fold(&v, ic), b'*', b'?');
    let c = ok(MatchMaker::make(&format!("{}glob,{}", if ic { "case." } else { "" }, st(&w))), "matcher");
    check(c.umatch(&v) == want, "glob does not match like a shell pattern");
    cover(if want { "yes" } else { "no" });
}
c12_fixed {
    // methods with a fixed meaning
    let k = choice("method", 7);
    let v = from_upto("v", 0, tier(4, 5), b"a \t/#");
    let t = trim(&v);
    let (spec, want) = match k {
        0 => ("empty", v.is_empty()),
        1 => ("blank", t.is_empty()),
        2 => ("hash", t.is_empty() || starts(t, b"#")),
        3 => ("slash", t.is_empty() || starts(t, b"//")),
        4 => ("comment,/a", t.is_empty() || starts(t, b"/a")),
        5 => ("yes", true),
        _ => ("length,1,3", v.len() >= 1 && v.len() <= 3),
    };
    let not = flag("not");
    let full = if not { format!("not.{spec}") } else { spec.to_string() };
    let c = ok(MatchMaker::make(&full), "matcher");
    check(c.umatch(&v) == (want ^ not), "method with a fixed meaning is wrong");
    check(c.smatch(st(&v)) == (want ^ not), "method with a fixed meaning is wrong (string)");
    cover(if want { "yes" } else { "no" });
}
c12_multi {
    // and / or lists of patterns
    let m = choice("method", 4);
    let (and, not, ic) = (flag("and"), flag("not"), flag("case"));
    let n = 1 + choice("n", 2);
    let p: Vec<Vec<u8>> = (0..n).map(|_| from_upto("p", 0, 1, b"abB")).collect();
    let v = from_upto("v", 0, 2, b"abB");
    let mut want = and;
    let mut spec = format!("{}{}{}.{},", if not { "not." } else { "" }, if ic { "case." } else { "" }, if and { "and" } else { "or" }, NAME[m]);
    for x in &p {
        let r = plain(m, &fold(&v, ic), &fold(x, ic));
        want = if and { want & r } else { want | r };
        spec.push('^');
        spec.push_str(st(x));
    }
    want ^= not;
    let c = ok(MatchMaker::make(&spec), "matcher");
    check(c.umatch(&v) == want, "multi pattern is wrong");
    let mut l = LineMatcherList::new();
    ok(l.push(&format!(",{spec}")), "push");
    check(MatchMaker::make(&spec[..spec.len() - catlen(&p)]).is_err(), "multi pattern without a pattern is accepted");
    cover(if want { "yes" } else { "no" });
}
c12_det {
    // how many of the columns have to match, and the early verdict never contradicts the final one
    let d = choice("det", 12);
    let k = choice("k", 4);
    let spec = if d < 6 { DET[d].to_string() } else { format!("{}{}", DET[d], k) };
    let c = ok(Determiner::new(&spec), "determiner");
    let y = arr::<1>("y")[0] as usize;
    let n = arr::<1>("n")[0] as usize;
    let want = det(d, y, n, k);
    check(c.match_final(y, n) == want, "determiner is wrong");
    let y0 = arr::<1>("y0")[0] as usize;
    let n0 = arr::<1>("n0")[0] as usize;
    assume(y0 <= y && n0 <= n && y0 + n0 < y + n);
    let mid = c.match_mid(y0, n0);
    if mid == cdx::util::Tri::Yes {
        check(want, "early verdict yes contradicts the final one");
    } else if mid == cdx::util::Tri::No {
        check(!want, "early verdict no contradicts the final one");
    }
    cover(if want { "yes" } else { "no" });
}
c12_frac {
    // fractions: n of tot is at most / at least k tenths
    let d = 6 + choice("det", 6);
    let k = choice("k", 11);
    let c = ok(Determiner::new(&if k == 10 { format!("{}1.0", DET[d]) } else { format!("{}0.{}", DET[d], k) }), "determiner");
    let y = choice("y", 5);
    let n = choice("n", 5);
    let tot = if y + n == 0 { 1 } else { y + n };
    let x = if d < 9 { y } else { n };
    let got = c.match_final(y, n);
    // the fraction is that of the nearest count; half way between two counts either will do
    let (lo, hi) = (20 * x as i64 - 10, 20 * x as i64 + 10);
    let t = (2 * k * tot) as i64;
    match d % 3 {
        0 => check(t == lo || got == (t > lo), "at most: wrong for a fraction"),
        1 => check(t == hi || got == (t < hi), "at least: wrong for a fraction"),
        _ => check(t == lo || t == hi || got == (t > lo && t < hi), "exactly: wrong for a fraction"),
    }
    check(Determiner::new(&format!("{}{}", DET[d], *pick("bad", &["1.01", "1.5", "-0.1", "2.", "0.5x"]))).is_err(), "a fraction beyond one is accepted");
    cover(if got { "yes" } else { "no" });
}
c12_location {
    // where each selected line is: file, number and byte offset
    let head = choice("head", 3);
    let mode = choice("mode", 2); // plain, backslash
    let hd: &[u8] = [&b""[..], b" CDX\ta\n", b" CDX\tlonger\n"][head];
    let (spec, name): (&str, &[u8]) = *pick::<(&str, &[u8])>("spec", &[("line,bytes,name", &b"\tline\tbytes\tfilename"[..]), ("line,n:bytes,x:name.1", &b"\tline\tn\tx"[..]), ("LINE,Bytes,name.2", &b"\tline\tbytes\tfilename"[..])]);
    let mut want = vec![];
    if head > 0 {
        want.extend_from_slice(b" CDX");
        want.extend_from_slice(name);
        want.extend_from_slice(&hd[4..]);
    }
    for k in 0..2 {
        let n = choice("lines", 3);
        let mut t = hd.to_vec();
        let mut no = 0;
        for i in 0..n {
            let l = if mode == 1 { catv(&[&from("l", 1, b"xy"), b"\\t", &from_upto("l", 0, 1, b"a")]) } else { catv(&[&from("l", 1, b"xy"), &from_upto("l", 0, 2, b"")]) };
            for b in &l { assume(*b != b'\n'); }
            no += 1;
            if l[0] == b'x' {
                let path = ["d/e/f", "g"][k];
                let nm = if spec.ends_with("1") { ["f", "g"][k] } else if spec.ends_with("2") { ["e/f", "g"][k] } else { path };
                want.extend_from_slice(format!("{no}\t{}\t{nm}\t", t.len()).as_bytes());
                want.extend_from_slice(&l);
                want.push(b'\n');
            }
            t.extend_from_slice(&l);
            if i + 1 < n || k == 1 { t.push(b'\n'); }
        }
        file_set(["d/e/f", "g"][k], &t);
    }
    let (k, out) = if mode == 1 { tool(&["cgrep", "--text-in", "mtb", "-l", spec, "-p", "1,prefix,x", "d/e/f", "g"]) } else { tool(&["cgrep", "-l", spec, "-p", ",prefix,x", "d/e/f", "g"]) };
    check(k, "cgrep failed");
    check(same(&out, &want), "cgrep locations are wrong");
}
c12_cgrep {
    // cgrep writes exactly the lines that match
    let pats: &[(usize, &str, fn(&[Vec<u8>], &[u8]) -> bool)] = &[
        (1, "a,exact,x", |c, _| same(&c[0], b"x")),
        (1, "b,not.exact,x", |c, _| !same(&c[1], b"x")),
        (1, "2,prefix,x", |c, _| starts(&c[1], b"x")),
        (1, ",suffix,y", |_, l| !l.is_empty() && l[l.len() - 1] == b'y'),
        (1, ",count,2", |c, _| c.len() == 2),
        (1, "a,comp,<b,", |c, _| less(&c[0], &c[1])),
        (1, "a,comp,==b,plain", |c, _| same(&c[0], &c[1])),
        (1, "a,comp,GEb,", |c, _| !less(&c[0], &c[1])),
        (1, "[all,a-b],exact,x", |c, _| same(&c[0], b"x") & same(&c[1], b"x")),
        (1, "[some,a,b],exact,x", |c, _| same(&c[0], b"x") | same(&c[1], b"x")),
        (1, "[none,1,2],exact,x", |c, _| !same(&c[0], b"x") & !same(&c[1], b"x")),
        (1, "[exactly,1,a-b],exact,x", |c, _| same(&c[0], b"x") ^ same(&c[1], b"x")),
    ];
    let head = flag("head");
    let n = 1 + choice("lines", tier(2, 3));
    let two = choice("pats", 3); // one, and, or
    let inv = flag("invert");
    let a = &pats[choice("p1", pats.len())];
    let b = if two > 0 { &pats[choice("p2", 4)] } else { a };
    let rows: Vec<Vec<u8>> = (0..n).map(|_| catv(&[&from_upto("c", 0, 1, b"xy"), b"\t", &from_upto("c", 0, 1, b"xy")])).collect();
    let hd: &[u8] = if head { b" CDX\ta\tb\n" } else { b"" };
    file_set("f", &catv(&[hd, &text_of(&rows, true)]));
    let mut args = vec!["cgrep", "-p", a.1];
    if two > 0 { args.extend(["-p", b.1]); }
    if two == 2 { args.push("-o"); }
    if inv { args.push("-v"); }
    args.push("f");
    let mut want = hd.to_vec();
    for r in &rows {
        let c = cols_of(r, b'\t');
        let (x, y) = ((a.2)(&c, r), (b.2)(&c, r));
        let m = if two == 2 { x | y } else { x & y };
        if m ^ inv {
            want.extend_from_slice(r);
            want.push(b'\n');
        }
    }
    let named = |s: &str| s.contains('a') && !s.starts_with(',') && !s.starts_with("[none") || s.contains("b,") || s.contains("[all") || s.contains("b]");
    if !head && (named(a.1) || named(b.1)) {
        return;
    }
    let (k, out) = tool(&args);
    check(k, "cgrep refused a valid pattern");
    check(same(&out, &want), "cgrep did not write exactly the matching lines");
    cover("ran");
}
}
fn catlen(p: &[Vec<u8>]) -> usize {
    p.iter().map(|x| x.len() + 1).sum()
}
fn less(a: &[u8], b: &[u8]) -> bool {
    match (a.first(), b.first()) {
        (_, None) => false,
        (None, _) => true,
        (Some(x), Some(y)) => *x < *y,
    }
}

//! C10: a column specification selects exactly the columns it names, in order
use crate::api::*;
use cdx::column::*;

const NAMES: [&str; 3] = ["a", "b", "ab"];
/// one column: number from 0, or None if malformed or not there
fn single(s: &[u8]) -> Option<usize> {
    if s.is_empty() {
        return None;
    }
    let num = |d: &[u8]| -> Option<usize> {
        let mut n = 0usize;
        if d.is_empty() {
            return None;
        }
        for c in d {
            if !(*c >= b'0' && *c <= b'9') {
                return None;
            }
            n = n * 10 + usize::from(*c - b'0');
        }
        Some(n)
    };
    if s[0] == b'+' {
        let n = num(&s[1..])?;
        if n < 1 || n > NAMES.len() { None } else { Some(NAMES.len() - n) }
    } else if s[0] >= b'1' && s[0] <= b'9' {
        Some(num(s)? - 1)
    } else {
        NAMES.iter().position(|n| n.as_bytes() == s)
    }
}
/// the columns of one item, with the new name
fn range(s: &[u8]) -> Option<(Vec<usize>, Vec<u8>)> {
    let (name, r) = match s.iter().position(|c| *c == b':') {
        Some(p) => (s[..p].to_vec(), &s[p + 1..]),
        None => (vec![], s),
    };
    if r.is_empty() {
        return None;
    }
    let p = cols_of(r, b'-');
    let one = if p[0].is_empty() { b"1".to_vec() } else { p[0].clone() };
    match p.len() {
        1 => Some((vec![single(&one)?], name)),
        2 => {
            let two = if p[1].is_empty() { b"+1".to_vec() } else { p[1].clone() };
            let (x, y) = (single(&one)?, single(&two)?);
            if x > y { None } else { Some(((x..=y).collect(), name)) }
        }
        _ => None,
    }
}
fn columns(specs: &[(Vec<u8>, bool)]) -> Option<Vec<(usize, Vec<u8>)>> {
    let (mut yes, mut no, mut some) = (vec![], vec![], false);
    for (s, neg) in specs {
        for item in cols_of(s, b',') {
            let (t, neg) = if item.first() == Some(&b'~') { (&item[1..], !neg) } else { (&item[..], *neg) };
            let (v, n) = range(t)?;
            if neg {
                no.extend(v);
            } else {
                some = true;
                yes.extend(v.into_iter().map(|x| (x, n.clone())));
            }
        }
    }
    if !some {
        yes = (0..NAMES.len()).map(|x| (x, vec![])).collect();
    }
    yes.retain(|x| !no.contains(&x.0));
    Some(yes)
}
/// a '+' before a letter starts a transform
fn no_trans(s: &[u8]) {
    for w in s.windows(2) {
        assume(!(w[0] == b'+' && (w[1] >= b'a')) || w[1] == b'~');
        assume(!(w[0] == b'+' && w[1] == b'+'));
    }
}
fn spec(al: &[u8], lo: usize, hi: usize) -> Vec<u8> {
    let s = from_upto("s", lo, hi, al);
    no_trans(&s);
    s
}
fn one(specs: &[(Vec<u8>, bool)]) {
    let want = columns(specs);
    let mut c = ColumnSet::new();
    let mut good = true;
    for (s, neg) in specs {
        let t = String::from_utf8(s.clone()).unwrap();
        good &= if *neg { c.add_no(&t) } else { c.add_yes(&t) }.is_ok();
    }
    good = good && c.lookup(&NAMES).is_ok();
    match want {
        None => {
            check(!good, "malformed column specification accepted");
            cover("bad");
        }
        Some(w) => {
            check(good, "valid column specification rejected");
            let got = c.get_cols();
            check(got.len() == w.len(), "wrong number of columns selected");
            for (g, x) in got.iter().zip(w.iter()) {
                check(g.num == x.0, "wrong column selected");
                check(same(g.name.as_bytes(), &x.1), "wrong name for a selected column");
            }
            cover("good");
        }
    }
}

/// run cut and compare with selecting from the rows
fn cut(args: &[&str], sel: &[usize], names: &[&str], head: bool) {
    let n = choice("lines", tier(2, 3)) + 1;
    let mut rows = vec![];
    for _ in 0..n {
        let k = 1 + choice("cols", 3);
        let w: Vec<Vec<u8>> = (0..k).map(|_| word("w", 0, 1, b"")).collect();
        let mut r = vec![];
        for (i, x) in w.iter().enumerate() {
            if i > 0 {
                r.push(b'\t');
            }
            r.extend_from_slice(x);
        }
        rows.push(r);
    }
    if !head {
        // names c1, c2, ... come from the first line; keep it from looking like a header
        assume(cols_of(&rows[0], b'\t').len() == 3);
        assume(rows[0][0] != b' ');
    }
    let h: &[u8] = if head { b" CDX\ta\tb\tab\n" } else { b"" };
    file_set("in", &catv(&[h, &text_of(&rows, ends(&rows))]));
    let mut want = vec![];
    if head {
        want = catv(&[b" CDX\t", names.join("\t").as_bytes(), b"\n"]);
    }
    for r in &rows {
        let c = cols_of(r, b'\t');
        for (i, s) in sel.iter().enumerate() {
            if i > 0 {
                want.push(b'\t');
            }
            if *s < c.len() {
                want.extend_from_slice(&c[*s]);
            }
        }
        want.push(b'\n');
    }
    let mut v = vec!["cut"];
    v.extend(args);
    v.push("in");
    let (r, out) = tool(&v);
    check(r, "cut failed");
    check(same(&out, &want), "cut did not write exactly the selected columns");
    cover("end");
}
type Case = (&'static [&'static str], &'static [usize], &'static [&'static str]);
const HEADED: &[Case] = &[
    (&["-f", "b"], &[1], &["b"]),
    (&["-f", "ab,1"], &[2, 0], &["ab", "a"]),
    (&["-f", "2-"], &[1, 2], &["b", "ab"]),
    (&["-f", "~b"], &[0, 2], &["a", "ab"]),
    (&["-f", "+1", "-f", "x:a"], &[2, 0], &["ab", "x"]),
    (&["-f", "a-b", "-f", "~2,~1"], &[0, 1, 2], &["a", "b", "ab"]),
    (&["-D", "Numeric", "-f", "a,a,b,1"], &[0, 0, 1, 0], &["a", "a1", "b", "a2"]),
    (&["-D", "allow", "-f", "b,2"], &[1, 1], &["b", "b"]),
    (&["-f", "(prefix,a),b"], &[0, 2, 1], &["a", "ab", "b"]),
];

harness! {
c10_spec {
    let s = spec(b"123+-~,ab:", 0, tier(3, 4));
    for w in s.windows(2) {
        assume(!(w[0] <= b'9' && w[0] >= b'0' && w[1] <= b'9' && w[1] >= b'0'));
    }
    one(&[(s, flag("neg"))]);
}
c10_deep {
    // longer specifications built from items
    let item = || -> Vec<u8> {
        let p = *pick("p", &["", "~"]);
        let q = *pick("q", &["1", "2", "3", "+1", "+3", "b", "ab", "-", "2-", "-b", "a-+2", "+2-3", "x:2", "y:a-b"]);
        catv(&[p.as_bytes(), q.as_bytes()])
    };
    let s = catv(&[&item(), b",", &item()]);
    one(&[(s, flag("neg")), (spec(b"12+b~", 1, tier(1, 2)), flag("neg2"))]);
}
c10_single {
    let s = from_upto("s", 0, 3, b"0123+ab-");
    for w in s.windows(2) {
        assume(!(w[0] == b'+' && (w[1] == b'+' || w[1] == b'0')));
    }
    let t = String::from_utf8(s.clone()).unwrap();
    match (single(&s), ColumnSet::single(&NAMES, &t)) {
        (None, r) => { check(r.is_err(), "malformed column accepted"); cover("bad"); }
        (Some(n), Ok(m)) => { check(n == m, "wrong column"); cover("good"); }
        (Some(_), Err(_)) => fail("column not found"),
    }
    // the same notation where a single column is called for, whether or not it held another one before
    let used = *pick("used", &["", "b", "+2", "3"]);
    let named = if used.is_empty() {
        NamedCol::new_from(&t).and_then(|mut c| { c.lookup(&NAMES)?; Ok(c.num) })
    } else {
        let mut c = ok(NamedCol::new_from(used), "column");
        ok(c.lookup(&NAMES), "lookup");
        match c.parse(&t) {
            Err(e) => Err(e),
            Ok(rest) if !rest.is_empty() => NamedCol::new_from("").map(|_| 0),
            Ok(_) => c.lookup(&NAMES).map(|()| c.num),
        }
    };
    if let (Some(n), false) = (single(&s), s.iter().any(|c| *c == b'-')) {
        check(matches!(named, Ok(m) if m == n), "wrong single column");
    } else {
        check(named.is_err(), "malformed single column accepted");
    }
}
c10_headed { let c = *pick("case", HEADED); cut(c.0, c.1, c.2, true); }
c10_plain {
    let c: Case = *pick("case", &[(&["-f", "2"][..], &[1][..], &[][..]), (&["-f", "3,c1"], &[2, 0], &[]), (&["-f", "+3-2,5"], &[0, 1, 4], &[]), (&["-f", "~3"], &[0, 1], &[])]);
    cut(c.0, c.1, c.2, false);
}
c10_dups {
    let s = *pick("s", &["a,a", "a-b,b", "x:a,x:b", "b:a,b", "-,1"]);
    file_set("in", b" CDX\ta\tb\tab\n1\t2\t3\n");
    let (r, _) = tool(&["cut", "-f", s, "in"]);
    check(!r, "duplicate column names accepted");
    cover("end");
}
c10_composite {
    let (v, w) = (word("v", 0, 2, b""), word("w", 0, 2, b""));
    for b in v.iter().chain(w.iter()) {
        assume(*b != b'.' && *b != b':');
    }
    file_set("in", &catv(&[b" CDX\ta\tb\n", &v, b"\t", &w, b"\n"]));
    let (args, want): (&[&str], Vec<u8>) = match choice("c", 5) {
        0 => (&["-c", "n:<^{b}^1>"], catv(&[b" CDX\tn\n<", &w, &v, b">\n"])),
        1 => (&["-f", "b", "-c", "n:^^^b^^"], catv(&[b" CDX\tb\tn\n", &w, b"\t^", &w, b"^\n"])),
        2 => (&["-c", "n:^{+1}x^{+2}"], catv(&[b" CDX\tn\n", &w, b"x", &v, b"\n"])),
        3 => (&["-g", ".n:1-2", "-f", "a"], catv(&[b" CDX\tn\ta\n", &v, b".", &w, b"\t", &v, b"\n"])),
        _ => (&["-f", "b", "-g", ":n:b,a"], catv(&[b" CDX\tb\tn\n", &w, b"\t", &w, b":", &v, b"\n"])),
    };
    let mut a = vec!["cut"];
    a.extend(args);
    a.push("in");
    let (r, out) = tool(&a);
    check(r, "cut failed");
    check(same(&out, &want), "composite or grouped column is wrong");
    cover("end");
}
c10_select {
    // the library's ways to take a selection out of a line of any number of columns
    let sp = *pick("spec", &["2", "1", "3,1", "~2", "-", "ab,a-b", "2,9", "~1-3"]);
    let cols = columns(&[(sp.as_bytes().to_vec(), false)]).unwrap();
    let v: Vec<String> = (0..choice("n", 5)).map(|i| from_upto("v", 0, 2, if i == 0 { b"xyz" } else { b"x" })).map(|x| String::from_utf8(x).unwrap()).collect();
    let r: Vec<&str> = v.iter().map(|x| x.as_str()).collect();
    let mut c = ColumnSet::new();
    check(c.add_yes(sp).is_ok(), "valid column specification rejected");
    let mut res: Vec<&str> = vec!["junk"];
    check(c.select(&r, &mut res).is_err(), "selected before lookup");
    let mut o: Vec<u8> = vec![];
    check(c.write(&mut o, &r, "--").is_err() && c.write_sloppy(&r, "?", &mut o).is_err() && o.is_empty(), "wrote before lookup");
    check(c.lookup(&NAMES).is_ok(), "valid column specification rejected");
    let missing = cols.iter().any(|x| x.0 >= r.len());
    let want: Vec<&str> = cols.iter().map(|x| if x.0 < r.len() { r[x.0] } else { "?" }).collect();
    let list = |got: &[&str]| got.len() == want.len() && got.iter().zip(want.iter()).all(|(x, y)| same(x.as_bytes(), y.as_bytes()));
    check(c.select(&r, &mut res).is_err() == missing, "select and missing columns");
    check(missing || list(&res), "select is wrong");
    check(c.select_sloppy(&r, &"?", &mut res).is_ok() && list(&res), "select_sloppy is wrong");
    check(c.write_sloppy(&r, "?", &mut o).is_ok() && same(&o, want.concat().as_bytes()), "write_sloppy is wrong");
    o.clear();
    check(c.write(&mut o, &r, "--").is_err() == missing, "write and missing columns");
    check(missing || same(&o, &catv(&[want.join("--").as_bytes(), b"\n"])), "write is wrong");
    check(c.get_cols_num().iter().copied().eq(cols.iter().map(|x| x.0)), "wrong column numbers");
    cover(if missing { "short" } else { "end" });
}
}

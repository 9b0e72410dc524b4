//! C06: join pairs exactly the lines whose keys are equal, and reports every other line as unmatched
use crate::api::*;
use cdx::column::ColumnSet;
use cdx::comp::*;
use cdx::join::*;
use cdx::util::{TextFileMode, TextLine};
use std::cmp::Ordering::*;

fn tl(l: &[u8]) -> TextLine {
    let mut t = TextLine::new();
    t.raw().extend_from_slice(l);
    t.raw().push(b'\n');
    t.split(&TextFileMode::default());
    t
}
struct Job<'a> {
    keys: &'a [&'a str],
    names: [&'a [&'a str]; 2],
    /// output columns (file, column); empty: the default
    out: &'a [(usize, usize)],
    outspec: &'a [(usize, &'a str)],
    /// key columns of file 2, left out by default
    used: &'a [usize],
    head: bool,
}
fn header(n: &[&str]) -> Vec<u8> {
    let mut h = b" CDX".to_vec();
    for x in n {
        h.push(b'\t');
        h.extend_from_slice(x.as_bytes());
    }
    h.push(b'\n');
    h
}
fn run(j: &Job, a: &[Vec<u8>], b: &[Vec<u8>]) {
    let mut l = LineCompList::new();
    for k in j.keys {
        ok(l.add(k), "add key");
    }
    ok(l.lookup_n(j.names[0], 0), "lookup");
    ok(l.lookup_n(j.names[1], 1), "lookup");
    let ta: Vec<TextLine> = a.iter().map(|x| tl(x)).collect();
    let tb: Vec<TextLine> = b.iter().map(|x| tl(x)).collect();
    for w in ta.windows(2) {
        assume(l.comp_cols_n(&w[0], &w[1], 0, 0) != Greater);
    }
    for w in tb.windows(2) {
        assume(l.comp_cols_n(&w[0], &w[1], 1, 1) == Less);
    }
    let heads: Vec<Vec<u8>> = j.names.iter().map(|n| if j.head { header(n) } else { vec![] }).collect();
    file_set("in1", &catv(&[&heads[0], &text_of(a, ends(a))]));
    file_set("in2", &catv(&[&heads[1], &text_of(b, ends(b))]));
    // expected
    let mut cols: Vec<(usize, usize)> = j.out.to_vec();
    if cols.is_empty() {
        for c in 0..j.names[0].len() {
            cols.push((0, c));
        }
        for c in 0..j.names[1].len() {
            if !j.used.contains(&c) {
                cols.push((1, c));
            }
        }
    }
    let mut want = vec![];
    if j.head {
        let n: Vec<&str> = cols.iter().map(|(f, c)| j.names[*f][*c]).collect();
        want = header(&n);
    }
    let mut un = [heads[0].clone(), heads[1].clone()];
    let mut hit = vec![false; b.len()];
    for i in 0..a.len() {
        let mut found = false;
        for k in 0..b.len() {
            if l.equal_cols_n(&ta[i], &tb[k], 0, 1) {
                found = true;
                hit[k] = true;
                let src = [cols_of(&a[i], b'\t'), cols_of(&b[k], b'\t')];
                for (n, (f, c)) in cols.iter().enumerate() {
                    if n > 0 {
                        want.push(b'\t');
                    }
                    if *c < src[*f].len() {
                        want.extend_from_slice(&src[*f][*c]);
                    }
                }
                want.push(b'\n');
                cover("match");
                break;
            }
        }
        if !found {
            un[0].extend_from_slice(&a[i]);
            un[0].push(b'\n');
            cover("left");
        }
    }
    for k in 0..b.len() {
        if !hit[k] {
            un[1].extend_from_slice(&b[k]);
            un[1].push(b'\n');
            cover("right");
        }
    }
    let mut c = JoinConfig::new();
    c.infiles = vec!["in1".to_string(), "in2".to_string()];
    c.match_out = "out".to_string();
    c.keys = j.keys.iter().map(|x| x.to_string()).collect();
    let also = choice("also", 4);
    if also & 1 != 0 {
        c.unmatch_out.push(NoMatch::new(1, "u1"));
    }
    if also & 2 != 0 {
        c.unmatch_out.push(NoMatch::new(2, "u2"));
    }
    for (f, s) in j.outspec {
        let mut set = ColumnSet::new();
        ok(set.add_yes(s), "column spec");
        c.col_specs.push(OutColSpec::new(*f, set));
    }
    ok(c.join(), "join failed");
    check(same(&file_get("out").unwrap_or_default(), &want), "joined output is wrong");
    if also & 1 != 0 {
        check(same(&file_get("u1").unwrap_or_default(), &un[0]), "unmatched lines of file 1 are wrong");
    }
    if also & 2 != 0 {
        check(same(&file_get("u2").unwrap_or_default(), &un[1]), "unmatched lines of file 2 are wrong");
    }
    cover("end");
}
fn rows(tag: &str, lo: usize, hi: usize, kl: &[u8], flip: bool) -> Vec<Vec<u8>> {
    let n = lo + choice(tag, hi - lo + 1);
    (0..n)
        .map(|i| {
            let k = word(tag, 0, 1, kl);
            let v = [b'p' + i as u8];
            let t = [tag.as_bytes()[0]];
            if flip { catv(&[&v, &t, b"\t", &k]) } else { catv(&[&k, b"\t", &v, &t]) }
        })
        .collect()
}

harness! {
c06_plain {
    let j = Job { keys: &["1"], names: [&["c1", "c2"], &["c1", "c2"]], out: &[], outspec: &[], used: &[0], head: false };
    run(&j, &rows("a", 1, 3, b"xyz", false), &rows("b", 1, tier(2, 3), b"xyz", false));
}
c06_bytes {
    let j = Job { keys: &[*pick("key", &["1", "1,lower"])], names: [&["c1", "c2"], &["c1", "c2"]], out: &[], outspec: &[], used: &[0], head: false };
    let (a, b) = (rows("a", 1, 2, b"", false), rows("b", 1, 2, b"", false));
    for x in [&a, &b] {
        if !x[0].is_empty() {
            assume(x[0][0] != b' ');
        }
    }
    run(&j, &a, &b);
}
c06_head {
    // key columns in different places
    let j = Job { keys: &[*pick("key", &["k,rev", "1.2,rev", "k.+1,rev"])], names: [&["k", "v"], &["w", "k"]], out: &[], outspec: &[], used: &[1], head: true };
    run(&j, &rows("a", 0, 2, b"xyz", false), &rows("b", 0, 2, b"xyz", true));
}
c06_num {
    let j = Job { keys: &["k,num"], names: [&["k", "v"], &["k", "w"]], out: &[(1, 1), (0, 0), (1, 0)], outspec: &[(1, "w"), (0, "1"), (1, "k")], used: &[0], head: true };
    run(&j, &rows("a", 1, 2, b"019", false), &rows("b", 1, 2, b"019", false));
}
c06_two {
    let j = Job { keys: &["k", "v,rev"], names: [&["k", "v"], &["k", "v"]], out: &[], outspec: &[], used: &[0, 1], head: true };
    let r = |t: &str| -> Vec<Vec<u8>> { (0..2).map(|_| catv(&[&word(t, 0, 1, b"xy"), b"\t", &word(t, 0, 1, b"xy")])).collect() };
    run(&j, &r("a"), &r("b"));
}
c06_tool {
    // the command line, with output files that exist already
    let r = |t: &str, v: u8| -> Vec<Vec<u8>> { (0..choice("n", 3)).map(|i| catv(&[&word(t, 0, 1, b"xy"), b"\t", &[v + i as u8]])).collect() };
    let (a, b) = (r("a", b'0'), r("b", b'5'));
    if a.len() == 2 { assume(cols_of(&a[0], b'\t')[0] <= cols_of(&a[1], b'\t')[0]); }
    if b.len() == 2 { assume(cols_of(&b[0], b'\t')[0] < cols_of(&b[1], b'\t')[0]); }
    file_set("in1", &catv(&[b" CDX\tk\tv\n", &text_of(&a, true)]));
    file_set("in2", &catv(&[b" CDX\tk\tw\n", &text_of(&b, true)]));
    let spec = choice("spec", 5);
    let (o, cols): (&str, &[(usize, usize)]) = [
        ("", &[(0, 0), (0, 1), (1, 1)][..]),
        ("2.w,1.k", &[(1, 1), (0, 0)]),
        ("1.v,k,2.k-w", &[(0, 1), (0, 0), (1, 0), (1, 1)]),
        ("2.2", &[(1, 1)]),
        ("1.1-2,2.w", &[(0, 0), (0, 1), (1, 1)]),
    ][spec];
    let stale = vec![b'z'; 60];
    let (f, u1, u2) = (flag("f"), flag("u1"), flag("u2"));
    let mut args = vec!["join"];
    if !o.is_empty() { args.extend(["-o", o]); }
    if flag("k") { args.extend(["-k", "k"]); }
    if f { args.extend(["-f", "out"]); file_set("out", &stale); }
    if u1 { args.extend(["-a", "1,u1"]); file_set("u1", &stale); }
    if u2 { args.extend(["--also", "2,u2"]); file_set("u2", &stale); }
    args.extend(["in1", "in2"]);
    let (good, out) = tool(&args);
    check(good, "join failed");
    let names = [["k", "v"], ["k", "w"]];
    let mut want = header(&cols.iter().map(|(f, c)| names[*f][*c]).collect::<Vec<_>>());
    let mut un = [header(&names[0]), header(&names[1])];
    let mut hit = vec![false; b.len()];
    for x in &a {
        let mut found = false;
        for (i, y) in b.iter().enumerate() {
            let src = [cols_of(x, b'\t'), cols_of(y, b'\t')];
            if same(&src[0][0], &src[1][0]) {
                found = true;
                hit[i] = true;
                for (n, (f, c)) in cols.iter().enumerate() {
                    if n > 0 { want.push(b'\t'); }
                    want.extend_from_slice(&src[*f][*c]);
                }
                want.push(b'\n');
            }
        }
        if !found { un[0].extend_from_slice(&catv(&[x, b"\n"])); }
    }
    for (i, y) in b.iter().enumerate() {
        if !hit[i] { un[1].extend_from_slice(&catv(&[y, b"\n"])); }
    }
    let got = if f { file_get("out").unwrap_or_default() } else { out };
    check(same(&got, &want), "joined output is wrong");
    if u1 { check(same(&file_get("u1").unwrap_or_default(), &un[0]), "unmatched lines of file 1 are wrong"); }
    if u2 { check(same(&file_get("u2").unwrap_or_default(), &un[1]), "unmatched lines of file 2 are wrong"); }
}
c06_files {
    // anything but two files is refused, as is a file number that does not exist
    file_set("f", b" CDX\tk\tv\n1\t2\n");
    let n = 1 + choice("files", 3);
    let num = from("num", 1, b"0123");
    let also = format!("{},u", num[0] as char);
    let outs = format!("{}.k", num[0] as char);
    let opt = choice("opt", 3);
    let mut args = vec!["join"];
    if opt == 1 { args.extend(["-a", &also]); }
    if opt == 2 { args.extend(["-o", &outs]); }
    for _ in 0..n { args.push("f"); }
    let (good, _) = tool(&args);
    check(good == (n == 2 && (opt == 0 || num[0] == b'1' || num[0] == b'2')), "join accepts what it should not, or the reverse");
}
}

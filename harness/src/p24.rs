//! C24: wc counts the lines, words and bytes of files or columns, in rows that fit their header
use crate::api::*;

fn words(l: &[u8]) -> usize {
    let mut n = 0;
    let mut in_word = false;
    for c in l {
        let blank = (*c == b' ') | (*c == b'\t') | (*c == b'\n');
        n += usize::from(!blank & !in_word);
        in_word = !blank;
    }
    n
}
const AGGS: &[(&[&str], &[&str], &[u8])] = &[
    (&[], &["lines"], b"l"),
    (&["-l"], &["lines"], b"l"),
    (&["-w", "-b"], &["words", "bytes"], b"wb"),
    (&["-c", "-l"], &["chars", "lines"], b"bl"),
    (&["-a", "n,count", "-w"], &["n", "words"], b"lw"),
];
fn line_out(o: &mut Vec<u8>, label: Option<&[u8]>, v: &[usize], d: u8) {
    if let Some(l) = label {
        o.extend_from_slice(l);
        o.push(d);
    }
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(d);
        }
        o.extend_from_slice(x.to_string().as_bytes());
    }
    o.push(b'\n');
}
fn head_out(o: &mut Vec<u8>, label: Option<&str>, n: &[&str], d: u8) {
    o.extend_from_slice(b" CDX");
    if let Some(l) = label {
        o.push(d);
        o.extend_from_slice(l.as_bytes());
    }
    for x in n {
        o.push(d);
        o.extend_from_slice(x.as_bytes());
    }
    o.push(b'\n');
}
struct Opt {
    args: Vec<&'static str>,
    file: Option<bool>,
    head: Option<bool>,
    total: Option<bool>,
    only: bool,
    name: &'static str,
}
/// one option away from the default in quick, any combination in thorough
fn options() -> Opt {
    let mut o = Opt { args: vec!["wc"], file: None, head: None, total: None, only: false, name: "file" };
    let all = tier(0, 1) == 1 && flag("all");
    let k = choice("kind", if all { 1 } else { 3 });
    if all || k == 0 {
        let (a, f, n): (&[&str], Option<bool>, &str) = *pick("file", &[(&[][..], None, "file"), (&["-f", "yes"], Some(true), "file"), (&["-f", "no"], Some(false), "file"), (&["--file", "Yes,nm"], Some(true), "nm"), (&["-f", "maybe,q"], None, "q")]);
        o.args.extend_from_slice(a);
        o.file = f;
        o.name = n;
    }
    if all || k == 1 {
        let (a, h): (&[&str], Option<bool>) = *pick("head", &[(&[][..], None), (&["-h", "yes"], Some(true)), (&["--with-header", "no"], Some(false))]);
        o.args.extend_from_slice(a);
        o.head = h;
    }
    if all || k == 2 {
        let (a, t, y): (&[&str], Option<bool>, bool) = *pick("total", &[(&[][..], None, false), (&["-t", "yes"], Some(true), false), (&["--total", "no"], Some(false), false), (&["-t", "only"], None, true)]);
        o.args.extend_from_slice(a);
        o.total = t;
        o.only = y;
    }
    o
}

harness! {
c24_files {
    let mut o = options();
    let g = *pick("agg", AGGS);
    o.args.extend_from_slice(g.0);
    let nf = 1 + choice("files", 2);
    let names = ["f", "g"];
    let mut rows = vec![];
    for name in &names[..nf] {
        let n = 1 + if *name == "f" { choice("lines", 2) } else { 0 };
        let lines: Vec<Vec<u8>> = (0..n).map(|i| if i == 1 { from_upto("l", 0, 1, b"a") } else { from_upto("l", 0, tier(1, 2), b"a ") }).collect();
        let head = flag("head");
        assume(head || lines[0].is_empty() || lines[0][0] != b' ');
        let t = text_of(&lines, true);
        file_set(name, &if head { catv(&[b" CDX\ta\n", &t]) } else { t.clone() });
        o.args.push(name);
        let v: Vec<usize> = g.2.iter().map(|k| match k {
            b'l' => n,
            b'w' => lines.iter().map(|l| words(l)).sum(),
            _ => t.len(),
        }).collect();
        rows.push(v);
    }
    let show = o.file.unwrap_or(nf > 1 && !o.only);
    let mut want = vec![];
    if o.head.unwrap_or(g.1.len() > 1 || show) {
        head_out(&mut want, if show { Some(o.name) } else { None }, g.1, b'\t');
    }
    let mut tot = vec![0; g.1.len()];
    for (i, v) in rows.iter().enumerate() {
        if !o.only {
            let l = names[i].as_bytes();
            line_out(&mut want, if show { Some(l) } else { None }, v, b'\t');
        }
        for k in 0..v.len() {
            tot[k] += v[k];
        }
    }
    if o.total.unwrap_or(nf > 1) || o.only {
        line_out(&mut want, if show { Some(b"totals") } else { None }, &tot, b'\t');
    }
    let (k, out) = tool(&o.args);
    check(k, "wc failed");
    check(same(&out, &want), "wc of files is wrong");
    cover("end");
}
c24_cols {
    // each column, by name over all files
    let mut o = options();
    let g = *pick("agg", &[AGGS[1], AGGS[2], AGGS[3]]);
    o.args.extend_from_slice(g.0);
    o.args.push("-C");
    let nf = 1 + choice("files", 2);
    // columns of the files by name: a b, b c
    let wide = flag("wide");
    let cols: [&[usize]; 2] = if wide { [&[0, 1], &[1, 2]] } else { [&[0], &[0]] };
    let mut v = vec![vec![0usize; g.2.len()]; 3];
    let mut seen = [false; 3];
    for f in 0..nf {
        let n = if f == 0 { choice("lines", 2) } else { 0 };
        let mut t: Vec<u8> = b" CDX".to_vec();
        for c in cols[f] {
            t.push(b'\t');
            t.push(b'a' + *c as u8);
            seen[*c] = true;
        }
        t.push(b'\n');
        for _ in 0..=n {
            // a line may be short
            let k = if wide { 1 + choice("cols", 2) } else { 1 };
            for i in 0..k {
                let x = from_upto("v", 0, 1, if f == 0 && i == 0 { b"a " } else { b"a" });
                if i > 0 {
                    t.push(b'\t');
                }
                t.extend_from_slice(&x);
                for (j, a) in g.2.iter().enumerate() {
                    v[cols[f][i]][j] += match a {
                        b'l' => 1,
                        b'w' => words(&x),
                        _ => x.len(),
                    };
                }
            }
            t.push(b'\n');
        }
        let name = ["f", "g"][f];
        file_set(name, &t);
        o.args.push(name);
    }
    let nc = seen.iter().filter(|x| **x).count();
    let show = o.file.unwrap_or(!o.only);
    let mut want = vec![];
    if o.head.unwrap_or(g.1.len() > 1 || o.file == Some(true) || (show && nc > 1)) {
        head_out(&mut want, if show { Some("column") } else { None }, g.1, b'\t');
    }
    let mut tot = vec![0; g.1.len()];
    for c in 0..3 {
        if !seen[c] {
            continue;
        }
        if !o.only {
            let l = [b'a' + c as u8];
            line_out(&mut want, if show { Some(&l) } else { None }, &v[c], b'\t');
        }
        for k in 0..tot.len() {
            tot[k] += v[c][k];
        }
    }
    if o.total.unwrap_or(nc > 1) || o.only {
        line_out(&mut want, if show { Some(b"totals") } else { None }, &tot, b'\t');
    }
    let (k, out) = tool(&o.args);
    check(k, "wc failed");
    check(same(&out, &want), "wc of columns is wrong");
    cover("end");
}
}

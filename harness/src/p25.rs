//! C25: with another delimiter, tools give what they give for tabs, with that delimiter in place of every tab
use crate::api::*;

/// replace tabs
fn with(t: &[u8], d: u8) -> Vec<u8> {
    t.iter().map(|c| if *c == b'\t' { d } else { *c }).collect()
}
/// rows of up to two columns
fn rows(name: &str, n: usize) -> Vec<Vec<u8>> {
    (0..n)
        .map(|i| {
            let mut r = vec![];
            for k in 0..if i == 0 { 2 } else { 1 + choice("cols", 2) } {
                if k > 0 {
                    r.push(b'\t');
                }
                r.extend_from_slice(&if i == 0 && k == 0 { from(name, 1, b"ab") } else { from_upto(name, 0, 1, b"ab") });
            }
            r
        })
        .collect()
}
fn both(args: &[&str], rows: &[(&str, Vec<u8>)], tag: usize) {
    let (d, spec) = *pick("delim", &[(b',', "m,"), (b';', "m;p"), (b'|', "m|pxn")]);
    for (n, t) in rows {
        file_set(n, t);
    }
    let (ka, a) = tool(args);
    for (n, t) in rows {
        file_set(n, &with(t, d));
    }
    let mut v = vec![args[0], "--text-in", spec];
    v.extend_from_slice(&args[1..]);
    let (kb, b) = tool(&v);
    check(ka == kb, "the delimiter decides whether the tool succeeds");
    check(same(&with(&a, d), &b), "the delimiter changes more than itself in the output");
    if ka {
        cover("end");
        cover(&format!("t{tag}"));
    }
}
const ONE: &[&[&str]] = &[
    &["cut", "-f", "2,1"],
    &["cut", "-f", "~1", "-e", "x:1+2"],
    &["cut", "-c", "n:^2.^1", "-f", "1"],
    &["cut", "-g", ".n:1-2", "-f", "2"],
    &["cgrep", "-p", "2,exact,a"],
    &["cgrep", "-p", "2,exact,a", "-p", "1,exact,b", "--or"],
    &["cgrep", "-l", "n:line", "-p", "1,exact,a"],
    &["cgrep", "-p", ",expr,c2==c1"],
    &["cat", "-b"],
    &["cat", "-e"],
    &["cat", "-n", "n,5", "-r", "suffix,a"],
    &["cat"],
    &["uniq", "-k", "2"],
    &["uniq", "-k", "1", "-c", "N"],
    &["uniq", "-k", "2", "-w", "max,1", "-c", "N,end"],
    &["uniq", "-k", "1", "-a", "2,merge"],
    &["uniq", "-k", "1", "--agg-post", "x,2,count"],
    &["uniq", "-k", "1", "--agg-pre", "x,2,merge"],
    &["wc", "-C", "-l", "-b"],
    &["wc", "-C", "-f", "yes", "-t", "yes"],
    &["wc", "-l", "-b", "-f", "yes"],
    &["transpose"],
    &["transpose", "-h"],
    &["sample", "-r", "1"],
    &["verify", "-p", "2,exact,a"],
    &["verify", "-k", "2", "-s"],
    &["sample", "-s", "1"],
    &["verify", "-f", "<b"],
];

harness! {
c25_one {
    let tag = choice("tool", ONE.len());
    let args = ONE[tag];
    let head = flag("head");
    let r = rows("v", 2);
    let t = text_of(&r, true);
    let mut a = args.to_vec();
    a.push("f");
    both(&a, &[("f", if head { catv(&[b" CDX\tk\tv\n", &t]) } else { t })], tag);
}
c25_names {
    // columns by name
    let tools = &[
        &["cut", "-f", "v"][..], &["cut", "-e", "x:v+1"], &["cgrep", "-p", "v,exact,a"], &["cgrep", "-p", ",expr,v==k"],
        &["uniq", "-k", "v", "-c", "N"], &["verify", "-p", "v,exact,a"], &["uniq", "-k", "k", "-a", "v,merge"], &["verify", "-k", "v", "-u"]];
    let tag = choice("tool", tools.len());
    let args = tools[tag];
    let r = rows("v", 2);
    let mut a = args.to_vec();
    a.push("f");
    both(&a, &[("f", catv(&[b" CDX\tk\tv\n", &text_of(&r, true)]))], tag);
}
c25_two {
    let tools = &[
        &["paste", "-e", "late"][..], &["paste", "-e", "late", "-d", "z", "-d", "y,2"], &["paste", "-e", "late", "-l"], &["paste", "-e", "early"],
        &["cut", "-f", "2"], &["cat", "-b"], &["cgrep", "-p", "1,exact,a"], &["wc", "-l", "-b"], &["wc", "-C", "-l"]];
    let tag = choice("tool", tools.len());
    let args = tools[tag];
    let head = flag("head");
    let (x, y) = (text_of(&rows("v", 1 + choice("n", 2)), true), text_of(&rows("w", 1), true));
    let pasted = args[0] == "paste";
    let h: [&[u8]; 2] = if !head { [b"", b""] } else if pasted { [b" CDX\tk\tv\n", b" CDX\tl\tw\n"] } else { [b" CDX\tk\tv\n"; 2] };
    let mut a = args.to_vec();
    a.push("f");
    a.push("g");
    both(&a, &[("f", catv(&[h[0], &x])), ("g", catv(&[h[1], &y]))], tag);
}
}

//! C21: verify accepts a file exactly when every line satisfies what was asked for
use crate::api::*;
use cdx::comp::CompMaker;
use cdx::matcher::MatchMaker;
use std::cmp::Ordering;

fn holds(op: &str, o: Ordering) -> bool {
    match op {
        "<" | "LT" => o == Ordering::Less,
        ">" | "GT" => o == Ordering::Greater,
        "<=" | "LE" => o != Ordering::Greater,
        ">=" | "GE" => o != Ordering::Less,
        "==" | "EQ" => o == Ordering::Equal,
        _ => o != Ordering::Equal,
    }
}
const SYM: [&str; 6] = ["<", ">", "<=", ">=", "==", "!="];
const NAME: [&str; 6] = ["LT", "GT", "LE", "GE", "EQ", "NE"];

/// a condition, as text, and whether a value meets it; cmp compares the value to the text given
fn cond(vals: [&'static str; 2]) -> (String, Vec<(usize, &'static str)>) {
    let names = flag("names");
    let two = flag("two");
    let a = choice("op1", 6);
    let mut s = if names { format!("{},{}", NAME[a], vals[0]) } else { format!("{}{}", SYM[a], vals[0]) };
    let mut v = vec![(a, vals[0])];
    if two {
        let b = choice("op2", 6);
        s.push_str(&if names { format!(",{},{}", NAME[b], vals[1]) } else { format!("{}{}", SYM[b], vals[1]) });
        v.push((b, vals[1]));
    }
    (s, v)
}
fn meets(c: &[(usize, &'static str)], mut cmp: impl FnMut(&[u8]) -> Ordering) -> bool {
    c.iter().all(|(o, v)| holds(SYM[*o], cmp(v.as_bytes())))
}

harness! {
c21_range {
    // the range matcher: value OP text, in the order of the comparator
    let (spec, c) = cond(["k", "bc"]);
    let (m, rev) = *pick("comp", &[("", false), ("plain,", false), ("rev.plain,", true), ("length,", false)]);
    let mm = ok(MatchMaker::make(&format!("range,{m}{spec}")), "range matcher");
    let v = bytes_upto("v", 0, 2);
    let want = meets(&c, |t| {
        let o = if m == "length," { v.len().cmp(&t.len()) } else { v.as_slice().cmp(t) };
        if rev { o.reverse() } else { o }
    });
    check(mm.umatch(&v) == want, "range matcher is wrong");
}
c21_range_num {
    let (spec, c) = cond(["5", "12"]);
    let rev = flag("rev");
    let mm = ok(MatchMaker::make(&format!("range,{}numeric,{spec}", if rev { "rev." } else { "" })), "range matcher");
    let n = from_upto("v", 1, 2, b"0123456789");
    let v = n.iter().fold(0u32, |a, b| a * 10 + u32::from(*b - b'0'));
    let want = meets(&c, |t| {
        let o = v.cmp(&t.iter().fold(0u32, |a, b| a * 10 + u32::from(*b - b'0')));
        if rev { o.reverse() } else { o }
    });
    check(mm.umatch(&n) == want, "numeric range matcher is wrong");
}
c21_first {
    // --first and --last look at the first and the last line of the file
    let n = 1 + choice("lines", tier(2, 3));
    let key = flag("key");
    let head = key;
    let rows: Vec<Vec<u8>> = (0..n).map(|_| bytes("v", 1)).collect();
    for r in &rows { assume(r[0] != b'\t' && r[0] != b'\n' && r[0] != b' '); }
    let lines: Vec<Vec<u8>> = rows.iter().map(|r| if key { catv(&[b"b\t", r]) } else { r.clone() }).collect();
    let mut t = if head { if key { b" CDX\tx\ty\n".to_vec() } else { b" CDX\tx\n".to_vec() } } else { vec![] };
    t.extend_from_slice(&text_of(&lines, flag("eol")));
    file_set("f", &t);
    let (spec, c) = cond(["b", "c"]);
    let last = flag("last");
    let mut a = vec!["verify", if last { "-l" } else { "-f" }, &spec];
    if key { a.extend(["-k", "2"]); }
    a.push("f");
    let (k, _) = tool(&a);
    let v = if last { &rows[n - 1] } else { &rows[0] };
    check(k == meets(&c, |t| v.as_slice().cmp(t)), "verify --first or --last is wrong");
}
c21_order {
    // --sort and --unique hold of every neighbouring pair
    let n = 1 + choice("lines", 4);
    let rows: Vec<Vec<u8>> = (0..n).map(|_| from("v", 1, b"abcd")).collect();
    let keys = *pick("key", &["", "2", "2,rev.plain"]);
    let lines: Vec<Vec<u8>> = rows.iter().map(|r| if keys.is_empty() { r.clone() } else { catv(&[b"b\t", r]) }).collect();
    file_set("f", &text_of(&lines, flag("eol")));
    let uniq = flag("unique");
    let mut a = vec!["verify", if uniq { "-u" } else { "-s" }];
    if !keys.is_empty() { a.extend(["-k", keys]); }
    a.push("f");
    let (k, _) = tool(&a);
    let mut want = true;
    for i in 1..n {
        let (l, r) = if keys == "2,rev.plain" { (&rows[i], &rows[i - 1]) } else { (&rows[i - 1], &rows[i]) };
        want &= if uniq { l[0] < r[0] } else { l[0] <= r[0] };
    }
    check(k == want, "verify --sort or --unique is wrong");
}
c21_check {
    // sort --check accepts exactly the sorted files, wherever each has the key column
    let key = *pick("key", &["", "a", "b", "b,rev.plain", "2", ",expr,[b]", "a,num", ",expr.rev,c2-0"]);
    let uniq = flag("unique");
    let nf = 1 + choice("files", 2);
    let mut want = true;
    for k in 0..nf {
        let swap = flag("swap");
        let hd: &[u8] = if swap { b" CDX\tb\ta\n" } else { b" CDX\ta\tb\n" };
        let n = choice("lines", if nf > 1 { 3 } else { tier(4, 5) });
        let rows: Vec<Vec<u8>> = (0..n).map(|_| from("v", 2, b"123")).collect();
        let lines: Vec<Vec<u8>> = rows.iter().map(|r| vec![r[0], b'\t', r[1]]).collect();
        let mut t = hd.to_vec();
        t.extend_from_slice(&text_of(&lines, n == 0 || flag("eol")));
        file_set(["f", "g"][k], &t);
        for i in 1..n {
            let (p, q) = (&rows[i - 1], &rows[i]);
            let c = if key.starts_with('a') { swap as usize } else if key == "2" || key.contains("c2") { 1 } else { 1 - swap as usize };
            let (x, y) = if key.is_empty() { (p[0] as u32 * 256 + p[1] as u32, q[0] as u32 * 256 + q[1] as u32) } else { (p[c] as u32, q[c] as u32) };
            let (x, y) = if key.contains("rev") { (y, x) } else { (x, y) };
            want &= if uniq { x < y } else { x <= y };
        }
    }
    let mut a = vec!["sort"];
    if flag("many") { a.extend(["-C", "2"]); } else { a.push("-c"); }
    if uniq { a.push("-u"); }
    if !key.is_empty() { a.extend(["-k", key]); }
    a.extend(&["f", "g"][..nf]);
    let (k, o) = tool(&a);
    check(o.is_empty(), "sort --check wrote output");
    check(k == want, "sort --check is wrong");
}
c21_pattern {
    // every line of every file matches every pattern, and has the columns of the header
    let nf = 1 + choice("files", 2);
    let pats = choice("pats", 3);
    let mut want = true;
    let mut args = vec!["verify".to_string()];
    if pats > 0 { args.extend(["-p".into(), "1,exact,a".into()]); }
    if pats > 1 { args.extend(["-p".into(), "2,length,1".into()]); }
    let rep = choice("report", 3);
    if rep > 0 { args.extend(["-r".into(), rep.to_string()]); }
    for f in 0..nf {
        let n = choice("lines", if nf > 1 { 2 } else { 4 });
        let mut t = b" CDX\tx\ty\n".to_vec();
        for _ in 0..n {
            let x = from("x", 1, b"ab");
            let y = from_upto("y", 0, 1, b"a");
            want &= pats == 0 || x[0] == b'a';
            want &= pats < 2 || y.len() == 1;
            t.extend_from_slice(&catv(&[&x, b"\t", &y]));
            if flag("more") { t.extend_from_slice(b"\t"); want = false; }
            t.push(b'\n');
        }
        file_set(&format!("f{f}"), &t);
        args.push(format!("f{f}"));
    }
    let v: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let (k, _) = tool(&v);
    check(k == want, "verify accepts what it should not, or the reverse");
}
c21_columns {
    // one column compared with others
    let o = choice("op", 6);
    let spec = match choice("form", 2) { 0 => format!("{}z", SYM[o]), _ => format!("{}.z", NAME[o]) };
    let numeric = flag("numeric");
    let l = from_upto("l", 1, 2, b"19");
    let r = from_upto("r", 1, 2, b"19");
    file_set("f", &catv(&[b" CDX\tx\ty\tz\n", &l, b"\t5\t", &r, b"\n"]));
    let (k, out) = tool(&["cgrep", "-p", &format!("x,comp,{spec},{}", if numeric { "numeric" } else { "plain" }), "f"]);
    check(k, "cgrep failed");
    let c = if numeric {
        let n = |x: &[u8]| x.iter().fold(0u32, |a, b| a * 10 + u32::from(*b - b'0'));
        n(&l).cmp(&n(&r))
    } else { l.cmp(&r) };
    check(holds(SYM[o], c) == (out.len() > 12), "comparing columns is wrong");
}
}

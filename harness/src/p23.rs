//! C23: filegen writes the lines and columns it was asked for
use crate::api::*;

#[derive(Clone)]
enum Col {
    Grid,
    Null,
    Count(i64),
    Expr(fn(i64, i64) -> i64),
}
fn number(name: &str, len: usize) -> (String, i64) {
    let neg = flag(name);
    let n = 1 + choice(name, len);
    let d = from(name, n, b"0123456789");
    let mut v = 0i64;
    for c in &d { v = v * 10 + i64::from(*c - b'0'); }
    let t = unsafe { String::from_utf8_unchecked(d) };
    if neg { (format!("-{t}"), -v) } else { (t, v) }
}
fn column(kinds: usize) -> (String, Col) {
    match choice("kind", kinds) {
        0 => ("grid".into(), Col::Grid),
        1 => ("null".into(), Col::Null),
        2 => { let (t, v) = number("start", 1); (format!("count,{t}"), Col::Count(v)) }
        3 => ("count".into(), Col::Count(0)),
        4 => ("expr,line*10+col".into(), Col::Expr(|l, c| l * 10 + c)),
        5 => ("expr,plain,col-line".into(), Col::Expr(|l, c| c - l)),
        6 => ("expr,7".into(), Col::Expr(|_, _| 7)),
        _ => ("count,9223372036854775800".into(), Col::Count(9223372036854775800)),
    }
}
harness! {
c23_file {
    let mut args: Vec<String> = vec!["filegen".into()];
    let mut cols = vec![];
    for i in 0..choice("options", tier(3, 4)) {
        let (s, c) = column(if i == 0 { 8 } else { 5 });
        if flag("multi") {
            let n = 2 * choice("times", 2);
            args.extend(["-m".into(), format!("{n},{s}")]);
            for _ in 0..n { cols.push(c.clone()); }
        } else {
            args.extend(["-c".into(), s]);
            cols.push(c);
        }
    }
    if cols.is_empty() { cols.push(Col::Grid); }
    let (lines, dflt) = if flag("n") { (choice("lines", 3), false) } else { (10, true) };
    if !dflt { args.extend(["-n".into(), lines.to_string()]); }
    let head = flag("head");
    if head { args.push("-h".into()); }
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let (k, o) = tool(&a);
    let over = cols.iter().any(|c| matches!(c, Col::Count(x) if *x > 1000)) && lines > 8;
    check(k != over, "filegen refused a good specification, or accepted one out of range");
    if over { return; }
    let mut want = vec![];
    if head {
        want.extend_from_slice(b" CDX");
        for i in 0..cols.len() { want.extend_from_slice(format!("\tc{}", i + 1).as_bytes()); }
        want.push(b'\n');
    }
    for l in 1..=lines as i64 {
        for (i, c) in cols.iter().enumerate() {
            if i > 0 { want.push(b'\t'); }
            let j = i as i64 + 1;
            match c {
                Col::Grid => want.extend_from_slice(format!("{l}_{j}").as_bytes()),
                Col::Null => {}
                Col::Count(s) => want.extend_from_slice((s + l - 1).to_string().as_bytes()),
                Col::Expr(f) => want.extend_from_slice(f(l, j).to_string().as_bytes()),
            }
        }
        want.push(b'\n');
    }
    check(same(&o, &want), "filegen wrote something else");
}
c23_start {
    // counting from any number
    let (t, v) = number("start", tier(2, 3));
    let (k, o) = tool(&["filegen", "-n", "2", "-c", &format!("count,{t}")]);
    check(k, "filegen failed");
    let l = lines_of(&o);
    check(l.len() == 2, "wrong number of lines");
    for i in 0..2 {
        // read back, digit by digit
        let (neg, d) = if l[i][0] == b'-' { (true, &l[i][1..]) } else { (false, &l[i][..]) };
        let mut x = 0i64;
        for c in d { x = x * 10 + i64::from(*c) - 48; }
        check(!d.is_empty() && (if neg { -x } else { x }) == v + i as i64, "filegen counted wrongly");
        check(d.len() == 1 || d[0] != b'0', "leading zero");
    }
}
}

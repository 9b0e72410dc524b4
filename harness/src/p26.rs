//! C26: tooltest passes a test exactly when the command did what the test file says
use crate::api::*;

/// what every program does; symx has the same in its model of posix_spawn
const PROG: &[u8] = b"#!/bin/sh
printf '%s\\n' \"$@\" > p.args
cat > p.in
if [ -n \"$1\" ] && [ -f \"$1\" ]; then cat \"$1\" > p.seen; fi
cat p.out
cat p.err >&2
if [ -n \"$1\" ] && [ -f p.new ]; then cat p.new > \"$1\"; fi
if [ -n \"$2\" ] && [ -f p.new2 ]; then cat p.new2 > \"$2\"; fi
exit $(cat p.code)
";
/// a program that is going to write these, and its exit status
fn program(out: &[u8], err: &[u8], code: u8) {
    file_set("prog", PROG);
    file_set("p.out", out);
    file_set("p.err", err);
    file_set("p.code", &[b'0' + code]);
    use std::os::unix::fs::PermissionsExt;
    ok(std::fs::set_permissions("prog", std::fs::Permissions::from_mode(0o755)), "permissions");
}
/// runs the tests: how many passed
fn tests(files: &[&str]) -> usize {
    let mut a = vec!["tooltest", "-b", "."];
    a.extend_from_slice(files);
    let (good, out) = tool(&a);
    for n in 0..=files.len() {
        let want = format!("{} test run, {} pass, {} failed\n", files.len(), n, files.len() - n);
        if same(&out, want.as_bytes()) {
            check(good == (n == files.len()), "exit status does not say whether all tests passed");
            return n;
        }
    }
    fail("no proper report");
    0
}
/// the body of a section, and the text it stands for
fn body(name: &str, lines: usize) -> (Vec<u8>, Vec<u8>) {
    let n = choice(name, lines + 1);
    let mut t = vec![];
    for _ in 0..n {
        t.extend_from_slice(&word(name, 0, 1, b"ab"));
        t.push(b'\n');
    }
    let mut v = t.clone();
    if flag(name) {
        t.extend_from_slice(b"#nonewline\n");
        v.pop();
    }
    (t, v)
}
harness! {
c26_out {
    // status and both outputs
    let out = from_upto("out", 0, tier(2, 3), b"ab\n");
    let err = from_upto("err", 0, 2, b"ab\n");
    let code = choice("code", 3) as u8;
    program(&out, &err, code);
    let status = choice("status", 4);
    let (mut so, mut ov, mut se, mut ev) = (vec![], vec![], vec![], vec![]);
    if flag("has-out") {
        let (t, v) = body("stdout", tier(1, 2));
        (so, ov) = (catv(&[b"#stdout\n", &t]), v);
    }
    if flag("has-err") {
        // with or without a line end
        ev = from("stderr", 1, b"ab").to_vec();
        se = catv(&[b"#stderr\n", &ev, b"\n"]);
        if flag("nl") { ev.push(b'\n'); } else { se.extend_from_slice(b"#nonewline\n"); }
    }
    let st: &[u8] = [&b""[..], b"#status 0\n", b"#status 1\n", b"#status  2\n"][status];
    let cmd: &[u8] = b"#command prog x\n";
    let t = match choice("order", 3) {
        0 => catv(&[cmd, &so, &se, st]),
        1 => catv(&[st, &se, &so, b"# note\n", cmd]),
        _ => catv(&[&so, cmd, b"# #status 1\n", &se, st]),
    };
    file_set("t", &t);
    let want_code = [0u8, 0, 1, 2][status];
    let eq = same(&out, &ov) & same(&err, &ev) & (code == want_code);
    let n = tests(&["t"]);
    check((n == 1) == eq, "a test passes although the command did not do what it says, or fails although it did");
    cover(if n == 1 { "pass" } else { "fail" });
}
c26_in {
    // what the command is given
    program(b"", b"", 0);
    let (it, iv) = body("stdin", 2);
    let (ft, fv) = body("infile", tier(1, 2));
    let has = flag("has-stdin");
    let file = flag("has-file");
    let arg = word("arg", 1, 2, b"ax");
    let mut s = vec![];
    if has { s = catv(&[b"#stdin\n", &it]); }
    let cmd = catv(&[b"#command prog ", if file { b"$TMP/f" } else { b"-" }, b" ", &arg, b"\n"]);
    let mut f = vec![];
    if file { f = catv(&[b"#infile f\n", &ft]); }
    file_set("t", &if flag("order") { catv(&[&cmd, &s, &f]) } else { catv(&[&f, &s, &cmd]) });
    check(tests(&["t"]) == 1, "a good test fails");
    check(same(&file_get("p.in").unwrap_or_default(), if has { &iv } else { b"" }), "the command got the wrong input");
    let a = file_get("p.args").unwrap_or_default();
    let tail = catv(&[if file { b"/f\n" } else { b"-\n" }, &arg, b"\n"]);
    check(a.len() >= tail.len() && same(&a[a.len() - tail.len()..], &tail), "the command got the wrong arguments");
    check(file_get("p.seen").is_some() == file, "the command did not find its input file");
    if file { check(same(&file_get("p.seen").unwrap_or_default(), &fv), "the input file has the wrong contents"); }
    cover("end");
}
c26_files {
    // files the command makes: maybe f, maybe g
    let made = flag("made");
    let new = from_upto("new", 0, tier(2, 3), b"ab\n");
    let other = choice("other", 3);
    program(b"", b"", 0);
    if made { file_set("p.new", &new); }
    if other > 0 { file_set("p.new2", [&b""[..], b"", b"z\n"][other]); }
    let k = choice("expect", 5);
    let (mut ot, mut ov) = (vec![], vec![]);
    if k == 1 || k == 4 { (ot, ov) = body("outfile", tier(1, 2)); }
    let g: &[u8] = [&b""[..], b"#outfile g\nz\n", b"#outfile g exact,\n"][choice("expect-g", 3)];
    let e = match k {
        0 => vec![],
        1 => catv(&[b"#outfile f\n", &ot]),
        2 => b"#outfile f infix,b\n".to_vec(),
        3 => b"#outfile f empty\n".to_vec(),
        _ => catv(&[b"#outfile h\n", &ot]),
    };
    let b = new.iter().fold(false, |x, c| x | (*c == b'b'));
    let cmd = b"#command prog $TMP/f $TMP/g\n";
    file_set("t", &if flag("order") { catv(&[cmd, &e, g]) } else { catv(&[g, &e, cmd]) });
    let want = match k {
        0 => !made,
        1 => made & same(&new, &ov),
        2 => made & b,
        3 => made & new.is_empty(),
        _ => false,
    };
    let want = want & (other == if g.is_empty() { 0 } else if g.ends_with(b"z\n") { 2 } else { 1 });
    let n = tests(&["t"]);
    check((n == 1) == want, "a test passes although a file is missing, wrong or left over, or fails without need");
    cover(if n == 1 { "pass" } else { "fail" });
}
c26_many {
    // one test does not change the verdict on the next
    program(b"a\n", b"", 0);
    let kinds: &[(&[u8], bool)] = &[
        (b"#command prog\n#stdout\na\n", true),
        (b"#command prog\n#stdout\nb\n", false),
        (b"#command prog\n#stdout\na\n#status 1\n", false),
        (b"#command none\n#infile x\n1\n", false),
        (b"#command none\n#stdout\na\n", false),
        (b"#command prog\n#stdout\na\n#infile y\n2\n", true),
        (b"#command prog $TMP/f\n#stdout\na\n#outfile f\nn\n", true),
        (b"#command prog $TMP/f $TMP/e\n#stdout\na\n", false),
        (b"#command prog $TMP/f\n#stdout\na\n#outfile g\nn\n#outfile f\nn\n", false),
        (b"#command prog $TMP/f\n#stdout\na\n#infile f\n#outfile h\n\n", false),
        (b"#bogus\n", false),
    ];
    file_set("p.new", b"n\n");
    let n = tier(2, 3);
    let names = ["t0", "t1", "t2"];
    let mut want = 0;
    for f in &names[..n] {
        let k = *pick("kind", kinds);
        file_set(f, k.0);
        want += usize::from(k.1);
    }
    check(tests(&names[..n]) == want, "the verdict on a test depends on the test before it");
    cover("end");
}
c26_parse {
    // any sequence of lines
    let n = choice("lines", tier(5, 6));
    let all: &[&[u8]] = &[b"#stdin", b"#stdout", b"x", b"#nonewline", b"# x", b"#status 1", b"#bogus", b"#infile f", b"#stderr"];
    let ls: Vec<&[u8]> = (0..n).map(|_| *pick("line", all)).collect();
    let mut t = b"#command prog\n".to_vec();
    for l in &ls { t.extend_from_slice(l); t.push(b'\n'); }
    // what it means
    let (mut sin, mut sout, mut serr, mut code, mut bad) = (vec![], vec![], vec![], 0, false);
    let mut i = 0;
    while i < n && !bad {
        let l = ls[i];
        i += 1;
        let mut b = vec![];
        let section = l == b"#stdin" || l == b"#stdout" || l == b"#stderr" || l == b"#infile f";
        if section {
            while i < n && ls[i] == b"x" { b.extend_from_slice(b"x\n"); i += 1; }
            if i < n && ls[i] == b"#nonewline" { b.pop(); i += 1; }
        }
        // input may come in several pieces
        if l == b"#stdin" { sin.extend_from_slice(&b); }
        else if l == b"#stdout" { sout = b; }
        else if l == b"#stderr" { serr = b; }
        else if l == b"#status 1" { code = 1; }
        else { bad = !section && l != b"# x"; }
    }
    // the same file twice; and two pieces of input with the end of line removed in between: left alone
    assume(ls.iter().filter(|l| **l == b"#infile f").count() < 2);
    assume(ls.iter().filter(|l| **l == b"#stdin").count() < 2);
    program(&sout, &serr, code);
    file_set("t", &t);
    check((tests(&["t"]) == 1) == !bad, "a test file is not read as documented");
    if !bad { check(same(&file_get("p.in").unwrap_or_default(), &sin), "the command got the wrong input"); }
    cover(if bad { "bad" } else { "good" });
}
}

//! C22: whatever the specification says, the tool answers; it never crashes
use crate::api::*;

/// up to n characters, one of the words, up to n characters
fn spec(n: usize, chars: &[u8], words: &[&str]) -> String {
    let a = from_upto("before", 0, n, chars);
    let w = *pick("word", words);
    let b = from_upto("after", 0, n, chars);
    // all of these are ASCII
    unsafe { String::from_utf8_unchecked(catv(&[&a, w.as_bytes(), &b])) }
}
fn files() {
    let f = *pick("file", &[&b" CDX\ta\tb\n1\tx\n2\ty\n"[..], b"1\tx\n\n2\ty\tz"]);
    file_set("f", f);
    file_set("g", f);
}
fn run(args: &[&str]) {
    let _ = tool(args);
    cover("end");
}
const N: usize = tier(1, 2);

harness! {
c22_key {
    // how to compare
    let s = spec(N, b"a2-.,~+[", &["", "é", "num", "range", "expr", "len", "a,num", "expr,", "2-3"]);
    files();
    let t = *pick("tool", &[&["sort", "-k"][..], &["sort", "-c", "-k"], &["uniq", "-k"], &["join", "-k"], &["verify", "-s", "-k"], &["sort", "-m", "-k"], &["uniq", "-w"]]);
    let mut a = t.to_vec();
    a.extend([&s, "f"]);
    if t[0] == "join" || t[1] == "-m" { a.push("g"); }
    run(&a);
}
c22_search {
    let s = spec(N, b"a2-.,~+", &["", "é", "num", "range", "4"]);
    files();
    let o = *pick("option", &["-k", "-C", "-H", "-s"]);
    run(&["binsearch", o, &s, "x", "f"]);
}
c22_match {
    let s = spec(N, b"a2-.,[]<", &["", "é", "all", "not", "glob", "comp", "[]", "a,", ",,"]);
    files();
    let t = *pick("tool", &[&["cgrep", "-p"][..], &["verify", "-p"], &["cat", "-r"], &["cat", "-n", "x", "-s"]]);
    let mut a = t.to_vec();
    a.extend([&s, "f"]);
    run(&a);
}
c22_pattern {
    // a column, a method, anything
    let m = *pick("method", &["exact", "prefix", "suffix", "infix", "glob", "regex", "range", "expr", "count", "length", "empty", "comp", "file-exact", "not.exact", "multi-exact", "c-prefix", "and", "or", "true", "utf8.exact", "case.exact", "hash"]);
    let s = from_upto("s", 0, tier(2, 3), b"a2-.,[<*(\\\xc3");
    for b in &s { assume(*b != 0xc3); }
    let e = *pick("accent", &["", "é"]);
    files();
    let s = unsafe { String::from_utf8_unchecked(s) };
    run(&["cgrep", "-p", &format!("{},{m},{e}{s}", pick("col", &["a", "[all,1-2]", ""])), "f"]);
}
c22_cols {
    let s = spec(N, b"a2-.,:~<^{}*+()", &["", "é", "^{", "<a", "(=", "a-b", "x:"]);
    files();
    run(&["cut", pick("option", &["-f", "-g", "-e", "-c"]), &s, "f"]);
}
c22_agg {
    let s = spec(N, b"a2-.,", &["", "é", "min", "merge", "count", "asum", "mean", "expr", "a,min", "chars", "n,a,sum"]);
    files();
    let t = *pick("tool", &[&["uniq", "-k", "1", "-a"][..], &["uniq", "--agg-pre"], &["uniq", "--agg-post"], &["wc", "-a"], &["uniq", "-c"], &["uniq", "-w"]]);
    let mut a = t.to_vec();
    a.extend([&s, "f"]);
    run(&a);
}
c22_merge {
    let s = spec(N, b"a2-.,:", &["", "é", "D:", "o:", "P:", "C:", "sort", "uniq", "S:", "count", "D:;.sort"]);
    files();
    let m = *pick("agg", &["merge", "min", "max", "mean", "sum", "avg", "prefix", "suffix", "asum", "amin", "amax", "amean", "count", "first", "last"]);
    run(&["uniq", "-k", "2", "-a", &format!("a,{m},{s}"), "f"]);
}
c22_misc {
    let s = spec(N, b"a2-.,:", &["", "é", "1-", "0", "end", "LT,", "1.", "name", "w,9"]);
    files();
    let t = *pick("tool", &[&["cat", "-n"][..], &["cat", "-p"], &["cgrep", "-p", "1,exact,1", "-l"], &["paste", "-d"], &["paste", "-r"], &["sample", "-f"], &["sample", "-s"], &["sample", "-r"], &["verify", "-f"], &["verify", "-l"], &["verify", "-r"],
        &["sort", "-C"], &["wc", "-f"], &["wc", "-F"], &["wc", "-t"], &["wc", "-h"], &["join", "-a"], &["join", "-o"], &["transpose", "-n"], &["calc", "-f"]]);
    let mut a = t.to_vec();
    a.push(&s);
    if t[0] != "calc" { a.push("f"); } else { a.push("1+2"); }
    if t[0] == "paste" || t[0] == "join" { a.push("g"); }
    run(&a);
}
c22_text {
    let s = spec(N, b"tm-,cbqhf\\\n ", &["", "é", "mc,", "mq"]);
    files();
    let io = *pick("io", &["--text-in", "--text-out"]);
    if flag("cat") { run(&["cat", io, &s, "f"]); } else { run(&["cut", io, &s, "-f", "1", "f"]); }
}
c22_gen {
    let s = spec(N, b"-.,1+(", &["", "é", "col", "plain,", "inf", "nan", "00000000000000000000", "9223372036854775807"]);
    let g = *pick("gen", &["", "null", "expr", "expr,", "normal,", "decimal,", "grid", "count,", "count", "1,count,"]);
    // drawing from the normal distribution is another crate's business
    let n = if g == "normal," { "0" } else { "2" };
    run(&["filegen", "-n", n, pick("option", &["-c", "-m"]), &format!("{g}{s}")]);
}
c22_trans {
    let s = spec(N, b"a2-.,:+", &["", "é", "lower", "bytes", "from_base64", "utf8", "trim", "bytes.1", "4294967297", "18446744073709551616"]);
    files();
    run(&["cut", "-f", &format!("a+{s}"), "f"]);
}
c22_file {
    // any file, any tool
    let t = bytes_upto("t", 0, tier(3, 4));
    if flag("two") { file_set("f", b"a\tb\n"); file_set("g", &t); } else { file_set("f", &t); file_set("g", b"a\tb\n"); }
    let args: &[&str] = *pick("tool", &[&["cat", "f", "g"][..], &["cat", "-e", "f"], &["cut", "-f", "1-2", "f"], &["cut", "-f", "2,~1", "f"], &["cut", "-e", "x:c1+c2", "f"], &["cut", "-c", "x:a^{2}b", "f"], &["cut", "-g", "x:1-2", "f"],
        &["cgrep", "-p", "2,exact,a", "f", "g"], &["sort", "f", "g"], &["sort", "-u", "-k", "2,num", "f", "g"], &["sort", "-c", "f"], &["sort", "-m", "f", "g"], &["sort", "-a", "-m", "-k", "2", "f", "g"],
        &["uniq", "f"], &["uniq", "-k", "2,float", "-c", "n,1", "f"], &["uniq", "-k", "1", "-a", "2,mean", "f"], &["uniq", "-w", "Max,2", "f"], &["binsearch", "b", "f"], &["binsearch", "-C", "1,1", "a", "f"], &["join", "f", "g"], &["join", "-k", "2", "-a", "1,o1", "-a", "2,o2", "f", "g"],
        &["paste", "-e", "late", "f", "g"], &["paste", "f", "g"], &["verify", "-s", "f"], &["verify", "-f", "LT,b", "-l", "GT,a", "f"], &["sample", "-s", "1", "f"], &["sample", "-f", "2,1,3", "f"], &["sample", "-r", "2-", "f", "g"], &["transpose", "f"], &["wc", "f", "g"], &["wc", "-C", "f"], &["tabs", "f"]]);
    if args[0] == "tabs" { for b in &t { assume(*b < 128); } } // the width of other characters is another crate's business
    run(args);
}
}

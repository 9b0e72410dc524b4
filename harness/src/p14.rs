//! C14: aggregators compute what their names say over each group of lines
use crate::api::*;
use cdx::agg::{AggMaker, AggType, LineAgger};
use cdx::column::ColumnFun;
use cdx::comp::CompMaker;
use cdx::prelude::*;
use std::cmp::Ordering;

/// result of the aggregator after the given values, having been used and reset before
fn run(spec: &str, v: &[Vec<u8>], before: &[u8]) -> Vec<u8> {
    let a = ok(AggMaker::make(spec), "aggregator");
    let mut a = a.borrow_mut();
    if flag("reset") {
        a.add(before);
        a.reset();
    }
    for x in v {
        a.add(x);
    }
    let mut o = vec![];
    ok(a.result(&mut o, NumFormat::Plain(None)), "result");
    o
}
fn vals(n: usize, len: usize, al: &[u8]) -> Vec<Vec<u8>> {
    (0..1 + choice("n", n)).map(|_| if al.is_empty() { bytes_upto("v", 0, len) } else { from_upto("v", 0, len, al) }).collect()
}
fn text(n: usize) -> Vec<u8> {
    n.to_string().into_bytes()
}
fn words(v: &[u8], alnum: bool) -> usize {
    let mut n = 0;
    let mut was = false;
    for b in v {
        let is = if alnum { b.is_ascii_alphanumeric() } else { *b > b' ' };
        n += usize::from(is && !was);
        was = is;
    }
    n
}
fn minmax(methods: &[&str], al: &[u8], len: usize) {
    let max = flag("max");
    let m = *pick("comp", methods);
    let v = vals(tier(2, 3), len, al);
    let o = run(&format!("{},{}", if max { "maximum" } else { "min" }, m), &v, b"5");
    let mut c = ok(CompMaker::make_comp(m), "comparator");
    let mut best = &v[0];
    for x in &v[1..] {
        let r = c.comp(x, best);
        if r == if max { Ordering::Greater } else { Ordering::Less } {
            best = x;
        }
    }
    check(same(&o, best), "min or max is not the smallest or largest value");
}

harness! {
c14_minmax {
    minmax(&["", "plain", "rev.plain", "lower", "length"], b"", 2);
}
c14_minmax_num {
    minmax(&["numeric", "rev.numeric", "ip"], b"19-.", 2);
}
c14_affix {
    let v = vals(tier(2, 3), tier(3, 4), b"");
    let suf = flag("suffix");
    let o = run(if suf { "suffix" } else { "prefix" }, &v, b"x");
    let mut n = v[0].len();
    for x in &v[1..] {
        let mut k = 0;
        while k < n && k < x.len() && (if suf { x[x.len() - 1 - k] == v[0][v[0].len() - 1 - k] } else { x[k] == v[0][k] }) {
            k += 1;
        }
        n = k;
    }
    let want = if suf { &v[0][v[0].len() - n..] } else { &v[0][..n] };
    check(same(&o, want), "common prefix or suffix is wrong");
}
c14_count {
    // counts of characters and words
    let k = choice("counter", 3);
    let utf8 = flag("utf8");
    let v = if flag("long") { vec![from_upto("l", 3, tier(4, 5), b"a1 .")] } else if utf8 { vals(2, 2, b"a1 \t.Z") } else { vals(2, 2, b"") };
    let n: Vec<usize> = v.iter().map(|x| match k { 0 => x.len(), 1 => words(x, false), _ => words(x, true) }).collect();
    let sum: usize = n.iter().sum();
    let (name, want) = match choice("agg", 5) {
        0 => ("asum", text(sum)),
        1 => ("amin", text(*n.iter().min().unwrap())),
        2 => ("amax", text(*n.iter().max().unwrap())),
        3 => ("aavg", if sum % n.len() == 0 { text(sum / n.len()) } else { catv(&[&text(sum / 2), b".5"]) }),
        _ => ("count", text(v.len())),
    };
    let c = ["chars", "swords", "awords"][k];
    let spec = if name == "count" { name.to_string() } else { format!("{},{}{}", name, if utf8 { "utf8." } else { "" }, c) };
    check(same(&run(&spec, &v, if flag("before") { b"abc de" } else { b"" }), &want), "count of characters or words is wrong");
}
c14_sum {
    let v: Vec<Vec<u8>> = (0..1 + choice("n", 3)).map(|_| catv(&[if flag("neg") { b"-" } else { b"" }, &from("v", 1, b"0123456789")])).collect();
    let mut s = 0i64;
    for x in &v {
        let d = i64::from(x[x.len() - 1] - b'0');
        s += if x.len() > 1 { -d } else { d };
    }
    let which = flag("mean");
    let a = ok(AggMaker::make(if which { "mean" } else { "sum" }), "aggregator");
    let mut a = a.borrow_mut();
    for x in &v { a.add(x); }
    let want = if which { s as f64 / v.len() as f64 } else { s as f64 };
    check(a.value() == want, "sum or mean is wrong");
    a.reset();
    a.add(b"4");
    check(a.value() == 4.0, "reset of sum or mean is wrong");
}
c14_merge {
    let (spec, sort, uniq, cnt, delim, out, min, max, parts): (&str, bool, bool, bool, u8, u8, usize, usize, usize) = *pick("spec", &[
        ("merge", false, false, false, b',', b',', 0, 99, 99),
        ("merge,sort", true, false, false, b',', b',', 0, 99, 99),
        ("merge,uniq", false, true, false, b',', b',', 0, 99, 99),
        ("merge,sort.uniq", true, true, false, b',', b',', 0, 99, 99),
        ("merge,count", false, false, true, b',', b',', 0, 99, 99),
        ("merge,uniq.count.sort", true, true, true, b',', b',', 0, 99, 99),
        ("merge,D;|", false, false, false, b';', b'|', 0, 99, 99),
        ("merge,D;|.sort", true, false, false, b';', b'|', 0, 99, 99),
        ("merge,min_len:2", false, false, false, b',', b',', 2, 99, 99),
        ("merge,max_len:1.max_parts:1", false, false, false, b',', b',', 0, 1, 1),
        ("merge,sort.comp:rev.plain", true, false, false, b',', b',', 0, 99, 99),
    ]);
    let rev = spec.ends_with("rev.plain");
    let v = vals(tier(2, 3), 2, b"ab;,");
    let o = run(spec, &v, b"x");
    // the values, joined and taken apart again
    let mut all = vec![];
    for x in &v {
        if !x.is_empty() {
            if !all.is_empty() { all.push(delim); }
            all.extend_from_slice(x);
        }
    }
    assume(all.is_empty() || all[all.len() - 1] != delim);
    let mut p = if all.is_empty() { vec![] } else { cols_of(&all, delim) };
    if sort {
        // insertion sort, stable
        for i in 1..p.len() {
            let mut j = i;
            while j > 0 && (if rev { p[j] > p[j - 1] } else { p[j] < p[j - 1] }) {
                p.swap(j, j - 1);
                j -= 1;
            }
        }
    }
    if uniq { p.dedup(); }
    let want = if cnt { text(p.len()) } else {
        let mut w = vec![];
        let mut n = 0;
        for x in &p {
            if x.len() >= min && x.len() <= max && n < parts {
                if n > 0 { w.push(out); }
                w.extend_from_slice(x);
                n += 1;
            }
        }
        w
    };
    check(same(&o, &want), "merge is wrong");
}
c14_uniq {
    // aggregated columns replace, precede or follow the columns of the group's line
    let n = 1 + choice("lines", tier(3, 4));
    let head = flag("head");
    let whole = flag("whole");
    let rows: Vec<(Vec<u8>, Vec<u8>)> = (0..n).map(|_| (from("k", 1, b"xy"), from_upto("v", 0, 1, b"ab"))).collect();
    let lines: Vec<Vec<u8>> = rows.iter().map(|r| catv(&[&r.0, b"\t", &r.1])).collect();
    let mut t = if head { b" CDX\ta\tb\n".to_vec() } else { vec![] };
    t.extend_from_slice(&text_of(&lines, true));
    file_set("f", &t);
    let (opt, arg, place): (&str, &str, usize) = *pick("opt", &[("-a", "2,merge", 0), ("--agg-pre", "x,2,max", 1), ("--agg-post", "x,2,count", 2), ("--agg-post", "x,2,asum,chars", 3)]);
    let cnt = choice("count", 3);
    let mut args = vec!["uniq", "-k", if whole { "" } else { "1" }, opt, arg];
    if cnt == 1 { args.extend(["-c", "n"]); }
    if cnt == 2 { args.extend(["-c", "n,end"]); }
    args.push("f");
    let (k, out) = tool(&args);
    check(k, "uniq failed");
    let mut want = vec![];
    if head {
        want.extend_from_slice(b" CDX");
        if cnt == 1 { want.extend_from_slice(b"\tn"); }
        if place == 1 { want.extend_from_slice(b"\tx"); }
        want.extend_from_slice(b"\ta\tb");
        if place >= 2 { want.extend_from_slice(b"\tx"); }
        if cnt == 2 { want.extend_from_slice(b"\tn"); }
        want.push(b'\n');
    }
    let mut i = 0;
    while i < n {
        let mut j = i + 1;
        while j < n && rows[j].0[0] == rows[i].0[0] && (!whole || same(&rows[j].1, &rows[i].1)) {
            j += 1;
        }
        let g = &rows[i..j];
        let num = text(j - i);
        let agg: Vec<u8> = match place {
            0 => { let mut m = vec![]; for r in g { if !r.1.is_empty() { if !m.is_empty() { m.push(b','); } m.extend_from_slice(&r.1); } } m }
            1 => { let mut m = g[0].1.clone(); for r in g { if r.1 > m { m = r.1.clone(); } } m }
            2 => num.clone(),
            _ => text(g.iter().map(|r| r.1.len()).sum()),
        };
        let mut l: Vec<Vec<u8>> = vec![];
        if cnt == 1 { l.push(num.clone()); }
        if place == 1 { l.push(agg.clone()); }
        l.push(g[0].0.clone());
        l.push(if place == 0 { agg.clone() } else { g[0].1.clone() });
        if place >= 2 { l.push(agg.clone()); }
        if cnt == 2 { l.push(num.clone()); }
        for (x, c) in l.iter().enumerate() {
            if x > 0 { want.push(b'\t'); }
            want.extend_from_slice(c);
        }
        want.push(b'\n');
        i = j;
    }
    check(same(&out, &want), "uniq with aggregators is wrong");
}
c14_place {
    // where the result goes, as the specification says
    let (pl, k) = *pick("place", &[("replace,", 0), ("prefix,nm,", 1), ("PREPEND,nm,", 1), ("suffix,nm,", 2), ("append,nm,", 2)]);
    let mut a = ok(LineAgger::new(&format!("{pl}2,max")), "line aggregator");
    check(match &a.out { AggType::Replace => k == 0, AggType::Prefix(s) => k == 1 && s == "nm", AggType::Append(s) => k == 2 && s == "nm" }, "wrong placement");
    ok(a.lookup(&["x", "y"]), "lookup");
    let v = vals(2, 1, b"");
    for x in &v {
        for b in x { assume(*b != b'\t' && *b != b'\n'); }
        let mut t = TextLine::new();
        *t.raw() = catv(&[b"z\t", x, b"\n"]);
        t.split(&TextFileMode::default());
        a.add(&t);
    }
    let mut o = vec![];
    ok(a.write(&mut o, &TextLine::new(), &TextFileMode::default()), "write");
    check(same(&o, v.iter().max().unwrap()), "wrong value");
}
c14_wc {
    // lines, words and bytes of each file, and the totals
    let nf = 1 + choice("files", 2);
    let mut tot = [0usize; 3];
    let mut want = if nf > 1 { b" CDX\tfile\tlines\twords\tbytes\n".to_vec() } else { b" CDX\tlines\twords\tbytes\n".to_vec() };
    let mut args = vec!["wc".to_string(), "-l".into(), "-w".into(), "-b".into()];
    for i in 0..nf {
        let n = 1 + choice("lines", 2);
        let lines: Vec<Vec<u8>> = (0..n).map(|_| from_upto("l", 0, 2, b"a \t")).collect();
        assume(lines[0].is_empty() || lines[0][0] != b' ');
        let t = text_of(&lines, true);
        let name = format!("f{i}");
        file_set(&name, &t);
        args.push(name.clone());
        let c = [n, lines.iter().map(|l| words(l, false)).sum::<usize>(), t.len()];
        if nf > 1 { want.extend_from_slice(name.as_bytes()); want.push(b'\t'); }
        row(&mut want, &c);
        for k in 0..3 { tot[k] += c[k]; }
    }
    if nf > 1 {
        want.extend_from_slice(b"totals\t");
        row(&mut want, &tot);
    }
    let v: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let (k, out) = tool(&v);
    check(k, "wc failed");
    check(same(&out, &want), "wc counts are wrong");
}
}
fn row(o: &mut Vec<u8>, c: &[usize; 3]) {
    for k in 0..3 {
        if k > 0 { o.push(b'\t'); }
        o.extend_from_slice(&text(c[k]));
    }
    o.push(b'\n');
}

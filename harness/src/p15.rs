//! C15: expressions have their conventional value, malformed ones are refused
use crate::api::*;
use cdx::expr::*;
use cdx::prelude::*;

#[derive(Clone, Copy, PartialEq)]
enum T {
    Num(f64),
    Name(usize, usize),
    Op(u8), // + - * / % ^ ! ( ) , < > and l: <=, g: >=, e: ==, n: !=
}
fn alpha(b: u8) -> bool {
    b.is_ascii_alphabetic()
}
fn tokens(s: &[u8]) -> Option<Vec<T>> {
    let mut v = vec![];
    let mut p = 0;
    while p < s.len() {
        let b = s[p];
        let eq = p + 1 < s.len() && s[p + 1] == b'=';
        if b.is_ascii_digit() {
            let mut n = 0.0;
            while p < s.len() && s[p].is_ascii_digit() {
                n = n * 10.0 + f64::from(s[p] - b'0');
                p += 1;
            }
            v.push(T::Num(n));
            continue;
        }
        if alpha(b) {
            let st = p;
            while p < s.len() && (alpha(s[p]) || s[p].is_ascii_digit() || s[p] == b'_') {
                p += 1;
            }
            v.push(T::Name(st, p));
            continue;
        }
        let o = match b {
            b'=' if eq => b'e',
            b'!' if eq => b'n',
            b'<' if eq => b'l',
            b'>' if eq => b'g',
            b'+' | b'-' | b'*' | b'/' | b'%' | b'^' | b'!' | b'(' | b')' | b',' | b'<' | b'>' => b,
            _ => return None,
        };
        p += if o.is_ascii_lowercase() { 2 } else { 1 };
        v.push(T::Op(o));
    }
    Some(v)
}
struct P<'a> {
    s: &'a [u8],
    t: Vec<T>,
    p: usize,
    vars: &'a [(&'a str, f64)],
}
fn f(b: bool) -> f64 {
    f64::from(u8::from(b))
}
fn apply(o: u8, a: f64, b: f64) -> f64 {
    match o {
        b'+' => a + b,
        b'-' => a - b,
        b'*' => a * b,
        b'/' => a / b,
        b'%' => a % b,
        b'^' => a.powf(b),
        b'<' => f(a < b),
        b'>' => f(a > b),
        b'l' => f(a <= b),
        b'g' => f(a >= b),
        b'e' => f(a == b),
        _ => f(a != b),
    }
}
fn fact(x: f64) -> f64 {
    let n = x.round();
    if n < 0.0 {
        return 0.0;
    }
    if n > 170.0 {
        return f64::INFINITY;
    }
    let mut r = 1.0;
    let mut i = 1.0;
    while i <= n {
        r *= i;
        i += 1.0;
    }
    r
}
impl P<'_> {
    fn op(&mut self, ops: &[u8]) -> Option<u8> {
        if let Some(T::Op(o)) = self.t.get(self.p) {
            if ops.contains(o) {
                self.p += 1;
                return Some(*o);
            }
        }
        None
    }
    fn left(&mut self, level: usize) -> Option<f64> {
        const L: [&[u8]; 3] = [b"<>lgen", b"+-", b"*/%"];
        if level == 3 {
            return self.unary();
        }
        let mut x = self.left(level + 1)?;
        while let Some(o) = self.op(L[level]) {
            let y = self.left(level + 1)?;
            x = apply(o, x, y);
        }
        Some(x)
    }
    fn unary(&mut self) -> Option<f64> {
        match self.op(b"+-") {
            Some(b'-') => Some(-self.unary()?),
            Some(_) => self.unary(),
            None => {
                let x = self.postfix()?;
                if self.op(b"^").is_some() {
                    let y = self.unary()?;
                    return Some(apply(b'^', x, y));
                }
                Some(x)
            }
        }
    }
    fn postfix(&mut self) -> Option<f64> {
        let mut x = self.primary()?;
        while self.op(b"!").is_some() {
            x = fact(x);
        }
        Some(x)
    }
    fn primary(&mut self) -> Option<f64> {
        if self.op(b"(").is_some() {
            let x = self.left(0)?;
            self.op(b")")?;
            return Some(x);
        }
        let t = *self.t.get(self.p)?;
        self.p += 1;
        match t {
            T::Num(n) => Some(n),
            T::Name(a, b) => {
                let name = &self.s[a..b];
                if self.op(b"(").is_some() {
                    let mut v = vec![self.left(0)?];
                    while self.op(b",").is_some() {
                        v.push(self.left(0)?);
                    }
                    self.op(b")")?;
                    return func(name, &v);
                }
                for (n, v) in self.vars {
                    if n.as_bytes() == name {
                        return Some(*v);
                    }
                }
                None
            }
            T::Op(_) => None,
        }
    }
}
fn func(name: &[u8], v: &[f64]) -> Option<f64> {
    let mut r = v[0];
    match name {
        b"max" => v.iter().for_each(|x| if *x > r { r = *x }),
        b"min" => v.iter().for_each(|x| if *x < r { r = *x }),
        b"avg" => r = v.iter().fold(0.0, |a, x| a + *x) / (v.len() as f64),
        b"if" if v.len() == 3 => r = if v[0] != 0.0 { v[1] } else { v[2] },
        b"abs" if v.len() == 1 => r = v[0].abs(),
        _ => return None,
    }
    Some(r)
}
/// the value of an expression, None if it is malformed
fn value(s: &[u8], vars: &[(&str, f64)]) -> Option<f64> {
    let t = tokens(s)?;
    let mut p = P { s, t, p: 0, vars };
    let r = p.left(0)?;
    if p.p == p.t.len() { Some(r) } else { None }
}
fn eq(a: f64, b: f64) -> bool {
    (a.to_bits() == b.to_bits()) | (a == b) | ((a != a) & (b != b))
}
/// what the code makes of an expression with these variables
fn run(s: &[u8], vars: &[(&str, f64)]) -> Option<f64> {
    let Ok(s) = std::str::from_utf8(s) else { fail("alphabet") };
    let Ok(mut e) = Expr::new(s) else { return None };
    for (n, v) in vars {
        let w = e.find_var(n);
        e.set_var(w, *v);
    }
    if e.lookup(&[]).is_err() {
        return None;
    }
    Some(e.eval_line(b"", b'\t'))
}
fn agree(s: &[u8], vars: &[(&str, f64)]) {
    match (run(s, vars), value(s, vars)) {
        (Some(a), Some(b)) => {
            check(eq(a, b), "expression has the wrong value");
            cover("good");
        }
        (None, None) => cover("bad"),
        (Some(_), None) => fail("malformed expression accepted"),
        (None, Some(_)) => fail("well-formed expression refused"),
    }
}
fn dbl(name: &str) -> f64 {
    f64::from_bits(u64v(name))
}
const OPS: &[&str] = &["+", "-", "*", "/", "<", ">", "<=", ">=", "==", "!="];
const ALL: &[&str] = &["+", "-", "*", "/", "%", "^", "<", ">", "<=", ">=", "==", "!="];
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() < 1e-9 || eq(a, b)
}

harness! {
c15_any {
    let s = from_upto("s", 0, tier(4, 5), b"2+-*^(),!<=a");
    agree(&s, &[("a", 3.0)]);
}
c15_token {
    // longer sequences made of tokens
    let mut s = vec![];
    for _ in 0..tier(5, 6) {
        s.extend_from_slice(pick("t", &["2", "a", "-", "/", "(", ")", "!", "<=", "max(", ","]).as_bytes());
    }
    agree(&s, &[("a", 3.0)]);
}
c15_shape {
    // arbitrary doubles as operands
    let v = [("x", dbl("x")), ("y", dbl("y")), ("z", dbl("z"))];
    let (o1, o2) = (pick("o1", OPS), pick("o2", OPS));
    let s = match choice("shape", 4) {
        0 => format!("x{o1}y{o2}z"),
        1 => format!("(x{o1}y){o2}z"),
        2 => format!("x{o1}(y{o2}z)"),
        _ => format!("-x{o1}-y{o2}+z"),
    };
    agree(s.as_bytes(), &v);
}
c15_ops {
    // every pair of operators, operands decorated
    let d = [["7", "-7", "3!", "(7)", "2^3"], ["2", "-2", "2!", "(2)", "3^2"], ["3", "-3", "3!", "(3)", "2^1"]];
    let which = choice("which", 3);
    let deco = choice("deco", 5);
    let t = |i: usize| d[i][if i == which { deco } else { 0 }];
    let s = catv(&[t(0).as_bytes(), pick("o1", ALL).as_bytes(), t(1).as_bytes(), pick("o2", ALL).as_bytes(), t(2).as_bytes()]);
    agree(&s, &[]);
}
c15_func {
    let v = [("x", dbl("x")), ("y", dbl("y")), ("z", dbl("z"))];
    for x in &v {
        assume(x.1 == x.1);
    }
    let s = pick("s", &["max(x,y,z)", "min(x,y,z)", "max(x)", "min(x,y)", "avg(x,y,z)", "avg(x)", "if(x,y,z)", "if(x<y,y,x+z)", "max(x,min(y,z))", "abs(x)+abs(y)", "if(x,y)", "abs(x,y)", "if(x,y,z,x)", "max()", "nope(x)", "max(x,y)-min(y,z)", "max(x,2,y)"]);
    agree(s.as_bytes(), &v);
}
c15_table {
    // every other function where it differs from its neighbours, every constant
    use std::f64::consts as c;
    let h = 0.5f64;
    let t: &[(&str, f64)] = &[
        ("acos(h)", h.acos()), ("acosh(3)", 3f64.acosh()), ("asin(h)", h.asin()), ("asinh(h)", h.asinh()), ("atan(h)", h.atan()),
        ("atan2(h,-2)", h.atan2(-2.0)), ("atanh(h)", h.atanh()), ("cbrt(27)", 3.0), ("ceil(5/2)", 3.0), ("ceil(-5/2)", -2.0),
        ("copysign(3,-2)", -3.0), ("cos(h)", h.cos()), ("cosh(h)", h.cosh()), ("erf(h)", 0.520_499_877_813_046_5), ("exp(h)", h.exp()),
        ("exp2(3)", 8.0), ("exp10(2)", 100.0), ("expm1(h)", h.exp_m1()), ("fabs(-2)", 2.0), ("fdim(5,3)", 2.0),
        ("fdim(3,5)", 0.0), ("floor(5/2)", 2.0), ("floor(-5/2)", -3.0), ("fma(2,3,4)", 10.0), ("fmax(2,3)", 3.0),
        ("fmax(3,2)", 3.0), ("fmin(2,3)", 2.0), ("fmin(3,2)", 2.0), ("fmod(7,4)", 3.0), ("fmod(-7,4)", -3.0),
        ("hypot(3,4)", 5.0), ("j0(h)", 0.938_469_807_240_813), ("j1(h)", 0.242_268_457_674_873_87), ("jn(2,h)", 0.030_604_023_458_682_638), ("ldexp(3,2)", 12.0),
        ("lgamma(h)", 0.572_364_942_924_7), ("log(h)", h.ln()), ("log1p(h)", h.ln_1p()), ("log2(8)", 3.0), ("log10(1000)", 3.0),
        ("(nextafter(1,2)-1)*2^52", 1.0), ("(nextafter(2,1)-2)*2^52", -1.0), ("pow(2,5)", 32.0), ("remainder(7,4)", -1.0), ("round(5/2)", 3.0),
        ("round(-5/2)", -3.0), ("scalbn(3,2)", 12.0), ("sin(h)", h.sin()), ("sinh(h)", h.sinh()), ("sqrt(9)", 3.0),
        ("tan(h)", h.tan()), ("tanh(h)", h.tanh()), ("tgamma(5)", 24.0), ("tgamma(h)", 1.772_453_850_905_516), ("trunc(-5/2)", -2.0),
        ("trunc(5/2)", 2.0), ("y0(h)", -0.444_518_733_506_706_6), ("y1(h)", -1.471_472_392_670_243_3), ("yn(2,h)", -5.441_370_837_174_267), ("abs(-2)", 2.0),
        ("pi", c::PI), ("e", c::E), ("M_E", c::E), ("M_LOG2E", c::LOG2_E), ("M_LOG10E", c::LOG10_E), ("M_LN2", c::LN_2), ("M_LN10", c::LN_10),
        ("M_PI", c::PI), ("M_PI_2", c::FRAC_PI_2), ("M_PI_4", c::FRAC_PI_4), ("M_1_PI", c::FRAC_1_PI), ("M_2_PI", c::FRAC_2_PI),
        ("M_2_SQRTPI", c::FRAC_2_SQRT_PI), ("M_SQRT2", c::SQRT_2), ("M_SQRT1_2", c::FRAC_1_SQRT_2),
        ("M_INF", f64::INFINITY), ("M_NEG_INF", f64::NEG_INFINITY), ("M_MAX", f64::MAX), ("M_MIN", f64::MIN), ("M_MIN_POS*2^1022", 1.0),
    ];
    let (s, v) = pick("s", t);
    let got = run(s.as_bytes(), &[("h", h)]);
    check(got.is_some(), "function refused");
    check(near(got.unwrap(), *v), "function has the wrong value");
}
c15_fact {
    // all factorials that fit, also of what rounds to a whole number
    let n = choice("n", 172);
    let s = match choice("form", 3) {
        0 => format!("{n}!"),
        1 => format!("({n}+0.4)!"),
        _ => format!("({n}-0.4)!"),
    };
    let got = run(s.as_bytes(), &[]);
    check(got.is_some(), "factorial refused");
    let (g, w) = (got.unwrap(), fact(n as f64));
    check(eq(g, w) || (g / w - 1.0).abs() < 1e-12 || (n == 0 && s.contains('-')), "factorial is wrong");
}
c15_cols {
    // columns by name, number and group; a second file may have its columns elsewhere
    let d = bytes("d", 3);
    for b in &d {
        assume((*b >= b'0') & (*b <= b'9'));
    }
    let line = [d[0], b'\t', d[1], b'\t', d[2]];
    let v = |i: usize| f64::from(d[i] - b'0');
    let names = [["a", "b", "c_d"], ["b", "a", "c_d"], ["c_d", "x", "a"]];
    let (h1, h2) = (choice("h1", 3), choice("h2", 3));
    let has = |h: usize, n: &str| names[h].iter().position(|x| *x == n);
    let s = choice("s", 6);
    let text = ["a*2", "c1-c3", "max([1-2])", "if(b<c_d,1,0)", "[a]+c2", "c4+1"][s];
    let want = |h: usize| -> Option<f64> {
        Some(match s {
            0 => v(has(h, "a")?) * 2.0,
            1 => v(0) - v(2),
            2 => if d[0] > d[1] { v(0) } else { v(1) },
            3 => f(v(has(h, "b")?) < v(has(h, "c_d")?)),
            4 => v(has(h, "a")?) + v(1),
            _ => 1.0,
        })
    };
    let mut e = ok(Expr::new(text), "refused");
    for h in [h1, h2] {
        let r = e.lookup(&names[h]);
        match want(h) {
            None => check(r.is_err(), "unknown column accepted"),
            Some(w) => {
                check(r.is_ok(), "known column refused");
                check(eq(e.eval_line(&line, b'\t'), w), "expression reads the wrong column");
                let mut t = TextLine::new();
                t.raw().extend_from_slice(&line);
                t.raw().push(b'\n');
                t.split(&TextFileMode::default());
                check(eq(e.eval(&t), w), "expression reads the wrong column of a split line");
            }
        }
        if want(h).is_none() {
            return;
        }
    }
}
c15_names {
    // no reference to columns makes the code panic
    let s = from_upto("s", 0, tier(3, 4), b"c01[]a-+");
    let Ok(st) = std::str::from_utf8(&s) else { fail("alphabet") };
    if let Ok(mut e) = Expr::new(st) {
        if e.lookup(&["a", "b"]).is_ok() {
            let _ = e.eval_line(b"1\t2", b'\t');
            cover("good");
        } else {
            cover("bad");
        }
    }
}
c15_calc {
    // the calculator prints one value per well-formed line
    let (a, b) = (bytes("a", 1), bytes("b", 1));
    assume((a[0] >= b'0') & (a[0] <= b'9') & (b[0] >= b'1') & (b[0] <= b'9'));
    let k = choice("k", 5);
    let mid = ["1+1", "", "1+", "(2", "plain,3"][k];
    let t = catv(&[&a, b"-", &b, b"\n", mid.as_bytes(), b"\n", &b, b"<=", &a, if flag("nl") { b"\n" } else { b"" }]);
    file_set("f", &t);
    let (good, out) = tool(&["calc", "f"]);
    check(good, "calc failed");
    let mut want = vec![];
    let (x, y) = (a[0] - b'0', b[0] - b'0');
    if x >= y {
        want.push(b'0' + (x - y));
    } else {
        want.push(b'-');
        want.push(b'0' + (y - x));
    }
    want.extend_from_slice([&b"\n2\n"[..], b"\n", b"\n", b"\n", b"\n3\n"][k]);
    want.extend_from_slice(if y <= x { b"1\n" } else { b"0\n" });
    check(same(&out, &want), "calc printed the wrong values");
    file_set("f", pick("empty", &[&b""[..], b" CDX\ta\n"]));
    file_set("g", b"2*3");
    let (good, out) = tool(&["calc", "f", "g"]);
    check(good && same(&out, b"6\n"), "calc after a file without expressions");
}
}

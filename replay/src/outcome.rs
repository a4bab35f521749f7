// What an operation does, as text. Compiled twice: against the real crate (fxdreplay trace) and against
// the text handed to the verifier (tool/crosscheck.py). `S` is the surface of either.
pub type Res<T> = std::result::Result<T, u8>;
pub trait S: Sized + Clone {
    fn mk(intg: i8, frac: i8, lsu: [i32; 9]) -> Self;
    fn parts(&self) -> (i8, i8, [i32; 9]);
    /// 0 add, 1 sub, 2 mul, 3 div, 4 rem
    fn op_to(op: usize, a: &Self, b: &Self, r: &mut Self, n: usize) -> Res<()>;
    fn op(op: usize, a: Self, b: Self) -> Self;
    fn o_cmp(&self, o: &Self) -> (i8, Option<i8>, bool);
    fn o_hash(&self) -> Vec<u8>;
    fn o_round(&mut self, n: isize);
    fn o_round_to(&self, r: &mut Self, n: isize);
    fn o_bytes(&mut self, b: &[u8], reset: bool) -> Res<()>;
    fn o_ascii(&mut self, b: &str, reset: bool) -> Res<()>;
    fn o_str(b: &str) -> Res<Self>;
    fn o_append(&self, v: &mut Vec<u8>, n: isize);
    fn o_text(&self, n: isize) -> String;
    fn o_u64(v: u64) -> Self;
    fn o_i64(v: i64) -> Self;
    fn o_to(&self) -> (Res<i64>, Res<u64>);
    fn o_access(&self) -> (bool, bool, i8, i8, usize, usize);
    fn o_set(&mut self, k: usize);
    fn o_const() -> (Self, Self);
}

fn nums(s: &str) -> Vec<i64> {
    s.split(',').map(|x| x.parse().unwrap()).collect()
}
fn dec<T: S>(s: &str) -> T {
    let v = nums(s);
    let mut l = [0; 9];
    for i in 0..9 {
        l[i] = v[3 + i] as i32;
    }
    T::mk((v[1] as u8 | if v[0] != 0 { 0x80 } else { 0 }) as i8, v[2] as i8, l)
}
fn guard(f: impl FnOnce() -> String) -> String {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| "panic".into())
}

/// line: op|a|b|dst|n|hex
pub fn outcome<T: S>(line: &str) -> String {
    let f: Vec<&str> = line.split('|').collect();
    let (a, b, dst): (T, T, T) = (dec(f[1]), dec(f[2]), dec(f[3]));
    let n: i64 = f[4].parse().unwrap();
    let hex = f[5].as_bytes();
    let bytes: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&f[5][2 * i..2 * i + 2], 16).unwrap()).collect();
    let show = |x: &T| format!("{:?}", x.parts());
    match f[0] {
        "add" | "sub" | "mul" | "div" | "rem" => {
            let k = ["add", "sub", "mul", "div", "rem"].iter().position(|x| *x == f[0]).unwrap();
            let r = guard(|| {
                let mut d = dst.clone();
                let r = T::op_to(k, &a, &b, &mut d, n as usize);
                format!("{:?} {}", r, show(&d))
            });
            let o = guard(|| show(&T::op(k, a.clone(), b.clone())));
            format!("{} / {}", r, o)
        }
        "cmp" => guard(|| format!("{:?}", a.o_cmp(&b))),
        "hash" => guard(|| format!("{:?}", a.o_hash())),
        "round" | "roundeq" => {
            let x = guard(|| {
                let mut d = a.clone();
                d.o_round(n as isize);
                show(&d)
            });
            let y = guard(|| {
                let mut d = dst.clone();
                a.o_round_to(&mut d, n as isize);
                show(&d)
            });
            format!("{} / {}", x, y)
        }
        "parse" | "reparse" => {
            let x = guard(|| {
                let mut d = dst.clone();
                let r = d.o_bytes(&bytes, n & 1 == 1);
                format!("{:?} {}", r, show(&d))
            });
            let y = guard(|| match std::str::from_utf8(&bytes) {
                Ok(s) => {
                    let mut d = dst.clone();
                    let r = d.o_ascii(s, n & 1 == 1);
                    let t = T::o_str(s);
                    format!("{:?} {} {:?}", r, show(&d), t.map(|t| show(&t)))
                }
                Err(_) => "-".into(),
            });
            format!("{} / {}", x, y)
        }
        "format" | "printparse" => {
            let n = if f[0] == "format" { n } else { -1 };
            let x = guard(|| {
                let mut v = bytes.clone();
                a.o_append(&mut v, n as isize);
                format!("{:?}", v)
            });
            let y = guard(|| a.o_text(n as isize));
            format!("{} / {}", x, y)
        }
        "fromint" => guard(|| format!("{} {}", show(&T::o_u64(n as u64)), show(&T::o_i64(n)))),
        "toint" => guard(|| format!("{:?}", a.o_to())),
        "access" => guard(|| {
            let mut s = format!("{:?}", a.o_access());
            for k in 0..4 {
                let mut d = a.clone();
                d.o_set(k);
                s.push_str(&show(&d));
            }
            let c = T::o_const();
            s + &show(&c.0) + &show(&c.1)
        }),
        _ => "?".into(),
    }
}

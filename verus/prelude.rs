// Externals the crate's code touches. Everything here that has no proof is listed in the evidence
// as trusted.

/// panic!/unreachable!: reaching it is a proof failure
#[verifier::external_body]
pub fn fxd_panic() -> !
    requires false,
{ panic!() }

/// panic! where it is permitted (operators): control does not come back
#[verifier::external_body]
pub fn fxd_panics() -> !
{ panic!() }

/// the bounds check of `place[a..b]`
pub fn fxd_slice_check(a: usize, b: usize, len: usize)
    requires a <= b <= len,
{}

pub trait FxdAscii {
    spec fn is_digit(&self) -> bool;
    fn fxd_is_ascii_digit(&self) -> (r: bool)
        ensures r == self.is_digit();
}

impl FxdAscii for u8 {
    open spec fn is_digit(&self) -> bool { 48 <= *self <= 57 }
    fn fxd_is_ascii_digit(&self) -> (r: bool)
    {
        *self >= 48 && *self <= 57
    }
}

pub fn fxd_min(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { a } else { b },
{ if a <= b { a } else { b } }

pub fn fxd_sat_sub(a: usize, b: usize) -> (r: usize)
    ensures r == if a >= b { a - b } else { 0int },
{ if a >= b { a - b } else { 0 } }

pub assume_specification [<Ordering as PartialEq<Ordering>>::eq] (a: &Ordering, b: &Ordering) -> (r: bool)
    ensures r == (*a == *b);

/// `a[lo..hi].fill(v)`
pub fn fxd_fill<const N: usize>(a: &mut [i32; N], lo: usize, hi: usize, v: i32)
    requires lo <= hi <= N,
    ensures
        forall|i: int| 0 <= i < N && !(lo <= i < hi) ==> #[trigger] final(a)@[i] == old(a)@[i],
        forall|i: int| lo <= i < hi ==> #[trigger] final(a)@[i] == v,
{
    let mut k = lo;
    while k < hi
        invariant
            lo <= k <= hi <= N,
            forall|i: int| 0 <= i < N && !(lo <= i < k) ==> #[trigger] a@[i] == old(a)@[i],
            forall|i: int| lo <= i < k ==> #[trigger] a@[i] == v,
        decreases hi - k,
    {
        a[k] = v;
        k = k + 1;
    }
}

/// `a.copy_within(lo..hi, to)`
pub fn fxd_copy_within<const N: usize>(a: &mut [i32; N], lo: usize, hi: usize, to: usize)
    requires lo <= hi <= N, to + (hi - lo) <= N,
    ensures
        forall|i: int| 0 <= i < N && !(to <= i < to + (hi - lo)) ==> #[trigger] final(a)@[i] == old(a)@[i],
        forall|i: int| to <= i < to + (hi - lo) ==> #[trigger] final(a)@[i] == old(a)@[i - to + lo],
{
    if to <= lo {
        let mut k: usize = 0;
        while k < hi - lo
            invariant
                to <= lo <= hi <= N, k <= hi - lo,
                forall|i: int| 0 <= i < N && !(to <= i < to + k) ==> #[trigger] a@[i] == old(a)@[i],
                forall|i: int| to <= i < to + k ==> #[trigger] a@[i] == old(a)@[i - to + lo],
            decreases hi - lo - k,
        {
            a[to + k] = a[lo + k];
            k = k + 1;
        }
    } else {
        let mut k = hi - lo;
        while k > 0
            invariant
                lo < to, lo <= hi <= N, to + (hi - lo) <= N, k <= hi - lo,
                forall|i: int| 0 <= i < N && !(to + k <= i < to + (hi - lo)) ==> #[trigger] a@[i] == old(a)@[i],
                forall|i: int| to + k <= i < to + (hi - lo) ==> #[trigger] a@[i] == old(a)@[i - to + lo],
            decreases k,
        {
            k = k - 1;
            a[to + k] = a[lo + k];
        }
    }
}

/// `a[lo..hi].copy_from_slice(&b[c..d])`
pub fn fxd_copy_from_slice<const N: usize, const M: usize>(a: &mut [i32; N], lo: usize, hi: usize, b: &[i32; M], c: usize, d: usize)
    requires lo <= hi <= N, c <= d <= M, hi - lo == d - c,
    ensures
        forall|i: int| 0 <= i < N && !(lo <= i < hi) ==> #[trigger] final(a)@[i] == old(a)@[i],
        forall|i: int| lo <= i < hi ==> #[trigger] final(a)@[i] == b@[i - lo + c],
{
    let mut k: usize = 0;
    while k < hi - lo
        invariant
            lo <= hi <= N, c <= d <= M, hi - lo == d - c, k <= hi - lo,
            forall|i: int| 0 <= i < N && !(lo <= i < lo + k) ==> #[trigger] a@[i] == old(a)@[i],
            forall|i: int| lo <= i < lo + k ==> #[trigger] a@[i] == b@[i - lo + c],
        decreases hi - lo - k,
    {
        a[lo + k] = b[c + k];
        k = k + 1;
    }
}

/// `s.as_bytes()`
pub fn fxd_as_bytes(s: &str) -> (r: &[u8])
    ensures r@ == vstd::utf8::encode_utf8(s@),
{
    s.as_bytes()
}

/// `String::from_utf8_unchecked(v)`: undefined behaviour unless v is UTF-8, which ASCII is
#[verifier::external_body]
pub fn fxd_string_from_ascii(v: Vec<u8>) -> (r: String)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] < 128,
    ensures vstd::utf8::encode_utf8(r@) == v@,
{
    unsafe { String::from_utf8_unchecked(v) }
}

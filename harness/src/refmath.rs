//! Reference arithmetic, written from the documented formulas with wide integers.
use uint::construct_uint;
construct_uint! { pub struct U256(4); }
construct_uint! { pub struct U512(8); }
pub const MIN_TICK: i32 = -221818;
pub const MAX_TICK: i32 = 221818;
pub const MIN_SQRT: u64 = 65537;
pub const MAX_SQRT: u64 = 281472331703918;
pub const Q32: u64 = 1 << 32;

pub fn u(x: u64) -> U256 {
    U256::from(x)
}
pub fn cdiv(a: U256, b: U256) -> U256 {
    let q = a / b;
    if q * b == a {
        q
    } else {
        q + U256::one()
    }
}
fn to64(x: U256) -> Option<u64> {
    if x > u(u64::MAX) {
        None
    } else {
        Some(x.as_u64())
    }
}
fn ord(a: u64, b: u64) -> (u64, u64) {
    if a <= b {
        (a, b)
    } else {
        (b, a)
    }
}
/// token_0 between two prices: L*2^32*(b-a)/(a*b), rounded as documented (two roundings)
pub fn amt0(a: u64, b: u64, l: u64, up: bool) -> Option<u64> {
    let (a, b) = ord(a, b);
    let n = (u(l) << 32) * u(b - a);
    to64(if up { cdiv(cdiv(n, u(b)), u(a)) } else { n / u(b) / u(a) })
}
pub fn amt1(a: u64, b: u64, l: u64, up: bool) -> Option<u64> {
    let (a, b) = ord(a, b);
    let n = u(l) * u(b - a);
    to64(if up { cdiv(n, u(Q32)) } else { n / u(Q32) })
}
pub fn next0(p: u64, l: u64, amt: u64, add: bool) -> Option<u64> {
    if amt == 0 {
        return Some(p);
    }
    let n = u(l) << 32;
    let prod = u(amt) * u(p);
    if add {
        if prod <= u(u64::MAX) {
            to64(cdiv(n * u(p), n + prod))
        } else {
            to64(cdiv(n, n / u(p) + u(amt)))
        }
    } else {
        if n <= prod {
            return None;
        }
        to64(cdiv(n * u(p), n - prod))
    }
}
pub fn next1(p: u64, l: u64, amt: u64, add: bool) -> Option<u64> {
    let n = u(amt) << 32;
    if add {
        to64(u(p) + n / u(l))
    } else {
        let q = cdiv(n, u(l));
        if q >= u(p) {
            return None;
        }
        to64(u(p) - q)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Step {
    pub next: u64,
    pub ain: u64,
    pub aout: u64,
    pub fee: u64,
}
/// One swap step inside a single tick range.
pub fn step(cur: u64, target: u64, l: u64, rem: i64, fee: u32) -> Option<Step> {
    let z = cur >= target;
    let exact_in = rem >= 0;
    let full_in = if z { amt0(target, cur, l, true) } else { amt1(cur, target, l, true) };
    let full_out = if z { amt1(target, cur, l, false) } else { amt0(cur, target, l, false) };
    let next;
    if exact_in {
        let full_in = full_in?;
        let less = to64(u(rem as u64) * u((1_000_000 - fee) as u64) / u(1_000_000))?;
        next = if less >= full_in {
            target
        } else if z {
            next0(cur, l, less, true)?
        } else {
            next1(cur, l, less, true)?
        };
    } else {
        let full_out = full_out?;
        let want = rem.unsigned_abs();
        next = if want >= full_out {
            target
        } else if z {
            next1(cur, l, want, false)?
        } else {
            next0(cur, l, want, false)?
        };
    }
    let ain = if z { amt0(next, cur, l, true)? } else { amt1(cur, next, l, true)? };
    let mut aout = if z { amt1(next, cur, l, false)? } else { amt0(cur, next, l, false)? };
    if !exact_in {
        aout = aout.min(rem.unsigned_abs());
    }
    let fee_amt = if exact_in && next != target {
        (rem as u64).wrapping_sub(ain)
    } else {
        to64(cdiv(u(ain) * u(fee as u64), u((1_000_000 - fee) as u64)))?
    };
    Some(Step { next, ain, aout, fee: fee_amt })
}

const MAGIC: [u64; 18] = [
    0xfffcb933bd6fb800,
    0xfff97272373d4000,
    0xfff2e50f5f657000,
    0xffe5caca7e10f000,
    0xffcb9843d60f7000,
    0xff973b41fa98e800,
    0xff2ea16466c9b000,
    0xfe5dee046a9a3800,
    0xfcbe86c7900bb000,
    0xf987a7253ac65800,
    0xf3392b0822bb6000,
    0xe7159475a2caf000,
    0xd097f3bdfd2f2000,
    0xa9f746462d9f8000,
    0x70d869a156f31c00,
    0x31be135f97ed3200,
    0x9aa508b5b85a500,
    0x5d6af8dedc582c,
];
/// sqrt(1.0001^t) as Q32.32 by the documented binary-power product
pub fn sqrt_at(t: i32) -> u64 {
    let a = t.unsigned_abs();
    let mut r: U256 = U256::one() << 64;
    for (i, m) in MAGIC.iter().enumerate() {
        if a >> i & 1 == 1 {
            r = (r * u(*m)) >> 64;
        }
    }
    if t > 0 {
        r = U256::from(u128::MAX) / r;
    }
    cdiv(r, u(Q32)).as_u64()
}
use std::sync::OnceLock;
static TABLE: OnceLock<Vec<u64>> = OnceLock::new();
pub fn table() -> &'static [u64] {
    TABLE.get_or_init(|| (MIN_TICK..=MAX_TICK).map(sqrt_at).collect())
}
pub fn sqrt_tab(t: i32) -> u64 {
    table()[(t - MIN_TICK) as usize]
}
/// greatest tick whose sqrt price is <= p
pub fn tick_at(p: u64) -> i32 {
    let t = table();
    let n = t.partition_point(|x| *x <= p);
    MIN_TICK + n as i32 - 1
}
pub fn mul_div(a: u64, b: u64, c: u64) -> Option<u64> {
    to64(u(a) * u(b) / u(c))
}
pub fn liq0(a: u64, b: u64, amt: u64) -> Option<u64> {
    let (a, b) = ord(a, b);
    if a == b {
        return None;
    }
    let i = u(a) * u(b) / u(Q32);
    to64(u(amt) * i / u(b - a))
}
pub fn liq1(a: u64, b: u64, amt: u64) -> Option<u64> {
    let (a, b) = ord(a, b);
    if a == b {
        return None;
    }
    to64(u(amt) * u(Q32) / u(b - a))
}
pub fn liq_for(p: u64, a: u64, b: u64, x: u64, y: u64) -> Option<u64> {
    let (a, b) = ord(a, b);
    if p <= a {
        liq0(a, b, x)
    } else if p < b {
        Some(liq0(p, b, x)?.min(liq1(a, p, y)?))
    } else {
        liq1(a, b, y)
    }
}

//! Exhaustive enumeration of bounded input domains on the real library functions (properties C20 to C24),
//! against wide-integer references and against the defining inequalities themselves.
use crate::access::par;
use crate::checks::Matrix;
use crate::out::Report;
use crate::refmath as rm;
use crate::refmath::{U256, U512};
use crate::svm::guard;
use cyclos_core::libraries::big_num as bn;
use cyclos_core::libraries::full_math::MulDiv;
use cyclos_core::libraries::unsafe_math::UnsafeMathTrait;
use cyclos_core::libraries::{bit_math, liquidity_amounts as la, liquidity_math, sqrt_price_math as sq, swap_math, tick_math};
use cyclos_core::states::tick_bitmap::{self, TickBitmapState};
use std::time::Instant;

fn u(x: u64) -> U256 {
    U256::from(x)
}

/// collects the first few disagreements of a domain
struct Sink {
    group: String,
    bad: Vec<(String, String)>,
    n: u64,
    full: u64,
}
impl Sink {
    fn new(group: &str) -> Sink {
        Sink { group: group.into(), bad: vec![], n: 0, full: 0 }
    }
    fn add(&mut self, call: impl FnOnce() -> String, what: impl FnOnce() -> String) {
        self.full += 1;
        if self.bad.len() < 3 {
            self.bad.push((call(), what()));
        }
    }
}
fn merge(x: &mut Matrix, note: &str, sinks: Vec<Sink>) {
    let mut n = 0;
    let mut shown = 0;
    for s in sinks {
        n += s.n;
        for (call, what) in s.bad {
            if shown < 6 {
                shown += 1;
                x.found.push(Report { group: s.group.clone(), path: vec![], trace: vec![call], what });
            }
        }
    }
    x.transitions += n;
    x.states += n;
    x.validated += n;
    x.notes.push(format!("{note}: {n} evaluations compared"));
}
fn show<T: std::fmt::Debug>(r: &Result<T, String>) -> String {
    match r {
        Ok(v) => format!("{v:?}"),
        Err(_) => "an error".into(),
    }
}
/// real result against the reference: a value must match, an unrepresentable result must be reported
fn same<T: PartialEq + std::fmt::Debug>(s: &mut Sink, name: &str, args: &dyn Fn() -> String, real: Result<T, String>, want: Option<T>) -> bool {
    s.n += 1;
    let ok = match (&real, &want) {
        (Ok(a), Some(b)) => a == b,
        (Err(_), None) => true,
        _ => false,
    };
    if !ok {
        s.add(|| format!("{name}{}", args()), || format!("{name} gives {} instead of {}", show(&real), want.map(|w| format!("{w:?}")).unwrap_or("an error".into())));
    }
    ok
}

// ------------------------------------------------------------------------------------ C20

/// 1.0001^(tick/2) * 2^32 squared, i.e. 1.0001^tick * 2^64, as bounds with 2^-160 relative error: value = m * 2^e
fn exact_squares() -> Vec<(U256, i32)> {
    // ascending powers of 1.0001 with a 200-bit mantissa
    let top = U512::one() << 200;
    let norm = |mut m: U512, mut e: i32| {
        while m >= (top << 1) {
            m = m >> 1;
            e += 1;
        }
        while m < top {
            m = m << 1;
            e -= 1;
        }
        (m, e)
    };
    let cut = |m: U512| {
        let mut b = [0u8; 64];
        m.to_little_endian(&mut b);
        U256::from_little_endian(&b[..32])
    };
    let n = (rm::MAX_TICK as usize) * 2 + 1;
    let mut out = vec![(U256::zero(), 0); n];
    let mid = rm::MAX_TICK as usize;
    let (mut m, mut e) = (top, -200);
    out[mid] = (cut(m), e);
    for i in 1..=mid {
        let r = norm(m * U512::from(10001u64) / U512::from(10000u64), e);
        m = r.0;
        e = r.1;
        out[mid + i] = (cut(m), e);
    }
    let (mut m, mut e) = (top, -200);
    for i in 1..=mid {
        let r = norm((m << 40) * U512::from(10000u64) / U512::from(10001u64), e - 40);
        m = r.0;
        e = r.1;
        out[mid - i] = (cut(m), e);
    }
    out
}
/// x^2 compared with 1.0001^t * 2^64 (x given with 16 fractional bits)
fn below(x16: u128, sq: &(U256, i32)) -> bool {
    // x16^2 / 2^32 < m * 2^e * 2^64
    let l = U512::from(x16) * U512::from(x16);
    let sh = sq.1 + 64 + 32;
    let mut b = [0u8; 32];
    sq.0.to_little_endian(&mut b);
    let m = U512::from_little_endian(&b);
    if sh >= 0 {
        l < (m << sh as usize)
    } else {
        (l << (-sh) as usize) < m
    }
}

pub fn ticks(_id: &str, x: &mut Matrix) {
    let tab = rm::table();
    let sqs = exact_squares();
    let n = tab.len();
    let chunk = 4096;
    // every tick: documented product, true value, strict growth
    let res = par(n.div_ceil(chunk), |ci| {
        let mut s = Sink::new("every tick");
        for i in ci * chunk..((ci + 1) * chunk).min(n) {
            let t = rm::MIN_TICK + i as i32;
            let real = guard(|| tick_math::get_sqrt_ratio_at_tick(t).map_err(|e| format!("{e:?}"))).and_then(|r| r);
            if !same(&mut s, "get_sqrt_ratio_at_tick", &|| format!("({t})"), real.clone(), Some(tab[i])) {
                continue;
            }
            let p = real.unwrap();
            // within one unit, or a relative 4e-12 for large values
            let tol16 = (1u128 << 16) + (p as u128 * 4 << 16) / 1_000_000_000_000;
            let lo = (p as u128) << 16;
            let (a, b) = (lo.saturating_sub(tol16), lo + tol16);
            if !(below(a, &sqs[i]) && !below(b, &sqs[i])) {
                s.add(|| format!("get_sqrt_ratio_at_tick({t})"), || format!("price {p} of tick {t} is not close to 2^32 * 1.0001^({t}/2)"));
            }
            s.n += 1;
            if i > 0 && tab[i] <= tab[i - 1] {
                s.add(|| format!("get_sqrt_ratio_at_tick({t})"), || format!("price of tick {t} does not exceed the price of the tick below"));
            }
        }
        s
    });
    merge(x, "price of each of the 443637 ticks, equal to the documented product and close to the true power", res);
    // out of range
    let mut s = Sink::new("outside the range");
    let mut outs = vec![i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1];
    outs.extend((1..=2000).flat_map(|d| [rm::MIN_TICK - d, rm::MAX_TICK + d]));
    outs.extend((18..31).flat_map(|k| [(1i32 << k), -(1i32 << k), (1i32 << k) + 1, -(1i32 << k) - 1]));
    for t in outs {
        let real = guard(|| tick_math::get_sqrt_ratio_at_tick(t).map_err(|e| format!("{e:?}"))).and_then(|r| r);
        same(&mut s, "get_sqrt_ratio_at_tick", &|| format!("({t})"), real, if t.unsigned_abs() <= rm::MAX_TICK as u32 { Some(rm::sqrt_tab(t)) } else { None });
    }
    let mut ps: Vec<u64> = (0..rm::MIN_SQRT).collect();
    ps.extend((0..5000).map(|d| rm::MAX_SQRT + d));
    ps.extend((49..64).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1]));
    ps.push(u64::MAX);
    for p in ps {
        let real = guard(|| tick_math::get_tick_at_sqrt_ratio(p).map_err(|e| format!("{e:?}"))).and_then(|r| r);
        same(&mut s, "get_tick_at_sqrt_ratio", &|| format!("({p})"), real, None);
    }
    merge(x, "ticks and prices outside the supported range", vec![s]);
    // tick of a price: neighbourhood of every tick's price and points in between
    let w: u64 = if x.thorough { 64 } else { 12 };
    let res = par(n.div_ceil(chunk), |ci| {
        let mut s = Sink::new("prices around every tick");
        for i in ci * chunk..((ci + 1) * chunk).min(n) {
            let c = tab[i];
            let next = if i + 1 < n { tab[i + 1] } else { c };
            let mut ps: Vec<u64> = (c.saturating_sub(w)..=c + w).collect();
            for k in 1..8 {
                ps.push(c + (next - c) / 8 * k);
            }
            for p in ps {
                if (rm::MIN_SQRT..rm::MAX_SQRT).contains(&p) {
                    check_tick_at(&mut s, p, rm::tick_at(p));
                }
            }
        }
        s
    });
    merge(x, &format!("tick of all prices within {w} units of each tick's price, and of seven in between"), res);
    // all small prices
    let top: u64 = if x.thorough { 1 << 32 } else { 1 << 27 };
    runs(x, &format!("tick of every price from {} to {top}", rm::MIN_SQRT), rm::MIN_SQRT, top, 1, 0);
    if x.thorough {
        // above 1.0 the conversion looks at the 32 leading bits only: first and last price of each such class
        for k in 32..48u32 {
            let step = 1u64 << (k - 31);
            runs(x, &format!("tick of the first and last of each {step} prices from 2^{k}"), 1 << k, (1u64 << (k + 1)).min(rm::MAX_SQRT), step, step - 1);
            if x.capped {
                break;
            }
        }
    } else {
        for k in 32..48u32 {
            let step = 1u64 << (k - 21);
            runs(x, &format!("tick of the first and last of each {step} prices from 2^{k}"), 1 << k, (1u64 << (k + 1)).min(rm::MAX_SQRT), step, step - 1);
        }
    }
    x.samples.push("get_sqrt_ratio_at_tick(t) for t = -221818, -221817, ...".into());
    x.samples.push("get_tick_at_sqrt_ratio(p) for p = 65537, 65538, ...".into());
}
fn check_tick_at(s: &mut Sink, p: u64, want: i32) {
    s.n += 1;
    match tick_math::get_tick_at_sqrt_ratio(p) {
        Ok(t) if t == want => {}
        r => {
            let real = r.map_err(|e| format!("{e:?}"));
            s.add(|| format!("get_tick_at_sqrt_ratio({p})"), || format!("tick of price {p} is {} instead of {want}", show(&real)));
        }
    }
}
/// prices from, from+step, ... below to, and each of them plus `also`
fn runs(x: &mut Matrix, note: &str, from: u64, to: u64, step: u64, also: u64) {
    let t0 = Instant::now();
    let n = (to - from).div_ceil(step);
    let per = 1u64 << 18;
    let limit = x.deadline;
    let res = par(n.div_ceil(per) as usize, |ci| {
        let mut s = Sink::new("ranges of prices");
        if t0.elapsed().as_secs_f64() > 1e9 || limit.is_some_and(|d| Instant::now() > d) {
            s.full = u64::MAX;
            return s;
        }
        let tab = rm::table();
        let (a, b) = (ci as u64 * per, ((ci as u64 + 1) * per).min(n));
        let mut t = rm::tick_at(from + a * step);
        let r = guard(|| {
            for k in a..b {
                for p in [from + k * step, from + k * step + also] {
                    if p >= to || (also == 0 && p != from + k * step) {
                        continue;
                    }
                    while t < rm::MAX_TICK && tab[(t + 1 - rm::MIN_TICK) as usize] <= p {
                        t += 1;
                    }
                    check_tick_at(&mut s, p, t);
                    if also == 0 {
                        break;
                    }
                }
            }
        });
        if let Err(e) = r {
            s.add(|| format!("get_tick_at_sqrt_ratio from {} to {}", from + a * step, from + b * step), || format!("panicked: {e}"));
        }
        s
    });
    if res.iter().any(|s| s.full == u64::MAX) {
        x.capped = true;
    }
    merge(x, note, res);
}

// ------------------------------------------------------------------------------------ C21

fn boundary_prices(full: bool) -> Vec<u64> {
    let mut v = vec![rm::MIN_SQRT, rm::MIN_SQRT + 1, rm::MAX_SQRT - 1, rm::MAX_SQRT, 3 << 31, 79228162, 4294967295 / 3];
    for k in 17..48 {
        v.push(1 << k);
        if full || k == 17 || k == 32 || k == 47 || k == 31 || k == 33 {
            v.extend([(1 << k) - 1, (1 << k) + 1]);
        }
    }
    for t in [-221817, -100_000, -60, -1, 1, 60, 100_000, 221_817] {
        v.push(rm::sqrt_tab(t));
        if full {
            v.push(rm::sqrt_tab(t) + 1);
        }
    }
    v.sort();
    v.dedup();
    v
}
fn boundary_u64(full: bool) -> Vec<u64> {
    let mut v = vec![0, 1, 2, 3, 5, 7, 10, 99, 1_000_000, u64::MAX, u64::MAX - 1];
    let ks: Vec<u32> = if full { (3..64).collect() } else { vec![8, 16, 24, 31, 32, 33, 40, 47, 48, 52, 56, 60, 62, 63] };
    for k in ks {
        v.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.sort();
    v.dedup();
    v
}
const FEES: [u32; 8] = [0, 1, 100, 500, 3000, 10_000, 500_000, 999_999];

fn amounts(s: &mut Sink, a: u64, b: u64, l: u64) {
    for up in [false, true] {
        let g = guard(|| sq::get_amount_0_delta_unsigned(a, b, l, up));
        // defining inequality: the amount is the ceiling or floor of L*2^32*(b-a)/(a*b)
        if let Ok(v) = g {
            let (x, y) = if a < b { (a, b) } else { (b, a) };
            let num = (u(l) << 32) * u(y - x);
            let den = u(x) * u(y);
            let ok = if up { u(v) * den >= num && (v == 0 || u(v - 1) * den < num) } else { u(v) * den <= num && (u(v) + 1) * den > num };
            if !ok {
                s.add(|| format!("get_amount_0_delta_unsigned({a}, {b}, {l}, {up})"), || format!("amount {v} is not the exact value rounded {}", if up { "up" } else { "down" }));
            }
        }
        same(s, "get_amount_0_delta_unsigned", &|| format!("({a}, {b}, {l}, {up})"), g, rm::amt0(a, b, l, up));
        let g = guard(|| sq::get_amount_1_delta_unsigned(a, b, l, up));
        if let Ok(v) = g {
            let num = u(l) * u(a.abs_diff(b));
            let den = u(1 << 32);
            let ok = if up { u(v) * den >= num && (v == 0 || u(v - 1) * den < num) } else { u(v) * den <= num && (u(v) + 1) * den > num };
            if !ok {
                s.add(|| format!("get_amount_1_delta_unsigned({a}, {b}, {l}, {up})"), || format!("amount {v} is not the exact value rounded {}", if up { "up" } else { "down" }));
            }
        }
        same(s, "get_amount_1_delta_unsigned", &|| format!("({a}, {b}, {l}, {up})"), g, rm::amt1(a, b, l, up));
    }
    // signed: positive rounds up, negative rounds down and is negated
    if l <= i64::MAX as u64 {
        for neg in [false, true] {
            let d = if neg { -(l as i64) } else { l as i64 };
            for (name, f, w) in [
                ("get_amount_0_delta_signed", sq::get_amount_0_delta_signed as fn(u64, u64, i64) -> i64, rm::amt0(a, b, l, !neg)),
                ("get_amount_1_delta_signed", sq::get_amount_1_delta_signed, rm::amt1(a, b, l, !neg)),
            ] {
                // amounts beyond 63 bits cannot be represented here
                if w.is_some_and(|w| w > i64::MAX as u64) {
                    continue;
                }
                let g = guard(|| f(a, b, d));
                same(s, name, &|| format!("({a}, {b}, {d})"), g, w.map(|w| if neg { -(w as i64) } else { w as i64 }));
            }
        }
    }
}
fn nexts(s: &mut Sink, p: u64, l: u64, amt: u64) {
    for add in [false, true] {
        let g = guard(|| sq::get_next_sqrt_price_from_amount_0_rounding_up(p, l, amt, add));
        if let Ok(v) = g {
            // never below the exact price L*p/(L +- amt*p)
            let n = U512::from(l) << 32;
            let prod = U512::from(amt) * U512::from(p);
            let ok = if add { U512::from(v) * (n + prod) >= n * U512::from(p) && v <= p } else { n > prod && U512::from(v) * (n - prod) >= n * U512::from(p) && v >= p };
            if !ok {
                s.add(|| format!("get_next_sqrt_price_from_amount_0_rounding_up({p}, {l}, {amt}, {add})"), || format!("price {v} is on the wrong side of the exact one"));
            }
        }
        same(s, "get_next_sqrt_price_from_amount_0_rounding_up", &|| format!("({p}, {l}, {amt}, {add})"), g, rm::next0(p, l, amt, add));
        let g = guard(|| sq::get_next_sqrt_price_from_amount_1_rounding_down(p, l, amt, add));
        if let Ok(v) = g {
            // never above the exact price p +- amt/L
            let pl = U512::from(p) * U512::from(l);
            let d = U512::from(amt) << 32;
            let ok = if add { U512::from(v) * U512::from(l) <= pl + d && v >= p } else { pl > d && U512::from(v) * U512::from(l) + d <= pl };
            if !ok {
                s.add(|| format!("get_next_sqrt_price_from_amount_1_rounding_down({p}, {l}, {amt}, {add})"), || format!("price {v} is on the wrong side of the exact one"));
            }
        }
        same(s, "get_next_sqrt_price_from_amount_1_rounding_down", &|| format!("({p}, {l}, {amt}, {add})"), g, rm::next1(p, l, amt, add));
    }
    for z in [false, true] {
        let g = guard(|| sq::get_next_sqrt_price_from_input(p, l, amt, z));
        same(s, "get_next_sqrt_price_from_input", &|| format!("({p}, {l}, {amt}, {z})"), g, if z { rm::next0(p, l, amt, true) } else { rm::next1(p, l, amt, true) });
        let g = guard(|| sq::get_next_sqrt_price_from_output(p, l, amt, z));
        same(s, "get_next_sqrt_price_from_output", &|| format!("({p}, {l}, {amt}, {z})"), g, if z { rm::next1(p, l, amt, false) } else { rm::next0(p, l, amt, false) });
    }
}
fn one_step(s: &mut Sink, cur: u64, target: u64, l: u64, rem: i64, fee: u32) {
    let want = rm::step(cur, target, l, rem, fee);
    let g = guard(|| {
        let r = swap_math::compute_swap_step(cur, target, l, rem, fee);
        rm::Step { next: r.sqrt_ratio_next_x32, ain: r.amount_in, aout: r.amount_out, fee: r.fee_amount }
    });
    if let Ok(r) = &g {
        let between = (cur.min(target)..=cur.max(target)).contains(&r.next);
        // input, output and fee as the definitions demand
        let exact = if rem >= 0 {
            let total = r.ain as u128 + r.fee as u128;
            if r.next == target {
                total <= rem as u128
            } else {
                total == rem as u128
            }
        } else {
            r.aout <= rem.unsigned_abs() && (r.next == target || r.aout == rem.unsigned_abs())
        };
        let fee_ok = (r.fee as u128) * (1_000_000 - fee) as u128 >= r.ain as u128 * fee as u128;
        if !(between && exact && fee_ok) {
            s.add(|| format!("compute_swap_step({cur}, {target}, {l}, {rem}, {fee})"), || format!("step {r:?} breaks {}", if !between { "the target" } else if !fee_ok { "the fee rate" } else { "the amount" }));
        }
    }
    same(s, "compute_swap_step", &|| format!("({cur}, {target}, {l}, {rem}, {fee})"), g, want);
}

pub fn steps(_id: &str, x: &mut Matrix) {
    // small domains, every combination
    let k: u64 = if x.thorough { 48 } else { 24 };
    let res = par((k * k) as usize, |i| {
        let mut s = Sink::new("small domain");
        let (a, b) = (1 + i as u64 / k, 1 + i as u64 % k);
        for l in 0..k {
            // prices as raw numbers, and as multiples of 2^30 (so that amounts are small too)
            amounts(&mut s, a, b, l);
            amounts(&mut s, a << 30, b << 30, l);
            if l > 0 {
                nexts(&mut s, a, l, b);
                nexts(&mut s, a << 30, l, b - 1);
                nexts(&mut s, (a << 30) + 1, l << 10, b - 1);
            }
        }
        s
    });
    merge(x, &format!("amounts and next prices: all prices, liquidities and amounts up to {k} (raw and in units of a quarter)"), res);
    let res = par((k * k) as usize, |i| {
        let mut s = Sink::new("small domain");
        let (a, b) = (1 + i as u64 / k, 1 + i as u64 % k);
        for l in 0..k {
            for rem in -(k as i64)..=k as i64 {
                for fee in [0, 3000, 333_333, 999_999] {
                    one_step(&mut s, a << 30, b << 30, l, rem, fee);
                }
            }
        }
        s
    });
    merge(x, &format!("swap steps: all prices, liquidities and amounts up to {k} in units of a quarter, four fees"), res);
    // boundary grids
    let full = x.thorough;
    let ps = boundary_prices(full);
    let ls = boundary_u64(full);
    let mut wide = ps.clone();
    wide.extend([1, 2, 3, u64::MAX, 1 << 63]);
    let res = par(wide.len() * wide.len(), |i| {
        let mut s = Sink::new("boundary grid");
        let (a, b) = (wide[i / wide.len()], wide[i % wide.len()]);
        for l in &ls {
            amounts(&mut s, a, b, *l);
        }
        s
    });
    merge(x, &format!("amounts: {}^2 boundary prices x {} liquidities", wide.len(), ls.len()), res);
    let res = par(ps.len() * ls.len(), |i| {
        let mut s = Sink::new("boundary grid");
        let (p, l) = (ps[i / ls.len()], ls[i % ls.len()]);
        if l > 0 {
            for amt in boundary_u64(true) {
                nexts(&mut s, p, l, amt);
            }
            // around the point where the pool runs dry, and where the formula changes
            for c in [rm::amt0(p, rm::MAX_SQRT, l, false), rm::amt1(rm::MIN_SQRT, p, l, false), rm::amt1(0, p, l, false), Some(((l as u128) << 32).checked_div(p as u128).unwrap_or(0).min(u64::MAX as u128) as u64), Some(u64::MAX / p)].into_iter().flatten() {
                for d in 0..6u64 {
                    nexts(&mut s, p, l, c.saturating_add(d).saturating_sub(3));
                }
            }
        }
        s
    });
    merge(x, &format!("next prices: {} boundary prices x {} liquidities x 190 amounts, and around exhaustion", ps.len(), ls.len()), res);
    let rems: Vec<i64> = {
        let mut v: Vec<i64> = ls.iter().filter(|a| **a <= i64::MAX as u64).flat_map(|a| [*a as i64, -(*a as i64)]).collect();
        v.extend([i64::MIN, i64::MIN + 1]);
        v.sort();
        v.dedup();
        v
    };
    let fees: Vec<u32> = if full { FEES.to_vec() } else { vec![0, 500, 3000, 999_999] };
    let ps2 = boundary_prices(false);
    let ls2 = boundary_u64(false);
    let limit = x.deadline;
    let res = par(ps2.len() * ps2.len(), |i| {
        let mut s = Sink::new("boundary grid");
        if limit.is_some_and(|d| Instant::now() > d) {
            s.full = u64::MAX;
            return s;
        }
        let (cur, target) = (ps2[i / ps2.len()], ps2[i % ps2.len()]);
        for l in &ls2 {
            for fee in &fees {
                for rem in &rems {
                    one_step(&mut s, cur, target, *l, *rem, *fee);
                }
                // amounts around the one that exactly reaches the target
                let z = cur >= target;
                let ain = if z { rm::amt0(target, cur, *l, true) } else { rm::amt1(cur, target, *l, true) };
                let aout = if z { rm::amt1(target, cur, *l, false) } else { rm::amt0(cur, target, *l, false) };
                if let Some(a) = ain.filter(|a| *a < 1 << 62) {
                    let gross = rm::cdiv(u(a) * u(1_000_000), u((1_000_000 - fee) as u64));
                    if gross < u(1 << 62) {
                        for d in -3i64..=3 {
                            one_step(&mut s, cur, target, *l, (gross.as_u64() as i64 + d).max(0), *fee);
                        }
                    }
                }
                if let Some(a) = aout.filter(|a| *a < 1 << 62) {
                    for d in -3i64..=3 {
                        one_step(&mut s, cur, target, *l, -(a as i64) + d, *fee);
                    }
                }
            }
        }
        s
    });
    if res.iter().any(|s| s.full == u64::MAX) {
        x.capped = true;
    }
    merge(x, &format!("swap steps: {}^2 boundary prices x {} liquidities x {} amounts and those around the target x {} fees", ps2.len(), ls2.len(), rems.len(), fees.len()), res);
    x.samples.push(format!("compute_swap_step({}, {}, 70000, 5000, 3000)", ps2[3], ps2[9]));
}

// ------------------------------------------------------------------------------------ C22

pub fn full_math(_id: &str, x: &mut Matrix) {
    let one = |s: &mut Sink, a: u64, b: u64, c: u64| {
        let (f, g) = (guard(|| a.mul_div_floor(b, c)), guard(|| a.mul_div_ceil(b, c)));
        if c == 0 {
            for (n, r) in [("mul_div_floor", f), ("mul_div_ceil", g)] {
                s.n += 1;
                // any report will do, a number will not
                if let Ok(Some(v)) = r {
                    s.add(|| format!("{a}.{n}({b}, 0)"), || format!("{n} by zero gives {v}"));
                }
            }
            return;
        }
        let prod = a as u128 * b as u128;
        let (q, r) = (prod / c as u128, prod % c as u128);
        let fit = |q: u128| if q > u64::MAX as u128 { None } else { Some(q as u64) };
        same(s, "mul_div_floor", &|| format!("({a}, {b}, {c})"), f, Some(fit(q)));
        same(s, "mul_div_ceil", &|| format!("({a}, {b}, {c})"), g, Some(fit(q + (r > 0) as u128)));
    };
    let k: u64 = if x.thorough { 256 } else { 96 };
    let res = par(k as usize, |a| {
        let mut s = Sink::new("64-bit small domain");
        for b in 0..k {
            for c in 0..k {
                one(&mut s, a as u64, b, c);
            }
        }
        s
    });
    merge(x, &format!("64-bit multiply-divide: all triples below {k}"), res);
    let vs = {
        let mut v = boundary_u64(true);
        v.extend([3_037_000_499, 3_037_000_500, 4_294_967_297, 6_148_914_691_236_517_205, 12_297_829_382_473_034_410, 0xffff_ffff_0000_0001, 1_000_000_007, 999_999_999_999_999_989]);
        v.sort();
        v.dedup();
        v
    };
    let res = par(vs.len(), |i| {
        let mut s = Sink::new("64-bit boundary cube");
        for b in &vs {
            for c in &vs {
                one(&mut s, vs[i], *b, *c);
            }
            // quotients around the largest representable one
            if vs[i] > 0 && *b > 0 {
                let c = (vs[i] as u128 * *b as u128 >> 64) as u64;
                for d in 0..4 {
                    one(&mut s, vs[i], *b, c.saturating_add(d).saturating_sub(1));
                }
            }
        }
        s
    });
    merge(x, &format!("64-bit multiply-divide: {}^3 boundary triples, and quotients around 2^64", vs.len()), res);
    // 128-bit
    let mk = |v: u128| bn::U128([v as u64, (v >> 64) as u64]);
    let un = |v: bn::U128| v.0[0] as u128 | (v.0[1] as u128) << 64;
    let wide = |v: u128| U512::from(v);
    let max = U512::from(u128::MAX);
    let low = |v: U512| {
        let mut b = [0u8; 64];
        v.to_little_endian(&mut b);
        u128::from_le_bytes(b[..16].try_into().unwrap())
    };
    let one128 = |s: &mut Sink, a: u128, b: u128, c: u128| {
        let (f, g) = (guard(|| mk(a).mul_div_floor(mk(b), mk(c)).map(un)), guard(|| mk(a).mul_div_ceil(mk(b), mk(c)).map(un)));
        if c == 0 {
            for (n, r) in [("mul_div_floor", f), ("mul_div_ceil", g)] {
                s.n += 1;
                if let Ok(Some(v)) = r {
                    s.add(|| format!("{a}.{n}({b}, 0)"), || format!("128-bit {n} by zero gives {v}"));
                }
            }
            return;
        }
        let p = wide(a) * wide(b);
        let (q, r) = (p / wide(c), p % wide(c));
        let fit = |q: U512| if q > max { None } else { Some(low(q)) };
        same(s, "mul_div_floor (128-bit)", &|| format!("({a}, {b}, {c})"), f, Some(fit(q)));
        let up = if r.is_zero() { q } else { q + 1 };
        same(s, "mul_div_ceil (128-bit)", &|| format!("({a}, {b}, {c})"), g, Some(fit(up)));
    };
    let mut ws: Vec<u128> = vec![0, 1, 2, 3, 5, 10, 1_000_000, u128::MAX, u128::MAX - 1];
    for e in (8..128).step_by(if x.thorough { 4 } else { 8 }) {
        ws.extend([(1u128 << e) - 1, 1 << e, (1 << e) + 1]);
    }
    let res = par(ws.len(), |i| {
        let mut s = Sink::new("128-bit boundary cube");
        for b in &ws {
            for c in &ws {
                one128(&mut s, ws[i], *b, *c);
            }
        }
        s
    });
    merge(x, &format!("128-bit multiply-divide: {}^3 boundary triples", ws.len()), res);
    let res = par(64, |a| {
        let mut s = Sink::new("128-bit small domain");
        for b in 0..64u128 {
            for c in 0..64u128 {
                one128(&mut s, a as u128, b, c);
                one128(&mut s, (a as u128) << 64 | 1, b << 62, c << 61 | 1);
            }
        }
        s
    });
    merge(x, "128-bit multiply-divide: all triples below 64, raw and scaled", res);
    // rounding division and signed liquidity changes
    let mut s = Sink::new("division and deltas");
    for a in &vs {
        for b in &vs {
            if *b > 0 {
                let g = guard(|| u64::div_rounding_up(*a, *b));
                same(&mut s, "div_rounding_up", &|| format!("({a}, {b})"), g, Some(a / b + (a % b > 0) as u64));
            }
            for d in [*b as i64, (*b as i64).wrapping_neg()] {
                let g = guard(|| liquidity_math::add_delta(*a, d).ok()).and_then(|r| r.ok_or_else(|| "rejected".to_string()));
                let w = *a as i128 + d as i128;
                same(&mut s, "add_delta", &|| format!("({a}, {d})"), g, if (0..=u64::MAX as i128).contains(&w) { Some(w as u64) } else { None });
            }
        }
    }
    for a in &ws {
        for b in &ws {
            if *b > 0 {
                let g = guard(|| un(bn::U128::div_rounding_up(mk(*a), mk(*b))));
                same(&mut s, "div_rounding_up (128-bit)", &|| format!("({a}, {b})"), g, Some(a / b + (a % b > 0) as u128));
            }
        }
    }
    merge(x, "rounding division and signed liquidity changes on all boundary pairs", vec![s]);
    x.samples.push("mul_div_floor(2^63+1, 2^32-1, 2^31)".into());
}

// ------------------------------------------------------------------------------------ C23

pub fn liquidity(_id: &str, x: &mut Matrix) {
    let full = x.thorough;
    let ps = boundary_prices(full);
    let am = boundary_u64(false);
    let step = if full { 1 } else { 3 };
    let check = |s: &mut Sink, p: u64, a: u64, b: u64, x0: u64, x1: u64| {
        let g = guard(|| la::get_liquidity_for_amounts(p, a, b, x0, x1));
        let (lo, up) = (a.min(b), a.max(b));
        if let Ok(l) = &g {
            let c = p.clamp(lo, up);
            // affordable: cost rounded up does not exceed what is given
            let (c0, c1) = (if p < up { rm::amt0(c, up, *l, true) } else { Some(0) }, if p > lo { rm::amt1(lo, c, *l, true) } else { Some(0) });
            let fits = c0.is_some_and(|v| p >= up || v <= x0) && c1.is_some_and(|v| p <= lo || v <= x1);
            if !fits {
                s.add(|| format!("get_liquidity_for_amounts({p}, {a}, {b}, {x0}, {x1})"), || format!("liquidity {l} costs {c0:?} and {c1:?}, more than {x0} and {x1}"));
            }
        }
        same(s, "get_liquidity_for_amounts", &|| format!("({p}, {a}, {b}, {x0}, {x1})"), g, rm::liq_for(p, lo, up, x0, x1));
    };
    let res = par(ps.len() * ps.len(), |i| {
        let mut s = Sink::new("boundary grid");
        let (a, b) = (ps[i / ps.len()], ps[i % ps.len()]);
        for v in &am {
            let g = guard(|| la::get_liquidity_for_amount_0(a, b, *v));
            same(&mut s, "get_liquidity_for_amount_0", &|| format!("({a}, {b}, {v})"), g, rm::liq0(a, b, *v));
            let g = guard(|| la::get_liquidity_for_amount_1(a, b, *v));
            same(&mut s, "get_liquidity_for_amount_1", &|| format!("({a}, {b}, {v})"), g, rm::liq1(a, b, *v));
            let g = guard(|| la::get_amount_0_for_liquidity(a, b, *v));
            same(&mut s, "get_amount_0_for_liquidity", &|| format!("({a}, {b}, {v})"), g, rm::amt0(a, b, *v, false));
            let g = guard(|| la::get_amount_1_for_liquidity(a, b, *v));
            same(&mut s, "get_amount_1_for_liquidity", &|| format!("({a}, {b}, {v})"), g, rm::amt1(a, b, *v, false));
        }
        s
    });
    merge(x, &format!("one-sided amounts and liquidity: {}^2 boundary prices x {} amounts", ps.len(), am.len()), res);
    let am2: Vec<u64> = am.iter().copied().step_by(step).collect();
    let bp = boundary_prices(false);
    let limit = x.deadline;
    let res = par(bp.len() * bp.len(), |i| {
        let mut s = Sink::new("boundary grid");
        if limit.is_some_and(|d| Instant::now() > d) {
            s.full = u64::MAX;
            return s;
        }
        let (a, b) = (bp[i / bp.len()], bp[i % bp.len()]);
        let mut at = bp.clone();
        at.extend([a - 1, a + 1, b - 1, b + 1, (a + b) / 2]);
        for p in at {
            for x0 in &am2 {
                for x1 in &am2 {
                    check(&mut s, p, a, b, *x0, *x1);
                }
                let g = guard(|| la::get_amounts_for_liquidity(p, a, b, *x0));
                let (lo, up) = (a.min(b), a.max(b));
                let w = if p <= lo {
                    rm::amt0(lo, up, *x0, false).map(|v| (v, 0))
                } else if p < up {
                    rm::amt0(p, up, *x0, false).zip(rm::amt1(lo, p, *x0, false))
                } else {
                    rm::amt1(lo, up, *x0, false).map(|v| (0, v))
                };
                same(&mut s, "get_amounts_for_liquidity", &|| format!("({p}, {a}, {b}, {x0})"), g, w);
            }
        }
        s
    });
    if res.iter().any(|s| s.full == u64::MAX) {
        x.capped = true;
    }
    merge(x, &format!("liquidity for both amounts: {}^2 ranges x {} prices x {}^2 amounts", bp.len(), bp.len() + 5, am2.len()), res);
    let k: u64 = if full { 20 } else { 12 };
    let res = par((k * k) as usize, |i| {
        let mut s = Sink::new("small domain");
        let (a, b) = ((1 + i as u64 / k) << 30, (1 + i as u64 % k) << 30);
        for p in 1..=k + 1 {
            for d in [0, 1] {
                for x0 in 0..k {
                    for x1 in 0..k {
                        check(&mut s, (p << 30) - d, a, b, x0, x1);
                    }
                }
            }
        }
        s
    });
    merge(x, &format!("liquidity for both amounts: all prices, ranges and amounts up to {k} (in quarters), on and just below the boundaries"), res);
    x.samples.push(format!("get_liquidity_for_amounts({}, {}, {}, 1000, 2000)", ps[2], ps[1], ps[9]));
}

// ------------------------------------------------------------------------------------ C24

fn word_of(bits: &[u8]) -> [u64; 4] {
    let mut w = [0u64; 4];
    for b in bits {
        w[*b as usize / 64] |= 1 << (*b % 64);
    }
    w
}
fn has(w: &[u64; 4], b: usize) -> bool {
    w[b / 64] >> (b % 64) & 1 == 1
}
fn scan(w: &[u64; 4]) -> ([Option<u8>; 256], [Option<u8>; 256]) {
    let (mut dn, mut up) = ([None; 256], [None; 256]);
    let mut l = None;
    for b in 0..256 {
        if has(w, b) {
            l = Some(b as u8);
        }
        dn[b] = l;
    }
    let mut l = None;
    for b in (0..256).rev() {
        if has(w, b) {
            l = Some(b as u8);
        }
        up[b] = l;
    }
    (dn, up)
}
fn word(s: &mut Sink, w: [u64; 4], flips: bool) {
    let st = TickBitmapState { word: w, ..Default::default() };
    let (dn, up) = scan(&w);
    let r = guard(|| {
        for b in 0..256usize {
            for lte in [true, false] {
                s.n += 1;
                let g = st.next_initialized_bit(b as u8, lte);
                let want = if lte { dn[b] } else { up[b] };
                let (n, i) = match want {
                    Some(n) => (n, true),
                    None => (if lte { 0 } else { 255 }, false),
                };
                if (g.next, g.initialized) != (n, i) {
                    s.add(|| format!("next_initialized_bit({b}, {lte}) in {w:x?}"), || format!("search from {b} {} gives {} ({}), expected {n} ({i})", if lte { "down" } else { "up" }, g.next, g.initialized));
                }
            }
            if flips {
                s.n += 1;
                let mut t = TickBitmapState { word: w, ..Default::default() };
                t.flip_bit(b as u8);
                let mut e = w;
                e[b / 64] ^= 1 << (b % 64);
                let x = t.word;
                if x != e {
                    s.add(|| format!("flip_bit({b}) in {w:x?}"), || format!("flipping {b} gives {x:x?}"));
                }
            }
        }
        if w != [0; 4] {
            s.n += 2;
            let v = bn::U256(w);
            let (m, l) = (bit_math::most_significant_bit(v), bit_math::least_significant_bit(v));
            if Some(m) != dn[255] || Some(l) != up[0] {
                s.add(|| format!("{w:x?}"), || format!("most and least significant bits are {m} and {l}"));
            }
        }
    });
    if let Err(e) = r {
        s.add(|| format!("{w:x?}"), || format!("panicked: {e}"));
    }
}

pub fn bitmap(_id: &str, x: &mut Matrix) {
    let res = par(256, |i| {
        let mut s = Sink::new("one or two marks");
        for j in i..256 {
            let w = word_of(&[i as u8, j as u8]);
            word(&mut s, w, true);
            word(&mut s, w.map(|x| !x), true);
        }
        s
    });
    merge(x, "all words with one or two marked positions and their complements, 256 starts, both directions, all flips", res);
    let thorough = x.thorough;
    let limit = x.deadline;
    let res = par(256, |i| {
        let mut s = Sink::new("patterns");
        if limit.is_some_and(|d| Instant::now() > d) {
            s.full = u64::MAX;
            return s;
        }
        // three marks (all of them in the thorough tier), runs, combs, empty and full
        for j in i + 1..256 {
            for k in j + 1..256 {
                if thorough || i % 16 == 0 || (j - i) < 3 || (k - j) < 2 {
                    word(&mut s, word_of(&[i as u8, j as u8, k as u8]), false);
                }
            }
            let run: Vec<u8> = (i..=j).map(|b| b as u8).collect();
            word(&mut s, word_of(&run), false);
        }
        if i < 128 {
            let comb: Vec<u8> = (0..256).filter(|b| b % (i + 1) == i / 2).map(|b| b as u8).collect();
            word(&mut s, word_of(&comb), true);
        }
        if i == 0 {
            word(&mut s, [0; 4], true);
            word(&mut s, [u64::MAX; 4], true);
        }
        s
    });
    if res.iter().any(|s| s.full == u64::MAX) {
        x.capped = true;
    }
    merge(x, if thorough { "all words with three marks, all runs, combs" } else { "words with three marks (one in the first of each 16, or adjacent), all runs, combs" }, res);
    // position of every tick, for every spacing-compressed value that can occur and well beyond
    let top = 1i32 << 22;
    let res = par(64, |i| {
        let mut s = Sink::new("positions");
        let per = top / 32;
        let from = -top + i as i32 * per;
        for t in from..from + per {
            s.n += 1;
            let p = tick_bitmap::position(t);
            if (p.word_pos as i32, p.bit_pos as i32) != (t.div_euclid(256), t.rem_euclid(256)) {
                s.add(|| format!("position({t})"), || format!("tick {t} maps to word {} bit {}", p.word_pos, p.bit_pos));
            }
        }
        s
    });
    merge(x, "position of every compressed tick from -2^22 to 2^22", res);
    x.samples.push("next_initialized_bit(b, lte) for b in 0..=255 in the word with marks {3, 77}".into());
}

//! C14: parties holding polynomials that combine each other's contributions in any order and
//! grouping, divide them out again, and exchange masked messages over a polynomial ring.
use crate::nums::{big, low128, wrap, Mach};
use crate::pm::{self, P};
use hacspec::prelude::*;
use num::ToPrimitive;
use simkit::net::{gen_faults, Ev, Net};
use simkit::rng::{mix64, Rng as SimRng};
use simkit::{guard, Ctx, Prop, Res, Step};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::fmt;

thread_local! {
    /// coefficient modulus and reduction polynomial of the run
    static RING: RefCell<(i128, Vec<(usize, i128)>)> = RefCell::new((3, vec![]));
}
fn rn() -> i128 {
    RING.with(|r| r.borrow().0)
}
fn rirr() -> Vec<(usize, i128)> {
    RING.with(|r| r.borrow().1.clone())
}
pub fn set_ring(n: i128, irr: &[i128]) {
    RING.with(|r| *r.borrow_mut() = (n, irr.iter().copied().enumerate().filter(|c| c.1 != 0).collect()));
}
/// In lowest terms, without leading zeros.
pub fn canonical(c: &[i128], n: i128) -> P {
    pm::norm(c, n)
}
pub const ADD: u64 = 0;
pub const SUB: u64 = 1;
pub const MUL: u64 = 2;
pub const DIV: u64 = 3;
pub const INV: u64 = 4;
const SAME: u64 = 5;
const PADD: u64 = 6;
const PSUB: u64 = 7;
const PMUL: u64 = 8;
pub const LOAD: u64 = 9;

/// A type the polynomials of a run are made of.
pub struct Kind {
    name: &'static str,
    bits: u32,
    signed: bool,
    /// length of a ring type, 0: the functions on vectors
    pub l: usize,
    op: fn(u64, &[i128], &[i128], u64) -> Result<Vec<P>, String>,
}
macro_rules! ring {
    ($m:ident, $t:ident, $l:expr) => {
        mod $m {
            use super::*;
            poly!(Ring, $t, $l, rn() as $t, rirr().iter().map(|c| (c.0, c.1 as $t)).collect::<Vec<(usize, $t)>>());
            fn of(c: &[i128], how: u64) -> Ring {
                let at = |i: usize| c.get(i).copied().unwrap_or(0) as $t;
                match how % 5 {
                    0 => {
                        let mut a = [0 as $t; $l];
                        for (i, x) in a.iter_mut().enumerate() {
                            *x = at(i);
                        }
                        Ring::new_full(a)
                    }
                    1 => Ring::from_vec((0..$l).map(at).collect()),
                    2 => Ring::from_vec((0..c.len()).map(at).collect()),
                    3 => Ring::from_vec((0..$l + 3).map(at).collect()),
                    _ => {
                        let mut v: Vec<(usize, $t)> = (0..$l).map(|i| (i, at(i))).filter(|c| c.1 != 0).collect();
                        let k = (how >> 8) as usize % v.len().max(1);
                        v.rotate_left(k);
                        Ring::new(&v)
                    }
                }
            }
            fn get(x: &Ring) -> P {
                x.poly.iter().map(|c| *c as i128).collect()
            }
            pub fn op(o: u64, a: &[i128], b: &[i128], how: u64) -> Result<Vec<P>, String> {
                let x = of(a, how >> 4);
                let y = of(b, how >> 20);
                if !x.compatible(&y) || x.n != rn() as $t {
                    return Err("polynomials of one ring are said to be incompatible".into());
                }
                let z = match o {
                    ADD => x + y,
                    SUB => x - y,
                    MUL => x * y,
                    DIV => {
                        let (q, r) = x / y;
                        return Ok(vec![get(&q), get(&r)]);
                    }
                    INV => x.inv(),
                    SAME => return Ok(vec![vec![(x == y) as i128]]),
                    LOAD => Ring::from_vec(a.iter().map(|c| *c as $t).collect()),
                    _ => return Err("no such operation".into()),
                };
                Ok(vec![get(&z)])
            }
        }
    };
}
ring!(a1, u128, 1);
ring!(a2, u128, 2);
ring!(a3, u128, 3);
ring!(a5, u128, 5);
ring!(a8, u128, 8);
ring!(a16, u128, 16);
ring!(b2, i128, 2);
ring!(b4, i128, 4);
ring!(b7, i128, 7);
ring!(b11, i128, 11);
ring!(c3, u64, 3);
ring!(c6, u64, 6);
ring!(d5, i64, 5);
ring!(d9, i64, 9);
ring!(e4, u32, 4);
ring!(e10, u32, 10);
ring!(f3, i32, 3);
ring!(f8, i32, 8);
ring!(g4, u16, 4);
ring!(h6, i16, 6);
ring!(i3, u8, 3);
ring!(a64, u128, 64);
ring!(b23, i128, 23);
ring!(a256, u128, 256);

fn raw<T: Mach>(o: u64, a: &[i128], b: &[i128], how: u64) -> Result<Vec<P>, String> {
    let conv = |v: &[i128], how: u64, pad: bool| -> Vec<T> {
        let mut o: Vec<T> = v.iter().map(|c| T::of(&big(*c), how)).collect();
        if pad {
            for _ in 0..how % 3 {
                o.push(T::ZERO);
            }
        }
        o
    };
    let pad = o < DIV;
    let (mut x, mut y) = (conv(a, how >> 4, pad), conv(b, how >> 20, pad));
    if o == DIV {
        // trailing zeros are welcome on both sides
        for _ in 0..(how >> 8) % 3 {
            x.push(T::ZERO);
        }
        for _ in 0..(how >> 10) % 3 {
            y.push(T::ZERO);
        }
    }
    let n = T::of(&big(rn()), how);
    let out = |v: Vec<T>| -> P { v.iter().map(|c| c.val().to_i128().unwrap_or(i128::MIN)).collect() };
    let pair = |x: &mut Vec<T>, y: &mut Vec<T>| {
        let l = x.len().max(y.len());
        x.resize(l, T::ZERO);
        y.resize(l, T::ZERO);
    };
    Ok(vec![match o {
        ADD => out(poly_add(&x, &y, n)),
        SUB => out(poly_sub(&x, &y, n)),
        MUL => out(poly_mul(&x, &y, n)),
        DIV => {
            let (q, r) = poly_div(&x, &y, n);
            return Ok(vec![out(q), out(r)]);
        }
        INV => out(extended_euclid(&x, &y, n)?),
        SAME => {
            let (d, c) = leading_coefficient(&x);
            let t = pm::trim(a.to_vec());
            let want = if t.is_empty() { (0, 0) } else { (t.len() - 1, *t.last().unwrap()) };
            vec![(a == b) as i128 * ((d, c.val().to_i128().unwrap_or(-1)) == want) as i128]
        }
        _ => {
            pair(&mut x, &mut y);
            let f = |x: Seq<T>, y: Seq<T>| match o {
                PADD => vec_poly_add(x, y, n),
                PSUB => vec_poly_sub(x, y, n),
                _ => vec_poly_mul(x, y, n),
            };
            let z = f(Seq::from_vec(x), Seq::from_vec(y));
            out(z.iter().copied().collect())
        }
    }])
}
pub fn kinds() -> Vec<Kind> {
    macro_rules! r {
        ($m:ident, $t:ident, $l:expr) => {
            Kind { name: concat!("ring ", stringify!($t), " ", stringify!($l)), bits: <$t>::NUM_BITS, signed: <$t as Mach>::SIGNED, l: $l, op: $m::op }
        };
    }
    macro_rules! v {
        ($($t:ident)*) => { vec![$(Kind { name: concat!("vectors of ", stringify!($t)), bits: <$t>::NUM_BITS, signed: <$t as Mach>::SIGNED, l: 0, op: raw::<$t> }),*] };
    }
    let mut k = vec![
        r!(a1, u128, 1), r!(a2, u128, 2), r!(a3, u128, 3), r!(a5, u128, 5), r!(a8, u128, 8), r!(a16, u128, 16),
        r!(b2, i128, 2), r!(b4, i128, 4), r!(b7, i128, 7), r!(b11, i128, 11),
        r!(c3, u64, 3), r!(c6, u64, 6), r!(d5, i64, 5), r!(d9, i64, 9), r!(e4, u32, 4), r!(e10, u32, 10),
        r!(f3, i32, 3), r!(f8, i32, 8), r!(g4, u16, 4), r!(h6, i16, 6), r!(i3, u8, 3),
        r!(a64, u128, 64), r!(b23, i128, 23), r!(a256, u128, 256),
    ];
    k.extend(v!(u128 i128 u64 i64 u32 i32 u16 i16 u8 U128 I128 U64 I64 U32 I32 U16));
    k
}
const RINGS: usize = 24;
const VECS: usize = 16;
const PRIMES: [i128; 36] = [
    2, 3, 5, 7, 11, 13, 17, 31, 61, 127, 179, 251, 257, 2039, 3329, 7681, 12289, 32749, 32771, 65521, 65537, 8380417, 86028121, 1073741789, 2147483647,
    4294967291, 4294967311, 1152921504606846883, 2305843009213693951, 281474976710597, 1099511627689,
    9223372036854775783, 18446744073709551557, 618970019642690137449562111, 162259276829213363391578010288127, 85070591730234615865843651857942052727,
];
const COMPOSITES: [i128; 21] = [4, 6, 8, 9, 10, 12, 15, 16, 25, 27, 49, 256, 2048, 3330, 65536, 4294967295, 1000000007 * 3, 255, 65535, (1 << 63) - 1, (1 << 126) - 1];

/// Whether the coefficient type holds this modulus.
fn carries(k: &Kind, n: i128) -> bool {
    n < 1 << (k.bits - k.signed as u32).min(126)
}
pub fn pick_modulus(k: &Kind, sel: u64) -> i128 {
    let list: Vec<i128> = match sel >> 56 {
        0 => PRIMES.iter().copied().filter(|n| carries(k, *n)).collect(),
        1 => COMPOSITES.iter().copied().filter(|n| carries(k, *n)).collect(),
        _ => return 0,
    };
    list[(sel & 0xffff_ffff) as usize % list.len()]
}
/// Coefficients from bytes, eight each, as the type takes them modulo n.
pub fn coefs(k: &Kind, n: i128, b: &[u8], l: usize) -> P {
    (0..l)
        .map(|i| {
            let mut w = [0u8; 8];
            for (j, x) in w.iter_mut().enumerate() {
                *x = b.get(8 * i + j).copied().unwrap_or(0);
            }
            let mut x = i64::from_le_bytes(w) as i128;
            if n >= 1 << 62 {
                x = x * (mix64(x as u64) >> 1) as i128;
            }
            match (n, k.signed) {
                (0, true) => x % 9,
                (0, false) => x.rem_euclid(9),
                (_, true) => x % n,
                (_, false) => x.rem_euclid(n),
            }
        })
        .collect()
}
pub struct World<'a> {
    pub k: &'a Kind,
    pub n: i128,
    pub irr: P,
    pub l: usize,
}
impl<'a> World<'a> {
    /// The exact result in lowest terms; None: must be refused; Err: not specified.
    fn model(&self, o: u64, a: &[i128], b: &[i128]) -> Result<Option<Vec<P>>, ()> {
        let n = self.n;
        let ring = self.k.l > 0;
        Ok(match o {
            ADD => Some(vec![pm::add(a, b, n)]),
            SUB => Some(vec![pm::sub(a, b, n)]),
            MUL if ring => pm::divrem(&pm::mul(a, b, n), &self.irr, n).map(|x| vec![x.1]),
            MUL => Some(vec![pm::mul(a, b, n)]),
            DIV => {
                let z = pm::norm(b, n).is_empty();
                if z && pm::norm(a, n).is_empty() {
                    return Err(());
                }
                pm::divrem(a, b, n).map(|x| vec![x.0, x.1])
            }
            INV => {
                let m = &self.irr;
                if !pm::prime(n) {
                    return Err(());
                }
                let g = pm::gcd(a, m, n);
                if g.len() != 1 {
                    None
                } else {
                    return Err(());
                }
            }
            SAME => Some(vec![if pm::trim(a.to_vec()) == pm::trim(b.to_vec()) { vec![1] } else { vec![] }]),
            LOAD => {
                let v = pm::trim(a.to_vec());
                if v.len() > self.l {
                    None
                } else {
                    Some(vec![v])
                }
            }
            PADD => Some(vec![pm::add(a, b, n)]),
            PSUB => Some(vec![pm::sub(a, b, n)]),
            _ => {
                let l = a.len().min(b.len());
                Some(vec![pm::trim((0..l).map(|i| pm::times(pm::red(a[i], n), pm::red(b[i], n), n)).collect())])
            }
        })
    }
    /// Runs an operation of the library and compares it with the exact result. None: refused.
    pub fn run(&self, ctx: &mut Ctx, o: u64, a: &[i128], b: &[i128], how: u64) -> Res<Option<Vec<P>>> {
        let b2: P = if o == INV && self.k.l == 0 { self.irr.clone() } else { b.to_vec() };
        let a2: P = if o == INV && self.k.l == 0 {
            let mut x = a.to_vec();
            x.resize(self.l.max(x.len()), 0);
            x
        } else {
            a.to_vec()
        };
        let got = match guard(|| (self.k.op)(o, &a2, &b2, how)) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        let want = self.model(o, a, b);
        ctx.count("operations");
        let name = ["add", "sub", "mul", "div", "inv", "same", "padd", "psub", "pmul", "load"][o as usize];
        let say = || format!("{} n={} irr={:?}: {} {:?} {:?}", self.k.name, self.n, self.irr, name, a, b);
        match (&got, &want) {
            (Err(_), Ok(None)) => {
                ctx.count(&format!("refused.{}", name));
                return Ok(None);
            }
            (Ok(g), Ok(None)) => return ctx.fail("impossible-accepted", format!("{} gave {:?}", say(), g)),
            (Err(p), Ok(Some(w))) => return ctx.fail("refused", format!("{} is {:?} but: {}", say(), w, p)),
            (Err(p), Err(())) => {
                if o == INV && pm::prime(self.n) {
                    return ctx.fail("refused", format!("{} has an inverse but: {}", say(), p));
                }
                ctx.probe("composite_inverse_refused");
                return Ok(None);
            }
            _ => {}
        }
        let g = got.unwrap();
        if self.n > 0 {
            let bad = g.iter().flatten().any(|c| *c < 0 || *c >= self.n);
            ctx.check(!bad || o == SAME || o == LOAD, "not-canonical", || format!("{} gave {:?}", say(), g))?;
        }
        let short: Vec<P> = g.iter().map(|v| pm::trim(v.clone())).collect();
        if let Ok(Some(w)) = &want {
            ctx.check(short == *w, "wrong", || format!("{} gave {:?} want {:?}", say(), short, w))?;
        } else if o == INV {
            ctx.count("inverses");
            let one = pm::divrem(&pm::mul(&short[0], a, self.n), &self.irr, self.n).map(|x| x.1);
            ctx.check(one == Some(pm::norm(&[1], self.n)), "inverse-wrong", || format!("{} gave {:?}, product {:?}", say(), short, one))?;
        }
        Ok(Some(short))
    }
}
fn exec(steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    let cfg = steps.iter().find(|s| s.k == "!cfg").cloned().unwrap_or(Step::new("!cfg", &[]));
    let all = kinds();
    let k = &all[cfg.usz(1) % all.len()];
    let mode = cfg.arg(0) % 5;
    let mut n = pick_modulus(k, cfg.arg(3));
    if n == 0 && (k.l > 0 && mode != 0 && mode != 2 || mode == 4 || k.bits < 64) {
        n = pick_modulus(k, cfg.arg(3) & 0xffff);
    }
    let l = match k.l {
        // long vectors
        0 if cfg.arg(9) > 0 => 1 + cfg.usz(9) % 400,
        0 => 1 + cfg.usz(4) % 9,
        l => l,
    };
    // the reduction polynomial has degree l and a leading coefficient that is a unit
    let mut irr = coefs(k, n.max(2), cfg.data(0), l + 1);
    let mut factor: P = vec![];
    if mode == 4 {
        irr = vec![0; l + 1];
        irr[0] = if k.signed && cfg.arg(5) % 2 == 1 { -1 } else { 1 };
        irr[l] = 1;
    } else if n > 0 {
        if pm::inv(irr[l], n).is_none() || cfg.arg(5) % 4 != 1 {
            irr[l] = 1;
        }
        if cfg.arg(5) & 8 != 0 && l >= 2 {
            // composed of two known factors
            let h = 1 + cfg.usz(6) % (l - 1);
            factor = pm::add(&coefs(k, n, cfg.data(0), h), &[vec![0; h], vec![1]].concat(), n);
            let other = pm::add(&coefs(k, n, cfg.data(1), l - h), &[vec![0; l - h], vec![1]].concat(), n);
            irr = pm::mul(&factor, &other, n);
            irr.resize(l + 1, 0);
            irr[l] = pm::red(1, n);
        }
        if cfg.arg(5) & 16 != 0 && k.l > 0 && mode == 0 {
            irr = vec![0; l + 1];
        }
    }
    if n == 0 {
        irr = vec![0; l + 1];
    }
    set_ring(n, &irr);
    let w = World { k, n, irr, l };
    ctx.count(&format!("mode{}", mode));
    ctx.count(if k.l > 0 { "ring_runs" } else { "vector_runs" });
    if n == 0 {
        ctx.probe("over_the_integers");
    } else if !pm::prime(n) {
        ctx.probe("composite_modulus");
    }
    match mode {
        0 | 1 => replicas(&w, mode == 1, &cfg, &factor, steps, ctx),
        2 | 3 => gather(&w, mode == 3, &cfg, &factor, steps, ctx),
        _ => masked(&w, &cfg, steps, ctx),
    }
}
fn contribution(w: &World, s: &Step, factor: &[i128], product: bool) -> P {
    let l = if w.k.l > 0 || product && w.n > 0 { w.l } else { 1 + s.usz(3) % w.l.max(1) };
    let mut c = coefs(w.k, w.n, s.data(0), l);
    if s.arg(4) % 4 == 1 && !factor.is_empty() {
        // shares a factor with the reduction polynomial
        c = pm::divrem(&pm::mul(&c, factor, w.n), &w.irr, w.n).map_or(c, |x| x.1);
    }
    c.resize(l, 0);
    c
}
/// Replicas of one polynomial; every contribution is added (subtracted) or multiplied in (divided out).
fn replicas(w: &World, product: bool, cfg: &Step, factor: &[i128], steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    let n = 1 + cfg.usz(2) % 4;
    let every = 1 + cfg.usz(7) % 3;
    let ups: Vec<(&Step, P)> = steps.iter().filter(|s| s.k == "up").map(|s| (s, contribution(w, s, factor, product))).collect();
    let mut net = Net::new(steps, n);
    for (j, (s, _)) in ups.iter().enumerate() {
        net.timer(s.arg(0) % 1500, s.usz(1) % n, j as u64);
    }
    let pointwise = product && w.k.l == 0;
    let start = pm::norm(&coefs(w.k, w.n, cfg.data(1), w.l), w.n);
    type Node = (P, BTreeSet<usize>, Vec<u64>, (P, BTreeSet<usize>));
    let mut nodes: Vec<Node> = (0..n).map(|_| (start.clone(), BTreeSet::new(), vec![], (start.clone(), BTreeSet::new()))).collect();
    let apply = |ctx: &mut Ctx, nd: &mut Node, j: usize, how: u64| -> Res<()> {
        let (s, c) = &ups[j];
        let x = nd.0.clone();
        let one = |r: Option<Vec<P>>| r.and_then(|v| v.into_iter().next());
        let new = match (product, s.arg(2) % 4) {
            (false, o) => {
                let o = if w.n == 0 && !w.k.signed { 0 } else { o };
                match o {
                    0 => one(w.run(ctx, ADD, &x, c, how)?),
                    1 => one(w.run(ctx, if w.k.l == 0 { PADD } else { ADD }, c, &x, how)?),
                    2 => one(w.run(ctx, if w.k.l == 0 && how % 2 == 1 { PSUB } else { SUB }, &x, c, how)?),
                    _ => {
                        let neg = one(w.run(ctx, SUB, &[], c, how)?).unwrap_or_default();
                        one(w.run(ctx, ADD, &x, &neg, how >> 1)?)
                    }
                }
            }
            (true, _) if pointwise => {
                let mut y = x.clone();
                y.resize(w.l, 0);
                one(w.run(ctx, PMUL, &y, c, how)?)
            }
            (true, 0) => one(w.run(ctx, MUL, &x, c, how)?),
            (true, 1) => one(w.run(ctx, MUL, c, &x, how)?),
            (true, o) => match one(w.run(ctx, INV, c, &[], how)?) {
                Some(i) if o == 2 => one(w.run(ctx, MUL, &x, &i, how)?),
                Some(i) => one(w.run(ctx, MUL, &i, &x, how)?),
                None => {
                    ctx.fault("division_refused");
                    Some(x.clone())
                }
            },
        };
        nd.0 = match new {
            Some(v) => v,
            None => return ctx.fail("refused", format!("{} refused an update that always applies", w.k.name)),
        };
        // a division recombines
        if w.n > 0 && how % 3 == 0 {
            if let Some(v) = w.run(ctx, DIV, &nd.0, c, how >> 2)? {
                let back = pm::add(&pm::mul(&v[0], c, w.n), &v[1], w.n);
                ctx.check(back == nd.0, "recombination", || format!("{} n={}: {:?} / {:?}", w.k.name, w.n, nd.0, c))?;
            }
        }
        w.run(ctx, SAME, &nd.0, &nd.0.clone(), how >> 5)?;
        w.run(ctx, SAME, &nd.0, &if w.k.l > 0 { x } else { nd.0.clone() }, how >> 7)?;
        if w.k.l > 0 && how % 5 == 0 {
            // a vector of coefficients that does not fit is refused, never cut
            let mut long = nd.0.clone();
            long.resize(w.l + (how >> 3) as usize % 3, 0);
            long.push((how >> 5) as i128 % 2);
            long.push(0);
            if w.run(ctx, LOAD, &long, &[], how)?.is_none() {
                ctx.fault("too_long_refused");
            }
        }
        ctx.ev("state", &nd.0.iter().flat_map(|c| c.to_le_bytes()).collect::<Vec<u8>>());
        Ok(())
    };
    fn save(nd: &mut Node, net: &mut Net, ctx: &mut Ctx) {
        nd.3 = (nd.0.clone(), nd.1.clone());
        for id in nd.2.drain(..) {
            net.ack(id, ctx);
        }
    }
    let mut orders: Vec<Vec<usize>> = vec![vec![]; n];
    while let Some(ev) = net.next(ctx)? {
        match ev {
            Ev::Timer { node, tag } => {
                if net.down[node] {
                    let at = net.now + 100;
                    net.timer(at, node, tag);
                    continue;
                }
                let j = tag as usize;
                apply(ctx, &mut nodes[node], j, ups[j].0.arg(5))?;
                nodes[node].1.insert(j);
                orders[node].push(j);
                save(&mut nodes[node], &mut net, ctx);
                for to in (0..n).filter(|t| *t != node) {
                    let d = ups[j].1.iter().flat_map(|c| c.to_le_bytes()).collect();
                    net.post(node, to, (j * 8 + to) as u64, d, ctx);
                }
            }
            Ev::Msg { to, id, attempt, .. } => {
                let j = id as usize / 8;
                nodes[to].2.push(id);
                if nodes[to].1.contains(&j) {
                    ctx.probe("duplicate_ignored");
                    save(&mut nodes[to], &mut net, ctx);
                    continue;
                }
                apply(ctx, &mut nodes[to], j, ups[j].0.arg(5) ^ mix64(id ^ attempt << 40))?;
                nodes[to].1.insert(j);
                orders[to].push(j);
                if nodes[to].2.len() >= every {
                    save(&mut nodes[to], &mut net, ctx);
                }
            }
            Ev::Crash { node } => {
                if !nodes[node].2.is_empty() {
                    ctx.fault("unsaved_updates_lost");
                }
                nodes[node].2.clear();
            }
            Ev::Restart { node } => {
                let d = nodes[node].3.clone();
                nodes[node] = (d.0.clone(), d.1.clone(), vec![], d);
            }
        }
    }
    for i in 0..n {
        ctx.check(nodes[i].1.len() == ups.len(), "update-lost", || format!("replica {} has {} of {}", i, nodes[i].1.len(), ups.len()))?;
        if i > 0 {
            if orders[0] != orders[i] {
                ctx.nontrivial += 1;
            }
            let (a, b) = (nodes[0].0.clone(), nodes[i].0.clone());
            ctx.check(a == b, "replicas-differ", || format!("{} n={}: {:?} in order {:?}, {:?} in order {:?}", w.k.name, w.n, a, orders[0], b, orders[i]))?;
            ctx.count("replica_pairs_compared");
        }
        ctx.state(orders[i].iter().fold(mix64(cfg.arg(1) << 4 | product as u64), |h, j| mix64(h ^ *j as u64)));
    }
    Ok(())
}
/// Contributions start at different nodes and are merged wherever they meet, in any grouping.
fn gather(w: &World, product: bool, cfg: &Step, factor: &[i128], steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    let n = 2 + cfg.usz(2) % 4;
    let ups: Vec<(&Step, P)> = steps.iter().filter(|s| s.k == "up").take(6).map(|s| (s, pm::norm(&contribution(w, s, factor, false), w.n))).collect();
    let op = if product { MUL } else { ADD };
    // a bag: which contributions it combines, and the combination
    type Bag = (BTreeSet<usize>, P);
    let mut bags: Vec<Option<Bag>> = vec![None; n];
    let mut sent: Vec<Bag> = vec![];
    let mut got: BTreeSet<u64> = BTreeSet::new();
    let mut shape = mix64(cfg.arg(1) ^ 77);
    let merge = |ctx: &mut Ctx, mine: Option<Bag>, b: Bag, how: u64, shape: &mut u64| -> Res<Bag> {
        let m = match mine {
            None => return Ok(b),
            Some(m) => m,
        };
        let ids: BTreeSet<usize> = m.0.union(&b.0).copied().collect();
        ctx.check(ids.len() == m.0.len() + b.0.len(), "harness", || format!("bags overlap {:?} {:?}", m.0, b.0))?;
        let r = if how % 2 == 0 { w.run(ctx, op, &m.1, &b.1, how >> 1)? } else { w.run(ctx, op, &b.1, &m.1, how >> 1)? };
        *shape = mix64(*shape ^ mix64(m.0.iter().fold(0, |h, i| h | 1 << i)) ^ b.0.iter().fold(0, |h, i| h | 1u64 << i));
        if m.0.len() > 1 && b.0.len() > 1 {
            ctx.nontrivial += 1;
        }
        match r {
            Some(v) => Ok((ids, v[0].clone())),
            None => ctx.fail("refused", "a combination was refused".into()),
        }
    };
    for (j, (s, c)) in ups.iter().enumerate() {
        let i = s.usz(1) % n;
        let b = (BTreeSet::from([j]), c.clone());
        let mine = bags[i].take();
        bags[i] = Some(merge(ctx, mine, b, s.arg(5), &mut shape)?);
    }
    let mut net = Net::new(steps, n);
    let gives: Vec<&Step> = steps.iter().filter(|s| s.k == "give").collect();
    for (j, s) in gives.iter().enumerate() {
        net.timer(s.arg(0) % 2000, s.usz(1) % n, j as u64);
    }
    while let Some(ev) = net.next(ctx)? {
        match ev {
            Ev::Timer { node, tag } => {
                if net.down[node] {
                    let at = net.now + 100;
                    net.timer(at, node, tag);
                    continue;
                }
                let s = gives[tag as usize];
                let to = s.usz(2) % n;
                if to == node {
                    continue;
                }
                if let Some(b) = bags[node].take() {
                    let id = sent.len() as u64;
                    let d = b.1.iter().flat_map(|c| c.to_le_bytes()).collect();
                    sent.push(b);
                    net.post(node, to, id, d, ctx);
                }
            }
            Ev::Msg { to, id, bytes, .. } => {
                if !got.insert(id) {
                    ctx.probe("duplicate_ignored");
                    net.ack(id, ctx);
                    continue;
                }
                let v: P = bytes.chunks(16).map(|c| i128::from_le_bytes(c.try_into().unwrap())).collect();
                let mine = bags[to].take();
                bags[to] = Some(merge(ctx, mine, (sent[id as usize].0.clone(), v), mix64(id ^ cfg.arg(8)), &mut shape)?);
                net.ack(id, ctx);
            }
            // bags and unacknowledged messages are on disk
            Ev::Crash { .. } | Ev::Restart { .. } => {}
        }
    }
    let mut total: Option<Bag> = None;
    for b in bags.into_iter().flatten() {
        total = Some(merge(ctx, total.take(), b, cfg.arg(8), &mut shape)?);
    }
    ctx.state(shape);
    let (ids, sum) = match total {
        Some(t) => t,
        None => return Ok(()),
    };
    ctx.check(ids.len() == ups.len(), "update-lost", || format!("{:?} of {}", ids, ups.len()))?;
    let mut want: P = if product { pm::norm(&[1], w.n) } else { vec![] };
    for (_, c) in &ups {
        want = w.model(op, &want, c).unwrap().unwrap_or_default()[0].clone();
    }
    ctx.check(sum == want, "total-wrong", || format!("{} n={} irr={:?}: {:?} want {:?}", w.k.name, w.n, w.irr, sum, want))?;
    ctx.count("totals");
    // everything can be taken out again, in any order, where it has an inverse
    let mut order: Vec<usize> = (0..ups.len()).collect();
    SimRng::new(cfg.arg(8)).shuffle(&mut order);
    let mut rest = sum;
    let mut left: Vec<usize> = vec![];
    for j in order {
        let c = &ups[j].1;
        let how = cfg.arg(8) ^ mix64(j as u64);
        if !product {
            if w.n == 0 && !w.k.signed {
                // stays non-negative: the rest still contains c
            }
            rest = w.run(ctx, SUB, &rest, c, how)?.map_or(vec![], |v| v[0].clone());
        } else if w.k.l > 0 {
            if w.k.l > 100 {
                left.push(j);
                continue;
            }
            match w.run(ctx, INV, c, &[], how)? {
                Some(i) => rest = w.run(ctx, MUL, &rest, &i[0], how >> 3)?.map_or(vec![], |v| v[0].clone()),
                None => left.push(j),
            }
        } else {
            if c.is_empty() {
                left.push(j);
                continue;
            }
            match w.run(ctx, DIV, &rest, c, how)? {
                Some(v) => {
                    let zd = !pm::prime(w.n) && w.n != 0;
                    ctx.check(zd || v[1].is_empty(), "not-exact", || format!("{} n={}: {:?} / {:?} rest {:?}", w.k.name, w.n, rest, c, v[1]))?;
                    rest = v[0].clone();
                }
                None => left.push(j),
            }
        }
    }
    let mut want: P = if product { pm::norm(&[1], w.n) } else { vec![] };
    for j in &left {
        want = w.model(op, &want, &ups[*j].1).unwrap().unwrap_or_default()[0].clone();
    }
    if product && w.k.l == 0 && left.iter().any(|j| ups[*j].1.is_empty()) {
        // nothing to tell about the factors of zero
        return ctx.check(rest.is_empty(), "total-wrong", || format!("{:?} left of zero", rest));
    }
    ctx.check(rest == want, "not-taken-out", || format!("{} n={} irr={:?}: {:?} left, want {:?}", w.k.name, w.n, w.irr, rest, want))?;
    ctx.count("taken_out");
    Ok(())
}
/// Messages masked with products of small polynomials; the receiver unmasks them with its secret.
fn masked(w: &World, cfg: &Step, steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    let l = w.l;
    if w.k.l == 0 || w.n < 16 * l as i128 {
        return Ok(());
    }
    let n = w.n;
    let mut r = SimRng::new(cfg.arg(8));
    let tiny = |r: &mut SimRng| -> P { (0..l).map(|_| r.below(3) as i128 - 1).map(|c| if w.k.signed { c } else { pm::red(c, n) }).collect() };
    let go = |ctx: &mut Ctx, o: u64, a: &[i128], b: &[i128], how: u64| -> Res<P> {
        match w.run(ctx, o, a, b, how)? {
            Some(v) => Ok(v[0].clone()),
            None => ctx.fail("refused", "a sum or product was refused".into()),
        }
    };
    let a = coefs(w.k, n, cfg.data(1), l);
    let s = tiny(&mut r);
    let e = tiny(&mut r);
    let t = go(ctx, MUL, &a, &s, cfg.arg(8))?;
    let t = go(ctx, ADD, &t, &e, cfg.arg(8) >> 3)?;
    let mut net = Net::new(steps, 2);
    let ups: Vec<&Step> = steps.iter().filter(|s| s.k == "up").collect();
    for (j, s) in ups.iter().enumerate() {
        net.timer(s.arg(0) % 1500, 0, j as u64);
    }
    let bits = |s: &Step| -> Vec<bool> { (0..l).map(|i| s.data(0).get(i / 8).map_or(false, |b| b >> (i % 8) & 1 == 1)).collect() };
    let mut read = BTreeSet::new();
    let mut order = mix64(cfg.arg(1) ^ 4444);
    while let Some(ev) = net.next(ctx)? {
        match ev {
            Ev::Timer { node, tag } => {
                if net.down[node] {
                    let at = net.now + 100;
                    net.timer(at, node, tag);
                    continue;
                }
                let up = ups[tag as usize];
                let how = up.arg(5);
                let mut q = SimRng::new(how ^ 99);
                let (x, e1, e2) = (tiny(&mut q), tiny(&mut q), tiny(&mut q));
                let u = go(ctx, MUL, &a, &x, how)?;
                let u = go(ctx, ADD, &u, &e1, how >> 2)?;
                let v = go(ctx, MUL, &t, &x, how >> 4)?;
                let v = go(ctx, ADD, &e2, &v, how >> 6)?;
                let m: P = bits(up).iter().map(|b| if *b { n / 2 } else { 0 }).collect();
                let v = go(ctx, ADD, &v, &m, how >> 8)?;
                let mut d: Vec<u8> = vec![];
                for p in [u, v] {
                    let mut p = p;
                    p.resize(l, 0);
                    d.extend(p.iter().flat_map(|c| c.to_le_bytes()));
                }
                net.post(0, 1, tag, d, ctx);
            }
            Ev::Msg { id, bytes, .. } => {
                let c: P = bytes.chunks(16).map(|c| i128::from_le_bytes(c.try_into().unwrap())).collect();
                let how = mix64(id ^ cfg.arg(8));
                let us = go(ctx, MUL, &c[..l], &s, how)?;
                let mut d = go(ctx, SUB, &c[l..], &us, how >> 3)?;
                d.resize(l, 0);
                let m: Vec<bool> = d.iter().map(|c| *c > n / 4 && *c < n - n / 4).collect();
                ctx.check(m == bits(ups[id as usize]), "unmasked-wrong", || format!("{} n={}: {:?}", w.k.name, n, d))?;
                ctx.count("messages_unmasked");
                if read.len() as u64 != id {
                    ctx.nontrivial += 1;
                }
                order = mix64(order ^ id);
                read.insert(id);
                net.ack(id, ctx);
            }
            Ev::Crash { .. } | Ev::Restart { .. } => {}
        }
    }
    ctx.state(order);
    ctx.check(read.len() == ups.len(), "update-lost", || format!("{} of {} read", read.len(), ups.len()))
}
fn gen_coefs(r: &mut SimRng, l: usize) -> Vec<u8> {
    let style = r.below(6);
    let only = r.usz(l.max(1));
    let mut v = vec![];
    for i in 0..l {
        let x: i64 = match style {
            0 => r.next() as i64,
            1 => r.below(3) as i64 - 1,
            2 if i != only => 0,
            2 => 1 + r.below(2) as i64 * (r.next() >> 33) as i64,
            3 if i > only => 0,
            4 if r.chance(2, 3) => 0,
            5 => -1,
            _ => match r.below(4) {
                0 => r.below(5) as i64 - 2,
                1 => -(r.below(5000) as i64),
                _ => r.next() as i64 >> r.below(60),
            },
        };
        v.extend_from_slice(&x.to_le_bytes());
    }
    v
}
fn gen(r: &mut SimRng, thorough: bool) -> Vec<Step> {
    let mode = *r.pick(&[0u64, 1, 1, 2, 3, 3, 4]);
    let big = r.chance(1, if thorough { 20 } else { 60 });
    let ki = if mode == 4 || r.chance(3, 5) {
        if big {
            RINGS - 3 + r.usz(3)
        } else {
            r.usz(RINGS - 3)
        }
    } else {
        RINGS + r.usz(VECS)
    };
    let long = ki >= RINGS && r.chance(1, 60);
    let l = match ki {
        21 => 64,
        22 => 23,
        23 => 256,
        _ if long => r.len(320, &[16, 32, 64, 128, 256]).max(17),
        _ => 16,
    };
    let n = r.below(4);
    let sel = match r.below(10) {
        0 => 1 << 56,
        1 => 2 << 56,
        _ => 0,
    } | r.below(1 << 16);
    let d0 = gen_coefs(r, l + 1);
    let d1 = gen_coefs(r, l);
    let m = if l > 16 { 1 + r.below(3) } else { 1 + r.below(if thorough { 9 } else { 6 }) };
    let mut v = vec![Step::with("!cfg", &[mode, ki as u64, n, sel, r.below(64), r.below(32), r.below(64), r.below(8), r.next() >> 8, if long { l as u64 - 1 } else { 0 }], vec![d0, d1])];
    let mut ids = vec![];
    for j in 0..m {
        let mut d = gen_coefs(r, l);
        if l > 16 && r.chance(1, 2) {
            // of low degree
            let k = r.usz(6);
            d.truncate(8 * (1 + k));
        }
        let short = if long && r.chance(1, 2) { r.below(l as u64) } else { r.below(16) };
        v.push(Step::with("up", &[r.below(900), r.below(8), r.below(4), short, r.below(4), r.next() >> 8], vec![d]));
        if mode < 2 {
            ids.extend((0..=n).map(|to| j * 8 + to));
        } else {
            ids.push(j);
        }
    }
    if mode == 2 || mode == 3 {
        for j in 0..r.below(8) {
            v.push(Step::new("give", &[r.below(1500), r.below(6), r.below(6)]));
            ids.push(j);
        }
    }
    let nodes = match mode {
        0 | 1 => 1 + n,
        2 | 3 => 2 + n,
        _ => 2,
    };
    gen_faults(r, &mut v, &ids, nodes as usize, 2000, false, true);
    v
}
pub fn prop() -> Prop {
    let _ = (wrap, low128);
    Prop {
        id: "C14",
        quick_runs: 60_000,
        thorough_runs: 2_000_000,
        step_budget: 2_000_000_000,
        again: 500,
        rule: "seeded polynomials of one of 24 ring types (lengths 1 to 256, eight coefficient types, run-time modulus and reduction polynomial) or vectors of 16 coefficient types, added, subtracted, multiplied in and divided out by replicas in the order a faulty network delivers, merged in any grouping at relays, or used to mask messages; non-trivial: replicas applied different orders, two merged bags met, or messages were read out of order; distinct by order or merge tree per type",
        real: &["hacspec::poly (poly! types, poly_add/sub/mul/div, extended_euclid, leading_coefficient)", "hacspec::math_util inversion", "hacspec::machine_integers ModNumeric", "hacspec::vec_integers vec_poly_add/sub/mul"],
        stubs: &["network, clock, disk, retransmission and de-duplication: simulated", "expected values: independent i128 polynomial arithmetic"],
        assumptions: &["moduli are below 2^126", "operands of inversion and division are reduced", "inverses are required to exist only for prime moduli; over composite moduli an inverse is either right or refused"],
        gen,
        exec,
    }
}

//! C13: replicas of numbers that apply the same commuting updates in different orders, and secrets
//! shared over a prime modulus.
use crate::nums::*;
use hacspec::prelude::*;
use num::{BigInt, One, Signed, ToPrimitive, Zero};
use simkit::net::{gen_faults, Ev, Net};
use simkit::rng::{mix64, Rng as SimRng};
use simkit::{guard, Ctx, Prop, Res, Step};
use std::collections::BTreeSet;

/// What kind of number a replica holds; enough to compute the exact outcome of every update.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Class {
    Int { secret: bool, masks: bool },
    Vecs,
    Modular { public: bool },
    Bounded { public: bool },
}
#[derive(Clone)]
struct Kind {
    name: &'static str,
    class: Class,
    bits: u32,
    signed: bool,
    /// fixed number of lanes, 0: as many as the run says
    lanes: usize,
    groups: &'static [u64],
    modulus: fn() -> BigInt,
    make: fn(&[BigInt], u64) -> Box<dyn Rep>,
}
trait Rep {
    /// applies the update in place; panics leave the value as it was
    fn apply(&mut self, u: &Up, how: u64);
    fn view(&self) -> Vec<BigInt>;
    /// further observations that must be consistent with the value
    fn inspect(&self, val: &[BigInt], how: u64, other: &BigInt) -> Result<(), String>;
}
/// One update: group (what commutes with what), variant, small number, values, condition, modulus.
#[derive(Clone, Debug)]
struct Up {
    g: u64,
    op: u64,
    k: u64,
    v: Vec<BigInt>,
    on: bool,
    n: BigInt,
}
const ADD: u64 = 0;
const MUL: u64 = 1;
const XOR: u64 = 2;
const OR: u64 = 3;
const AND: u64 = 4;
const ROT: u64 = 5;
const SHR: u64 = 6;
const MAX: u64 = 7;
const MIN: u64 = 8;
const DIV: u64 = 9;
const MADD: u64 = 10;
const MMUL: u64 = 11;
const POW: u64 = 12;

struct IntRep<T>(T);
/// An all-ones or all-zero mask from comparisons of the library.
fn mask<T: Mach>(on: bool, a: T, op: u64) -> T {
    // a vs a ^ 1: equal, smaller or greater as wanted
    let b = a ^ T::ONE;
    let (lo, hi) = if a.get_bit(0).equal(T::ZERO) { (a, b) } else { (b, a) };
    match (on, op % 6) {
        (true, 0) => a.equal_bm(a),
        (true, 1) => hi.greater_than_bm(lo),
        (true, 2) => lo.less_than_bm(hi),
        (true, 3) => a.not_equal_bm(b),
        (true, 4) => a.greater_than_or_qual_bm(a),
        (true, _) => lo.less_than_or_equal_bm(hi),
        (false, 0) => a.equal_bm(b),
        (false, 1) => lo.greater_than_bm(hi),
        (false, 2) => hi.less_than_bm(lo),
        (false, 3) => a.not_equal_bm(a),
        (false, 4) => lo.greater_than_or_qual_bm(hi),
        (false, _) => hi.less_than_or_equal_bm(lo),
    }
}
impl<T: Mach> Rep for IntRep<T> {
    fn apply(&mut self, u: &Up, how: u64) {
        let x = self.0;
        let v = T::of(&u.v[0], how);
        let on = u.on;
        let k = u.k as u32 % T::NUM_BITS;
        let m = |op: u64| -> T {
            if T::MASKS {
                mask::<T>(on, v, op)
            } else if on {
                T::ZERO.wrap_sub(T::ONE)
            } else {
                T::ZERO
            }
        };
        let n = T::of(&u.n, how / 3);
        self.0 = match (u.g, u.op % 8) {
            (ADD, 0) => x.plain(v, 3 * (how % 3)),
            (ADD, 1) => x.plain(v, 3 * (how % 3) + 1),
            (ADD, 2) => cadd(x, v, m(how)),
            (ADD, 3) => csub(x, v, m(how)),
            (ADD, 4) => x.checked(v, 0).unwrap_or_else(|| x.wrap_add(v)),
            (ADD, 5) => x.checked(v, 1).unwrap_or_else(|| x.wrap_sub(v)),
            (ADD, 6) => x.wrap_sub(v.negate()),
            (ADD, _) => {
                // over the bit-wise identity x + v = (x ^ v) + 2 (x & v)
                (x ^ v).wrap_add((x & v).wrap_mul(T::TWO))
            }
            (MUL, 0) => x.plain(v, 3 * (how % 3) + 2),
            (MUL, 1) => cmul(x, v, m(how)),
            (MUL, 2) => x.negate(),
            (MUL, 3) => x << k,
            (MUL, 4) => x.checked(v, 2).unwrap_or_else(|| x.wrap_mul(v)),
            (MUL, 5) if T::SECRET => x.wrap_mul(v.pow(u.k as u32 % 12)),
            (MUL, 5) => x.wrap_mul(T::of(&emod(&u.v[0], &big(3)), how).pow(u.k as u32 % 4)),
            (MUL, _) => v.plain(x, 2),
            (XOR, 0) => x ^ v,
            (XOR, 1) => !x,
            (XOR, 2) => cswap(x, x ^ v, m(how)).0,
            (XOR, 3) => cswap(x ^ v, x, m(how)).1,
            (XOR, 4) => cswap_bit(x, x ^ v, if on { T::ONE } else { T::ZERO }).0,
            (XOR, 5) => cswap_bit(x ^ v, x, if on { T::ONE } else { T::ZERO }).1,
            (XOR, 6) => x ^ v.get_bit(k),
            (XOR, _) => (x | v) ^ (x & v),
            (OR, 0) => x | v,
            (OR, 1) => x.set_bit(T::ONE, k),
            (OR, 2) => x.set(k, !T::ZERO, (how % T::NUM_BITS as u64) as u32),
            (OR, 3) => cset_bit(x, T::ONE, k, m(how)),
            (OR, 4) => !(!x & !v),
            (OR, _) => v | x,
            (AND, 0) => x & v,
            (AND, 1) => x.set_bit(T::ZERO, k),
            (AND, 2) => x.set(k, T::ZERO, (how % T::NUM_BITS as u64) as u32),
            (AND, 3) => cset_bit(x, T::ZERO, k, m(how)),
            (AND, _) => !(!x | !v),
            (ROT, a) => x.rot(k, a % 2 == 0, how),
            (SHR, _) => x >> k,
            (MAX, a) => {
                let first = match a {
                    0 => x.greater_than(v),
                    1 => x.greater_than_or_qual(v),
                    2 => !x.less_than(v),
                    3 => !x.less_than_or_equal(v),
                    4 if T::MASKS => return self.0 = cswap(x, v, x.greater_than_bm(v)).1,
                    5 if T::MASKS => return self.0 = cswap(x, v, x.less_than_or_equal_bm(v)).0,
                    6 if T::MASKS => return self.0 = cswap(x, v, x.less_than_bm(v)).0,
                    7 if T::MASKS => return self.0 = cswap(x, v, x.greater_than_or_qual_bm(v)).1,
                    _ => !v.greater_than(x),
                };
                if first {
                    x
                } else {
                    v
                }
            }
            (MIN, a) => {
                let first = match a {
                    0 => x.less_than(v),
                    1 => x.less_than_or_equal(v),
                    2 => !x.greater_than(v),
                    3 => !x.greater_than_or_qual(v),
                    4 if T::MASKS => return self.0 = cswap(x, v, x.greater_than_bm(v)).0,
                    5 if T::MASKS => return self.0 = cswap(x, v, x.less_than_or_equal_bm(v)).1,
                    6 if T::MASKS => return self.0 = cswap(x, v, x.less_than_bm(v)).1,
                    7 if T::MASKS => return self.0 = cswap(x, v, x.greater_than_or_qual_bm(v)).0,
                    _ => !v.less_than(x),
                };
                if first {
                    x
                } else {
                    v
                }
            }
            (DIV, a) => match a % 3 {
                0 => x.div(v),
                1 => ct_div(x, v).0,
                _ if !T::SECRET => x.wrap_div(v),
                _ => ct_div(x, v).0,
            },
            (MADD, 0) | (MADD, 1) | (MADD, 2) => x.add_mod(v, n),
            (MADD, 3) => v.add_mod(x, n),
            (MADD, 4) => x.modulo(n),
            (MADD, 7) => x.sub_mod(T::ZERO.sub_mod(v, n), n),
            (MADD, _) => x.sub_mod(v, n),
            (MMUL, 0) | (MMUL, 1) | (MMUL, 2) => x.mul_mod(v, n),
            (MMUL, 3) => v.mul_mod(x, n),
            (MMUL, 4) => x.modulo(n),
            (_, _) => x.mul_mod(v.inv(n), n),
        };
    }
    fn view(&self) -> Vec<BigInt> {
        vec![self.0.val()]
    }
    fn inspect(&self, val: &[BigInt], how: u64, other: &BigInt) -> Result<(), String> {
        let x = self.0;
        for (n, g, b, s) in x.casts() {
            if g != wrap(&val[0], b, s) {
                return Err(format!("as {}: {} of {}", n, g, val[0]));
            }
        }
        if format!("{:?}", x) != val[0].to_string() {
            return Err(format!("prints as {:?}", x));
        }
        let i = (how % T::NUM_BITS as u64) as u32;
        let bit = emod(&(&val[0] >> i as usize), &big(2));
        if x.get_bit(i).val() != bit {
            return Err(format!("bit {} of {}", i, val[0]));
        }
        let o = T::of(other, how);
        let w = wrap(other, T::NUM_BITS, T::SIGNED);
        let got = (x.equal(o), x.greater_than(o), x.greater_than_or_qual(o), x.less_than(o), x.less_than_or_equal(o));
        let v = &val[0];
        let want = (*v == w, *v > w, *v >= w, *v < w, *v <= w);
        if got != want {
            return Err(format!("comparing {} with {}: {:?}", v, w, got));
        }
        if T::MASKS {
            let all: BigInt = if T::SIGNED { big(-1) } else { pow2(T::NUM_BITS) - 1 };
            let m = |b: bool| if b { all.clone() } else { BigInt::zero() };
            let got = vec![x.equal_bm(o), x.greater_than_bm(o), x.greater_than_or_qual_bm(o), x.less_than_bm(o), x.less_than_or_equal_bm(o), x.not_equal_bm(o)];
            let want = vec![m(*v == w), m(*v > w), m(*v >= w), m(*v < w), m(*v <= w), m(*v != w)];
            if got.iter().map(|g| g.val()).collect::<Vec<_>>() != want {
                return Err(format!("comparison masks of {} and {}: {:?}", v, w, got));
            }
        }
        if !T::SIGNED && !w.is_zero() {
            let (q, r) = ct_div(x, o);
            if q.val() != v / &w || r.val() != v % &w || x.div(o).val() != v / &w || x.modulo(o).val() != v % &w {
                return Err(format!("{} / {}: {:?} rest {:?}", v, w, q, r));
            }
        }
        Ok(())
    }
}
struct ModRep<T>(T);
impl<T: Modu> Rep for ModRep<T> {
    fn apply(&mut self, u: &Up, how: u64) {
        let x = self.0;
        let v = || T::of(&u.v[0], how);
        self.0 = match (u.g, u.op % 8) {
            (ADD, 1) => x.wrapped(v(), 0),
            (ADD, 5) => x.wrapped(v(), 1),
            (MUL, 2) => x.wrapped(v(), 2),
            (ADD, 0) => x + v(),
            (ADD, 2) => v() + x,
            (ADD, 3) => x - (x - (x + v())),
            (ADD, 4) => x - v(),
            (ADD, 6) => T::literal(0) - (v() - x),
            (ADD, _) => x + v() * T::of(&BigInt::from(u.k % 4).min(T::modulus()), how),
            (MUL, 0) | (MUL, 1) => x * v(),
            (MUL, 3) => v() * x,
            (MUL, 4) if T::PUBLIC => x * v().power((u.k % 60) as u128 % exps::<T>()),
            (MUL, 5) if T::PUBLIC => x * v().inverse(),
            (MUL, 6) if T::PUBLIC => x * v().power_felem(T::of(&BigInt::from(u.k % 200).min(T::modulus()), how)),
            (MUL, _) => x * (v() - T::literal(0)),
            (_, a) if a % 2 == 0 => x.power((u.k % 7) as u128 % exps::<T>()),
            (_, _) => x.power_felem(T::of(&BigInt::from(u.k % 7).min(T::modulus()), how)),
        };
    }
    fn view(&self) -> Vec<BigInt> {
        vec![of_le(&self.0.bytes(0), false, T::BITS + 8)]
    }
    fn inspect(&self, val: &[BigInt], how: u64, other: &BigInt) -> Result<(), String> {
        let (x, v, m) = (self.0, &val[0], T::modulus());
        if T::top() != m {
            return Err(format!("modulus {}", T::top()));
        }
        if format!("{:?} {}", x, x) != format!("{} {}", v, v) || x.base() != *v {
            return Err(format!("prints as {:?}, {}, base {}", x, x, x.base()));
        }
        let b = x.bytes(how);
        if of_le(&b, false, T::BITS + 8) != *v {
            return Err(format!("bytes {:?} of {}", b, v));
        }
        let i = (how % T::BITS as u64) as usize;
        if x.bitat(i) != (emod(&(v >> i), &big(2)).is_one()) {
            return Err(format!("bit {} of {}", i, v));
        }
        if T::PUBLIC {
            let w = emod(other, &m);
            let o = T::of(&w, how);
            if x.order(o) != (*v == w, v.cmp(&w), Some(v.cmp(&w))) {
                return Err(format!("comparing {} and {}: {:?}", v, w, x.order(o)));
            }
            if !w.is_zero() && (x.quot(o).base() != v / &w || x.rest(o).base() != v % &w) {
                return Err(format!("{} / {}: {} rest {}", v, w, x.quot(o), x.rest(o)));
            }
        }
        Ok(())
    }
}
/// Exponents must fit the type's base.
fn exps<T: Modu>() -> u128 {
    if T::BITS <= 8 {
        256
    } else {
        1 << 16
    }
}
struct BndRep<T>(T);
impl<T: Bnd> Rep for BndRep<T> {
    fn apply(&mut self, u: &Up, how: u64) {
        let x = self.0;
        let v = || T::of(&u.v[0], how);
        self.0 = match (u.g, u.op % 8) {
            (ADD, 0) | (ADD, 1) => x + v(),
            (ADD, 2) => v() + x,
            (ADD, 3) => x.wrapped(v(), 0),
            (ADD, 4) | (ADD, 5) => x - v(),
            (ADD, 6) => x.wrapped(v(), 1),
            (ADD, _) => x + T::p2(u.k as usize),
            (MUL, 0) => v() * x,
            (MUL, 1) => x.wrapped(v(), 2),
            (MUL, 2) => x * T::p2(u.k as usize),
            (MUL, _) => x * v(),
            (_, _) => x.quot(v()),
        };
    }
    fn view(&self) -> Vec<BigInt> {
        vec![self.0.val()]
    }
    fn inspect(&self, val: &[BigInt], how: u64, other: &BigInt) -> Result<(), String> {
        let (x, v) = (self.0, &val[0]);
        if format!("{:?} {}", x, x) != format!("{} {}", v, v) {
            return Err(format!("prints as {:?}", x));
        }
        let i = (how % T::BITS as u64) as usize;
        if x.bitat(i) != emod(&(v >> i), &big(2)).is_one() {
            return Err(format!("bit {} of {}", i, v));
        }
        if !T::SIGNED && of_le(&x.bytes(), false, T::BITS + 8) != *v {
            return Err(format!("bytes of {}", v));
        }
        if T::PUBLIC {
            let o = T::of(other, how);
            if x.order(o) != (v == other, v.cmp(other), Some(v.cmp(other))) {
                return Err(format!("comparing {} and {}: {:?}", v, other, x.order(o)));
            }
            if !other.is_zero() && (x.quot(o).val() != v / other || x.rest(o).val() != v % other) {
                return Err(format!("{} / {}: {} rest {}", v, other, x.quot(o), x.rest(o)));
            }
        }
        Ok(())
    }
}
macro_rules! vec_rep {
    ($rep:ident, $n:ident, $l:expr, $t:ident, $public:tt) => {
        array!($n, $l, $t);
        struct $rep($n);
        impl Rep for $rep {
            fn apply(&mut self, u: &Up, how: u64) {
                let x = self.0;
                let v = $n::from_vec(u.v.iter().map(|a| <$t as Mach>::of(a, how)).collect());
                self.0 = vec_rep!(@ops $public, x, v, u)
            }
            fn view(&self) -> Vec<BigInt> {
                self.0.iter().map(|x| x.val()).collect()
            }
            fn inspect(&self, _val: &[BigInt], _how: u64, _other: &BigInt) -> Result<(), String> {
                Ok(())
            }
        }
    };
    (@ops false, $x:ident, $v:ident, $u:ident) => {
        match ($u.g, $u.op % 4) {
            (ADD, 0) => $x + $v,
            (ADD, 1) => $x.wrap_add($v),
            (ADD, 2) => $x - $v,
            (ADD, _) => $x.wrap_sub($v),
            (MUL, 0) => $x.wrap_mul($v),
            (MUL, _) => $x * $v,
            _ => $x ^ $v,
        }
    };
    (@ops true, $x:ident, $v:ident, $u:ident) => {
        match ($u.g, $u.op % 4) {
            (ADD, 0) => $x + $v,
            (ADD, 1) => $x.wrap_add($v),
            (ADD, 2) => $x - $v,
            (ADD, _) => $x.wrap_sub($v),
            (MUL, 0) => $x.wrap_mul($v),
            (MUL, _) => $x * $v,
            (DIV, _) => $x / $v,
            _ => $x ^ $v,
        }
    };
}
vec_rep!(R1, VB20, 20, U8, false);
vec_rep!(R2, VH5, 5, U16, false);
vec_rep!(R3, VW8, 8, U32, false);
vec_rep!(R4, VD3, 3, U64, false);
vec_rep!(R5, VQ2, 2, U128, false);
vec_rep!(R6, PB20, 20, u8, true);
vec_rep!(R7, PH5, 5, u16, true);
vec_rep!(R8, PW8, 8, u32, true);
vec_rep!(R9, PD3, 3, u64, true);
vec_rep!(R10, PQ2, 2, u128, true);
vec_rep!(R11, VW260, 260, U32, false);
vec_rep!(R12, PB300, 300, u8, true);
struct SeqRep<T: Mach + PublicInteger>(PublicSeq<T>);
impl<T: Mach + PublicInteger> Rep for SeqRep<T> {
    fn apply(&mut self, u: &Up, how: u64) {
        let x = self.0.clone();
        let v = PublicSeq::from_vec(u.v.iter().map(|a| T::of(a, how)).collect());
        self.0 = match (u.g, u.op % 4) {
            (ADD, 0) if u.k % 2 == 1 => x.wrap_add(v),
            (ADD, 2) if u.k % 2 == 1 => x.wrap_sub(v),
            (ADD, 0) => x + v,
            (ADD, 1) => vec_poly_add(x, v, T::ZERO),
            (ADD, 2) => x - v,
            (ADD, _) => vec_poly_sub(x, v, T::ZERO),
            (MADD, a) if a < 2 => vec_poly_add(x, v, T::of(&u.n, how)),
            (MADD, _) => vec_poly_sub(x, v, T::of(&u.n, how)),
            _ => x ^ v,
        };
    }
    fn view(&self) -> Vec<BigInt> {
        self.0.iter().map(|x| x.val()).collect()
    }
    fn inspect(&self, _val: &[BigInt], _how: u64, _other: &BigInt) -> Result<(), String> {
        Ok(())
    }
}

/// The exact outcome of an update: None if it must be refused.
fn model(kind: &Kind, x: &[BigInt], u: &Up) -> Option<Vec<BigInt>> {
    let (b, s) = (kind.bits, kind.signed);
    if kind.class == Class::Vecs {
        return Some(
            x.iter()
                .zip(&u.v)
                .map(|(x, v)| match (u.g, u.op % 4) {
                    (ADD, 0) | (ADD, 1) => wrap(&(x + v), b, s),
                    (ADD, _) => wrap(&(x - v), b, s),
                    (MUL, _) => wrap(&(x * v), b, s),
                    (DIV, _) => x / v,
                    (MADD, 0) | (MADD, 1) => emod(&(x + v), &u.n),
                    (MADD, _) => emod(&(x - v), &u.n),
                    _ => wrap(&bitop(x, v, b, 2), b, s),
                })
                .collect(),
        );
    }
    let (x, v) = (&x[0], &u.v[0]);
    let k = u.k as u32 % b;
    let on = |y: BigInt| if u.on { y } else { x.clone() };
    let set = |bit: bool| {
        let w = emod(x, &pow2(b));
        let has = emod(&(&w >> k as usize), &big(2)).is_one();
        if bit && !has {
            w + pow2(k)
        } else if !bit && has {
            w - pow2(k)
        } else {
            w
        }
    };
    let y = match kind.class {
        Class::Int { secret, .. } => match (u.g, u.op % 8) {
            (ADD, 0) | (ADD, 4) | (ADD, 6) | (ADD, 7) => {
                if u.op % 8 == 4 && secret && !fits(&(x + v), b, s) {
                    return None;
                }
                x + v
            }
            (ADD, 1) | (ADD, 5) => {
                if u.op % 8 == 5 && secret && !fits(&(x - v), b, s) {
                    return None;
                }
                x - v
            }
            (ADD, 2) => on(x + v),
            (ADD, _) => on(x - v),
            (MUL, 1) => on(x * v),
            (MUL, 2) => -x,
            (MUL, 3) => x * pow2(k),
            (MUL, 4) if secret && !fits(&(x * v), b, s) => return None,
            (MUL, 5) if secret => x * num::pow(v.clone(), u.k as usize % 12),
            (MUL, 5) => x * num::pow(emod(v, &big(3)), u.k as usize % 4),
            (MUL, _) => x * v,
            (XOR, 0) | (XOR, 7) => bitop(x, v, b, 2),
            (XOR, 1) => -x - 1,
            (XOR, 6) => bitop(x, &emod(&(v >> k as usize), &big(2)), b, 2),
            (XOR, _) => on(bitop(x, v, b, 2)),
            (OR, 1) | (OR, 2) => set(true),
            (OR, 3) => on(set(true)),
            (OR, _) => bitop(x, v, b, 0),
            (AND, 1) | (AND, 2) => set(false),
            (AND, 3) => on(set(false)),
            (AND, _) => bitop(x, v, b, 1),
            (ROT, a) => {
                let w = emod(x, &pow2(b));
                let k = if a % 2 == 0 { k } else { (b - k) % b };
                let (hi, lo) = (&w >> (b - k) as usize, &w << k as usize);
                emod(&lo, &pow2(b)) + hi
            }
            (SHR, _) => x >> k as usize,
            (MAX, _) => x.max(v).clone(),
            (MIN, _) => x.min(v).clone(),
            (DIV, _) => x / v,
            (MADD, 4) | (MMUL, 4) => return Some(vec![emod(x, &u.n)]),
            (MADD, a) if a < 4 => return Some(vec![emod(&(x + v), &u.n)]),
            (MADD, 7) => return Some(vec![emod(&(x + v), &u.n)]),
            (MADD, _) => return Some(vec![emod(&(x - v), &u.n)]),
            (MMUL, a) if a < 4 => return Some(vec![emod(&(x * v), &u.n)]),
            (_, _) => {
                let m = u.n.to_biguint().unwrap();
                let w = emod(v, &u.n);
                if v.is_zero() || u.n.is_one() {
                    return Some(vec![BigInt::zero()]);
                }
                if w.is_zero() {
                    return None;
                }
                let i = simkit::refm::modinv(&w.to_biguint().unwrap(), &m)?;
                return Some(vec![emod(&(x * BigInt::from(i)), &u.n)]);
            }
        },
        Class::Modular { public } => {
            let m = (kind.modulus)();
            let y = match (u.g, u.op % 8) {
                (ADD, a) if a < 4 => x + v,
                (ADD, 4) | (ADD, 5) => x - v,
                (ADD, 6) => x - v,
                (ADD, _) => x + v * BigInt::from(u.k % 4).min(m.clone()),
                (MUL, 4) if public => x * num::pow(v.clone(), (u.k % 60) as usize),
                (MUL, 5) if public => {
                    let w = emod(v, &m);
                    if w.is_zero() {
                        BigInt::zero()
                    } else {
                        x * BigInt::from(simkit::refm::modinv(&w.to_biguint().unwrap(), &m.to_biguint().unwrap())?)
                    }
                }
                (MUL, 6) if public => {
                    // an exponent is a field element
                    let e = emod(&BigInt::from(u.k % 200).min(m.clone()), &m);
                    x * v.modpow(&e, &m)
                }
                (MUL, _) => x * v,
                (_, a) => {
                    let e = BigInt::from(u.k % 7);
                    let e = if a % 2 == 0 { e } else { emod(&e.min(m.clone()), &m) };
                    x.modpow(&e, &m)
                }
            };
            return Some(vec![emod(&y, &m)]);
        }
        Class::Bounded { .. } => {
            let y = match (u.g, u.op % 8) {
                (ADD, a) if a < 4 => x + v,
                (ADD, 7) => x + pow2(u.k as u32),
                (ADD, _) => x - v,
                (MUL, 2) => x * pow2(u.k as u32),
                (MUL, _) => x * v,
                (_, _) => {
                    if v.is_zero() {
                        return None;
                    }
                    x / v
                }
            };
            let over = |y: &BigInt| *y > bmax(b) || *y < if s { -bmax(b) } else { BigInt::zero() };
            let p = (u.g == ADD && u.op % 8 == 7 || u.g == MUL && u.op % 8 == 2) && over(&pow2(u.k as u32));
            return if over(&y) || p { None } else { Some(vec![y]) };
        }
        Class::Vecs => unreachable!(),
    };
    Some(vec![wrap(&y, b, s)])
}
fn bitop(x: &BigInt, v: &BigInt, b: u32, op: u8) -> BigInt {
    let (x, v) = (le(&emod(x, &pow2(b))), le(&emod(v, &pow2(b))));
    let n = x.len().max(v.len());
    let at = |a: &Vec<u8>, i: usize| a.get(i).copied().unwrap_or(0);
    let y: Vec<u8> = (0..n)
        .map(|i| match op {
            0 => at(&x, i) | at(&v, i),
            1 => at(&x, i) & at(&v, i),
            _ => at(&x, i) ^ at(&v, i),
        })
        .collect();
    of_le(&y, false, b + 8)
}

const UGROUPS: &[u64] = &[ADD, MUL, XOR, OR, AND, ROT, SHR, MAX, MIN, DIV, MADD, MMUL];
const SGROUPS: &[u64] = &[ADD, MUL, XOR, OR, AND, ROT, SHR, MAX, MIN, MADD, MMUL];
fn none() -> BigInt {
    BigInt::zero()
}
fn int<T: Mach + 'static>() -> Kind {
    Kind {
        name: T::NAME,
        class: Class::Int { secret: T::SECRET, masks: T::MASKS },
        bits: T::NUM_BITS,
        signed: T::SIGNED,
        lanes: 1,
        groups: if T::SIGNED { SGROUPS } else { UGROUPS },
        modulus: none,
        make: |v, h| Box::new(IntRep(T::of(&v[0], h))),
    }
}
fn modular<T: Modu + 'static>() -> Kind {
    Kind {
        name: T::NAME,
        class: Class::Modular { public: T::PUBLIC },
        bits: T::BITS,
        signed: false,
        lanes: 1,
        groups: if T::PUBLIC { &[ADD, MUL, POW] } else { &[ADD, MUL] },
        modulus: T::modulus,
        make: |v, h| Box::new(ModRep(T::of(&v[0], h))),
    }
}
fn bounded<T: Bnd + 'static>() -> Kind {
    Kind {
        name: T::NAME,
        class: Class::Bounded { public: T::PUBLIC },
        bits: T::BITS,
        signed: T::SIGNED,
        lanes: 1,
        groups: if T::PUBLIC { &[ADD, ADD, MUL, DIV] } else { &[ADD, ADD, MUL] },
        modulus: none,
        make: |v, h| Box::new(BndRep(T::of(&v[0], h))),
    }
}
macro_rules! vec_kind {
    ($rep:ident, $n:ident, $l:expr, $t:ident, $g:expr) => {
        Kind {
            name: stringify!($n),
            class: Class::Vecs,
            bits: <$t>::NUM_BITS,
            signed: false,
            lanes: $l,
            groups: $g,
            modulus: none,
            make: |v, h| Box::new($rep($n::from_vec(v.iter().map(|a| <$t as Mach>::of(a, h)).collect()))),
        }
    };
}
fn seq_kind<T: Mach + PublicInteger + 'static>() -> Kind {
    Kind {
        name: "PublicSeq",
        class: Class::Vecs,
        bits: T::NUM_BITS,
        signed: T::SIGNED,
        lanes: 0,
        groups: &[ADD, XOR, MADD],
        modulus: none,
        make: |v, h| Box::new(SeqRep(PublicSeq::<T>::from_vec(v.iter().map(|a| T::of(a, h)).collect()))),
    }
}
fn kinds() -> Vec<Kind> {
    let sec = &[ADD, MUL, XOR];
    let pbl = &[ADD, MUL, XOR, DIV];
    vec![
        int::<U8>(), int::<U16>(), int::<U32>(), int::<U64>(), int::<U128>(),
        int::<I8>(), int::<I16>(), int::<I32>(), int::<I64>(), int::<I128>(),
        int::<u8>(), int::<u16>(), int::<u32>(), int::<u64>(), int::<u128>(),
        int::<i8>(), int::<i16>(), int::<i32>(), int::<i64>(), int::<i128>(),
        modular::<NatComp>(), modular::<NatByte>(), modular::<NatWide>(), modular::<NatLoose>(),
        modular::<Pub255>(), modular::<Pub16>(), modular::<PubLoose>(), modular::<Pub128>(), modular::<PubComp>(), modular::<PubTwo>(),
        modular::<Abs64>(), modular::<AbsSquare>(), modular::<Abp24>(), modular::<Abp384>(), modular::<Old32>(),
        bounded::<UPub72>(), bounded::<UPub256>(), bounded::<SPub64>(), bounded::<SPub256>(),
        bounded::<USec96>(), bounded::<USec8>(), bounded::<SSec40>(), bounded::<SSec136>(),
        bounded::<UOld64>(), bounded::<SAbs16>(), bounded::<UAbs24>(), bounded::<SAbs48>(),
        bounded::<UPub13>(), bounded::<SPub12>(), bounded::<USec67>(), bounded::<SSec21>(),
        modular::<NatOdd>(), modular::<PubOdd>(), modular::<Pub13>(),
        vec_kind!(R1, VB20, 20, U8, sec), vec_kind!(R2, VH5, 5, U16, sec), vec_kind!(R3, VW8, 8, U32, sec), vec_kind!(R4, VD3, 3, U64, sec), vec_kind!(R5, VQ2, 2, U128, sec),
        vec_kind!(R6, PB20, 20, u8, pbl), vec_kind!(R7, PH5, 5, u16, pbl), vec_kind!(R8, PW8, 8, u32, pbl), vec_kind!(R9, PD3, 3, u64, pbl), vec_kind!(R10, PQ2, 2, u128, pbl),
        seq_kind::<u8>(), seq_kind::<u32>(), seq_kind::<u64>(), seq_kind::<u128>(), seq_kind::<i32>(), seq_kind::<i64>(),
        vec_kind!(R11, VW260, 260, U32, sec), vec_kind!(R12, PB300, 300, u8, pbl),
    ]
}
/// Bytes of a step to a value that the kind (and the group) admits.
fn value(kind: &Kind, b: &[u8], u: &Up) -> BigInt {
    let w = kind.bits;
    let raw = wrap(&of_le(b, false, 8 * b.len() as u32 + 8), w, kind.signed);
    let machine = matches!(kind.class, Class::Int { .. } | Class::Vecs);
    if u.g == DIV && raw.is_zero() && machine {
        return BigInt::one();
    }
    raw
}
fn modulus(kind: &Kind, b: &[u8]) -> BigInt {
    // any size the type can hold, small ones as often as large ones
    let h = kind.bits - kind.signed as u32;
    let all = of_le(b, false, 8 * b.len() as u32 + 8);
    let cut = 1 + b.first().copied().unwrap_or(0) as u32 % h;
    let m = emod(&all, &pow2(if b.get(1).copied().unwrap_or(0) % 2 == 0 { h } else { cut }));
    let m = if b.get(1).copied().unwrap_or(0) % 8 == 4 { pow2(h) - big(1 + b[0] as i128 % 3) } else { m };
    m.max(BigInt::one())
}
fn sharing(kind: u64, steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    match kind % 12 {
        0 => shamir::<NatByte>(steps, ctx),
        1 => shamir::<NatWide>(steps, ctx),
        2 => shamir::<NatLoose>(steps, ctx),
        3 | 4 => shamir::<Pub255>(steps, ctx),
        5 => shamir::<Pub16>(steps, ctx),
        6 => shamir::<PubLoose>(steps, ctx),
        7 => shamir::<Pub128>(steps, ctx),
        8 => shamir::<Abs64>(steps, ctx),
        9 => shamir::<Abp24>(steps, ctx),
        10 => shamir::<Abp384>(steps, ctx),
        _ => shamir::<Old32>(steps, ctx),
    }
}
/// Threshold sharing of two secrets and of their sum and a public multiple of it.
fn shamir<T: Modu>(steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    let cfg = steps.iter().find(|s| s.k == "!cfg").cloned().unwrap_or(Step::new("!cfg", &[]));
    let m = T::modulus();
    let n = 2 + cfg.usz(3) % 6;
    let t = 1 + cfg.usz(4) % n;
    let how = cfg.arg(5);
    let num = |j: usize| {
        let b = cfg.data(j);
        emod(&of_le(b, false, 8 * b.len() as u32 + 8), &m)
    };
    // coefficients of the two sharing polynomials
    let coef: Vec<Vec<BigInt>> = (0..2).map(|d| (0..t).map(|j| num(d * 8 + j)).collect()).collect();
    let factor = num(16);
    let secrets = [coef[0][0].clone(), coef[1][0].clone()];
    let combined = emod(&((&secrets[0] + &secrets[1]) * &factor), &m);
    let point = |i: usize| T::literal(i as u128 + 1);
    // dealers evaluate with the library, by Horner or by powers
    let deal = |d: usize, i: usize| -> T {
        let x = point(i);
        let c: Vec<T> = coef[d].iter().enumerate().map(|(j, c)| T::of(c, how / (j as u64 + 1))).collect();
        if (how >> 8) % 2 == 0 || !T::PUBLIC {
            c.iter().rev().fold(T::literal(0), |a, c| a * x + *c)
        } else {
            c.iter().enumerate().fold(T::literal(0), |a, (j, c)| a + *c * x.power(j as u128))
        }
    };
    // node 0 and 1 deal, nodes 2.. hold shares; a share counts once it is on the holder's disk
    let mut net = Net::new(steps, n + 2);
    let mut disk: Vec<[Option<Vec<u8>>; 2]> = vec![[None, None]; n];
    for d in 0..2 {
        for i in 0..n {
            net.timer(cfg.arg(6 + d) % 800 + 13 * i as u64, d, (d * n + i) as u64);
        }
    }
    for (j, s) in steps.iter().enumerate().filter(|(_, s)| s.k == "ask") {
        net.timer(s.arg(0) % 6000, 0, 1000 + j as u64);
    }
    let reconstruct = |ctx: &mut Ctx, disk: &Vec<[Option<Vec<u8>>; 2]>, s: &Step, down: &[bool]| -> Res<()> {
        let what = s.arg(1) % 3;
        let mut have: Vec<usize> = (0..n)
            .filter(|i| !down.get(i + 2).copied().unwrap_or(false))
            .filter(|i| (what == 1 || disk[*i][0].is_some()) && (what == 0 || disk[*i][1].is_some()))
            .collect();
        // any subset, any order
        let mut r = SimRng::new(s.arg(2));
        r.shuffle(&mut have);
        if have.len() < t {
            ctx.probe("too_few_shares");
            return Ok(());
        }
        let take = t + s.usz(3) % (have.len() - t + 1);
        have.truncate(take);
        let how = s.arg(4);
        let get = |i: usize, d: usize| T::of_bytes(disk[i][d].as_ref().unwrap(), how >> d);
        let mut acc = T::literal(0);
        for &i in &have {
            let y = match what {
                0 => get(i, 0),
                1 => get(i, 1),
                _ => (get(i, 0) + get(i, 1)) * T::of(&factor, how),
            };
            // Lagrange weight at zero
            let l = if T::PUBLIC {
                let (mut num, mut den) = (T::literal(1), T::literal(1));
                for &j in &have {
                    if j != i {
                        num = num * (T::literal(0) - point(j));
                        den = den * (point(i) - point(j));
                    }
                }
                match how % 3 {
                    0 => num * den.inverse(),
                    1 => den.inverse() * num,
                    _ => num * den.power_felem(T::of(&(&m - 2), how)),
                }
            } else {
                let (mut num, mut den) = (BigInt::one(), BigInt::one());
                for &j in &have {
                    if j != i {
                        num = num * -(j as i64 + 1);
                        den = den * (i as i64 - j as i64);
                    }
                }
                T::of(&emod(&(emod(&num, &m) * emod(&den, &m).modpow(&(&m - 2), &m)), &m), how)
            };
            acc = acc + y * l;
        }
        let want = match what {
            0 => &secrets[0],
            1 => &secrets[1],
            _ => &combined,
        };
        ctx.count("reconstructions");
        ctx.probe(&format!("reconstructed_with_{}_of_{}", if take == t { "exactly_t" } else { "more_than_t" }, if take == n { "all" } else { "some" }));
        if down.iter().any(|d| *d) {
            ctx.nontrivial += 1;
        }
        let got = of_le(&acc.bytes(how), false, T::BITS + 8);
        ctx.ev("secret", &le(&got));
        ctx.state(mix64(have.iter().fold(what, |h, i| mix64(h ^ *i as u64))));
        ctx.check(got == *want, "reconstruction-wrong", || {
            format!("{}: parties {:?} of {} (threshold {}) got {} want {}", T::NAME, have, n, t, got, want)
        })
    };
    if BigInt::from(n) >= m {
        return Ok(());
    }
    while let Some(ev) = net.next(ctx)? {
        match ev {
            Ev::Timer { node, tag } if tag < 1000 => {
                if net.down[node] {
                    let at = net.now + 150;
                    net.timer(at, node, tag);
                    continue;
                }
                let (d, i) = (tag as usize / n, tag as usize % n);
                let y = match guard(|| deal(d, i).bytes(how >> 3)) {
                    Ok(y) => y,
                    Err(p) => return ctx.fail("panic", format!("{}: dealing: {}", T::NAME, p)),
                };
                net.post(d, i + 2, tag, y, ctx);
            }
            Ev::Timer { tag, .. } => {
                let s = &steps[tag as usize - 1000];
                let down = net.down.clone();
                match guard(|| reconstruct(ctx, &disk, s, &down)) {
                    Ok(r) => r?,
                    Err(p) => return ctx.fail("panic", format!("{}: reconstructing: {}", T::NAME, p)),
                }
            }
            Ev::Msg { from, to, id, bytes, .. } => {
                if let Some(old) = &disk[to - 2][from] {
                    ctx.probe("duplicate_share");
                    let same = *old == bytes;
                    ctx.check(same, "share-changed", || format!("{}: a dealt share differs when sent again", T::NAME))?;
                }
                disk[to - 2][from] = Some(bytes);
                net.ack(id, ctx);
            }
            _ => {}
        }
    }
    // at the end everybody is up
    for what in 0..3u64 {
        let s = Step::new("ask", &[0, what, how ^ what, how >> 5, how >> 9]);
        match guard(|| reconstruct(ctx, &disk, &s, &[])) {
            Ok(r) => r?,
            Err(p) => return ctx.fail("panic", format!("{}: reconstructing: {}", T::NAME, p)),
        }
    }
    Ok(())
}

struct Node {
    live: Box<dyn Rep>,
    model: Vec<BigInt>,
    seen: BTreeSet<usize>,
    deferred: Vec<usize>,
    unsaved: Vec<(usize, u64)>,
    disk: (Vec<BigInt>, BTreeSet<usize>, Vec<usize>),
}
fn exec(steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    let cfg = steps.iter().find(|s| s.k == "!cfg").cloned().unwrap_or(Step::new("!cfg", &[]));
    if cfg.arg(0) % 8 == 7 {
        return sharing(cfg.arg(1), steps, ctx);
    }
    let all = kinds();
    let kind = all[cfg.usz(1) % all.len()].clone();
    let g = kind.groups[cfg.usz(2) % kind.groups.len()];
    let n = 1 + cfg.usz(3) % 5;
    let lanes = if kind.lanes == 0 { cfg.usz(4) % 12 } else { kind.lanes };
    let every = 1 + cfg.usz(5) % 4;
    let mo = modulus(&kind, cfg.data(1));
    let lane = |s: &Step, j: usize, u: &Up| value(&kind, &s.fixed(0, 64)[(j * 3) % 48..], u);
    let ups: Vec<(Step, Up)> = steps
        .iter()
        .filter(|s| s.k == "up")
        .map(|s| {
            let mut u = Up { g, op: s.arg(2), k: s.arg(3) % 600, v: vec![], on: s.arg(4) & 1 == 1, n: mo.clone() };
            u.v = (0..lanes).map(|j| lane(s, j, &u)).collect();
            (s.clone(), u)
        })
        .collect();
    let mut start: Vec<BigInt> = (0..lanes).map(|j| value(&kind, &cfg.fixed(0, 64)[(j * 3) % 48..], &Up { g: 99, op: 0, k: 0, v: vec![], on: false, n: mo.clone() })).collect();
    match kind.class {
        Class::Modular { .. } => start[0] = emod(&start[0], &(kind.modulus)()),
        Class::Bounded { .. } => {}
        _ if g == MADD || g == MMUL => start = start.iter().map(|x| emod(x, &mo)).collect(),
        // the most negative value has no negation or is refused by Neg
        _ => {}
    }
    // negating the most negative secret value is an overflow of the machine type
    let skip = |x: &[BigInt], u: &Up| match kind.class {
        Class::Int { secret: true, .. } if kind.signed => {
            let lowest = -pow2(kind.bits - 1);
            (u.g == MUL && u.op % 8 == 2 && x[0] == lowest) || (u.g == ADD && u.op % 8 == 6 && u.v[0] == lowest)
        }
        _ => false,
    };
    let fresh = |v: &[BigInt], h: u64| guard(|| (kind.make)(v, h));
    let mut nodes: Vec<Node> = vec![];
    for i in 0..n {
        let live = match fresh(&start, cfg.arg(6) + i as u64) {
            Ok(l) => l,
            Err(p) => return ctx.fail("construction-refused", format!("{} from {:?}: {}", kind.name, start, p)),
        };
        let d = (start.clone(), BTreeSet::new(), vec![]);
        nodes.push(Node { live, model: start.clone(), seen: BTreeSet::new(), deferred: vec![], unsaved: vec![], disk: d });
    }
    ctx.count(&format!("type.{}", kind.name));
    let mut net = Net::new(steps, n);
    for (j, (s, _)) in ups.iter().enumerate() {
        net.timer(s.arg(1) % 1500, s.usz(0) % n, j as u64);
    }
    let apply = |ctx: &mut Ctx, nd: &mut Node, j: usize, who: usize, how: u64| -> Res<bool> {
        let u = &ups[j].1;
        if skip(&nd.model, u) {
            ctx.probe("skipped_negation_of_lowest");
            // applied exactly, on the model and by an equivalent update
            let mut v = u.clone();
            v.op = if u.g == MUL { 0 } else { 0 };
            if u.g == MUL {
                v.v = vec![big(-1)];
            }
            let r = guard(|| nd.live.apply(&v, how));
            nd.model = model(&kind, &nd.model, &v).unwrap();
            return match r {
                Ok(()) => Ok(true),
                Err(p) => ctx.fail("update-refused", format!("{} {:?}: {}", kind.name, v, p)),
            };
        }
        let want = model(&kind, &nd.model, u);
        let before = nd.model.clone();
        let r = guard(|| nd.live.apply(u, how));
        ctx.count("updates_applied");
        match (&want, &r) {
            (Some(w), Ok(())) => nd.model = w.clone(),
            (None, Err(_)) => {
                ctx.fault("update_refused");
            }
            (Some(w), Err(p)) => {
                return ctx.fail("update-refused", format!("{} replica {}: {:?} on {:?} is {:?} but panicked: {}", kind.name, who, u, before, w, p))
            }
            (None, Ok(())) => {
                let g = nd.live.view();
                return ctx.fail("out-of-range-accepted", format!("{} replica {}: {:?} on {:?} gave {:?}", kind.name, who, u, before, g));
            }
        }
        let got = match guard(|| nd.live.view()) {
            Ok(g) => g,
            Err(p) => return ctx.fail("panic", format!("reading {}: {}", kind.name, p)),
        };
        let (m, name) = (nd.model.clone(), kind.name);
        ctx.check(got == m, "state-wrong", || format!("{} replica {}: {:?} on {:?} gave {:?} want {:?}", name, who, u, before, got, m))?;
        if lanes > 0 {
            let o = u.v[0].clone();
            match guard(|| nd.live.inspect(&m, how, &o)) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return ctx.fail("observation-wrong", format!("{}: {}", kind.name, e)),
                Err(p) => return ctx.fail("panic", format!("inspecting {} {:?} against {}: {}", kind.name, m, o, p)),
            }
        }
        ctx.ev("state", &got.iter().flat_map(|x| le(x)).collect::<Vec<_>>());
        Ok(want.is_some())
    };
    fn save(nd: &mut Node, net: &mut Net, ctx: &mut Ctx) {
        nd.disk = (nd.live.view(), nd.seen.clone(), nd.deferred.clone());
        for (_, id) in nd.unsaved.drain(..) {
            net.ack(id, ctx);
        }
        ctx.count("saves");
    }
    let mut orders: Vec<Vec<usize>> = vec![vec![]; n];
    while let Some(ev) = net.next(ctx)? {
        match ev {
            Ev::Timer { node, tag } => {
                let j = tag as usize;
                if net.down[node] {
                    let at = net.now + 100;
                    net.timer(at, node, tag);
                    continue;
                }
                let nd = &mut nodes[node];
                if !apply(ctx, nd, j, node, ups[j].0.arg(5))? {
                    nd.deferred.push(j);
                }
                nd.seen.insert(j);
                orders[node].push(j);
                save(nd, &mut net, ctx);
                for to in 0..n {
                    if to != node {
                        let d = ups[j].1.v.iter().flat_map(|x| le(x)).collect();
                        net.post(node, to, (j * 8 + to) as u64, d, ctx);
                    }
                }
            }
            Ev::Msg { to, id, attempt, .. } => {
                let j = id as usize / 8;
                let nd = &mut nodes[to];
                if nd.seen.contains(&j) {
                    ctx.probe("duplicate_update_ignored");
                    nd.unsaved.push((j, id));
                    save(nd, &mut net, ctx);
                    continue;
                }
                if !apply(ctx, nd, j, to, ups[j].0.arg(5) ^ mix64(id ^ attempt << 40))? {
                    nd.deferred.push(j);
                }
                nd.seen.insert(j);
                orders[to].push(j);
                nd.unsaved.push((j, id));
                if nd.unsaved.len() >= every {
                    save(nd, &mut net, ctx);
                }
            }
            Ev::Crash { node } => {
                let nd = &mut nodes[node];
                if !nd.unsaved.is_empty() {
                    ctx.fault("unsaved_updates_lost");
                }
                nd.unsaved.clear();
            }
            Ev::Restart { node } => {
                let d = nodes[node].disk.clone();
                let live = match fresh(&d.0, net.now) {
                    Ok(l) => l,
                    Err(p) => return ctx.fail("construction-refused", format!("{} from {:?}: {}", kind.name, d.0, p)),
                };
                let g = live.view();
                ctx.check(g == d.0, "restart-wrong", || format!("{} restored {:?} as {:?}", kind.name, d.0, g))?;
                nodes[node] = Node { live, model: d.0.clone(), seen: d.1.clone(), deferred: d.2.clone(), unsaved: vec![], disk: d };
            }
        }
    }
    // refused updates are tried again until none of them goes through any more
    for i in 0..n {
        let nd = &mut nodes[i];
        ctx.check(nd.seen.len() == ups.len(), "update-lost", || format!("replica {} has {} of {}", i, nd.seen.len(), ups.len()))?;
        loop {
            let d = std::mem::take(&mut nd.deferred);
            let before = d.len();
            for j in d {
                if !apply(ctx, nd, j, i, ups[j].0.arg(5))? {
                    nd.deferred.push(j);
                }
            }
            if nd.deferred.len() == before {
                break;
            }
        }
    }
    let secret_checked = |j: &usize| matches!(kind.class, Class::Int { .. }) && nodes.iter().any(|n| n.deferred.contains(j));
    let _ = secret_checked;
    for i in 1..n {
        if nodes[i].deferred.is_empty() && nodes[0].deferred.is_empty() {
            let (a, b) = (nodes[0].live.view(), nodes[i].live.view());
            ctx.count("replica_pairs_compared");
            if orders[0] != orders[i] {
                ctx.nontrivial += 1;
            }
            ctx.check(a == b, "replicas-differ", || {
                format!("{}: {:?} after {:?} but {:?} after {:?}", kind.name, a, orders[0], b, orders[i])
            })?;
        } else {
            ctx.probe("total_left_range");
        }
    }
    for o in &orders {
        ctx.state(o.iter().fold(mix64(cfg.arg(1) << 8 | g), |h, j| mix64(h ^ *j as u64)));
    }
    Ok(())
}
fn num_bytes(r: &mut SimRng, bits: u32) -> Vec<u8> {
    let n = (bits as usize + 7) / 8;
    match r.below(8) {
        0 => vec![r.below(4) as u8],
        1 => {
            // around a power of two
            let k = r.below(bits as u64) as usize;
            let x = (BigInt::one() << k) + big(r.below(3) as i128 - 1);
            le(&x.abs())
        }
        2 => {
            let mut v = vec![0xffu8; n];
            v[0] = v[0].wrapping_sub(r.below(3) as u8);
            v
        }
        3 => {
            let half = 1 + r.usz(n);
            r.bytes(half)
        }
        _ => r.special_bytes(n),
    }
}
fn gen(r: &mut SimRng, thorough: bool) -> Vec<Step> {
    if r.chance(1, 8) {
        let n = 2 + r.below(6);
        let t = 1 + r.below(n);
        let d: Vec<Vec<u8>> = (0..17).map(|_| num_bytes(r, 384)).collect();
        let mut v = vec![Step::with("!cfg", &[7, r.below(12), 0, n - 2, t - 1, r.next() >> 16, r.below(500), r.below(500)], d)];
        for _ in 0..r.below(4) {
            v.push(Step::new("ask", &[r.below(3500), r.below(3), r.next(), r.below(8), r.next() >> 16]));
        }
        let ids: Vec<u64> = (0..2 * n).collect();
        gen_faults(r, &mut v, &ids, n as usize + 2, 2500, false, true);
        return v;
    }
    let all = kinds();
    let mut ki = r.usz(all.len());
    if all[ki].lanes > 100 && !r.chance(1, 6) {
        ki = r.usz(50);
    }
    let k = &all[ki];
    let n = *r.pick(&[1u64, 2, 2, 2, 3, 3, 4, 5]);
    let gi = r.below(k.groups.len() as u64);
    let g = k.groups[gi as usize];
    let vecs = k.class == Class::Vecs;
    let bytes = |r: &mut SimRng| {
        if vecs {
            match r.below(3) {
                0 => r.special_bytes(64),
                _ => r.bytes(64),
            }
        } else {
            num_bytes(r, k.bits)
        }
    };
    let small = matches!(k.class, Class::Bounded { .. }) && r.chance(1, 2);
    let d0 = bytes(r);
    let d1 = num_bytes(r, (k.bits / 2).max(8));
    let mut v = vec![Step::with("!cfg", &[0, ki as u64, gi, n - 1, r.below(12), r.below(4), r.next() >> 8], vec![d0, d1])];
    let m = 1 + r.below(if thorough { 14 } else { 8 });
    let mut ids = vec![];
    for j in 0..m {
        let mut b = bytes(r);
        if small || (g == DIV && r.chance(2, 3)) || (g == MUL && matches!(k.class, Class::Bounded { .. })) {
            let keep = 1 + r.usz(2);
            b.truncate(keep);
        }
        let kk = match r.below(4) {
            0 => r.below(4),
            1 => k.bits as u64 - 1 - r.below(2).min(k.bits as u64 - 1),
            2 => k.bits as u64 + r.below(3),
            _ => r.below(k.bits as u64),
        };
        v.push(Step::with("up", &[r.below(n), r.below(900), r.below(8), kk, r.below(2), r.next() >> 8], vec![b]));
        for to in 0..n {
            ids.push(j * 8 + to);
        }
    }
    gen_faults(r, &mut v, &ids, n as usize, 2000, false, true);
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C13",
        quick_runs: 70_000,
        thorough_runs: 2_000_000,
        step_budget: 1_000_000_000,
        again: 500,
        rule: "seeded replicas (1 to 5) of one of 71 number types applying a seeded set of commuting updates in the order a faulty network delivers them, with checkpoints, crashes and restarts, or a threshold secret sharing among 2 to 7 parties; non-trivial: two replicas applied different orders, or a reconstruction with parties down; distinct by order of application per type and update group",
        real: &["secret-integers", "abstract-integers (bounded and modular)", "hacspec::machine_integers, math_integers, math_util, vec_integers", "hacspec::traits (Integer, ModNumeric, NumericBase)"],
        stubs: &["network, clock, disk, retransmission and de-duplication: simulated", "expected values: exact big integers"],
        assumptions: &["overflow checks are on, as in the repository's tests", "negating the most negative signed secret integer is left out"],
        gen,
        exec,
    }
}

//! C08: histories of operations, many of them impossible, over live values of every kind. After each
//! one every live value must be what an exact model says, and what cannot be done must be refused.
use crate::c06::{self, Cont, Elem};
use crate::c14;
use crate::nums::*;
use crate::ops;
use crate::util::*;
use hacspec::prelude::*;
use num::{BigInt, BigUint, One, Signed, ToPrimitive, Zero};
use simkit::rng::Rng as SimRng;
use simkit::runner::in_child;
use simkit::{guard, Ctx, Prop, Res, Step};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::ops::{Shl, Shr};
use std::time::Duration;

/// Values of one type the caller holds, with their models.
trait Group {
    fn act(&mut self, s: &Step, ctx: &mut Ctx) -> Res<()>;
    fn verify(&self, ctx: &mut Ctx) -> Res<()>;
}
/// What an operation may do.
enum Want<M> {
    Is(M),
    Refuse,
    /// the exact result, or a refusal
    IsOr(M),
}
use Want::*;
fn want<M>(o: Option<M>) -> Want<M> {
    o.map_or(Refuse, Is)
}
/// Compares an outcome with what it must be; the value, if there is one.
fn judge<T, M: PartialEq + Debug>(ctx: &mut Ctx, kind: &str, got: Result<T, String>, want: Want<M>, val: impl Fn(&T) -> M, say: impl Fn() -> String) -> Res<Option<T>> {
    ctx.count("operations");
    match (got, want) {
        (Ok(t), Is(m)) | (Ok(t), IsOr(m)) => {
            let g = val(&t);
            ctx.check(g == m, "wrong", || format!("{} gave {:?}, must be {:?}", say(), g, m))?;
            Ok(Some(t))
        }
        (Ok(t), Refuse) => {
            let g = val(&t);
            ctx.check(false, "impossible-accepted", || format!("{} gave {:?} instead of failing", say(), g))?;
            Ok(Some(t))
        }
        (Err(_), Refuse) => {
            ctx.fault(&format!("refused.{}", kind));
            ctx.nontrivial += 1;
            ctx.checks += 1;
            Ok(None)
        }
        (Err(_), IsOr(_)) => {
            ctx.count("out_of_the_types_capacity");
            Ok(None)
        }
        (Err(p), Is(m)) => {
            ctx.check(false, "refused", || format!("{} is {:?} but: {}", say(), m, p))?;
            Ok(None)
        }
    }
}
const SLOTS: usize = 5;

struct IntGroup<T: Mach> {
    v: Vec<T>,
    m: Vec<BigInt>,
}
impl<T: Mach> IntGroup<T> {
    fn new() -> Self {
        IntGroup { v: vec![T::ZERO; SLOTS], m: vec![BigInt::zero(); SLOTS] }
    }
}
impl<T: Mach + Shl<u32, Output = T> + Shr<u32, Output = T>> Group for IntGroup<T> {
    fn act(&mut self, s: &Step, ctx: &mut Ctx) -> Res<()> {
        let b = T::NUM_BITS;
        let (i, j, l, k) = (s.usz(2) % SLOTS, s.usz(3) % SLOTS, s.usz(6) % SLOTS, s.usz(4) % SLOTS);
        let (how, x) = (s.arg(5), s.arg(6));
        let (a, c, n) = (self.v[i], self.v[j], self.v[l]);
        let (ma, mc, mn) = (self.m[i].clone(), self.m[j].clone(), self.m[l].clone());
        let fit = |y: BigInt| if fits(&y, b, T::SIGNED) { Is(y) } else { Refuse };
        let w = |y: BigInt| wrap(&y, b, T::SIGNED);
        let exact = |op: u64| match op % 3 {
            0 => &ma + &mc,
            1 => &ma - &mc,
            _ => &ma * &mc,
        };
        let lowest = T::SIGNED && ma == -pow2(b - 1);
        let op = s.arg(1) % 17;
        // the machine carries n * n, or 2 * n
        let (kind, got, must): (&str, Result<T, String>, Want<BigInt>) = match op {
            0 => {
                let y = of_le(&s.fixed(0, b as usize / 8), T::SIGNED, b);
                ("load", guard(|| T::of(&y, how)), Is(y.clone()))
            }
            1 => ("plain", guard(|| a.plain(c, how)), Is(w(exact(how)))),
            2 if T::SECRET => ("checked", guard(|| a.checked(c, how).unwrap()), fit(exact(how))),
            2 | 3 => ("div", guard(|| a.div(c)), if mc.is_zero() { Refuse } else { fit(&ma / &mc) }),
            4 => {
                let y = if mc.is_zero() { Refuse } else { Is(emod(&ma, &mc.abs())) };
                let y = match y {
                    Is(y) if lowest && mc == big(-1) => IsOr(y),
                    y => y,
                };
                ("modulo", guard(|| a.modulo(c)), y)
            }
            5 => {
                let y = if mn < BigInt::one() {
                    Refuse
                } else if ma.is_zero() || mn.is_one() {
                    Is(BigInt::zero())
                } else {
                    let inv = simkit::refm::modinv(&emod(&ma, &mn).to_biguint().unwrap(), &mn.to_biguint().unwrap());
                    match inv {
                        None => Refuse,
                        Some(v) if emod(&ma, &mn).is_zero() || v.is_zero() => Refuse,
                        Some(v) => Is(v.into()),
                    }
                };
                ("inv", guard(|| a.inv(n)), y)
            }
            6 | 7 | 8 => {
                let y = exact(match op {
                    6 => 0,
                    7 => 2,
                    _ => 1,
                });
                let m = if mn.is_zero() {
                    Refuse
                } else {
                    let z = emod(&y, &mn.abs());
                    if b == 128 && mn == big(-1) {
                        IsOr(z)
                    } else {
                        Is(z)
                    }
                };
                let f = || match op {
                    6 => a.add_mod(c, n),
                    7 => a.mul_mod(c, n),
                    _ => a.sub_mod(c, n),
                };
                ("modular", guard(f), m)
            }
            9 => {
                let r = (x % (2 * b as u64 + 3)) as u32;
                let u = emod(&ma, &pow2(b));
                let q = r % b;
                let left = how & 4 == 0;
                let z = if left { (&u << q as usize) + (&u >> ((b - q) % b) as usize) * if q == 0 { 0 } else { 1 } } else { (&u >> q as usize) + (&u << ((b - q) % b) as usize) * if q == 0 { 0 } else { 1 } };
                ("rotate", guard(|| a.rot(r, left, 0)), if r < b { Is(w(z)) } else { Refuse })
            }
            10 => {
                let r = (x % b as u64) as u32;
                let bit = wrap(&of_le(&s.fixed(0, b as usize / 8), T::SIGNED, b), b, T::SIGNED);
                let bit = if how & 8 == 0 { big((how & 3) as i128) } else { bit };
                let u = emod(&ma, &pow2(b));
                let has = emod(&(&u >> r as usize), &big(2));
                let z = if bit.is_one() || bit.is_zero() { Is(w(u + (&bit - has) * pow2(r))) } else { Refuse };
                let bt = T::of(&bit, 0);
                ("set-bit", guard(|| a.set_bit(bt, r)), z)
            }
            11 => {
                let r = (x % (2 * b as u64)) as u32;
                let z = emod(&(emod(&ma, &pow2(b)) >> r as usize), &big(2));
                ("get-bit", guard(|| a.get_bit(r)), if r < b { Is(z) } else { Refuse })
            }
            12 => {
                let r = (x % (2 * b as u64)) as u32;
                let z = if how & 1 == 0 { &ma * pow2(r) } else { num::Integer::div_floor(&ma, &pow2(r)) };
                let f = || if how & 1 == 0 { a << r } else { a >> r };
                ("shift", guard(f), if r < b { Is(w(z)) } else { Refuse })
            }
            13 => {
                let e = (x % 9) as u32;
                let y = num::pow(ma.clone(), e as usize);
                ("pow", guard(|| a.pow(e)), if T::SECRET { Is(w(y)) } else { fit(y) })
            }
            14 => {
                // not provided: right or refused
                let f = || match how % 4 {
                    0 => a.abs(),
                    1 => a.pow_self(c),
                    2 => a.wrap_div(c),
                    _ => a.pow_mod(c, n),
                };
                let y = match how % 4 {
                    0 => fit(ma.abs()),
                    1 => Refuse,
                    2 if mc.is_zero() => Refuse,
                    2 => Is(w(&ma / &mc)),
                    _ => Refuse,
                };
                let g = guard(f);
                if g.is_err() || matches!(how % 4, 1 | 3) {
                    ctx.count("not_provided");
                    return Ok(());
                }
                ("provided", g, y)
            }
            15 => {
                // a copy lives its own life
                let mut cp = a;
                let old = self.v[i];
                cp = cp.plain(c, 6 + how % 3);
                self.v[i] = old;
                ("copy", Ok(cp), Is(w(exact(how))))
            }
            _ => {
                let r = guard(|| (a.equal(c), a.less_than(c), a.less_than_or_equal(c), a.greater_than(c), a.greater_than_or_qual(c)));
                let y = (ma == mc, ma < mc, ma <= mc, ma > mc, ma >= mc);
                judge(ctx, "compare", r, Is(y), |t| *t, || format!("{} comparisons of {} and {}", T::NAME, ma, mc))?;
                return Ok(());
            }
        };
        let say = || format!("{} {} {}, {}, {} (x {}, how {})", T::NAME, kind, ma, mc, mn, x, how);
        if let Some(r) = judge(ctx, kind, got, must, |t| t.val(), say)? {
            self.v[k] = r;
            self.m[k] = r.val();
        }
        Ok(())
    }
    fn verify(&self, ctx: &mut Ctx) -> Res<()> {
        for (i, (v, m)) in self.v.iter().zip(&self.m).enumerate() {
            let g = v.val();
            ctx.check(g == *m, "value-changed", || format!("{} value {} is {} but was {}", T::NAME, i, g, m))?;
        }
        Ok(())
    }
}

/// A string of hex digits with a defect, and what it stands for.
fn hexy(s: &Step, b: &[u8]) -> (String, Option<Vec<u8>>) {
    let mut t: String = b.iter().map(|x| format!("{:02x}", x)).collect();
    match s.arg(7) % 8 {
        0 => {
            t.pop();
        }
        1 => {
            let bad = ["g", "G", "+", "-", " ", "x", "\0", "/", ":", "@", "`", "_", "é", "٣", "\n"];
            let c = bad[(s.arg(7) >> 8) as usize % bad.len()];
            let mut p = (s.arg(7) >> 16) as usize % (t.len() + 1);
            if (s.arg(7) >> 40) & 1 == 1 {
                p &= !1;
            }
            let e = (p + c.len()).min(t.len());
            t.replace_range(p..e, c);
        }
        2 => {
            // a prefix people write
            let pre = ["0x", "+0", "-1", " 0"][(s.arg(7) >> 8) as usize % 4];
            t = format!("{}{}", pre, t);
        }
        3 => t = t.to_uppercase(),
        _ => {}
    }
    let ok = t.len() % 2 == 0 && t.bytes().all(|c| c.is_ascii_hexdigit());
    let v = if ok { Some((0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect()) } else { None };
    (t, v)
}
fn of_be(b: &[u8]) -> BigInt {
    BigInt::from_bytes_be(num::bigint::Sign::Plus, b)
}

struct ModGroup<T: Modu> {
    v: Vec<T>,
    m: Vec<BigInt>,
}
impl<T: Modu> ModGroup<T> {
    fn new() -> Self {
        ModGroup { v: vec![T::of(&BigInt::zero(), 0); SLOTS], m: vec![BigInt::zero(); SLOTS] }
    }
}
fn literal(s: &Step) -> u128 {
    u128::from_le_bytes(s.fixed(0, 16).try_into().unwrap()) >> (s.arg(6) % 128)
}
fn inverse_of(a: &BigInt, n: &BigInt) -> Want<BigInt> {
    let a = emod(a, n);
    if a.is_zero() || n.is_one() {
        return Is(BigInt::zero());
    }
    match simkit::refm::modinv(&a.to_biguint().unwrap(), &n.to_biguint().unwrap()) {
        Some(v) => Is(v.into()),
        None => Refuse,
    }
}
impl<T: Modu> Group for ModGroup<T> {
    fn act(&mut self, s: &Step, ctx: &mut Ctx) -> Res<()> {
        let n = T::modulus();
        let (i, j, k) = (s.usz(2) % SLOTS, s.usz(3) % SLOTS, s.usz(4) % SLOTS);
        let (how, x) = (s.arg(5), s.arg(6));
        let (a, c) = (self.v[i], self.v[j]);
        let (ma, mc) = (self.m[i].clone(), self.m[j].clone());
        let max = pow2(T::BITS) - 1;
        let bytes = (T::BITS as usize + 7) / 8;
        let red = |y: BigInt| emod(&y, &n);
        let mut op = s.arg(1) % 13;
        if !T::PUBLIC && matches!(op, 4 | 5 | 6 | 11 | 12) {
            op = 7 + op % 4;
        }
        let (kind, got, must): (&str, Result<T, String>, Want<BigInt>) = match op {
            0 => {
                let y = emod(&of_le(s.data(0), false, 8 * s.data(0).len() as u32 + 8), &pow2(T::BITS));
                ("load", guard(|| T::of(&y, how)), Is(red(y.clone())))
            }
            1 => ("add", guard(|| a + c), Is(red(&ma + &mc))),
            2 => ("sub", guard(|| a - c), Is(red(&ma - &mc))),
            3 => ("mul", guard(|| a * c), Is(red(&ma * &mc))),
            4 => ("div", guard(|| a.quot(c)), if mc.is_zero() { Refuse } else { Is(&ma / &mc) }),
            5 => ("rem", guard(|| a.rest(c)), if mc.is_zero() { Refuse } else { Is(&ma % &mc) }),
            6 => ("inverse", guard(|| a.inverse()), inverse_of(&ma, &n)),
            7 => {
                let y = if how % 3 == 0 { low128(&(&n + (x % 5) as i64 - 2i64).min(pow2(128) - 1)) } else { literal(s) };
                ("literal", guard(|| T::literal(y)), if BigInt::from(y) > n { Refuse } else { Is(red(y.into())) })
            }
            8 => {
                let y = if how % 3 == 0 {
                    let e = BigInt::from((x % 5) as i64 - 2);
                    let t = (if how % 2 == 0 { &n + e } else { e - &n }).min(pow2(127) - 1).max(-pow2(127));
                    t.to_i128().unwrap()
                } else {
                    literal(s) as i128
                };
                ("literal", guard(|| T::signed_literal(y)), if BigInt::from(y).abs() > n { Refuse } else { Is(red(y.into())) })
            }
            9 => {
                let (t, v) = hexy(s, &s.data(0)[..s.data(0).len().min(bytes + 1)]);
                let y = v.map(|v| of_be(&v)).filter(|v| *v <= max);
                let g = guard(|| T::of_hex(&t, how));
                let say = || format!("{} of hex {:?}", T::NAME, t);
                if let Some(r) = judge(ctx, "hex", g, want(y.map(red)), |t| t.base(), say)? {
                    self.v[k] = r;
                    self.m[k] = r.base();
                }
                return Ok(());
            }
            10 if how % 2 == 0 => {
                let d = &s.data(0)[..s.data(0).len().min(bytes + (x % 3) as usize)];
                let y = of_le(d, false, 8 * d.len() as u32 + 8);
                ("bytes", guard(|| T::of_bytes(d, how / 2)), if y <= max { Is(red(y)) } else { Refuse })
            }
            10 => {
                let q = (x % (16 * bytes as u64 + 9)) as usize;
                let must = if q < 8 * bytes { Is(emod(&(&ma >> q), &big(2)).is_one()) } else { Refuse };
                judge(ctx, "bit", guard(|| a.bitat(q)), must, |b| *b, || format!("{} bit {} of {}", T::NAME, q, ma))?;
                return Ok(());
            }
            11 => {
                let e = (x % 300) as u128;
                ("pow", guard(|| a.power(e)), if BigInt::from(e) <= max { Is(ma.modpow(&emod(&BigInt::from(e), &pow2(T::BITS)), &n)) } else { Refuse })
            }
            _ => {
                let e = mc.clone();
                if T::BITS > 300 {
                    return Ok(());
                }
                ("pow", guard(|| a.power_felem(c)), Is(ma.modpow(&e, &n)))
            }
        };
        // an exponent beyond the modulus is read modulo it by some types
        let must = match must {
            Is(y) if kind == "pow" && op == 11 && BigInt::from(x % 300) >= n => IsOr(y),
            m => m,
        };
        let say = || format!("{} {} {}, {} (x {}, how {}, data {:02x?})", T::NAME, kind, ma, mc, x, how, s.data(0));
        if let Some(r) = judge(ctx, kind, got, must, |t| t.base(), say)? {
            self.v[k] = r;
            self.m[k] = r.base();
        }
        Ok(())
    }
    fn verify(&self, ctx: &mut Ctx) -> Res<()> {
        for (i, (v, m)) in self.v.iter().zip(&self.m).enumerate() {
            let g = v.base();
            ctx.check(g == *m, "value-changed", || format!("{} value {} is {} but was {}", T::NAME, i, g, m))?;
        }
        Ok(())
    }
}

struct BndGroup<T: Bnd> {
    v: Vec<T>,
    m: Vec<BigInt>,
}
impl<T: Bnd> BndGroup<T> {
    fn new() -> Self {
        BndGroup { v: vec![T::default(); SLOTS], m: vec![BigInt::zero(); SLOTS] }
    }
}
impl<T: Bnd> Group for BndGroup<T> {
    fn act(&mut self, s: &Step, ctx: &mut Ctx) -> Res<()> {
        let (i, j, l, k) = (s.usz(2) % SLOTS, s.usz(3) % SLOTS, s.usz(6) % SLOTS, s.usz(4) % SLOTS);
        let (how, x) = (s.arg(5), s.arg(6));
        let (a, c, n) = (self.v[i], self.v[j], self.v[l]);
        let (ma, mc, mn) = (self.m[i].clone(), self.m[j].clone(), self.m[l].clone());
        let max = bmax(T::BITS);
        let bytes = (T::BITS as usize + 7) / 8;
        let low = if T::SIGNED { -&max } else { BigInt::zero() };
        let fit = |y: BigInt| if y >= low && y <= max { Is(y) } else { Refuse };
        let mut op = s.arg(1) % 16;
        if !T::PUBLIC && op >= 11 {
            op -= 8;
        }
        let (kind, got, must): (&str, Result<T, String>, Want<BigInt>) = match op {
            0 | 15 => {
                let y: BigInt = of_le(s.data(0), false, 8 * s.data(0).len() as u32 + 8) % (&max + 1i64);
                let y = if T::SIGNED && how & 64 != 0 { -y } else { y };
                ("load", guard(|| T::of(&y, how)), Is(y.clone()))
            }
            1 => ("add", guard(|| if how % 2 == 0 { a + c } else { a.wrapped(c, 0) }), fit(&ma + &mc)),
            2 => ("sub", guard(|| if how % 2 == 0 { a - c } else { a.wrapped(c, 1) }), fit(&ma - &mc)),
            3 => ("mul", guard(|| if how % 2 == 0 { a * c } else { a.wrapped(c, 2) }), fit(&ma * &mc)),
            4 => {
                // from an integer just beyond the range, or any
                let y = match how % 4 {
                    0 => &max + (x % 5) as i64 - 2i64,
                    1 => &low - (x % 5) as i64 + 2i64,
                    2 => &max * 300 + (x % 5) as i64,
                    _ => -(&max * (x % 9) as i64) / 3i64,
                };
                ("convert", guard(|| T::of(&y, 0)), fit(y.clone()))
            }
            5 => {
                let p = (x % (2 * T::BITS as u64 + 9)) as usize;
                ("pow2", guard(|| T::p2(p)), fit(BigInt::one() << p))
            }
            6 => {
                let y = if how % 3 == 0 { low128(&(&max + (x % 5) as i64 - 2i64).min(pow2(128) - 1)) } else { literal(s) };
                ("literal", guard(|| T::literal(y)), fit(y.into()))
            }
            7 => {
                let y = match how % 4 {
                    0 => (&max + (x % 5) as i64 - 2i64).min(pow2(127) - 1).to_i128().unwrap(),
                    1 => (-&max - (x % 5) as i64 + 2i64).max(-pow2(127)).to_i128().unwrap(),
                    2 => -((literal(s) >> 1) as i128),
                    _ => literal(s) as i128,
                };
                ("literal", guard(|| T::signed_literal(y)), fit(y.into()))
            }
            8 => {
                let sg = ["+", "-", "", "--", "+ ", "0"][(how >> 3) as usize % 6];
                let (t, v) = hexy(s, &s.data(0)[..s.data(0).len().min(bytes + 1)]);
                let y = v.map(|v| of_be(&v)).map(|v| if T::SIGNED && sg == "-" { -v } else { v });
                let must = match y {
                    Some(y) if !T::SIGNED || sg.len() < 2 && sg != "0" => fit(y),
                    _ => Refuse,
                };
                let g = guard(|| T::of_hex(sg, &t));
                if let Some(r) = judge(ctx, "hex", g, must, |t| t.val(), || format!("{} of hex {:?} {:?}", T::NAME, sg, t))? {
                    self.v[k] = r;
                    self.m[k] = r.val();
                }
                return Ok(());
            }
            9 if !T::SIGNED => {
                let d = &s.data(0)[..s.data(0).len().min(bytes + (x % 3) as usize)];
                let y = of_le(d, false, 8 * d.len() as u32 + 8);
                ("bytes", guard(|| T::of_bytes(d)), fit(y))
            }
            9 | 10 => {
                let q = (x % (16 * bytes as u64 + 9)) as usize;
                if ma.is_negative() && q < 8 * bytes {
                    return Ok(());
                }
                let must = if q < 8 * bytes { Is(emod(&(&ma >> q), &big(2)).is_one()) } else { Refuse };
                judge(ctx, "bit", guard(|| a.bitat(q)), must, |b| *b, || format!("{} bit {} of {}", T::NAME, q, ma))?;
                return Ok(());
            }
            11 => ("div", guard(|| a.quot(c)), if mc.is_zero() { Refuse } else { Is(&ma / &mc) }),
            12 => ("rem", guard(|| a.rest(c)), if mc.is_zero() { Refuse } else { Is(&ma % &mc) }),
            13 => ("inverse", guard(|| a.inverse(n)), if mn <= BigInt::zero() { Refuse } else { inverse_of(&ma, &mn) }),
            _ => {
                if mn.is_negative() {
                    return Ok(());
                }
                if how % 2 == 0 {
                    let e = x as u128 % 5000;
                    let must = if mn.is_zero() || BigInt::from(e) > max { Refuse } else { Is(emod(&ma.modpow(&BigInt::from(e), &mn), &mn)) };
                    ("pow", guard(|| a.power(e, n)), must)
                } else {
                    let must = if mn.is_zero() || mc.is_negative() { Refuse } else { Is(emod(&ma.modpow(&mc, &mn), &mn)) };
                    ("pow", guard(|| a.power_felem(c, n)), must)
                }
            }
        };
        let say = || format!("{} {} {}, {}, {} (x {}, how {}, data {:02x?})", T::NAME, kind, ma, mc, mn, x, how, s.data(0));
        if let Some(r) = judge(ctx, kind, got, must, |t| t.val(), say)? {
            self.v[k] = r;
            self.m[k] = r.val();
        }
        Ok(())
    }
    fn verify(&self, ctx: &mut Ctx) -> Res<()> {
        for (i, (v, m)) in self.v.iter().zip(&self.m).enumerate() {
            let g = v.val();
            ctx.check(g == *m, "value-changed", || format!("{} value {} is {} but was {}", T::NAME, i, g, m))?;
        }
        Ok(())
    }
}

struct ConGroup<E: Elem, C: Cont<E>> {
    v: Vec<C>,
    m: Vec<Vec<u64>>,
    e: std::marker::PhantomData<E>,
}
impl<E: Elem, C: Cont<E>> ConGroup<E, C> {
    fn new() -> Self {
        let v: Vec<C> = (0..SLOTS).map(|i| C::make(i * 9)).collect();
        let m = v.iter().map(|c| c06::show(c)).collect();
        ConGroup { v, m, e: std::marker::PhantomData }
    }
}
/// Positions and lengths around the edges of n.
fn near(x: u64, n: usize) -> usize {
    match x % 16 {
        0 => n,
        1 => n + 1,
        2 => n.wrapping_sub(1) & 0xffff,
        3 => usize::MAX,
        4 => usize::MAX - (x >> 8) as usize % 40,
        5 => (1 << 31) + (x >> 8) as usize % 3,
        6 => (1 << 32) - 1 - (x >> 8) as usize % 40,
        7 => (1 << 63) + (x >> 8) as usize % 3,
        8 => n + (x >> 8) as usize % 300,
        9 => (1 << 32) + (x >> 8) as usize % 3,
        10 | 11 => 0,
        _ => (x >> 8) as usize % (n + 1),
    }
}
impl<E: Elem, C: Cont<E>> Group for ConGroup<E, C> {
    fn act(&mut self, s: &Step, ctx: &mut Ctx) -> Res<()> {
        let (i, j, k) = (s.usz(2) % SLOTS, s.usz(3) % SLOTS, s.usz(4) % SLOTS);
        let (how, x, y) = (s.arg(5), s.arg(6), s.arg(7));
        let n = self.m[i].len();
        let m = self.m[i].clone();
        let op = s.arg(1) % 14;
        let name = ["at", "set", "put-chunk", "update-sub", "update", "chunk", "sub", "load", "load-sub", "clone", "num-chunks", "make", "own-update", "chunk-len"][op as usize];
        let lens = [n, n.saturating_sub(1), n + 1, 0, (x >> 20) as usize % 40];
        let len = lens[(x >> 16) as usize % lens.len()];
        let el: Vec<E> = c06::elems(s.data(0), len);
        let ev = c06::vals(&el);
        let all = |c: &C| c06::show(c);
        let (p, q) = (near(x, n), near(y, n));
        let say = || format!("{} of {} elements: {} at {} / {} with {} elements (how {})", std::any::type_name::<C>(), n, name, p, q, len, how);
        // the position an index of each type stands for
        let pos = match how % 4 {
            0 => Some(p),
            1 if p < 256 => Some(p),
            2 => Some(p as u32 as usize),
            _ => usize::try_from(p as i32).ok(),
        }
        .filter(|p| *p < n);
        let (got, must): (Result<C, String>, Want<Vec<u64>>) = match op {
            0 => {
                let c = &self.v[i];
                judge(ctx, name, guard(|| c.at(how, p)), want(pos.map(|p| m[p])), |e| e.val(), say)?;
                return Ok(());
            }
            1 => {
                // in place: the value itself must survive a refusal
                let e = E::of(simkit::rng::mix64(y));
                let c = &mut self.v[i];
                let g = guard(|| c.set(how, p, e));
                let ok = judge(ctx, name, g, want(pos.map(|_| ())), |_| (), say)?.is_some();
                if let (true, Some(p)) = (ok, pos) {
                    self.m[i][p] = e.val();
                }
                return Ok(());
            }
            2 => {
                let (ck, ci) = (1 + (y >> 8) as usize % 40, if how & 64 == 0 { (y >> 16) as usize % 6 } else { p });
                let el: Vec<E> = if how & 128 == 0 { c06::elems(s.data(0), n.saturating_sub(ck.saturating_mul(ci)).min(ck)) } else { el };
                let c = self.v[i].clone();
                let w = want(c06::model_put(&m, ck, ci, &c06::vals(&el)));
                let src = Seq::from_vec(el);
                (guard(|| c.put_chunk(ck, ci, &src)), w)
            }
            3 => {
                let (si, l) = (near(y >> 4, len), near(y >> 12, len.min(n)));
                let ok = p.checked_add(l).map_or(false, |e| e <= n) && si.checked_add(l).map_or(false, |e| e <= len);
                let mut w = m.clone();
                if ok {
                    w[p..p + l].copy_from_slice(&ev[si..si + l]);
                }
                let c = self.v[i].clone();
                let src = Seq::from_vec(el.clone());
                (guard(|| c.update_sub(p, &src, si, l)), if ok { Is(w) } else { Refuse })
            }
            4 => {
                let p = if how & 64 == 0 { 0 } else { p };
                let ok = p.checked_add(len).map_or(false, |e| e <= n);
                let mut w = m.clone();
                if ok {
                    w[p..p + len].copy_from_slice(&ev);
                }
                let c = self.v[i].clone();
                let src = Seq::from_vec(el.clone());
                (guard(|| if p == 0 && how & 1 == 0 { c.update_start(&src) } else { c.update(p, &src) }), if ok { Is(w) } else { Refuse })
            }
            5 | 13 => {
                let (ck, ci) = ((y >> 8) as usize % 40, if how & 64 == 0 { (y >> 16) as usize % 6 } else { p });
                let r = ck.checked_mul(ci).filter(|s| *s <= n).filter(|s| s.checked_add(ck).is_some()).map(|s| (ck.min(n - s), m[s..s + ck.min(n - s)].to_vec()));
                let c = &self.v[i];
                let say = || format!("{}; chunk {} of size {}", say(), ci, ck);
                if op == 13 {
                    if C::LEN.is_some() {
                        judge(ctx, name, guard(|| c.chunk_len(ck, ci).unwrap()), want(r.map(|r| r.0)), |l| *l, say)?;
                    }
                } else {
                    judge(ctx, name, guard(|| c.chunk(ck, ci)), want(r), |g| (g.0, c06::vals(&g.1)), say)?;
                }
                return Ok(());
            }
            6 => {
                let e = p.checked_add(q);
                let r = e.filter(|e| *e <= n).map(|e| m[p..e].to_vec());
                let c = &self.v[i];
                let backwards = how & 3 == 3;
                let g = guard(|| match how & 3 {
                    0 => c.cut(p, q),
                    3 => c.cutr(p..p.wrapping_sub(1 + q % 7)),
                    _ => c.cutr(p..p.saturating_add(q)),
                });
                let r = if backwards { None } else { r };
                judge(ctx, name, g, want(r), |g| c06::vals(g), say)?;
                return Ok(());
            }
            7 => {
                let exact = C::LEN.map_or(true, |l| l == len);
                let short = C::LEN.map_or(true, |l| len <= l);
                let mut padded = ev.clone();
                if let Some(l) = C::LEN {
                    padded.resize(l.max(len), E::default().val());
                }
                let o = el.clone();
                match how % 3 {
                    0 => (guard(|| C::load_vec(o)), if exact { Is(ev.clone()) } else { Refuse }),
                    1 => (guard(|| C::load_slice(&o)), if short { Is(padded) } else { Refuse }),
                    _ => {
                        let o = Seq::from_vec(o);
                        (guard(|| C::load_seq(&o)), if exact { Is(ev.clone()) } else { Refuse })
                    }
                }
            }
            8 => {
                // a part of another live value
                let src = &self.v[j];
                let ms = &self.m[j];
                let l = C::LEN.filter(|_| how & 64 == 0).unwrap_or(q);
                let l = if l > 1 << 20 && ms.len() < l { (1 << 20) + 1 } else { l };
                let p = near(x, ms.len());
                let ok = p.checked_add(l).map_or(false, |e| e <= ms.len()) && C::LEN.map_or(true, |n| n == l);
                let w = if ok { Is(ms[p..p + l].to_vec()) } else { Refuse };
                if how % 2 == 0 {
                    (guard(|| C::load_sub(src, p, l)), w)
                } else {
                    (guard(|| C::load_subr(src, p..p.saturating_add(l))), if p.checked_add(l).is_some() { w } else { Refuse })
                }
            }
            9 => (Ok(self.v[i].clone()), Is(m.clone())),
            10 => {
                let ck = (y >> 8) as usize % 9;
                let c = &self.v[i];
                let w = if ck == 0 { Refuse } else { Is((n + ck - 1) / ck) };
                judge(ctx, name, guard(|| c.nchunks(ck)), w, |g| *g, || format!("{} by {}", say(), ck))?;
                return Ok(());
            }
            11 => {
                let l = (x >> 8) as usize % 60;
                let z = vec![E::default().val(); C::LEN.unwrap_or(l)];
                (guard(|| C::make(l)), Is(z))
            }
            _ => {
                // one live value into another of the same type
                let c = self.v[i].clone();
                let src = &self.v[j];
                let ms = &self.m[j];
                let p = if C::LEN.is_some() && how & 3 != 0 { 0 } else { p };
                let ok = p.checked_add(ms.len()).map_or(false, |e| e <= n);
                let mut w = m.clone();
                if ok {
                    w[p..p + ms.len()].copy_from_slice(ms);
                }
                (guard(|| c.update(p, src)), if ok { Is(w) } else { Refuse })
            }
        };
        if let Some(r) = judge(ctx, name, got, must, all, say)? {
            self.m[k] = all(&r);
            self.v[k] = r;
        }
        Ok(())
    }
    fn verify(&self, ctx: &mut Ctx) -> Res<()> {
        for (i, (v, m)) in self.v.iter().zip(&self.m).enumerate() {
            let g = c06::show(v);
            ctx.check(g == *m && v.length() == m.len(), "value-changed", || format!("{} value {} is {:?} but was {:?}", std::any::type_name::<C>(), i, g, m))?;
        }
        Ok(())
    }
}

bytes!(HB, 12);
public_bytes!(HP, 12);
array!(HW, 4, U32);
bytes!(HLong, 20);

/// Byte sequences and their text and integer forms.
struct TextGroup {
    v: Vec<ByteSeq>,
    p: Vec<PublicSeq<u8>>,
    m: Vec<Vec<u8>>,
}
impl TextGroup {
    fn new() -> Self {
        TextGroup { v: vec![ByteSeq::new(0); SLOTS], p: vec![PublicSeq::new(0); SLOTS], m: vec![vec![]; SLOTS] }
    }
}
impl Group for TextGroup {
    fn act(&mut self, s: &Step, ctx: &mut Ctx) -> Res<()> {
        let (i, j, k) = (s.usz(2) % SLOTS, s.usz(3) % SLOTS, s.usz(4) % SLOTS);
        let (how, x) = (s.arg(5), s.arg(6));
        let d = s.data(0);
        let seq = |b: &[u8]| bs(b);
        let (kind, got, must): (&str, Result<Vec<u8>, String>, Want<Vec<u8>>) = match s.arg(1) % 6 {
            0 => {
                let (t, v) = hexy(s, d);
                let g = guard(|| match how % 4 {
                    0 => un(&ByteSeq::from_hex(&t)),
                    1 => un(&ByteSeq::from_string(t.clone())),
                    2 => PublicSeq::<u8>::from_hex(&t).iter().copied().collect(),
                    _ => PublicSeq::<u8>::from_string(t.clone()).iter().copied().collect(),
                });
                ("hex", g, want(v))
            }
            1 => {
                let l = [12usize, 12, 12, 11, 13, 0][(x >> 4) as usize % 6];
                let (t, v) = hexy(s, &s.fixed(0, l));
                let g = guard(|| match how % 2 {
                    0 => un(&HB::from_hex(&t)),
                    _ => HP::from_hex(&t).iter().copied().collect(),
                });
                ("hex-array", g, want(v.filter(|v| v.len() == 12)))
            }
            2 => {
                // an integer from its bytes
                let w = [1usize, 2, 4, 8, 16][(how >> 1) as usize % 5];
                let l = if x % 3 == 0 { near(x >> 8, w) % 40 } else { w };
                let b = s.fixed(0, l);
                let q = seq(&b);
                let pq = Seq::from_vec(b.clone());
                let be = how & 1 == 1;
                let secret = how & 32 == 0;
                macro_rules! f {
                    ($u:ident, $p:ident) => {
                        match (be, secret) {
                            (true, true) => <$u as UnsignedSecretInteger>::from_be_bytes(&q).declassify().to_be_bytes().to_vec(),
                            (false, true) => <$u as UnsignedSecretInteger>::from_le_bytes(&q).declassify().to_le_bytes().to_vec(),
                            (true, _) => <$p as UnsignedPublicInteger>::from_be_bytes(&pq).to_be_bytes().to_vec(),
                            _ => <$p as UnsignedPublicInteger>::from_le_bytes(&pq).to_le_bytes().to_vec(),
                        }
                    };
                }
                let g = guard(|| match w {
                    1 => f!(U8, u8),
                    2 => f!(U16, u16),
                    4 => f!(U32, u32),
                    8 => f!(U64, u64),
                    _ => f!(U128, u128),
                });
                ("int-of-bytes", g, if l == w { Is(b) } else { Refuse })
            }
            3 => {
                // integers from their bytes
                let w = [1usize, 2, 4, 8, 16][(how >> 1) as usize % 5];
                let b = s.fixed(0, (x % 70) as usize);
                let u: Vec<U8> = b.iter().map(|x| U8(*x)).collect();
                let be = how & 1 == 1;
                macro_rules! f {
                    ($u:ident) => {
                        if be {
                            $u::from_be_bytes(&u).iter().flat_map(|y| y.declassify().to_be_bytes().to_vec()).collect()
                        } else {
                            $u::from_le_bytes(&u).iter().flat_map(|y| y.declassify().to_le_bytes().to_vec()).collect()
                        }
                    };
                }
                let g: Result<Vec<u8>, String> = guard(|| match w {
                    1 => f!(U8),
                    2 => f!(U16),
                    4 => f!(U32),
                    8 => f!(U64),
                    _ => f!(U128),
                });
                ("ints-of-bytes", g, if b.len() % w == 0 { Is(b) } else { Refuse })
            }
            4 => {
                // words of an array whose length need not be a multiple
                let g: Result<Vec<u8>, String>;
                let must;
                let b12 = s.fixed(0, 12);
                let b20 = s.fixed(0, 20);
                let (h12, h20) = (HB::from_public_slice(&b12), HLong::from_public_slice(&b20));
                macro_rules! be {
                    ($e:expr) => {
                        $e.iter().flat_map(|y| y.declassify().to_be_bytes().to_vec()).collect()
                    };
                }
                match how % 4 {
                    0 => {
                        g = guard(|| be!(h12.to_be_U32s()));
                        must = Is(b12);
                    }
                    1 => {
                        g = guard(|| be!(h12.to_be_U64s()));
                        must = Refuse;
                    }
                    2 => {
                        g = guard(|| be!(h20.to_U128s_be()));
                        must = Refuse;
                    }
                    _ => {
                        g = guard(|| be!(h20.to_be_U32s()));
                        must = Is(b20);
                    }
                }
                ("words", g, must)
            }
            _ => {
                // element-wise sums of sequences, which must be of one length
                let (a, b) = (self.p[i].clone(), self.p[j].clone());
                let (ma, mb) = (self.m[i].clone(), self.m[j].clone());
                let must = if ma.len() == mb.len() { Is(ma.iter().zip(&mb).map(|(x, y)| if how & 1 == 0 { x.wrapping_add(*y) } else { x ^ y }).collect()) } else { Refuse };
                let over = how & 1 == 0 && ma.iter().zip(&mb).any(|(x, y)| x.checked_add(*y).is_none());
                let must = match must {
                    Is(v) if over => IsOr(v),
                    m => m,
                };
                ("lengths", guard(|| if how & 1 == 0 { a + b } else { a ^ b }.iter().copied().collect()), must)
            }
        };
        let say = || format!("bytes {} of {:02x?} (how {}, x {}, {:?})", kind, d, how, x, hexy(s, d).0);
        if let Some(r) = judge(ctx, kind, got, must, |v| v.clone(), say)? {
            self.v[k] = seq(&r);
            self.p[k] = PublicSeq::from_slice(&r);
            self.m[k] = r;
        }
        // and back to text
        let (a, b) = (&self.v[k], &self.p[k]);
        let t: String = self.m[k].iter().map(|x| format!("{:02x}", x)).collect();
        let same = |g: &String| g == &t;
        judge(ctx, "to-hex", guard(|| a.to_hex()), Is(true), same, || format!("hex of {:02x?}", self.m[k]))?;
        judge(ctx, "to-hex", guard(|| b.to_hex()), Is(true), same, || format!("public hex of {:02x?}", self.m[k]))?;
        Ok(())
    }
    fn verify(&self, ctx: &mut Ctx) -> Res<()> {
        for i in 0..SLOTS {
            let (a, b) = (un(&self.v[i]), self.p[i].iter().copied().collect::<Vec<u8>>());
            ctx.check(a == self.m[i] && b == self.m[i], "value-changed", || format!("byte sequence {} is {:02x?} and {:02x?} but was {:02x?}", i, a, b, self.m[i]))?;
        }
        Ok(())
    }
}

/// Polynomials, of the one ring of the run.
struct PolyGroup {
    k: c14::Kind,
    n: i128,
    irr: Vec<i128>,
    v: Vec<Vec<i128>>,
}
impl PolyGroup {
    fn new(sel: u64, coef: &[u8]) -> Self {
        let mut all = c14::kinds();
        all.retain(|k| k.l <= 64);
        let k = all.swap_remove(sel as usize % all.len());
        let n = c14::pick_modulus(&k, sel >> 8 & 0xffff | (sel >> 24 & 1) << 56);
        let l = if k.l > 0 { k.l } else { 1 + (sel >> 32) as usize % 9 };
        let mut irr = c14::coefs(&k, n, coef, l + 1);
        irr[l] = 1;
        c14::set_ring(n, &irr);
        let v = vec![vec![0; l]; SLOTS];
        PolyGroup { k, n, irr, v }
    }
}
impl Group for PolyGroup {
    fn act(&mut self, s: &Step, ctx: &mut Ctx) -> Res<()> {
        let (i, j, t) = (s.usz(2) % SLOTS, s.usz(3) % SLOTS, s.usz(4) % SLOTS);
        let (how, x) = (s.arg(5), s.arg(6));
        let w = c14::World { k: &self.k, n: self.n, irr: self.irr.clone(), l: self.irr.len() - 1 };
        let l = w.l;
        let (mut a, mut b) = (self.v[i].clone(), self.v[j].clone());
        let op = match s.arg(1) % 8 {
            0 | 1 => {
                let len = if x % 4 == 0 { (x >> 8) as usize % (l + 4) } else { l };
                let c = c14::coefs(&self.k, self.n, s.data(0), len);
                if self.k.l > 0 && len <= l && x % 3 == 0 || self.k.l == 0 {
                    let mut c = c14::canonical(&c, self.n);
                    c.resize(if self.k.l > 0 { l } else { c.len().max(1) }, 0);
                    self.v[t] = c;
                    return Ok(());
                }
                a = c;
                c14::LOAD
            }
            2 => c14::ADD,
            3 => c14::SUB,
            4 => c14::MUL,
            5 | 6 => {
                if x % 3 == 0 {
                    b = vec![0; b.len()];
                }
                c14::DIV
            }
            _ => c14::INV,
        };
        if self.k.l > 0 {
            a.resize(if op == c14::LOAD { a.len() } else { l }, 0);
            b.resize(l, 0);
        }
        if op == c14::INV {
            // only reduced elements
            a.truncate(l);
        }
        let r = w.run(ctx, op, &a, &b, how)?;
        match r {
            None => {
                ctx.fault("refused.polynomial");
                ctx.nontrivial += 1;
            }
            Some(r) => {
                let mut z = c14::canonical(&r[(x % 2) as usize % r.len()], self.n);
                z.truncate(if self.k.l > 0 { l } else { 12 });
                z.resize(if self.k.l > 0 { l } else { z.len().max(1) }, 0);
                self.v[t] = z;
            }
        }
        Ok(())
    }
    fn verify(&self, _ctx: &mut Ctx) -> Res<()> {
        Ok(())
    }
}

fn group(sel: u64, coef: &[u8]) -> Box<dyn Group> {
    macro_rules! pick {
        ($sel:expr; $($e:expr),* $(,)?) => {{
            let makers: Vec<fn() -> Box<dyn Group>> = vec![$(|| Box::new($e)),*];
            makers[$sel as usize % makers.len()]()
        }};
    }
    let s = sel >> 4;
    match sel % 12 {
        0 | 1 => pick!(s; IntGroup::<U8>::new(), IntGroup::<U16>::new(), IntGroup::<U32>::new(), IntGroup::<U64>::new(), IntGroup::<U128>::new(),
            IntGroup::<I8>::new(), IntGroup::<I16>::new(), IntGroup::<I32>::new(), IntGroup::<I64>::new(), IntGroup::<I128>::new()),
        2 => pick!(s; IntGroup::<u8>::new(), IntGroup::<u16>::new(), IntGroup::<u32>::new(), IntGroup::<u64>::new(), IntGroup::<u128>::new(),
            IntGroup::<i8>::new(), IntGroup::<i16>::new(), IntGroup::<i32>::new(), IntGroup::<i64>::new(), IntGroup::<i128>::new()),
        3 | 4 => pick!(s; ModGroup::<NatComp>::new(), ModGroup::<NatByte>::new(), ModGroup::<NatWide>::new(), ModGroup::<NatLoose>::new(), ModGroup::<NatOdd>::new(),
            ModGroup::<Pub255>::new(), ModGroup::<Pub16>::new(), ModGroup::<PubLoose>::new(), ModGroup::<Pub128>::new(), ModGroup::<PubComp>::new(), ModGroup::<PubTwo>::new(),
            ModGroup::<PubOdd>::new(), ModGroup::<Pub13>::new(), ModGroup::<Abs64>::new(), ModGroup::<AbsSquare>::new(), ModGroup::<Abp24>::new(), ModGroup::<Abp384>::new(), ModGroup::<Old32>::new()),
        5 | 6 => pick!(s; BndGroup::<UPub72>::new(), BndGroup::<UPub256>::new(), BndGroup::<SPub64>::new(), BndGroup::<SPub256>::new(), BndGroup::<USec96>::new(), BndGroup::<USec8>::new(),
            BndGroup::<SSec40>::new(), BndGroup::<SSec136>::new(), BndGroup::<UOld64>::new(), BndGroup::<SAbs16>::new(), BndGroup::<UAbs24>::new(), BndGroup::<SAbs48>::new(),
            BndGroup::<UPub13>::new(), BndGroup::<SPub12>::new(), BndGroup::<USec67>::new(), BndGroup::<SSec21>::new()),
        7 | 8 => pick!(s; ConGroup::<U8, c06::B1>::new(), ConGroup::<U8, c06::B31>::new(), ConGroup::<u8, c06::P64>::new(), ConGroup::<U32, c06::W16>::new(), ConGroup::<u32, c06::V31>::new(),
            ConGroup::<U64, c06::D16>::new(), ConGroup::<U128, c06::Q31>::new(), ConGroup::<U16, c06::H31>::new(), ConGroup::<u64, c06::L31>::new(),
            ConGroup::<U8, c06::G31<U8>>::new(), ConGroup::<u32, c06::G16<u32>>::new(),
            ConGroup::<u16, c06::N31>::new(), ConGroup::<U8, c06::B300>::new(), ConGroup::<u8, c06::P520>::new(), ConGroup::<u128, c06::M31>::new()),
        9 => pick!(s; ConGroup::<U8, Seq<U8>>::new(), ConGroup::<u32, Seq<u32>>::new(), ConGroup::<U64, Seq<U64>>::new(), ConGroup::<U8, SecretSeq<U8>>::new(), ConGroup::<U128, SecretSeq<U128>>::new(),
            ConGroup::<u8, PublicSeq<u8>>::new(), ConGroup::<u16, PublicSeq<u16>>::new()),
        10 => Box::new(TextGroup::new()),
        _ => Box::new(PolyGroup::new(sel >> 4, coef)),
    }
}
fn key(s: &Step) -> (usize, Vec<u64>, Vec<Vec<u8>>) {
    (ops::index(s), s.a.get(2..).unwrap_or(&[]).to_vec(), s.d.clone())
}
fn exec(steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    let cfg = steps.iter().find(|s| s.k == "!cfg").cloned().unwrap_or(Step::new("!cfg", &[0]));
    let calls: Vec<&Step> = steps.iter().filter(|s| s.k == "op" && s.a.len() > 2).collect();
    // what each catalogue call returns alone in a fresh process
    let mut solo: BTreeMap<_, Vec<u8>> = BTreeMap::new();
    for s in &calls {
        let k = key(s);
        if !solo.contains_key(&k) {
            match in_child(Duration::from_secs(60), || ops::outcome(s)) {
                Ok(v) => {
                    solo.insert(k, v);
                }
                Err((c, m)) => return ctx.fail(&c, format!("{} alone: {}", ops::name(s), m)),
            }
        }
    }
    // one ring at most
    let mut ring = false;
    let mut groups: Vec<Box<dyn Group>> = vec![];
    for sel in cfg.a.iter().take(6) {
        let poly = sel % 12 == 11;
        if !(poly && ring) {
            groups.push(group(*sel, cfg.data(0)));
        }
        ring |= poly;
    }
    if groups.is_empty() {
        groups.push(group(0, &[]));
    }
    let mut seen = 0u64;
    for (pos, s) in steps.iter().enumerate() {
        match &s.k[..] {
            "do" => {
                let g = s.usz(0) % groups.len();
                let before = ctx.nontrivial;
                groups[g].act(s, ctx)?;
                seen = simkit::rng::mix64(seen ^ cfg.arg(g) << 8 ^ s.arg(1) << 1 ^ (ctx.nontrivial > before) as u64);
                ctx.state(seen);
                ctx.ev("do", &[g as u8, (s.arg(1) & 255) as u8, (ctx.nontrivial > before) as u8]);
            }
            "op" if s.a.len() > 2 => {
                let f = || ops::outcome(s);
                // some calls are made by a thread that then dies of a panic of its own
                let got = if s.arg(0) % 8 == 5 {
                    let t = s.clone();
                    let cell = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
                    let c2 = cell.clone();
                    let _ = std::thread::spawn(move || {
                        let v = ops::outcome(&t);
                        *c2.lock().unwrap() = v;
                        ops::run(&t);
                        panic!("and dies");
                    })
                    .join();
                    ctx.fault("thread_died");
                    let v = cell.lock().unwrap().clone();
                    v
                } else {
                    f()
                };
                ctx.count("catalogue_calls");
                if got.first() == Some(&b'!') {
                    ctx.fault("call_panicked");
                    ctx.nontrivial += 1;
                }
                ctx.ev(ops::name(s), &got);
                let w = &solo[&key(s)];
                ctx.check(got == *w, "earlier-call-matters", || {
                    format!("{} {:?} as step {}: {} but alone {}", ops::name(s), &s.a[2..], pos, String::from_utf8_lossy(&got[..got.len().min(200)]), String::from_utf8_lossy(&w[..w.len().min(200)]))
                })?;
            }
            _ => continue,
        }
        for g in &groups {
            g.verify(ctx)?;
        }
    }
    // a long history: the same calls many times over
    let calls: Vec<&Step> = steps.iter().filter(|s| s.k == "op" && s.a.len() > 2).collect();
    let times = steps.iter().find(|s| s.k == "long").map_or(0, |s| s.arg(0) % 20_000);
    for i in 0..if calls.is_empty() { 0 } else { times } {
        if simkit::cov::steps() > 100_000_000 {
            break;
        }
        let s = calls[i as usize % calls.len()];
        let got = ops::outcome(s);
        ctx.count("catalogue_calls_again");
        let w = &solo[&key(s)];
        ctx.check(got == *w, "earlier-call-matters", || {
            format!("{} {:?} after {} others: {} but alone {}", ops::name(s), &s.a[2..], i, String::from_utf8_lossy(&got[..got.len().min(200)]), String::from_utf8_lossy(&w[..w.len().min(200)]))
        })?;
    }
    for g in &groups {
        g.verify(ctx)?;
    }
    Ok(())
}
fn value(r: &mut SimRng) -> Vec<u8> {
    let l = *r.pick(&[0usize, 1, 1, 2, 3, 5, 8, 9, 12, 16, 17, 32, 33, 48, 66]);
    let mut b = if r.chance(1, 2) { r.special_bytes(l) } else { r.bytes(l) };
    if r.chance(1, 3) && !b.is_empty() {
        // a small number
        let n = r.usz(b.len());
        for x in b.iter_mut().skip(n.min(2)) {
            *x = 0;
        }
    }
    b
}
fn gen(r: &mut SimRng, thorough: bool) -> Vec<Step> {
    let mut c = Step::with("!cfg", &[], vec![r.bytes(72)]);
    for _ in 0..1 + r.usz(3) {
        c.a.push(r.next());
    }
    let n = c.a.len() as u64;
    let kinds = ops::gen_kinds(r, 6);
    let pool = ops::pool(r);
    let calls = if r.chance(1, 2) { 1 + r.usz(4) } else { 0 };
    let base: Vec<Step> = (0..calls).map(|_| ops::gen_op(r, &pool, &kinds, 0)).collect();
    let mut v = vec![c];
    if !base.is_empty() && r.chance(1, 60) {
        let bits = r.range(4, 13);
        v.push(Step::new("long", &[(1 << bits) + r.below(1 << bits)]));
        v.extend(base.iter().cloned());
    }
    let total = 6 + r.usz(if thorough { 120 } else { 45 });
    let fav = r.below(17 * 13);
    for j in 0..total {
        if v.len() > 1 && r.chance(1, 6) {
            // the same again
            let k = if r.chance(2, 3) { v.len() - 1 } else { 1 + r.usz(v.len() - 1) };
            let s = v[k].clone();
            v.push(s);
            continue;
        }
        if !base.is_empty() && r.chance(1, 5) {
            let mut s = r.pick(&base).clone();
            s.a[0] = r.below(64);
            v.push(s);
            continue;
        }
        let op = if j < 8 && r.chance(1, 2) {
            0
        } else if r.chance(1, 6) {
            fav
        } else {
            r.below(17 * 16 * 14 * 13)
        };
        let x = if r.chance(1, 3) { r.below(300) } else { r.next() };
        v.push(Step::with("do", &[r.below(n), op, r.below(SLOTS as u64), r.below(SLOTS as u64), r.below(SLOTS as u64), r.next() >> 8, x, r.next()], vec![value(r)]));
    }
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C08",
        quick_runs: 24_000,
        thorough_runs: 1_500_000,
        step_budget: 4_000_000_000,
        again: 0,
        rule: "a history of possible and impossible operations over live values of one to three types (machine, modular and bounded integers, sequences, arrays, text forms, polynomials), mixed with calls of the operation catalogue, some of them in threads that die; non-trivial: at least one operation was refused; distinct by the sequence of operations and refusals",
        real: &["hacspec (all modules)", "secret-integers", "abstract-integers", "hacspec-examples (all primitives)"],
        stubs: &["none"],
        assumptions: &["overflow checks and debug assertions are on, as in the repository's tests", "a public modular result the machine type cannot hold on the way may be refused instead", "a bit of a negative bounded integer is not specified", "from_literal of machine integers truncates, as documented"],
        gen,
        exec,
    }
}
#[allow(unused)]
fn unused(_: BigUint) {}

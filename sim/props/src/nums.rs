//! Uniform access to the library's number types for workloads: every integer type with its casts,
//! modular and bounded types, next to exact big-integer models.
use hacspec::prelude::*;
use num::bigint::Sign;
use num::{BigInt, BigUint, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;

pub fn big(x: i128) -> BigInt {
    BigInt::from(x)
}
pub fn pow2(k: u32) -> BigInt {
    BigInt::one() << k as usize
}
pub fn emod(x: &BigInt, n: &BigInt) -> BigInt {
    let r = x % n;
    if r.is_negative() {
        r + n
    } else {
        r
    }
}
/// x as a two's complement number of the given width.
pub fn wrap(x: &BigInt, bits: u32, signed: bool) -> BigInt {
    let m = emod(x, &pow2(bits));
    if signed && m >= pow2(bits - 1) {
        m - pow2(bits)
    } else {
        m
    }
}
pub fn fits(x: &BigInt, bits: u32, signed: bool) -> bool {
    wrap(x, bits, signed) == *x
}
pub fn low128(x: &BigInt) -> u128 {
    emod(x, &pow2(128)).to_u128().unwrap()
}
pub fn of_le(b: &[u8], signed: bool, bits: u32) -> BigInt {
    wrap(&BigInt::from_bytes_le(Sign::Plus, b), bits, signed)
}
pub fn hexdig(x: &BigInt, digits: usize) -> String {
    let s = x.to_str_radix(16);
    format!("{}{}", "0".repeat(digits.saturating_sub(s.len())), s)
}
pub fn le(x: &BigInt) -> Vec<u8> {
    x.to_bytes_le().1
}

/// Machine integers, public and secret.
pub trait Mach: Integer {
    const NAME: &'static str;
    const SIGNED: bool;
    const SECRET: bool;
    /// comparison masks exist
    const MASKS: bool;
    fn of(x: &BigInt, how: u64) -> Self;
    fn val(self) -> BigInt;
    /// wrapping + - * and their assigning forms
    fn plain(self, o: Self, op: u64) -> Self;
    /// exact or panic
    fn checked(self, o: Self, op: u64) -> Option<Self>;
    /// two's complement negation
    fn negate(self) -> Self;
    fn rot(self, k: u32, left: bool, how: u64) -> Self;
    fn casts(self) -> Vec<(&'static str, BigInt, u32, bool)>;
}
macro_rules! public_mach {
    ($t:ident, $signed:expr) => {
        impl Mach for $t {
            const NAME: &'static str = stringify!($t);
            const SIGNED: bool = $signed;
            const SECRET: bool = false;
            const MASKS: bool = true;
            fn of(x: &BigInt, _how: u64) -> Self {
                <$t>::from_literal(low128(x))
            }
            fn val(self) -> BigInt {
                BigInt::from(self)
            }
            fn plain(self, o: Self, op: u64) -> Self {
                match op % 3 {
                    0 => self.wrap_add(o),
                    1 => self.wrap_sub(o),
                    _ => self.wrap_mul(o),
                }
            }
            fn checked(self, _o: Self, _op: u64) -> Option<Self> {
                None
            }
            fn negate(self) -> Self {
                <$t>::default().wrap_sub(self)
            }
            fn rot(self, k: u32, left: bool, _how: u64) -> Self {
                if left {
                    Integer::rotate_left(self, k)
                } else {
                    Integer::rotate_right(self, k)
                }
            }
            fn casts(self) -> Vec<(&'static str, BigInt, u32, bool)> {
                vec![]
            }
        }
    };
}
public_mach!(u8, false);
public_mach!(u16, false);
public_mach!(u32, false);
public_mach!(u64, false);
public_mach!(u128, false);
public_mach!(i8, true);
public_mach!(i16, true);
public_mach!(i32, true);
public_mach!(i64, true);
public_mach!(i128, true);
macro_rules! secret_mach {
    ($t:ident, $b:ident, $signed:expr, [$($c:ident),*], [$($of:expr),*], [$($out:expr),*]) => {
        impl Mach for $t {
            const NAME: &'static str = stringify!($t);
            const SIGNED: bool = $signed;
            const SECRET: bool = true;
            const MASKS: bool = !$signed;
            fn of(x: &BigInt, how: u64) -> Self {
                let u = low128(x);
                let routes: &[fn(u128) -> $t] = &[
                    |u| <$t>::from_literal(u),
                    |u| <$t>::classify(u as $b),
                    |u| <$t as SecretInteger>::classify(u as $b),
                    |u| $t::from(u as $b),
                    $($of),*
                ];
                routes[how as usize % routes.len()](u)
            }
            fn val(self) -> BigInt {
                BigInt::from(self.declassify())
            }
            fn plain(self, o: Self, op: u64) -> Self {
                let mut x = self;
                match op % 9 {
                    0 => x + o,
                    1 => x - o,
                    2 => x * o,
                    3 => x.wrap_add(o),
                    4 => x.wrap_sub(o),
                    5 => x.wrap_mul(o),
                    6 => {
                        x += o;
                        x
                    }
                    7 => {
                        x -= o;
                        x
                    }
                    _ => {
                        x *= o;
                        x
                    }
                }
            }
            fn checked(self, o: Self, op: u64) -> Option<Self> {
                Some(match op % 3 {
                    0 => self.checked_add(o),
                    1 => self.checked_sub(o),
                    _ => self.checked_mul(o),
                })
            }
            fn negate(self) -> Self {
                -self
            }
            fn rot(self, k: u32, left: bool, how: u64) -> Self {
                match (left, how % 2) {
                    (true, 0) => Integer::rotate_left(self, k),
                    (false, 0) => Integer::rotate_right(self, k),
                    (true, _) => self.rotate_left(k),
                    _ => self.rotate_right(k),
                }
            }
            fn casts(self) -> Vec<(&'static str, BigInt, u32, bool)> {
                #[allow(unused_mut)]
                let mut v = vec![$((stringify!($c), $c::from(self).val(), $c::NUM_BITS, <$c as Mach>::SIGNED)),*];
                let outs: &[fn($t) -> (&'static str, u128, u32)] = &[$($out),*];
                for f in outs {
                    let (n, x, b) = f(self);
                    v.push((n, BigInt::from(x), b, false));
                }
                v
            }
        }
    };
}
secret_mach!(U8, u8, false, [U8, U16, U32, U64, U128, I8],
    [|u| U8::from(U16(u as u16)), |u| U8::from(U32(u as u32)), |u| U8::from(U64(u as u64)), |u| U8::from(U128(u)), |u| U8::from(u as usize), |u| U8::from(I8(u as i8))],
    [|x| ("u8", u8::from(x) as u128, 8), |x| ("u16", u16::from(x) as u128, 16), |x| ("u32", u32::from(x) as u128, 32), |x| ("u64", u64::from(x) as u128, 64), |x| ("u128", u128::from(x), 128), |x| ("usize", usize::from(x) as u128, 64)]);
secret_mach!(U16, u16, false, [U8, U16, U32, U64, U128, I16],
    [|u| U16::from(U32(u as u32)), |u| U16::from(U64(u as u64)), |u| U16::from(U128(u)), |u| if u < 256 { U16::from(U8(u as u8)) } else { U16::from(U8((u >> 8) as u8)) << 8 | U16::from(u as u8) }, |u| U16::from(I16(u as i16))],
    [|x| ("u16", u16::from(x) as u128, 16), |x| ("u32", u32::from(x) as u128, 32), |x| ("u64", u64::from(x) as u128, 64), |x| ("u128", u128::from(x), 128)]);
secret_mach!(U32, u32, false, [U8, U16, U32, U64, U128, I32],
    [|u| U32::from(U64(u as u64)), |u| U32::from(U128(u)), |u| U32::from(U16((u >> 16) as u16)) << 16 | U32::from(U8((u >> 8) as u8)) << 8 | U32::from(u as u8), |u| U32::from(U8((u >> 24) as u8)) << 24 | U32::from(U8((u >> 16) as u8)) << 16 | U32::from(u as u16), |u| U32::from(I32(u as i32))],
    [|x| ("u32", u32::from(x) as u128, 32), |x| ("u64", u64::from(x) as u128, 64), |x| ("u128", u128::from(x), 128)]);
secret_mach!(U64, u64, false, [U8, U16, U32, U64, U128, I64],
    [|u| U64::from(U128(u)), |u| U64::from(U32((u >> 32) as u32)) << 32 | U64::from(u as u32), |u| U64::from(U16((u >> 48) as u16)) << 48 | U64::from(U8((u >> 40) as u8)) << 40 | U64::from((u >> 32) as u8) << 32 | U64::from((u >> 16) as u16) << 16 | U64::from(u as u16), |u| U64::from(u as usize), |u| U64::from(I64(u as i64))],
    [|x| ("u64", u64::from(x) as u128, 64), |x| ("u128", u128::from(x), 128)]);
secret_mach!(U128, u128, false, [U8, U16, U32, U64, U128, I128],
    [|u| U128::from(U64((u >> 64) as u64)) << 64 | U128::from(u as u64), |u| U128::from((u >> 64) as usize) << 64 | U128::from(U32((u >> 32) as u32)) << 32 | U128::from(u as u32), |u| U128::from((u >> 64) as u64) << 64 | U128::from(U16((u >> 48) as u16)) << 48 | U128::from(U8((u >> 40) as u8)) << 40 | U128::from((u >> 32) as u8) << 32 | U128::from((u >> 16) as u16) << 16 | U128::from(u as u16), |u| U128::from(I128(u as i128))],
    [|x| ("u128", u128::from(x), 128)]);
secret_mach!(I8, i8, true, [I8, I16, I32, I64, I128, U8], [|u| I8::from(U8(u as u8)), |u| I8::from(I128(u as i128)), |u| I8::from(I64(u as i64)), |u| I8::from(I32(u as i32)), |u| I8::from(I16(u as i16))], []);
secret_mach!(I16, i16, true, [I8, I16, I32, I64, I128, U16], [|u| I16::from(U16(u as u16)), |u| I16::from(I128(u as i128)), |u| I16::from(I64(u as i64)), |u| I16::from(I32(u as i32))], []);
secret_mach!(I32, i32, true, [I8, I16, I32, I64, I128, U32], [|u| I32::from(U32(u as u32)), |u| I32::from(I128(u as i128)), |u| I32::from(I64(u as i64))], []);
secret_mach!(I64, i64, true, [I8, I16, I32, I64, I128, U64], [|u| I64::from(U64(u as u64)), |u| I64::from(I128(u as i128))], []);
secret_mach!(I128, i128, true, [I8, I16, I32, I64, I128, U128], [|u| I128::from(U128(u))], []);

/// Types of integers modulo n.
pub trait Modu: Copy + std::fmt::Debug + std::fmt::Display + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> {
    const NAME: &'static str;
    const BITS: u32;
    const PUBLIC: bool;
    const PRIME: bool;
    /// the modulus, from the definition of the type
    fn modulus() -> BigInt;
    /// x in [0, 2^BITS), any construction
    fn of(x: &BigInt, how: u64) -> Self;
    /// little-endian bytes (two routes)
    fn bytes(self, how: u64) -> Vec<u8>;
    fn of_bytes(b: &[u8], how: u64) -> Self;
    fn of_hex(s: &str, how: u64) -> Self;
    fn literal(x: u128) -> Self;
    fn signed_literal(x: i128) -> Self;
    fn base(self) -> BigInt;
    fn top() -> BigInt;
    fn bitat(self, i: usize) -> bool;
    /// sum, difference or product by the methods of the numeric traits where there are any
    fn wrapped(self, o: Self, op: u64) -> Self {
        match op % 3 {
            0 => self + o,
            1 => self - o,
            _ => self * o,
        }
    }
    fn power(self, e: u128) -> Self;
    fn power_felem(self, e: Self) -> Self;
    fn inverse(self) -> Self;
    fn quot(self, o: Self) -> Self;
    fn rest(self, o: Self) -> Self;
    fn order(self, o: Self) -> (bool, Ordering, Option<Ordering>);
}
macro_rules! bnd_numeric {
    () => {
        fn wrapped(self, o: Self, op: u64) -> Self {
            match op % 3 {
                0 => self.wrap_add(o),
                1 => self.wrap_sub(o),
                _ => self.wrap_mul(o),
            }
        }
    };
}
macro_rules! modu_fns {
    ($n:ident, $b:ident, $bits:literal, $m:literal, $prime:expr) => {
        const NAME: &'static str = stringify!($n);
        const BITS: u32 = $bits;
        const PRIME: bool = $prime;
        fn modulus() -> BigInt {
            BigInt::parse_bytes($m.as_bytes(), 16).unwrap()
        }
        fn of(x: &BigInt, how: u64) -> Self {
            let m = Self::modulus();
            let (lo, hi) = (-(pow2(127)), pow2(127) - 1);
            match how % 9 {
                0 => $n::from_hex(&hexdig(x, ($bits + 7) / 8 * 2)),
                1 => {
                    let h = hexdig(x, 2);
                    Self::of_hex(&if h.len() % 2 == 1 { format!("0{}", h) } else { h }, how / 9)
                }
                2 => Self::of_bytes(&le(x), how / 9),
                3 => {
                    let mut b = le(x);
                    b.resize(($bits + 7) / 8, 0);
                    Self::of_bytes(&b, how / 9)
                }
                4 if *x <= m && *x < pow2(128) => $n::from_literal(x.to_u128().unwrap()),
                5 if *x <= m && *x < hi => $n::from_signed_literal(x.to_i128().unwrap()),
                6 if *x <= m && x - &m > lo => $n::from_signed_literal((x - &m).to_i128().unwrap()),
                7 => $b::from(x.clone()).into(),
                _ => $b::from(x.to_biguint().unwrap()).into(),
            }
        }
        fn literal(x: u128) -> Self {
            $n::from_literal(x)
        }
        fn signed_literal(x: i128) -> Self {
            $n::from_signed_literal(x)
        }
        fn base(self) -> BigInt {
            let b: $b = self.into();
            b.into()
        }
        fn top() -> BigInt {
            $n::max().into()
        }
        fn bitat(self, i: usize) -> bool {
            self.bit(i)
        }
    };
}
macro_rules! modu_plain_bytes {
    ($n:ident, $b:ident) => {
        fn bytes(self, how: u64) -> Vec<u8> {
            if how % 2 == 0 {
                self.to_le_bytes()
            } else {
                let b: $b = self.into();
                b.to_le_bytes()
            }
        }
        fn of_bytes(b: &[u8], how: u64) -> Self {
            if how % 2 == 0 {
                $n::from_le_bytes(b)
            } else {
                $b::from_le_bytes(b).into()
            }
        }
        fn of_hex(s: &str, how: u64) -> Self {
            if how % 2 == 0 {
                $n::from_hex(s)
            } else {
                $b::from_hex(s).into()
            }
        }
    };
}
macro_rules! modu_seq_bytes {
    ($n:ident, $b:ident) => {
        fn bytes(self, how: u64) -> Vec<u8> {
            match how % 4 {
                0 => self.to_le_bytes(),
                1 => {
                    let b: $b = self.into();
                    b.to_le_bytes()
                }
                2 => self.to_byte_seq_le().iter().map(|x| x.declassify()).collect(),
                _ => self.to_public_byte_seq_le().iter().copied().collect(),
            }
        }
        fn of_bytes(b: &[u8], how: u64) -> Self {
            match how % 3 {
                0 => $n::from_le_bytes(b),
                1 => $b::from_le_bytes(b).into(),
                _ => $n::from_byte_seq_le(crate::util::bs(b)),
            }
        }
        fn of_hex(s: &str, how: u64) -> Self {
            match how % 3 {
                0 => $n::from_hex(s),
                1 => $b::from_hex(s).into(),
                _ if s.len() <= 32 => {
                    let v = u128::from_str_radix(if s.is_empty() { "0" } else { s }, 16).unwrap_or(u128::MAX);
                    if BigInt::from(v) <= Self::modulus() && s.bytes().all(|c| c.is_ascii_hexdigit()) && s.len() % 2 == 0 {
                        $n::from_secret_literal(U128::classify(v))
                    } else {
                        $n::from_hex(s)
                    }
                }
                _ => $n::from_hex(s),
            }
        }
    };
}
macro_rules! modu_public_ops {
    () => {
        const PUBLIC: bool = true;
        fn power(self, e: u128) -> Self {
            self.pow(e)
        }
        fn power_felem(self, e: Self) -> Self {
            self.pow_felem(e)
        }
        fn inverse(self) -> Self {
            self.inv()
        }
        fn quot(self, o: Self) -> Self {
            self / o
        }
        fn rest(self, o: Self) -> Self {
            self % o
        }
        fn order(self, o: Self) -> (bool, Ordering, Option<Ordering>) {
            (self == o, self.cmp(&o), self.partial_cmp(&o))
        }
    };
}
macro_rules! modu_secret_ops {
    () => {
        const PUBLIC: bool = false;
        fn power(self, _e: u128) -> Self {
            unreachable!()
        }
        fn power_felem(self, _e: Self) -> Self {
            unreachable!()
        }
        fn inverse(self) -> Self {
            unreachable!()
        }
        fn quot(self, _o: Self) -> Self {
            unreachable!()
        }
        fn rest(self, _o: Self) -> Self {
            unreachable!()
        }
        fn order(self, _o: Self) -> (bool, Ordering, Option<Ordering>) {
            unreachable!()
        }
    };
}
macro_rules! modu {
    (nat $n:ident, $b:ident, $bits:literal, $m:literal, $p:expr) => {
        nat_mod!($n, $b, $bits, $m);
        impl Modu for $n {
            modu_fns!($n, $b, $bits, $m, $p);
            bnd_numeric!();
            modu_plain_bytes!($n, $b);
            modu_secret_ops!();
        }
    };
    (pub $n:ident, $b:ident, $bits:literal, $m:literal, $p:expr) => {
        public_nat_mod!($n, $b, $bits, $m);
        impl Modu for $n {
            modu_fns!($n, $b, $bits, $m, $p);
            bnd_numeric!();
            modu_seq_bytes!($n, $b);
            modu_public_ops!();
        }
    };
    (abs $n:ident, $b:ident, $bits:literal, $m:literal, $p:expr) => {
        abstract_nat_mod!($n, $b, $bits, $m);
        impl Modu for $n {
            modu_fns!($n, $b, $bits, $m, $p);
            modu_plain_bytes!($n, $b);
            modu_secret_ops!();
        }
    };
    (abp $n:ident, $b:ident, $bits:literal, $m:literal, $p:expr) => {
        abstract_public_nat_mod!($n, $b, $bits, $m);
        impl Modu for $n {
            modu_fns!($n, $b, $bits, $m, $p);
            modu_plain_bytes!($n, $b);
            modu_public_ops!();
        }
    };
    (old $n:ident, $b:ident, $bits:literal, $m:literal, $p:expr) => {
        define_abstract_integer_checked!($b, $bits);
        define_refined_modular_integer!($n, $b, $b::from_hex($m));
        impl Modu for $n {
            modu_fns!($n, $b, $bits, $m, $p);
            modu_plain_bytes!($n, $b);
            modu_public_ops!();
        }
    };
}
modu!(nat NatComp, NatCompB, 128, "fffffffffffffffffffffffffffffffb", false);
modu!(nat NatByte, NatByteB, 8, "fb", true);
modu!(nat NatWide, NatWideB, 528, "01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", true);
modu!(nat NatLoose, NatLooseB, 96, "010001", true);
modu!(pub Pub255, Pub255B, 256, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", true);
modu!(pub Pub16, Pub16B, 16, "fff1", true);
modu!(pub PubLoose, PubLooseB, 40, "010001", true);
modu!(pub Pub128, Pub128B, 128, "ffffffffffffffffffffffffffffff61", true);
modu!(pub PubComp, PubCompB, 24, "ffff00", false);
modu!(pub PubTwo, PubTwoB, 8, "02", true);
modu!(nat NatOdd, NatOddB, 521, "01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", true);
modu!(pub PubOdd, PubOddB, 255, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", true);
modu!(pub Pub13, Pub13B, 13, "1fff", true);
modu!(abs Abs64, Abs64B, 64, "ffffffffffffffc5", true);
modu!(abs AbsSquare, AbsSquareB, 72, "010000000000000000", false);
modu!(abp Abp24, Abp24B, 24, "fffffd", true);
modu!(abp Abp384, Abp384B, 384, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff", true);
modu!(old Old32, Old32B, 56, "fffffffb", true);

/// Integers bounded by a bit width: exact or panic.
pub trait Bnd: Copy + std::fmt::Debug + std::fmt::Display + Default + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> {
    const NAME: &'static str;
    const BITS: u32;
    const SIGNED: bool;
    const PUBLIC: bool;
    fn of(x: &BigInt, how: u64) -> Self;
    fn val(self) -> BigInt;
    fn bitat(self, i: usize) -> bool;
    fn p2(i: usize) -> Self;
    fn literal(x: u128) -> Self;
    fn signed_literal(x: i128) -> Self;
    fn of_hex(sign: &str, s: &str) -> Self;
    /// unsigned only
    fn of_bytes(b: &[u8]) -> Self;
    fn bytes(self) -> Vec<u8>;
    fn quot(self, o: Self) -> Self;
    fn rest(self, o: Self) -> Self;
    fn order(self, o: Self) -> (bool, Ordering, Option<Ordering>);
    fn inverse(self, m: Self) -> Self;
    fn power(self, e: u128, m: Self) -> Self;
    fn power_felem(self, e: Self, m: Self) -> Self;
    fn wrapped(self, o: Self, op: u64) -> Self;
}
/// The largest value; the smallest is 0 or the opposite.
pub fn bmax(bits: u32) -> BigInt {
    pow2(bits) - 1
}
macro_rules! bnd_common {
    ($n:ident, $bits:literal) => {
        const NAME: &'static str = stringify!($n);
        const BITS: u32 = $bits;
        fn val(self) -> BigInt {
            self.into()
        }
        fn bitat(self, i: usize) -> bool {
            self.bit(i)
        }
        fn p2(i: usize) -> Self {
            $n::pow2(i)
        }
        fn literal(x: u128) -> Self {
            $n::from_literal(x)
        }
        fn signed_literal(x: i128) -> Self {
            $n::from_signed_literal(x)
        }
    };
}
macro_rules! bnd_unsigned {
    ($n:ident, $bits:literal) => {
        const SIGNED: bool = false;
        fn of(x: &BigInt, how: u64) -> Self {
            match how % 7 {
                0 => $n::from(x.clone()),
                1 if !x.is_negative() => $n::from(x.to_biguint().unwrap()),
                2 if !x.is_negative() => $n::from_hex(&hexdig(x, ($bits + 7) / 8 * 2)),
                3 if !x.is_negative() => $n::from_le_bytes(&le(x)),
                4 if !x.is_negative() && *x < pow2(128) => $n::from_literal(x.to_u128().unwrap()),
                5 if *x < pow2(127) && *x >= -pow2(127) => $n::from_signed_literal(x.to_i128().unwrap()),
                _ => $n::from(x.clone()),
            }
        }
        fn of_hex(_sign: &str, s: &str) -> Self {
            $n::from_hex(s)
        }
        fn of_bytes(b: &[u8]) -> Self {
            $n::from_le_bytes(b)
        }
        fn bytes(self) -> Vec<u8> {
            self.to_le_bytes()
        }
    };
}
macro_rules! bnd_signed {
    ($n:ident, $bits:literal) => {
        const SIGNED: bool = true;
        fn of(x: &BigInt, how: u64) -> Self {
            let hex = hexdig(&x.abs(), ($bits + 7) / 8 * 2);
            match how % 5 {
                0 => $n::from(x.clone()),
                1 => $n::from_hex(if x.is_negative() { "-" } else { "+" }, &hex),
                2 if !x.is_negative() => $n::from(x.to_biguint().unwrap()),
                3 if !x.is_negative() && *x < pow2(128) => $n::from_literal(x.to_u128().unwrap()),
                _ if *x < pow2(127) && *x >= -pow2(127) => $n::from_signed_literal(x.to_i128().unwrap()),
                _ => $n::from(x.clone()),
            }
        }
        fn of_hex(sign: &str, s: &str) -> Self {
            $n::from_hex(sign, s)
        }
        fn of_bytes(_b: &[u8]) -> Self {
            unreachable!()
        }
        fn bytes(self) -> Vec<u8> {
            unreachable!()
        }
    };
}
macro_rules! bnd_public {
    () => {
        const PUBLIC: bool = true;
        fn quot(self, o: Self) -> Self {
            self / o
        }
        fn rest(self, o: Self) -> Self {
            self % o
        }
        fn order(self, o: Self) -> (bool, Ordering, Option<Ordering>) {
            (self == o, self.cmp(&o), self.partial_cmp(&o))
        }
        fn inverse(self, m: Self) -> Self {
            Self::inv(self, m)
        }
        fn power(self, e: u128, m: Self) -> Self {
            Self::pow(self, e, m)
        }
        fn power_felem(self, e: Self, m: Self) -> Self {
            Self::pow_felem(self, e, m)
        }
    };
}
macro_rules! bnd_secret {
    () => {
        const PUBLIC: bool = false;
        fn quot(self, _o: Self) -> Self {
            unreachable!()
        }
        fn rest(self, _o: Self) -> Self {
            unreachable!()
        }
        fn order(self, _o: Self) -> (bool, Ordering, Option<Ordering>) {
            unreachable!()
        }
        fn inverse(self, _m: Self) -> Self {
            unreachable!()
        }
        fn power(self, _e: u128, _m: Self) -> Self {
            unreachable!()
        }
        fn power_felem(self, _e: Self, _m: Self) -> Self {
            unreachable!()
        }
    };
}
macro_rules! bnd_plain {
    () => {
        fn wrapped(self, o: Self, op: u64) -> Self {
            match op % 3 {
                0 => self + o,
                1 => self - o,
                _ => self * o,
            }
        }
    };
}
macro_rules! bnd {
    ($mac:ident $n:ident, $bits:literal, $u:ident, $p:ident, $w:ident) => {
        $mac!($n, $bits);
        impl Bnd for $n {
            bnd_common!($n, $bits);
            $u!($n, $bits);
            $p!();
            $w!();
        }
    };
}
bnd!(unsigned_public_integer UPub72, 72, bnd_unsigned, bnd_public, bnd_numeric);
bnd!(unsigned_public_integer UPub256, 256, bnd_unsigned, bnd_public, bnd_numeric);
bnd!(signed_public_integer SPub64, 64, bnd_signed, bnd_public, bnd_numeric);
bnd!(signed_public_integer SPub256, 256, bnd_signed, bnd_public, bnd_numeric);
bnd!(unsigned_integer USec96, 96, bnd_unsigned, bnd_secret, bnd_numeric);
bnd!(unsigned_integer USec8, 8, bnd_unsigned, bnd_secret, bnd_numeric);
bnd!(signed_integer SSec40, 40, bnd_signed, bnd_secret, bnd_numeric);
bnd!(signed_integer SSec136, 136, bnd_signed, bnd_secret, bnd_numeric);
bnd!(define_abstract_integer_checked UOld64, 64, bnd_unsigned, bnd_public, bnd_plain);
bnd!(abstract_signed_public_integer SAbs16, 16, bnd_signed, bnd_public, bnd_plain);
bnd!(abstract_unsigned_secret_integer UAbs24, 24, bnd_unsigned, bnd_secret, bnd_plain);
bnd!(abstract_signed_secret_integer SAbs48, 48, bnd_signed, bnd_secret, bnd_plain);
bnd!(unsigned_public_integer UPub13, 13, bnd_unsigned, bnd_public, bnd_numeric);
bnd!(signed_public_integer SPub12, 12, bnd_signed, bnd_public, bnd_numeric);
bnd!(unsigned_integer USec67, 67, bnd_unsigned, bnd_secret, bnd_numeric);
bnd!(signed_integer SSec21, 21, bnd_signed, bnd_secret, bnd_numeric);
#[allow(unused)]
fn unused(_: BigUint) {}

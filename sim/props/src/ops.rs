//! A catalogue of deterministic calls over the whole library. An operation gets numbers and byte
//! strings and returns everything the call returned, printed; it may panic, that is part of its result.
use crate::util::*;
use hacspec::prelude::*;
use hacspec_examples::aes_gcm::{self, aes, gf128};
use hacspec_examples::blake2::blake2b;
use hacspec_examples::chacha20_poly1305::{self as ccp, chacha20, poly1305};
use hacspec_examples::curve25519::{scalarmult, secret_to_public, SerializedPoint, SerializedScalar};
use hacspec_examples::{fips202, hkdf, hmac, p256, sha2};
use simkit::rng::Rng as SimRng;
use simkit::Step;

bytes!(B8, 8);
bytes!(B16, 16);
bytes!(B20, 20);
bytes!(B48, 48);
public_bytes!(PB16, 16);
public_bytes!(PB20, 20);
array!(A5, 5, U16);
array!(A7, 7, U32);
array!(A4, 4, U64);
array!(A3, 3, U128);
array!(P5, 5, u16);
array!(P7, 7, u32);
array!(P4, 4, u64);
array!(P3, 3, u128);
array!(PS6, 6, i32);
both_arrays!(BothP, BothS, 6, U32, u32);
both_bytes!(BothPB, BothSB, 9);
generic_array!(Gen8, 8);
unsigned_public_integer!(UP, 72);
signed_public_integer!(SP, 64);
unsigned_integer!(US, 96);
signed_integer!(SS, 40);
define_abstract_integer_checked!(Legacy, 56);
define_refined_modular_integer!(LegacyMod, Legacy, Legacy::from_literal(0xfffffffb));
nat_mod!(NS, NSBase, 128, "fffffffffffffffffffffffffffffffb");
public_nat_mod!(NP, NPBase, 256, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed");
public_nat_mod!(NQ, NQBase, 16, "fff1");
abstract_nat_mod!(AN, ANBase, 64, "ffffffffffffffc5");
abstract_public_nat_mod!(APN, APNBase, 24, "fffffd");
poly!(Ntru, i128, 11, 3, [(0, 2), (11, 1)]);
poly!(Kyb, u128, 16, 3329, [(0, 1), (16, 1)]);
poly!(Tern, u128, 5, 11, [(0, 2), (1, 2), (5, 1)]);

pub struct In<'a> {
    pub a: &'a [u64],
    pub d: &'a [Vec<u8>],
}
impl<'a> In<'a> {
    pub fn n(&self, i: usize) -> u64 {
        self.a.get(i).copied().unwrap_or(0)
    }
    pub fn z(&self, i: usize) -> usize {
        self.n(i) as usize
    }
    pub fn b(&self, i: usize) -> &'a [u8] {
        self.d.get(i).map(|v| &v[..]).unwrap_or(&[])
    }
    /// exactly n bytes
    pub fn f(&self, i: usize, n: usize) -> Vec<u8> {
        let b = self.b(i);
        (0..n).map(|j| if b.is_empty() { 0 } else { b[j % b.len()].wrapping_add((j / b.len()) as u8) }).collect()
    }
    pub fn w(&self, i: usize) -> u128 {
        u128::from_le_bytes(self.f(i, 16).try_into().unwrap())
    }
    /// hex string of n bytes
    pub fn h(&self, i: usize, n: usize) -> String {
        self.f(i, n).iter().map(|x| format!("{:02x}", x)).collect()
    }
}
fn dbg<T: std::fmt::Debug>(x: T) -> Vec<u8> {
    format!("{:?}", x).into_bytes()
}
fn sv<T: Copy + std::fmt::Debug, A: SeqTrait<T>>(x: &A) -> Vec<u8> {
    dbg((x.len(), x.iter().collect::<Vec<_>>()))
}
/// Arithmetic through the library's own traits.
fn arith<T: Integer>(i: &In) -> Vec<u8> {
    let (x, y, m) = (T::from_literal(i.w(0)), T::from_literal(i.w(1)), T::from_literal(i.w(2)));
    let (k, s) = (i.n(1) as u32 % T::NUM_BITS, (i.n(2) as u32) % T::NUM_BITS);
    match i.n(0) % 12 {
        0 => dbg((x.wrap_add(y), x.wrap_sub(y), x.wrap_mul(y), x ^ y, x | y, x & y, !x)),
        1 => dbg((x.rotate_left(k), x.rotate_right(k), x << s, x >> s)),
        2 => dbg((x.get_bit(k), x.set(k, y, s))),
        3 => dbg((x.equal(y), x.greater_than(y), x.greater_than_or_qual(y), x.less_than(y), x.less_than_or_equal(y))),
        4 => dbg((x.div(y), x.pow(0), x.pow(1))),
        5 => dbg((x.equal_bm(y), x.not_equal_bm(y), x.greater_than_bm(y), x.greater_than_or_qual_bm(y), x.less_than_bm(y), x.less_than_or_equal_bm(y))),
        6 => dbg(cswap_bit(x, y, if i.n(1) & 1 == 1 { T::ONE } else { T::ZERO })),
        7 => dbg((cadd(x, y, T::max_val()), csub(x, y, T::default()), cmul(x, y, T::max_val()), cset_bit(x, T::ONE, k, T::max_val()))),
        8 => dbg(ct_div(x, y)),
        9 => dbg(x.sub_mod(y, m)),
        10 => dbg((x.modulo(m), T::max_val(), T::NUM_BITS)),
        _ => dbg((x.add_mod(y, m), x.mul_mod(y, m))),
    }
}
fn inverse<T: Integer>(i: &In) -> Vec<u8> {
    let (x, m) = (T::from_literal(i.w(0)), T::from_literal(i.w(1)));
    dbg(x.inv(m))
}
macro_rules! bounded {
    ($n:ident, $i:expr, $mk:expr) => {{
        let i: &In = $i;
        let mk = $mk;
        let (x, y): ($n, $n) = (mk(i.w(0)), mk(i.w(1)));
        match i.n(0) % 5 {
            0 => dbg(x + y),
            1 => dbg(x - y),
            2 => dbg(x * y),
            3 => dbg(x.bit(i.z(1) % 80)),
            _ => dbg($n::pow2(i.z(1) % 80)),
        }
    }};
}
macro_rules! bounded_public {
    ($n:ident, $i:expr, $mk:expr) => {{
        let i: &In = $i;
        let mk = $mk;
        let (x, y): ($n, $n) = (mk(i.w(0)), mk(i.w(1)));
        match i.n(0) % 5 {
            0 => dbg(x / y),
            1 => dbg(x % y),
            2 => dbg((x == y, x < y, x.cmp(&y))),
            3 => dbg($n::inv(x, $n::from_literal(0xfffffffb))),
            _ => dbg($n::pow(x, i.n(1) as u128 % 40, $n::from_literal(0xfffffffb))),
        }
    }};
}
macro_rules! modular {
    ($n:ident, $i:expr, $len:expr) => {{
        let i: &In = $i;
        let (x, y) = ($n::from_hex(&i.h(0, $len)), $n::from_le_bytes(&i.f(1, $len)));
        match i.n(0) % 6 {
            0 => dbg(x + y),
            1 => dbg(x - y),
            2 => dbg(x * y),
            3 => dbg((x, x.to_le_bytes())),
            4 => dbg(x.bit(i.z(1) % (8 * $len))),
            _ => dbg(($n::from_literal(i.n(1) as u128), $n::from_signed_literal(i.n(1) as i64 as i128))),
        }
    }};
}
macro_rules! modular_public {
    ($n:ident, $i:expr, $len:expr) => {{
        let i: &In = $i;
        let (x, y) = ($n::from_hex(&i.h(0, $len)), $n::from_le_bytes(&i.f(1, $len)));
        match i.n(0) % 5 {
            0 => dbg(x / y),
            1 => dbg(x % y),
            2 => dbg((x == y, x < y, x.cmp(&y))),
            3 => dbg($n::inv(x)),
            _ => dbg(($n::pow(x, i.n(1) as u128 % 200), x.pow_felem(y))),
        }
    }};
}
macro_rules! vecs {
    ($n:ident, $b:ty, $i:expr, $l:expr, $($mk:tt)*) => {{
        let i: &In = $i;
        let mk = |k: usize| -> $n {
            let b = i.f(k, $l * 16);
            $n::from_vec((0..$l).map(|j| { let x = u128::from_le_bytes(b[16 * j..16 * j + 16].try_into().unwrap()) as $b; $($mk)*(x) }).collect())
        };
        let (x, y) = (mk(0), mk(1));
        match i.n(0) % 6 {
            0 => sv(&(x + y)),
            1 => sv(&(x - y)),
            2 => sv(&(x * y)),
            3 => sv(&(x ^ y)),
            4 => dbg((x, x.len(), $n::capacity())),
            _ => dbg((x.wrap_add(y), x.wrap_sub(y), x.wrap_mul(y))),
        }
    }};
}
/// Bytes as elements of either container; everything a receiver may do with it.
macro_rules! container {
    ($x:expr, $i:expr) => {{
        let i: &In = $i;
        let x = $x;
        match i.n(0) % 6 {
            0 => {
                let k = i.z(1) % 9;
                let (l, c) = x.get_chunk(k, i.z(2) % 12);
                dbg((l, sv(&c), x.num_chunks(k)))
            }
            1 => sv(&(&x).sub(i.z(1) % 40, i.z(2) % 40)),
            2 => sv(&x.clone().update_sub(i.z(1) % 20, &x, i.z(2) % 20, i.z(3) % 20)),
            3 => {
                let k = 1 + i.z(1) % 9;
                let n = i.z(2) % 8;
                let (_, c) = x.get_chunk(k, 0);
                sv(&x.clone().set_chunk(k, n, &c))
            }
            4 => dbg((x[i.z(1) % 40], x[(i.n(2) % 40) as u8], x[(i.n(2) % 40) as u32], x[(i.n(2) % 40) as i32])),
            _ => sv(&(&x).subr(i.z(1) % 20..i.z(2) % 40)),
        }
    }};
}
fn polyvec<T: Integer>(b: &[u8], n: usize, m: T, k: u64) -> Vec<T> {
    (0..n).map(|j| T::from_literal(b[j % b.len().max(1)..].first().map_or(0, |x| (*x as u128).wrapping_mul(1 + (j as u128) % 7))).modulo(if k == 0 { T::from_literal(1 << 30) } else { m })).collect()
}
fn polyfns<T: Integer>(i: &In) -> Vec<u8> {
    let m = [3u128, 11, 3329, 12289, 2, 17][i.z(1) % 6];
    let n = T::from_literal(m);
    let (b0, b1) = (i.f(0, 24), i.f(1, 24));
    let (x, y) = (polyvec(&b0, 1 + i.z(2) % 12, n, 1), polyvec(&b1, 1 + i.z(3) % 12, n, 1));
    match i.n(0) % 6 {
        0 => dbg(poly_add(&x, &y, n)),
        1 => dbg(poly_sub(&x, &y, n)),
        2 => dbg(poly_mul(&x, &y, n)),
        3 => dbg(poly_div(&x, &y, n)),
        4 => {
            let mut y = y;
            y.resize(x.len() + 1, T::ZERO);
            y[x.len()] = T::ONE;
            dbg(extended_euclid(&x, &y, n))
        }
        _ => dbg(leading_coefficient(&x)),
    }
}
macro_rules! polyring {
    ($p:ident, $t:ty, $l:expr, $n:expr, $i:expr) => {{
        let i: &In = $i;
        let mk = |k: usize| {
            let b = i.f(k, 2 * $l);
            let mut c = [0 as $t; $l];
            for j in 0..$l {
                c[j] = ((b[2 * j] as $t) << 8 | b[2 * j + 1] as $t) % $n;
            }
            $p::new_full(c)
        };
        let (x, y) = (mk(0), mk(1));
        match i.n(0) % 6 {
            0 => dbg(x + y),
            1 => dbg(x - y),
            2 => dbg(x * y),
            3 => dbg(x / y),
            4 => dbg(x.inv()),
            _ => dbg((x == y, x.compatible(&y), $p::new(&[(i.z(1) % $l, 2)]))),
        }
    }};
}
fn transmute(i: &In) -> Vec<u8> {
    let b = |n| bs(&i.f(0, n));
    match i.n(0) % 10 {
        0 => dbg((U16_from_be_bytes(U16Word::from_seq(&b(2))), U16_from_le_bytes(U16Word::from_seq(&b(2))), u16_to_be_bytes(i.w(1) as u16), u16_to_le_bytes(i.w(1) as u16))),
        1 => dbg((U32_from_be_bytes(U32Word::from_seq(&b(4))), U32_from_le_bytes(U32Word::from_seq(&b(4))), u32_to_be_bytes(i.w(1) as u32), u32_to_le_bytes(i.w(1) as u32))),
        2 => dbg((U64_from_be_bytes(U64Word::from_seq(&b(8))), U64_from_le_bytes(U64Word::from_seq(&b(8))), u64_to_be_bytes(i.w(1) as u64), u64_to_le_bytes(i.w(1) as u64))),
        3 => dbg((U128_from_be_bytes(U128Word::from_seq(&b(16))), U128_from_le_bytes(U128Word::from_seq(&b(16))), u128_to_be_bytes(i.w(1)), u128_to_le_bytes(i.w(1)))),
        4 => dbg((U16_to_be_bytes(U16(i.w(1) as u16)), U32_to_le_bytes(U32(i.w(1) as u32)), U64_to_be_bytes(U64(i.w(1) as u64)), U128_to_le_bytes(U128(i.w(1))))),
        5 => {
            let x = B48::from_public_slice(&i.f(0, 48));
            dbg((x.to_be_U32s(), x.to_le_U32s(), x.to_be_U64s(), x.to_le_U64s(), x.to_U128s_be(), x.to_U128s_le()))
        }
        6 => {
            let x = PB16::from_slice(&i.f(0, 16));
            dbg((x.to_be_u32s(), x.to_le_u32s(), x.to_be_u64s(), x.to_le_u64s(), x.to_u128s_be(), x.to_u128s_le()))
        }
        7 => {
            let x = A7::from_public_slice(&(0..7).map(|j| (i.w(0) >> j) as u32).collect::<Vec<_>>());
            dbg((x.to_be_bytes(), x.to_le_bytes()))
        }
        8 => {
            let n = i.z(1) % 24;
            dbg((U32::from_be_bytes(&b(n)[0..n]), U64::from_le_bytes(&b(n)[0..n])))
        }
        _ => dbg((
            <U32 as UnsignedSecretInteger>::from_be_bytes(&b(i.z(1) % 6)),
            <u64 as UnsignedPublicInteger>::from_le_bytes(&Seq::from_vec(i.f(0, 8))),
        )),
    }
}
fn hexes(i: &In) -> Vec<u8> {
    // strings with odd lengths and non-digits as well
    let mut s = i.h(0, i.z(1) % 24);
    match i.n(2) % 6 {
        0 => {
            s.pop();
        }
        1 if !s.is_empty() => {
            let p = i.z(3) % s.len();
            s.replace_range(p..p + 1, "g");
        }
        _ => {}
    }
    match i.n(0) % 6 {
        0 => sv(&ByteSeq::from_hex(&s)),
        1 => sv(&PublicSeq::<u8>::from_hex(&s)),
        2 => sv(&B16::from_hex(&s)),
        3 => sv(&PB16::from_hex(&s)),
        4 => dbg((ByteSeq::from_string(s.clone()), PublicSeq::<u8>::from_string(s))),
        _ => dbg((bs(&i.f(0, 9)).to_hex(), B16::from_public_slice(&i.f(0, 16)).to_hex(), PB16::from_slice(&i.f(1, 16)).to_hex())),
    }
}
fn casts(i: &In) -> Vec<u8> {
    let w = i.w(0);
    dbg((
        (U128::from(U8(w as u8)), U8::from(U128(w)), U64::from(U32(w as u32)), U16::from(U64(w as u64))),
        (u8::from(U8(w as u8)), u128::from(U64(w as u64)), usize::from(U8(w as u8)), U64::from(w as usize)),
        (I64::from(I8(w as i8)), I16::from(I128(w as i128)), I32::from(U32(w as u32)), U64::from(I64(w as i64))),
        (U32::from(w as u8), -U32(w as u32), -I32(w as i32 >> 1), !U64(w as u64)),
        (U32(w as u32).rotate_left(i.n(1) as u32 % 40), U8(w as u8) >> (i.n(1) as u32 % 8)),
    ))
}
fn seqs(i: &In) -> Vec<u8> {
    let (x, y) = (PublicSeq::<u32>::from_vec(i.b(0).iter().map(|x| (*x as u32) << 20).collect()), PublicSeq::<u32>::from_vec(i.b(1).iter().map(|x| *x as u32 * 0x1010101).collect()));
    match i.n(0) % 7 {
        0 => sv(&(x + y)),
        1 => sv(&(x - y)),
        2 => sv(&(x * y)),
        3 => sv(&vec_poly_add(x, y, 65521)),
        4 => sv(&vec_poly_sub(x, y, 65521)),
        5 => sv(&vec_poly_mul((&x).sub(0, y.len()), y, 4093)),
        _ => dbg((bs(i.b(0)) == bs(i.b(1)), SecretSeq::<U16>::new(i.z(1) % 9), Seq::<u64>::from_slice(&[i.n(1), i.n(2)]))),
    }
}
fn open_res(r: Result<ByteSeq, String>) -> Vec<u8> {
    match r {
        Ok(m) => un(&m),
        Err(e) => dbg(("error", e)),
    }
}
fn aead(i: &In) -> Vec<u8> {
    let (a, m, k) = (bs(i.b(0)), bs(i.b(1)), i.f(2, 32));
    let n: Vec<u8> = i.f(2, 44)[32..].to_vec();
    let flip = i.n(1) & 1 == 1;
    match i.n(0) % 3 {
        0 => {
            let (k, n) = (aes::Key128::from_public_slice(&k[..16]), aes::Nonce::from_public_slice(&n));
            let (c, t) = aes_gcm::encrypt_aes128(k, n, &a, &m);
            let mut t2 = un(&t);
            t2[3] ^= flip as u8;
            [un(&c), un(&t), open_res(aes_gcm::decrypt_aes128(k, n, &a, &c, gf128::Tag::from_public_slice(&t2)))].concat()
        }
        1 => {
            let (k, n) = (aes::Key256::from_public_slice(&k), aes::Nonce::from_public_slice(&n));
            let (c, t) = aes_gcm::encrypt_aes256(k, n, &a, &m);
            let mut t2 = un(&t);
            t2[9] ^= flip as u8;
            [un(&c), un(&t), open_res(aes_gcm::decrypt_aes256(k, n, &a, &c, gf128::Tag::from_public_slice(&t2)))].concat()
        }
        _ => {
            let (k, n) = (chacha20::Key::from_public_slice(&k), chacha20::IV::from_public_slice(&n));
            let (c, t) = ccp::encrypt(k, n, &a, &m).unwrap();
            let mut t2: Vec<u8> = t.iter().copied().collect();
            t2[15] ^= flip as u8;
            [un(&c), t.iter().copied().collect(), open_res(ccp::decrypt(k, n, &a, &c, poly1305::Tag::from_slice(&t2)))].concat()
        }
    }
}
fn ciphers(i: &In) -> Vec<u8> {
    let (m, k, n) = (bs(i.b(0)), i.f(1, 32), i.f(2, 12));
    let c = i.n(1) as u32;
    let (k128, k256, an) = (aes::Key128::from_public_slice(&k[..16]), aes::Key256::from_public_slice(&k), aes::Nonce::from_public_slice(&n));
    let (ck, cn) = (chacha20::Key::from_public_slice(&k), chacha20::IV::from_public_slice(&n));
    match i.n(0) % 10 {
        0 => un(&aes::aes128_encrypt(k128, an, U32(c), &m)),
        1 => un(&aes::aes256_decrypt(k256, an, U32(c), &m)),
        2 => open_res(chacha20::chacha(ck, cn, &m)),
        3 => un(&chacha20::block(ck, U32(c), cn)),
        // the key length is checked inside
        4 => un(&aes::aes128_encrypt_block(k128, aes::Block::from_public_slice(&i.f(0, 16)), 4, if c & 7 == 0 { 12 } else { 10 })),
        5 => un(&aes::aes256_encrypt_block(k256, aes::Block::from_public_slice(&i.f(0, 16)), 8, 14)),
        6 => un(&aes::aes256_encrypt(k256, an, U32(c), &m)),
        7 => un(&aes::aes128_decrypt(k128, an, U32(c), &m)),
        8 => un(&chacha20::state_to_bytes(chacha20::block_init(ck, U32(c), cn))),
        _ => {
            let st = chacha20::block_inner(ck, U32(c), cn);
            let j = i.z(2);
            un(&chacha20::state_to_bytes(chacha20::quarter_round((j % 4) as u32, (4 + j / 4 % 4) as u32, (8 + j / 16 % 4) as u32, (12 + j / 64 % 4) as u32, st)))
        }
    }
}
fn macs(i: &In) -> Vec<u8> {
    match i.n(0) % 5 {
        0 => un(&hmac::hmac(&bs(i.b(1)), &bs(i.b(0)))),
        1 => un(&hkdf::extract(&bs(i.b(1)), &bs(i.b(0)))),
        2 => un(&hkdf::expand(&bs(&i.f(1, 32)), &bs(i.b(0)), if i.n(2) % 6 == 0 { 8161 } else { i.z(1) % 100 })),
        3 => poly1305::poly(&bs(i.b(0)), chacha20::Key::from_public_slice(&i.f(1, 32))).iter().copied().collect(),
        _ => un(&gf128::gmac(&bs(&i.f(0, i.b(0).len() / 16 * 16)), gf128::Key::from_public_slice(&i.f(1, 16)))),
    }
}
fn hashes(i: &In) -> Vec<u8> {
    let m = bs(i.b(0));
    match i.n(0) % 8 {
        0 => un(&sha2::hash(&m)),
        1 => un(&fips202::sha3224(&m)),
        2 => un(&fips202::sha3256(&m)),
        3 => un(&fips202::sha3384(&m)),
        4 => un(&fips202::sha3512(&m)),
        5 => un(&fips202::shake128(&m, i.z(1) % 400)),
        6 => un(&fips202::shake256(&m, i.z(1) % 300)),
        _ => un(&blake2b::blake2b(&m)),
    }
}
fn x25519(i: &In) -> Vec<u8> {
    let k = SerializedScalar::from_public_slice(&i.f(0, 32));
    match i.n(0) % 2 {
        0 => un(&scalarmult(k, SerializedPoint::from_public_slice(&i.f(1, 32)))),
        _ => un(&secret_to_public(k)),
    }
}
fn nist(i: &In) -> Vec<u8> {
    let (x, y) = p256::point_mul(p256::Scalar::from_hex(&i.h(0, [1, 2, 4, 32][i.z(0) % 4])));
    dbg((x, y))
}
fn arrays(i: &In) -> Vec<u8> {
    let v = i.b(0).iter().map(|x| *x as u32).collect::<Vec<_>>();
    match i.n(0) % 8 {
        0 => sv(&P7::from_slice(&v)),
        1 => sv(&P7::from_vec(v)),
        2 => sv(&P7::from_seq(&Seq::from_vec(v))),
        3 => sv(&P7::from_sub(&Seq::from_vec(v), i.z(1) % 5, 7)),
        4 => {
            let s = BothS::from_public(BothP::from_vec((0..6).map(|j| i.w(0) as u32 ^ j).collect()));
            dbg((s, BothP::from_secret_declassify(s), BothSB::from_public_slice(&i.f(1, 9))))
        }
        5 => sv(&A7::from_public_slice(&v)),
        6 => dbg((B20::from_public_slice(&i.f(0, 20)).declassify_eq(&B20::from_public_slice(&i.f(1, 20))), PB20::from_slice(&i.f(0, 20)) == PB20::from_slice(&i.f(1, 20)))),
        _ => dbg((Gen8::<u16>::from_slice(&i.f(0, 8).iter().map(|x| *x as u16).collect::<Vec<_>>()), PS6::from_vec((0..6).map(|j| i.w(0) as i32 >> j).collect()))),
    }
}
/// What the rest of the catalogue leaves out.
fn extras(i: &In) -> Vec<u8> {
    let (v, w) = (i.f(0, 5), i.f(1, 5));
    match i.n(0) % 8 {
        // messages that do not fill their last block
        0 => un(&gf128::gmac(&bs(i.b(0)), gf128::Key::from_public_slice(&i.f(1, 16)))),
        1 => poly1305::poly_mac(&bs(i.b(0)), chacha20::Key::from_public_slice(&i.f(1, 32)), chacha20::IV::from_public_slice(&i.f(2, 12))).iter().copied().collect(),
        2 => {
            let (x, y) = (P5::from_array([v[0] as u16, v[1] as u16, 3, 4, 5]), P5::from_array([w[0] as u16, w[1] as u16, 3, 4, 5]));
            dbg((x, x[..].to_vec(), P5::capacity(), P5::default(), x.cmp(&y), x < y, x == y))
        }
        3 => dbg((Gen8::<u64>::capacity(), Gen8::<u64>::default(), A5::from_array([U16(v[0] as u16); 5])[..].to_vec(), PB20::default(), B8::capacity())),
        4 => dbg((U8::max_value(), U16::zero(), U32::ones(), U64::max_value(), U128::ones(), U64::one(), U8::zero())),
        5 => {
            let (x, y) = (NP::from_le_bytes(&i.f(0, 32)), NP::from_le_bytes(&i.f(1, 32)));
            dbg((x.wrap_add(y), x.wrap_sub(y), x.wrap_mul(y)))
        }
        6 => {
            let (x, y) = (NS::from_le_bytes(&i.f(0, 16)), NS::from_le_bytes(&i.f(1, 16)));
            dbg((x.wrap_add(y), x.wrap_sub(y), x.wrap_mul(y)))
        }
        _ => {
            let (x, y) = (PublicSeq::from_vec(v.iter().map(|x| *x as u64).collect()), PublicSeq::from_vec(w.iter().map(|x| *x as u64 * 0x0101_0101).collect()));
            match i.n(1) % 5 {
                0 => sv(&x.wrap_add(y)),
                1 => sv(&x.wrap_sub(y)),
                2 => sv(&x.wrap_mul(y)),
                3 => sv(&(x ^ y)),
                _ => dbg((SecretSeq::from_vec(vec![U8(v[0]), U8(v[1])]), x.iter().count())),
            }
        }
    }
}
fn mk_up(x: u128) -> UP {
    UP::from_literal(x >> 56)
}
fn mk_sp(x: u128) -> SP {
    SP::from_signed_literal(x as i128 >> 63)
}
fn mk_us(x: u128) -> US {
    US::from_literal(x >> 32)
}
fn mk_ss(x: u128) -> SS {
    SS::from_signed_literal(x as i128 >> 87)
}
fn mk_legacy(x: u128) -> Legacy {
    Legacy::from_literal(x >> 72)
}

/// (name, relative cost, operation)
pub const OPS: &[(&str, u32, fn(&In) -> Vec<u8>)] = &[
    ("arith_u8", 1, |i| arith::<u8>(i)),
    ("arith_u16", 1, |i| arith::<u16>(i)),
    ("arith_u32", 1, |i| arith::<u32>(i)),
    ("arith_u64", 1, |i| arith::<u64>(i)),
    ("arith_u128", 1, |i| arith::<u128>(i)),
    ("arith_i8", 1, |i| arith::<i8>(i)),
    ("arith_i32", 1, |i| arith::<i32>(i)),
    ("arith_i64", 1, |i| arith::<i64>(i)),
    ("arith_i128", 1, |i| arith::<i128>(i)),
    ("arith_U8", 1, |i| arith::<U8>(i)),
    ("arith_U16", 1, |i| arith::<U16>(i)),
    ("arith_U32", 1, |i| arith::<U32>(i)),
    ("arith_U64", 1, |i| arith::<U64>(i)),
    ("arith_U128", 1, |i| arith::<U128>(i)),
    ("arith_I16", 1, |i| arith::<I16>(i)),
    ("arith_I64", 1, |i| arith::<I64>(i)),
    ("inv_u32", 1, |i| inverse::<u32>(i)),
    ("inv_u64", 1, |i| inverse::<u64>(i)),
    ("inv_U16", 1, |i| inverse::<U16>(i)),
    ("inv_U64", 1, |i| inverse::<U64>(i)),
    ("inv_i64", 1, |i| inverse::<i64>(i)),
    ("bounded_up", 1, |i| bounded!(UP, i, mk_up)),
    ("bounded_sp", 1, |i| bounded!(SP, i, mk_sp)),
    ("bounded_us", 1, |i| bounded!(US, i, mk_us)),
    ("bounded_ss", 1, |i| bounded!(SS, i, mk_ss)),
    ("bounded_legacy", 1, |i| bounded!(Legacy, i, mk_legacy)),
    ("bounded_public_up", 1, |i| bounded_public!(UP, i, mk_up)),
    ("bounded_public_sp", 1, |i| bounded_public!(SP, i, mk_sp)),
    ("bounded_public_legacy", 1, |i| bounded_public!(Legacy, i, mk_legacy)),
    ("mod_ns", 1, |i| modular!(NS, i, 16)),
    ("mod_np", 1, |i| modular!(NP, i, 32)),
    ("mod_nq", 1, |i| modular!(NQ, i, 2)),
    ("mod_an", 1, |i| modular!(AN, i, 8)),
    ("mod_apn", 1, |i| modular!(APN, i, 3)),
    ("mod_legacy", 1, |i| modular!(LegacyMod, i, 7)),
    ("mod_public_np", 4, |i| modular_public!(NP, i, 32)),
    ("mod_public_nq", 1, |i| modular_public!(NQ, i, 2)),
    ("mod_public_apn", 1, |i| modular_public!(APN, i, 3)),
    ("mod_public_legacy", 1, |i| modular_public!(LegacyMod, i, 7)),
    ("vec_A5", 1, |i| vecs!(A5, u16, i, 5, U16)),
    ("vec_A7", 1, |i| vecs!(A7, u32, i, 7, U32)),
    ("vec_A4", 1, |i| vecs!(A4, u64, i, 4, U64)),
    ("vec_A3", 1, |i| vecs!(A3, u128, i, 3, U128)),
    ("vec_B8", 1, |i| vecs!(B8, u8, i, 8, U8)),
    ("vec_P5", 1, |i| vecs!(P5, u16, i, 5, u16::from)),
    ("vec_P7", 1, |i| vecs!(P7, u32, i, 7, u32::from)),
    ("vec_P4", 1, |i| vecs!(P4, u64, i, 4, u64::from)),
    ("vec_P3", 1, |i| vecs!(P3, u128, i, 3, u128::from)),
    ("seq_bytes", 1, |i| container!(bs(i.b(0)), i)),
    ("seq_public", 1, |i| container!(PublicSeq::<u8>::from_vec(i.b(0).to_vec()), i)),
    ("seq_secret", 1, |i| container!(SecretSeq::<U8>::from_vec(i.b(0).iter().map(|x| U8(*x)).collect()), i)),
    ("array_b20", 1, |i| container!(B20::from_public_slice(&i.f(0, 20)), i)),
    ("array_pb20", 1, |i| container!(PB20::from_slice(&i.f(0, 20)), i)),
    ("array_gen8", 1, |i| container!(Gen8::<u64>::from_vec(i.f(0, 8).iter().map(|x| *x as u64).collect()), i)),
    ("seq_arith", 1, seqs),
    ("array_build", 1, arrays),
    ("polyfn_u128", 2, |i| polyfns::<u128>(i)),
    ("polyfn_i128", 2, |i| polyfns::<i128>(i)),
    ("polyfn_i64", 2, |i| polyfns::<i64>(i)),
    ("ring_ntru", 3, |i| polyring!(Ntru, i128, 11, 3, i)),
    ("ring_kyber", 4, |i| polyring!(Kyb, u128, 16, 3329, i)),
    ("ring_tern", 2, |i| polyring!(Tern, u128, 5, 11, i)),
    ("transmute", 1, transmute),
    ("hex", 1, hexes),
    ("casts", 1, casts),
    ("aead", 4, aead),
    ("cipher", 3, ciphers),
    ("mac", 4, macs),
    ("hash", 3, hashes),
    ("x25519", 200, x25519),
    ("p256", 100, nist),
    ("extras", 1, extras),
];
pub fn index(s: &Step) -> usize {
    s.usz(1) % OPS.len()
}
pub fn index_of(name: &str) -> usize {
    OPS.iter().position(|o| o.0 == name).unwrap()
}
pub fn name(s: &Step) -> &'static str {
    OPS[index(s)].0
}
/// Runs the operation of a step: arg 0 is free for the caller, arg 1 the operation, arg 2.. its numbers.
pub fn run(s: &Step) -> Vec<u8> {
    let a: &[u64] = if s.a.len() > 2 { &s.a[2..] } else { &[] };
    (OPS[index(s)].2)(&In { a, d: &s.d })
}
/// The result with panics and their messages as part of it.
pub fn outcome(s: &Step) -> Vec<u8> {
    match simkit::guard(|| run(s)) {
        Ok(mut v) => {
            v.insert(0, b'+');
            v
        }
        // the place of a panic is part of the outcome only by its message, not by its line
        Err(p) => format!("!{}", p.rsplit_once(" at ").map_or(&p[..], |x| x.0)).into_bytes(),
    }
}
/// A pool of operand byte strings: some fresh ones and some that differ from another in one place only.
pub fn pool(r: &mut SimRng) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    let n = 2 + r.usz(4);
    for _ in 0..n {
        let len = match r.below(6) {
            0 => r.usz(4),
            1 => 16,
            2 => 32,
            3 => r.len(140, &[16, 64]),
            _ => 1 + r.usz(48),
        };
        v.push(r.special_bytes(len));
    }
    for _ in 0..r.usz(4) {
        let mut c = r.pick(&v).clone();
        if c.is_empty() {
            continue;
        }
        let p = match r.below(3) {
            0 => 0,
            1 => c.len() - 1,
            _ => r.usz(c.len()),
        };
        match r.below(3) {
            0 => c[p] ^= 1 << r.below(8),
            1 => c.truncate(p),
            _ => {
                let q = r.usz(c.len());
                c.swap(p, q)
            }
        }
        v.push(c);
    }
    v
}
/// A random operation, often a sibling of an earlier one.
pub fn gen_op(r: &mut SimRng, pool: &[Vec<u8>], kinds: &[usize], arg0: u64) -> Step {
    let k = *r.pick(kinds);
    let mut a = vec![arg0, k as u64];
    for _ in 0..4 {
        a.push(match r.below(4) {
            0 => r.below(3),
            1 => r.below(20),
            2 => r.below(1000),
            _ => r.special_u64(),
        });
    }
    // the variant must reach every branch evenly
    a[2] = r.below(840);
    let d = (0..3).map(|_| r.pick(pool).clone()).collect();
    Step::with("op", &a, d)
}
/// The kinds of one run: few, so that calls of the same kind meet; slow ones rarely.
pub fn gen_kinds(r: &mut SimRng, max_cost: u32) -> Vec<usize> {
    let n = 1 + r.usz(4);
    let mut v = vec![];
    while v.len() < n {
        let k = r.usz(OPS.len());
        if OPS[k].1 <= max_cost {
            v.push(k)
        }
    }
    v
}

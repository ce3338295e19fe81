//! C12: a computation saves its values in byte and hex forms, crashes at any point, possibly in the middle
//! of a save, and goes on from the last complete save, in the library or in another implementation.
use crate::c06::{B300, B31, B64, D16, D31, H31, P31, P64, Q31, W16, W260, W31};
use crate::nums::*;
use crate::util::*;
use hacspec::prelude::*;
use num::{BigInt, One, Signed, ToPrimitive, Zero};
use simkit::ctx::hash_bytes;
use simkit::rng::{mix64, Rng as SimRng};
use simkit::{guard, Ctx, Prop, Res, Step};

/// Updates with more bytes than this make a list or a sequence long.
const LONG: usize = 200;
/// One live value: the library's object, its forms, and the reference reading of each form. The
/// canonical bytes of a value are its number in little-endian order, or its content.
trait Cell {
    fn name(&self) -> String;
    fn forms(&self) -> u64;
    fn start(&self) -> Vec<u8>;
    fn apply(&mut self, op: u64, d: &[u8]);
    fn save(&self, form: u64) -> Vec<u8>;
    fn load(&mut self, form: u64, b: &[u8]);
    fn val(&self) -> Vec<u8>;
    /// what an update makes of a value; None: not applicable
    fn m_apply(&self, v: &[u8], op: u64, d: &[u8]) -> Option<Vec<u8>>;
    fn enc(&self, form: u64, v: &[u8]) -> Vec<u8>;
    /// None: must be refused
    fn dec(&self, form: u64, b: &[u8]) -> Option<Vec<u8>>;
    /// forms whose text is hex digits
    fn text(&self, form: u64) -> bool;
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(t: &[u8]) -> Option<Vec<u8>> {
    if t.len() % 2 != 0 || !t.iter().all(|c| c.is_ascii_hexdigit()) {
        return None;
    }
    let s = std::str::from_utf8(t).unwrap();
    Some((0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect())
}
fn text_of(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
fn rev(b: &[u8]) -> Vec<u8> {
    b.iter().rev().copied().collect()
}
fn swap(b: &[u8], w: usize) -> Vec<u8> {
    b.chunks(w).flat_map(rev).collect()
}
fn fit(d: &[u8], n: usize) -> Vec<u8> {
    (0..n).map(|i| if d.is_empty() { 0 } else { d[i % d.len()] }).collect()
}
/// Wrapping updates of a little-endian number.
fn m_int(v: &[u8], op: u64, d: &[u8]) -> Vec<u8> {
    let b = 8 * v.len() as u32;
    let (x, y) = (of_le(v, false, b), of_le(&fit(d, v.len()), false, b));
    let z = match op % 3 {
        0 => x + y,
        1 => x - y,
        _ => x * y,
    };
    let mut r = le(&wrap(&z, b, false));
    r.resize(v.len(), 0);
    r
}
fn raw_seq(b: &[u8]) -> Vec<U8> {
    b.iter().map(|x| U8(*x)).collect()
}
fn out(v: &[U8]) -> Vec<u8> {
    v.iter().map(|x| x.declassify()).collect()
}

macro_rules! int_cell {
    ($c:ident, $s:ident, $p:ident, $w:literal, $words:expr, $pubforms:expr, $pload:expr, $psave:expr) => {
        struct $c($s);
        impl Cell for $c {
            fn name(&self) -> String {
                stringify!($s).into()
            }
            fn forms(&self) -> u64 {
                12
            }
            fn start(&self) -> Vec<u8> {
                vec![0; $w]
            }
            fn apply(&mut self, op: u64, d: &[u8]) {
                let y = <$s as Mach>::of(&of_le(&fit(d, $w), false, 8 * $w), op >> 8);
                self.0 = self.0.plain(y, op % 3);
            }
            fn save(&self, form: u64) -> Vec<u8> {
                let x = self.0;
                let p: $p = x.declassify();
                match form {
                    0 => un(&UnsignedSecretInteger::to_le_bytes(x)),
                    1 => un(&UnsignedSecretInteger::to_be_bytes(x)),
                    2 => out(&$s::to_le_bytes(&[x])),
                    3 => out(&$s::to_be_bytes(&[x])),
                    4 => (0..$w).map(|i| x.get_byte(i).declassify() as u8).collect(),
                    5 => format!("{:0w$x}", x, w = 2 * $w).into_bytes(),
                    6 => UnsignedPublicInteger::to_le_bytes(p).iter().copied().collect(),
                    7 => UnsignedPublicInteger::to_be_bytes(p).iter().copied().collect(),
                    8 => UnsignedSecretInteger::to_be_bytes(x).to_hex().into_bytes(),
                    9 => PublicSeq::<u8>::from_seq(&UnsignedPublicInteger::to_le_bytes(p)).to_hex().into_bytes(),
                    f => {
                        let g: fn($s, bool) -> Vec<u8> = $psave;
                        g(x, f == 11)
                    }
                }
            }
            fn load(&mut self, form: u64, b: &[u8]) {
                let one = |v: Vec<$s>| {
                    assert!(v.len() == 1, "wrong length");
                    v[0]
                };
                self.0 = match form {
                    0 => UnsignedSecretInteger::from_le_bytes(&bs(b)),
                    1 => UnsignedSecretInteger::from_be_bytes(&bs(b)),
                    2 => one($s::from_le_bytes(&raw_seq(b))),
                    3 => one($s::from_be_bytes(&raw_seq(b))),
                    4 => UnsignedSecretInteger::from_le_bytes(&bs(b)),
                    5 => UnsignedSecretInteger::from_be_bytes(&ByteSeq::from_hex(&text_of(b))),
                    6 => $s::classify(<$p as UnsignedPublicInteger>::from_le_bytes(&Seq::from_vec(b.to_vec()))),
                    7 => $s::classify(<$p as UnsignedPublicInteger>::from_be_bytes(&Seq::from_vec(b.to_vec()))),
                    8 => UnsignedSecretInteger::from_be_bytes(&ByteSeq::from_string(text_of(b))),
                    9 => $s::classify(<$p as UnsignedPublicInteger>::from_le_bytes(&Seq::from_seq(&PublicSeq::<u8>::from_hex(&text_of(b))))),
                    f => {
                        let g: fn(&[u8], bool) -> $s = $pload;
                        g(b, f == 11)
                    }
                };
            }
            fn val(&self) -> Vec<u8> {
                self.0.declassify().to_le_bytes().to_vec()
            }
            fn m_apply(&self, v: &[u8], op: u64, d: &[u8]) -> Option<Vec<u8>> {
                Some(m_int(v, op, d))
            }
            fn enc(&self, form: u64, v: &[u8]) -> Vec<u8> {
                match form {
                    0 | 2 | 4 | 6 | 10 => v.to_vec(),
                    1 | 3 | 7 | 11 => rev(v),
                    5 | 8 => hex(&rev(v)).into_bytes(),
                    _ => hex(v).into_bytes(),
                }
            }
            fn dec(&self, form: u64, b: &[u8]) -> Option<Vec<u8>> {
                let b = if self.text(form) { unhex(b)? } else { b.to_vec() };
                if b.len() != $w {
                    return None;
                }
                Some(if matches!(form, 1 | 3 | 5 | 7 | 8 | 11) { rev(&b) } else { b })
            }
            fn text(&self, form: u64) -> bool {
                matches!(form, 5 | 8 | 9)
            }
        }
    };
}
macro_rules! word_cell {
    ($c:ident, $s:ident, $p:ident, $w:literal, $sw:ident, $pw:ident, $tl:ident, $tb:ident, $fl:ident, $fb:ident, $ptl:ident, $ptb:ident, $pfl:ident, $pfb:ident) => {
        int_cell!(
            $c,
            $s,
            $p,
            $w,
            1,
            2,
            |b, be| if b.len() % 2 == 0 {
                // the conversion functions on words
                if be {
                    $fb($sw::from_seq(&bs(b)))
                } else {
                    $fl($sw::from_seq(&bs(b)))
                }
            } else if be {
                $s::classify($pfb($pw::from_vec(b.to_vec())))
            } else {
                $s::classify($pfl($pw::from_vec(b.to_vec())))
            },
            |x, be| {
                let p = x.declassify();
                if p % 2 == 0 {
                    un(&if be { $tb(x) } else { $tl(x) })
                } else {
                    let w = if be { $ptb(p) } else { $ptl(p) };
                    w.iter().copied().collect()
                }
            }
        );
    };
}
int_cell!(C8, U8, u8, 1, 1, 2, |b, _| UnsignedSecretInteger::from_le_bytes(&bs(b)), |x, _| vec![x.declassify()]);
word_cell!(C16, U16, u16, 2, U16Word, u16Word, U16_to_le_bytes, U16_to_be_bytes, U16_from_le_bytes, U16_from_be_bytes, u16_to_le_bytes, u16_to_be_bytes, u16_from_le_bytes, u16_from_be_bytes);
word_cell!(C32, U32, u32, 4, U32Word, u32Word, U32_to_le_bytes, U32_to_be_bytes, U32_from_le_bytes, U32_from_be_bytes, u32_to_le_bytes, u32_to_be_bytes, u32_from_le_bytes, u32_from_be_bytes);
word_cell!(C64, U64, u64, 8, U64Word, u64Word, U64_to_le_bytes, U64_to_be_bytes, U64_from_le_bytes, U64_from_be_bytes, u64_to_le_bytes, u64_to_be_bytes, u64_from_le_bytes, u64_from_be_bytes);
word_cell!(C128, U128, u128, 16, U128Word, u128Word, U128_to_le_bytes, U128_to_be_bytes, U128_from_le_bytes, U128_from_be_bytes, u128_to_le_bytes, u128_to_be_bytes, u128_from_le_bytes, u128_from_be_bytes);

/// Several integers saved as one byte string, any number of them.
macro_rules! ints_cell {
    ($c:ident, $s:ident, $p:ident, $w:literal) => {
        struct $c(Vec<$s>);
        impl Cell for $c {
            fn name(&self) -> String {
                concat!("list of ", stringify!($s)).into()
            }
            fn forms(&self) -> u64 {
                2
            }
            fn start(&self) -> Vec<u8> {
                vec![]
            }
            fn apply(&mut self, op: u64, d: &[u8]) {
                if d.len() > LONG {
                    self.0 = d.chunks_exact($w).map(|c| <$s as Mach>::of(&of_le(c, true, 8 * $w), op >> 8)).collect();
                } else if op % 5 == 0 && self.0.len() < 9 {
                    self.0.push(<$s as Mach>::of(&of_le(&fit(d, $w), true, 8 * $w), op >> 8));
                } else {
                    let y = <$s as Mach>::of(&of_le(&fit(d, $w), true, 8 * $w), op >> 8);
                    for x in self.0.iter_mut() {
                        *x = x.plain(y, op % 3);
                    }
                }
            }
            fn save(&self, form: u64) -> Vec<u8> {
                if form == 0 {
                    out(&$s::to_le_bytes(&self.0))
                } else {
                    out(&$s::to_be_bytes(&self.0))
                }
            }
            fn load(&mut self, form: u64, b: &[u8]) {
                self.0 = if form == 0 { $s::from_le_bytes(&raw_seq(b)) } else { $s::from_be_bytes(&raw_seq(b)) };
            }
            fn val(&self) -> Vec<u8> {
                self.0.iter().flat_map(|x| (x.declassify() as $p).to_le_bytes().to_vec()).collect()
            }
            fn m_apply(&self, v: &[u8], op: u64, d: &[u8]) -> Option<Vec<u8>> {
                Some(if d.len() > LONG {
                    d[..d.len() / $w * $w].to_vec()
                } else if op % 5 == 0 && v.len() < 9 * $w {
                    [v.to_vec(), fit(d, $w)].concat()
                } else {
                    v.chunks($w).flat_map(|x| m_int(x, op, &fit(d, $w))).collect()
                })
            }
            fn enc(&self, form: u64, v: &[u8]) -> Vec<u8> {
                if form == 0 {
                    v.to_vec()
                } else {
                    swap(v, $w)
                }
            }
            fn dec(&self, form: u64, b: &[u8]) -> Option<Vec<u8>> {
                if b.len() % $w != 0 {
                    return None;
                }
                Some(self.enc(form, b))
            }
            fn text(&self, _form: u64) -> bool {
                false
            }
        }
    };
}
ints_cell!(L8, U8, u8, 1);
ints_cell!(L16, U16, u16, 2);
ints_cell!(L32, U32, u32, 4);
ints_cell!(L64, U64, u64, 8);
ints_cell!(L128, U128, u128, 16);
ints_cell!(M8, I8, u8, 1);
ints_cell!(M16, I16, u16, 2);
ints_cell!(M32, I32, u32, 4);
ints_cell!(M64, I64, u64, 8);
ints_cell!(M128, I128, u128, 16);

/// Arrays of secret integers.
macro_rules! arr_cell {
    ($c:ident, $a:ident, $s:ident, $p:ident, $w:literal, $l:literal, $forms:expr, $save:expr, $load:expr, $enc:expr, $dec:expr) => {
        struct $c($a);
        impl Cell for $c {
            fn name(&self) -> String {
                concat!("array of ", stringify!($l), " ", stringify!($s)).into()
            }
            fn forms(&self) -> u64 {
                3 + $forms
            }
            fn start(&self) -> Vec<u8> {
                vec![0; $w * $l]
            }
            fn apply(&mut self, op: u64, d: &[u8]) {
                let y: Vec<$s> = fit(d, $w * $l).chunks($w).map(|c| <$s as Mach>::of(&of_le(c, false, 8 * $w), op >> 8)).collect();
                let y = $a::from_vec(y);
                self.0 = match op % 4 {
                    0 => self.0 + y,
                    1 => self.0 - y,
                    2 => self.0 * y,
                    _ => {
                        let i = (op >> 8) as usize % $l;
                        let mut a = self.0;
                        a[i] = y[i];
                        a
                    }
                };
            }
            fn save(&self, form: u64) -> Vec<u8> {
                match form {
                    0 => un(&self.0.to_le_bytes()),
                    1 => un(&self.0.to_be_bytes()),
                    2 => self.0.iter().flat_map(|x| x.declassify().to_le_bytes().to_vec()).collect(),
                    f => {
                        let g: fn(&$a, u64) -> Vec<u8> = $save;
                        g(&self.0, f - 3)
                    }
                }
            }
            fn load(&mut self, form: u64, b: &[u8]) {
                self.0 = match form {
                    0 => $a::from_vec($s::from_le_bytes(&raw_seq(b))),
                    1 => $a::from_seq(&Seq::from_vec($s::from_be_bytes(&raw_seq(b)))),
                    2 => {
                        assert!(b.len() % $w == 0);
                        let v: Vec<$p> = b.chunks($w).map(|c| $p::from_le_bytes(c.try_into().unwrap())).collect();
                        $a::from_public_slice(&v)
                    }
                    f => {
                        let g: fn(&[u8], u64) -> $a = $load;
                        g(b, f - 3)
                    }
                };
            }
            fn val(&self) -> Vec<u8> {
                self.0.iter().flat_map(|x| x.declassify().to_le_bytes().to_vec()).collect()
            }
            fn m_apply(&self, v: &[u8], op: u64, d: &[u8]) -> Option<Vec<u8>> {
                let y = fit(d, $w * $l);
                Some(match op % 4 {
                    3 => {
                        let i = (op >> 8) as usize % $l;
                        let mut v = v.to_vec();
                        v[i * $w..(i + 1) * $w].copy_from_slice(&y[i * $w..(i + 1) * $w]);
                        v
                    }
                    o => v.chunks($w).zip(y.chunks($w)).flat_map(|(a, b)| m_int(a, o, b)).collect(),
                })
            }
            fn enc(&self, form: u64, v: &[u8]) -> Vec<u8> {
                match form {
                    0 | 2 => v.to_vec(),
                    1 => swap(v, $w),
                    f => {
                        let g: fn(&[u8], u64) -> Vec<u8> = $enc;
                        g(v, f - 3)
                    }
                }
            }
            fn dec(&self, form: u64, b: &[u8]) -> Option<Vec<u8>> {
                let v = match form {
                    0 | 1 | 2 => self.enc(form, b),
                    f => {
                        let g: fn(&[u8], u64) -> Option<Vec<u8>> = $dec;
                        g(b, f - 3)?
                    }
                };
                if v.len() == $w * $l {
                    Some(v)
                } else {
                    None
                }
            }
            fn text(&self, form: u64) -> bool {
                $w == 1 && (form == 3 || form == 4)
            }
        }
    };
    ($c:ident, $a:ident, $s:ident, $p:ident, $w:literal, $l:literal) => {
        arr_cell!($c, $a, $s, $p, $w, $l, 0, |_, _| unreachable!(), |_, _| unreachable!(), |_, _| unreachable!(), |_, _| unreachable!());
    };
}
arr_cell!(A16, H31, U16, u16, 2, 31);
arr_cell!(A32, W16, U32, u32, 4, 16);
arr_cell!(A33, W31, U32, u32, 4, 31);
arr_cell!(A64, D16, U64, u64, 8, 16);
arr_cell!(A65, D31, U64, u64, 8, 31);
arr_cell!(A128, Q31, U128, u128, 16, 31);
arr_cell!(A260, W260, U32, u32, 4, 260);
arr_cell!(
    A8,
    B31,
    U8,
    u8,
    1,
    31,
    2,
    |a, _| a.to_hex().into_bytes(),
    |b, f| if f == 0 { B31::from_hex(&text_of(b)) } else { B31::from_seq(&ByteSeq::from_hex(&text_of(b))) },
    |v, _| hex(v).into_bytes(),
    |b, _| unhex(b)
);
arr_cell!(
    A300,
    B300,
    U8,
    u8,
    1,
    300,
    2,
    |a, _| a.to_hex().into_bytes(),
    |b, f| if f == 0 { B300::from_hex(&text_of(b)) } else { B300::from_seq(&ByteSeq::from_hex(&text_of(b))) },
    |v, _| hex(v).into_bytes(),
    |b, _| unhex(b)
);
/// Words of a byte array, in both byte orders.
fn words(a: &B64, f: u64) -> Vec<u8> {
    let w4 = |s: Seq<U32>| out(&U32::to_be_bytes(&s.iter().copied().collect::<Vec<_>>()));
    let w8 = |s: Seq<U64>| out(&U64::to_be_bytes(&s.iter().copied().collect::<Vec<_>>()));
    let w16 = |s: Seq<U128>| out(&U128::to_be_bytes(&s.iter().copied().collect::<Vec<_>>()));
    match f {
        0 => w4(a.to_be_U32s()),
        1 => w4(a.to_le_U32s()),
        2 => w8(a.to_be_U64s()),
        3 => w8(a.to_le_U64s()),
        4 => w16(a.to_U128s_be()),
        _ => w16(a.to_U128s_le()),
    }
}
fn words_back(b: &[u8], f: u64) -> B64 {
    let r = raw_seq(b);
    let v = match f {
        0 => U32::to_be_bytes(&U32::from_be_bytes(&r)),
        1 => U32::to_le_bytes(&U32::from_be_bytes(&r)),
        2 => U64::to_be_bytes(&U64::from_be_bytes(&r)),
        3 => U64::to_le_bytes(&U64::from_be_bytes(&r)),
        4 => U128::to_be_bytes(&U128::from_be_bytes(&r)),
        _ => U128::to_le_bytes(&U128::from_be_bytes(&r)),
    };
    B64::from_vec(v)
}
fn words_enc(v: &[u8], f: u64) -> Vec<u8> {
    match f {
        1 => swap(v, 4),
        3 => swap(v, 8),
        5 => swap(v, 16),
        _ => v.to_vec(),
    }
}
struct W64(B64);
impl Cell for W64 {
    fn name(&self) -> String {
        "array of 64 U8 as words".into()
    }
    fn forms(&self) -> u64 {
        6
    }
    fn start(&self) -> Vec<u8> {
        vec![0; 64]
    }
    fn apply(&mut self, op: u64, d: &[u8]) {
        let y = B64::from_public_slice(&fit(d, 64));
        self.0 = if op % 2 == 0 { self.0 + y } else { self.0 ^ y };
    }
    fn save(&self, form: u64) -> Vec<u8> {
        words(&self.0, form)
    }
    fn load(&mut self, form: u64, b: &[u8]) {
        self.0 = words_back(b, form)
    }
    fn val(&self) -> Vec<u8> {
        un(&self.0)
    }
    fn m_apply(&self, v: &[u8], op: u64, d: &[u8]) -> Option<Vec<u8>> {
        Some(v.iter().zip(fit(d, 64)).map(|(a, b)| if op % 2 == 0 { a.wrapping_add(b) } else { a ^ b }).collect())
    }
    fn enc(&self, form: u64, v: &[u8]) -> Vec<u8> {
        words_enc(v, form)
    }
    fn dec(&self, form: u64, b: &[u8]) -> Option<Vec<u8>> {
        if b.len() == 64 {
            Some(words_enc(b, form))
        } else {
            None
        }
    }
    fn text(&self, _form: u64) -> bool {
        false
    }
}
struct PW64(P64);
impl Cell for PW64 {
    fn name(&self) -> String {
        "array of 64 u8 as words".into()
    }
    fn forms(&self) -> u64 {
        7
    }
    fn start(&self) -> Vec<u8> {
        vec![0; 64]
    }
    fn apply(&mut self, op: u64, d: &[u8]) {
        let i = op as usize % 64;
        self.0[i] = fit(d, 64)[i];
    }
    fn save(&self, form: u64) -> Vec<u8> {
        let a = &self.0;
        match form {
            0 => a.to_be_u32s().iter().flat_map(|x| x.to_be_bytes().to_vec()).collect(),
            1 => a.to_le_u32s().iter().flat_map(|x| x.to_be_bytes().to_vec()).collect(),
            2 => a.to_be_u64s().iter().flat_map(|x| x.to_be_bytes().to_vec()).collect(),
            3 => a.to_le_u64s().iter().flat_map(|x| x.to_be_bytes().to_vec()).collect(),
            4 => a.to_u128s_be().iter().flat_map(|x| x.to_be_bytes().to_vec()).collect(),
            5 => a.to_u128s_le().iter().flat_map(|x| x.to_be_bytes().to_vec()).collect(),
            _ => a.to_hex().into_bytes(),
        }
    }
    fn load(&mut self, form: u64, b: &[u8]) {
        self.0 = if form == 6 { P64::from_hex(&text_of(b)) } else { P64::from_vec(un(&words_back(b, form))) }
    }
    fn val(&self) -> Vec<u8> {
        self.0.iter().copied().collect()
    }
    fn m_apply(&self, v: &[u8], op: u64, d: &[u8]) -> Option<Vec<u8>> {
        let i = op as usize % 64;
        let mut v = v.to_vec();
        v[i] = fit(d, 64)[i];
        Some(v)
    }
    fn enc(&self, form: u64, v: &[u8]) -> Vec<u8> {
        if form == 6 {
            hex(v).into_bytes()
        } else {
            words_enc(v, form)
        }
    }
    fn dec(&self, form: u64, b: &[u8]) -> Option<Vec<u8>> {
        let b = if form == 6 { unhex(b)? } else { b.to_vec() };
        if b.len() == 64 {
            Some(if form == 6 { b } else { words_enc(&b, form) })
        } else {
            None
        }
    }
    fn text(&self, form: u64) -> bool {
        form == 6
    }
}
struct PA31(P31);
impl Cell for PA31 {
    fn name(&self) -> String {
        "array of 31 u8".into()
    }
    fn forms(&self) -> u64 {
        2
    }
    fn start(&self) -> Vec<u8> {
        vec![0; 31]
    }
    fn apply(&mut self, op: u64, d: &[u8]) {
        let i = op as usize % 31;
        self.0[i] = fit(d, 31)[i];
    }
    fn save(&self, _form: u64) -> Vec<u8> {
        self.0.to_hex().into_bytes()
    }
    fn load(&mut self, form: u64, b: &[u8]) {
        let t = text_of(b);
        self.0 = if form == 0 { P31::from_hex(&t) } else { P31::from_seq(&PublicSeq::<u8>::from_string(t)) }
    }
    fn val(&self) -> Vec<u8> {
        self.0.iter().copied().collect()
    }
    fn m_apply(&self, v: &[u8], op: u64, d: &[u8]) -> Option<Vec<u8>> {
        let i = op as usize % 31;
        let mut v = v.to_vec();
        v[i] = fit(d, 31)[i];
        Some(v)
    }
    fn enc(&self, _form: u64, v: &[u8]) -> Vec<u8> {
        hex(v).into_bytes()
    }
    fn dec(&self, _form: u64, b: &[u8]) -> Option<Vec<u8>> {
        unhex(b).filter(|v| v.len() == 31)
    }
    fn text(&self, _form: u64) -> bool {
        true
    }
}
both_bytes!(PairP, PairS, 21);
/// Arrays that are published and taken back.
struct Pair(PairS);
impl Cell for Pair {
    fn name(&self) -> String {
        "published array of 21 bytes".into()
    }
    fn forms(&self) -> u64 {
        2
    }
    fn start(&self) -> Vec<u8> {
        vec![0; 21]
    }
    fn apply(&mut self, op: u64, d: &[u8]) {
        let i = op as usize % 21;
        self.0[i] = U8(fit(d, 21)[i]);
    }
    fn save(&self, form: u64) -> Vec<u8> {
        if form == 0 {
            PairP::from_secret_declassify(self.0).iter().copied().collect()
        } else {
            un(&self.0.to_be_bytes())
        }
    }
    fn load(&mut self, form: u64, b: &[u8]) {
        self.0 = if form == 0 { PairS::from_public(PairP::from_vec(b.to_vec())) } else { PairS::from_public_slice(b) }
    }
    fn val(&self) -> Vec<u8> {
        un(&self.0)
    }
    fn m_apply(&self, v: &[u8], op: u64, d: &[u8]) -> Option<Vec<u8>> {
        let i = op as usize % 21;
        let mut v = v.to_vec();
        v[i] = fit(d, 21)[i];
        Some(v)
    }
    fn enc(&self, _form: u64, v: &[u8]) -> Vec<u8> {
        v.to_vec()
    }
    fn dec(&self, _form: u64, b: &[u8]) -> Option<Vec<u8>> {
        Some(b.to_vec()).filter(|b| b.len() == 21)
    }
    fn text(&self, _form: u64) -> bool {
        false
    }
}
/// Byte strings of any length.
struct Text(ByteSeq);
impl Cell for Text {
    fn name(&self) -> String {
        "byte sequence".into()
    }
    fn forms(&self) -> u64 {
        6
    }
    fn start(&self) -> Vec<u8> {
        vec![]
    }
    fn apply(&mut self, op: u64, d: &[u8]) {
        let d = if d.len() > LONG { d } else { &d[..d.len().min(30)] };
        self.0 = match op % 3 {
            0 => bs(d),
            1 => {
                let n = self.0.len();
                let l = d.len().min(n);
                self.0.clone().update_sub((op >> 8) as usize % (n - l + 1), &bs(d), 0, l)
            }
            _ => {
                let n = self.0.len();
                let s = (op >> 8) as usize % (n + 1);
                self.0.sub(s, (n - s) / 2)
            }
        }
    }
    fn save(&self, form: u64) -> Vec<u8> {
        match form {
            0 | 1 => self.0.to_hex().into_bytes(),
            2 | 3 => PublicSeq::<u8>::from_vec(un(&self.0)).to_hex().into_bytes(),
            _ => un(&self.0),
        }
    }
    fn load(&mut self, form: u64, b: &[u8]) {
        let t = text_of(b);
        let p = |s: PublicSeq<u8>| bs(&s.iter().copied().collect::<Vec<u8>>());
        self.0 = match form {
            0 => ByteSeq::from_hex(&t),
            1 => ByteSeq::from_string(t),
            2 => p(PublicSeq::<u8>::from_hex(&t)),
            3 => p(PublicSeq::<u8>::from_string(t)),
            4 => ByteSeq::from_public_slice(b),
            _ => ByteSeq::from_vec(raw_seq(b)),
        }
    }
    fn val(&self) -> Vec<u8> {
        un(&self.0)
    }
    fn m_apply(&self, v: &[u8], op: u64, d: &[u8]) -> Option<Vec<u8>> {
        let d = if d.len() > LONG { d } else { &d[..d.len().min(30)] };
        let n = v.len();
        Some(match op % 3 {
            0 => d.to_vec(),
            1 => {
                let l = d.len().min(n);
                let s = (op >> 8) as usize % (n - l + 1);
                let mut v = v.to_vec();
                v[s..s + l].copy_from_slice(&d[..l]);
                v
            }
            _ => {
                let s = (op >> 8) as usize % (n + 1);
                v[s..s + (n - s) / 2].to_vec()
            }
        })
    }
    fn enc(&self, form: u64, v: &[u8]) -> Vec<u8> {
        if form < 4 {
            hex(v).into_bytes()
        } else {
            v.to_vec()
        }
    }
    fn dec(&self, form: u64, b: &[u8]) -> Option<Vec<u8>> {
        if form < 4 {
            unhex(b)
        } else {
            Some(b.to_vec())
        }
    }
    fn text(&self, form: u64) -> bool {
        form < 4
    }
}
fn nat(v: &[u8]) -> BigInt {
    of_le(v, false, 8 * v.len() as u32 + 8)
}
/// Minimal little-endian bytes, one at least.
fn canon(x: &BigInt) -> Vec<u8> {
    le(x)
}
/// Integers modulo n: forms 0..4 minimal bytes, 4..8 minimal bytes read back through the types' base and
/// byte sequences, 8..12 hex of fixed width, 12.. hex of the minimal length, 16.. padded bytes.
struct Mod<T: Modu>(T);
impl<T: Modu> Cell for Mod<T> {
    fn name(&self) -> String {
        T::NAME.into()
    }
    fn forms(&self) -> u64 {
        20
    }
    fn start(&self) -> Vec<u8> {
        vec![0]
    }
    fn apply(&mut self, op: u64, d: &[u8]) {
        let y = T::of(&emod(&nat(d), &pow2(T::BITS)), op >> 8);
        self.0 = match op % 3 {
            0 => self.0 + y,
            1 => self.0 - y,
            _ => self.0 * y,
        };
    }
    fn save(&self, form: u64) -> Vec<u8> {
        let b = self.0.bytes(form);
        match form / 4 {
            0 | 1 => b,
            2 => {
                let mut b = b;
                b.resize((T::BITS as usize + 7) / 8, 0);
                hex(&rev(&b)).into_bytes()
            }
            3 => hex(&rev(&b)).into_bytes(),
            _ => {
                let mut b = b;
                b.resize((T::BITS as usize + 7) / 8, 0);
                b
            }
        }
    }
    fn load(&mut self, form: u64, b: &[u8]) {
        self.0 = if self.text(form) { T::of_hex(&text_of(b), form) } else { T::of_bytes(b, form) };
    }
    fn val(&self) -> Vec<u8> {
        canon(&self.0.base())
    }
    fn m_apply(&self, v: &[u8], op: u64, d: &[u8]) -> Option<Vec<u8>> {
        let (x, y) = (nat(v), emod(&nat(d), &pow2(T::BITS)));
        let z = match op % 3 {
            0 => x + y,
            1 => x - y,
            _ => x * y,
        };
        Some(canon(&emod(&z, &T::modulus())))
    }
    fn enc(&self, form: u64, v: &[u8]) -> Vec<u8> {
        let mut b = canon(&nat(v));
        if matches!(form / 4, 2 | 4) {
            b.resize((T::BITS as usize + 7) / 8, 0);
        }
        if self.text(form) {
            hex(&rev(&b)).into_bytes()
        } else {
            b
        }
    }
    fn dec(&self, form: u64, b: &[u8]) -> Option<Vec<u8>> {
        let x = if self.text(form) { nat(&rev(&unhex(b)?)) } else { nat(b) };
        if x >= pow2(T::BITS) {
            return None;
        }
        Some(canon(&emod(&x, &T::modulus())))
    }
    fn text(&self, form: u64) -> bool {
        matches!(form / 4, 2 | 3)
    }
}
/// Bounded integers; the canonical bytes start with a sign.
struct Bound<T: Bnd>(T);
fn signed_canon(x: &BigInt) -> Vec<u8> {
    [vec![x.is_negative() as u8], canon(&x.abs())].concat()
}
fn signed_nat(v: &[u8]) -> BigInt {
    let x = nat(&v[1.min(v.len())..]);
    if v.first() == Some(&1) {
        -x
    } else {
        x
    }
}
impl<T: Bnd> Cell for Bound<T> {
    fn name(&self) -> String {
        T::NAME.into()
    }
    fn forms(&self) -> u64 {
        if T::SIGNED {
            2
        } else {
            4
        }
    }
    fn start(&self) -> Vec<u8> {
        signed_canon(&BigInt::zero())
    }
    fn apply(&mut self, op: u64, d: &[u8]) {
        let y = T::of(&(nat(d) % pow2(T::BITS)), op >> 8);
        self.0 = match op % 3 {
            0 => self.0 + y,
            1 => self.0 - y,
            _ => self.0 * y,
        };
    }
    fn save(&self, form: u64) -> Vec<u8> {
        if T::SIGNED || form >= 2 {
            self.enc(form, &self.val())
        } else {
            self.0.bytes()
        }
    }
    fn load(&mut self, form: u64, b: &[u8]) {
        self.0 = if T::SIGNED {
            let t = text_of(b);
            match t.chars().next() {
                Some('-') => T::of_hex("-", &t[1..]),
                Some('+') => T::of_hex("+", &t[1..]),
                _ => T::of_hex("", &t),
            }
        } else if form >= 2 {
            T::of_hex("", &text_of(b))
        } else {
            T::of_bytes(b)
        };
    }
    fn val(&self) -> Vec<u8> {
        signed_canon(&self.0.val())
    }
    fn m_apply(&self, v: &[u8], op: u64, d: &[u8]) -> Option<Vec<u8>> {
        let (x, y) = (signed_nat(v), nat(d) % pow2(T::BITS));
        let z = match op % 3 {
            0 => x + y,
            1 => x - y,
            _ => x * y,
        };
        let max = bmax(T::BITS);
        if z > max || z < if T::SIGNED { -&max } else { BigInt::zero() } {
            return None;
        }
        Some(signed_canon(&z))
    }
    fn enc(&self, form: u64, v: &[u8]) -> Vec<u8> {
        let x = signed_nat(v);
        let mut b = canon(&x.abs());
        let wide = (T::BITS as usize + 7) / 8;
        if T::SIGNED {
            if form == 1 {
                b.resize(wide, 0);
            }
            let sign = match (x.is_negative(), form) {
                (true, _) => "-",
                (_, 0) => "",
                _ => "+",
            };
            format!("{}{}", sign, hex(&rev(&b))).into_bytes()
        } else {
            if form == 1 || form == 3 {
                b.resize(if form == 3 { wide } else { b.len() }, 0);
            }
            if form >= 2 {
                hex(&rev(&b)).into_bytes()
            } else {
                b
            }
        }
    }
    fn dec(&self, form: u64, b: &[u8]) -> Option<Vec<u8>> {
        let x = if T::SIGNED {
            match b.first() {
                Some(b'-') => -nat(&rev(&unhex(&b[1..])?)),
                Some(b'+') => nat(&rev(&unhex(&b[1..])?)),
                _ => nat(&rev(&unhex(b)?)),
            }
        } else if form >= 2 {
            nat(&rev(&unhex(b)?))
        } else {
            nat(b)
        };
        if x.abs() > bmax(T::BITS) {
            return None;
        }
        Some(signed_canon(&x))
    }
    fn text(&self, form: u64) -> bool {
        T::SIGNED || form >= 2
    }
}

type Make = fn() -> Box<dyn Cell>;
fn kinds() -> Vec<Make> {
    macro_rules! m {
        ($($t:ident)*) => { vec![$((|| Box::new(Mod::<$t>($t::literal(0)))) as Make),*] };
    }
    macro_rules! b {
        ($($t:ident)*) => { vec![$((|| Box::new(Bound::<$t>($t::default()))) as Make),*] };
    }
    let mut v: Vec<Make> = vec![
        || Box::new(C8(U8(0))), || Box::new(C16(U16(0))), || Box::new(C32(U32(0))), || Box::new(C64(U64(0))), || Box::new(C128(U128(0))),
        || Box::new(C32(U32(0))), || Box::new(C64(U64(0))), || Box::new(C128(U128(0))),
        || Box::new(L8(vec![])), || Box::new(L16(vec![])), || Box::new(L32(vec![])), || Box::new(L64(vec![])), || Box::new(L128(vec![])),
        || Box::new(M8(vec![])), || Box::new(M16(vec![])), || Box::new(M32(vec![])), || Box::new(M64(vec![])), || Box::new(M128(vec![])),
        || Box::new(A8(B31::new())), || Box::new(A16(H31::new())), || Box::new(A32(W16::new())), || Box::new(A33(W31::new())), || Box::new(A64(D16::new())),
        || Box::new(A65(D31::new())), || Box::new(A128(Q31::new())), || Box::new(A260(W260::new())), || Box::new(A300(B300::new())), || Box::new(W64(B64::new())), || Box::new(PW64(P64::new())), || Box::new(PA31(P31::new())),
        || Box::new(Pair(PairS::new())), || Box::new(Text(ByteSeq::new(0))), || Box::new(Text(ByteSeq::new(0))), || Box::new(Text(ByteSeq::new(0))),
    ];
    v.extend(m!(NatComp NatByte NatWide NatLoose NatOdd Pub255 Pub16 PubLoose Pub128 PubComp PubTwo PubOdd Pub13 Abs64 AbsSquare Abp24 Abp384 Old32));
    v.extend(b!(UPub72 UPub256 SPub64 SPub256 USec96 USec8 SSec40 SSec136 UOld64 SAbs16 UAbs24 SAbs48 UPub13 SPub12 USec67 SSec21));
    v
}
/// Loads one saved record and compares with the reference reading.
fn check_load(ctx: &mut Ctx, make: Make, form: u64, b: &[u8], intact: bool) -> Res<Option<Vec<u8>>> {
    let mut c = make();
    let want = c.dec(form, b);
    let name = c.name();
    let show = if c.text(form) { format!("{:?}", text_of(b)) } else { simkit::ctx::hex(b) };
    let got = guard(|| {
        c.load(form, b);
        c.val()
    });
    ctx.count("loads");
    ctx.state(mix64(hash_bytes(name.as_bytes()) ^ form << 8 ^ intact as u64 ^ want.is_some() as u64 * 2 ^ (b.len().min(40) as u64) << 16));
    match (got, want) {
        (Ok(g), Some(w)) => {
            ctx.check(g == w, if intact { "restored-wrong" } else { "damaged-read-wrong" }, || format!("{} form {} of {}: {} but stands for {}", name, form, show, simkit::ctx::hex(&g), simkit::ctx::hex(&w)))?;
            Ok(Some(g))
        }
        (Err(_), None) => {
            ctx.probe("save_refused");
            ctx.checks += 1;
            Ok(None)
        }
        (Ok(g), None) => {
            ctx.check(false, "damaged-accepted", || format!("{} form {} of {} is no save but was read as {}", name, form, show, simkit::ctx::hex(&g)))?;
            Ok(None)
        }
        (Err(p), Some(w)) => {
            ctx.check(false, "save-refused", || format!("{} form {} of {} stands for {} but: {}", name, form, show, simkit::ctx::hex(&w), p))?;
            Ok(None)
        }
    }
}
struct Slot {
    bytes: Vec<u8>,
}
fn seal(seq: usize, recs: &[(u64, Vec<u8>)]) -> Vec<u8> {
    let mut f = (seq as u64).to_be_bytes().to_vec();
    f.push(recs.len() as u8);
    for (form, b) in recs {
        f.push(*form as u8);
        f.extend_from_slice(&(b.len() as u16).to_be_bytes());
        f.extend_from_slice(b);
    }
    let h = hash_bytes(&f);
    f.extend_from_slice(&h.to_be_bytes());
    f
}
/// (sequence number, records); the last record may be cut. Whether it is complete.
fn open(f: &[u8]) -> (usize, Vec<(u64, Vec<u8>, bool)>, bool) {
    if f.len() < 9 {
        return (0, vec![], false);
    }
    let seq = u64::from_be_bytes(f[..8].try_into().unwrap()) as usize;
    let whole = f.len() >= 17 && hash_bytes(&f[..f.len() - 8]).to_be_bytes() == f[f.len() - 8..];
    let mut p = 9;
    let mut v = vec![];
    for _ in 0..f[8] {
        if p + 3 > f.len() {
            break;
        }
        let l = u16::from_be_bytes([f[p + 1], f[p + 2]]) as usize;
        let e = (p + 3 + l).min(f.len());
        v.push((f[p] as u64, f[p + 3..e].to_vec(), e == p + 3 + l));
        p = e;
    }
    (seq, v, whole)
}
fn exec(steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    let cfg = steps.iter().find(|s| s.k == "!cfg").cloned().unwrap_or(Step::new("!cfg", &[0]));
    let all = kinds();
    let mut makes: Vec<Make> = cfg.a.iter().take(6).map(|k| all[*k as usize % all.len()]).collect();
    if makes.is_empty() {
        makes.push(all[0]);
    }
    let n = makes.len();
    // the uninterrupted run
    let mut model: Vec<Vec<u8>> = makes.iter().map(|m| m().start()).collect();
    // every state of it, by the number of updates done
    let mut history = vec![model.clone()];
    let mut journal: Vec<Step> = vec![];
    let mut live: Option<Vec<Box<dyn Cell>>> = Some(makes.iter().map(|m| m()).collect());
    // which implementation runs: the library, or the reference
    let mut slots = [Slot { bytes: vec![] }, Slot { bytes: vec![] }];
    let mut next_slot = 0;
    let mut theirs: Vec<Vec<u8>> = model.clone();
    let same = |live: &Option<Vec<Box<dyn Cell>>>, model: &[Vec<u8>], ctx: &mut Ctx, what: &str| -> Res<()> {
        if let Some(l) = live {
            for (c, m) in l.iter().zip(model) {
                let g = c.val();
                ctx.check(g == *m, "state-wrong", || format!("{} {}: {} but an uninterrupted run has {}", c.name(), what, simkit::ctx::hex(&g), simkit::ctx::hex(m)))?;
            }
        }
        Ok(())
    };
    let apply = |c: &mut Box<dyn Cell>, s: &Step, ctx: &mut Ctx| -> Res<()> {
        let op = s.arg(1);
        if let Err(p) = guard(|| c.apply(op, s.data(0))) {
            return ctx.fail("update-refused", format!("{} update {}: {}", c.name(), op, p));
        }
        Ok(())
    };
    for s in steps {
        match &s.k[..] {
            "upd" => {
                let i = s.usz(0) % n;
                let refm = makes[i]();
                let Some(v) = refm.m_apply(&model[i], s.arg(1), s.data(0)) else { continue };
                model[i] = v.clone();
                theirs[i] = v;
                history.push(model.clone());
                journal.push(s.clone());
                if let Some(l) = live.as_mut() {
                    apply(&mut l[i], s, ctx)?;
                }
                same(&live, &model, ctx, "after an update")?;
            }
            "save" => {
                let mut recs = vec![];
                for i in 0..n {
                    let r = makes[i]();
                    let form = mix64(s.arg(0) ^ i as u64) % r.forms();
                    let want = r.enc(form, &model[i]);
                    let b = match &live {
                        Some(l) => match guard(|| l[i].save(form)) {
                            Ok(b) => b,
                            Err(p) => return ctx.fail("save-panics", format!("{} form {}: {}", r.name(), form, p)),
                        },
                        None => want.clone(),
                    };
                    // another implementation must read the same value
                    ctx.check(b == want, "save-wrong", || format!("{} form {} of {}: {} want {}", r.name(), form, simkit::ctx::hex(&model[i]), text_of(&b), text_of(&want)))?;
                    recs.push((form, b));
                }
                same(&live, &model, ctx, "after saving")?;
                let f = seal(journal.len(), &recs);
                ctx.ev("save", &f);
                ctx.count("saves");
                // what reaches the disk
                let old = slots[next_slot].bytes.clone();
                let cut = s.usz(2) % (f.len() + 1);
                let (disk, crashed) = match s.arg(1) % 16 {
                    9 | 10 => {
                        ctx.fault("torn_save");
                        (f[..cut].to_vec(), true)
                    }
                    11 => {
                        // the start of the new save over the old one
                        ctx.fault("partly_overwritten_save");
                        let mut d = old.clone();
                        d.resize(d.len().max(cut), 0);
                        d[..cut].copy_from_slice(&f[..cut]);
                        (d, true)
                    }
                    12 => {
                        ctx.fault("lost_save");
                        (old, true)
                    }
                    13 => {
                        // sectors arrive in any order
                        ctx.fault("sectors_out_of_order");
                        let mut d = vec![0; f.len()];
                        for (k, c) in f.chunks(16).enumerate() {
                            if (mix64(s.arg(2) ^ k as u64) & 3) != 0 {
                                d[16 * k..16 * k + c.len()].copy_from_slice(c);
                            }
                        }
                        (d, true)
                    }
                    14 => {
                        ctx.fault("crash_after_save");
                        (f, true)
                    }
                    _ => (f, false),
                };
                slots[next_slot].bytes = disk;
                next_slot ^= 1;
                if !crashed {
                    continue;
                }
                recover(s, &makes, &mut slots, &mut next_slot, &mut live, &mut theirs, &history, &journal, ctx)?;
                same(&live, &model, ctx, "after recovery")?;
            }
            "crash" => {
                ctx.fault("crash");
                recover(s, &makes, &mut slots, &mut next_slot, &mut live, &mut theirs, &history, &journal, ctx)?;
                same(&live, &model, ctx, "after recovery")?;
            }
            "load" => {
                // one record, damaged on the way
                let i = s.usz(0) % n;
                let r = makes[i]();
                let form = s.arg(1) % r.forms();
                let mut b = r.enc(form, &model[i]);
                let clean = b.clone();
                let p = s.usz(3);
                match s.arg(2) % 8 {
                    0 => b.truncate(p % (b.len() + 1)),
                    1 => b.extend_from_slice(s.data(0)),
                    2 if !b.is_empty() => {
                        let p = p % b.len();
                        b[p] ^= 1 << (s.arg(4) % 8);
                    }
                    3 if !b.is_empty() => {
                        let p = p % b.len();
                        b[p] = b"gG+- x\0/:@`_\xc3\n"[s.usz(4) % 14];
                    }
                    4 if !b.is_empty() => {
                        b.remove(p % b.len());
                    }
                    5 => b.insert(p % (b.len() + 1), b"0f+-x \0"[s.usz(4) % 7]),
                    6 => b = s.data(0).to_vec(),
                    _ => {}
                }
                if b != clean {
                    ctx.fault("damaged_record");
                    ctx.nontrivial += 1;
                }
                check_load(ctx, makes[i], form, &b, b == clean)?;
                same(&live, &model, ctx, "after reading a record")?;
            }
            _ => {}
        }
        ctx.state(mix64(hash_bytes(s.k.as_bytes()) ^ s.arg(1) % 16 ^ (journal.len() as u64) << 20 ^ (live.is_some() as u64) << 50));
    }
    // the computation ends; one more restart must find the same
    let end = Step::new("crash", &[0, 0, 0]);
    recover(&end, &makes, &mut slots, &mut next_slot, &mut live, &mut theirs, &history, &journal, ctx)?;
    same(&live, &model, ctx, "at the end")
}
#[allow(clippy::too_many_arguments)]
fn recover(
    s: &Step,
    makes: &[Make],
    slots: &mut [Slot; 2],
    next_slot: &mut usize,
    live: &mut Option<Vec<Box<dyn Cell>>>,
    theirs: &mut Vec<Vec<u8>>,
    history: &[Vec<Vec<u8>>],
    journal: &[Step],
    ctx: &mut Ctx,
) -> Res<()> {
    *live = None;
    ctx.nontrivial += 1;
    ctx.count("recoveries");
    let mut best: Option<(usize, usize)> = None;
    for k in 0..2 {
        let (seq, recs, whole) = open(&slots[k].bytes);
        if whole {
            if best.map_or(true, |b| seq >= b.1) {
                best = Some((k, seq));
            }
            continue;
        }
        // a careless program reads what is there
        for (i, (form, b, complete)) in recs.iter().enumerate().take(makes.len()) {
            let f = makes[i]().forms();
            if *form < f {
                ctx.count(if *complete { "records_of_torn_saves" } else { "cut_records" });
                check_load(ctx, makes[i], *form, b, false)?;
            }
        }
    }
    let (seq, vals) = match best {
        Some((k, seq)) => {
            *next_slot = k ^ 1;
            let (_, recs, _) = open(&slots[k].bytes);
            let mut vals = vec![];
            for (i, (form, b, _)) in recs.iter().enumerate() {
                let got = check_load(ctx, makes[i], *form, b, true)?;
                let want = &history[seq][i];
                ctx.check(got.as_ref() == Some(want), "restored-wrong", || format!("{} form {}: restored {:?} but saved {}", makes[i]().name(), form, got, simkit::ctx::hex(want)))?;
                vals.push((*form, b.clone()));
            }
            (seq, Some(vals))
        }
        None => {
            ctx.probe("no_complete_save");
            (0, None)
        }
    };
    // who goes on
    if s.arg(3) % 3 == 2 {
        ctx.count("resumed_elsewhere");
        *theirs = history[history.len() - 1].clone();
        return Ok(());
    }
    let mut l: Vec<Box<dyn Cell>> = makes.iter().map(|m| m()).collect();
    if let Some(v) = vals {
        for (c, (form, b)) in l.iter_mut().zip(&v) {
            if let Err(p) = guard(|| c.load(*form, b)) {
                return ctx.fail("save-refused", format!("{} form {}: {}", c.name(), form, p));
            }
        }
    }
    for u in &journal[seq..] {
        let i = u.usz(0) % l.len();
        ctx.count("redone_updates");
        if let Err(p) = guard(|| l[i].apply(u.arg(1), u.data(0))) {
            return ctx.fail("update-refused", format!("{} update {} again: {}", l[i].name(), u.arg(1), p));
        }
    }
    *live = Some(l);
    Ok(())
}
fn value(r: &mut SimRng) -> Vec<u8> {
    let l = if r.chance(1, 150) { r.long(6000) } else { *r.pick(&[1usize, 1, 2, 4, 8, 16, 17, 32, 48, 66]) };
    let mut b = if r.chance(1, 2) { r.special_bytes(l) } else { r.bytes(l) };
    if r.chance(1, 3) {
        for x in b.iter_mut().skip(1) {
            *x = 0;
        }
    }
    b
}
fn gen(r: &mut SimRng, thorough: bool) -> Vec<Step> {
    let mut c = Step::new("!cfg", &[]);
    for _ in 0..1 + r.usz(4) {
        c.a.push(r.next() >> 8);
    }
    let n = c.a.len() as u64;
    let mut v = vec![c];
    for _ in 0..4 + r.usz(if thorough { 60 } else { 24 }) {
        v.push(match r.below(20) {
            0..=8 => Step::with("upd", &[r.below(n), r.next() >> 8], vec![value(r)]),
            9..=12 => Step::new("save", &[r.next(), r.below(16), r.next() >> 8, r.below(3)]),
            13..=14 => Step::new("crash", &[0, 0, 0, r.below(3)]),
            _ => {
                let l = if r.chance(1, 200) { r.long(6000) } else { r.usz(20) };
                Step::with("load", &[r.below(n), r.below(240), r.below(8), r.below(200), r.below(200)], vec![r.bytes(l)])
            }
        });
    }
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C12",
        quick_runs: 240_000,
        thorough_runs: 5_000_000,
        step_budget: 500_000_000,
        again: 1500,
        rule: "a computation over one to four values of any type, with its saves, crashes (also inside a save), recoveries by the library or by the reference, and damaged records; non-trivial: at least one crash or one damaged record; distinct by the sequence of steps, faults and progress",
        real: &["hacspec (integers, arrays, sequences, byte and hex conversions)", "secret-integers", "abstract-integers"],
        stubs: &["disk with two save slots and torn, partial, reordered and lost writes: simulated", "other implementation: reference encoder and decoder"],
        assumptions: &["the program keeps the updates since its last complete save", "signed bounded integers have no form of their own but sign and hex, which is written by the reference"],
        gen,
        exec,
    }
}

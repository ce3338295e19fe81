//! Reference implementations written from the standards (FIPS 180-4, FIPS 202, RFC 7693, RFC 2104,
//! RFC 5869, FIPS 197, SP 800-38D, RFC 8439, RFC 7748, FIPS 186-4 curve P-256), independent of the
//! code under test. They play the "other conforming implementation" in the simulations. They are
//! checked against published vectors and Python's hashlib by `sim selftest`.
use num::{BigUint, One, Zero};

// ---------------------------------------------------------------- SHA-256 (streaming)
fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut c = 2u64;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}
// First 32 bits of the fractional part of the k-th root of p, by integer Newton search.
fn frac_root(p: u64, k: u32) -> u32 {
    // floor(p^(1/k) * 2^32)
    let target = BigUint::from(p) << (32 * k as usize);
    let (mut lo, mut hi) = (BigUint::zero(), BigUint::one() << 42);
    while &lo + 1u32 < hi {
        let mid = (&lo + &hi) >> 1;
        if num::pow(mid.clone(), k as usize) <= target {
            lo = mid
        } else {
            hi = mid
        }
    }
    let d = (lo & BigUint::from(0xffff_ffffu32)).to_u32_digits();
    if d.is_empty() { 0 } else { d[0] }
}
pub struct Sha256Consts {
    k: [u32; 64],
    iv: [u32; 8],
}
impl Sha256Consts {
    pub fn new() -> Self {
        let p = primes(64);
        let mut k = [0; 64];
        let mut iv = [0; 8];
        for i in 0..64 {
            k[i] = frac_root(p[i], 3);
        }
        for i in 0..8 {
            iv[i] = frac_root(p[i], 2);
        }
        Sha256Consts { k, iv }
    }
}
fn s256c() -> &'static Sha256Consts {
    static mut C: Option<Sha256Consts> = None;
    // single-threaded use (each simulated run is its own process)
    unsafe {
        let p = std::ptr::addr_of_mut!(C);
        if (*p).is_none() {
            *p = Some(Sha256Consts::new());
        }
        (*p).as_ref().unwrap()
    }
}
/// Computes constant tables before forking so that runs share them.
pub fn warm_up() {
    let _ = s256c();
    let _ = sbox();
    let _ = curve();
}
#[derive(Clone)]
pub struct Sha256 {
    h: [u32; 8],
    buf: Vec<u8>,
    n: u64,
}
impl Sha256 {
    pub fn new() -> Self {
        Sha256 { h: s256c().iv, buf: vec![], n: 0 }
    }
    fn block(h: &mut [u32; 8], b: &[u8]) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        for i in 16..64 {
            let a = w[i - 15];
            let c = w[i - 2];
            let s0 = a.rotate_right(7) ^ a.rotate_right(18) ^ (a >> 3);
            let s1 = c.rotate_right(17) ^ c.rotate_right(19) ^ (c >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let k = &s256c().k;
        let mut v = *h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) | (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) | (v[0] & v[2]) | (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    pub fn update(&mut self, d: &[u8]) -> &mut Self {
        self.n += d.len() as u64;
        self.buf.extend_from_slice(d);
        let full = self.buf.len() / 64 * 64;
        for i in (0..full).step_by(64) {
            let b: Vec<u8> = self.buf[i..i + 64].to_vec();
            Self::block(&mut self.h, &b);
        }
        self.buf.drain(..full);
        self
    }
    pub fn finish(mut self) -> Vec<u8> {
        let bits = self.n * 8;
        let mut pad = vec![0x80u8];
        while (self.buf.len() + pad.len()) % 64 != 56 {
            pad.push(0);
        }
        pad.extend_from_slice(&bits.to_be_bytes());
        self.update(&pad);
        self.h.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect()
    }
}
pub fn sha256(d: &[u8]) -> Vec<u8> {
    let mut s = Sha256::new();
    s.update(d);
    s.finish()
}
pub fn hmac_sha256(k: &[u8], m: &[u8]) -> Vec<u8> {
    let mut kb = if k.len() > 64 { sha256(k) } else { k.to_vec() };
    kb.resize(64, 0);
    let mut i = Sha256::new();
    i.update(&kb.iter().map(|b| b ^ 0x36).collect::<Vec<_>>()).update(m);
    let ih = i.finish();
    let mut o = Sha256::new();
    o.update(&kb.iter().map(|b| b ^ 0x5c).collect::<Vec<_>>()).update(&ih);
    o.finish()
}
pub fn hkdf_extract(salt: &[u8], ikm: &[u8]) -> Vec<u8> {
    hmac_sha256(salt, ikm) // an empty salt is HashLen zeros, which HMAC zero-pads identically
}
pub fn hkdf_expand(prk: &[u8], info: &[u8], l: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut t: Vec<u8> = vec![];
    let mut c = 1u32;
    while out.len() < l {
        let mut m = t.clone();
        m.extend_from_slice(info);
        m.push(c as u8);
        t = hmac_sha256(prk, &m);
        out.extend_from_slice(&t);
        c += 1;
    }
    out.truncate(l);
    out
}

// ---------------------------------------------------------------- SHA-3
fn keccak_f(a: &mut [[u64; 5]; 5]) {
    // round constants by the LFSR of FIPS 202
    let mut r: u8 = 1;
    for _ in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x][y] ^= d;
            }
        }
        let (mut x, mut y) = (1usize, 0usize);
        let mut cur = a[x][y];
        for t in 0..24u32 {
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            let tmp = a[nx][ny];
            a[nx][ny] = cur.rotate_left(((t + 1) * (t + 2) / 2) % 64);
            cur = tmp;
            x = nx;
            y = ny;
        }
        let b = *a;
        for x in 0..5 {
            for y in 0..5 {
                a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
            }
        }
        for j in 0..7u32 {
            if r & 1 == 1 {
                a[0][0] ^= 1u64 << ((1u32 << j) - 1);
            }
            r = if r & 0x80 != 0 { (r << 1) ^ 0x71 } else { r << 1 };
        }
    }
}
pub fn keccak(rate: usize, dom: u8, d: &[u8], outlen: usize) -> Vec<u8> {
    let mut m = d.to_vec();
    let padlen = rate - m.len() % rate;
    let start = m.len();
    m.resize(start + padlen, 0);
    m[start] ^= dom;
    let l = m.len();
    m[l - 1] ^= 0x80;
    let mut a = [[0u64; 5]; 5];
    for blk in m.chunks(rate) {
        for (i, w) in blk.chunks(8).enumerate() {
            let mut x = [0u8; 8];
            x.copy_from_slice(w);
            a[i % 5][i / 5] ^= u64::from_le_bytes(x);
        }
        keccak_f(&mut a);
    }
    let mut out = vec![];
    loop {
        let mut blk = vec![];
        for i in 0..25 {
            blk.extend_from_slice(&a[i % 5][i / 5].to_le_bytes());
        }
        blk.truncate(rate);
        out.extend_from_slice(&blk);
        if out.len() >= outlen {
            break;
        }
        keccak_f(&mut a);
    }
    out.truncate(outlen);
    out
}
pub fn sha3(bits: usize, d: &[u8]) -> Vec<u8> {
    keccak(200 - bits / 4, 0x06, d, bits / 8)
}
pub fn shake(bits: usize, d: &[u8], l: usize) -> Vec<u8> {
    keccak(200 - bits / 4, 0x1f, d, l)
}

// ---------------------------------------------------------------- BLAKE2b-512
pub fn blake2b512(d: &[u8]) -> Vec<u8> {
    const IV: [u64; 8] = [
        0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
        0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
    ];
    const S: [[usize; 16]; 10] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
        [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
        [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
        [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
        [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
        [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
        [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
        [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    ];
    let mut h = IV;
    h[0] ^= 0x01010040;
    let nb = if d.is_empty() { 1 } else { (d.len() + 127) / 128 };
    for b in 0..nb {
        let lo = b * 128;
        let hi = std::cmp::min(d.len(), lo + 128);
        let mut blk = d[lo..hi].to_vec();
        blk.resize(128, 0);
        let mut m = [0u64; 16];
        for i in 0..16 {
            let mut x = [0u8; 8];
            x.copy_from_slice(&blk[8 * i..8 * i + 8]);
            m[i] = u64::from_le_bytes(x);
        }
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= hi as u64;
        if b == nb - 1 {
            v[14] = !v[14];
        }
        for r in 0..12 {
            let s = &S[r % 10];
            let idx = [[0, 4, 8, 12], [1, 5, 9, 13], [2, 6, 10, 14], [3, 7, 11, 15], [0, 5, 10, 15], [1, 6, 11, 12], [2, 7, 8, 13], [3, 4, 9, 14]];
            for (q, ix) in idx.iter().enumerate() {
                let [a, bb, c, dd] = *ix;
                v[a] = v[a].wrapping_add(v[bb]).wrapping_add(m[s[2 * q]]);
                v[dd] = (v[dd] ^ v[a]).rotate_right(32);
                v[c] = v[c].wrapping_add(v[dd]);
                v[bb] = (v[bb] ^ v[c]).rotate_right(24);
                v[a] = v[a].wrapping_add(v[bb]).wrapping_add(m[s[2 * q + 1]]);
                v[dd] = (v[dd] ^ v[a]).rotate_right(16);
                v[c] = v[c].wrapping_add(v[dd]);
                v[bb] = (v[bb] ^ v[c]).rotate_right(63);
            }
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }
    h.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect()
}

// ---------------------------------------------------------------- AES, CTR, GCM
fn gmul8(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 };
        b >>= 1;
    }
    r
}
fn sbox() -> &'static [u8; 256] {
    static mut T: Option<[u8; 256]> = None;
    unsafe {
        let p = std::ptr::addr_of_mut!(T);
        if (*p).is_none() {
            let mut t = [0u8; 256];
            for x in 0..256usize {
                let mut inv = 0u8;
                if x != 0 {
                    for y in 1..=255u8 {
                        if gmul8(x as u8, y) == 1 {
                            inv = y;
                        }
                    }
                }
                t[x] = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
            }
            *p = Some(t);
        }
        (*p).as_ref().unwrap()
    }
}
#[derive(Clone)]
pub struct Aes {
    rk: Vec<[u8; 16]>,
}
impl Aes {
    pub fn new(key: &[u8]) -> Self {
        let nk = key.len() / 4;
        let nr = nk + 6;
        let sb = sbox();
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
        let mut rc = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [sb[t[1] as usize] ^ rc, sb[t[2] as usize], sb[t[3] as usize], sb[t[0] as usize]];
                rc = gmul8(rc, 2);
            } else if nk > 6 && i % nk == 4 {
                t = [sb[t[0] as usize], sb[t[1] as usize], sb[t[2] as usize], sb[t[3] as usize]];
            }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        let rk = w.chunks(4).map(|c| {
            let mut k = [0u8; 16];
            for i in 0..16 {
                k[i] = c[i / 4][i % 4];
            }
            k
        }).collect();
        Aes { rk }
    }
    pub fn block(&self, b: &[u8]) -> [u8; 16] {
        let sb = sbox();
        let mut s = [0u8; 16];
        for i in 0..16 {
            s[i] = b[i] ^ self.rk[0][i];
        }
        let n = self.rk.len();
        for r in 1..n {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    t[4 * c + row] = sb[s[4 * ((c + row) % 4) + row] as usize];
                }
            }
            if r != n - 1 {
                for c in 0..4 {
                    let col = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                    for row in 0..4 {
                        let x2 = |x: u8| (x << 1) ^ (if x & 0x80 != 0 { 0x1b } else { 0 });
                        t[4 * c + row] = x2(col[row]) ^ x2(col[(row + 1) % 4]) ^ col[(row + 1) % 4] ^ col[(row + 2) % 4] ^ col[(row + 3) % 4];
                    }
                }
            }
            for i in 0..16 {
                s[i] = t[i] ^ self.rk[r][i];
            }
        }
        s
    }
}
pub fn aes_ctr(key: &[u8], nonce: &[u8], ctr: u32, m: &[u8]) -> Vec<u8> {
    let aes = Aes::new(key);
    let mut out = vec![];
    for (i, c) in m.chunks(16).enumerate() {
        let mut b = nonce.to_vec();
        b.extend_from_slice(&ctr.wrapping_add(i as u32).to_be_bytes());
        let k = aes.block(&b);
        out.extend(c.iter().zip(k.iter()).map(|(x, y)| x ^ y));
    }
    out
}
// GF(2^128) multiplication in the GCM bit order, most significant bit first in byte 0
fn ghash_mul(x: u128, h: u128) -> u128 {
    let mut z = 0u128;
    let mut v = h;
    for i in 0..128 {
        if (x >> (127 - i)) & 1 == 1 {
            z ^= v;
        }
        v = (v >> 1) ^ if v & 1 == 1 { 0xe1u128 << 120 } else { 0 };
    }
    z
}
fn be128(b: &[u8]) -> u128 {
    let mut x = [0u8; 16];
    x[..b.len()].copy_from_slice(b);
    u128::from_be_bytes(x)
}
pub fn gcm_seal(key: &[u8], nonce: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let ct = aes_ctr(key, nonce, 2, pt);
    let t = gcm_tag(key, nonce, aad, &ct);
    (ct, t)
}
pub fn gcm_tag(key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8]) -> Vec<u8> {
    let aes = Aes::new(key);
    let h = u128::from_be_bytes(aes.block(&[0; 16]));
    let mut s = 0u128;
    for c in aad.chunks(16).chain(ct.chunks(16)) {
        s = ghash_mul(s ^ be128(c), h);
    }
    let l = ((aad.len() as u128 * 8) << 64) | (ct.len() as u128 * 8);
    s = ghash_mul(s ^ l, h);
    let mut j0 = nonce.to_vec();
    j0.extend_from_slice(&[0, 0, 0, 1]);
    (s ^ u128::from_be_bytes(aes.block(&j0))).to_be_bytes().to_vec()
}
pub fn gcm_open(key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    if gcm_tag(key, nonce, aad, ct) != tag {
        return None;
    }
    Some(aes_ctr(key, nonce, 2, ct))
}

// ---------------------------------------------------------------- ChaCha20-Poly1305
pub fn chacha_block(key: &[u8], ctr: u32, nonce: &[u8]) -> Vec<u8> {
    let le = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
    let mut s = [0u32; 16];
    for (i, c) in b"expand 32-byte k".chunks(4).enumerate() {
        s[i] = le(c);
    }
    for i in 0..8 {
        s[4 + i] = le(&key[4 * i..]);
    }
    s[12] = ctr;
    for i in 0..3 {
        s[13 + i] = le(&nonce[4 * i..]);
    }
    let mut w = s;
    let mut qr = |a: usize, b: usize, c: usize, d: usize| {
        for (x, y, z, r) in [(a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)] {
            w[x] = w[x].wrapping_add(w[y]);
            w[z] = (w[z] ^ w[x]).rotate_left(r);
        }
    };
    for _ in 0..10 {
        for i in 0..4 {
            qr(i, i + 4, i + 8, i + 12);
        }
        for i in 0..4 {
            qr(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
        }
    }
    (0..16).flat_map(|i| w[i].wrapping_add(s[i]).to_le_bytes().to_vec()).collect()
}
pub fn chacha20(key: &[u8], nonce: &[u8], ctr: u32, m: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for (i, c) in m.chunks(64).enumerate() {
        let k = chacha_block(key, ctr.wrapping_add(i as u32), nonce);
        out.extend(c.iter().zip(k.iter()).map(|(x, y)| x ^ y));
    }
    out
}
pub fn poly1305(key: &[u8], m: &[u8]) -> Vec<u8> {
    let mut rb = key[..16].to_vec();
    for i in [3, 7, 11, 15] {
        rb[i] &= 15;
    }
    for i in [4, 8, 12] {
        rb[i] &= 252;
    }
    let r = BigUint::from_bytes_le(&rb);
    let p = (BigUint::one() << 130) - 5u32;
    let mut acc = BigUint::zero();
    for c in m.chunks(16) {
        let mut b = c.to_vec();
        b.push(1);
        acc = (acc + BigUint::from_bytes_le(&b)) * &r % &p;
    }
    let t = acc + BigUint::from_bytes_le(&key[16..32]);
    let mut v = t.to_bytes_le();
    v.resize(std::cmp::max(16, v.len()), 0);
    v.truncate(16);
    v
}
pub fn ccp_tag(key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8]) -> Vec<u8> {
    let otk = chacha_block(key, 0, nonce);
    let mut m = aad.to_vec();
    while m.len() % 16 != 0 {
        m.push(0);
    }
    m.extend_from_slice(ct);
    while m.len() % 16 != 0 {
        m.push(0);
    }
    m.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    poly1305(&otk[..32], &m)
}
pub fn ccp_seal(key: &[u8], nonce: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let ct = chacha20(key, nonce, 1, pt);
    let t = ccp_tag(key, nonce, aad, &ct);
    (ct, t)
}
pub fn ccp_open(key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    if ccp_tag(key, nonce, aad, ct) != tag {
        return None;
    }
    Some(chacha20(key, nonce, 1, ct))
}

// ---------------------------------------------------------------- X25519 and P-256
pub struct Curve {
    p25519: BigUint,
    p256: BigUint,
    pub n256: BigUint,
    g: (BigUint, BigUint),
}
pub fn hexbig(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}
pub fn curve() -> &'static Curve {
    static mut T: Option<Curve> = None;
    unsafe {
        let p = std::ptr::addr_of_mut!(T);
        if (*p).is_none() {
            *p = Some(Curve {
                p25519: (BigUint::one() << 255) - 19u32,
                p256: hexbig("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
                n256: hexbig("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
                g: (
                    hexbig("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
                    hexbig("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
                ),
            });
        }
        (*p).as_ref().unwrap()
    }
}
pub fn modinv(a: &BigUint, p: &BigUint) -> Option<BigUint> {
    // extended Euclid on (value, coefficient) pairs with explicit signs
    let (mut r0, mut r1) = (p.clone(), a % p);
    let (mut t0, mut t1) = ((false, BigUint::zero()), (false, BigUint::one()));
    while !r1.is_zero() {
        let q = &r0 / &r1;
        let r2 = &r0 - &q * &r1;
        let qt = (t1.0, &q * &t1.1);
        // t2 = t0 - qt
        let t2 = if t0.0 != qt.0 {
            (t0.0, &t0.1 + &qt.1)
        } else if t0.1 >= qt.1 {
            (t0.0, &t0.1 - &qt.1)
        } else {
            (!t0.0, &qt.1 - &t0.1)
        };
        r0 = r1;
        r1 = r2;
        t0 = t1;
        t1 = t2;
    }
    if r0 != BigUint::one() {
        return None;
    }
    let m = &t0.1 % p;
    Some(if t0.0 && !m.is_zero() { p - m } else { m })
}
pub fn x25519(k: &[u8], u: &[u8]) -> Vec<u8> {
    let p = &curve().p25519;
    let mut kb = k.to_vec();
    kb[0] &= 248;
    kb[31] &= 127;
    kb[31] |= 64;
    let mut ub = u.to_vec();
    ub[31] &= 127;
    let k = BigUint::from_bytes_le(&kb);
    let x1 = BigUint::from_bytes_le(&ub) % p;
    let sub = |a: &BigUint, b: &BigUint| (a + p - b) % p;
    let (mut x2, mut z2, mut x3, mut z3) = (BigUint::one(), BigUint::zero(), x1.clone(), BigUint::one());
    let mut swap = false;
    for t in (0..255usize).rev() {
        let kt = (&k >> t) & BigUint::one() == BigUint::one();
        if swap != kt {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        swap = kt;
        let a = (&x2 + &z2) % p;
        let aa = &a * &a % p;
        let b = sub(&x2, &z2);
        let bb = &b * &b % p;
        let e = sub(&aa, &bb);
        let c = (&x3 + &z3) % p;
        let d = sub(&x3, &z3);
        let da = &d * &a % p;
        let cb = &c * &b % p;
        let s = (&da + &cb) % p;
        x3 = &s * &s % p;
        let f = sub(&da, &cb);
        z3 = &x1 * (&f * &f % p) % p;
        x2 = &aa * &bb % p;
        z2 = &e * ((&aa + BigUint::from(121665u32) * &e) % p) % p;
    }
    if swap {
        std::mem::swap(&mut x2, &mut x3);
        std::mem::swap(&mut z2, &mut z3);
    }
    let r = match modinv(&z2, p) {
        Some(i) => x2 * i % p,
        None => BigUint::zero(),
    };
    let mut o = r.to_bytes_le();
    o.resize(32, 0);
    o
}
type Pt = Option<(BigUint, BigUint)>;
fn p256_add(a: &Pt, b: &Pt) -> Pt {
    let p = &curve().p256;
    let (x1, y1) = match a {
        None => return b.clone(),
        Some(v) => v,
    };
    let (x2, y2) = match b {
        None => return a.clone(),
        Some(v) => v,
    };
    let sub = |a: &BigUint, b: &BigUint| (a + p - b) % p;
    let l = if x1 == x2 {
        if y1 != y2 || y1.is_zero() {
            return None;
        }
        // a = -3
        let num = (BigUint::from(3u32) * (x1 * x1 % p) + p - BigUint::from(3u32)) % p;
        num * modinv(&(y1 * 2u32), p).unwrap() % p
    } else {
        sub(y2, y1) * modinv(&sub(x2, x1), p).unwrap() % p
    };
    let x3 = sub(&sub(&(&l * &l % p), x1), x2);
    let y3 = sub(&(l * sub(x1, &x3) % p), y1);
    Some((x3, y3))
}
/// Scalar multiple of the base point; `None` is the point at infinity.
pub fn p256_mul(k: &BigUint) -> Pt {
    let mut r: Pt = None;
    let g: Pt = Some(curve().g.clone());
    for i in (0..256usize).rev() {
        r = p256_add(&r, &r);
        if (k >> i) & BigUint::one() == BigUint::one() {
            r = p256_add(&r, &g);
        }
    }
    r
}
pub fn p256_on_curve(x: &BigUint, y: &BigUint) -> bool {
    let p = &curve().p256;
    let b = hexbig("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b");
    let rhs = (x * x * x + (p - BigUint::from(3u32)) * x + b) % p;
    y * y % p == rhs
}

/// Checks every reference model against vectors produced by OpenSSL (tools/mkvectors.js).
pub fn selftest() -> Result<(), String> {
    warm_up();
    let unhex = |s: &str| -> Vec<u8> {
        if s == "-" {
            return vec![];
        }
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    };
    let mut n = 0;
    for (ln, line) in include_str!("../vectors.txt").lines().enumerate() {
        let f: Vec<&str> = line.split(' ').collect();
        let b: Vec<Vec<u8>> = f[1..].iter().map(|s| if s.len() % 2 == 0 || *s == "-" { unhex(s) } else { vec![] }).collect();
        let ok = match f[0] {
            "sha256" => sha256(&b[0]) == b[1],
            "sha3-224" => sha3(224, &b[0]) == b[1],
            "sha3-256" => sha3(256, &b[0]) == b[1],
            "sha3-384" => sha3(384, &b[0]) == b[1],
            "sha3-512" => sha3(512, &b[0]) == b[1],
            "shake128" => shake(128, &b[0], b[1].len()) == b[1],
            "shake256" => shake(256, &b[0], b[1].len()) == b[1],
            "blake2b512" => blake2b512(&b[0]) == b[1],
            "hmac" => hmac_sha256(&b[0], &b[1]) == b[2],
            "hkdf" => hkdf_expand(&hkdf_extract(&b[1], &b[0]), &b[2], b[3].len()) == b[3],
            "gcm" => {
                gcm_seal(&b[0], &b[1], &b[2], &b[3]) == (b[4].clone(), b[5].clone())
                    && gcm_open(&b[0], &b[1], &b[2], &b[4], &b[5]) == Some(b[3].clone())
            }
            "ccp" => {
                ccp_seal(&b[0], &b[1], &b[2], &b[3]) == (b[4].clone(), b[5].clone())
                    && ccp_open(&b[0], &b[1], &b[2], &b[4], &b[5]) == Some(b[3].clone())
            }
            "ctr" => aes_ctr(&b[0], &b[1], f[3].parse().unwrap(), &b[3]) == b[4],
            "chacha" => chacha20(&b[0], &b[1], f[3].parse().unwrap(), &b[3]) == b[4],
            "x25519" => x25519(&b[0], &b[1]) == b[2],
            "p256" => {
                let (x, y) = p256_mul(&hexbig(f[1])).ok_or("p256 infinity")?;
                let mut o = x.to_bytes_be();
                let mut v = vec![0; 32 - o.len()];
                v.append(&mut o);
                let mut o = y.to_bytes_be();
                v.extend(vec![0; 32 - o.len()]);
                v.append(&mut o);
                v == b[1] && p256_on_curve(&x, &y)
            }
            _ => false,
        };
        if !ok {
            return Err(format!("vector {} ({})", ln + 1, f[0]));
        }
        n += 1;
    }
    if n < 500 {
        return Err("vectors missing".into());
    }
    Ok(())
}

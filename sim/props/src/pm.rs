//! Reference polynomial arithmetic over the integers modulo n (n = 0: over the integers), on i128
//! coefficients, lowest first, for moduli below 2^126.
pub type P = Vec<i128>;

pub fn red(c: i128, n: i128) -> i128 {
    if n == 0 {
        c
    } else {
        c.rem_euclid(n)
    }
}
/// Product modulo n (n = 0: over the integers, where it has to fit).
pub fn times(a: i128, b: i128, n: i128) -> i128 {
    if n == 0 || n < 1 << 62 && a.abs() < 1 << 62 && b.abs() < 1 << 62 {
        return red(a * b, n);
    }
    let (mut x, mut y, mut r) = (red(a, n), red(b, n), 0);
    while y > 0 {
        if y & 1 == 1 {
            r = (r + x) % n;
        }
        x = (x + x) % n;
        y >>= 1;
    }
    r
}
pub fn trim(mut a: P) -> P {
    while a.last() == Some(&0) {
        a.pop();
    }
    a
}
pub fn norm(a: &[i128], n: i128) -> P {
    trim(a.iter().map(|c| red(*c, n)).collect())
}
pub fn add(a: &[i128], b: &[i128], n: i128) -> P {
    let l = a.len().max(b.len());
    trim((0..l).map(|i| red(a.get(i).copied().unwrap_or(0) + b.get(i).copied().unwrap_or(0), n)).collect())
}
pub fn sub(a: &[i128], b: &[i128], n: i128) -> P {
    let l = a.len().max(b.len());
    trim((0..l).map(|i| red(a.get(i).copied().unwrap_or(0) - b.get(i).copied().unwrap_or(0), n)).collect())
}
pub fn mul(a: &[i128], b: &[i128], n: i128) -> P {
    let mut o = vec![0i128; a.len() + b.len()];
    for (i, x) in a.iter().enumerate() {
        if *x != 0 {
            for (j, y) in b.iter().enumerate() {
                o[i + j] = red(o[i + j] + times(red(*x, n), red(*y, n), n), n);
            }
        }
    }
    trim(o)
}
/// Inverse of a unit modulo n; None if there is none.
pub fn inv(a: i128, n: i128) -> Option<i128> {
    let (mut r0, mut r1, mut t0, mut t1) = (n, a.rem_euclid(n), 0i128, 1i128);
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 - q * r1);
        (t0, t1) = (t1, t0 - q * t1);
    }
    if r0 == 1 {
        Some(t0.rem_euclid(n))
    } else {
        None
    }
}
/// Quotient and remainder; None if the leading coefficient of the divisor is not a unit (modulo n)
/// or does not divide (over the integers).
pub fn divrem(a: &[i128], b: &[i128], n: i128) -> Option<(P, P)> {
    let (mut r, b) = (norm(a, n), norm(b, n));
    let lead = *b.last()?;
    let li = if n == 0 { 0 } else { inv(lead, n)? };
    let mut q = vec![0i128; r.len().max(1)];
    while r.len() >= b.len() {
        let top = *r.last().unwrap();
        let c = if n == 0 {
            if top % lead != 0 {
                return None;
            }
            top / lead
        } else {
            times(top, li, n)
        };
        let s = r.len() - b.len();
        q[s] = c;
        for (i, y) in b.iter().enumerate() {
            r[s + i] = red(r[s + i] - times(c, *y, n), n);
        }
        r = trim(r);
    }
    Some((trim(q), r))
}
/// Greatest common divisor over the field of n elements.
pub fn gcd(a: &[i128], b: &[i128], n: i128) -> P {
    let (mut a, mut b) = (norm(a, n), norm(b, n));
    while !b.is_empty() {
        let r = divrem(&a, &b, n).unwrap().1;
        a = b;
        b = r;
    }
    a
}
pub fn prime(n: i128) -> bool {
    if n < 2 {
        return false;
    }
    // Miller-Rabin with the bases that decide all 64-bit numbers (and the few larger ones in use)
    let p = |a: i128, mut e: i128| {
        let (mut x, mut r) = (a % n, 1i128);
        while e > 0 {
            if e & 1 == 1 {
                r = times(r, x, n);
            }
            x = times(x, x, n);
            e >>= 1;
        }
        r
    };
    for a in [2i128, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        if n % a == 0 {
            return n == a;
        }
    }
    let s = (n - 1).trailing_zeros();
    for a in [2i128, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let mut x = p(a, (n - 1) >> s);
        if x == 1 || x == n - 1 {
            continue;
        }
        let mut ok = false;
        for _ in 1..s {
            x = times(x, x, n);
            ok |= x == n - 1;
        }
        if !ok {
            return false;
        }
    }
    true
}

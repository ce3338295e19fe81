//! C06: sequences and arrays travel as chunks over a faulty network and are reassembled.
use hacspec::prelude::*;
use simkit::net::{gen_faults, Ev, Net};
use simkit::rng::mix64;
use simkit::{guard, Ctx, Prop, Res, Rng, Step};
use std::collections::BTreeMap;

pub trait Elem: Copy + Default {
    fn of(x: u64) -> Self;
    fn val(self) -> u64;
}
macro_rules! elem {
    ($t:ty) => {
        impl Elem for $t {
            fn of(x: u64) -> Self {
                x as $t
            }
            fn val(self) -> u64 {
                self as u64
            }
        }
    };
    ($t:ty, $b:ty) => {
        impl Elem for $t {
            fn of(x: u64) -> Self {
                <$t>::classify(x as $b)
            }
            fn val(self) -> u64 {
                self.declassify() as u64
            }
        }
    };
}
elem!(u8);
elem!(u16);
elem!(u32);
elem!(u64);
elem!(u128);
elem!(U8, u8);
elem!(U16, u16);
elem!(U32, u32);
elem!(U64, u64);
elem!(U128, u128);

pub trait Cont<E: Elem>: SeqTrait<E> + Clone {
    const LEN: Option<usize>;
    fn make(n: usize) -> Self;
    fn load_vec(v: Vec<E>) -> Self;
    fn load_slice(v: &[E]) -> Self;
    fn load_seq<A: SeqTrait<E>>(v: &A) -> Self;
    fn load_sub<A: SeqTrait<E>>(v: &A, start: usize, len: usize) -> Self;
    fn load_subr<A: SeqTrait<E>>(v: &A, r: std::ops::Range<usize>) -> Self;
    fn nchunks(&self, k: usize) -> usize;
    fn chunk(&self, k: usize, i: usize) -> (usize, Vec<E>);
    fn chunk_len(&self, k: usize, i: usize) -> Option<usize>;
    fn put_chunk<A: SeqTrait<E>>(self, k: usize, i: usize, v: &A) -> Self;
    fn cut(&self, start: usize, len: usize) -> Vec<E>;
    fn cutr(&self, r: std::ops::Range<usize>) -> Vec<E>;
    fn at(&self, how: u64, i: usize) -> E;
    fn set(&mut self, how: u64, i: usize, v: E);
    fn length(&self) -> usize;
}
macro_rules! body {
    ($s:ident, $e:ty) => {
        fn load_vec(v: Vec<$e>) -> Self {
            $s::from_vec(v)
        }
        fn load_slice(v: &[$e]) -> Self {
            $s::from_slice(v)
        }
        fn load_seq<A: SeqTrait<$e>>(v: &A) -> Self {
            $s::from_seq(v)
        }
        fn load_sub<A: SeqTrait<$e>>(v: &A, start: usize, len: usize) -> Self {
            $s::from_sub(v, start, len)
        }
        fn load_subr<A: SeqTrait<$e>>(v: &A, r: std::ops::Range<usize>) -> Self {
            $s::from_sub_range(v, r)
        }
        fn nchunks(&self, k: usize) -> usize {
            self.num_chunks(k)
        }
        fn chunk(&self, k: usize, i: usize) -> (usize, Vec<$e>) {
            let (l, c) = self.get_chunk(k, i);
            (l, c.iter().copied().collect())
        }
        fn put_chunk<A: SeqTrait<$e>>(self, k: usize, i: usize, v: &A) -> Self {
            self.set_chunk(k, i, v)
        }
        fn cut(&self, start: usize, len: usize) -> Vec<$e> {
            self.sub(start, len).iter().copied().collect()
        }
        fn cutr(&self, r: std::ops::Range<usize>) -> Vec<$e> {
            self.subr(r).iter().copied().collect()
        }
        fn at(&self, how: u64, i: usize) -> $e {
            match how % 4 {
                0 => self[i],
                1 if i < 256 => self[i as u8],
                2 => self[i as u32],
                _ => self[i as i32],
            }
        }
        fn set(&mut self, how: u64, i: usize, v: $e) {
            match how % 4 {
                0 => self[i] = v,
                1 if i < 256 => self[i as u8] = v,
                2 => self[i as u32] = v,
                _ => self[i as i32] = v,
            }
        }
        fn length(&self) -> usize {
            self.len()
        }
    };
}
macro_rules! seq_cont {
    ($s:ident, $($b:tt)*) => {
        impl<E: Elem + $($b)*> Cont<E> for $s<E> {
            const LEN: Option<usize> = None;
            fn make(n: usize) -> Self {
                $s::new(n)
            }
            fn chunk_len(&self, _k: usize, _i: usize) -> Option<usize> {
                None
            }
            body!($s, E);
        }
    };
}
seq_cont!(Seq, Copy);
seq_cont!(SecretSeq, SecretInteger);
seq_cont!(PublicSeq, PublicInteger);
macro_rules! arr_body {
    ($s:ident, $l:expr, $e:ty) => {
        const LEN: Option<usize> = Some($l);
        fn make(_n: usize) -> Self {
            $s::new()
        }
        fn chunk_len(&self, k: usize, i: usize) -> Option<usize> {
            Some(self.get_chunk_len(k, i))
        }
        body!($s, $e);
    };
}
macro_rules! arr {
    ($s:ident, $l:expr, $e:tt) => {
        array!($s, $l, $e);
        impl Cont<$e> for $s {
            arr_body!($s, $l, $e);
        }
    };
}
macro_rules! gen_arr {
    ($s:ident, $l:expr) => {
        generic_array!($s, $l);
        impl<E: Elem + Numeric> Cont<E> for $s<E> {
            arr_body!($s, $l, E);
        }
    };
}
arr!(B1, 1, U8);
arr!(B31, 31, U8);
arr!(B64, 64, U8);
arr!(P31, 31, u8);
arr!(P64, 64, u8);
arr!(W16, 16, U32);
arr!(W31, 31, U32);
arr!(V16, 16, u32);
arr!(V31, 31, u32);
arr!(D31, 31, U64);
arr!(D16, 16, U64);
arr!(Q31, 31, U128);
arr!(H31, 31, U16);
arr!(L31, 31, u64);
arr!(M31, 31, u128);
arr!(N31, 31, u16);
arr!(B300, 300, U8);
arr!(P520, 520, u8);
arr!(W260, 260, U32);
arr!(L270, 270, u64);
gen_arr!(G270, 270);
gen_arr!(G31, 31);
gen_arr!(G16, 16);

pub fn elems<E: Elem>(b: &[u8], n: usize) -> Vec<E> {
    (0..n)
        .map(|i| {
            let x = if b.is_empty() { 0 } else { b[i % b.len()] as u64 };
            E::of(mix64(x << 16 | i as u64))
        })
        .collect()
}
/// Elements that hold data bytes, for frames.
pub fn vals<E: Elem>(v: &[E]) -> Vec<u64> {
    v.iter().map(|x| x.val()).collect()
}
fn frame(k: usize, i: usize, v: &[u64]) -> Vec<u8> {
    let mut f = (k as u32).to_be_bytes().to_vec();
    f.extend_from_slice(&(i as u32).to_be_bytes());
    for x in v {
        f.extend_from_slice(&x.to_be_bytes());
    }
    f
}
fn parse<E: Elem>(f: &[u8]) -> Option<(usize, usize, Vec<E>)> {
    if f.len() < 8 || f.len() % 8 != 0 {
        return None;
    }
    let k = u32::from_be_bytes([f[0], f[1], f[2], f[3]]) as usize;
    let i = u32::from_be_bytes([f[4], f[5], f[6], f[7]]) as usize;
    let v = f[8..]
        .chunks(8)
        .map(|c| {
            let mut b = [0; 8];
            b.copy_from_slice(c);
            E::of(u64::from_be_bytes(b))
        })
        .collect();
    Some((k, i, v))
}
/// What a buffer must be after a chunk: None when it must be refused.
pub fn model_put(buf: &[u64], k: usize, i: usize, v: &[u64]) -> Option<Vec<u64>> {
    let start = k.checked_mul(i)?;
    if start > buf.len() || v.len() != k.min(buf.len() - start) {
        return None;
    }
    let mut b = buf.to_vec();
    b[start..start + v.len()].copy_from_slice(v);
    Some(b)
}
pub fn show<E: Elem, R: Cont<E>>(b: &R) -> Vec<u64> {
    vals(&b.iter().copied().collect::<Vec<E>>())
}
/// Delivers one chunk frame to a buffer and compares with the model.
fn deliver<E: Elem, R: Cont<E>>(ctx: &mut Ctx, buf: &R, k: usize, i: usize, v: Vec<E>, how: u64) -> Res<R> {
    let before = show(buf);
    let want = model_put(&before, k, i, &vals(&v));
    let d = || format!("chunk {} of size {} with {} elements into {} elements", i, k, v.len(), before.len());
    let mine = buf.clone();
    let got = guard(|| match how % 3 {
        0 => mine.put_chunk(k, i, &Seq::from_vec(v.clone())),
        1 => mine.put_chunk(k, i, &Seq::from_slice(&v)),
        // the chunk is cut out of a larger frame buffer
        _ => {
            let mut big = vec![E::of(99)];
            big.extend(v.iter());
            big.push(E::of(98));
            mine.put_chunk(k, i, &Seq::from_sub(&Seq::from_vec(big), 1, v.len()))
        }
    });
    let r = match (got, want) {
        (Ok(r), Some(w)) => {
            let g = show(&r);
            ctx.check(g == w, "chunk-misplaced", || format!("{}: got {:?} want {:?}", d(), g, w))?;
            ctx.count("chunks_placed");
            r
        }
        (Err(_), None) => {
            ctx.probe("bad_frame_refused");
            buf.clone()
        }
        (Ok(_), None) => return ctx.fail("bad-frame-accepted", d()),
        (Err(p), Some(_)) => return ctx.fail("good-frame-refused", format!("{}: {}", d(), p)),
    };
    let after = show(buf);
    ctx.check(after == before, "buffer-changed", || format!("{}: the receiver's buffer changed by itself", d()))?;
    Ok(r)
}
fn run<E: Elem, S: Cont<E>, R: Cont<E>>(steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    let cfg = steps.iter().find(|s| s.k == "!cfg").cloned().unwrap_or(Step::new("!cfg", &[0]));
    let n = S::LEN.or(R::LEN).unwrap_or(cfg.usz(1) % 400_000);
    // element counts of the other steps
    let lim = if n > 300 { 400_000 } else { 200 };
    let orig: Vec<E> = elems(cfg.data(0), n);
    let want = vals(&orig);
    let src = match guard(|| S::load_vec(orig.clone())) {
        Ok(s) => s,
        Err(p) => return ctx.fail("load-panics", format!("from_vec of {} elements: {}", n, p)),
    };
    ctx.check(show(&src) == want, "load-wrong", || "from_vec".into())?;
    let init: Vec<E> = if cfg.data(1).is_empty() { show::<E, R>(&R::make(n)).iter().map(|x| E::of(*x)).collect() } else { elems(cfg.data(1), n) };
    let mut bufs: Vec<R> = vec![R::load_vec(init.clone()), R::load_vec(init.clone())];
    // what each position must be
    let mut model: Vec<Vec<u64>> = vec![vals(&init); 2];
    let mut durable: Vec<Vec<E>> = vec![init.clone(); 2];
    // node 0 sends, nodes 1 and 2 receive
    let mut net = Net::new(steps, 3);
    for (i, s) in steps.iter().enumerate() {
        if !s.k.starts_with('!') && !s.k.starts_with("f.") {
            net.timer(s.arg(0) % 100_000, 0, i as u64);
        }
    }
    let mut chunks: BTreeMap<u64, (usize, usize, usize)> = BTreeMap::new();
    let mut full: Vec<bool> = vec![false; 2];
    while let Some(e) = net.next(ctx)? {
        match e {
            Ev::Timer { tag, .. } => {
                let s = &steps[tag as usize];
                let who = s.usz(2) % 2;
                match &s.k[..] {
                    "xfer" => {
                        let base = 1000 * (s.arg(1) % 8);
                        let k = 1 + s.usz(3) % 400_000;
                        if n / k > 900 {
                            continue;
                        }
                        if chunks.range(base..base + 1000).next().is_some() {
                            continue;
                        }
                        let wn = (n + k - 1) / k;
                        let gn = src.nchunks(k);
                        ctx.check(gn == wn, "num-chunks-wrong", || format!("{} elements in chunks of {}: {}", n, k, gn))?;
                        let mut order: Vec<usize> = (0..wn).collect();
                        Rng::new(s.arg(4)).shuffle(&mut order);
                        for i in order {
                            let wl = k.min(n - i * k);
                            let got = guard(|| (src.chunk(k, i), src.chunk_len(k, i)));
                            let ((l, c), cl) = match got {
                                Ok(x) => x,
                                Err(p) => return ctx.fail("get-chunk-panics", format!("chunk {} of {} of {} elements: {}", i, k, n, p)),
                            };
                            let c = vals(&c);
                            ctx.check(l == wl && cl.map_or(true, |x| x == wl) && c[..] == want[i * k..i * k + wl], "get-chunk-wrong", || {
                                format!("chunk {} of size {} of {} elements: length {} content {:?}", i, k, n, l, c)
                            })?;
                            if l < k {
                                ctx.probe("partial_last_chunk");
                            }
                            let id = base + i as u64;
                            chunks.insert(id, (who, k, i));
                            net.post(0, 1 + who, id, frame(k, i, &c), ctx);
                        }
                        full[who] = true;
                        if n == 0 {
                            ctx.probe("empty_transfer");
                        }
                    }
                    "frame" => {
                        // a frame with an arbitrary header
                        let v: Vec<E> = elems(s.data(0), s.usz(5) % lim);
                        ctx.fault("arbitrary_header");
                        ctx.nontrivial += 1;
                        deliver(ctx, &bufs[who], s.usz(3), s.usz(4), v, s.arg(6))?;
                    }
                    "copy" => {
                        // any sub-range into another buffer
                        let v: Vec<E> = elems(s.data(0), s.usz(6) % lim);
                        let (so, si, l) = (s.usz(3), s.usz(4), s.usz(5));
                        let before = show(&bufs[who]);
                        let ok = so.checked_add(l).map_or(false, |e| e <= before.len()) && si.checked_add(l).map_or(false, |e| e <= v.len());
                        let mut w = before.clone();
                        if ok {
                            w[so..so + l].copy_from_slice(&vals(&v)[si..si + l]);
                        } else {
                            ctx.probe("bad_range");
                        }
                        let (m, q) = (bufs[who].clone(), Seq::from_vec(v.clone()));
                        let got = guard(|| m.update_sub(so, &q, si, l));
                        let d = || format!("{} elements from {} of {} to {} of {}", l, si, v.len(), so, before.len());
                        match got {
                            Ok(r) if ok => {
                                let g = show(&r);
                                ctx.check(g == w, "copy-wrong", || format!("{}: got {:?} want {:?}", d(), g, w))?;
                                ctx.count("copies");
                            }
                            Err(_) if !ok => {}
                            Ok(_) => return ctx.fail("bad-range-accepted", d()),
                            Err(p) => return ctx.fail("copy-refused", format!("{}: {}", d(), p)),
                        }
                        // update and update_start are the same copy of a whole sequence
                        let m = bufs[who].clone();
                        let part: Vec<E> = v.iter().take(l.min(v.len())).copied().collect();
                        let ok = so.checked_add(part.len()).map_or(false, |e| e <= before.len());
                        let mut w = before.clone();
                        if ok {
                            w[so..so + part.len()].copy_from_slice(&vals(&part));
                        }
                        let q = Seq::from_vec(part.clone());
                        let start0 = so == 0;
                        let got = guard(|| if start0 { m.update_start(&q) } else { m.update(so, &q) });
                        match got {
                            Ok(r) => {
                                let g = show(&r);
                                ctx.check(ok && g == w, "update-wrong", || format!("{} elements at {} of {}: {:?}", part.len(), so, before.len(), g))?
                            }
                            Err(p) => ctx.check(!ok, "update-refused", || format!("{} elements at {} of {}: {}", part.len(), so, before.len(), p))?,
                        }
                        let after = show(&bufs[who]);
                        ctx.check(after == before, "buffer-changed", || "the copied-into buffer's original changed".into())?;
                    }
                    "cut" => {
                        let (a, l) = (s.usz(3), s.usz(4));
                        let have = show(&bufs[who]);
                        let ok = a.checked_add(l).map_or(false, |e| e <= have.len());
                        let b = &bufs[who];
                        let all = Seq::from_vec(have.iter().map(|x| E::of(*x)).collect::<Vec<E>>());
                        let fixed = R::LEN.map_or(true, |n| n == l);
                        let res: Vec<(&str, Result<Vec<u64>, String>, bool)> = vec![
                            ("sub", guard(|| vals(&b.cut(a, l))), ok),
                            ("subr", guard(|| vals(&b.cutr(a..a.saturating_add(l)))), ok),
                            ("from_sub", guard(|| show(&R::load_sub(&all, a, l))), ok && fixed),
                            ("from_sub_range", guard(|| show(&R::load_subr(&all, a..a.saturating_add(l)))), ok && fixed),
                        ];
                        for (what, r, ok) in res {
                            let d = format!("{} {}+{} of {}", what, a, l, have.len());
                            match r {
                                Ok(g) => ctx.check(ok && g[..] == have[a..a + l], "cut-wrong", || format!("{}: {:?}", d, g))?,
                                Err(p) => ctx.check(!ok, "cut-refused", || format!("{}: {}", d, p))?,
                            }
                        }
                    }
                    "load" => {
                        let v: Vec<E> = elems(s.data(0), s.usz(3) % (lim - 80));
                        let vv = vals(&v);
                        let same = R::LEN.map_or(true, |n| n == v.len());
                        let mut padded = vv.clone();
                        if let Some(n) = R::LEN {
                            padded.resize(n.max(vv.len()), 0);
                        }
                        let q = Seq::from_vec(v.clone());
                        let res: Vec<(&str, Result<Vec<u64>, String>, bool, &Vec<u64>)> = vec![
                            ("from_vec", guard(|| show(&R::load_vec(v.clone()))), same, &vv),
                            ("from_seq", guard(|| show(&R::load_seq(&q))), same, &vv),
                            ("from_slice", guard(|| show(&R::load_slice(&v))), R::LEN.map_or(true, |n| v.len() <= n), &padded),
                        ];
                        for (what, r, ok, w) in res {
                            let d = format!("{} of {} elements (capacity {:?})", what, v.len(), R::LEN);
                            match r {
                                Ok(g) => ctx.check(ok && g == *w, "load-wrong", || format!("{}: {:?}", d, g))?,
                                Err(p) => ctx.check(!ok, "load-refused", || format!("{}: {}", d, p))?,
                            }
                        }
                    }
                    "poke" => {
                        // element access of every index kind; out of range is refused
                        let i = s.usz(3);
                        let have = show(&bufs[who]);
                        let (mut m, v) = (bufs[who].clone(), E::of(s.arg(4)));
                        let how = s.arg(5);
                        let r = guard(|| {
                            let old = m.at(how, i).val();
                            m.set(how, i, v);
                            old
                        });
                        match r {
                            Ok(o) => {
                                ctx.check(i < have.len() && o == have[i], "index-wrong", || format!("read {} of {}", i, have.len()))?;
                                let mut w = have.clone();
                                w[i] = v.val();
                                let g = show(&m);
                                ctx.check(g == w, "index-write-wrong", || format!("write {} of {}", i, have.len()))?;
                            }
                            Err(p) => ctx.check(i >= have.len() && show(&m) == have, "index-refused", || format!("{} of {}: {}", i, have.len(), p))?,
                        }
                    }
                    _ => {}
                }
            }
            Ev::Msg { to, id, bytes, damaged, attempt, .. } => {
                let w = to - 1;
                let (k, i, v) = match parse::<E>(&bytes) {
                    Some(x) => x,
                    None => {
                        ctx.probe("frame_unparsable");
                        continue;
                    }
                };
                if damaged {
                    // a damaged frame is applied to a copy: it must do what its header says or be refused
                    ctx.nontrivial += 1;
                    deliver(ctx, &bufs[w], k, i, v, attempt)?;
                    continue;
                }
                let vv = vals(&v);
                let b = deliver(ctx, &bufs[w], k, i, v, id)?;
                model[w][i * k..i * k + vv.len()].copy_from_slice(&vv);
                bufs[w] = b;
                let g = show(&bufs[w]);
                ctx.check(g == model[w], "partial-wrong", || format!("after chunk {}: {:?} want {:?}", i, g, model[w]))?;
                ctx.ev("chunk", &bytes);
                durable[w] = bufs[w].iter().copied().collect();
                net.ack(id, ctx);
                ctx.state(g.iter().zip(&want).fold(n as u64, |h, (a, b)| mix64(h ^ (a == b) as u64)));
            }
            Ev::Crash { .. } => {}
            Ev::Restart { node } => {
                if node > 0 {
                    let w = node - 1;
                    // the buffer is read back from its last durable image
                    let d = durable[w].clone();
                    let b = match net.now % 3 {
                        0 => guard(|| R::load_vec(d.clone())),
                        1 => guard(|| R::load_slice(&d)),
                        _ => guard(|| R::load_seq(&S::load_slice(&d))),
                    };
                    bufs[w] = match b {
                        Ok(b) => b,
                        Err(p) => return ctx.fail("load-refused", format!("buffer image of {} elements: {}", d.len(), p)),
                    };
                    let g = show(&bufs[w]);
                    ctx.check(g == model[w], "restart-wrong", || format!("{:?} want {:?}", g, model[w]))?;
                    ctx.probe("receiver_restored");
                }
            }
        }
    }
    for w in 0..2 {
        if full[w] {
            let g = show(&bufs[w]);
            ctx.check(g == want && bufs[w].length() == n, "reassembly-wrong", || format!("receiver {}: {:?} want {:?}", w, g, want))?;
            ctx.count("reassembled");
        }
    }
    Ok(())
}
const KINDS: u64 = 29;
fn exec(steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    let kind = steps.iter().find(|s| s.k == "!cfg").map_or(0, |s| s.arg(0)) % KINDS;
    match kind {
        0 => run::<U8, Seq<U8>, Seq<U8>>(steps, ctx),
        1 => run::<U8, Seq<U8>, B64>(steps, ctx),
        2 => run::<U8, B31, Seq<U8>>(steps, ctx),
        3 => run::<U8, B31, B31>(steps, ctx),
        4 => run::<U8, SecretSeq<U8>, B1>(steps, ctx),
        5 => run::<u8, PublicSeq<u8>, P31>(steps, ctx),
        6 => run::<u8, P64, PublicSeq<u8>>(steps, ctx),
        7 => run::<u8, Seq<u8>, PublicSeq<u8>>(steps, ctx),
        8 => run::<U32, W16, W16>(steps, ctx),
        9 => run::<U32, Seq<U32>, W31>(steps, ctx),
        10 => run::<u32, V31, Seq<u32>>(steps, ctx),
        11 => run::<u32, PublicSeq<u32>, V16>(steps, ctx),
        12 => run::<U64, D31, SecretSeq<U64>>(steps, ctx),
        13 => run::<U64, G16<U64>, D16>(steps, ctx),
        14 => run::<U128, Q31, G31<U128>>(steps, ctx),
        15 => run::<U16, H31, Seq<U16>>(steps, ctx),
        16 => run::<u64, L31, L31>(steps, ctx),
        17 => run::<u128, Seq<u128>, M31>(steps, ctx),
        18 => run::<u16, N31, PublicSeq<u16>>(steps, ctx),
        19 => run::<u32, G16<u32>, G16<u32>>(steps, ctx),
        20 => run::<U32, SecretSeq<U32>, Seq<U32>>(steps, ctx),
        21 => run::<u64, Seq<u64>, Seq<u64>>(steps, ctx),
        22 => run::<U64, G31<U64>, G31<U64>>(steps, ctx),
        23 => run::<u8, PublicSeq<u8>, PublicSeq<u8>>(steps, ctx),
        24 => run::<U8, B300, B300>(steps, ctx),
        25 => run::<u8, PublicSeq<u8>, P520>(steps, ctx),
        26 => run::<U32, W260, Seq<U32>>(steps, ctx),
        27 => run::<u64, L270, G270<u64>>(steps, ctx),
        _ => run::<U64, SecretSeq<U64>, G270<U64>>(steps, ctx),
    }
}
fn idx(r: &mut Rng, n: u64) -> u64 {
    let n = n.min(1 << 40);
    match r.below(8) {
        0 => 0,
        1 => n,
        2 => n + 1,
        3 => n.saturating_sub(1),
        4 => n + r.below(20),
        5 if r.chance(1, 6) => u64::MAX - r.below(3),
        _ => r.below(n + 2),
    }
}
fn gen(r: &mut Rng, thorough: bool) -> Vec<Step> {
    let kind = if r.chance(1, 150) { 24 + r.below(5) } else { r.below(24) };
    let n = match kind {
        24 => 300,
        25 => 520,
        26 => 260,
        27 | 28 => 270,
        1 | 6 => 64,
        4 => 1,
        8 | 11 | 13 | 19 => 16,
        0 | 7 | 20 | 21 | 23 => r.len(if thorough { 200 } else { 90 }, &[8, 16, 32]) as u64,
        _ => 31,
    };
    // now and then a long sequence, in few or in many chunks
    let long = matches!(kind, 0 | 7 | 20 | 21 | 23) && r.chance(1, 500);
    let n = if long { r.long(if thorough { 300_000 } else { 70_000 }) as u64 } else { n };
    let d = vec![r.bytes(1 + (n as usize).min(5000)), if r.chance(1, 2) { vec![] } else { r.bytes(16) }];
    let mut v = vec![Step::with("!cfg", &[kind, n], d)];
    let mut ids = vec![];
    for x in 0..r.range(1, 3) {
        let k = match r.below(6) {
            0 => 1,
            1 => n.max(1),
            2 => n + 1,
            3 => (n / 2).max(1),
            _ => 1 + r.below(n + 3),
        };
        let k = if long || kind >= 24 { 1 + n / if n < 4000 { 1 + r.below(700) } else { 1 + r.below(40) } + r.below(2) * r.below(8) } else { k.min(70) };
        v.push(Step::new("xfer", &[r.below(500), x, r.below(2), k - 1, r.next()]));
        let c = (n + k - 1) / k;
        let some = c.min(12);
        for _ in 0..some {
            ids.push(1000 * x + r.below(c));
        }
    }
    for _ in 0..r.below(5) {
        let t = r.below(2000);
        let w = r.below(2);
        match r.below(5) {
            0 => {
                let k = 1 + r.below(n + 4);
                let c = (n + k - 1) / k;
                let i = if r.chance(1, 10) { r.special_u64() } else { idx(r, c) };
                // a place that comes back into the buffer when it is computed in a machine word
                let wraps = r.chance(1, 10) && k > 1;
                let i = if wraps { (((r.below(k - 1) + 1) as u128) << 64).div_ceil(k as u128) as u64 } else { i };
                let at = i.wrapping_mul(k);
                let l = if wraps && at <= n && r.chance(3, 4) { k.min(n - at) } else if r.chance(1, 3) { k } else { idx(r, k) };
                v.push(Step::with("frame", &[t, 0, w, k, i, l, r.below(3)], vec![r.bytes(8)]));
            }
            1 => {
                let m = idx(r, n);
                let l = if r.chance(1, 2) { r.below(n + 1) } else { idx(r, n) };
                let (mut a, mut b) = (idx(r, n.saturating_sub(l.min(n))), idx(r, m.saturating_sub(l.min(m))));
                // ends behind the end of a machine word
                match r.below(40) {
                    0 => a = l.wrapping_neg().wrapping_add(r.below(3)),
                    1 => b = l.wrapping_neg().wrapping_add(r.below(3)),
                    _ => {}
                }
                v.push(Step::with("copy", &[t, 0, w, a, b, l, m], vec![r.bytes(8)]));
            }
            2 => {
                let a = idx(r, n);
                let l = if r.chance(1, 3) { n } else { idx(r, n.saturating_sub(a.min(n))) };
                v.push(Step::new("cut", &[t, 0, w, if l == n { r.below(2) } else { a }, l]));
            }
            3 => v.push(Step::with("load", &[t, 0, w, idx(r, n) % if long { 300_000 } else { 120 }], vec![r.bytes(8)])),
            _ => v.push(Step::new("poke", &[t, 0, w, idx(r, n) % 1_000_000, r.next(), r.below(4)])),
        }
    }
    gen_faults(r, &mut v, &ids, 3, 1500, true, true);
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C06",
        quick_runs: 250_000,
        thorough_runs: 1_500_000,
        step_budget: 1_000_000_000,
        again: 1500,
        rule: "a seeded chunked transfer of a sequence or array to two receivers (sequences or arrays of ten element types) in shuffled order with network faults, header damage and receiver restarts, plus range copies, cuts and loads; non-trivial: at least one damaged or arbitrary frame was delivered; distinct by event log",
        real: &["hacspec::seq (Seq, SecretSeq, PublicSeq)", "hacspec::array (array!, generic_array!)", "hacspec::traits::SeqTrait"],
        stubs: &["network, clock, durable buffer image, retransmission: simulated", "expected buffers: a vector model"],
        assumptions: &["debug assertions are on, as in the repository's tests: refusal of a bad range is by them", "lengths up to 90 elements (200 in the thorough tier), 1 in 500 sequences up to 70000 (300000)"],
        gen,
        exec,
    }
}

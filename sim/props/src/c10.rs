//! C10: loads of test-vector files whose reads are sliced, interrupted and failing, while the files are
//! replaced, torn, damaged and repaired between and during the loads.
use hacspec_dev::*;
use simkit::rng::{mix64, Rng as SimRng};
use simkit::sched::{self, Plan};
use simkit::seams::{self, Ans, Files, Out, Seams};
use simkit::{guard, Ctx, Prop, Res, Step};
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

create_test_vectors!(Case, hex: String, count: u8, tags: Vec<String>, wide: u128);
create_test_vectors!(Suite, name: String, num: u64, neg: i64, flag: bool, bytes: Vec<u8>, tests: Vec<Case>);

/// The same structures, declared without the library.
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone, PartialEq)]
struct RCase {
    hex: String,
    count: u8,
    tags: Vec<String>,
    wide: u128,
}
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone, PartialEq)]
struct RSuite {
    name: String,
    num: u64,
    neg: i64,
    flag: bool,
    bytes: Vec<u8>,
    tests: Vec<RCase>,
}
fn case(c: &Case) -> RCase {
    RCase { hex: c.hex.clone(), count: c.count, tags: c.tags.clone(), wide: c.wide }
}
fn suite(s: &Suite) -> RSuite {
    RSuite { name: s.name.clone(), num: s.num, neg: s.neg, flag: s.flag, bytes: s.bytes.clone(), tests: s.tests.iter().map(case).collect() }
}
/// What a load gives.
#[derive(Debug, Clone, PartialEq)]
enum Val {
    Cases(Vec<RCase>),
    Suites(Vec<RSuite>),
    Case(RCase),
    Suite(RSuite),
}
fn load(form: u64, path: &'static str) -> Val {
    match form % 4 {
        0 => {
            let v = Case::new_array(path);
            // what was read can be written and read again
            let t = serde_json_text(&v);
            let r = Val::Cases(v.iter().map(case).collect());
            assert!(reference(0, t.as_bytes()).as_ref() == Some(&r), "the records do not write themselves as read");
            r
        }
        1 => Val::Suites(Suite::new_array(path).iter().map(suite).collect()),
        2 => Val::Case(case(&Case::new(path))),
        _ => {
            let s = Suite::new(path);
            let t = serde_json_text(&s.clone());
            let r = Val::Suite(suite(&s));
            assert!(reference(3, t.as_bytes()).as_ref() == Some(&r), "the record does not write itself as read");
            r
        }
    }
}
fn serde_json_text<T: serde::Serialize>(v: &T) -> String {
    serde_json::to_string(v).unwrap()
}
fn reference(form: u64, b: &[u8]) -> Option<Val> {
    match form % 4 {
        0 => serde_json::from_slice(b).ok().map(Val::Cases),
        1 => serde_json::from_slice(b).ok().map(Val::Suites),
        2 => serde_json::from_slice(b).ok().map(Val::Case),
        _ => serde_json::from_slice(b).ok().map(Val::Suite),
    }
}

/// Makes up records from a seed.
fn text(r: &mut SimRng, max: usize) -> String {
    let alphabet = ["a", "0", "f", "Z", " ", "\"", "\\", "/", "\n", "\t", "\u{1}", "\u{7f}", "é", "€", "𝄞", "{", "}", "[", "]", ",", ":", "null", "\u{2028}"];
    let plain = r.chance(1, 2);
    (0..r.usz(max + 1)).map(|_| if plain { (b'a' + (r.next() % 26) as u8) as char } else { r.pick(&alphabet).chars().next().unwrap() }).collect()
}
fn make_case(r: &mut SimRng, size: usize) -> RCase {
    RCase {
        hex: text(r, size),
        count: r.next() as u8,
        tags: (0..r.usz(4)).map(|_| text(r, 12)).collect(),
        wide: if r.chance(1, 2) { r.special_u128() } else { r.below(100) as u128 },
    }
}
fn make_suite(r: &mut SimRng, size: usize) -> RSuite {
    RSuite {
        name: text(r, 30),
        num: r.special_u64(),
        neg: r.special_u64() as i64,
        flag: r.chance(1, 2),
        bytes: {
            let n = r.usz(size / 2 + 2);
            r.bytes(n)
        },
        tests: (0..r.usz(5)).map(|_| make_case(r, size / 4 + 4)).collect(),
    }
}
fn make(form: u64, seed: u64) -> Val {
    let mut r = SimRng::new(seed);
    let size = if r.chance(1, 40) { 30_000 } else { *r.pick(&[4usize, 20, 60, 200, 900, 3000]) };
    match form % 4 {
        0 => Val::Cases((0..r.usz(12)).map(|_| make_case(&mut r, size)).collect()),
        1 => Val::Suites((0..r.usz(5)).map(|_| make_suite(&mut r, size)).collect()),
        2 => Val::Case(make_case(&mut r, size * 4)),
        _ => Val::Suite(make_suite(&mut r, size)),
    }
}
/// Writes them with a style of its own: spaces, order of the fields, escapes.
struct W<'a> {
    r: &'a mut SimRng,
    style: u64,
    o: String,
}
impl W<'_> {
    fn sp(&mut self) {
        if self.style & 1 == 1 {
            for _ in 0..self.r.usz(4) {
                self.o.push(*self.r.pick(&[' ', '\n', '\t', '\r', ' ']));
            }
        }
    }
    fn put(&mut self, s: &str) {
        self.sp();
        self.o.push_str(s);
        self.sp();
    }
    fn str(&mut self, s: &str) {
        self.sp();
        self.o.push('"');
        for c in s.chars() {
            let esc = self.style & 2 == 2 && self.r.chance(1, 5);
            match c {
                '"' => self.o.push_str("\\\""),
                '\\' => self.o.push_str("\\\\"),
                '\n' if !esc => self.o.push_str("\\n"),
                '\t' if !esc => self.o.push_str("\\t"),
                '/' if esc => self.o.push_str("\\/"),
                c if (c as u32) < 32 || esc => {
                    let mut b = [0; 2];
                    for u in c.encode_utf16(&mut b) {
                        if self.style & 4 == 4 {
                            self.o.push_str(&format!("\\u{:04X}", u));
                        } else {
                            self.o.push_str(&format!("\\u{:04x}", u));
                        }
                    }
                }
                c => self.o.push(c),
            }
        }
        self.o.push('"');
        self.sp();
    }
    fn list<T>(&mut self, v: &[T], f: impl Fn(&mut Self, &T)) {
        self.put("[");
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.put(",");
            }
            f(self, x);
        }
        self.put("]");
    }
    fn fields(&mut self, n: usize, names: &[&str], f: impl Fn(&mut Self, usize)) {
        let mut order: Vec<usize> = (0..n).collect();
        if self.style & 8 == 8 {
            self.r.shuffle(&mut order);
        }
        self.put("{");
        for (j, i) in order.into_iter().enumerate() {
            if j > 0 {
                self.put(",");
            }
            self.str_plain(names[i]);
            self.put(":");
            f(self, i);
        }
        self.put("}");
    }
    fn str_plain(&mut self, s: &str) {
        self.sp();
        self.o.push_str(&format!("\"{}\"", s));
        self.sp();
    }
    fn case(&mut self, c: &RCase) {
        self.fields(4, &["hex", "count", "tags", "wide"], |w, i| match i {
            0 => w.str(&c.hex),
            1 => w.put(&c.count.to_string()),
            2 => w.list(&c.tags, |w, t| w.str(t)),
            _ => w.put(&c.wide.to_string()),
        });
    }
    fn suite(&mut self, s: &RSuite) {
        self.fields(6, &["name", "num", "neg", "flag", "bytes", "tests"], |w, i| match i {
            0 => w.str(&s.name),
            1 => w.put(&s.num.to_string()),
            2 => w.put(&s.neg.to_string()),
            3 => w.put(if s.flag { "true" } else { "false" }),
            4 => w.list(&s.bytes, |w, b| w.put(&b.to_string())),
            _ => w.list(&s.tests, |w, c| w.case(c)),
        });
    }
}
fn write_out(v: &Val, style: u64, seed: u64) -> Vec<u8> {
    let mut r = SimRng::new(mix64(seed));
    let mut w = W { r: &mut r, style, o: String::new() };
    match v {
        Val::Cases(c) => w.list(c, |w, c| w.case(c)),
        Val::Suites(s) => w.list(s, |w, s| w.suite(s)),
        Val::Case(c) => w.case(c),
        Val::Suite(s) => w.suite(s),
    }
    w.o.into_bytes()
}

struct Dir(String);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// What the disk holds under a name.
#[derive(Clone, Debug, PartialEq)]
enum Disk {
    Nothing,
    Folder,
    /// content, and the value it was made from if it is undamaged
    File(Vec<u8>, Option<(u64, Val)>),
}
fn read_answer(x: u64) -> Ans {
    match x % 12 {
        0..=2 => Ans::Intr,
        3..=6 => Ans::Short(1 + (x >> 8) as usize % *[1usize, 7, 100, 5000].get((x >> 40) as usize % 4).unwrap()),
        7 => Ans::Err([libc::EIO, libc::EAGAIN, libc::ESTALE, libc::ENOMEM, libc::EISDIR, libc::ETIMEDOUT, libc::EBADF, libc::EINVAL][(x >> 8) as usize % 8]),
        _ => Ans::Ok,
    }
}
fn soft(a: Ans) -> Ans {
    match a {
        Ans::Err(_) => Ans::Intr,
        a => a,
    }
}
fn arm(dir: &str, opens: VecDeque<Ans>, plans: Vec<(VecDeque<Ans>, Ans)>, out: Option<Ans>) {
    seams::set(Some(Seams {
        files: Some(Files { prefix: dir.into(), open_plan: opens, read_plans: plans.into(), ..Default::default() }),
        out: Some(Out { steady: out, ..Default::default() }),
        ..Default::default()
    }));
}
fn set_time(path: &str) {
    // all versions carry the same time
    let c = std::ffi::CString::new(path).unwrap();
    let t = [libc::timespec { tv_sec: 1_600_000_000, tv_nsec: 0 }; 2];
    unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), t.as_ptr(), 0) };
}
fn fired(k: &str) -> u64 {
    seams::get().map_or(0, |s| s.fired.get(k).copied().unwrap_or(0))
}
const FILES: usize = 4;
fn exec(steps: &[Step], ctx: &mut Ctx) -> Res<()> {
    let dir = Dir(format!("{}/hacspec-sim-c10-{}", std::env::temp_dir().display(), std::process::id()));
    let _ = std::fs::remove_dir_all(&dir.0);
    std::fs::create_dir(&dir.0).expect("scratch directory");
    let paths: Vec<&'static str> = (0..FILES).map(|i| &*Box::leak(format!("{}/v{}.json", dir.0, i).into_boxed_str())).collect();
    let mut disk = vec![Disk::Nothing; FILES];
    let mut was_broken = [false; FILES];
    let put = |i: usize, d: &Disk, in_place: bool| {
        seams::set(None);
        let p = paths[i];
        let _ = std::fs::remove_dir(p);
        match d {
            Disk::Nothing => {
                let _ = std::fs::remove_file(p);
            }
            Disk::Folder => {
                let _ = std::fs::remove_file(p);
                std::fs::create_dir(p).unwrap();
            }
            Disk::File(b, _) => {
                if in_place {
                    std::fs::write(p, b).unwrap();
                } else {
                    let t = format!("{}.new", p);
                    std::fs::write(&t, b).unwrap();
                    std::fs::rename(&t, p).unwrap();
                }
                set_time(p);
            }
        }
    };
    // what a load of this must give; None: a panic
    let want = |d: &Disk, form: u64| match d {
        Disk::File(b, made) => {
            let v = reference(form, b);
            if let Some((f, m)) = made {
                // the reference reader agrees with what the file was made from
                assert!(*f != form || v.as_ref() == Some(m), "harness: the reference misread its own file");
            }
            v
        }
        _ => None,
    };
    for s in steps {
        let i = s.usz(0) % FILES;
        match &s.k[..] {
            "write" => {
                // a save, or a new save over the old one with one digit changed
                let form = s.arg(1) % 4;
                let v = make(form, s.arg(2));
                let b = write_out(&v, s.arg(3), s.arg(2));
                disk[i] = Disk::File(b, Some((form, v)));
                put(i, &disk[i], s.arg(4) % 2 == 1);
                ctx.count("files_written");
            }
            "digit" => {
                // another file of the same length and time
                if let Disk::File(b, _) = &disk[i] {
                    let mut b = b.clone();
                    let at: Vec<usize> = (0..b.len()).filter(|p| b[*p].is_ascii_lowercase() || b[*p].is_ascii_digit()).collect();
                    if !at.is_empty() {
                        let p = at[s.usz(1) % at.len()];
                        b[p] = if b[p].is_ascii_digit() { b'0' + (b[p] - b'0' + 1 + (s.arg(2) % 9) as u8) % 10 } else { b'a' + (b[p] - b'a' + 1 + (s.arg(2) % 25) as u8) % 26 };
                        ctx.fault("same_size_same_time_replacement");
                        disk[i] = Disk::File(b, None);
                        put(i, &disk[i], s.arg(3) % 2 == 1);
                    }
                }
            }
            "harm" => {
                let old = disk[i].clone();
                let p = s.usz(2);
                let d = match (s.arg(1) % 12, &old) {
                    (0, _) => {
                        ctx.fault("file_missing");
                        Disk::Nothing
                    }
                    (1, _) => {
                        ctx.fault("file_is_folder");
                        Disk::Folder
                    }
                    (2..=5, Disk::File(b, _)) => {
                        ctx.fault("file_truncated");
                        Disk::File(b[..p % (b.len() + 1)].to_vec(), None)
                    }
                    (6, Disk::File(b, _)) if !b.is_empty() => {
                        ctx.fault("file_bit_flipped");
                        let mut b = b.clone();
                        let l = b.len();
                        b[p % l] ^= 1 << (s.arg(3) % 8);
                        Disk::File(b, None)
                    }
                    (7, Disk::File(b, _)) => {
                        ctx.fault("file_garbage_at_end");
                        let mut b = b.clone();
                        b.extend_from_slice(s.data(0));
                        Disk::File(b, None)
                    }
                    (8, Disk::File(b, _)) => {
                        // the new save reached the disk only up to a point
                        ctx.fault("file_torn");
                        let n = write_out(&make(s.arg(3), s.arg(4)), s.arg(3), s.arg(4));
                        let mut d = b.clone();
                        let k = p % (n.len() + 1);
                        d.resize(d.len().max(k), 0);
                        d[..k].copy_from_slice(&n[..k]);
                        Disk::File(d, None)
                    }
                    (9, Disk::File(b, _)) => {
                        ctx.fault("file_sector_zeroed");
                        let mut b = b.clone();
                        let from = p % (b.len() + 1);
                        for x in b.iter_mut().skip(from).take(1 + s.usz(3) % 64) {
                            *x = 0;
                        }
                        Disk::File(b, None)
                    }
                    (10, Disk::File(b, _)) => {
                        ctx.fault("file_byte_lost");
                        let mut b = b.clone();
                        if !b.is_empty() {
                            let l = b.len();
                            b.remove(p % l);
                        }
                        Disk::File(b, None)
                    }
                    (11, Disk::File(b, _)) => {
                        ctx.fault("file_empty");
                        Disk::File(b[..0].to_vec(), None)
                    }
                    (_, d) => d.clone(),
                };
                disk[i] = d;
                was_broken[i] = true;
                ctx.nontrivial += 1;
                put(i, &disk[i], s.arg(3) % 2 == 1);
            }
            "load" => {
                let natural = match &disk[i] {
                    Disk::File(_, Some((f, _))) => Some(*f),
                    _ => None,
                };
                let form = if s.arg(1) % 8 == 7 { s.arg(1) >> 8 } else { natural.unwrap_or(s.arg(1) >> 8) } % 4;
                let open = match s.arg(2) % 24 {
                    0 => Some(Ans::Err([libc::EACCES, libc::EMFILE, libc::ENFILE, libc::EIO, libc::ENOENT][s.usz(3) % 5])),
                    1..=3 => Some(Ans::Intr),
                    _ => None,
                };
                let reads: VecDeque<Ans> = s.a.iter().skip(5).take(20).map(|x| read_answer(*x)).collect();
                let steady = match s.arg(4) % 8 {
                    0 => Ans::Short(1),
                    1 => Ans::Short(13),
                    2 => Ans::Short(4096),
                    _ => Ans::Ok,
                };
                let stream = match s.arg(4) / 8 % 6 {
                    0 => Some(Ans::Err(libc::EPIPE)),
                    1 => Some(Ans::Err(libc::EBADF)),
                    _ => None,
                };
                arm(&dir.0, open.into_iter().collect(), vec![(reads, steady)], stream);
                let got = guard(|| load(form, paths[i]));
                let failed = fired("read_error") + fired("open_error");
                let opened = seams::get().and_then(|s| s.files.as_ref()).map_or(0, |f| f.fds.len());
                for (k, n) in [("open_eintr", "open_interrupted"), ("open_error", "open_failed"), ("read_eintr", "read_interrupted"), ("read_error", "read_failed"), ("read_short", "read_short")] {
                    let v = fired(k);
                    if v > 0 {
                        ctx.add(&format!("fault.{}", n), v);
                        ctx.nontrivial += 1;
                    }
                }
                seams::set(None);
                ctx.count("loads");
                let w = want(&disk[i], form);
                let what = || format!("load of file {} as form {} ({})", i, form, match &disk[i] { Disk::File(b, _) => format!("{} bytes", b.len()), d => format!("{:?}", d) });
                ctx.ev("load", &[form as u8, got.is_ok() as u8, (failed > 0) as u8]);
                match (&got, &w) {
                    (Ok(_), _) if failed > 0 => return ctx.fail("failure-ignored", format!("{}: the file system reported an error but the load returned", what())),
                    (Ok(g), Some(v)) => ctx.check(g == v, "wrong-records", || format!("{}: {} but the file says {}", what(), brief(g), brief(v)))?,
                    (Ok(g), None) => return ctx.fail("partial-or-made-up", format!("{}: not the described structure, but the load gave {}", what(), brief(g))),
                    (Err(p), Some(_)) if failed == 0 => return ctx.fail("refused", format!("{}: {}", what(), p)),
                    (Err(_), _) => {
                        ctx.checks += 1;
                        ctx.probe("load_refused");
                    }
                }
                if got.is_ok() && was_broken[i] {
                    ctx.probe("loaded_after_repair");
                    was_broken[i] = false;
                }
                ctx.check(opened == 0, "file-left-open", || format!("{}: {} descriptors still open", what(), opened))?;
                ctx.state(mix64(form ^ (got.is_ok() as u64) << 2 ^ (failed > 0) as u64 * 8 ^ (s.arg(4) % 48) << 4 ^ (s.arg(2) % 24) << 12 ^ (s.a.len() as u64) << 20 ^ match &disk[i] { Disk::Nothing => 0, Disk::Folder => 1, Disk::File(b, m) => 2 + m.is_some() as u64 + ((b.len() as u64).min(20_000) / 64) * 4 } << 30));
            }
            "together" => {
                // several threads load while a file is replaced
                let n = 2 + s.usz(1) % 3;
                let with_writer = s.arg(2) % 2 == 1;
                let next = make(s.arg(3), s.arg(4));
                let next_bytes = write_out(&next, s.arg(3), s.arg(4));
                let next_disk = Disk::File(next_bytes.clone(), Some((s.arg(3) % 4, next)));
                let mut x = mix64(s.arg(5));
                let mut jobs: Vec<Vec<(usize, u64)>> = vec![vec![]; n];
                for j in jobs.iter_mut() {
                    for _ in 0..1 + x as usize % 3 {
                        x = mix64(x);
                        let f = x as usize % FILES;
                        let form = match &disk[f] {
                            Disk::File(_, Some((k, _))) if x >> 60 < 14 => *k,
                            _ => x >> 8 & 3,
                        };
                        j.push((f, form));
                    }
                }
                let total: usize = jobs.iter().map(|j| j.len()).sum();
                let mut plans = vec![];
                for _ in 0..total {
                    let mut q = VecDeque::new();
                    for _ in 0..x % 8 {
                        x = mix64(x);
                        q.push_back(soft(read_answer(x)));
                    }
                    x = mix64(x);
                    plans.push((q, if x % 4 == 0 { Ans::Short(1 + (x >> 8) as usize % 600) } else { Ans::Ok }));
                }
                let mut sw = vec![];
                for _ in 0..s.arg(6) % 40 {
                    x = mix64(x);
                    sw.push((1 + (x >> 8) % (1 << (1 + x % 13)), (x >> 40) as usize % (n + with_writer as usize)));
                }
                let out: Arc<Mutex<Vec<(usize, usize, u64, Result<Val, String>)>>> = Default::default();
                let mut fs: Vec<Box<dyn FnOnce() + Send>> = vec![];
                for (t, j) in jobs.iter().enumerate() {
                    let (j, out, paths) = (j.clone(), out.clone(), paths.clone());
                    fs.push(Box::new(move || {
                        for (f, form) in j {
                            let g = guard(|| load(form, paths[f]));
                            out.lock().unwrap().push((t, f, form, g));
                        }
                    }));
                }
                if with_writer {
                    let (p, b) = (paths[i].to_string(), next_bytes);
                    // replaced in one step, at a moment the schedule chooses
                    let t = format!("{}/incoming", dir.0);
                    seams::set(None);
                    let _ = std::fs::remove_dir(&p);
                    if matches!(disk[i], Disk::Folder) {
                        disk[i] = Disk::Nothing;
                    }
                    std::fs::write(&t, &b).unwrap();
                    set_time(&t);
                    fs.push(Box::new(move || std::fs::rename(&t, &p).unwrap()));
                }
                arm(&dir.0, VecDeque::new(), plans, None);
                let rep = sched::run(Plan { switches: sw, stalls: vec![], fair: 40 + s.arg(7) % 4000, fresh: (0, 0) }, fs);
                let left = seams::get().and_then(|s| s.files.as_ref()).map_or(0, |f| f.fds.len());
                for (k, n) in [("read_eintr", "read_interrupted"), ("read_short", "read_short")] {
                    ctx.add(&format!("fault.{}", n), fired(k));
                }
                seams::set(None);
                ctx.state(rep.signature);
                ctx.add("context_switches", rep.switches);
                ctx.nontrivial += 1;
                let out = out.lock().unwrap().clone();
                ctx.check(out.len() == total, "thread-died", || format!("{} of {} concurrent loads ended", out.len(), total))?;
                for (t, f, form, g) in &out {
                    ctx.count("concurrent_loads");
                    let mut may = vec![want(&disk[*f], *form)];
                    if with_writer && *f == i {
                        may.push(want(&next_disk, *form));
                        ctx.fault("replaced_while_loading");
                    }
                    let g2 = g.as_ref().ok();
                    ctx.ev("together", &[*t as u8, *f as u8, g.is_ok() as u8]);
                    ctx.check(may.iter().any(|m| m.as_ref() == g2), "concurrent-load-wrong", || {
                        format!("thread {} of {} loading file {} as form {}: {} but the file says {}", t, n, f, form, g.as_ref().map(brief).unwrap_or_else(|e| e.clone()), may.iter().map(|m| m.as_ref().map(brief).unwrap_or("nothing loadable".into())).collect::<Vec<_>>().join(" or "))
                    })?;
                }
                ctx.check(left == 0, "file-left-open", || format!("{} descriptors still open after concurrent loads", left))?;
                if with_writer {
                    disk[i] = next_disk;
                }
            }
            _ => {}
        }
    }
    Ok(())
}
fn brief(v: &Val) -> String {
    format!("{:?}", v).chars().take(150).collect()
}
fn gen(r: &mut SimRng, thorough: bool) -> Vec<Step> {
    let mut v = vec![];
    for i in 0..1 + r.below(FILES as u64) {
        v.push(Step::new("write", &[i, r.below(4), r.next() >> 8, r.below(16), r.below(2)]));
    }
    for _ in 0..3 + r.usz(if thorough { 40 } else { 18 }) {
        let f = if r.chance(1, 2) { 0 } else { r.below(FILES as u64) };
        match r.below(20) {
            0..=2 => v.push(Step::new("write", &[f, r.below(4), r.next() >> 8, r.below(16), r.below(2)])),
            3 => v.push(Step::new("digit", &[f, r.next() >> 8, r.below(100), r.below(2)])),
            4..=6 => {
                let d = match r.below(4) {
                    0 => b" \n\t".to_vec(),
                    1 => b"}".to_vec(),
                    2 => b"[]".to_vec(),
                    _ => r.bytes(3),
                };
                v.push(Step::with("harm", &[f, r.below(12), r.next() >> 8, r.below(64), r.next() >> 8], vec![d]));
                v.push(Step::new("load", &[f, (r.below(4) << 8) | r.below(8), 9, 0, 47]));
            }
            7..=9 => v.push(Step::new("together", &[f, r.below(3), r.below(2), r.below(4), r.next() >> 8, r.next() >> 8, r.below(40), r.below(4000)])),
            _ => {
                let mut a = vec![f, (r.below(4) << 8) | r.below(8), r.below(24), r.below(5), r.below(48)];
                for _ in 0..r.below(12) {
                    a.push(r.next() >> 4);
                }
                v.push(Step::new("load", &a));
            }
        }
    }
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C10",
        quick_runs: 40_000,
        thorough_runs: 1_500_000,
        step_budget: 2_000_000_000,
        again: 1500,
        rule: "a history of files written, replaced, torn, damaged and repaired, and of loads of them, single and concurrent, under sliced, interrupted and failing reads; non-trivial: a fault, damage or concurrent load happened; distinct by scheduler signature and by form, outcome, faults and size",
        real: &["hacspec-dev (create_test_vectors)", "serde, serde_json, Rust standard library files", "files in a scratch directory"],
        stubs: &["answers of open and read: simulated", "thread scheduler: simulated", "damage to files: simulated"],
        assumptions: &["the reference reads the whole content with serde_json into structures declared in the simulator; undamaged files are also compared with the records they were written from", "descriptors are opened in the order the schedule gives"],
        gen,
        exec,
    }
}

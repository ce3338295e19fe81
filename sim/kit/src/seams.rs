//! The operating-system seams: every libc entry point the code under test (or its dependencies) uses
//! for entropy, files, standard streams, blocking and sleeping is interposed by the simulator's binary
//! and answered from the plan of the run. With no plan active the real call is made.
use crate::rng::mix64;
use std::collections::{BTreeMap, VecDeque};

pub unsafe fn raw_syscall(n: libc::c_long, a: [usize; 6]) -> isize {
    let r: isize;
    #[cfg(target_arch = "x86_64")]
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
    #[cfg(target_arch = "aarch64")]
    std::arch::asm!("svc 0", in("x8") n, inlateout("x0") a[0] as isize => r, in("x1") a[1], in("x2") a[2],
        in("x3") a[3], in("x4") a[4], in("x5") a[5], options(nostack));
    r
}
unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
unsafe fn err(e: i32) -> isize {
    *libc::__errno_location() = e;
    -1
}
/// Prints without going through any interposed call.
pub fn say(s: &str) {
    let b = s.as_bytes();
    let mut off = 0;
    while off < b.len() {
        let r = unsafe { raw_syscall(libc::SYS_write, [1, b[off..].as_ptr() as usize, b.len() - off, 0, 0, 0]) };
        if r <= 0 {
            if r == -(libc::EINTR as isize) {
                continue;
            }
            return;
        }
        off += r as usize;
    }
}

/// How one system call answers.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ans {
    Ok,
    /// interrupted by a signal
    Intr,
    /// at most this many bytes
    Short(usize),
    /// fail with this errno
    Err(i32),
}
/// Simulated entropy source.
#[derive(Default)]
pub struct Entropy {
    pub seed: u64,
    pub pos: u64,
    /// answers of the next data-carrying calls; afterwards `steady`
    pub plan: VecDeque<Ans>,
    pub steady: Option<i32>,
    /// errno of the getrandom system call itself (ENOSYS, EPERM): forces the device fallback
    pub no_syscall: Option<i32>,
    /// errno of opening the device
    pub no_device: Option<i32>,
    pub poll_intr: u32,
    pub bytes: u64,
    pub fds: Vec<i32>,
}
/// Simulated behaviour of files below a prefix.
#[derive(Default)]
pub struct Files {
    pub prefix: String,
    pub open_plan: VecDeque<Ans>,
    /// read answers per opened file, in order of opening
    pub read_plans: VecDeque<(VecDeque<Ans>, Ans)>,
    pub fds: BTreeMap<i32, (VecDeque<Ans>, Ans)>,
}
/// Simulated standard streams.
#[derive(Default)]
pub struct Out {
    pub plan: VecDeque<Ans>,
    pub steady: Option<Ans>,
    pub bytes: [u64; 3],
    pub calls: [u64; 3],
}
#[derive(Default)]
pub struct Seams {
    pub entropy: Option<Entropy>,
    pub files: Option<Files>,
    pub out: Option<Out>,
    pub fired: BTreeMap<&'static str, u64>,
}
static mut SEAMS: Option<Seams> = None;
#[allow(static_mut_refs)]
pub fn set(s: Option<Seams>) -> Option<Seams> {
    unsafe { std::mem::replace(&mut SEAMS, s) }
}
#[allow(static_mut_refs)]
pub fn get() -> Option<&'static mut Seams> {
    unsafe { SEAMS.as_mut() }
}
fn fire(k: &'static str) {
    if let Some(s) = get() {
        *s.fired.entry(k).or_insert(0) += 1;
    }
}
impl Entropy {
    fn fill(&mut self, buf: *mut u8, n: usize) {
        for i in 0..n {
            let p = self.pos;
            let w = mix64(self.seed ^ mix64(p / 8 + 1));
            unsafe { *buf.add(i) = (w >> (8 * (p % 8))) as u8 };
            self.pos += 1;
        }
        self.bytes += n as u64;
    }
    unsafe fn answer(&mut self, buf: *mut u8, n: usize) -> isize {
        match self.plan.pop_front() {
            Some(Ans::Intr) => {
                fire("entropy_eintr");
                return err(libc::EINTR);
            }
            Some(Ans::Short(k)) if n > 0 && k < n => {
                fire("entropy_short");
                let k = k.max(1).min(n);
                self.fill(buf, k);
                return k as isize;
            }
            Some(Ans::Err(e)) => {
                fire("entropy_error");
                return err(e);
            }
            _ => {}
        }
        if let Some(e) = self.steady {
            fire("entropy_error");
            return err(e);
        }
        self.fill(buf, n);
        n as isize
    }
}
pub unsafe fn on_getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    if let Some(e) = get().and_then(|s| s.entropy.as_mut()) {
        if let Some(x) = e.no_syscall {
            fire("entropy_no_syscall");
            return err(x);
        }
        if n == 0 {
            return 0;
        }
        return e.answer(buf, n);
    }
    ret(raw_syscall(libc::SYS_getrandom, [buf as usize, n, flags as usize, 0, 0, 0]))
}
pub unsafe fn on_syscall(n: libc::c_long, a: [usize; 6]) -> isize {
    if n == libc::SYS_futex {
        if let Some((r, e)) = crate::sched::futex(a) {
            if r < 0 {
                return err(e);
            }
            return r as isize;
        }
    }
    if n == libc::SYS_getrandom {
        return on_getrandom(a[0] as *mut u8, a[1], a[2] as u32);
    }
    ret(raw_syscall(n, a))
}
unsafe fn cstr(p: *const libc::c_char) -> &'static str {
    std::ffi::CStr::from_ptr(p).to_str().unwrap_or("")
}
pub unsafe fn on_open(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    if let Some(s) = get() {
        let name = cstr(path);
        if name == "/dev/urandom" || name == "/dev/random" {
            if let Some(e) = s.entropy.as_mut() {
                if let Some(x) = e.no_device {
                    fire("entropy_no_device");
                    return err(x) as i32;
                }
                fire("entropy_device_used");
                let fd = real_open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDONLY, 0);
                e.fds.push(fd);
                return fd;
            }
        }
        if let Some(f) = s.files.as_mut() {
            if name.starts_with(&f.prefix) {
                match f.open_plan.pop_front() {
                    Some(Ans::Intr) => {
                        fire("open_eintr");
                        return err(libc::EINTR) as i32;
                    }
                    Some(Ans::Err(x)) => {
                        fire("open_error");
                        return err(x) as i32;
                    }
                    _ => {}
                }
                let fd = real_open(path, flags, mode);
                if fd >= 0 {
                    let p = f.read_plans.pop_front().unwrap_or((VecDeque::new(), Ans::Ok));
                    f.fds.insert(fd, p);
                }
                return fd;
            }
        }
    }
    real_open(path, flags, mode)
}
unsafe fn real_open(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    ret(raw_syscall(
        libc::SYS_openat,
        [libc::AT_FDCWD as isize as usize, path as usize, flags as usize, mode as usize, 0, 0],
    )) as i32
}
pub unsafe fn on_close(fd: i32) -> i32 {
    if let Some(s) = get() {
        if let Some(e) = s.entropy.as_mut() {
            e.fds.retain(|x| *x != fd);
        }
        if let Some(f) = s.files.as_mut() {
            f.fds.remove(&fd);
        }
    }
    ret(raw_syscall(libc::SYS_close, [fd as usize, 0, 0, 0, 0, 0])) as i32
}
pub unsafe fn on_read(fd: i32, buf: *mut u8, n: usize) -> isize {
    let mut n = n;
    if let Some(s) = get() {
        if let Some(e) = s.entropy.as_mut() {
            if e.fds.contains(&fd) {
                return e.answer(buf, n);
            }
        }
        if let Some(f) = s.files.as_mut() {
            if let Some((plan, steady)) = f.fds.get_mut(&fd) {
                let a = plan.pop_front().unwrap_or(*steady);
                match a {
                    Ans::Intr => {
                        fire("read_eintr");
                        return err(libc::EINTR);
                    }
                    Ans::Err(x) => {
                        fire("read_error");
                        return err(x);
                    }
                    Ans::Short(k) => {
                        if k.max(1) < n {
                            fire("read_short");
                            n = k.max(1);
                        }
                    }
                    Ans::Ok => {}
                }
            }
        }
    }
    ret(raw_syscall(libc::SYS_read, [fd as usize, buf as usize, n, 0, 0, 0]))
}
pub unsafe fn on_poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: i32) -> i32 {
    if let Some(e) = get().and_then(|s| s.entropy.as_mut()) {
        if n == 1 && e.fds.contains(&(*fds).fd) {
            if e.poll_intr > 0 {
                e.poll_intr -= 1;
                fire("entropy_poll_eintr");
                return err(libc::EINTR) as i32;
            }
            (*fds).revents = libc::POLLIN;
            return 1;
        }
    }
    #[cfg(target_arch = "x86_64")]
    let r = raw_syscall(libc::SYS_poll, [fds as usize, n as usize, timeout as isize as usize, 0, 0, 0]);
    #[cfg(not(target_arch = "x86_64"))]
    let r = 0;
    ret(r) as i32
}
unsafe fn out_answer(fd: i32, n: usize) -> Option<isize> {
    let o = get().and_then(|s| s.out.as_mut())?;
    if fd != 1 && fd != 2 {
        return None;
    }
    o.calls[fd as usize] += 1;
    let a = o.plan.pop_front().or(o.steady).unwrap_or(Ans::Ok);
    let r = match a {
        Ans::Intr => {
            fire("stream_eintr");
            return Some(err(libc::EINTR));
        }
        Ans::Err(e) => {
            fire("stream_error");
            return Some(err(e));
        }
        Ans::Short(k) => {
            fire("stream_short");
            k.max(1).min(n)
        }
        Ans::Ok => n,
    };
    o.bytes[fd as usize] += r as u64;
    Some(r as isize)
}
pub unsafe fn on_write(fd: i32, buf: *const u8, n: usize) -> isize {
    if let Some(r) = out_answer(fd, n) {
        return r;
    }
    ret(raw_syscall(libc::SYS_write, [fd as usize, buf as usize, n, 0, 0, 0]))
}
pub unsafe fn on_writev(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
    if (fd == 1 || fd == 2) && get().map_or(false, |s| s.out.is_some()) {
        let total = (0..n as usize).map(|i| (*iov.add(i)).iov_len).sum();
        if let Some(r) = out_answer(fd, total) {
            return r;
        }
    }
    ret(raw_syscall(libc::SYS_writev, [fd as usize, iov as usize, n as usize, 0, 0, 0]))
}
pub unsafe fn on_yield() -> i32 {
    if crate::sched::yield_now() {
        return 0;
    }
    ret(raw_syscall(libc::SYS_sched_yield, [0; 6])) as i32
}
/// Sleeps of managed threads only yield; simulated time passes.
pub unsafe fn on_sleep() -> bool {
    crate::sched::yield_now()
}

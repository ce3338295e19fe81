//! libc entry points answered by the simulator (see kit/src/seams.rs). Defined in the executable, they
//! take precedence over libc for the code under test, its dependencies and the standard library.
#![allow(invalid_runtime_symbol_definitions)]
use libc::*;
use simkit::seams::*;

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    on_syscall(n, [a, b, c, d, e, f]) as c_long
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    on_getrandom(buf as *mut u8, n, flags)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    on_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    on_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    on_close(fd)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    on_read(fd, buf as *mut u8, n)
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    on_poll(fds, n, timeout)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    on_write(fd, buf as *const u8, n)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    on_writev(fd, iov, n)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    on_yield()
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if on_sleep() {
        return 0;
    }
    let r = raw_syscall(SYS_nanosleep, [req as usize, rem as usize, 0, 0, 0, 0]);
    if r < 0 {
        *__errno_location() = -r as i32;
        return -1;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: clockid_t, fl: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if on_sleep() {
        return 0;
    }
    -raw_syscall(SYS_clock_nanosleep, [clk as usize, fl as usize, req as usize, rem as usize, 0, 0]) as c_int
}
/// A managed thread waits for a C mutex by letting the others run.
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_lock(m: *mut pthread_mutex_t) -> c_int {
    static mut REAL: usize = 0;
    if simkit::sched::managed() {
        loop {
            let r = pthread_mutex_trylock(m);
            if r != EBUSY {
                return r;
            }
            simkit::sched::yield_now();
        }
    }
    if REAL == 0 {
        REAL = dlsym(RTLD_NEXT, c"pthread_mutex_lock".as_ptr()) as usize;
    }
    let f: unsafe extern "C" fn(*mut pthread_mutex_t) -> c_int = std::mem::transmute(REAL);
    f(m)
}

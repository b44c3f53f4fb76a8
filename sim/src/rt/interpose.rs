//! The seam: this program defines the libc entry points below itself, so that
//! every call std, crossbeam, parking_lot, log4rs or starry makes lands here.
//! Outside a simulated run they fall through to the real system call.
use super::kernel::*;
use super::mem::In;
use super::net;
use super::sys::{ret, sc};
use libc::*;

#[inline(always)]
fn vfd(fd: c_int) -> bool {
    fd >= net::VFD && active()
}

fn ts_ns(t: *const timespec) -> u64 {
    unsafe { ((*t).tv_sec.max(0) as u64).saturating_mul(SEC).saturating_add((*t).tv_nsec as u64) }
}
unsafe fn put_ts(ns: u64, t: *mut timespec) {
    (*t).tv_sec = (ns / SEC) as i64;
    (*t).tv_nsec = (ns % SEC) as i64;
}

// ------------------------------------------------------------- threads

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let _in = In::new();
    if active() {
        sim_pthread_create(out, attr, f, arg)
    } else {
        real_pthread_create()(out, attr, f, arg)
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, out: *mut *mut c_void) -> c_int {
    let _in = In::new();
    if active() {
        return sim_pthread_join(t, out);
    }
    static mut P: usize = 0;
    if P == 0 {
        P = dlsym(RTLD_NEXT, c"pthread_join".as_ptr()) as usize;
    }
    let f: unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(P);
    f(t, out)
}

/// thread-specific keys, and what is to be done with their values when a
/// simulated thread ends (its real thread never does)
pub static mut KEYS: [(bool, pthread_key_t, usize); 32] = [(false, 0, 0); 32];
#[no_mangle]
pub unsafe extern "C" fn pthread_key_create(key: *mut pthread_key_t, d: Option<unsafe extern "C" fn(*mut c_void)>) -> c_int {
    let _in = In::new();
    static mut P: usize = 0;
    if P == 0 {
        P = dlsym(RTLD_NEXT, c"pthread_key_create".as_ptr()) as usize;
    }
    let f: unsafe extern "C" fn(*mut pthread_key_t, Option<unsafe extern "C" fn(*mut c_void)>) -> c_int = std::mem::transmute(P);
    let r = f(key, d);
    if let (0, Some(d)) = (r, d) {
        let ks = &mut *(&raw mut KEYS);
        if let Some(x) = ks.iter_mut().find(|x| !x.0) {
            *x = (true, *key, d as usize);
        }
    }
    r
}
pub unsafe fn run_key_dtors() {
    for _ in 0..4 {
        let mut any = false;
        for i in 0..32 {
            let (used, key, d) = (*(&raw const KEYS))[i];
            if used {
                let v = pthread_getspecific(key);
                if !v.is_null() {
                    any = true;
                    pthread_setspecific(key, std::ptr::null());
                    let d: unsafe extern "C" fn(*mut c_void) = std::mem::transmute(d);
                    d(v);
                }
            }
        }
        if !any {
            break;
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: pthread_t) -> c_int {
    let _in = In::new();
    if active() {
        return 0;
    }
    static mut P: usize = 0;
    if P == 0 {
        P = dlsym(RTLD_NEXT, c"pthread_detach".as_ptr()) as usize;
    }
    let f: unsafe extern "C" fn(pthread_t) -> c_int = std::mem::transmute(P);
    f(t)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_setname_np(_t: pthread_t, name: *const c_char) -> c_int {
    let _in = In::new();
    if active() {
        let s = std::ffi::CStr::from_ptr(name).to_string_lossy().into_owned();
        set_label(&s);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn __cxa_thread_atexit_impl(
    f: unsafe extern "C" fn(*mut u8),
    p: *mut u8,
    dso: *mut u8,
) -> c_int {
    let _in = In::new();
    if active() {
        sim_atexit(f, p);
        return 0;
    }
    static mut P: usize = 0;
    if P == 0 {
        P = dlsym(RTLD_NEXT, c"__cxa_thread_atexit_impl".as_ptr()) as usize;
    }
    let g: unsafe extern "C" fn(unsafe extern "C" fn(*mut u8), *mut u8, *mut u8) -> c_int = std::mem::transmute(P);
    g(f, p, dso)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    let _in = In::new();
    if active() {
        k().yield_now();
        return 0;
    }
    ret(sc(SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: pid_t, n: size_t, set: *mut cpu_set_t) -> c_int {
    let _in = In::new();
    if active() {
        std::ptr::write_bytes(set as *mut u8, 0, n);
        *(set as *mut u8) = 0x0f; // four processors, always
        return 0;
    }
    let r = sc(SYS_sched_getaffinity, pid as i64, n as i64, set as i64, 0, 0, 0);
    if r >= 0 {
        let r = r as usize;
        if r < n {
            std::ptr::write_bytes((set as *mut u8).add(r), 0, n - r);
        }
        return 0;
    }
    ret(r) as c_int
}

// ------------------------------------------------------------- syscall()

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let _in = In::new();
    if active() {
        if n == SYS_futex {
            return ret(sim_futex(a as usize, b as c_int, c as u32, d, e, f as u32));
        }
        if n == SYS_getrandom {
            return fill_random(a as *mut u8, b as usize) as c_long;
        }
        if n == SYS_gettid {
            return 1000 + tid() as c_long;
        }
        if n == SYS_clock_gettime {
            return clock_gettime(a as c_int, b as *mut timespec) as c_long;
        }
    }
    ret(sc(n, a, b, c, d, e, f))
}

unsafe fn sim_futex(addr: usize, op: c_int, val: u32, d: c_long, _e: c_long, f: u32) -> i64 {
    let kk = k();
    let cmd = op & 0x7f;
    match cmd {
        FUTEX_WAIT => {
            let dl = if d == 0 { FOREVER } else { kk.now.saturating_add(ts_ns(d as *const timespec)) };
            kk.futex_wait(addr, val, u32::MAX, dl)
        }
        FUTEX_WAIT_BITSET => {
            let dl = if d == 0 {
                FOREVER
            } else {
                let t = ts_ns(d as *const timespec);
                if op & FUTEX_CLOCK_REALTIME != 0 {
                    (t as i64 - kk.wall_off).max(0) as u64
                } else {
                    t
                }
            };
            kk.futex_wait(addr, val, f, dl)
        }
        FUTEX_WAKE => kk.futex_wake(addr, val, u32::MAX),
        FUTEX_WAKE_BITSET => kk.futex_wake(addr, val, f),
        FUTEX_REQUEUE => {
            // requeue is modelled as waking everybody
            kk.futex_wake(addr, u32::MAX, u32::MAX)
        }
        _ => finish(super::shm::V_HARNESS, &format!("futex op {cmd} is not simulated"), ""),
    }
}

unsafe fn fill_random(p: *mut u8, n: usize) -> isize {
    let kk = k();
    for i in 0..n {
        *p.add(i) = (kk.entropy() >> 24) as u8;
    }
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    let _in = In::new();
    if active() {
        return fill_random(p as *mut u8, n);
    }
    ret(sc(SYS_getrandom, p as i64, n as i64, fl as i64, 0, 0, 0)) as ssize_t
}

// ------------------------------------------------------------- time

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, t: *mut timespec) -> c_int {
    let _in = In::new();
    if active() {
        let kk = k();
        let now = kk.clock_read();
        match clk {
            CLOCK_REALTIME | CLOCK_REALTIME_COARSE => put_ts((now as i64 + kk.wall_off).max(0) as u64, t),
            _ => put_ts(now, t),
        }
        return 0;
    }
    ret(sc(SYS_clock_gettime, clk as i64, t as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut timeval, _z: *mut c_void) -> c_int {
    let _in = In::new();
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    (*t).tv_sec = ts.tv_sec;
    (*t).tv_usec = ts.tv_nsec / 1000;
    0
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let _in = In::new();
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const timespec, rem: *mut timespec) -> c_int {
    let _in = In::new();
    if active() {
        k().sleep(ts_ns(t));
        return 0;
    }
    ret(sc(SYS_nanosleep, t as i64, rem as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: clockid_t, fl: c_int, t: *const timespec, rem: *mut timespec) -> c_int {
    let _in = In::new();
    if active() {
        let kk = k();
        let mut ns = ts_ns(t);
        if fl & TIMER_ABSTIME != 0 {
            let base = if clk == CLOCK_REALTIME { (kk.now as i64 + kk.wall_off) as u64 } else { kk.now };
            ns = ns.saturating_sub(base);
        }
        kk.sleep(ns);
        return 0;
    }
    (-sc(SYS_clock_nanosleep, clk as i64, fl as i64, t as i64, rem as i64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    let _in = In::new();
    let t = timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000) as i64 * 1000 };
    nanosleep(&t, std::ptr::null_mut())
}

// ------------------------------------------------------------- sockets

unsafe fn port_of(a: *const sockaddr) -> u16 {
    match (*a).sa_family as c_int {
        AF_INET => u16::from_be((*(a as *const sockaddr_in)).sin_port),
        AF_INET6 => u16::from_be((*(a as *const sockaddr_in6)).sin6_port),
        _ => 0,
    }
}
unsafe fn put_addr(port: u16, a: *mut sockaddr, l: *mut socklen_t) {
    if a.is_null() || l.is_null() {
        return;
    }
    let mut s: sockaddr_in = std::mem::zeroed();
    s.sin_family = AF_INET as u16;
    s.sin_port = port.to_be();
    s.sin_addr.s_addr = u32::from_be_bytes([127, 0, 0, 1]).to_be();
    let n = std::mem::size_of::<sockaddr_in>().min(*l as usize);
    std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, a as *mut u8, n);
    *l = std::mem::size_of::<sockaddr_in>() as u32;
}

#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    let _in = In::new();
    if active() && (d == AF_INET || d == AF_INET6) && (t & 0xf) == SOCK_STREAM {
        return ret(net::socket(k(), d, t)) as c_int;
    }
    ret(sc(SYS_socket, d as i64, t as i64, p as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    let _in = In::new();
    if vfd(fd) {
        return ret(net::bind(k(), fd, port_of(a))) as c_int;
    }
    ret(sc(SYS_bind, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, b: c_int) -> c_int {
    let _in = In::new();
    if vfd(fd) {
        return ret(net::listen(k(), fd, b)) as c_int;
    }
    ret(sc(SYS_listen, fd as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, fl: c_int) -> c_int {
    let _in = In::new();
    if vfd(fd) {
        let mut p = 0;
        let r = net::accept(k(), fd, &mut p);
        if r >= 0 {
            put_addr(p, a, l);
        }
        return ret(r) as c_int;
    }
    ret(sc(SYS_accept4, fd as i64, a as i64, l as i64, fl as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    let _in = In::new();
    accept4(fd, a, l, 0)
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    let _in = In::new();
    if vfd(fd) {
        return ret(net::connect(k(), fd, port_of(a))) as c_int;
    }
    ret(sc(SYS_connect, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    let _in = In::new();
    if vfd(fd) {
        return match net::sock_of(k(), fd) {
            Some(s) => {
                put_addr(k().net.socks[s as usize].port, a, l);
                0
            }
            None => ret(-(EBADF as i64)) as c_int,
        };
    }
    ret(sc(SYS_getsockname, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    let _in = In::new();
    if vfd(fd) {
        let kk = k();
        return match net::sock_of(kk, fd) {
            Some(s) => {
                let so = &kk.net.socks[s as usize];
                if so.st != net::SS::Connected || so.rst || kk.fault("peername_enotconn") {
                    return ret(-(ENOTCONN as i64)) as c_int;
                }
                let so = &kk.net.socks[s as usize];
                put_addr(so.peer_port, a, l);
                0
            }
            None => ret(-(EBADF as i64)) as c_int,
        };
    }
    ret(sc(SYS_getpeername, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lv: c_int, o: c_int, v: *const c_void, l: socklen_t) -> c_int {
    let _in = In::new();
    if vfd(fd) {
        let kk = k();
        if let Some(s) = net::sock_of(kk, fd) {
            if lv == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO) {
                let tv = &*(v as *const timeval);
                let ns = tv.tv_sec as u64 * SEC + tv.tv_usec as u64 * 1000;
                if o == SO_RCVTIMEO {
                    kk.net.socks[s as usize].rcvtimeo = ns;
                } else {
                    kk.net.socks[s as usize].sndtimeo = ns;
                }
            }
            return 0;
        }
        return ret(-(EBADF as i64)) as c_int;
    }
    ret(sc(SYS_setsockopt, fd as i64, lv as i64, o as i64, v as i64, l as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lv: c_int, o: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int {
    let _in = In::new();
    if vfd(fd) {
        let kk = k();
        if let Some(s) = net::sock_of(kk, fd) {
            if lv == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO) {
                let so = &kk.net.socks[s as usize];
                let ns = if o == SO_RCVTIMEO { so.rcvtimeo } else { so.sndtimeo };
                let tv = &mut *(v as *mut timeval);
                tv.tv_sec = (ns / SEC) as i64;
                tv.tv_usec = (ns % SEC / 1000) as i64;
                *l = std::mem::size_of::<timeval>() as u32;
                return 0;
            }
            let mut r = 0;
            if lv == SOL_SOCKET && o == SO_ERROR {
                r = kk.net.socks[s as usize].err;
                kk.net.socks[s as usize].err = 0;
            }
            *(v as *mut c_int) = r;
            *l = 4;
            return 0;
        }
        return ret(-(EBADF as i64)) as c_int;
    }
    ret(sc(SYS_getsockopt, fd as i64, lv as i64, o as i64, v as i64, l as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    let _in = In::new();
    if vfd(fd) {
        return ret(net::shutdown(k(), fd, how)) as c_int;
    }
    ret(sc(SYS_shutdown, fd as i64, how as i64, 0, 0, 0, 0)) as c_int
}

unsafe fn put(dst: *mut c_void, d: &[u8]) {
    std::ptr::copy_nonoverlapping(d.as_ptr(), dst as *mut u8, d.len());
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, p: *mut c_void, n: size_t, fl: c_int) -> ssize_t {
    let _in = In::new();
    if vfd(fd) {
        return ret(net::recv(k(), fd, n, fl & MSG_PEEK != 0, fl & MSG_DONTWAIT != 0, |d| put(p, d))) as ssize_t;
    }
    ret(sc(SYS_recvfrom, fd as i64, p as i64, n as i64, fl as i64, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, p: *const c_void, n: size_t, fl: c_int) -> ssize_t {
    let _in = In::new();
    if vfd(fd) {
        let b = std::slice::from_raw_parts(p as *const u8, n);
        return ret(net::send(k(), fd, &[b], fl & MSG_DONTWAIT != 0)) as ssize_t;
    }
    ret(sc(SYS_sendto, fd as i64, p as i64, n as i64, fl as i64, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: size_t) -> ssize_t {
    let _in = In::new();
    if vfd(fd) {
        return ret(net::recv(k(), fd, n, false, false, |d| put(p, d))) as ssize_t;
    }
    if active() {
        if let Some(r) = super::fs::on_read(fd) {
            return ret(r) as ssize_t;
        }
    }
    ret(sc(SYS_read, fd as i64, p as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    let _in = In::new();
    if vfd(fd) {
        let b = std::slice::from_raw_parts(p as *const u8, n);
        return ret(net::send(k(), fd, &[b], false)) as ssize_t;
    }
    let mut n = n;
    if active() {
        match super::fs::on_write(fd, n) {
            Ok(m) => n = m,
            Err(e) => return ret(-(e as i64)) as ssize_t,
        }
    }
    ret(sc(SYS_write, fd as i64, p as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    let _in = In::new();
    if vfd(fd) {
        let io = std::slice::from_raw_parts(v, n as usize);
        let total: usize = io.iter().map(|x| x.iov_len).sum();
        return ret(net::recv(k(), fd, total, false, false, |d| {
            let mut off = 0;
            for x in io {
                let m = x.iov_len.min(d.len() - off);
                put(x.iov_base, &d[off..off + m]);
                off += m;
                if off == d.len() {
                    break;
                }
            }
        })) as ssize_t;
    }
    ret(sc(SYS_readv, fd as i64, v as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    let _in = In::new();
    if vfd(fd) {
        let io = std::slice::from_raw_parts(v, n as usize);
        let b: Vec<&[u8]> = io.iter().map(|x| std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len)).collect();
        return ret(net::send(k(), fd, &b, false)) as ssize_t;
    }
    if active() {
        if let Err(e) = super::fs::on_write(fd, 1) {
            return ret(-(e as i64)) as ssize_t;
        }
    }
    ret(sc(SYS_writev, fd as i64, v as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, fl: c_int) -> ssize_t {
    let _in = In::new();
    if vfd(fd) {
        return writev(fd, (*m).msg_iov, (*m).msg_iovlen as c_int);
    }
    ret(sc(SYS_sendmsg, fd as i64, m as i64, fl as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, p: *mut c_void, n: size_t, fl: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t {
    let _in = In::new();
    if vfd(fd) {
        return recv(fd, p, n, fl);
    }
    ret(sc(SYS_recvfrom, fd as i64, p as i64, n as i64, fl as i64, a as i64, l as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let _in = In::new();
    if vfd(fd) {
        return ret(net::close(k(), fd)) as c_int;
    }
    if active() {
        super::fs::on_close(fd);
    }
    ret(sc(SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    let _in = In::new();
    if vfd(fd) {
        let kk = k();
        return match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => ret(net::dup(kk, fd)) as c_int,
            F_GETFL => match net::sock_of(kk, fd) {
                Some(s) => O_RDWR | if kk.net.socks[s as usize].nonblock { O_NONBLOCK } else { 0 },
                None => ret(-(EBADF as i64)) as c_int,
            },
            F_SETFL => {
                if let Some(s) = net::sock_of(kk, fd) {
                    kk.net.socks[s as usize].nonblock = arg as c_int & O_NONBLOCK != 0;
                }
                0
            }
            _ => 0,
        };
    }
    ret(sc(SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: c_long) -> c_int {
    let _in = In::new();
    if vfd(fd) {
        let kk = k();
        if let Some(s) = net::sock_of(kk, fd) {
            if req == FIONBIO {
                kk.net.socks[s as usize].nonblock = *(arg as *const c_int) != 0;
            }
        }
        return 0;
    }
    ret(sc(SYS_ioctl, fd as i64, req as i64, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut pollfd, n: nfds_t, to: c_int) -> c_int {
    let _in = In::new();
    if active() && n > 0 {
        let ps = std::slice::from_raw_parts_mut(p, n as usize);
        if ps.iter().any(|x| x.fd >= net::VFD) {
            let kk = k();
            kk.op("poll", 0, 0);
            let dl = if to < 0 { FOREVER } else { kk.now + to as u64 * MS };
            loop {
                let mut hits = 0;
                for x in ps.iter_mut() {
                    x.revents = 0;
                    match net::sock_of(kk, x.fd) {
                        Some(s) => x.revents = net::readiness(kk, s) & (x.events | POLLERR | POLLHUP),
                        None => x.revents = POLLNVAL,
                    }
                    if x.revents != 0 {
                        hits += 1;
                    }
                }
                if hits > 0 || to == 0 {
                    return hits;
                }
                if kk.block(Key::AnySock, dl) {
                    return 0;
                }
            }
        }
    }
    ret(sc(SYS_poll, p as i64, n as i64, to as i64, 0, 0, 0)) as c_int
}

#[repr(C)]
struct FakeAi {
    ai: addrinfo,
    sa: sockaddr_in,
}

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(_node: *const c_char, svc: *const c_char, _h: *const addrinfo, out: *mut *mut addrinfo) -> c_int {
    let _in = In::new();
    // every name is the local machine; outside a run nothing resolves names
    if active() {
        let kk = k();
        kk.op("getaddrinfo", 0, 0);
        if kk.fault("dns_fail") {
            return EAI_AGAIN;
        }
    }
    let mut b: Box<FakeAi> = Box::new(std::mem::zeroed());
    b.sa.sin_family = AF_INET as u16;
    b.sa.sin_addr.s_addr = u32::from_be_bytes([127, 0, 0, 1]).to_be();
    if !svc.is_null() {
        if let Ok(p) = std::ffi::CStr::from_ptr(svc).to_string_lossy().parse::<u16>() {
            b.sa.sin_port = p.to_be();
        }
    }
    b.ai.ai_family = AF_INET;
    b.ai.ai_socktype = SOCK_STREAM;
    b.ai.ai_addrlen = std::mem::size_of::<sockaddr_in>() as u32;
    let p = Box::into_raw(b);
    (*p).ai.ai_addr = &mut (*p).sa as *mut _ as *mut sockaddr;
    *out = p as *mut addrinfo;
    0
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(p: *mut addrinfo) {
    let _in = In::new();
    if !p.is_null() {
        drop(Box::from_raw(p as *mut FakeAi));
    }
}

// ------------------------------------------------------------- files

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, fl: c_int, mode: c_int) -> c_int {
    let _in = In::new();
    if active() {
        if let Err(e) = super::fs::on_path("open", path) {
            return ret(-(e as i64)) as c_int;
        }
    }
    let r = ret(sc(SYS_openat, AT_FDCWD as i64, path as i64, (fl | O_LARGEFILE) as i64, mode as i64, 0, 0)) as c_int;
    if r >= 0 && active() {
        super::fs::on_opened(path, r);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, fl: c_int, mode: c_int) -> c_int {
    let _in = In::new();
    open64(path, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let _in = In::new();
    if active() {
        if let Err(e) = super::fs::on_path("rename", a) {
            return ret(-(e as i64)) as c_int;
        }
    }
    ret(sc(SYS_rename, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let _in = In::new();
    if active() {
        if let Err(e) = super::fs::on_path("unlink", a) {
            return ret(-(e as i64)) as c_int;
        }
    }
    ret(sc(SYS_unlink, a as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, m: mode_t) -> c_int {
    let _in = In::new();
    if active() {
        if let Err(e) = super::fs::on_path("mkdir", a) {
            return ret(-(e as i64)) as c_int;
        }
    }
    ret(sc(SYS_mkdir, a as i64, m as i64, 0, 0, 0, 0)) as c_int
}

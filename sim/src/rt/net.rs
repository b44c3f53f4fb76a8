//! Simulated TCP on the loopback: ordered, reliable byte streams with
//! latency, segmentation, bounded buffers, half-close, reset, stalls.
use super::choices::*;
use super::kernel::*;
use std::collections::VecDeque;

pub const VFD: i32 = 1 << 20;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SS {
    Fresh,
    Bound,
    Listening,
    Connecting,
    Connected,
    Failed,
    Dead,
}

pub enum Seg {
    Data(Vec<u8>),
    Fin,
    Rst,
}

pub struct Sock {
    pub st: SS,
    pub port: u16,
    pub peer_port: u16,
    pub refs: u32,
    pub nonblock: bool,
    pub rcvtimeo: u64,
    pub sndtimeo: u64,
    // listener
    pub queue: VecDeque<u32>,
    pub backlog: usize,
    // stream endpoint
    pub peer: u32,
    pub rcv: VecDeque<u8>,
    pub inflight: VecDeque<(u64, Seg)>,
    pub inflight_bytes: usize,
    pub last_due: u64,
    pub eof: bool,      // peer's FIN has arrived
    pub rst: bool,      // reset has arrived
    pub err: i32,       // pending socket error
    pub shut_rd: bool,
    pub shut_wr: bool,
    pub closed: bool,   // all descriptors closed
    pub cap: usize,
    pub frozen_until: u64, // deliveries to this endpoint are held back
    // bookkeeping for oracles
    pub sent: u64,
    pub sut: bool,
    /// the thread that made it
    pub by: u32,
    pub sent_log: Vec<u8>,
    pub keep_log: bool,
}

pub struct Net {
    pub socks: Vec<Sock>,
    pub fds: Vec<Option<u32>>,
    pub free_fds: Vec<usize>,
    pub next_port: u16,
    pub log_bytes: bool,
    pub hosts_fail: bool,
}

impl Net {
    pub fn new() -> Self {
        Net { socks: vec![], fds: vec![], free_fds: vec![], next_port: 40000, log_bytes: false, hosts_fail: false }
    }
}

fn new_sock(k: &mut Kernel) -> u32 {
    let cap = k.cfg.sock_cap;
    let sut = k.is_sut();
    let keep_log = k.net.log_bytes;
    k.net.socks.push(Sock {
        st: SS::Fresh,
        port: 0,
        peer_port: 0,
        refs: 1,
        nonblock: false,
        rcvtimeo: 0,
        sndtimeo: 0,
        queue: VecDeque::new(),
        backlog: 128,
        peer: u32::MAX,
        rcv: VecDeque::new(),
        inflight: VecDeque::new(),
        inflight_bytes: 0,
        last_due: 0,
        eof: false,
        rst: false,
        err: 0,
        shut_rd: false,
        shut_wr: false,
        closed: false,
        cap,
        frozen_until: 0,
        sent: 0,
        sut,
        by: u32::MAX,
        sent_log: vec![],
        keep_log,
    });
    (k.net.socks.len() - 1) as u32
}

fn new_fd(k: &mut Kernel, s: u32) -> i32 {
    // lowest free descriptor, like the real thing
    for i in 0..k.net.fds.len() {
        if k.net.fds[i].is_none() {
            k.net.fds[i] = Some(s);
            return VFD + i as i32;
        }
    }
    k.net.fds.push(Some(s));
    VFD + (k.net.fds.len() - 1) as i32
}

pub fn sock_of(k: &Kernel, fd: i32) -> Option<u32> {
    if fd < VFD {
        return None;
    }
    k.net.fds.get((fd - VFD) as usize).copied().flatten()
}
macro_rules! sk {
    ($k:expr, $fd:expr) => {
        match sock_of($k, $fd) {
            Some(s) => s,
            None => return -(libc::EBADF as i64),
        }
    };
}

fn latency(k: &mut Kernel) -> u64 {
    let j = k.cfg.lat_jit;
    let base = k.cfg.lat_base;
    if j > 0 && !k.is_calm() {
        base + k.ch.below(NET, j + 1)
    } else {
        base
    }
}

/// schedule `seg` for arrival at endpoint `to`
fn enqueue(k: &mut Kernel, to: u32, seg: Seg) {
    let lat = latency(k);
    let mut due = k.now + lat;
    let s = &mut k.net.socks[to as usize];
    due = due.max(s.last_due).max(s.frozen_until);
    s.last_due = due;
    if let Seg::Data(d) = &seg {
        s.inflight_bytes += d.len();
    }
    s.inflight.push_back((due, seg));
    k.at(due, Ev::Net(to));
}

/// hold back everything travelling to endpoint `s` until `t`
pub fn freeze(k: &mut Kernel, s: u32, t: u64) {
    let so = &mut k.net.socks[s as usize];
    so.frozen_until = so.frozen_until.max(t);
    so.last_due = so.last_due.max(t);
    for (due, _) in so.inflight.iter_mut() {
        *due = (*due).max(t);
    }
    k.at(t, Ev::Net(s));
}

pub fn on_event(k: &mut Kernel, s: u32) {
    let now = k.now;
    let mut rst_back = false;
    let mut any = false;
    {
        let so = &mut k.net.socks[s as usize];
        while let Some((due, _)) = so.inflight.front() {
            if *due > now {
                break;
            }
            let (_, seg) = so.inflight.pop_front().unwrap();
            any = true;
            match seg {
                Seg::Data(d) => {
                    so.inflight_bytes -= d.len();
                    if so.closed || (so.shut_rd && so.shut_wr) {
                        rst_back = true;
                    } else if !so.rst {
                        so.rcv.extend(d);
                    }
                }
                Seg::Fin => so.eof = true,
                Seg::Rst => {
                    if so.st == SS::Connecting {
                        so.st = SS::Failed;
                        so.err = libc::ECONNREFUSED;
                    } else {
                        so.rst = true;
                        so.err = libc::ECONNRESET;
                    }
                }
            }
        }
    }
    if any {
        let peer = k.net.socks[s as usize].peer;
        if rst_back && peer != u32::MAX && !k.net.socks[peer as usize].closed {
            k.ev("net_rst_back", s as u64, 0);
            enqueue(k, peer, Seg::Rst);
        }
        k.wake_sock(s);
        if peer != u32::MAX {
            k.wake_sock(peer);
        }
    }
}

pub fn socket(k: &mut Kernel, domain: i32, ty: i32) -> i64 {
    k.op("socket", 0, 0);
    if k.fault("socket_emfile") {
        return -(k.errno(&[libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ENOMEM, libc::EACCES]) as i64);
    }
    if domain != libc::AF_INET && domain != libc::AF_INET6 {
        return -(libc::EAFNOSUPPORT as i64);
    }
    let s = new_sock(k);
    k.net.socks[s as usize].nonblock = ty & libc::SOCK_NONBLOCK != 0;
    k.net.socks[s as usize].by = super::kernel::tid();
    new_fd(k, s) as i64
}

pub fn bind(k: &mut Kernel, fd: i32, port: u16) -> i64 {
    let s = sk!(k, fd);
    k.op("bind", s as u64, port as u64);
    if k.fault("bind_fail") {
        return -(k.errno(&[libc::EACCES, libc::EADDRINUSE, libc::EADDRNOTAVAIL]) as i64);
    }
    let mut port = port;
    if port == 0 {
        port = k.net.next_port;
        k.net.next_port += 1;
    }
    for x in &k.net.socks {
        if matches!(x.st, SS::Bound | SS::Listening) && x.port == port && !x.closed {
            return -(libc::EADDRINUSE as i64);
        }
    }
    let so = &mut k.net.socks[s as usize];
    so.port = port;
    so.st = SS::Bound;
    0
}

pub fn listen(k: &mut Kernel, fd: i32, backlog: i32) -> i64 {
    let s = sk!(k, fd);
    k.op("listen", s as u64, 0);
    let so = &mut k.net.socks[s as usize];
    so.st = SS::Listening;
    so.backlog = backlog.clamp(1, 4096) as usize;
    0
}

pub fn accept(k: &mut Kernel, fd: i32, peer_port: &mut u16) -> i64 {
    let s = sk!(k, fd);
    k.op("accept", s as u64, 0);
    loop {
        if k.net.socks[s as usize].st != SS::Listening {
            return -(libc::EINVAL as i64);
        }
        if !k.net.socks[s as usize].queue.is_empty() {
            if k.fault("accept_econnaborted") {
                // the pending connection died before it was accepted
                let c = k.net.socks[s as usize].queue.pop_front().unwrap();
                reset_pair(k, c);
                k.net.socks[c as usize].closed = true;
                return -(k.errno(&[libc::ECONNABORTED, libc::EPROTO, libc::ENETDOWN, libc::EHOSTUNREACH, libc::ETIMEDOUT]) as i64);
            }
            if k.fault("accept_emfile") {
                return -(k.errno(&[libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ENOMEM, libc::EPERM]) as i64);
            }
            if k.fault("accept_eintr") {
                return -(libc::EINTR as i64);
            }
            let c = k.net.socks[s as usize].queue.pop_front().unwrap();
            *peer_port = k.net.socks[c as usize].peer_port;
            k.net.socks[c as usize].refs = 1;
            k.net.socks[c as usize].sut = k.is_sut();
            k.wake_sock(s); // a connector may be waiting for room
            let nfd = new_fd(k, c);
            k.ev("accepted", c as u64, nfd as u64);
            return nfd as i64;
        }
        if k.net.socks[s as usize].nonblock {
            return -(libc::EAGAIN as i64);
        }
        k.block(Key::Sock(s), FOREVER);
    }
}

pub fn connect(k: &mut Kernel, fd: i32, port: u16) -> i64 {
    let s = sk!(k, fd);
    k.op("connect", s as u64, port as u64);
    match k.net.socks[s as usize].st {
        SS::Connected => return -(libc::EISCONN as i64),
        SS::Connecting => return -(libc::EALREADY as i64),
        _ => {}
    }
    if k.fault("connect_refused") {
        return -(k.errno(&[libc::ECONNREFUSED, libc::ENETUNREACH, libc::EHOSTUNREACH, libc::EADDRNOTAVAIL, libc::EACCES]) as i64);
    }
    if k.fault("connect_timeout") {
        let d = k.now + 20 * SEC;
        k.block(Key::Sleep, d);
        return -(libc::ETIMEDOUT as i64);
    }
    let give_up = k.now + 127 * SEC;
    let lat = latency(k);
    let d = k.now + lat;
    k.block(Key::Sleep, d);
    loop {
        let l = k.net.socks.iter().position(|x| x.st == SS::Listening && x.port == port && !x.closed);
        let l = match l {
            Some(l) => l as u32,
            None => return -(libc::ECONNREFUSED as i64),
        };
        if k.net.socks[l as usize].queue.len() < k.net.socks[l as usize].backlog {
            let c = new_sock(k);
            let my_port = if k.net.socks[s as usize].port != 0 { k.net.socks[s as usize].port } else { k.net.next_port };
            k.net.next_port += 1;
            {
                let a = &mut k.net.socks[s as usize];
                a.st = SS::Connected;
                a.peer = c;
                a.port = my_port;
                a.peer_port = port;
            }
            {
                let b = &mut k.net.socks[c as usize];
                b.st = SS::Connected;
                b.peer = s;
                b.port = port;
                b.peer_port = my_port;
                b.refs = 0;
            }
            k.net.socks[l as usize].queue.push_back(c);
            k.wake_sock(l);
            return 0;
        }
        if k.block(Key::Sock(l), give_up) && k.now >= give_up {
            return -(libc::ETIMEDOUT as i64);
        }
    }
}

pub fn send(k: &mut Kernel, fd: i32, bufs: &[&[u8]], dontwait: bool) -> i64 {
    let s = sk!(k, fd);
    let total: usize = bufs.iter().map(|b| b.len()).sum();
    k.op("send", s as u64, total as u64);
    if k.fault("send_eintr") {
        return -(libc::EINTR as i64);
    }
    if k.fault("conn_reset_on_send") {
        reset_pair(k, s);
        if k.net.socks[s as usize].err != 0 {
            k.net.socks[s as usize].err = k.errno(&[libc::ECONNRESET, libc::ETIMEDOUT, libc::EHOSTUNREACH, libc::ENETDOWN]);
        }
    }
    let mut data: Vec<u8> = Vec::with_capacity(total);
    for b in bufs {
        data.extend_from_slice(b);
    }
    let mut want = total;
    if want > 1 && k.is_sut() && !k.is_calm() && k.cfg.short_write > 0 && k.ch.chance(NET, k.cfg.short_write, 256) {
        want = 1 + k.ch.below(NET, (want - 1) as u64) as usize;
        k.count("fault.short_write");
    }
    let deadline = match k.net.socks[s as usize].sndtimeo {
        0 => FOREVER,
        t => k.now + t,
    };
    let mut done = 0;
    loop {
        {
            let so = &mut k.net.socks[s as usize];
            if so.st != SS::Connected {
                return -(libc::ENOTCONN as i64);
            }
            if so.err != 0 {
                let e = so.err;
                so.err = 0;
                return if done > 0 { done as i64 } else { -(e as i64) };
            }
            if so.rst || so.shut_wr {
                return if done > 0 { done as i64 } else { -(libc::EPIPE as i64) };
            }
        }
        let peer = k.net.socks[s as usize].peer;
        let (cap, used) = {
            let p = &k.net.socks[peer as usize];
            (p.cap, p.rcv.len() + p.inflight_bytes)
        };
        if k.net.socks[peer as usize].closed {
            // the data will be answered with a reset
            let n = want - done;
            enqueue(k, s, Seg::Rst);
            k.net.socks[s as usize].sent += n as u64;
            return want as i64;
        }
        let space = cap.saturating_sub(used);
        if space > 0 {
            let n = space.min(want - done);
            let mut off = done;
            let end = done + n;
            let split = k.cfg.seg > 0 && !k.is_calm() && k.ch.chance(NET, k.cfg.seg_p, 256);
            while off < end {
                let mut l = end - off;
                if split {
                    l = l.min(1 + k.ch.below(NET, k.cfg.seg) as usize);
                }
                enqueue(k, peer, Seg::Data(data[off..off + l].to_vec()));
                off += l;
            }
            if split {
                k.count("net.segmented_write");
            }
            {
                let so = &mut k.net.socks[s as usize];
                so.sent += n as u64;
                if so.keep_log {
                    so.sent_log.extend_from_slice(&data[done..end]);
                }
            }
            done = end;
            if done == want {
                return done as i64;
            }
        }
        if k.net.socks[s as usize].nonblock || dontwait {
            return if done > 0 { done as i64 } else { -(libc::EAGAIN as i64) };
        }
        k.count("net.send_blocked");
        if k.block(Key::Sock(s), deadline) {
            return if done > 0 { done as i64 } else { -(libc::EAGAIN as i64) };
        }
    }
}

pub fn recv(k: &mut Kernel, fd: i32, len: usize, peek: bool, dontwait: bool, mut put: impl FnMut(&[u8])) -> i64 {
    let s = sk!(k, fd);
    k.op("recv", s as u64, 0);
    if k.fault("recv_eintr") {
        return -(libc::EINTR as i64);
    }
    if k.fault("conn_reset_on_recv") {
        reset_pair(k, s);
        if k.net.socks[s as usize].err != 0 {
            k.net.socks[s as usize].err = k.errno(&[libc::ECONNRESET, libc::ETIMEDOUT, libc::EHOSTUNREACH, libc::ENETDOWN]);
        }
    }
    let deadline = match k.net.socks[s as usize].rcvtimeo {
        0 => FOREVER,
        t => k.now + t,
    };
    loop {
        let avail = k.net.socks[s as usize].rcv.len();
        if k.net.socks[s as usize].st != SS::Connected {
            return -(libc::ENOTCONN as i64);
        }
        if len == 0 {
            return 0;
        }
        if avail > 0 {
            let mut n = avail.min(len);
            if n > 1 && k.is_sut() && !k.is_calm() && k.cfg.short_read > 0 && k.ch.chance(NET, k.cfg.short_read, 256) {
                n = 1 + k.ch.below(NET, (n - 1) as u64) as usize;
                k.count("fault.short_read");
            }
            let so = &mut k.net.socks[s as usize];
            let d: Vec<u8> = if peek { so.rcv.iter().take(n).copied().collect() } else { so.rcv.drain(..n).collect() };
            put(&d);
            let peer = so.peer;
            if peer != u32::MAX {
                k.wake_sock(peer);
            }
            k.ev("recvd", s as u64, n as u64);
            return n as i64;
        }
        let so = &mut k.net.socks[s as usize];
        if so.err != 0 {
            let e = so.err;
            so.err = 0;
            return -(e as i64);
        }
        if so.rst || so.eof || so.shut_rd {
            k.ev("recv_eof", s as u64, 0);
            return 0;
        }
        if so.nonblock || dontwait {
            return -(libc::EAGAIN as i64);
        }
        if k.block(Key::Sock(s), deadline) {
            return -(libc::EAGAIN as i64);
        }
    }
}

/// network-level reset of the connection of endpoint `s`
pub fn reset_pair(k: &mut Kernel, s: u32) {
    let p = k.net.socks[s as usize].peer;
    for x in [s, p] {
        if x == u32::MAX {
            continue;
        }
        let so = &mut k.net.socks[x as usize];
        so.inflight.clear();
        so.inflight_bytes = 0;
        so.rcv.clear();
        if so.st == SS::Connected {
            so.rst = true;
            so.err = libc::ECONNRESET;
        }
        k.wake_sock(x);
    }
}

pub fn shutdown(k: &mut Kernel, fd: i32, how: i32) -> i64 {
    let s = sk!(k, fd);
    k.op("shutdown", s as u64, how as u64);
    if k.net.socks[s as usize].st != SS::Connected {
        return -(libc::ENOTCONN as i64);
    }
    if how == libc::SHUT_RD || how == libc::SHUT_RDWR {
        k.net.socks[s as usize].shut_rd = true;
    }
    if (how == libc::SHUT_WR || how == libc::SHUT_RDWR) && !k.net.socks[s as usize].shut_wr {
        k.net.socks[s as usize].shut_wr = true;
        let p = k.net.socks[s as usize].peer;
        enqueue(k, p, Seg::Fin);
    }
    k.wake_sock(s);
    0
}

pub fn close(k: &mut Kernel, fd: i32) -> i64 {
    let s = sk!(k, fd);
    k.op("close", s as u64, 0);
    if sock_of(k, fd).is_none() {
        return -(libc::EBADF as i64); // closed meanwhile: a double close
    }
    k.net.fds[(fd - VFD) as usize] = None;
    k.net.socks[s as usize].refs -= 1;
    if k.net.socks[s as usize].refs == 0 {
        real_close(k, s);
    }
    0
}

fn real_close(k: &mut Kernel, s: u32) {
    k.net.socks[s as usize].closed = true;
    match k.net.socks[s as usize].st {
        SS::Connected => {
            let p = k.net.socks[s as usize].peer;
            let unread = !k.net.socks[s as usize].rcv.is_empty();
            let rst = k.net.socks[s as usize].rst;
            if !rst {
                if unread {
                    k.count("net.close_with_unread_data");
                    enqueue(k, p, Seg::Rst);
                } else if !k.net.socks[s as usize].shut_wr {
                    enqueue(k, p, Seg::Fin);
                }
            }
        }
        SS::Listening => {
            let q: Vec<u32> = k.net.socks[s as usize].queue.drain(..).collect();
            for c in q {
                k.net.socks[c as usize].closed = true;
                let p = k.net.socks[c as usize].peer;
                enqueue(k, p, Seg::Rst);
            }
            k.net.socks[s as usize].st = SS::Dead;
            k.wake_sock(s);
        }
        _ => {}
    }
}

pub fn dup(k: &mut Kernel, fd: i32) -> i64 {
    let s = sk!(k, fd);
    k.op("dup", s as u64, 0);
    if k.fault("dup_emfile") {
        return -(libc::EMFILE as i64);
    }
    k.net.socks[s as usize].refs += 1;
    new_fd(k, s) as i64
}

pub fn readiness(k: &Kernel, s: u32) -> i16 {
    let so = &k.net.socks[s as usize];
    let mut ev = 0;
    match so.st {
        SS::Listening => {
            if !so.queue.is_empty() {
                ev |= libc::POLLIN;
            }
        }
        SS::Connected => {
            if !so.rcv.is_empty() || so.eof || so.rst || so.shut_rd {
                ev |= libc::POLLIN;
            }
            let p = &k.net.socks[so.peer as usize];
            if p.cap > p.rcv.len() + p.inflight_bytes || so.rst {
                ev |= libc::POLLOUT;
            }
            if so.rst {
                ev |= libc::POLLERR | libc::POLLHUP;
            }
        }
        _ => {}
    }
    ev
}

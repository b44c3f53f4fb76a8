//! The simulation kernel: one baton, one virtual clock, one event queue.
//!
//! All threads of a run are real OS threads, but exactly one of them — the
//! holder of the baton — executes at any moment; every other one is parked on
//! its private futex. Who gets the baton, when it is taken away (at
//! interposed calls and at every instrumented basic-block edge), what the
//! clock says and when events fire is decided here from the choice streams.
use super::choices::*;
use super::net::Net;
use super::shm::*;
use super::sys;
use std::cell::Cell;
use std::collections::BinaryHeap;
use std::collections::BTreeMap;
use std::cmp::Reverse;
use std::sync::atomic::{AtomicU32, Ordering};

pub const NOBODY: u32 = u32::MAX;
pub const FOREVER: u64 = u64::MAX;
pub const MS: u64 = 1_000_000;
pub const US: u64 = 1_000;
pub const SEC: u64 = 1_000_000_000;

thread_local! {
    static TID: Cell<u32> = const { Cell::new(NOBODY) };
}
#[inline(always)]
pub fn tid() -> u32 {
    TID.with(|t| t.get())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Key {
    Sleep,
    Futex(usize, u32),
    Join(u32),
    Sock(u32),
    AnySock,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TS {
    Runnable,
    Blocked(Key),
    Done,
}

pub struct Thr {
    go: *const AtomicU32,
    arrived: *const AtomicU32,
    pub st: TS,
    gen: u64,
    timed_out: bool,
    pub sut: bool,
    prio: u64,
    clock_calls: u32,
    clock_first: u64,
    slices: u32,
    retval: usize,
    pthread: u64,
    dtors: Vec<(unsafe extern "C" fn(*mut u8), *mut u8)>,
    pub label: String,
    wseq: u64,
}

#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Debug)]
pub enum Ev {
    Wake(u32, u64),
    Net(u32),
}

pub struct FaultRate {
    pub kind: &'static str,
    pub num: u64,
    pub den: u64,
    pub left: u64,
}

pub struct Cfg {
    /// mean number of edges between preemption opportunities (0: none)
    pub preempt_mean: u64,
    /// chance (in 1/64) of a reschedule at an interposed call
    pub op_preempt: u64,
    /// chance (in 1/1024) that a preempted thread is stalled for a while
    pub stall: u64,
    pub stall_max: u64,
    pub pct: bool,
    pub slice_max: u64,
    pub edge_ns: u64,
    pub spurious: u64, // in 1/256
    pub wake_random: bool,
    pub lat_base: u64,
    pub lat_jit: u64,
    /// 0: no splitting, n>0: segments of 1..=n bytes
    pub seg: u64,
    /// chance (in 1/256) that a write is segmented at all
    pub seg_p: u64,
    pub sock_cap: usize,
    pub short_read: u64,  // in 1/256
    pub short_write: u64, // in 1/256
    pub faults: Vec<FaultRate>,
    pub edge_budget: u64,
    pub switch_budget: u64,
    pub sim_budget: u64,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            preempt_mean: 0,
            op_preempt: 0,
            stall: 0,
            stall_max: 20 * MS,
            pct: false,
            slice_max: 20_000,
            edge_ns: 10,
            spurious: 0,
            wake_random: false,
            lat_base: 20 * US,
            lat_jit: 0,
            seg: 0,
            seg_p: 0,
            sock_cap: 65536,
            short_read: 0,
            short_write: 0,
            faults: vec![],
            edge_budget: 40_000_000,
            switch_budget: 400_000,
            sim_budget: 3600 * SEC,
        }
    }
}

pub struct Kernel {
    pub shm: *mut Shm,
    pub ch: Choices,
    pub cfg: Cfg,
    pub thr: Vec<Thr>,
    pub cur: u32,
    pub now: u64,
    pub wall_off: i64,
    seq: u64,
    events: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    pub net: Net,
    pub faults_on: bool,
    calm: bool,
    fair: bool,
    slice: u64,
    fids: BTreeMap<usize, u32>,
    runq: Vec<u32>,
    pub on_stuck: Option<fn(&str) -> (u32, String, String)>,
    pub pid_entropy: u64,
    pub panics: Vec<(u32, String, String)>,
    /// time threads were held back, in total
    pub stalled: u64,
    pub fs: super::fs::Fs,
}

static mut K: *mut Kernel = std::ptr::null_mut();
pub static mut ACTIVE: bool = false;
pub static mut COV: *mut u8 = std::ptr::null_mut();
static mut COUNTDOWN: u64 = u64::MAX;
static mut GUARDS: u32 = 0;

#[inline(always)]
pub fn active() -> bool {
    unsafe { ACTIVE && tid() != NOBODY }
}
#[inline(always)]
#[allow(static_mut_refs)]
pub fn k() -> &'static mut Kernel {
    unsafe { &mut *K }
}
pub fn guards() -> u32 {
    unsafe { GUARDS }
}

// ---------------------------------------------------------------- coverage

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        GUARDS += 1;
        *p = GUARDS;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ACTIVE || tid() == NOBODY {
        return;
    }
    *COV.add(*g as usize & (COV_CAP - 1)) = 1;
    COUNTDOWN -= 1;
    if COUNTDOWN == 0 {
        edge_preempt();
    }
}

#[cold]
#[inline(never)]
fn edge_preempt() {
    let _in = super::mem::In::new();
    let k = k();
    k.account();
    unsafe { (*k.shm).preemptions += 1 };
    k.ev("preempt", 0, 0);
    let cur = k.cur as usize;
    k.thr[cur].slices += 1;
    let hog = k.thr[cur].slices >= 8;
    k.maybe_stall();
    if hog && k.slice >= k.cfg.slice_max {
        // a thread that computes without end must not keep the clock from
        // moving for the others
        k.tick(50 * US);
    }
    // a thread that spins for another one must let it run some day, whatever
    // the priorities
    k.fair = k.thr[cur].slices % 32 == 0;
    let f = k.fair;
    k.resched(f);
    k.fair = false;
}

// ---------------------------------------------------------------- kernel

pub struct Boot {
    pub shm: *mut Shm,
    pub cov: *mut u8,
    pub seed: u64,
    pub explicit: Option<Vec<Vec<u64>>>,
}

pub fn boot(b: Boot) {
    unsafe {
        let kern = Box::new(Kernel {
            shm: b.shm,
            ch: Choices::new(b.seed, b.explicit, &mut (*b.shm).draws),
            cfg: Cfg::default(),
            thr: Vec::with_capacity(256),
            cur: 0,
            now: 1000 * SEC,
            wall_off: 1_700_000_000 * SEC as i64,
            seq: 0,
            events: BinaryHeap::new(),
            net: Net::new(),
            faults_on: false,
            calm: false,
            fair: false,
            slice: 0,
            fids: BTreeMap::new(),
            runq: Vec::with_capacity(256),
            on_stuck: None,
            pid_entropy: mix(b.seed ^ 0x9999),
            panics: vec![],
            stalled: 0,
            fs: super::fs::Fs::new(),
        });
        K = Box::into_raw(kern);
        COV = b.cov;
        let kk = k();
        kk.new_thread("driver".into(), false);
        kk.thr[0].st = TS::Runnable;
        TID.with(|t| t.set(0));
        COUNTDOWN = u64::MAX / 2;
        kk.slice = u64::MAX / 2;
        ACTIVE = true;
    }
}

fn word() -> *const AtomicU32 {
    Box::into_raw(Box::new(AtomicU32::new(0)))
}

fn fnv(h: u64, x: u64) -> u64 {
    let mut h = h ^ x;
    h = h.wrapping_mul(0x100000001b3);
    h ^ (h >> 29)
}

impl Kernel {
    fn new_thread(&mut self, label: String, sut: bool) -> u32 {
        let id = self.thr.len() as u32;
        let prio = if self.cfg.pct { self.ch.raw(SCHED) >> 1 } else { 0 };
        self.thr.push(Thr {
            go: word(),
            arrived: word(),
            st: TS::Runnable,
            gen: 0,
            timed_out: false,
            sut,
            prio,
            clock_calls: 0,
            clock_first: 0,
            slices: 0,
            retval: 0,
            pthread: 0,
            dtors: vec![],
            label,
            wseq: 0,
        });
        unsafe { (*self.shm).threads = self.thr.len() as u32 };
        id
    }

    #[inline]
    pub fn shm(&self) -> &'static mut Shm {
        unsafe { &mut *self.shm }
    }

    /// trace event: hashed always, written out only when a log is wanted
    pub fn ev(&mut self, what: &str, a: u64, b: u64) {
        let s = self.shm();
        let mut h = s.trace_hash;
        let mut w = 0u64;
        for c in what.bytes() {
            w = w.wrapping_mul(131).wrapping_add(c as u64);
        }
        h = fnv(h, w);
        h = fnv(h, self.cur as u64);
        h = fnv(h, a);
        h = fnv(h, b);
        h = fnv(h, self.now);
        s.trace_hash = h;
        if s.log_on != 0 {
            s.log_line(&format!("{:>14} t{:<3} {} {} {}", self.now - 1000 * SEC, self.cur, what, a, b));
        }
    }
    pub fn note(&mut self, msg: &str) {
        let s = self.shm();
        if s.log_on != 0 {
            s.log_line(&format!("{:>14} t{:<3} # {}", self.now - 1000 * SEC, self.cur, msg));
        }
    }
    pub fn count(&mut self, name: &str) {
        self.shm().count(name, 1);
    }

    /// charge the edges executed since the last call to the clock
    fn account(&mut self) {
        unsafe {
            let used = self.slice.saturating_sub(COUNTDOWN);
            self.slice = COUNTDOWN;
            let s = self.shm();
            s.edges += used;
            self.now += used * self.cfg.edge_ns;
            if s.edges > self.cfg.edge_budget {
                self.stuck("edge budget exhausted (a thread computes without end)");
            }
        }
    }
    fn tick(&mut self, ns: u64) {
        self.now += ns;
    }

    fn new_slice(&mut self) {
        let max = self.cfg.slice_max;
        let mut n = max;
        if self.cfg.preempt_mean > 0 && !self.calm {
            let r = self.ch.raw(SCHED);
            if r != 0 {
                n = (1 + r % (2 * self.cfg.preempt_mean)).min(max);
            }
        }
        unsafe {
            COUNTDOWN = n;
            self.slice = n;
        }
    }

    fn maybe_stall(&mut self) {
        if self.cfg.stall > 0 && !self.calm && self.ch.chance(SCHED, self.cfg.stall, 1024) {
            let r = self.ch.raw(SCHED);
            // log-uniform in 1us..stall_max
            let bits = 64 - (self.cfg.stall_max / US).leading_zeros() as u64;
            let d = US << (r % bits.max(1));
            self.count("sched.thread_stall");
            self.ev("stall", d, 0);
            let until = self.now + d;
            self.stalled += d;
            self.block(Key::Sleep, until);
        }
    }

    pub fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.events.push(Reverse((t, self.seq, e)));
    }

    fn fire_due(&mut self) {
        while let Some(Reverse((t, _, _))) = self.events.peek() {
            if *t > self.now {
                break;
            }
            let Reverse((_, _, e)) = self.events.pop().unwrap();
            match e {
                Ev::Wake(t, gen) => {
                    let th = &mut self.thr[t as usize];
                    if th.gen == gen && matches!(th.st, TS::Blocked(_)) {
                        th.timed_out = true;
                        self.make_runnable(t);
                    }
                }
                Ev::Net(s) => super::net::on_event(self, s),
            }
        }
    }

    fn make_runnable(&mut self, t: u32) {
        let th = &mut self.thr[t as usize];
        th.gen += 1;
        th.st = TS::Runnable;
    }

    /// wake threads blocked on a socket
    pub fn wake_sock(&mut self, s: u32) {
        for t in 0..self.thr.len() {
            match self.thr[t].st {
                TS::Blocked(Key::Sock(x)) if x == s => {
                    self.thr[t].timed_out = false;
                    self.make_runnable(t as u32)
                }
                TS::Blocked(Key::AnySock) => {
                    self.thr[t].timed_out = false;
                    self.make_runnable(t as u32)
                }
                _ => {}
            }
        }
    }

    /// Give up the baton until woken or until `deadline`. True: timed out.
    pub fn block(&mut self, key: Key, deadline: u64) -> bool {
        self.account();
        let c = self.cur as usize;
        self.thr[c].gen += 1;
        self.thr[c].st = TS::Blocked(key);
        self.seq += 1;
        self.thr[c].wseq = self.seq;
        self.thr[c].timed_out = false;
        self.thr[c].slices = 0;
        if deadline != FOREVER {
            let gen = self.thr[c].gen;
            let t = deadline.max(self.now);
            self.at(t, Ev::Wake(c as u32, gen));
        }
        self.switch(true);
        self.thr[c].timed_out
    }

    /// A scheduling point at which the current thread stays runnable.
    pub fn resched(&mut self, must_yield: bool) {
        self.account();
        self.switch(must_yield);
    }

    /// scheduling point of an interposed call
    pub fn op(&mut self, what: &str, a: u64, b: u64) {
        self.account();
        self.tick(300);
        let s = self.shm();
        s.ops += 1;
        self.ev(what, a, b);
        let c = self.cur as usize;
        self.thr[c].clock_calls = 0;
        self.thr[c].slices = 0;
        if !self.calm && self.cfg.op_preempt > 0 && self.ch.chance(SCHED, self.cfg.op_preempt, 64) {
            self.maybe_stall();
            self.resched(false);
        }
    }

    fn pick(&mut self, must_yield: bool) -> Option<u32> {
        let n = self.thr.len() as u32;
        let cur = self.cur;
        self.runq.clear();
        for i in 0..n {
            let t = (cur + i) % n;
            if self.thr[t as usize].st == TS::Runnable {
                self.runq.push(t);
            }
        }
        if self.runq.is_empty() {
            return None;
        }
        if must_yield && self.runq.len() > 1 && self.runq[0] == cur {
            self.runq.remove(0);
        }
        if self.runq.len() == 1 {
            return Some(self.runq[0]);
        }
        if self.cfg.pct && !self.calm && !self.fair {
            // change point: an eighth of the reschedules demote the current one
            if self.ch.chance(SCHED, 1, 8) {
                let p = self.ch.raw(SCHED) >> 1;
                self.thr[cur as usize].prio = p;
            }
            let mut best = self.runq[0];
            for &t in &self.runq {
                if self.thr[t as usize].prio > self.thr[best as usize].prio {
                    best = t;
                }
            }
            return Some(best);
        }
        let len = self.runq.len() as u64;
        let i = self.ch.below(SCHED, len);
        Some(self.runq[i as usize])
    }

    fn switch(&mut self, must_yield: bool) {
        let me = self.cur;
        let next = loop {
            self.fire_due();
            match self.pick(must_yield) {
                Some(t) => break t,
                None => match self.events.peek() {
                    Some(Reverse((t, _, _))) => {
                        if *t > self.now {
                            self.now = *t;
                        }
                        if self.now > self.cfg.sim_budget + 1000 * SEC {
                            self.stuck("simulated time budget exhausted");
                        }
                    }
                    None => self.stuck("deadlock: every thread is blocked and no event is pending"),
                },
            }
        };
        self.fair = false;
        let s = self.shm();
        s.sched_hash = fnv(s.sched_hash, next as u64);
        if next != me {
            s.switches += 1;
            if s.switches > self.cfg.switch_budget {
                self.stuck("switch budget exhausted");
            }
            self.cur = next;
            self.ev("run", next as u64, 0);
            self.new_slice();
            let go = self.thr[next as usize].go;
            let mine = self.thr[me as usize].go;
            let done = self.thr[me as usize].st == TS::Done;
            unsafe {
                (*go).store(1, Ordering::Release);
                sys::futex_wake(go as *const u32, 1);
                if done {
                    park_forever();
                }
                wait_go(mine);
            }
        } else {
            self.new_slice();
        }
    }

    /// The whole simulation cannot go on.
    pub fn stuck(&mut self, why: &str) -> ! {
        let f = self.on_stuck.take();
        let mut s = format!("{why}\n");
        s.push_str(&self.dump());
        match f {
            Some(f) => {
                let (v, c, d) = f(why);
                finish(v, &c, &format!("{d}\n{s}"));
            }
            None => {
                self.note(&format!("STUCK {why}"));
                finish(V_VIOLATION, &format!("the system is stuck: {why}"), &s)
            }
        }
    }

    pub fn dump(&mut self) -> String {
        let mut s = format!("virtual time {} us\n", (self.now - 1000 * SEC) / 1000);
        for (i, t) in self.thr.iter().enumerate() {
            if t.st == TS::Done {
                continue;
            }
            let st = match t.st {
                TS::Blocked(Key::Futex(a, _)) => {
                    let n = self.fids.len() as u32;
                    let id = *self.fids.entry(a).or_insert(n);
                    format!("waiting on lock/condition #{id}")
                }
                TS::Blocked(x) => format!("blocked in {x:?}"),
                x => format!("{x:?}"),
            };
            s.push_str(&format!("  t{} [{}] {}\n", i, t.label, st));
        }
        s
    }

    // ------------------------------------------------------------ faults

    /// the error a fault shows itself as: mostly the usual one
    pub fn errno(&mut self, all: &[i32]) -> i32 {
        if all.len() > 1 && self.ch.chance(FAULT, 1, 2) {
            let i = 1 + self.ch.below(FAULT, all.len() as u64 - 1) as usize;
            self.shm().count(&format!("fault.errno_{}", all[i]), 1);
            return all[i];
        }
        all[0]
    }
    /// Does fault `kind` strike here? Only in code under test.
    pub fn fault(&mut self, kind: &'static str) -> bool {
        if !self.faults_on || !self.thr[self.cur as usize].sut {
            return false;
        }
        for i in 0..self.cfg.faults.len() {
            if self.cfg.faults[i].kind == kind {
                if self.cfg.faults[i].left == 0 {
                    return false;
                }
                let (n, d) = (self.cfg.faults[i].num, self.cfg.faults[i].den);
                let hit = self.ch.chance(FAULT, n, d);
                if hit {
                    self.cfg.faults[i].left -= 1;
                    self.shm().count(&format!("fault.{kind}"), 1);
                    self.ev(kind, 0, 0);
                }
                return hit;
            }
        }
        false
    }
    /// any socket-level nondeterminism (segmentation, short reads) here?
    pub fn is_sut(&self) -> bool {
        self.thr[self.cur as usize].sut
    }
    pub fn set_calm(&mut self, on: bool) {
        self.calm = on;
        if on {
            self.faults_on = false;
        }
    }
    pub fn is_calm(&self) -> bool {
        self.calm
    }

    // ------------------------------------------------------------ clocks

    pub fn clock_read(&mut self) -> u64 {
        self.account();
        self.tick(40);
        self.poll_check();
        self.now
    }

    /// A thread that does nothing but read the clock or yield is polling: let
    /// it sleep a little so that time can pass.
    fn poll_check(&mut self) {
        let c = self.cur as usize;
        let th = &mut self.thr[c];
        if th.clock_calls == 0 {
            th.clock_first = self.now;
        }
        th.clock_calls += 1;
        if th.clock_calls > 12 {
            let el = self.now - th.clock_first;
            let mut q = (el / 6).clamp(5 * US, 100 * MS);
            if !self.calm && self.cfg.preempt_mean > 0 {
                let r = self.ch.below(SCHED, 4);
                q = q / (1 + r);
            }
            let until = self.now + q.max(US);
            self.ev("poll", q, 0);
            self.block(Key::Sleep, until);
        }
    }

    // ------------------------------------------------------------ futex

    pub fn futex_wait(&mut self, addr: usize, val: u32, bitset: u32, deadline: u64) -> i64 {
        self.op("futex_wait", 0, 0);
        let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
        if cur != val {
            return -(libc::EAGAIN as i64);
        }
        if self.cfg.spurious > 0 && !self.calm && self.ch.chance(SCHED, self.cfg.spurious, 256) {
            self.count("sched.spurious_wakeup");
            let until = self.now + 1;
            self.block(Key::Sleep, until);
            return 0;
        }
        if self.block(Key::Futex(addr, bitset), deadline) {
            -(libc::ETIMEDOUT as i64)
        } else {
            0
        }
    }

    pub fn futex_wake(&mut self, addr: usize, n: u32, bitset: u32) -> i64 {
        self.account();
        let mut woken = 0;
        let mut cand: Vec<u32> = vec![];
        for t in 0..self.thr.len() {
            if let TS::Blocked(Key::Futex(a, b)) = self.thr[t].st {
                if a == addr && b & bitset != 0 {
                    cand.push(t as u32);
                }
            }
        }
        // oldest waiter first unless the run scrambles the order
        cand.sort_by_key(|t| self.thr[*t as usize].wseq);
        while woken < n && !cand.is_empty() {
            let i = if self.cfg.wake_random && cand.len() > 1 && !self.calm {
                self.ch.below(SCHED, cand.len() as u64) as usize
            } else {
                0
            };
            let t = cand.remove(i);
            self.thr[t as usize].timed_out = false;
            self.make_runnable(t);
            woken += 1;
        }
        self.op("futex_wake", woken as u64, 0);
        woken as i64
    }

    pub fn sleep(&mut self, ns: u64) {
        self.op("sleep", ns, 0);
        let until = self.now + ns.max(1);
        self.block(Key::Sleep, until);
    }

    pub fn yield_now(&mut self) {
        self.account();
        self.tick(200);
        self.ev("yield", 0, 0);
        self.poll_check();
        self.resched(true);
    }

    /// PCT mode: the threads that already exist get priorities too
    pub fn draw_priorities(&mut self) {
        for t in self.thr.iter_mut() {
            t.prio = self.ch.raw(SCHED) >> 1;
        }
    }
    pub fn entropy(&mut self) -> u64 {
        self.pid_entropy = mix(self.pid_entropy);
        self.pid_entropy
    }

    pub fn is_done(&self, t: u32) -> bool {
        self.thr[t as usize].st == TS::Done
    }
    pub fn live_sut_threads(&self) -> usize {
        self.thr.iter().filter(|t| t.sut && t.st != TS::Done).count()
    }
}

unsafe fn wait_go(p: *const AtomicU32) {
    while (*p).swap(0, Ordering::Acquire) == 0 {
        sys::futex_wait(p as *const u32, 0);
    }
}
fn park_forever() -> ! {
    let w = AtomicU32::new(0);
    loop {
        unsafe { sys::futex_wait(&w as *const _ as *const u32, 0) }
    }
}

/// End the run: publish the verdict and terminate the process.
pub fn finish(verdict: u32, class: &str, detail: &str) -> ! {
    unsafe {
        ACTIVE = false;
        let kk = k();
        let s = kk.shm();
        let used = kk.slice.saturating_sub(COUNTDOWN);
        if used < 1 << 40 {
            s.edges += used;
        }
        s.set_class(class);
        s.set_detail(detail);
        s.sim_ns = kk.now - 1000 * SEC;
        s.verdict = verdict;
        sys::exit_group(0)
    }
}

// ---------------------------------------------------------------- threads

struct Start {
    tid: u32,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
}

extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let b = Box::from_raw(p as *mut Start);
        TID.with(|t| t.set(b.tid));
        let (go, arrived) = {
            let th = &k().thr[b.tid as usize];
            (th.go, th.arrived)
        };
        (*arrived).store(1, Ordering::Release);
        sys::futex_wake(arrived as *const u32, 1);
        wait_go(go);
        let arg = b.arg;
        let f = b.f;
        let me = b.tid;
        {
            let _in = super::mem::In::new();
            drop(b);
        }
        let r = f(arg);
        let kk = k();
        loop {
            match kk.thr[me as usize].dtors.pop() {
                Some((f, p)) => f(p),
                None => break,
            }
        }
        super::interpose::run_key_dtors();
        let _in = super::mem::In::new();
        kk.account();
        kk.ev("exit", 0, 0);
        let th = &mut kk.thr[me as usize];
        th.retval = r as usize;
        th.st = TS::Done;
        for t in 0..kk.thr.len() {
            if kk.thr[t].st == TS::Blocked(Key::Join(me)) {
                kk.thr[t].timed_out = false;
                kk.make_runnable(t as u32);
            }
        }
        kk.switch(false);
        unreachable!()
    }
}

type CreateFn = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    *mut libc::c_void,
) -> i32;

pub unsafe fn real_pthread_create() -> CreateFn {
    static mut P: usize = 0;
    if P == 0 {
        P = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()) as usize;
        assert!(P != 0);
    }
    std::mem::transmute::<usize, CreateFn>(P)
}

pub unsafe fn sim_pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
) -> i32 {
    let kk = k();
    kk.op("pthread_create", 0, 0);
    if kk.fault("thread_spawn_eagain") {
        return libc::EAGAIN;
    }
    let sut = kk.is_sut();
    if kk.thr.iter().filter(|t| t.st != TS::Done).count() > 1200 {
        // far beyond anything the scenarios ask for; real machines have limits too
        finish(V_VIOLATION, "the program started more and more threads", &format!("{} threads", kk.thr.len()));
    }
    let tid = kk.new_thread(format!("thread{}", kk.thr.len()), sut);
    let start = Box::into_raw(Box::new(Start { tid, f, arg }));
    let r = real_pthread_create()(out, attr, trampoline, start as *mut libc::c_void);
    if r != 0 {
        finish(V_HARNESS, "pthread_create failed for real", "");
    }
    kk.thr[tid as usize].pthread = *out as u64;
    let arrived = kk.thr[tid as usize].arrived;
    while (*arrived).load(Ordering::Acquire) == 0 {
        sys::futex_wait(arrived as *const u32, 0);
    }
    kk.resched(false);
    0
}

pub unsafe fn sim_pthread_join(t: libc::pthread_t, out: *mut *mut libc::c_void) -> i32 {
    let kk = k();
    let id = match kk.thr.iter().position(|x| x.pthread == t as u64) {
        Some(i) => i as u32,
        None => finish(V_HARNESS, "join of unknown thread", ""),
    };
    kk.op("join", id as u64, 0);
    while !kk.is_done(id) {
        kk.block(Key::Join(id), FOREVER);
    }
    if !out.is_null() {
        *out = kk.thr[id as usize].retval as *mut libc::c_void;
    }
    0
}

pub unsafe fn sim_atexit(f: unsafe extern "C" fn(*mut u8), p: *mut u8) {
    let kk = k();
    kk.thr[tid() as usize].dtors.push((f, p));
}
pub fn set_label(name: &str) {
    let kk = k();
    kk.thr[tid() as usize].label = name.to_string();
}

//! What scenarios use: choices, virtual time, harness threads, verdicts.
use crate::rt::choices::*;
use crate::rt::kernel::*;
pub use crate::rt::kernel::{MS, SEC, US};
use crate::rt::shm::*;

pub fn w(n: u64) -> u64 {
    k().ch.below(WORK, n)
}
/// uniform in lo..=hi, simplest value lo
pub fn wr(lo: u64, hi: u64) -> u64 {
    lo + w(hi - lo + 1)
}
pub fn wchance(num: u64, den: u64) -> bool {
    k().ch.chance(WORK, num, den)
}
pub fn pick<T: Copy>(v: &[T]) -> T {
    v[w(v.len() as u64) as usize]
}

pub fn now() -> u64 {
    k().now
}
/// how long the scheduler has held threads back so far, in total
pub fn stalled() -> u64 {
    k().stalled
}
pub fn sleep(ns: u64) {
    k().sleep(ns)
}
/// Wait, on the virtual clock, until `cond` holds; false on timeout.
pub fn wait_until(timeout: u64, mut cond: impl FnMut() -> bool) -> bool {
    let end = now() + timeout;
    let mut step = 20 * US;
    loop {
        if cond() {
            return true;
        }
        if now() >= end {
            return false;
        }
        let d = step.min(end - now());
        sleep(d);
        step = (step + step / 2).min(50 * MS);
    }
}

pub struct Handle(std::thread::JoinHandle<()>);
impl Handle {
    pub fn done(&self) -> bool {
        self.0.is_finished()
    }
}
/// A panic with one of the kinds of payload there are.
pub fn boom(kind: usize, msg: String) -> ! {
    match kind % 5 {
        0 | 1 => panic!("{msg}"),
        2 => std::panic::panic_any("planned: a fixed text"),
        3 => std::panic::panic_any(msg.len()),
        _ => std::panic::resume_unwind(Box::new(vec![msg])),
    }
}
pub fn spawn(name: &str, f: impl FnOnce() + Send + 'static) -> Handle {
    let t = tid() as usize;
    let was = k().thr[t].sut;
    k().thr[t].sut = false;
    let h = std::thread::Builder::new().name(name.to_string()).spawn(f).expect("harness thread");
    k().thr[t].sut = was;
    Handle(h)
}
/// run `f` as code under test: faults and short transfers apply to it
pub fn as_sut<T>(f: impl FnOnce() -> T) -> T {
    let t = tid() as usize;
    let was = k().thr[t].sut;
    k().thr[t].sut = true;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    k().thr[t].sut = was;
    match r {
        Ok(r) => r,
        Err(_) => fail("a call into the library panicked", ""),
    }
}
/// run `f` as harness code, with faults off
pub fn as_harness<T>(f: impl FnOnce() -> T) -> T {
    let t = tid() as usize;
    let was = k().thr[t].sut;
    k().thr[t].sut = false;
    let r = f();
    k().thr[t].sut = was;
    r
}

pub fn fail(class: &str, detail: impl AsRef<str>) -> ! {
    let mut d = detail.as_ref().to_string();
    d.push('\n');
    d.push_str(&k().dump());
    for (t, m, l) in k().panics.iter().take(8) {
        d.push_str(&format!("  panic in t{t}: {m} at {l}\n"));
    }
    k().note(&format!("VIOLATION {class}"));
    finish(V_VIOLATION, class, &d)
}
pub fn ok(desc: impl AsRef<str>) -> ! {
    finish(V_OK, "", desc.as_ref())
}
pub fn inconclusive(why: &str) -> ! {
    finish(V_INCONCLUSIVE, why, "")
}
pub fn probe(name: &str) {
    k().shm().count(&format!("probe.{name}"), 1)
}
pub fn note(s: impl AsRef<str>) {
    k().note(s.as_ref())
}
pub fn on_stuck(f: fn(&str) -> (u32, String, String)) {
    k().on_stuck = Some(f)
}
pub fn faults(on: bool) {
    k().faults_on = on;
}
pub fn calm() {
    k().set_calm(true);
}
/// Stop scheduling noise and faults for `ns`, so that everything that can
/// happen has happened; then go on as before.
pub fn settle(ns: u64) {
    let f = k().faults_on;
    k().set_calm(true);
    sleep(ns);
    k().set_calm(false);
    k().faults_on = f;
}
pub fn live_sut_threads() -> usize {
    k().live_sut_threads()
}
pub fn fault_rate(kind: &'static str, num: u64, den: u64, max: u64) {
    k().cfg.faults.push(FaultRate { kind, num, den, left: max });
}

/// Scheduler settings of a run, drawn swarm-style.
pub fn swarm_sched() -> String {
    let c = &mut k().cfg;
    let ch = &mut k().ch;
    let style = ch.below(WORK, 8);
    let (pm, op) = match style {
        0 => (0, 0),
        1 => (0, 16),
        2 => (4000, 8),
        3 => (1000, 16),
        4 => (300, 16),
        5 => (80, 24),
        6 => (20, 32),
        _ => (2000, 40),
    };
    c.preempt_mean = pm;
    c.op_preempt = op;
    if style >= 2 {
        c.pct = ch.chance(WORK, 1, 4);
        if c.pct {
            k().draw_priorities();
        }
        c.stall = [0, 0, 4, 20, 60][ch.below(WORK, 5) as usize];
        c.stall_max = [MS, 20 * MS, 200 * MS][ch.below(WORK, 3) as usize];
        c.spurious = [0, 0, 8][ch.below(WORK, 3) as usize];
        c.wake_random = ch.chance(WORK, 1, 2);
    }
    format!("sched(style={style},preempt~{pm},op={op}/64,pct={},stall={}/1024<{}ms)", c.pct, c.stall, c.stall_max / MS)
}

/// Network settings of a run.
pub fn swarm_net() -> String {
    let c = &mut k().cfg;
    let ch = &mut k().ch;
    c.lat_base = [10 * US, 100 * US, 2 * MS][ch.below(WORK, 3) as usize];
    c.lat_jit = [0, 50 * US, 5 * MS][ch.below(WORK, 3) as usize];
    c.seg = [0, 1, 3, 40, 600][ch.below(WORK, 5) as usize];
    c.seg_p = [256, 64][ch.below(WORK, 2) as usize];
    c.short_read = [0, 0, 40, 200][ch.below(WORK, 4) as usize];
    c.short_write = [0, 0, 40, 200][ch.below(WORK, 4) as usize];
    c.sock_cap = [65536, 65536, 8192, 700][ch.below(WORK, 4) as usize];
    format!(
        "net(lat={}us+{}us,seg={}@{}/256,sr={},sw={},cap={})",
        c.lat_base / US, c.lat_jit / US, c.seg, c.seg_p, c.short_read, c.short_write, c.sock_cap
    )
}

/// Memory that survives `phase` and its crashes: what the outside world saw.
pub fn outside<T>() -> &'static mut T {
    unsafe { &mut *map_shared::<T>() }
}
#[derive(Clone, Copy, Default)]
#[repr(C)]
struct Carry {
    now: u64,
    seq: u64,
    crashed: bool,
}
static mut CARRY: *mut Carry = std::ptr::null_mut();
fn phase_exit() -> ! {
    unsafe {
        *CARRY = Carry { now: k().now, seq: 1, crashed: (*CARRY).crashed };
        crate::rt::sys::exit_group(0)
    }
}
/// Run `f` in a simulated process of its own, which is killed at its n-th
/// file operation (0: never). Files survive it; memory does not. Returns
/// whether it was killed.
pub fn phase(kill_at: u64, f: impl FnOnce()) -> bool {
    unsafe {
        let carry: *mut Carry = map_shared();
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(60);
            CARRY = carry;
            k().fs.nops = 0;
            k().fs.crash_at = kill_at;
            k().fs.on_crash = Some(|| {
                k().shm().count("fault.process_kill", 1);
                (*CARRY).crashed = true;
                phase_exit()
            });
            f();
            phase_exit()
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFSIGNALED(st) {
            libc::signal(libc::WTERMSIG(st), libc::SIG_DFL);
            libc::kill(libc::getpid(), libc::WTERMSIG(st));
        }
        if k().shm().verdict != V_NONE {
            crate::rt::sys::exit_group(0)
        }
        if (*carry).seq == 0 {
            fail("the process exited", "");
        }
        k().now = (*carry).now;
        (*carry).crashed
    }
}

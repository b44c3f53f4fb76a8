//! Thread pool scenarios.
//!
//! Every task is numbered; what happened to it is kept in plain statics, which
//! is sound because exactly one thread runs at a time.
use crate::rt::kernel::tid;
use crate::sim::*;
use starry::utils::concurrent::ThreadPool;

const N: usize = 8192;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Sub {
    None,
    Calling,
    Accepted,
    Refused,
}
struct St {
    sub: [Sub; N],
    ran: [u32; N],
    done: [u32; N],
    gate: [bool; N],
    running: usize,
    max_running: usize,
    order: Vec<usize>,
    /// when each submission began and when it was accepted, in calls
    tick: usize,
    begun: [usize; N],
    taken: [usize; N],
    /// tasks submitted (or being submitted) and neither started nor refused
    waiting: i64,
    /// per open call, the most other tasks seen waiting
    calls: Vec<(u32, i64)>,
    next: usize,
    /// how the pool was made
    kind: u64,
}
static mut S: St = St {
    sub: [Sub::None; N],
    ran: [0; N],
    done: [0; N],
    gate: [false; N],
    running: 0,
    max_running: 0,
    order: vec![],
    tick: 0,
    begun: [0; N],
    taken: [0; N],
    waiting: 0,
    calls: vec![],
    next: 0,
    kind: 0,
};
fn st() -> &'static mut St {
    unsafe { &mut S }
}

#[derive(Clone, Copy)]
enum Do {
    Nothing,
    Sleep(u64),
    /// sleep until this moment
    Until(u64),
    Gate(u64),
    Panic(u64),
    /// needs more stack than threads have unless told otherwise
    Deep,
}

struct Running;
impl Running {
    fn enter(id: usize) -> Running {
        let s = st();
        note(format!("task {id} starts"));
        right_thread();
        s.ran[id] += 1;
        s.waiting -= 1;
        s.running += 1;
        s.order.push(id);
        s.max_running = s.max_running.max(s.running);
        Running
    }
}
impl Drop for Running {
    fn drop(&mut self) {
        st().running -= 1;
    }
}

fn task(id: usize, what: Do) -> starry_glue::Job {
    Box::new(move || {
        let _mine = crate::rt::mem::In::new();
        let _r = Running::enter(id);
        match what {
            Do::Nothing => {}
            Do::Sleep(d) => sleep(d),
            Do::Until(t) => sleep(t.saturating_sub(now())),
            Do::Deep => {
                probe("deep_task");
                deep(if st().kind == 5 { 480 } else { 56 });
            }
            Do::Gate(max) => {
                if !wait_until(max, || st().gate[id]) {
                    note(format!("task {id} gave up waiting"));
                }
            }
            Do::Panic(d) => {
                if d > 0 {
                    sleep(d)
                }
                st().done[id] += 1;
                note(format!("task {id} panics"));
                boom(id, format!("task {id}"));
            }
        }
        st().done[id] += 1;
        note(format!("task {id} ends"));
    })
}

#[inline(never)]
fn deep(n: u64) -> u64 {
    let mut a = [0u8; 64 << 10];
    a[n as usize] = 1;
    std::hint::black_box(&mut a);
    if n == 0 {
        return 0;
    }
    deep(n - 1) + std::hint::black_box(a[n as usize]) as u64
}
/// a task runs on a thread that is what the pool's maker asked for
fn right_thread() {
    let want = ["p", "bp-", "george-thread-pool-", "george-thread-pool-", "named", "george-thread-pool-"][st().kind as usize];
    let me = std::thread::current();
    let name = me.name().unwrap_or("");
    if !name.starts_with(want) {
        fail("a task runs on a thread with a wrong name", format!("{name:?}, the prefix is {want:?}"));
    }
}

fn new_id() -> usize {
    let s = st();
    s.next += 1;
    assert!(s.next <= N);
    s.next - 1
}

/// Submit from any thread; checks that a refusal was justified and that the
/// call did not wait.
fn submit(p: &ThreadPool, id: usize, what: Do, queue: Option<usize>, prompt: u64) -> bool {
    submit_job(p, id, task(id, what), queue, prompt)
}
fn submit_job(p: &ThreadPool, id: usize, job: starry_glue::Job, queue: Option<usize>, prompt: u64) -> bool {
    let s = st();
    let me = tid();
    s.waiting += 1;
    for c in s.calls.iter_mut() {
        c.1 = c.1.max(s.waiting - 1);
    }
    s.calls.push((me, s.waiting - 1));
    s.sub[id] = Sub::Calling;
    s.tick += 1;
    s.begun[id] = s.tick;
    let t0 = now();
    let r = as_sut(|| starry_glue::pool_execute(p, job));
    let took = now() - t0;
    let s = st();
    let at = s.calls.iter().position(|c| c.0 == me).unwrap();
    let seen = s.calls.remove(at).1;
    note(format!("execute {id} -> {}", if r.is_ok() { "ok" } else { "refused" }));
    if took > prompt.min(100 * MS + 4 * stalled()) {
        fail("a submission waited", format!("execute of task {id} took {} us", took / US));
    }
    match r {
        Ok(()) => {
            s.sub[id] = Sub::Accepted;
            s.tick += 1;
            s.taken[id] = s.tick;
            true
        }
        Err(e) => {
            s.sub[id] = Sub::Refused;
            s.waiting -= 1;
            if let Some(q) = queue {
                if seen < q as i64 {
                    fail(
                        "a task was refused although the queue was not full",
                        format!("task {id}: at most {seen} others were waiting, room for {q}: {e}"),
                    );
                }
            }
            probe("refused");
            false
        }
    }
}

fn accepted() -> Vec<usize> {
    (0..st().next).filter(|i| st().sub[*i] == Sub::Accepted).collect()
}

fn check_counts(size: usize) {
    let s = st();
    for i in 0..s.next {
        if s.ran[i] > 1 {
            fail("a task ran twice", format!("task {i} ran {} times", s.ran[i]));
        }
        if s.sub[i] == Sub::Refused && s.ran[i] > 0 {
            fail("a refused task ran", format!("task {i}"));
        }
    }
    if s.max_running > size {
        fail("more tasks ran at once than the pool has threads", format!("{} of {size}", s.max_running));
    }
}

/// after the faults: everything accepted must run and end
fn drain(size: usize, limit: u64) {
    calm();
    for i in 0..st().next {
        st().gate[i] = true;
    }
    let fin = || accepted().iter().all(|i| st().done[*i] >= 1);
    if !wait_until(limit, fin) {
        let lost: Vec<usize> = accepted().into_iter().filter(|i| st().ran[*i] == 0).collect();
        let open: Vec<usize> = accepted().into_iter().filter(|i| st().ran[*i] > 0 && st().done[*i] == 0).collect();
        if lost.is_empty() {
            fail("an accepted task never finished", format!("tasks {open:?}"));
        }
        fail("an accepted task never ran", format!("tasks {lost:?}, pool size {size}"));
    }
    sleep(100 * MS);
    check_counts(size);
}

/// mostly small pools, where things are tight; now and then a large one
fn size_of(most: u64) -> usize {
    if w(16) == 0 {
        probe("large_pool");
        return wr(6, 16) as usize;
    }
    wr(1, most) as usize
}
/// mostly few tasks, now and then many
fn many(least: u64, most: u64) -> u64 {
    if w(16) == 0 {
        return wr(most, 8 * most);
    }
    wr(least, most)
}
fn mk(size: usize, queue: &mut usize) -> ThreadPool {
    let mut kind = w(3);
    if kind == 2 && w(8) == 0 {
        // threads with room to spare
        kind = 5;
    }
    if w(24) == 0 {
        // the constructors that leave the queue at its default
        probe("default_queue");
        kind = 3 + w(2);
        *queue = 100;
    }
    mk_of(kind, size, queue)
}
fn mk_of(kind: u64, size: usize, queue: &mut usize) -> ThreadPool {
    let queue = *queue;
    st().kind = kind;
    st().max_running = 0;
    match as_sut(|| starry_glue::pool_new(kind, size, queue)) {
        Ok(p) => p,
        Err(e) => fail("a pool could not be created", format!("{e}")),
    }
}

/// `size` tasks that wait for each other must all run together
fn full_parallel(p: &ThreadPool, size: usize, when: &str) {
    settle(SEC);
    let ids: Vec<usize> = (0..size).map(|_| new_id()).collect();
    for i in &ids {
        if !submit(p, *i, Do::Gate(600 * SEC), None, 5 * SEC) {
            fail("an idle pool refused a task", format!("{when}, pool size {size}"));
        }
    }
    if !wait_until(20 * SEC, || ids.iter().all(|i| st().ran[*i] == 1)) {
        let n = ids.iter().filter(|i| st().ran[**i] == 1).count();
        fail("the pool does not use all of its threads", format!("{when}: {n} of {size} tasks run, the others wait"));
    }
    for i in &ids {
        st().gate[*i] = true;
    }
    if !wait_until(20 * SEC, || ids.iter().all(|i| st().done[*i] == 1)) {
        fail("an accepted task never finished", when);
    }
    check_counts(size);
}

/// the pool is no more, and nothing of it is left
fn gone(after: &str) {
    if !wait_until(20 * SEC, || live_sut_threads() == 0) {
        fail("threads outlive the pool", format!("{} threads alive 20 s after {after}", live_sut_threads()));
    }
    let (bytes, blocks) = crate::rt::mem::held();
    // a handful is no concern: something made once and kept
    if blocks > 8 {
        fail("a pool that is gone has left memory behind", format!("{bytes} bytes in {blocks} blocks after {after}"));
    }
}

fn gaps() -> u64 {
    pick(&[0, 0, 0, 2 * US, 5 * US, 20 * US, 100 * US, 2 * MS])
}
fn durs() -> Do {
    match w(5) {
        0 | 1 => Do::Nothing,
        2 => Do::Sleep(pick(&[US, 5 * US, 20 * US])),
        3 if w(12) == 0 && matches!(st().kind, 2 | 5) => Do::Deep,
        3 => Do::Sleep(pick(&[100 * US, MS])),
        _ => Do::Sleep(pick(&[5 * MS, 50 * MS])),
    }
}

/// T01: submitters, nested submissions, clones
pub fn exec_once() {
    let sched = swarm_sched();
    let size = size_of(4);
    let mut queue = pick(&[1, 2, 3, 8, 32]);
    let submitters = wr(1, 4);
    let share = wchance(1, 2);
    let pool = std::sync::Arc::new(mk(size, &mut queue));
    let mut hs = vec![];
    for n in 0..submitters {
        let plan: Vec<(u64, Do, bool)> = (0..many(1, 10)).map(|_| (gaps(), durs(), wchance(1, 8))).collect();
        let p = pool.clone();
        hs.push(spawn(&format!("sub{n}"), move || {
            let mine = if share { None } else { Some(as_sut(|| ThreadPool::clone(&p))) };
            for (gap, what, nested) in plan {
                if gap > 0 {
                    sleep(gap);
                }
                let h: &ThreadPool = mine.as_ref().unwrap_or(&p);
                let id = new_id();
                if nested {
                    // a task that submits another one to its own pool
                    let inner = new_id();
                    let outer = p.clone();
                    let job = Box::new(move || {
                        let r = Running::enter(id);
                        submit(&outer, inner, what, None, 5 * SEC);
                        st().done[id] += 1;
                        drop(r);
                    });
                    if submit_job(h, id, job, Some(queue), 5 * SEC) {
                        probe("nested_submission");
                    }
                } else {
                    submit(h, id, what, Some(queue), 5 * SEC);
                }
            }
        }));
    }
    if !wait_until(60 * SEC, || hs.iter().all(|h| h.done())) {
        fail("a submission never returned", "");
    }
    drain(size, 60 * SEC);
    ok(format!("{sched} size={size} queue={queue} submitters={submitters} tasks={}", st().next));
}

/// T01/T02: one submitter hits the moment at which a worker turns idle
pub fn handoff() {
    let sched = swarm_sched();
    let size = size_of(3);
    let mut queue = wr(1, 4) as usize;
    let pool = mk(size, &mut queue);
    let rounds = wr(1, 12);
    for _ in 0..rounds {
        let n = wr(1, (size + queue.min(20) + 1) as u64);
        for _ in 0..n {
            let g = gaps();
            if g > 0 {
                sleep(g);
            }
            let what = durs();
            submit(&pool, new_id(), what, Some(queue), 5 * SEC);
        }
        match w(3) {
            0 => {}
            1 => sleep(pick(&[10 * US, 200 * US, 10 * MS])),
            _ => {
                // wait until all of it is done, then check nothing is left over
                let all = accepted();
                if !wait_until(60 * SEC, || all.iter().all(|i| st().done[*i] == 1)) {
                    let lost: Vec<usize> = all.into_iter().filter(|i| st().ran[*i] == 0).collect();
                    fail("an accepted task never ran", format!("tasks {lost:?} while the pool is idle, size {size}"));
                }
            }
        }
    }
    drain(size, 60 * SEC);
    ok(format!("{sched} size={size} queue={queue} rounds={rounds} tasks={}", st().next));
}

/// T01/T02: several submitters hit the one moment at which all workers turn
/// idle; what they submit is gated, so that nothing passed over is made up for
pub fn rush() {
    let sched = swarm_sched();
    let size = wr(1, 3) as usize;
    let mut queue = wr(2, 6) as usize;
    let pool = std::sync::Arc::new(mk(size, &mut queue));
    let rounds = wr(1, 10);
    for _ in 0..rounds {
        let t = now() + 5 * MS + stalled();
        for _ in 0..wr(1, size as u64) {
            submit(&pool, new_id(), Do::Until(t + pick(&[0, 0, 300, 2 * US])), Some(queue), 5 * SEC);
        }
        let hs: Vec<Handle> = (0..wr(2, 4))
            .map(|n| {
                let (p, at) = (pool.clone(), t + pick(&[0, 0, 0, 500, 3 * US, 20 * US]));
                let what = if wchance(1, 6) { Do::Nothing } else { Do::Gate(3000 * SEC) };
                spawn(&format!("sub{n}"), move || {
                    sleep(at.saturating_sub(now()));
                    submit(&p, new_id(), what, Some(queue), 5 * SEC);
                })
            })
            .collect();
        if !wait_until(60 * SEC, || hs.iter().all(|h| h.done())) {
            fail("a submission never returned", "");
        }
        settle(SEC);
        let open: Vec<usize> = accepted().into_iter().filter(|i| st().done[*i] == 0).collect();
        let running = st().running;
        check_counts(size);
        if running != open.len().min(size) {
            fail(
                "a task waits while a thread is free",
                format!("at rest {running} tasks run of {} accepted and unfinished ones, pool size {size}, queue {queue}", open.len()),
            );
        }
        for i in &open {
            st().gate[*i] = true;
        }
        if !wait_until(60 * SEC, || open.iter().all(|i| st().done[*i] == 1)) {
            fail("an accepted task never ran", format!("of {open:?}, size {size}"));
        }
    }
    drain(size, 60 * SEC);
    full_parallel(&pool, size, "after the rush");
    ok(format!("{sched} size={size} queue={queue} rounds={rounds} tasks={}", st().next));
}

/// T01: tasks keep coming, so that there is always another one to choose; no
/// accepted one is passed over for ever
pub fn sustained() {
    let sched = swarm_sched();
    let size = wr(1, 3) as usize;
    let mut queue = wr(3, 12) as usize;
    let pool = std::sync::Arc::new(mk(size, &mut queue));
    let queue = queue.min(12);
    let last = many(60, 90);
    let feeders = wr(1, 2);
    let each = pick(&[100 * US, MS, 5 * MS]);
    let total = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    let mut hs = vec![];
    for n in 0..feeders {
        let (p, total) = (pool.clone(), total.clone());
        hs.push(spawn(&format!("feeder{n}"), move || loop {
            if total.fetch_add(1, std::sync::atomic::Ordering::SeqCst) >= last {
                break;
            }
            if !wait_until(60 * SEC, || st().waiting < queue as i64) {
                let s = st();
                fail("a task waits while a thread is free", format!("{} of {size} running, {} waiting", s.running, s.waiting));
            }
            submit(&p, new_id(), Do::Sleep(each), Some(queue), 5 * SEC);
        }));
    }
    if !wait_until(300 * SEC, || hs.iter().all(|h| h.done())) {
        fail("a submission never returned", "");
    }
    drain(size, 60 * SEC);
    let s = st();
    // the tasks started before one and submitted after it was accepted
    let allow = 4 * (queue + size) + (2 * stalled() / each) as usize * size;
    for (at, id) in s.order.iter().enumerate() {
        let passed = s.order[..at].iter().filter(|o| s.begun[**o] > s.taken[*id]).count();
        if passed > allow {
            fail(
                "an accepted task is passed over again and again",
                format!("{passed} tasks submitted after task {id} started before it, size {size} queue {queue}"),
            );
        }
    }
    ok(format!("{sched} size={size} queue={queue} tasks={last} of {each} ns"));
}

/// T02: gated tasks; the state at rest is known exactly
/// T02: sizes far beyond the usual: exactly `size` at once, exactly `queue`
/// more waiting, not one more.
fn large() {
    probe("large");
    crate::rt::kernel::k().cfg.edge_budget = 1_000_000_000;
    let sched = swarm_sched();
    let (size, mut queue) = match w(3) {
        0 => (wr(30, 130) as usize, wr(1, 4) as usize),
        1 => (wr(1, 4) as usize, wr(200, 1200) as usize),
        _ => (wr(1, 3) as usize, wr(1200, 6000) as usize),
    };
    let pool = mk_of(w(3), size, &mut queue);
    let mut ids = vec![];
    // one by one into idle threads, so that none of the queue is taken up
    for n in 0..size + queue {
        let id = new_id();
        if !submit(&pool, id, Do::Gate(30_000 * SEC), Some(queue), 20 * SEC) {
            fail("a task was refused although the queue was not full", format!("{n} unfinished, size {size}, queue {queue}"));
        }
        ids.push(id);
        if n < size || n % 500 == 0 {
            settle(SEC);
            let want = (n + 1).min(size);
            if st().running != want {
                fail("a task waits while a thread is free", format!("{} run of {}, size {size}", st().running, n + 1));
            }
        }
    }
    if submit(&pool, new_id(), Do::Nothing, Some(queue), 20 * SEC) {
        fail("a task was accepted beyond the queue's capacity", format!("size {size} queue {queue}"));
    }
    drain(size, 600 * SEC);
    full_parallel(&pool, size, "after the load");
    ok(format!("{sched} large size={size} queue={queue}"));
}

pub fn parallelism() {
    if w(120) == 0 {
        return large();
    }
    let sched = swarm_sched();
    let size = size_of(5);
    let mut queue = if w(16) == 0 { wr(20, 80) as usize } else { wr(1, 6) as usize };
    let pool = mk(size, &mut queue);
    if starry_glue::pool_size(&pool) != size {
        fail("size() is not the configured size", format!("{} {size}", starry_glue::pool_size(&pool)));
    }
    let steps = wr(2, 30);
    let mut live: Vec<usize> = vec![];
    for _ in 0..steps {
        match w(4) {
            0 | 1 => {
                let n = wr(1, 4);
                for _ in 0..n {
                    let id = new_id();
                    // opening a gate and submitting may collide: no settling in between
                    if submit(&pool, id, Do::Gate(3000 * SEC), Some(queue), 5 * SEC) {
                        live.push(id);
                    }
                    if wchance(1, 3) {
                        sleep(gaps() + 1);
                    }
                }
            }
            2 => {
                let run: Vec<usize> = live.iter().copied().filter(|i| st().ran[*i] == 1 && !st().gate[*i]).collect();
                if !run.is_empty() {
                    let n = wr(1, run.len() as u64);
                    for _ in 0..n {
                        let i = run[w(run.len() as u64) as usize];
                        st().gate[i] = true;
                    }
                    if wchance(1, 2) {
                        sleep(gaps() + 1);
                    }
                }
            }
            _ => {
                settle(SEC);
                live.retain(|i| st().done[*i] == 0);
                let open = live.len();
                let running = st().running;
                check_counts(size);
                if running != open.min(size) {
                    fail(
                        "a task waits while a thread is free",
                        format!("at rest {running} tasks run of {open} accepted and unfinished ones, pool size {size}, queue {queue}"),
                    );
                }
                probe("rest_checked");
                if open > size {
                    probe("rest_with_waiting");
                }
                if open == size + queue {
                    probe("rest_full");
                    if submit(&pool, new_id(), Do::Nothing, Some(queue), 5 * SEC) {
                        fail("a task was accepted beyond the queue's capacity", format!("size {size} queue {queue}"));
                    }
                }
            }
        }
    }
    // fill it to the brim from rest
    settle(SEC);
    live.retain(|i| st().done[*i] == 0);
    let mut open = live.len();
    while open < size + queue {
        let id = new_id();
        if !submit(&pool, id, Do::Gate(3000 * SEC), Some(queue), 5 * SEC) {
            fail("a task was refused although the queue was not full", format!("{open} unfinished, size {size}, queue {queue}"));
        }
        open += 1;
        if wchance(1, 2) {
            settle(SEC);
        }
    }
    settle(SEC);
    if st().running != size {
        fail("a task waits while a thread is free", format!("{} run of {open}, size {size}", st().running));
    }
    if submit(&pool, new_id(), Do::Nothing, Some(queue), 5 * SEC) {
        fail("a task was accepted beyond the queue's capacity", format!("size {size} queue {queue}"));
    }
    drain(size, 60 * SEC);
    full_parallel(&pool, size, "after the load");
    ok(format!("{sched} size={size} queue={queue} steps={steps} tasks={}", st().next));
}

/// T02: several submitters against a loaded pool
pub fn contention() {
    let sched = swarm_sched();
    let size = size_of(4);
    let mut queue = wr(1, 5) as usize;
    let pool = std::sync::Arc::new(mk(size, &mut queue));
    let submitters = if w(16) == 0 { wr(5, 10) } else { wr(2, 4) };
    let mut hs = vec![];
    for n in 0..submitters {
        let plan: Vec<(u64, Do)> = (0..many(1, 8)).map(|_| (gaps(), durs())).collect();
        let p = pool.clone();
        hs.push(spawn(&format!("sub{n}"), move || {
            for (gap, what) in plan {
                if gap > 0 {
                    sleep(gap);
                }
                submit(&p, new_id(), what, Some(queue), 5 * SEC);
            }
        }));
    }
    if !wait_until(60 * SEC, || hs.iter().all(|h| h.done())) {
        fail("a submission never returned", "");
    }
    drain(size, 60 * SEC);
    full_parallel(&pool, size, "after contention");
    ok(format!("{sched} size={size} queue={queue} submitters={submitters} tasks={}", st().next));
}

fn panics_impl(spawn_faults: bool) -> String {
    let sched = swarm_sched();
    let size = size_of(4);
    let mut queue = pick(&[1, 3, 8, 40]);
    let pool = std::sync::Arc::new(mk(size, &mut queue));
    if spawn_faults {
        let (n, d) = pick(&[(1, 4), (1, 2), (7, 8)]);
        fault_rate("thread_spawn_eagain", n, d, pick(&[1, 2, 5, 30]));
        faults(true);
    }
    let p_panic = pick(&[1, 2, 4, 8]);
    let submitters = wr(1, 3);
    let mut hs = vec![];
    for n in 0..submitters {
        let plan: Vec<(u64, Do)> = (0..many(1, 10))
            .map(|_| {
                let g = gaps();
                let d = if wchance(p_panic, 8) { Do::Panic(pick(&[0, 0, 10 * US, MS])) } else { durs() };
                (g, d)
            })
            .collect();
        let p = pool.clone();
        hs.push(spawn(&format!("sub{n}"), move || {
            for (gap, what) in plan {
                if gap > 0 {
                    sleep(gap);
                }
                submit(&p, new_id(), what, Some(queue), 30 * SEC);
            }
        }));
    }
    if !wait_until(120 * SEC, || hs.iter().all(|h| h.done())) {
        fail("a submission never returned", "");
    }
    drain(size, 120 * SEC);
    if spawn_faults && wchance(1, 2) {
        faults(false);
    }
    sleep(SEC);
    full_parallel(&pool, size, "after panics");
    if wchance(1, 2) {
        // all at once, then again
        settle(SEC);
        let ids: Vec<usize> = (0..size).map(|_| new_id()).collect();
        for i in &ids {
            submit(&pool, *i, Do::Panic(MS), None, 30 * SEC);
        }
        if !wait_until(20 * SEC, || ids.iter().all(|i| st().done[*i] == 1)) {
            fail("an accepted task never ran", "simultaneous panics");
        }
        sleep(5 * SEC);
        full_parallel(&pool, size, "after every thread panicked");
        probe("all_threads_panicked");
    }
    format!("{sched} size={size} queue={queue} submitters={submitters} tasks={}", st().next)
}
pub fn panics() {
    let d = panics_impl(false);
    ok(d)
}
pub fn panics_spawn_fail() {
    let d = panics_impl(true);
    ok(d)
}

/// T04: drop the last handle at any moment
pub fn shutdown() {
    let sched = swarm_sched();
    let size = size_of(4);
    let mut queue = pick(&[1, 3, 8, 40]);
    let pool = mk(size, &mut queue);
    let handles = wr(1, 3) as usize;
    let mut hv = vec![];
    for _ in 1..handles {
        let c = as_sut(|| pool.clone());
        hv.push(c);
    }
    hv.push(pool);
    let mut hs = vec![];
    let early = wchance(1, 3) && handles > 1;
    for (n, h) in hv.into_iter().enumerate() {
        let mut plan: Vec<(u64, Do)> = (0..if w(16) == 0 { w(72) } else { w(9) })
            .map(|_| {
                let g = gaps();
                let d = if wchance(1, 10) { Do::Panic(pick(&[0, 10 * US])) } else { durs() };
                (g, d)
            })
            .collect();
        if early && n == 0 {
            plan.clear();
        }
        let last = gaps();
        hs.push(spawn(&format!("user{n}"), move || {
            for (gap, what) in plan {
                if gap > 0 {
                    sleep(gap);
                }
                submit(&h, new_id(), what, Some(queue), 30 * SEC);
            }
            if last > 0 {
                sleep(last);
            }
            note("drops its handle");
            let t0 = now();
            as_sut(|| starry_glue::pool_drop(h));
            if now() - t0 > 30 * SEC {
                fail("dropping a pool handle blocks", "");
            }
        }));
    }
    if !wait_until(120 * SEC, || hs.iter().all(|h| h.done())) {
        fail("dropping a pool handle never returned", "");
    }
    drain(size, 120 * SEC);
    gone("the last handle was dropped");
    ok(format!("{sched} size={size} queue={queue} handles={handles} tasks={}", st().next));
}

/// T04: handles cloned and dropped concurrently; while one is left the pool
/// works, afterwards it is gone
pub fn clone_storm() {
    let sched = swarm_sched();
    let size = size_of(3);
    let mut queue = wr(1, 8) as usize;
    let pool = std::sync::Arc::new(mk(size, &mut queue));
    let users = if w(16) == 0 { wr(5, 10) } else { wr(2, 4) };
    let mut hs = vec![];
    for n in 0..users {
        let plan: Vec<(u64, bool, u64)> = (0..wr(1, 12)).map(|_| (w(3), wchance(1, 4), pick(&[0, 0, 0, US]))).collect();
        let p = pool.clone();
        hs.push(spawn(&format!("cloner{n}"), move || {
            let mut mine: Vec<ThreadPool> = vec![];
            for (op, run, gap) in plan {
                if gap > 0 {
                    sleep(gap);
                }
                match op {
                    0 => mine.push(as_sut(|| ThreadPool::clone(&p))),
                    1 => drop(mine.pop().map(|h| as_sut(|| starry_glue::pool_drop(h)))),
                    _ => as_sut(|| starry_glue::pool_drop(ThreadPool::clone(&p))),
                }
                if run {
                    submit(&p, new_id(), Do::Nothing, Some(queue), 30 * SEC);
                }
            }
            for h in mine {
                as_sut(|| starry_glue::pool_drop(h));
            }
        }));
    }
    if !wait_until(60 * SEC, || hs.iter().all(|h| h.done())) {
        fail("cloning or dropping a pool handle never returned", "");
    }
    drain(size, 60 * SEC);
    full_parallel(&pool, size, "after other handles were dropped");
    let Ok(last) = std::sync::Arc::try_unwrap(pool) else { inconclusive("handle still shared") };
    as_sut(|| starry_glue::pool_drop(last));
    gone("the last handle was dropped");
    ok(format!("{sched} size={size} queue={queue} users={users} tasks={}", st().next));
}

/// T04: a handle dropped from inside a task, and a surviving clone
pub fn drop_inside() {
    let sched = swarm_sched();
    let size = size_of(3);
    let mut queue = wr(1, 8) as usize;
    let pool = mk(size, &mut queue);
    let keep = as_sut(|| pool.clone());
    let d = durs();
    submit(&keep, new_id(), d, Some(queue), 30 * SEC);
    let id = new_id();
    let inner = new_id();
    let with_inner = wchance(1, 2);
    let delay = gaps();
    let job = Box::new(move || {
        let _mine = crate::rt::mem::In::new();
        let r = Running::enter(id);
        if delay > 0 {
            sleep(delay);
        }
        if with_inner {
            submit(&pool, inner, Do::Sleep(MS), None, 30 * SEC);
        }
        as_sut(|| starry_glue::pool_drop(pool));
        st().done[id] += 1;
        drop(r);
    });
    submit_job(&keep, id, job, Some(queue), 30 * SEC);
    if wchance(1, 2) {
        // the surviving handle must be untouched by the other's drop
        sleep(pick(&[0, 10 * US, 5 * MS, 100 * MS]) + 1);
        for _ in 0..wr(1, 5) {
            let d = durs();
            submit(&keep, new_id(), d, Some(queue), 30 * SEC);
        }
        if wchance(1, 2) {
            settle(SEC);
            full_parallel(&keep, size, "after another handle was dropped");
        }
    }
    as_sut(|| starry_glue::pool_drop(keep));
    drain(size, 120 * SEC);
    gone("the last handle was dropped");
    ok(format!("{sched} size={size} queue={queue} tasks={}", st().next));
}

/// T04: pools come and go; what one leaves behind adds up
pub fn come_and_go() {
    let sched = swarm_sched();
    let rounds = wr(9, 14);
    let mut sizes = vec![];
    for _ in 0..rounds {
        let size = size_of(3);
        sizes.push(size);
        let mut queue = wr(1, 6) as usize;
        let pool = mk(size, &mut queue);
        for _ in 0..wr(1, 6) {
            let d = if wchance(1, 10) { Do::Panic(pick(&[0, 10 * US])) } else { durs() };
            submit(&pool, new_id(), d, Some(queue), 30 * SEC);
        }
        let g = gaps();
        if g > 0 {
            sleep(g);
        }
        as_sut(|| starry_glue::pool_drop(pool));
        drain(size, 120 * SEC);
    }
    gone("the last handle was dropped");
    ok(format!("{sched} pools={sizes:?} tasks={}", st().next));
}

/// T04: the pool is dropped while threads that died cannot be replaced yet
pub fn drop_unhealed() {
    let sched = swarm_sched();
    let size = size_of(4);
    let mut queue = pick(&[1, 3, 8, 40]);
    let pool = mk(size, &mut queue);
    fault_rate("thread_spawn_eagain", 1, pick(&[1, 1, 2]), pick(&[1, 5, 30, 1000]));
    faults(true);
    for _ in 0..wr(1, 10) {
        let d = if wchance(1, 2) { Do::Panic(pick(&[0, 10 * US, MS])) } else { durs() };
        submit(&pool, new_id(), d, Some(queue), 30 * SEC);
        let g = gaps();
        if g > 0 {
            sleep(g);
        }
    }
    sleep(pick(&[0, 0, MS, 30 * MS, SEC]));
    as_sut(|| starry_glue::pool_drop(pool));
    sleep(pick(&[0, MS, 100 * MS, 2 * SEC]));
    calm();
    drain(size, 120 * SEC);
    gone("the last handle was dropped");
    ok(format!("{sched} size={size} queue={queue} tasks={}", st().next));
}

/// T04: creation that fails half-way leaves nothing behind
pub fn create_fails() {
    let sched = swarm_sched();
    let size = wr(1, 6) as usize;
    fault_rate("thread_spawn_eagain", 1, pick(&[2, 4, 8]), 1);
    faults(true);
    let kind = w(3);
    st().kind = kind;
    st().max_running = 0;
    let r = as_sut(|| starry_glue::pool_new(kind, size, 4));
    calm();
    match r {
        Ok(p) => {
            full_parallel(&p, size, "after creation");
            as_sut(|| starry_glue::pool_drop(p));
        }
        Err(e) => {
            probe("create_failed");
            note(format!("{e}"));
            drop(e);
        }
    }
    gone("creation failed or the pool was dropped");
    ok(format!("{sched} size={size}"));
}

/// T05: threads started one by one, joined, left alone, refused
pub fn threads() {
    let sched = swarm_sched();
    let n = wr(1, 8) as usize;
    let refusing = wchance(1, 2);
    if refusing {
        fault_rate("thread_spawn_eagain", 1, pick(&[1, 2, 4]), wr(1, 6));
        faults(true);
    }
    let mut handles: Vec<(usize, Option<std::thread::JoinHandle<u64>>, bool)> = vec![];
    let mut refused = vec![];
    let mut out = String::new();
    for i in 0..n {
        let kind = w(3);
        let name = match w(4) {
            0 => String::new(),
            1 => "worker".to_string(),
            2 => format!("{}-{i}", "a-long-name-for-a-thread".repeat(wr(1, 6) as usize)),
            _ => format!("\u{7ebf}\u{7a0b}.{i}"),
        };
        let stack = pick(&[0usize, 0, 256 << 10, 1 << 20, 8 << 20]);
        let deep_one = kind == 2 && stack == 8 << 20 && wchance(1, 2);
        let dies = wchance(1, 5);
        let naps = pick(&[0, 0, 0, 10 * US, MS, 700 * MS, 5 * SEC]);
        let g = gaps();
        if g > 0 {
            sleep(g);
        }
        let id = new_id();
        let want = (kind > 0).then(|| name.clone());
        let f = Box::new(move || {
            note(format!("thread {id} runs"));
            st().ran[id] += 1;
            let me = std::thread::current();
            if me.name() != want.as_deref() {
                fail("a thread has the wrong name", format!("{:?}, asked for {want:?}", me.name()));
            }
            if naps > 0 {
                let t = now();
                let still = stalled();
                starry_glue::thread_sleep(std::time::Duration::from_nanos(naps));
                let d = now() - t;
                if d < naps || d > naps + SEC + (stalled() - still) {
                    fail("a sleep took another time than asked for", format!("{d} ns, asked for {naps}"));
                }
            }
            if deep_one {
                probe("deep_thread");
                deep(56);
            }
            st().done[id] += 1;
            if dies {
                boom(id, format!("thread {id}"));
            }
            id as u64 * 7 + 1
        });
        let t = now();
        let still = stalled();
        match as_sut(|| starry_glue::thread_spawn(kind, name.clone(), stack, f)) {
            Ok(h) => {
                if wchance(1, 3) {
                    drop(h);
                    handles.push((id, None, dies));
                } else {
                    handles.push((id, Some(h), dies));
                }
            }
            Err(e) => {
                if !refusing {
                    fail("a thread could not be started", format!("{e}"));
                }
                probe("thread_refused");
                note(format!("{e}"));
                refused.push(id);
            }
        }
        if now() - t > SEC + (stalled() - still) {
            fail("starting a thread took as long as the thread runs", format!("{} ns, the thread sleeps {naps}", now() - t));
        }
        out += &format!(" {kind}");
    }
    calm();
    while !handles.is_empty() {
        let (id, h, dies) = handles.swap_remove(w(handles.len() as u64) as usize);
        if let Some(h) = h {
            match (as_sut(|| starry_glue::thread_join(h)), dies) {
                (Ok(v), false) if v == id as u64 * 7 + 1 => {}
                (Err(_), true) => probe("thread_panicked"),
                (r, _) => fail("joining a thread gives back something else than its result", format!("thread {id}: {:?}, panics: {dies}", r.ok())),
            }
        } else if !wait_until(60 * SEC, || st().done[id] == 1) {
            fail("a thread that was started never ran to its end", format!("thread {id}"));
        }
        if st().ran[id] != 1 || st().done[id] != 1 {
            fail("a thread did not run its closure exactly once", format!("thread {id}: {}", st().ran[id]));
        }
    }
    if !wait_until(20 * SEC, || live_sut_threads() == 0) {
        fail("a thread outlives its closure", format!("{} alive", live_sut_threads()));
    }
    for id in refused {
        if st().ran[id] != 0 {
            fail("a closure ran though starting its thread was refused", format!("thread {id}"));
        }
    }
    ok(format!("{sched} threads{out}"));
}

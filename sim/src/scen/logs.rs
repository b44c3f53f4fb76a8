//! Logging scenarios: starry's log configuration (with log4rs below it) on a
//! disk that fails and in processes that are killed and restarted.
use crate::rt::kernel::k;
use crate::sim::*;
use log::{Level, LevelFilter};
use starry::utils::log::LogModule;
use std::collections::{BTreeMap, BTreeSet};

const LEVELS: [Level; 5] = [Level::Error, Level::Warn, Level::Info, Level::Debug, Level::Trace];
const FILTERS: [LevelFilter; 6] = [LevelFilter::Off, LevelFilter::Error, LevelFilter::Warn, LevelFilter::Info, LevelFilter::Debug, LevelFilter::Trace];
const TARGETS: [&str; 13] = ["x", "app", "app::db", "app::dbx", "app::db::deep", "net-io", "net-io::tcp", "app::web", "n", "net_io", "p5", "p9::sub", "p11"];
const PKGS: [&[&str]; 3] = [
    &["app::db", "net-io", "app::web", "p3", "p4", "p5", "p6", "p7", "p8", "p9", "p10", "p11"],
    &["app", "app::db", "app::db::deep"],
    &["app::db::deep", "net-io::tcp", "app"],
];

const LOST: &str = "a log record is missing";
const DAMAGED: &str = "a log record is damaged";
const TWICE: &str = "a log record was written more than once";
const WHERE: &str = "a log record is in the wrong file or was not asked for";
const ORDER: &str = "log records are out of order";
const SIZE: &str = "a log file exceeds its maximum size";
const EXTRA: &str = "unexpected files in the log directory";
const EARLY: &str = "a log file was rotated before it was full";
const BLOCKED: &str = "a logging call did not return";

#[derive(Clone, Copy)]
#[repr(C)]
struct Rec {
    start: u64,
    done: u64,
    phase: u32,
    thread: u32,
    size: u32,
    target: u8,
    level: u8,
    /// faults may have hit it
    shaky: bool,
}
/// What callers of the logger saw; survives the processes.
#[repr(C)]
struct Board {
    seq: u64,
    n: usize,
    recs: [Rec; 600],
    nconf: usize,
    /// index into the scenario's configurations, start, end of the call
    confs: [(usize, u64, u64); 64],
}
impl Board {
    fn tick(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }
}
static mut BOARD: *mut Board = std::ptr::null_mut();
fn board() -> &'static mut Board {
    unsafe {
        if BOARD.is_null() {
            BOARD = outside::<Board>();
        }
        &mut *BOARD
    }
}

/// The text of record `id`: short ones carry what an encoder must escape.
fn text(id: usize, size: u32) -> String {
    let mut s = format!("r{id}:");
    if size < 400 {
        let v = ["plain ", "quote\" ", "line\n", "tab\t", "back\\ ", "\u{4e2d}\u{6587} ", "{} ", "\u{0}\u{1f}"];
        let mut i = id;
        while s.len() < size as usize {
            s.push_str(v[i % v.len()]);
            i = i / 2 + size as usize + s.len();
        }
    } else {
        s.push_str(&["a", "b", "c", "d", "e", "f", "g"][id % 7].repeat(size as usize));
        s.push_str("end");
    }
    s
}

fn emit(thread: u32, phase: u32, target: usize, level: usize, size: u32, shaky: bool) -> usize {
    let b = board();
    let id = b.n;
    if id >= b.recs.len() {
        inconclusive("too many records");
    }
    b.n += 1;
    let start = b.tick();
    b.recs[id] = Rec { start, done: 0, phase, thread, size, target: target as u8, level: level as u8, shaky };
    let t = text(id, size);
    note(format!("log r{id} {} {} {size}", TARGETS[target], LEVELS[level]));
    as_sut(|| log::log!(target: TARGETS[target], LEVELS[level], "{}", t));
    b.recs[id].done = b.tick();
    id
}

#[derive(Clone, Debug)]
struct Conf {
    main: LogModule,
    mods: Vec<LogModule>,
}
fn apply(ci: usize, c: &Conf) {
    let b = board();
    let i = b.nconf;
    b.nconf += 1;
    b.confs[i] = (ci, b.tick(), u64::MAX);
    let (m, v) = (c.main.clone(), c.mods.clone());
    note(format!("config {ci}"));
    as_sut(move || m.config_log(v));
    b.confs[i].2 = b.tick();
}

/// A log file with its rotated ones.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct File {
    dir: String,
    name: String,
    mb: u64,
    count: u32,
}
fn file_of(c: &Conf, m: &LogModule) -> File {
    File {
        dir: if m.dir.is_empty() { c.main.dir.clone() } else { m.dir.clone() },
        name: m.name.clone(),
        mb: if m.file_max_size == 0 { c.main.file_max_size } else { m.file_max_size },
        count: if m.file_max_count == 0 { c.main.file_max_count } else { m.file_max_count },
    }
}
fn files_of(c: &Conf) -> Vec<File> {
    let mut v = vec![file_of(c, &c.main)];
    v.extend(c.mods.iter().map(|m| file_of(c, m)));
    v
}
/// The files a record belongs into.
fn route(c: &Conf, target: usize, level: usize) -> BTreeSet<(String, String)> {
    let t = TARGETS[target];
    let key = |m: &LogModule| {
        let f = file_of(c, m);
        (f.dir, f.name)
    };
    // the module with the longest path that fits, and those it adds to
    let mut fit: Vec<&LogModule> = c.mods.iter().filter(|m| t == m.pkg || t.starts_with(&format!("{}::", m.pkg))).collect();
    fit.sort_by_key(|m| std::cmp::Reverse(m.pkg.len()));
    fit.push(&c.main);
    let mut out = BTreeSet::new();
    if LEVELS[level] <= fit[0].level {
        for m in fit {
            out.insert(key(m));
            if !m.additive {
                break;
            }
        }
    }
    out
}
fn draw_conf(n: usize, sizes: &[u64], counts: &[u32], dirs: &[&str]) -> Conf {
    let main = LogModule {
        name: pick(&["main", "app.web", "m"]).to_string(),
        pkg: String::new(),
        level: FILTERS[5 - w(6).min(5) as usize],
        additive: true,
        dir: pick(dirs).to_string(),
        file_max_size: pick(sizes),
        file_max_count: pick(counts),
    };
    let mut mods = vec![];
    // mostly beside each other, now and then one inside another
    let mut pkgs = PKGS[[0, 0, 1, 2][w(4) as usize]];
    let mut n = w(n as u64 + 1) as usize;
    if wchance(1, 16) {
        probe("many_modules");
        pkgs = PKGS[0];
        n = wr(4, 12) as usize;
    }
    for i in 0..n {
        mods.push(LogModule {
            name: format!("{}{i}", pick(&["mod", "side-"])),
            pkg: pkgs[i].to_string(),
            level: FILTERS[5 - w(6).min(5) as usize],
            additive: wchance(1, 2),
            dir: if wchance(1, 2) { String::new() } else { pick(dirs).to_string() },
            file_max_size: pick(&[0, 0, 1]),
            file_max_count: pick(&[0, 0, 1, 3]),
        });
    }
    Conf { main, mods }
}

/// One file group as found on disk, oldest line first.
#[derive(Default)]
struct Found {
    /// record id and the file index it was found in (0: the live file)
    lines: Vec<(usize, u32)>,
    /// lines that are no whole record
    scraps: Vec<Vec<u8>>,
    /// bytes of each file, and of its last line
    sizes: BTreeMap<u32, (u64, u64)>,
}
/// Whole records in `line`; None when it is not exactly one.
fn parse(line: &[u8]) -> Option<usize> {
    let v: serde_json::Value = serde_json::from_slice(line).ok()?;
    let m = v.get("message")?.as_str()?;
    let id: usize = m.strip_prefix('r')?.split(':').next()?.parse().ok()?;
    let b = board();
    if id >= b.n {
        fail(DAMAGED, format!("record {id} was never logged"));
    }
    let r = b.recs[id];
    let want = (text(id, r.size), LEVELS[r.level as usize].to_string(), TARGETS[r.target as usize]);
    if m != want.0 || v.get("level").and_then(|l| l.as_str()) != Some(&want.1) || v.get("target").and_then(|l| l.as_str()) != Some(want.2) {
        fail(DAMAGED, format!("record {id} reads {}", crate::scen::web::show(line)));
    }
    Some(id)
}
fn read_file(f: &File, index: u32, out: &mut Found) {
    let p = if index == 0 { format!("{}/{}.log", f.dir, f.name) } else { format!("{}/{}-log-{index}.log", f.dir, f.name) };
    let Ok(data) = std::fs::read(&p) else { return };
    let body = data.strip_suffix(b"\n").unwrap_or(&data);
    let tail = data.len() - body.iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1);
    out.sizes.insert(index, (data.len() as u64, tail as u64));
    for l in data.split(|c| *c == b'\n') {
        if l.is_empty() {
            continue;
        }
        if let Some(id) = parse(l) {
            out.lines.push((id, index));
            continue;
        }
        // a record behind a scrap on the same line
        let mut at = l.len();
        let mut hit = None;
        while let Some(p) = l[..at].windows(8).rposition(|w| w == b"{\"time\":") {
            if let Some(id) = parse(&l[p..]) {
                hit = Some((p, id));
                break;
            }
            at = p;
        }
        match hit {
            Some((p, id)) => {
                out.scraps.push([b"+", &l[..p]].concat());
                out.lines.push((id, index));
            }
            None => out.scraps.push(l.to_vec()),
        }
    }
}
fn read_group(f: &File) -> Found {
    let mut out = Found::default();
    for i in (0..=f.count.max(1)).rev() {
        if i <= f.count {
            read_file(f, i, &mut out);
        }
    }
    out
}
/// Every file below the current directory.
fn tree(dir: &str, out: &mut Vec<String>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    for e in d.flatten() {
        let p = if dir == "." { e.file_name().to_string_lossy().into_owned() } else { format!("{dir}/{}", e.file_name().to_string_lossy()) };
        if e.path().is_dir() {
            tree(&p, out);
        } else {
            out.push(p);
        }
    }
}
fn check_names(files: &[File]) {
    let mut have = vec![];
    tree(".", &mut have);
    for p in have {
        if !files.iter().any(|f| p == format!("{}/{}.log", f.dir, f.name) || (1..=f.count).any(|i| p == format!("{}/{}-log-{i}.log", f.dir, f.name))) {
            fail(EXTRA, p);
        }
    }
}
fn longest(files: u64) -> u64 {
    let b = board();
    b.recs[..b.n].iter().filter(|r| r.thread != PREFILL).map(|r| r.size as u64 * if r.size < 400 { 6 } else { 1 } + 600).max().unwrap_or(0) * files
}

/// What must hold of every file group at any moment at which the process is
/// not running.
fn check_disk(confs: &[Conf], kills: u64) {
    let b = board();
    let mut files: Vec<File> = confs.iter().flat_map(files_of).collect();
    files.sort();
    files.dedup();
    let wants = |r: &Rec| route(&confs[r.phase as usize], r.target as usize, r.level as usize);
    check_names(&files);
    for f in &files {
        let key = (f.dir.clone(), f.name.clone());
        let got = read_group(f);
        let name = format!("{}/{} (max {} MB, {} kept)", f.dir, f.name, f.mb, f.count);
        let mut seen = BTreeSet::new();
        let mut last: BTreeMap<u32, usize> = BTreeMap::new();
        let mut phase = 0;
        for (id, i) in &got.lines {
            let r = &b.recs[*id];
            if !seen.insert(*id) {
                fail(TWICE, format!("r{id} in {name}"));
            }
            if !wants(r).contains(&key) {
                fail(WHERE, format!("r{id} ({} {}) in {name}", TARGETS[r.target as usize], LEVELS[r.level as usize]));
            }
            if r.phase < phase || last.insert(r.thread + r.phase * 100, *id).is_some_and(|x| x > *id) {
                fail(ORDER, format!("r{id} in {name} file {i}"));
            }
            phase = r.phase;
        }
        // a kill leaves at most a piece of the record being written then
        if got.scraps.len() as u64 > kills {
            fail(DAMAGED, format!("{} scraps after {kills} kills in {name}: {}", got.scraps.len(), crate::scen::web::show(&got.scraps[0])));
        }
        if let Some(s) = got.scraps.iter().find(|s| s[0] == b'+') {
            fail("a record shares its line with the remains of another", format!("{name}: {}", crate::scen::web::show(s)));
        }
        let mut missing = 0u64;
        for id in 0..b.n {
            let r = &b.recs[id];
            if seen.contains(&id) || r.done == 0 || !wants(r).contains(&key) {
                continue;
            }
            // it may only have been discarded by rotation: nothing older is left
            if let Some((o, i)) = got.lines.iter().find(|(o, _)| b.recs[*o].done != 0 && b.recs[*o].done < r.start) {
                fail(LOST, format!("r{id} is not in {name} but the older r{o} is, in file {i}"));
            }
            missing += 1;
        }
        let rotated = got.sizes.keys().filter(|i| **i > 0).count() as u64;
        if missing > 0 {
            probe("log.discarded");
            if rotated + kills < f.count as u64 {
                fail(LOST, format!("{missing} records gone from {name} with only {rotated} rotated files"));
            }
        }
        let limit = f.mb << 20;
        for (i, (n, tail)) in &got.sizes {
            // a kill may come between a record and the rotation it brings about
            if kills == 0 && (if *i == 0 { *n } else { n - tail }) > limit {
                fail(SIZE, format!("{name} file {i}: {n} bytes, the last record {tail}"));
            }
            if *n > limit + longest(1 + kills) {
                fail(SIZE, format!("{name} file {i}: {n} bytes"));
            }
            if *i > 0 && *n <= limit {
                fail(EARLY, format!("{name} file {i}: {n} bytes"));
            }
            if *i > 0 {
                probe("log.rotated");
            }
        }
        if kills > 0 && !got.lines.is_empty() {
            probe("log.read_after_kill");
        }
    }
}

fn draw_size(big: bool) -> u32 {
    if big && wchance(3, 4) {
        wr(100_000, 600_000) as u32
    } else {
        pick(&[0, 20, 90, 300, 900, 1100, 5000])
    }
}
/// `n` records from each of some threads; returns when all calls have.
fn writers(threads: u64, each: u64, phase: u32, big: bool, shaky: bool) {
    let mut hs = vec![];
    for t in 0..threads {
        let plan: Vec<(usize, usize, u32, u64)> =
            (0..wr(1, each)).map(|_| (w(TARGETS.len() as u64) as usize, w(5) as usize, draw_size(big), pick(&[0, 0, MS, 30 * MS]))).collect();
        hs.push(spawn("writer", move || {
            for (tg, lv, sz, gap) in plan {
                if gap > 0 {
                    sleep(gap);
                }
                emit(t as u32, phase, tg, lv, sz, shaky);
            }
        }));
    }
    if !wait_until(120 * SEC, || hs.iter().all(|h| h.done())) {
        fail(BLOCKED, "");
    }
}
fn draw_common() -> String {
    k().fs.on = true;
    on_stuck(|d| (crate::rt::shm::V_VIOLATION, BLOCKED.to_string(), d.to_string()));
    swarm_sched()
}

const PREFILL: u32 = 99;
/// What an earlier process left: a file whose next record may be one too many.
fn prefill(conf: &Conf) {
    for f in files_of(conf) {
        let key = (f.dir.clone(), f.name.clone());
        let Some((tg, lv)) = (0..TARGETS.len()).flat_map(|t| (0..5).map(move |l| (t, l))).find(|(t, l)| route(conf, *t, *l) == BTreeSet::from([key.clone()])) else { continue };
        let (dir, name) = &key;
        let room = [300, 4000, 40_000, 400_000][w(4) as usize];
        let b = board();
        let id = b.n;
        b.n += 1;
        let size = ((f.mb << 20) as u32).saturating_sub(room).max(1000);
        b.recs[id] = Rec { start: b.tick(), done: 0, phase: 0, thread: PREFILL, size, target: tg as u8, level: lv as u8, shaky: false };
        b.recs[id].done = b.tick();
        let line = serde_json::json!({"time": "2020-02-02T02:02:02+00:00", "message": text(id, size), "level": LEVELS[lv].to_string(), "target": TARGETS[tg]});
        std::fs::create_dir_all(dir).unwrap();
        std::fs::write(format!("{dir}/{name}.log"), format!("{line}\n")).unwrap();
        probe("log.prefilled");
    }
}

/// Processes that log, are killed at any file operation, and start again.
pub fn crashes() {
    let d = draw_common();
    board();
    let large = wchance(1, 12);
    let sizes: &[u64] = if large { &[2, 3, 5, 8] } else if wchance(1, 2) { &[0] } else { &[1] };
    let counts: &[u32] = if sizes[0] == 0 && wchance(1, 4) { &[6, 9, 12, 20] } else { &[3, 1, 2, 5, 0] };
    let mut conf = draw_conf(3, sizes, counts, &["logs", "logs/deep/er", "other"]);
    if large {
        for m in &mut conf.mods {
            m.file_max_size = pick(&[0, 1, 2]);
        }
    }
    if wchance(3, 4) {
        conf.main.level = LevelFilter::Trace;
    }
    let big = (sizes[0] > 0 && !large) || wchance(1, 8);
    let many = counts[0] == 6;
    let phases = wr(1, 4);
    let mut kills = 0;
    note(format!("{conf:?}"));
    if large || (sizes[0] > 0 && wchance(1, 4)) {
        prefill(&conf);
    }
    // a restart may come with other levels and modules
    let mut confs = vec![conf];
    for _ in 0..phases {
        let mut c = confs[0].clone();
        if wchance(1, 4) {
            probe("log.other_modules_after_restart");
            c.main.level = pick(&[LevelFilter::Trace, LevelFilter::Info, LevelFilter::Error]);
            c.mods.retain(|_| wchance(1, 2));
            for m in &mut c.mods {
                m.level = FILTERS[5 - w(6) as usize];
                m.additive = wchance(1, 2);
            }
        }
        confs.push(c);
    }
    let confs: &[Conf] = &confs;
    for p in 0..phases {
        let (threads, each) = (pick(&[1, 1, 2, 3]), wr(1, if big { 8 } else if many { 25 } else { 6 }));
        let kill_at = if wchance(if many { 1 } else { 3 }, 4) { wr(1, 8 + 8 * threads * each) } else { 0 };
        if phase(kill_at, || {
            apply(0, &confs[p as usize]);
            writers(threads, each, p as u32, big, false);
        }) {
            kills += 1;
        }
        check_disk(confs, kills);
    }
    // and one that is left in peace
    phase(0, || {
        apply(0, &confs[phases as usize]);
        let id = emit(0, phases as u32, 0, 0, 50, false);
        let r = board().recs[id];
        if r.done == 0 {
            fail(BLOCKED, "");
        }
    });
    check_disk(confs, kills);
    ok(format!("{d} phases={phases} kills={kills} records={} {:?}", board().n, confs[0]))
}

/// The configurations that may have been in force during [s, e].
fn in_force(s: u64, e: u64) -> Vec<usize> {
    let b = board();
    let cs = &b.confs[..b.nconf];
    cs.iter().filter(|c| c.1 <= e && !cs.iter().any(|d| d.1 > c.2 && d.2 < s)).map(|c| c.0).collect()
}
fn check_routes(confs: &[Conf]) {
    let b = board();
    let mut groups: BTreeMap<(String, String), File> = BTreeMap::new();
    for f in confs.iter().flat_map(files_of) {
        let e = groups.entry((f.dir.clone(), f.name.clone())).or_insert(f.clone());
        e.count = e.count.max(f.count);
    }
    let all: Vec<File> = groups.values().cloned().collect();
    check_names(&all);
    let mut at: BTreeMap<usize, BTreeSet<(String, String)>> = BTreeMap::new();
    for (key, f) in &groups {
        let got = read_group(f);
        if let Some(s) = got.scraps.first() {
            fail(DAMAGED, format!("{key:?}: {}", crate::scen::web::show(s)));
        }
        for (id, _) in got.lines {
            if !at.entry(id).or_default().insert(key.clone()) {
                fail(TWICE, format!("r{id} in {key:?}"));
            }
        }
    }
    for id in 0..b.n {
        let r = &b.recs[id];
        let got = at.remove(&id).unwrap_or_default();
        let may: Vec<_> = in_force(r.start, r.done).into_iter().map(|c| route(&confs[c], r.target as usize, r.level as usize)).collect();
        if !may.contains(&got) {
            let what = if may.iter().all(|m| m.is_superset(&got)) { LOST } else { WHERE };
            fail(what, format!("r{id} ({} {}) is in {got:?}, not in {may:?}", TARGETS[r.target as usize], LEVELS[r.level as usize]));
        }
        if may.len() > 1 {
            probe("log.during_reconfiguration");
        }
    }
}

struct Bomb;
impl std::fmt::Display for Bomb {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        panic!("this cannot be shown")
    }
}

/// Many threads log while the configuration is replaced.
pub fn reconfigure() {
    let d = draw_common();
    board();
    let n = wr(1, 4) as usize;
    let big = wchance(1, 10);
    let confs: Vec<Conf> = (0..n)
        .map(|_| {
            let mut c = draw_conf(3, if big { &[1] } else { &[1, 0, 7, 1024] }, &[400], &["logs", "logs/deep/er", "other"]);
            for m in &mut c.mods {
                m.file_max_count = 0;
            }
            c
        })
        .collect();
    let confs: &'static Vec<Conf> = Box::leak(Box::new(confs));
    note(format!("{confs:?}"));
    apply(0, &confs[0]);
    let times = if n > 1 { wr(1, 6) } else { w(3) };
    let plan: Vec<(usize, u64)> = (0..times).map(|_| (w(n as u64) as usize, pick(&[0, MS, 20 * MS, 100 * MS]))).collect();
    let h = spawn("reconfigure", move || {
        for (c, gap) in plan {
            sleep(gap);
            apply(c, &confs[c]);
        }
    });
    // what is logged may itself panic while it is being formatted
    let bomb = wchance(1, 8).then(|| {
        let (n, gap) = (wr(1, 3), pick(&[0, MS, 20 * MS]));
        spawn("bomb", move || {
            for _ in 0..n {
                sleep(gap);
                let (tg, lv) = (w(TARGETS.len() as u64) as usize, w(5) as usize);
                let r = as_sut(|| std::panic::catch_unwind(|| log::log!(target: TARGETS[tg], LEVELS[lv], "before {} after", Bomb)));
                probe(if r.is_err() { "log.argument_panicked" } else { "log.argument_unused" });
            }
        })
    });
    writers(wr(1, 4), if big { 4 } else { 10 }, 0, big, false);
    if !wait_until(120 * SEC, || h.done() && bomb.as_ref().map_or(true, |b| b.done())) {
        fail("a configuration call did not return", "");
    }
    for t in 0..TARGETS.len() {
        emit(9, 1, t, w(5) as usize, 40, false);
    }
    check_routes(confs);
    ok(format!("{d} configs={n} times={times} records={} {confs:?}", board().n))
}

/// The disk fails for a while; logging and configuring must take no harm.
pub fn disk_fails() {
    let d = draw_common();
    board();
    let big = wchance(1, 6);
    let confs: Vec<Conf> = (0..2)
        .map(|i| {
            let dirs: &[&str] = if i == 0 { &["logs", "logs/deep/er"] } else { &["logs", "elsewhere", "logs/deep/er"] };
            let mut conf = draw_conf(2, if big { &[1] } else { &[0, 1] }, &[300], dirs);
            if i == 0 || wchance(1, 2) {
                conf.main.level = LevelFilter::Trace;
            }
            for m in &mut conf.mods {
                m.file_max_count = 0;
            }
            conf
        })
        .collect();
    let confs: &'static Vec<Conf> = Box::leak(Box::new(confs));
    let conf = &confs[0];
    note(format!("{confs:?}"));
    let early = wchance(1, 4);
    if !early {
        apply(0, conf);
        writers(wr(1, 2), 5, 0, big, false);
    }
    let kinds = ["disk_open_eio", "disk_rename_eio", "disk_unlink_eio", "disk_mkdir_enospc", "disk_read_eio", "disk_enospc", "disk_write_eio", "disk_short_write"];
    for _ in 0..wr(1, 3) {
        fault_rate(pick(&kinds), pick(&[1, 2, 8]), 8, wr(1, 60));
    }
    faults(true);
    let reconf = early || wchance(1, 2);
    // another configuration, which comes into force as a whole or not at all
    let other = reconf && wchance(1, 2);
    let h = spawn("reconfigure", move || {
        for _ in 0..if reconf { 2 } else { 0 } {
            let c = if other { w(2) as usize } else { 0 };
            apply(c, &confs[c]);
            sleep(20 * MS);
        }
    });
    writers(wr(1, 3), 6, 1, big, true);
    if !wait_until(120 * SEC, || h.done()) {
        fail("a configuration call did not return", "");
    }
    faults(false);
    let again = early || (reconf && wchance(1, 2));
    if again {
        apply(0, conf);
    }
    writers(wr(1, 2), 4, 2, big, false);
    // everything not logged while the disk was failing is there
    let b = board();
    let mut at: BTreeMap<usize, BTreeMap<(String, String), u64>> = BTreeMap::new();
    let groups: BTreeMap<(String, String), File> = confs.iter().flat_map(files_of).map(|f| ((f.dir.clone(), f.name.clone()), f)).collect();
    for (key, f) in groups {
        for (id, _) in &read_group(&f).lines {
            *at.entry(*id).or_default().entry(key.clone()).or_default() += 1;
        }
    }
    let wants = |c: usize, r: &Rec| route(&confs[c], r.target as usize, r.level as usize);
    // the configurations that may be in force by now
    let tried = b.confs[..b.nconf].iter().any(|c| c.0 == 1);
    let mut now: Vec<usize> = if tried && !again { vec![0, 1] } else { vec![0] };
    for id in 0..b.n {
        let r = &b.recs[id];
        let got = at.remove(&id).unwrap_or_default();
        let keys: BTreeSet<(String, String)> = got.keys().cloned().collect();
        // a rotation whose rename fails is done by copying, and what was
        // copied but not removed is there twice
        if r.phase == 2 && got.values().any(|n| *n > 1) {
            fail(TWICE, format!("r{id}: {got:?}"));
        }
        if r.shaky {
            let may: BTreeSet<_> = wants(0, r).into_iter().chain(if tried { wants(1, r) } else { BTreeSet::new() }).collect();
            if !keys.is_subset(&may) {
                fail(WHERE, format!("r{id} (phase {}) is in {keys:?}, not in {may:?}", r.phase));
            }
            if keys.is_empty() && !may.is_empty() {
                probe("log.lost_to_the_disk");
            }
            continue;
        }
        let was = if r.phase == 0 { vec![0] } else { now.clone() };
        let fits: Vec<usize> = was.iter().copied().filter(|c| wants(*c, r) == keys).collect();
        if fits.is_empty() {
            let what = if was.iter().all(|c| wants(*c, r).is_superset(&keys)) { LOST } else { WHERE };
            fail(what, format!("r{id} (phase {}) is in {keys:?}, not in {:?}", r.phase, was.iter().map(|c| wants(*c, r)).collect::<Vec<_>>()));
        }
        if r.phase == 2 {
            now = fits;
        }
    }
    if tried && !again {
        probe(if now.contains(&0) { "log.previous_in_force" } else { "log.other_in_force" });
    }
    ok(format!("{d} records={} {confs:?}", b.n))
}

/// A server logs, and what is logged while it runs goes, where it was told.
pub fn server_logs() {
    use super::web::{any_request, build, encode, must_connect, register_all, serve_wait, show, simple_routes, spec, take_answer, wd};
    let d = draw_common() + &swarm_net();
    board();
    let level = FILTERS[5 - w(6) as usize];
    let dir = pick(&["logs", "logs/deep/er", "srv"]);
    let big = wchance(1, 8);
    let (mb, count) = if big { (1, pick(&[1, 2, 60])) } else { (pick(&[2, 7, 1024]), pick(&[1, 7])) };
    let conf = super::web::Conf { pool: wr(1, 4) as usize, keepalive: 30000, compress: false, trace_log: false };
    let routes = simple_routes();
    let srv = as_sut(|| {
        let mut s = build(&conf);
        s.set_log(level, dir.to_string(), mb, count);
        register_all(&s, &routes);
        s
    });
    serve_wait(&srv);
    let n = wr(1, 4);
    let mut hs = vec![];
    for i in 0..n {
        let plan: Vec<(usize, u64)> = (0..wr(1, 4))
            .map(|_| {
                let id = any_request(&routes);
                let what: Vec<(usize, usize, u32)> = (0..wr(1, 3)).map(|_| (w(TARGETS.len() as u64) as usize, w(5) as usize, draw_size(big))).collect();
                wd().actions.push(Some(Box::new(move || {
                    for (tg, lv, sz) in what {
                        emit(i as u32, 0, tg, lv, sz, false);
                    }
                })));
                let s = spec(id);
                s.plan.action = wd().actions.len();
                s.keep = false;
                (id, pick(&[0, 0, MS, 30 * MS]))
            })
            .collect();
        hs.push(spawn("client", move || {
            for (id, gap) in plan {
                sleep(gap);
                let mut c = must_connect();
                spec(id).port = c.port;
                c.send(&encode(spec(id)));
                take_answer(&mut c, id, 600 * SEC);
            }
        }));
    }
    if wchance(1, 2) {
        writers(wr(1, 2), 5, 0, big, false);
    }
    if !wait_until(2000 * SEC, || hs.iter().all(|h| h.done())) {
        fail(BLOCKED, "a client is still waiting for its answer");
    }
    calm();
    let mut names = vec![];
    tree(".", &mut names);
    let mut at: BTreeMap<usize, u64> = BTreeMap::new();
    let (mut total, mut open) = (0, 0);
    for p in &names {
        if !p.starts_with(&format!("{dir}/")) {
            fail(EXTRA, format!("{p} is not in {dir}"));
        }
        let data = std::fs::read(p).unwrap_or_default();
        let mut last = 0;
        for l in data.split(|c| *c == b'\n').filter(|l| !l.is_empty()) {
            last = l.len() as u64 + 1;
            match parse(l) {
                Some(id) => *at.entry(id).or_default() += 1,
                // one of the server's own
                None if serde_json::from_slice::<serde_json::Value>(l).is_ok_and(|v| v.get("message").is_some()) => {}
                None => fail(DAMAGED, format!("{p}: {}", show(l))),
            }
        }
        let len = data.len() as u64;
        if len.saturating_sub(last) > mb << 20 {
            fail(SIZE, format!("{p}: {len} bytes, the last record {last}"));
        }
        open += u64::from(len <= mb << 20);
        total += len;
    }
    if open > 1 {
        fail(EARLY, format!("{open} of {names:?} are not full"));
    }
    if names.len() as u64 > count as u64 + 1 {
        fail(EXTRA, format!("{names:?} with {count} to be kept"));
    }
    let b = board();
    for id in 0..b.n {
        let r = &b.recs[id];
        let want = u64::from(r.done > 0 && LEVELS[r.level as usize] <= level);
        let got = at.get(&id).copied().unwrap_or(0);
        if got > 1 {
            fail(TWICE, format!("r{id}"));
        }
        if got > want {
            fail(WHERE, format!("r{id} {} was written at level {level}", LEVELS[r.level as usize]));
        }
        // discarded, if as many files as may be kept are full
        if got < want && names.len() as u64 <= count as u64 && names.len() as u64 - open < count as u64 {
            fail(LOST, format!("r{id} {} at level {level} in {names:?}, {total} bytes", LEVELS[r.level as usize]));
        }
    }
    if names.len() > 1 {
        probe("log.server_rotated");
    }
    ok(format!("{d} {} level={level} dir={dir} mb={mb} kept={count} clients={n} records={}", conf.text(), b.n))
}

//! Shared memory through which a run (a forked child) reports to its parent.
use std::sync::atomic::AtomicU32;

pub const LOG_CAP: usize = 8 << 20;
pub const DETAIL_CAP: usize = 1 << 16;
pub const NCOUNT: usize = 192;
pub const COV_CAP: usize = 1 << 18;

#[repr(C)]
pub struct Counter {
    pub name: [u8; 56],
    pub n: u64,
}

pub const V_NONE: u32 = 0; // the run ended without reporting
pub const V_OK: u32 = 1;
pub const V_VIOLATION: u32 = 2;
pub const V_INCONCLUSIVE: u32 = 3;
pub const V_HARNESS: u32 = 4;

#[repr(C)]
pub struct Shm {
    pub verdict: u32,
    pub log_on: u32,
    pub draws: [u64; 4],
    pub trace_hash: u64,
    pub sched_hash: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub edges: u64,
    pub ops: u64,
    pub threads: u32,
    pub class_len: u32,
    pub class: [u8; 256],
    pub detail_len: u32,
    pub detail: [u8; DETAIL_CAP],
    pub ncount: u32,
    pub counts: [Counter; NCOUNT],
    pub log_len: u64,
    pub log: [u8; LOG_CAP],
}

impl Shm {
    pub fn reset(&mut self, log_on: bool) {
        self.verdict = V_NONE;
        self.log_on = log_on as u32;
        self.draws = [0; 4];
        self.trace_hash = 0xcbf29ce484222325;
        self.sched_hash = 0xcbf29ce484222325;
        self.sim_ns = 0;
        self.switches = 0;
        self.preemptions = 0;
        self.edges = 0;
        self.ops = 0;
        self.threads = 0;
        self.class_len = 0;
        self.detail_len = 0;
        for c in &mut self.counts[..self.ncount as usize] {
            c.n = 0;
            c.name = [0; 56];
        }
        self.ncount = 0;
        self.log_len = 0;
    }
    pub fn set_class(&mut self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(256);
        self.class[..n].copy_from_slice(&b[..n]);
        self.class_len = n as u32;
    }
    pub fn set_detail(&mut self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(DETAIL_CAP);
        self.detail[..n].copy_from_slice(&b[..n]);
        self.detail_len = n as u32;
    }
    pub fn class(&self) -> String {
        String::from_utf8_lossy(&self.class[..self.class_len as usize]).into_owned()
    }
    pub fn detail(&self) -> String {
        String::from_utf8_lossy(&self.detail[..self.detail_len as usize]).into_owned()
    }
    pub fn count(&mut self, name: &str, n: u64) {
        let b = name.as_bytes();
        let l = b.len().min(55);
        for i in 0..self.ncount as usize {
            let c = &mut self.counts[i];
            if c.name[l] == 0 && c.name[..l] == b[..l] {
                c.n += n;
                return;
            }
        }
        let i = self.ncount as usize;
        if i < NCOUNT {
            let c = &mut self.counts[i];
            c.name = [0; 56];
            c.name[..l].copy_from_slice(&b[..l]);
            c.n = n;
            self.ncount += 1;
        }
    }
    pub fn counters(&self) -> Vec<(String, u64)> {
        self.counts[..self.ncount as usize]
            .iter()
            .map(|c| {
                let l = c.name.iter().position(|x| *x == 0).unwrap_or(56);
                (String::from_utf8_lossy(&c.name[..l]).into_owned(), c.n)
            })
            .collect()
    }
    pub fn log_line(&mut self, s: &str) {
        let b = s.as_bytes();
        let at = self.log_len as usize;
        if at + b.len() + 1 <= LOG_CAP {
            self.log[at..at + b.len()].copy_from_slice(b);
            self.log[at + b.len()] = b'\n';
            self.log_len += b.len() as u64 + 1;
        }
    }
    pub fn log_text(&self) -> String {
        String::from_utf8_lossy(&self.log[..self.log_len as usize]).into_owned()
    }
}

/// Batch-wide shared state: the work counter and the edge coverage map.
#[repr(C)]
pub struct Batch {
    pub next: AtomicU32,
    pub stop: AtomicU32,
    pub cov: [u8; COV_CAP],
}

pub fn map_shared<T>() -> *mut T {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<T>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        p as *mut T
    }
}

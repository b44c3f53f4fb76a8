//! The single source of randomness of a run.
//!
//! Every decision is drawn from one of a few numbered streams; a stream is a
//! pure function of (seed, stream, index), or, in replay and minimisation, an
//! explicit list of raw values (missing values are 0). A raw value of 0 always
//! means the simplest decision: no fault, no preemption, no delay, the smallest
//! workload.

pub const WORK: usize = 0; // configuration and workload
pub const SCHED: usize = 1; // thread choice, preemption, stalls, wake-up order
pub const NET: usize = 2; // segmentation, latency, short reads
pub const FAULT: usize = 3; // fault injection
pub const NSTREAM: usize = 4;

pub struct Choices {
    keys: [u64; NSTREAM],
    /// draws made so far, kept where the parent process sees them
    idx: &'static mut [u64; NSTREAM],
    explicit: Option<Vec<Vec<u64>>>,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn stream_key(seed: u64, stream: usize) -> u64 {
    mix(mix(seed ^ 0x51a7_5eed).wrapping_add(stream as u64 * 0x1234_5678_9abc_def1))
}

pub fn raw_at(key: u64, idx: u64) -> u64 {
    mix(key ^ idx.wrapping_mul(0xd6e8_feb8_6659_fd93))
}

impl Choices {
    pub fn new(seed: u64, explicit: Option<Vec<Vec<u64>>>, idx: &'static mut [u64; NSTREAM]) -> Self {
        let mut keys = [0; NSTREAM];
        for (s, k) in keys.iter_mut().enumerate() {
            *k = stream_key(seed, s);
        }
        Choices { keys, idx, explicit }
    }
    #[inline]
    pub fn raw(&mut self, s: usize) -> u64 {
        let i = self.idx[s];
        self.idx[s] = i + 1;
        match &self.explicit {
            None => raw_at(self.keys[s], i),
            Some(e) => e[s].get(i as usize).copied().unwrap_or(0),
        }
    }
    /// uniform in 0..n; raw 0 gives 0
    #[inline]
    pub fn below(&mut self, s: usize, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.raw(s) % n
    }
    /// true with probability num/den; raw 0 gives false
    #[inline]
    pub fn chance(&mut self, s: usize, num: u64, den: u64) -> bool {
        if num == 0 {
            return false;
        }
        let r = self.raw(s);
        r % den >= den - num.min(den)
    }
}

/// The raw values a seeded run with these draw counts used.
pub fn expand(seed: u64, counts: &[u64; NSTREAM]) -> Vec<Vec<u64>> {
    (0..NSTREAM)
        .map(|s| {
            let k = stream_key(seed, s);
            (0..counts[s]).map(|i| raw_at(k, i)).collect()
        })
        .collect()
}

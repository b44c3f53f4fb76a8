//! Files under the scratch directory of a run: the operations reach the real
//! file system (a directory of the run's own), but may fail, be cut short, or
//! be the last thing the simulated process does before it is killed.
use super::kernel::*;

pub struct Fs {
    pub tracked: Vec<i32>,
    /// kill the simulated process at the n-th file operation (0: never)
    pub crash_at: u64,
    pub nops: u64,
    pub on_crash: Option<fn()>,
    /// relative paths (the current directory is the run's own) are tracked
    pub on: bool,
    torn: bool,
}
impl Fs {
    pub fn new() -> Self {
        Fs { tracked: vec![], crash_at: 0, nops: 0, on_crash: None, on: false, torn: false }
    }
}

fn maybe_crash(kk: &mut Kernel) {
    kk.fs.nops += 1;
    if kk.fs.torn || kk.fs.crash_at != 0 && kk.fs.nops == kk.fs.crash_at {
        if let Some(f) = kk.fs.on_crash {
            kk.ev("crash", kk.fs.nops, 0);
            f();
        }
    }
}

unsafe fn mine(kk: &Kernel, path: *const libc::c_char) -> bool {
    kk.fs.on && *path as u8 != b'/'
}

pub unsafe fn on_path(what: &'static str, path: *const libc::c_char) -> Result<(), i32> {
    let kk = k();
    if !mine(kk, path) {
        return Ok(());
    }
    kk.op(what, 0, 0);
    maybe_crash(kk);
    let f = match what {
        "open" => "disk_open_eio",
        "rename" => "disk_rename_eio",
        "unlink" => "disk_unlink_eio",
        _ => "disk_mkdir_enospc",
    };
    if kk.fault(f) {
        return Err(match what {
            "mkdir" => kk.errno(&[libc::ENOSPC, libc::EROFS, libc::EACCES, libc::EDQUOT]),
            "open" => kk.errno(&[libc::EIO, libc::EACCES, libc::EROFS, libc::ENOSPC, libc::EMFILE]),
            _ => kk.errno(&[libc::EIO, libc::EACCES, libc::EROFS, libc::EBUSY]),
        });
    }
    Ok(())
}
pub unsafe fn on_opened(path: *const libc::c_char, fd: i32) {
    let kk = k();
    if mine(kk, path) {
        kk.fs.tracked.push(fd);
    }
}
pub fn on_close(fd: i32) {
    let kk = k();
    if let Some(i) = kk.fs.tracked.iter().position(|x| *x == fd) {
        kk.fs.tracked.remove(i);
    }
}
pub fn on_read(fd: i32) -> Option<i64> {
    let kk = k();
    if !kk.fs.tracked.contains(&fd) {
        return None;
    }
    kk.op("file_read", 0, 0);
    if kk.fault("disk_read_eio") {
        return Some(-(libc::EIO as i64));
    }
    None
}
/// how many of `n` bytes may be written
pub fn on_write(fd: i32, n: usize) -> Result<usize, i32> {
    let kk = k();
    if !kk.fs.tracked.contains(&fd) {
        return Ok(n);
    }
    kk.op("file_write", n as u64, 0);
    if !kk.fs.torn && n > 1 && kk.fs.crash_at != 0 && kk.fs.nops + 1 == kk.fs.crash_at && kk.ch.chance(super::choices::FAULT, 1, 2) {
        // killed in the middle of the write
        kk.fs.torn = true;
        kk.shm().count("fault.torn_write", 1);
        return Ok(1 + kk.ch.below(super::choices::FAULT, n as u64 - 1) as usize);
    }
    maybe_crash(kk);
    if kk.fault("disk_enospc") {
        return Err(kk.errno(&[libc::ENOSPC, libc::EDQUOT, libc::EFBIG]));
    }
    if kk.fault("disk_write_eio") {
        return Err(libc::EIO);
    }
    if n > 1 && kk.fault("disk_short_write") {
        return Ok(1 + kk.ch.below(super::choices::FAULT, n as u64 - 1) as usize);
    }
    Ok(n)
}

//! Non-generic wrappers around the generic entry points of starry. The
//! generic code is instantiated in this crate, which is compiled with the same
//! instrumentation as starry itself, so that it too has preemption points.
use starry::utils::concurrent::ThreadPool;
use starry::utils::errors::StarryResult;

pub type Job = Box<dyn FnOnce() + Send + 'static>;

pub fn pool_execute(p: &ThreadPool, f: Job) -> StarryResult<()> {
    p.execute(f)
}
pub fn pool_drop(p: ThreadPool) {
    drop(p)
}
pub fn pool_size(p: &ThreadPool) -> usize {
    p.size()
}
pub fn pool_new(kind: u64, size: usize, queue: usize) -> StarryResult<ThreadPool> {
    match kind {
        0 => ThreadPool::new_custom("p".into(), size, 0, queue),
        1 => {
            let mut b = ThreadPool::builder();
            b.pool_size(size).name_prefix("bp-").task_count(queue);
            b.create()
        }
        2 => {
            let mut b = ThreadPool::builder();
            b.task_count(queue).stack_size(8 << 20).pool_size(size);
            b.create()
        }
        3 => ThreadPool::new(size),
        5 => {
            let mut b = ThreadPool::builder();
            b.task_count(queue).stack_size(40 << 20).pool_size(size);
            b.create()
        }
        _ => ThreadPool::new_with_name("named".into(), size),
    }
}

/// the three ways to start a thread
pub fn thread_spawn(kind: u64, name: String, stack: usize, f: Box<dyn FnOnce() -> u64 + Send + 'static>) -> StarryResult<std::thread::JoinHandle<u64>> {
    use starry::utils::concurrent::Thread;
    match kind {
        0 => Thread::spawn(f),
        1 => Thread::spawn_on_name(name, f),
        _ => Thread::spawn_on_custom(name, stack, f),
    }
}
pub fn thread_sleep(d: std::time::Duration) {
    starry::utils::concurrent::Thread::sleep(d)
}
pub fn thread_join(h: std::thread::JoinHandle<u64>) -> std::thread::Result<u64> {
    h.join()
}

// ------------------------------------------------------------------ server
use starry::{Context, HttpServer};

pub fn listen(s: &HttpServer, addr: &str) -> StarryResult<()> {
    s.listener(addr)
}
pub fn header(c: &Context, k: &str) -> Option<String> {
    c.req_header_get(k)
}
pub fn have_header(c: &Context, k: &str) -> bool {
    c.req_header_get(k).is_some()
}
pub fn field(c: &Context, k: &str) -> Option<String> {
    c.req_field(k)
}
pub fn have_field(c: &Context, k: &str) -> bool {
    c.req_have_field(k)
}
pub fn param(c: &Context, k: &str) -> Option<String> {
    c.req_param(k)
}
pub fn have_param(c: &Context, k: &str) -> bool {
    c.req_have_param(k)
}
pub fn form(c: &mut Context, k: &str) -> StarryResult<Option<String>> {
    c.req_form(k)
}
pub fn have_form(c: &mut Context, k: &str) -> StarryResult<bool> {
    c.req_have_form(k)
}
pub fn count_form(c: &mut Context) -> StarryResult<usize> {
    c.req_count_form()
}
/// (file name, content)
pub fn file(c: &mut Context, k: &str) -> StarryResult<Option<(String, Vec<u8>, usize)>> {
    Ok(c.req_form_file(k)?.map(|f| (f.filename(), f.content(), f.size())))
}
pub fn cookies(c: &Context) -> Vec<String> {
    c.req_cookies().iter().map(|c| c.to_string()).collect()
}
pub fn cookie(c: &Context, k: &str) -> Option<String> {
    c.req_cookie_get(k).map(|c| c.to_string())
}
pub fn userinfo(c: &Context) -> Option<(String, String)> {
    c.req_userinfo().map(|u| (u.username(), u.password()))
}
pub fn client_addr(c: &Context) -> (String, u16) {
    let a = c.req_client_addr();
    (a.host(), a.port())
}

//! Client scenarios: starry's HttpClient against scripted servers, and
//! against starry's own server.
use super::web::*;
use crate::rt::kernel::k;
use crate::rt::net;
use crate::sim::*;
use std::io::Read;
use std::net::{TcpListener, TcpStream};

/// status and body, or the error
type Outcome = Result<(Option<u16>, Vec<u8>), String>;

static mut TIDY: bool = false;

/// the cookies of the last response, if they could be read
type Cookies = Option<Vec<Vec<String>>>;
thread_local! {
    static COOKIES: std::cell::RefCell<Cookies> = const { std::cell::RefCell::new(None) };
}

fn get(url: &str) -> Outcome {
    note(format!("get {url}"));
    let r = as_sut(|| match starry::HttpClient::get(url) {
        Ok(mut r) => {
            if !unsafe { TIDY } {
                let v: Cookies = r.read_set_cookies().ok().map(|v| v.iter().map(|c| cookie_parts(&c.to_string())).collect());
                COOKIES.with(|c| *c.borrow_mut() = v);
            }
            let d = format!("{r:?}");
            let code = d.find("status: ").and_then(|p| d.get(p + 8..p + 11)).and_then(|c| c.parse().ok());
            Ok((code, r.body()))
        }
        Err(e) => Err(e.to_string()),
    });
    let me = crate::rt::kernel::tid();
    if let Some(x) = k().net.socks.iter().find(|x| unsafe { TIDY } && x.sut && x.by == me && !x.closed) {
        fail("a client call has returned, but its connection is still open", format!("{url}: socket {} ({:?})", x.port, x.st));
    }
    match &r {
        Ok((c, b)) => note(format!("-> {c:?}, {} bytes", b.len())),
        Err(e) => note(format!("-> error {e}")),
    }
    r
}

/// How a scripted server ends the connection after what it sends.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Tail {
    Close,
    Reset,
    /// wait this long, then close
    Stall(u64),
}
#[derive(Clone, Debug)]
struct Answer {
    bytes: Vec<u8>,
    cut: Cut,
    tail: Tail,
    /// before the first byte
    delay: u64,
    /// answers without having read the request
    hasty: bool,
    /// reads the request this slowly
    chunk: usize,
    pause: u64,
}
impl Answer {
    fn new(bytes: Vec<u8>) -> Answer {
        Answer { bytes, cut: Cut::WHOLE, tail: Tail::Close, delay: 0, hasty: false, chunk: 4096, pause: 0 }
    }
}

fn read_request(s: &mut TcpStream, a: &Answer) -> Vec<u8> {
    let mut got = vec![];
    let _ = s.set_read_timeout(Some(std::time::Duration::from_secs(600)));
    let mut b = vec![0u8; a.chunk.max(1)];
    while find(&got, b"\r\n\r\n", 0).is_none() {
        match s.read(&mut b) {
            Ok(0) => break,
            Ok(n) => got.extend_from_slice(&b[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(_) => break,
        }
        if a.pause > 0 {
            sleep(a.pause);
        }
    }
    got
}
/// serve one connection; gives back what the client sent
fn serve_one(mut s: TcpStream, a: &Answer) -> Vec<u8> {
    let got = if a.hasty { vec![] } else { read_request(&mut s, a) };
    if a.delay > 0 {
        sleep(a.delay);
    }
    send_cut(&mut s, &a.bytes, a.cut);
    match a.tail {
        Tail::Close => {}
        Tail::Reset => {
            sleep(w(2) * 3 * MS);
            use std::os::fd::AsRawFd;
            if let Some(x) = net::sock_of(k(), s.as_raw_fd()) {
                k().count("net.reset");
                net::reset_pair(k(), x);
            }
        }
        Tail::Stall(d) => sleep(d),
    }
    got
}
/// what stands between the request and the end of the connection, which is
/// the client's to close: closing first would reset it
fn leftovers(s: &mut TcpStream) -> Vec<u8> {
    let _ = s.set_read_timeout(Some(std::time::Duration::from_secs(600)));
    let mut v = vec![];
    let mut b = [0u8; 4096];
    loop {
        match s.read(&mut b) {
            Ok(0) => return v,
            Ok(n) => v.extend_from_slice(&b[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(_) => return v,
        }
    }
}

// ------------------------------------------------------------------- C01

/// the final status codes the library knows, save those that never carry a body
const CODES: &[u16] = &super::web::STATUSES;

#[derive(Clone, Debug)]
struct Reply {
    code: u16,
    body: Vec<u8>,
    head: usize,
    with_length: bool,
    cookies: Vec<Vec<String>>,
    bytes: Vec<u8>,
}
fn draw_reply(seed: usize) -> Reply {
    let code = if wchance(1, 12) { pick(&[204, 304]) } else { pick(CODES) };
    let bodyless = matches!(code, 204 | 304);
    let n = if bodyless { 0 } else { some_len() };
    let body = bytes_for(seed, n, wchance(1, 2));
    let reason = match w(6) {
        0 => " OK".to_string(),
        1 => " ".to_string(),
        2 => String::new(),
        3 => " Some Thing: quite Long, (really)".to_string(),
        4 => " OK HTTP/1.1 200".to_string(),
        _ if wchance(1, 4) => format!(" {}", "reason ".repeat(wr(1, 300) as usize)),
        _ => " x".to_string(),
    };
    let mut h: Vec<String> = vec![];
    // now and then many headers
    let lot = wchance(1, 10);
    for i in 0..if lot { wr(30, 200) } else { w(6) } {
        let v = match w(6) {
            0 => token(1, 20),
            1 => "a: b; c=\"d\", e".into(),
            2 => String::new(),
            3 => format!("  {} ", token(1, 5)),
            4 => hexs(4).repeat(1 + w(300) as usize),
            _ => "Thu, 01 Jan 1970 00:00:00 GMT".into(),
        };
        let name = if wchance(1, 4) { "X-Dup".into() } else { format!("X-{}.{i}", token(1, 6)) };
        h.push(format!("{name}:{}{v}", pick(&[" ", "", "  "])));
    }
    let cookie_name = pick(&["Set-Cookie", "Set-Cookie", "set-cookie"]);
    for _ in 0..if lot { w(60) } else { (w(4) / 3) * wr(1, 3) } {
        h.push(match w(4) {
            0 => format!("c{}={}", token(1, 5), token(1, 5)),
            1 => format!("c{}={}; Max-Age={}; SameSite=Lax", token(1, 5), token(1, 5), w(100_000)),
            2 => format!("c{}={};Domain=a.example;Secure", token(1, 5), token(1, 5)),
            _ => format!("c{}={}; Path=/; HttpOnly", token(1, 5), token(1, 5)),
        });
        let c = h.len() - 1;
        h[c] = format!("{cookie_name}: {}", h[c]);
    }
    if wchance(1, 2) {
        h.push(format!("Connection: {}", pick(&["close", "keep-alive", "Close"])));
    }
    if wchance(1, 2) {
        h.push(format!("Content-Type: {}", pick(&["text/plain", "application/json; charset=utf-8", "application/x-odd", "multipart/form-data; boundary=B", "text/html"])));
    }
    let with_length = wchance(2, 3) && !(bodyless && wchance(1, 2));
    if with_length {
        h.push(format!("{}: {}", pick(&["Content-Length", "Content-Length", "content-length", "CONTENT-LENGTH"]), body.len()));
    }
    let m = h.len();
    for i in 0..m {
        h.swap(i, w(m as u64) as usize);
    }
    let mut b = format!("HTTP/1.{} {code}{reason}\r\n", w(2)).into_bytes();
    let cookies = h.iter().filter_map(|l| l.strip_prefix(cookie_name)).map(|l| cookie_parts(l[1..].trim())).collect();
    for l in h {
        b.extend_from_slice(l.as_bytes());
        b.extend_from_slice(b"\r\n");
    }
    b.extend_from_slice(b"\r\n");
    let head = b.len();
    b.extend_from_slice(&body);
    Reply { code, body, head, with_length, cookies, bytes: b }
}

const ALTERED: &str = "the client returned a response that was not sent";
const REFUSED: &str = "the client rejected a complete response";

fn check_reply(r: &Reply, o: &Outcome, what: &str) {
    if let Ok((c, b)) = o {
        let got = COOKIES.with(|c| c.borrow().clone());
        if got.as_ref() != Some(&r.cookies) {
            fail(ALTERED, format!("{what}: cookies {got:?} instead of {:?}", r.cookies));
        }
        if c.is_some_and(|c| c != r.code) {
            fail(ALTERED, format!("{what}: status {c:?} instead of {}", r.code));
        }
        if *b != r.body {
            let at = b.iter().zip(&r.body).position(|(a, b)| a != b).unwrap_or(b.len().min(r.body.len()));
            fail(ALTERED, format!("{what}: body of {} bytes instead of {}, different from byte {at} on: {} / {}", b.len(), r.body.len(), show(&b[at..]), show(&r.body[at..])));
        }
    }
}

/// Complete responses, in every shape and in every cut; and incomplete ones.
pub fn client_responses() {
    let mut d = swarm_sched();
    d += &swarm_net();
    if wchance(1, 2) {
        fault_rate("recv_eintr", 1, pick(&[4, 20, 100]), 30);
        fault_rate("send_eintr", 1, pick(&[4, 20, 100]), 30);
        faults(true);
    }
    let l = TcpListener::bind(("127.0.0.1", PORT)).expect("bind");
    let n = wr(1, 4);
    let mut out = String::new();
    for i in 0..n {
        let r = draw_reply(i as usize);
        let mut a = Answer::new(r.bytes.clone());
        a.cut = Cut::draw(a.bytes.len());
        a.delay = [0, 0, MS, 2 * SEC][w(4) as usize];
        if wchance(1, 12) {
            // slow, but nothing says how slow is too slow
            a.delay = wr(3, 300) * SEC;
        }
        a.hasty = wchance(1, 12);
        let mut kind = w(8);
        if a.hasty && kind >= 4 {
            // what the client has not sent yet may fail to be sent
            kind = 0;
        }
        let total = a.bytes.len();
        let mut cut_at = total;
        let mut surplus = false;
        match kind {
            0..=3 => {}
            4 | 5 => {
                cut_at = match w(3) {
                    0 => w(total as u64) as usize,
                    1 => total - 1 - w(3).min(total as u64 - 1) as usize,
                    _ => (r.head + w(4) as usize).saturating_sub(2).min(total - 1),
                };
                a.bytes.truncate(cut_at);
            }
            6 => {
                if wchance(1, 2) {
                    cut_at = w(total as u64 + 1) as usize;
                    a.bytes.truncate(cut_at);
                }
                a.tail = Tail::Reset;
            }
            _ => {
                if r.with_length && !matches!(r.code, 204 | 304) && wchance(1, 2) {
                    a.bytes.extend_from_slice(b"HTTP/1.1 500 Surplus\r\n\r\n");
                    surplus = true;
                }
            }
        }
        let hasty = a.hasty;
        let tail = a.tail;
        let l2 = l.try_clone().expect("clone");
        let h = spawn("peer", move || {
            let (s, _) = l2.accept().expect("accept");
            let mut s2 = s.try_clone().expect("clone");
            serve_one(s, &a);
            if a.hasty {
                // no reset for what it did not read
                let _ = s2.shutdown(std::net::Shutdown::Write);
                leftovers(&mut s2);
            }
        });
        let t = now();
        let o = get(&format!("http://127.0.0.1:{PORT}/r{i}"));
        let what = format!("response {i} of {total} bytes (head {}), length given: {}, cut at {cut_at}, {tail:?}", r.head, r.with_length);
        if !wait_until(600 * SEC, || h.done()) {
            fail("the client's connection stayed open", what);
        }
        let complete = cut_at == total && tail == Tail::Close;
        // without a length, the end of the body is where the connection ends
        let open_ended = !r.with_length && !matches!(r.code, 204 | 304) && cut_at >= r.head && tail == Tail::Close;
        if complete {
            if let (Err(e), false) = (&o, surplus) {
                fail(REFUSED, format!("{what}: {e}; {}", show(&r.bytes)));
            }
            check_reply(&r, &o, &what);
        } else if open_ended {
            let mut r = r.clone();
            r.body.truncate(cut_at - r.head);
            check_reply(&r, &o, &what);
        } else {
            if o.is_ok() && cut_at < total && !(matches!(r.code, 204 | 304) && cut_at >= r.head) {
                fail("an incomplete response was returned as complete", format!("{what}: {:?}", o.as_ref().map(|x| x.1.len())));
            }
            check_reply(&r, &o, &what);
        }
        probe(if complete { "client.complete" } else { "client.incomplete" });
        if now() - t > 700 * SEC {
            fail("a client call took far too long", what);
        }
        out += &format!(" {}{}", r.code, if hasty { "h" } else { "" });
    }
    ok(format!("{d} codes{out}"))
}

/// Not a response at all, or not a valid one.
pub fn client_garbage() {
    let mut d = swarm_sched();
    d += &swarm_net();
    let l = TcpListener::bind(("127.0.0.1", PORT)).expect("bind");
    let mut out = String::new();
    for i in 0..wr(1, 4) {
        let r = draw_reply(i as usize);
        let mut must_fail = true;
        let b = match w(12) {
            0 => vec![],
            1 => (0..wr(1, 400)).map(|_| w(256) as u8).filter(|b| *b != b'H').collect(),
            2 => pick(&[
                &b"HTTP/1.1 abc OK\r\n\r\n"[..],
                b"HTTP/1.1\r\n\r\n",
                b"HTTP/1.1 \r\n\r\n",
                b"\r\n\r\n",
                b"HTTP/9.9 200 OK\r\n\r\n",
                b"HTTP/1.1 99999999 OK\r\n\r\n",
                b"HTTP/1.1 -1 OK\r\n\r\n",
                b"HTTP/1.1 200 OK",
                b"HTTP/1.1 200 OK\r\n",
                b"HTTP/1.1 200 OK\r\nA: b\r\n",
                b"HTTP/1.1 200 OK\r\nA: b",
                b"HTTP/1.1 200 OK\r\nno colon here\r\n\r\n",
                b"HTTP 200 OK\r\n\r\n",
                b"220 smtp ready\r\n",
                b"\x15\x03\x01\x00\x02\x02\x28",
                b"H",
                b"HTTP/1.1 2\xff0 OK\r\n\r\n",
            ])
            .to_vec(),
            3 => {
                let n = pick(&["abc", "-5", "1e3", "99999999999999999999999", "0x10", "5 5"]);
                format!("HTTP/1.1 200 OK\r\nContent-Length: {n}\r\n\r\nhello").into_bytes()
            }
            4 => b"HTTP/1.1 200 OK\r\nContent-Length: 6\r\n\r\nhello".to_vec(),
            5 => {
                // chunked: decoded or refused
                must_fail = false;
                b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n".to_vec()
            }
            6 => r.bytes[..w(r.head as u64) as usize].to_vec(),
            n => {
                must_fail = false;
                let mut b = r.bytes.clone();
                if b.len() > 4000 {
                    b.truncate(4000);
                }
                for _ in 0..wr(1, 4) {
                    let x = w(b.len() as u64) as usize;
                    match n {
                        7 => b[x] = w(256) as u8,
                        8 => {
                            b.remove(x);
                        }
                        9 => b.insert(x, w(256) as u8),
                        10 => b[x] = pick(b"\r\n: ;,=/\0"),
                        _ => {
                            let y = (x + w(30) as usize).min(b.len());
                            b.drain(x..y);
                        }
                    }
                    if b.is_empty() {
                        break;
                    }
                }
                b
            }
        };
        let chunked = find(&b, b"Transfer-Encoding: chunked\r\n\r\n5", 0).is_some();
        let mut a = Answer::new(b.clone());
        a.cut = Cut::draw(b.len());
        let l2 = l.try_clone().expect("clone");
        spawn("peer", move || {
            let (s, _) = l2.accept().expect("accept");
            serve_one(s, &a);
        });
        let t = now();
        let o = get(&format!("http://127.0.0.1:{PORT}/g{i}"));
        if now() - t > 100 * SEC {
            fail("a client call took far too long", show(&b));
        }
        if let Ok((c, body)) = &o {
            if must_fail {
                fail("the client accepted what is no complete response", format!("{} -> {c:?}, {} bytes", show(&b), body.len()));
            }
            if chunked && body != b"hello" {
                fail(ALTERED, format!("chunked: {}", show(body)));
            }
            // whatever it is, it was sent
            if !body.is_empty() && !chunked && find(&b, body, 0).is_none() {
                fail(ALTERED, format!("{} -> {}", show(&b), show(body)));
            }
        }
        out += if o.is_ok() { " ok" } else { " err" };
    }
    ok(format!("{d}{out}"))
}

// ------------------------------------------------------------------- C02

fn pchar(lo: u64, hi: u64) -> String {
    let n = wr(lo, hi);
    let mut s = String::new();
    for _ in 0..n {
        match w(10) {
            0 => s.push_str(pick(&["%20", "%2F", "%C3%A9", "%25", "%3f"])),
            1 => s.push(pick(&['!', '$', '&', '\'', '(', ')', '*', '+', ',', ';', '='])),
            2 => s.push(pick(&[':', '@', '.', '~', '-', '_'])),
            _ => s.push_str(&token(1, 1)),
        }
    }
    s
}
struct Url {
    text: String,
    port: u16,
    host: &'static str,
    target: String,
    auth: Option<String>,
}
fn draw_url() -> Url {
    let scheme = wchance(5, 6);
    let host = pick(&["127.0.0.1", "localhost", "127.0.0.1", "example.test", "http.test", "h"]);
    let port = pick(&[PORT, 80, 65535, 9]);
    let shown = port != 80 || wchance(1, 2);
    let auth = if wchance(1, 3) { Some(format!("{}:{}", token(1, 8), if wchance(1, 8) { String::new() } else { token(1, 8) })) } else { None };
    // without a scheme only the plainest form is unambiguous
    let (auth, host, shown) = if scheme { (auth, host, shown) } else { (None, "127.0.0.1", true) };
    let mut path = String::new();
    for _ in 0..w(5) {
        path.push('/');
        path.push_str(&pchar(0, 8));
    }
    if wchance(1, 20) {
        path.push('/');
        path.push_str(&token(1000, 9000));
    }
    let mut query = String::new();
    if wchance(1, 2) {
        for i in 0..wr(1, 3) {
            query.push(if i == 0 { '?' } else { '&' });
            query.push_str(&token(1, 5));
            if wchance(4, 5) {
                query.push('=');
                query.push_str(&pchar(0, 8));
                if wchance(1, 8) {
                    query.push_str("/?x");
                }
            }
        }
    }
    let frag = if wchance(1, 5) { format!("#{}", pick(&["", "top", "a?b=c", "x/y:z@w"])) } else { String::new() };
    let target = format!("{}{query}", if path.is_empty() { "/" } else { &path });
    let text = format!(
        "{}{}{host}{}{path}{query}{frag}",
        if scheme { "http://" } else { "" },
        auth.as_ref().map(|a| format!("{a}@")).unwrap_or_default(),
        if shown { format!(":{port}") } else { String::new() }
    );
    Url { text, port, host, target, auth }
}

fn b64(v: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in v.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            o.push(if i <= c.len() { T[(n >> (18 - 6 * i) & 63) as usize] as char } else { '=' });
        }
    }
    o
}
const BAD_REQ: &str = "the client sent a request that was not asked for";
fn check_request(u: &Url, got: &[u8]) {
    let bad = |e: String| -> ! { fail(BAD_REQ, format!("{}: {e}: {}", u.text, show(got))) };
    let Some(e) = find(got, b"\r\n\r\n", 0) else { bad("no complete head".into()) };
    if e + 4 != got.len() {
        bad(format!("{} surplus bytes", got.len() - e - 4));
    }
    let t = match std::str::from_utf8(&got[..e]) {
        Ok(t) => t,
        Err(_) => bad("not text".into()),
    };
    let mut lines = t.split("\r\n");
    let l: Vec<&str> = lines.next().unwrap().split(' ').collect();
    if l.len() != 3 || l[0] != "GET" || !matches!(l[2], "HTTP/1.0" | "HTTP/1.1") {
        bad("bad request line".into());
    }
    if l[1] != u.target {
        let at = l[1].bytes().zip(u.target.bytes()).position(|(a, b)| a != b).unwrap_or(l[1].len().min(u.target.len()));
        bad(format!("target differs from byte {at}: {} instead of {}", show(&l[1].as_bytes()[at..]), show(&u.target.as_bytes()[at..])));
    }
    let (mut hosts, mut auths) = (vec![], vec![]);
    for x in lines {
        let Some((a, v)) = x.split_once(':') else { bad(format!("bad header {x:?}")) };
        if a.is_empty() || a.contains(' ') {
            bad(format!("bad header {x:?}"));
        }
        match a.to_ascii_lowercase().as_str() {
            "host" => hosts.push(v.trim().to_string()),
            "authorization" => auths.push(v.trim().to_string()),
            "content-length" if v.trim() != "0" => bad("a body is announced".into()),
            "transfer-encoding" => bad("a body is announced".into()),
            _ => {}
        }
    }
    let full = format!("{}:{}", u.host, u.port);
    if hosts.len() != 1 || !(hosts[0] == full || u.port == 80 && hosts[0] == u.host) {
        bad(format!("Host {hosts:?} instead of {full}"));
    }
    let want: Vec<String> = u.auth.iter().map(|a| format!("Basic {}", b64(a.as_bytes()))).collect();
    if auths != want {
        bad(format!("Authorization {auths:?} instead of {want:?}"));
    }
}

/// What arrives at the server, for every URL and every way the kernel takes it.
pub fn client_requests() {
    let mut d = swarm_sched();
    d += &swarm_net();
    k().cfg.short_write = pick(&[0, 40, 200, 250]);
    if wchance(1, 2) {
        fault_rate("recv_eintr", 1, pick(&[4, 20]), 30);
        fault_rate("send_eintr", 1, pick(&[2, 4, 20]), 30);
    }
    let breaking = wchance(1, 4);
    if breaking {
        for f in ["conn_reset_on_send", "conn_reset_on_recv", "connect_refused", "connect_timeout", "dns_fail", "socket_emfile"] {
            if wchance(1, 3) {
                fault_rate(f, 1, pick(&[1, 2, 6]), wr(1, 3));
            }
        }
    }
    faults(true);
    let n = wr(1, 4);
    let mut texts = vec![];
    let mut oks = 0;
    let ls: Vec<(u16, TcpListener)> = [PORT, 80, 65535, 9].iter().map(|p| (*p, TcpListener::bind(("127.0.0.1", *p)).expect("bind"))).collect();
    for i in 0..n {
        let u = draw_url();
        let body = bytes_for(i as usize, 20, false);
        let mut a = Answer::new([format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", body.len()).into_bytes(), body.clone()].concat());
        if wchance(1, 3) {
            a.chunk = [1, 7, 50][w(3) as usize].max(u.text.len() / 100);
            a.pause = [US, MS, 50 * MS][w(3) as usize];
        }
        let got: &'static mut Option<Vec<u8>> = Box::leak(Box::new(None));
        let gp = got as *mut Option<Vec<u8>> as usize;
        let l2 = ls.iter().find(|(p, _)| *p == u.port).unwrap().1.try_clone().expect("clone");
        l2.set_nonblocking(true).expect("nonblocking");
        let h = spawn("peer", move || {
            let got = unsafe { &mut *(gp as *mut Option<Vec<u8>>) };
            for _ in 0..20_000 {
                match l2.accept() {
                    Ok((s, _)) => {
                        let _ = s.set_nonblocking(false);
                        let mut s2 = s.try_clone().expect("clone");
                        let mut v = serve_one(s, &a);
                        let _ = s2.shutdown(std::net::Shutdown::Write);
                        v.extend(leftovers(&mut s2));
                        *got = Some(v);
                        return;
                    }
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => sleep(10 * MS),
                    Err(_) => {}
                }
                if unsafe { STOP_ACCEPT } > i {
                    return;
                }
            }
        });
        let o = get(&u.text);
        sleep(SEC);
        unsafe { STOP_ACCEPT = i + 1 };
        if !wait_until(600 * SEC, || h.done()) {
            fail("the client's connection stayed open", &u.text);
        }
        match &o {
            Ok((c, b)) => {
                oks += 1;
                if c.is_some_and(|c| c != 200) || *b != body {
                    fail(ALTERED, format!("{}: {c:?} {}", u.text, show(b)));
                }
                match unsafe { &*(gp as *const Option<Vec<u8>>) } {
                    Some(v) => check_request(&u, v),
                    None => fail("a call succeeded that reached no server", &u.text),
                }
            }
            Err(e) => {
                if !breaking {
                    fail("the client could not send its request", format!("{}: {e}", u.text));
                }
                probe("client.failed");
            }
        }
        texts.push(u.text);
    }
    ok(format!("{d} breaking={breaking} ok={oks} {texts:?}"))
}
static mut STOP_ACCEPT: u64 = 0;

// ------------------------------------------------------------------- C03

/// an url for the request, as the client would be given it
fn url_of(s: &Spec) -> String {
    let q: Vec<String> = s.query.iter().map(|(a, b)| format!("{a}={b}")).collect();
    format!("http://{}127.0.0.1:{}{}?{}", s.auth.as_ref().map(|(a, b)| format!("{a}:{b}@")).unwrap_or_default(), s.sport, s.path, q.join("&"))
}
fn draw_call(routes: &[Route]) -> usize {
    let p = match w(4) {
        0 => "/r/one".to_string(),
        1 => format!("/r/{}/two", token(1, 6)),
        2 => format!("/r/{}/{}", token(1, 6), pchar(1, 5)),
        _ => format!("/r/{}/{}", token(1, 6), token(0, 3)),
    };
    let id = routed(routes, "GET", &p);
    let l = some_len();
    dress_plan(id, l);
    let s = spec(id);
    s.query.push(("xid".into(), format!("{id:06}")));
    for i in 0..w(3) {
        s.query.push((format!("{}.{i}", token(1, 5)), token(0, 8)));
    }
    if wchance(1, 4) {
        s.auth = Some((token(1, 6), token(1, 6)));
    }
    s.keep = false;
    id
}
fn check_call(id: usize, o: &Outcome) {
    let s = spec(id);
    match o {
        Ok((c, b)) => {
            s.answered_at = now();
            let want: &[u8] = if s.handler.is_none() {
                b""
            } else if s.plan.how == How::Nothing {
                s.plan.first.as_deref().unwrap_or(b"")
            } else {
                &s.plan.body
            };
            let code = if s.handler.is_none() { 404 } else { s.plan.status };
            if c.is_some_and(|c| c != code) {
                fail(WRONG, format!("call {id} {}: status {c:?} instead of {code}", url_of(s)));
            }
            if s.handler.is_some() && b != want {
                fail(WRONG, format!("call {id} {}: body of {} bytes instead of {}: {} / {}", url_of(s), b.len(), want.len(), show(b), show(want)));
            }
        }
        Err(e) => fail("a call to a healthy server failed", format!("call {id} {}: {e}", url_of(s))),
    }
}

/// Many threads calling starry's server through starry's client.
pub fn end_to_end() {
    let mut d = swarm_sched();
    d += &swarm_net();
    if k().cfg.seg == 1 {
        k().cfg.seg = 40;
    }
    super::server::nuisances();
    let conf = Conf { pool: wr(1, 4) as usize, keepalive: 30000, compress: wchance(1, 3), trace_log: false };
    let routes: Vec<Route> = simple_routes().into_iter().filter(|r| r.method == "GET").collect();
    super::server::start(&conf, &routes);
    // other servers, on other ports, answer the same paths in their own way
    let mut servers = vec![(PORT, routes.clone())];
    for i in 1..=(if wchance(1, 2) { wr(1, 2) } else { 0 }) {
        let mut own = routes.clone();
        own.iter_mut().for_each(|r| r.handler += 3 * i as usize);
        let port = PORT + i as u16;
        let srv = as_sut(|| {
            let s = build(&conf);
            register_all(&s, &own);
            s
        });
        serve_too(&srv, port);
        servers.push((port, own));
    }
    let draw = || {
        let (port, routes) = &servers[w(servers.len() as u64) as usize];
        let id = draw_call(routes);
        spec(id).sport = *port;
        id
    };
    let mut hs = vec![];
    let threads = wr(1, 6);
    for t in 0..threads {
        let mut ids: Vec<usize> = (0..wr(1, 4)).map(|_| draw()).collect();
        if wchance(1, 8) {
            let id = new_spec("GET", "/nowhere", None);
            spec(id).sport = servers[w(servers.len() as u64) as usize].0;
            spec(id).query.push(("xid".into(), format!("{id:06}")));
            ids.push(id);
        }
        hs.push(spawn(&format!("caller{t}"), move || {
            for id in ids {
                let o = get(&url_of(spec(id)));
                check_call(id, &o);
            }
        }));
    }
    // and others at the same time
    if wchance(1, 3) {
        let ids = super::server::sequence(&routes.iter().cloned().collect::<Vec<_>>(), wr(1, 3), conf.compress, false, true);
        for id in &ids {
            // only what is registered
            let p = spec(*id).path.clone();
            let (m, n) = lookup(&routes, "GET", &p).map(|(i, f)| (routes[i].handler, f)).unwrap();
            let s = spec(*id);
            s.method = "GET";
            s.body = BodyIn::None;
            (s.handler, s.fields) = (Some(m), n);
        }
        hs.push(spawn("raw", move || run_script(&Script::new(ids))));
    }
    let last = wd().specs.len();
    if !wait_until(2500 * SEC, || hs.iter().all(|h| h.done())) {
        fail(NONE, "a caller is still waiting");
    }
    history_ok(0..last);
    ok(format!("{d}{} servers={} threads={threads} calls={last}", conf.text(), servers.len()))
}

// ------------------------------------------------------------------- C04

/// Calls to servers that fail, next to calls to one that does not.
pub fn client_failures() {
    let mut d = swarm_sched();
    d += &swarm_net();
    let healthy = wchance(2, 3);
    let conf = Conf { pool: 3, keepalive: 5000, compress: false, trace_log: false };
    let routes: Vec<Route> = simple_routes().into_iter().filter(|r| r.method == "GET").collect();
    if healthy {
        super::server::start(&conf, &routes);
    }
    let mut hs = vec![];
    let mut kinds = vec![];
    for t in 0..wr(1, 4) as u16 {
        let kind = w(9);
        kinds.push(kind);
        let port = 9000 + t;
        let n = wr(1, 3);
        if kind > 0 {
            let l = TcpListener::bind(("127.0.0.1", port)).expect("bind");
            let mut answers = vec![];
            for i in 0..n {
                let r = draw_reply(i as usize);
                let cutoff = if matches!(r.code, 204 | 304) || !r.with_length { r.head } else { r.bytes.len() };
                let part = r.bytes[..w(cutoff as u64) as usize].to_vec();
                let mut a = Answer::new(vec![]);
                match kind {
                    1 => {}
                    2 => a.tail = Tail::Reset,
                    3 => {
                        a.hasty = true;
                        a.tail = Tail::Reset;
                    }
                    4 => a.hasty = true,
                    5 => a.bytes = part,
                    6 => {
                        a.bytes = part;
                        a.tail = Tail::Reset;
                    }
                    7 => {
                        a.bytes = part;
                        a.tail = Tail::Stall(pick(&[MS, SEC, 100 * SEC]));
                    }
                    _ => a.bytes = pick(&[&b"\0\0\0"[..], b"SSH-2.0-OpenSSH\r\n", b"HTTP/1.1 000\r\n\r\n", b"<html>", b"\r\n\r\n\r\n"]).to_vec(),
                }
                a.cut = Cut { gap: 0, ..Cut::draw(a.bytes.len().max(1)) };
                a.delay = [0, MS, 3 * SEC][w(3) as usize];
                answers.push(a);
            }
            spawn(&format!("bad{t}"), move || {
                for a in answers {
                    let (s, _) = l.accept().expect("accept");
                    serve_one(s, &a);
                }
            });
        }
        hs.push(spawn(&format!("caller{t}"), move || {
            for _ in 0..n {
                let at = now();
                let o = get(&format!("http://127.0.0.1:{port}/x"));
                if let Ok((c, b)) = &o {
                    fail("the client made up a response", format!("failure kind {kind}: {c:?}, {} bytes", b.len()));
                }
                if now() - at > 120 * SEC + slack() {
                    fail("a client call took far too long", format!("failure kind {kind}: {} s", (now() - at) / SEC));
                }
            }
        }));
    }
    let mut injected = vec![];
    let on_client = wchance(1, 3);
    if on_client {
        for f in ["connect_refused", "connect_timeout", "dns_fail", "socket_emfile"] {
            if wchance(1, 2) {
                fault_rate(f, 1, pick(&[1, 3]), wr(1, 4));
                injected.push(f);
            }
        }
        faults(true);
    }
    if healthy {
        for t in 0..wr(1, 3) {
            let ids: Vec<usize> = (0..wr(1, 3)).map(|_| draw_call(&routes)).collect();
            hs.push(spawn(&format!("healthy{t}"), move || {
                for id in ids {
                    let o = get(&url_of(spec(id)));
                    match (&o, on_client) {
                        (Err(_), true) => {
                            if spec(id).handled > 0 {
                                fail("a call failed although it was answered", format!("call {id}"));
                            }
                            spec(id).wild = true;
                        }
                        _ => check_call(id, &o),
                    }
                }
            }));
        }
    }
    if !wait_until(2000 * SEC, || hs.iter().all(|h| h.done())) {
        fail("a client call never returned", format!("failure kinds {kinds:?}"));
    }
    history_ok(0..wd().specs.len());
    faults(false);
    if healthy {
        // whatever happened, calls work
        calm();
        let id = draw_call(&routes);
        let o = get(&url_of(spec(id)));
        check_call(id, &o);
    }
    ok(format!("{d} kinds={kinds:?} healthy={healthy} client={injected:?}"))
}

// ------------------------------------------------------------------- C05

/// Many calls, to servers good and bad; then nothing of them may be left.
pub fn client_tidy() {
    unsafe { TIDY = true };
    let mut d = swarm_sched();
    d += &swarm_net();
    let callers = wr(1, 3) as usize;
    let focus = if wchance(2, 3) { Some(w(9)) } else { None };
    let mut kinds = vec![];
    let mut hs = vec![];
    let rounds = wr(10, 20);
    for t in 0..callers as u16 {
        let port = 9000 + t;
        let mut answers = vec![];
        for i in 0..rounds {
            let r = draw_reply(i as usize);
            let kind = focus.unwrap_or_else(|| w(9));
            kinds.push(kind);
            let part = r.bytes[..w(r.bytes.len() as u64) as usize].to_vec();
            let mut a = Answer::new(vec![]);
            match kind {
                0 => a.bytes = r.bytes.clone(),
                1 => {}
                2 => a.tail = Tail::Reset,
                3 => {
                    a.hasty = true;
                    a.tail = Tail::Reset;
                }
                4 => a.hasty = true,
                5 => a.bytes = part,
                6 => {
                    a.bytes = part;
                    a.tail = Tail::Reset;
                }
                7 => {
                    a.bytes = part;
                    a.tail = Tail::Stall(pick(&[MS, SEC]));
                }
                _ => a.bytes = pick(&[&b"\0\0\0"[..], b"SSH-2.0-OpenSSH\r\n", b"HTTP/1.1 000\r\n\r\n", b"<html>", b"\r\n\r\n\r\n"]).to_vec(),
            }
            a.cut = Cut { gap: 0, ..Cut::draw(a.bytes.len().max(1)) };
            answers.push(a);
        }
        let deaf = wchance(1, 8);
        let l = if deaf { None } else { Some(TcpListener::bind(("127.0.0.1", port)).expect("bind")) };
        if let Some(l) = l {
            spawn(&format!("server{t}"), move || {
                for a in answers.into_iter().cycle() {
                    match l.accept() {
                        Ok((s, _)) => {
                            serve_one(s, &a);
                        }
                        Err(_) => break,
                    }
                }
            });
        }
        hs.push((port, rounds));
    }
    let mut injected = vec![];
    if wchance(1, 3) {
        for f in ["connect_refused", "connect_timeout", "dns_fail", "socket_emfile", "recv_eintr", "send_eintr", "conn_reset_on_recv", "conn_reset_on_send"] {
            if wchance(1, 3) {
                fault_rate(f, 1, pick(&[1, 3]), wr(1, 12));
                injected.push(f);
            }
        }
        faults(true);
    }
    let go = |n: u64, hs: &[(u16, u64)]| {
        let v: Vec<Handle> = hs
            .iter()
            .map(|&(port, _)| {
                let n = n;
                spawn(&format!("caller{port}"), move || {
                    for i in 0..n {
                        let _ = get(&format!("http://127.0.0.1:{port}/x?i={i}"));
                    }
                })
            })
            .collect();
        if !wait_until(2000 * SEC, || v.iter().all(|h| h.done())) {
            fail("a client call never returned", "");
        }
        settle(SEC);
        crate::rt::mem::held()
    };
    let (_, before) = go(1, &hs);
    let (bytes, after) = go(rounds, &hs);
    if live_sut_threads() > 0 {
        fail("client calls have left threads behind", format!("{} threads", live_sut_threads()));
    }
    if after > before + 8 {
        fail("client calls have left memory behind", format!("{bytes} bytes in {after} blocks, {before} blocks after the first"));
    }
    ok(format!("{d} callers={callers} rounds={rounds} kinds={focus:?} client={injected:?}"))
}
fn slack() -> u64 {
    5 * MS + stalled() + 1000 * (k().cfg.lat_base + k().cfg.lat_jit)
}

//! Server scenarios about time, failures, overload and change: rate limits,
//! idle timeouts, faulty peers, failing system calls, too many connections,
//! routes registered while serving.
use super::server::{nuisances, start};
use super::web::*;
use crate::rt::kernel::k;
use crate::sim::*;
use starry::{HttpServer, Limit};

/// what scheduling and the network may add to any interval
fn slack() -> u64 {
    // a thread that spins while another is stalled looks again ever less often
    5 * MS + 2 * stalled() + 4 * (k().cfg.lat_base + k().cfg.lat_jit)
}

// ------------------------------------------------------------------- H06

#[derive(Clone, Copy, Debug)]
struct Lim {
    section: i64,
    count: usize,
    interval: i64,
}
impl Lim {
    fn draw() -> Lim {
        let section = if wchance(1, 16) { pick(&[20_000, 45_000, 130_000]) } else { [300, 50, 1000, 2000, 0, -7][w(6) as usize] };
        let interval = [0, 20, 100, 700, -3, 250][w(6) as usize];
        let count = if wchance(1, 12) { wr(6, 40) } else { wr(1, 5) };
        Lim { section, count: count as usize, interval }
    }
    fn section(&self) -> u64 {
        self.section.max(0) as u64 * MS
    }
    fn interval(&self) -> u64 {
        self.interval.max(0) as u64 * MS
    }
}
const TOO_FAST: &str = "a rate limit was exceeded";
const STARVED: &str = "a request waited although the rate limit allowed it";

/// Requests pressing on limited routes, and on one that is not.
pub fn limits() {
    let d = swarm_sched();
    nuisances();
    let n_routes = wr(1, 2) as usize;
    let mut lims = vec![];
    let mut routes = vec![];
    let mut created = vec![];
    let clients = wr(1, 6) as usize;
    let free_clients = w(3) as usize;
    let late = wchance(1, 4);
    let conf = Conf { pool: clients + free_clients + 1, keepalive: 60_000, compress: false, trace_log: false };
    let srv = as_sut(|| build(&conf));
    for i in 0..n_routes {
        let l = Lim::draw();
        let f = || (0..[0, 0, 0, 1, 2, 3][w(6) as usize]).map(|_| w(4) as usize).collect::<Vec<_>>();
        let r = Route { method: "GET", group: format!("/l{i}"), rest: "/x".into(), handler: i, filters: f(), group_filters: f() };
        lims.push(l);
        routes.push(r);
    }
    routes.push(Route::plain("GET", "/free", 9));
    let reg = |created: &mut Vec<u64>| {
        as_sut(|| {
            for (i, l) in lims.iter().enumerate() {
                let lim = Limit::new(l.section, l.count, l.interval);
                created.push(now());
                register(&srv, &routes[i], Some(lim));
            }
            register(&srv, &routes[n_routes], None);
        })
    };
    if late {
        serve_wait(&srv);
        reg(&mut created);
    } else {
        reg(&mut created);
        serve_wait(&srv);
    }
    // arrival patterns
    let slow = lims.iter().any(|l| l.section > 2000);
    if slow {
        probe("slow_limit");
    }
    let pressing = !slow && lims.iter().any(|l| l.count > 5);
    if pressing {
        probe("wide_limit");
    }
    let mut scripts: Vec<(Vec<usize>, Vec<u64>)> = vec![];
    for c in 0..clients {
        let which = w(n_routes as u64) as usize;
        let n = if pressing { wr(6, 30) } else { wr(1, if slow { 2 } else { 8 }) };
        let style = if pressing && wchance(1, 2) { 0 } else { w(4) };
        let mut ids = vec![];
        let mut gaps = vec![];
        for _ in 0..n {
            let id = routed(&routes, "GET", &routes[which].pattern());
            spec(id).keep = true;
            if !spec(id).filters.is_empty() && wchance(1, 3) {
                spec(id).answer_at = Some(w(spec(id).filters.len() as u64) as usize);
            }
            spec(id).plan.sleep = [0, 0, 0, 50 * MS][w(4) as usize];
            ids.push(id);
            gaps.push(match style {
                0 => 0,
                1 => w(400) * MS,
                2 => [0, 0, 5 * SEC][w(3) as usize],
                _ => 30 * MS,
            });
        }
        let _ = c;
        scripts.push((ids, gaps));
    }
    for _ in 0..free_clients {
        let mut ids = vec![];
        let mut gaps = vec![];
        for _ in 0..wr(1, 5) {
            ids.push(routed(&routes, "GET", "/free"));
            gaps.push(w(700) * MS);
        }
        scripts.push((ids, gaps));
    }
    let last = wd().specs.len();
    let hs: Vec<Handle> = scripts
        .into_iter()
        .enumerate()
        .map(|(i, (ids, gaps))| {
            spawn(&format!("client{i}"), move || {
                let mut c = must_connect();
                for (id, g) in ids.into_iter().zip(gaps) {
                    sleep(g);
                    let b = encode(spec(id));
                    spec(id).sent_at = now();
                    let free = spec(id).handler == Some(9);
                    c.send(&b);
                    take_answer(&mut c, id, 3000 * SEC);
                    let s = spec(id);
                    if free && s.answered_at - s.sent_at > slack() + s.plan.sleep {
                        fail("a rate limit delayed a request to another route", format!("request {id}: {} ms", (s.answered_at - s.sent_at) / MS));
                    }
                }
            })
        })
        .collect();
    if !wait_until(4000 * SEC, || hs.iter().all(|h| h.done())) {
        fail(STARVED, "a client is still waiting");
    }
    history_ok_answered(0..last);
    let mut through = vec![];
    for (i, l) in lims.iter().enumerate() {
        let mut arr: Vec<u64> = vec![];
        let mut ent: Vec<u64> = vec![];
        for id in 0..last {
            let s = spec(id);
            if s.handler == Some(i) {
                arr.push(s.sent_at);
                ent.push(s.started);
            }
        }
        arr.sort();
        ent.sort();
        through.push(ent.len());
        let tol = slack();
        // threads that are not held back reach the handler within a moment
        let near = if stalled() == 0 { 800 * US } else { tol };
        for x in 0..ent.len() {
            let show = || format!("limit {l:?}, requests let through at (ms) {:?}, sent at {:?}, limit made at {}", ent.iter().map(|t| t / MS).collect::<Vec<_>>(), arr.iter().map(|t| t / MS).collect::<Vec<_>>(), created[i] / MS);
            if x >= 1 && ent[x] - ent[x - 1] + near < l.interval() {
                fail(TOO_FAST, format!("two within the interval at position {x}; {}", show()));
            }
            if x >= l.count && ent[x] - ent[x - l.count] + near < l.section() {
                fail(TOO_FAST, format!("more than {} within a section at position {x}; {}", l.count, show()));
            }
            // the limit itself starts out as if it had just let requests through
            let before = |n: usize| if x >= n { ent[x - n] } else { created[i] };
            let due = arr[x].max(before(1) + l.interval()).max(before(l.count) + l.section());
            if ent[x] > due + tol {
                fail(STARVED, format!("request in position {x} due at {} ms; {}", due / MS, show()));
            }
        }
    }
    ok(format!("{d} {} {lims:?} clients={clients}+{free_clients} late={late} through={through:?}", conf.text()))
}
/// like history_ok, and every request was answered
fn history_ok_answered(r: std::ops::Range<usize>) {
    for id in r.clone() {
        if spec(id).answered_at == 0 {
            fail(NONE, format!("request {id}"));
        }
    }
    history_ok(r)
}

// ------------------------------------------------------------------- H07

/// what a connection does at its end
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Idle,
    Leave,
    Close,
    Partial,
}
struct Step {
    id: usize,
    think: u64,
    /// the request comes in pieces this far apart
    pieces: u64,
    gap: u64,
}

/// Connections that pause, dawdle, wait for slow handlers and read slowly.
pub fn keepalive() {
    let d = swarm_sched();
    nuisances();
    k().cfg.sock_cap = pick(&[65536, 4096, 700]);
    let mut ka = [200u64, 50, 1000, 5000, 30000][w(5) as usize] * MS;
    if wchance(1, 12) {
        // connections that live for hours
        ka = wr(1, pick(&[10, 100, 1000])) * 60 * SEC;
    }
    k().cfg.sim_budget = 10_000 * SEC + 300 * ka;
    let conns = wr(1, 4) as usize;
    // one connection with very many requests
    let many = wchance(1, 150);
    if many {
        k().cfg.edge_budget = 200_000_000;
    }
    let conf = Conf { pool: conns, keepalive: (ka / MS) as i64, compress: false, trace_log: false };
    let mut routes = simple_routes();
    routes.push(Route::plain("GET", FULL, 31));
    start(&conf, &routes);
    let before = held_at_rest(&conf, false);
    let mut hs = vec![];
    let mut desc = String::new();
    for c in 0..conns {
        let end = pick(&[End::Idle, End::Idle, End::Leave, End::Close, End::Partial]);
        let n = if ka <= 200 * MS && wchance(1, 20) { wr(20, 50) * pick(&[1, 1, 3]) } else { w(6) };
        let n = if many && c == 0 { wr(200, 1300) } else { n };
        let n = if end == End::Close { n.max(1) } else { n };
        let mut steps = vec![];
        let near = |num: u64| match w(6) {
            0 => 0,
            1 => ka / 10,
            2 => ka / 2,
            3 => ka * 9 / 10,
            4 => ka.saturating_sub(10 * MS),
            _ => ka * w(num + 1) / num,
        };
        for i in 0..n {
            let id = any_request(&routes);
            let (a, b) = (w(200) as usize, if wchance(1, 4) { 20_000 } else { w(300) as usize });
            if !many || c > 0 {
                dress(id, a);
                dress_plan(id, b);
            }
            let s = spec(id);
            s.keep = !(end == End::Close && i + 1 == n);
            if !s.keep {
                s.closing = pick(&["close", "Close", "close, TE", "TE, close", "Upgrade"]);
            }
            s.plan.sleep = match w(4) {
                0 => ka * wr(1, 4),
                1 => ka + w(20) * MS - 10 * MS,
                2 => ka * 2 / 3,
                _ => 0,
            };
            let slow = wchance(1, 4);
            steps.push(Step { id, think: near(7), pieces: if slow { wr(2, 4) } else { 1 }, gap: near(5) });
        }
        let half = if wchance(1, 2) {
            new_spec("GET", "/r/one", None)
        } else {
            let id = any_request(&routes);
            let len = w(3000) as usize;
            dress(id, len);
            id
        };
        spec(half).wild = true;
        let chunk = if wchance(1, 4) { wr(1700, 5000) as usize } else { 0 };
        let pause = if chunk > 0 { ka * wr(1, 3) / 4 } else { 0 };
        desc += &format!(" {}+{end:?}", steps.len());
        hs.push(spawn(&format!("client{c}"), move || {
            let mut c = must_connect();
            // nothing is known about the server's side before this
            let mut mark = now();
            let mut last = mark;
            let mut first = true;
            for st in &steps {
                let s = spec(st.id);
                s.port = c.port;
                sleep(st.think);
                let b = encode(s);
                let mut worst = 0;
                for p in 0..st.pieces {
                    let from = b.len() * p as usize / st.pieces as usize;
                    let to = b.len() * (p + 1) as usize / st.pieces as usize;
                    if p > 0 {
                        sleep(st.gap);
                    }
                    let t = now();
                    worst = worst.max(t - mark);
                    s.sent_at = t;
                    c.send(&b[from..to]);
                    mark = now();
                }
                (c.chunk, c.pause) = (chunk, pause);
                let g = c.recv(s.method == "HEAD", s.plan.sleep + 3000 * SEC + 100 * ka);
                match g {
                    Got::Resp(r) if r.status == 408 && s.handled == 0 && worst + slack() >= ka => return probe("timeout_answered"),
                    Got::Resp(r) => {
                        s.answered_at = now();
                        if let Err(e) = judge(s, &r) {
                            fail(WRONG, format!("request {}: {e}", st.id));
                        }
                    }
                    // it came too late, or nearly so
                    Got::Eof(0) | Got::Reset(0) if s.handled == 0 && worst + slack() >= ka => return probe("gap_too_long"),
                    Got::Bad(e) => fail("the server sent something that is no response", e),
                    g if s.handled == 0 => fail("a connection was closed before its keep-alive time was over", format!("request {}: longest gap {} ms, keep-alive {} ms: {g:?}", st.id, worst / MS, ka / MS)),
                    g => fail("a busy connection was cut off", format!("request {}: {g:?}, handler takes {} ms, keep-alive {} ms", st.id, s.plan.sleep / MS, ka / MS)),
                }
                (c.chunk, c.pause) = (0, 0);
                // for the server, the pause may have begun when the handler
                // was done, however slowly the client reads
                mark = s.left;
                last = now();
                first = false;
                if !s.keep {
                    c.expect_end(slack() + SEC, "after the response to a closing request");
                    if now() - last > slack() {
                        fail("a connection that asked to be closed was closed late", format!("{} ms after the response", (now() - last) / MS));
                    }
                    return;
                }
            }
            match end {
                End::Leave => {
                    sleep(w(3) * ka / 4);
                }
                End::Idle | End::Close => {
                    let from = if first { mark } else { spec(steps.last().unwrap().id).left };
                    idle_end(&mut c, from, last, ka);
                }
                End::Partial => {
                    let s = spec(half);
                    s.port = c.port;
                    let b = encode(s);
                    let n = wr(1, b.len() as u64 - 1) as usize;
                    let pieces = wr(1, 3).min(n as u64) as usize;
                    let mut worst = 0;
                    let mut before = mark;
                    for p in 0..pieces {
                        if p > 0 {
                            sleep(ka / 3);
                        }
                        worst = worst.max(now() - before);
                        before = now();
                        c.send(&b[n * p / pieces..n * (p + 1) / pieces]);
                    }
                    let sent = now();
                    let head = find(&b, b"\r\n\r\n", 0).unwrap_or(0) + 4;
                    probe(if n < head { "half.head" } else { "half.body" });
                    // the timeout is answered, then the connection ends
                    match c.recv(s.method == "HEAD", ka + SEC + slack()) {
                        Got::Resp(r) if r.status == 408 => {
                            if worst + slack() < ka && now() + slack() < sent + ka {
                                fail("a connection was closed before its keep-alive time was over", format!("half a request was answered after {} of {} ms", (now() - sent) / MS, ka / MS));
                            }
                            c.expect_end(SEC + slack(), "after the answer to half a request")
                        }
                        // the last pieces came too late, or nearly so
                        Got::Eof(0) | Got::Reset(0) if worst + slack() >= ka => {}
                        g => fail("a connection with half a request was not answered with a timeout and closed", format!("{n} of {} bytes: {g:?}", b.len())),
                    }
                    if s.handled > 0 {
                        fail("a request was handled that was never complete", format!("{n} of {} bytes", b.len()));
                    }
                }
            }
        }));
    }
    if !wait_until(9000 * SEC + 290 * ka, || hs.iter().all(|h| h.done())) {
        fail(NONE, "a client is still waiting");
    }
    // nobody is there any more: all workers are free again
    calm();
    sleep(2 * SEC);
    full_service(conns, 31, false);
    nothing_left(before, &conf);
    ok(format!("{d} {}{desc}", conf.text()))
}
fn idle_end(c: &mut Conn, from: u64, mark: u64, ka: u64) {
    let until = mark + ka + SEC + slack();
    c.expect_end(until - now(), "after the keep-alive time");
    let t = now();
    if t + slack() < from + ka {
        fail("a connection was closed before its keep-alive time was over", format!("after {} of {} ms", (t - from) / MS, ka / MS));
    }
    if t > mark + ka + slack() {
        fail("an idle connection was closed late", format!("after {} instead of {} ms", (t - mark) / MS, ka / MS));
    }
}

// ------------------------------------------------------------------- H08

fn broken(routes: &[Route], ka: u64) -> (Vec<u8>, &'static str) {
    let id = any_request(routes);
    if spec(id).method == "HEAD" {
        // one could not tell where its answer ends
        spec(id).method = "PUT";
    }
    let len = w(300) as usize;
    dress(id, len);
    spec(id).wild = true;
    spec(id).keep = wchance(1, 2);
    let s = spec(id);
    let mut b = encode(s);
    let p = find(&b, b"X-Id: ", 0).unwrap();
    b[p + 2..p + 4].copy_from_slice(b"ZZ");
    let _ = ka;
    let n = b.len() as u64;
    let kind = w(14);
    let put = |b: &[u8], from: &str, to: &str| -> Vec<u8> {
        match find(b, from.as_bytes(), 0) {
            Some(p) => [&b[..p], to.as_bytes(), &b[p + from.len()..]].concat(),
            None => [to.as_bytes(), b].concat(),
        }
    };
    let out = match kind {
        0 => {
            let i = w(n) as usize;
            let j = (i + 1 + w(20) as usize).min(b.len());
            b.drain(i..j);
            b
        }
        1 => {
            for _ in 0..wr(1, 4) {
                let i = w(n) as usize;
                b[i] = w(256) as u8;
            }
            b
        }
        2 => {
            let i = w(n) as usize;
            let g: Vec<u8> = (0..wr(1, 30)).map(|_| w(256) as u8).collect();
            b.splice(i..i, g);
            b
        }
        3 => (0..wr(1, 300)).map(|_| w(256) as u8).collect(),
        4 => b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03\x9a\x7f\r\n\r\n".to_vec(),
        5 => b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n".to_vec(),
        6 => pick(&[&b"\r\n\r\n"[..], b"\n\n", b" \r\n\r\n", b"GET\r\n\r\n", b"GET /\r\n\r\n", b"GET  HTTP/1.1\r\nHost: h\r\n\r\n", b"GET / HTTP/1.1 x\r\nHost: h\r\n\r\n", b"GET /r/one HTTP/1.1\r\n: \r\n\r\n", b"GET /r/one HTTP/1.1\r\nHost\r\n\r\n", b"GET /r/one HTTP/9.9\r\nHost: h\r\n\r\n", b"get /r/one HTTP/1.1\r\nHost: h\r\n\r\n", b"GET /r/one HTTP/1.1\r\nHost: h\r\n:\r\n\r\n"]).to_vec(),
        7 => {
            let l = pick(&["-1", "abc", "99999999999999999999999", "1e3", "", " 5", "0x10", "5, 5", "+3", "18446744073709551615", "4294967297"]);
            [&b"POST /r/one HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\nContent-Length: "[..], l.as_bytes(), b"\r\n\r\nhello"].concat()
        }
        8 => {
            let u = pick(&["?", "?&", "?=", "?a", "?a&&b=", "?a==b", "?a=b?c=d", "#", "#?", "?#", "%", "%zz?%=%", "/../..", "//", "?a=\u{e9}", "/\u{1F600}"]);
            format!("GET /r/one{u} HTTP/1.1\r\nHost: h\r\n\r\n").into_bytes()
        }
        9 => {
            let h = pick(&["Cookie: ;;; =", "Cookie: a", "Cookie: =b; c=", "Cookie: \u{e9}=\u{e9}", "Authorization: Basic", "Authorization: Basic !!!", "Authorization: Basic YQ==", "Authorization: Basic //8=", "Authorization: ", "Accept-Encoding: ,,;q=", "Content-Type: ", "Content-Type: ;", "Content-Type: multipart/form-data", "Content-Type: multipart/form-data; boundary=", "Connection: ", "Content-Encoding: gzip", "Transfer-Encoding: chunked", "Host: ", "Expect: 100-continue"]);
            let m = pick(&["GET", "POST"]);
            format!("{m} /r/one HTTP/1.1\r\nHost: h\r\n{h}\r\nContent-Length: 4\r\n\r\nabcd").into_bytes()
        }
        10 => {
            let body = pick(&["", "--B", "--B--", "--B\r\n", "--B\r\n\r\n\r\n--B--", "--B\r\nContent-Disposition: form-data; name=\"a\r\n\r\nx\r\n--B--\r\n", "--B\r\nContent-Disposition: form-data; name=\"a\"; filename=\"\r\n\r\nx\r\n--B--\r\n", "--B\r\nContent-Disposition: form-data; name\r\n\r\nx\r\n--B--\r\n", "--B\r\nContent-Disposition: form-data; name=\"a\"\r\nContent-Type\r\n\r\nx\r\n--B--\r\n", "--C\r\n\r\n--C--", "--B\nContent-Disposition: form-data; name=a\n\nx\n--B--\n", "\r\n--B\r\n\u{e9}\r\n--B--"]);
            format!("POST /r/one HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: {}\r\n\r\n{body}", body.len()).into_bytes()
        }
        11 => put(&b, "\r\nHost:", "\r\nHast:"),
        12 => {
            let mut o = b"GET /r/one HTTP/1.1\r\nHost: h\r\nX: \xff\xfe\x00\x01\r\n\xc3\x28: y\r\n\r\n".to_vec();
            if wchance(1, 2) {
                o = [&b"GET /r/\xff\xfe?\xc3=\x28 HTTP/1.1\r\n"[..], &o[22..]].concat();
            }
            o
        }
        _ => {
            // longer than what is asked for
            let mut o = b.clone();
            o.extend_from_slice(b"trailing rubbish");
            o
        }
    };
    (out, ["cut_out", "flipped", "inserted", "noise", "tls", "http2", "stub", "content_length", "target", "header", "multipart", "no_host", "not_utf8", "surplus"][kind as usize])
}

/// read whatever comes until the end; it has to be responses
fn drain(c: &mut Conn, timeout: u64, why: &str) {
    let until = now() + timeout;
    loop {
        match c.recv(false, until.saturating_sub(now()).max(1)) {
            Got::Resp(_) => {}
            Got::Eof(0) | Got::Reset(_) => return,
            Got::Eof(n) => fail("the server cut a response short", format!("{n} bytes, {why}")),
            Got::Timeout(_) => fail("the server left a connection open that it cannot serve", why),
            Got::Bad(e) => fail("the server sent something that is no response", format!("{e}, {why}")),
        }
    }
}

/// one misdeed; true: no head in the answer to be expected
fn misbehave(routes: &[Route], ka: u64, what: u64) {
    let patience = 200 * SEC;
    let Some(mut c) = connect() else { return };
    match what {
        0 | 1 => {
            // gone in the middle of the request, or of the response
            let id = any_request(routes);
            let len = w(2000) as usize;
            dress(id, len);
            spec(id).wild = true;
            spec(id).plan.body = bytes_for(id, w(30_000) as usize, false);
            spec(id).plan.sleep = [0, 0, 20 * MS][w(3) as usize];
            let b = encode(spec(id));
            let n = if wchance(1, 2) { w(b.len() as u64 + 1) as usize } else { b.len() };
            c.send_cut(&b[..n], Cut::draw(n.max(1)));
            sleep([0, 100 * US, 5 * MS, 30 * MS, 600 * MS][w(5) as usize]);
            if wchance(1, 3) {
                c.chunk = 100;
                let _ = c.recv(false, MS);
            }
            if what == 0 {
                probe("client.leaves");
            } else {
                probe("client.resets");
                c.reset();
            }
        }
        2 => {
            probe("client.stalls");
            let id = any_request(routes);
            spec(id).wild = true;
            let b = encode(spec(id));
            let n = w(b.len() as u64) as usize;
            c.send(&b[..n]);
            drain(&mut c, patience, "stalled in the middle of a request");
        }
        3 | 4 | 5 => {
            let (b, kind) = broken(routes, ka);
            probe(&format!("client.sends.{kind}"));
            note(format!("sends {}", show(&b)));
            c.send_cut(&b, Cut::draw(b.len()));
            match w(4) {
                0 => {
                    use std::net::Shutdown;
                    let _ = c.s.shutdown(Shutdown::Write);
                }
                1 => return,
                _ => {}
            }
            drain(&mut c, patience, &format!("after sending {}", show(&b)));
        }
        6 => {
            // does not read; the handler sends a lot
            probe("client.never_reads");
            let id = any_request(routes);
            spec(id).wild = true;
            spec(id).plan.body = bytes_for(id, 150_000, false);
            let b = encode(spec(id));
            c.send(&b);
            sleep(wr(1, 4) * ka / 3);
            if wchance(1, 2) {
                c.reset();
            }
        }
        _ => {
            // the handler, or a filter, panics
            let id = any_request(routes);
            dress(id, 100);
            let s = spec(id);
            s.plan.panic = 1 + w(2) as u8;
            s.plan.sleep = [0, 10 * MS][w(2) as usize];
            s.keep = wchance(1, 2);
            probe(if s.plan.panic == 1 { "handler.panics" } else { "handler.panics_after" });
            let mut b = encode(s);
            // more requests right behind it do not get its answer's place
            let more = wchance(1, 3);
            if more {
                for _ in 0..wr(1, 2) {
                    b.extend_from_slice(&encode(spec(any_request(routes))));
                }
            }
            let s = spec(id);
            c.send(&b);
            if more && s.plan.panic == 1 {
                probe("handler.panics_pipelined");
                match c.recv(s.method == "HEAD", patience) {
                    Got::Eof(0) | Got::Reset(_) => return,
                    Got::Resp(r) if r.status >= 500 => {}
                    g => fail("a request was answered in place of the one whose handler panicked", format!("request {id}: {g:?}")),
                }
                return drain(&mut c, patience, "after its handler panicked");
            }
            match c.recv(s.method == "HEAD", patience) {
                Got::Resp(r) if s.plan.panic == 2 => {
                    if let Err(e) = judge(s, &r) {
                        fail(WRONG, format!("request {id}: {e}"));
                    }
                }
                // the server may say so
                Got::Resp(r) if r.status >= 500 => {}
                Got::Eof(0) | Got::Reset(0) if s.plan.panic == 1 => return,
                g => fail("the client of a panicking handler was left without an end", format!("{g:?}")),
            }
            drain(&mut c, patience, "after its handler panicked");
        }
    }
}

// ------------------------------------------------------------------- H12

static mut TIDY: bool = false;

fn open_sockets() -> Vec<String> {
    use crate::rt::net::SS;
    let of = |x: &crate::rt::net::Sock| format!("socket {} to {} ({:?})", x.port, x.peer_port, x.st);
    k().net.socks.iter().filter(|x| x.sut && !x.closed && x.st != SS::Listening).map(of).collect()
}
/// once everything has been in use and is idle again: the number of threads
fn held_at_rest(conf: &Conf, compress: bool) -> Option<(usize, i64, i64)> {
    if !unsafe { TIDY } {
        return None;
    }
    let f = k().faults_on;
    full_service(conf.pool, 31, compress);
    sleep(conf.keepalive as u64 * MS + 10 * SEC);
    k().set_calm(false);
    k().faults_on = f;
    let (b, n) = crate::rt::mem::held();
    Some((live_sut_threads(), b, n))
}
/// nobody is connected any more: nothing may be left of those who were
fn nothing_left(before: Option<(usize, i64, i64)>, conf: &Conf) {
    let Some((before, bytes, blocks)) = before else { return };
    // some have come to stay: they never close what they have opened
    let n = if wchance(1, 2) { 0 } else { wr(1, 6) };
    for i in 0..n {
        let what = w(5);
        spawn(&format!("squatter{i}"), move || squat(what));
    }
    sleep((n + 1) * (conf.keepalive as u64 * MS + SEC) + 10 * SEC);
    let open = open_sockets();
    if !open.is_empty() {
        fail("connections that have ended are still held open", format!("{open:?}"));
    }
    if live_sut_threads() > before {
        fail("connections that have ended have left threads behind", format!("{} threads instead of {before}\n{}", live_sut_threads(), k().dump()));
    }
    let (b, n) = crate::rt::mem::held();
    // each worker has a little of its own, made when first needed
    if n > blocks + 3 * conf.pool as i64 + 4 {
        fail("connections that have ended have left memory behind", format!("{} bytes in {} blocks", b - bytes, n - blocks));
    }
}
/// A client that leaves the end of the connection to the server, and keeps its own.
fn squat(what: u64) {
    let Some(mut c) = connect() else { return };
    wd().stray_ok = true;
    let id = new_spec("GET", FULL, Some(31));
    let s = spec(id);
    s.wild = true;
    s.keep = what == 3;
    let b = encode(s);
    match what {
        0 => {}
        1 => {
            c.send(&b[..wr(1, b.len() as u64 - 1) as usize]);
        }
        2 => {
            c.send(&bytes_for(id, wr(1, 300) as usize, false));
        }
        _ => {
            c.send(&b);
            if what == 3 && wchance(1, 2) {
                c.recv(false, 100 * SEC);
            }
        }
    }
    probe("tidy.squatter");
    std::mem::forget(c);
}
fn tidily(f: fn()) {
    unsafe { TIDY = true };
    f()
}
pub fn tidy_chaos() {
    tidily(chaos)
}
pub fn tidy_refusals() {
    tidily(refusals)
}
pub fn tidy_keepalive() {
    tidily(keepalive)
}
pub fn tidy_overload() {
    tidily(overload)
}

/// Healthy clients among faulty ones.
pub fn chaos() {
    let mut d = swarm_sched();
    d += &swarm_net();
    if k().cfg.seg == 1 {
        k().cfg.seg = 20;
    }
    k().cfg.sock_cap = pick(&[65536, 8192]);
    nuisances();
    wd().stray_ok = true;
    let ka = [300u64, 1000, 3000][w(3) as usize] * MS;
    k().cfg.stall_max = k().cfg.stall_max.min(ka / 10);
    let conf = Conf { pool: wr(1, 4) as usize, keepalive: (ka / MS) as i64, compress: wchance(1, 4), trace_log: wchance(1, 100) };
    let mut routes = simple_routes();
    routes.push(Route::plain("GET", FULL, 31));
    start(&conf, &routes);
    let before = held_at_rest(&conf, conf.compress);
    let focus = if wchance(1, 2) { Some(w(9)) } else { None };
    let mut hs = vec![];
    let bad = wr(1, 5);
    let good = wr(1, 3);
    for i in 0..bad {
        let n = wr(1, 4);
        let whats: Vec<(u64, u64)> = (0..n).map(|_| (focus.unwrap_or_else(|| w(9)), [0, 0, MS, 100 * MS][w(4) as usize])).collect();
        let rs = routes[..18].to_vec();
        hs.push(spawn(&format!("faulty{i}"), move || {
            for (x, t) in whats {
                sleep(t);
                misbehave(&rs, ka, x);
            }
        }));
    }
    let mut sane = vec![];
    for i in 0..good {
        let mut scripts = vec![];
        for _ in 0..wr(1, 3) {
            let n = wr(1, 3);
            let mut ids = super::server::sequence(&routes[..18], n, conf.compress, false, true);
            for id in &mut ids {
                // not a reason to be idle
                spec(*id).plan.sleep = spec(*id).plan.sleep.min(30 * MS);
            }
            let len: usize = ids.iter().map(|i| encode(spec(*i)).len()).sum();
            sane.extend_from_slice(&ids);
            let mut sc = Script::new(ids);
            sc.pipelined = wchance(1, 2);
            sc.cut = Cut { gap: 0, ..Cut::draw(len) };
            sc.timeout = 900 * SEC;
            scripts.push(sc);
        }
        let t = [0, MS, 50 * MS][w(3) as usize];
        hs.push(spawn(&format!("healthy{i}"), move || {
            for sc in scripts {
                sleep(t);
                run_script(&sc);
            }
        }));
    }
    if !wait_until(2500 * SEC, || hs.iter().all(|h| h.done())) {
        fail(NONE, "a client is still waiting");
    }
    for id in &sane {
        if spec(*id).answered_at == 0 {
            fail(NONE, format!("request {id}"));
        }
    }
    calm();
    sleep(ka + 5 * SEC);
    full_service(conf.pool, 31, conf.compress);
    nothing_left(before, &conf);
    ok(format!("{d}{} faulty={bad} healthy={good} focus={focus:?} strays={}", conf.text(), wd().strays))
}

/// The same mishap, again and again.
pub fn endurance() {
    let mut d = swarm_sched();
    d += &swarm_net();
    if k().cfg.seg > 0 && k().cfg.seg < 100 {
        k().cfg.seg = 100;
    }
    k().cfg.switch_budget = 1_500_000;
    k().cfg.sim_budget = 20_000 * SEC;
    wd().stray_ok = true;
    let ka = [100u64, 300][w(2) as usize] * MS;
    // nobody is late for being stalled
    k().cfg.stall_max = k().cfg.stall_max.min(ka / 10);
    let conf = Conf { pool: wr(1, 3) as usize, keepalive: (ka / MS) as i64, compress: wchance(1, 4), trace_log: false };
    let mut routes = simple_routes();
    routes.push(Route::plain("GET", FULL, 31));
    start(&conf, &routes);
    let before = held_at_rest(&conf, conf.compress);
    let what = [8, 8, 8, 0, 1, 2, 3, 6][w(8) as usize];
    let total = wr(20, 80);
    let clients = wr(1, 3);
    let mut hs = vec![];
    for i in 0..clients {
        let n = total / clients;
        let rs = routes[..18].to_vec();
        hs.push(spawn(&format!("faulty{i}"), move || {
            for _ in 0..n {
                misbehave(&rs, ka, what);
            }
        }));
    }
    if !wait_until(15_000 * SEC, || hs.iter().all(|h| h.done())) {
        fail(NONE, "a client is still waiting");
    }
    probe(&format!("endured.{what}"));
    calm();
    sleep(ka + 5 * SEC);
    full_service(conf.pool, 31, conf.compress);
    // and everything is as it was
    let ids = super::server::sequence(&routes[..18], wr(2, 6), conf.compress, false, true);
    for id in &ids {
        spec(*id).plan.sleep = 0;
    }
    let mut sc = Script::new(ids.clone());
    sc.timeout = 900 * SEC;
    run_script(&sc);
    for id in &ids {
        if spec(*id).answered_at == 0 {
            fail(NONE, format!("request {id}"));
        }
    }
    nothing_left(before, &conf);
    ok(format!("{d}{} what={what} times={total} by {clients}", conf.text()))
}
pub fn tidy_endurance() {
    tidily(endurance)
}

// ------------------------------------------------------------------- H09

/// System calls fail while serving, then no longer.
pub fn refusals() {
    let mut d = swarm_sched();
    let conf = Conf { pool: wr(1, 4) as usize, keepalive: 1000, compress: false, trace_log: wchance(1, 60) };
    let mut routes = simple_routes();
    routes.push(Route::plain("GET", FULL, 31));
    start(&conf, &routes);
    let before = held_at_rest(&conf, false);
    let mut kinds = vec![];
    for f in ["accept_econnaborted", "accept_emfile", "accept_eintr", "dup_emfile", "thread_spawn_eagain", "recv_eintr", "send_eintr", "conn_reset_on_recv", "conn_reset_on_send", "peername_enotconn"] {
        if wchance(1, 3) {
            let n = pick(&[1u64, 1, 3]);
            let den = pick(&[1u64, 2, 6]).max(n);
            let max = pick(&[1u64, 3, 10, 40, 200]);
            fault_rate(f, n.min(den), den, max);
            kinds.push(format!("{f}:{n}/{den}x{max}"));
        }
    }
    d += &format!(" faults={kinds:?}");
    faults(true);
    let panics = wchance(1, 2);
    let mut hs = vec![];
    let clients = wr(1, 4);
    let long = wchance(1, 12);
    if long {
        k().cfg.switch_budget = 1_500_000;
    }
    for i in 0..clients {
        let mut plan = vec![];
        for _ in 0..if long { wr(10, 30) } else { wr(1, 4) } {
            let n = if long { 1 } else { wr(1, 3) };
            let ids = super::server::sequence(&routes[..18], n, false, false, true);
            for id in &ids {
                spec(*id).wild = false;
                if panics && wchance(1, 3) {
                    spec(*id).plan.panic = 1;
                }
            }
            plan.push(ids);
        }
        hs.push(spawn(&format!("client{i}"), move || {
            for ids in plan {
                let Some(mut c) = connect() else { continue };
                for id in ids {
                    spec(id).port = 0;
                    let b = encode(spec(id));
                    spec(id).sent_at = now();
                    c.send(&b);
                    let s = spec(id);
                    match c.recv(s.method == "HEAD", 400 * SEC) {
                        Got::Resp(r) if s.plan.panic == 1 && r.status >= 500 => {}
                        Got::Resp(r) => {
                            s.answered_at = now();
                            if let Err(e) = judge(s, &r) {
                                fail(WRONG, format!("request {id}: {e}"));
                            }
                        }
                        Got::Eof(0) => break,
                        // a connection reset by a fault may be cut anywhere
                        Got::Reset(_) => break,
                        Got::Eof(n) => fail("the server cut a response short", format!("{n} bytes of the response to {id}")),
                        Got::Bad(e) => fail("the server sent something that is no response", e),
                        Got::Timeout(_) => fail("a connection was neither served nor closed", format!("request {id}, handled {} times", s.handled)),
                    }
                    if !s.keep {
                        drain(&mut c, 400 * SEC, "after the response to a closing request");
                    }
                }
            }
        }));
    }
    if !wait_until(2500 * SEC, || hs.iter().all(|h| h.done())) {
        fail(NONE, "a client is still waiting");
    }
    for s in wd().specs.iter() {
        if s.handled > 1 {
            fail("a request was handled twice", format!("request {}", s.id));
        }
    }
    if wd().listen_result.is_some() {
        fail("the server gave up", format!("{:?}", wd().listen_result));
    }
    calm();
    sleep(10 * SEC);
    full_service(conf.pool, 31, false);
    nothing_left(before, &conf);
    ok(format!("{d} {} clients={clients} panics={panics}", conf.text()))
}

/// Starting fails; the caller learns it, and may try again.
pub fn startup() {
    let d = swarm_sched();
    let conf = Conf { pool: wr(1, 5) as usize, keepalive: 1000, compress: false, trace_log: false };
    let mut routes = simple_routes();
    routes.push(Route::plain("GET", FULL, 31));
    let srv: HttpServer = as_sut(|| {
        let s = build(&conf);
        for r in &routes {
            register(&s, r, None);
        }
        s
    });
    let kind = w(4);
    let mut blocker = None;
    match kind {
        0 => fault_rate("bind_fail", 1, pick(&[1, 2]), 1),
        1 => fault_rate("socket_emfile", 1, pick(&[1, 2]), 1),
        2 => fault_rate("thread_spawn_eagain", 1, pick(&[1, 2, 5]), wr(1, 4)),
        _ => blocker = Some(std::net::TcpListener::bind(("127.0.0.1", PORT)).expect("blocker")),
    }
    let others = if blocker.is_some() { 1 } else { 0 };
    faults(true);
    let count = || k().net.socks.iter().filter(|x| x.st == crate::rt::net::SS::Listening && !x.closed).count();
    serve(&srv);
    if !wait_until(60 * SEC, || wd().listen_result.is_some() || count() > others) {
        fail("a failed start was not reported", format!("kind {kind}: the listener neither listens nor returns"));
    }
    faults(false);
    let mut failed = false;
    if let Some(r) = &wd().listen_result {
        failed = true;
        if r.is_ok() {
            fail("a failed start was reported as success", format!("kind {kind}"));
        }
        settle(5 * SEC);
        // whatever was half started is gone
        if live_sut_threads() > 0 {
            fail("a failed start left threads behind", format!("{} threads", live_sut_threads()));
        }
        wd().listen_result = None;
        drop(blocker);
        serve_wait(&srv);
    } else if kind == 3 {
        fail("two servers listen on one address", "");
    } else if kind == 2 {
        // a pool that starts at all starts completely
        sleep(SEC);
        if let Some(r) = &wd().listen_result {
            fail("the server gave up", format!("{r:?}"));
        }
    }
    full_service(conf.pool, 31, false);
    ok(format!("{d} {} kind={kind} failed={failed}", conf.text()))
}

// ------------------------------------------------------------------- H10

/// Many connections at once.
pub fn overload() {
    let d = swarm_sched();
    k().cfg.switch_budget = 1_500_000;
    let ka = [500u64, 2000][w(2) as usize] * MS;
    let conf = Conf { pool: wr(1, 3) as usize, keepalive: (ka / MS) as i64, compress: false, trace_log: false };
    let mut routes = simple_routes();
    routes.push(Route::plain("GET", FULL, 31));
    start(&conf, &routes);
    let before = held_at_rest(&conf, false);
    let flood = wchance(1, 24);
    let n = match w(6) {
        _ if flood => wr(300, 480),
        0 | 1 => wr(2, 12),
        2 => wr(12, 60),
        3 => wr(90, 110),
        4 => wr(60, 140),
        _ => wr(100, 104),
    } as usize;
    let threads = wr(1, 3).min(n as u64) as usize;
    let slow = [0, MS, 40 * MS, 300 * MS][w(4) as usize];
    let mut hs = vec![];
    // (requests of the connection)
    let mut all: Vec<Vec<usize>> = vec![];
    for t in 0..threads {
        let mine = n / threads + usize::from(t < n % threads);
        let mut plans = vec![];
        for _ in 0..mine {
            let mut ids = vec![];
            for _ in 0..if flood { 1 } else { wr(1, 2) } {
                let id = any_request(&routes[..18]);
                let l = if !flood && wchance(1, 8) { 20_000 } else { w(60) as usize };
                spec(id).plan.body = bytes_for(id, l, false);
                spec(id).plan.sleep = if wchance(1, 3) { slow } else { 0 };
                ids.push(id);
            }
            let last = *ids.last().unwrap();
            spec(last).keep = wchance(1, 3);
            let idle = wchance(1, 12);
            all.push(ids.clone());
            plans.push((ids, idle));
        }
        let send_late = flood || wchance(1, 3);
        hs.push(spawn(&format!("crowd{t}"), move || {
            let mut cs: Vec<(Option<Conn>, Vec<usize>, bool)> = vec![];
            for (ids, idle) in plans {
                let mut c = connect();
                if let (Some(c), false, false) = (&mut c, send_late, idle) {
                    let b: Vec<u8> = ids.iter().flat_map(|i| encode(spec(*i))).collect();
                    c.send(&b);
                }
                cs.push((c, ids, idle));
            }
            if send_late {
                for (c, ids, idle) in cs.iter_mut() {
                    if let (Some(c), false) = (c, *idle) {
                        let b: Vec<u8> = ids.iter().flat_map(|i| encode(spec(*i))).collect();
                        c.send(&b);
                    }
                }
            }
            for (c, ids, idle) in cs {
                let Some(mut c) = c else {
                    for id in &ids {
                        spec(*id).wild = true;
                    }
                    probe("overload.not_connected");
                    continue;
                };
                if idle {
                    // it asks for nothing, and is closed for that
                    c.expect_end(2000 * SEC, "after the keep-alive time");
                    for id in &ids {
                        spec(*id).wild = true;
                    }
                    continue;
                }
                let mut open = true;
                for (i, id) in ids.iter().enumerate() {
                    let s = spec(*id);
                    if !open {
                        if s.handled > 0 {
                            fail("a request was handled but not answered", format!("request {id}"));
                        }
                        continue;
                    }
                    match c.recv(s.method == "HEAD", 2000 * SEC) {
                        Got::Resp(r) => {
                            s.answered_at = now();
                            if let Err(e) = judge(s, &r) {
                                fail(WRONG, format!("request {id}: {e}"));
                            }
                        }
                        Got::Eof(0) | Got::Reset(0) if i == 0 && s.handled == 0 => {
                            probe("overload.turned_away");
                            open = false;
                        }
                        Got::Bad(e) => fail("the server sent something that is no response", e),
                        Got::Timeout(_) => fail("a connection was neither served nor closed", format!("request {id}, handled {} times", s.handled)),
                        g => fail("a connection was served in part", format!("request {id}: {g:?}, handled {} times", s.handled)),
                    }
                }
                if open {
                    c.expect_end(2000 * SEC, "at the end of an overload connection");
                }
            }
        }));
    }
    if !wait_until(3000 * SEC, || hs.iter().all(|h| h.done())) {
        fail(NONE, "a client is still waiting");
    }
    let mut away = 0;
    for ids in &all {
        let f = spec(ids[0]);
        if !f.wild && f.answered_at == 0 {
            away += 1;
        }
        for id in ids {
            if spec(*id).handled > 1 {
                fail("a request was handled twice", format!("request {id}"));
            }
        }
    }
    // there is room for a hundred waiting connections
    if away > 0 && n <= 100 {
        fail("a connection was turned away although there was room", format!("{away} of {n} simultaneous connections"));
    }
    calm();
    sleep(ka + SEC);
    full_service(conf.pool, 31, false);
    nothing_left(before, &conf);
    ok(format!("{d} {} connections={n} threads={threads} turned_away={away}", conf.text()))
}

// ------------------------------------------------------------------- H11

/// Routes come while requests are served.
pub fn registering() {
    let mut d = swarm_sched();
    d += &swarm_net();
    if k().cfg.seg == 1 {
        k().cfg.seg = 40;
    }
    let conf = Conf { pool: wr(2, 5) as usize, keepalive: 5000, compress: false, trace_log: false };
    let mut old = vec![
        Route::plain("GET", "/old/a", 0),
        Route::plain("GET", "/old/:x", 1),
        Route::plain("POST", "/old/:x/b", 2),
        Route::plain("GET", FULL, 31),
    ];
    old[1].filters = vec![0, 1];
    old[2].group_filters = vec![2];
    // the new ones: of each registering thread under a prefix of its own, or
    // deep inside the old ones
    let regs = wr(1, 3) as usize;
    let mut new: Vec<Vec<Route>> = vec![];
    let mut h = 3;
    for i in 0..regs {
        let mut v: Vec<Route> = vec![];
        for j in 0..wr(1, 6) {
            let g = if wchance(1, 2) { format!("/n{i}") } else { format!("/old/a/n{i}") };
            let rest = match w(4) {
                0 => format!("/s{j}"),
                1 => format!("/s{j}/:p"),
                2 => format!("/s{j}/:q/t"),
                _ => format!("/{j}/:x/:y"),
            };
            let f = || (0..w(3)).map(|_| w(8) as usize).collect::<Vec<_>>();
            v.push(Route { method: pick(&["GET", "GET", "PUT", "HEAD"]), group: g, rest, handler: h, filters: f(), group_filters: f() });
            h += 1;
        }
        new.push(v);
    }
    let srv = start(&conf, &old);
    // registration i.j is done
    let total: usize = new.iter().map(|v| v.len()).sum();
    let done: &'static mut Vec<(u64, u64)> = Box::leak(Box::new(vec![(u64::MAX, u64::MAX); total]));
    let done: *mut Vec<(u64, u64)> = done;
    let done = done as usize;
    let mut flat: Vec<Route> = vec![];
    for v in &new {
        flat.extend(v.iter().cloned());
    }
    let mut hs = vec![];
    let mut base = 0;
    for (i, v) in new.into_iter().enumerate() {
        let srv = srv.clone();
        let b = base;
        base += v.len();
        let bad: Vec<u64> = v.iter().map(|_| w(8)).collect();
        let gaps: Vec<u64> = v.iter().map(|_| [0, 0, MS, 20 * MS][w(4) as usize]).collect();
        hs.push(spawn(&format!("register{i}"), move || {
            let done = unsafe { &mut *(done as *mut Vec<(u64, u64)>) };
            for (j, r) in v.iter().enumerate() {
                sleep(gaps[j]);
                done[b + j].0 = now();
                if !quietly(|| register(&srv, r, None)) {
                    fail("a valid registration was rejected", format!("{} {}", r.method, r.pattern()));
                }
                done[b + j].1 = now();
                note(format!("registered {} {}", r.method, r.pattern()));
                let dup = match bad[j] {
                    0 => Some(Route { handler: 30, ..r.clone() }),
                    1 => Some(Route::plain("GET", "/old/a", 30)),
                    2 => Some(Route::plain("GET", "/old/:other", 30)),
                    3 => Some(Route::plain(r.method, "no/slash", 30)),
                    _ => None,
                };
                if let Some(x) = dup {
                    if quietly(|| register(&srv, &x, None)) {
                        probe("register.accepted_again");
                        fail("an invalid registration was accepted", format!("{} {}", x.method, x.pattern()));
                    } else {
                        probe("register.rejected");
                    }
                }
            }
        }));
    }
    let clients = wr(1, conf.pool as u64 - 1);
    for i in 0..clients {
        let old = old.clone();
        let flat = flat.clone();
        let n = wr(2, 10);
        hs.push(spawn(&format!("client{i}"), move || {
            let done = unsafe { &*(done as *const Vec<(u64, u64)>) };
            let mut c = None;
            for _ in 0..n {
                sleep([0, 0, 300 * US, 8 * MS][w(4) as usize]);
                let mut unsure = None;
                let id;
                if wchance(1, 3) {
                    let (m, p) = pick(&[("GET", "/old/a"), ("GET", "/old/zz"), ("POST", "/old/q/b")]);
                    id = routed(&old, m, p);
                } else {
                    let x = w(flat.len() as u64) as usize;
                    let r = &flat[x];
                    let p = r.pattern().replace(":p", "1a").replace(":q", "b").replace(":x", "c").replace(":y", "");
                    id = routed(&flat, r.method, &p);
                    unsure = Some(x);
                }
                let s = spec(id);
                let mut cc = c.take().unwrap_or_else(must_connect);
                s.sent_at = now();
                s.port = cc.port;
                let b = encode(s);
                if !cc.send(&b) {
                    continue;
                }
                match unsure {
                    Some(x) if done[x].1 > s.sent_at => {
                        // before or during its registration: there, or not there
                        let g = cc.recv(s.method == "HEAD", 300 * SEC);
                        match g {
                            Got::Resp(r) if r.status == 404 && s.handled == 0 && s.filter_calls.is_empty() => {
                                probe("register.not_yet");
                                continue;
                            }
                            Got::Resp(r) => {
                                if done[x].0 > now() {
                                    fail("a route was served before it was registered", format!("{}", s.path));
                                }
                                probe("register.just_now");
                                if let Err(e) = judge(s, &r) {
                                    fail(WRONG, format!("request {id} {}: {e}", s.path));
                                }
                            }
                            g => fail(NONE, format!("request {id} {}: {g:?}", s.path)),
                        }
                    }
                    _ => {
                        take_answer(&mut cc, id, 300 * SEC);
                    }
                }
                c = Some(cc);
            }
        }));
    }
    if !wait_until(1000 * SEC, || hs.iter().all(|h| h.done())) {
        fail(NONE, "a client or a registration is still waiting");
    }
    // and all of it once more
    calm();
    let mut c = must_connect();
    for r in old.iter().chain(flat.iter()) {
        let p = r.pattern().replace(":p", "1").replace(":q", "2").replace(":x", "3").replace(":y", "4");
        let id = routed(&if r.group.starts_with("/n") || r.group.starts_with("/old/a") { flat.clone() } else { old.clone() }, r.method, &p);
        spec(id).port = c.port;
        c.send(&encode(spec(id)));
        take_answer(&mut c, id, 60 * SEC);
    }
    ok(format!("{d}{} new={total} registrars={regs} clients={clients}", conf.text()))
}

// ------------------------------------------------------------- H08 and H11

const HINDERED: &str = "a request waited for another one although a worker was free";

/// All workers but some are held up, by slow handlers, slow clients, idle
/// connections; the clients of the free ones do not notice, nor do
/// registrations.
fn unhindered_impl(registrations: bool) {
    let mut d = swarm_sched();
    d += &swarm_net();
    if k().cfg.seg == 1 {
        k().cfg.seg = 40;
    }
    k().cfg.sock_cap = pick(&[65536, 8192]);
    nuisances();
    let conf = Conf { pool: wr(2, 6) as usize, keepalive: 900_000, compress: wchance(1, 4), trace_log: wchance(1, 100) };
    let mut routes = simple_routes();
    for (i, r) in routes.iter_mut().enumerate() {
        if i % 3 == 1 {
            r.filters = vec![0, 1];
        }
    }
    routes.push(Route::plain("GET", FULL, 31));
    let srv = start(&conf, &routes);
    let held = wr(1, conf.pool as u64 - 1) as usize;
    let free = conf.pool - held;
    let hold = wr(30, 200) * SEC;
    let mut hs = vec![];
    let mut sane = vec![];
    let mut kinds = vec![];
    for i in 0..held {
        let kind = w(6);
        kinds.push(kind);
        let id = match kind {
            2 => routed(&routes, "POST", "/r/one"),
            5 => routed(&routes, "GET", "/r/slow/two"),
            3 => routed(&routes, "GET", "/r/one"),
            _ => any_request(&routes[..18]),
        };
        let s = spec(id);
        s.keep = wchance(1, 2);
        match kind {
            0 => s.plan.sleep = hold,
            1 | 4 => {}
            2 => s.body = BodyIn::Raw(bytes_for(id, wr(2, 3000) as usize, false)),
            3 => {
                // more than the buffers take
                s.plan.body = bytes_for(id, 300_000, true);
            }
            _ => {
                s.answer_at = Some(w(2) as usize);
                s.plan.sleep = hold;
            }
        }
        sane.push(id);
        hs.push(spawn(&format!("holder{i}"), move || {
            let mut c = must_connect();
            let s = spec(id);
            s.port = c.port;
            let b = encode(s);
            match kind {
                1 | 2 => {
                    let head = find(&b, b"\r\n\r\n", 0).unwrap() + 4;
                    let at = if kind == 1 { 1 + w(head as u64 - 2) as usize } else { head + w((b.len() - head) as u64) as usize };
                    c.send(&b[..at]);
                    sleep(hold);
                    c.send(&b[at..]);
                }
                3 => {
                    c.send(&b);
                    sleep(hold);
                }
                4 => {
                    c.send(&b);
                    take_answer(&mut c, id, 900 * SEC);
                    if s.keep {
                        sleep(hold);
                    }
                    return;
                }
                _ => {
                    c.send(&b);
                }
            }
            take_answer(&mut c, id, 900 * SEC);
        }));
    }
    sleep([0, MS, 200 * MS, 2 * SEC][w(4) as usize]);
    // what becomes routes meanwhile
    let mut new: Vec<Route> = vec![];
    if registrations {
        for j in 0..wr(1, 5) {
            new.push(Route { group: pick(&["/n", "/n/deep", ""]).to_string(), filters: if wchance(1, 3) { vec![2] } else { vec![] }, ..Route::plain("GET", &format!("/new{j}/:p"), 20 + j as usize) });
        }
        let (srv, mine) = (srv.clone(), new.clone());
        let gaps: Vec<u64> = mine.iter().map(|_| [0, MS, 50 * MS, SEC][w(4) as usize]).collect();
        let by_handler: Vec<bool> = mine.iter().map(|_| wchance(1, 3)).collect();
        let routes = routes.clone();
        hs.push(spawn("register", move || {
            for ((r, g), by_handler) in mine.into_iter().zip(gaps).zip(by_handler) {
                sleep(g);
                let (t, st) = (now(), stalled());
                if by_handler && free > 1 {
                    // a handler is as good a place as any
                    let (srv, r) = (srv.clone(), r.clone());
                    wd().actions.push(Some(Box::new(move || register(&srv, &r, None))));
                    let id = routed(&routes, "GET", "/r/one");
                    let s = spec(id);
                    s.plan.action = wd().actions.len();
                    s.keep = false;
                    let mut c = must_connect();
                    s.port = c.port;
                    c.send(&encode(s));
                    take_answer(&mut c, id, hold + 900 * SEC);
                    probe("register.by_a_handler");
                } else if !quietly(|| register(&srv, &r, None)) {
                    fail("a valid registration was rejected", format!("{} {}", r.method, r.pattern()));
                }
                if now() - t > 5 * SEC + slack() + (stalled() - st) {
                    fail("a registration waited for requests to end", format!("{} ms, handler: {by_handler}", (now() - t) / MS));
                }
            }
        }));
    }
    let busy = usize::from(registrations && free > 1);
    let clients = wr(1, (free - busy) as u64);
    for i in 0..clients {
        let n = wr(1, 6);
        let plan: Vec<(usize, u64)> = (0..n)
            .map(|_| {
                let id = any_request(&routes[..18]);
                spec(id).keep = wchance(1, 2);
                sane.push(id);
                (id, [0, 300 * US, 8 * MS, 2 * SEC][w(4) as usize])
            })
            .collect();
        hs.push(spawn(&format!("client{i}"), move || {
            let mut c = None;
            for (id, gap) in plan {
                sleep(gap);
                let s = spec(id);
                let (t, st) = (now(), stalled());
                let mut cc = c.take().unwrap_or_else(must_connect);
                s.port = cc.port;
                s.sent_at = t;
                cc.send(&encode(s));
                take_answer(&mut cc, id, 900 * SEC);
                if now() - t > 5 * SEC + slack() + (stalled() - st) {
                    fail(HINDERED, format!("request {id} {} {}: {} ms", s.method, s.path, (now() - t) / MS));
                }
                if s.keep {
                    c = Some(cc);
                } else {
                    cc.expect_end(5 * SEC + slack(), "after the response to a closing request");
                }
            }
        }));
    }
    if !wait_until(2500 * SEC, || hs.iter().all(|h| h.done())) {
        fail(NONE, "a client or a registration is still waiting");
    }
    calm();
    let mut c = must_connect();
    for r in &new {
        let id = routed(&new, "GET", &r.pattern().replace(":p", "value"));
        spec(id).port = c.port;
        c.send(&encode(spec(id)));
        take_answer(&mut c, id, 60 * SEC);
    }
    for id in sane {
        if spec(id).answered_at == 0 {
            fail(NONE, format!("request {id}"));
        }
    }
    ok(format!("{d}{} held={kinds:?} clients={clients} new={}", conf.text(), new.len()))
}
pub fn unhindered() {
    unhindered_impl(false)
}
pub fn unhindered_registering() {
    unhindered_impl(true)
}

/// false: it panicked
fn quietly(f: impl FnOnce()) -> bool {
    as_sut(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok())
}

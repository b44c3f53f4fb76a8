//! Server scenarios: requests, responses, routing, filters.
use super::web::*;
use crate::rt::kernel::k;
use crate::sim::*;

/// interrupted system calls and short transfers are no failures
pub(super) fn nuisances() {
    if wchance(1, 2) {
        fault_rate("recv_eintr", 1, pick(&[4, 20, 100]), 30);
        fault_rate("send_eintr", 1, pick(&[4, 20, 100]), 30);
        fault_rate("accept_eintr", 1, 4, 3);
        faults(true);
    }
    if wchance(1, 4) {
        // somebody sets the clock
        let jumps: Vec<(u64, i64)> = (0..wr(1, 4)).map(|_| (pick(&[0, MS, 50 * MS, 700 * MS, 10 * SEC]), pick(&[1i64, 60, 3600, 86400, 31_536_000]) * if wchance(1, 2) { 1 } else { -1 })).collect();
        spawn("clock", move || {
            for (t, j) in jumps {
                sleep(t);
                k().wall_off += j * SEC as i64;
                k().count("fault.wall_clock_jump");
            }
        });
    }
}

pub(super) fn start(conf: &Conf, routes: &[Route]) -> starry::HttpServer {
    let srv = as_sut(|| {
        let s = build(conf);
        register_all(&s, routes);
        s
    });
    serve_wait(&srv);
    srv
}

// ------------------------------------------------------------------- H01

/// The same request in several cuts gives the same answer.
pub fn segmentation() {
    let mut d = swarm_sched();
    d += &swarm_net();
    nuisances();
    let conf = Conf::draw();
    let routes = simple_routes();
    start(&conf, &routes);
    let mut scripts = vec![];
    for _ in 0..wr(1, 2) {
        let base = any_request(&routes);
        let (a, b) = (some_len(), some_len());
        dress(base, a);
        dress_plan(base, b);
        spec(base).compress = conf.compress;
        spec(base).keep = wchance(1, 2);
        if wchance(1, 4) {
            // a head around the size of one read
            let have = encode(spec(base)).len();
            let want = pick(&[1022usize, 1023, 1024, 1025, 1026, 1027, 2047, 2048, 2049, 3072]);
            if have + 12 < want {
                let fill = hexs(1).repeat(want - have - 9);
                spec(base).headers.push(("X-Pad".into(), fill));
            }
        }
        let n = wr(2, 4);
        for i in 0..n {
            let id = if i == 0 { base } else { clone_spec(base) };
            let len = encode(spec(id)).len();
            let mut sc = Script::new(vec![id]);
            sc.cut = if i == 0 { Cut::WHOLE } else { Cut::draw(len) };
            scripts.push(sc);
        }
    }
    let n = scripts.len();
    let last = wd().specs.len();
    run_all(scripts, 20 * MS, 1500 * SEC);
    history_ok(0..last);
    ok(format!("{d}{} connections={n}", conf.text()))
}

/// Cuts at the places that matter: every boundary inside the head.
pub fn boundary_cuts() {
    let d = swarm_sched();
    k().cfg.lat_base = 50 * US;
    nuisances();
    let conf = Conf::draw();
    let routes = simple_routes();
    start(&conf, &routes);
    let id = any_request(&routes);
    dress(id, [0, 5, 40, 1500][w(4) as usize]);
    dress_plan(id, 100);
    spec(id).compress = conf.compress;
    let keep = wchance(1, 2);
    spec(id).keep = keep;
    let mut c = must_connect();
    let rounds = wr(1, 3);
    let mut cuts = vec![];
    for r in 0..rounds {
        let id = if r == 0 { id } else { clone_spec(id) };
        spec(id).port = c.port;
        let b = encode(spec(id));
        let head = find(&b, b"\r\n\r\n", 0).unwrap() + 4;
        // one or two cuts, near the structure of the head
        let mut at = vec![];
        for _ in 0..wr(1, 3) {
            let p = match w(5) {
                0 => head as u64 - w(5),
                1 => (head as u64 + w(4)).min(b.len() as u64),
                2 => w(b.len() as u64),
                3 => b.iter().position(|x| *x == b'\n').unwrap() as u64 + w(3),
                _ => b.len() as u64 - w(4).min(b.len() as u64 - 1),
            };
            at.push(p as usize);
        }
        at.sort();
        at.dedup();
        cuts.push(format!("{at:?}/{}", b.len()));
        let mut from = 0;
        for p in at.iter().copied().chain([b.len()]) {
            if p > from {
                c.send(&b[from..p]);
                sleep(pick(&[MS, 10 * MS, 500 * MS]));
                from = p;
            }
        }
        take_answer(&mut c, id, 60 * SEC);
        if !keep {
            c.expect_end(60 * SEC, "after the response to a closing request");
            break;
        }
    }
    history_ok(0..wd().specs.len());
    ok(format!("{d}{} cuts {cuts:?}", conf.text()))
}

// ------------------------------------------------------------------- H02

pub(super) fn sequence(routes: &[Route], n: u64, compress: bool, big: bool, plans: bool) -> Vec<usize> {
    let mut ids = vec![];
    for i in 0..n {
        let id = any_request(routes);
        let len = if big { some_len() } else { w(300) as usize };
        dress(id, len);
        if plans {
            let l = if big { some_len() / 2 } else { w(300) as usize };
            dress_plan(id, l);
        }
        let s = spec(id);
        s.compress = compress;
        s.keep = i + 1 < n || wchance(1, 2);
        ids.push(id);
    }
    ids
}

/// Sequences of requests on keep-alive connections, one by one or pipelined.
pub fn pipelines() {
    let mut d = swarm_sched();
    d += &swarm_net();
    nuisances();
    let conf = Conf::draw();
    let routes = simple_routes();
    start(&conf, &routes);
    let conns = wr(1, conf.pool.min(2) as u64);
    let mut scripts = vec![];
    for _ in 0..conns {
        // now and then a connection of many
        let long = wchance(1, 30) && affordable() > 20_000;
        let n = if long && wchance(1, 6) {
            k().cfg.edge_budget = 1_000_000_000;
            wr(300, 1100)
        } else if long {
            wr(60, 150)
        } else {
            wr(2, 7)
        };
        let big = wchance(1, 3) && !long;
        let plans = wchance(1, 2) && !long;
        if long {
            probe("long_connection");
        }
        let ids = sequence(&routes, n, conf.compress, big, plans);
        let len: usize = ids.iter().map(|i| encode(spec(*i)).len()).sum();
        let mut sc = Script::new(ids);
        sc.pipelined = wchance(2, 3);
        sc.cut = Cut::draw(len);
        sc.think = [0, 0, 5 * MS, SEC][w(4) as usize];
        sc.linger = 50 * MS;
        scripts.push(sc);
    }
    let last = wd().specs.len();
    run_all(scripts, 5 * MS, 2500 * SEC);
    history_ok(0..last);
    ok(format!("{d}{} connections={conns} requests={last}", conf.text()))
}

/// A connection that ends in the middle of a request: everything before it is
/// answered, and no handler ever runs for the part that came.
pub fn cut_short() {
    use std::net::Shutdown;
    let mut d = swarm_sched();
    d += &swarm_net();
    nuisances();
    let conf = Conf::draw();
    let routes = simple_routes();
    start(&conf, &routes);
    let n = w(3);
    let mut ids = if n > 0 { sequence(&routes, n, conf.compress, false, false) } else { vec![] };
    for id in &ids {
        spec(*id).keep = true;
    }
    let last = any_request(&routes);
    let len = match w(4) {
        // beyond what fits into 16 bits
        0 if affordable() >= 150_000 => {
            k().cfg.edge_budget = 1_000_000_000;
            65_537 + w(30_000) as usize
        }
        1 => 0,
        _ => some_len(),
    };
    dress(last, len);
    spec(last).keep = wchance(1, 2);
    ids.push(last);
    let mut c = must_connect();
    let mut all = vec![];
    for id in &ids {
        spec(*id).port = c.port;
        if *id == last {
            break;
        }
        all.extend_from_slice(&encode(spec(*id)));
    }
    let b = encode(spec(last));
    let head = find(&b, b"\r\n\r\n", 0).unwrap() + 4;
    let m = match w(5) {
        0 => 1 + w(head as u64 - 1) as usize,
        1 => b.len() - 1,
        2 => b.len() - 1 - w(40.min(b.len() as u64 - 1)) as usize,
        // all but a little of the last kilobyte or 64 of them
        3 => head + (b.len() - head) % pick(&[1024, 65536]),
        _ => wr(1, b.len() as u64 - 1) as usize,
    };
    let m = m.clamp(1, b.len() - 1);
    probe(if m < head { "cut_short.head" } else { "cut_short.body" });
    all.extend_from_slice(&b[..m]);
    let cut = Cut::draw(all.len());
    let mut ws = c.s.try_clone().expect("clone");
    let how = w(3);
    spawn("writer", move || {
        send_cut(&mut ws, &all, cut);
        sleep([0, MS][(how == 2) as usize]);
        let _ = ws.shutdown(Shutdown::Write);
    });
    for id in &ids {
        if *id != last {
            take_answer(&mut c, *id, 400 * SEC);
        }
    }
    // an error may be answered
    match c.recv(spec(last).method == "HEAD", 400 * SEC) {
        Got::Resp(r) if r.status >= 400 && r.status < 500 => c.expect_end(60 * SEC, "after the answer to half a request"),
        Got::Eof(0) | Got::Reset(0) => {}
        g if spec(last).handled == 0 => fail("half a request was not answered with an error or closed", format!("{m} of {} bytes: {g:?}", b.len())),
        _ => {}
    }
    settle(SEC);
    let s = spec(last);
    if s.handled > 0 || !s.filter_calls.is_empty() {
        fail("a request was handled that was never complete", format!("{m} of {} bytes, {head} of them the head", b.len()));
    }
    for id in &ids {
        if *id != last && spec(*id).answered_at == 0 {
            fail(NONE, format!("request {id}"));
        }
    }
    ok(format!("{d}{} {} requests, then {m} of {} bytes", conf.text(), n, b.len()))
}

// ------------------------------------------------------------------- H03

/// Many connections, slow readers, every kind of handler.
pub fn responses() {
    let mut d = swarm_sched();
    d += &swarm_net();
    nuisances();
    let mut conf = Conf::draw();
    conf.compress = wchance(1, 2);
    let routes = simple_routes();
    start(&conf, &routes);
    let conns = wr(1, 5);
    let mut scripts = vec![];
    for _ in 0..conns {
        let n = wr(1, 4);
        let mut ids = vec![];
        for i in 0..n {
            let id = any_request(&routes);
            let (a, b) = (w(60) as usize, some_len());
            if wchance(1, 2) {
                dress(id, a);
            }
            dress_plan(id, b);
            let s = spec(id);
            s.compress = conf.compress;
            if s.accept.is_none() && wchance(1, 2) {
                s.accept = Some(pick(&["gzip", "deflate", "zlib", "gzip, deflate", "deflate,gzip", "br", "*"]));
            }
            s.keep = i + 1 < n || wchance(1, 2);
            ids.push(id);
        }
        let total: usize = ids.iter().map(|i| spec(*i).plan.body.len()).sum();
        let mut sc = Script::new(ids);
        sc.pipelined = wchance(1, 2);
        if wchance(1, 3) {
            // slow, but never silent for as long as the idle timeout
            sc.pause = [100 * US, 5 * MS, 100 * MS][w(3) as usize];
            sc.chunk = [7, 100, 3000][w(3) as usize].max((total + 1000 * n as usize) / if sc.pause < 100 * MS { 500 } else { 100 });
        }
        sc.linger = [MS, 300 * MS][w(2) as usize];
        scripts.push(sc);
    }
    let last = wd().specs.len();
    run_all(scripts, 10 * MS, 2500 * SEC);
    history_ok(0..last);
    if wchance(1, 8) {
        // the handler dies; requests behind it do not get the answer's place
        let mut c = must_connect();
        let id = any_request(&routes);
        spec(id).plan.panic = 1;
        let mut b = encode(spec(id));
        for _ in 0..wr(1, 2) {
            b.extend_from_slice(&encode(spec(any_request(&routes))));
        }
        c.send(&b);
        match c.recv(spec(id).method == "HEAD", 400 * SEC) {
            Got::Eof(0) | Got::Reset(_) => probe("handler.panics_pipelined"),
            Got::Resp(r) if r.status >= 500 => probe("handler.panics_pipelined"),
            g => fail("a request was answered in place of the one whose handler panicked", format!("request {id}: {g:?}")),
        }
    }
    ok(format!("{d}{} connections={conns} requests={last}", conf.text()))
}

/// Bodies the server cannot parse: still exactly one answer.
pub fn bad_forms() {
    let mut d = swarm_sched();
    d += &swarm_net();
    let conf = Conf { pool: 2, keepalive: 30000, compress: wchance(1, 4), trace_log: false };
    let routes = vec![Route::plain("POST", "/f", 0), Route::plain("GET", "/g", 1)];
    start(&conf, &routes);
    let mut c = must_connect();
    let n = wr(1, 4);
    let mut out = String::new();
    for _ in 0..n {
        if wchance(1, 2) {
            let id = routed(&routes, "GET", "/g");
            spec(id).compress = conf.compress;
            spec(id).port = c.port;
            let b = encode(spec(id));
            if !c.send(&b) {
                break;
            }
            take_answer(&mut c, id, 60 * SEC);
            continue;
        }
        let id = routed(&routes, "POST", "/f");
        spec(id).wild = true;
        spec(id).plan.respond = w(3) as u32;
        let body: Vec<u8> = match w(6) {
            0 => b"--wrong\r\n\r\nx\r\n".to_vec(),
            1 => b"--B\r\nContent-Disposition: attachment; name=\"a\"\r\n\r\nx\r\n--B--\r\n".to_vec(),
            2 => b"--B\r\nContent-Disposition: form-data\r\n\r\nx\r\n--B--\r\n".to_vec(),
            3 => b"--Bxx".to_vec(),
            4 => b"".to_vec(),
            _ => bytes_for(id, w(2000) as usize, true),
        };
        let keep = wchance(3, 4);
        let mut b = format!(
            "POST /f HTTP/1.1\r\nHost: h\r\nX-Id: {id:06}\r\nX-Forms: 1\r\nConnection: {}\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: {}\r\n\r\n",
            if keep { "keep-alive" } else { "close" },
            body.len()
        )
        .into_bytes();
        b.extend_from_slice(&body);
        c.send_cut(&b, Cut::draw(b.len()));
        match c.recv(false, 60 * SEC) {
            Got::Resp(r) if r.status == 400 || r.status == 200 => out += &format!(" {}", r.status),
            other => fail(NONE, format!("request {id} with a malformed form: {other:?}")),
        }
        if !keep {
            c.expect_end(60 * SEC, "after the answer to a malformed form");
            break;
        }
        if c.ended {
            break;
        }
        // the answer is the only one, whatever the handler did after it
        c.expect_quiet(50 * MS, "after the answer to a malformed form");
        if c.ended {
            break;
        }
    }
    ok(format!("{d}{} statuses{out}", conf.text()))
}

// ------------------------------------------------------------------- H04

fn segment() -> String {
    if w(50) == 0 {
        return token(60, 300);
    }
    match w(8) {
        0 => token(1, 3),
        1 => String::new(),
        2 => "%20".into(),
        3 => format!("{}&{}={}", token(0, 2), token(0, 2), token(0, 2)),
        4 => format!(":{}", token(0, 2)),
        5 => "é+*;,@".into(),
        _ => pick(&["a", "b", "c", "a", "b"]).to_string(),
    }
}
fn draw_routes(methods: &[&'static str], max: u64) -> Vec<Route> {
    let mut v: Vec<Route> = vec![];
    let n = wr(2, max);
    let mut seen = std::collections::HashSet::new();
    let names = ["x", "y", "id", "z", "name", "k0", "k1", "k2", "k3", "k4"];
    let names = if wchance(1, 3) { &names[..] } else { &names[..5] };
    let deep = wchance(1, 20);
    // names so long that only their ends differ
    let stem = if wchance(1, 16) { token(1, 1).repeat(wr(15, 300) as usize) } else { String::new() };
    for _ in 0..n * 2 {
        if v.len() as u64 >= n || v.len() >= HANDLERS.len() {
            break;
        }
        let depth = if deep { wr(6, 40) } else { wr(1, 4) };
        let mut used = vec![];
        let mut segs = vec![];
        for _ in 0..depth {
            match w(6) {
                0 | 1 => {
                    let nm = names[w(names.len() as u64) as usize];
                    if used.contains(&nm) {
                        segs.push("a".to_string());
                    } else {
                        used.push(nm);
                        segs.push(format!(":{nm}"));
                    }
                }
                2 => segs.push(if wchance(1, 4) { String::new() } else { "é+".into() }),
                _ => segs.push(format!("{stem}{}", pick(&["a", "b", "c"]))),
            }
        }
        let m = pick(methods);
        let cut = w(depth) as usize;
        let group: String = segs[..cut].iter().map(|s| format!("/{s}")).collect();
        let rest: String = segs[cut..].iter().map(|s| format!("/{s}")).collect();
        let canon: String = segs.iter().map(|s| if s.starts_with(':') { "/:".to_string() } else { format!("/{s}") }).collect();
        if !seen.insert((m, canon)) {
            continue;
        }
        v.push(Route { method: m, group, rest, handler: v.len(), filters: vec![], group_filters: vec![] });
    }
    v
}
fn draw_path(routes: &[Route]) -> String {
    if wchance(1, 12) {
        return pick(&["/", "*", "//", "x", "http://127.0.0.1:8080/a", "/?", "/a/", "a/b", "/:", "/:x", "/a/:x/b", "/%00", "/.", "/..", "/../a"]).to_string();
    }
    let mut p: Vec<String> = if wchance(3, 4) {
        // near a route
        let r = &routes[w(routes.len() as u64) as usize];
        r.pattern()[1..].split('/').map(|s| if s.starts_with(':') { segment() } else { s.to_string() }).collect()
    } else {
        (0..wr(1, 5)).map(|_| segment()).collect()
    };
    match w(8) {
        0 => {
            p.pop();
        }
        1 => p.push(segment()),
        2 => {
            let i = w(p.len() as u64) as usize;
            p[i] = segment();
        }
        3 => {
            let i = w(p.len() as u64) as usize;
            match w(4) {
                0 => {
                    p[i].pop();
                }
                1 => p[i].push('a'),
                _ => p[i] = p[i].to_uppercase(),
            }
        }
        _ => {}
    }
    if p.is_empty() {
        return "/".into();
    }
    p.iter().map(|s| format!("/{s}")).collect()
}

/// Random route tables and paths, asked for concurrently.
pub fn routing() {
    let mut d = swarm_sched();
    d += &swarm_net();
    if k().cfg.seg == 1 {
        k().cfg.seg = 40;
    }
    let conf = Conf { pool: wr(1, 4) as usize, keepalive: 30000, compress: false, trace_log: false };
    let some: Vec<&'static str> = match w(3) {
        0 => vec!["GET"],
        1 => vec![pick(&METHODS), pick(&METHODS), pick(&METHODS)],
        _ => METHODS.to_vec(),
    };
    let routes = draw_routes(&some, if wchance(1, 20) { 60 } else { 20 });
    start(&conf, &routes);
    // another server in the same process, with routes of its own
    let mut others = vec![];
    if wchance(1, 4) {
        probe("two_servers");
        others = draw_routes(&some, 12);
        for r in &mut others {
            r.handler = HANDLERS.len() - 1 - r.handler;
        }
        let srv = as_sut(|| {
            let s = build(&conf);
            for r in &others {
                register(&s, r, None);
            }
            s
        });
        serve_too(&srv, PORT + 1);
    }
    let mut scripts = vec![];
    let mut miss = 0;
    for _ in 0..wr(1, 4) {
        let mut ids: Vec<usize> = vec![];
        let other = !others.is_empty() && wchance(1, 2);
        let routes = if other { &others } else { &routes };
        for _ in 0..wr(1, 10) {
            // what one server knows is a good question to the other
            let p = draw_path(if wchance(1, 4) && !others.is_empty() { &others } else { routes });
            let (mut path, mut q) = (p.as_str(), vec![]);
            if let Some((a, _)) = p.split_once('?') {
                path = a;
            } else if wchance(1, 6) {
                q.push(("q".to_string(), token(1, 5)));
            }
            let m = if wchance(9, 10) { pick(&some) } else { pick(&METHODS) };
            let id = routed(routes, m, path);
            spec(id).query = q;
            if other {
                spec(id).sport = PORT + 1;
            }
            ids.push(id);
            if spec(id).handler.is_none() {
                // the server may end the connection after a 404
                miss += 1;
                scripts.push(Script::new(std::mem::take(&mut ids)));
            }
        }
        scripts.push(Script::new(ids));
    }
    // at most six connections at a time
    let last = wd().specs.len();
    let width = wr(1, 6) as usize;
    let mut lanes: Vec<Vec<Script>> = (0..width).map(|_| vec![]).collect();
    for (i, sc) in scripts.into_iter().enumerate() {
        lanes[i % width].push(sc);
    }
    let hs: Vec<Handle> = lanes
        .into_iter()
        .enumerate()
        .map(|(i, l)| {
            spawn(&format!("client{i}"), move || {
                for sc in l {
                    run_script(&sc);
                }
            })
        })
        .collect();
    if !wait_until(1500 * SEC, || hs.iter().all(|h| h.done())) {
        fail(NONE, "a client is still waiting");
    }
    history_ok(0..last);
    ok(format!("{d}{} routes={:?} requests={last} misses={miss}", conf.text(), routes.iter().map(|r| format!("{} {}", r.method, r.pattern())).collect::<Vec<_>>()))
}

// ------------------------------------------------------------------- H05

fn draw_filters(max: u64) -> Vec<usize> {
    let n = if wchance(1, 25) { wr(6, 16) } else { w(max + 1) };
    let mut v: Vec<usize> = vec![];
    for _ in 0..n {
        let f = w(FILTERS.len() as u64) as usize;
        v.push(f);
    }
    v
}
pub fn filters_chain() {
    let mut d = swarm_sched();
    d += &swarm_net();
    if k().cfg.seg == 1 {
        k().cfg.seg = 40;
    }
    nuisances();
    let conf = Conf { pool: wr(1, 4) as usize, keepalive: 30000, compress: wchance(1, 4), trace_log: false };
    let mut routes = vec![];
    for g in 0..wr(1, 3) {
        let gf = if wchance(2, 3) { draw_filters(4) } else { vec![] };
        for r in 0..wr(1, 4) {
            let m = pick(&["GET", "POST", "HEAD", "UNLINK", "OPTIONS"]);
            routes.push(Route {
                method: m,
                group: format!("/g{g}"),
                rest: format!("/r{r}{}", pick(&["", "/:x"])),
                handler: routes.len(),
                filters: if wchance(2, 3) { draw_filters(4) } else { vec![] },
                group_filters: gf.clone(),
            });
        }
    }
    start(&conf, &routes);
    let mut scripts = vec![];
    for _ in 0..wr(1, 4) {
        let mut ids = vec![];
        let n = wr(1, 5);
        for i in 0..n {
            let r = &routes[w(routes.len() as u64) as usize];
            let path = r.pattern().replace(":x", &token(1, 4));
            let id = routed(&routes, r.method, &path);
            let (a, b) = (w(100) as usize, w(500) as usize);
            if wchance(1, 3) {
                dress(id, a);
            }
            dress_plan(id, b);
            let s = spec(id);
            s.compress = conf.compress;
            s.keep = i + 1 < n || wchance(1, 2);
            if !s.filters.is_empty() && wchance(1, 2) {
                s.answer_at = Some(w(s.filters.len() as u64) as usize);
                s.plan.respond = s.plan.respond.max(1);
            }
            ids.push(id);
        }
        let len: usize = ids.iter().map(|i| encode(spec(*i)).len()).sum();
        let mut sc = Script::new(ids);
        sc.pipelined = wchance(1, 2);
        sc.cut = if wchance(1, 3) { Cut::draw(len) } else { Cut::WHOLE };
        sc.linger = 20 * MS;
        scripts.push(sc);
    }
    let last = wd().specs.len();
    // a filter that panics stops the request, too
    let guarded: Vec<&Route> = routes.iter().filter(|r| !r.chain().is_empty()).collect();
    let mut bombs = vec![];
    for i in 0..if guarded.is_empty() || wchance(1, 2) { 0 } else { wr(1, 3) } {
        let r = guarded[w(guarded.len() as u64) as usize];
        let id = routed(&routes, r.method, &r.pattern().replace(":x", &token(1, 4)));
        let s = spec(id);
        s.keep = wchance(1, 2);
        s.answer_at = Some(w(s.filters.len() as u64) as usize);
        s.filter_panics = true;
        let d = pick(&[0, MS, 20 * MS]);
        bombs.push((id, spawn(&format!("bomb{i}"), move || {
            sleep(d);
            let mut c = must_connect();
            let s = spec(id);
            s.port = c.port;
            c.send(&encode(s));
            match c.recv(s.method == "HEAD", 1000 * SEC) {
                Got::Eof(0) | Got::Reset(0) => probe("filter_panicked"),
                Got::Resp(r) if r.status >= 500 => probe("filter_panicked"),
                g => fail("a request whose filter panicked was answered", format!("request {id} {}: {g:?}", s.path)),
            }
        })));
    }
    run_all(scripts, 5 * MS, 1500 * SEC);
    if !wait_until(1500 * SEC, || bombs.iter().all(|b| b.1.done())) {
        fail(NONE, "a client is still waiting");
    }
    history_ok(0..last);
    for id in (0..last).chain(bombs.iter().map(|b| b.0)) {
        let s = spec(id);
        let want = match s.answer_at {
            Some(a) => a + 1,
            None => s.filters.len(),
        };
        if s.filter_calls.len() != want {
            fail("a filter did not run", format!("request {id} {}: {:?} of {:?}", s.path, s.filter_calls, s.filters));
        }
    }
    ok(format!("{d}{} routes={} requests={last}", conf.text(), routes.len()))
}

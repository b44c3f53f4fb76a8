//! A world for the server scenarios: routes, requests with a known right
//! answer, raw clients, and the handlers and filters that compare what they
//! see with what was sent.
use crate::rt::kernel::k;
use crate::rt::net;
use crate::sim::*;
use starry::header::{ContentType, Cookie};
use starry::{Context, Extend, HttpServer, Limit, Status, Version};
use std::io::{Read, Write};
use std::net::TcpStream;

pub const PORT: u16 = 8080;
pub const METHODS: [&str; 12] =
    ["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT", "PATCH", "LINK", "UNLINK", "PRI"];

// --------------------------------------------------------------- requests

#[derive(Clone, Debug)]
pub struct Part {
    pub name: String,
    pub filename: Option<String>,
    pub ctype: Option<&'static str>,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug)]
pub enum BodyIn {
    None,
    Raw(Vec<u8>),
    Form(Vec<(String, String)>),
    Multi(String, Vec<Part>),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    Nothing,
    Body,
    Slice,
    Bodies,
    Slices,
}
/// what a handler (or answering filter) does
#[derive(Clone, Debug)]
pub struct Plan {
    pub sleep: u64,
    pub first: Option<Vec<u8>>,
    pub body: Vec<u8>,
    pub how: How,
    pub json: bool,
    pub status: u16,
    /// the version the handler asks for; of 1.0: true
    pub version: Option<bool>,
    pub body_first: bool,
    pub headers: Vec<(String, String)>,
    pub cookies: Vec<(String, String)>,
    /// how often response() is called; 0: left to the server
    pub respond: u32,
    pub late: bool,
    /// 1: before answering, 2: after
    pub panic: u8,
    /// one of the World's actions to take before answering, from 1 on
    pub action: usize,
}
impl Plan {
    pub fn new(body: Vec<u8>) -> Plan {
        Plan { sleep: 0, first: None, body, how: How::Body, json: false, status: 200, version: None, body_first: false, headers: vec![], cookies: vec![], respond: 1, late: false, panic: 0, action: 0 }
    }
}
#[derive(Clone, Debug)]
pub struct Spec {
    pub id: usize,
    pub method: &'static str,
    pub path: String,
    pub query: Vec<(String, String)>,
    pub fragment: bool,
    pub headers: Vec<(String, String)>,
    pub cookies: Vec<(String, String)>,
    pub auth: Option<(String, String)>,
    pub accept: Option<&'static str>,
    pub body: BodyIn,
    pub keep: bool,
    pub v10: bool,
    /// the handler that must see it; none: 404
    pub handler: Option<usize>,
    pub fields: Vec<(String, String)>,
    pub filters: Vec<usize>,
    pub answer_at: Option<usize>,
    /// instead of answering there, the filter panics
    pub filter_panics: bool,
    pub plan: Plan,
    pub compress: bool,
    pub port: u16,
    /// the server's port
    pub sport: u16,
    /// how the names of known headers are spelt: as usual, lower, upper, mixed
    pub spell: u8,
    /// what says that the connection ends
    pub closing: &'static str,
    /// how the content type and the heads of parts are written
    pub style: u8,
    // ---- history
    pub filter_calls: Vec<usize>,
    pub handled: u32,
    /// when the first filter, or else the handler, was entered
    pub started: u64,
    pub entered: u64,
    pub left: u64,
    pub sent_at: u64,
    pub answered_at: u64,
    /// faulty on purpose: nothing is known about it
    pub wild: bool,
}

pub struct World {
    pub specs: Vec<Box<Spec>>,
    pub stray_ok: bool,
    pub strays: u64,
    pub open_handlers: i64,
    pub listen_result: Option<Result<(), String>>,
    pub server_up: bool,
    pub enter_order: Vec<usize>,
    /// (id, when the handler was entered)
    pub enters: Vec<(usize, u64)>,
    pub gate: bool,
    pub actions: Vec<Option<Box<dyn FnOnce()>>>,
}
static mut W: World = World {
    specs: vec![],
    stray_ok: false,
    strays: 0,
    open_handlers: 0,
    listen_result: None,
    server_up: false,
    enter_order: vec![],
    enters: vec![],
    gate: true,
    actions: vec![],
};
#[allow(static_mut_refs)]
pub fn wd() -> &'static mut World {
    unsafe { &mut W }
}
pub fn spec(id: usize) -> &'static mut Spec {
    &mut wd().specs[id]
}

pub fn hexs(n: u64) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s.push(char::from(b"0123456789abcdefghijklmnopqrstuvwxyz"[w(36) as usize]));
    }
    s
}

/// `n` bytes that depend on `id`: random bytes, or compressible text
pub fn bytes_for(id: usize, n: usize, random: bool) -> Vec<u8> {
    let mut x = (id as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15) | 1;
    let mut v = format!("<{id}:").into_bytes();
    if random {
        while v.len() < n {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            v.push((x >> 24) as u8);
        }
    } else {
        let line = format!("line of body {id}\r\n\r\nHTTP/1.1 200 OK\r\n");
        while v.len() < n {
            v.extend_from_slice(line.as_bytes());
        }
    }
    v.truncate(n);
    v
}

pub fn new_spec(method: &'static str, path: &str, handler: Option<usize>) -> usize {
    let id = wd().specs.len();
    let body = bytes_for(id, 12, false);
    wd().specs.push(Box::new(Spec {
        id,
        method,
        path: path.to_string(),
        query: vec![],
        fragment: false,
        headers: vec![],
        cookies: vec![],
        auth: None,
        accept: None,
        body: BodyIn::None,
        keep: true,
        v10: false,
        handler,
        fields: vec![],
        filters: vec![],
        answer_at: None,
        filter_panics: false,
        plan: Plan::new(body),
        compress: false,
        port: 0,
        sport: PORT,
        spell: 0,
        closing: "close",
        style: 0,
        filter_calls: vec![],
        handled: 0,
        started: 0,
        entered: 0,
        left: 0,
        sent_at: 0,
        answered_at: 0,
        wild: false,
    }));
    id
}
/// the same request once more, under a number of its own
pub fn clone_spec(of: usize) -> usize {
    let id = wd().specs.len();
    let mut s = wd().specs[of].clone();
    s.id = id;
    s.filter_calls = vec![];
    s.handled = 0;
    s.started = 0;
    s.left = 0;
    s.answered_at = 0;
    wd().specs.push(s);
    id
}

fn b64(v: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in v.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(T[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}

/// headers and body of the request
fn parts_of(s: &Spec) -> (Vec<(String, String)>, Option<Vec<u8>>) {
    let mut h: Vec<(String, String)> = vec![("Host".into(), format!("127.0.0.1:{}", s.sport)), ("X-Id".into(), format!("{:06}", s.id))];
    h.push(("Connection".into(), if s.keep { "keep-alive" } else { s.closing }.into()));
    if !s.keep && s.closing.eq_ignore_ascii_case("upgrade") {
        h.push(("Upgrade".into(), "websocket".into()));
    }
    if let Some((u, p)) = &s.auth {
        h.push(("Authorization".into(), format!("Basic {}", b64(format!("{u}:{p}").as_bytes()))));
    }
    if let Some(a) = s.accept {
        h.push(("Accept-Encoding".into(), a.into()));
    }
    if !s.cookies.is_empty() {
        let c: Vec<String> = s.cookies.iter().map(|(a, b)| format!("{a}={b}")).collect();
        h.push(("Cookie".into(), c.join("; ")));
    }
    let body = match &s.body {
        BodyIn::None => None,
        BodyIn::Raw(b) => {
            h.push(("Content-Type".into(), "application/octet-stream".into()));
            Some(b.clone())
        }
        BodyIn::Form(f) => {
            let t = match s.style % 5 {
                1 => "application/x-www-form-urlencoded; charset=UTF-8",
                2 => "application/x-www-form-urlencoded;charset=utf-8",
                3 => "Application/X-WWW-Form-Urlencoded",
                _ => "application/x-www-form-urlencoded",
            };
            h.push(("Content-Type".into(), t.into()));
            let c: Vec<String> = f.iter().map(|(a, b)| format!("{a}={b}")).collect();
            Some(c.join("&").into_bytes())
        }
        BodyIn::Multi(b, parts) => {
            let t = match s.style % 5 {
                1 => format!("multipart/form-data; boundary=\"{b}\""),
                2 => format!("multipart/form-data; charset=utf-8; boundary={b}"),
                3 => format!("Multipart/Form-Data;Boundary={b}"),
                _ => format!("multipart/form-data; boundary={b}"),
            };
            h.push(("Content-Type".into(), t));
            let mut o = vec![];
            for p in parts {
                let (disp, ct) = if s.style / 5 % 3 == 1 { ("content-disposition", "CONTENT-TYPE") } else { ("Content-Disposition", "Content-Type") };
                o.extend_from_slice(format!("--{b}\r\n").as_bytes());
                if s.style / 5 % 3 == 2 {
                    o.extend_from_slice(b"Content-Transfer-Encoding: binary\r\n");
                }
                let mut at = vec![format!("name=\"{}\"", p.name)];
                if let Some(f) = &p.filename {
                    at.push(format!("filename=\"{f}\""));
                }
                if s.style >= 15 {
                    at.reverse();
                }
                o.extend_from_slice(format!("{disp}: form-data; {}\r\n", at.join("; ")).as_bytes());
                if let Some(c) = p.ctype {
                    o.extend_from_slice(format!("{ct}: {c}\r\n").as_bytes());
                }
                o.extend_from_slice(b"\r\n");
                o.extend_from_slice(&p.data);
                o.extend_from_slice(b"\r\n");
            }
            o.extend_from_slice(format!("--{b}--").as_bytes());
            if s.style != 4 {
                o.extend_from_slice(b"\r\n");
            }
            Some(o)
        }
    };
    if let Some(b) = &body {
        h.push(("Content-Length".into(), b.len().to_string()));
    }
    for (a, _) in h.iter_mut().filter(|(a, _)| a != "X-Id" && a != "Upgrade") {
        *a = match s.spell {
            0 => continue,
            1 => a.to_lowercase(),
            2 => a.to_uppercase(),
            _ => a.chars().enumerate().map(|(i, c)| if (i + s.id) % 2 == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
        };
    }
    h.extend(s.headers.iter().cloned());
    (h, body)
}

/// the same in a drawn, but reproducible, order
fn ordered(s: &Spec) -> (Vec<(String, String)>, Option<Vec<u8>>) {
    let (mut h, body) = parts_of(s);
    let n = h.len();
    for i in 0..n {
        let j = (i * 7 + s.id) % n;
        h.swap(i, j);
    }
    (h, body)
}
/// the request as bytes
pub fn encode(s: &Spec) -> Vec<u8> {
    let mut t = s.path.clone();
    for (i, (a, b)) in s.query.iter().enumerate() {
        t.push(if i == 0 { '?' } else { '&' });
        t.push_str(a);
        t.push('=');
        t.push_str(b);
    }
    let (h, body) = ordered(s);
    let mut o = format!("{} {}{} HTTP/1.{}\r\n", s.method, t, if s.fragment { "#frag" } else { "" }, if s.v10 { 0 } else { 1 }).into_bytes();
    for (a, b) in h {
        o.extend_from_slice(format!("{a}: {b}\r\n").as_bytes());
    }
    o.extend_from_slice(b"\r\n");
    if let Some(b) = body {
        o.extend_from_slice(&b);
    }
    o
}

// ------------------------------------------------- what the server side sees

fn who(ctx: &Context) -> Option<usize> {
    let id = starry_glue::header(ctx, "X-Id").or_else(|| starry_glue::param(ctx, "xid")).and_then(|x| x.parse::<usize>().ok());
    match id {
        Some(i) if i < wd().specs.len() => Some(i),
        other => {
            wd().strays += 1;
            if !wd().stray_ok {
                fail("the server handled a request that nobody sent", format!("X-Id {other:?}, path {:?}", ctx.req_path()));
            }
            None
        }
    }
}

fn differ(s: &Spec, what: &str, want: impl std::fmt::Debug, got: impl std::fmt::Debug) -> ! {
    fail(
        "the handler did not see the request that was sent",
        format!("request {} {} {}: {what}: sent {want:?}, handler sees {got:?}", s.id, s.method, s.path),
    )
}

fn compare(ctx: &mut Context, s: &Spec) {
    use starry_glue as g;
    if ctx.req_path() != s.path {
        differ(s, "path", &s.path, ctx.req_path());
    }
    let sent = ordered(s).0;
    for (a, _) in &s.headers {
        // of several, the last one is kept
        let last = sent.iter().rfind(|(x, _)| x == a).map(|(_, b)| b.as_str());
        if g::header(ctx, a).as_deref() != last {
            differ(s, &format!("header {a}"), last, g::header(ctx, a));
        }
    }
    let seen = ctx.req_header().map();
    if seen.contains_key("X-Id") {
        let connection = |a: &str| a.eq_ignore_ascii_case("connection");
        let all: std::collections::HashMap<&str, &String> = sent.iter().filter(|(a, _)| !connection(a)).map(|(a, b)| (a.as_str(), b)).collect();
        for (a, b) in &all {
            if seen.get(*a).map(|v| v.as_slice()) != Some(std::slice::from_ref(*b)) {
                differ(s, &format!("header {a}"), b, seen.get(*a));
            }
        }
        if seen.keys().filter(|a| !connection(a)).count() != all.len() {
            differ(s, "headers", sent, seen);
        }
    } else if g::header(ctx, "Host") != Some(format!("127.0.0.1:{}", s.sport)) {
        differ(s, "header Host", s.sport, g::header(ctx, "Host"));
    }
    let upgrading = seen.contains_key("X-Id") && !s.keep && s.closing.eq_ignore_ascii_case("upgrade");
    if ctx.req_is_web_socket() != upgrading {
        differ(s, "whether it asks for a web socket", upgrading, ctx.req_is_web_socket());
    }
    if ctx.req_count_param() != s.query.len() {
        differ(s, "number of query parameters", s.query.len(), ctx.req_count_param());
    }
    for (a, b) in &s.query {
        if g::param(ctx, a).as_deref() != Some(b.as_str()) || !g::have_param(ctx, a) {
            differ(s, &format!("query parameter {a}"), b, g::param(ctx, a));
        }
    }
    if ctx.req_count_fields() != s.fields.len() {
        differ(s, "number of path parameters", s.fields.len(), ctx.req_count_fields());
    }
    for (a, b) in &s.fields {
        if g::field(ctx, a).as_deref() != Some(b.as_str()) || !g::have_field(ctx, a) {
            differ(s, &format!("path parameter {a}"), b, g::field(ctx, a));
        }
    }
    let want: Vec<String> = s.cookies.iter().map(|(a, b)| format!("{a}={b}")).collect();
    if g::cookies(ctx) != want {
        differ(s, "cookies", want, g::cookies(ctx));
    }
    if g::userinfo(ctx) != s.auth {
        differ(s, "credentials", &s.auth, g::userinfo(ctx));
    }
    if s.port != 0 {
        let a = g::client_addr(ctx);
        if a != ("127.0.0.1".to_string(), s.port) {
            differ(s, "client address", s.port, a);
        }
    }
    let bodied = matches!(s.method, "POST" | "PUT" | "PATCH");
    let (mut forms, mut files): (Vec<(String, String)>, Vec<&Part>) = (vec![], vec![]);
    if bodied {
        match &s.body {
            BodyIn::Form(f) => forms = f.clone(),
            BodyIn::Multi(_, parts) => {
                for p in parts {
                    match p.filename {
                        Some(_) => files.push(p),
                        None => forms.push((p.name.clone(), String::from_utf8_lossy(&p.data).to_string())),
                    }
                }
            }
            _ => {}
        }
    }
    match g::count_form(ctx) {
        Ok(n) if n == forms.len() => {}
        other => differ(s, "number of form fields", forms.len(), other.map_err(|e| e.to_string())),
    }
    for (a, b) in &forms {
        match g::form(ctx, a) {
            Ok(Some(v)) if v == *b && g::have_form(ctx, a).unwrap_or(false) => {}
            other => differ(s, &format!("form field {a}"), b, other.map_err(|e| e.to_string())),
        }
    }
    // and nothing that was not sent
    let none = "zz-absent";
    let absent = g::header(ctx, none).is_none()
        && g::param(ctx, none).is_none()
        && !g::have_param(ctx, none)
        && g::field(ctx, none).is_none()
        && !g::have_field(ctx, none)
        && g::cookie(ctx, none).is_none()
        && matches!(g::form(ctx, none), Ok(None))
        && matches!(g::have_form(ctx, none), Ok(false))
        && matches!(g::file(ctx, none), Ok(None));
    if !absent {
        differ(s, "something that was not sent", "nothing", "a value");
    }
    for (a, b) in &s.cookies {
        if g::cookie(ctx, a) != Some(format!("{a}={b}")) {
            differ(s, &format!("cookie {a}"), b, g::cookie(ctx, a));
        }
    }
    for p in files {
        if matches!(g::form(ctx, &p.name), Ok(Some(_))) && !forms.iter().any(|f| f.0 == p.name) {
            differ(s, &format!("form field {}", p.name), "nothing", "a value");
        }
        match g::file(ctx, &p.name) {
            Ok(Some((f, c, n))) => {
                if Some(&f) != p.filename.as_ref() {
                    differ(s, &format!("file name of {}", p.name), &p.filename, f);
                }
                if c != p.data || n != c.len() {
                    let at = c.iter().zip(&p.data).position(|(a, b)| a != b).unwrap_or(c.len().min(p.data.len()));
                    differ(s, &format!("content of file {} from byte {at}", p.name), p.data.len(), c.len());
                }
            }
            other => differ(s, &format!("file {}", p.name), &p.filename, other.map(|_| ()).map_err(|e| e.to_string())),
        }
    }
}

/// every final status a handler may answer with, save those that never carry a body
pub const STATUSES: [u16; 54] = [
    200, 201, 202, 203, 206, 207, 208, 226, 300, 301, 302, 303, 305, 307, 308, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 421,
    422, 423, 424, 426, 428, 429, 431, 451, 500, 501, 502, 503, 504, 505, 506, 507, 508, 510, 511,
];
fn status(code: u16) -> Status {
    Status::from_code(code).expect("a status code")
}

fn run_plan(ctx: &mut Context, id: usize, p: &Plan) {
    if p.sleep > 0 {
        sleep(p.sleep);
    }
    if p.action > 0 {
        if let Some(f) = wd().actions[p.action - 1].take() {
            f()
        }
    }
    if p.panic == 1 {
        note(format!("handler of request {id} panics"));
        boom(id, format!("planned: handler of request {id}"));
    }
    if let Some(f) = &p.first {
        ctx.resp_body(f.clone());
    }
    // in either order, it makes no difference
    for turn in 0..2 {
        if (turn == 0) != p.body_first {
            if p.status != 200 {
                ctx.resp_status(status(p.status));
            }
            if let Some(v10) = p.version {
                ctx.resp_version(if v10 { Version::HTTP_10 } else { Version::HTTP_11 });
            }
            for (i, (a, b)) in p.headers.iter().enumerate() {
                match i % 4 {
                    0 => ctx.resp_add_header_str(a, b),
                    1 => ctx.resp_set_header(a.clone(), b.clone()),
                    2 => ctx.resp_add_header(a.clone(), b.clone()),
                    _ => ctx.resp_set_header_str(a, b),
                }
            }
            for (a, b) in &p.cookies {
                ctx.resp_add_cookie(cookie_of(a, b).0);
            }
        } else {
            let ct = ContentType::APPLICATION_JSON;
            match p.how {
                How::Nothing => {}
                How::Body => ctx.resp_body(p.body.clone()),
                How::Slice => ctx.resp_body_slice(Box::leak(p.body.clone().into_boxed_slice())),
                How::Bodies => ctx.resp_bodies(p.body.clone(), ct),
                How::Slices => ctx.resp_body_slices(Box::leak(p.body.clone().into_boxed_slice()), ct),
            }
            if p.json && matches!(p.how, How::Body | How::Slice | How::Nothing) {
                ctx.resp_content_type(ContentType::APPLICATION_JSON);
            }
        }
    }
    for _ in 0..p.respond {
        ctx.response();
    }
    if p.late && p.respond > 0 {
        ctx.resp_status(Status::IM_A_TEAPOT);
        ctx.resp_body(b"too late".to_vec());
        ctx.response();
    }
    if p.panic == 2 {
        boom(id, format!("planned: handler of request {id} after answering"));
    }
}

/// read everything there is to read, whatever it is
fn poke(ctx: &mut Context) {
    use starry_glue as g;
    let _ = (g::cookies(ctx), g::userinfo(ctx), g::client_addr(ctx), g::param(ctx, "a"), g::field(ctx, "x"));
    let _ = (ctx.req_path(), ctx.req_count_param(), ctx.req_count_fields());
    let _ = g::count_form(ctx);
    let _ = g::form(ctx, "a");
    let _ = g::file(ctx, "a");
}

struct Inside;
impl Drop for Inside {
    fn drop(&mut self) {
        wd().open_handlers -= 1;
    }
}

fn handle(n: usize, ctx: &mut Context) {
    let _mine = crate::rt::mem::In::new();
    let id = match who(ctx) {
        Some(i) => i,
        None => {
            poke(ctx);
            ctx.resp_body(b"stray".to_vec());
            ctx.response();
            return;
        }
    };
    note(format!("handler {n} for request {id}"));
    let s = spec(id);
    wd().enter_order.push(id);
    wd().enters.push((id, now()));
    s.handled += 1;
    s.entered = now();
    if s.started == 0 {
        s.started = now();
    }
    if !s.wild {
        if s.handler != Some(n) {
            fail("a request reached the wrong handler", format!("request {id} {} {}: handler {n} instead of {:?}", s.method, s.path, s.handler));
        }
        if s.handled > 1 {
            fail("a request was handled twice", format!("request {id} {} {}", s.method, s.path));
        }
        if s.answer_at.is_some() {
            fail("the handler ran although a filter had answered", format!("request {id} {} {}, filters {:?}", s.method, s.path, s.filter_calls));
        }
        if s.filter_calls != s.filters {
            fail("the handler ran before all filters had", format!("request {id} {} {}: filters {:?} of {:?}", s.method, s.path, s.filter_calls, s.filters));
        }
        compare(ctx, s);
    }
    wd().open_handlers += 1;
    let _in = Inside;
    let p = s.plan.clone();
    if s.wild && starry_glue::have_header(ctx, "X-Forms") {
        poke(ctx);
    }
    run_plan(ctx, id, &p);
    spec(id).left = now();
}

fn filter(n: usize, ctx: &mut Context) {
    let _mine = crate::rt::mem::In::new();
    let id = match who(ctx) {
        Some(i) => i,
        None => return,
    };
    let s = spec(id);
    if s.wild {
        return;
    }
    note(format!("filter {n} for request {id}"));
    let at = s.filter_calls.len();
    if at == 0 {
        s.started = now();
    }
    if let Some(a) = s.answer_at {
        if at > a {
            fail("a filter ran although an earlier one had answered", format!("request {id} {}: filter {n} after {:?}", s.path, s.filter_calls));
        }
    }
    if s.handled > 0 {
        fail("a filter ran after the handler", format!("request {id} {}: filter {n}", s.path));
    }
    if s.filters.get(at) != Some(&n) {
        fail("filters ran out of order", format!("request {id} {}: filter {n} at position {at} of {:?}", s.path, s.filters));
    }
    s.filter_calls.push(n);
    ctx.resp_add_header("X-Filter".into(), n.to_string());
    if s.answer_at == Some(at) && s.filter_panics {
        note(format!("filter {n} of request {id} panics"));
        boom(id, format!("planned: filter {n} of request {id}"));
    }
    if s.answer_at == Some(at) {
        let p = s.plan.clone();
        run_plan(ctx, id, &p);
        spec(id).left = now();
    }
}

macro_rules! table {
    ($name:ident, $f:ident, $($n:literal)*) => {
        pub const $name: &[fn(&mut Context)] = &[$({ fn f(c: &mut Context) { $f($n, c) } f }),*];
    };
}
table!(HANDLERS, handle, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
table!(FILTERS, filter, 0 1 2 3 4 5 6 7 8 9 10 11);

// ----------------------------------------------------------------- routes

#[derive(Clone, Debug)]
pub struct Route {
    pub method: &'static str,
    /// prefix of its router, and the rest
    pub group: String,
    pub rest: String,
    pub handler: usize,
    pub filters: Vec<usize>,
    pub group_filters: Vec<usize>,
}
impl Route {
    pub fn pattern(&self) -> String {
        format!("{}{}", self.group, self.rest)
    }
    pub fn chain(&self) -> Vec<usize> {
        self.filters.iter().chain(self.group_filters.iter()).copied().collect()
    }
    pub fn plain(method: &'static str, pattern: &str, handler: usize) -> Route {
        Route { method, group: String::new(), rest: pattern.to_string(), handler, filters: vec![], group_filters: vec![] }
    }
}

pub fn filters_of(v: &[usize]) -> Vec<fn(&mut Context)> {
    v.iter().map(|n| FILTERS[*n]).collect()
}

macro_rules! on_router {
    ($router:expr, $r:expr, $limit:expr) => {{
        let (router, r, limit): (_, &Route, Option<Limit>) = ($router, $r, $limit);
        let h = HANDLERS[r.handler];
        let ext = match (r.filters.is_empty(), limit) {
            (true, None) => None,
            (false, None) => Some(Extend::e1(filters_of(&r.filters))),
            (true, Some(l)) => Some(Extend::e2(l)),
            (false, Some(l)) => Some(Extend::e3(filters_of(&r.filters), l)),
        };
        let p = r.rest.as_str();
        match ext {
            None => match r.method {
                "GET" => router.get(p, h),
                "POST" => router.post(p, h),
                "PUT" => router.put(p, h),
                "DELETE" => router.delete(p, h),
                "HEAD" => router.head(p, h),
                "OPTIONS" => router.option(p, h),
                "TRACE" => router.trace(p, h),
                "CONNECT" => router.connect(p, h),
                "PATCH" => router.patch(p, h),
                "LINK" => router.link(p, h),
                "UNLINK" => router.unlink(p, h),
                _ => router.pri(p, h),
            },
            Some(e) => match r.method {
                "GET" => router.get_wf(p, h, e),
                "POST" => router.post_wf(p, h, e),
                "PUT" => router.put_wf(p, h, e),
                "DELETE" => router.delete_wf(p, h, e),
                "HEAD" => router.head_wf(p, h, e),
                "OPTIONS" => router.option_wf(p, h, e),
                "TRACE" => router.trace_wf(p, h, e),
                "CONNECT" => router.connect_wf(p, h, e),
                "PATCH" => router.patch_wf(p, h, e),
                "LINK" => router.link_wf(p, h, e),
                "UNLINK" => router.unlink_wf(p, h, e),
                _ => router.pri_wf(p, h, e),
            },
        }
    }};
}
macro_rules! router_for {
    ($srv:expr, $r:expr) => {
        if $r.group_filters.is_empty() { $srv.router(&$r.group) } else { $srv.router_wf(&$r.group, Extend::e1(filters_of(&$r.group_filters))) }
    };
}
/// may panic: a duplicate or invalid pattern is rejected that way
pub fn register(srv: &HttpServer, r: &Route, limit: Option<Limit>) {
    let router = router_for!(srv, r);
    on_router!(&router, r, limit)
}
/// the same, with one router for successive routes of a group; some routes get
/// a limit that lets everything pass
pub fn register_all(srv: &HttpServer, routes: &[Route]) {
    let (share, limited) = (wchance(1, 2), if wchance(1, 3) { wr(1, 3) } else { 0 });
    let mut i = 0;
    while i < routes.len() {
        let router = router_for!(srv, routes[i]);
        let g = (routes[i].group.clone(), routes[i].group_filters.clone());
        loop {
            let lim = if limited > 0 && w(4) < limited { Some(Limit::new(pick(&[0, 1]), 40, 0)) } else { None };
            on_router!(&router, &routes[i], lim);
            i += 1;
            if !share || i >= routes.len() || g.0 != routes[i].group || g.1 != routes[i].group_filters {
                break;
            }
        }
    }
}

fn key(seg: &str) -> &str {
    if seg.starts_with(':') {
        ":"
    } else {
        seg
    }
}
/// The route a path belongs to: segment by segment, at each segment the
/// alternative registered first is preferred, others are fallen back to.
pub fn lookup(routes: &[Route], method: &str, path: &str) -> Option<(usize, Vec<(String, String)>)> {
    if !path.starts_with('/') {
        return None;
    }
    let segs: Vec<&str> = path[1..].split('/').collect();
    let pats: Vec<(usize, Vec<String>)> = routes
        .iter()
        .enumerate()
        .filter(|(_, r)| r.method == method)
        .map(|(i, r)| (i, r.pattern()[1..].split('/').map(|s| s.to_string()).collect()))
        .collect();
    fn go(c: &[(usize, Vec<String>)], segs: &[&str], at: usize) -> Option<usize> {
        let mut seen: Vec<&str> = vec![];
        for (_, p) in c {
            if p.len() <= at || seen.contains(&key(&p[at])) {
                continue;
            }
            let kk = key(&p[at]);
            seen.push(kk);
            if kk != ":" && kk != segs[at] {
                continue;
            }
            let sub: Vec<(usize, Vec<String>)> = c.iter().filter(|(_, q)| q.len() > at && key(&q[at]) == kk).cloned().collect();
            if at + 1 == segs.len() {
                if let Some((i, _)) = sub.iter().find(|(_, q)| q.len() == segs.len()) {
                    return Some(*i);
                }
            } else if let Some(i) = go(&sub, segs, at + 1) {
                return Some(i);
            }
        }
        None
    }
    let i = go(&pats, &segs, 0)?;
    let p = routes[i].pattern();
    let fields = p[1..].split('/').zip(&segs).filter(|(a, _)| a.starts_with(':')).map(|(a, b)| (a[1..].to_string(), b.to_string())).collect();
    Some((i, fields))
}
/// a request for `path` with everything the routes say about it filled in
pub fn routed(routes: &[Route], method: &'static str, path: &str) -> usize {
    let id = new_spec(method, path, None);
    if let Some((i, fields)) = lookup(routes, method, path) {
        let s = spec(id);
        s.handler = Some(routes[i].handler);
        s.fields = fields;
        s.filters = routes[i].chain();
    }
    id
}

// ----------------------------------------------------------------- server

pub struct Conf {
    pub pool: usize,
    pub keepalive: i64,
    pub compress: bool,
    pub trace_log: bool,
}
impl Conf {
    pub fn draw() -> Conf {
        Conf { pool: wr(1, 4) as usize, keepalive: 30000, compress: wchance(1, 3), trace_log: wchance(1, 40) }
    }
    pub fn text(&self) -> String {
        format!("server(pool={},keepalive={}ms,compress={},trace={})", self.pool, self.keepalive, self.compress, self.trace_log)
    }
}

pub fn build(c: &Conf) -> HttpServer {
    let mut s = HttpServer::new();
    s.set_pool_size(c.pool);
    s.set_keepalive(c.keepalive);
    if c.compress {
        s.set_compress();
    }
    s.set_log(if c.trace_log { log::LevelFilter::Trace } else { log::LevelFilter::Off }, "logs".into(), 1, 2);
    s
}

/// start the listener on a thread of its own
pub fn serve(s: &HttpServer) {
    serve_at(s, PORT)
}
fn serve_at(s: &HttpServer, port: u16) {
    let s = s.clone();
    spawn("server", move || {
        as_sut(|| {
            let r = starry_glue::listen(&s, &format!("127.0.0.1:{port}"));
            note(format!("listener returned {}", if r.is_ok() { "ok" } else { "an error" }));
            wd().listen_result = Some(r.map_err(|e| e.to_string()));
        })
    });
}
pub fn listening() -> bool {
    k().net.socks.iter().any(|x| x.st == net::SS::Listening && !x.closed)
}
/// one more server, on another port
pub fn serve_too(s: &HttpServer, port: u16) {
    let n = listeners();
    serve_at(s, port);
    if !wait_until(120 * SEC, || listeners() > n || wd().listen_result.is_some()) || wd().listen_result.is_some() {
        fail("a second server did not start", format!("{:?}", wd().listen_result));
    }
}
fn listeners() -> usize {
    k().net.socks.iter().filter(|x| x.st == net::SS::Listening && !x.closed).count()
}
pub fn serve_wait(s: &HttpServer) {
    serve(s);
    if !wait_until(120 * SEC, || listening() || wd().listen_result.is_some()) || wd().listen_result.is_some() {
        fail("the server did not start", format!("{:?}", wd().listen_result));
    }
}

// ---------------------------------------------------------------- clients

#[derive(Clone, Debug, Default)]
pub struct Resp {
    pub v10: bool,
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
impl Resp {
    pub fn all(&self, k: &str) -> Vec<String> {
        self.headers.iter().filter(|(a, _)| a.eq_ignore_ascii_case(k)).map(|(_, b)| b.clone()).collect()
    }
    pub fn get(&self, k: &str) -> Option<String> {
        self.all(k).into_iter().next()
    }
}
#[derive(Debug)]
pub enum Got {
    Resp(Resp),
    /// closed, with this many bytes of an unfinished response
    Eof(usize),
    Reset(usize),
    Timeout(usize),
    Bad(String),
}

pub struct Conn {
    pub s: TcpStream,
    pub port: u16,
    pub buf: Vec<u8>,
    pub got: u64,
    /// read at most this much, this often (0: at once)
    pub chunk: usize,
    pub pause: u64,
    pub ended: bool,
}

pub fn connect() -> Option<Conn> {
    connect_to(PORT)
}
fn connect_to(port: u16) -> Option<Conn> {
    match TcpStream::connect(("127.0.0.1", port)) {
        Ok(s) => {
            let port = s.local_addr().map(|a| a.port()).unwrap_or(0);
            Some(Conn { s, port, buf: vec![], got: 0, chunk: 0, pause: 0, ended: false })
        }
        Err(_) => None,
    }
}
pub fn must_connect() -> Conn {
    must_connect_to(PORT)
}
fn must_connect_to(port: u16) -> Conn {
    for _ in 0..50 {
        if let Some(c) = connect_to(port) {
            return c;
        }
        sleep(100 * MS);
    }
    fail("the server no longer accepts connections", "")
}

/// How a client cuts its bytes into writes.
#[derive(Clone, Copy, Debug)]
pub struct Cut {
    pub size: usize,
    pub random: bool,
    pub gap: u64,
}
impl Cut {
    pub const WHOLE: Cut = Cut { size: usize::MAX, random: false, gap: 0 };
    pub fn draw(len: usize) -> Cut {
        let size = match w(6) {
            0 => usize::MAX,
            1 => 1,
            2 => 2 + w(30) as usize,
            3 => 1023 + w(3) as usize,
            4 => len / 2 + 1,
            _ => 200 + w(2000) as usize,
        };
        let size = size.max(len / 300);
        Cut { size, random: wchance(1, 3), gap: [0, 10 * US, MS, 100 * MS][w(4) as usize] }
    }
}

impl Conn {
    /// the connection breaks in the network
    pub fn reset(&self) {
        use std::os::fd::AsRawFd;
        if let Some(s) = net::sock_of(k(), self.s.as_raw_fd()) {
            k().count("net.reset");
            net::reset_pair(k(), s);
        }
    }
    /// false: the connection broke
    pub fn send_cut(&mut self, b: &[u8], cut: Cut) -> bool {
        send_cut(&mut self.s, b, cut)
    }
    pub fn send(&mut self, b: &[u8]) -> bool {
        self.s.write_all(b).is_ok()
    }
    /// read something; Ok(0) is the end
    fn fill(&mut self, until: u64) -> Result<usize, Got> {
        let have = self.buf.len();
        let t = now();
        if t >= until {
            return Err(Got::Timeout(have));
        }
        if self.pause > 0 {
            sleep(self.pause);
        }
        let _ = self.s.set_read_timeout(Some(std::time::Duration::from_nanos((until - t).max(US))));
        let mut b = [0u8; 16384];
        let n = if self.chunk > 0 { self.chunk.min(b.len()) } else { b.len() };
        match self.s.read(&mut b[..n]) {
            Ok(0) => {
                self.ended = true;
                Ok(0)
            }
            Ok(n) => {
                self.buf.extend_from_slice(&b[..n]);
                self.got += n as u64;
                Ok(n)
            }
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => Err(Got::Timeout(have)),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => Ok(usize::MAX),
            Err(_) => {
                self.ended = true;
                Err(Got::Reset(have))
            }
        }
    }
    /// the next response on this connection
    pub fn recv(&mut self, head: bool, timeout: u64) -> Got {
        let until = now() + timeout;
        let mut parsed: Option<(Resp, usize, usize)> = None;
        let mut looked = 0;
        loop {
            if parsed.is_none() {
                if let Some(e) = find(&self.buf, b"\r\n\r\n", looked) {
                    match parse_head(&self.buf[..e + 4]) {
                        Ok((r, n)) => parsed = Some((r, e + 4, if head { 0 } else { n })),
                        Err(e) => return Got::Bad(e),
                    }
                } else {
                    if self.buf.len() > 1 << 20 || (self.buf.len() >= 5 && !self.buf.starts_with(b"HTTP/")) {
                        return Got::Bad(format!("not a response: {:?}", show(&self.buf)));
                    }
                    looked = self.buf.len().saturating_sub(3);
                }
            }
            if let Some((_, h, n)) = &parsed {
                if self.buf.len() >= h + n {
                    let (mut r, h, n) = parsed.unwrap();
                    r.body = self.buf[h..h + n].to_vec();
                    self.buf.drain(..h + n);
                    return Got::Resp(r);
                }
            }
            match self.fill(until) {
                Ok(0) => return Got::Eof(self.buf.len()),
                Ok(_) => {}
                Err(g) => return g,
            }
        }
    }
    /// wait for the end of the connection; bytes before it are a violation
    pub fn expect_end(&mut self, timeout: u64, why: &str) {
        let until = now() + timeout;
        loop {
            self.no_surplus(why);
            match self.fill(until) {
                Ok(0) => return,
                Ok(_) => {}
                Err(Got::Timeout(_)) => fail("the server left a connection open that it should have closed", why),
                Err(_) => return,
            }
        }
    }
    fn no_surplus(&self, why: &str) {
        if !self.buf.is_empty() {
            fail("the client received bytes that answer no request", format!("{why}: {}", show(&self.buf)));
        }
    }
    /// nothing more may come for a while (the end may)
    pub fn expect_quiet(&mut self, d: u64, why: &str) {
        let until = now() + d;
        loop {
            self.no_surplus(why);
            if self.ended {
                return;
            }
            match self.fill(until) {
                Ok(0) => return,
                Ok(_) => {}
                Err(_) => return,
            }
        }
    }
}

pub fn send_cut(s: &mut TcpStream, b: &[u8], cut: Cut) -> bool {
    let mut at = 0;
    while at < b.len() {
        let max = cut.size.min(b.len() - at);
        let n = if cut.random { 1 + w(max as u64) as usize } else { max };
        let n = if cut.random { n.max(b.len() / 400).min(b.len() - at) } else { n };
        if s.write_all(&b[at..at + n]).is_err() {
            return false;
        }
        at += n;
        if cut.gap > 0 && at < b.len() {
            sleep(cut.gap);
        }
    }
    true
}

pub fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(120)]).escape_debug().to_string()
}
pub fn find(b: &[u8], pat: &[u8], from: usize) -> Option<usize> {
    if b.len() < pat.len() {
        return None;
    }
    (from..=b.len() - pat.len()).find(|i| &b[*i..*i + pat.len()] == pat)
}

fn parse_head(b: &[u8]) -> Result<(Resp, usize), String> {
    let t = std::str::from_utf8(b).map_err(|_| format!("response head is not text: {}", show(b)))?;
    let mut lines = t[..t.len() - 4].split("\r\n");
    let l = lines.next().unwrap();
    let bad = || format!("bad status line {l:?}");
    let rest = l.strip_prefix("HTTP/1.").ok_or_else(bad)?;
    let minor = rest.bytes().next();
    let rest = rest.strip_prefix(['0', '1']).ok_or_else(bad)?.strip_prefix(' ').ok_or_else(bad)?;
    if rest.len() < 5 || rest.as_bytes()[3] != b' ' {
        return Err(bad());
    }
    let mut r = Resp { status: rest[..3].parse().map_err(|_| bad())?, v10: minor == Some(b'0'), ..Default::default() };
    for l in lines {
        let (a, v) = l.split_once(": ").ok_or(format!("bad header line {l:?}"))?;
        if a.is_empty() || a.bytes().any(|c| c <= b' ' || c >= 127 || c == b':') || v.bytes().any(|c| c < b' ' && c != b'\t') {
            return Err(format!("bad header line {l:?}"));
        }
        r.headers.push((a.to_string(), v.to_string()));
    }
    if r.get("Transfer-Encoding").is_some() {
        return Err("unexpected Transfer-Encoding".into());
    }
    let cl = r.all("Content-Length");
    if cl.len() != 1 {
        return Err(format!("{} Content-Length headers in {:?}", cl.len(), t));
    }
    let n = cl[0].parse::<usize>().map_err(|_| format!("Content-Length {:?}", cl[0]))?;
    Ok((r, n))
}

pub fn decode(enc: &str, b: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![];
    let ok = match enc {
        "gzip" => flate2::read::GzDecoder::new(b).read_to_end(&mut o).is_ok(),
        "zlib" => flate2::read::ZlibDecoder::new(b).read_to_end(&mut o).is_ok(),
        "deflate" => {
            flate2::read::DeflateDecoder::new(b).read_to_end(&mut o).is_ok() || {
                o.clear();
                flate2::read::ZlibDecoder::new(b).read_to_end(&mut o).is_ok()
            }
        }
        _ => false,
    };
    ok.then_some(o)
}

/// Is this the answer to that request?
pub fn judge(s: &Spec, r: &Resp) -> Result<(), String> {
    if s.handler.is_none() {
        return if r.status == 404 { Ok(()) } else { Err(format!("status {} for a path without route", r.status)) };
    }
    let p = &s.plan;
    if r.status != p.status {
        return Err(format!("status {} instead of {}", r.status, p.status));
    }
    if r.v10 != p.version.unwrap_or(s.v10) {
        return Err(format!("answered as HTTP/1.{}, the request is HTTP/1.{}, the handler set {:?}", !r.v10 as u8, !s.v10 as u8, p.version));
    }
    let want: &[u8] = if s.method == "HEAD" {
        b""
    } else if p.how == How::Nothing {
        p.first.as_deref().unwrap_or(b"")
    } else {
        &p.body
    };
    let enc = r.all("Content-Encoding");
    if enc.len() > 1 {
        return Err(format!("Content-Encoding {enc:?}"));
    }
    // text this repetitive gets much smaller, whatever the encoding
    let squeezable = want.len() >= 400 && want[200..].windows(12).any(|x| x == b"line of body");
    let first = s.accept.unwrap_or("").split(',').next().unwrap_or("").trim();
    if enc.is_empty() && s.compress && squeezable && ["gzip", "deflate", "zlib"].contains(&first) {
        return Err(format!("{} bytes of text were sent as they are although {:?} is accepted", want.len(), s.accept));
    }
    let body = match enc.first() {
        None => r.body.clone(),
        Some(e) => {
            if !s.compress {
                return Err(format!("encoded ({e}) although compression is off"));
            }
            if !s.accept.unwrap_or("").split(',').any(|a| a.trim() == e) {
                return Err(format!("encoded with {e}, accepted {:?}", s.accept));
            }
            if s.method == "HEAD" {
                vec![]
            } else {
                decode(e, &r.body).ok_or(format!("the {} bytes of the body are not {e}", r.body.len()))?
            }
        }
    };
    if body != want {
        let at = body.iter().zip(want).position(|(a, b)| a != b).unwrap_or(body.len().min(want.len()));
        return Err(format!("body of {} bytes instead of {}, different from byte {at} on: {} / {}", body.len(), want.len(), show(&body[at..]), show(&want[at..])));
    }
    for (i, (a, b)) in p.headers.iter().enumerate() {
        // set replaces, add adds
        let last_set = p.headers.iter().enumerate().filter(|(j, (c, _))| c == a && j % 2 == 1).map(|(j, _)| j).max();
        let there = r.all(a).contains(b);
        if last_set.is_none_or(|l| i >= l) && !there {
            return Err(format!("header {a}: {b} is missing"));
        }
    }
    let ran = match s.answer_at {
        Some(a) => a + 1,
        None => s.filters.len(),
    };
    let marks: Vec<String> = s.filters[..ran].iter().map(|f| f.to_string()).collect();
    if r.all("X-Filter") != marks {
        return Err(format!("filter marks {:?} instead of {:?}", r.all("X-Filter"), marks));
    }
    let ck: Vec<Vec<String>> = p.cookies.iter().map(|(a, b)| cookie_of(a, b).1).collect();
    let got: Vec<Vec<String>> = r.all("Set-Cookie").iter().map(|c| cookie_parts(c)).collect();
    if got != ck {
        return Err(format!("Set-Cookie {:?} instead of {:?}", got, ck));
    }
    let json = p.json || matches!(p.how, How::Bodies | How::Slices);
    let ct = r.get("Content-Type").unwrap_or_default();
    let want = if json { "application/json" } else { "text/plain" };
    if ct.split(';').next().unwrap_or("").trim() != want {
        return Err(format!("Content-Type {ct:?} instead of {want}"));
    }
    Ok(())
}

pub const WRONG: &str = "a request got a wrong answer";
pub const NONE: &str = "a request got no complete answer";

/// take the answer to `id` off the connection and check it
pub fn take_answer(c: &mut Conn, id: usize, timeout: u64) -> Resp {
    let head = spec(id).method == "HEAD";
    let g = c.recv(head, timeout);
    let s = spec(id);
    match g {
        Got::Resp(r) => {
            note(format!("answer to {id}: {} with {} bytes", r.status, r.body.len()));
            s.answered_at = now();
            if let Err(e) = judge(s, &r) {
                fail(WRONG, format!("request {id} {} {}: {e}", s.method, s.path));
            }
            if s.handler.is_some() && s.answer_at.is_none() && s.handled != 1 {
                fail("a request was answered without its handler", format!("request {id} {} {}", s.method, s.path));
            }
            r
        }
        Got::Bad(e) => fail("the server sent something that is no response", format!("for request {id} {} {}: {e}", s.method, s.path)),
        other => fail(NONE, format!("request {id} {} {}: {other:?}, handled {} times", s.method, s.path, s.handled)),
    }
}

/// One client connection: its requests in order.
#[derive(Clone, Debug)]
pub struct Script {
    pub ids: Vec<usize>,
    pub pipelined: bool,
    pub cut: Cut,
    pub think: u64,
    pub chunk: usize,
    pub pause: u64,
    pub timeout: u64,
    /// keep the connection this long after the last answer
    pub linger: u64,
}
impl Script {
    pub fn new(ids: Vec<usize>) -> Script {
        Script { ids, pipelined: false, cut: Cut::WHOLE, think: 0, chunk: 0, pause: 0, timeout: 400 * SEC, linger: 0 }
    }
}

pub fn run_script(sc: &Script) {
    let mut c = must_connect_to(sc.ids.first().map_or(PORT, |i| spec(*i).sport));
    run_on(&mut c, sc)
}
pub fn run_on(c: &mut Conn, sc: &Script) {
    c.chunk = sc.chunk;
    c.pause = sc.pause;
    for id in &sc.ids {
        spec(*id).port = c.port;
    }
    if sc.pipelined {
        let mut all = vec![];
        for id in &sc.ids {
            spec(*id).sent_at = now();
            all.extend_from_slice(&encode(spec(*id)));
        }
        let mut ws = c.s.try_clone().expect("clone");
        let cut = sc.cut;
        spawn("writer", move || {
            send_cut(&mut ws, &all, cut);
        });
        for id in &sc.ids {
            let r = take_answer(c, *id, sc.timeout);
            after(c, *id, &r);
        }
    } else {
        for (i, id) in sc.ids.iter().enumerate() {
            if i > 0 && sc.think > 0 {
                sleep(sc.think);
                c.expect_quiet(0, "between two requests");
            }
            let b = encode(spec(*id));
            spec(*id).sent_at = now();
            c.send_cut(&b, sc.cut);
            let r = take_answer(c, *id, sc.timeout);
            after(c, *id, &r);
        }
    }
    if let Some(l) = sc.ids.last() {
        if spec(*l).keep && sc.linger > 0 {
            c.expect_quiet(sc.linger, "after the last response");
        }
    }
}
fn after(c: &mut Conn, id: usize, r: &Resp) {
    let s = spec(id);
    if !s.keep {
        c.expect_end(400 * SEC, "after the response to a closing request");
    }
    let _ = r;
}

/// run each script on a thread of its own; all must end
pub fn run_all(scripts: Vec<Script>, stagger: u64, limit: u64) {
    let mut hs = vec![];
    for (i, sc) in scripts.into_iter().enumerate() {
        let d = if stagger > 0 { w(stagger) } else { 0 };
        hs.push(spawn(&format!("client{i}"), move || {
            if d > 0 {
                sleep(d);
            }
            run_script(&sc)
        }));
    }
    if !wait_until(limit, || hs.iter().all(|h| h.done())) {
        fail(NONE, format!("a client is still waiting after {} s", limit / SEC));
    }
}

pub const FULL: &str = "/full";
/// `pool` requests at the same time must all be in progress at the same time
pub fn full_service(pool: usize, handler: usize, compress: bool) {
    calm();
    let t = now();
    let mut cs = vec![];
    for _ in 0..pool {
        let id = new_spec("GET", FULL, Some(handler));
        spec(id).plan.sleep = 20 * SEC;
        spec(id).compress = compress;
        spec(id).keep = false;
        let mut c = must_connect();
        spec(id).port = c.port;
        c.send(&encode(spec(id)));
        cs.push((c, id));
    }
    for (mut c, id) in cs {
        let left = (t + 30 * SEC).saturating_sub(now()).max(SEC);
        match c.recv(false, left) {
            Got::Resp(r) => {
                if let Err(e) = judge(spec(id), &r) {
                    fail(WRONG, format!("request {id}: {e}"));
                }
            }
            other => fail("the server no longer serves as many connections as before", format!("of {pool} simultaneous requests, one is not served: {other:?}, handled {} times", spec(id).handled)),
        }
        c.expect_end(5 * SEC, "after the response to a closing request");
    }
}

/// every request was handled as often as it should
pub fn history_ok(ids: std::ops::Range<usize>) {
    for id in ids {
        let s = spec(id);
        if s.wild {
            continue;
        }
        let want = (s.handler.is_some() && s.answer_at.is_none()) as u32;
        if s.handled != want {
            fail("a request was handled the wrong number of times", format!("request {id} {} {}: {} instead of {want}", s.method, s.path, s.handled));
        }
    }
}

/// the most bytes a run can afford in one message, given how it cuts them
pub fn affordable() -> usize {
    let by_seg: usize = match k().cfg.seg {
        0 => 150_000,
        1 => 1500,
        2..=9 => 4000,
        10..=99 => 30_000,
        _ => 150_000,
    };
    let by_cap = match k().cfg.sock_cap {
        0..=1000 => 20_000,
        _ => 150_000,
    };
    let by_short = if k().cfg.short_read > 100 || k().cfg.short_write > 100 { 60_000 } else { 150_000 };
    by_seg.min(by_cap).min(by_short)
}
pub fn some_len() -> usize {
    let m = affordable();
    if m >= 150_000 && wchance(1, 100) {
        probe("huge_body");
        crate::rt::kernel::k().cfg.edge_budget = 1_000_000_000;
        if w(8) == 0 {
            probe("monstrous_body");
            return 1_350_000 + w(4_000_000) as usize;
        }
        return 150_000 + w(1_200_000) as usize;
    }
    let n = match w(8) {
        0 => 0,
        1 => 1 + w(40) as usize,
        2 => 100 + w(400) as usize,
        3 => 1020 + w(10) as usize,
        4 => 2040 + w(20) as usize,
        5 => 500 + w(4000) as usize,
        6 => 1000 + w(20_000) as usize,
        _ => w(m as u64) as usize,
    };
    n.min(m)
}

const TOK: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~";
pub fn token(lo: u64, hi: u64) -> String {
    let n = wr(lo, hi);
    (0..n).map(|_| TOK[w(TOK.len() as u64) as usize] as char).collect()
}
fn value() -> String {
    match w(6) {
        5 => format!("{}={}=", token(0, 4), token(0, 4)),
        0 => token(1, 12),
        1 => format!("{}+%20{}", token(1, 5), token(0, 5)),
        2 => format!("{}:{};{}/{}", token(1, 4), token(0, 4), token(0, 4), token(0, 3)),
        3 => format!("é{}", token(1, 4)),
        _ => token(0, 3),
    }
}

/// a body whose decoded form fields and files are known
pub fn draw_body(id: usize, len: usize, lot: bool) -> BodyIn {
    match w(4) {
        0 => BodyIn::Raw(bytes_for(id, len, wchance(1, 2))),
        1 => {
            let mut f = vec![];
            for i in 0..if lot { wr(40, 120) } else { 1 + w(5) } {
                f.push((format!("{}.{i}", token(1, 6)), value()));
            }
            if len > 200 {
                let b = hexs(8);
                f.push(("long".into(), b.repeat(len / 8)));
            }
            BodyIn::Form(f)
        }
        _ => {
            let b = format!("----{}", token(8, 20));
            let n = if lot { wr(15, 40) } else { 1 + w(4) };
            let mut parts = vec![];
            for i in 0..n {
                let name = format!("{}.{i}", token(1, 6));
                if wchance(1, 2) {
                    let mut d = bytes_for(id + 17 * i as usize, len / n as usize, wchance(1, 2));
                    match w(5) {
                        0 => d.extend_from_slice(b"\r\n"),
                        1 => d.extend_from_slice(format!("\r\n--{}", &b[..b.len() - 1]).as_bytes()),
                        2 => d.extend_from_slice(b"\r\n--\r\n\r\n\n"),
                        3 => d.clear(),
                        _ => {}
                    }
                    let filename = match w(4) {
                        3 if wchance(1, 3) => String::new(),
                        0 => format!("{}.txt", token(1, 8)),
                        1 => format!("{} {};{}.bin", token(1, 4), token(1, 4), token(0, 3)),
                        _ => token(1, 8),
                    };
                    parts.push(Part { name, filename: Some(filename), ctype: pick(&[None, Some("text/plain"), Some("application/octet-stream"), Some("image/x-odd; a=b")]), data: d });
                } else {
                    let v = match w(5) {
                        0 => String::new(),
                        4 => format!("{}{}{}", pick(&["", " ", "\n", "\t ", "\r\n"]), value(), pick(&["", " ", "\n", "  \t", "\r\n\r\n"])),
                        1 => format!("{}\r\n{}\n", value(), value()),
                        _ => value(),
                    };
                    parts.push(Part { name, filename: None, ctype: pick(&[None, None, Some("text/plain")]), data: v.into_bytes() });
                }
            }
            BodyIn::Multi(b, parts)
        }
    }
}

/// name=value first, then the attributes in alphabetical order
pub fn cookie_parts(c: &str) -> Vec<String> {
    let mut v: Vec<String> = c.split(';').map(|x| x.trim().to_string()).collect();
    for x in &mut v[1..] {
        let n = x.find('=').unwrap_or(x.len());
        *x = x[..n].to_ascii_lowercase() + &x[n..];
    }
    v[1..].sort();
    v
}
/// a cookie and what should be seen of it on the wire; its attributes follow
/// from its name and value
pub fn cookie_of(a: &str, b: &str) -> (Cookie, Vec<String>) {
    use starry::header::cookie::SameSite;
    let k = a.bytes().chain(b.bytes()).fold(7u64, |h, c| (h ^ c as u64).wrapping_mul(0x100000001b3)) >> 20;
    let mut v = format!("{a}={b}");
    if k & 1 == 0 {
        return (Cookie::new(a.into(), b.into()), vec![v]);
    }
    let mut c = starry::header::CookieBuilder::new();
    c.name_value(a.into(), b.into());
    if k & 2 != 0 {
        c.path(format!("/{b}"));
        v += &format!("; Path=/{b}");
    }
    if k & 4 != 0 {
        c.domain(format!("{a}.example"));
        v += &format!("; Domain={a}.example");
    }
    if k & 8 != 0 {
        c.httponly(true);
        v += "; HttpOnly";
    }
    if k & 16 != 0 {
        c.secure(true);
        v += "; Secure";
    }
    if k & 32 != 0 {
        let n = (k >> 8) as isize % 100_000 - 3;
        c.max_age(n);
        v += &format!("; Max-Age={n}");
    }
    match (k >> 6) & 3 {
        0 => {}
        1 => {
            c.same_site(SameSite::Lax);
            v += "; SameSite=Lax";
        }
        2 => {
            c.same_site(SameSite::Strict);
            v += "; SameSite=Strict";
        }
        _ => {
            c.same_site(SameSite::None);
            v += "; SameSite=None";
        }
    }
    (c.build(), cookie_parts(&v))
}

/// dress a request up: query, headers, cookies, credentials, body
pub fn dress(id: usize, len: usize) {
    let s = spec(id);
    // usually a little of everything, now and then a lot of something
    let lot = if wchance(1, 40) && affordable() > 20_000 { wr(1, 5) } else { 0 };
    for i in 0..if lot == 1 { wr(30, 80) } else { w(4) } {
        s.query.push((format!("{}.{i}", token(1, 5)), {
            let v = value();
            if v.contains('#') || v.contains('&') {
                token(1, 4)
            } else {
                v
            }
        }));
    }
    s.fragment = wchance(1, 16);
    for i in 0..if lot == 2 { wr(60, 130) } else { w(5) } {
        let v = match w(4) {
            0 => "a: b, c;d=\"e\"".to_string(),
            1 => token(1, 30),
            2 => format!("http://x/{}?q=1", token(1, 5)),
            _ => value(),
        };
        if !v.is_empty() {
            s.headers.push((format!("X-{}.{i}", token(1, 8)), v));
        }
    }
    if wchance(1, 10) {
        // the same name again
        for _ in 0..wr(2, 3) {
            s.headers.push(("X-Again".into(), token(1, 6)));
        }
    }
    if wchance(1, 12) {
        // a head well beyond one read
        let n = (affordable() / 4).min(9000);
        s.headers.push(("X-Long".into(), hexs(16).repeat(n / 16 + 1)));
    }
    for i in 0..if lot == 3 { wr(20, 60) } else { w(3) } {
        s.cookies.push((format!("{}.{i}", token(1, 5)), token(1, 9)));
    }
    if wchance(1, 5) {
        s.auth = Some((token(1, 8), format!("{}:{}", token(0, 5), token(0, 5))));
    }
    if wchance(2, 5) {
        s.accept = Some(pick(&["gzip", "deflate", "zlib", "br", "gzip,deflate", "gzip, deflate, br", "br,deflate", "identity"]));
    }
    s.v10 = wchance(1, 8);
    s.style = if wchance(1, 2) { w(20) as u8 } else { 0 };
    s.spell = if wchance(1, 3) { w(4) as u8 } else { 0 };
    if wchance(1, 3) {
        s.closing = pick(&["close", "Close", "CLOSE", "close, TE", "TE, close", "Upgrade", "upgrade"]);
    }
    if matches!(s.method, "POST" | "PUT" | "PATCH") {
        s.body = draw_body(id, len, lot >= 4);
    } else if wchance(1, 6) {
        // bodies other methods carry are passed over
        s.body = BodyIn::Raw(bytes_for(id, len, wchance(1, 2)));
    }
}

/// a plan with everything a handler may do
pub fn dress_plan(id: usize, len: usize) {
    let s = spec(id);
    let random = wchance(1, 2);
    let p = &mut s.plan;
    p.body = bytes_for(id, len, random);
    p.how = pick(&[How::Body, How::Body, How::Slice, How::Bodies, How::Slices, How::Nothing]);
    if wchance(1, 5) {
        p.first = Some(bytes_for(id + 1000, 700, false));
    }
    p.json = wchance(1, 5);
    p.status = if wchance(1, 3) { pick(&[200, 201, 400, 404, 500]) } else { pick(&STATUSES) };
    if wchance(1, 8) {
        p.version = Some(wchance(1, 2));
    }
    p.body_first = wchance(1, 3);
    let lot = wchance(1, 40) && affordable() > 20_000;
    for i in 0..if lot { wr(20, 120) } else { w(4) } {
        p.headers.push((if wchance(1, 4) { "X-Same".to_string() } else { format!("X-R{i}") }, token(1, 12)));
    }
    for i in 0..if lot { wr(5, 30) } else { w(3) } {
        p.cookies.push((format!("{}.{i}", token(1, 5)), token(1, 9)));
    }
    p.respond = [1, 1, 0, 2, 3][w(5) as usize];
    p.late = wchance(1, 8);
    p.sleep = [0, 0, MS, 30 * MS][w(4) as usize];
}

/// a small table of plain routes for every method
pub fn simple_routes() -> Vec<Route> {
    let mut v = vec![];
    for (i, m) in ["GET", "POST", "PUT", "HEAD", "DELETE", "PATCH"].iter().enumerate() {
        v.push(Route::plain(m, "/r/one", i * 3));
        v.push(Route::plain(m, "/r/:x/two", i * 3 + 1));
        v.push(Route::plain(m, "/r/:x/:y", i * 3 + 2));
    }
    v
}
pub fn any_request(routes: &[Route]) -> usize {
    let m = pick(&["GET", "POST", "PUT", "HEAD", "DELETE", "PATCH", "POST"]);
    let p = match w(5) {
        0 => "/r/one".to_string(),
        1 => format!("/r/{}/two", token(1, 6)),
        2 => format!("/r/{}/{}", token(1, 6), token(1, 6)),
        3 => format!("/r/{}/{}", token(1, 6), token(0, 3)),
        _ => "/r/one".to_string(),
    };
    routed(routes, m, &p)
}

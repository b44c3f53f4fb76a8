use crate::runner::Prop;
use crate::scen::*;

pub static ALL: &[&Prop] = &[&T01, &T02, &T03, &T04, &T05, &H01, &H02, &H03, &H04, &H05, &H06, &H07, &H08, &H09, &H10, &H11, &H12, &C01, &C02, &C03, &C04, &C05, &L01, &L02];
pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id).copied()
}

const REAL_POOL: &str = "starry's thread pool (utils/concurrent), crossbeam channels and queues, std threads, locks and unwinding: the real code, on real threads of which exactly one runs at a time";
const STUB: &str = "the operating system underneath libc: thread scheduling, futexes, clocks, sleeping, thread creation, sockets, files and randomness are the simulator's (sim/src/rt)";
const ASSUME: &[&str] = &[
    "code between two instrumented points (basic-block edges of starry and crossbeam, libc calls of everything) runs without preemption; weak-memory reorderings are not simulated",
    "the search samples seeds: a clean batch is evidence, not proof",
];

static T01: Prop = Prop {
    id: "T01",
    variants: &[("exec_once", pool::exec_once), ("handoff", pool::handoff), ("rush", pool::rush), ("sustained", pool::sustained)],
    quick_runs: 60000,
    thorough_runs: 2000000,
    rule: "A run draws a pool (1-4 threads, 1-32 waiting places), 1-4 submitting threads with own or shared handles, tasks of 0-50 ms, nested submissions, and a scheduling style (preemption distance, stalls, wake-up order, PCT priorities).",
    real: REAL_POOL,
    stubs: STUB,
    assumptions: ASSUME,
};
static T02: Prop = Prop {
    id: "T02",
    variants: &[("parallelism", pool::parallelism), ("contention", pool::contention), ("rush", pool::rush), ("create_fails", pool::create_fails)],
    quick_runs: 40000,
    thorough_runs: 1500000,
    rule: "A run draws a pool and a sequence of gated submissions and releases; at rest points the number of running tasks is compared with min(size, unfinished), every refusal with the number waiting, and the full pool with its exact capacity.",
    real: REAL_POOL,
    stubs: STUB,
    assumptions: ASSUME,
};
static T03: Prop = Prop {
    id: "T03",
    variants: &[("panics", pool::panics), ("panics_spawn_fail", pool::panics_spawn_fail)],
    quick_runs: 50000,
    thorough_runs: 1500000,
    rule: "A run draws a pool, submitters and tasks of which a drawn share panics, optionally with thread creation failing (EAGAIN) a drawn number of times; afterwards all accepted tasks must have run once and `size` mutually waiting tasks must run together.",
    real: REAL_POOL,
    stubs: STUB,
    assumptions: ASSUME,
};
static T04: Prop = Prop {
    id: "T04",
    variants: &[("shutdown", pool::shutdown), ("drop_inside", pool::drop_inside), ("clone_storm", pool::clone_storm), ("create_fails", pool::create_fails), ("drop_unhealed", pool::drop_unhealed), ("come_and_go", pool::come_and_go)],
    quick_runs: 50000,
    thorough_runs: 1500000,
    rule: "A run draws a pool with 1-3 handles, used and dropped at drawn moments by threads or tasks (or whose creation fails half-way); afterwards every accepted task must have run once and no thread of the pool may be left.",
    real: REAL_POOL,
    stubs: STUB,
    assumptions: ASSUME,
};

static T05: Prop = Prop {
    id: "T05",
    variants: &[("threads", pool::threads)],
    quick_runs: 40000,
    thorough_runs: 1000000,
    rule: "A run starts 1-8 threads in each of the three ways, with drawn names, stack sizes, sleeps and panics, while the operating system may refuse threads; joins or abandons them, and compares names, results, sleeping times and the number of executions.",
    real: REAL_POOL,
    stubs: STUB,
    assumptions: ASSUME,
};

const REAL_SERVER: &str = "starry's HttpServer with its listener, thread pool, requester, responser, router, filters, limits, Context and logging; std::net, std threads, crossbeam, flate2: the real code, on real threads of which exactly one runs at a time";
const CLIENT_STUB: &str = "the operating system underneath libc: thread scheduling, futexes, clocks, TCP with buffers, latency, segmentation, short reads and writes, EINTR, files and randomness are the simulator's (sim/src/rt); the peers are scripted clients with raw sockets";

static H01: Prop = Prop {
    id: "H01",
    variants: &[("segmentation", server::segmentation), ("boundary_cuts", server::boundary_cuts), ("segmentation_b", server::segmentation)],
    quick_runs: 60000,
    thorough_runs: 2000000,
    rule: "A run draws a server, requests with every kind of head and body, and sends each several times, in differently drawn pieces, over a network that cuts, delays and shortens reads and writes; every time the handler must see exactly the drawn request, and the client the drawn answer.",
    real: REAL_SERVER,
    stubs: CLIENT_STUB,
    assumptions: ASSUME,
};
static H02: Prop = Prop {
    id: "H02",
    variants: &[("pipelines", server::pipelines), ("segmentation", server::segmentation), ("pipelines_b", server::pipelines), ("cut_short", server::cut_short)],
    quick_runs: 60000,
    thorough_runs: 2000000,
    rule: "A run draws 1-2 connections with 2-7 requests each, sent one by one or pipelined in drawn pieces; request k must be parsed exactly, be handled once, and get answer k. Where a connection ends in the middle of a request, no handler may run for it.",
    real: REAL_SERVER,
    stubs: CLIENT_STUB,
    assumptions: ASSUME,
};
static H03: Prop = Prop {
    id: "H03",
    variants: &[("responses", server::responses), ("bad_forms", server::bad_forms), ("pipelines", server::pipelines)],
    quick_runs: 60000,
    thorough_runs: 2000000,
    rule: "A run draws up to five connections, handlers that answer in every way the API has (also never, twice, or late), compression and slow readers; each request must get exactly one complete response with the drawn status, headers, cookies and body, and nothing else.",
    real: REAL_SERVER,
    stubs: CLIENT_STUB,
    assumptions: ASSUME,
};
static H04: Prop = Prop {
    id: "H04",
    variants: &[("routing", server::routing)],
    quick_runs: 60000,
    thorough_runs: 2000000,
    rule: "A run draws up to 20 routes over all twelve methods with literal and parameter segments, and up to 40 requests with paths near and far from them on concurrent connections; a reference router decides which handler must see which parameters, or 404.",
    real: REAL_SERVER,
    stubs: CLIENT_STUB,
    assumptions: ASSUME,
};
static H05: Prop = Prop {
    id: "H05",
    variants: &[("filters_chain", server::filters_chain)],
    quick_runs: 60000,
    thorough_runs: 2000000,
    rule: "A run draws groups and routes with 0-4 filters each, requests of which half are answered by a drawn filter, and concurrent connections; the filters of a request must run in order, once, before the handler, and none after one has answered.",
    real: REAL_SERVER,
    stubs: CLIENT_STUB,
    assumptions: ASSUME,
};
static H06: Prop = Prop {
    id: "H06",
    variants: &[("limits", serving::limits)],
    quick_runs: 60000,
    thorough_runs: 2000000,
    rule: "A run draws 1-2 limited routes (section, count, interval, filters), registered before or while serving, and 1-8 clients pressing on them or on an unlimited route in bursts, steadily or after idle periods; the recorded times at which requests are let through are compared with the limit from above and below.",
    real: REAL_SERVER,
    stubs: CLIENT_STUB,
    assumptions: ASSUME,
};
static H07: Prop = Prop {
    id: "H07",
    variants: &[("keepalive", serving::keepalive)],
    quick_runs: 60000,
    thorough_runs: 2000000,
    rule: "A run draws a keep-alive time, 1-4 connections with requests at drawn gaps (up to and beyond it), slow handlers, trickling requests and slow readers, and how each connection ends; every close is compared with when it was due.",
    real: REAL_SERVER,
    stubs: CLIENT_STUB,
    assumptions: ASSUME,
};
static H08: Prop = Prop {
    id: "H08",
    variants: &[("chaos", serving::chaos), ("chaos2", serving::chaos), ("endurance", serving::endurance), ("unhindered", serving::unhindered)],
    quick_runs: 60000,
    thorough_runs: 2000000,
    rule: "A run draws 1-5 faulty clients (leaving, resetting, stalling, sending malformed input of 14 kinds, never reading, making handlers panic) among 1-3 healthy ones, whose every request must be answered correctly, or one kind of mishap is repeated 20-80 times; afterwards as many simultaneous requests as the pool has threads must be in progress at once. Or slow handlers and slow clients hold all workers but some, and the free ones' clients must be answered without delay.",
    real: REAL_SERVER,
    stubs: CLIENT_STUB,
    assumptions: ASSUME,
};
static H09: Prop = Prop {
    id: "H09",
    variants: &[("refusals", serving::refusals), ("startup", serving::startup)],
    quick_runs: 60000,
    thorough_runs: 2000000,
    rule: "A run draws kinds, rates and counts of failing accept, dup, thread creation and connections while 1-4 clients use the server (or one failure while it starts); clients must see correct responses or closed connections, and full service afterwards.",
    real: REAL_SERVER,
    stubs: CLIENT_STUB,
    assumptions: ASSUME,
};
static H10: Prop = Prop {
    id: "H10",
    variants: &[("overload", serving::overload)],
    quick_runs: 60000,
    thorough_runs: 2000000,
    rule: "A run draws 2-140 simultaneous connections for 1-3 workers, with slow handlers, idle and late clients; each must be served completely or closed unserved, the latter only when over a hundred were waiting, and full service must follow.",
    real: REAL_SERVER,
    stubs: CLIENT_STUB,
    assumptions: ASSUME,
};
static H11: Prop = Prop {
    id: "H11",
    variants: &[("registering", serving::registering), ("unhindered", serving::unhindered_registering), ("registering_b", serving::registering)],
    quick_runs: 60000,
    thorough_runs: 2000000,
    rule: "A run draws 1-3 threads registering up to 18 routes (some duplicate or invalid) while 1-4 clients ask for old and new ones; a request sent after its registration returned must reach it, one sent earlier must get that or a clean 404. Or routes are registered, also by handlers, while slow handlers and slow clients hold workers, and neither registrations nor requests of free workers may wait for those.",
    real: REAL_SERVER,
    stubs: CLIENT_STUB,
    assumptions: ASSUME,
};

const REAL_CLIENT: &str = "starry's HttpClient with URL, request and response handling; std::net and std threads: the real code";
const SERVER_STUB: &str = "the operating system underneath libc (threads, clocks, TCP, name resolution) is the simulator's (sim/src/rt); the servers are scripted peers with raw sockets";
static H12: Prop = Prop {
    id: "H12",
    variants: &[("tidy_chaos", serving::tidy_chaos), ("tidy_refusals", serving::tidy_refusals), ("tidy_keepalive", serving::tidy_keepalive), ("tidy_overload", serving::tidy_overload), ("tidy_endurance", serving::tidy_endurance)],
    quick_runs: 60000,
    thorough_runs: 2000000,
    rule: "A run warms a server up, counts its threads, then subjects it to drawn connections: faulty and healthy ones, slow and idle ones, refused system calls, panicking handlers, the same mishap 20-80 times, or a crowd; once all are gone, or have been silent past the keep-alive time without closing their end, it may hold no connection, no more threads and no more memory than before.",
    real: REAL_SERVER,
    stubs: CLIENT_STUB,
    assumptions: ASSUME,
};
static C01: Prop = Prop {
    id: "C01",
    variants: &[("client_responses", client::client_responses), ("client_garbage", client::client_garbage)],
    quick_runs: 60000,
    thorough_runs: 2000000,
    rule: "A run draws 1-4 responses (status, reason, headers, body, with or without length), sent in drawn pieces and complete, cut, reset or with surplus bytes, or malformed in drawn ways; get must return exactly a complete response and an error for an incomplete one.",
    real: REAL_CLIENT,
    stubs: SERVER_STUB,
    assumptions: ASSUME,
};
static C02: Prop = Prop {
    id: "C02",
    variants: &[("client_requests", client::client_requests)],
    quick_runs: 60000,
    thorough_runs: 2000000,
    rule: "A run draws 1-4 URLs (scheme, credentials, host, port, path, query, fragment), short and interrupted writes, slow servers, and failing connects or writes; the bytes that arrived must be exactly the request of the URL whenever get succeeds, and get succeeds when nothing failed.",
    real: REAL_CLIENT,
    stubs: SERVER_STUB,
    assumptions: ASSUME,
};
static C03: Prop = Prop {
    id: "C03",
    variants: &[("end_to_end", client::end_to_end)],
    quick_runs: 60000,
    thorough_runs: 2000000,
    rule: "A run draws a server, 1-6 threads with 1-4 calls each, parameters, credentials and answers up to 150 kB; every call must return its own answer and be executed once.",
    real: "starry's HttpClient and HttpServer together, real code on real threads of which exactly one runs at a time",
    stubs: CLIENT_STUB,
    assumptions: ASSUME,
};
static C04: Prop = Prop {
    id: "C04",
    variants: &[("client_failures", client::client_failures)],
    quick_runs: 60000,
    thorough_runs: 2000000,
    rule: "A run draws 1-4 failing servers (refusing, closing, resetting, stalling then closing, sending part of a response or rubbish), failing connects and name resolution, and healthy calls next to them; failing calls must return an error in time, healthy ones their answer.",
    real: REAL_CLIENT,
    stubs: SERVER_STUB,
    assumptions: ASSUME,
};

static C05: Prop = Prop {
    id: "C05",
    variants: &[("client_tidy", client::client_tidy)],
    quick_runs: 40000,
    thorough_runs: 1500000,
    rule: "A run draws 1-3 callers that make 11-21 calls each to servers that answer, close, reset, stall, send parts of responses or rubbish, or do not exist, with failing system calls in between; each call must have closed its connection when it returns, and all of them together may leave no thread and no memory behind.",
    real: REAL_CLIENT,
    stubs: SERVER_STUB,
    assumptions: ASSUME,
};

const REAL_LOG: &str = "starry's log configuration (utils/log.rs) with log, log4rs, its rolling appender, JSON encoder and parking_lot locks: the real code, writing to a real directory of the run's own";
const LOG_STUB: &str = "the operating system underneath libc: thread scheduling, futexes, clocks and randomness are the simulator's; file operations pass through it, which fails, shortens or tears them or kills the process at them";

static L01: Prop = Prop {
    id: "L01",
    variants: &[("crashes", logs::crashes)],
    quick_runs: 60000,
    thorough_runs: 2000000,
    rule: "A run draws a log configuration (0 or 1 MB per file, 0-5 rotated files, up to three module files) and 1-4 successive processes that log from 1-3 threads and are killed at a drawn file operation (or in the middle of a write); after each, every record whose call returned must be in its files once, whole and in order, unless rotation was entitled to discard it.",
    real: REAL_LOG,
    stubs: LOG_STUB,
    assumptions: &[
        "a killed process loses its memory but nothing it has handed to write(2); loss of the operating system's page cache is not simulated, as nothing in starry claims to sync",
        "the search samples seeds: a clean batch is evidence, not proof",
    ],
};
static L02: Prop = Prop {
    id: "L02",
    variants: &[("reconfigure", logs::reconfigure), ("disk_fails", logs::disk_fails), ("server_logs", logs::server_logs)],
    quick_runs: 60000,
    thorough_runs: 2000000,
    rule: "A run draws 1-4 logging threads, and either up to four configurations that replace each other meanwhile (each record must be, whole and once, in exactly the files some configuration in force during its call names), or disk faults of eight kinds for a while (no call may panic or block, and what was logged before and after must be there), or a server with a log of its own whose handlers log while it serves (each record once, of the level, in the directory and within the sizes it was told).",
    real: REAL_LOG,
    stubs: LOG_STUB,
    assumptions: ASSUME,
};

import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=[],state=[]):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
TP="src/utils/concurrent/thread_pool.rs"
SV="src/server/server.rs"; RQ="src/http/requester.rs"; RS="src/http/response.rs"; ND="src/server/node.rs"; RT="src/server/router.rs"; EX="src/server/extend.rs"; LM="src/server/limit.rs"; CX="src/server/context.rs"
RP="src/http/responser.rs"; CL="src/client/client.rs"; LG="src/utils/log.rs"

p("T01","Every task the thread pool accepts runs exactly once, and runs eventually",
  "Whenever submitting a task to a thread pool succeeds, that task is executed exactly once, and within bounded time once the tasks ahead of it have finished, no matter how submissions, completions and idle transitions interleave. A task whose submission was refused never runs. Tasks run on threads with the name prefix and the stack size the pool was given.",
  ["schedules","configurations","histories"],"every pool size, queue capacity, number of submitting threads, submission history and thread schedule",
  "The pool tests submit a handful of tasks and sleep; they sample one schedule each and never compare the set of accepted tasks with the set of executed ones, so a hand-off race (task queued just as the last worker goes idle) cannot show.",
  [TP],[("execute: hand to an idle worker or queue","src/utils/concurrent/thread_pool.rs execute"),("notify thread pairs idle workers with queued tasks","src/utils/concurrent/thread_pool.rs notify_check"),("worker loop","src/utils/concurrent/thread_pool.rs Worker::work")],
  ["ThreadPool::execute result","effects of the submitted closures"])
p("T02","Pool runs at most size tasks at once, uses all of them, and rejects when full",
  "A thread pool of size n with room for q waiting tasks never executes more than n tasks at the same moment and never leaves a waiting task idle while one of its n workers is free. A submission returns promptly without waiting for running tasks, and is refused only when q tasks are already waiting.",
  ["schedules","configurations","histories"],"every pool size and queue capacity, every mix of long and short tasks, every schedule",
  "No test measures how many tasks run at once, fills the queue, or checks what a refused submission means; a lost worker or a double hand-off keeps every existing assertion true.",
  [TP],[("idle-worker queue bounded by pool size","src/utils/concurrent/thread_pool.rs Builder::create"),("bounded task queue","src/utils/concurrent/thread_pool.rs init, execute")],
  ["ThreadPool::execute result","start and end of submitted closures"])
p("T03","A panicking task harms nothing but itself; the pool heals to full size",
  "When a pool task panics, every other accepted task still runs exactly once and later submissions keep working. The pool returns to its full configured parallelism within bounded time, also when several tasks panic together or the operating system refuses to start a replacement thread for a while.",
  ["schedules","fault_sequences","histories"],"every placement of panics among tasks, every schedule, and any finite run of thread-creation failures while replacing workers",
  "Tests never panic inside a task with other tasks waiting and never make thread creation fail; healing runs concurrently with submissions on a separate notify thread.",
  [TP],[("Sentinel drop asks for a replacement","src/utils/concurrent/thread_pool.rs Sentinel"),("notify thread refills the slot","src/utils/concurrent/thread_pool.rs notify_check Fill")],
  ["effects of the submitted closures","number of tasks that can run at once after the panics"])
p("T04","Dropping the last pool handle runs what was accepted, then frees every thread",
  "When the last handle to a thread pool is dropped, every thread of the pool terminates within bounded time after the running tasks finish, and tasks accepted before the drop are still executed; its memory is freed, so that pools can come and go without end. Dropping some but not all handles changes nothing for the remaining ones.",
  ["schedules","histories"],"every order of clone, drop, submit and task completion across threads, every schedule",
  "No test drops a pool and looks at what remains: leaked workers are invisible to assertions, and a premature shutdown needs a drop racing with submissions on another handle.",
  [TP],[("handle count","src/utils/concurrent/thread_pool.rs Clone and Drop for ThreadPool"),("Close messages","src/utils/concurrent/thread_pool.rs Message::Close, Notify::Close")],
  ["live threads of the process","effects of the submitted closures"])

p("T05","Threads started one by one run their closure once, or report the refusal",
  "Starting a thread with the Thread helper either returns a handle, and the closure runs exactly once on a thread of the given name and stack size, its result (or its panic) reaching whoever joins the handle; or returns an error when the operating system refuses, and the closure never runs. Starting does not wait for the closure, a dropped handle does not stop it, and a sleep lasts as long as asked for.",
  ["schedules","histories"],"every name and stack size, every schedule, every refusal of the operating system",
  "Tests start three threads and print; they cannot make the operating system refuse one, look at stack sizes, or see a closure that ran twice or not at all.",
  ["src/utils/concurrent/thread.rs"],[("closure","src/utils/concurrent/thread.rs Thread::spawn, spawn_on_name, spawn_on_custom")],
  ["results of JoinHandle::join","std::thread::current().name()","effects of the closures"])

p("H01","The server's answer does not depend on how the request bytes are cut up",
  "For any request, however its bytes are split into TCP segments, delayed, or returned by short or interrupted reads, the server invokes the same handler with the same method, path, parameters, headers and body, and sends the same response. Request heads and bodies of any size that the server accepts in one piece are accepted in every segmentation.",
  ["schedules","inputs","fault_sequences"],"every request, every segmentation and delivery timing of its bytes, every pattern of short or interrupted reads",
  "Server tests never open a socket; the request parser is fed one file in a single read. Segmentation is decided by the network and kernel at run time.",
  [RQ,SV],[("reading the request from the stream","src/http/requester.rs parse"),("head and body parsing","src/http/requester.rs parse_request_line, parse_request_header, fill_body")],
  ["what the handler sees through Context","bytes received by the client"])
p("H02","Requests on a connection are framed exactly; bodies arrive byte for byte",
  "On a keep-alive connection, any sequence of requests, sent one at a time or pipelined back to back, is processed one by one in order: each handler sees exactly the bytes of its own request's body (its Content-Length bytes, unaltered), nothing of one request leaks into another or is lost. Fields of urlencoded and multipart bodies (values as sent, without percent-decoding) and uploaded files reach the handler as what the client sent.",
  ["inputs","histories","schedules"],"every sequence of well-formed requests with and without bodies (bodies framed by Content-Length; form bodies on POST, PUT and PATCH), every pipelining pattern and delivery timing",
  "Tests parse one request from one file; message boundaries between consecutive requests only exist on a live connection, where they depend on what happens to be buffered.",
  [RQ,SV],[("Content-Length framing","src/http/requester.rs fill_body"),("per-connection request loop","src/server/server.rs exec_stream, loop_exec"),("form and multipart decoding","src/http/requester.rs parse_body")],
  ["what the handler sees through Context","order and content of the responses"])
p("H03","Each request gets exactly one complete response, on its own connection, in order",
  "Every request the server accepts is answered by exactly one well-formed HTTP response whose Content-Length equals its body (none is sent for HEAD), whose status, version (the request's unless the handler set one), headers and cookies are those the handler set, and whose body, decoded by its declared Content-Encoding, is what the handler wrote; the client never receives unsolicited, duplicated, interleaved or truncated bytes. Responses never cross connections, whatever runs concurrently, however slowly the client reads, and whatever the write sizes the kernel accepts. With compression enabled, a body that shrinks by it is sent compressed to a client whose first choice the library supports.",
  ["schedules","inputs","fault_sequences"],"every number of concurrent connections, every handler behaviour including none or repeated response calls and malformed bodies, every schedule, short write and slow reader, compression on or off",
  "No test sends a response over a socket; the only response test formats two constant responses with test-only code.",
  [RQ,RS,CX,SV],[("response serialisation","src/http/requester.rs response"),("one response per context","src/server/context.rs response, executed"),("compression and its headers","src/http/response.rs write_type")],
  ["bytes received by the client"])
p("H04","Each request is dispatched to the first-registered matching route, or gets a 404",
  "A request reaches the handler of a route of its method whose pattern matches the whole path; where several match, the choice is made segment by segment from the left, the alternative registered first being tried first. Every path parameter is bound under the name that route declared. A path that matches no registered route gets a 404 response and runs no handler, however odd the path is. This holds for any set of routes and for any number of concurrent requests.",
  ["configurations","inputs","schedules"],"every set of registered routes (static and parameter segments, shared prefixes, routers with prefixes, all methods) and every request path, served concurrently",
  "Tests look up a few exact paths in the tree in-process; no test asks for a prefix of a route, for two routes naming the same segment differently, or for anything over a live connection.",
  [ND,RT,RQ],[("route tree insertion","src/server/node.rs add_fn, add_split"),("route lookup","src/server/node.rs fetch_fn"),("404","src/http/requester.rs parse")],
  ["which handler ran, with which fields","status of the response"])
p("H05","Filters run in order before the handler; an answer from one stops the rest",
  "For every request to a route with filters, its own filters and then its group's filters run, in registration order and each once, before the handler; as soon as one of them has answered (or panicked), no later filter and not the handler runs, and the client receives that answer only. Filters of one request never run for, or affect, another.",
  ["configurations","schedules"],"every list of route and group filters, every choice of the filter that answers, any number of concurrent requests",
  "No test runs a filter at all; the short-circuit is per-request state that only exists while a connection is being served.",
  [EX,RT,SV,CX],[("filter chain","src/server/extend.rs check_filter"),("merging group and route filters","src/server/router.rs repo_wf"),("short-circuit before the handler","src/server/server.rs exec_stream")],
  ["order of filter and handler calls","response"])
p("H06","A route's rate limit is never exceeded, and never starves requests it allows",
  "On a route limited to count requests per section with a minimum interval, no more than count requests are let through in any window of section milliseconds and no two within interval milliseconds, however many clients press, after whatever idle period and under any schedule. Every waiting request is let through within bounded time once the limit allows it, while workers are free one limited route does not delay other routes, and the limit holds across all connections.",
  ["schedules","histories","configurations"],"every limit configuration with a positive count, arrival pattern (bursts, idle gaps, steady), number of clients and thread schedule",
  "The only limit test prints; nothing asserts timing, and the window guarantee is about all placements of a sliding window over a concurrent history, which needs a controlled clock.",
  [LM,EX,ND],[("token producer","src/server/limit.rs run"),("token consumer","src/server/limit.rs recv, src/server/extend.rs check_limit")],
  ["virtual times at which the handler is entered"])
p("H07","Idle keep-alive connections are closed on time; busy ones are not cut off",
  "A keep-alive connection stays usable as long as bytes of requests follow each other within the keep-alive time, and the server closes it once it has waited that long for the client in vain (answering 408 if a request had begun). The server never closes a connection between having received a request on it and having sent the complete response, however long the handler takes, and a connection that asked to be closed is closed right after its response.",
  ["schedules","histories","configurations"],"every positive keep-alive setting, every sequence of idle gaps and request durations, every schedule of the connection and timer threads",
  "Nothing in the test suite opens a keep-alive connection or advances a clock; the timer runs in its own thread and races with request processing.",
  [SV],[("keep-alive timer","src/server/server.rs check_keepalive"),("timer updates and close","src/server/server.rs loop_exec, handle_connection")],
  ["virtual time at which the connection is closed","completeness of responses"])
p("H08","A faulty client or panicking handler never affects other connections",
  "Whatever one client does - disconnect or reset at any byte of a request or response, stall, send malformed input - and even if a handler or filter panics, every request on every other connection is answered correctly, without waiting for that client or for a slow handler while a worker is free, and the server keeps accepting and serving new connections. A client whose connection cannot be served sees it closed rather than left hanging.",
  ["fault_sequences","schedules","inputs"],"every malformed or truncated request, every reset or stall point, every panicking handler, any mix with healthy connections",
  "Tests contain no network failure and no panic while serving; isolation depends on which pool worker, lock or timer the failing connection holds at that moment.",
  [SV,RQ,ND,TP],[("per-connection handling","src/server/server.rs handle_connection, exec_stream"),("error answers","src/http/requester.rs interrupt"),("route table shared by all connections","src/server/server.rs root")],
  ["responses on healthy connections while faulty ones come and go"])
p("H09","The server survives refused accepts, descriptors and threads, and then recovers",
  "If accepting a connection, duplicating a descriptor or starting a thread fails for a while, the server keeps running, sends no bytes that are not responses, and serves every new connection correctly once the failures stop; connections hit by a failure are served or closed, never left hanging. If its address cannot be bound or its threads cannot be created at start-up, the listener reports an error to its caller.",
  ["fault_sequences","schedules"],"every finite sequence of accept, descriptor-duplication and thread-creation failures at any point of serving, and every start-up failure",
  "No test can make accept, dup or thread creation fail; these error branches have never been executed.",
  [SV,TP,"src/utils/concurrent/thread.rs"],[("accept loop","src/server/server.rs listener"),("clone and timer-thread failures","src/server/server.rs handle_connection, loop_exec"),("bind","src/server/server.rs listener")],
  ["responses and closes seen by clients","result of listener"])
p("H10","Under overload every accepted connection is eventually served or closed",
  "However many clients connect at once and however slowly they send or the handlers work, every connection the server has accepted is, within bounded time, either served completely and correctly or closed; none is left open and ignored once workers are free. When the overload ends, the server again serves every request.",
  ["schedules","histories","configurations"],"every pool size, number of simultaneous connections (up to beyond the pool's queue), connection lifetime and schedule",
  "Tests never have more than one connection, let alone more connections than workers and queue slots; what happens at saturation depends on the interleaving of accepts and completions.",
  [SV,TP],[("accepting into the pool","src/server/server.rs listener"),("pool queue bound","src/utils/concurrent/thread_pool.rs execute")],
  ["responses and closes seen by clients"])
p("H11","Routes can be registered while serving; no request sees a half-made table",
  "While the server is serving, registering further routes (also by a handler) never disturbs or delays requests to routes registered before nor waits for them to end, and a new route is served correctly, with all its filters and parameters, by every request that starts after its registration returned. A rejected registration (duplicate or invalid pattern) leaves the existing routes and the running server fully usable.",
  ["schedules","histories"],"every interleaving of registrations, rejected registrations and concurrent requests",
  "Tests register routes before any lookup, on one thread; visibility and failure of a registration only matter against concurrent requests.",
  [ND,RT,RQ],[("shared route table","src/server/router.rs repo_wf"),("lookup under the read lock","src/http/requester.rs parse")],
  ["responses to requests before, during and after a registration"])

p("H12","Connections that have ended leave nothing behind",
  "Once a client has gone, or its connection has been idle for the keep-alive time, the server holds no descriptor, thread or memory of that connection any more - whether it was served, refused, malformed, reset at any byte, stalled or hit by a failing system call, and whether its handler answered or panicked. What a server holds at rest does not grow with the number of connections it has had.",
  ["fault_sequences","schedules","histories"],"every history of connections, well-behaved and faulty, every failing system call and every schedule of the connection, timer and pool threads",
  "Leaks are invisible to assertions on results: tests end before descriptors, timer threads or buffers of earlier connections could be counted, and the paths that leak are error paths and races no test takes.",
  [SV,RQ,TP],[("end of a connection","src/server/server.rs handle_connection, loop_exec"),("keep-alive timer and its duplicate of the stream","src/server/server.rs check_keepalive")],
  ["open sockets, live threads and allocated memory once every client has gone"])

p("C01","The client returns exactly the response that was sent, or an error",
  "For any HTTP response of a status code the library knows that a server sends and closes, however it is segmented, delayed or read, the client's get returns Ok with exactly the status, cookies and body that were sent. If the connection is cut, reset or malformed before the complete response (delimited by its Content-Length where it has one) has arrived, it returns an error, never a truncated or altered response and never a panic.",
  ["inputs","fault_sequences","schedules"],"every status line with a status the library knows, header set and body, every segmentation, every cut or reset point",
  "The client tests contact live Internet hosts (not reproducible here) and look at nothing but the printed result; truncation happens at run time at arbitrary bytes.",
  [RP,CL],[("reading the response","src/http/responser.rs parse"),("status line, headers, body","src/http/responser.rs parse_response_line, parse_response_header, fill_body")],
  ["result of HttpClient::get"])
p("C02","The client puts exactly the request the caller asked for on the wire",
  "Each get sends one complete, well-formed request whose target, Host and credentials are those of the URL, whatever write sizes the kernel accepts and however slowly the server reads. A connection or write failure is reported as an error and no partial request is passed off as success.",
  ["inputs","fault_sequences","schedules"],"every http URL (path, query, port, user info), every pattern of short or interrupted writes, every failure point",
  "No test looks at the bytes the client sends; short writes come from kernel buffer state.",
  [RP,CL,"src/http/url/location.rs","src/http/url/url.rs"],[("writing the request","src/http/responser.rs request"),("request target","src/http/url/location.rs to_string"),("default headers","src/client/client.rs default_request")],
  ["bytes received by the server"])
p("C03","Client and server agree end to end under concurrency",
  "When many threads use the client against the library's own server at the same time, each call returns the response of the handler for its own URL with its own parameters, exactly once executed per call, whatever the schedule and network timing.",
  ["schedules","inputs","histories"],"every number of client threads and calls, every URL mix, schedule and segmentation",
  "No test runs client and server together; their framing assumptions (connection close, header spelling, reason phrase) meet only on a live connection.",
  [CL,RP,SV,RQ],[("client exchange","src/client/client.rs send"),("server exchange","src/server/server.rs exec_stream")],
  ["result of HttpClient::get","handler calls"])
p("C04","Client calls always return, with an error when the server fails",
  "If the server refuses the connection, resets it, or closes it without or with an unusable response, the client call returns an error within bounded time after the failure, never a fabricated response, a panic or a wait that outlasts the connection, and calls to healthy servers are unaffected.",
  ["fault_sequences","schedules"],"every failure kind and point of the exchange, mixed with healthy calls",
  "Existing tests have no failing peer.",
  [CL,RP],[("connect","src/client/client.rs stream"),("error paths","src/http/responser.rs parse")],
  ["result of HttpClient::get"])

p("C05","Client calls leave nothing behind",
  "When a client call has returned, with a response or an error, its connection is closed; no number of calls, whatever the servers did - answer, refuse, reset, stall, send parts of a response or rubbish - and whichever system call failed, leaves threads or an ever-growing amount of memory behind.",
  ["fault_sequences","histories","schedules"],"every sequence of successful and failing calls, every point of failure",
  "A leaked descriptor or buffer per failed call is invisible to tests that make one call and look at its result.",
  [CL,RP],[("client exchange","src/client/client.rs send"),("connect","src/client/client.rs stream"),("error paths","src/http/responser.rs parse")],
  ["open sockets, live threads and allocated memory after the calls"])

p("L01","Acknowledged log records survive crash, restart and rotation",
  "Once a call that logs an enabled record has returned, its record is in the log files exactly once and complete, across process crashes at any later point, restarts and rotations, until rotation discards it as older than the configured number of files; records are in order, and a file is rotated when, and only when, a record has taken it past the configured maximum size. A crash can affect at most the record being written at that moment.",
  ["crash_points","histories","configurations"],"every crash point between two file operations, every sequence of logging, rotation and restart, every size and count setting",
  "The log tests write five lines once and never read them back, rotate, crash or restart.",
  [LG],[("rolling appender setup","src/utils/log.rs rolling_appender"),("append on restart","src/utils/log.rs rolling_appender append(true)")],
  ["contents of the log directory"])
p("L02","Logging is safe under concurrency, reconfiguration and disk errors",
  "Concurrent logging from many threads, also while the configuration is being replaced, produces only whole records, each exactly once and only at enabled levels, in the files the configuration in force names. A failing disk can lose records while it fails, and a configuration whose files it cannot open leaves the previous one in force, but it never makes a logging or configuring call panic or block; what was logged before and after is kept whole, and logging works again when the disk does. An argument that panics while it is formatted costs its own record and no other.",
  ["schedules","fault_sequences","configurations"],"every interleaving of logging threads and reconfigurations, every finite sequence of open, write and rename failures",
  "Tests log from one thread with a healthy disk and never read the result.",
  [LG],[("global handle","src/utils/log.rs GLOBAL_LOG"),("reconfiguration","src/utils/log.rs config_log")],
  ["contents of the log directory","results of the logging calls"])

p("N01","Encoders and decoders are inverse (base64, hex, compression)",
  "For every byte string, decoding what the base64, hex, gzip, zlib and deflate encoders produced returns the original bytes, and decoding malformed text returns an error rather than panicking.",
  ["inputs"],"every byte string","Tests try a few constants each.",
  ["src/utils/cryptos/base64.rs","src/utils/cryptos/hex.rs","src/utils/compress.rs"],[("codecs","src/utils/cryptos, src/utils/compress.rs")])
p("N02","URLs and cookies parse and print consistently",
  "For every URL and cookie in their documented grammar, parsing and printing again yields an equivalent value, and text outside the grammar yields an error rather than a panic.",
  ["inputs"],"every URL string and cookie header","Tests parse a few fixed examples.",
  ["src/http/url/url.rs","src/http/header/cookie.rs"],[("parsers","src/http/url, src/http/header/cookie.rs")])
p("N03","Time arithmetic and formatting are consistent",
  "For every representable time, adding and subtracting a duration returns the original time, formatted times parse back to themselves, and component accessors agree with the formatted fields.",
  ["inputs"],"every time value, duration and format","Tests print values without checking them.",
  ["src/utils/time.rs"],[("calendar arithmetic","src/utils/time.rs")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))

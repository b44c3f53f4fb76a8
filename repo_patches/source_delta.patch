From 68b079a0d1829b1cd3f74bc826ec31c7e71497fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 01/28] fix: a task queued while the last worker turns idle was
 never run

---
 src/utils/concurrent/thread_pool.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/utils/concurrent/thread_pool.rs b/src/utils/concurrent/thread_pool.rs
index 5db3254..1b13b13 100644
--- a/src/utils/concurrent/thread_pool.rs
+++ b/src/utils/concurrent/thread_pool.rs
@@ -235,6 +235,18 @@ impl ThreadPool {
                             }
                         }
                     }
+                    Notify::Check => {
+                        // 任务入队时可能恰有线程转为闲置，重新匹配闲置线程与待执行任务
+                        if let Some(worker) = self.worker_idle_queue.pop() {
+                            match self.task_queue.pop() {
+                                Some(res) => worker.send(Message::Run(res)),
+                                None => match self.worker_idle_queue.push(worker) {
+                                    Err(_) => panic!("notify check error! the thread idle queue is full, the element can not push into!"),
+                                    _ => {}
+                                }
+                            }
+                        }
+                    }
                     Notify::Close => break,
                 },
                 _ => {}
@@ -280,7 +292,10 @@ impl ThreadPool {
                         "the task queue is full, the element can not push into!",
                     ))
                 }
-                _ => Ok(()),
+                _ => {
+                    self.tx_notify.send(Notify::Check).unwrap();
+                    Ok(())
+                }
             },
         }
     }
@@ -459,6 +474,8 @@ enum Notify {
     Fill(usize),
     /// 告知线程数组指定下标线程当前为闲置状态
     Idle(usize),
+    /// 告知有新任务进入任务队列，需检查当前是否存在闲置线程
+    Check,
     Close,
 }
 
-- 
2.43.0


From 51f53ee0822cb0acb7a04368ed110d2437685b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 02/28] fix: a panicking task deadlocked the pool's notify
 thread

---
 src/utils/concurrent/thread_pool.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/utils/concurrent/thread_pool.rs b/src/utils/concurrent/thread_pool.rs
index 1b13b13..5956da9 100644
--- a/src/utils/concurrent/thread_pool.rs
+++ b/src/utils/concurrent/thread_pool.rs
@@ -50,6 +50,7 @@
 
 use std::fmt;
 use std::sync::{Arc, RwLock};
+use std::time::Duration;
 use std::{cmp, thread};
 
 use crossbeam::atomic::AtomicCell;
@@ -214,13 +215,20 @@ impl ThreadPool {
                 Ok(res) => match res {
                     Notify::Fill(counter) => {
                         // 创建新线程补充
-                        let mut tsw = self.threads.write().unwrap();
-                        tsw.remove(counter);
                         let pool_state = self.pool_state.clone();
-                        let worker =
-                            Worker::new(counter, self.tx_notify.clone(), pool_state).unwrap();
-                        self.insert(counter, worker);
-                        self.pool_state.active_count.fetch_add(1);
+                        match Worker::new(counter, self.tx_notify.clone(), pool_state) {
+                            Ok(worker) => {
+                                self.replace(counter, worker);
+                                self.pool_state.active_count.fetch_add(1);
+                                self.tx_notify.send(Notify::Idle(counter)).unwrap()
+                            }
+                            Err(err) => {
+                                // 暂时无法创建线程，稍后重试
+                                log::error!("thread pool fill failed! {}", err);
+                                Thread::sleep(Duration::from_millis(10));
+                                self.tx_notify.send(Notify::Fill(counter)).unwrap()
+                            }
+                        }
                     }
                     Notify::Idle(counter) => {
                         let threads_r = self.threads.read().unwrap();
@@ -254,9 +262,9 @@ impl ThreadPool {
         }
     }
 
-    /// 在线程池指定下标插入新线程
-    fn insert(&self, index: usize, thread: Worker) {
-        self.threads.write().unwrap().insert(index, thread)
+    /// 将线程池指定下标替换为新线程
+    fn replace(&self, index: usize, thread: Worker) {
+        self.threads.write().unwrap()[index] = thread
     }
 
     /// 在线程池中的线程上执行给定函数
-- 
2.43.0


From eb8495edb3e21e10b0011b91d4e95def37cdd469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 03/28] fix: dropping the last ThreadPool handle never stopped
 its threads

---
 src/utils/concurrent/thread_pool.rs | 32 +++++++++++++++++------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/utils/concurrent/thread_pool.rs b/src/utils/concurrent/thread_pool.rs
index 5956da9..6406567 100644
--- a/src/utils/concurrent/thread_pool.rs
+++ b/src/utils/concurrent/thread_pool.rs
@@ -210,6 +210,8 @@ impl ThreadPool {
 
     /// 通知检查
     fn notify_check(&self) {
+        // 所有线程池句柄是否均已释放
+        let mut closing = false;
         loop {
             match self.rx_notify.recv() {
                 Ok(res) => match res {
@@ -255,9 +257,17 @@ impl ThreadPool {
                             }
                         }
                     }
-                    Notify::Close => break,
+                    Notify::Close => closing = true,
                 },
-                _ => {}
+                _ => break,
+            }
+            // 已入队的任务仍需执行完毕，随后关闭所有工作线程
+            if closing && self.task_queue.is_empty() {
+                for thread in self.threads.read().unwrap().iter() {
+                    // 异常退出的工作线程不再接收消息
+                    let _ = thread.tx_execute.send(Message::Close);
+                }
+                break;
             }
         }
     }
@@ -330,12 +340,9 @@ impl Clone for ThreadPool {
 
 impl Drop for ThreadPool {
     fn drop(&mut self) {
-        if self.pool_state.count.fetch_sub(1) == 0 {
-            let threads_r = self.threads.write().unwrap();
-            for thread in threads_r.iter() {
-                thread.send(Message::Close);
-            }
-            self.tx_notify.send(Notify::Close).unwrap();
+        // 通知检查线程自身持有一个副本，仅剩该副本时关闭线程池
+        if self.pool_state.count.fetch_sub(1) == 2 {
+            let _ = self.tx_notify.send(Notify::Close);
         }
     }
 }
@@ -609,7 +616,7 @@ impl Drop for Sentinel {
                 self.pool_state.panic_count.fetch_add(1);
             }
             // 创建新线程补充
-            self.tx_notify.send(Notify::Fill(self.counter)).unwrap()
+            let _ = self.tx_notify.send(Notify::Fill(self.counter));
         }
         // else {
         //     println!("count = {}", self.pool_state.count.take());
@@ -661,14 +668,13 @@ impl Worker {
                 Ok(res) => match res {
                     Message::Run(task) => {
                         task.run();
-                        sentinel
+                        let _ = sentinel
                             .tx_notify
-                            .send(Notify::Idle(sentinel.counter))
-                            .unwrap()
+                            .send(Notify::Idle(sentinel.counter));
                     }
                     Message::Close => break,
                 },
-                _ => {}
+                _ => break,
             }
         }
         sentinel.cancel()
-- 
2.43.0


From d8d9c47dc3df6feed72f184a123dced66e7ef6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:33 +0000
Subject: [PATCH 04/28] fix: requests were parsed from a single read, losing
 and corrupting split, large or pipelined ones

The request line and headers were parsed from whatever the first read() of up
to 1024 bytes returned, a body in a later segment panicked or lost its first
bytes, and bytes of a following request were swallowed. Read until the header
is complete, take exactly Content-Length bytes of body and keep the rest for
the next request on the connection.
---
 src/http/requester.rs | 227 ++++++++++++++++++++----------------------
 src/server/server.rs  |  14 +--
 2 files changed, 117 insertions(+), 124 deletions(-)

diff --git a/src/http/requester.rs b/src/http/requester.rs
index 898042d..47b1188 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -16,7 +16,7 @@ use std::borrow::{Borrow, BorrowMut};
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::hash::Hash;
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 use std::slice::Iter;
 use std::sync::{Arc, RwLock};
 
@@ -34,6 +34,9 @@ use crate::utils::errors::{Error, Errs, StarryResult};
 
 pub(crate) const SERVER_TCP_STREAM_HAD_NO_DATA: &str = "server request tcp stream had no data!";
 
+/// 请求行与消息报头允许的最大字节数
+const MAX_HEAD_SIZE: usize = 1024 * 1024;
+
 /// [`Request`]的封装
 ///
 /// [`Request`]: crate::Request
@@ -49,12 +52,13 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
     /// * root 资源树根结点
     /// * peer 客户端地址信息
     /// * local 本机地址信息
-    pub(crate) fn from(stream: Stream, root: Arc<RwLock<Root>>, peer: Addr, local: Addr) -> StarryResult<(Self, Node, HashMap<String, String>)> {
+    /// * rest 当前连接已读取但尚未使用的数据，解析后仅保留属于后续请求的部分
+    pub(crate) fn from(stream: Stream, root: Arc<RwLock<Root>>, peer: Addr, local: Addr, rest: &mut Vec<u8>) -> StarryResult<(Self, Node, HashMap<String, String>)> {
         let mut req = Requester {
             request: Default::default(),
             stream,
         };
-        let (node, fields) = req.parse(root, peer, local)?;
+        let (node, fields) = req.parse(root, peer, local, rest)?;
         Ok((req, node, fields))
     }
 }
@@ -237,32 +241,15 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
 
 impl<Stream: Read + Write + Debug> Requester<Stream> {
     /// 解析请求行信息
-    fn parse(&mut self, root: Arc<RwLock<Root>>, peer: Addr, local: Addr) -> StarryResult<(Node, HashMap<String, String>)> {
-        let mut buffer = [0; 1024];
-        let mut iter;
-        // 当前读取总长度
-        let mut count = 0;
-        // 剩余待读取数据的总长度
-        let mut size;
-        match self.stream.read(&mut buffer) {
-            Ok(src) => {
-                log::trace!("request stream read size = {}", src);
-                if src == 0 { // 没有数据进入
-                    return Err(Errs::str(SERVER_TCP_STREAM_HAD_NO_DATA));
-                }
-                size = src;
-                iter = buffer.iter()
-            }
-            Err(err) => return Err(self.interrupt(
-                Response::bad_request(),
-                Errs::strs("read failed while parse request with error!", err)))
-        }
+    fn parse(&mut self, root: Arc<RwLock<Root>>, peer: Addr, local: Addr, rest: &mut Vec<u8>) -> StarryResult<(Node, HashMap<String, String>)> {
+        // 请求行与消息报头可能分多次到达，也可能与后续数据一同到达
+        let head = self.read_head(rest)?;
+        let mut iter = head.iter();
 
         // 解析请求行信息 POST /path/data?key=value&key2=value2 HTTP/1.1
         let (location, len) = self.parse_request_line(iter.borrow_mut())?;
         // log::trace!("parse_request_line count = {}, method = {}, version = {}", count, self.method, self.version.to_string());
-        log::trace!("parse_request_line size = {}, len1 = {}", size, len);
-        count += len;
+        log::trace!("parse_request_line size = {}, len1 = {}", head.len(), len);
 
         let node;
         let fields;
@@ -280,29 +267,68 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
 
         // 解析消息报头
         let len = self.parse_request_header(iter.borrow_mut());
-        log::trace!("size = {}, len2 = {}", size, len);
-        count += len;
+        log::trace!("size = {}, len2 = {}", head.len(), len);
 
         // 根据已知结果解析请求关联参数
         self.parse_others(location, peer, local)?;
 
-        if size < count {
-            return Ok((node, fields))
-        }
-        size -= count;
-
         // 读取请求正文
         // 当请求方法为 POST/PUT/PATCH 时需要读取到body中，其它方法没有实体，即便有，也会被丢弃掉
         // 该方法不会解析body内容，body内容解析根据实际情况进行
         // 当用户使用到form数据等情况时，会解析，解析后，body内数据会被清空
         // 用户也可以主动使用body数据，但用户使用后，解析不会再自动进行
-        self.fill_body(iter.borrow_mut(), size)?;
+        let data = std::mem::take(rest);
+        let mut iter = data.iter();
+        let len = self.fill_body(iter.borrow_mut(), data.len())?;
+        if (len as isize) < self.request.content_length {
+            return Err(self.interrupt(
+                Response::bad_request(),
+                Errs::str("request stream closed before body was complete!")));
+        }
+        // 正文之后的数据属于后续请求
+        rest.extend_from_slice(iter.as_slice());
 
         // log::trace!("body = {}", self.body.to_string());
         // self.parse_body()?;
         Ok((node, fields))
     }
 
+    /// 读取完整的请求行与消息报头，包含结尾的空行，多读取的数据保留在`rest`中
+    fn read_head(&mut self, rest: &mut Vec<u8>) -> StarryResult<Vec<u8>> {
+        let mut buffer = [0; 1024];
+        // 已经确认不存在空行的长度
+        let mut checked = 0;
+        loop {
+            for i in checked..rest.len() {
+                if rest[i] == b'\n' {
+                    if rest[i + 1..].starts_with(b"\n") {
+                        return Ok(rest.drain(..i + 2).collect());
+                    } else if rest[i + 1..].starts_with(b"\r\n") {
+                        return Ok(rest.drain(..i + 3).collect());
+                    }
+                }
+            }
+            checked = rest.len().saturating_sub(2);
+            if rest.len() > MAX_HEAD_SIZE {
+                return Err(self.interrupt(
+                    Response::bad_request(),
+                    Errs::str("request line and header too large!")));
+            }
+            let size = self.reread_stream(&mut buffer)?;
+            log::trace!("request stream read size = {}", size);
+            if size == 0 {
+                return if rest.is_empty() { // 没有数据进入
+                    Err(Errs::str(SERVER_TCP_STREAM_HAD_NO_DATA))
+                } else {
+                    Err(self.interrupt(
+                        Response::bad_request(),
+                        Errs::str("request stream closed before header was complete!")))
+                };
+            }
+            rest.extend_from_slice(&buffer[..size]);
+        }
+    }
+
     /// 解析请求行信息 POST /path/data?key=value&key2=value2 HTTP/1.1
     ///
     /// usize 读取数据的总长度
@@ -469,87 +495,50 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
         Ok(())
     }
 
-    fn fill_body(&mut self, iter: &mut Iter<u8>, mut size: usize) -> StarryResult<()> {
-        match self.method() {
-            Method::PATCH | Method::PUT | Method::POST => {
-                let mut bytes = vec![];
-                loop {
-                    match iter.next() {
-                        Some(b) => {
-                            match b {
-                                b'\r' | b'\n' => size -= 1,
-                                _ => {
-                                    bytes.push(*b);
-                                    size -= 1;
-                                    break;
-                                }
-                            }
-                        }
-                        None => return Ok(())
-                    }
-                }
-                // iter.next(); // 请求，过滤换行符
-                // size -= 1;
-
-                match self.request.header().get_content_length() {
-                    Some(content_len) => match content_len.parse::<isize>() {
-                        Ok(mut len) => {
-                            if len > 0 { // 读取到"Content-Length"大于0
-                                // 因为前面内容多读取了一个字节，所以len = len - 1
-                                len = len - 1;
-                                // Body数据存在，新建写流，将body数据进行填充
-                                let mut bw = BytesMut::new().writer();
-                                self.write_bytes(bw.borrow_mut(), bytes.as_slice())?;
-                                self.write_bytes(bw.borrow_mut(), &iter.as_ref()[0..size])?;
-                                let mut buffer = [0; 1024];
-                                let mut count = size;
-                                loop { // 将stream中数据全数读出到 self.body
-                                    if count as isize == len || size == 0 {
-                                        break;
-                                    }
-                                    size = self.reread_stream(&mut buffer)?;
-                                    self.write_bytes(bw.borrow_mut(), &buffer[0..size])?;
-                                    count += size
-                                }
-                                self.request.set_body(bw.into_inner());
-                            } else if len == 0 {  // 读取到"Content-Length"等于0
-                                return Ok(());
-                            } else if len == -1 {  // 读取到"Content-Length"小于0
-                                // Body数据存在，长度未知，新建写流，将body数据进行填充
-                                let mut bw = BytesMut::new().writer();
-                                self.write_bytes(bw.borrow_mut(), bytes.as_slice())?;
-                                self.write_bytes(bw.borrow_mut(), &iter.as_ref()[0..size])?;
-                                let mut buf_all = Vec::new();
-                                match self.stream.read_to_end(&mut buf_all) {
-                                    Ok(_) => {
-                                        // bw.write(buf_all.as_slice());
-                                        self.write_bytes(bw.borrow_mut(), buf_all.as_slice())?;
-                                        self.request.set_body(bw.into_inner());
-                                    }
-                                    Err(err) => return Err(self.interrupt(
-                                        Response::length_required(),
-                                        Errs::strs("parse request body while read_to_end failed!", err)))
-                                }
-                            } else {
-                                return Err(self.interrupt(
-                                    Response::length_required(),
-                                    Errs::string(format!("content len {} invalid from header failed!", len))));
-                            }
-                            self.request.set_content_length(len);
-                            Ok(())
-                        }
-                        Err(err) => return Err(self.interrupt(
-                            Response::length_required(),
-                            Errs::strings(format!("content len {} parse usize from header failed!", content_len), err)))
-                    },
-                    None => {
-                        self.request.set_content_length(0);
-                        return Ok(());
-                    }
-                }
+    /// 读取请求正文
+    ///
+    /// * iter 已读取但尚未使用的数据，其中前`size`个字节有效
+    ///
+    /// usize 读取正文的总长度，如果stream提前结束，则小于`Content-Length`
+    fn fill_body(&mut self, iter: &mut Iter<u8>, mut size: usize) -> StarryResult<usize> {
+        let content_len = match self.request.header().get_content_length() {
+            Some(src) => src,
+            None => {
+                self.request.set_content_length(0);
+                return Ok(0);
+            }
+        };
+        let len = match content_len.parse::<isize>() {
+            Ok(src) if src >= 0 => src as usize,
+            Ok(src) => return Err(self.interrupt(
+                Response::length_required(),
+                Errs::string(format!("content len {} invalid from header failed!", src)))),
+            Err(err) => return Err(self.interrupt(
+                Response::length_required(),
+                Errs::strings(format!("content len {} parse usize from header failed!", content_len), err)))
+        };
+        // Body数据存在，新建写流，将body数据进行填充，有且仅有`Content-Length`个字节
+        let mut bw = BytesMut::new().writer();
+        size = size.min(len);
+        self.write_bytes(bw.borrow_mut(), &iter.as_slice()[..size])?;
+        *iter = iter.as_slice()[size..].iter();
+        let mut buffer = [0; 1024];
+        let mut count = size;
+        while count < len { // 将stream中剩余数据读出
+            let max = buffer.len().min(len - count);
+            size = self.reread_stream(&mut buffer[..max])?;
+            if size == 0 {
+                break;
             }
-            _ => Ok(())
+            self.write_bytes(bw.borrow_mut(), &buffer[..size])?;
+            count += size
         }
+        self.request.set_content_length(len as isize);
+        match self.method() {
+            Method::PATCH | Method::PUT | Method::POST => self.request.set_body(bw.into_inner()),
+            _ => {}
+        }
+        Ok(count)
     }
 
     /// 如果存在body，则需要根据content-type对body数据进行解析使用
@@ -725,13 +714,15 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
     }
 
     fn reread_stream(&mut self, buf: &mut [u8]) -> StarryResult<usize> {
-        match self.stream.read(buf) {
-            Ok(src) => {
-                Ok(src)
+        loop {
+            match self.stream.read(buf) {
+                Ok(src) => return Ok(src),
+                // 被信号中断的读操作不是错误，重试即可
+                Err(ref err) if err.kind() == ErrorKind::Interrupted => continue,
+                Err(err) => return Err(self.interrupt(
+                    Response::bad_request(),
+                    Errs::strs("reread failed while parse request with failed!", err)))
             }
-            Err(err) => return Err(self.interrupt(
-                Response::bad_request(),
-                Errs::strs("reread failed while parse request with failed!", err)))
         }
     }
 }
diff --git a/src/server/server.rs b/src/server/server.rs
index a04f238..bccac74 100644
--- a/src/server/server.rs
+++ b/src/server/server.rs
@@ -187,7 +187,9 @@ fn handle_connection(tcp_stream: TcpStream, root: Arc<RwLock<Root>>, mut keepali
     log::trace!("server handle connection");
     match tcp_stream.try_clone() {
         Ok(src) => {
-            let close = exec_stream(src, root.clone(), peer.clone(), local.clone(), compress);
+            // 已读取但尚未使用的数据，在同一连接的多次请求之间传递
+            let mut rest = vec![];
+            let close = exec_stream(src, root.clone(), peer.clone(), local.clone(), compress, &mut rest);
             if close { // 如果不保持连接或连接关闭，直接返回
                 tcp_stream_shutdown(tcp_stream, peer);
                 return;
@@ -195,7 +197,7 @@ fn handle_connection(tcp_stream: TcpStream, root: Arc<RwLock<Root>>, mut keepali
             match tcp_stream.try_clone() {
                 Ok(src) => {
                     // 双线异步循环执行超时检查和stream解析
-                    loop_exec(src, root.clone(), keepalive, peer, local, compress)
+                    loop_exec(src, root.clone(), keepalive, peer, local, compress, rest)
                 }
                 Err(err) => log::error!("server tcp stream clone while handle connection 1 failed! {}", err.to_string())
             }
@@ -208,8 +210,8 @@ fn handle_connection(tcp_stream: TcpStream, root: Arc<RwLock<Root>>, mut keepali
 ///
 /// * 是否立刻关闭连接
 /// * 是否立刻关闭读连接
-fn exec_stream(tcp_stream: TcpStream, root: Arc<RwLock<Root>>, peer: Addr, local: Addr, compress: bool) -> bool {
-    match Requester::from(tcp_stream, root.clone(), peer, local) {
+fn exec_stream(tcp_stream: TcpStream, root: Arc<RwLock<Root>>, peer: Addr, local: Addr, compress: bool, rest: &mut Vec<u8>) -> bool {
+    match Requester::from(tcp_stream, root.clone(), peer, local, rest) {
         // request分预解析和解析两个过程，预解析用于判断请求有效性，如无效，则放弃后续解析操作
         Ok((requester, node, fields)) => {
             let close = requester.request.close;
@@ -237,7 +239,7 @@ fn exec_stream(tcp_stream: TcpStream, root: Arc<RwLock<Root>>, peer: Addr, local
 }
 
 /// 双线异步循环执行超时检查和stream解析
-fn loop_exec(mut tcp_stream: TcpStream, root: Arc<RwLock<Root>>, keepalive: i64, peer: Addr, local: Addr, compress: bool) {
+fn loop_exec(mut tcp_stream: TcpStream, root: Arc<RwLock<Root>>, keepalive: i64, peer: Addr, local: Addr, compress: bool, mut rest: Vec<u8>) {
     // 创建一个可以将stream接收信号同步更新至检查超时线程的通道
     let channel = Arc::new(Channel::unbounded());
     match tcp_stream.try_clone() {
@@ -265,7 +267,7 @@ fn loop_exec(mut tcp_stream: TcpStream, root: Arc<RwLock<Root>>, keepalive: i64,
     loop {
         match tcp_stream.try_clone() {
             Ok(src) => {
-                let close = exec_stream(src, root.clone(), peer.clone(), local.clone(), compress);
+                let close = exec_stream(src, root.clone(), peer.clone(), local.clone(), compress, &mut rest);
                 if close { // 如果连接关闭，直接返回
                     channel.send(Check::Break).unwrap_or(());
                     return;
-- 
2.43.0


From e665403c2327174ebe65dc27e43f3cf15bf3cf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 05/28] fix: request headers without a space after the colon,
 empty or in other letter case broke parsing and framing

---
 src/http/header/header.rs | 27 +++++++++++++++++++--------
 src/http/requester.rs     | 35 ++++++++---------------------------
 2 files changed, 27 insertions(+), 35 deletions(-)

diff --git a/src/http/header/header.rs b/src/http/header/header.rs
index bfb60a6..14de04c 100644
--- a/src/http/header/header.rs
+++ b/src/http/header/header.rs
@@ -21,14 +21,25 @@ use crate::utils::errors::StarryResult;
 pub type Header = Values;
 
 impl Header {
+    /// 报头名称不区分大小写，优先返回完全匹配的报头
+    fn find(&self, name: &str) -> Option<String> {
+        self.vec_of(name).map(|values| values[0].clone())
+    }
+
+    fn vec_of(&self, name: &str) -> Option<Vec<String>> {
+        self.vec(name).or_else(|| self.map().into_iter()
+            .find(|(key, _)| key.eq_ignore_ascii_case(name))
+            .map(|(_, values)| values))
+    }
+
     /// read_cookie 解析头header中的所有“Cookie”值，并返回成功解析的Cookie。
     /// 如果filter不为空，则只返回该名称的cookie
     pub(crate) fn read_cookies(&self) -> StarryResult<Vec<Cookie>> {
-        Cookie::read_cookies(self.vec("Cookie"), "")
+        Cookie::read_cookies(self.vec_of("Cookie"), "")
     }
 
     pub(crate) fn read_set_cookies(&self) -> StarryResult<Vec<Cookie>> {
-        Cookie::read_set_cookies(self.vec("Set-Cookie"))
+        Cookie::read_set_cookies(self.vec_of("Set-Cookie"))
     }
 
     pub fn add_set_cookie(&mut self, cookie: Cookie) {
@@ -40,7 +51,7 @@ impl Header {
     }
 
     pub(crate) fn get_content_length(&self) -> Option<String> {
-        self.get("Content-Length")
+        self.find("Content-Length")
     }
 
     pub(crate) fn del_content_length(&mut self) -> Option<String> {
@@ -48,7 +59,7 @@ impl Header {
     }
 
     pub(crate) fn get_userinfo(&self) -> StarryResult<Option<Userinfo>> {
-        match self.get("Authorization") {
+        match self.find("Authorization") {
             Some(src) => match Userinfo::from_basic(src.to_string()) {
                 Ok(src) => Ok(Some(src)),
                 Err(err) => Err(err)
@@ -58,7 +69,7 @@ impl Header {
     }
 
     pub(crate) fn get_host(&self) -> Option<String> {
-        self.get("Host")
+        self.find("Host")
     }
 
     pub(crate) fn set_connection(&mut self) {
@@ -70,7 +81,7 @@ impl Header {
     }
 
     pub(crate) fn get_content_type(&self) -> Option<String> {
-        self.get("Content-Type")
+        self.find("Content-Type")
     }
 
     pub(crate) fn del_content_type(&mut self) -> Option<String> {
@@ -84,7 +95,7 @@ impl Header {
     }
 
     pub(crate) fn get_accept_encoding(&self) -> Option<AcceptEncoding> {
-        match self.get("Accept-Encoding") {
+        match self.find("Accept-Encoding") {
             Some(src) => AcceptEncoding::best(src),
             None => None
         }
@@ -101,7 +112,7 @@ impl Header {
         }
         let close;
         // 检查header是否存在'close'
-        match self.get("Connection") {
+        match self.find("Connection") {
             Some(src) => match src.as_str() {
                 "close" => close = true,
                 "keep-alive" => close = false,
diff --git a/src/http/requester.rs b/src/http/requester.rs
index 47b1188..fe6c3f3 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -403,44 +403,25 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
         let mut key: String = String::from("");
         // 是否轮到key解析
         let mut key_time = true;
-        // 即将开始value解析
-        let mut pre_value_time = false;
-        // 是否轮到value解析
-        let mut value_time = false;
-        // 是否结束解析。当连续出现两次"\n\r"后结束解析
-        let mut end_time = false;
         loop {
             match iter.next() {
                 Some(b) => {
                     count += 1;
                     match b {
-                        b':' => if key_time {
+                        b':' if key_time => {
                             key = String::from_utf8_lossy(&data).to_string();
                             key_time = false;
-                            pre_value_time = true;
                             data.clear()
-                        } else {
-                            data.push(*b)
                         }
-                        b' ' => if key_time {
-                            data.push(*b)
-                        } else if pre_value_time {
-                            end_time = false;
-                            pre_value_time = false;
-                            value_time = true
-                        } else if value_time {
-                            data.push(*b)
-                        },
                         b'\r' => {}
-                        b'\n' => if end_time {
-                            break;
-                        } else if value_time {
-                            self.request.set_header(key.clone(), String::from_utf8_lossy(&data).to_string());
-                            key.clear();
-                            data.clear();
+                        b'\n' => {
+                            if !key_time { // value前后的空格不属于value，value可以为空
+                                self.request.set_header(key.clone(), String::from_utf8_lossy(&data).trim().to_string());
+                            } else if data.is_empty() && count > 1 { // 首个换行符属于上一行，此后遇到空行则解析结束
+                                break;
+                            }
                             key_time = true;
-                            value_time = false;
-                            end_time = true
+                            data.clear()
                         }
                         _ => data.push(*b),
                     }
-- 
2.43.0


From c2b3deb1ebda717bc172258671aec9a6d7ed709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 06/28] fix: a path that is only a prefix of a route, or does
 not begin with '/', panicked instead of giving a 404

---
 src/server/node.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/node.rs b/src/server/node.rs
index ef20d8e..f67224d 100644
--- a/src/server/node.rs
+++ b/src/server/node.rs
@@ -258,6 +258,10 @@ impl Node {
     ///
     /// * pattern 资源样式，如`/a/b/c/d/e/f/g`
     fn fetch(&self, pattern: String) -> Option<(Self, HashMap<String, String>)> {
+        // 资源都以"/"起始，如`*`等其它形式不存在对应的资源
+        if !pattern.starts_with("/") {
+            return None;
+        }
         let pattern_c = pattern.clone();
         let ps: Vec<&str> = pattern_c.split("/").collect();
         let pattern_split = ps[1..].to_vec();
@@ -323,7 +327,8 @@ impl Node {
                    index: usize) -> (bool, Option<(Self, HashMap<String, String>)>) {
         // 经过多轮递归，判断资源是否已经解析到最终步
         if pattern_split_len == index { // 如果资源已经解析到最终步，则表明当前结点是叶子结点
-            (true, None)
+            // 当前结点可能只是其它资源的前缀，没有待实现接收请求方法，则不可执行
+            (self.handler.is_some(), None)
         } else {
             (false, self.fetch_fn(pattern, pattern_split, pattern_split_len, index))
         }
-- 
2.43.0


From 38b16d093197ad464b3ff9dd4a9ebb81d656014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 07/28] fix: path parameters were bound under the name another
 route gave the same position

---
 src/server/node.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/server/node.rs b/src/server/node.rs
index f67224d..7104b23 100644
--- a/src/server/node.rs
+++ b/src/server/node.rs
@@ -298,12 +298,12 @@ impl Node {
                     pattern.clone(), pattern_split.clone(), pattern_split_len, index);
                 if is_self { // 如果是子结点，则新建fields集合，开始逆向填充
                     let mut fields = HashMap::new();
-                    fields.insert(next_node.pattern_piece_value.clone().unwrap(), pattern_piece.to_string());
+                    fields.insert(next_node.field_name(index), pattern_piece.to_string());
                     return Some((next_node.clone(), fields));
                 } else { // 如果不是子结点，则执行逆向填充
                     match src {
                         Some((node, mut fields)) => {
-                            fields.insert(next_node.pattern_piece_value.clone().unwrap(), pattern_piece.to_string());
+                            fields.insert(node.field_name(index), pattern_piece.to_string());
                             return Some((node, fields));
                         }
                         None => continue
@@ -315,6 +315,13 @@ impl Node {
         None
     }
 
+    /// 当前节点资源样式中指定位置的参数名称，不同资源在同一位置的参数名称可能不同
+    fn field_name(&self, index: usize) -> String {
+        let pattern = self.pattern.clone().unwrap_or_default();
+        let piece = pattern.split("/").nth(index).unwrap_or("");
+        piece.strip_prefix(":").unwrap_or(piece).to_string()
+    }
+
     /// 获取可执行服务节点
     ///
     /// * pattern 资源样式，如`/a/b/c/d/e/f/g`
-- 
2.43.0


From 5faf071a679a628b76e36de0efed6028864481bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 08/28] fix: a rejected route registration poisoned the route
 table and killed the running server

Also answer 404 after releasing the read lock, so that a client that does not
read cannot block registrations, and start a route's limiter before the route
becomes visible.
---
 src/http/requester.rs | 4 +++-
 src/server/node.rs    | 9 +++++----
 src/server/router.rs  | 3 ++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/http/requester.rs b/src/http/requester.rs
index fe6c3f3..ac7429a 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -255,7 +255,9 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
         let fields;
         // println!("path = {:#?}, method = {:#?}", location.path(), self.method());
         // 根据资源信息获取请求方法，判断请求有效性，如无效，则放弃后续解析操作
-        match root.read().unwrap().fetch(location.path(), self.method()) {
+        // 应答前需要释放读锁，避免接收缓慢的客户端影响新增资源；新增资源失败也不影响已有资源
+        let fetched = root.read().unwrap_or_else(|err| err.into_inner()).fetch(location.path(), self.method());
+        match fetched {
             Some((src1, src2)) => {
                 node = src1;
                 fields = src2;
diff --git a/src/server/node.rs b/src/server/node.rs
index 7104b23..e9508a3 100644
--- a/src/server/node.rs
+++ b/src/server/node.rs
@@ -237,16 +237,17 @@ impl Node {
                 Some(src) => panic!("http server resource {} already exist, old pattern is {}", src, pattern),
                 None => { // 如果不存在资源，则新建
                     println!("http server url watch: {} {}", method.as_str(), pattern);
-                    self.pattern = Some(pattern);
-                    self.handler = Some(handler);
-                    self.extend = extend;
-                    match self.extend.clone() {
+                    // 先启动限流，启动失败则当前资源不会生效
+                    match extend.clone() {
                         Some(src) => match src.limit {
                             Some(src) => { Thread::spawn(move || src.run()).unwrap(); }
                             None => {}
                         }
                         None => {}
                     }
+                    self.pattern = Some(pattern);
+                    self.handler = Some(handler);
+                    self.extend = extend;
                 }
             }
         } else {
diff --git a/src/server/router.rs b/src/server/router.rs
index 0a055e9..7fbb145 100644
--- a/src/server/router.rs
+++ b/src/server/router.rs
@@ -92,7 +92,8 @@ impl Router {
         }
 
         let root_c = self.root.clone();
-        let mut root_r = root_c.write().unwrap();
+        // 资源重复或样式无效时会panic，但不会留下不完整的资源，已有资源依旧可用
+        let mut root_r = root_c.write().unwrap_or_else(|err| err.into_inner());
         root_r.add(self.pattern.clone().add(pattern), method, handler, extend_new)
     }
 
-- 
2.43.0


From f7fc35115ebe0b75e465085765e3a157ccb47d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 09/28] fix: a route's rate limit let bursts through after idle
 periods

Unused permits accumulated in the channel with stale time stamps, so up to
twice the allowed number passed at once. Hand each permit to a waiting request
and stamp it when it is taken. Also sleep instead of spinning, and use the
monotonic clock, so that clock changes neither stop nor lift the limit.
---
 src/server/limit.rs | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/server/limit.rs b/src/server/limit.rs
index 27fe6be..10a85fd 100644
--- a/src/server/limit.rs
+++ b/src/server/limit.rs
@@ -13,9 +13,9 @@
  */
 
 use std::sync::{Arc, Mutex};
-use std::time::Duration;
+use std::time::{Duration, Instant};
 
-use crate::utils::{Channel, Time};
+use crate::utils::Channel;
 use crate::utils::concurrent::Thread;
 use crate::utils::errors::StarryResult;
 
@@ -28,10 +28,10 @@ pub struct Limit {
     count: usize,
     /// 请求允许的最小间隔时间（毫秒），0表示不限
     interval: i64,
-    /// 限流通道
+    /// 限流通道，零容量，放行的请求必须已经在等待，未使用的放行次数不会累积
     channel: Arc<Channel<()>>,
     /// 请求时间数组
-    times: Arc<Mutex<Vec<i64>>>,
+    times: Arc<Mutex<Vec<Instant>>>,
 }
 
 impl Limit {
@@ -41,7 +41,7 @@ impl Limit {
     /// * count 请求限定的时间段内允许的请求次数
     /// * interval 请求允许的最小间隔时间（毫秒），小于等于0表示不限
     pub fn new(section: i64, count: usize, interval: i64) -> Self {
-        let channel = Arc::new(Channel::bounded(count));
+        let channel = Arc::new(Channel::bounded(0));
         let mut times = vec![];
         let un_interval =
             if interval <= 0 {
@@ -50,7 +50,7 @@ impl Limit {
                 interval as u64
             };
         for _ in 0..count {
-            times.push(Time::now().num_milliseconds());
+            times.push(Instant::now());
             Thread::sleep(Duration::from_millis(un_interval))
         }
         Limit {
@@ -63,20 +63,26 @@ impl Limit {
     }
 
     pub(crate) fn run(&self) {
+        let section = Duration::from_millis(self.section.max(0) as u64);
+        let interval = Duration::from_millis(self.interval.max(0) as u64);
         loop {
-            let time_now = Time::now().num_milliseconds();
-            // 如果当前时间与时间数组第一时间差大于限定时间段，并且当前时间与时间数组最后时间差大于最小请求间隔，则放行新的请求
             let mut times = self.times.lock().unwrap();
-            if time_now - times[0] > self.section && time_now - times[self.count] > self.interval {
-                // 发送一个元素，放行本次请求
-                match self.channel.send(()) {
-                    Ok(_) => {
-                        // 重置时间集合
-                        times.remove(0);
-                        times.push(time_now)
-                    }
-                    Err(err) => log::error!("request limit fetch error! {}", err)
+            let time_now = Instant::now();
+            // 如果当前时间与时间数组第一时间差大于限定时间段，并且当前时间与时间数组最后时间差大于最小请求间隔，则放行新的请求
+            let time_next = (times[0] + section).max(times[self.count] + interval);
+            if time_now < time_next {
+                drop(times);
+                Thread::sleep(time_next - time_now);
+                continue;
+            }
+            // 发送一个元素，放行本次请求，没有请求时一直等待
+            match self.channel.send(()) {
+                Ok(_) => {
+                    // 重置时间集合，以实际放行的时间为准
+                    times.remove(0);
+                    times.push(Instant::now())
                 }
+                Err(err) => log::error!("request limit fetch error! {}", err)
             }
         }
     }
-- 
2.43.0


From f91f2c378e5e7d0ac476a3085bc4f25346d4a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 10/28] fix: listener panicked instead of returning an error
 when its address could not be bound

---
 src/server/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server/server.rs b/src/server/server.rs
index bccac74..409917b 100644
--- a/src/server/server.rs
+++ b/src/server/server.rs
@@ -138,7 +138,10 @@ impl HttpServer {
         }
         thread_pool_builder.name_prefix("starry-http-pool");
         let thread_pool = thread_pool_builder.create()?;
-        let tcp_listener = TcpListener::bind(addr).unwrap();
+        let tcp_listener = match TcpListener::bind(addr) {
+            Ok(src) => src,
+            Err(err) => return Err(Errs::strs("tcp listener bind failed!", err))
+        };
         for tcp_stream_result in tcp_listener.incoming() {
             match tcp_stream_result {
                 Ok(tcp_stream) => {
-- 
2.43.0


From 57ed3d41aef0f696fb0fb86be9ada9b08bdf9fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 11/28] fix: the idle timer cut off requests in progress and a
 failed timer thread sent unsolicited bytes

---
 src/http/requester.rs |  33 +++++++++++---
 src/server/server.rs  | 101 ++++++++++--------------------------------
 2 files changed, 50 insertions(+), 84 deletions(-)

diff --git a/src/http/requester.rs b/src/http/requester.rs
index ac7429a..c209765 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -316,7 +316,18 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
                     Response::bad_request(),
                     Errs::str("request line and header too large!")));
             }
-            let size = self.reread_stream(&mut buffer)?;
+            let size = if rest.is_empty() {
+                // 尚未收到请求，空闲超时或连接异常都无需应答
+                match self.read_stream(&mut buffer) {
+                    Ok(src) => src,
+                    Err(err) => {
+                        log::debug!("request stream closed while idle! {}", err);
+                        return Err(Errs::str(SERVER_TCP_STREAM_HAD_NO_DATA));
+                    }
+                }
+            } else {
+                self.reread_stream(&mut buffer)?
+            };
             log::trace!("request stream read size = {}", size);
             if size == 0 {
                 return if rest.is_empty() { // 没有数据进入
@@ -696,15 +707,25 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
         }
     }
 
-    fn reread_stream(&mut self, buf: &mut [u8]) -> StarryResult<usize> {
+    fn read_stream(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         loop {
             match self.stream.read(buf) {
-                Ok(src) => return Ok(src),
                 // 被信号中断的读操作不是错误，重试即可
                 Err(ref err) if err.kind() == ErrorKind::Interrupted => continue,
-                Err(err) => return Err(self.interrupt(
-                    Response::bad_request(),
-                    Errs::strs("reread failed while parse request with failed!", err)))
+                res => return res
+            }
+        }
+    }
+
+    fn reread_stream(&mut self, buf: &mut [u8]) -> StarryResult<usize> {
+        match self.read_stream(buf) {
+            Ok(src) => Ok(src),
+            Err(err) => {
+                let response = match err.kind() {
+                    ErrorKind::WouldBlock | ErrorKind::TimedOut => Response::request_timeout(),
+                    _ => Response::bad_request()
+                };
+                Err(self.interrupt(response, Errs::strs("reread failed while parse request with failed!", err)))
             }
         }
     }
diff --git a/src/server/server.rs b/src/server/server.rs
index 409917b..77d23b8 100644
--- a/src/server/server.rs
+++ b/src/server/server.rs
@@ -12,9 +12,10 @@
  * limitations under the License.
  */
 
-use std::io::{Error, Write};
+use std::io::Error;
 use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream, ToSocketAddrs};
 use std::sync::{Arc, RwLock};
+use std::time::Duration;
 
 use log::LevelFilter;
 
@@ -23,8 +24,7 @@ use crate::Extend;
 use crate::http::url::authority::Addr;
 use crate::server::node::Root;
 use crate::server::Router;
-use crate::utils::{Channel, Time};
-use crate::utils::concurrent::{Thread, ThreadPool};
+use crate::utils::concurrent::ThreadPool;
 use crate::utils::errors::{Errs, StarryResult};
 use crate::utils::log::LogModule;
 use crate::http::requester::SERVER_TCP_STREAM_HAD_NO_DATA;
@@ -186,24 +186,28 @@ fn addrs(peer_addr: Result<SocketAddr, Error>, local_addr: Result<SocketAddr, Er
 }
 
 /// 针对本次stream进行处理
-fn handle_connection(tcp_stream: TcpStream, root: Arc<RwLock<Root>>, mut keepalive: i64, peer: Addr, local: Addr, compress: bool) {
+fn handle_connection(tcp_stream: TcpStream, root: Arc<RwLock<Root>>, keepalive: i64, peer: Addr, local: Addr, compress: bool) {
     log::trace!("server handle connection");
+    // 超时检查由stream的读超时完成，仅在等待客户端数据时生效，不会中断正在处理的请求
+    if keepalive > 0 {
+        match tcp_stream.set_read_timeout(Some(Duration::from_millis(keepalive as u64))) {
+            Ok(()) => {}
+            Err(err) => {
+                log::error!("server tcp stream set read timeout failed! {}", err.to_string());
+                return;
+            }
+        }
+    }
     match tcp_stream.try_clone() {
         Ok(src) => {
             // 已读取但尚未使用的数据，在同一连接的多次请求之间传递
             let mut rest = vec![];
             let close = exec_stream(src, root.clone(), peer.clone(), local.clone(), compress, &mut rest);
-            if close { // 如果不保持连接或连接关闭，直接返回
-                tcp_stream_shutdown(tcp_stream, peer);
-                return;
-            }
-            match tcp_stream.try_clone() {
-                Ok(src) => {
-                    // 双线异步循环执行超时检查和stream解析
-                    loop_exec(src, root.clone(), keepalive, peer, local, compress, rest)
-                }
-                Err(err) => log::error!("server tcp stream clone while handle connection 1 failed! {}", err.to_string())
+            // 如果保持连接，循环解析后续请求
+            if !close && keepalive > 0 {
+                loop_exec(&tcp_stream, root.clone(), peer.clone(), local, compress, rest)
             }
+            tcp_stream_shutdown(tcp_stream, peer)
         }
         Err(err) => log::error!("server tcp stream clone in handle connection 2 failed! {}", err.to_string())
     }
@@ -241,74 +245,23 @@ fn exec_stream(tcp_stream: TcpStream, root: Arc<RwLock<Root>>, peer: Addr, local
     }
 }
 
-/// 双线异步循环执行超时检查和stream解析
-fn loop_exec(mut tcp_stream: TcpStream, root: Arc<RwLock<Root>>, keepalive: i64, peer: Addr, local: Addr, compress: bool, mut rest: Vec<u8>) {
-    // 创建一个可以将stream接收信号同步更新至检查超时线程的通道
-    let channel = Arc::new(Channel::unbounded());
-    match tcp_stream.try_clone() {
-        Ok(src) => {
-            let channel = channel.clone();
-            let peer = peer.clone();
-            // 新启线程检查当前stream是否超时
-            match Thread::spawn(move || check_keepalive(src, keepalive, channel, peer)) {
-                Ok(_) => {}
-                Err(err) => {
-                    log::error!("loop exec check stream failed! {}", err.to_string());
-                    match tcp_stream.write("HTTP/1.1 500 Internal Server Error\r\n\r\n".as_bytes()) {
-                        Ok(_) => {}
-                        Err(err) => {
-                            log::error!("loop exec check stream with write failed! {}", err.to_string());
-                            return;
-                        }
-                    }
-                }
-            };
-        }
-        Err(err) => log::error!("server tcp stream clone in loop exec 1 failed! {}", err.to_string())
-    }
+/// 循环执行stream解析，直到连接关闭或空闲超时
+fn loop_exec(tcp_stream: &TcpStream, root: Arc<RwLock<Root>>, peer: Addr, local: Addr, compress: bool, mut rest: Vec<u8>) {
     // 当前线程开启循环读取stream操作
     loop {
         match tcp_stream.try_clone() {
             Ok(src) => {
                 let close = exec_stream(src, root.clone(), peer.clone(), local.clone(), compress, &mut rest);
                 if close { // 如果连接关闭，直接返回
-                    channel.send(Check::Break).unwrap_or(());
                     return;
                 }
-                // 处理完当前stream后需要更新超时时间起始参考值
-                let channel = channel.clone();
-                channel.send(Check::Update).unwrap_or(());
             }
-            Err(err) => log::error!("server tcp stream clone in loop exec 2 failed! {}", err.to_string())
-        }
-    }
-}
-
-/// 检查当前stream是否超时
-fn check_keepalive(tcp_stream: TcpStream, keepalive: i64, channel: Arc<Channel<Check>>, peer: Addr) {
-    let mut time = Time::now();
-    time.add_milliseconds(keepalive);
-    let mut expect_time = time.num_milliseconds();
-    loop {
-        let mut time_now = Time::now();
-        if expect_time <= time_now.num_milliseconds() {
-            log::trace!("server expect_time = {}", Time::format_data(Time::from_milliseconds(expect_time), "%Y-%m-%d %H:%M:%S"));
-            break;
-        } else {
-            match channel.try_recv() {
-                Ok(src) => match src {
-                    Check::Update => {
-                        log::trace!("server channel receive update!");
-                        time_now.add_milliseconds(keepalive);
-                        expect_time = time_now.num_milliseconds();
-                    }
-                    Check::Break => break
-                }
-                Err(_) => {}
+            Err(err) => {
+                log::error!("server tcp stream clone in loop exec failed! {}", err.to_string());
+                return;
             }
         }
     }
-    tcp_stream_shutdown(tcp_stream, peer)
 }
 
 fn tcp_stream_shutdown(tcp_stream: TcpStream, peer: Addr) {
@@ -319,14 +272,6 @@ fn tcp_stream_shutdown(tcp_stream: TcpStream, peer: Addr) {
     }
 }
 
-/// 超时检查
-enum Check {
-    /// 更新超时起始参考值
-    Update,
-    /// 退出检查
-    Break,
-}
-
 #[cfg(test)]
 mod server_test {
     use std::collections::HashMap;
-- 
2.43.0


From 0005070dab11732522121bc474e2951cb403a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 12/28] fix: a request could be answered twice, never, or
 without a length the client can frame

---
 src/http/request.rs   |  4 ++++
 src/http/requester.rs | 19 +++++++++++++++++++
 src/http/response.rs  |  7 +++++++
 src/server/context.rs | 16 ++++++++++++----
 src/server/extend.rs  |  2 +-
 src/server/server.rs  |  9 ++++++---
 6 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index 334b8b8..4628b25 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -127,6 +127,8 @@ pub struct Request {
     pub(crate) multipart_form: MultipartValues,
     pub(crate) cookies: Vec<Cookie>,
     pub(crate) client: Addr,
+    /// 是否已经应答，一次请求有且仅有一次应答
+    pub(crate) answered: bool,
 }
 
 impl Request {
@@ -152,6 +154,7 @@ impl Request {
             multipart_form: MultipartValues::new(),
             cookies: vec![],
             client: Default::default(),
+            answered: false,
         })
     }
 
@@ -365,6 +368,7 @@ impl Default for Request {
             multipart_form: MultipartValues::new(),
             cookies: vec![],
             client: Default::default(),
+            answered: false,
         }
     }
 }
diff --git a/src/http/requester.rs b/src/http/requester.rs
index c209765..ab22689 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -733,7 +733,26 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
 
 impl<Stream: Read + Write + Debug> Requester<Stream> {
     /// 执行回复操作
+    ///
+    /// 一次请求有且仅有一次应答，重复应答不会执行；如果应答失败，则该连接不可再使用
     pub(crate) fn response(&mut self, mut response: Response) -> StarryResult<()> {
+        if self.request.answered {
+            log::debug!("response already sent!");
+            return Ok(());
+        }
+        self.request.answered = true;
+        // 客户端需要根据长度区分同一连接的多次应答
+        response.check_content_length();
+        match self.write_response(response) {
+            Ok(()) => Ok(()),
+            Err(err) => {
+                self.request.close = true;
+                Err(err)
+            }
+        }
+    }
+
+    fn write_response(&mut self, mut response: Response) -> StarryResult<()> {
         log::debug!("response: {:#?}", response);
 
         // let mut tmp = vec![];
diff --git a/src/http/response.rs b/src/http/response.rs
index 90a3f36..4231d1f 100644
--- a/src/http/response.rs
+++ b/src/http/response.rs
@@ -222,6 +222,13 @@ impl Response {
         self.write_slice_type(body, ContentType::TEXT_PLAIN, accept_encoding)
     }
 
+    /// 应答必须携带数据长度，如果尚未设置，则根据已写入数据设置
+    pub(crate) fn check_content_length(&mut self) {
+        if self.header.get_content_length().is_none() {
+            self.header.set_content_length(self.body.writer.len())
+        }
+    }
+
     /// 返回已写入数据，该操作会清空已写入数据
     pub(crate) fn get_write_content(&mut self) -> Bytes {
         self.header.del_content_length();
diff --git a/src/server/context.rs b/src/server/context.rs
index f7dd7b6..e2ed8b6 100644
--- a/src/server/context.rs
+++ b/src/server/context.rs
@@ -28,8 +28,6 @@ pub struct Context {
     requester: Requester<TcpStream>,
     response: Response,
     fields: HashMap<String, String>,
-    /// 是否已经执行过response方法
-    pub(crate) executed: bool,
 }
 
 /// request相关
@@ -37,7 +35,7 @@ impl Context {
     pub(crate) fn new(requester: Requester<TcpStream>, fields: HashMap<String, String>, compress: bool) -> Self {
         let version = requester.version();
         let connection = !requester.request.close;
-        Context { requester, response: Response::new(version, connection, compress), fields, executed: false }
+        Context { requester, response: Response::new(version, connection, compress), fields }
     }
 
     // pub fn get_request(&self) -> StarryResult<Request> {
@@ -234,8 +232,18 @@ impl Context {
         self.response.write_slice_type(body, content_type, self.requester.accept_encoding())
     }
 
+    /// 是否已经应答，包括因请求无效而中断时的应答
+    pub(crate) fn executed(&self) -> bool {
+        self.requester.request.answered
+    }
+
+    /// 应答后是否需要关闭连接
+    pub(crate) fn close(&self) -> bool {
+        self.requester.request.close
+    }
+
+    /// 执行应答，一次请求有且仅有一次应答，重复执行无效
     pub fn response(&mut self) {
-        self.executed = true;
         match self.requester.response(self.response.clone()) {
             Ok(()) => {}
             Err(err) => log::error!("response failed! {}", err)
diff --git a/src/server/extend.rs b/src/server/extend.rs
index 8d4fb97..8debd84 100644
--- a/src/server/extend.rs
+++ b/src/server/extend.rs
@@ -112,7 +112,7 @@ impl Extend {
     fn check_filter(&self, context: &mut Context) {
         for filter in self.filters.clone() {
             // 如果执行返回，则后续遍历结束
-            if context.executed {
+            if context.executed() {
                 break;
             }
             filter(context);
diff --git a/src/server/server.rs b/src/server/server.rs
index 77d23b8..5801e48 100644
--- a/src/server/server.rs
+++ b/src/server/server.rs
@@ -221,7 +221,6 @@ fn exec_stream(tcp_stream: TcpStream, root: Arc<RwLock<Root>>, peer: Addr, local
     match Requester::from(tcp_stream, root.clone(), peer, local, rest) {
         // request分预解析和解析两个过程，预解析用于判断请求有效性，如无效，则放弃后续解析操作
         Ok((requester, node, fields)) => {
-            let close = requester.request.close;
             log::debug!("method = {}, path = {}, from = {}", requester.method(), requester.path(), requester.client());
             let mut context = Box::new(Context::new(requester, fields, compress));
             log::trace!("context = {:#?}", context);
@@ -229,10 +228,14 @@ fn exec_stream(tcp_stream: TcpStream, root: Arc<RwLock<Root>>, peer: Addr, local
                 Some(extend) => extend.exec(context.as_mut()), // 扩展执行，自我诊断
                 None => {}
             }
-            if !context.executed {
+            if !context.executed() {
                 node.handler()(context.as_mut())
             }
-            close
+            // handler没有主动应答，客户端仍在等待
+            if !context.executed() {
+                context.response()
+            }
+            context.close()
         }
         Err(err) => {
             if err.to_string().eq(SERVER_TCP_STREAM_HAD_NO_DATA) {
-- 
2.43.0


From f2dd111a38c83da67069320b1ce40e0c5bd671c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 13/28] fix: the response to a HEAD request carried a body,
 which breaks the framing of the next response

---
 src/http/requester.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/http/requester.rs b/src/http/requester.rs
index ab22689..ecf641c 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -776,8 +776,10 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
             }
         }
         self.write(b"\r\n")?;
-        // 数据块
-        self.write(response.get_write_content().as_ref())?;
+        // 数据块，HEAD请求的应答没有数据块
+        if self.method().ne(&Method::HEAD) {
+            self.write(response.get_write_content().as_ref())?;
+        }
 
         match self.stream.flush() {
             Ok(()) => Ok(()),
-- 
2.43.0


From 43c19f4c61a0cc719a1086dddaf40a44679a8e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:05 +0000
Subject: [PATCH 14/28] fix: compressed responses declared their encoding in a
 request header, so clients could not decode them

---
 src/http/header/header.rs | 8 ++++++--
 src/http/response.rs      | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/http/header/header.rs b/src/http/header/header.rs
index 14de04c..c6d33ac 100644
--- a/src/http/header/header.rs
+++ b/src/http/header/header.rs
@@ -88,12 +88,16 @@ impl Header {
         self.del("Content-Type")
     }
 
-    pub(crate) fn set_accept_encoding(&mut self, encode_type: AcceptEncoding) {
+    pub(crate) fn set_content_encoding(&mut self, encode_type: AcceptEncoding) {
         if encode_type.ne("") && encode_type.ne("br") {
-            self.set("Accept-Encoding".to_string(), encode_type.to_string())
+            self.set("Content-Encoding".to_string(), encode_type.to_string())
         }
     }
 
+    pub(crate) fn del_content_encoding(&mut self) -> Option<String> {
+        self.del("Content-Encoding")
+    }
+
     pub(crate) fn get_accept_encoding(&self) -> Option<AcceptEncoding> {
         match self.find("Accept-Encoding") {
             Some(src) => AcceptEncoding::best(src),
diff --git a/src/http/response.rs b/src/http/response.rs
index 4231d1f..69e6677 100644
--- a/src/http/response.rs
+++ b/src/http/response.rs
@@ -89,10 +89,14 @@ impl Response {
     fn set_this_encode(&mut self, content_length: usize, content_type: ContentType, accept_encoding: AcceptEncoding) {
         self.header.set_content_length(content_length);
         self.header.set_content_type(content_type);
-        self.header.set_accept_encoding(accept_encoding)
+        self.header.set_content_encoding(accept_encoding)
     }
 
     fn set_this(&mut self, content_length: usize, content_type: ContentType) {
+        // 未压缩的数据会覆盖此前已压缩的数据
+        if self.compress {
+            self.header.del_content_encoding();
+        }
         self.header.set_content_length(content_length);
         self.header.set_content_type(content_type);
     }
-- 
2.43.0


From 4b7f86bf34bd9e0b95c3c7f78e015da0be1954b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 15/28] fix: an Authorization header of another scheme or a
 password with a colon panicked or was misread

---
 src/http/header/header.rs          |  5 +----
 src/http/url/authority/userinfo.rs | 29 +++++++++++++----------------
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/http/header/header.rs b/src/http/header/header.rs
index c6d33ac..6cc2a9e 100644
--- a/src/http/header/header.rs
+++ b/src/http/header/header.rs
@@ -60,10 +60,7 @@ impl Header {
 
     pub(crate) fn get_userinfo(&self) -> StarryResult<Option<Userinfo>> {
         match self.find("Authorization") {
-            Some(src) => match Userinfo::from_basic(src.to_string()) {
-                Ok(src) => Ok(Some(src)),
-                Err(err) => Err(err)
-            },
+            Some(src) => Userinfo::from_basic(src.to_string()),
             None => Ok(None)
         }
     }
diff --git a/src/http/url/authority/userinfo.rs b/src/http/url/authority/userinfo.rs
index 840fa10..6aa4b8f 100644
--- a/src/http/url/authority/userinfo.rs
+++ b/src/http/url/authority/userinfo.rs
@@ -64,26 +64,23 @@ impl Userinfo {
     }
 
     /// 通过已知参数获取Userinfo
-    pub(crate) fn from_basic(mut authorization: String) -> StarryResult<Userinfo> {
-        authorization = authorization[6..].to_string();
-        let bytes = Base64::decode(authorization)?;
-        let mut username = String::from("");
-        let password;
-        let mut data = vec![];
-        for b in bytes {
-            match b {
-                b':' => {
-                    username = Strings::from_utf8(data.clone())?;
-                    data.clear()
-                }
-                _ => data.push(b)
-            }
+    ///
+    /// 如果不是`Basic`认证方式，则不存在Userinfo
+    pub(crate) fn from_basic(authorization: String) -> StarryResult<Option<Userinfo>> {
+        match authorization.get(..6) {
+            Some(src) if src.eq_ignore_ascii_case("Basic ") => {}
+            _ => return Ok(None)
         }
+        let bytes = Base64::decode(authorization[6..].trim())?;
+        // 首个':'之前为用户名，密码中可以存在':'
+        let (username, password) = match bytes.iter().position(|b| b.eq(&b':')) {
+            Some(src) => (Strings::from_utf8(bytes[..src].to_vec())?, Strings::from_utf8(bytes[src + 1..].to_vec())?),
+            None => return Err(Errs::str("username can not be empty!"))
+        };
         if username.is_empty() {
             return Err(Errs::str("username can not be empty!"));
         }
-        password = Strings::from_utf8(data.clone())?;
-        Ok(Userinfo { username, password })
+        Ok(Some(Userinfo { username, password }))
     }
 }
 
-- 
2.43.0


From a54973c6d3a2fc721dd75d1cb397bfde6da4ebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 16/28] fix: '&' or '#' in a request path, or '=' in a query
 value, altered the path and lost the query

---
 src/http/url/location.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/http/url/location.rs b/src/http/url/location.rs
index 263410c..48c0704 100644
--- a/src/http/url/location.rs
+++ b/src/http/url/location.rs
@@ -60,6 +60,8 @@ impl Location {
         let mut step = 1; // 1:path -> 2:query -> 3:fragment
         let mut data: Vec<u8> = vec![];
         let mut key: String = String::from("");
+        // 是否轮到key解析
+        let mut key_time = true;
         let mut path: String = String::from("");
         let mut query = Values::new();
         let mut fragment = None;
@@ -83,20 +85,35 @@ impl Location {
                     }
                 }
                 b'=' => {
-                    if step == 2 {
+                    // 首个'='之前为key，value中可以存在'='
+                    if step == 2 && key_time {
                         key = String::from_utf8_lossy(&data).to_string();
+                        key_time = false;
                         data.clear()
                     } else {
                         data.push(b)
                     }
                 }
                 b'&' => {
-                    query.set(key.clone(), String::from_utf8_lossy(&data).to_string());
-                    key.clear();
-                    data.clear()
+                    // path和fragment中的'&'没有特殊含义
+                    if step == 2 {
+                        query.set(key.clone(), String::from_utf8_lossy(&data).to_string());
+                        key.clear();
+                        key_time = true;
+                        data.clear()
+                    } else {
+                        data.push(b)
+                    }
                 }
                 b'#' => {
-                    query.set(key.clone(), String::from_utf8_lossy(&data).to_string());
+                    if step == 1 {
+                        path = path + String::from_utf8_lossy(&data).as_ref();
+                    } else if step == 2 {
+                        query.set(key.clone(), String::from_utf8_lossy(&data).to_string());
+                    } else {
+                        data.push(b);
+                        continue
+                    }
                     key.clear();
                     data.clear();
                     step = 3;
-- 
2.43.0


From 6f9c8527e3268425a7aa1cfacb589fd1613ead88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 17/28] fix: form decoding dropped carriage returns, panicked
 on unusual parts and mixed up url-encoded keys

---
 src/http/requester.rs | 254 +++++++++++++++++++-----------------------
 1 file changed, 113 insertions(+), 141 deletions(-)

diff --git a/src/http/requester.rs b/src/http/requester.rs
index ecf641c..36f6a32 100644
--- a/src/http/requester.rs
+++ b/src/http/requester.rs
@@ -546,149 +546,19 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
         }
         match content_type.inner() {
             Inner::ApplicationXWWWFormUrlEncoded => { // 11=22&44=55 / 11=22&44=55&77=&=222
-                let mut step: u8 = 1; // 1:key -> 2:value
-                let mut data: Vec<u8> = vec![];
-                let mut key: String = String::from("");
-                for b in body {
-                    match b {
-                        b'=' => {
-                            if step == 1 {
-                                key = String::from_utf8_lossy(&data).to_string();
-                                step = 2;
-                                data.clear()
-                            } else {
-                                data.push(b)
-                            }
-                        }
-                        b'&' => {
-                            if step == 1 {
-                                data.push(b)
-                            } else {
-                                let value = String::from_utf8_lossy(&data).to_string();
-                                // self.form.set(key.clone(), value.clone());
-                                self.request.form_set(key.clone(), value);
-                                step = 1;
-                                data.clear()
-                            }
-                        }
-                        _ => data.push(b)
-                    }
-                }
-                let value = String::from_utf8_lossy(&data).to_string();
-                if !key.is_empty() || !value.is_empty() {
-                    // self.form.set(key.clone(), value.clone());
-                    self.request.form_set(key.clone(), value);
-                }
-            }
-            Inner::MultipartFormData(src) => {
-                let start = format!("--{}", src);
-                let end = format!("--{}--", src);
-                // println!("start = {}", start);
-                // println!("end   = {}", end);
-                // println!();
-                let mut name = String::new();
-                let mut filename = String::new();
-                let mut tmp = vec![];
-                let mut content = vec![];
-                // form-data中每个流文件都有单独的类型
-                let mut content_type = ContentType::default();
-                // 1:start -> 2:Content-Disposition: form-data; name="1" -> 3:"" -> 4:value
-                // 1:start -> 2:Content-Disposition: form-data; name="1"; filename="file.txt" -> 3:"" -> 5:file
-                let mut step: u8 = 1;
-                for b in body {
-                    match b {
-                        b'\n' => { // 发现换行符启动验证
-                            let src = String::from_utf8_lossy(tmp.as_slice()).to_string();
-                            match step {
-                                1 => if src.eq(start.as_str()) {
-                                    step = 2;
-                                } else if src.eq(end.as_str()) {
-                                    break;
-                                } else {
-                                    return Err(self.interrupt(
-                                        Response::bad_request(),
-                                        Errs::str("boundary can not matched!")));
-                                },
-                                2 => {
-                                    let mut vs = src.split(";");
-                                    match vs.next() {
-                                        Some(res) => if res.ne("Content-Disposition: form-data") {
-                                            return Err(self.interrupt(
-                                                Response::bad_request(),
-                                                Errs::str("Content-Disposition: form-data can not matched!")));
-                                        }
-                                        None => {
-                                            return Err(self.interrupt(
-                                                Response::bad_request(),
-                                                Errs::str("multipart/form-data body disposition parse failed!")));
-                                        }
-                                    }
-                                    match vs.next() { // name
-                                        Some(src) => {
-                                            let res = src.trim();
-                                            let len = res.len() - 1;
-                                            name = res[6..len].to_string();
-                                        }
-                                        None => return Err(self.interrupt(
-                                            Response::bad_request(),
-                                            Errs::str("multipart/form-data body name parse failed!")))
-                                    }
-                                    match vs.next() { // filename
-                                        Some(src) => {
-                                            let res = src.trim();
-                                            let len = res.len() - 1;
-                                            filename = res[10..len].to_string();
-                                            step = 5
-                                        }
-                                        None => step = 3
-                                    }
-                                }
-                                3 => step = 4,
-                                4 => if src.eq(start.as_str()) || src.eq(end.as_str()) {
-                                    content = content[..content.len() - 1].to_owned();
-                                    let value = String::from_utf8_lossy(content.as_slice()).to_string();
-                                    // self.form.set(name.clone(), value.clone());
-                                    self.request.form_set(name.clone(), value);
-                                    content.clear();
-                                    step = 2;
-                                } else {
-                                    tmp.push(b);
-                                    content.append(&mut tmp)
-                                }
-                                5 => {
-                                    content_type = ContentType::from_str(&src[14..]);
-                                    step = 6
-                                    // if src.eq("Content-Type: application/octet-stream") {
-                                    //     step = 6
-                                    // } else {
-                                    //     self.response(Status::BAD_REQUEST);
-                                    //     return Err(Errs::str("multipart/form-data body file type parse failed!"));
-                                    // }
-                                }
-                                6 => {
-                                    step = 7
-                                }
-                                7 => if src.eq(start.as_str()) || src.eq(end.as_str()) {
-                                    content = content[..content.len() - 1].to_owned();
-                                    self.request.multipart_form_insert(name.clone(),
-                                                                       filename.clone(),
-                                                                       content.clone(),
-                                                                       content_type.clone());
-                                    content.clear();
-                                    step = 2
-                                } else {
-                                    tmp.push(b);
-                                    content.append(&mut tmp)
-                                }
-                                _ => {}
-                            }
-                            tmp.clear()
-                        }
-                        b'\r' => {} // 回车符什么也不做
-                        _ => tmp.push(b)
-                    }
+                for pair in body.split(|b| b.eq(&b'&')).filter(|pair| !pair.is_empty()) {
+                    // 首个'='之前为key，没有'='则value为空
+                    let (key, value) = match pair.iter().position(|b| b.eq(&b'=')) {
+                        Some(src) => (&pair[..src], &pair[src + 1..]),
+                        None => (pair, &pair[pair.len()..])
+                    };
+                    self.request.form_set(String::from_utf8_lossy(key).to_string(), String::from_utf8_lossy(value).to_string());
                 }
             }
+            Inner::MultipartFormData(src) => match self.parse_multipart(body.as_slice(), src) {
+                Ok(()) => {}
+                Err(err) => return Err(self.interrupt(Response::bad_request(), err))
+            },
             _ => {}
         }
         // for (filename, file_header) in self.multipart_form.file_map() {
@@ -698,6 +568,88 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
         Ok(())
     }
 
+    /// 解析multipart/form-data，数据内容与客户端编码前完全一致
+    ///
+    /// 换行方式由首个分隔行决定，数据内容之后的换行属于分隔行，尚未结束的部分会被丢弃
+    fn parse_multipart(&mut self, body: &[u8], boundary: String) -> StarryResult<()> {
+        let start = format!("--{}", boundary).into_bytes();
+        let mut rest = match body.strip_prefix(start.as_slice()) {
+            Some(src) => src,
+            None => return Err(Errs::str("boundary can not matched!"))
+        };
+        let mut delimiter = match rest.starts_with(b"\r\n") {
+            true => b"\r\n".to_vec(),
+            false => b"\n".to_vec()
+        };
+        delimiter.extend_from_slice(start.as_slice());
+        loop {
+            // 分隔行之后，1:结束 2:下一部分
+            if rest.is_empty() || rest.starts_with(b"--") {
+                return Ok(());
+            }
+            let mut name = None;
+            let mut filename = None;
+            // form-data中每个流文件都有单独的类型
+            let mut content_type = ContentType::default();
+            // 当前部分的报头，遇到空行结束，首个换行符属于分隔行
+            let mut first = true;
+            loop {
+                let line = match rest.iter().position(|b| b.eq(&b'\n')) {
+                    Some(src) => {
+                        let line = String::from_utf8_lossy(&rest[..src]).trim_end_matches('\r').to_string();
+                        rest = &rest[src + 1..];
+                        line
+                    }
+                    None => return Ok(())
+                };
+                if first {
+                    if !line.is_empty() {
+                        return Err(Errs::str("boundary can not matched!"));
+                    }
+                    first = false;
+                    continue;
+                }
+                if line.is_empty() {
+                    break;
+                }
+                match line.split_once(':') {
+                    Some((key, value)) if key.trim().eq_ignore_ascii_case("Content-Disposition") => {
+                        if !value.split(';').next().unwrap_or("").trim().eq_ignore_ascii_case("form-data") {
+                            return Err(Errs::str("Content-Disposition: form-data can not matched!"));
+                        }
+                        name = disposition_value(value, "name");
+                        filename = disposition_value(value, "filename");
+                    }
+                    Some((key, value)) if key.trim().eq_ignore_ascii_case("Content-Type") => content_type = ContentType::from_str(value.trim()),
+                    _ => {}
+                }
+            }
+            let name = match name {
+                Some(src) => src,
+                None => return Err(Errs::str("multipart/form-data body name parse failed!"))
+            };
+            // 当前部分的数据内容，可以为空
+            let mut end = 0;
+            loop {
+                end = match rest[end..].windows(delimiter.len()).position(|src| src.eq(delimiter.as_slice())) {
+                    Some(src) => end + src,
+                    None => return Ok(())
+                };
+                let next = &rest[end + delimiter.len()..];
+                if next.is_empty() || next.starts_with(b"--") || next.starts_with(b"\r\n") || next.starts_with(b"\n") {
+                    break;
+                }
+                end += 1;
+            }
+            let content = rest[..end].to_vec();
+            rest = &rest[end + delimiter.len()..];
+            match filename {
+                Some(filename) => self.request.multipart_form_insert(name, filename, content, content_type),
+                None => self.request.form_set(name, String::from_utf8_lossy(content.as_slice()).to_string())
+            }
+        }
+    }
+
     fn write_bytes(&mut self, bw: &mut Writer<BytesMut>, src: &[u8]) -> StarryResult<usize> {
         match bw.write(src) {
             Ok(src) => Ok(src),
@@ -806,6 +758,26 @@ impl<Stream: Read + Write + Debug> Requester<Stream> {
     }
 }
 
+/// 获取`form-data; name="1"; filename="file.txt"`中指定参数的值，引号内的分号不作为分隔
+fn disposition_value(src: &str, key: &str) -> Option<String> {
+    let mut quoted = false;
+    for param in src.split(|c| {
+        if c == '"' {
+            quoted = !quoted
+        }
+        c == ';' && !quoted
+    }) {
+        match param.split_once('=') {
+            Some((k, v)) if k.trim().eq_ignore_ascii_case(key) => {
+                let v = v.trim();
+                return Some(v.strip_prefix('"').and_then(|v| v.strip_suffix('"')).unwrap_or(v).to_string());
+            }
+            _ => {}
+        }
+    }
+    None
+}
+
 #[cfg(test)]
 mod requester_test {
     use std::borrow::BorrowMut;
-- 
2.43.0


From 0435c994d2a4a8faae2d2745ad5ce2b1a62c7a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 18/28] fix: a content type with parameters was not recognised,
 or panicked, so its form was not decoded

---
 src/http/header/content_type.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/http/header/content_type.rs b/src/http/header/content_type.rs
index 83f3664..ea84d57 100644
--- a/src/http/header/content_type.rs
+++ b/src/http/header/content_type.rs
@@ -150,7 +150,10 @@ impl ContentType {
     }
 
     pub fn from_str(src: &str) -> ContentType {
-        match src {
+        // 类型之后可以携带参数，如`text/html; charset=utf-8`
+        let mut params = src.split(';');
+        let inner = params.next().unwrap_or("").trim().to_ascii_lowercase();
+        match inner.as_str() {
             "text/html" => ContentType::TEXT_HTML,
             "text/plain" => ContentType::TEXT_PLAIN,
             "text/xml" => ContentType::TEXT_XML,
@@ -164,13 +167,24 @@ impl ContentType {
             "application/pdf" => ContentType::APPLICATION_PDF,
             "application/msword" => ContentType::APPLICATION_MS_WORD,
             "application/x-www-form-urlencoded" => ContentType::APPLICATION_X_WWW_FORM_URL_ENCODED,
-            _ => if src.len() > 30 && src[..30].eq("multipart/form-data; boundary=") {
+            "multipart/form-data" => {
                 // multipart/form-data; boundary=--------------------------317111499693539547849948
                 // multipart/form-data： 需要在表单中进行文件上传时，就需要使用该格式
-                ContentType(Inner::MultipartFormData(src[30..].to_string()))
-            } else {
+                for param in params {
+                    match param.split_once('=') {
+                        Some((key, value)) if key.trim().eq_ignore_ascii_case("boundary") => {
+                            let value = value.trim();
+                            let value = value.strip_prefix('"').and_then(|src| src.strip_suffix('"')).unwrap_or(value);
+                            if !value.is_empty() {
+                                return ContentType(Inner::MultipartFormData(value.to_string()));
+                            }
+                        }
+                        _ => {}
+                    }
+                }
                 ContentType::default()
-            },
+            }
+            _ => ContentType::default(),
         }
     }
 
-- 
2.43.0


From cd6326037c8ddf55955acea256105d5b81fc5213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:59 +0000
Subject: [PATCH 19/28] fix: the client sent an empty target for '/', the
 fragment, and reordered or lost query parameters

---
 src/http/responser.rs    |  2 +-
 src/http/url/location.rs | 25 +++++++++++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/http/responser.rs b/src/http/responser.rs
index 9688a7a..a23d9e1 100644
--- a/src/http/responser.rs
+++ b/src/http/responser.rs
@@ -308,7 +308,7 @@ impl<Stream: Read + Write + Debug> Responser<Stream> {
         // 状态行
         self.write(request.method.as_str().as_bytes())?;
         self.write(b" ")?;
-        self.write(request.url.location.to_string().as_bytes())?;
+        self.write(request.url.location.target().as_bytes())?;
         self.write(b" ")?;
         self.write(request.version.as_slice())?;
         self.write(b"\r\n")?;
diff --git a/src/http/url/location.rs b/src/http/url/location.rs
index 48c0704..33e24d9 100644
--- a/src/http/url/location.rs
+++ b/src/http/url/location.rs
@@ -35,12 +35,14 @@ use crate::Values;
 pub struct Location {
     path: String,
     query: Values,
+    /// 未经解析的query，保留参数顺序和重复参数
+    raw_query: Option<String>,
     fragment: Option<String>,
 }
 
 impl Location {
     pub(crate) fn new() -> Location {
-        Location { path: String::from("/"), query: Values::new(), fragment: None }
+        Location { path: String::from("/"), query: Values::new(), raw_query: None, fragment: None }
     }
 
     pub fn path(&self) -> String {
@@ -55,6 +57,18 @@ impl Location {
         self.fragment.clone()
     }
 
+    /// 客户端请求行中的资源信息，不包含fragment
+    pub(crate) fn target(&self) -> String {
+        let path = match self.path.is_empty() {
+            true => String::from("/"),
+            false => self.path.clone()
+        };
+        match self.raw_query.clone() {
+            Some(query) => path + "?" + &query,
+            None => path
+        }
+    }
+
     // /path/test/test1/hello/world?key=value&key2=value2#fragid1\r
     pub(crate) fn from_bytes(src: Vec<u8>) -> Location {
         let mut step = 1; // 1:path -> 2:query -> 3:fragment
@@ -65,6 +79,7 @@ impl Location {
         let mut path: String = String::from("");
         let mut query = Values::new();
         let mut fragment = None;
+        let raw_query = raw_query(&src);
         for b in src {
             match b {
                 b'/' => {
@@ -131,7 +146,7 @@ impl Location {
                 _ => data.push(b)
             }
         }
-        Location { path, query, fragment }
+        Location { path, query, raw_query, fragment }
     }
 
     fn query_string(&self) -> Option<String> {
@@ -153,6 +168,12 @@ impl Location {
     }
 }
 
+fn raw_query(src: &[u8]) -> Option<String> {
+    let src = src.split(|b| b.eq(&b'#') || b.eq(&b'\r')).next()?;
+    let start = src.iter().position(|b| b.eq(&b'?'))? + 1;
+    Some(String::from_utf8_lossy(&src[start..]).to_string())
+}
+
 impl ToString for Location {
     fn to_string(&self) -> String {
         let path;
-- 
2.43.0


From 919ba9b02190479dbe02fb2430b5a8673d4b4bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 20/28] fix: the client sent an incomplete request when the
 kernel took only part of a write

---
 src/http/responser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/http/responser.rs b/src/http/responser.rs
index a23d9e1..c4d0eaa 100644
--- a/src/http/responser.rs
+++ b/src/http/responser.rs
@@ -332,9 +332,9 @@ impl<Stream: Read + Write + Debug> Responser<Stream> {
         }
     }
 
-    fn write(&mut self, buf: &[u8]) -> StarryResult<usize> {
-        match self.stream.write(buf) {
-            Ok(src) => Ok(src),
+    fn write(&mut self, buf: &[u8]) -> StarryResult<()> {
+        match self.stream.write_all(buf) {
+            Ok(()) => Ok(()),
             Err(err) => Err(Errs::strs("stream write to request failed!", err)),
         }
     }
-- 
2.43.0


From 5d0e0f0aff205db9e4ddf44a309221a81278b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 21/28] fix: a URL without a scheme or with a port but no path
 connected to the wrong host

---
 src/http/url/url.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/http/url/url.rs b/src/http/url/url.rs
index 2417ce4..777a8d2 100644
--- a/src/http/url/url.rs
+++ b/src/http/url/url.rs
@@ -90,6 +90,8 @@ impl URL {
                     } else {
                         // 非"http"协议起始，直接略过协议解析，并指定协议为HTTP
                         scheme = Scheme::HTTP;
+                        tmp.clear();
+                        cs = url.as_bytes().iter();
                         break;
                     }
                     1 => if src.eq(&b't') {
@@ -99,6 +101,8 @@ impl URL {
                     } else {
                         // 非"http"协议起始，直接略过协议解析，并指定协议为HTTP
                         scheme = Scheme::HTTP;
+                        tmp.clear();
+                        cs = url.as_bytes().iter();
                         break;
                     }
                     2 => if src.eq(&b't') {
@@ -108,6 +112,8 @@ impl URL {
                     } else {
                         // 非"http"协议起始，直接略过协议解析，并指定协议为HTTP
                         scheme = Scheme::HTTP;
+                        tmp.clear();
+                        cs = url.as_bytes().iter();
                         break;
                     }
                     3 => if src.eq(&b'p') {
@@ -117,6 +123,8 @@ impl URL {
                     } else {
                         // 非"http"协议起始，直接略过协议解析，并指定协议为HTTP
                         scheme = Scheme::HTTP;
+                        tmp.clear();
+                        cs = url.as_bytes().iter();
                         break;
                     }
                     4 => if src.eq(&b':') {
@@ -150,7 +158,8 @@ impl URL {
                     } else {
                         // 非"http"协议起始，直接略过协议解析，并指定协议为HTTP
                         scheme = Scheme::HTTP;
-                        tmp.push(*src);
+                        tmp.clear();
+                        cs = url.as_bytes().iter();
                         break;
                     }
                     5 => if src.eq(&b':') {
@@ -181,7 +190,8 @@ impl URL {
                     } else {
                         // 非"https"协议起始，直接略过协议解析，并指定协议为HTTP
                         scheme = Scheme::HTTP;
-                        tmp.push(*src);
+                        tmp.clear();
+                        cs = url.as_bytes().iter();
                         break;
                     },
                     _ => return Err(Errs::str("url protocol parse src failed!"))
@@ -244,7 +254,12 @@ impl URL {
                 None => {
                     // 解析到头则只存在情况：example.com
                     // 此时如果用户名为空，则port默认80
-                    if scheme.eq(&Scheme::HTTPS) {
+                    if !key.is_empty() { // 如果用户名不为空，则赋值port，只存在情况：example.com:123
+                        match String::from_utf8_lossy(tmp.as_slice()).to_string().parse::<u16>() {
+                            Ok(src) => addr = Addr::from(key.clone(), src),
+                            Err(err) => return Err(Errs::strs("url protocol parse port failed!", err))
+                        }
+                    } else if scheme.eq(&Scheme::HTTPS) {
                         addr = Addr::from(String::from_utf8_lossy(tmp.as_slice()).to_string(), 443);
                     } else {
                         addr = Addr::from(String::from_utf8_lossy(tmp.as_slice()).to_string(), 80);
-- 
2.43.0


From e60c9b51180ef03107c48ad1b7de18263930aed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 22/28] fix: the client accepted truncated responses, altered
 or dropped bodies and rejected many valid ones

---
 src/http/header/header.rs |   4 ++
 src/http/responser.rs     | 135 +++++++++++++-------------------------
 2 files changed, 51 insertions(+), 88 deletions(-)

diff --git a/src/http/header/header.rs b/src/http/header/header.rs
index 6cc2a9e..3386e09 100644
--- a/src/http/header/header.rs
+++ b/src/http/header/header.rs
@@ -54,6 +54,10 @@ impl Header {
         self.find("Content-Length")
     }
 
+    pub(crate) fn get_transfer_encoding(&self) -> Option<String> {
+        self.find("Transfer-Encoding")
+    }
+
     pub(crate) fn del_content_length(&mut self) -> Option<String> {
         self.del("Content-Length")
     }
diff --git a/src/http/responser.rs b/src/http/responser.rs
index c4d0eaa..52d9dd7 100644
--- a/src/http/responser.rs
+++ b/src/http/responser.rs
@@ -84,15 +84,12 @@ impl<Stream: Read + Write + Debug> Responser<Stream> {
         count += len;
 
         // 解析消息报头
-        let len = self.parse_response_header(iter.borrow_mut());
+        let len = self.parse_response_header(iter.borrow_mut())?;
         log::trace!("size = {}, len2 = {}", size, len);
         count += len;
 
         self.parse_others()?;
 
-        if size < count {
-            return Ok(());
-        }
         size -= count;
 
         // 读取请求正文
@@ -137,18 +134,22 @@ impl<Stream: Read + Write + Debug> Responser<Stream> {
                                 }
                                 Err(err) => return Err(Errs::strs("parse response status code failed!", err))
                             }
-                            _ => return Err(Errs::str("parse response failed!"))
+                            _ => data.push(*b) // 状态描述可以包含空格
                         }
                         b'\r' | b'\n' => match step {
-                            3 => match status_op.clone() { // OK
+                            // 200，没有状态描述
+                            2 => match Strings::from_utf8(data.clone())?.parse::<u16>() {
+                                Ok(src) => {
+                                    self.response.status = Status::from_code(src)?;
+                                    return Ok(count);
+                                }
+                                Err(err) => return Err(Errs::strs("parse response status code failed!", err))
+                            }
+                            // OK，状态描述由服务端自行定义，仅以状态码为准
+                            3 => match status_op.clone() {
                                 Some(status) => {
-                                    let res = Strings::from_utf8(data.clone())?;
-                                    if status.eq(&res) {
-                                        self.response.status = status;
-                                        break;
-                                    } else {
-                                        return Err(Errs::str("parse response failed while status code unmatch msg!"));
-                                    }
+                                    self.response.status = status;
+                                    return Ok(count);
                                 }
                                 None => return Err(Errs::str("parse response failed while status code is none!"))
                             }
@@ -157,68 +158,49 @@ impl<Stream: Read + Write + Debug> Responser<Stream> {
                         _ => data.push(*b),
                     }
                 }
-                None => break
+                None => return Err(Errs::str("response line is not complete!"))
             }
         }
-        Ok(count)
     }
 
     /// 解析消息报头
     ///
     /// usize 读取数据的总长度
-    fn parse_response_header(&mut self, iter: &mut Iter<u8>) -> usize {
+    fn parse_response_header(&mut self, iter: &mut Iter<u8>) -> StarryResult<usize> {
         // 本次读取的字节数
         let mut count = 0;
         let mut data: Vec<u8> = vec![];
         let mut key: String = String::from("");
         // 是否轮到key解析
         let mut key_time = true;
-        // 即将开始value解析
-        let mut pre_value_time = false;
-        // 是否轮到value解析
-        let mut value_time = false;
-        // 是否结束解析。当连续出现两次"\n\r"后结束解析
-        let mut end_time = false;
         loop {
             match iter.next() {
                 Some(b) => {
                     count += 1;
                     match b {
-                        b':' => if key_time {
+                        b':' if key_time => {
                             key = String::from_utf8_lossy(&data).to_string();
                             key_time = false;
-                            pre_value_time = true;
                             data.clear()
-                        } else {
-                            data.push(*b)
                         }
-                        b' ' => if key_time {
-                            data.push(*b)
-                        } else if pre_value_time {
-                            end_time = false;
-                            pre_value_time = false;
-                            value_time = true
-                        } else if value_time {
-                            data.push(*b)
-                        },
                         b'\r' => {}
-                        b'\n' => if end_time {
-                            break;
-                        } else if value_time {
-                            self.response.set_header(key.clone(), String::from_utf8_lossy(&data).to_string());
-                            key.clear();
-                            data.clear();
+                        b'\n' => {
+                            if !key_time { // value前后的空格不属于value，value可以为空，同名报头可以出现多次
+                                self.response.add_header(key.clone(), String::from_utf8_lossy(&data).trim().to_string());
+                            } else if data.is_empty() && count > 1 { // 首个换行符属于上一行，此后遇到空行则解析结束
+                                return Ok(count);
+                            } else if !data.is_empty() {
+                                return Err(Errs::str("response header has no ':'!"));
+                            }
                             key_time = true;
-                            value_time = false;
-                            end_time = true
+                            data.clear()
                         }
                         _ => data.push(*b),
                     }
                 }
-                None => break
+                None => return Err(Errs::str("response header is not complete!"))
             }
         }
-        count
     }
 
     /// 根据已知结果解析请求关联参数
@@ -233,54 +215,31 @@ impl<Stream: Read + Write + Debug> Responser<Stream> {
         }
     }
 
-    fn fill_body(&mut self, iter: &mut Iter<u8>, mut size: usize) -> StarryResult<()> {
-        let mut bytes = vec![];
-        loop {
-            match iter.next() {
-                Some(b) => {
-                    match b {
-                        b'\r' | b'\n' => size -= 1,
-                        _ => {
-                            bytes.push(*b);
-                            size -= 1;
-                            break;
-                        }
-                    }
-                }
-                None => return Ok(())
-            }
+    /// 读取正文，不对正文做任何修改，如果正文不完整则返回错误
+    fn fill_body(&mut self, iter: &mut Iter<u8>, size: usize) -> StarryResult<()> {
+        match self.response.status.code() {
+            100..=199 | 204 | 304 => return Ok(()), // 没有正文
+            _ => {}
         }
-        // iter.next(); // 请求，过滤换行符
-        // size -= 1;
-
-        match self.response.header.get_content_length() {
+        if self.response.header.get_transfer_encoding().is_some() {
+            return Err(Errs::str("transfer encoding from header not support!"));
+        }
+        let len = match self.response.header.get_content_length() {
             Some(content_len) => match content_len.parse::<isize>() {
-                Ok(mut len) => {
-                    if len > 0 { // 读取到"Content-Length"大于0
-                        // 因为前面内容多读取了一个字节，所以len = len - 1
-                        len = len - 1;
-                        // Body数据存在，新建写流，将body数据进行填充
-                        let mut bw = BytesMut::new().writer();
-                        self.write_bytes(bw.borrow_mut(), bytes.as_slice())?;
-                        self.write_bytes(bw.borrow_mut(), &iter.as_ref()[0..size])?;
-                        self.response.set_body(bw.into_inner());
-                    } else if len == 0 {  // 读取到"Content-Length"等于0
-                        return Ok(());
-                    } else if len == -1 {  // 读取到"Content-Length"小于0
-                        // Body数据存在，长度未知，新建写流，将body数据进行填充
-                        let mut bw = BytesMut::new().writer();
-                        self.write_bytes(bw.borrow_mut(), bytes.as_slice())?;
-                        self.write_bytes(bw.borrow_mut(), &iter.as_ref()[0..size])?;
-                        self.response.set_body(bw.into_inner());
-                    } else {
-                        return Err(Errs::string(format!("content len {} invalid from header failed!", len)));
-                    }
-                    Ok(())
-                }
+                Ok(len) if len >= 0 => len as usize,
+                Ok(-1) => size, // 长度未知，正文直到连接关闭
+                Ok(len) => return Err(Errs::string(format!("content len {} invalid from header failed!", len))),
                 Err(err) => return Err(Errs::strings(format!("content len {} parse usize from header failed!", content_len), err))
             },
-            None => return Ok(())
+            None => size // 长度未知，正文直到连接关闭
+        };
+        if size < len {
+            return Err(Errs::string(format!("response body is not complete! expect {}, actual {}", len, size)));
         }
+        let mut bw = BytesMut::new().writer();
+        self.write_bytes(bw.borrow_mut(), &iter.as_slice()[..len])?;
+        self.response.set_body(bw.into_inner());
+        Ok(())
     }
 
     fn write_bytes(&mut self, bw: &mut Writer<BytesMut>, src: &[u8]) -> StarryResult<usize> {
-- 
2.43.0


From dfefa558c3ce3df3a38228aa414e9e0a9e9d95b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 23/28] fix: req_client_addr returned the server's own address

---
 src/server/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/context.rs b/src/server/context.rs
index e2ed8b6..023323e 100644
--- a/src/server/context.rs
+++ b/src/server/context.rs
@@ -62,7 +62,7 @@ impl Context {
     }
 
     pub fn req_client_addr(&self) -> Addr {
-        self.requester.addr()
+        self.requester.client()
     }
 
     /// 如果请求头指示客户端正在发起websocket握手，则IsWebsocket返回true
-- 
2.43.0


From 942ac94d40fccfbf8142f93152930b83b9a07b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 24/28] fix: a URL whose query or fragment follows the address,
 or with userinfo and no path, was rejected

---
 src/http/url/url.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/http/url/url.rs b/src/http/url/url.rs
index 777a8d2..a359b47 100644
--- a/src/http/url/url.rs
+++ b/src/http/url/url.rs
@@ -223,7 +223,8 @@ impl URL {
                         // 跳出循环继续解析addr
                         break;
                     }
-                    b'/' => if key.is_empty() {
+                    // path可以省略，此时query或fragment紧随addr
+                    b'/' | b'?' | b'#' => if key.is_empty() {
                         // 解析到"/"则只存在情况2：example.com:123/
                         // 此时如果用户名为空，则port默认80
                         if scheme.eq(&Scheme::HTTP) {
@@ -232,17 +233,17 @@ impl URL {
                             addr = Addr::from(String::from_utf8_lossy(tmp.as_slice()).to_string(), 443);
                         }
                         tmp.clear();
-                        tmp.push(b'/');
+                        tmp.push(*src);
                         // 跳出循环继续解析location
                         break;
                     } else { // 如果用户名不为空，则赋值port
                         // 解析到"/"则只存在情况2：example.com:123/
                         match String::from_utf8_lossy(tmp.as_slice()).to_string().parse::<u16>() {
-                            Ok(src) => {
-                                addr = Addr::from(key.clone(), src);
+                            Ok(port) => {
+                                addr = Addr::from(key.clone(), port);
                                 tmp.clear();
                                 // 追加新解析内容
-                                tmp.push(b'/');
+                                tmp.push(*src);
                                 // 跳出循环继续解析location
                                 break;
                             }
@@ -275,7 +276,8 @@ impl URL {
             Some(_) => {
                 // 存在userinfo，需先解析出addr
                 loop {
-                    match cs.next() {
+                    // 解析到头等同于省略path
+                    match cs.next().or(Some(&b'/')) {
                         Some(src) => match src {
                             b':' => if key.is_empty() { // 如果host为空，解析到":"说明存在port，继续
                                 key.push_str(String::from_utf8_lossy(tmp.as_slice()).as_ref());
@@ -283,21 +285,21 @@ impl URL {
                             } else { // 如果host存在，解析到":"说明url格式错误
                                 return Err(Errs::str("url protocol addr parse host failed!"));
                             }
-                            b'/' => if key.is_empty() { // 如果host为空，解析到"/"说明不存在port
+                            b'/' | b'?' | b'#' => if key.is_empty() { // 如果host为空，解析到"/"说明不存在port
                                 key.push_str(String::from_utf8_lossy(tmp.as_slice()).as_ref());
                                 addr = Addr::from(key.clone(), 80);
                                 tmp.clear();
                                 // 追加新解析内容
-                                tmp.push(b'/');
+                                tmp.push(*src);
                                 // 跳出循环继续解析location
                                 break;
                             } else { // 如果host存在，解析到"/"说明目前在处理port
                                 match String::from_utf8_lossy(tmp.as_slice()).to_string().parse::<u16>() {
-                                    Ok(src) => {
-                                        addr = Addr::from(key.clone(), src);
+                                    Ok(port) => {
+                                        addr = Addr::from(key.clone(), port);
                                         tmp.clear();
                                         // 追加新解析内容
-                                        tmp.push(b'/');
+                                        tmp.push(*src);
                                         // 跳出循环继续解析location
                                         break;
                                     }
-- 
2.43.0


From f4d7aca4dc89a26d0f6f9224da1a6216303f5b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 25/28] fix: configuring the log on a failing disk panicked and
 left the log handle poisoned

---
 src/utils/log.rs | 56 +++++++++++++++++++-----------------------------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/src/utils/log.rs b/src/utils/log.rs
index ab3009c..2fafe90 100644
--- a/src/utils/log.rs
+++ b/src/utils/log.rs
@@ -25,7 +25,7 @@ use log4rs::encode::json::JsonEncoder;
 use log4rs::encode::pattern::PatternEncoder;
 use log4rs::Handle;
 use once_cell::sync::Lazy;
-use std::fs;
+use std::io;
 
 #[derive(Debug, PartialEq, Clone)]
 pub struct LogModule {
@@ -62,13 +62,8 @@ impl LogModule {
         self.dir.clone()
     }
 
-    /// 获取日志空配置信息
-    fn config_default(&self) -> Config {
-        self.config(vec![])
-    }
-
     /// 获取日志配置信息
-    fn config(&self, modules: Vec<LogModule>) -> Config {
+    fn config(&self, modules: Vec<LogModule>) -> io::Result<Config> {
         let stdout_name = "stdout";
         let stdout = ConsoleAppender::builder()
             .encoder(Box::new(PatternEncoder::new(
@@ -81,7 +76,7 @@ impl LogModule {
             self.name(),
             self.file_max_size,
             self.file_max_count,
-        );
+        )?;
 
         let config = Config::builder()
             .appender(Appender::builder().build(stdout_name, Box::new(stdout)))
@@ -109,7 +104,7 @@ impl LogModule {
             } else {
                 file_max_count = mdl.file_max_count;
             }
-            let rolling_module = rolling_appender(dir, mdl.name(), file_max_size, file_max_count);
+            let rolling_module = rolling_appender(dir, mdl.name(), file_max_size, file_max_count)?;
             appenders.push(Appender::builder().build(mdl.name(), Box::new(rolling_module)));
             loggers.push(
                 Logger::builder()
@@ -119,11 +114,11 @@ impl LogModule {
             );
             root.clone().appender(mdl.name());
         }
-        return config
+        Ok(config
             .appenders(appenders)
             .loggers(loggers)
             .build(root.build(self.level()))
-            .expect("config build failed!");
+            .expect("config build failed!"))
     }
 
     /// 初始化日志
@@ -137,12 +132,17 @@ impl LogModule {
     /// file_max_count 文件最多保存多少个
     ///
     /// log_level 日志级别(debug/info/warn/Error/panic/fatal)
+    ///
+    /// 如果日志文件无法打开，则继续使用之前的日志配置
     pub fn config_log(&self, modules: Vec<LogModule>) {
-        GLOBAL_LOG
-            .write()
-            .expect("global log write failed!")
-            .handle
-            .set_config(self.config(modules))
+        match self.config(modules) {
+            Ok(config) => GLOBAL_LOG
+                .write()
+                .expect("global log write failed!")
+                .handle
+                .set_config(config),
+            Err(err) => eprintln!("log config failed, the previous one stays in force: {}", err),
+        }
     }
 }
 
@@ -153,20 +153,13 @@ pub struct LogHandle {
 }
 
 pub static GLOBAL_LOG: Lazy<RwLock<LogHandle>> = Lazy::new(|| {
-    let module = LogModule {
-        name: "log".to_string(),
-        pkg: "".to_string(),
-        level: LevelFilter::Off,
-        additive: false,
-        dir: "./wonder_log_test_rm/logs".to_string(),
-        file_max_size: 0,
-        file_max_count: 0,
-    };
+    let config = Config::builder()
+        .build(Root::builder().build(LevelFilter::Off))
+        .expect("config build failed!");
     let handle = LogHandle {
-        handle: log4rs::init_config(module.config_default()).expect("log init config failed!"),
+        handle: log4rs::init_config(config).expect("log init config failed!"),
         // production: false,
     };
-    fs::remove_dir_all("./wonder_log_test_rm").expect("fs remove dir failed!");
     RwLock::new(handle)
 });
 
@@ -180,11 +173,7 @@ pub fn set_log_test() {
         file_max_size: 1024,
         file_max_count: 7,
     };
-    GLOBAL_LOG
-        .write()
-        .expect("global log write failed!")
-        .handle
-        .set_config(module.config(vec![]))
+    module.config_log(vec![])
 }
 
 fn rolling_appender(
@@ -192,7 +181,7 @@ fn rolling_appender(
     module_name: String,
     file_max_size: u64,
     file_max_count: u32,
-) -> RollingFileAppender {
+) -> io::Result<RollingFileAppender> {
     RollingFileAppender::builder()
         .append(true)
         .encoder(Box::new(JsonEncoder::default()))
@@ -211,7 +200,6 @@ fn rolling_appender(
                 ),
             )),
         )
-        .expect("rolling file appender build failed!")
 }
 
 
-- 
2.43.0


From 851c4e4b11014439d65c2c3d800bd9f7cbdfac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 26/28] fix: log records shared a line with the remains of a
 killed process, or with each other during reconfiguration

---
 src/utils/log.rs | 64 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 7 deletions(-)

diff --git a/src/utils/log.rs b/src/utils/log.rs
index 2fafe90..bf3522a 100644
--- a/src/utils/log.rs
+++ b/src/utils/log.rs
@@ -12,9 +12,10 @@
  * limitations under the License.
  */
 
-use std::sync::RwLock;
+use std::sync::{Arc, Mutex, RwLock};
 
-use log::LevelFilter;
+use log::{LevelFilter, Log, Metadata, Record};
+use log4rs::append::Append;
 use log4rs::append::console::ConsoleAppender;
 use log4rs::append::rolling_file::policy::compound::roll::fixed_window::FixedWindowRoller;
 use log4rs::append::rolling_file::policy::compound::trigger::size::SizeTrigger;
@@ -25,7 +26,9 @@ use log4rs::encode::json::JsonEncoder;
 use log4rs::encode::pattern::PatternEncoder;
 use log4rs::Handle;
 use once_cell::sync::Lazy;
-use std::io;
+use std::collections::HashMap;
+use std::fs::OpenOptions;
+use std::io::{self, Read, Seek, SeekFrom, Write};
 
 #[derive(Debug, PartialEq, Clone)]
 pub struct LogModule {
@@ -163,6 +166,31 @@ pub static GLOBAL_LOG: Lazy<RwLock<LogHandle>> = Lazy::new(|| {
     RwLock::new(handle)
 });
 
+/// 当前进程已打开过的日志文件，以及写入该文件所需持有的锁
+static OPENED: Lazy<Mutex<HashMap<String, Arc<Mutex<()>>>>> = Lazy::new(|| Mutex::new(HashMap::new()));
+
+/// 重新配置后，新旧配置可能短暂地同时写入同一个日志文件，通过锁保证记录及滚动的完整性
+#[derive(Debug)]
+struct FileAppender {
+    lock: Arc<Mutex<()>>,
+    appender: RollingFileAppender,
+}
+
+impl Log for FileAppender {
+    fn enabled(&self, _: &Metadata) -> bool {
+        true
+    }
+
+    fn log(&self, record: &Record) {
+        let _guard = self.lock.lock().unwrap_or_else(|err| err.into_inner());
+        if let Err(err) = Append::append(&self.appender, record) {
+            eprintln!("log4rs: {}", err)
+        }
+    }
+
+    fn flush(&self) {}
+}
+
 pub fn set_log_test() {
     let module = LogModule {
         name: "test".to_string(),
@@ -181,12 +209,14 @@ fn rolling_appender(
     module_name: String,
     file_max_size: u64,
     file_max_count: u32,
-) -> io::Result<RollingFileAppender> {
-    RollingFileAppender::builder()
+) -> io::Result<FileAppender> {
+    let path = format!("{}/{}{}", dir.clone(), module_name, ".log");
+    let lock = file_lock(&path);
+    let appender = RollingFileAppender::builder()
         .append(true)
         .encoder(Box::new(JsonEncoder::default()))
         .build(
-            format!("{}/{}{}", dir.clone(), module_name, ".log"),
+            path,
             Box::new(CompoundPolicy::new(
                 Box::new(SizeTrigger::new(file_max_size * 1024 * 1024)),
                 Box::new(
@@ -199,9 +229,29 @@ fn rolling_appender(
                         .expect("fixed window roller build failed!"),
                 ),
             )),
-        )
+        )?;
+    Ok(FileAppender { lock, appender })
+}
+
+/// 日志文件的锁，每个日志文件在当前进程首次打开前，补全上一个进程残留的未完成行
+fn file_lock(path: &str) -> Arc<Mutex<()>> {
+    let mut opened = OPENED.lock().unwrap_or_else(|err| err.into_inner());
+    if !opened.contains_key(path) {
+        end_last_line(path);
+        opened.insert(path.to_string(), Arc::new(Mutex::new(())));
+    }
+    opened[path].clone()
 }
 
+/// 上一个进程可能在写入记录的过程中终止，补全换行，避免后续记录与其残留部分处于同一行
+fn end_last_line(path: &str) {
+    if let Ok(mut file) = OpenOptions::new().read(true).append(true).open(path) {
+        let mut last = [b'\n'];
+        if file.seek(SeekFrom::End(-1)).is_ok() && file.read_exact(&mut last).is_ok() && last[0] != b'\n' {
+            let _ = file.write_all(b"\n");
+        }
+    }
+}
 
 #[cfg(test)]
 mod log_test {
-- 
2.43.0


From 34672f78b9339e434b9544678b3c1faa01f08c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:56 +0000
Subject: [PATCH 27/28] fix: a web socket handshake was recognised only in
 lower case, unlike the documented example

---
 src/http/header/header.rs |  2 +-
 src/server/context.rs     | 19 ++++++-------------
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/http/header/header.rs b/src/http/header/header.rs
index 3386e09..3ea6eff 100644
--- a/src/http/header/header.rs
+++ b/src/http/header/header.rs
@@ -22,7 +22,7 @@ pub type Header = Values;
 
 impl Header {
     /// 报头名称不区分大小写，优先返回完全匹配的报头
-    fn find(&self, name: &str) -> Option<String> {
+    pub(crate) fn find(&self, name: &str) -> Option<String> {
         self.vec_of(name).map(|values| values[0].clone())
     }
 
diff --git a/src/server/context.rs b/src/server/context.rs
index 023323e..8b25a6a 100644
--- a/src/server/context.rs
+++ b/src/server/context.rs
@@ -76,19 +76,12 @@ impl Context {
     /// Upgrade: websocket
     /// ```
     pub fn req_is_web_socket(&self) -> bool {
-        match self.req_header_get("Connection") {
-            Some(src) => if src.ne("upgrade") {
-                return false;
-            },
-            None => return false,
-        }
-        match self.req_header_get("Upgrade") {
-            Some(src) => if src.eq("websocket") {
-                return true;
-            },
-            None => return false,
-        }
-        false
+        // 字段名、字段值均不区分大小写，字段值可以是以逗号分隔的列表
+        let have = |name: &str, token: &str| match self.requester.request.header.find(name) {
+            Some(src) => src.split(',').any(|value| value.trim().eq_ignore_ascii_case(token)),
+            None => false,
+        };
+        have("Connection", "upgrade") && have("Upgrade", "websocket")
     }
 
     pub fn req_cookies(&self) -> Vec<Cookie> {
-- 
2.43.0


From 2cf1ea75ccb4083e56ddf7f825566df361ded27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:05 +0000
Subject: [PATCH 28/28] fix: a log argument that panics while it is formatted
 left half a record, which the next one continued

---
 src/utils/log.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/utils/log.rs b/src/utils/log.rs
index bf3522a..37e9016 100644
--- a/src/utils/log.rs
+++ b/src/utils/log.rs
@@ -182,8 +182,16 @@ impl Log for FileAppender {
     }
 
     fn log(&self, record: &Record) {
+        // 内容先行格式化，此过程可能panic，不能留下写了一半的记录
+        let message = record.args().to_string();
+        let mut builder = Record::builder();
+        builder
+            .metadata(record.metadata().clone())
+            .module_path(record.module_path())
+            .file(record.file())
+            .line(record.line());
         let _guard = self.lock.lock().unwrap_or_else(|err| err.into_inner());
-        if let Err(err) = Append::append(&self.appender, record) {
+        if let Err(err) = Append::append(&self.appender, &builder.args(format_args!("{}", message)).build()) {
             eprintln!("log4rs: {}", err)
         }
     }
-- 
2.43.0


From c50c2658c77e2747486082290bba397fdba890a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 01/22] fix: number nested Rc/Arc consistently when
 deserializing

Serializer::learn_cyclic assigns an ID to a shared object before its contents are
serialized, but deserialization assigned it after the contents were deserialized, so
references to objects nested in other shared objects were resolved incorrectly.
---
 src/builtins.rs |  8 ++++++--
 src/serde.rs    | 25 +++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 026655f..a41e86c 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -180,8 +180,10 @@ unsafe impl<T: 'static + Object> NonTrivialObject for Rc<T> {
         let id = d.deserialize::<usize>()?;
         match std::num::NonZeroUsize::new(id) {
             None => {
+                // The ID has to be assigned before the objects inside get theirs
+                let id = d.reserve_cyclic();
                 let rc = Self::new(d.deserialize()?);
-                d.learn_cyclic(rc.clone());
+                d.fill_cyclic(id, rc.clone());
                 Ok(rc)
             }
             Some(id) => Ok(d.get_cyclic::<Rc<T>>(id).clone()),
@@ -205,8 +207,10 @@ unsafe impl<T: 'static + Object> NonTrivialObject for Arc<T> {
         let id = d.deserialize::<usize>()?;
         match std::num::NonZeroUsize::new(id) {
             None => {
+                // The ID has to be assigned before the objects inside get theirs
+                let id = d.reserve_cyclic();
                 let rc = Self::new(d.deserialize()?);
-                d.learn_cyclic(rc.clone());
+                d.fill_cyclic(id, rc.clone());
                 Ok(rc)
             }
             Some(id) => Ok(d.get_cyclic::<Arc<T>>(id).clone()),
diff --git a/src/serde.rs b/src/serde.rs
index 516fd33..4bf2a10 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -117,7 +117,8 @@ pub struct Deserializer {
     data: Vec<u8>,
     pub(crate) handles: std::vec::IntoIter<OwnedHandle>,
     pos: usize,
-    cyclics: Vec<Box<dyn Any>>,
+    // `None` denotes an object whose contents are still being deserialized
+    cyclics: Vec<Option<Box<dyn Any>>>,
 }
 
 impl Deserializer {
@@ -186,13 +187,33 @@ impl Deserializer {
     }
 
     /// Store a reference to a newly built potentially cyclic object.
+    ///
+    /// If the contents of the object might include other cyclic objects, use
+    /// [`Deserializer::reserve_cyclic`] instead.
     pub fn learn_cyclic<T: 'static>(&mut self, obj: T) {
-        self.cyclics.push(Box::new(obj));
+        self.cyclics.push(Some(Box::new(obj)));
+    }
+
+    /// Reserve an ID for a potentially cyclic object before deserializing its contents.
+    ///
+    /// [`Serializer::learn_cyclic`] assigns an ID to an object before its contents, and thus before
+    /// the objects nested in it, so the ID has to be allocated in the same order here. When the
+    /// object is built, pass the returned ID to [`Deserializer::fill_cyclic`].
+    pub fn reserve_cyclic(&mut self) -> NonZeroUsize {
+        self.cyclics.push(None);
+        NonZeroUsize::new(self.cyclics.len()).expect("Too many cyclic objects")
+    }
+
+    /// Store a reference to an object for which [`Deserializer::reserve_cyclic`] was called.
+    pub fn fill_cyclic<T: 'static>(&mut self, id: NonZeroUsize, obj: T) {
+        self.cyclics[id.get() - 1] = Some(Box::new(obj));
     }
 
     /// Get a reference to an object built earlier.
     pub fn get_cyclic<T: 'static>(&self, id: NonZeroUsize) -> &T {
         self.cyclics[id.get() - 1]
+            .as_ref()
+            .expect("The cyclic object has not been built yet")
             .downcast_ref()
             .expect("The cyclic object is of unexpected type")
     }
-- 
2.43.0


From 97badb59d3e38b5f274a1d14242753e5af7e1754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 02/22] fix: retry system calls interrupted by signals

sendmsg and recvmsg that block may fail with EINTR in the middle of a message. This
was reported as an error and left the channel desynchronized. waitpid in join is
affected too.
---
 src/asynchronous.rs            | 10 ++++++----
 src/platform/unix/internals.rs | 35 +++++++++++++++++++---------------
 2 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/asynchronous.rs b/src/asynchronous.rs
index 9eadaed..2f489c1 100644
--- a/src/asynchronous.rs
+++ b/src/asynchronous.rs
@@ -531,10 +531,12 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
         // This is synchronous, but should be really fast
         #[cfg(unix)]
         {
-            let status = rustix::process::waitpid(
-                Some(self.proc_handle),
-                rustix::process::WaitOptions::empty(),
-            )?
+            let status = rustix::io::retry_on_intr(|| {
+                rustix::process::waitpid(
+                    Some(self.proc_handle),
+                    rustix::process::WaitOptions::empty(),
+                )
+            })?
             .unwrap();
             if status.exit_status() == Some(0) {
                 value.ok_or_else(|| {
diff --git a/src/platform/unix/internals.rs b/src/platform/unix/internals.rs
index 6ed9670..9157d45 100644
--- a/src/platform/unix/internals.rs
+++ b/src/platform/unix/internals.rs
@@ -1,6 +1,7 @@
 use crate::{imp::implements, pod::PlainOldData, Deserializer, Object, Serializer};
 use rustix::{
     cmsg_space,
+    io::retry_on_intr,
     net::{
         self, recvmsg, sendmsg, AddressFamily, RecvAncillaryBuffer, RecvAncillaryMessage,
         RecvFlags, SendAncillaryBuffer, SendAncillaryMessage, SendFlags, SocketFlags, SocketType,
@@ -86,15 +87,17 @@ impl<'a> SingleObjectSender<'a> {
                 &self.fds[self.fds_pos..fds_end],
             )));
 
-            let n_written = sendmsg(
-                self.socket_fd,
-                &[
-                    IoSlice::new(&[is_last as u8]),
-                    IoSlice::new(&self.data()[self.data_pos..buffer_end]),
-                ],
-                &mut cmsg_buffer,
-                self.flags,
-            )?;
+            let n_written = retry_on_intr(|| {
+                sendmsg(
+                    self.socket_fd,
+                    &[
+                        IoSlice::new(&[is_last as u8]),
+                        IoSlice::new(&self.data()[self.data_pos..buffer_end]),
+                    ],
+                    &mut cmsg_buffer,
+                    self.flags,
+                )
+            })?;
 
             self.data_pos += n_written - 1;
             self.fds_pos = fds_end;
@@ -176,12 +179,14 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 IoSliceMut::new(&mut data[self.data_pos..]),
             ];
 
-            let message = recvmsg(
-                self.socket_fd,
-                &mut iovecs,
-                &mut cmsg_buffer,
-                self.flags | RecvFlags::CMSG_CLOEXEC,
-            )?;
+            let message = retry_on_intr(|| {
+                recvmsg(
+                    self.socket_fd,
+                    &mut iovecs,
+                    &mut cmsg_buffer,
+                    self.flags | RecvFlags::CMSG_CLOEXEC,
+                )
+            })?;
 
             for cmsg in cmsg_buffer.drain() {
                 let RecvAncillaryMessage::ScmRights(rights) = cmsg else {
-- 
2.43.0


From 7254bbbe3998e01884bfa797098f63e5898cdfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 03/22] fix: do not let abandoned transfers corrupt later
 messages

If a send or a recv is abandoned or fails in the middle of a multi-packet message,
e.g. because the future is cancelled, the rest of the message was glued to the next
one. Mark the first packet of each message so that the receiver can resynchronize.
---
 src/platform/unix/internals.rs | 63 +++++++++++++++++++++++++++++-----
 1 file changed, 55 insertions(+), 8 deletions(-)

diff --git a/src/platform/unix/internals.rs b/src/platform/unix/internals.rs
index 9157d45..c7917fd 100644
--- a/src/platform/unix/internals.rs
+++ b/src/platform/unix/internals.rs
@@ -18,6 +18,13 @@ use std::os::unix::{
 pub(crate) const MAX_PACKET_SIZE: usize = 16 * 1024;
 pub(crate) const MAX_PACKET_FDS: usize = 253; // SCM_MAX_FD
 
+// Each packet starts with a marker byte containing a combination of these flags. The last packet of
+// a message has to be marked so that the receiver can delimit messages, and the first one has to be
+// marked because both sending and receiving may be abandoned in the middle of a message, e.g. if the
+// future is cancelled, in which case the rest of the message should be skipped.
+const MARKER_LAST: u8 = 1;
+const MARKER_FIRST: u8 = 2;
+
 pub(crate) fn socketpair() -> Result<(UnixStream, UnixStream)> {
     // UnixStream creates a SOCK_STREAM by default, while we need SOCK_SEQPACKET
     let (tx, rx) = net::socketpair(
@@ -34,6 +41,7 @@ pub(crate) struct SingleObjectSender<'a> {
     bytes: &'a [u8],
     fds: Vec<BorrowedFd<'a>>,
     buffer: Vec<u8>,
+    is_first: bool,
     data_pos: usize,
     fds_pos: usize,
     flags: SendFlags,
@@ -62,6 +70,7 @@ impl<'a> SingleObjectSender<'a> {
             bytes,
             fds,
             buffer,
+            is_first: true,
             data_pos: 0,
             fds_pos: 0,
             flags: if blocking {
@@ -81,6 +90,13 @@ impl<'a> SingleObjectSender<'a> {
             let fds_end = self.fds.len().min(self.fds_pos + MAX_PACKET_FDS);
 
             let is_last = buffer_end == self.data().len() && fds_end == self.fds.len();
+            let mut marker = 0;
+            if self.is_first {
+                marker |= MARKER_FIRST;
+            }
+            if is_last {
+                marker |= MARKER_LAST;
+            }
 
             cmsg_buffer.clear();
             assert!(cmsg_buffer.push(SendAncillaryMessage::ScmRights(
@@ -91,7 +107,7 @@ impl<'a> SingleObjectSender<'a> {
                 sendmsg(
                     self.socket_fd,
                     &[
-                        IoSlice::new(&[is_last as u8]),
+                        IoSlice::new(&[marker]),
                         IoSlice::new(&self.data()[self.data_pos..buffer_end]),
                     ],
                     &mut cmsg_buffer,
@@ -99,6 +115,7 @@ impl<'a> SingleObjectSender<'a> {
                 )
             })?;
 
+            self.is_first = false;
             self.data_pos += n_written - 1;
             self.fds_pos = fds_end;
 
@@ -120,6 +137,7 @@ impl<'a> SingleObjectSender<'a> {
 pub(crate) struct SingleObjectReceiver<'a, T: Object> {
     socket_fd: BorrowedFd<'a>,
     buffer: Vec<u8>,
+    in_message: bool,
     data_pos: usize,
     value: MaybeUninit<T>,
     fds: Vec<OwnedFd>,
@@ -135,6 +153,7 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
         Self {
             socket_fd,
             buffer: Vec::new(),
+            in_message: false,
             data_pos: 0,
             value: MaybeUninit::zeroed(),
             fds: Vec::new(),
@@ -157,12 +176,15 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
         let mut space = [0; cmsg_space!(ScmRights(MAX_PACKET_FDS))];
         let mut cmsg_buffer = RecvAncillaryBuffer::new(&mut space);
 
+        // Plain data that fits in a single packet can be received in place
+        let in_place = implements!(T: PlainOldData) && std::mem::size_of::<T>() < MAX_PACKET_SIZE;
+
         loop {
-            if !implements!(T: PlainOldData) {
+            if !in_place {
                 self.buffer.resize(self.data_pos + MAX_PACKET_SIZE - 1, 0);
             }
 
-            let data = if implements!(T: PlainOldData) {
+            let data = if in_place {
                 unsafe {
                     std::slice::from_raw_parts_mut(
                         self.value.as_mut_ptr() as *mut u8,
@@ -188,6 +210,7 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 )
             })?;
 
+            let mut fds = Vec::new();
             for cmsg in cmsg_buffer.drain() {
                 let RecvAncillaryMessage::ScmRights(rights) = cmsg else {
                     return Err(Error::new(
@@ -195,11 +218,11 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                         "Unexpected kind of cmsg on stream",
                     ));
                 };
-                self.fds.extend(rights);
+                fds.extend(rights);
             }
 
             if message.bytes == 0 {
-                if self.data_pos == 0 && self.fds.is_empty() {
+                if !self.in_message {
                     return Ok(None);
                 } else {
                     return Err(Error::new(ErrorKind::Other, "Unterminated data on stream"));
@@ -213,18 +236,42 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 ));
             }
 
-            self.data_pos += message.bytes - 1;
-            if marker[0] != 1 {
+            let data_len = message.bytes - 1;
+            if marker[0] & MARKER_FIRST != 0 {
+                if !in_place {
+                    // If the previous message was abandoned by the sender, forget what it sent
+                    self.buffer
+                        .copy_within(self.data_pos..self.data_pos + data_len, 0);
+                }
+                self.in_message = true;
+                self.data_pos = 0;
+                self.fds.clear();
+            } else if !self.in_message {
+                // This is the rest of a message abandoned by a previous recv
+                continue;
+            }
+
+            self.data_pos += data_len;
+            self.fds.extend(fds);
+            if marker[0] & MARKER_LAST == 0 {
                 continue;
             }
 
             self.terminated = true;
 
-            if implements!(T: PlainOldData) {
+            if in_place {
                 return Ok(Some(unsafe { self.value.assume_init_read() }));
             }
 
             self.buffer.truncate(self.data_pos);
+
+            if implements!(T: PlainOldData) {
+                assert_eq!(self.buffer.len(), std::mem::size_of::<T>());
+                return Ok(Some(unsafe {
+                    (self.buffer.as_ptr() as *const T).read_unaligned()
+                }));
+            }
+
             let buffer = std::mem::take(&mut self.buffer);
             let fds = std::mem::take(&mut self.fds);
             let mut d = Deserializer::new(buffer, fds);
-- 
2.43.0


From 0ef7532b518fb7d80470cd55eb164d022af74540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 04/22] fix: report an error if received file descriptors are
 lost

If the receiver hits the limit on open files, the kernel discards the excess
descriptors and sets MSG_CTRUNC, which was ignored, so deserialization panicked.
---
 src/platform/unix/internals.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/platform/unix/internals.rs b/src/platform/unix/internals.rs
index c7917fd..070ea8e 100644
--- a/src/platform/unix/internals.rs
+++ b/src/platform/unix/internals.rs
@@ -221,6 +221,13 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 fds.extend(rights);
             }
 
+            if message.flags.bits() & libc::MSG_CTRUNC as u32 != 0 {
+                return Err(Error::new(
+                    ErrorKind::Other,
+                    "Not enough file descriptors available to receive the message",
+                ));
+            }
+
             if message.bytes == 0 {
                 if !self.in_message {
                     return Ok(None);
-- 
2.43.0


From ed98cff89a9a88690c68835a997906e14937132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 05/22] fix: support the same handle being passed to a child
 several times

If arguments contain one handle twice, e.g. via an Rc inside and outside of Delayed,
the child created two owners of the same descriptor.
---
 src/platform/unix/entry.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/platform/unix/entry.rs b/src/platform/unix/entry.rs
index 584d531..05c4db6 100644
--- a/src/platform/unix/entry.rs
+++ b/src/platform/unix/entry.rs
@@ -2,7 +2,8 @@ use crate::{
     handles::{AsHandle, AsRawHandle, BorrowedHandle, FromRawHandle, OwnedHandle, RawHandle},
     Deserializer, FnOnceObject, Receiver,
 };
-use rustix::io::{fcntl_setfd, FdFlags};
+use rustix::io::{fcntl_dupfd_cloexec, fcntl_setfd, FdFlags};
+use std::collections::HashSet;
 
 pub(crate) fn start_root() {}
 
@@ -27,10 +28,20 @@ pub(crate) fn crossmist_main(mut args: std::env::Args) -> ! {
 
     std::mem::forget(entry_rx);
 
+    // The same handle may be listed several times, e.g. if it is stored in an Rc, and each occurrence
+    // needs its own handle.
+    let mut seen_handles = HashSet::new();
     let entry_handles = entry_handles
         .into_iter()
-        .map(|handle| unsafe { OwnedHandle::from_raw_handle(handle) })
-        .collect::<Vec<_>>();
+        .map(|handle| {
+            if seen_handles.insert(handle) {
+                Ok(unsafe { OwnedHandle::from_raw_handle(handle) })
+            } else {
+                fcntl_dupfd_cloexec(unsafe { BorrowedHandle::borrow_raw(handle) }, 0)
+            }
+        })
+        .collect::<Result<Vec<_>, _>>()
+        .expect("Failed to duplicate a file descriptor");
 
     for handle in &entry_handles {
         enable_cloexec(handle.as_handle())
-- 
2.43.0


From cf73e17b4a072e6ce2da4a343959b9da6ab4080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 06/22] fix: deliver queued messages after the other side
 closes with unread data

If a duplex is closed with unread messages, the kernel reports ECONNRESET to the other
side once. recv returned this as an error instead of the messages already sent by the
closed side or Ok(None).
---
 src/platform/unix/internals.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/platform/unix/internals.rs b/src/platform/unix/internals.rs
index 070ea8e..0497d84 100644
--- a/src/platform/unix/internals.rs
+++ b/src/platform/unix/internals.rs
@@ -1,7 +1,7 @@
 use crate::{imp::implements, pod::PlainOldData, Deserializer, Object, Serializer};
 use rustix::{
     cmsg_space,
-    io::retry_on_intr,
+    io::{retry_on_intr, Errno},
     net::{
         self, recvmsg, sendmsg, AddressFamily, RecvAncillaryBuffer, RecvAncillaryMessage,
         RecvFlags, SendAncillaryBuffer, SendAncillaryMessage, SendFlags, SocketFlags, SocketType,
@@ -201,14 +201,19 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 IoSliceMut::new(&mut data[self.data_pos..]),
             ];
 
-            let message = retry_on_intr(|| {
-                recvmsg(
-                    self.socket_fd,
-                    &mut iovecs,
-                    &mut cmsg_buffer,
-                    self.flags | RecvFlags::CMSG_CLOEXEC,
-                )
-            })?;
+            let message = match recvmsg(
+                self.socket_fd,
+                &mut iovecs,
+                &mut cmsg_buffer,
+                self.flags | RecvFlags::CMSG_CLOEXEC,
+            ) {
+                // Interrupted by a signal
+                Err(Errno::INTR) => continue,
+                // The other side was closed before reading everything we sent to it. This is
+                // reported just once, and does not affect the messages it sent to us.
+                Err(Errno::CONNRESET) => continue,
+                result => result?,
+            };
 
             let mut fds = Vec::new();
             for cmsg in cmsg_buffer.drain() {
-- 
2.43.0


From 7ad7896aa18c40e09fb78b702c1e60666bab59f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 07/22] fix: reap the child in join even if its value cannot be
 received

join returned early if receiving the value failed, e.g. if the child was killed while
sending it, leaving a zombie process and allowing KillHandle::kill to succeed later.
---
 src/asynchronous.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/asynchronous.rs b/src/asynchronous.rs
index 2f489c1..1ed79be 100644
--- a/src/asynchronous.rs
+++ b/src/asynchronous.rs
@@ -521,11 +521,13 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
     /// it exits via [`std::process::exit`] or alike instead of returning a value, unless the return
     /// type is `()`. In that case, `Ok(())` is returned.
     pub async fn join(mut self) -> Result<T> {
-        let mut value = self.output_rx.recv().await?;
-        if let Some(void) = imp::if_void::<T>() {
+        let mut value = self.output_rx.recv().await;
+        if let (Some(void), Ok(_)) = (imp::if_void::<T>(), &value) {
             // The value should be None at this moment
-            value = Some(void);
+            value = Ok(Some(void));
         }
+        // If receiving the value failed, the child might still be sending it
+        drop(self.output_rx);
         let mut guard = self.may_kill.lock().expect("Kill mutex is poisoned");
         *guard = false;
         // This is synchronous, but should be really fast
@@ -539,7 +541,7 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
             })?
             .unwrap();
             if status.exit_status() == Some(0) {
-                value.ok_or_else(|| {
+                value?.ok_or_else(|| {
                     Error::new(
                         ErrorKind::Other,
                         "The subprocess terminated without returning a value",
@@ -575,7 +577,7 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
                 .ok()?;
             }
             if code == 0 {
-                value.ok_or_else(|| {
+                value?.ok_or_else(|| {
                     Error::new(
                         ErrorKind::Other,
                         "The subprocess terminated without returning a value",
-- 
2.43.0


From df3ad9dc7cf6d2114edec1b6798925ec67e3d7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 08/22] fix: allow killing a child while join waits for it to
 exit

join locked the mutex used by KillHandle::kill while waiting for the process, so a child
that hanged after returning its value could not be killed.
---
 src/asynchronous.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/asynchronous.rs b/src/asynchronous.rs
index 1ed79be..f6f84ae 100644
--- a/src/asynchronous.rs
+++ b/src/asynchronous.rs
@@ -528,6 +528,16 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
         }
         // If receiving the value failed, the child might still be sending it
         drop(self.output_rx);
+        // The child might still be running at this point, so wait without preventing it from being
+        // killed. Don't reap it yet: the PID must not be reused while kill is permitted. Errors, if
+        // any, are going to be reported by waitpid below.
+        #[cfg(unix)]
+        let _ = rustix::io::retry_on_intr(|| {
+            rustix::process::waitid(
+                rustix::process::WaitId::Pid(self.proc_handle),
+                rustix::process::WaitidOptions::EXITED | rustix::process::WaitidOptions::NOWAIT,
+            )
+        });
         let mut guard = self.may_kill.lock().expect("Kill mutex is poisoned");
         *guard = false;
         // This is synchronous, but should be really fast
-- 
2.43.0


From ce7ea0c77cd4760b515f5ee427306ff662a37ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 09/22] fix: reap the child if passing arguments to it fails

spawn returned an error without waiting for the process, e.g. if it failed to execute,
which left a zombie that could not be reaped.
---
 src/asynchronous.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/asynchronous.rs b/src/asynchronous.rs
index f6f84ae..90e34d4 100644
--- a/src/asynchronous.rs
+++ b/src/asynchronous.rs
@@ -662,7 +662,17 @@ pub(crate) async unsafe fn spawn<Stream: AsyncStream, T: Object>(
     #[cfg(unix)]
     {
         process_handle = subprocess::_spawn_child(child, &handles)?;
-        local.send(&(s.into_vec(), raw_handles)).await?;
+        if let Err(e) = local.send(&(s.into_vec(), raw_handles)).await {
+            // The child either is dead or will terminate when it notices the connection is closed
+            drop(local);
+            let _ = rustix::io::retry_on_intr(|| {
+                rustix::process::waitpid(
+                    Some(process_handle),
+                    rustix::process::WaitOptions::empty(),
+                )
+            });
+            return Err(e);
+        }
         receiver = Receiver::from_stream(local.fd);
     }
 
-- 
2.43.0


From 80badd3a6902908cdd95828ce23095c3eaf7b512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 10/22] fix: support enum fields named `s` in derive(Object)

Such a field shadowed the serializer in the generated code, which failed to compile.
---
 crossmist-derive/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crossmist-derive/src/lib.rs b/crossmist-derive/src/lib.rs
index 6e88a70..a001512 100644
--- a/crossmist-derive/src/lib.rs
+++ b/crossmist-derive/src/lib.rs
@@ -426,9 +426,12 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
                         let (refs, sers): (Vec<_>, Vec<_>) = fields
                             .named
                             .iter()
-                            .map(|field| {
+                            .enumerate()
+                            .map(|(i, field)| {
                                 let ident = &field.ident;
-                                (quote! { ref #ident }, quote! { s.serialize(#ident); })
+                                // Don't name the variable after the field, as it may be called `s`
+                                let var = format_ident!("a{}", i);
+                                (quote! { #ident: ref #var }, quote! { s.serialize(#var); })
                             })
                             .unzip();
                         quote! {
-- 
2.43.0


From 84807efc3b2c67129499525dd69eeb5f4b2a6ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 11/22] fix: number cyclic objects inside temporary objects
 consistently

---
 src/serde.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 4bf2a10..d16dc53 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -22,6 +22,7 @@ pub struct Serializer<'fd> {
     data: Vec<u8>,
     handles: Vec<BorrowedHandle<'fd>>,
     cyclic_ids: HashMap<*const c_void, NonZeroUsize>,
+    cyclic_count: usize,
 }
 
 impl<'fd> Serializer<'fd> {
@@ -31,6 +32,7 @@ impl<'fd> Serializer<'fd> {
             data: Vec::new(),
             handles: Vec::new(),
             cyclic_ids: HashMap::new(),
+            cyclic_count: 0,
         }
     }
 
@@ -55,11 +57,20 @@ impl<'fd> Serializer<'fd> {
     /// Panics if the object contains file handles.
     pub fn serialize_temporary<T: Object>(&mut self, data: T) {
         let mut s1 = Serializer::new();
+        s1.cyclic_ids = std::mem::take(&mut self.cyclic_ids);
+        s1.cyclic_count = self.cyclic_count;
         s1.serialize(&data);
         assert!(
             s1.handles.is_empty(),
             "serialize_temporary invoked with an object containing file handles"
         );
+        if s1.cyclic_count > self.cyclic_count {
+            // The IDs of the cyclic objects inside the temporary object are taken, but the objects
+            // must be forgotten, as others may appear at the same addresses after they are dropped
+            s1.cyclic_ids.retain(|_, id| id.get() <= self.cyclic_count);
+            self.cyclic_count = s1.cyclic_count;
+        }
+        self.cyclic_ids = std::mem::take(&mut s1.cyclic_ids);
         self.write(&s1.into_vec());
     }
 
@@ -75,11 +86,12 @@ impl<'fd> Serializer<'fd> {
 
     /// Check if an object has already been serialized in this session and return its index.
     pub fn learn_cyclic(&mut self, ptr: *const c_void) -> Option<NonZeroUsize> {
-        let len_before = self.cyclic_ids.len();
         match self.cyclic_ids.entry(ptr) {
             hash_map::Entry::Occupied(occupied) => Some(*occupied.get()),
             hash_map::Entry::Vacant(vacant) => {
-                vacant.insert(NonZeroUsize::new(len_before + 1).expect("Too many cyclic objects"));
+                self.cyclic_count += 1;
+                vacant
+                    .insert(NonZeroUsize::new(self.cyclic_count).expect("Too many cyclic objects"));
                 None
             }
         }
-- 
2.43.0


From 2a3d0243a7e8714f4bc51e5c7b2911daa04f64a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 12/22] fix: support generic functions whose parameters have
 bounds in any position

---
 crossmist-derive/src/lib.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/crossmist-derive/src/lib.rs b/crossmist-derive/src/lib.rs
index a001512..742812b 100644
--- a/crossmist-derive/src/lib.rs
+++ b/crossmist-derive/src/lib.rs
@@ -101,7 +101,6 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
     let mut extracted_args = Vec::new();
     let mut arg_names = Vec::new();
     let mut args_from_tuple = Vec::new();
-    let mut binding = Vec::new();
     let mut has_references = false;
     for (i, arg) in args.iter().enumerate() {
         let i = syn::Index::from(i);
@@ -115,7 +114,6 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
                 extracted_args.push(quote! { crossmist_args.#ident });
                 arg_names.push(quote! { #ident });
                 args_from_tuple.push(quote! { args.#i });
-                binding.push(quote! { .bind_value(#ident) });
                 has_references = has_references
                     || matches!(**ty, syn::Type::Reference(_))
                     || matches!(
@@ -131,17 +129,15 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
         }
     }
 
-    let bound = if args.is_empty() {
-        quote! { #ident }
-    } else {
-        let head_ty = &fn_types[0];
-        let tail_ty = &fn_types[1..];
-        let head_arg = &arg_names[0];
-        let tail_binding = &binding[1..];
-        quote! {
-            BindValue::<#head_ty, (#(#tail_ty,)*)>::bind_value(::std::boxed::Box::new(#ident), #head_arg) #(#tail_binding)*
-        }
-    };
+    let mut bound = quote! { #ident };
+    if !args.is_empty() {
+        bound = quote! { ::std::boxed::Box::new(#bound) };
+    }
+    for (i, (ty, arg)) in fn_types.iter().zip(&arg_names).enumerate() {
+        // Name all types, because they cannot always be inferred if the function is generic
+        let tail_ty = &fn_types[i + 1..];
+        bound = quote! { BindValue::<#ty, (#(#tail_ty,)*)>::bind_value(#bound, #arg) };
+    }
 
     let return_type_wrapped;
     let pin;
-- 
2.43.0


From 1a21f499db9b9cd263e6ba4a3436fbbb6bbf793b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:04 +0000
Subject: [PATCH 13/22] fix: support enums without variants in derive(Object)

---
 crossmist-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crossmist-derive/src/lib.rs b/crossmist-derive/src/lib.rs
index 742812b..134b4bb 100644
--- a/crossmist-derive/src/lib.rs
+++ b/crossmist-derive/src/lib.rs
@@ -501,7 +501,7 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
             quote! {
                 unsafe impl #generics_impl ::crossmist::NonTrivialObject for #ident #generics #generics_where {
                     fn serialize_self_non_trivial<'serde>(&'serde self, s: &mut ::crossmist::Serializer<'serde>) {
-                        match self {
+                        match *self {
                             #(#serialize_variants,)*
                         }
                     }
-- 
2.43.0


From 82135a60cd496b78d44c4ca863f5754985fa9741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:01 +0000
Subject: [PATCH 14/22] fix: derive(Object) for types with default generic
 parameters

---
 crossmist-derive/src/lib.rs | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/crossmist-derive/src/lib.rs b/crossmist-derive/src/lib.rs
index 134b4bb..ff61321 100644
--- a/crossmist-derive/src/lib.rs
+++ b/crossmist-derive/src/lib.rs
@@ -315,24 +315,8 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
 
     let ident = &input.ident;
 
-    let generics = {
-        let params: Vec<_> = input
-            .generics
-            .params
-            .iter()
-            .map(|param| match param {
-                syn::GenericParam::Type(ref ty) => ty.ident.to_token_stream(),
-                syn::GenericParam::Lifetime(ref lt) => lt.lifetime.to_token_stream(),
-                syn::GenericParam::Const(ref con) => con.ident.to_token_stream(),
-            })
-            .collect();
-        quote! { <#(#params,)*> }
-    };
-
-    let generic_params = &input.generics.params;
-    let generics_impl = quote! { <#generic_params> };
-
-    let generics_where = input.generics.where_clause;
+    // Unlike the parameters as written, these don't include defaults
+    let (generics_impl, generics, generics_where) = input.generics.split_for_impl();
 
     let expanded = match input.data {
         syn::Data::Struct(struct_) => {
@@ -387,7 +371,7 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
             };
 
             let generics_where_pod: Vec<_> = match generics_where {
-                Some(ref w) => w.predicates.iter().collect(),
+                Some(w) => w.predicates.iter().collect(),
                 None => Vec::new(),
             };
             let generics_where_pod = quote! {
@@ -489,7 +473,7 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
             });
 
             let generics_where_pod: Vec<_> = match generics_where {
-                Some(ref w) => w.predicates.iter().collect(),
+                Some(w) => w.predicates.iter().collect(),
                 None => Vec::new(),
             };
             let generics_where_pod = quote! {
-- 
2.43.0


From 0e5b0cf28dc44ab6def13fa47f30e6ad49c46d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:34 +0000
Subject: [PATCH 15/22] fix: names in code generated by #[func] and
 derive(Object) do not clash with functions of the user

---
 crossmist-derive/src/lib.rs | 72 ++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/crossmist-derive/src/lib.rs b/crossmist-derive/src/lib.rs
index ff61321..b1afd07 100644
--- a/crossmist-derive/src/lib.rs
+++ b/crossmist-derive/src/lib.rs
@@ -113,7 +113,7 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
                 fn_types.push(quote! { #ty });
                 extracted_args.push(quote! { crossmist_args.#ident });
                 arg_names.push(quote! { #ident });
-                args_from_tuple.push(quote! { args.#i });
+                args_from_tuple.push(quote! { crossmist_args.#i });
                 has_references = has_references
                     || matches!(**ty, syn::Type::Reference(_))
                     || matches!(
@@ -160,8 +160,8 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
         };
         body = quote! {
             #async_attribute
-            async fn body #generic_params (entry: #entry_ident #generics) -> #return_type {
-                entry.func.deserialize().expect("Failed to deserialize entry").call_object_box(()).await
+            async fn body #generic_params (crossmist_entry: #entry_ident #generics) -> #return_type {
+                crossmist_entry.func.deserialize().expect("Failed to deserialize entry").call_object_box(()).await
             }
         };
     } else if let Some(arg) = smol_argument {
@@ -172,14 +172,14 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
             }
         }
         body = quote! {
-            fn body #generic_params (entry: #entry_ident #generics) -> #return_type {
-                ::crossmist::imp::async_io::block_on(entry.func.deserialize().expect("Failed to deserialize entry").call_object_box(()))
+            fn body #generic_params (crossmist_entry: #entry_ident #generics) -> #return_type {
+                ::crossmist::imp::async_io::block_on(crossmist_entry.func.deserialize().expect("Failed to deserialize entry").call_object_box(()))
             }
         };
     } else {
         body = quote! {
-            fn body #generic_params (entry: #entry_ident #generics) -> #return_type {
-                entry.func.deserialize().expect("Failed to deserialize entry").call_object_box(())
+            fn body #generic_params (crossmist_entry: #entry_ident #generics) -> #return_type {
+                crossmist_entry.func.deserialize().expect("Failed to deserialize entry").call_object_box(())
             }
         };
     }
@@ -226,9 +226,9 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
         }
 
         impl #generic_params #entry_ident #generics {
-            fn new(func: ::std::boxed::Box<dyn ::crossmist::FnOnceObject<(), Output = #return_type_wrapped>>) -> Self {
+            fn new(crossmist_func: ::std::boxed::Box<dyn ::crossmist::FnOnceObject<(), Output = #return_type_wrapped>>) -> Self {
                 Self {
-                    func: ::crossmist::Delayed::new(func),
+                    func: ::crossmist::Delayed::new(crossmist_func),
                     #(#generic_phantom_build,)*
                 }
             }
@@ -237,19 +237,19 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
         impl #generic_params ::crossmist::InternalFnOnce<(::crossmist::handles::RawHandle,)> for #entry_ident #generics {
             type Output = i32;
             #[allow(unreachable_code, clippy::diverging_sub_expression)] // If func returns !
-            fn call_object_once(self, args: (::crossmist::handles::RawHandle,)) -> Self::Output {
+            fn call_object_once(self, crossmist_args: (::crossmist::handles::RawHandle,)) -> Self::Output {
                 #body
-                let return_value = body(self);
+                let crossmist_return_value = body(self);
                 // Avoid explicitly sending a () result
                 if ::crossmist::imp::if_void::<#return_type>().is_none() {
                     use ::crossmist::handles::FromRawHandle;
                     // If this function is async, there shouldn't be any task running at this
                     // moment, so it is fine (and more efficient) to use a sync sender
-                    let output_tx_handle = args.0;
-                    let mut output_tx = unsafe {
-                        ::crossmist::Sender::<#return_type>::from_raw_handle(output_tx_handle)
+                    let crossmist_output_tx_handle = crossmist_args.0;
+                    let mut crossmist_output_tx = unsafe {
+                        ::crossmist::Sender::<#return_type>::from_raw_handle(crossmist_output_tx_handle)
                     };
-                    output_tx.send(&return_value)
+                    crossmist_output_tx.send(&crossmist_return_value)
                         .expect("Failed to send subprocess output");
                 }
                 0
@@ -258,17 +258,17 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
 
         impl #generic_params ::crossmist::InternalFnOnce<(#(#fn_types,)*)> for #type_ident {
             type Output = #return_type_wrapped;
-            fn call_object_once(self, args: (#(#fn_types,)*)) -> Self::Output {
+            fn call_object_once(self, crossmist_args: (#(#fn_types,)*)) -> Self::Output {
                 #pin(#type_ident::invoke(#(#args_from_tuple,)*))
             }
         }
         impl #generic_params ::crossmist::InternalFnMut<(#(#fn_types,)*)> for #type_ident {
-            fn call_object_mut(&mut self, args: (#(#fn_types,)*)) -> Self::Output {
+            fn call_object_mut(&mut self, crossmist_args: (#(#fn_types,)*)) -> Self::Output {
                 #pin(#type_ident::invoke(#(#args_from_tuple,)*))
             }
         }
         impl #generic_params ::crossmist::InternalFn<(#(#fn_types,)*)> for #type_ident {
-            fn call_object(&self, args: (#(#fn_types,)*)) -> Self::Output {
+            fn call_object(&self, crossmist_args: (#(#fn_types,)*)) -> Self::Output {
                 #pin(#type_ident::invoke(#(#args_from_tuple,)*))
             }
         }
@@ -329,7 +329,7 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
                     .map(|field| {
                         let ident = &field.ident;
                         quote! {
-                            s.serialize(&self.#ident);
+                            crossmist_s.serialize(&self.#ident);
                         }
                     })
                     .collect(),
@@ -340,7 +340,7 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
                     .map(|(i, _)| {
                         let i = syn::Index::from(i);
                         quote! {
-                            s.serialize(&self.#i);
+                            crossmist_s.serialize(&self.#i);
                         }
                     })
                     .collect(),
@@ -352,7 +352,7 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
                     let deserialize_fields = fields.named.iter().map(|field| {
                         let ident = &field.ident;
                         quote! {
-                            #ident: unsafe { d.deserialize() }?,
+                            #ident: unsafe { crossmist_d.deserialize() }?,
                         }
                     });
                     quote! { Ok(Self { #(#deserialize_fields)* }) }
@@ -360,7 +360,7 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
                 syn::Fields::Unnamed(ref fields) => {
                     let deserialize_fields = fields.unnamed.iter().map(|_| {
                         quote! {
-                            unsafe { d.deserialize() }?,
+                            unsafe { crossmist_d.deserialize() }?,
                         }
                     });
                     quote! { Ok(Self (#(#deserialize_fields)*)) }
@@ -382,10 +382,10 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
 
             quote! {
                 unsafe impl #generics_impl ::crossmist::NonTrivialObject for #ident #generics #generics_where {
-                    fn serialize_self_non_trivial<'serde>(&'serde self, s: &mut ::crossmist::Serializer<'serde>) {
+                    fn serialize_self_non_trivial<'serde>(&'serde self, crossmist_s: &mut ::crossmist::Serializer<'serde>) {
                         #(#serialize_fields)*
                     }
-                    unsafe fn deserialize_self_non_trivial(d: &mut ::crossmist::Deserializer) -> ::std::io::Result<Self> {
+                    unsafe fn deserialize_self_non_trivial(crossmist_d: &mut ::crossmist::Deserializer) -> ::std::io::Result<Self> {
                         #deserialize_fields
                     }
                 }
@@ -410,13 +410,13 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
                             .map(|(i, field)| {
                                 let ident = &field.ident;
                                 // Don't name the variable after the field, as it may be called `s`
-                                let var = format_ident!("a{}", i);
-                                (quote! { #ident: ref #var }, quote! { s.serialize(#var); })
+                                let var = format_ident!("crossmist_a{}", i);
+                                (quote! { #ident: ref #var }, quote! { crossmist_s.serialize(#var); })
                             })
                             .unzip();
                         quote! {
                             Self::#ident{ #(#refs,)* } => {
-                                s.serialize(&(#i as usize));
+                                crossmist_s.serialize(&(#i as usize));
                                 #(#sers)*
                             }
                         }
@@ -424,13 +424,13 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
                     syn::Fields::Unnamed(fields) => {
                         let (refs, sers): (Vec<_>, Vec<_>) = (0..fields.unnamed.len())
                             .map(|i| {
-                                let ident = format_ident!("a{}", i);
-                                (quote! { ref #ident }, quote! { s.serialize(#ident); })
+                                let ident = format_ident!("crossmist_a{}", i);
+                                (quote! { ref #ident }, quote! { crossmist_s.serialize(#ident); })
                             })
                             .unzip();
                         quote! {
                             Self::#ident(#(#refs,)*) => {
-                                s.serialize(&(#i as usize));
+                                crossmist_s.serialize(&(#i as usize));
                                 #(#sers)*
                             }
                         }
@@ -438,7 +438,7 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
                     syn::Fields::Unit => {
                         quote! {
                             Self::#ident => {
-                                s.serialize(&(#i as usize));
+                                crossmist_s.serialize(&(#i as usize));
                             }
                         }
                     }
@@ -455,14 +455,14 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
                             .iter()
                             .map(|field| {
                                 let ident = &field.ident;
-                                quote! { #ident: unsafe { d.deserialize() }? }
+                                quote! { #ident: unsafe { crossmist_d.deserialize() }? }
                             })
                             .collect();
                         quote! { #i => Ok(Self::#ident{ #(#des,)* }) }
                     }
                     syn::Fields::Unnamed(fields) => {
                         let des: Vec<_> = (0..fields.unnamed.len())
-                            .map(|_| quote! { unsafe { d.deserialize() }? })
+                            .map(|_| quote! { unsafe { crossmist_d.deserialize() }? })
                             .collect();
                         quote! { #i => Ok(Self::#ident(#(#des,)*)) }
                     }
@@ -484,13 +484,13 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
 
             quote! {
                 unsafe impl #generics_impl ::crossmist::NonTrivialObject for #ident #generics #generics_where {
-                    fn serialize_self_non_trivial<'serde>(&'serde self, s: &mut ::crossmist::Serializer<'serde>) {
+                    fn serialize_self_non_trivial<'serde>(&'serde self, crossmist_s: &mut ::crossmist::Serializer<'serde>) {
                         match *self {
                             #(#serialize_variants,)*
                         }
                     }
-                    unsafe fn deserialize_self_non_trivial(d: &mut ::crossmist::Deserializer) -> ::std::io::Result<Self> {
-                        match d.deserialize::<usize>()? {
+                    unsafe fn deserialize_self_non_trivial(crossmist_d: &mut ::crossmist::Deserializer) -> ::std::io::Result<Self> {
+                        match crossmist_d.deserialize::<usize>()? {
                             #(#deserialize_variants,)*
                             _ => panic!("Unexpected enum variant"),
                         }
-- 
2.43.0


From 2dab376e2060dc3277b4dfd1e26c56eae27759bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:51 +0000
Subject: [PATCH 16/22] fix: support #[func] functions with raw identifiers as
 names

---
 crossmist-derive/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crossmist-derive/src/lib.rs b/crossmist-derive/src/lib.rs
index b1afd07..070d8be 100644
--- a/crossmist-derive/src/lib.rs
+++ b/crossmist-derive/src/lib.rs
@@ -3,6 +3,7 @@ extern crate quote;
 
 use proc_macro::TokenStream;
 use quote::ToTokens;
+use syn::ext::IdentExt;
 use syn::parse_macro_input;
 use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
@@ -80,7 +81,8 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
     // Pray all &input are distinct
     let link_name = format!(
         "crossmist_{}_{:?}",
-        input.sig.ident, &input as *const syn::ItemFn,
+        input.sig.ident.unraw(),
+        &input as *const syn::ItemFn,
     );
 
     let type_ident = format_ident!("T_{}", link_name);
-- 
2.43.0


From ab1968c50a2844925ef2ba7995cd641366c3ae2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:09 +0000
Subject: [PATCH 17/22] fix: support where clauses of #[func] functions

---
 crossmist-derive/src/lib.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/crossmist-derive/src/lib.rs b/crossmist-derive/src/lib.rs
index 070d8be..48ab011 100644
--- a/crossmist-derive/src/lib.rs
+++ b/crossmist-derive/src/lib.rs
@@ -34,6 +34,7 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
     };
 
     let generic_params = &input.sig.generics;
+    let generics_where = &input.sig.generics.where_clause;
     let generics = {
         let params: Vec<_> = input
             .sig
@@ -162,7 +163,7 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
         };
         body = quote! {
             #async_attribute
-            async fn body #generic_params (crossmist_entry: #entry_ident #generics) -> #return_type {
+            async fn body #generic_params (crossmist_entry: #entry_ident #generics) -> #return_type #generics_where {
                 crossmist_entry.func.deserialize().expect("Failed to deserialize entry").call_object_box(()).await
             }
         };
@@ -174,13 +175,13 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
             }
         }
         body = quote! {
-            fn body #generic_params (crossmist_entry: #entry_ident #generics) -> #return_type {
+            fn body #generic_params (crossmist_entry: #entry_ident #generics) -> #return_type #generics_where {
                 ::crossmist::imp::async_io::block_on(crossmist_entry.func.deserialize().expect("Failed to deserialize entry").call_object_box(()))
             }
         };
     } else {
         body = quote! {
-            fn body #generic_params (crossmist_entry: #entry_ident #generics) -> #return_type {
+            fn body #generic_params (crossmist_entry: #entry_ident #generics) -> #return_type #generics_where {
                 crossmist_entry.func.deserialize().expect("Failed to deserialize entry").call_object_box(())
             }
         };
@@ -190,30 +191,30 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
         quote! {}
     } else {
         quote! {
-            pub fn spawn #generic_params(&self, #(#fn_args,)*) -> ::std::io::Result<::crossmist::Child<#return_type>> {
+            pub fn spawn #generic_params(&self, #(#fn_args,)*) -> ::std::io::Result<::crossmist::Child<#return_type>> #generics_where {
                 use ::crossmist::BindValue;
                 unsafe { ::crossmist::blocking::spawn(::std::boxed::Box::new(::crossmist::CallWrapper(#entry_ident:: #generics ::new(::std::boxed::Box::new(#bound))))) }
             }
-            pub fn run #generic_params(&self, #(#fn_args,)*) -> ::std::io::Result<#return_type> {
+            pub fn run #generic_params(&self, #(#fn_args,)*) -> ::std::io::Result<#return_type> #generics_where {
                 self.spawn(#(#arg_names,)*)?.join()
             }
 
             ::crossmist::if_tokio! {
-                pub async fn spawn_tokio #generic_params(&self, #(#fn_args,)*) -> ::std::io::Result<::crossmist::tokio::Child<#return_type>> {
+                pub async fn spawn_tokio #generic_params(&self, #(#fn_args,)*) -> ::std::io::Result<::crossmist::tokio::Child<#return_type>> #generics_where {
                     use ::crossmist::BindValue;
                     unsafe { ::crossmist::tokio::spawn(::std::boxed::Box::new(::crossmist::CallWrapper(#entry_ident:: #generics ::new(::std::boxed::Box::new(#bound))))).await }
                 }
-                pub async fn run_tokio #generic_params(&self, #(#fn_args,)*) -> ::std::io::Result<#return_type> {
+                pub async fn run_tokio #generic_params(&self, #(#fn_args,)*) -> ::std::io::Result<#return_type> #generics_where {
                     self.spawn_tokio(#(#arg_names,)*).await?.join().await
                 }
             }
 
             ::crossmist::if_smol! {
-                pub async fn spawn_smol #generic_params(&self, #(#fn_args,)*) -> ::std::io::Result<::crossmist::smol::Child<#return_type>> {
+                pub async fn spawn_smol #generic_params(&self, #(#fn_args,)*) -> ::std::io::Result<::crossmist::smol::Child<#return_type>> #generics_where {
                     use ::crossmist::BindValue;
                     unsafe { ::crossmist::smol::spawn(::std::boxed::Box::new(::crossmist::CallWrapper(#entry_ident:: #generics ::new(::std::boxed::Box::new(#bound))))).await }
                 }
-                pub async fn run_smol #generic_params(&self, #(#fn_args,)*) -> ::std::io::Result<#return_type> {
+                pub async fn run_smol #generic_params(&self, #(#fn_args,)*) -> ::std::io::Result<#return_type> #generics_where {
                     self.spawn_smol(#(#arg_names,)*).await?.join().await
                 }
             }
@@ -222,12 +223,12 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
 
     let expanded = quote! {
         #[derive(::crossmist::Object)]
-        struct #entry_ident #generic_params {
+        struct #entry_ident #generic_params #generics_where {
             func: ::crossmist::Delayed<::std::boxed::Box<dyn ::crossmist::FnOnceObject<(), Output = #return_type_wrapped>>>,
             #(#generic_phantom,)*
         }
 
-        impl #generic_params #entry_ident #generics {
+        impl #generic_params #entry_ident #generics #generics_where {
             fn new(crossmist_func: ::std::boxed::Box<dyn ::crossmist::FnOnceObject<(), Output = #return_type_wrapped>>) -> Self {
                 Self {
                     func: ::crossmist::Delayed::new(crossmist_func),
@@ -236,7 +237,7 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
             }
         }
 
-        impl #generic_params ::crossmist::InternalFnOnce<(::crossmist::handles::RawHandle,)> for #entry_ident #generics {
+        impl #generic_params ::crossmist::InternalFnOnce<(::crossmist::handles::RawHandle,)> for #entry_ident #generics #generics_where {
             type Output = i32;
             #[allow(unreachable_code, clippy::diverging_sub_expression)] // If func returns !
             fn call_object_once(self, crossmist_args: (::crossmist::handles::RawHandle,)) -> Self::Output {
@@ -258,18 +259,18 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
             }
         }
 
-        impl #generic_params ::crossmist::InternalFnOnce<(#(#fn_types,)*)> for #type_ident {
+        impl #generic_params ::crossmist::InternalFnOnce<(#(#fn_types,)*)> for #type_ident #generics_where {
             type Output = #return_type_wrapped;
             fn call_object_once(self, crossmist_args: (#(#fn_types,)*)) -> Self::Output {
                 #pin(#type_ident::invoke(#(#args_from_tuple,)*))
             }
         }
-        impl #generic_params ::crossmist::InternalFnMut<(#(#fn_types,)*)> for #type_ident {
+        impl #generic_params ::crossmist::InternalFnMut<(#(#fn_types,)*)> for #type_ident #generics_where {
             fn call_object_mut(&mut self, crossmist_args: (#(#fn_types,)*)) -> Self::Output {
                 #pin(#type_ident::invoke(#(#args_from_tuple,)*))
             }
         }
-        impl #generic_params ::crossmist::InternalFn<(#(#fn_types,)*)> for #type_ident {
+        impl #generic_params ::crossmist::InternalFn<(#(#fn_types,)*)> for #type_ident #generics_where {
             fn call_object(&self, crossmist_args: (#(#fn_types,)*)) -> Self::Output {
                 #pin(#type_ident::invoke(#(#args_from_tuple,)*))
             }
-- 
2.43.0


From 01e3587f1884826c43ad36edd67d0d136d55989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:06 +0000
Subject: [PATCH 18/22] fix: support several lifetime parameters in #[func]

---
 crossmist-derive/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crossmist-derive/src/lib.rs b/crossmist-derive/src/lib.rs
index 48ab011..2525b58 100644
--- a/crossmist-derive/src/lib.rs
+++ b/crossmist-derive/src/lib.rs
@@ -64,7 +64,9 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
                 }
                 syn::GenericParam::Lifetime(ref lt) => {
                     let lt = &lt.lifetime;
-                    quote! { #field: std::marker::PhantomData<& #lt ()> }
+                    // The types must differ by more than lifetimes, or bounds generated by
+                    // derive(Object) are ambiguous if there are several
+                    quote! { #field: std::marker::PhantomData<[& #lt (); #i]> }
                 }
                 syn::GenericParam::Const(ref _con) => {
                     unimplemented!()
-- 
2.43.0


From 2aab8260a20421489fedf0033621acc29de92a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:41 +0000
Subject: [PATCH 19/22] fix: programs whose name is not valid Unicode panicked
 in init

---
 src/imp.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/imp.rs b/src/imp.rs
index fef3932..61883da 100644
--- a/src/imp.rs
+++ b/src/imp.rs
@@ -100,11 +100,11 @@ pub fn init() {
         return;
     }
 
-    let mut args = std::env::args();
-    if let Some(s) = args.next() {
-        if s == "_crossmist_" {
-            entry::crossmist_main(args);
-        }
+    // The name and the arguments of the root process are not necessarily valid Unicode
+    if std::env::args_os().next().is_some_and(|s| s == "_crossmist_") {
+        let mut args = std::env::args();
+        args.next();
+        entry::crossmist_main(args);
     }
 
     entry::start_root();
-- 
2.43.0


From cd0ef10e577c624752639331dc482bada9d501d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:08 +0000
Subject: [PATCH 20/22] fix: do not close the connection to the parent twice in
 a child which panics

The main function of a child kept an OwnedHandle for the connection while the entry made a Sender
of the same descriptor. When sending the result failed (e.g. because the parent had dropped the
Child), or the task could not be received, unwinding closed the descriptor twice: another
descriptor opened by a different thread in between would be closed, and builds with debug
assertions abort.
---
 src/platform/unix/entry.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/platform/unix/entry.rs b/src/platform/unix/entry.rs
index 05c4db6..237e639 100644
--- a/src/platform/unix/entry.rs
+++ b/src/platform/unix/entry.rs
@@ -1,5 +1,5 @@
 use crate::{
-    handles::{AsHandle, AsRawHandle, BorrowedHandle, FromRawHandle, OwnedHandle, RawHandle},
+    handles::{AsHandle, BorrowedHandle, FromRawHandle, IntoRawHandle, OwnedHandle, RawHandle},
     Deserializer, FnOnceObject, Receiver,
 };
 use rustix::io::{fcntl_dupfd_cloexec, fcntl_setfd, FdFlags};
@@ -18,8 +18,11 @@ pub(crate) fn crossmist_main(mut args: std::env::Args) -> ! {
 
     enable_cloexec(handle.as_handle()).expect("Failed to set O_CLOEXEC for the file descriptor");
 
-    let mut entry_rx =
-        unsafe { Receiver::<(Vec<u8>, Vec<RawHandle>)>::from_raw_handle(handle.as_raw_handle()) };
+    // From now on, the handle is owned by entry_rx, and then by the entry. If it was also owned here,
+    // it would be closed twice if the entry panicked.
+    let handle = handle.into_raw_handle();
+
+    let mut entry_rx = unsafe { Receiver::<(Vec<u8>, Vec<RawHandle>)>::from_raw_handle(handle) };
 
     let (entry_data, entry_handles) = entry_rx
         .recv()
@@ -51,7 +54,7 @@ pub(crate) fn crossmist_main(mut args: std::env::Args) -> ! {
     let mut deserializer = Deserializer::new(entry_data, entry_handles);
     let entry: Box<dyn FnOnceObject<(RawHandle,), Output = i32>> =
         unsafe { deserializer.deserialize() }.expect("Failed to deserialize entry");
-    std::process::exit(entry.call_object_once((handle.as_raw_handle(),)))
+    std::process::exit(entry.call_object_once((handle,)))
 }
 
 unsafe fn parse_handle(s: &str) -> OwnedHandle {
-- 
2.43.0


From eb8c4b76dc08ad579d4c5ad301836e3f84777929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:24 +0000
Subject: [PATCH 21/22] fix: derive(Object) and #[func] do not clash with names
 such as Ok in scope

---
 crossmist-derive/src/lib.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crossmist-derive/src/lib.rs b/crossmist-derive/src/lib.rs
index 2525b58..6da2a48 100644
--- a/crossmist-derive/src/lib.rs
+++ b/crossmist-derive/src/lib.rs
@@ -60,13 +60,13 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
             match param {
                 syn::GenericParam::Type(ref ty) => {
                     let ident = &ty.ident;
-                    quote! { #field: std::marker::PhantomData<fn(#ident) -> #ident> }
+                    quote! { #field: ::std::marker::PhantomData<fn(#ident) -> #ident> }
                 }
                 syn::GenericParam::Lifetime(ref lt) => {
                     let lt = &lt.lifetime;
                     // The types must differ by more than lifetimes, or bounds generated by
                     // derive(Object) are ambiguous if there are several
-                    quote! { #field: std::marker::PhantomData<[& #lt (); #i]> }
+                    quote! { #field: ::std::marker::PhantomData<[& #lt (); #i]> }
                 }
                 syn::GenericParam::Const(ref _con) => {
                     unimplemented!()
@@ -77,7 +77,7 @@ pub fn func(meta: TokenStream, input: TokenStream) -> TokenStream {
     let generic_phantom_build: Vec<_> = (0..input.sig.generics.params.len())
         .map(|i| {
             let field = format_ident!("f{}", i);
-            quote! { #field: std::marker::PhantomData }
+            quote! { #field: ::std::marker::PhantomData }
         })
         .collect();
 
@@ -360,7 +360,7 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
                             #ident: unsafe { crossmist_d.deserialize() }?,
                         }
                     });
-                    quote! { Ok(Self { #(#deserialize_fields)* }) }
+                    quote! { ::std::result::Result::Ok(Self { #(#deserialize_fields)* }) }
                 }
                 syn::Fields::Unnamed(ref fields) => {
                     let deserialize_fields = fields.unnamed.iter().map(|_| {
@@ -368,10 +368,10 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
                             unsafe { crossmist_d.deserialize() }?,
                         }
                     });
-                    quote! { Ok(Self (#(#deserialize_fields)*)) }
+                    quote! { ::std::result::Result::Ok(Self (#(#deserialize_fields)*)) }
                 }
                 syn::Fields::Unit => {
-                    quote! { Ok(Self) }
+                    quote! { ::std::result::Result::Ok(Self) }
                 }
             };
 
@@ -463,16 +463,16 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
                                 quote! { #ident: unsafe { crossmist_d.deserialize() }? }
                             })
                             .collect();
-                        quote! { #i => Ok(Self::#ident{ #(#des,)* }) }
+                        quote! { #i => ::std::result::Result::Ok(Self::#ident{ #(#des,)* }) }
                     }
                     syn::Fields::Unnamed(fields) => {
                         let des: Vec<_> = (0..fields.unnamed.len())
                             .map(|_| quote! { unsafe { crossmist_d.deserialize() }? })
                             .collect();
-                        quote! { #i => Ok(Self::#ident(#(#des,)*)) }
+                        quote! { #i => ::std::result::Result::Ok(Self::#ident(#(#des,)*)) }
                     }
                     syn::Fields::Unit => {
-                        quote! { #i => Ok(Self::#ident) }
+                        quote! { #i => ::std::result::Result::Ok(Self::#ident) }
                     }
                 }
             });
-- 
2.43.0


From 6a50aa905837a52fe203ea7ef8838f36f47077be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:04 +0000
Subject: [PATCH 22/22] fix: do not corrupt the memory of the parent when exec
 fails and stderr cannot be written

---
 src/platform/unix/subprocess.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/platform/unix/subprocess.rs b/src/platform/unix/subprocess.rs
index c49fb2b..4e2127e 100644
--- a/src/platform/unix/subprocess.rs
+++ b/src/platform/unix/subprocess.rs
@@ -2,7 +2,7 @@ use crate::{asynchronous::AsyncStream, entry, Duplex, Object};
 use libc::{c_char, c_int, c_void};
 use rustix::process::Pid;
 use std::ffi::{CStr, CString};
-use std::io::Result;
+use std::io::{Result, Write};
 use std::os::unix::io::{AsRawFd, BorrowedFd};
 
 struct CloneArg<'a> {
@@ -46,7 +46,9 @@ extern "C" fn clone_callback(arg: *mut c_void) -> c_int {
     match fork_child_main(unsafe { &*(arg as *mut CloneArg) }) {
         Ok(()) => unreachable!(),
         Err(e) => {
-            eprintln!("{e}");
+            // Printing fails if stderr is closed on the other side. eprintln! would panic in this case,
+            // and there isn't enough stack for that.
+            let _ = writeln!(std::io::stderr(), "{e}");
             std::process::abort();
         }
     }
-- 
2.43.0


From 545976a16d9b93fdc9432ce3f3416a22b360f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:28 +0000
Subject: [PATCH 01/45] fix: truncated string size in a packet no longer hangs
 the decoder

---
 dataplicity/m2m/bencode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataplicity/m2m/bencode.py b/dataplicity/m2m/bencode.py
index 539b031..3b40174 100644
--- a/dataplicity/m2m/bencode.py
+++ b/dataplicity/m2m/bencode.py
@@ -144,6 +144,8 @@ def _decode(read):
             c = read(1)
             if c == b":":
                 break
+            if not c:
+                raise DecodeError("unexpected end of data in size")
             size_bytes += c
         size = int(size_bytes)
         return read(size)
-- 
2.43.0


From ea8da719ff1f72f2c7f0b9f83dab56a5e9f27780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:28 +0000
Subject: [PATCH 02/45] fix: command service completes when the command hangs
 up its output

---
 dataplicity/m2m/commandservice.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dataplicity/m2m/commandservice.py b/dataplicity/m2m/commandservice.py
index b25badd..5d15fa1 100644
--- a/dataplicity/m2m/commandservice.py
+++ b/dataplicity/m2m/commandservice.py
@@ -101,8 +101,13 @@ class CommandService(threading.Thread):
                         else:
                             chunk = os.read(stderr_fh, CHUNK_SIZE)
                             log.debug("%r [stderr] %r", self, chunk)
-                    if event_mask & error_events:
-                        break
+                    elif event_mask & error_events:
+                        # Hang up, with nothing left to read
+                        poll.unregister(_file_descriptor)
+                        if _file_descriptor == stdout_fh:
+                            more_data = False
+                            log.debug("%r hang up", self)
+                            break
                 if channel.is_closed:
                     log.debug("%r channel closed", self)
                     break
-- 
2.43.0


From c3525bc88aefb44011d270d2768a936cdf1c021f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:28 +0000
Subject: [PATCH 03/45] fix: a port forward connection ends with its socket,
 and only that connection

---
 dataplicity/portforward.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index fbb6996..105697d 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -73,7 +73,8 @@ class Connection(threading.Thread):
 
             log.debug("entered recv loop")
             # Read all the data we can and write it to the channel
-            while not self.close_event.is_set():
+            connected = True
+            while connected and not self.close_event.is_set():
                 # Block for a period of time until the socket becomes readable,
                 # or there is an error
                 try:
@@ -91,6 +92,7 @@ class Connection(threading.Thread):
                             data = self.socket.recv(CHUNK_SIZE)
                         except Exception:
                             log.exception("error in recv")
+                            connected = False
                             break
                         else:
                             if data:
@@ -98,11 +100,12 @@ class Connection(threading.Thread):
                                 bytes_written += len(data)
                             else:
                                 # No data means the socket has been closed
+                                connected = False
                                 break
-                    if event_mask & error_events:
+                    elif event_mask & error_events:
                         # Socket has been closed in another thread, possibly due to
                         # m2m channel closing
-                        self.close_event.set()
+                        connected = False
         finally:
 
             speed = bytes_written / 1024.0 / (time() - self._start_time)
-- 
2.43.0


From 7b15144d9f5f7ffc584d42c11b5fbde1304607a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:28 +0000
Subject: [PATCH 04/45] fix: a port forward connection ends when data for the
 local server is lost

---
 dataplicity/portforward.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index 105697d..5e0f41c 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -196,6 +196,11 @@ class Connection(threading.Thread):
                 try:
                     for chunk in self.read_buffer:
                         self.socket.sendall(chunk)
+                except Exception:
+                    # Some data was lost, so nothing else may be sent
+                    log.exception("error in send")
+                    self._shutdown_read()
+                    self._shutdown_write()
                 finally:
                     del self.read_buffer[:]
 
-- 
2.43.0


From 9c79ea2753d648b08768f4da63ec99bad12fea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:28 +0000
Subject: [PATCH 05/45] fix: serialize writes to the websocket

---
 dataplicity/m2m/wsclient.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index db8ac40..6d2106c 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -303,7 +303,9 @@ class WSClient(threading.Thread):
     def send_bytes(self, packet_bytes):
         """Send bytes over the websocket."""
         try:
-            self.websocket.send_binary(packet_bytes)
+            # Compressing and writing must not interleave with other threads
+            with self.write_lock:
+                self.websocket.send_binary(packet_bytes)
         except WebSocketError:
             return False
         else:
-- 
2.43.0


From 58a2a5b85e75301c0ca053e21cefdda1b4bd424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:28 +0000
Subject: [PATCH 06/45] fix: forget channels and callbacks of a lost connection

---
 dataplicity/m2m/wsclient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 6d2106c..34fbd85 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -237,6 +237,7 @@ class WSClient(threading.Thread):
                         callback(None)
                     except Exception:
                         log.exception("error clearing callback")
+            self.callbacks.clear()
 
     def get_channel(self, channel_no):
         # TODO: Create channels in response to packets
@@ -255,6 +256,7 @@ class WSClient(threading.Thread):
         """Called when all the channels have been abruptly closed."""
         for channel in self.channels.values():
             channel.on_close()
+        self.channels.clear()
 
     def run(self):
         """Main websocket handling loop."""
-- 
2.43.0


From 927a29d4dc801640a076f2550d7452cab7a1bb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:06 +0000
Subject: [PATCH 07/45] fix: hang up a terminal process whose channel closes
 during launch

---
 dataplicity/m2m/remoteprocess.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/dataplicity/m2m/remoteprocess.py b/dataplicity/m2m/remoteprocess.py
index f35e02a..cc2b77b 100644
--- a/dataplicity/m2m/remoteprocess.py
+++ b/dataplicity/m2m/remoteprocess.py
@@ -9,7 +9,7 @@ import os
 import signal
 import shlex
 import time
-from threading import Thread
+from threading import RLock, Thread
 
 from . import proxy
 
@@ -78,6 +78,8 @@ class RemoteProcess(proxy.Interceptor):
         self.channel = channel
         self.size = size
         self._closed = False
+        self._lock = RLock()
+        self._hung_up = False
         self.channel.set_callbacks(
             on_data=self.on_data, on_close=self.on_close, on_control=self.on_control
         )
@@ -129,8 +131,23 @@ class RemoteProcess(proxy.Interceptor):
     def write_master(self, data):
         super(RemoteProcess, self).write_master(data)
 
+    def _init_fd(self):
+        super(RemoteProcess, self)._init_fd()
+        if self._closed:
+            # Channel was closed before the process was launched
+            self._hang_up()
+
     def close(self):
-        if not self._closed and self.pid is not None:
+        self._closed = True
+        self._hang_up()
+
+    def _hang_up(self):
+        """Send SIGHUP to the process, if it was launched."""
+        with self._lock:
+            hang_up = not self._hung_up and self.pid is not None
+            if hang_up:
+                self._hung_up = True
+        if hang_up:
             log.debug("sending SIGHUP to %r", self)
             os.kill(self.pid, signal.SIGHUP)
             try:
@@ -138,7 +155,6 @@ class RemoteProcess(proxy.Interceptor):
                 wait_thread.start()
             except Exception as error:
                 log.warning("pid wait thread failed to launch; %s", error)
-        self._closed = True
 
     def __enter__(self):
         return self
-- 
2.43.0


From 063225efc1be30019d8dd34139841eb0e518fd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:06 +0000
Subject: [PATCH 08/45] fix: keep terminal input that arrives before the
 process is launched

---
 dataplicity/m2m/remoteprocess.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dataplicity/m2m/remoteprocess.py b/dataplicity/m2m/remoteprocess.py
index cc2b77b..0b984e0 100644
--- a/dataplicity/m2m/remoteprocess.py
+++ b/dataplicity/m2m/remoteprocess.py
@@ -80,6 +80,7 @@ class RemoteProcess(proxy.Interceptor):
         self._closed = False
         self._lock = RLock()
         self._hung_up = False
+        self._pending = []  # For data received before the process was launched
         self.channel.set_callbacks(
             on_data=self.on_data, on_close=self.on_close, on_control=self.on_control
         )
@@ -103,6 +104,10 @@ class RemoteProcess(proxy.Interceptor):
 
     def on_data(self, data):
         try:
+            with self._lock:
+                if self._pending is not None:
+                    self._pending.append(data)
+                    return
             self.stdin_read(data)
         except Exception:
             self.channel.close()
@@ -133,6 +138,13 @@ class RemoteProcess(proxy.Interceptor):
 
     def _init_fd(self):
         super(RemoteProcess, self)._init_fd()
+        try:
+            with self._lock:
+                pending, self._pending = self._pending, None
+                for data in pending:
+                    self.stdin_read(data)
+        except Exception:
+            self.channel.close()
         if self._closed:
             # Channel was closed before the process was launched
             self._hang_up()
-- 
2.43.0


From 47ba985d4d89a9eccc8c83b047e9fe55b3908ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:06 +0000
Subject: [PATCH 09/45] fix: a resize during launch of a terminal is not lost

---
 dataplicity/m2m/remoteprocess.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/remoteprocess.py b/dataplicity/m2m/remoteprocess.py
index 0b984e0..e881004 100644
--- a/dataplicity/m2m/remoteprocess.py
+++ b/dataplicity/m2m/remoteprocess.py
@@ -126,6 +126,11 @@ class RemoteProcess(proxy.Interceptor):
         else:
             log.warning("unknown control packet {}".format(control_type))
 
+    def resize_terminal(self, size):
+        # Must not overlap with setting the initial size
+        with self._lock:
+            super(RemoteProcess, self).resize_terminal(size)
+
     def on_close(self):
         self.close()
 
@@ -137,7 +142,8 @@ class RemoteProcess(proxy.Interceptor):
         super(RemoteProcess, self).write_master(data)
 
     def _init_fd(self):
-        super(RemoteProcess, self)._init_fd()
+        with self._lock:
+            super(RemoteProcess, self)._init_fd()
         try:
             with self._lock:
                 pending, self._pending = self._pending, None
-- 
2.43.0


From 8f0b6533a9994122a5fb4ed03684b803e7ecf6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:06 +0000
Subject: [PATCH 10/45] fix: directories on different devices are not mistaken
 for each other

---
 dataplicity/scan_directory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dataplicity/scan_directory.py b/dataplicity/scan_directory.py
index edd4955..1c93476 100644
--- a/dataplicity/scan_directory.py
+++ b/dataplicity/scan_directory.py
@@ -111,7 +111,7 @@ def scan_directory(root_path, file_sizes=False, max_depth=10):
     push = stack.append
     pop = stack.pop
     directories = {}  # type: Dict[str, DirectoryDict]
-    visited_directories = set()  # type: Set[int]
+    visited_directories = set()  # type: Set[Tuple[int, int]]
 
     def push_directory(path):
         # type: (str) -> None
@@ -157,7 +157,8 @@ def scan_directory(root_path, file_sizes=False, max_depth=10):
                 # Max depth reached, so skip this dir
                 continue
             try:
-                inode = dir_entry.inode()
+                # An inode is only unique within a device
+                inode = (dir_entry.stat().st_dev, dir_entry.inode())
             except Exception as error:
                 log.warning("error in inode; %r", error)
             else:
-- 
2.43.0


From 0584dd3ea4541812fea84f4512fef042a051bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:06 +0000
Subject: [PATCH 11/45] fix: publish a directory scan atomically

---
 dataplicity/directory_scanner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataplicity/directory_scanner.py b/dataplicity/directory_scanner.py
index 04282b9..98cb88f 100644
--- a/dataplicity/directory_scanner.py
+++ b/dataplicity/directory_scanner.py
@@ -2,6 +2,7 @@ from __future__ import print_function, unicode_literals
 
 import json
 import logging
+import os
 import os.path
 import tempfile
 from threading import Lock, Thread
@@ -79,5 +80,7 @@ class DirectoryScanner(object):
         file_path = os.path.join(
             tempfile.gettempdir(), "__dataplicity_remote_directory_scan___.json"
         )
-        with open(file_path, "wb") as scan_file:
+        # Write to another file first, the scan may be read at any time
+        with open(file_path + ".new", "wb") as scan_file:
             scan_file.write(scan_json)
+        os.rename(file_path + ".new", file_path)
-- 
2.43.0


From d85901d292a9404da4bfcc5b3f682112ee6dcf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:06 +0000
Subject: [PATCH 12/45] fix: report an invalid log level

---
 dataplicity/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/app.py b/dataplicity/app.py
index 13066b6..f3d0fdc 100644
--- a/dataplicity/app.py
+++ b/dataplicity/app.py
@@ -123,7 +123,7 @@ class App(object):
         log_level = "CRITICAL" if self.args.quiet else self.args.log_level.upper()
         try:
             log_level_no = _logging_level_names[log_level]
-        except IndexError:
+        except KeyError:
             self.error("invalid log level")
 
         if self.args.log_file:
-- 
2.43.0


From 593f1868eaacd3f228c5cc349460a8e5ead0de6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:56 +0000
Subject: [PATCH 13/45] fix: terminal input is never written to a descriptor
 that was closed

---
 dataplicity/m2m/proxy.py         | 10 ++++++++--
 dataplicity/m2m/remoteprocess.py |  8 +++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index dc6646f..af87f45 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -97,8 +97,7 @@ class Interceptor(object):
         except (IOError, OSError):
             pass
 
-        os.close(master_fd)
-        self.master_fd = None
+        self._close_fd()
 
     def _init_fd(self):
         """
@@ -106,6 +105,13 @@ class Interceptor(object):
         """
         self._set_pty_size()
 
+    def _close_fd(self):
+        """
+        Called once when the child process has gone away.
+        """
+        master_fd, self.master_fd = self.master_fd, None
+        os.close(master_fd)
+
     def _signal_winch(self, signum, frame):
         """
         Signal handler for SIGWINCH - window size has changed.
diff --git a/dataplicity/m2m/remoteprocess.py b/dataplicity/m2m/remoteprocess.py
index e881004..4a78380 100644
--- a/dataplicity/m2m/remoteprocess.py
+++ b/dataplicity/m2m/remoteprocess.py
@@ -139,7 +139,13 @@ class RemoteProcess(proxy.Interceptor):
         super(RemoteProcess, self).master_read(data)
 
     def write_master(self, data):
-        super(RemoteProcess, self).write_master(data)
+        # The descriptor must not be closed (and re-used) while writing
+        with self._lock:
+            super(RemoteProcess, self).write_master(data)
+
+    def _close_fd(self):
+        with self._lock:
+            super(RemoteProcess, self)._close_fd()
 
     def _init_fd(self):
         with self._lock:
-- 
2.43.0


From 9879cb03735e01f94ec22263fbd97b6e1e3ed4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:56 +0000
Subject: [PATCH 14/45] fix: every scan request is answered, also when the scan
 fails

---
 dataplicity/directory_scanner.py | 23 ++++++++++++++++++-----
 dataplicity/m2m/wsclient.py      |  7 +++++--
 dataplicity/remote_directory.py  |  6 +++---
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/dataplicity/directory_scanner.py b/dataplicity/directory_scanner.py
index 98cb88f..98d14d5 100644
--- a/dataplicity/directory_scanner.py
+++ b/dataplicity/directory_scanner.py
@@ -29,19 +29,32 @@ class DirectoryScanner(object):
 
         self._lock = Lock()
 
-    def perform_scan(self, file_sizes=True, on_success=None):
-        # type: (bool, Callable[[], None]) -> None
+    def perform_scan(self, file_sizes=True, on_success=None, on_error=None):
+        # type: (bool, Callable[[], None], Callable[[Exception], None]) -> None
         """Perform a scan in the background."""
-        if self._lock.locked():
+        if self._lock.locked() and on_success is None and on_error is None:
             # Scan is in progress, no point in doing another
             return
         thread = Thread(
             target=self._perform_scan,
-            kwargs={"file_sizes": file_sizes, "on_success": on_success},
+            kwargs={
+                "file_sizes": file_sizes,
+                "on_success": on_success,
+                "on_error": on_error,
+            },
         )
         thread.start()
 
-    def _perform_scan(self, file_sizes=True, on_success=None):
+    def _perform_scan(self, file_sizes=True, on_success=None, on_error=None):
+        # type: (bool, Optional[Callable], Optional[Callable]) -> None
+        """Scan and upload directory structure, report the outcome."""
+        try:
+            self._scan(file_sizes=file_sizes, on_success=on_success)
+        except Exception as error:
+            if on_error is not None:
+                on_error(error)
+
+    def _scan(self, file_sizes=True, on_success=None):
         # type: (bool, Optional[Callable]) -> None
         """Scan and upload directory structure."""
         with self._lock:
diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 34fbd85..f866059 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -484,10 +484,13 @@ class WSClient(threading.Thread):
         def on_success():
             self.send("scan_remote_directory_result", "")
 
+        def on_error(error):
+            self.send("scan_remote_directory_result", str(error))
+
         try:
-            self.remote_directory.scan(on_success=on_success)
+            self.remote_directory.scan(on_success=on_success, on_error=on_error)
         except Exception as error:
-            self.send("scan_remote_directory_result", str(error))
+            on_error(error)
 
     @expose(PacketType.write_remote_file)
     def on_write_remote_file(
diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 964e862..651e411 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -75,10 +75,10 @@ class RemoteDirectory(object):
         # type: () -> Text
         return "RemoteDirectory(%r)" % self.path
 
-    def scan(self, on_success=None):
-        # type: (Callable[[], None]) -> None
+    def scan(self, on_success=None, on_error=None):
+        # type: (Callable[[], None], Callable[[Exception], None]) -> None
         """Scan remote directory."""
-        self.directory_scanner.perform_scan(on_success=on_success)
+        self.directory_scanner.perform_scan(on_success=on_success, on_error=on_error)
 
     def get_snapshot_path(self, upload_id):
         # type: (Text) -> Text
-- 
2.43.0


From c1154db8a7a9439d6220a70ffdcdcb908766d3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:56 +0000
Subject: [PATCH 15/45] fix: remote files are confined to the remote and
 temporary directories

---
 dataplicity/remote_directory.py | 34 ++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 651e411..c7ce870 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -58,6 +58,19 @@ def validate_path(path):
     return ".." not in path.split(os.sep)
 
 
+def validate_id(id):
+    # type: (Text) -> bool
+    """Check an upload / download ID may be used as a filename.
+
+    Args:
+        id (Text): An ID.
+
+    Returns:
+        bool: True if the ID is valid, otherwise False
+    """
+    return id not in ("", ".", "..") and os.sep not in id and "\0" not in id
+
+
 class RemoteDirectory(object):
     """Manages remote directory."""
 
@@ -90,6 +103,8 @@ class RemoteDirectory(object):
         Returns:
             str: A path to the snapshot file.
         """
+        if not validate_id(upload_id):
+            raise IllegalPath("Upload id %r is illegal" % upload_id)
         try:
             temp_path = self.temp_path
             dir_path = os.path.join(temp_path, "dataplicity_remote")
@@ -102,6 +117,11 @@ class RemoteDirectory(object):
             log.warning("unable to get snapshot path; %r", error)
             raise RemoteDirectoryError("Failed to get snapshot path")
 
+    def get_downloads_path(self):
+        # type: () -> Text
+        """Get the path to the directory for downloads in progress."""
+        return os.path.join(self.temp_path, "dataplicity_remote_downloads")
+
     def add_download(self, id):
         # type: (Text) -> Text
         """Add an upload.
@@ -113,8 +133,9 @@ class RemoteDirectory(object):
             [type]: [description]
         """
 
-        temp_path = self.temp_path
-        dir_path = os.path.join(temp_path, "dataplicity_remote_downloads")
+        if not validate_id(id):
+            raise IllegalPath("Download id %r is illegal" % id)
+        dir_path = self.get_downloads_path()
         if not os.path.isdir(dir_path):
             os.mkdir(dir_path)
             log.debug("%r created %s", self, dir_path)
@@ -304,11 +325,16 @@ class RemoteDirectory(object):
     def on_write_remote_file(self, client, id, path, device_path, offset, data, final):
         # type: (WSClient, bytes, bytes, bytes, int, bytes, int) -> None
         """Write data from server to temporary file."""
-        write_device_path = device_path.decode("utf-8")
         try:
+            write_device_path = device_path.decode("utf-8")
             # If we haven't set a device_path allocate a temp location
             if not write_device_path:
                 write_device_path = self.add_download(id.decode("utf-8"))
+            else:
+                # Must be a location we have allocated
+                dirname, filename = os.path.split(write_device_path)
+                if dirname != self.get_downloads_path() or not validate_id(filename):
+                    raise IllegalPath("Path %s is illegal" % write_device_path)
         except Exception as error:
             log.exception("error adding download")
             # Couldn't create temporary location, tell server
@@ -383,6 +409,8 @@ class RemoteDirectory(object):
         """Copy a download in to the remote directory"""
 
         destination_path = os.path.join(self.path, path.decode("utf-8").lstrip("/"))
+        if not validate_path(destination_path):
+            raise IllegalPath("Path %s is illegal" % destination_path)
         dirname, filename = os.path.split(destination_path)
         if not os.path.isdir(dirname):
             dirname = self.path
-- 
2.43.0


From 964c20fc9d9021069d64577f648a4d460edce396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:56 +0000
Subject: [PATCH 16/45] fix: downloads to a missing folder are stored in the
 remote directory

---
 dataplicity/remote_directory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index c7ce870..f382c37 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -414,6 +414,7 @@ class RemoteDirectory(object):
         dirname, filename = os.path.split(destination_path)
         if not os.path.isdir(dirname):
             dirname = self.path
+            destination_path = os.path.join(dirname, filename)
 
         basename, ext = os.path.splitext(filename)
 
-- 
2.43.0


From ec276c472656f0e75e8d604b3e8237615045837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:33 +0000
Subject: [PATCH 17/45] fix: report the return code of a command that has just
 closed its output

---
 dataplicity/m2m/commandservice.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dataplicity/m2m/commandservice.py b/dataplicity/m2m/commandservice.py
index 5d15fa1..7c4ec96 100644
--- a/dataplicity/m2m/commandservice.py
+++ b/dataplicity/m2m/commandservice.py
@@ -15,6 +15,7 @@ import os
 import select
 import subprocess
 import threading
+import time
 
 from lomond.errors import WebSocketError
 
@@ -112,6 +113,13 @@ class CommandService(threading.Thread):
                     log.debug("%r channel closed", self)
                     break
 
+            # A process exits shortly after its output is closed
+            exit_time = time.time() + 1.0
+            while process.poll() is None and time.time() < exit_time:
+                if channel.is_closed:
+                    break
+                time.sleep(0.05)
+
         except WebSocketError as websocket_error:
             log.warning("%r websocket error (%s)", self, websocket_error)
             # Can't send error message if websocket is fubar
-- 
2.43.0


From fc8f77c6f974a527c697ebdb681d3dd03dd6ea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:33 +0000
Subject: [PATCH 18/45] fix: close the channel of a command that can not be
 started

---
 dataplicity/m2m/commandservice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataplicity/m2m/commandservice.py b/dataplicity/m2m/commandservice.py
index 7c4ec96..200c8f2 100644
--- a/dataplicity/m2m/commandservice.py
+++ b/dataplicity/m2m/commandservice.py
@@ -61,6 +61,7 @@ class CommandService(threading.Thread):
             except Exception:
                 log.exception("error running %r", self)
                 self.send_error(channel, "error", "error running command")
+                channel.close()
         finally:
             self.limiter.decrement()
 
-- 
2.43.0


From 3c663ffa6ce6e84fa337e2882dc252c3079cc187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:33 +0000
Subject: [PATCH 19/45] fix: shut down a local connection whose channel closed
 during connect

---
 dataplicity/portforward.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index 5e0f41c..b153dd0 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -114,6 +114,9 @@ class Connection(threading.Thread):
             # already closed
             self.channel.close()
             self._shutdown_read()
+            if self.channel.is_closed:
+                # Channel may have been closed before we were connected
+                self._shutdown_write()
 
     def _shutdown_read(self):
         """Shutdown reading."""
-- 
2.43.0


From bf300c7172085fce3e78b066a275776557c02020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:42 +0000
Subject: [PATCH 20/45] fix: data routed before a channel closes while
 connecting is delivered

---
 dataplicity/portforward.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index b153dd0..f85c6a0 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -183,8 +183,10 @@ class Connection(threading.Thread):
             return False
         else:
             log.debug("connected to %s:%d", *self.host_port)
-            self.socket = _socket
-            self._flush_buffer()
+            # The channel may be closing, which must not come in between
+            with self._lock:
+                self.socket = _socket
+                self._flush_buffer()
             return True
 
     def on_channel_data(self, data):
-- 
2.43.0


From eef94427ad6bf623a86351a589e0374f655c31af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:52 +0000
Subject: [PATCH 21/45] fix: a closed channel never writes to another channel
 of the same number

---
 dataplicity/m2m/wsclient.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index f866059..eced77c 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -68,14 +68,17 @@ class Channel(object):
 
     def close(self):
         """Call to *request* a close."""
-        if not self._closed:
-            self.client.close_channel(self.number)
+        # The channel number may be in use by another channel once this is closed
+        with self._lock:
+            if not self._closed:
+                self.client.close_channel(self.number)
 
     def on_close(self):
         """Called when the notify_close packet is received."""
-        if self._closed:
-            return
-        self._closed = True
+        with self._lock:
+            if self._closed:
+                return
+            self._closed = True
         try:
             if self._close_callback is not None:
                 self._close_callback()
@@ -151,14 +154,14 @@ class Channel(object):
 
     def write(self, data):
         assert isinstance(data, bytes), "data must be bytes"
-        if not self.is_closed:
-            with self._lock:
+        with self._lock:
+            if not self.is_closed:
                 self.client.channel_write(self.number, data)
 
     def send_control(self, control):
         """Write a control packet."""
-        if not self.is_closed:
-            with self._lock:
+        with self._lock:
+            if not self.is_closed:
                 self.client.channel_control_write(self.number, control)
 
     def get_file(self):
-- 
2.43.0


From 824dce7946f5de296542ecaf236f51857ad737c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:10 +0000
Subject: [PATCH 22/45] fix: everything a terminal process wrote before it
 ended is sent

---
 dataplicity/m2m/proxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index af87f45..b83ad9e 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -154,7 +154,8 @@ class Interceptor(object):
                 if event_mask & readable_events:
                     data = os.read(master_fd, 1024 * 1024)
                     self.master_read(data)
-                if event_mask & error_events:
+                elif event_mask & error_events:
+                    # Hung up, and everything was read
                     reading = False
                     break
 
-- 
2.43.0


From 1815bbaf4756b25fec25c627449dfd90d8c6aad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:46 +0000
Subject: [PATCH 23/45] fix: an invalid terminal size is refused before it
 takes effect

---
 dataplicity/m2m/proxy.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index b83ad9e..2ef56d2 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -50,6 +50,7 @@ class Interceptor(object):
         self.group = group
         if size is None:
             size = [80, 24]
+        self._check_size(size)
         self.size = size
         self.master_fd = None
         self.pid = None
@@ -130,6 +131,13 @@ class Interceptor(object):
         # fcntl.ioctl(pty.STDOUT_FILENO, termios.TIOCGWINSZ, buf, True)
         fcntl.ioctl(self.master_fd, termios.TIOCSWINSZ, buf)
 
+    def _check_size(self, size):
+        """
+        Raises an exception if a terminal can not have this size.
+        """
+        columns, lines = size
+        array.array("h", [columns, lines])
+
     def _copy(self):
         """
         Main select loop. Passes all data to self.master_read() or self.stdin_read().
@@ -161,6 +169,7 @@ class Interceptor(object):
 
     def resize_terminal(self, size):
         """Resize terminal to [COLUMNS, LINES]"""
+        self._check_size(size)
         self.size = size
         if self.master_fd is not None:
             self._set_pty_size()
-- 
2.43.0


From 1b0183c333a2770b04eef289e2d014080e528f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:13 +0000
Subject: [PATCH 24/45] fix: a directory that can not be read to its end does
 not fail the scan

---
 dataplicity/scan_directory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataplicity/scan_directory.py b/dataplicity/scan_directory.py
index 1c93476..d9a929a 100644
--- a/dataplicity/scan_directory.py
+++ b/dataplicity/scan_directory.py
@@ -139,6 +139,11 @@ def scan_directory(root_path, file_sizes=False, max_depth=10):
             # End of directory scan, we can discard top of stack
             pop()
             continue
+        except Exception as error:
+            # The rest of this directory can't be read, continue with the others
+            log.warning("error reading directory %r; %s", path, error)
+            pop()
+            continue
         if dir_entry.name.startswith("."):
             # Exclude hidden files and directories
             continue
-- 
2.43.0


From a68e13cf44cf8bac9703ca163a1a3a7c4382f0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:13 +0000
Subject: [PATCH 25/45] fix: a link to the root of a scan is a recursive link

---
 dataplicity/scan_directory.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dataplicity/scan_directory.py b/dataplicity/scan_directory.py
index d9a929a..365a2df 100644
--- a/dataplicity/scan_directory.py
+++ b/dataplicity/scan_directory.py
@@ -128,6 +128,13 @@ def scan_directory(root_path, file_sizes=False, max_depth=10):
             # omitted by default for brevity.
             directories[path] = {}
 
+    try:
+        # Links may lead back to the root
+        root_stat = os.stat(root_path)
+        visited_directories.add((root_stat.st_dev, root_stat.st_ino))
+    except Exception as error:
+        log.warning("error in stat(%r); %s", root_path, error)
+
     scan_time = time.time()
     push_directory("")
     join = os.path.join
-- 
2.43.0


From b0bbecdb475a0745e74923ce7cc6729f4e1fa1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:13 +0000
Subject: [PATCH 26/45] fix: a download does not replace, or write through, a
 dangling link

---
 dataplicity/remote_directory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index f382c37..ca41d19 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -422,7 +422,7 @@ class RemoteDirectory(object):
         # N starts at 1 and will increase until it finds a free filename
 
         tries = 0
-        while os.path.exists(destination_path):
+        while os.path.lexists(destination_path):
             tries += 1
             if tries > 100:
                 raise TooManyCopies(
-- 
2.43.0


From 34d60663a93f4f575dd4ffc9fe45857e7e7a13b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:32 +0000
Subject: [PATCH 27/45] fix: a download that can not be stored leaves no
 partial copy

---
 dataplicity/remote_directory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index ca41d19..0f270bc 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -439,4 +439,9 @@ class RemoteDirectory(object):
                 shutil.move(device_path, destination_path)
             except Exception:
                 log.exception("unable to store download")
+                try:
+                    # Don't leave a partial copy
+                    os.remove(destination_path)
+                except Exception:
+                    pass
                 raise
-- 
2.43.0


From 7618c9163dad28bdf4bd8246a3446ea7393cc9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:07 +0000
Subject: [PATCH 28/45] fix: a scan that fails without a message is not
 reported as a success

---
 dataplicity/m2m/wsclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index eced77c..3482fb0 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -488,7 +488,7 @@ class WSClient(threading.Thread):
             self.send("scan_remote_directory_result", "")
 
         def on_error(error):
-            self.send("scan_remote_directory_result", str(error))
+            self.send("scan_remote_directory_result", str(error) or repr(error))
 
         try:
             self.remote_directory.scan(on_success=on_success, on_error=on_error)
-- 
2.43.0


From 2add009feb4fc5576693d02242da226f42dab648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:35 +0000
Subject: [PATCH 29/45] fix: a link back to a directory already listed is
 recognised by where it leads

---
 dataplicity/scan_directory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataplicity/scan_directory.py b/dataplicity/scan_directory.py
index 365a2df..27ecf8f 100644
--- a/dataplicity/scan_directory.py
+++ b/dataplicity/scan_directory.py
@@ -169,8 +169,10 @@ def scan_directory(root_path, file_sizes=False, max_depth=10):
                 # Max depth reached, so skip this dir
                 continue
             try:
-                # An inode is only unique within a device
-                inode = (dir_entry.stat().st_dev, dir_entry.inode())
+                # An inode is only unique within a device, and that of a link
+                # is not the inode of the directory it leads to
+                entry_stat = dir_entry.stat()
+                inode = (entry_stat.st_dev, entry_stat.st_ino)
             except Exception as error:
                 log.warning("error in inode; %r", error)
             else:
-- 
2.43.0


From 4695d1bd286940016f574b5f8fda78f109783fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:27 +0000
Subject: [PATCH 30/45] fix: a change of the clock between two checks is not
 missed

---
 dataplicity/clockcheck.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dataplicity/clockcheck.py b/dataplicity/clockcheck.py
index 8ccd7f1..12af08a 100644
--- a/dataplicity/clockcheck.py
+++ b/dataplicity/clockcheck.py
@@ -29,10 +29,13 @@ class ClockCheckThread(Thread):
 
     def run(self):
         """Calls `on_fail` when the system clock changes."""
+        last_check = time()
         while self.running:
-            start = time()
             sleep(CHECK_PERIOD)
-            elapsed = time() - start
+            # Every period starts where the last one ended, so that no change is missed
+            now = time()
+            elapsed = now - last_check
+            last_check = now
 
             if elapsed > MAX_CLOCK_DISCREPANCY:
                 self.on_fail()
-- 
2.43.0


From ea29365106ffcbaf6638c295c1c3136453100f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:36 +0000
Subject: [PATCH 31/45] fix: an empty address in the environment is no address

---
 dataplicity/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataplicity/constants.py b/dataplicity/constants.py
index d6daf50..d353e9d 100644
--- a/dataplicity/constants.py
+++ b/dataplicity/constants.py
@@ -22,8 +22,8 @@ def get_environ_int(name, default):
 
 
 CONF_PATH = "/etc/dataplicity/dataplicity.conf"
-SERVER_URL = environ.get("DATAPLICITY_API_URL", "https://api.dataplicity.com")
-M2M_URL = environ.get("DATAPLICITY_M2M_URL", "wss://m2m.dataplicity.com/m2m/")
+SERVER_URL = environ.get("DATAPLICITY_API_URL") or "https://api.dataplicity.com"
+M2M_URL = environ.get("DATAPLICITY_M2M_URL") or "wss://m2m.dataplicity.com/m2m/"
 M2M_FEATURES = {"scan", "downloads"}
 SERIAL_LOCATION = "/opt/dataplicity/tuxtunnel/serial"
 AUTH_LOCATION = "/opt/dataplicity/tuxtunnel/auth"
-- 
2.43.0


From 3192a80c41309c24b7722a8585ceba8f940f82c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:37 +0000
Subject: [PATCH 32/45] fix: every command callback is called exactly once

---
 dataplicity/m2m/wsclient.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 3482fb0..d43c9e4 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -219,28 +219,30 @@ class WSClient(threading.Thread):
         return self.channels.keys()
 
     def add_callback(self, command_id, callback):
-        self.callbacks[command_id].append(callback)
+        with self.callback_lock:
+            self.callbacks[command_id].append(callback)
 
     def callback(self, command_id, result):
+        # Callbacks may be added (also by callbacks) while these are called
         with self.callback_lock:
-            if command_id in self.callbacks:
-                for callback in self.callbacks[command_id]:
-                    try:
-                        callback(result)
-                    except Exception:
-                        log.exception("error in command callback")
-                del self.callbacks[command_id]
+            callbacks = self.callbacks.pop(command_id, [])
+        for callback in callbacks:
+            try:
+                callback(result)
+            except Exception:
+                log.exception("error in command callback")
 
     def clear_callbacks(self):
         """Clear all callbacks, because they may be blocking."""
         with self.callback_lock:
-            for command_id, callbacks in self.callbacks.items():
-                for callback in callbacks:
-                    try:
-                        callback(None)
-                    except Exception:
-                        log.exception("error clearing callback")
+            outstanding = list(self.callbacks.values())
             self.callbacks.clear()
+        for callbacks in outstanding:
+            for callback in callbacks:
+                try:
+                    callback(None)
+                except Exception:
+                    log.exception("error clearing callback")
 
     def get_channel(self, channel_no):
         # TODO: Create channels in response to packets
-- 
2.43.0


From 3ff8c807ae15f1e08dd025b8c578ba4532efcc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:42 +0000
Subject: [PATCH 33/45] fix: a revision or model name that is not valid text
 does not stop the details

---
 dataplicity/rpi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataplicity/rpi.py b/dataplicity/rpi.py
index 54d4049..619c3ea 100644
--- a/dataplicity/rpi.py
+++ b/dataplicity/rpi.py
@@ -31,7 +31,7 @@ def get_machine_revision():
         return None
     else:
         if isinstance(revision_code, bytes):
-            return revision_code.decode("utf-8")
+            return revision_code.decode("utf-8", "replace")
         return revision_code
 
 
@@ -42,6 +42,6 @@ def get_model_name():
     """
     try:
         with open("/proc/device-tree/model", "rb") as fp:
-            return fp.read().decode("utf-8")
+            return fp.read().decode("utf-8", "replace")
     except IOError:
         return ""
-- 
2.43.0


From e67e030e5a9e5253ffb44be3a62ae639a6ab92f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:42 +0000
Subject: [PATCH 34/45] fix: unreadable release files do not stop the details

---
 dataplicity/device_meta.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dataplicity/device_meta.py b/dataplicity/device_meta.py
index 9a6e121..abc1837 100644
--- a/dataplicity/device_meta.py
+++ b/dataplicity/device_meta.py
@@ -42,9 +42,14 @@ def get_uname():
 def get_os_version():
     """Get the OS version."""
     # Linux is a fair assumption for now
-    return " ".join(
-        (distro.name(), distro.version(), distro.codename())
-    ).strip()
+    try:
+        return " ".join(
+            (distro.name(), distro.version(), distro.codename())
+        ).strip()
+    except Exception:
+        # The release files may be unreadable, or not be valid text
+        log.exception("unable to retrieve OS version")
+        return ""
 
 
 def get_ip_address_list():
-- 
2.43.0


From 71322c7cecc16fc120c2e6a0576aa6db2cdea3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:49 +0000
Subject: [PATCH 35/45] fix: a malformed string size or a key without value is
 refused, and a truncated string is not a string

---
 dataplicity/m2m/bencode.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/bencode.py b/dataplicity/m2m/bencode.py
index 3b40174..c9366ea 100644
--- a/dataplicity/m2m/bencode.py
+++ b/dataplicity/m2m/bencode.py
@@ -136,6 +136,8 @@ def _decode(read):
             if k is None:
                 break
             v = _decode(read)
+            if v is None:
+                raise DecodeError("missing value in dictionary")
             kv.append((k, v))
         return dict(kv)
     else:
@@ -147,5 +149,10 @@ def _decode(read):
             if not c:
                 raise DecodeError("unexpected end of data in size")
             size_bytes += c
+        if not size_bytes.isdigit():
+            raise DecodeError("illegal digit in size")
         size = int(size_bytes)
-        return read(size)
+        string_bytes = read(size)
+        if len(string_bytes) != size:
+            raise DecodeError("unexpected end of data in string")
+        return string_bytes
-- 
2.43.0


From de607b2d8b17a6fc5bbda3acef1fe2c1383ae606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:43 +0000
Subject: [PATCH 36/45] fix: a message that is a byte string is not taken for a
 packet

---
 dataplicity/m2m/wsclient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index d43c9e4..071c6b5 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -349,6 +349,8 @@ class WSClient(threading.Thread):
     def on_packet(self, packet):
         """Called with a binary packet."""
         try:
+            if not isinstance(packet, list):
+                raise TypeError("packet must be a list")
             packet_type = packet[0]
             packet_body = packet[1:]
         except Exception:
-- 
2.43.0


From 133329854ffc3fdf099a0212a20400374847b198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:31 +0000
Subject: [PATCH 37/45] fix: a forwarded connection that ends within one tick
 of the clock closes its channel

---
 dataplicity/portforward.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index f85c6a0..db29a05 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -108,7 +108,9 @@ class Connection(threading.Thread):
                         connected = False
         finally:
 
-            speed = bytes_written / 1024.0 / (time() - self._start_time)
+            # The clock may be coarse, or have been set since the start
+            elapsed = time() - self._start_time
+            speed = bytes_written / 1024.0 / elapsed if elapsed > 0 else 0.0
             log.debug("left recv loop (read %s bytes) %0.1fKB/s ", bytes_written, speed)
             # These close methods are a null operation if the objects are
             # already closed
-- 
2.43.0


From 2fbd8672dc3fb2ba04a0bce1132dbe9f97f25f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:29 +0000
Subject: [PATCH 38/45] fix: waiting for a command's end does not depend on the
 clock

---
 dataplicity/m2m/commandservice.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dataplicity/m2m/commandservice.py b/dataplicity/m2m/commandservice.py
index 200c8f2..b416f59 100644
--- a/dataplicity/m2m/commandservice.py
+++ b/dataplicity/m2m/commandservice.py
@@ -115,9 +115,8 @@ class CommandService(threading.Thread):
                     break
 
             # A process exits shortly after its output is closed
-            exit_time = time.time() + 1.0
-            while process.poll() is None and time.time() < exit_time:
-                if channel.is_closed:
+            for _ in range(20):
+                if process.poll() is not None or channel.is_closed:
                     break
                 time.sleep(0.05)
 
-- 
2.43.0


From 5dbd0764d602dc8ef9deaa5a84285f13643ba3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:48 +0000
Subject: [PATCH 39/45] fix: killing a process that ignores a hang-up does not
 depend on the clock

---
 dataplicity/m2m/remoteprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataplicity/m2m/remoteprocess.py b/dataplicity/m2m/remoteprocess.py
index 4a78380..4cc6d4c 100644
--- a/dataplicity/m2m/remoteprocess.py
+++ b/dataplicity/m2m/remoteprocess.py
@@ -31,7 +31,7 @@ class PidWaitThread(Thread):
     def run(self):
         """Poll PID for exit status, displaying warnings at given intervals if it is taking too long."""
         log.debug("Waiting for %s to close", self)
-        start_time = time.time()
+        time_passed = 0
         warnings = [
             5,
             10,
@@ -45,6 +45,7 @@ class PidWaitThread(Thread):
         kill_time = 15  # Send a sigkill if process doesn't shut down (in seconds)
         while warnings:
             time.sleep(2)
+            time_passed += 2  # Not from the clock, which may be set meanwhile
             # os.WNOHANG flags makes waitpid return immediately if the process is running
             pid, exit_code = os.waitpid(self.pid, os.WNOHANG)
             if pid:
@@ -53,7 +54,6 @@ class PidWaitThread(Thread):
                 break
             else:
                 # Process is still running
-                time_passed = time.time() - start_time
                 if time_passed >= warnings[0]:
                     warnings.pop(0)
                     log.warning(
-- 
2.43.0


From f35dd92ed0e885f8647c3894129f12b0a91a13f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:48 +0000
Subject: [PATCH 40/45] fix: a terminal's group is set while it still can be

---
 dataplicity/m2m/proxy.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index 2ef56d2..2c53ae4 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -66,16 +66,6 @@ class Interceptor(object):
         self.master_fd = master_fd
         self.pid = pid
         if pid == pty.CHILD:
-            if self.user is not None:
-                try:
-                    uid = pwd.getpwnam(self.user).pw_uid
-                except KeyError:
-                    log.error("No such user: %s", self.user)
-                else:
-                    os.setuid(uid)
-                    log.debug(
-                        "switched user for remote process to %s(%s)", self.user, uid
-                    )
             if self.group is not None:
                 try:
                     gid = grp.getgrnam(self.group).gr_gid
@@ -86,6 +76,16 @@ class Interceptor(object):
                     log.debug(
                         "switched group for remote process to %s(%s)", self.group, gid
                     )
+            if self.user is not None:
+                try:
+                    uid = pwd.getpwnam(self.user).pw_uid
+                except KeyError:
+                    log.error("No such user: %s", self.user)
+                else:
+                    os.setuid(uid)
+                    log.debug(
+                        "switched user for remote process to %s(%s)", self.user, uid
+                    )
             if not argv:
                 argv = [os.environ["SHELL"]]
             os.execlp(argv[0], *argv)
-- 
2.43.0


From c7a4211037e7488d8ed2ea15fea21c6b3a1e3112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:31 +0000
Subject: [PATCH 41/45] fix: two threads never get the same call id

---
 dataplicity/jsonrpc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dataplicity/jsonrpc.py b/dataplicity/jsonrpc.py
index 2d96f33..62e5f8c 100644
--- a/dataplicity/jsonrpc.py
+++ b/dataplicity/jsonrpc.py
@@ -3,6 +3,7 @@ from __future__ import unicode_literals
 
 import json
 import logging
+from threading import Lock
 
 from .compat import urlopen, text_type
 
@@ -171,10 +172,12 @@ class JSONRPC(object):
     def __init__(self, url):
         self.url = url
         self.call_id = 1
+        self._call_id_lock = Lock()
 
     def new_call_id(self):
-        self.call_id += 1
-        return self.call_id
+        with self._call_id_lock:
+            self.call_id += 1
+            return self.call_id
 
     def _send(self, call):
         call_json = json.dumps(call)
-- 
2.43.0


From 782f845b3e8bbce36b62847f294e68d33571bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:50 +0000
Subject: [PATCH 42/45] fix: a failed snapshot of a remote file does not stay
 on the disk

---
 dataplicity/remote_directory.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 0f270bc..9b8a20c 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -198,15 +198,19 @@ class RemoteDirectory(object):
         if not snapshot_path.startswith(self.temp_path):
             raise IllegalPath("Path %s is illegal" % path)
 
+        already_open = os.path.exists(snapshot_path)
         try:
             # Copy file to temporary location, creating a "snapshot"
             shutil.copyfile(file_path, snapshot_path)
             snapshot_size = os.path.getsize(snapshot_path)
             log.debug("created snapshot for %s; %s", file_path, snapshot_path)
             return snapshot_size
-        except (IOError, OSError) as error:
-            raise AddFail("Unable to open (%s)" % error.strerror)
         except Exception as error:
+            if not already_open:
+                # Don't leave a partial snapshot
+                self.close_upload(upload_id)
+            if isinstance(error, (IOError, OSError)):
+                raise AddFail("Unable to open (%s)" % error.strerror)
             log.error("failed to add_upload; %r", error)
             raise AddFail("Unable to open; %s" % error)
 
-- 
2.43.0


From 66581dd624de3e33044e10df74a0b75e89785f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:38 +0000
Subject: [PATCH 43/45] fix: the addresses sent are those of the moment, not of
 the first attempt

---
 dataplicity/device_meta.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/dataplicity/device_meta.py b/dataplicity/device_meta.py
index abc1837..afa62b2 100644
--- a/dataplicity/device_meta.py
+++ b/dataplicity/device_meta.py
@@ -12,23 +12,24 @@ from .iptool import get_all_interfaces
 log = logging.getLogger("agent")
 
 
-# Cache the meta dict because it never changes
+# Cache the meta dict because it never changes (other than the addresses)
 _META_CACHE = None
 
 
 def get_meta():
     """Get a dict containing device meta information."""
     global _META_CACHE
-    if _META_CACHE is not None:
-        return _META_CACHE.copy()
-    meta = {}
-    meta["agent_version"] = __version__
-    meta["machine_revision"] = rpi.get_machine_revision()
-    meta["model_name"] = rpi.get_model_name()
-    meta["os_version"] = get_os_version()
-    meta["uname"] = get_uname()
+    if _META_CACHE is None:
+        meta = {}
+        meta["agent_version"] = __version__
+        meta["machine_revision"] = rpi.get_machine_revision()
+        meta["model_name"] = rpi.get_model_name()
+        meta["os_version"] = get_os_version()
+        meta["uname"] = get_uname()
+        _META_CACHE = meta
+    meta = _META_CACHE.copy()
+    # The network may come up after the agent
     meta["ip_list"] = get_ip_address_list()
-    _META_CACHE = meta
     return meta
 
 
-- 
2.43.0


From 7b7e4100ee857710d124c861a7da9d43ed8c8653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:25 +0000
Subject: [PATCH 44/45] fix: a connection on which the server no longer answers
 is given up

---
 dataplicity/m2m/wsclient.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 071c6b5..8e4dbcd 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -19,6 +19,7 @@ from ..compat import text_type
 from .dispatcher import Dispatcher, expose
 from .packets import M2MPacket as Packet
 from .packets import PacketType
+from ..constants import MAX_TIME_SINCE_LAST_PACKET
 from .._version import __version__
 
 
@@ -267,7 +268,10 @@ class WSClient(threading.Thread):
         """Main websocket handling loop."""
         try:
             with self.websocket:
-                for event in persist(self.websocket):
+                # The server has to answer to pings (see ping_rate of persist)
+                for event in persist(
+                    self.websocket, ping_timeout=MAX_TIME_SINCE_LAST_PACKET
+                ):
                     log.debug("WS %r", event)
                     try:
                         self.on_event(event)
-- 
2.43.0


From 0a522afaf24cbc2e68da92ef4e8352bab2988aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:25 +0000
Subject: [PATCH 45/45] fix: a request to the web API that gets no answer is
 given up

---
 dataplicity/constants.py | 3 +++
 dataplicity/jsonrpc.py   | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataplicity/constants.py b/dataplicity/constants.py
index d353e9d..29fe1cd 100644
--- a/dataplicity/constants.py
+++ b/dataplicity/constants.py
@@ -33,6 +33,9 @@ REMOTE_DIRECTORY_LOCATION = "/home/dataplicity/remote"
 # Client will reconnect if the server hasn't responded in this time
 MAX_TIME_SINCE_LAST_PACKET = 100.0  # seconds or None
 
+# Time to wait for the web API to respond
+API_TIMEOUT = 30.0  # seconds
+
 # Number of bytes to read at a time, when copying date over the network
 # TODO: Replace this with a sensible chunk size once we identify the
 # issue with ssh over Porthole
diff --git a/dataplicity/jsonrpc.py b/dataplicity/jsonrpc.py
index 62e5f8c..0433b41 100644
--- a/dataplicity/jsonrpc.py
+++ b/dataplicity/jsonrpc.py
@@ -6,6 +6,7 @@ import logging
 from threading import Lock
 
 from .compat import urlopen, text_type
+from .constants import API_TIMEOUT
 
 
 log = logging.getLogger("agent")
@@ -188,7 +189,7 @@ class JSONRPC(object):
         url_file = None
         try:
             try:
-                url_file = urlopen(self.url, call_json)
+                url_file = urlopen(self.url, call_json, timeout=API_TIMEOUT)
                 response_json = url_file.read().decode("utf-8")
             finally:
                 if url_file is not None:
-- 
2.43.0


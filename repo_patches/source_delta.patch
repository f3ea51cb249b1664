From 312b8b10411e2844ab0d894aa2c9d98757a45e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:12 +0000
Subject: [PATCH 01/40] fix: deny client id change instead of crashing the
 server

A hello with another client id than the one already used on the
connection made the server refer to a non-existent reason code, which
terminated the server process.
---
 paf/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/server.py b/paf/server.py
index 0f85993..95b4d55 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -320,7 +320,7 @@ class Connection:
         elif self.client_id != client_id:
             self.warning("Attempt to change client id denied.",
                          LogCategory.SECURITY)
-            yield ta.fail(fail_reason=proto.FAIL_PERMISSION_DENIED)
+            yield ta.fail(fail_reason=proto.FAIL_REASON_PERMISSION_DENIED)
             return
         elif self.handshaked:
             self.debug("Received hello from client with handshake "
-- 
2.43.0


From f2d5243417b88c3f09730d7d5c2c83686dbcc87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:13 +0000
Subject: [PATCH 02/40] fix: treat invalid track informs as protocol errors

An unsolicited track reply, or a track inform of an unknown type, made
the server construct the protocol error with the wrong number of
arguments, and thus terminate.
---
 paf/server.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/paf/server.py b/paf/server.py
index 95b4d55..d2d2609 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -421,16 +421,15 @@ class Connection:
         elif track_type == proto.TRACK_TYPE_REPLY:
             if self.track_query_ts is None:
                 raise ProtocolError("Received unsolicited track reply in "
-                                    "track transaction %d", track_type,
-                                    ta.ta_id)
+                                    "track transaction %d" % ta.ta_id)
             self.track_latency = time.time() - self.track_query_ts
             self.track_query_ts = None
             self.debug("Received to track query reply (after %.1f ms)." %
                        (1e3 * self.track_latency), LogCategory.CORE)
         else:
             raise ProtocolError("Received unknown track type \"%s\" in "
-                                "track transaction %d", track_type,
-                                ta.ta_id)
+                                "track transaction %d" % (track_type,
+                                                          ta.ta_id))
 
     def subscribe_request(self, ta, sub_id, filter=None):
         try:
-- 
2.43.0


From 6af373b8b1ff8ea99238bc98d7ca0adb174613cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:13 +0000
Subject: [PATCH 03/40] fix: reject messages which do not fit their transaction

An inform in a transaction which is not two-way, or a message carrying
another command than the one that opened the transaction, terminated
the server, rather than only the offending connection.
---
 paf/server.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/paf/server.py b/paf/server.py
index d2d2609..eb53627 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -46,6 +46,12 @@ class Transaction:
             raise ProtocolError("Message received in transaction %d is not "
                                 "of a client-generated type" % self.ta_id)
 
+        if in_msg.ta_type != self.ta_type:
+            raise ProtocolError("Message of command \"%s\" received in \"%s\" "
+                                "transaction %d" % (in_msg.cmd(),
+                                                    self.ta_type.cmd,
+                                                    self.ta_id))
+
         if in_msg.is_request():
             self.request(in_msg)
         else:
@@ -62,6 +68,11 @@ class Transaction:
         self.state = TransactionState.REQUESTED
 
     def inform(self, in_msg):
+        if not self.is_two_way():
+            raise ProtocolError("Inform message received in transaction %d, "
+                                "which is not of the two-way type" %
+                                self.ta_id)
+
         if self.state == TransactionState.IDLE:
             raise ProtocolError("Inform message precedes request in "
                                 "transaction %d" % self.ta_id)
-- 
2.43.0


From 7bef35c48108684cd0c42ef969334853565a20e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:51 +0000
Subject: [PATCH 04/40] fix: refuse ill-typed messages with a protocol error

A message which was not a JSON object, had a string field of another
type, or was too deeply nested, resulted in exceptions other than
ProtocolError, terminating the server. Booleans were taken for
integers, and infinite numbers for numbers.
---
 paf/proto.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/paf/proto.py b/paf/proto.py
index eca5883..694dc59 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -4,6 +4,7 @@
 from enum import Enum, auto
 import collections
 import json
+import math
 
 MIN_VERSION = 2
 MAX_VERSION = 3
@@ -56,7 +57,19 @@ class Field:
 
 
 class StringField(Field):
-    pass
+    def pull(self, in_msg, opt=False):
+        value = Field.pull(self, in_msg, opt=opt)
+        if value is None:
+            return None
+        if not isinstance(value, str):
+            raise ProtocolError("Message field %s is not a string" %
+                                self.name)
+        return value
+
+
+def is_integer(value):
+    # In Python, a boolean is also an integer. In JSON, it is not.
+    return isinstance(value, int) and not isinstance(value, bool)
 
 
 NON_NEGATIVE_INT_MAX = (1 << 63) - 1
@@ -67,7 +80,7 @@ class NonNegativeIntField(Field):
         value = Field.pull(self, value, opt=opt)
         if value is None:
             return None
-        if not isinstance(value, int):
+        if not is_integer(value):
             raise ProtocolError("Message field %s is not an integer" %
                                 self.name)
         if value < 0:
@@ -85,12 +98,15 @@ class NonNegativeNumberField(Field):
         value = Field.pull(self, value, opt=opt)
         if value is None:
             return None
-        if not isinstance(value, (int, float)):
+        if not is_integer(value) and not isinstance(value, float):
             raise ProtocolError("Message field %s is not a number" %
                                 self.name)
+        if isinstance(value, float) and not math.isfinite(value):
+            raise ProtocolError("Message field %s is not a finite number" %
+                                self.name)
         if value < 0:
             raise ProtocolError("Message field %s has a negative "
-                                "value %d" % (self.name, value))
+                                "value %s" % (self.name, value))
         return value
 
 
@@ -112,7 +128,7 @@ class PropsField(Field):
             if not isinstance(values, list):
                 raise ProtocolError("Service property value is not a list")
             for value in values:
-                if not isinstance(value, (str, int)):
+                if not isinstance(value, str) and not is_integer(value):
                     raise ProtocolError("Service property value is neither "
                                         "string nor integer")
                 props[key].add(value)
@@ -367,6 +383,9 @@ class Message:
         try:
             in_msg = json.loads(in_wire_msg.decode('utf-8'))
 
+            if not isinstance(in_msg, dict):
+                raise ProtocolError("Incoming message is not a JSON object")
+
             cmd = FIELD_TA_CMD.pull(in_msg)
             ta_id = FIELD_TA_ID.pull(in_msg)
             msg_type = FIELD_MSG_TYPE.pull(in_msg)
@@ -396,7 +415,7 @@ class Message:
 
             return Message(ta_type, ta_id, msg_type, args, optargs)
 
-        except ValueError:
+        except (ValueError, RecursionError):
             raise ProtocolError("Error JSON decoding incoming message")
 
     def __init__(self, ta_type, ta_id, msg_type, args, optargs):
-- 
2.43.0


From 24634ce7216c157e59fefef01ad4b5f0f5e00392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:13 +0000
Subject: [PATCH 05/40] fix: match substring filters without regular
 expressions

The regular expression failed on integer values (terminating the
server), did not match strings including newlines, and took time
exponential in the number of substrings on values almost matching.
---
 paf/filter.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/paf/filter.py b/paf/filter.py
index 22ae626..c015483 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -1,8 +1,6 @@
 # SPDX-License-Identifier: BSD-3-Clause
 # Copyright(c) 2020 Ericsson AB
 
-import re
-
 BEGIN_EXPR = '('
 END_EXPR = ')'
 ANY = '*'
@@ -311,27 +309,36 @@ class Substring(Filter):
         self.intermediate = intermediate
         self.final = final
 
-        pattern = "^"
-        if initial is not None:
-            pattern += "%s.*" % re.escape(initial)
-        else:
-            pattern += ".*"
+    def compare(self, value):
+        if not isinstance(value, str):
+            return False
 
-        for im in intermediate:
-            pattern += "%s.*" % re.escape(im)
+        offset = 0
 
-        if final is not None:
-            pattern += re.escape(self.final)
+        if self.initial is not None:
+            if not value.startswith(self.initial):
+                return False
+            offset = len(self.initial)
 
-        pattern += "$"
+        # The intermediate parts are literals, and thus picking the
+        # first occurrence of each leaves the most room for the rest.
+        for im in self.intermediate:
+            im_offset = value.find(im, offset)
+            if im_offset < 0:
+                return False
+            offset = im_offset + len(im)
 
-        self.substring_re = re.compile(pattern)
+        if self.final is not None:
+            return len(value) - offset >= len(self.final) and \
+                value.endswith(self.final)
+
+        return True
 
     def match(self, service):
         values = service.get(self.key)
         if values is not None:
             for value in values:
-                if self.substring_re.search(value) is not None:
+                if self.compare(value):
                     return True
         return False
 
-- 
2.43.0


From b1c0f03e395569bfa5f08a7270a9f1d26ebebb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:35 +0000
Subject: [PATCH 06/40] fix: accept only integers of the documented form in
 filters

Texts like '+5', '1_0' and '007' were taken for integers, and thus not
preserved when the filter was printed. Also fix the error message.
---
 paf/filter.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/paf/filter.py b/paf/filter.py
index c015483..690416d 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -1,6 +1,8 @@
 # SPDX-License-Identifier: BSD-3-Clause
 # Copyright(c) 2020 Ericsson AB
 
+import re
+
 BEGIN_EXPR = '('
 END_EXPR = ')'
 ANY = '*'
@@ -17,6 +19,8 @@ SPECIALS = {
     BEGIN_EXPR, END_EXPR, ANY, ESCAPE, AND, OR, EQUAL, GREATER_THAN, LESS_THAN
 }
 
+INTEGER_RE = re.compile("-?(0|[1-9][0-9]*)")
+
 
 class ParseError(Exception):
     def __init__(self, state, error_desc):
@@ -137,18 +141,13 @@ def _parse_greater_and_less_than(state, key, op_class):
 
     value = _parse_str(state)
 
-    int_value = None
-
-    if value.strip() == value:
-        try:
-            int_value = int(value)
-        except ValueError:
-            pass
-
-    if int_value is None:
-        raise ParseError(state, "'%s' is not an integer")
+    if INTEGER_RE.fullmatch(value) is None:
+        raise ParseError(state, "'%s' is not an integer" % value)
 
-    return op_class(key, int_value)
+    try:
+        return op_class(key, int(value))
+    except ValueError:
+        raise ParseError(state, "Integer has too many digits")
 
 
 def _parse_simple(state):
-- 
2.43.0


From 7de38411d34f8f4dd69cf892cec2af064692cdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 07/40] fix: follow the filter grammar for exclamation marks
 and NUL

The exclamation mark is a special character, but '\!' was refused and
an unescaped '!' was accepted in keys and values. NUL characters may
not occur in a filter.
---
 paf/filter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/paf/filter.py b/paf/filter.py
index 690416d..521d795 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -15,8 +15,11 @@ EQUAL = '='
 GREATER_THAN = '>'
 LESS_THAN = '<'
 
+NUL = '\0'
+
 SPECIALS = {
-    BEGIN_EXPR, END_EXPR, ANY, ESCAPE, AND, OR, EQUAL, GREATER_THAN, LESS_THAN
+    BEGIN_EXPR, END_EXPR, ANY, ESCAPE, NOT, AND, OR, EQUAL, GREATER_THAN,
+    LESS_THAN
 }
 
 INTEGER_RE = re.compile("-?(0|[1-9][0-9]*)")
@@ -70,6 +73,8 @@ def _parse_str(state):
     while True:
         in_c = state.current()
         special = in_c in SPECIALS
+        if in_c == NUL:
+            raise ParseError(state, "NUL characters are not permitted")
         if escaped:
             if not special:
                 raise ParseError(state, "Escaped character '%s' is not "
-- 
2.43.0


From 6c2bf368ddd3f0aec1da51356108ff7bb45b3404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:42 +0000
Subject: [PATCH 08/40] fix: limit the nesting of filter expressions

A deeply nested filter made the parser exceed the Python recursion
limit, which terminated the server.
---
 paf/filter.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/paf/filter.py b/paf/filter.py
index 521d795..c2f2509 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -31,10 +31,23 @@ class ParseError(Exception):
                            (state.data, state.offset, error_desc))
 
 
+# Parsing, matching and printing are recursive
+MAX_NESTING = 128
+
+
 class ParseState:
     def __init__(self, data):
         self.data = data
         self.offset = 0
+        self.nesting = 0
+
+    def enter(self):
+        if self.nesting == MAX_NESTING:
+            raise ParseError(self, "Expression is too deeply nested")
+        self.nesting += 1
+
+    def leave(self):
+        self.nesting -= 1
 
     def consume(self, c):
         self.expect(c)
@@ -204,6 +217,7 @@ def _parse_composite(state, op_class):
 
 
 def _parse(state):
+    state.enter()
     if state.is_current(AND):
         filter = _parse_composite(state, And)
     elif state.is_current(OR):
@@ -212,6 +226,7 @@ def _parse(state):
         filter = _parse_not(state)
     else:
         filter = _parse_simple(state)
+    state.leave()
     return filter
 
 
-- 
2.43.0


From b73939b4ffe3299cba2b7d2c58f526da3616c43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 09/40] fix: move a reclaimed orphan to the connection of its
 owner

A service republished by its returning owner remained with the old
connection, and was not made an orphan again at the next disconnect.
Also, a client whose last orphan was taken over by another client was
never removed, leaving its client id tied to the user.
---
 paf/sd.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/paf/sd.py b/paf/sd.py
index 160b393..9f3eff1 100644
--- a/paf/sd.py
+++ b/paf/sd.py
@@ -595,11 +595,13 @@ class Client:
                         change.client_id = self.client_id
                 elif service.is_orphan():
                     # previous owner is back
+                    self.capture_service(service)
+
                     with service.modify() as change:
                         change.orphan_since = None
 
             elif generation > service.generation():
-                if self.client_id != service.client_id():
+                if not self.active_connection.has_service(service_id):
                     self.capture_service(service)
 
                 with service.modify() as change:
@@ -688,6 +690,12 @@ class Client:
         victim_connection.remove_service(service)
         self.active_connection.add_service(service)
 
+        if victim_connection.is_stale():
+            victim_client.remove_connection(victim_connection)
+
+        if victim_client.is_stale():
+            self.db.remove_client(victim_client)
+
     def remove_service(self, service):
         connection = self.get_service_connection(service)
         connection.remove_service(service)
-- 
2.43.0


From 2346753d1506b3dc721c094f34e848e4db45b74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:36 +0000
Subject: [PATCH 10/40] fix: raise TransactionError also for failed ping and
 hello

The handlers of synchronous ping and hello calls did not accept the
optional fail reason of a failed transaction, and the exception could
not be created in case the server gave no reason.
---
 paf/client.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/paf/client.py b/paf/client.py
index 5948011..09a4557 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -35,8 +35,7 @@ class TransactionError(Error):
         if reason is not None:
             message = "Protocol transaction failed: '%s'." % reason
         else:
-            message = "Protocol transaction failed for unknown reason." % \
-                reason
+            message = "Protocol transaction failed for unknown reason."
         Error.__init__(self, message)
 
 
@@ -155,10 +154,10 @@ class LatencyCall(Call):
         self.start = time.time()
         Call.__init__(self, conn)
 
-    def __call__(self, ta_id, event, *args):
+    def __call__(self, ta_id, event, *args, **optargs):
         if event == EventType.COMPLETE:
             self.latency = time.time() - self.start
-        Call.__call__(self, ta_id, event, *args)
+        Call.__call__(self, ta_id, event, *args, **optargs)
 
     def get(self):
         Call.get(self)
@@ -187,10 +186,10 @@ class CompleteCall(Call):
     def __init__(self, conn):
         Call.__init__(self, conn)
 
-    def __call__(self, ta_id, event, *args):
+    def __call__(self, ta_id, event, *args, **optargs):
         if event == EventType.COMPLETE:
             self.complete = args
-        Call.__call__(self, ta_id, event, *args)
+        Call.__call__(self, ta_id, event, *args, **optargs)
 
     def get(self):
         Call.get(self)
-- 
2.43.0


From d463ad19c05276d4fe71efa8717f885b994f4a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:36 +0000
Subject: [PATCH 11/40] fix: check the configured protocol version range before
 connecting

An impossible range left the already-established connection open.
---
 paf/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paf/client.py b/paf/client.py
index 09a4557..665ee3d 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -257,6 +257,8 @@ class ServerConf:
 
 class Client:
     def __init__(self, client_id, server_conf, track, ready_cb):
+        server_conf.check_proto_version_range(proto.VERSION_RANGE)
+
         self.client_id = client_id
         try:
             attrs = {'xcm.blocking': False}
@@ -265,8 +267,6 @@ class Client:
         except xcm.error as e:
             raise TransportError(str(e))
 
-        server_conf.check_proto_version_range(proto.VERSION_RANGE)
-
         self.proto_version_range = server_conf.proto_version_range()
 
         if track:
-- 
2.43.0


From 75f2428a66965d781a05565b88a8dc805aacabe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:36 +0000
Subject: [PATCH 12/40] fix: refuse unknown track types in the client library

A track notification of an unknown type was taken for a reply.
---
 paf/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paf/client.py b/paf/client.py
index 665ee3d..53593c2 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -216,10 +216,13 @@ class Tracker:
             if track_type == TRACK_TYPE_QUERY:
                 self.conn.track_reply(ta_id)
                 self.notification_queries += 1
-            else:
+            elif track_type == TRACK_TYPE_REPLY:
                 self.notification_replies += 1
                 if self.notification_replies > self.inform_queries:
                     raise ProtocolError("Received unsolicited track replies")
+            else:
+                raise ProtocolError("Received unknown track type \"%s\"" %
+                                    track_type)
 
     def query(self):
         assert self.accepted
-- 
2.43.0


From 01729d098596691110efdd911409f2543b780218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 13/40] fix: do not count idle checks as signs of life of v2
 clients

The idle check of a protocol version 2 connection is to keep the
connection from being timed out. It says nothing about when the client
was last heard from, so it should not change the idle time reported to
other clients.
---
 paf/sd.py     | 12 +++++++++++-
 paf/server.py |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/paf/sd.py b/paf/sd.py
index 9f3eff1..90fdc0c 100644
--- a/paf/sd.py
+++ b/paf/sd.py
@@ -390,13 +390,15 @@ class Connection:
     def is_stale(self):
         return not self.is_connected() and len(self.services) == 0
 
-    def active(self):
+    def keep_alive(self):
         if self.idle_state != IdleState.TIMED_OUT:
             self.idle_state = IdleState.ACTIVE
 
             if self.idle_limit is not None:
                 self.install_idle_warning_timer()
 
+    def active(self):
+        self.keep_alive()
         self.last_seen = time.time()
 
     def check_idle(self):
@@ -665,6 +667,10 @@ class Client:
     def active(self):
         self.active_connection.active()
 
+    @assure_connected
+    def keep_alive(self):
+        self.active_connection.keep_alive()
+
     @assure_connected
     def check_idle(self):
         self.active_connection.check_idle()
@@ -788,6 +794,10 @@ class ServiceDiscovery:
         client = self.db.get_client(client_id)
         client.active()
 
+    def client_keep_alive(self, client_id):
+        client = self.db.get_client(client_id)
+        client.keep_alive()
+
     def has_client(self, client_id):
         return self.db.has_client(client_id)
 
diff --git a/paf/server.py b/paf/server.py
index eb53627..4feb4a1 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -681,7 +681,7 @@ class Connection:
         # connection is used as an indication of the remote peer being
         # alive. If the connection is alive, the client is alive.
         if self.proto_version < 3:
-            self.sd.client_active(self.client_id)
+            self.sd.client_keep_alive(self.client_id)
         elif self.is_tracked() and not self.has_outstanding_track_query():
             self.track_query(self.tas[self.track_ta_id])
 
-- 
2.43.0


From 67967add90f11d4a14a40d49d758b5845daf1ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:52 +0000
Subject: [PATCH 14/40] fix: announce the next time-out also when an identical
 timer is cancelled

---
 paf/timer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/timer.py b/paf/timer.py
index bbb4696..d8e0e88 100644
--- a/paf/timer.py
+++ b/paf/timer.py
@@ -29,7 +29,7 @@ class TimerManager:
         return new_timer
 
     def remove(self, timer):
-        if timer is self.deque[0]:
+        if timer == self.deque[0]:
             self.deque.popleft()
             self.next_timeout_changed()
         else:
-- 
2.43.0


From 86c6f0fc02c1821c3d3c7e8b245293f40d5837e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:52 +0000
Subject: [PATCH 15/40] fix: do not fire time-outs removed or postponed by an
 earlier handler

---
 paf/eventloop.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/paf/eventloop.py b/paf/eventloop.py
index 2bcd5d4..6b23a1d 100644
--- a/paf/eventloop.py
+++ b/paf/eventloop.py
@@ -181,13 +181,17 @@ class EventLoop:
     def fire_timeouts(self):
         if len(self.source_timeout) > 0:
             now = time.time()
-            active_handlers = []
+            active_sources = []
             for source, timeout in self.source_timeout.items():
                 if now >= timeout:
+                    active_sources.append(source)
+            for source in active_sources:
+                # An earlier handler may have removed the source, or
+                # changed its timeout.
+                timeout = self.source_timeout.get(source)
+                if timeout is not None and now >= timeout:
                     handler = self.source_handler[source]
-                    active_handlers.append(handler)
-            for handler in active_handlers:
-                handler()
+                    handler()
 
     def fire_actives(self):
         while len(self.source_active) > 0:
-- 
2.43.0


From ae9e7a3c3bd5863b2d80c9bb31cd3f8a501e63c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:52 +0000
Subject: [PATCH 16/40] fix: stop the event loop even if a source remains
 active

---
 paf/eventloop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/eventloop.py b/paf/eventloop.py
index 6b23a1d..a31211a 100644
--- a/paf/eventloop.py
+++ b/paf/eventloop.py
@@ -194,7 +194,7 @@ class EventLoop:
                     handler()
 
     def fire_actives(self):
-        while len(self.source_active) > 0:
+        while len(self.source_active) > 0 and not self._stop:
             source = next(iter(self.source_active))
             handler = self.source_handler[source]
             handler()
-- 
2.43.0


From ad5dff9d01f767f9b877ae35cb9f27202b56e6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:52 +0000
Subject: [PATCH 17/40] fix: accept event sources whose descriptor is closed
 before removal

---
 paf/eventloop.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/paf/eventloop.py b/paf/eventloop.py
index a31211a..4d1a610 100644
--- a/paf/eventloop.py
+++ b/paf/eventloop.py
@@ -1,6 +1,7 @@
 # SPDX-License-Identifier: BSD-3-Clause
 # Copyright(c) 2020 Ericsson AB
 
+import errno
 import select
 import time
 import signal
@@ -138,8 +139,11 @@ class EventLoop:
             del self.source_fd[source]
             try:
                 self.epoll.unregister(fd)
-            except FileNotFoundError:
-                pass  # fd is closed, and thus removed from epoll
+            except OSError as e:
+                # fd is closed (and possibly reused), and thus removed
+                # from epoll
+                if e.errno not in (errno.EBADF, errno.ENOENT):
+                    raise
             del self.fd_source[fd]
 
     def changed_timeout(self, source):
-- 
2.43.0


From e8ac00acf3fb1f51d449ad6219d339e9a745c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:43 +0000
Subject: [PATCH 18/40] fix: import what the configuration module uses

---
 paf/conf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paf/conf.py b/paf/conf.py
index dcbc308..f53f679 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -2,6 +2,7 @@
 # Copyright(c) 2020 Ericsson AB
 
 import logging
+import logging.handlers
 
 import paf.sd as sd
 import paf.proto as proto
-- 
2.43.0


From b6cbf0b6fc3416a402cd1a549377659005a6daa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:10 +0000
Subject: [PATCH 19/40] fix: allow a client limit to be removed

---
 paf/conf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/paf/conf.py b/paf/conf.py
index f53f679..b25861d 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -137,6 +137,12 @@ class ResourcesClassConf:
     def set_limit(self, name, value):
         if not isinstance(value, int) or value < 0:
             raise FormatError("resource limit", value)
+        self._assign_limit(name, value)
+
+    def clear_limit(self, name):
+        self._assign_limit(name, None)
+
+    def _assign_limit(self, name, value):
         if name == "clients":
             self.resources[sd.ResourceType.CLIENT] = value
         elif name == "services":
@@ -146,9 +152,6 @@ class ResourcesClassConf:
         else:
             raise FormatError("resource type", name)
 
-    def clear_limit(self, name):
-        self.set_limit(self, name, None)
-
     def get_client_limit(self):
         return self.resources[sd.ResourceType.CLIENT]
 
-- 
2.43.0


From f18556c91f716e9c1090dedabc1485cb74eb9e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:10 +0000
Subject: [PATCH 20/40] fix: do not take booleans for integers in the
 configuration

---
 paf/conf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/paf/conf.py b/paf/conf.py
index b25861d..5db0e02 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -55,6 +55,11 @@ LOG_LEVELS = {
 FACILITY_NAMES = logging.handlers.SysLogHandler.facility_names
 
 
+def is_integer(value):
+    # In Python, a boolean is also an integer. In YAML, it is not.
+    return isinstance(value, int) and not isinstance(value, bool)
+
+
 def path(*args):
     return ".".join([arg for arg in args if len(arg) > 0])
 
@@ -135,7 +140,7 @@ class ResourcesClassConf:
         self.resources = sd.resources(clients=max_clients)
 
     def set_limit(self, name, value):
-        if not isinstance(value, int) or value < 0:
+        if not is_integer(value) or value < 0:
             raise FormatError("resource limit", value)
         self._assign_limit(name, value)
 
@@ -298,7 +303,8 @@ class Conf:
 
 
 def assure_type(value, value_type, path):
-    if not isinstance(value, value_type):
+    if not isinstance(value, value_type) or \
+       (value_type is int and not is_integer(value)):
         raise Error("parameter '%s' has invalid value type: '%s' (expected "
                     "'%s')" % (path, type(value), value_type))
 
-- 
2.43.0


From dfa52393568dd003260ea1f4e109c35e3592e106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:10 +0000
Subject: [PATCH 21/40] fix: refuse protocol version and idle settings of wrong
 type

---
 paf/conf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paf/conf.py b/paf/conf.py
index 5db0e02..bac4ab0 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -373,7 +373,7 @@ def domains_populate(conf, domains, path):
         version_min = proto.MIN_VERSION
         version_max = proto.MAX_VERSION
 
-        version = domain.get("protocol_version")
+        version = dict_lookup(domain, "protocol_version", dict, domain_path)
         if version is not None:
             version_path = "%s.protocol_version" % domain_path
 
@@ -392,7 +392,7 @@ def domains_populate(conf, domains, path):
                                domain_path, default=DEFAULT_IDLE_MAX,
                                required=False)
 
-        idle = domain.get("idle")
+        idle = dict_lookup(domain, "idle", dict, domain_path)
         if idle is not None:
             idle_path = "%s.idle" % domain_path
 
-- 
2.43.0


From 99cc404167accea9eb0ad000754b3154340e8d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:10 +0000
Subject: [PATCH 22/40] fix: report an invalid idle range as a configuration
 error

---
 paf/conf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paf/conf.py b/paf/conf.py
index bac4ab0..aeb5120 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -405,7 +405,10 @@ def domains_populate(conf, domains, path):
             idle_max = dict_lookup(idle, "max", int, idle_path,
                                    default=DEFAULT_IDLE_MAX, required=False)
 
-        idle_limit = sd.IdleLimit(idle_min, idle_max)
+        try:
+            idle_limit = sd.IdleLimit(idle_min, idle_max)
+        except ValueError as e:
+            raise Error("%s.idle: %s" % (domain_path, e))
 
         # 'addrs' is a legacy name for 'sockets'
         sockets = dict_lookup(domain, ["sockets", "addrs"], list, domain_path,
-- 
2.43.0


From 0ca89dba7603b54466841f33e049d1e74d4e3b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:10 +0000
Subject: [PATCH 23/40] fix: honour max_idle_time also when idle has only a
 lower bound

---
 paf/conf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/conf.py b/paf/conf.py
index aeb5120..7a99fcd 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -403,7 +403,7 @@ def domains_populate(conf, domains, path):
                 raise DuplicateFieldError(domain_path, "max_idle_time")
 
             idle_max = dict_lookup(idle, "max", int, idle_path,
-                                   default=DEFAULT_IDLE_MAX, required=False)
+                                   default=idle_max, required=False)
 
         try:
             idle_limit = sd.IdleLimit(idle_min, idle_max)
-- 
2.43.0


From 1658d3a57b5bd63c35dabe3161a87394b4312fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:10 +0000
Subject: [PATCH 24/40] fix: validate socket addresses and TLS attributes of
 the configuration

---
 paf/conf.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/paf/conf.py b/paf/conf.py
index 7a99fcd..d40effc 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -361,6 +361,17 @@ def assure_tls_addr(field_name, addr):
         raise FormatError(field_name, proto, ["tls", "utls"])
 
 
+TLS_ATTRS = ("cert", "key", "tc", "crl")
+
+
+def assure_tls_attrs(path, tls_attrs):
+    assure_type(tls_attrs, dict, path)
+    for attr_name, attr_value in tls_attrs.items():
+        if attr_name not in TLS_ATTRS:
+            raise FormatError("TLS attribute", attr_name, TLS_ATTRS)
+        assure_type(attr_value, str, "%s.%s" % (path, attr_name))
+
+
 def domains_populate(conf, domains, path):
     if domains is None:
         return
@@ -425,10 +436,12 @@ def domains_populate(conf, domains, path):
                     raise MissingFieldError(socket_path, "addr")
 
                 addr = socket["addr"]
+                assure_type(addr, str, "%s.addr" % socket_path)
 
                 if "tls" in socket:
                     assure_tls_addr("%s.addr" % socket_path, addr)
                     tls_attrs = socket["tls"]
+                    assure_tls_attrs("%s.tls" % socket_path, tls_attrs)
                 else:
                     tls_attrs = {}
 
-- 
2.43.0


From 7c4185dacfe0a4d93d919be9a5ca6e4b83042424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:10 +0000
Subject: [PATCH 25/40] fix: report malformed YAML as a configuration error

---
 paf/conf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/paf/conf.py b/paf/conf.py
index d40effc..f324fe9 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -483,6 +483,12 @@ def default():
 def load(conf_file):
     conf = Conf()
     import yaml
-    source = yaml.safe_load(open(conf_file).read())
+    with open(conf_file) as f:
+        try:
+            source = yaml.safe_load(f.read())
+        except Exception as e:
+            # Besides its own exceptions, PyYAML lets through those of
+            # Python's conversion functions.
+            raise Error("invalid YAML: %s" % e)
     populate(conf, source)
     return conf
-- 
2.43.0


From 5e68f4a71102676cd6ed1f30b91ba239af24416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:10 +0000
Subject: [PATCH 26/40] fix: explain invalid option values instead of failing
 internally

---
 paf/daemon.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/paf/daemon.py b/paf/daemon.py
index b63376e..be26ef7 100644
--- a/paf/daemon.py
+++ b/paf/daemon.py
@@ -158,9 +158,15 @@ def main(argv):
         elif opt == '-u':
             conf.log.set_syslog_socket(optval)
         elif opt == '-l':
-            conf.log.set_filter(optval)
+            try:
+                conf.log.set_filter(optval)
+            except paf.conf.Error as e:
+                early_error("Error parsing command line: %s." % e)
         elif opt == '-y':
-            conf.log.set_facility(optval)
+            try:
+                conf.log.set_facility(optval)
+            except paf.conf.Error as e:
+                early_error("Error parsing command line: %s." % e)
         elif opt == '-c':
             try:
                 clients = int(optval)
@@ -170,6 +176,8 @@ def main(argv):
                     conf.resources.total.set_limit("clients", clients)
             except ValueError:
                 early_error("Client limit must be an integer.")
+            except paf.conf.Error as e:
+                early_error("Error parsing command line: %s." % e)
         elif opt == '-r':
             hook = optval
         elif opt == '-v':
-- 
2.43.0


From 8c1e7c544dfb85f38b1929d09e8b943bfe988b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:00 +0000
Subject: [PATCH 27/40] fix: do not log to the console unless console logging
 is enabled

With syslog disabled and no log file, the root logger was left without
a handler, and the logging module's last-resort handler wrote warnings
and errors to standard error.
---
 paf/logging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paf/logging.py b/paf/logging.py
index cbe4df1..1152893 100644
--- a/paf/logging.py
+++ b/paf/logging.py
@@ -26,7 +26,9 @@ def configure(console=True, log_file=None, log_file_backup=0,
               filter_level=logging.INFO):
     logging.basicConfig(level=filter_level)
     if not console:
-        logger.handlers = []
+        # Without any handler at all, the logging module falls back to
+        # writing warnings and errors to the console.
+        logger.handlers = [logging.NullHandler()]
     if log_file is not None:
         file_handler = \
             logging.handlers.RotatingFileHandler(log_file,
-- 
2.43.0


From 940aaa6340fb3ae5a02e6bae1185e79ae1d1dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 28/40] fix: refuse a protocol version the client did not offer

A client limited to a range of protocol versions accepted any version
supported by the library, in case the server selected one outside the
range in its hello response.
---
 paf/client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/paf/client.py b/paf/client.py
index 53593c2..b12009e 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -308,6 +308,13 @@ class Client:
                                     "protocol version %d (required %d-%d)"
                                     % (selected_version, proto.MIN_VERSION,
                                        proto.MAX_VERSION))
+            version_min, version_max = self.proto_version_range
+            if selected_version < version_min or \
+               selected_version > version_max:
+                raise ProtocolError("Server selected protocol version %d, "
+                                    "which was not offered (offered %d-%d)"
+                                    % (selected_version, version_min,
+                                       version_max))
             self.proto_version = selected_version
 
             if self.tracker is not None and self.proto_version >= 3:
-- 
2.43.0


From 3c81df65c0edb0fce3dd2b4754212e0653822688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 29/40] fix: let the server complete a track transaction

A two-way transaction may be completed by the server, just like one
with multiple responses. The client library treated the complete message
as a protocol violation.
---
 paf/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paf/client.py b/paf/client.py
index b12009e..96d4043 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -105,8 +105,9 @@ class Transaction:
                 self.ta_type.ia_type == proto.InteractionType.SINGLE_RESPONSE)
                or
                (self.state == TransactionState.ACCEPTED and
-                self.ta_type.ia_type ==
-                proto.InteractionType.MULTI_RESPONSE))):
+                self.ta_type.ia_type in
+                (proto.InteractionType.MULTI_RESPONSE,
+                 proto.InteractionType.TWO_WAY)))):
             event = EventType.COMPLETE
             self.state = TransactionState.TERMINATED
         elif msg_type == proto.MSG_TYPE_FAIL:
-- 
2.43.0


From e5265f42fbb318c5958ff7103ae993b7c5150c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 30/40] fix: do not let an already terminated transaction fail

A blocking call made from within the callback reporting the end of a
transaction receives messages before that transaction is removed. A
second, failing, response was then handed to the callback, instead of
being treated as a protocol violation.
---
 paf/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paf/client.py b/paf/client.py
index 96d4043..7e53d79 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -110,7 +110,8 @@ class Transaction:
                  proto.InteractionType.TWO_WAY)))):
             event = EventType.COMPLETE
             self.state = TransactionState.TERMINATED
-        elif msg_type == proto.MSG_TYPE_FAIL:
+        elif (msg_type == proto.MSG_TYPE_FAIL and
+              self.state != TransactionState.TERMINATED):
             event = EventType.FAIL
             self.state = TransactionState.TERMINATED
         else:
-- 
2.43.0


From 8fce368f93f7a15a084ee0972a8b10732bf22140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 31/40] fix: allow a transaction to end within its own callback

With a blocking call made from within a transaction's callback, that
transaction may end before the callback returns. The client library then
failed with a KeyError.
---
 paf/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paf/client.py b/paf/client.py
index 7e53d79..4453200 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -484,7 +484,9 @@ class Client:
                                     "transaction %d" % in_msg.ta_id)
             transaction.consume_message(in_msg)
             if transaction.state == TransactionState.TERMINATED:
-                del self.transactions[in_msg.ta_id]
+                # It may already be gone, in case the callback itself
+                # received messages.
+                self.transactions.pop(in_msg.ta_id, None)
             return True
         except xcm.error as e:
             if e.errno == errno.EAGAIN:
-- 
2.43.0


From 42ea940f270206b835d634601c841a3e500926f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 32/40] fix: refuse an empty configured protocol version range

A domain file with a minimum protocol version above the maximum one made
the client connect and send that range to the server.
---
 paf/client.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paf/client.py b/paf/client.py
index 4453200..f23927d 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -252,6 +252,11 @@ class ServerConf:
                                 "is lower than lowest supported by "
                                 "client")
 
+        if self.proto_version_min > self.proto_version_max:
+            raise ProtocolError("Minimum configured protocol version "
+                                "is higher than maximum configured "
+                                "protocol version")
+
     def proto_version_range(self):
         return (self.proto_version_min, self.proto_version_max)
 
-- 
2.43.0


From 993c3f190b8819bad8120f32db3dd349315f64b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 33/40] fix: read attribute values before releasing the buffer

cast() does not keep a bytes object alive, so boolean and integer
attribute values were read from released memory.
---
 paf/xcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paf/xcm.py b/paf/xcm.py
index 258fc3d..86f34db 100644
--- a/paf/xcm.py
+++ b/paf/xcm.py
@@ -114,10 +114,10 @@ NONBLOCK = (1 << 0)
 
 def _attr_to_py(attr_type, attr_value, attr_len):
     if attr_type.value == ATTR_TYPE_BOOL:
-        bool_value = cast(attr_value.raw, POINTER(c_bool))
+        bool_value = cast(attr_value, POINTER(c_bool))
         return bool_value.contents.value
     elif attr_type.value == ATTR_TYPE_INT64:
-        int_value = cast(attr_value.raw, POINTER(c_long))
+        int_value = cast(attr_value, POINTER(c_long))
         return int_value.contents.value
     elif attr_type.value == ATTR_TYPE_STR:
         return bytes(attr_value.value).decode('utf-8')
-- 
2.43.0


From b3b1b1358891c9d25077abdc0771bfbd81917beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 34/40] fix: report a failure to change a socket's blocking
 mode

---
 paf/xcm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paf/xcm.py b/paf/xcm.py
index 86f34db..2d7e340 100644
--- a/paf/xcm.py
+++ b/paf/xcm.py
@@ -173,7 +173,9 @@ class Socket:
 
     @_assure_open
     def set_blocking(self, val):
-        xcm_set_blocking_c(self.xcm_socket, val)
+        rc = xcm_set_blocking_c(self.xcm_socket, val)
+        if rc < 0:
+            _raise_io_err()
 
     @_assure_open
     def is_blocking(self):
-- 
2.43.0


From aa5bc2674639f91d743228b6fc6fc53e8dbdc38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 35/40] fix: release the attribute map if an attribute has an
 invalid type

accept() also failed with UnboundLocalError instead of TypeError.
---
 paf/xcm.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/paf/xcm.py b/paf/xcm.py
index 2d7e340..4b830ff 100644
--- a/paf/xcm.py
+++ b/paf/xcm.py
@@ -143,8 +143,12 @@ def _attr_map_add(attr_map, attr_name, attr_value):
 
 def _attr_map_create(attrs):
     attr_map = xcm_attr_map_create_c()
-    for attr_name, attr_value in attrs.items():
-        _attr_map_add(attr_map, attr_name, attr_value)
+    try:
+        for attr_name, attr_value in attrs.items():
+            _attr_map_add(attr_map, attr_name, attr_value)
+    except Exception:
+        xcm_attr_map_destroy_c(attr_map)
+        raise
     return attr_map
 
 
@@ -258,8 +262,8 @@ class ServerSocket(Socket):
         Socket.__init__(self, xcm_socket)
 
     def accept(self, attrs={}):
+        attr_map = _attr_map_create(attrs)
         try:
-            attr_map = _attr_map_create(attrs)
             xcm_socket = xcm_accept_a_c(self.xcm_socket, attr_map)
             if xcm_socket:
                 return ConnectionSocket(xcm_socket)
@@ -270,9 +274,8 @@ class ServerSocket(Socket):
 
 
 def connect(addr, flags=0, attrs={}):
-    attr_map = None
+    attr_map = _attr_map_create(attrs)
     try:
-        attr_map = _attr_map_create(attrs)
         if flags == NONBLOCK:
             _attr_map_add(attr_map, "xcm.blocking", False)
         elif flags != 0:
-- 
2.43.0


From 149ee4119941be3f024d8caa31e39d2f44c78a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 36/40] fix: accept empty and single-bar property values in
 pafc

---
 app/pafc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/pafc b/app/pafc
index 5da2438..7958fbd 100755
--- a/app/pafc
+++ b/app/pafc
@@ -445,7 +445,7 @@ def parse_props(args):
     service_props = collections.defaultdict(set)
     for i in range(0, len(args), 2):
         value = args[i+1]
-        if value[0] == '|' and value[-1] == '|':
+        if len(value) >= 2 and value[0] == '|' and value[-1] == '|':
             value = value[1:-1]
         elif value.strip() == value:
             try:
-- 
2.43.0


From 0cd186c74026262b20111ec0e056c73d287a3988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 37/40] fix: only treat decimal integers as integers in pafc

---
 app/pafc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/app/pafc b/app/pafc
index 7958fbd..3f98314 100755
--- a/app/pafc
+++ b/app/pafc
@@ -10,6 +10,7 @@ import datetime
 import fcntl
 import getopt
 import os
+import re
 import signal
 import select
 import shlex
@@ -439,6 +440,10 @@ def init(server, client_id):
     return worker
 
 
+# unlike int(), don't accept underscores, blanks or non-ASCII digits
+INTEGER = re.compile('[+-]?[0-9]+')
+
+
 def parse_props(args):
     if len(args) % 2 != 0:
         raise ValueError("Service properties must be key-value pairs")
@@ -447,11 +452,8 @@ def parse_props(args):
         value = args[i+1]
         if len(value) >= 2 and value[0] == '|' and value[-1] == '|':
             value = value[1:-1]
-        elif value.strip() == value:
-            try:
-                value = int(value)
-            except ValueError:
-                pass
+        elif INTEGER.fullmatch(value):
+            value = int(value)
         service_props[args[i]].add(value)
     return service_props
 
-- 
2.43.0


From 646f83157b544cca241e961ca55c852eab99dbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 38/40] fix: survive unbalanced quotes in pafc services and
 track commands

---
 app/pafc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/app/pafc b/app/pafc
index 3f98314..e92454d 100755
--- a/app/pafc
+++ b/app/pafc
@@ -514,7 +514,11 @@ class PafCli(cmd.Cmd):
 
         This command is only available on protocol version 3 connections.
 """
-        args = shlex.split(line)
+        try:
+            args = shlex.split(line)
+        except ValueError as e:
+            print("%s." % e)
+            return
         if len(args) == 0:
             self.worker.cmd_track()
         elif len(args) == 1:
@@ -532,12 +536,15 @@ class PafCli(cmd.Cmd):
     def do_services(self, line):
         """services [<filter-expression>]
         List all services (optionally matching the filter expression)."""
-        args = shlex.split(line)
-        if len(args) == 1:
-            filter = args[0]
-        else:
-            filter = None
-        self.worker.cmd_services(filter=filter)
+        try:
+            args = shlex.split(line)
+            if len(args) == 1:
+                filter = args[0]
+            else:
+                filter = None
+            self.worker.cmd_services(filter=filter)
+        except ValueError as e:
+            print("%s." % e)
 
     def do_clients(self, line):
         """clients
-- 
2.43.0


From 2e038e6ee229f82735c80982e60f4e049d6b2c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 39/40] fix: reject superfluous arguments to pafc services and
 subscribe

---
 app/pafc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/pafc b/app/pafc
index e92454d..30950b7 100755
--- a/app/pafc
+++ b/app/pafc
@@ -540,8 +540,10 @@ class PafCli(cmd.Cmd):
             args = shlex.split(line)
             if len(args) == 1:
                 filter = args[0]
-            else:
+            elif len(args) == 0:
                 filter = None
+            else:
+                raise ValueError("Too many arguments")
             self.worker.cmd_services(filter=filter)
         except ValueError as e:
             print("%s." % e)
@@ -598,8 +600,10 @@ class PafCli(cmd.Cmd):
             args = shlex.split(line)
             if len(args) == 1:
                 filter = args[0]
-            else:
+            elif len(args) == 0:
                 filter = None
+            else:
+                raise ValueError("Too many arguments")
             self.worker.cmd_subscribe(filter=filter)
         except ValueError as e:
             print("%s." % e)
-- 
2.43.0


From 352f7e0f8e13361ed355518485ead5a190cdb252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 40/40] fix: report pafc track failures, and allow the user to
 try again

---
 app/pafc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/app/pafc b/app/pafc
index 30950b7..ab75a08 100755
--- a/app/pafc
+++ b/app/pafc
@@ -236,15 +236,20 @@ class Worker(Thread):
 
     def _cmd_track(self):
         if self.tracker is None:
-            self.tracker = Tracker(self.conn)
+            try:
+                tracker = Tracker(self.conn)
+            except client.Error as e:
+                self._fail(e)
+                return
 
             client.wait(self.conn,
-                        lambda: self.tracker.accepted or self.tracker.failed)
+                        lambda: tracker.accepted or tracker.failed)
 
-            if self.tracker.accepted:
+            if tracker.accepted:
+                self.tracker = tracker
                 self._ok()
             else:
-                self._fail(self.tracker.fail_reason)
+                self._fail(tracker.fail_reason)
         else:
             self._fail("Connection already has a track transaction.")
 
-- 
2.43.0


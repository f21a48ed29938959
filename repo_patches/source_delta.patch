From 5784a14c53f2a80e748b21c67cba4d5a3e13b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 01/56] fix: take all Proxy-Authenticate headers of a 407 in
 UacStateTrying

---
 sippy/UacStateTrying.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index 538b2b5..477839e 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -128,7 +128,7 @@ class UacStateTrying(UaStateGeneric):
                 if code == 401 and resp.countHFs('www-authenticate') != 0:
                     event.challenges = [x.getCopy() for x in resp.getHFs('www-authenticate')]
                 elif code == 407 and resp.countHFs('proxy-authenticate') != 0:
-                    event.challenges = [x.getCopy() for x in resp.getHF('proxy-authenticate')]
+                    event.challenges = [x.getCopy() for x in resp.getHFs('proxy-authenticate')]
         try:
             event.reason_rfc3326 = resp.getHFBody('reason')
         except:
-- 
2.43.0


From 512e29fa44966b20f5a868b20a3d5aa2366536e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 02/56] fix: don't re-send INVITE with credentials once the
 attempt has been cancelled

---
 sippy/UA.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 25fc904..e2347c0 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -219,7 +219,10 @@ class UA(object):
         self.update_ua(resp)
         code, reason = resp.getSCode()
         cseq, method = resp.getHFBody('cseq').getCSeq()
-        if method == 'INVITE' and not self.pass_auth and cseq in self.reqs:
+        # There is no point in re-trying the INVITE that is no longer wanted
+        abandoned = isinstance(self.state, \
+          (self.UacStateCancelling, self.UaStateFailed, self.UaStateDisconnected))
+        if method == 'INVITE' and not self.pass_auth and cseq in self.reqs and not abandoned:
             if code == 401 and self.processChallenge(resp, cseq, \
               'www-authenticate', 'authorization', tr.req_extra_headers):
                 return None
-- 
2.43.0


From aa92de072b6f5d75fc3e4d8fdd687b489f3f7d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 03/56] fix: let UAC delay the ACK when the INVITE carried no
 offer

---
 sippy/SipTransactionManager.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 7f520b4..1566b03 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -430,6 +430,7 @@ class SipTransactionManager(object):
             except IndexError:
                 t.expires = 300
             t.needack = True
+            t.no_offer = msg.getBody() is None
             t.ack = msg.genACK()
             t.cancel = msg.genCANCEL()
         else:
@@ -495,6 +496,7 @@ class SipTransactionManager(object):
                         t.resp_cb(msg, t)
             else:
                 # Final response - notify upper layer and remove transaction
+                late_ack = False
                 if t.needack:
                     # Prepare and send ACK if necessary
                     fcode = msg.getSCode()[0]
@@ -530,16 +532,19 @@ class SipTransactionManager(object):
                         t.ack.getHFBody('via').genBranch()
                     if rAddr == None:
                         rAddr = (t.address, t.userv.transport)
-                    if not t.uack:
+                    t.ack_rAddr = rAddr
+                    t.ack_checksum = checksum
+                    # When the INVITE had no offer the answer to the one in
+                    # the 2xx goes into the ACK, so that it's up to the UAC
+                    # to tell (via t.uack) if it wants the ACK be sent later
+                    late_ack = t.no_offer and fcode >= 200 and fcode < 300
+                    if not late_ack:
                         self.transmitMsg(t.userv, t.ack, rAddr[0], checksum, t.compact)
                         if t.req_out_cb != None:
                             t.req_out_cb(t.ack)
                     else:
                         t.state = UACK
-                        t.ack_rAddr = rAddr
-                        t.ack_checksum = checksum
                         self.l1rcache[checksum] = SipTMRetransmitO()
-                        t.teG = Timeout(self.timerG, 64, 1, t)
                 else:
                     self.l1rcache[checksum] = SipTMRetransmitO()
                 if t.resp_cb != None:
@@ -547,7 +552,14 @@ class SipTransactionManager(object):
                         t.resp_cb(msg)
                     else:
                         t.resp_cb(msg, t)
-                if t.state == UACK:
+                if late_ack:
+                    if t.tid is None:
+                        # ACK has been already sent by the callback
+                        return
+                    if not t.uack:
+                        self.sendACK(t)
+                    else:
+                        t.teG = Timeout(self.timerG, 64, 1, t)
                     return
                 del self.tclient[t.tid]
                 t.cleanup()
-- 
2.43.0


From cf98e408120323dcc75b44513deec9e856b9841a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 04/56] fix: apply credit time from the authorisation response
 to routes without their own

---
 sippy/B2B/Route.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/B2B/Route.py b/sippy/B2B/Route.py
index ab76deb..d77ccfb 100644
--- a/sippy/B2B/Route.py
+++ b/sippy/B2B/Route.py
@@ -214,7 +214,7 @@ class B2BRoute(object):
         if not self.cli_set:
             self._cli = default_cli
         if not self.crt_set:
-            self.crt_set = default_credit_time
+            self.credit_time = default_credit_time
         if 'gt' in self.params:
             timeout, skip = self.params['gt'].split(',', 1)
             self.params['group_timeout'] = (int(timeout), rnum + int(skip))
-- 
2.43.0


From d9bc8dee8bcfa50e546a037a5ea3b2fad7e7b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 05/56] fix: compute session time of interim accounting records
 from the monotonic clock

---
 sippy/RadiusAccounting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/RadiusAccounting.py b/sippy/RadiusAccounting.py
index f146581..87903d6 100644
--- a/sippy/RadiusAccounting.py
+++ b/sippy/RadiusAccounting.py
@@ -27,6 +27,7 @@
 
 from time import time, strftime, gmtime
 from sippy.Time.Timeout import Timeout
+from sippy.Time.MonoTime import MonoTime
 
 sipErrToH323Err = {400:('7f', 'Interworking, unspecified'), 401:('39', 'Bearer capability not authorized'), \
   402:('15', 'Call rejected'), 403:('39', 'Bearer capability not authorized'), 404:('1', 'Unallocated number'), \
@@ -121,7 +122,7 @@ class RadiusAccounting(object):
         if not self.complete:
             return
         if rtime == None:
-            rtime = time()
+            rtime = MonoTime()
         if ua != None:
             duration, delay, connected = ua.getAcct()[:3]
         else:
-- 
2.43.0


From 7e151b6533d81429f36b7cb5eae2eed93e3a4536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 06/56] fix: make the group timeout work with B2BRoute objects
 and skipped routes

---
 sippy/b2bua.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index e1380d8..86e26b8 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -403,17 +403,17 @@ class CallController(object):
             self.global_config['_cmap'].ccmap.remove(self)
 
     def group_expires(self, skipto):
-        if self.state != CCStateARComplete or len(self.routes) == 0 or self.routes[0][0] > skipto or \
+        if self.state != CCStateARComplete or len(self.routes) == 0 or self.routes[0].rnum > skipto or \
           (not isinstance(self.uaA.state, self.uaA.UasStateTrying) and not isinstance(self.uaA.state, self.uaA.UasStateRinging)):
             return
         # When the last group in the list has timeouted don't disconnect
         # the current attempt forcefully. Instead, make sure that if the
         # current originate call leg fails no more routes will be
         # processed.
-        if skipto == self.routes[-1][0] + 1:
+        if skipto > self.routes[-1].rnum:
             self.routes = []
             return
-        while self.routes[0][0] != skipto:
+        while self.routes[0].rnum < skipto:
             self.routes.pop(0)
         self.uaO.disconnect()
 
-- 
2.43.0


From c5d1a01f6e01543d135c1f1f74ef3b9c22303c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 07/56] fix: keep session parameters negotiated earlier when a
 re-INVITE fails

---
 sippy/UA.py               | 11 +++++++++++
 sippy/UaStateConnected.py |  8 +++++++-
 sippy/UacStateUpdating.py |  2 +-
 sippy/UasStateUpdating.py | 15 ++++++++++++---
 4 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index e2347c0..7bd6226 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -72,6 +72,7 @@ class UA(object):
     uasResp = None
     lSDP = None
     rSDP = None
+    saved_sdp = None
     kaInterval = 0
     branch = None
     reqs = None
@@ -452,6 +453,16 @@ class UA(object):
             self.remote_ua = msg.getHFBody('server').name
         return
 
+    def saveSDP(self):
+        self.saved_sdp = (self.lSDP, self.rSDP)
+
+    def restoreSDP(self):
+        # Session update did not succeed, so that the parameters negotiated
+        # earlier are still in effect
+        if self.saved_sdp is not None:
+            self.lSDP, self.rSDP = self.saved_sdp
+            self.saved_sdp = None
+
     def cancelCreditTimer(self):
         if self.credit_timer != None:
             self.credit_timer.cancel()
diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 30697fb..0cc89a2 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -66,6 +66,11 @@ class UaStateConnected(UaStateGeneric):
         self.ua.uasResp = req.genResponse(100, 'Trying', server = self.ua.local_ua)
         self.ua.global_config['_sip_tm'].sendResponse(self.ua.uasResp)
         body = req.getBody()
+        self.ua.saveSDP()
+        if body is None and self.ua.rSDP is None:
+            # There is nothing to put on hold
+            self.ua.sendUasResponse(488, 'Not Acceptable Here')
+            return None
         if body is None:
             # Some brain-damaged stacks use body-less re-INVITE as a means
             # for putting session on hold. Quick and dirty hack to make this
@@ -184,7 +189,7 @@ class UaStateConnected(UaStateGeneric):
     def _recvEventUpdate(self, event, eh):
         body = event.getData()
         fake_laddr = (('127.0.0.1', None), None)
-        if self.ua.lSDP.localStr(fake_laddr) == body.localStr(fake_laddr):
+        if self.ua.lSDP is not None and self.ua.lSDP.localStr(fake_laddr) == body.localStr(fake_laddr):
             if self.ua.rSDP is not None:
                 self.ua.equeue.append(CCEventConnect((200, 'OK', self.ua.rSDP.getCopy()), \
                     rtime = event.rtime, origin = event.origin))
@@ -213,6 +218,7 @@ class UaStateConnected(UaStateGeneric):
             max_forwards_hf = None
         req = self.ua.genRequest('INVITE', body, extra_headers = eh, \
           max_forwards = max_forwards_hf)
+        self.ua.saveSDP()
         self.ua.lSDP = body
         self.ua.newUacTransaction(req, req_extra_headers = eh)
         return (self.ua.UacStateUpdating,)
diff --git a/sippy/UacStateUpdating.py b/sippy/UacStateUpdating.py
index a3009c2..78b3707 100644
--- a/sippy/UacStateUpdating.py
+++ b/sippy/UacStateUpdating.py
@@ -88,6 +88,7 @@ class UacStateUpdating(UaStateGeneric):
                 self.ua.rSDP = None
             self.ua.equeue.append(event)
             return (self.ua.UaStateConnected,)
+        self.ua.restoreSDP()
         try:
             reason_rfc3326 = resp.getHFBody('reason')
         except:
@@ -100,7 +101,6 @@ class UacStateUpdating(UaStateGeneric):
             scode = (code, reason, body, redirects)
             event = CCEventRedirect(scode, rtime = resp.rtime, origin = self.ua.origin)
         else:
-            self.ua.lSDP = None
             event = CCEventFail(scode, rtime = resp.rtime, origin = self.ua.origin)
         event.reason_rfc3326 = reason_rfc3326
 
diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index c2af2bc..d66866c 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -58,6 +58,15 @@ class UasStateUpdating(UasStateGeneric):
       'REFER': _recvRequestRefer,
     }
 
+    def _recvEventRing(self, event, eh):
+        super()._recvEventRing(event, eh)
+        return None
+
+    def _recvEventRedirect(self, event, eh):
+        self.ua.restoreSDP()
+        super()._recvEventRedirect(event, eh)
+        return (self.ua.UaStateConnected,)
+
     def _recvEventConnect(self, event, eh):
         cdata = self._getConnectData(event)
         if cdata is None:
@@ -68,7 +77,7 @@ class UasStateUpdating(UasStateGeneric):
         return (self.ua.UaStateConnected,)
 
     def _recvEventFail(self, event, eh):
-        self.ua.rSDP = None
+        self.ua.restoreSDP()
         self._sendFailResponse(event, eh)
         return (self.ua.UaStateConnected,)
 
@@ -81,9 +90,9 @@ class UasStateUpdating(UasStateGeneric):
         return (self.ua.UaStateDisconnected, self.ua.disc_cbs, event.rtime, event.origin)
 
     recv_event_handlers = {
-      CCEventRing: UasStateGeneric._recvEventRing,
+      CCEventRing: _recvEventRing,
       CCEventConnect: _recvEventConnect,
-      CCEventRedirect: UasStateGeneric._recvEventRedirect,
+      CCEventRedirect: _recvEventRedirect,
       CCEventFail: _recvEventFail,
       CCEventDisconnect: _recvEventDisconnect,
     }
-- 
2.43.0


From ab8b088fa2e9b52a8c31c62b384613e0e3d2a120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 08/56] fix: initialize teG of the client transaction

---
 sippy/SipTransactionManager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 1566b03..763bc0c 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -445,6 +445,7 @@ class SipTransactionManager(object):
             t.r408 = msg.genResponse(408, 'Request Timeout')
         t.teB = Timeout(self.timerB, 32.0, 1, t)
         t.teC = None
+        t.teG = None
         t.state = TRYING
         self.tclient[t.tid] = t
         self.transmitData(t.userv, t.data, t.address)
-- 
2.43.0


From f080ccc881140fea77a3677d3f519ae05f7f9536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 09/56] fix: refuse calls that are out of hops before setting
 up the outbound leg

---
 sippy/b2bua.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 86e26b8..d3db085 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -286,6 +286,10 @@ class CallController(object):
         self.placeOriginate(self.routes.pop(0))
 
     def placeOriginate(self, oroute):
+        if self.eTry.max_forwards != None and self.eTry.max_forwards <= 1:
+            self.uaA.recvEvent(CCEventFail((483, 'Too Many Hops')))
+            self.state = CCStateDead
+            return
         cId, cli, cld, body, auth, caller_name = self.eTry.getData()
         cld = oroute.cld
         self.huntstop_scodes = oroute.params.get('huntstop_scodes', ())
@@ -351,10 +355,6 @@ class CallController(object):
           oroute.params.get('caller_name', self.caller_name)))
         if self.eTry.max_forwards != None:
             event.max_forwards = self.eTry.max_forwards - 1
-            if event.max_forwards <= 0:
-                self.uaA.recvEvent(CCEventFail((483, 'Too Many Hops')))
-                self.state = CCStateDead
-                return
         event.reason_rfc3326 = self.eTry.reason_rfc3326
         po_proc = oroute.params.get('po_proc', None)
         if po_proc is not None:
-- 
2.43.0


From f1106016feae0bffa3fed93ff0212889dbe8bfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 10/56] fix: follow the remote target refreshed by re-INVITE

---
 sippy/UA.py                 | 27 +++++++++++++++++++++++++++
 sippy/UaStateConnected.py   |  5 +++++
 sippy/UacStateCancelling.py |  2 ++
 sippy/UacStateTrying.py     |  2 ++
 sippy/UacStateUpdating.py   |  3 +++
 sippy/UasStateIdle.py       |  2 ++
 6 files changed, 41 insertions(+)

diff --git a/sippy/UA.py b/sippy/UA.py
index 7bd6226..37553d2 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -38,6 +38,8 @@ from sippy.Time.MonoTime import MonoTime
 from sippy.Time.Timeout import TimeoutAbsMono
 from sippy.Exceptions.SdpParseError import SdpHandlingErrors
 from sippy.SipConf import SipConf
+from sippy.SipAddress import SipAddress
+from sippy.SipRoute import SipRoute
 
 class UA(object):
     global_config = None
@@ -69,6 +71,8 @@ class UA(object):
     rAddr0 = None
     routes = None
     rTarget = None
+    target_in_routes = False
+    newTarget = None
     uasResp = None
     lSDP = None
     rSDP = None
@@ -341,6 +345,10 @@ class UA(object):
                 uasResp.appendHeader(SipHeader(name = 'contact', body = contact))
         if extra_headers is not None:
             uasResp.appendHeaders(extra_headers)
+        if scode >= 200:
+            if scode < 300 and self.newTarget is not None:
+                self.refreshTarget(self.newTarget)
+            self.newTarget = None
         if ack_wait:
             ack_cb = self.recvACK
         else:
@@ -348,6 +356,25 @@ class UA(object):
         self.global_config['_sip_tm'].sendResponse(uasResp, ack_cb = ack_cb, \
           lossemul = self.uas_lossemul)
 
+    def getContactURL(self, msg):
+        if msg.countHFs('contact') == 0:
+            return None
+        contact = msg.getHFBody('contact')
+        if contact.asterisk:
+            return None
+        return contact.getUrl().getCopy()
+
+    def refreshTarget(self, target):
+        # The peer has changed its contact by means of the re-INVITE or
+        # the 2xx response to it. The route set stays the same (RFC3261 12.2).
+        if len(self.routes) == 0:
+            self.rTarget = target
+            self.rAddr = target.getTAddr()
+        elif self.target_in_routes:
+            self.routes[-1] = SipRoute(address = SipAddress(url = target))
+        else:
+            self.rTarget = target
+
     def recvACK(self, req):
         if not self.isConnected():
             return
diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 0cc89a2..6d4c832 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -63,6 +63,7 @@ class UaStateConnected(UaStateGeneric):
         return None
 
     def _recvRequestInvite(self, req):
+        self.ua.newTarget = self.ua.getContactURL(req)
         self.ua.uasResp = req.genResponse(100, 'Trying', server = self.ua.local_ua)
         self.ua.global_config['_sip_tm'].sendResponse(self.ua.uasResp)
         body = req.getBody()
@@ -288,6 +289,10 @@ class UaStateConnected(UaStateGeneric):
             return
         if code < 200:
             return
+        if code < 300:
+            target = self.ua.getContactURL(resp)
+            if target is not None:
+                self.ua.refreshTarget(target)
         self.ka_tr = None
         self.keepalives += 1
         if code in (408, 481, 486):
diff --git a/sippy/UacStateCancelling.py b/sippy/UacStateCancelling.py
index a3d99a9..2f5b9f7 100644
--- a/sippy/UacStateCancelling.py
+++ b/sippy/UacStateCancelling.py
@@ -76,10 +76,12 @@ class UacStateCancelling(UaStateGeneric):
             if len(self.ua.routes) > 0:
                 if not self.ua.routes[0].getUrl().lr:
                     self.ua.routes.append(SipRoute(address = SipAddress(url = self.ua.rTarget)))
+                    self.ua.target_in_routes = True
                     self.ua.rTarget = self.ua.routes.pop(0).getUrl()
                     self.ua.rAddr = self.ua.rTarget.getTAddr()
                 elif self.ua.outbound_proxy != None:
                     self.ua.routes.append(SipRoute(address = SipAddress(url = self.ua.rTarget)))
+                    self.ua.target_in_routes = True
                     self.ua.rTarget = self.ua.routes[0].getUrl().getCopy()
                     self.ua.rTarget.lr = False
                     self.ua.rTarget.other = tuple()
diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index 477839e..08f320f 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -168,10 +168,12 @@ class UacStateTrying(UaStateGeneric):
         if len(self.ua.routes) > 0:
             if not self.ua.routes[0].getUrl().lr:
                 self.ua.routes.append(SipRoute(address = SipAddress(url = self.ua.rTarget)))
+                self.ua.target_in_routes = True
                 self.ua.rTarget = self.ua.routes.pop(0).getUrl()
                 self.ua.rAddr = self.ua.rTarget.getTAddr()
             elif self.ua.outbound_proxy != None:
                 self.ua.routes.append(SipRoute(address = SipAddress(url = self.ua.rTarget)))
+                self.ua.target_in_routes = True
                 self.ua.rTarget = self.ua.routes[0].getUrl().getCopy()
                 self.ua.rTarget.lr = False
                 self.ua.rTarget.other = tuple()
diff --git a/sippy/UacStateUpdating.py b/sippy/UacStateUpdating.py
index 78b3707..07d6ebd 100644
--- a/sippy/UacStateUpdating.py
+++ b/sippy/UacStateUpdating.py
@@ -62,6 +62,9 @@ class UacStateUpdating(UaStateGeneric):
                 self.ua.equeue.append(CCEventRing(scode, rtime = resp.rtime, origin = self.ua.origin))
             return None
         if code >= 200 and code < 300:
+            target = self.ua.getContactURL(resp)
+            if target is not None:
+                self.ua.refreshTarget(target)
             event = CCEventConnect(scode, rtime = resp.rtime, origin = self.ua.origin)
             if body is not None:
                 if self.ua.on_remote_sdp_change != None:
diff --git a/sippy/UasStateIdle.py b/sippy/UasStateIdle.py
index 96be6cf..4c5c4eb 100644
--- a/sippy/UasStateIdle.py
+++ b/sippy/UasStateIdle.py
@@ -54,10 +54,12 @@ class UasStateIdle(UaStateGeneric):
         if len(self.ua.routes) > 0:
             if not self.ua.routes[0].getUrl().lr:
                 self.ua.routes.append(SipRoute(address = SipAddress(url = self.ua.rTarget)))
+                self.ua.target_in_routes = True
                 self.ua.rTarget = self.ua.routes.pop(0).getUrl()
                 self.ua.rAddr = self.ua.rTarget.getTAddr()
             elif self.ua.outbound_proxy != None:
                 self.ua.routes.append(SipRoute(address = SipAddress(url = self.ua.rTarget)))
+                self.ua.target_in_routes = True
                 self.ua.rTarget = self.ua.routes[0].getUrl().getCopy()
                 self.ua.rTarget.lr = False
                 self.ua.rTarget.other = tuple()
-- 
2.43.0


From c8ea4d5e7c72db006107c172500658690f450c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 11/56] fix: survive external command that dies, report the
 failed job and start it again

---
 sippy/External_command.py | 74 ++++++++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 21 deletions(-)

diff --git a/sippy/External_command.py b/sippy/External_command.py
index 36d40f1..700cebc 100644
--- a/sippy/External_command.py
+++ b/sippy/External_command.py
@@ -28,7 +28,6 @@ from threading import Condition
 from subprocess import Popen, PIPE
 from sys import platform
 from threading import Thread, Lock
-from errno import EINTR
 
 from sippy.Core.Exceptions import dump_exception
 from sippy.Core.EventDispatcher import ED2
@@ -46,12 +45,47 @@ class _Worker(Thread):
         self.master = master
         self.start()
 
-    def run(self):
+    def spawn(self):
         need_close_fds = True
         if platform == 'win32':
             need_close_fds = False
-        pipe = Popen(self.command, shell = False, stdin = PIPE, \
-          stdout = PIPE, stderr = PIPE, close_fds = need_close_fds)
+        try:
+            return Popen(self.command, shell = False, stdin = PIPE, \
+              stdout = PIPE, stderr = PIPE, close_fds = need_close_fds)
+        except OSError:
+            dump_exception('External_command: cannot start external command')
+            return None
+
+    def reap(self, pipe):
+        # The command has died or closed its pipes, whatever it was
+        # doing is lost, get rid of it
+        for cleanup in (pipe.kill, pipe.wait, pipe.stdin.close, pipe.stdout.close, pipe.stderr.close):
+            try:
+                cleanup()
+            except OSError:
+                pass
+
+    def execute(self, pipe, data):
+        # Returns None if the command has gone before completing the answer
+        batch = [x.encode(errors = 'replace') + b'\n' for x in data]
+        batch.append(b'\n')
+        result = []
+        try:
+            pipe.stdin.writelines(batch)
+            pipe.stdin.flush()
+            while True:
+                line = pipe.stdout.readline()
+                if len(line) == 0:
+                    return None
+                line = line.strip()
+                if len(line) == 0:
+                    return tuple(result)
+                result.append(line)
+        except OSError:
+            return None
+
+    def run(self):
+        pipe = self.spawn()
         while True:
             self.master.work_available.acquire()
             while len(self.master.work) == 0:
@@ -69,23 +103,21 @@ class _Worker(Thread):
                 wi.result_callback = None
                 wi.callback_parameters = None
                 continue
-            batch = [x.encode() + b'\n' for x in wi.data]
-            batch.append(b'\n')
-            pipe.stdin.writelines(batch)
-            pipe.stdin.flush()
-            result = []
-            while True:
-                try:
-                    line = pipe.stdout.readline().strip()
-                except IOError as e:
-                    # Catch EINTR
-                    if e.args[0] != EINTR:
-                        raise e
-                    continue
-                if len(line) == 0:
-                    break
-                result.append(line)
-            ED2.callFromThread(self.master.process_result, wi.result_callback, tuple(result), *wi.callback_parameters)
+            if pipe != None and pipe.poll() != None:
+                self.reap(pipe)
+                pipe = None
+            if pipe == None:
+                pipe = self.spawn()
+            result = None
+            if pipe != None:
+                result = self.execute(pipe, wi.data)
+                if result == None:
+                    self.reap(pipe)
+                    pipe = None
+            if result == None:
+                # Failure, report as an empty result
+                result = ()
+            ED2.callFromThread(self.master.process_result, wi.result_callback, result, *wi.callback_parameters)
             wi.data = None
             wi.result_callback = None
             wi.callback_parameters = None
-- 
2.43.0


From e0947f4089e98ab99e4f06e34b1d5c2abe31a165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 12/56] fix: treat garbage from the radius client as a failed
 request

---
 sippy/Radius_client.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/sippy/Radius_client.py b/sippy/Radius_client.py
index 8c7b4d4..9cd0cd8 100644
--- a/sippy/Radius_client.py
+++ b/sippy/Radius_client.py
@@ -67,14 +67,19 @@ class Radius_client(External_command):
         if result_callback == None:
             return
         nav = []
-        for av in result[:-1]:
-            a, v = [x.strip() for x in av.decode().split(' = ', 1)]
-            v = v.strip('\'')
-            if (a == 'Cisco-AVPair' or a in self._cisco_vsa_names):
-                t = v.split('=', 1)
-                if len(t) > 1:
-                    a, v = t
-            elif v.startswith(a + '='):
-                v = v[len(a) + 1:]
-            nav.append((a, v))
-        External_command.process_result(self, result_callback, (tuple(nav), int(result[-1])), *callback_parameters)
+        try:
+            for av in result[:-1]:
+                a, v = [x.strip() for x in av.decode().split(' = ', 1)]
+                v = v.strip('\'')
+                if (a == 'Cisco-AVPair' or a in self._cisco_vsa_names):
+                    t = v.split('=', 1)
+                    if len(t) > 1:
+                        a, v = t
+                elif v.startswith(a + '='):
+                    v = v[len(a) + 1:]
+                nav.append((a, v))
+            rcode = int(result[-1])
+        except (ValueError, IndexError):
+            # No result or garbage in there, not to be trusted
+            nav, rcode = [], -1
+        External_command.process_result(self, result_callback, (tuple(nav), rcode), *callback_parameters)
-- 
2.43.0


From 2bbe7de8c566c24c9b2cad8040ef7018d3c02b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 13/56] fix: keep line ends in attribute values out of the
 radius client requests

---
 sippy/Radius_client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/Radius_client.py b/sippy/Radius_client.py
index 9cd0cd8..f4556df 100644
--- a/sippy/Radius_client.py
+++ b/sippy/Radius_client.py
@@ -54,7 +54,9 @@ class Radius_client(External_command):
                 a = 'Cisco-AVPair'
             elif a in self._cisco_vsa_names:
                 v = '%s=%s' % (str(a), str(v))
-            data.append('%s="%s"' % (str(a), str(v)))
+            # Each attribute takes exactly one line of the request
+            v = ' '.join(str(v).splitlines())
+            data.append('%s="%s"' % (str(a), v))
         return data
 
     def do_auth(self, attributes, result_callback, *callback_parameters):
-- 
2.43.0


From 61dd3f9e184aab4940de81af3da0538168bd89dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 14/56] fix: pass the challenge along with the 401 when
 authorisation is refused

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index d3db085..8fe66a7 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -224,7 +224,7 @@ class CallController(object):
             if isinstance(self.uaA.state, self.uaA.UasStateTrying):
                 if self.challenge != None:
                     event = CCEventFail((401, 'Unauthorized'))
-                    event.extra_header = self.challenge
+                    event.challenges = [self.challenge,]
                 else:
                     event = CCEventFail((403, 'Auth Failed'))
                 self.uaA.recvEvent(event)
-- 
2.43.0


From 46a6af556b69f11139b7c1fd4d0e90dce7ed16cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 15/56] fix: don't trust received parameter of the topmost Via
 supplied by the peer

---
 sippy/SipTransactionManager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 763bc0c..a3e829a 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -346,7 +346,7 @@ class SipTransactionManager(object):
             if ra.transport != 'wss' and self.nat_traversal and rport != aport \
               and (check1918(ahost) or check7118(ahost)):
                 req.nated = True
-            if ahost != rhost:
+            if ahost != rhost or 'received' in via0.params:
                 via0.params['received'] = ra.received
             if 'rport' in via0.params or req.nated:
                 via0.params['rport'] = str(rport)
-- 
2.43.0


From 5430ff001a13ba55fc620f2cbc272a8e71c9079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:51 +0000
Subject: [PATCH 16/56] fix: don't capture standard error of the external
 command that nobody reads

---
 sippy/External_command.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/External_command.py b/sippy/External_command.py
index 700cebc..c6437e1 100644
--- a/sippy/External_command.py
+++ b/sippy/External_command.py
@@ -51,7 +51,7 @@ class _Worker(Thread):
             need_close_fds = False
         try:
             return Popen(self.command, shell = False, stdin = PIPE, \
-              stdout = PIPE, stderr = PIPE, close_fds = need_close_fds)
+              stdout = PIPE, close_fds = need_close_fds)
         except OSError:
             dump_exception('External_command: cannot start external command')
             return None
@@ -59,7 +59,7 @@ class _Worker(Thread):
     def reap(self, pipe):
         # The command has died or closed its pipes, whatever it was
         # doing is lost, get rid of it
-        for cleanup in (pipe.kill, pipe.wait, pipe.stdin.close, pipe.stdout.close, pipe.stderr.close):
+        for cleanup in (pipe.kill, pipe.wait, pipe.stdin.close, pipe.stdout.close):
             try:
                 cleanup()
             except OSError:
-- 
2.43.0


From 0b060bbefb019a477a7dd82585e5efe6b9c7175c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 17/56] fix: don't restart while calls are still waiting for a
 route or being disconnected

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 8fe66a7..6156328 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -580,7 +580,7 @@ class CallMap(object):
             print('[%d]: %d client, %d server transactions in memory' % \
               (os.getpid(), len(self.global_config['_sip_tm'].tclient), len(self.global_config['_sip_tm'].tserver)))
         if self.safe_restart:
-            if len(self.getActiveCalls()) == 0:
+            if all(x.state == CCStateDead for x in self.ccmap):
                 self.global_config['_sip_tm'].shutdown()
                 os.chdir(self.global_config['_orig_cwd'])
                 argv = [sys.executable,]
-- 
2.43.0


From 84f3ca4daf67af7566b03893833806489869cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 18/56] fix: console commands l, lt, llt, 'd *' and r with a
 non-number

---
 sippy/B2B/SimpleAPI.py | 20 ++++++++++++--------
 sippy/b2bua.py         |  2 +-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index 2f6c0c9..a5fdd49 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -54,7 +54,7 @@ class B2BSimpleAPI(CLIConnectionManager):
         if cmd == 'l':
             res = 'In-memory calls:\n'
             total = 0
-            for (cid, sname), uaast, uaost in ccm.listActiveCalls():
+            for cid, sname, uaast, uaost in ccm.listActiveCalls():
                 res += f'{cid}: {sname} ('
                 if uaast is not None:
                     _s, _t, _h, _p, _cld, _cli = uaast
@@ -72,10 +72,10 @@ class B2BSimpleAPI(CLIConnectionManager):
             return False
         if cmd == 'lt':
             res = 'In-memory server transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tserver.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tserver.items():
                 res += '%s %s %s\n' % (tid, t.method, t.state)
             res += 'In-memory client transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tclient.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tclient.items():
                 res += '%s %s %s\n' % (tid, t.method, t.state)
             clim.send(res)
             return False
@@ -86,13 +86,13 @@ class B2BSimpleAPI(CLIConnectionManager):
                 mindur = 0.0
             ctime = MonoTime()
             res = 'In-memory server transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tserver.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tserver.items():
                 duration = ctime - t.rtime
                 if duration < mindur:
                     continue
                 res += '%s %s %s %s\n' % (tid, t.method, t.state, duration)
             res += 'In-memory client transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tclient.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tclient.items():
                 duration = ctime - t.rtime
                 if duration < mindur:
                     continue
@@ -104,7 +104,7 @@ class B2BSimpleAPI(CLIConnectionManager):
                 clim.send('ERROR: syntax error: d <call-id>\n')
                 return False
             if args[0] == '*':
-                self.discAll()
+                ccm.discAll()
                 clim.send('OK\n')
                 return False
             dlist = [x for x in ccm.ccmap if str(x.cId) == args[0]]
@@ -119,8 +119,12 @@ class B2BSimpleAPI(CLIConnectionManager):
             if len(args) not in (1, 2):
                 clim.send('ERROR: syntax error: r <id> [<media-index>]\n')
                 return False
-            idx = int(args[0])
-            media_index = int(args[1]) if len(args) == 2 else 0
+            try:
+                idx = int(args[0])
+                media_index = int(args[1]) if len(args) == 2 else 0
+            except ValueError:
+                clim.send('ERROR: syntax error: r <id> [<media-index>]\n')
+                return False
             dlist = [x for x in ccm.ccmap if x.id == idx]
             if len(dlist) == 0:
                 clim.send('ERROR: no call with id of %d has been found\n' % idx)
diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 6156328..7d4c237 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -603,7 +603,7 @@ class CallMap(object):
             else:
                 r.append(None)
             if cc.uaO != None:
-                (_h, _p), _t = cc.uaA.getRAddr0()
+                (_h, _p), _t = cc.uaO.getRAddr0()
                 r.append((cc.uaO.state.sname, _t, _h, _p,
                          cc.uaO.getCLI(), cc.uaO.getCLD()))
             else:
-- 
2.43.0


From a57746a28b6f746b430dc565005bc0fb4e96b7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 19/56] fix: don't lose console connections, their answers and
 the acceptor on socket errors

---
 sippy/CLIManager.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/sippy/CLIManager.py b/sippy/CLIManager.py
index 1f9c47c..8d71380 100644
--- a/sippy/CLIManager.py
+++ b/sippy/CLIManager.py
@@ -31,6 +31,7 @@ from os import remove, chown, chmod, pipe, read, write, close
 import socket
 from errno import EPIPE, ENOTCONN, EBADF, ECONNABORTED
 from select import poll, POLLIN, POLLNVAL
+from time import sleep
 
 from threading import Thread, Condition
 
@@ -83,8 +84,10 @@ class _Acceptor(Thread):
                     continue
                 elif why.errno == EBADF:
                     break
-                else:
-                    raise
+                # out of descriptors, memory etc: no reason to stop listening
+                dump_exception('CLIConnectionManager: error accepting incoming connection')
+                sleep(0.1)
+                continue
             except Exception:
                 dump_exception('CLIConnectionManager: unhandled exception accepting incoming connection')
                 break
@@ -194,12 +197,9 @@ class _CLIManager_w(Thread):
             while True:
                 try:
                     res = self.clientsock.send(wbuffer)
-                except BrokenPipeError:
-                    self.clim = None
-                    return
                 except socket.error as why:
                     if why.errno != EBADF:
-                        raise
+                        ED2.callFromThread(self.clim.shutdown)
                     self.clim = None
                     return
                 if res == len(wbuffer):
@@ -244,11 +244,12 @@ class _CLIManager_r(Thread):
             try:
                 data = self.clientsock.recv(1024)
             except socket.error as msg:
-                if msg.errno in (EBADF,):
-                    break
-                raise
+                if msg.errno not in (EBADF,):
+                    ED2.callFromThread(self.clim.shutdown)
+                break
             if len(data) == 0:
-                ED2.callFromThread(self.clim.shutdown)
+                # send out whatever is pending first
+                ED2.callFromThread(self.clim.close)
                 break
             try:
                 rbuffer += data.decode('ascii')
-- 
2.43.0


From 17dbf04c71f418c7646f9cdd5e5bfe73c40490be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 20/56] fix: answer malformed requests and drop the transaction
 of a request nobody is going to answer

---
 sippy/SipTransactionManager.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index a3e829a..73f8099 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -332,7 +332,9 @@ class SipTransactionManager(object):
                 tids = req.getTIds()
             except Exception as exception:
                 if isinstance(exception, SipParseError):
-                    resp = exception.getResponse()
+                    # There is no request to generate a response from here, so
+                    # that it's either one made by the SipRequest or nothing
+                    resp = exception.sip_response
                     if resp is not None:
                         self.transmitMsg(server, resp, ra.address, checksum)
                 dump_exception(f'can\'t parse SIP request from {ra}', extra = data)
@@ -388,10 +390,14 @@ class SipTransactionManager(object):
                 resp = ex.getResponse(req)
                 self.sendResponse(resp)
             except SipParseError as ex:
+                self.abortRequest(req, checksum)
                 resp = ex.getResponse(req)
                 if resp is None:
                     raise ex
                 ex_sendResponse(resp)
+            except Exception:
+                self.abortRequest(req, checksum)
+                raise
 
     # 1. Client transaction methods
     def newTransaction(self, msg, resp_cb = None, laddress = None, userv = None, \
@@ -713,6 +719,18 @@ class SipTransactionManager(object):
             if resp != None:
                 self.sendResponse(resp, t, lossemul = resp.lossemul)
 
+    def abortRequest(self, msg, checksum):
+        # Handler of the request has failed, if it has not sent any response
+        # then nobody is ever going to do that, so get rid of the transaction.
+        t = self.tserver.get(msg.getTId(wBRN = True), None)
+        if t is None or t.rtime is not msg.rtime or t.state != TRYING:
+            return
+        if t.teE != None:
+            t.teE.cancel()
+        del self.tserver[t.tid]
+        t.cleanup()
+        self.l1rcache[checksum] = SipTMRetransmitO()
+
     def regConsumer(self, consumer, call_id, compact = False):
         cons = SipTransactionConsumer(consumer, compact)
         self.req_consumers.setdefault(call_id, []).append(cons)
-- 
2.43.0


From 94e37d64432188cd73ebff9c469e44c97ea5bbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 21/56] fix: do not leak the call when its first INVITE cannot
 be processed

---
 sippy/b2bua.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 7d4c237..988496b 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -56,6 +56,7 @@ from sippy.B2B.Route import B2BRoute, SRC_PROXY, SRC_WSS, DST_SIP_UA, DST_WSS_UA
 from sippy.Wss_server import Wss_server, Wss_server_opts
 from sippy.SipURL import SipURL
 from sippy.Exceptions.SdpParseError import SdpParseError
+from sippy.Exceptions.SipHandlingError import SipHandlingError
 
 from sippy.B2B.States import CCStateIdle, CCStateWaitRoute, CCStateARComplete, \
   CCStateConnected, CCStateDead, CCStateDisconnecting
@@ -452,11 +453,7 @@ class CallMap(object):
         return req_source if (aips is None or req_source in aips) else None
 
     def recvRequest(self, req, sip_t):
-        try:
-            to_tag = req.getHFBody('to').getTag()
-        except Exception as exception:
-            dump_exception('can\'t parse SIP request', extra = req)
-            return (None, None, None)
+        to_tag = req.getHFBody('to').getTag()
         if to_tag != None:
             # Request within dialog, but no such dialog
             return (req.genResponse(481, 'Call Leg/Transaction Does Not Exist'), None, None)
@@ -508,7 +505,18 @@ class CallMap(object):
                 self.global_config['_pre_auth_proc'](cc, req)
 
             cc.challenge = challenge
-            rval = cc.uaA.recvRequest(req, sip_t)
+            try:
+                rval = cc.uaA.recvRequest(req, sip_t)
+            except Exception as exception:
+                if cc.state != CCStateIdle:
+                    raise
+                # There is no call, get rid of what has been set up for it
+                cc.uaA.dead_cbs = ()
+                cc.uaA.changeState((cc.uaA.UaStateDead,))
+                if isinstance(exception, SipHandlingError):
+                    raise
+                dump_exception('can\'t process SIP request', extra = str(req))
+                return (req.genResponse(400, 'Bad Request'), None, None)
             self.ccmap.append(cc)
             return rval
         if self.proxy != None and req.getMethod() in ('REGISTER', 'SUBSCRIBE'):
-- 
2.43.0


From a2ac6f24990a9d0dbc48b3fc956ab8b7ebbb2b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 22/56] fix: release the leg properly when its SDP answer is
 not acceptable

---
 sippy/UacStateTrying.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index 08f320f..f384703 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -195,11 +195,22 @@ class UacStateTrying(UaStateGeneric):
             event = CCEventFail(scode, rtime = resp.rtime, origin = self.ua.origin)
             event.reason_rfc3326 = ex.getReason()
             code = resp.getSCode()[0]
+            newstate = self.ua.UaStateFailed
             if code < 200:
                 self.ua.global_config['_sip_tm'].cancelTransaction(self.ua.tr,
                   extra_headers = event.getExtraHeaders())
+                if self.ua.expire_timer != None:
+                    self.ua.expire_timer.cancel()
+                    self.ua.expire_timer = None
+                # 200 OK might be on its way already
+                newstate = self.ua.UacStateCancelling
             elif code >= 200 and code < 300:
+                if self.ua.pending_tr is not None:
+                    self.ua.global_config['_sip_tm'].sendACK(self.ua.pending_tr)
+                    self.ua.pending_tr = None
+                self.ua.cancelCreditTimer()
+                self.ua.connect_ts = None
                 self.genBYE()
             self.ua.equeue.append(event)
             self.ua.disconnect_ts = resp.rtime
-            return (self.ua.UaStateFailed, self.ua.fail_cbs, resp.rtime, self.ua.origin, ex.code)
+            return (newstate, self.ua.fail_cbs, resp.rtime, self.ua.origin, ex.code)
-- 
2.43.0


From ce7e4815a668fe7f57a196136e87480b3add403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 23/56] fix: release both legs when the SDP in ACK is not
 acceptable

---
 sippy/UaStateConnected.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 6d4c832..2076002 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -146,7 +146,15 @@ class UaStateConnected(UaStateGeneric):
             callback(self.ua, req.rtime, self.ua.origin)
         if body is not None:
             if self.ua.on_remote_sdp_change != None:
-                body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                try:
+                    body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                except SdpHandlingErrors as ex:
+                    # There is no way to reject an answer that comes in the
+                    # ACK, the only option left is to release both call legs
+                    event = CCEventFail((ex.code, ex.msg), rtime = req.rtime, origin = self.ua.origin)
+                    event.reason_rfc3326 = ex.getReason()
+                    self.ua.equeue.append(event)
+                    return self._recvEventFail(event, event.getExtraHeaders())
                 if body is None:
                     return None
             self.ua.rSDP = body.getCopy()
-- 
2.43.0


From 0c99a9b146ec75cdbbc80ac3e702833ee9dacd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 24/56] fix: do not let a bad destination port or a transient
 error kill the datagram server threads

---
 sippy/Udp_server.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index 81a7bd9..32ea99b 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -82,6 +82,10 @@ class AsyncSender(Thread):
                         return
                     if why.errno not in (EWOULDBLOCK, ENOBUFS, EAGAIN):
                         break
+                except Exception:
+                    # Bad port number for example
+                    dump_exception('Udp_server: unhandled exception when sending data to %s' % str(address))
+                    break
                 sleep(0.01)
         self.userv = None
 
@@ -116,10 +120,10 @@ class AsyncReceiver(Thread):
                     break
                 if why.errno in (EINTR,):
                     continue
-                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % self.my_pid)
+                dump_exception('Udp_server: unhandled exception when receiving incoming data')
                 continue
             except Exception:
-                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % self.my_pid)
+                dump_exception('Udp_server: unhandled exception when receiving incoming data')
                 sleep(1)
                 continue
             if self.userv.uopts.family == socket.AF_INET6:
-- 
2.43.0


From 5a4842d51ab4c1a8ff25032af1c74bc20b8d6858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 25/56] fix: honour the flags and the number of workers given
 to the datagram server

---
 sippy/Udp_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index 32ea99b..90c7476 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -148,7 +148,7 @@ class Udp_server_opts(Network_server_opts):
     def __init__(self, *args, family = None, o = None):
         super().__init__(*args, o=o)
         if o != None:
-            self.family = o.family
+            self.family, self.flags, self.nworkers = o.family, o.flags, o.nworkers
             return
         if family == None:
             if self.laddress != None and self.laddress[0].startswith('['):
-- 
2.43.0


From b577e0057b385c0a7c5ff0d76a62f9566024b627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 26/56] fix: artificially delayed datagrams to IPv6
 destinations were never sent

---
 sippy/Udp_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index 90c7476..a2359fd 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -228,7 +228,7 @@ class Udp_server(Network_server):
         if not isinstance(address, tuple):
             raise Exception('Invalid address, not a tuple: %s' % str(address))
         addr, port = address
-        if self.uopts.family == socket.AF_INET6:
+        if self.uopts.family == socket.AF_INET6 and not delayed:
             if not addr.startswith('['):
                 raise Exception('Invalid IPv6 address: %s' % addr)
             address = (addr[1:-1], port)
-- 
2.43.0


From f5fd3638b68fc8632732b4387745241f1d52bfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:17 +0000
Subject: [PATCH 27/56] fix: send whole commands to and read whole answers from
 the RTPproxy over a stream

---
 sippy/Rtp_proxy/Client/Worker/external.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/sippy/Rtp_proxy/Client/Worker/external.py b/sippy/Rtp_proxy/Client/Worker/external.py
index 097c99d..51d3d34 100644
--- a/sippy/Rtp_proxy/Client/Worker/external.py
+++ b/sippy/Rtp_proxy/Client/Worker/external.py
@@ -61,32 +61,35 @@ class RTPPLWorker_external(Thread):
         #print('%s.send_raw(%s)' % (id(self), command))
         if stime == None:
             stime = MonoTime()
-        while True:
+        data = command.encode()
+        while len(data) > 0:
             try:
-                self.s.send(command.encode())
-                break
+                data = data[self.s.send(data):]
             except socket.error as why:
                 if why.errno == EINTR:
                     continue
                 elif why.errno in (EPIPE, ENOTCONN, ECONNRESET):
                     self.s = None
                     return self.send_raw(command, _recurse, stime, why)
+                self.s = None
                 raise why
-        while True:
+        rval = b''
+        while not rval.endswith(b'\n'):
             try:
-                rval = self.s.recv(1024)
-                if len(rval) == 0:
+                data = self.s.recv(1024)
+                if len(data) == 0:
                     self.s = None
                     return self.send_raw(command, _recurse, stime)
-                rval = rval.decode('ascii').strip()
-                break
+                rval += data
             except socket.error as why:
                 if why.errno == EINTR:
                     continue
                 elif why.errno in (EPIPE, ENOTCONN, ECONNRESET):
                     self.s = None
                     return self.send_raw(command, _recurse, stime, why)
+                self.s = None
                 raise why
+        rval = rval.decode('ascii').strip()
         rtpc_delay = stime.offsetFromNow()
         return (rval, rtpc_delay)
 
-- 
2.43.0


From 573c5d371a4d26da2dd3fed9c2f80f8a96729bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:00 +0000
Subject: [PATCH 28/56] fix: a superseded outbound leg could end the call or
 start another attempt

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 988496b..7016640 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -207,7 +207,7 @@ class CallController(object):
             if self.state not in (CCStateARComplete, CCStateConnected, CCStateDisconnecting) or self.uaO == None:
                 return
             self.uaO.recvEvent(event)
-        else:
+        elif ua == self.uaO:
             if (isinstance(event, CCEventFail) or isinstance(event, CCEventDisconnect)) and self.state == CCStateARComplete and \
               (isinstance(self.uaA.state, self.uaA.UasStateTrying) or isinstance(self.uaA.state, self.uaA.UasStateRinging)) and len(self.routes) > 0:
                 if isinstance(event, CCEventFail):
-- 
2.43.0


From 5af43eb247f246c6ba10b3596328f9c39bf49f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:00 +0000
Subject: [PATCH 29/56] fix: a media session that timed out and was opened
 again was never deleted

---
 sippy/Rtp_proxy/Session/side.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index 213dc55..e21fbc3 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -68,6 +68,9 @@ class _rtpps_side(object):
     def update(self, up):
         command = 'U'
         up.rtpps.max_index = max(up.rtpps.max_index, up.index)
+        if up.rtpps.media_timeout_index == up.index:
+            # The session that has timed out is being created again
+            up.rtpps.media_timeout_index = None
         rtpc = up.rtpps.rtp_proxy_client
         rtpq = up.rtpps.rtpp_seq
         options = up.options
-- 
2.43.0


From 854a3aff87f8e54a76f34849c6337143f1314a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:00 +0000
Subject: [PATCH 30/56] fix: ending an outbound leg before its INVITE went out
 was not reported, leaving the caller hanging

---
 sippy/UacStateIdle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/UacStateIdle.py b/sippy/UacStateIdle.py
index a091ac2..59cdcc5 100644
--- a/sippy/UacStateIdle.py
+++ b/sippy/UacStateIdle.py
@@ -109,5 +109,7 @@ class UacStateIdle(UaStateGeneric):
                 self.ua.disconnect_ts = event.rtime
             else:
                 self.ua.disconnect_ts = MonoTime()
+            # No events are delivered past this point
+            self.ua.emitPendingEvents()
             return (self.ua.UaStateDead, self.ua.disc_cbs, event.rtime, event.origin)
         return None
-- 
2.43.0


From c57e14ef6d7347a4b90d27f9d3676a7f271441a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:00 +0000
Subject: [PATCH 31/56] fix: failure of the media relay during a session update
 hung up one leg only

---
 sippy/UA.py               | 41 ++++++++++++++++++++++++++++++++++++++-
 sippy/UacStateUpdating.py |  2 +-
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 37553d2..d828e74 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -32,7 +32,8 @@ from sippy.UacStateIdle import UacStateIdle
 from sippy.SipRequest import SipRequest
 from sippy.SipContentType import SipContentType
 from sippy.SipMaxForwards import SipMaxForwards
-from sippy.CCEvents import CCEventTry, CCEventFail, CCEventDisconnect, CCEventInfo
+from sippy.CCEvents import CCEventTry, CCEventFail, CCEventDisconnect, CCEventInfo, \
+  CCEventUpdate
 from sippy.MsgBody import MsgBody
 from sippy.Time.MonoTime import MonoTime
 from sippy.Time.Timeout import TimeoutAbsMono
@@ -441,25 +442,63 @@ class UA(object):
             rval[2] = self.rUri.getTag()
         return tuple(rval)
 
+    def isOver(self):
+        return isinstance(self.state, (self.UaStateDisconnected, self.UaStateFailed, \
+          self.UaStateDead, self.UacStateCancelling))
+
     def delayed_remote_sdp_update(self, event, remote_sdp_body, ex=None):
         if ex is not None:
             if not isinstance(ex, SdpHandlingErrors): raise ex
+            if self.isOver():
+                # The leg has ended while the update was in progress
+                return
+            is_reinvite = isinstance(event, CCEventUpdate)
             event = CCEventFail((ex.code, ex.msg))
             event.reason_rfc3326 = ex.getReason()
+            if is_reinvite:
+                # The other side knows nothing about this request yet, it is
+                # only the requestor who has to be told
+                self.recvEvent(event)
+                return
         else:
             self.rSDP = remote_sdp_body.getCopy()
         self.equeue.append(event)
         self.emitPendingEvents()
         if ex is not None:
+            if isinstance(self.state, self.UasStateUpdating):
+                # Fail would only refuse the request from the peer
+                event = CCEventDisconnect(rtime = event.rtime)
+                event.reason_rfc3326 = ex.getReason()
             self.recvEvent(event)
 
+    def delayed_update_result(self, event, remote_sdp_body, ex=None):
+        self.delayed_remote_sdp_update(event, remote_sdp_body, ex)
+        if ex is None or self.event_cb is None:
+            return
+        # The session update has failed and this leg is gone, so that the
+        # other one has to be released as well
+        event = CCEventDisconnect()
+        event.reason_rfc3326 = ex.getReason()
+        self.emitEvent(event)
+
     def delayed_local_sdp_update(self, event, local_sdp_body, ex=None):
         if ex is not None:
             if not isinstance(ex, SdpHandlingErrors): raise ex
+            if self.isOver():
+                return
+            is_reinvite = isinstance(event, CCEventUpdate)
             event = CCEventFail((ex.code, ex.msg))
             event.reason_rfc3326 = ex.getReason()
             self.equeue.append(event)
             self.emitPendingEvents()
+            if is_reinvite:
+                # Nothing has been sent out, the session stays as it was
+                return
+            if isinstance(self.state, self.UasStateUpdating):
+                # The other leg is gone, refusing the request is not enough
+                self.recvEvent(event)
+                event = CCEventDisconnect(rtime = event.rtime)
+                event.reason_rfc3326 = ex.getReason()
         self.recvEvent(event)
 
     def getAcct(self):
diff --git a/sippy/UacStateUpdating.py b/sippy/UacStateUpdating.py
index 07d6ebd..e50cddc 100644
--- a/sippy/UacStateUpdating.py
+++ b/sippy/UacStateUpdating.py
@@ -68,7 +68,7 @@ class UacStateUpdating(UaStateGeneric):
             event = CCEventConnect(scode, rtime = resp.rtime, origin = self.ua.origin)
             if body is not None:
                 if self.ua.on_remote_sdp_change != None:
-                    cb_func = partial(self.ua.delayed_remote_sdp_update, event)
+                    cb_func = partial(self.ua.delayed_update_result, event)
                     try:
                         body = self.ua.on_remote_sdp_change(body, cb_func)
                     except SdpHandlingErrors as e:
-- 
2.43.0


From e4557c3d62fe9261eaa27adf393dca28bcfee02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:00 +0000
Subject: [PATCH 32/56] fix: session updates crossing at the media relay were
 never answered

---
 sippy/UasStateUpdating.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index d66866c..9637581 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -25,7 +25,8 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from sippy.UasStateGeneric import UasStateGeneric
-from sippy.CCEvents import CCEventDisconnect, CCEventRing, CCEventConnect, CCEventFail, CCEventRedirect
+from sippy.CCEvents import CCEventDisconnect, CCEventRing, CCEventConnect, CCEventFail, CCEventRedirect, \
+  CCEventUpdate
 
 class UasStateUpdating(UasStateGeneric):
     sname = 'Updating(UAS)'
@@ -89,8 +90,14 @@ class UasStateUpdating(UasStateGeneric):
         self.ua.disconnect_ts = event.rtime
         return (self.ua.UaStateDisconnected, self.ua.disc_cbs, event.rtime, event.origin)
 
+    def _recvEventUpdate(self, event, eh):
+        # Both sides are trying to update the session at the same time
+        self.ua.equeue.append(CCEventFail((491, 'Request Pending'), rtime = event.rtime))
+        return None
+
     recv_event_handlers = {
       CCEventRing: _recvEventRing,
+      CCEventUpdate: _recvEventUpdate,
       CCEventConnect: _recvEventConnect,
       CCEventRedirect: _recvEventRedirect,
       CCEventFail: _recvEventFail,
-- 
2.43.0


From 671c8c1ef60338dda93086d51e7c5b4d0061846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:20 +0000
Subject: [PATCH 33/56] fix: answering a challenge to a keep-alive raised
 TypeError and ended the keep-alives

---
 sippy/UaStateConnected.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 2076002..4fd2da6 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -281,20 +281,19 @@ class UaStateConnected(UaStateGeneric):
         if self.ua.state != self:
             return
         code, reason = resp.getSCode()
-        if code == 401 and resp.countHFs('www-authenticate') != 0 and \
-          self.ua.username != None and self.ua.password != None and not self.triedauth:
-            challenge = resp.getHFBody('www-authenticate')
-            req = self.ua.genRequest('INVITE', self.ua.lSDP, challenge)
-            self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
-            self.triedauth = True
-            return
-        if code == 407 and resp.countHFs('proxy-authenticate') != 0 and \
-          self.ua.username != None and self.ua.password != None and not self.triedauth:
-            challenge = resp.getHFBody('proxy-authenticate')
-            req = self.ua.genRequest('INVITE', self.ua.lSDP, challenge)
-            self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
-            self.triedauth = True
-            return
+        if code in (401, 407) and self.ua.username != None and self.ua.password != None and \
+          not self.triedauth:
+            ch_hfname = 'www-authenticate' if code == 401 else 'proxy-authenticate'
+            for challenge in resp.getHFBodys(ch_hfname):
+                if self.ua.auth_enalgs is not None and challenge.algorithm not in self.ua.auth_enalgs:
+                    continue
+                supported, qop = challenge.supportedAlgorithm()
+                if not supported:
+                    continue
+                req = self.ua.genRequest('INVITE', self.ua.lSDP, (challenge, qop))
+                self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
+                self.triedauth = True
+                return
         if code < 200:
             return
         if code < 300:
-- 
2.43.0


From d8d6b26e00004e9ee2b2d58cdef5ea43bf68556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:36 +0000
Subject: [PATCH 34/56] fix: the logging thread could start before the name of
 the file was set and lose the first record

---
 sippy/SipLogger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipLogger.py b/sippy/SipLogger.py
index f850ddb..caf0955 100644
--- a/sippy/SipLogger.py
+++ b/sippy/SipLogger.py
@@ -154,8 +154,8 @@ class SipLogger(object):
             self.wi_available = Condition()
             self.wi = []
             if bend != 'syslog':
-                self.logger = AsyncLogger(app, self)
                 self.logfile = os.environ.get('SIPLOG_LOGFILE_FILE', logfile)
+                self.logger = AsyncLogger(app, self)
                 self.signal_handler = LogSignal(self, SIGUSR1, self.reopen)
             else:
                 self.logger = AsyncLoggerSyslog(app, self)
-- 
2.43.0


From 3edcf6bcc2a59eb9b2fb5e45394465aab3148c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:36 +0000
Subject: [PATCH 35/56] fix: everything logged was lost on file systems without
 locking (other than on BSD)

---
 sippy/SipLogger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/SipLogger.py b/sippy/SipLogger.py
index caf0955..f171317 100644
--- a/sippy/SipLogger.py
+++ b/sippy/SipLogger.py
@@ -26,6 +26,7 @@
 
 from sippy.Signal import LogSignal
 from time import time, localtime, strftime
+from errno import ENOTSUP, EOPNOTSUPP
 from fcntl import flock, LOCK_EX, LOCK_UN
 from signal import SIGUSR1
 from threading import Thread, Condition
@@ -77,7 +78,7 @@ class AsyncLogger(Thread):
             my_flock(self.log, LOCK_EX)
         except IOError as e:
             # Catch ENOTSUP
-            if e.args[0] != 45:
+            if e.args[0] not in (ENOTSUP, EOPNOTSUPP):
                 raise e
             my_flock = lambda x, y: None
         try:
-- 
2.43.0


From ab0b1c60648a60eadd2c1193dcc0835dba89b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:36 +0000
Subject: [PATCH 36/56] fix: the logging thread crashed at shutdown when the
 file could never be opened

---
 sippy/SipLogger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipLogger.py b/sippy/SipLogger.py
index f171317..a5c152d 100644
--- a/sippy/SipLogger.py
+++ b/sippy/SipLogger.py
@@ -103,7 +103,7 @@ class AsyncLogger(Thread):
         self.master = None
 
     def closelog(self):
-        del self.log
+        self.log = None
 
 class AsyncLoggerSyslog(AsyncLogger):
     def safe_open(self):
-- 
2.43.0


From 4b0aedd9b46d86002b613e643e7131e12a8f1eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:36 +0000
Subject: [PATCH 37/56] fix: log overflow could discard the order to re-open
 the file or to shut down

---
 sippy/SipLogger.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sippy/SipLogger.py b/sippy/SipLogger.py
index a5c152d..7ef29dd 100644
--- a/sippy/SipLogger.py
+++ b/sippy/SipLogger.py
@@ -191,8 +191,10 @@ class SipLogger(object):
         if len(self.wi) > 1000:
             # Discard some items, as the writer doesn't seems to be able
             # to keep up pace with incoming requests
-            self.discarded += len(self.wi) - 1000
-            self.wi = self.wi[-1000:]
+            # (re-opening the file and shutting down are to be done anyway)
+            kept = [x for x in self.wi[:-1000] if x[0] != 'write']
+            self.discarded += len(self.wi) - 1000 - len(kept)
+            self.wi = kept + self.wi[-1000:]
             discarded = True
         self.wi.append(('write', args, kwargs))
         self.wi_available.notify()
-- 
2.43.0


From 225d2368c819e56ea47fdc2d616cea27f11bd8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:00 +0000
Subject: [PATCH 38/56] fix: accept a challenge back only in the exact form it
 was issued

---
 sippy/Security/SipNonce.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sippy/Security/SipNonce.py b/sippy/Security/SipNonce.py
index 75cdffe..00c25a0 100644
--- a/sippy/Security/SipNonce.py
+++ b/sippy/Security/SipNonce.py
@@ -62,7 +62,11 @@ class AESCipher(object):
         return b64encode(eraw).rstrip(b'=')
 
     def decrypt(self, enc):
-        enc = b64decode(enc + (b'=' * (-len(enc) % 4)))
+        cenc = enc
+        enc = b64decode(cenc + (b'=' * (-len(cenc) % 4)))
+        if b64encode(enc).rstrip(b'=') != cenc:
+            # Only the exact form that has been issued is good
+            raise ValueError
         data = enc[:-MAC_SIZE]
         tag = enc[-MAC_SIZE:]
         ctag = hmac_new(self.mac_key, data, 'sha256').digest()[:MAC_SIZE]
-- 
2.43.0


From a240f8df58b3fe8fcbdfb56756bf83e8dcf35f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:00 +0000
Subject: [PATCH 39/56] fix: parse quoted commas in Authorization

---
 sippy/SipAuthorization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sippy/SipAuthorization.py b/sippy/SipAuthorization.py
index cbfe997..ed52ea7 100644
--- a/sippy/SipAuthorization.py
+++ b/sippy/SipAuthorization.py
@@ -29,6 +29,7 @@ from sippy.Security.SipNonce import HashOracle, DGST_MD5, DGST_MD5SESS, \
   DGST_SHA256, DGST_SHA256SESS, DGST_SHA512, DGST_SHA512SESS
 
 from hashlib import md5, new as hash_new, sha256
+from re import compile as re_compile
 
 
 def sha512_256():
@@ -38,6 +39,9 @@ _HASH_FUNC = {None:(md5, DGST_MD5), 'MD5':(md5, DGST_MD5), 'MD5-sess':(md5, DGST
   'SHA-256':(sha256, DGST_SHA256), 'SHA-256-sess':(sha256, DGST_SHA256SESS), \
   'SHA-512-256':(sha512_256, DGST_SHA512), 'SHA-512-256-sess':(sha512_256, DGST_SHA512SESS)}
 
+# name=value or name="value", where the quoted value may contain commas
+_PARAM_RE = re_compile(r'([^\s=,"]+)\s*=\s*("[^"]*"|[^\s,"]*)')
+
 class SipAuthorization(SipGenericHF):
     hf_names = ('authorization',)
     username = None
@@ -79,7 +83,7 @@ class SipAuthorization(SipGenericHF):
 
     def parse(self):
         self.otherparams = []
-        for name, value in [x.strip(', ').split('=', 1) for x in self.body.split(' ', 1)[1].split(',')]:
+        for name, value in _PARAM_RE.findall(self.body.partition(' ')[2]):
             ci_name = name.lower()
             if ci_name == 'username':
                 self.username = value.strip('"')
-- 
2.43.0


From d16fb58e6ba032b5415473d9dddb7291d479a5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:00 +0000
Subject: [PATCH 40/56] fix: refuse incomplete or unknown digest answers
 instead of raising

---
 sippy/SipAuthorization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sippy/SipAuthorization.py b/sippy/SipAuthorization.py
index ed52ea7..4b12cd4 100644
--- a/sippy/SipAuthorization.py
+++ b/sippy/SipAuthorization.py
@@ -134,6 +134,12 @@ class SipAuthorization(SipGenericHF):
     def verify(self, password, method, body = None):
         if not self.parsed:
             self.parse()
+        if self.algorithm not in _HASH_FUNC:
+            return False
+        if None in (self.username, self.realm, self.nonce):
+            return False
+        if self.cnonce is None and self.algorithm is not None and self.algorithm.endswith('-sess'):
+            return False
         HA1 = DigestCalcHA1(self.algorithm, self.username, self.realm, password, self.nonce, self.cnonce)
         return self.verifyHA1(HA1, method, body)
 
@@ -142,6 +148,8 @@ class SipAuthorization(SipGenericHF):
             self.parse()
         if self.algorithm not in _HASH_FUNC:
             return False
+        if None in (self.nonce, self.uri, self.response):
+            return False
         if self.qop != None and self.qop not in ('auth', 'auth-int'):
             return False
         algmask = _HASH_FUNC[self.algorithm][1]
-- 
2.43.0


From 6ab1c9bf2389a341e95fee6a7a46d19f580fca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:00 +0000
Subject: [PATCH 41/56] fix: registration agent: keep proxy and registrar
 credentials apart

---
 sippy/SipRegistrationAgent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 2b662ca..94b2f76 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -96,7 +96,7 @@ class SipRegistrationAgent(object):
             return
         if self.user != None and self.passw != None and self.atries < 3:
             for sc, chn, rhn in ((401, 'www-authenticate', 'authorization'),
-                                 (407, 'proxy-authenticate', 'authorization')):
+                                 (407, 'proxy-authenticate', 'proxy-authorization')):
                 if resp.scode != sc:
                     continue
                 if resp.countHFs(chn) == 0:
-- 
2.43.0


From 3427bdc9feb92ab5791f71d180a4cd9993ad59f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:00 +0000
Subject: [PATCH 42/56] fix: registration agent: refresh before the binding
 expires

---
 sippy/SipRegistrationAgent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 94b2f76..996030b 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -89,7 +89,8 @@ class SipRegistrationAgent(object):
                 tout = resp.getHFBody('expires').getNum()
             else:
                 tout = self.exp
-            timer = Timeout(self.doregister, tout)
+            # Refresh ahead of time, so that the binding does not lapse meanwhile
+            timer = Timeout(self.doregister, max(tout - 32, tout / 2))
             if self.rok_cb != None:
                 self.rok_cb(timer.etime.realt, contact, self.cb_arg)
             self.atries = 0
-- 
2.43.0


From c6baaf8e1ac811866a8b2d6799b87b5c800020e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:00 +0000
Subject: [PATCH 43/56] fix: registration agent: use the lifetime of its own
 binding

---
 sippy/SipRegistrationAgent.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 996030b..a54518e 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -81,8 +81,16 @@ class SipRegistrationAgent(object):
             return
         if resp.scode >= 200 and resp.scode < 300 and resp.reason != 'Auth Failed':
             contact = None
-            if resp.countHFs('contact') > 0:
-                contact = resp.getHFBody('contact')
+            contacts = resp.getHFBodys('contact')
+            if len(contacts) > 0:
+                # The registrar lists all bindings of the AOR, find our own one
+                myurl = self.rmsg.getHFBody('contact').getUrl()
+                contact = contacts[0]
+                for c in contacts:
+                    if not c.asterisk and c.getUrl().username == myurl.username and \
+                      c.getUrl().getAddr() == myurl.getAddr():
+                        contact = c
+                        break
             if contact != None and 'expires' in contact.address.params:
                 tout = int(contact.address.params['expires'])
             elif resp.countHFs('expires') > 0:
-- 
2.43.0


From 0a2eb16b2f7f054b9fba98f2d45b04ce2efae015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:01 +0000
Subject: [PATCH 44/56] fix: registration agent: survive zero or unintelligible
 lifetimes

---
 sippy/SipRegistrationAgent.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index a54518e..06f07a3 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -91,18 +91,24 @@ class SipRegistrationAgent(object):
                       c.getUrl().getAddr() == myurl.getAddr():
                         contact = c
                         break
-            if contact != None and 'expires' in contact.address.params:
-                tout = int(contact.address.params['expires'])
-            elif resp.countHFs('expires') > 0:
-                tout = resp.getHFBody('expires').getNum()
-            else:
+            try:
+                if contact != None and 'expires' in contact.address.params:
+                    tout = int(contact.address.params['expires'])
+                elif resp.countHFs('expires') > 0:
+                    tout = resp.getHFBody('expires').getNum()
+                else:
+                    tout = self.exp
+            except (TypeError, ValueError):
+                # Can't make it out, assume that we've got what we've asked for
                 tout = self.exp
-            # Refresh ahead of time, so that the binding does not lapse meanwhile
-            timer = Timeout(self.doregister, max(tout - 32, tout / 2))
-            if self.rok_cb != None:
-                self.rok_cb(timer.etime.realt, contact, self.cb_arg)
-            self.atries = 0
-            return
+            if tout > 0:
+                # Refresh ahead of time, so that the binding does not lapse meanwhile
+                timer = Timeout(self.doregister, max(tout - 32, tout / 2))
+                if self.rok_cb != None:
+                    self.rok_cb(timer.etime.realt, contact, self.cb_arg)
+                self.atries = 0
+                return
+            # No binding, handle as a failure
         if self.user != None and self.passw != None and self.atries < 3:
             for sc, chn, rhn in ((401, 'www-authenticate', 'authorization'),
                                  (407, 'proxy-authenticate', 'proxy-authorization')):
-- 
2.43.0


From db0dc7d7da53e3c702c8081a4cdf34cd6e154c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:05 +0000
Subject: [PATCH 45/56] fix: Content-Length counts bytes, bodies with non-ASCII
 characters were cut or refused

---
 sippy/SipMsg.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index e7cfdb8..5b3c289 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -103,6 +103,9 @@ class SipMsg(object):
 
     def init_body(self):
         if self.__content_length != None:
+            # Content-Length counts bytes, not characters
+            if self.__mbody != None:
+                self.__mbody = self.__mbody.encode()
             blen = self.__content_length.getBody().number
             if self.__mbody == None:
                 mblen = 0
@@ -116,24 +119,24 @@ class SipMsg(object):
                 # happens with request
                 raise SipParseError('Missed SIP body, %d bytes expected' % blen)
             elif blen > mblen:
-                if blen - mblen < 7 and mblen > 7 and self.__mbody[-4:] == '\r\n\r\n':
+                if blen - mblen < 7 and mblen > 7 and self.__mbody[-4:] == b'\r\n\r\n':
                     # XXX: we should not really be doing this, but it appears to be
                     # a common off-by-one/two/.../six problem with SDPs generates by
                     # the consumer-grade devices.
                     print('Truncated SIP body, %d bytes expected, %d received, fixing...' % (blen, mblen))
                     blen = mblen
-                elif blen - mblen == 2 and self.__mbody[-2:] == '\r\n':
+                elif blen - mblen == 2 and self.__mbody[-2:] == b'\r\n':
                     # Missed last 2 \r\n is another common problem.
                     print('Truncated SIP body, %d bytes expected, %d received, fixing...' % (blen, mblen))
-                    self.__mbody += '\r\n'
-                elif blen - mblen == 1 and self.__mbody[-3:] == '\r\n\n':
+                    self.__mbody += b'\r\n'
+                elif blen - mblen == 1 and self.__mbody[-3:] == b'\r\n\n':
                     # Another possible mishap
                     print('Truncated SIP body, %d bytes expected, %d received, fixing...' % (blen, mblen))
-                    self.__mbody = self.__mbody[:-3] + '\r\n\r\n'
-                elif blen - mblen == 1 and self.__mbody[-2:] == '\r\n':
+                    self.__mbody = self.__mbody[:-3] + b'\r\n\r\n'
+                elif blen - mblen == 1 and self.__mbody[-2:] == b'\r\n':
                     # One more
                     print('Truncated SIP body, %d bytes expected, %d received, fixing...' % (blen, mblen))
-                    self.__mbody += '\r\n'
+                    self.__mbody += b'\r\n'
                     blen += 1
                     mblen += 2
                 else:
@@ -143,6 +146,8 @@ class SipMsg(object):
             elif blen < mblen:
                 self.__mbody = self.__mbody[:blen]
                 mblen = blen
+            if self.__mbody != None:
+                self.__mbody = self.__mbody.decode(errors = 'replace')
         if self.__mbody != None:
             if self.__content_type != None:
                 self.body = MsgBody(self.__mbody, self.__content_type.getBody())
@@ -156,7 +161,7 @@ class SipMsg(object):
         if self.body is not None:
             mbody = str(self.body)
             s += 'Content-Type: %s\r\n' % self.body.mtype
-            s += 'Content-Length: %d\r\n\r\n' % len(mbody)
+            s += 'Content-Length: %d\r\n\r\n' % len(mbody.encode())
             s += mbody
         else:
             s += 'Content-Length: 0\r\n\r\n'
@@ -170,10 +175,10 @@ class SipMsg(object):
             mbody = self.body.localStr(local_addr)
             if compact:
                 s += 'c: %s\r\n' % self.body.mtype
-                s += 'l: %d\r\n\r\n' % len(mbody)
+                s += 'l: %d\r\n\r\n' % len(mbody.encode())
             else:
                 s += 'Content-Type: %s\r\n' % self.body.mtype
-                s += 'Content-Length: %d\r\n\r\n' % len(mbody)
+                s += 'Content-Length: %d\r\n\r\n' % len(mbody.encode())
             s += mbody
         else:
             if compact:
-- 
2.43.0


From d413ccc1c4e4a11d4e8b84d70cbaeae2378a7e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:51 +0000
Subject: [PATCH 46/56] fix: output worker: pad resampled audio by the length
 it has after resampling

---
 sippy/Rtp/OutputWorker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Rtp/OutputWorker.py b/sippy/Rtp/OutputWorker.py
index 502c36d..0f0dcc2 100644
--- a/sippy/Rtp/OutputWorker.py
+++ b/sippy/Rtp/OutputWorker.py
@@ -154,7 +154,7 @@ class RTPOutputWorker():
                 chunk.resample(self.samplerate_out)
             if self.data_log is not None:
                 self.data_log.extend(chunk.to_bytes())
-            chunk_ebytes = self.codec.d2e_frames(chunk_nframes)
+            chunk_ebytes = self.codec.d2e_frames(chunk.nframes)
             pad_nbytes = (-chunk_ebytes) % self._out_psize
             if pad_nbytes != 0:
                 pad_nframes = self.codec.e2d_frames(pad_nbytes)
-- 
2.43.0


From 03db9f8ab53d01969dfcbce873efccde9f307b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:51 +0000
Subject: [PATCH 47/56] fix: G722Codec.silence: a lost packet raised
 AttributeError

---
 sippy/Rtp/Codecs/G722.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp/Codecs/G722.py b/sippy/Rtp/Codecs/G722.py
index 63fe43f..1e3cc11 100644
--- a/sippy/Rtp/Codecs/G722.py
+++ b/sippy/Rtp/Codecs/G722.py
@@ -34,8 +34,8 @@ class G722Codec(GenCodec):
         return chunk
 
     def silence(self, nframes:int):
-        pcm16 = array('h', [0]) * self.e2d_frames(nframes)
-        return self.encode(pcm16)
+        pcm16 = array('h', [0]) * self.e2d_frames(nframes, self.srate)
+        return self.codec.encode(pcm16)
 
     def e2d_frames(self, enframes:int, out_srate:int=None):
         #assert out_srate % self.srate == 0
-- 
2.43.0


From c1183a071442cd046d6b5132971f0d39b678e588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:51 +0000
Subject: [PATCH 48/56] fix: RTP end point: shutdown() made the pacing thread
 raise

---
 sippy/Rtp/EPoint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/Rtp/EPoint.py b/sippy/Rtp/EPoint.py
index f8479f1..953dbca 100644
--- a/sippy/Rtp/EPoint.py
+++ b/sippy/Rtp/EPoint.py
@@ -146,7 +146,9 @@ class RTPEPoint():
     def send_pkt(self, pkt):
         with self.state_lock:
             channel = self.rserv
-        assert channel is not None
+        if channel is None:
+            # Being shut down
+            return
         try:
             channel.send_pkt(pkt)
         except RtpQueueFullError:
-- 
2.43.0


From d0c49cb28079d28f295d15f2e3d9baba68ad2cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:51 +0000
Subject: [PATCH 49/56] fix: RTP end point: update() racing with shutdown()
 could lock up

---
 sippy/Rtp/EPoint.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sippy/Rtp/EPoint.py b/sippy/Rtp/EPoint.py
index 953dbca..07f77d1 100644
--- a/sippy/Rtp/EPoint.py
+++ b/sippy/Rtp/EPoint.py
@@ -207,12 +207,14 @@ class RTPEPoint():
                 new_writer.enable_datalog(self.dl_file)
             new_writer.start()
             with self.state_lock:
-                if self.rserv is None or self.rtp_params.rtp_target is None:
-                    # RTP endpoint has been shut down while swapping writer.
-                    new_writer.end()
-                    new_writer.join()
-                else:
+                # RTP endpoint could have been shut down while swapping writer.
+                swapped_out = self.rserv is None or self.rtp_params.rtp_target is None
+                if not swapped_out:
                     self.writer = new_writer
+            if swapped_out:
+                # Out of the lock: the pacing thread might be waiting for it.
+                new_writer.end()
+                new_writer.join()
         self.rsess.stream_update()
 
     def connect(self, ain:callable):
-- 
2.43.0


From 498e76ee9f935b9e547210bf0205d18616db70e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:13 +0000
Subject: [PATCH 50/56] fix: in-call INFO does not make the delayed answer of
 the call obsolete

---
 sippy/UA.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index d828e74..315a70f 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -289,7 +289,7 @@ class UA(object):
             if self.elast_seq != None and self.elast_seq >= event.seq:
                 #print('ignoring out-of-order event', event, event.seq, self.elast_seq, self.cId)
                 return
-            self.elast_seq = event.seq
+            self.advanceEventSeq(event)
             self.event_cb(event, self)
 
     def emitPendingEvents(self):
@@ -298,9 +298,15 @@ class UA(object):
             if self.elast_seq != None and self.elast_seq >= event.seq:
                 #print('ignoring out-of-order event', event, event.seq, self.elast_seq, self.cId)
                 continue
-            self.elast_seq = event.seq
+            self.advanceEventSeq(event)
             self.event_cb(event, self)
 
+    def advanceEventSeq(self, event):
+        # In-call information says nothing about the state of the session and
+        # doesn't make obsolete any earlier event delayed by the media proxy
+        if not isinstance(event, CCEventInfo):
+            self.elast_seq = event.seq
+
     def genRequest(self, method, body = None, cqop = None, \
       extra_headers = None, max_forwards = None):
         if self.outbound_proxy != None:
-- 
2.43.0


From ff277c3b970aed0fdf41423a9d6a6381d7993d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:27 +0000
Subject: [PATCH 51/56] fix: in-call INFO and OPTIONS are served while the
 session is being updated

---
 sippy/UaStateConnected.py | 26 +++-----------------------
 sippy/UaStateGeneric.py   | 22 +++++++++++++++++++++-
 sippy/UacStateUpdating.py |  7 ++++++-
 sippy/UasStateUpdating.py |  6 +++++-
 4 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 4fd2da6..87add61 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -110,26 +110,12 @@ class UaStateConnected(UaStateGeneric):
         self.ua.cancelCreditTimer()
         return self._disconnectFromRequest(req, also)
 
-    def _recvRequestInfo(self, req):
-        req.sendResponse(200, 'OK')
-        event = CCEventInfo(req.getBody(), rtime = req.rtime, origin = self.ua.origin)
-        try:
-            event.reason_rfc3326 = req.getHFBody('reason')
-        except:
-            pass
-        self.ua.equeue.append(event)
-        return None
-
-    def _recvRequestOptions(self, req):
-        req.sendResponse(200, 'OK')
-        return None
-
     recv_request_handlers = {
       'REFER': _recvRequestRefer,
       'INVITE': _recvRequestInvite,
       'BYE': _recvRequestBye,
-      'INFO': _recvRequestInfo,
-      'OPTIONS': _recvRequestOptions,
+      'INFO': UaStateGeneric._recvRequestInfo,
+      'OPTIONS': UaStateGeneric._recvRequestOptions,
     }
 
     def recvACK(self, req):
@@ -232,12 +218,6 @@ class UaStateConnected(UaStateGeneric):
         self.ua.newUacTransaction(req, req_extra_headers = eh)
         return (self.ua.UacStateUpdating,)
 
-    def _recvEventInfo(self, event, eh):
-        body = event.getData()
-        req = self.ua.genRequest('INFO', body, extra_headers = eh)
-        self.ua.newTransaction(req)
-        return None
-
     def _recvEventConnect(self, event, eh):
         if self.ua.pending_tr is None:
             return None
@@ -264,7 +244,7 @@ class UaStateConnected(UaStateGeneric):
       CCEventFail: _recvEventFail,
       CCEventRedirect: _recvEventRedirect,
       CCEventUpdate: _recvEventUpdate,
-      CCEventInfo: _recvEventInfo,
+      CCEventInfo: UaStateGeneric._recvEventInfo,
       CCEventConnect: _recvEventConnect,
     }
 
diff --git a/sippy/UaStateGeneric.py b/sippy/UaStateGeneric.py
index 6b553cd..e8d9b87 100644
--- a/sippy/UaStateGeneric.py
+++ b/sippy/UaStateGeneric.py
@@ -24,7 +24,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.CCEvents import CCEventDisconnect
+from sippy.CCEvents import CCEventDisconnect, CCEventInfo
 
 class UaStateGeneric(object):
     sname = 'Generic'
@@ -68,6 +68,26 @@ class UaStateGeneric(object):
         self.ua.disconnect_ts = req.rtime
         return (self.ua.UaStateDisconnected, self.ua.disc_cbs, req.rtime, self.ua.origin)
 
+    def _recvRequestInfo(self, req):
+        req.sendResponse(200, 'OK')
+        event = CCEventInfo(req.getBody(), rtime = req.rtime, origin = self.ua.origin)
+        try:
+            event.reason_rfc3326 = req.getHFBody('reason')
+        except:
+            pass
+        self.ua.equeue.append(event)
+        return None
+
+    def _recvRequestOptions(self, req):
+        req.sendResponse(200, 'OK')
+        return None
+
+    def _recvEventInfo(self, event, eh):
+        body = event.getData()
+        req = self.ua.genRequest('INFO', body, extra_headers = eh)
+        self.ua.newTransaction(req)
+        return None
+
     def cancel(self, rtime, req):
         return None
 
diff --git a/sippy/UacStateUpdating.py b/sippy/UacStateUpdating.py
index e50cddc..d1bb408 100644
--- a/sippy/UacStateUpdating.py
+++ b/sippy/UacStateUpdating.py
@@ -29,7 +29,8 @@ from functools import partial
 from sippy.SipHeader import SipHeader
 from sippy.SipReason import SipReason
 from sippy.UaStateGeneric import UaStateGeneric
-from sippy.CCEvents import CCEventDisconnect, CCEventRing, CCEventConnect, CCEventFail, CCEventRedirect
+from sippy.CCEvents import CCEventDisconnect, CCEventRing, CCEventConnect, CCEventFail, CCEventRedirect, \
+  CCEventInfo
 from sippy.Exceptions.SdpParseError import SdpHandlingErrors
 
 class UacStateUpdating(UaStateGeneric):
@@ -51,6 +52,8 @@ class UacStateUpdating(UaStateGeneric):
     recv_request_handlers = {
       'INVITE': _recvRequestInvite,
       'BYE': _recvRequestBye,
+      'INFO': UaStateGeneric._recvRequestInfo,
+      'OPTIONS': UaStateGeneric._recvRequestOptions,
     }
 
     def recvResponse(self, resp, tr):
@@ -141,5 +144,7 @@ class UacStateUpdating(UaStateGeneric):
             self.ua.cancelCreditTimer()
             self.ua.disconnect_ts = event.rtime
             return (self.ua.UaStateDisconnected, self.ua.disc_cbs, event.rtime, event.origin)
+        if isinstance(event, CCEventInfo):
+            return self._recvEventInfo(event, event.getExtraHeaders())
         #print('wrong event %s in the Updating state' % event)
         return None
diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index 9637581..3c10049 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -24,9 +24,10 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+from sippy.UaStateGeneric import UaStateGeneric
 from sippy.UasStateGeneric import UasStateGeneric
 from sippy.CCEvents import CCEventDisconnect, CCEventRing, CCEventConnect, CCEventFail, CCEventRedirect, \
-  CCEventUpdate
+  CCEventUpdate, CCEventInfo
 
 class UasStateUpdating(UasStateGeneric):
     sname = 'Updating(UAS)'
@@ -57,6 +58,8 @@ class UasStateUpdating(UasStateGeneric):
       'INVITE': _recvRequestInvite,
       'BYE': _recvRequestBye,
       'REFER': _recvRequestRefer,
+      'INFO': UaStateGeneric._recvRequestInfo,
+      'OPTIONS': UaStateGeneric._recvRequestOptions,
     }
 
     def _recvEventRing(self, event, eh):
@@ -102,6 +105,7 @@ class UasStateUpdating(UasStateGeneric):
       CCEventRedirect: _recvEventRedirect,
       CCEventFail: _recvEventFail,
       CCEventDisconnect: _recvEventDisconnect,
+      CCEventInfo: UaStateGeneric._recvEventInfo,
     }
 
     def cancel(self, rtime, inreq):
-- 
2.43.0


From 84ba1491e1b9c4c1fe28e08d2cd4bd4ce25aecc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:35 +0000
Subject: [PATCH 52/56] fix: leg that asks for a transfer in the middle of its
 own re-INVITE is released

---
 sippy/UasStateUpdating.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index 3c10049..a0af3b1 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -48,11 +48,12 @@ class UasStateUpdating(UasStateGeneric):
         if req.countHFs('refer-to') == 0:
             req.sendResponse(400, 'Bad Request')
             return None
-        self.ua.sendUasResponse(487, 'Request Terminated')
         req.sendResponse(202, 'Accepted')
         also = req.getHFBody('refer-to').getCopy()
-        self.ua.cancelCreditTimer()
-        return self._disconnectFromRequest(req, also, copy_reason = False)
+        self.ua.equeue.append(CCEventDisconnect(also, rtime = req.rtime, origin = self.ua.origin))
+        # Rejects the update in progress and releases the referrer
+        self.ua.recvEvent(CCEventDisconnect(rtime = req.rtime, origin = self.ua.origin))
+        return None
 
     recv_request_handlers = {
       'INVITE': _recvRequestInvite,
-- 
2.43.0


From 25824b615d3c3521b32abbf4973e76d0cf8757a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:29 +0000
Subject: [PATCH 53/56] fix: no negative duration for a call ended by an early
 media timeout

The media timeout is dated a minute back, which may be before the call was
answered (the relay starts counting when the session is set up) or placed.
---
 sippy/UA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 315a70f..cee3dac 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -514,9 +514,11 @@ class UA(object):
         else:
             disconnect_ts = MonoTime()
             disconnected = False
+        # The disconnect may be dated back (media timeout), up to a point in
+        # time when the call has not been connected or even placed yet
         if self.connect_ts != None:
-            return (disconnect_ts - self.connect_ts, self.connect_ts - self.setup_ts, True, disconnected)
-        return (0, disconnect_ts - self.setup_ts, False, disconnected)
+            return (max(0.0, disconnect_ts - self.connect_ts), self.connect_ts - self.setup_ts, True, disconnected)
+        return (0, max(0.0, disconnect_ts - self.setup_ts), False, disconnected)
 
     def update_ua(self, msg):
         if msg.countHFs('user-agent') > 0:
-- 
2.43.0


From 9e3d6593526a26c705b1ea78d0a2f17dfd8a93c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:26 +0000
Subject: [PATCH 54/56] fix: a route back to the caller's own address (sip-ua)
 left the call hanging

The choice of the next hop for 'sip-ua' was overridden by the branch for
ordinary destinations, which fails for it with an exception: the caller got
100 Trying and nothing more.
---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 7016640..2348fb7 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -300,7 +300,7 @@ class CallController(object):
         if oroute.hostport == DST_SIP_UA:
             host = self.source[0]
             nh_address, same_af = self.source, True
-        if oroute.hostport == DST_WSS_UA:
+        elif oroute.hostport == DST_WSS_UA:
             host = self.req_target.host
             (nh_address, nh_transport), same_af = self.req_target.getTAddr(), True
             UA_kwa['nh_transport'] = nh_transport
-- 
2.43.0


From f0a3d8af510ece91d3cdb89bd6eb160d6d35e401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:19 +0000
Subject: [PATCH 55/56] fix: re-INVITE between the 200 OK with an offer and its
 ACK is answered 491

A call made without an offer has the callee's offer in the 200 OK and the
caller's answer in the ACK. A re-INVITE overtaking that ACK was relayed to the
callee, the pending 200 OK was then acknowledged without any answer, and the
caller's answer dropped on arrival.
---
 sippy/UaStateConnected.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 87add61..dd3fdd1 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -63,6 +63,11 @@ class UaStateConnected(UaStateGeneric):
         return None
 
     def _recvRequestInvite(self, req):
+        if self.ua.connect_ts is None:
+            # The answer to the offer made in the 200 OK is still on its way
+            # with the ACK, no new offer could be made before that (RFC3261 14.1)
+            req.sendResponse(491, 'Request Pending')
+            return None
         self.ua.newTarget = self.ua.getContactURL(req)
         self.ua.uasResp = req.genResponse(100, 'Trying', server = self.ua.local_ua)
         self.ua.global_config['_sip_tm'].sendResponse(self.ua.uasResp)
-- 
2.43.0


From 9b8cba9c99f55e62aa7fb5b11dd21ed95f4453cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:39:40 +0000
Subject: [PATCH 56/56] fix: RTP/AVPF media are subject to the payload policy
 and relayed

AV_TRTYPES lists the secure feedback profiles but not RTP/AVPF itself, so that
media of that profile passed the allowed_pts filter unchecked and the media
proxy unrelayed.
---
 sippy/Rtp_proxy/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index 307b139..88a4d0b 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -43,7 +43,7 @@ from sippy.Rtp_proxy.Session.side import _rtpps_side
 from sippy.Rtp_proxy.Session.update import update_params
 
 class Rtp_proxy_session(object):
-    AV_TRTYPES = ('rtp/avp', 'rtp/savp', 'rtp/savpf', 'udp/tls/rtp/savp', 'udp/tls/rtp/savpf')
+    AV_TRTYPES = ('rtp/avp', 'rtp/avpf', 'rtp/savp', 'rtp/savpf', 'udp/tls/rtp/savp', 'udp/tls/rtp/savpf')
     SUPPORTED_TRTYPES = AV_TRTYPES + ('udp', 'udptl', 'udp/bfcp')
     rtp_proxy_client = None
     rtpp_seq = None
-- 
2.43.0


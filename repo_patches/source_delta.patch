From 3b49b7863a43ae99385774512447b06d7f065514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:57 +0000
Subject: [PATCH 01/46] fix: release the relay-message lock when a relay result
 has been handled

Link.result deferred a second Lock instead of Unlock, so the first relay
result blocked the sender goroutine of the link forever.
---
 common/link/link.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/link/link.go b/common/link/link.go
index 122fe69..09a3a37 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -454,7 +454,7 @@ func (l *Link) createRelayMessageItem() {
 
 func (l *Link) result(rr *types.RelayResult) error {
 	l.rmsMtx.Lock()
-	defer l.rmsMtx.Lock()
+	defer l.rmsMtx.Unlock()
 
 	switch rr.Err {
 	case BMVUnknown:
-- 
2.43.0


From 269af25eb45f2a7d5aca9d9c3cb28608197559fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:13 +0000
Subject: [PATCH 02/46] fix: serialise the receiver and sender goroutines of a
 link

Both goroutines appended to, truncated and searched the same lists of
in-flight relay messages and receive statuses without synchronisation
(result() already held rmsMtx). All of them now hold rmsMtx; the sender and
the size limit are set before either goroutine starts.
---
 common/link/link.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index 09a3a37..ad6cf49 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -97,11 +97,14 @@ func NewLink(cfg *chain.Config, r Receiver, l log.Logger) types.Link {
 }
 
 func (l *Link) Start(sender types.Sender) error {
+	l.rmsMtx.Lock()
 	l.s = sender
+	l.limitSize = int64(sender.TxSizeLimit()) - sender.GetMarginForLimit()
+	l.rmsMtx.Unlock()
 	errCh := make(chan error)
-	l.senderChannel(errCh)
+	l.senderChannel(sender, errCh)
 
-	bls, err := l.s.GetStatus()
+	bls, err := sender.GetStatus()
 	if err != nil {
 		return err
 	}
@@ -120,7 +123,10 @@ func (l *Link) Start(sender types.Sender) error {
 }
 
 func (l *Link) Stop() {
-	l.s.Stop()
+	l.rmsMtx.RLock()
+	s := l.s
+	l.rmsMtx.RUnlock()
+	s.Stop()
 	l.r.Stop()
 }
 
@@ -131,11 +137,13 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 		for {
 			select {
 			case rs := <-rsc:
+				l.rmsMtx.Lock()
 				once.Do(func() {
 					err = l.checkStatus(bls)
 				})
 				l.rss = append(l.rss, rs)
 				l.BuildRelayMessage(bls)
+				l.rmsMtx.Unlock()
 			}
 		}
 
@@ -146,10 +154,9 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 	}()
 }
 
-func (l *Link) senderChannel(errCh chan error) {
+func (l *Link) senderChannel(s types.Sender, errCh chan error) {
 	go func() {
-		l.limitSize = int64(l.s.TxSizeLimit()) - l.s.GetMarginForLimit()
-		scc, err := l.s.Start()
+		scc, err := s.Start()
 
 		for {
 			select {
@@ -159,8 +166,10 @@ func (l *Link) senderChannel(errCh chan error) {
 					err := l.result(t)
 					errCh <- err
 				case *types.BMCLinkStatus:
+					l.rmsMtx.Lock()
 					l.clearRelayMessage(t)
 					l.clearReceiveStatus(t)
+					l.rmsMtx.Unlock()
 				default:
 					//TODO exception
 				}
-- 
2.43.0


From c1456840e68b31151a5694d5fb5878a6b8db8983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:16 +0000
Subject: [PATCH 03/46] fix: read the websocket connection registry under its
 lock

CloseAllMonitor and the read loop accessed the registry map while other
goroutines added and removed connections (concurrent map access aborts the
process).
---
 chain/icon/client/client.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index d68049d..ebf2758 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -402,7 +402,13 @@ func (c *Client) CloseMonitor(conn *websocket.Conn) {
 }
 
 func (c *Client) CloseAllMonitor() {
+	c.mtx.Lock()
+	conns := make([]*websocket.Conn, 0, len(c.conns))
 	for _, conn := range c.conns {
+		conns = append(conns, conn)
+	}
+	c.mtx.Unlock()
+	for _, conn := range conns {
 		c.l.Debugf("CloseAllMonitor %s", conn.LocalAddr().String())
 		c.wsClose(conn)
 	}
@@ -429,6 +435,14 @@ func (c *Client) _removeWsConn(conn *websocket.Conn) {
 	}
 }
 
+func (c *Client) _hasWsConn(conn *websocket.Conn) bool {
+	c.mtx.Lock()
+	defer c.mtx.Unlock()
+
+	_, ok := c.conns[conn.LocalAddr().String()]
+	return ok
+}
+
 type wsConnectError struct {
 	error
 	httpResp *http.Response
@@ -499,7 +513,7 @@ func (c *Client) wsReadJSONLoop(conn *websocket.Conn, respPtr interface{}, cb ws
 	for {
 		v := reflect.New(elem.Type())
 		ptr := v.Interface()
-		if _, ok := c.conns[conn.LocalAddr().String()]; !ok {
+		if !c._hasWsConn(conn) {
 			c.l.Debugf("wsReadJSONLoop c.conns[%s] is nil", conn.LocalAddr().String())
 			return nil
 		}
-- 
2.43.0


From ce7d10386a3117d4dddea2908601e8b294eafd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:29 +0000
Subject: [PATCH 04/46] fix: return badger read failures instead of using the
 missing item

---
 common/db/badger_db.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/db/badger_db.go b/common/db/badger_db.go
index 77185c1..f2f5c00 100644
--- a/common/db/badger_db.go
+++ b/common/db/badger_db.go
@@ -74,6 +74,7 @@ func (bucket *badgerBucket) Get(key []byte) ([]byte, error) {
 			if err == badger.ErrKeyNotFound {
 				return nil
 			}
+			return err
 		}
 		value, err = item.ValueCopy(nil)
 		return err
-- 
2.43.0


From 90c1b5275d0347378731a7f2c630293995477f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:00 +0000
Subject: [PATCH 05/46] fix: keep stored empty values distinguishable from
 missing keys in badger

---
 common/db/badger_db.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/db/badger_db.go b/common/db/badger_db.go
index f2f5c00..b99c8d1 100644
--- a/common/db/badger_db.go
+++ b/common/db/badger_db.go
@@ -76,7 +76,7 @@ func (bucket *badgerBucket) Get(key []byte) ([]byte, error) {
 			}
 			return err
 		}
-		value, err = item.ValueCopy(nil)
+		value, err = item.ValueCopy([]byte{})
 		return err
 	})
 	return value, err
-- 
2.43.0


From 60c5913820be6bc1815e3967f6e53aafac6bd347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:59 +0000
Subject: [PATCH 06/46] fix: reject a saved accumulator root of unexpected size
 instead of dropping it

---
 common/mta/accumulator.go    | 2 ++
 common/mta/extaccumulator.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/common/mta/accumulator.go b/common/mta/accumulator.go
index 6e9222d..3afd310 100644
--- a/common/mta/accumulator.go
+++ b/common/mta/accumulator.go
@@ -317,6 +317,8 @@ func (a *Accumulator) Recover() error {
 				bucket:    a.Bucket,
 				hashValue: hv,
 			}
+		} else {
+			return errors.New("InvalidData")
 		}
 	}
 	a.length = s.Length.Value
diff --git a/common/mta/extaccumulator.go b/common/mta/extaccumulator.go
index 0b9c383..82888d9 100644
--- a/common/mta/extaccumulator.go
+++ b/common/mta/extaccumulator.go
@@ -93,6 +93,8 @@ func (a *ExtAccumulator) Recover() error {
 				bucket:    a.Bucket,
 				hashValue: hv,
 			}
+		} else {
+			return errors.New("InvalidData")
 		}
 	}
 	a.length = s.Height - s.Offset
-- 
2.43.0


From d2582887e8ceb99b570d26fd31dbc536956a6915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:32 +0000
Subject: [PATCH 07/46] fix: advance the link status with the message proof
 built at start

checkStatus bundled a message proof without updating the status it was built
from, so the same messages were proven and relayed again.
---
 common/link/link.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/link/link.go b/common/link/link.go
index ad6cf49..ab8275c 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -284,6 +284,9 @@ func (l *Link) checkStatus(bls *types.BMCLinkStatus) error {
 			if mp.Len() != 0 || bls.RxSeq < mp.LastSeqNum() {
 				l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], mp)
 				l.rmi.size += mp.Len()
+				if err := mp.UpdateBMCLinkStatus(bls); err != nil {
+					return err
+				}
 			}
 			break
 		} else if h < bls.Verifier.Height {
-- 
2.43.0


From 6b9458c2fa0fed3353cefa4d279972f29fc10a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:32 +0000
Subject: [PATCH 08/46] fix: do not relay messages without items

Going over the size limit opens a new, empty group of items before the pending
groups are sent, and the empty group was relayed as a message too.
---
 common/link/link.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/link/link.go b/common/link/link.go
index ab8275c..4502a35 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -389,6 +389,9 @@ func (l *Link) buildBlockProof(bls *types.BMCLinkStatus, height int64) error {
 func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, error) {
 	rms := make([]*relayMessage, 0)
 	for _, rmi := range l.rmi.rmis {
+		if len(rmi) == 0 {
+			continue
+		}
 		m, err := l.r.BuildRelayMessage(rmi)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 65af4312d0a240d9aa6f6bab3b9aab440e4e5750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:33 +0000
Subject: [PATCH 09/46] fix: keep an open group of items after sending

Items are added to the last group; after sending there was none, so adding the
next item (second block update, or proofs after a split) panicked.
---
 common/link/link.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/link/link.go b/common/link/link.go
index 4502a35..f294993 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -407,7 +407,7 @@ func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, er
 		rms = append(rms, rm)
 	}
 	l.rmi.rmis = l.rmi.rmis[:0]
-	l.rmi.size = 0
+	l.createRelayMessageItem()
 
 	return rms, nil
 }
-- 
2.43.0


From 7967306f441d9166a90c3251f4e7ec4636ce1933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:33 +0000
Subject: [PATCH 10/46] fix: nil dereference when splitting without a block
 update

The condition was true for every block update and dereferenced the missing one
otherwise.
---
 common/link/link.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index f294993..2118af0 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -317,12 +317,10 @@ func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
 		}
 		if l.isOverLimit(l.rmi.size) {
 			l.sendRelayMessage(bls)
-			if bu != nil || bu.ProofHeight() != 0 {
-				h := l.r.GetHeightForSeq(bls.RxSeq)
-				mh = h
-				if err := l.buildBlockProof(bls, mh); err != nil {
-					return err
-				}
+			h := l.r.GetHeightForSeq(bls.RxSeq)
+			mh = h
+			if err := l.buildBlockProof(bls, mh); err != nil {
+				return err
 			}
 			if err := l.buildMessageProof(bls); err != nil {
 				return err
-- 
2.43.0


From 19e0ca62b917c5c078e8092fb7e958d6fed75785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:33 +0000
Subject: [PATCH 11/46] fix: ignore an already-verified result for a forgotten
 relay message

With no pending relay message the lookup panicked.
---
 common/link/link.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/link/link.go b/common/link/link.go
index 2118af0..aff2c75 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -414,12 +414,15 @@ func (l *Link) removeRelayMessage(id int) {
 	l.mtx.Lock()
 	defer l.mtx.Unlock()
 
-	index := 0
+	index := -1
 	for i, rm := range l.rms {
 		if rm.id == id {
 			index = i
 		}
 	}
+	if index < 0 {
+		return
+	}
 
 	l.l.Debugf("remove relay message h:%d seq:%d", l.rms[index].BMCLinkStatus().Verifier.Height,
 		l.rms[index].BMCLinkStatus().RxSeq)
-- 
2.43.0


From 542b68ede65df741664d2b711c8bf91c4ae66d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:33 +0000
Subject: [PATCH 12/46] fix: ignore a result for a relay message that is not
 pending any more

updateBlockProof dereferenced the missing relay message.
---
 common/link/link.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/link/link.go b/common/link/link.go
index aff2c75..0324bd6 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -432,6 +432,9 @@ func (l *Link) removeRelayMessage(id int) {
 
 func (l *Link) updateBlockProof(id int) error {
 	rm := l.searchRelayMessage(id)
+	if rm == nil {
+		return nil
+	}
 	l.buildProof(rm.bls, nil)
 	l.sendRelayMessage(rm.bls)
 	return nil
-- 
2.43.0


From f9d00eddb36a8bd5d1c1497ce4fb3d827160eae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:33 +0000
Subject: [PATCH 13/46] fix: report a receiver that fails to start

The link waited on a nil channel forever.
---
 common/link/link.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/link/link.go b/common/link/link.go
index 0324bd6..244dd71 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -134,6 +134,10 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 	once := new(sync.Once)
 	go func() {
 		rsc, err := l.r.Start(bls)
+		if err != nil {
+			errCh <- err
+			return
+		}
 		for {
 			select {
 			case rs := <-rsc:
-- 
2.43.0


From f14abc19ec664e76be2c907b6481b2f6ac904f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:33 +0000
Subject: [PATCH 14/46] fix: report a sender that fails to start

---
 common/link/link.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/link/link.go b/common/link/link.go
index 244dd71..83df3de 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -161,6 +161,10 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 func (l *Link) senderChannel(s types.Sender, errCh chan error) {
 	go func() {
 		scc, err := s.Start()
+		if err != nil {
+			errCh <- err
+			return
+		}
 
 		for {
 			select {
-- 
2.43.0


From c64a5e5acdf9a7dc71729c6362693854723a3b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:18 +0000
Subject: [PATCH 15/46] fix: do not hand a missing status to the link when it
 cannot be read

---
 chain/ethbr/sender.go | 6 +++++-
 chain/icon/sender.go  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/chain/ethbr/sender.go b/chain/ethbr/sender.go
index 1fb9dbf..cb967b3 100644
--- a/chain/ethbr/sender.go
+++ b/chain/ethbr/sender.go
@@ -106,7 +106,11 @@ func (s *sender) GetStatus() (*btpTypes.BMCLinkStatus, error) {
 }
 
 func (s *sender) SendStatus() {
-	bs, _ := s.GetStatus()
+	bs, err := s.GetStatus()
+	if err != nil {
+		s.l.Errorf("fail to GetStatus err:%+v", err)
+		return
+	}
 	s.sc <- bs
 }
 
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index b68cebb..1238a34 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -145,7 +145,11 @@ func (s *sender) result(id int, txh *client.TransactionHashParam) {
 }
 
 func (s *sender) SendStatus() {
-	bs, _ := s.GetStatus()
+	bs, err := s.GetStatus()
+	if err != nil {
+		s.l.Errorf("fail to GetStatus err:%+v", err)
+		return
+	}
 	s.sc <- bs
 }
 
-- 
2.43.0


From bbfe65f4263d666c21a1ba8f2b652b8bfbcd27e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:18 +0000
Subject: [PATCH 16/46] fix: a negative revert code is still a failure

---
 chain/ethbr/client/error.go | 2 +-
 chain/icon/client/error.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/chain/ethbr/client/error.go b/chain/ethbr/client/error.go
index e37fe20..683a242 100644
--- a/chain/ethbr/client/error.go
+++ b/chain/ethbr/client/error.go
@@ -96,5 +96,5 @@ func NewRevertError(code int) error {
 		}
 		return errors.NewBase(c, msg)
 	}
-	return nil
+	return fmt.Errorf("invalid revert code:%d", code)
 }
diff --git a/chain/icon/client/error.go b/chain/icon/client/error.go
index 8b65d80..d2095b4 100644
--- a/chain/icon/client/error.go
+++ b/chain/icon/client/error.go
@@ -104,5 +104,5 @@ func NewRevertError(code int) error {
 		}
 		return errors.NewBase(c, msg)
 	}
-	return nil
+	return fmt.Errorf("invalid revert code:%d", code)
 }
-- 
2.43.0


From 78fe18f73c10893679941e7ec7f14de9f27c228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:18 +0000
Subject: [PATCH 17/46] fix: nil dereference on a failed transaction result
 without failure

---
 chain/icon/sender.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index 1238a34..9458ab9 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -273,6 +273,9 @@ func (s *sender) GetResult(txh *client.TransactionHashParam) (*client.Transactio
 func mapErrorWithTransactionResult(txr *client.TransactionResult, err error) error {
 	err = client.MapError(err)
 	if err == nil && txr != nil && txr.Status != client.ResultStatusSuccess {
+		if txr.Failure == nil {
+			return fmt.Errorf("failure without reason, status:%s", txr.Status)
+		}
 		fc, _ := txr.Failure.CodeValue.Value()
 		if fc < client.ResultStatusFailureCodeRevert || fc > client.ResultStatusFailureCodeEnd {
 			err = fmt.Errorf("failure with code:%s, message:%s",
-- 
2.43.0


From e4e5e8d72fff3c2d6eb1cd12e436c27c27caa44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:18 +0000
Subject: [PATCH 18/46] fix: out of range slice of a short system error message

---
 chain/icon/client/client.go | 12 ++++++++++--
 chain/icon/sender.go        |  3 +--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index ebf2758..02b27e4 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -146,7 +146,7 @@ txLoop:
 				case *jsonrpc.Error:
 					switch re.Code {
 					case JsonrpcErrorCodeSystem:
-						if subEc, err := strconv.ParseInt(re.Message[1:5], 0, 32); err == nil {
+						if subEc, err := SystemErrorCode(re); err == nil {
 							switch subEc {
 							case 2000: //DuplicateTransactionError
 								//Ignore
@@ -528,6 +528,14 @@ func (c *Client) wsReadJSONLoop(conn *websocket.Conn, respPtr interface{}, cb ws
 	}
 }
 
+// SystemErrorCode returns the sub code of a system error, of which the message starts with 'E' and four digits.
+func SystemErrorCode(e *jsonrpc.Error) (int64, error) {
+	if len(e.Message) < 5 {
+		return 0, fmt.Errorf("no sub code in message:%s", e.Message)
+	}
+	return strconv.ParseInt(e.Message[1:5], 0, 32)
+}
+
 func MapError(err error) error {
 	if err != nil {
 		switch re := err.(type) {
@@ -537,7 +545,7 @@ func MapError(err error) error {
 			case JsonrpcErrorCodeTxPoolOverflow:
 				return ErrSendFailByOverflow
 			case JsonrpcErrorCodeSystem:
-				if subEc, err := strconv.ParseInt(re.Message[1:5], 0, 32); err == nil {
+				if subEc, err := SystemErrorCode(re); err == nil {
 					//TODO return JsonRPC Error
 					switch subEc {
 					case ExpiredTransactionError:
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index 9458ab9..6198ab7 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -21,7 +21,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"math"
-	"strconv"
 	"time"
 
 	"github.com/icon-project/btp/chain/icon/client"
@@ -236,7 +235,7 @@ SignLoop:
 						<-time.After(DefaultRelayReSendInterval)
 						continue SendLoop
 					case client.JsonrpcErrorCodeSystem:
-						if subEc, err := strconv.ParseInt(je.Message[1:5], 0, 32); err == nil {
+						if subEc, err := client.SystemErrorCode(je); err == nil {
 							switch subEc {
 							case client.DuplicateTransactionError:
 								s.l.Debugf("DuplicateTransactionError txh:%v", txh)
-- 
2.43.0


From 52a530bd2b1f053435ff8278164225db1d28653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:44 +0000
Subject: [PATCH 19/46] fix: follow a duplicate transaction by its own hash

---
 chain/icon/client/client.go | 4 ++--
 chain/icon/sender.go        | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index 02b27e4..4326782 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -150,8 +150,8 @@ txLoop:
 							switch subEc {
 							case 2000: //DuplicateTransactionError
 								//Ignore
-								c.l.Debugf("DuplicateTransactionError txh:%v", txh)
-								thp.Hash = *txh
+								c.l.Debugf("DuplicateTransactionError txh:%v", p.TxHash)
+								thp.Hash = p.TxHash
 								break txLoop
 							}
 						}
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index 6198ab7..b54dbd2 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -238,7 +238,8 @@ SignLoop:
 						if subEc, err := client.SystemErrorCode(je); err == nil {
 							switch subEc {
 							case client.DuplicateTransactionError:
-								s.l.Debugf("DuplicateTransactionError txh:%v", txh)
+								s.l.Debugf("DuplicateTransactionError txh:%v", p.TxHash)
+								thp.Hash = p.TxHash
 								return thp, nil
 							case client.ExpiredTransactionError:
 								continue SignLoop
-- 
2.43.0


From 344add4f0c4b97e121bea164e33571781aa0a29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:28 +0000
Subject: [PATCH 20/46] fix: report an unreadable source key secret instead of
 using an empty password

---
 cmd/relay/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/relay/main.go b/cmd/relay/main.go
index 6ec705e..b4eddee 100644
--- a/cmd/relay/main.go
+++ b/cmd/relay/main.go
@@ -82,6 +82,9 @@ func (c *Config) resolvePassword(keySecret, keyStorePass string) ([]byte, error)
 
 func (c *Config) EnsureWallet() error {
 	srcPw, err := c.resolvePassword(c.Src.KeySecret, c.Src.KeyStorePass)
+	if err != nil {
+		return err
+	}
 	dstPw, err := c.resolvePassword(c.Dst.KeySecret, c.Dst.KeyStorePass)
 	if err != nil {
 		return err
-- 
2.43.0


From b904a6d7625b4c3c7b3092752767f6f09f73b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:18 +0000
Subject: [PATCH 21/46] fix: do not drop a link's error when the relay is not
 yet waiting for it

---
 cmd/relay/linkfatory.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cmd/relay/linkfatory.go b/cmd/relay/linkfatory.go
index f5d80fd..bc8d6a8 100644
--- a/cmd/relay/linkfatory.go
+++ b/cmd/relay/linkfatory.go
@@ -88,11 +88,7 @@ func newLink(s string, cfg chain.Config, l log.Logger, w wallet.Wallet, linkErrC
 	lk = link.NewLink(&cfg, r, l)
 
 	go func() {
-		err := lk.Start(newSender(cfg.Dst.Address.BlockChain(), cfg.Src, cfg.Dst, w, l))
-		select {
-		case linkErrCh <- err:
-		default:
-		}
+		linkErrCh <- lk.Start(newSender(cfg.Dst.Address.BlockChain(), cfg.Src, cfg.Dst, w, l))
 	}()
 
 	return lk, nil
-- 
2.43.0


From c937885388a5a10ffb72a936015da31bdf239796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:09 +0000
Subject: [PATCH 22/46] fix: reject key store parameters that would crash the
 decryption

---
 common/wallet/keystore.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/wallet/keystore.go b/common/wallet/keystore.go
index 118bb15..4eb7f23 100644
--- a/common/wallet/keystore.go
+++ b/common/wallet/keystore.go
@@ -194,6 +194,9 @@ func DecryptICONKeyStore(ksData *KeyStoreData, pw []byte) (*crypto.PrivateKey, e
 		return nil, err
 	}
 
+	if kdfParams.DKLen < 32 {
+		return nil, errors.Errorf("InvalidKDFParams(dklen=%d)", kdfParams.DKLen)
+	}
 	key, err := kdfParams.Key(pw)
 	if err != nil {
 		return nil, err
@@ -214,6 +217,9 @@ func DecryptICONKeyStore(ksData *KeyStoreData, pw []byte) (*crypto.PrivateKey, e
 		return nil, err
 	}
 
+	if len(cipherParams.IV) != block.BlockSize() {
+		return nil, errors.Errorf("InvalidCipherParams(iv=%s)", cipherParams.IV)
+	}
 	secretBytes := make([]byte, len(cipheredBytes))
 
 	stream := cipher.NewCTR(block, cipherParams.IV.Bytes())
-- 
2.43.0


From f6a13caeebb402e98ab056383064f93aaf1d5f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:47 +0000
Subject: [PATCH 23/46] fix: parse a VRS signature instead of crashing

---
 common/crypto/signature.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/crypto/signature.go b/common/crypto/signature.go
index 09e91ed..67ac376 100644
--- a/common/crypto/signature.go
+++ b/common/crypto/signature.go
@@ -71,7 +71,8 @@ func ParseSignatureVRS(sig []byte) (*Signature, error) {
 	var s Signature
 	s.bytes = append(s.bytes, sig[1:33]...)
 	s.bytes = append(s.bytes, sig[33:]...)
-	s.bytes[64] = sig[0]
+	s.bytes = append(s.bytes, sig[0])
+	s.hasV = true
 	return &s, nil
 }
 
-- 
2.43.0


From 52a3e5445d05307c19ae2c03aa5a8e868555b008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:47 +0000
Subject: [PATCH 24/46] fix: refuse empty address bytes instead of crashing

---
 common/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/address.go b/common/address.go
index 7ced1c8..d2471a2 100644
--- a/common/address.go
+++ b/common/address.go
@@ -79,7 +79,7 @@ func (a *Address) ID() []byte {
 }
 
 func (a *Address) SetBytes(b []byte) error {
-	if b == nil {
+	if len(b) == 0 {
 		return errors.ErrIllegalArgument
 	}
 	switch b[0] {
-- 
2.43.0


From b5d1716800aa759e4011f84f30b9a311510b231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:47 +0000
Subject: [PATCH 25/46] fix: a short address id does not keep bytes of the
 previous address

---
 common/address.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/address.go b/common/address.go
index d2471a2..042678b 100644
--- a/common/address.go
+++ b/common/address.go
@@ -98,6 +98,7 @@ func (a *Address) SetTypeAndID(ic bool, id []byte) error {
 	}
 	switch {
 	case len(id) < AddressIDBytes:
+		*a = Address{}
 		copy(a[AddressIDBytes-len(id)+1:], id)
 	default:
 		copy(a[1:], id)
-- 
2.43.0


From 372a4a3c68bb5622090df791a9afd55cfe0a324c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:47 +0000
Subject: [PATCH 26/46] fix: an encrypted secret names the sender's key
 whatever form the peer's key has

---
 common/wallet/encrypted.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/wallet/encrypted.go b/common/wallet/encrypted.go
index 1a87ed4..ec12df4 100644
--- a/common/wallet/encrypted.go
+++ b/common/wallet/encrypted.go
@@ -76,7 +76,7 @@ func NewEncrypted(w Wallet, pubKey, b []byte) (*Encrypted, error) {
 		return nil, err
 	}
 	s.XORKeyStream(e.CipherText, b)
-	copy(e.Param[EncryptSaltSize:], w.PublicKey())
+	e.Param = append(e.Param[:EncryptSaltSize], w.PublicKey()...)
 	return e, nil
 }
 
-- 
2.43.0


From 4000d40aac5325c9c09a7b3f2ecd2d43952d6757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:47 +0000
Subject: [PATCH 27/46] fix: an unsupported key agreement is an error instead
 of an empty secret

---
 common/wallet/wallet_evm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/wallet/wallet_evm.go b/common/wallet/wallet_evm.go
index 6f7a8ed..b5022c8 100644
--- a/common/wallet/wallet_evm.go
+++ b/common/wallet/wallet_evm.go
@@ -29,7 +29,7 @@ func (w *EvmWallet) PublicKey() []byte {
 
 func (w *EvmWallet) ECDH(pubKey []byte) ([]byte, error) {
 	//TODO: Not implemented yet
-	return nil, nil
+	return nil, errors.New("Not implemented yet")
 }
 
 func NewEvmWalletFromPrivateKey(sk *ecdsa.PrivateKey) (*EvmWallet, error) {
-- 
2.43.0


From c650fa0ac881b8961f620c58434369ce7f9ae91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:51 +0000
Subject: [PATCH 28/46] fix: report the sequence of a block's last message, not
 of its first, in bridge mode

---
 chain/icon/bridge/bridge.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 10735e3..4341fe3 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -46,7 +46,6 @@ type bridge struct {
 
 func newReceiveStatus(height, rxSeq int64, sn int64, msgs []string, next types.BtpAddress) (*receiveStatus, error) {
 	evts := make([]*Event, 0)
-	seq := sn
 	for _, msg := range msgs {
 		if sn > rxSeq {
 			evt, err := messageToEvent(next, msg, sn)
@@ -66,7 +65,7 @@ func newReceiveStatus(height, rxSeq int64, sn int64, msgs []string, next types.B
 
 	return &receiveStatus{
 		height: height,
-		seq:    seq,
+		seq:    sn - 1,
 		rp:     rp,
 	}, nil
 }
-- 
2.43.0


From 5004ce45b725af75d0986feee29a26e1003a659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:51 +0000
Subject: [PATCH 29/46] fix: find the block of every message, not only of a
 block's last message

---
 chain/ethbr/receiver.go     | 2 +-
 chain/icon/bridge/bridge.go | 2 +-
 chain/icon/btp2/btp2.go     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 1862fab..e5ba7a5 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -301,7 +301,7 @@ func (e *ethbr) newBlockUpdate(v *client.BlockNotification) (*client.BlockUpdate
 
 func (e *ethbr) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 	for _, rs := range e.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+		if rs.rps[0].Events[0].Sequence.Int64() <= seq && seq <= rs.Seq() {
 			return rs
 		}
 	}
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 4341fe3..0ef7036 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -271,7 +271,7 @@ func (b *bridge) updateReceiveStatus(bs *types.BMCLinkStatus) {
 
 func (b *bridge) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 	for _, rs := range b.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+		if rs.Seq()-int64(len(rs.rp.Events)) < seq && seq <= rs.Seq() {
 			return rs
 		}
 	}
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index abc253c..275995b 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -315,7 +315,7 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 
 func (b *btp2) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 	for _, rs := range b.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+		if rs.Seq()-int64(rs.mt.Len()) < seq && seq <= rs.Seq() {
 			return rs
 		}
 	}
-- 
2.43.0


From e72be01ec843d0ebca1b499b4117179f0e781c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:51 +0000
Subject: [PATCH 30/46] fix: the last sequence of a proof of the rest of a
 block is that of its last message

---
 chain/icon/bridge/bridge.go | 4 ++--
 chain/icon/btp2/btp2.go     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 0ef7036..539c858 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -159,14 +159,14 @@ func (b *bridge) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.
 	for i := offset; i < int64(messageCnt); i++ {
 		size := sizeOfEvent(rs.ReceiptProof().Events[i])
 		if limit < int64(rmSize+size) {
-			return NewMessageProof(bls, bls.RxSeq+i, trp)
+			return NewMessageProof(bls, bls.RxSeq+i-offset, trp)
 		}
 		trp.Events = append(trp.Events, rs.ReceiptProof().Events[i])
 		rmSize += size
 	}
 
 	//last event
-	return NewMessageProof(bls, bls.RxSeq+int64(messageCnt), trp)
+	return NewMessageProof(bls, bls.RxSeq+int64(messageCnt)-offset, trp)
 
 }
 
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index 275995b..56611ed 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -207,7 +207,7 @@ func (b *btp2) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.Me
 			}
 
 			if limit < int64(len(codec.RLP.MustMarshalToBytes(p))) {
-				mp := NewMessageProof(bls, bls.RxSeq+i, *p)
+				mp := NewMessageProof(bls, bls.RxSeq+i-offset, *p)
 				return mp, nil
 			}
 		}
@@ -217,7 +217,7 @@ func (b *btp2) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.Me
 	if err != nil {
 		return nil, err
 	}
-	mp := NewMessageProof(bls, bls.RxSeq+messageCnt, *p)
+	mp := NewMessageProof(bls, bls.RxSeq+messageCnt-offset, *p)
 	return mp, nil
 }
 
-- 
2.43.0


From 6ab320f4a525dd0704b66e8f80a673900504d160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:51 +0000
Subject: [PATCH 31/46] fix: do not use a missing receive status or an
 undecodable event

---
 chain/ethbr/receiver.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index e5ba7a5..6b54e94 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -112,10 +112,10 @@ func (e *ethbr) BuildMessageProof(bls *btpTypes.BMCLinkStatus, limit int64) (lin
 	var seq int
 	rps := make([]*client.ReceiptProof, 0)
 	rs := e.GetReceiveHeightForSequence(bls.RxSeq + 1)
-	e.l.Debugf("OnBlockOfSrc rpsCnt:%d rxSeq:%d", len(rs.rps), rs.Seq())
 	if rs == nil {
 		return nil, nil
 	}
+	e.l.Debugf("OnBlockOfSrc rpsCnt:%d rxSeq:%d", len(rs.rps), rs.Seq())
 
 	rpsCnt := int64(len(rs.rps))
 	offset := bls.RxSeq - (rs.Seq() - rpsCnt)
@@ -214,11 +214,11 @@ func (e *ethbr) Monitoring(bs *btpTypes.BMCLinkStatus) error {
 			EpLoop:
 				for _, el := range v.Logs {
 					evt, err := logToEvent(&el)
-					e.l.Debugf("event[seq:%d next:%s] seq:%d dst:%s",
-						evt.Sequence, evt.Next, e.seq, e.dst.String())
 					if err != nil {
 						return err
 					}
+					e.l.Debugf("event[seq:%d next:%s] seq:%d dst:%s",
+						evt.Sequence, evt.Next, e.seq, e.dst.String())
 					if evt.Sequence.Int64() <= e.seq {
 						continue EpLoop
 					}
-- 
2.43.0


From 3997237424dfdeb5f981ee361a593ef6bcbd562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:51 +0000
Subject: [PATCH 32/46] fix: a message proof of an Ethereum block counts
 messages, not receipts

---
 chain/ethbr/receiver.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 6b54e94..5abab1d 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -109,7 +109,7 @@ func (e *ethbr) BuildBlockProof(bls *btpTypes.BMCLinkStatus, height int64) (link
 
 func (e *ethbr) BuildMessageProof(bls *btpTypes.BMCLinkStatus, limit int64) (link.MessageProof, error) {
 	var rmSize int
-	var seq int
+	seq := bls.RxSeq
 	rps := make([]*client.ReceiptProof, 0)
 	rs := e.GetReceiveHeightForSequence(bls.RxSeq + 1)
 	if rs == nil {
@@ -118,9 +118,8 @@ func (e *ethbr) BuildMessageProof(bls *btpTypes.BMCLinkStatus, limit int64) (lin
 	e.l.Debugf("OnBlockOfSrc rpsCnt:%d rxSeq:%d", len(rs.rps), rs.Seq())
 
 	rpsCnt := int64(len(rs.rps))
-	offset := bls.RxSeq - (rs.Seq() - rpsCnt)
 	if rpsCnt > 0 {
-		for i := offset; i < rpsCnt; i++ {
+		for i := int64(0); i < rpsCnt; i++ {
 			trp := &client.ReceiptProof{
 				Index:  rs.rps[i].Index,
 				Events: make([]*client.Event, 0),
@@ -129,19 +128,22 @@ func (e *ethbr) BuildMessageProof(bls *btpTypes.BMCLinkStatus, limit int64) (lin
 			rps = append(rps, trp)
 
 			for _, e := range rs.rps[i].Events {
+				if e.Sequence.Int64() <= bls.RxSeq {
+					continue
+				}
 				size := sizeOfEvent(e)
 
 				if (int(limit) < rmSize+size) && rmSize > 0 {
-					return NewMessageProof(bls, bls.RxSeq+i, rps)
+					return NewMessageProof(bls, seq, rps)
 				}
 				trp.Events = append(trp.Events, e)
-				seq += 1
+				seq = e.Sequence.Int64()
 				rmSize += size
 			}
 
 			//last event
 			if int(limit) < rmSize {
-				return NewMessageProof(bls, bls.RxSeq+i, rps)
+				return NewMessageProof(bls, seq, rps)
 			}
 
 			//remove last receipt if empty
@@ -150,7 +152,7 @@ func (e *ethbr) BuildMessageProof(bls *btpTypes.BMCLinkStatus, limit int64) (lin
 			}
 		}
 
-		return NewMessageProof(bls, bls.RxSeq+int64(seq), rps)
+		return NewMessageProof(bls, seq, rps)
 	}
 	return nil, nil
 }
-- 
2.43.0


From e23afdc6c07cff6f0ee50769056fab6eff252b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:51 +0000
Subject: [PATCH 33/46] fix: a message proof of an Ethereum block says where it
 starts

---
 chain/ethbr/message.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chain/ethbr/message.go b/chain/ethbr/message.go
index db27c9f..336a765 100644
--- a/chain/ethbr/message.go
+++ b/chain/ethbr/message.go
@@ -133,7 +133,8 @@ func NewMessageProof(bs *types.BMCLinkStatus, ls int64, rps []*client.ReceiptPro
 	}
 
 	return &MessageProof{
-		lastSeq: ls,
+		startSeq: bs.RxSeq,
+		lastSeq:  ls,
 		relayMessageItem: relayMessageItem{
 			it:      link.TypeMessageProof,
 			payload: b,
-- 
2.43.0


From 1165b5f37a36e8521d4c906ecbc03347f9266a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:51 +0000
Subject: [PATCH 34/46] fix: an unreadable start height of a network stops the
 start

---
 chain/icon/bridge/bridge.go | 3 +++
 chain/icon/btp2/btp2.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 539c858..ec9f797 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -285,6 +285,9 @@ func (b *bridge) setStartHeight() error {
 		return err
 	}
 	sh, err := ni.StartHeight.Value()
+	if err != nil {
+		return err
+	}
 	b.startHeight = sh + 1
 	return nil
 }
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index 56611ed..7a8cc80 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -338,6 +338,9 @@ func (b *btp2) setStartHeight() error {
 		return err
 	}
 	sh, err := ni.StartHeight.Value()
+	if err != nil {
+		return err
+	}
 	b.startHeight = sh + 1
 	return nil
 }
-- 
2.43.0


From 866a2700825261d8f9389f651f2f8575292b8345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:55 +0000
Subject: [PATCH 35/46] fix: a block whose messages cannot be decoded does not
 advance the sequence

---
 chain/icon/btp2/btp2.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index 7a8cc80..e820855 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -299,12 +299,13 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 				return err
 			}
 
-			b.seq += int64(len(msgs))
-			rs, err := newReceiveStatus(bh.MainHeight, b.seq, msgs)
+			seq := b.seq + int64(len(msgs))
+			rs, err := newReceiveStatus(bh.MainHeight, seq, msgs)
 			if err != nil {
 				return err
 			}
 
+			b.seq = seq
 			b.rss = append(b.rss, rs)
 			b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, len(msgs))
 			b.rsc <- rs
-- 
2.43.0


From 268c55c856802ffb730f6541f6f7481f31422654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:52 +0000
Subject: [PATCH 36/46] fix: jsonrpc.Client.Do: an answer without error object
 is no nil *Error, an empty one no crash

---
 common/jsonrpc/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/jsonrpc/client.go b/common/jsonrpc/client.go
index d6f4d3b..73e7714 100644
--- a/common/jsonrpc/client.go
+++ b/common/jsonrpc/client.go
@@ -78,7 +78,7 @@ func (c *Client) Do(method string, reqPtr, respPtr interface{}) (jrResp *Respons
 				if dErr := json.Unmarshal(hErr.Response(), &jrResp); dErr != nil {
 					err = fmt.Errorf("fail to decode response body err:%+v, httpErr:%+v, httpResp:%+v, responseBody:%s",
 						dErr, err, resp, string(hErr.Response()))
-				} else {
+				} else if jrResp != nil && jrResp.Error != nil {
 					err = jrResp.Error
 					//fmt.Printf("jrResp.Error:%+v in HttpError", err)
 				}
@@ -93,6 +93,10 @@ func (c *Client) Do(method string, reqPtr, respPtr interface{}) (jrResp *Respons
 			err, resp)
 		return
 	}
+	if jrResp == nil {
+		err = fmt.Errorf("no response in body, jsonrpcResp:%+v", resp)
+		return
+	}
 	if jrResp.Error != nil {
 		err = jrResp.Error
 		return
-- 
2.43.0


From 20bfc18f913bf8244a1be022b4983b2edcf6d0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:02 +0000
Subject: [PATCH 37/46] fix: a transaction that could not be sent is not
 reported as sent

---
 chain/ethbr/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index a39b547..78291d0 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -119,7 +119,7 @@ func (c *Client) SendTransaction(tx *types.Transaction) error {
 
 	if err != nil {
 		c.log.Errorf("could not send tx: %v", err)
-		return nil
+		return err
 	}
 
 	return nil
-- 
2.43.0


From f34172874b27e590e3813f2d5b67178293dae1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:04 +0000
Subject: [PATCH 38/46] fix: a failed transaction whose repeated call succeeds
 does not stop the relay

---
 chain/ethbr/client/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index 78291d0..29ec42a 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -349,9 +349,10 @@ func (c *Client) GetRevertMessage(hash common.Hash) (string, error) {
 		Data:     tx.Data(),
 	}
 
-	_, err = c.ethClient.CallContract(context.Background(), msg, nil)
+	if _, err = c.ethClient.CallContract(context.Background(), msg, nil); err == nil {
+		return "", nil
+	}
 	return err.Error(), nil
-
 }
 
 func NewClient(uri string, l log.Logger) *Client {
-- 
2.43.0


From 92c113880e58fad316747ad46367a40b5aa32b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:20 +0000
Subject: [PATCH 39/46] fix: refuse to encode a float, complex or uintptr value
 instead of panicking

---
 common/codec/codec.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/common/codec/codec.go b/common/codec/codec.go
index 5424cf6..3e3c255 100644
--- a/common/codec/codec.go
+++ b/common/codec/codec.go
@@ -305,11 +305,17 @@ func (e *encoderImpl) encodeValue(v reflect.Value) error {
 			return e.encodeValue(v.Elem())
 		})
 
-	default:
-		if !v.IsValid() || v.IsNil() {
+	case reflect.Invalid:
+		return e.real.WriteNull()
+
+	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
+		if v.IsNil() {
 			return e.real.WriteNull()
 		}
 		return cerrors.Wrapf(ErrIllegalType, "IllegalType(%s)", v.Kind())
+
+	default:
+		return cerrors.Wrapf(ErrIllegalType, "IllegalType(%s)", v.Kind())
 	}
 }
 
-- 
2.43.0


From 95ac54c28b7e3f8744c88df04fad4dd5fa721fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:00 +0000
Subject: [PATCH 40/46] fix: refuse addresses and hex bytes that are too short
 or too long instead of crashing

---
 chain/ethbr/client/type.go | 6 ++++++
 chain/icon/client/type.go  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/chain/ethbr/client/type.go b/chain/ethbr/client/type.go
index b5dc8b9..c440009 100644
--- a/chain/ethbr/client/type.go
+++ b/chain/ethbr/client/type.go
@@ -302,6 +302,9 @@ func (hs HexBytes) Value() ([]byte, error) {
 	if hs == "" {
 		return nil, nil
 	}
+	if len(hs) < 2 {
+		return nil, fmt.Errorf("invalid hex bytes %s", string(hs))
+	}
 	return hex.DecodeString(string(hs[2:]))
 }
 
@@ -330,6 +333,9 @@ type Address string
 
 func (a Address) Value() ([]byte, error) {
 	var b [21]byte
+	if len(a) != 42 {
+		return nil, fmt.Errorf("invalid length %d", len(a))
+	}
 	switch a[:2] {
 	case "cx":
 		b[0] = 1
diff --git a/chain/icon/client/type.go b/chain/icon/client/type.go
index d260e31..4053589 100644
--- a/chain/icon/client/type.go
+++ b/chain/icon/client/type.go
@@ -294,6 +294,9 @@ func (hs HexBytes) Value() ([]byte, error) {
 	if hs == "" {
 		return nil, nil
 	}
+	if len(hs) < 2 {
+		return nil, fmt.Errorf("invalid hex bytes %s", string(hs))
+	}
 	return hex.DecodeString(string(hs[2:]))
 }
 func NewHexBytes(b []byte) HexBytes {
@@ -327,6 +330,9 @@ type Address string
 
 func (a Address) Value() ([]byte, error) {
 	var b [21]byte
+	if len(a) != 42 {
+		return nil, fmt.Errorf("invalid length %d", len(a))
+	}
 	switch a[:2] {
 	case "cx":
 		b[0] = 1
-- 
2.43.0


From e173690b3c83d51f8afc2bed19d96a1bc0baaaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:54 +0000
Subject: [PATCH 41/46] fix: look for an error's code without crashing when a
 cause is missing

---
 common/errors/errors.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/errors/errors.go b/common/errors/errors.go
index a0a8369..9c77319 100644
--- a/common/errors/errors.go
+++ b/common/errors/errors.go
@@ -314,7 +314,7 @@ func AsValue(ptr interface{}, err error) bool {
 	}
 	valueType := value.Type()
 
-	for {
+	for err != nil {
 		errValue := reflect.ValueOf(err)
 		if errValue.Type().AssignableTo(valueType) {
 			value.Set(errValue)
@@ -328,4 +328,5 @@ func AsValue(ptr interface{}, err error) bool {
 			return false
 		}
 	}
+	return false
 }
-- 
2.43.0


From 27b337eb04d48c6b7984293795d56591c251f2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:55 +0000
Subject: [PATCH 42/46] fix: report failures of building and sending relay
 messages instead of dropping them

---
 common/link/link.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index 83df3de..9f20bd8 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -146,8 +146,14 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 					err = l.checkStatus(bls)
 				})
 				l.rss = append(l.rss, rs)
-				l.BuildRelayMessage(bls)
+				if err == nil {
+					err = l.BuildRelayMessage(bls)
+				}
 				l.rmsMtx.Unlock()
+				if err != nil {
+					errCh <- err
+					return
+				}
 			}
 		}
 
@@ -241,7 +247,7 @@ func (l *Link) BuildRelayMessage(bls *types.BMCLinkStatus) error {
 	}
 
 	if l.isOverLimit(l.rmi.size) {
-		l.sendRelayMessage(bls)
+		return l.sendRelayMessage(bls)
 	}
 
 	return nil
@@ -255,7 +261,9 @@ func (l *Link) sendRelayMessage(bls *types.BMCLinkStatus) error {
 
 	for _, rm := range rms {
 		l.rms = append(l.rms, rm)
-		l.s.Relay(rm)
+		if _, err := l.s.Relay(rm); err != nil {
+			return err
+		}
 	}
 	return nil
 }
@@ -307,7 +315,7 @@ func (l *Link) checkStatus(bls *types.BMCLinkStatus) error {
 		}
 	}
 	if l.rmi.size > 0 {
-		l.sendRelayMessage(bls)
+		return l.sendRelayMessage(bls)
 	}
 	return nil
 }
@@ -324,7 +332,9 @@ func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
 			break
 		}
 		if l.isOverLimit(l.rmi.size) {
-			l.sendRelayMessage(bls)
+			if err := l.sendRelayMessage(bls); err != nil {
+				return err
+			}
 			h := l.r.GetHeightForSeq(bls.RxSeq)
 			mh = h
 			if err := l.buildBlockProof(bls, mh); err != nil {
@@ -443,9 +453,10 @@ func (l *Link) updateBlockProof(id int) error {
 	if rm == nil {
 		return nil
 	}
-	l.buildProof(rm.bls, nil)
-	l.sendRelayMessage(rm.bls)
-	return nil
+	if err := l.buildProof(rm.bls, nil); err != nil {
+		return err
+	}
+	return l.sendRelayMessage(rm.bls)
 }
 
 func (l *Link) searchReceiveStatusForHeight(height int64) ReceiveStatus {
@@ -491,11 +502,11 @@ func (l *Link) result(rr *types.RelayResult) error {
 		if err != nil {
 			return err
 		}
-		l.BuildRelayMessage(bls)
+		return l.BuildRelayMessage(bls)
 	case BMVAlreadyVerified:
 		l.removeRelayMessage(rr.Id)
 	case BMVRevertInvalidBlockWitnessOld:
-		l.updateBlockProof(rr.Id)
+		return l.updateBlockProof(rr.Id)
 	default:
 		l.l.Panicf("fail to GetResult RelayMessage ID:%v ErrorCoder:%+v",
 			rr.Id, rr.Err)
-- 
2.43.0


From da3fed038a2a59d6f4df1273341f16fee2560ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:58 +0000
Subject: [PATCH 43/46] fix: report the failure that ends the monitoring of a
 source

---
 chain/ethbr/receiver.go     | 4 +++-
 chain/icon/bridge/bridge.go | 4 +++-
 chain/icon/btp2/btp2.go     | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 5abab1d..9b9066e 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -79,7 +79,9 @@ func NewEthBridge(src, dst btpTypes.BtpAddress, endpoint string, l log.Logger) *
 
 func (e *ethbr) Start(bs *btpTypes.BMCLinkStatus) (<-chan link.ReceiveStatus, error) {
 	go func() {
-		e.Monitoring(bs)
+		if err := e.Monitoring(bs); err != nil {
+			e.l.Errorf("fail to monitor err:%+v", err)
+		}
 	}()
 
 	return e.rsc, nil
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index ec9f797..fc310df 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -104,7 +104,9 @@ func (b *bridge) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiveStatus, erro
 	}
 
 	go func() {
-		b.Monitoring(bs)
+		if err := b.Monitoring(bs); err != nil {
+			b.l.Errorf("fail to monitor err:%+v", err)
+		}
 	}()
 
 	return b.rsc, nil
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index e820855..eaf86de 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -135,7 +135,9 @@ func (b *btp2) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiveStatus, error)
 	}
 
 	go func() {
-		b.Monitoring(bs)
+		if err := b.Monitoring(bs); err != nil {
+			b.l.Errorf("fail to monitor err:%+v", err)
+		}
 	}()
 
 	return b.rsc, nil
-- 
2.43.0


From 47c6847a089c6f802a677e6e874d45137d6eb268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:01 +0000
Subject: [PATCH 44/46] fix: report failures of the Ethereum node while
 preparing the client, sender and transaction options

---
 chain/ethbr/client/client.go | 8 +++++---
 chain/ethbr/sender.go        | 4 +++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index 29ec42a..f52820e 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -96,7 +96,9 @@ func (c *Client) NewTransactOpts(k *ecdsa.PrivateKey) (*bind.TransactOpts, error
 	if err != nil {
 		return nil, err
 	}
-	txo.GasPrice, _ = c.ethClient.SuggestGasPrice(context.Background())
+	if txo.GasPrice, err = c.ethClient.SuggestGasPrice(context.Background()); err != nil {
+		return nil, err
+	}
 	txo.GasLimit = uint64(DefaultGasLimit)
 	return txo, nil
 }
@@ -367,10 +369,10 @@ func NewClient(uri string, l log.Logger) *Client {
 		ethClient: ethclient.NewClient(rpcClient),
 		log:       l,
 	}
-	c.chainID, _ = c.GetChainID()
+	c.chainID, err = c.GetChainID()
 	l.Tracef("Client Connected Chain ID: ", c.chainID)
 	if err != nil {
-		c.log.Error("Error creating tendermintLightclient system contract", err)
+		c.log.Error("Error retrieving chain id", err)
 	}
 	return c
 }
diff --git a/chain/ethbr/sender.go b/chain/ethbr/sender.go
index cb967b3..c163938 100644
--- a/chain/ethbr/sender.go
+++ b/chain/ethbr/sender.go
@@ -76,7 +76,9 @@ func NewSender(src, dst btpTypes.BtpAddress, w client.Wallet, endpoint string, o
 
 	s.c = client.NewClient(endpoint, l)
 
-	s.bmc, _ = binding.NewBMC(client.HexToAddress(s.dst.ContractAddress()), s.c.GetEthClient())
+	if s.bmc, err = binding.NewBMC(client.HexToAddress(s.dst.ContractAddress()), s.c.GetEthClient()); err != nil {
+		l.Panicf("fail to bind BMC err:%+v", err)
+	}
 
 	return s
 }
-- 
2.43.0


From 68f044c337b07e1096c5a263305bc7a0878c7720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:03 +0000
Subject: [PATCH 45/46] fix: report a relay result that failed without a code

---
 chain/ethbr/sender.go | 2 ++
 chain/icon/sender.go  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/chain/ethbr/sender.go b/chain/ethbr/sender.go
index c163938..ab0df67 100644
--- a/chain/ethbr/sender.go
+++ b/chain/ethbr/sender.go
@@ -139,6 +139,8 @@ func (s *sender) result(id int, txh *client.TransactionHashParam) {
 				Id:  id,
 				Err: ec.ErrorCode(),
 			}
+		} else {
+			s.l.Errorf("fail to get result rm id : %d err:%+v", id, err)
 		}
 	} else {
 		s.l.Debugf("result success rm id : %d ", id)
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index b54dbd2..d5fe369 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -136,6 +136,8 @@ func (s *sender) result(id int, txh *client.TransactionHashParam) {
 				Id:  id,
 				Err: ec.ErrorCode(),
 			}
+		} else {
+			s.l.Errorf("fail to get result rm id : %d err:%+v", id, err)
 		}
 	} else {
 		s.l.Debugf("result success rm id : %d ", id)
-- 
2.43.0


From 0a3454e086cc8fa9cb29951b035e21a06fbe1123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:40 +0000
Subject: [PATCH 46/46] fix: adding to a Merkle binary tree of seven or more
 contents keeps it balanced

---
 common/mbt/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/mbt/tree.go b/common/mbt/tree.go
index 6cda2e1..d67512e 100644
--- a/common/mbt/tree.go
+++ b/common/mbt/tree.go
@@ -82,7 +82,7 @@ func (n *node) add(h []byte) *node {
 		n.h = h
 		n.numOfLeaf = 1
 	} else {
-		if n.l != nil && n.l.level != n.r.level {
+		if n.l != nil && n.l.numOfLeaf != n.r.numOfLeaf {
 			n.r = n.r.add(h)
 			n.numOfLeaf++
 			n.h = n.hashFunc(n.l.h, n.r.h)
-- 
2.43.0


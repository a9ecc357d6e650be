From b0a1140e682c6d8d2f0a2610e0fe40bc4cfe0b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 01/45] fix: a reply queued just before the waiter blocks is no
 longer missed

The wake-up of Deque.Put was dropped when Get had seen the empty container
but was not yet receiving; the waiter then slept until its timeout.
---
 utils/queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/queue.go b/utils/queue.go
index e063378..3403a7a 100644
--- a/utils/queue.go
+++ b/utils/queue.go
@@ -14,7 +14,7 @@ type Deque struct {
 }
 
 func NewDeque() *Deque {
-	return &Deque{container: list.New(), notEmptyNotify: make(chan struct{})}
+	return &Deque{container: list.New(), notEmptyNotify: make(chan struct{}, 1)}
 }
 
 func (s *Deque) Put(item interface{}) {
-- 
2.43.0


From 766d4fd3a124b4edd3eda5127a84fb747fe21a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 02/45] fix: decode item lengths above 255

The length bytes were shifted as bytes, so every higher length byte was lost
and items and lists of 256 or more elements were misread.
---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index a6f2671..65a70bf 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -143,7 +143,7 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 	var length int
 	for i, b := range lengthBytes {
 		shift := (lengthBytesCount - i - 1) * 8
-		length += int(b << shift)
+		length += int(b) << shift
 	}
 	p.pos += lengthBytesCount
 
-- 
2.43.0


From ff23affda5cc90f3f9c06e3cb55e95636176f9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 03/45] fix: only the reply to a request completes it

Any message with the system bytes of an open request was handed to its
caller: primaries of the peer (which numbers its own transactions) and
responses of another kind included.
---
 hsms/connection.go |  7 ++++---
 hsms/protocol.go   | 40 ++++++++++++++++++++++++++++------------
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index a635b6e..3824fa2 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -5,6 +5,7 @@ import (
 
 	link "github.com/younglifestyle/secs4go"
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
+	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"
 )
 
 var HSMSSTYPES = map[int]string{
@@ -71,7 +72,7 @@ func (c *HsmsConnection) sendRejectRsp(packet ast.HSMSMessage, reasonCode byte)
 
 func (c *HsmsConnection) sendLinktestReq() {
 	systemID := c.hp.getNextSystemCounter()
-	queue := c.hp.createQueue(systemID)
+	queue := c.hp.createQueue(systemID, hsms.LinktestRspStr)
 	defer c.hp.removeQueue(systemID)
 
 	message := ast.NewHSMSMessageLinktestReq(c.hp.encodeSystemID(systemID))
@@ -120,7 +121,7 @@ func (c *HsmsConnection) sendReject(message ast.HSMSMessage, reason RejectReason
 
 func (c *HsmsConnection) sendSelectReq() error {
 	systemID := c.hp.getNextSystemCounter()
-	queue := c.hp.createQueue(systemID)
+	queue := c.hp.createQueue(systemID, hsms.SelectRspStr)
 	defer c.hp.removeQueue(systemID)
 
 	request := ast.NewHSMSMessageSelectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
@@ -153,7 +154,7 @@ func (c *HsmsConnection) sendSelectReq() error {
 
 func (c *HsmsConnection) sendDeselectReq() error {
 	systemID := c.hp.getNextSystemCounter()
-	queue := c.hp.createQueue(systemID)
+	queue := c.hp.createQueue(systemID, hsms.DeselectRspStr)
 	defer c.hp.removeQueue(systemID)
 
 	request := ast.NewHSMSMessageDeselectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 8520fa6..d7bf073 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -82,7 +82,7 @@ type HsmsProtocol struct {
 	hsmsConnection  *HsmsConnection
 
 	queueMu      sync.RWMutex
-	systemQueues map[uint32]*utils.Deque
+	systemQueues map[uint32]*replyQueue
 
 	logMu      sync.RWMutex
 	logCfg     LoggingConfig
@@ -116,6 +116,13 @@ type HsmsProtocol struct {
 	OnS9Error func(errorInfo *S9ErrorInfo)
 }
 
+// replyQueue holds the answer to an open transaction; replyType is the type of
+// message that answers it.
+type replyQueue struct {
+	*utils.Deque
+	replyType string
+}
+
 // NewHsmsProtocol creates a new HsmsProtocol instance.
 func NewHsmsProtocol(address string, port int, active bool, sessionID int, name string) *HsmsProtocol {
 	logger := common.NopLogger()
@@ -131,7 +138,7 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		logger:               logger,
 		systemCounter:        atomic.NewUint32(rand.Uint32()),
 		timeouts:             NewSecsTimeout(),
-		systemQueues:         make(map[uint32]*utils.Deque),
+		systemQueues:         make(map[uint32]*replyQueue),
 		handlers:             make(map[string]DataMessageHandler),
 		disconnectFlg:        make(chan struct{}, 1),
 		connectThreadRunning: atomic.NewBool(false),
@@ -290,18 +297,23 @@ func (p *HsmsProtocol) getNextSystemCounter() uint32 {
 	return uint32(num)
 }
 
-func (p *HsmsProtocol) createQueue(systemID uint32) *utils.Deque {
-	queue := utils.NewDeque()
+func (p *HsmsProtocol) createQueue(systemID uint32, replyType string) *replyQueue {
+	queue := &replyQueue{Deque: utils.NewDeque(), replyType: replyType}
 	p.queueMu.Lock()
 	p.systemQueues[systemID] = queue
 	p.queueMu.Unlock()
 	return queue
 }
 
-func (p *HsmsProtocol) fetchQueue(systemID uint32) (*utils.Deque, bool) {
+// fetchQueue returns the queue of the open transaction that a message of the
+// given type with these system bytes answers. Reject.req may answer any request.
+func (p *HsmsProtocol) fetchQueue(systemID uint32, msgType string) (*replyQueue, bool) {
 	p.queueMu.RLock()
 	queue, ok := p.systemQueues[systemID]
 	p.queueMu.RUnlock()
+	if ok && queue.replyType != msgType && msgType != hsms.RejectReqStr {
+		return nil, false
+	}
 	return queue, ok
 }
 
@@ -538,7 +550,7 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		}
 
 	case hsms.SelectRspStr:
-		if queue, ok := p.fetchQueue(systemID); ok {
+		if queue, ok := p.fetchQueue(systemID, message.Type()); ok {
 			queue.Put(message)
 		}
 		ctrl, ok := message.(*ast.ControlMessage)
@@ -573,7 +585,7 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		if err := p.connectionState.Deselect(); err != nil {
 			p.logger.Error("change state to NOT-SELECTED failed", "error", err)
 		}
-		if queue, ok := p.fetchQueue(systemID); ok {
+		if queue, ok := p.fetchQueue(systemID, message.Type()); ok {
 			queue.Put(message)
 		}
 
@@ -596,7 +608,7 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		p.hsmsConnection.SetSession(nil)
 
 	default:
-		if queue, ok := p.fetchQueue(systemID); ok {
+		if queue, ok := p.fetchQueue(systemID, message.Type()); ok {
 			queue.Put(message)
 		}
 	}
@@ -883,9 +895,13 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 		}
 
 		systemID := binary.BigEndian.Uint32(dataMessage.SystemBytes())
-		if queue, ok := p.fetchQueue(systemID); ok {
-			queue.Put(dataMessage)
-			continue
+		// Only a secondary message can answer a request: the peer numbers its
+		// primaries independently, so theirs may carry the same system bytes.
+		if dataMessage.FunctionCode()%2 == 0 {
+			if queue, ok := p.fetchQueue(systemID, hsms.DataMessageStr); ok {
+				queue.Put(dataMessage)
+				continue
+			}
 		}
 
 		p.handleDataMessage(dataMessage)
@@ -932,7 +948,7 @@ func (p *HsmsProtocol) SendAndWait(message *ast.DataMessage) (*ast.DataMessage,
 	}
 
 	systemID := p.getNextSystemCounter()
-	queue := p.createQueue(systemID)
+	queue := p.createQueue(systemID, hsms.DataMessageStr)
 	defer p.removeQueue(systemID)
 
 	outgoing := message.SetSessionIDAndSystemBytes(p.sessionID, p.encodeSystemID(systemID))
-- 
2.43.0


From a51c4fbd63d3287587d40600b5f3338cdb0ae9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 04/45] fix: unsolicited select and deselect responses do not
 change the state

A Select.rsp or Deselect.rsp that answers no open request, and a Deselect.rsp
that refuses, used to move the connection state machine.
---
 hsms/protocol.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index d7bf073..c2e7577 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -550,9 +550,12 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		}
 
 	case hsms.SelectRspStr:
-		if queue, ok := p.fetchQueue(systemID, message.Type()); ok {
-			queue.Put(message)
+		queue, ok := p.fetchQueue(systemID, message.Type())
+		if !ok {
+			p.logger.Warn("ignoring select.rsp without open select.req")
+			return
 		}
+		queue.Put(message)
 		ctrl, ok := message.(*ast.ControlMessage)
 		if !ok {
 			p.logger.Warn("received malformed select.rsp")
@@ -582,12 +585,17 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		}
 
 	case hsms.DeselectRspStr:
-		if err := p.connectionState.Deselect(); err != nil {
-			p.logger.Error("change state to NOT-SELECTED failed", "error", err)
+		queue, ok := p.fetchQueue(systemID, message.Type())
+		if !ok {
+			p.logger.Warn("ignoring deselect.rsp without open deselect.req")
+			return
 		}
-		if queue, ok := p.fetchQueue(systemID, message.Type()); ok {
-			queue.Put(message)
+		if ctrl, ok := message.(*ast.ControlMessage); ok && ControlStatus(ctrl.Status()) == ControlStatusAccepted {
+			if err := p.connectionState.Deselect(); err != nil {
+				p.logger.Error("change state to NOT-SELECTED failed", "error", err)
+			}
 		}
+		queue.Put(message)
 
 	case hsms.LinktestReqStr:
 		if !p.connected.Load() {
-- 
2.43.0


From 6ef2587fea9ae3d812a93fc521ff5c8569635810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 05/45] fix: do not answer messages that asked for no reply

A handler's reply went out even if the primary's wait bit was not set; the
sender has no transaction for it and answers with S9F5.
---
 hsms/protocol.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index c2e7577..e3b2eeb 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -639,6 +639,10 @@ func (p *HsmsProtocol) invokeHandler(handler DataMessageHandler, msg *ast.DataMe
 	if response == nil {
 		return
 	}
+	if msg.WaitBit() == "false" {
+		// the sender did not ask for a reply
+		return
+	}
 
 	response = response.SetSessionIDAndSystemBytes(p.sessionID, msg.SystemBytes())
 	if response.WaitBit() == "optional" {
-- 
2.43.0


From c4c1f65657e1e5ab61cd905ffeb5c0ebd2a29acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 06/45] fix: a connection lost while a control message is sent
 does not crash

The session pointer is cleared when the connection ends while other goroutines
(select, linktest, deselect, replies) use it without a check or a lock.
---
 hsms/connection.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index 3824fa2..3359662 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -2,6 +2,7 @@ package hsms
 
 import (
 	"fmt"
+	"sync"
 
 	link "github.com/younglifestyle/secs4go"
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
@@ -26,6 +27,7 @@ type HsmsConnection struct {
 	remotePort    int
 	sessionID     int
 	hp            *HsmsProtocol
+	mu            sync.RWMutex // guards connection
 	connection    *link.Session
 }
 
@@ -41,31 +43,41 @@ func NewHsmsConnection(active bool, address string, port int, sessionID int, del
 }
 
 func (c *HsmsConnection) Session() *link.Session {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	return c.connection
 }
 
 func (c *HsmsConnection) SetSession(session *link.Session) {
+	c.mu.Lock()
 	c.connection = session
+	c.mu.Unlock()
 }
 
 func (c *HsmsConnection) Send(msg interface{}) error {
-	if c.connection == nil {
+	return sendOn(c.Session(), msg)
+}
+
+// sendOn transmits an encoded message on the given session, which may be nil.
+func sendOn(session *link.Session, msg interface{}) error {
+	if session == nil {
 		return ErrNotConnected
 	}
-	return c.connection.Send(msg)
+	return session.Send(msg)
 }
 
 func (c *HsmsConnection) Close() error {
-	if c.connection == nil {
+	session := c.Session()
+	if session == nil {
 		return nil
 	}
-	return c.connection.Close()
+	return session.Close()
 }
 
 func (c *HsmsConnection) sendRejectRsp(packet ast.HSMSMessage, reasonCode byte) {
 	rejectReq := ast.NewHSMSMessageRejectReqFromMsg(packet, reasonCode)
 	c.hp.logControlMessage("TX", rejectReq)
-	if err := c.connection.Send(rejectReq.ToBytes()); err != nil {
+	if err := c.Send(rejectReq.ToBytes()); err != nil {
 		c.hp.logger.Error("send reject rsp failed", "error", err)
 	}
 }
@@ -77,7 +89,7 @@ func (c *HsmsConnection) sendLinktestReq() {
 
 	message := ast.NewHSMSMessageLinktestReq(c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", message)
-	if err := c.connection.Send(message.ToBytes()); err != nil {
+	if err := c.Send(message.ToBytes()); err != nil {
 		c.hp.logger.Error("send linktest.req failed", "error", err)
 		return
 	}
@@ -90,7 +102,7 @@ func (c *HsmsConnection) sendLinktestReq() {
 func (c *HsmsConnection) sendDeselectRsp(message ast.HSMSMessage, status ControlStatus) {
 	response := ast.NewHSMSMessageDeselectRsp(message, byte(status))
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.rsp failed", "error", err)
 	}
 }
@@ -98,7 +110,7 @@ func (c *HsmsConnection) sendDeselectRsp(message ast.HSMSMessage, status Control
 func (c *HsmsConnection) sendSelectRsp(message ast.HSMSMessage, status ControlStatus) {
 	response := ast.NewHSMSMessageSelectRsp(message, byte(status))
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.rsp failed", "error", err)
 	}
 }
@@ -106,7 +118,7 @@ func (c *HsmsConnection) sendSelectRsp(message ast.HSMSMessage, status ControlSt
 func (c *HsmsConnection) sendLinkTestRsp(message ast.HSMSMessage) {
 	response := ast.NewHSMSMessageLinktestRsp(message)
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send linktest.rsp failed", "error", err)
 	}
 }
@@ -114,7 +126,7 @@ func (c *HsmsConnection) sendLinkTestRsp(message ast.HSMSMessage) {
 func (c *HsmsConnection) sendReject(message ast.HSMSMessage, reason RejectReason) {
 	reject := ast.NewHSMSMessageRejectReqFromMsg(message, byte(reason))
 	c.hp.logControlMessage("TX", reject)
-	if err := c.connection.Send(reject.ToBytes()); err != nil {
+	if err := c.Send(reject.ToBytes()); err != nil {
 		c.hp.logger.Error("send reject.req failed", "error", err)
 	}
 }
@@ -126,7 +138,7 @@ func (c *HsmsConnection) sendSelectReq() error {
 
 	request := ast.NewHSMSMessageSelectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.connection.Send(request.ToBytes()); err != nil {
+	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.req failed", "error", err)
 		return err
 	}
@@ -159,7 +171,7 @@ func (c *HsmsConnection) sendDeselectReq() error {
 
 	request := ast.NewHSMSMessageDeselectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.connection.Send(request.ToBytes()); err != nil {
+	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.req failed", "error", err)
 		return err
 	}
-- 
2.43.0


From 235094d16132742a80dde2a789cb2a67e5f6e1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 07/45] fix: rejecting a control message does not panic

The constructor demanded a Reject.req as the message to reject (and compared
with a type name that no message has), and copied session bytes in place of
the system bytes, so a request received while not connected ended the process.
---
 lib-secs2-hsms-go/pkg/ast/hsms.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/hsms.go b/lib-secs2-hsms-go/pkg/ast/hsms.go
index b1a6d17..0c09ada 100644
--- a/lib-secs2-hsms-go/pkg/ast/hsms.go
+++ b/lib-secs2-hsms-go/pkg/ast/hsms.go
@@ -205,13 +205,15 @@ func NewHSMSMessageRejectReq(sessionID uint16, pType, sType byte, systemBytes []
 	return &ControlMessage{header}
 }
 
-func NewHSMSMessageRejectReqFromMsg(rejectReq HSMSMessage, reasonCode byte) HSMSMessage {
-	if rejectReq.Type() != "Reject.req" {
-		panic("expected Reject.req message")
+// NewHSMSMessageRejectReqFromMsg creates HSMS Reject.req control message that rejects
+// the given control message.
+func NewHSMSMessageRejectReqFromMsg(rejected HSMSMessage, reasonCode byte) HSMSMessage {
+	msg, ok := rejected.(*ControlMessage)
+	if !ok {
+		panic("expected control message")
 	}
 
 	header := make([]byte, 10)
-	msg, _ := rejectReq.(*ControlMessage)
 	header[0] = msg.header[0]
 	header[1] = msg.header[1]
 	if reasonCode == 2 {
@@ -221,10 +223,10 @@ func NewHSMSMessageRejectReqFromMsg(rejectReq HSMSMessage, reasonCode byte) HSMS
 	}
 	header[3] = reasonCode
 	header[5] = sTypeRejectReq
-	header[6] = msg.header[0]
-	header[7] = msg.header[1]
-	header[8] = msg.header[2]
-	header[9] = msg.header[3]
+	header[6] = msg.header[6]
+	header[7] = msg.header[7]
+	header[8] = msg.header[8]
+	header[9] = msg.header[9]
 
 	return &ControlMessage{header}
 }
-- 
2.43.0


From b31c4507dce9d77bcbef91d7fd724f961a567332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 08/45] fix: a data message goes out only on the connection
 that was selected for it

The connection was looked up again after the state check (and, for S9F9, after
the T3 wait), so messages and S9F9 could go out on a new connection that was not
selected and did not carry the request.
---
 hsms/protocol.go            | 31 +++++++++++++++++++------------
 hsms/protocol_s9_helpers.go | 14 ++++++++------
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index e3b2eeb..ff3e3f0 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -920,14 +920,18 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 	}
 }
 
-func (p *HsmsProtocol) ensureReady(requireSelected bool) error {
-	if !p.connected.Load() || p.hsmsConnection.Session() == nil {
-		return ErrNotConnected
+// ensureReady returns the session to send on. The session is read before the
+// state, so that a message accepted for one connection cannot go out on a later
+// one that is not selected yet.
+func (p *HsmsProtocol) ensureReady(requireSelected bool) (*link.Session, error) {
+	session := p.hsmsConnection.Session()
+	if !p.connected.Load() || session == nil {
+		return nil, ErrNotConnected
 	}
 	if requireSelected && p.connectionState.CurrentState() != StateConnectedSelected {
-		return ErrNotSelected
+		return nil, ErrNotSelected
 	}
-	return nil
+	return session, nil
 }
 
 // SendDataMessage sends a SECS-II data message without waiting for the reply.
@@ -935,7 +939,8 @@ func (p *HsmsProtocol) SendDataMessage(message *ast.DataMessage) error {
 	if message == nil {
 		return errors.New("hsms: nil message")
 	}
-	if err := p.ensureReady(true); err != nil {
+	session, err := p.ensureReady(true)
+	if err != nil {
 		return err
 	}
 
@@ -947,7 +952,7 @@ func (p *HsmsProtocol) SendDataMessage(message *ast.DataMessage) error {
 
 	p.logDataMessage("OUT", outgoing)
 
-	return p.hsmsConnection.Send(outgoing.ToBytes())
+	return sendOn(session, outgoing.ToBytes())
 }
 
 // SendAndWait sends a SECS-II data message and waits for the response.
@@ -955,7 +960,8 @@ func (p *HsmsProtocol) SendAndWait(message *ast.DataMessage) (*ast.DataMessage,
 	if message == nil {
 		return nil, errors.New("hsms: nil message")
 	}
-	if err := p.ensureReady(true); err != nil {
+	session, err := p.ensureReady(true)
+	if err != nil {
 		return nil, err
 	}
 
@@ -970,14 +976,14 @@ func (p *HsmsProtocol) SendAndWait(message *ast.DataMessage) (*ast.DataMessage,
 
 	p.logDataMessage("OUT", outgoing)
 
-	if err := p.hsmsConnection.Send(outgoing.ToBytes()); err != nil {
+	if err := sendOn(session, outgoing.ToBytes()); err != nil {
 		return nil, err
 	}
 
 	resp, err := queue.Get(p.timeouts.T3ReplyTimeout())
 	if err != nil {
 		// On T3 timeout (Wait Bit=True was sent), send S9F9
-		p.sendS9F9TransactionTimeout(outgoing)
+		p.sendS9F9TransactionTimeout(session, outgoing)
 		return nil, ErrT3Timeout
 	}
 
@@ -1000,7 +1006,8 @@ func (p *HsmsProtocol) SendResponse(message *ast.DataMessage, systemBytes []byte
 	if message == nil {
 		return errors.New("hsms: nil message")
 	}
-	if err := p.ensureReady(true); err != nil {
+	session, err := p.ensureReady(true)
+	if err != nil {
 		return err
 	}
 
@@ -1011,7 +1018,7 @@ func (p *HsmsProtocol) SendResponse(message *ast.DataMessage, systemBytes []byte
 
 	p.logDataMessage("OUT", outgoing)
 
-	return p.hsmsConnection.Send(outgoing.ToBytes())
+	return sendOn(session, outgoing.ToBytes())
 }
 
 // RegisterHandler registers a callback for a specific stream/function pair.
diff --git a/hsms/protocol_s9_helpers.go b/hsms/protocol_s9_helpers.go
index 1c3505c..7d91911 100644
--- a/hsms/protocol_s9_helpers.go
+++ b/hsms/protocol_s9_helpers.go
@@ -1,6 +1,7 @@
 package hsms
 
 import (
+	link "github.com/younglifestyle/secs4go"
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
 )
 
@@ -107,8 +108,9 @@ func (p *HsmsProtocol) sendS9F11DataTooLong(systemBytes []byte) {
 	}
 }
 
-// sendS9F9TransactionTimeout sends S9F9 for T3 transaction timeout
-func (p *HsmsProtocol) sendS9F9TransactionTimeout(originalMsg *ast.DataMessage) {
+// sendS9F9TransactionTimeout sends S9F9 for T3 transaction timeout on the session
+// that carried the request
+func (p *HsmsProtocol) sendS9F9TransactionTimeout(session *link.Session, originalMsg *ast.DataMessage) {
 	// S9F9: Transaction Timer Timeout
 	// W: <B [10] SHeader>
 	// The stored header of the message associated with the transaction timer timeout.
@@ -119,9 +121,9 @@ func (p *HsmsProtocol) sendS9F9TransactionTimeout(originalMsg *ast.DataMessage)
 	headerBytes := make([]byte, 10)
 
 	// Device ID / Session ID
-	session := originalMsg.SessionID()
-	headerBytes[0] = byte(session >> 8)
-	headerBytes[1] = byte(session)
+	deviceID := originalMsg.SessionID()
+	headerBytes[0] = byte(deviceID >> 8)
+	headerBytes[1] = byte(deviceID)
 
 	// Stream & Function - Wait Bit is in Stream byte
 	stream := byte(originalMsg.StreamCode())
@@ -155,7 +157,7 @@ func (p *HsmsProtocol) sendS9F9TransactionTimeout(originalMsg *ast.DataMessage)
 		p.logger.Info("T3 timeout, sending S9F9", "stream", originalMsg.StreamCode(), "function", originalMsg.FunctionCode())
 		p.logDataMessage("OUT", s9Message)
 
-		if err := p.hsmsConnection.Send(s9Message.ToBytes()); err != nil {
+		if err := sendOn(session, s9Message.ToBytes()); err != nil {
 			p.logger.Error("failed to send S9F9", "error", err)
 		}
 	}
-- 
2.43.0


From 1d3f2db84362bf346a736d3d94669bdee8c41507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 09/45] fix: sending a message that cannot be encoded reports
 an error

Its encoding is empty: the call used to report success with nothing sent, or
waited for T3.
---
 hsms/connection.go | 3 +++
 hsms/protocol.go   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/hsms/connection.go b/hsms/connection.go
index 3359662..1269269 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -63,6 +63,9 @@ func sendOn(session *link.Session, msg interface{}) error {
 	if session == nil {
 		return ErrNotConnected
 	}
+	if b, ok := msg.([]byte); ok && len(b) == 0 {
+		return ErrNotEncodable
+	}
 	return session.Send(msg)
 }
 
diff --git a/hsms/protocol.go b/hsms/protocol.go
index ff3e3f0..2f21887 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -30,6 +30,9 @@ var (
 	// ErrNotSelected is returned when operations require the HSMS connection to
 	// be in SELECTED state but it is not.
 	ErrNotSelected = errors.New("hsms: connection not selected")
+	// ErrNotEncodable is returned for messages that have no HSMS representation,
+	// e.g. because a variable was not filled in.
+	ErrNotEncodable = errors.New("hsms: message cannot be encoded")
 	// ErrTimeout indicates the remote side did not answer within the configured timeout.
 	ErrTimeout = errors.New("hsms: timeout waiting for response")
 )
-- 
2.43.0


From 03eb908f38791594ebe82dd776f0aee7d9aa83e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 10/45] fix: linktests run once per live connection

The stop signal was a single buffered flag that the next connection's loop
could clear or swallow, so loops of lost connections lived on and sent linktests
on later connections. A linktest interval of 0 now means no linktests instead
of a panic.
---
 hsms/connection.go |  9 ++++--
 hsms/protocol.go   | 74 +++++++++++++++++++++-------------------------
 2 files changed, 40 insertions(+), 43 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index 1269269..52254fe 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -85,14 +85,19 @@ func (c *HsmsConnection) sendRejectRsp(packet ast.HSMSMessage, reasonCode byte)
 	}
 }
 
-func (c *HsmsConnection) sendLinktestReq() {
+func (c *HsmsConnection) sendLinktestReq(session *link.Session, stop <-chan struct{}) {
+	select {
+	case <-stop:
+		return
+	default:
+	}
 	systemID := c.hp.getNextSystemCounter()
 	queue := c.hp.createQueue(systemID, hsms.LinktestRspStr)
 	defer c.hp.removeQueue(systemID)
 
 	message := ast.NewHSMSMessageLinktestReq(c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", message)
-	if err := c.Send(message.ToBytes()); err != nil {
+	if err := sendOn(session, message.ToBytes()); err != nil {
 		c.hp.logger.Error("send linktest.req failed", "error", err)
 		return
 	}
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 2f21887..81d71ee 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -101,8 +101,7 @@ type HsmsProtocol struct {
 	defaultHandler DataMessageHandler
 
 	linktestTimerMu sync.Mutex
-	linktestTimer   *time.Ticker
-	disconnectFlg   chan struct{}
+	linktestStop    chan struct{} // closed when the present connection ends
 
 	t7TimerMu sync.Mutex
 	t7Timer   *time.Timer
@@ -143,7 +142,6 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		timeouts:             NewSecsTimeout(),
 		systemQueues:         make(map[uint32]*replyQueue),
 		handlers:             make(map[string]DataMessageHandler),
-		disconnectFlg:        make(chan struct{}, 1),
 		connectThreadRunning: atomic.NewBool(false),
 	}
 	h.logCfg.Writer = os.Stderr
@@ -160,54 +158,50 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 	return h
 }
 
-func (p *HsmsProtocol) clearDisconnectFlag() {
+// startLinktestTimer runs the linktests of one connection until stop is closed.
+func (p *HsmsProtocol) startLinktestTimer(session *link.Session, stop <-chan struct{}) {
+	interval := time.Duration(p.timeouts.Linktest()) * time.Second
+	if interval <= 0 {
+		return
+	}
+	ticker := time.NewTicker(interval)
+	defer ticker.Stop()
+
+	p.hsmsConnection.sendLinktestReq(session, stop)
+
 	for {
 		select {
-		case <-p.disconnectFlg:
+		case <-stop:
+			return
 		default:
+		}
+		select {
+		case <-ticker.C:
+			p.hsmsConnection.sendLinktestReq(session, stop)
+		case <-stop:
 			return
 		}
 	}
 }
 
-func (p *HsmsProtocol) startLinktestTimer() {
-	ticker := time.NewTicker(time.Duration(p.timeouts.Linktest()) * time.Second)
-
+// newLinktestStop ends the linktests of an earlier connection and returns the
+// channel that ends those of the present one.
+func (p *HsmsProtocol) newLinktestStop() <-chan struct{} {
 	p.linktestTimerMu.Lock()
-	p.linktestTimer = ticker
-	p.linktestTimerMu.Unlock()
-
-	defer func() {
-		ticker.Stop()
-		p.linktestTimerMu.Lock()
-		if p.linktestTimer == ticker {
-			p.linktestTimer = nil
-		}
-		p.linktestTimerMu.Unlock()
-	}()
-
-	p.clearDisconnectFlag()
-	p.hsmsConnection.sendLinktestReq()
-
-	for {
-		select {
-		case <-ticker.C:
-			p.hsmsConnection.sendLinktestReq()
-		case <-p.disconnectFlg:
-			return
-		}
+	defer p.linktestTimerMu.Unlock()
+	if p.linktestStop != nil {
+		close(p.linktestStop)
 	}
+	p.linktestStop = make(chan struct{})
+	return p.linktestStop
 }
 
 func (p *HsmsProtocol) stopLinktestTimer() {
 	p.linktestTimerMu.Lock()
 	defer p.linktestTimerMu.Unlock()
-
-	if p.linktestTimer != nil {
-		select {
-		case p.disconnectFlg <- struct{}{}:
-		default:
-		}
+	if p.linktestStop != nil {
+		close(p.linktestStop)
+		p.linktestStop = nil
 	}
 }
 
@@ -270,6 +264,8 @@ func (p *HsmsProtocol) onStateDisconnect(ctx context.Context, _ *fsm.Event) {
 
 // onStateConnect is triggered when the HSMS connection transitions out of NOT-CONNECTED.
 func (p *HsmsProtocol) onStateConnect(ctx context.Context, _ *fsm.Event) {
+	session := p.hsmsConnection.Session()
+	stop := p.newLinktestStop()
 	go func() {
 		if p.active {
 			if err := p.hsmsConnection.sendSelectReq(); err != nil {
@@ -282,7 +278,7 @@ func (p *HsmsProtocol) onStateConnect(ctx context.Context, _ *fsm.Event) {
 			return
 		}
 
-		p.startLinktestTimer()
+		p.startLinktestTimer(session, stop)
 	}()
 }
 
@@ -367,10 +363,6 @@ func (p *HsmsProtocol) Disable() {
 			// allow a brief moment for remote to process before closing
 			time.Sleep(200 * time.Millisecond)
 		}
-		select {
-		case p.disconnectFlg <- struct{}{}:
-		default:
-		}
 		if err := p.hsmsConnection.Close(); err != nil {
 			p.logger.Error("close session failed", "error", err)
 		}
-- 
2.43.0


From 90778308687dee15b6bd7e8120116f85a5ce8291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 11/45] fix: T7 concerns only the connection it was started for

A T7 timeout that raced with select or with the end of the connection closed a
selected or a later connection, and a connection that ended while the endpoint
was being disabled left the state machine connected, so that T7 fired on it.
---
 hsms/connection.go |  4 ++--
 hsms/protocol.go   | 54 +++++++++++++++++++++++++++++++++-------------
 2 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index 52254fe..6d5b775 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -139,14 +139,14 @@ func (c *HsmsConnection) sendReject(message ast.HSMSMessage, reason RejectReason
 	}
 }
 
-func (c *HsmsConnection) sendSelectReq() error {
+func (c *HsmsConnection) sendSelectReq(session *link.Session) error {
 	systemID := c.hp.getNextSystemCounter()
 	queue := c.hp.createQueue(systemID, hsms.SelectRspStr)
 	defer c.hp.removeQueue(systemID)
 
 	request := ast.NewHSMSMessageSelectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.Send(request.ToBytes()); err != nil {
+	if err := sendOn(session, request.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.req failed", "error", err)
 		return err
 	}
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 81d71ee..52974fe 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -91,6 +91,10 @@ type HsmsProtocol struct {
 	logCfg     LoggingConfig
 	logWriteMu sync.Mutex
 
+	// lifecycleMu makes the start and the end of a connection and the T7 timeout
+	// exclude each other.
+	lifecycleMu sync.Mutex
+
 	connDoneMu sync.Mutex
 	connDone   chan struct{}
 
@@ -215,14 +219,23 @@ func (p *HsmsProtocol) startT7Timer() {
 	if p.t7Timer != nil {
 		p.t7Timer.Stop()
 	}
+	session := p.hsmsConnection.Session()
 	p.t7Timer = time.AfterFunc(duration, func() {
-		p.logger.Warn("T7 timeout", "duration", duration)
-		p.connected.Store(false)
-		p.stopLinktestTimer()
-		if err := p.connectionState.TimeoutT7(); err != nil {
-			p.logger.Error("timeoutT7 transition error", "error", err)
+		// The timer concerns the connection it was started for, and only as
+		// long as that is not selected.
+		p.lifecycleMu.Lock()
+		if session == nil || p.hsmsConnection.Session() != session {
+			p.lifecycleMu.Unlock()
+			return
 		}
-		if err := p.hsmsConnection.Close(); err != nil {
+		err := p.connectionState.TimeoutT7()
+		p.lifecycleMu.Unlock()
+		if err != nil {
+			p.logger.Info("timeoutT7 does not apply", "error", err)
+			return
+		}
+		p.logger.Warn("T7 timeout", "duration", duration)
+		if err := session.Close(); err != nil {
 			p.logger.Error("close session after T7 timeout", "error", err)
 		}
 	})
@@ -268,7 +281,7 @@ func (p *HsmsProtocol) onStateConnect(ctx context.Context, _ *fsm.Event) {
 	stop := p.newLinktestStop()
 	go func() {
 		if p.active {
-			if err := p.hsmsConnection.sendSelectReq(); err != nil {
+			if err := p.hsmsConnection.sendSelectReq(session); err != nil {
 				p.logger.Error("send select.req failed", "error", err)
 				return
 			}
@@ -797,10 +810,14 @@ func (p *HsmsProtocol) handleDataMessage(message *ast.DataMessage) {
 }
 
 func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.Session) {
+	done := make(chan struct{})
+
+	p.lifecycleMu.Lock()
 	if !p.active {
 		if p.hsmsConnection.Session() == nil {
 			p.hsmsConnection.SetSession(connection)
 		} else if !p.hsmsConnection.Session().IsClosed() {
+			p.lifecycleMu.Unlock()
 			_ = connection.Close()
 			return
 		} else {
@@ -808,23 +825,32 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 		}
 	}
 
-	done := make(chan struct{})
 	p.connDoneMu.Lock()
 	p.connDone = done
 	p.connDoneMu.Unlock()
 
+	p.OnConnectionEstablished()
+	p.lifecycleMu.Unlock()
+
 	defer func() {
-		p.connDoneMu.Lock()
-		p.connDone = nil
-		p.connDoneMu.Unlock()
+		_ = connection.Close()
 
-		if connection != nil {
-			_ = connection.Close()
+		p.lifecycleMu.Lock()
+		p.connected.Store(false)
+		p.stopLinktestTimer()
+		if p.connectionState.CurrentState() != StateNotConnected {
+			if err := p.connectionState.Disconnect(); err != nil {
+				p.logger.Error("change state to NOT-CONNECTED failed", "error", err)
+			}
 		}
 		if sess := p.hsmsConnection.Session(); sess == connection {
 			p.hsmsConnection.SetSession(nil)
 		}
+		p.lifecycleMu.Unlock()
 
+		p.connDoneMu.Lock()
+		p.connDone = nil
+		p.connDoneMu.Unlock()
 		close(done)
 	}()
 
@@ -842,8 +868,6 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 		defer deadlineCodec.SetReadDeadline(time.Time{})
 	}
 
-	p.OnConnectionEstablished()
-
 	for p.enabled.Load() {
 		if deadlineCodec != nil {
 			if err := deadlineCodec.SetReadDeadline(time.Now().Add(t8Duration)); err != nil {
-- 
2.43.0


From 60c4110af228c5318c6d41fc180791eabe40b1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 12/45] fix: Disable leaves no connection or listener behind

A dial or a listen in progress while Disable ran came up afterwards and stayed;
a passive endpoint returned before its connection had ended.
---
 hsms/connection.go |  4 ++--
 hsms/protocol.go   | 37 ++++++++++++++++++++++++++++++-------
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index 6d5b775..e9ab056 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -172,14 +172,14 @@ func (c *HsmsConnection) sendSelectReq(session *link.Session) error {
 	return nil
 }
 
-func (c *HsmsConnection) sendDeselectReq() error {
+func (c *HsmsConnection) sendDeselectReq(session *link.Session) error {
 	systemID := c.hp.getNextSystemCounter()
 	queue := c.hp.createQueue(systemID, hsms.DeselectRspStr)
 	defer c.hp.removeQueue(systemID)
 
 	request := ast.NewHSMSMessageDeselectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.Send(request.ToBytes()); err != nil {
+	if err := sendOn(session, request.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.req failed", "error", err)
 		return err
 	}
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 52974fe..f8b470f 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -353,33 +353,34 @@ func (p *HsmsProtocol) Enable() {
 
 // Disable stops the HSMS connection and releases resources.
 func (p *HsmsProtocol) Disable() {
+	p.lifecycleMu.Lock()
 	if !p.enabled.CompareAndSwap(true, false) {
+		p.lifecycleMu.Unlock()
 		return
 	}
+	// From here on no connection is taken up; this is the one to end.
+	sess := p.hsmsConnection.Session()
+	p.lifecycleMu.Unlock()
 
 	p.stopLinktestTimer()
 	p.stopT7Timer()
 	p.connected.Store(false)
 
 	if p.active {
-		if sess := p.hsmsConnection.Session(); sess != nil && !sess.IsClosed() {
+		if sess != nil && !sess.IsClosed() {
 			if p.connectionState.CurrentState() == StateConnectedSelected {
-				if err := p.hsmsConnection.sendDeselectReq(); err != nil {
+				if err := p.hsmsConnection.sendDeselectReq(sess); err != nil {
 					p.logger.Error("deselect failed", "error", err)
 				}
 			}
 			systemID := p.getNextSystemCounter()
 			sep := ast.NewHSMSMessageSeparateReq(uint16(p.sessionID), p.encodeSystemID(systemID))
-			if err := p.hsmsConnection.Send(sep.ToBytes()); err != nil {
+			if err := sendOn(sess, sep.ToBytes()); err != nil {
 				p.logger.Error("send separate.req failed", "error", err)
 			}
 			// allow a brief moment for remote to process before closing
 			time.Sleep(200 * time.Millisecond)
 		}
-		if err := p.hsmsConnection.Close(); err != nil {
-			p.logger.Error("close session failed", "error", err)
-		}
-		p.waitForConnectionClosure(2 * time.Second)
 	} else {
 		p.serverMu.Lock()
 		if p.server != nil {
@@ -388,6 +389,13 @@ func (p *HsmsProtocol) Disable() {
 		}
 		p.serverMu.Unlock()
 	}
+
+	if sess != nil {
+		if err := sess.Close(); err != nil {
+			p.logger.Error("close session failed", "error", err)
+		}
+		p.waitForConnectionClosure(2 * time.Second)
+	}
 }
 
 func (p *HsmsProtocol) waitForConnectionClosure(timeout time.Duration) {
@@ -469,6 +477,12 @@ func (p *HsmsProtocol) passiveConnect() error {
 	}
 
 	p.serverMu.Lock()
+	if !p.enabled.Load() {
+		// disabled while the listener was being opened
+		p.serverMu.Unlock()
+		server.Stop()
+		return nil
+	}
 	p.server = server
 	p.serverMu.Unlock()
 
@@ -813,6 +827,15 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 	done := make(chan struct{})
 
 	p.lifecycleMu.Lock()
+	if !p.enabled.Load() {
+		// disabled while the connection was being established
+		if p.hsmsConnection.Session() == connection {
+			p.hsmsConnection.SetSession(nil)
+		}
+		p.lifecycleMu.Unlock()
+		_ = connection.Close()
+		return
+	}
 	if !p.active {
 		if p.hsmsConnection.Session() == nil {
 			p.hsmsConnection.SetSession(connection)
-- 
2.43.0


From 1b46c0196f648f8b9b2ad19fa520cd84d43e1069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 13/45] fix: Enable right after Disable brings the endpoint
 back

If the connect thread was still on its way out, Enable started none and the
endpoint stayed down. The count of failed attempts starts afresh.
---
 hsms/protocol.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index f8b470f..31c1395 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -99,6 +99,7 @@ type HsmsProtocol struct {
 	connDone   chan struct{}
 
 	connectThreadRunning *atomic.Bool
+	enableCount          *atomic.Uint32
 
 	handlerMu      sync.RWMutex
 	handlers       map[string]DataMessageHandler
@@ -147,6 +148,7 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		systemQueues:         make(map[uint32]*replyQueue),
 		handlers:             make(map[string]DataMessageHandler),
 		connectThreadRunning: atomic.NewBool(false),
+		enableCount:          atomic.NewUint32(0),
 	}
 	h.logCfg.Writer = os.Stderr
 	h.logCfg.Mode = LoggingModeSML
@@ -345,6 +347,7 @@ func (p *HsmsProtocol) OnConnectionEstablished() {
 // Enable starts the connection manager.
 func (p *HsmsProtocol) Enable() {
 	if p.enabled.CompareAndSwap(false, true) {
+		p.enableCount.Inc()
 		if p.connectThreadRunning.CompareAndSwap(false, true) {
 			go p.startConnectThread()
 		}
@@ -413,19 +416,35 @@ func (p *HsmsProtocol) waitForConnectionClosure(timeout time.Duration) {
 }
 
 func (p *HsmsProtocol) startConnectThread() {
-	defer p.connectThreadRunning.Store(false)
+	generation := p.enableCount.Load()
+	gaveUp := p.connectLoop()
+	p.connectThreadRunning.Store(false)
+
+	// Enable may have found this thread still running while it was on its way
+	// out; then it is up to this thread to start over.
+	if p.enabled.Load() && (!gaveUp || p.enableCount.Load() != generation) {
+		if p.connectThreadRunning.CompareAndSwap(false, true) {
+			go p.startConnectThread()
+		}
+	}
+}
+
+// connectLoop keeps the endpoint connected while it is enabled. It reports whether
+// it stopped for another reason than the endpoint having been disabled.
+func (p *HsmsProtocol) connectLoop() bool {
+	p.reconnectAttempts = 0
 	for p.enabled.Load() {
 		if p.active {
 			if err := p.activeConnect(); err != nil {
 				if !p.enabled.Load() {
-					return
+					return false
 				}
 				p.logger.Error("connect failed", "error", err)
 
 				// Check if auto-reconnect is enabled
 				if !p.timeouts.AutoReconnect() {
 					p.logger.Info("auto-reconnect disabled, stopping connection attempts")
-					return
+					return true
 				}
 
 				// Increment reconnect attempts
@@ -436,7 +455,7 @@ func (p *HsmsProtocol) startConnectThread() {
 				if maxAttempts > 0 && p.reconnectAttempts > maxAttempts {
 					p.logger.Warn("max reconnect attempts reached, stopping", "maxAttempts", maxAttempts)
 					p.reconnectAttempts = 0
-					return
+					return true
 				}
 
 				// Calculate exponential backoff delay
@@ -449,7 +468,7 @@ func (p *HsmsProtocol) startConnectThread() {
 			p.reconnectAttempts = 0
 
 			if !p.enabled.Load() {
-				return
+				return false
 			}
 			time.Sleep(time.Duration(p.timeouts.T5ConnSeparateTimeout()) * time.Second)
 			continue
@@ -457,14 +476,14 @@ func (p *HsmsProtocol) startConnectThread() {
 
 		if err := p.passiveConnect(); err != nil {
 			if !p.enabled.Load() {
-				return
+				return false
 			}
 			p.logger.Error("listen failed", "error", err)
 			time.Sleep(time.Second)
 			continue
 		}
-
 	}
+	return false
 }
 
 func (p *HsmsProtocol) passiveConnect() error {
-- 
2.43.0


From 815b46746c7adb72e3ac2d7b4286316a7a97dca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 14/45] fix: without automatic reconnection a lost connection
 is not dialled again

---
 hsms/protocol.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 31c1395..81eaf23 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -470,6 +470,10 @@ func (p *HsmsProtocol) connectLoop() bool {
 			if !p.enabled.Load() {
 				return false
 			}
+			if !p.timeouts.AutoReconnect() {
+				p.logger.Info("auto-reconnect disabled, not connecting again")
+				return true
+			}
 			time.Sleep(time.Duration(p.timeouts.T5ConnSeparateTimeout()) * time.Second)
 			continue
 		}
-- 
2.43.0


From f23ebb0b7c9f1ca24c13c8a9b3e7d2fbef9627dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 15/45] fix: a declared message length alone does not allocate
 memory

Four bytes from a peer made the codec allocate up to 4 GB.
---
 codec/secs2.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/codec/secs2.go b/codec/secs2.go
index ab38fe2..3478895 100644
--- a/codec/secs2.go
+++ b/codec/secs2.go
@@ -13,6 +13,9 @@ import (
 var ErrMsgParsing = errors.New("message parsing error")
 var ErrMsgFormat = errors.New("message format error")
 
+// readChunk is how much is allocated ahead of the data received.
+const readChunk = 64 * 1024
+
 type SecsIIProtocol struct{}
 
 func (s *SecsIIProtocol) NewCodec(rw io.ReadWriter) (link.Codec, error) {
@@ -51,16 +54,24 @@ func (c *secsIICodec) Receive() (interface{}, error) {
 	}
 
 	required := int(msgLength) + 4
-	if cap(c.bodyBuf) < required {
-		c.bodyBuf = make([]byte, required)
-	} else {
-		c.bodyBuf = c.bodyBuf[:required]
-	}
-
-	binary.BigEndian.PutUint32(c.bodyBuf, msgLength)
-
-	if _, err := io.ReadFull(c.rw, c.bodyBuf[4:required]); err != nil {
-		return nil, err
+	// The buffer grows with the data received: the declared length alone must
+	// not make us allocate it.
+	c.bodyBuf = append(c.bodyBuf[:0], c.headBuf...)
+	for len(c.bodyBuf) < required {
+		have := len(c.bodyBuf)
+		next := required
+		if chunk := have + have + readChunk; next > chunk {
+			next = chunk
+		}
+		if cap(c.bodyBuf) < next {
+			grown := make([]byte, next)
+			copy(grown, c.bodyBuf)
+			c.bodyBuf = grown
+		}
+		c.bodyBuf = c.bodyBuf[:next]
+		if _, err := io.ReadFull(c.rw, c.bodyBuf[have:next]); err != nil {
+			return nil, err
+		}
 	}
 
 	msg, ok := hsms.Parse(c.bodyBuf[:required])
-- 
2.43.0


From 7197c1e56b3423cf087c0493953a58a03ca7b872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 16/45] fix: malformed item lengths and nesting do not exhaust
 memory or stack

A declared item length was allocated before checking it against the data, and
lists nested millions deep overflowed the stack; long ASCII items took quadratic
time.
---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 22 ++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index 65a70bf..95cc3c9 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -3,6 +3,7 @@ package hsms
 import (
 	"encoding/binary"
 	"math"
+	"strings"
 
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
 )
@@ -28,6 +29,10 @@ const (
 	sTypeRejectReq   = 7
 	sTypeSeparateReq = 9
 
+	// maxListDepth bounds the nesting of lists: parsing is recursive, and running
+	// out of stack ends the process.
+	maxListDepth = 1024
+
 	formatCodeList    = 0o00
 	formatCodeBinary  = 0o10
 	formatCodeBoolean = 0o11
@@ -70,6 +75,7 @@ func Parse(input []byte) (msg ast.HSMSMessage, ok bool) {
 type parser struct {
 	input     []byte          // a HSMS input message in bytes
 	pos       int             // current position in input
+	depth     int             // number of lists around the current position
 	msgLength int             // message length (excluding length bytes)
 	msg       ast.HSMSMessage // parsed HSMS message
 }
@@ -147,8 +153,17 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 	}
 	p.pos += lengthBytesCount
 
+	// Every value takes at least one byte: do not allocate for more than is there.
+	if length > len(p.input)-p.pos {
+		return ast.NewEmptyItemNode(), false
+	}
+
 	switch formatCode {
 	case formatCodeList:
+		if p.depth >= maxListDepth {
+			return ast.NewEmptyItemNode(), false
+		}
+		p.depth++
 		values := make([]interface{}, length)
 		for i := 0; i < length; i++ {
 			values[i], ok = p.parseMessageText()
@@ -156,15 +171,16 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 				return ast.NewEmptyItemNode(), false
 			}
 		}
+		p.depth--
 		return ast.NewListNode(values...), true
 
 	case formatCodeASCII:
-		var str string
+		var str strings.Builder
 		for _, v := range p.input[p.pos : p.pos+length] {
-			str += string(v)
+			str.WriteRune(rune(v))
 		}
 		p.pos += length
-		return ast.NewASCIINode(str), true
+		return ast.NewASCIINode(str.String()), true
 
 	case formatCodeBinary:
 		values := make([]interface{}, length)
-- 
2.43.0


From f464949735fb0fd6a4f78b9034caccba664fd17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 17/45] fix: an endpoint enabled anew counts its connection
 attempts afresh

---
 hsms/protocol.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 81eaf23..9639875 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -416,8 +416,7 @@ func (p *HsmsProtocol) waitForConnectionClosure(timeout time.Duration) {
 }
 
 func (p *HsmsProtocol) startConnectThread() {
-	generation := p.enableCount.Load()
-	gaveUp := p.connectLoop()
+	generation, gaveUp := p.connectLoop()
 	p.connectThreadRunning.Store(false)
 
 	// Enable may have found this thread still running while it was on its way
@@ -430,21 +429,28 @@ func (p *HsmsProtocol) startConnectThread() {
 }
 
 // connectLoop keeps the endpoint connected while it is enabled. It reports whether
-// it stopped for another reason than the endpoint having been disabled.
-func (p *HsmsProtocol) connectLoop() bool {
+// it stopped for another reason than the endpoint having been disabled, and the
+// number of the Enable call it last took notice of.
+func (p *HsmsProtocol) connectLoop() (generation uint32, gaveUp bool) {
+	generation = p.enableCount.Load()
 	p.reconnectAttempts = 0
 	for p.enabled.Load() {
+		if latest := p.enableCount.Load(); latest != generation {
+			// enabled anew meanwhile: the attempts count afresh
+			generation = latest
+			p.reconnectAttempts = 0
+		}
 		if p.active {
 			if err := p.activeConnect(); err != nil {
 				if !p.enabled.Load() {
-					return false
+					return generation, false
 				}
 				p.logger.Error("connect failed", "error", err)
 
 				// Check if auto-reconnect is enabled
 				if !p.timeouts.AutoReconnect() {
 					p.logger.Info("auto-reconnect disabled, stopping connection attempts")
-					return true
+					return generation, true
 				}
 
 				// Increment reconnect attempts
@@ -455,7 +461,7 @@ func (p *HsmsProtocol) connectLoop() bool {
 				if maxAttempts > 0 && p.reconnectAttempts > maxAttempts {
 					p.logger.Warn("max reconnect attempts reached, stopping", "maxAttempts", maxAttempts)
 					p.reconnectAttempts = 0
-					return true
+					return generation, true
 				}
 
 				// Calculate exponential backoff delay
@@ -468,11 +474,11 @@ func (p *HsmsProtocol) connectLoop() bool {
 			p.reconnectAttempts = 0
 
 			if !p.enabled.Load() {
-				return false
+				return generation, false
 			}
 			if !p.timeouts.AutoReconnect() {
 				p.logger.Info("auto-reconnect disabled, not connecting again")
-				return true
+				return generation, true
 			}
 			time.Sleep(time.Duration(p.timeouts.T5ConnSeparateTimeout()) * time.Second)
 			continue
@@ -480,14 +486,14 @@ func (p *HsmsProtocol) connectLoop() bool {
 
 		if err := p.passiveConnect(); err != nil {
 			if !p.enabled.Load() {
-				return false
+				return generation, false
 			}
 			p.logger.Error("listen failed", "error", err)
 			time.Sleep(time.Second)
 			continue
 		}
 	}
-	return false
+	return generation, false
 }
 
 func (p *HsmsProtocol) passiveConnect() error {
-- 
2.43.0


From f4f74cb67247493fb69ec56f10695d771594cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 18/45] fix: Disable returns although the peer does not read

---
 hsms/protocol.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 9639875..95646e6 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -371,18 +371,28 @@ func (p *HsmsProtocol) Disable() {
 
 	if p.active {
 		if sess != nil && !sess.IsClosed() {
-			if p.connectionState.CurrentState() == StateConnectedSelected {
-				if err := p.hsmsConnection.sendDeselectReq(sess); err != nil {
-					p.logger.Error("deselect failed", "error", err)
+			// A peer that no longer reads must not keep us from ending the connection.
+			goodbye := make(chan struct{})
+			go func() {
+				defer close(goodbye)
+				if p.connectionState.CurrentState() == StateConnectedSelected {
+					if err := p.hsmsConnection.sendDeselectReq(sess); err != nil {
+						p.logger.Error("deselect failed", "error", err)
+					}
 				}
+				systemID := p.getNextSystemCounter()
+				sep := ast.NewHSMSMessageSeparateReq(uint16(p.sessionID), p.encodeSystemID(systemID))
+				if err := sendOn(sess, sep.ToBytes()); err != nil {
+					p.logger.Error("send separate.req failed", "error", err)
+				}
+			}()
+			select {
+			case <-goodbye:
+				// allow a brief moment for remote to process before closing
+				time.Sleep(200 * time.Millisecond)
+			case <-time.After(time.Duration(p.timeouts.T6ControlTransTimeout()+1) * time.Second):
+				p.logger.Warn("peer does not take the separate.req, closing the connection")
 			}
-			systemID := p.getNextSystemCounter()
-			sep := ast.NewHSMSMessageSeparateReq(uint16(p.sessionID), p.encodeSystemID(systemID))
-			if err := sendOn(sess, sep.ToBytes()); err != nil {
-				p.logger.Error("send separate.req failed", "error", err)
-			}
-			// allow a brief moment for remote to process before closing
-			time.Sleep(200 * time.Millisecond)
 		}
 	} else {
 		p.serverMu.Lock()
-- 
2.43.0


From ff5bca2855476a33213d5a2baedaa159606608b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:27 +0000
Subject: [PATCH 19/45] fix: Disable does not undo the connected state of a
 later Enable

---
 hsms/protocol.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 95646e6..fcd3473 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -363,11 +363,10 @@ func (p *HsmsProtocol) Disable() {
 	}
 	// From here on no connection is taken up; this is the one to end.
 	sess := p.hsmsConnection.Session()
-	p.lifecycleMu.Unlock()
-
 	p.stopLinktestTimer()
 	p.stopT7Timer()
 	p.connected.Store(false)
+	p.lifecycleMu.Unlock()
 
 	if p.active {
 		if sess != nil && !sess.IsClosed() {
-- 
2.43.0


From cfd73f40d1ec993074417f78e92f813808ecf4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:27 +0000
Subject: [PATCH 20/45] fix: a connection taken up after a re-enabling counts
 for the later Enable

---
 hsms/protocol.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index fcd3473..533e484 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -100,6 +100,7 @@ type HsmsProtocol struct {
 
 	connectThreadRunning *atomic.Bool
 	enableCount          *atomic.Uint32
+	servedEnable         uint32 // enableCount when the last connection was taken up
 
 	handlerMu      sync.RWMutex
 	handlers       map[string]DataMessageHandler
@@ -346,6 +347,8 @@ func (p *HsmsProtocol) OnConnectionEstablished() {
 
 // Enable starts the connection manager.
 func (p *HsmsProtocol) Enable() {
+	p.lifecycleMu.Lock()
+	defer p.lifecycleMu.Unlock()
 	if p.enabled.CompareAndSwap(false, true) {
 		p.enableCount.Inc()
 		if p.connectThreadRunning.CompareAndSwap(false, true) {
@@ -481,6 +484,10 @@ func (p *HsmsProtocol) connectLoop() (generation uint32, gaveUp bool) {
 			}
 			// Connection successful, reset reconnect counter
 			p.reconnectAttempts = 0
+			if served := p.servedEnable; int32(served-generation) > 0 {
+				// the connection was already that of a later Enable
+				generation = served
+			}
 
 			if !p.enabled.Load() {
 				return generation, false
@@ -890,6 +897,7 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 	p.connDone = done
 	p.connDoneMu.Unlock()
 
+	p.servedEnable = p.enableCount.Load()
 	p.OnConnectionEstablished()
 	p.lifecycleMu.Unlock()
 
-- 
2.43.0


From 4d149920fa9c8e5f57b07eeeea257d82330fb992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 21/45] fix: alarm and clock replies use a valid message
 direction

ast.NewDataMessage panics on "E->H", so S2F18, S2F32, S5F4, S5F6 and S5F8 were
never sent: building them panicked in the receive loop.
---
 gem/alarm_handlers.go | 6 +++---
 gem/clock_handlers.go | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index bb5ade2..1a8a932 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -119,7 +119,7 @@ func (g *GemHandler) onS5F7(msg *ast.DataMessage) (*ast.DataMessage, error) {
 //   3 - At least one ALID cannot be enabled
 func (g *GemHandler) buildS5F4(ackc5 byte) *ast.DataMessage {
 	body := ast.NewBinaryNode(int(ackc5))
-	return ast.NewDataMessage("EnableAlarmAck", 5, 4, 0, "E->H", body)
+	return ast.NewDataMessage("EnableAlarmAck", 5, 4, 0, "H<-E", body)
 }
 
 // buildS5F6 creates S5F6 response with alarm list.
@@ -146,7 +146,7 @@ func (g *GemHandler) buildS5F6(alarms []AlarmInfo) *ast.DataMessage {
 	}
 
 	body := ast.NewListNode(items...)
-	return ast.NewDataMessage("AlarmListData", 5, 6, 0, "E->H", body)
+	return ast.NewDataMessage("AlarmListData", 5, 6, 0, "H<-E", body)
 }
 
 // buildS5F8 creates S5F8 response with enabled alarm list (same format as S5F6).
@@ -169,7 +169,7 @@ func (g *GemHandler) buildS5F8(alarms []AlarmInfo) *ast.DataMessage {
 	}
 
 	body := ast.NewListNode(items...)
-	return ast.NewDataMessage("EnabledAlarmListData", 5, 8, 0, "E->H", body)
+	return ast.NewDataMessage("EnabledAlarmListData", 5, 8, 0, "H<-E", body)
 }
 
 // Public APIs for alarm management (Equipment side)
diff --git a/gem/clock_handlers.go b/gem/clock_handlers.go
index cf81a7c..3761ad5 100644
--- a/gem/clock_handlers.go
+++ b/gem/clock_handlers.go
@@ -15,7 +15,7 @@ func (g *GemHandler) onS2F17(msg *ast.DataMessage) (*ast.DataMessage, error) {
 
 	// Build S2F18 response
 	body := ast.NewASCIINode(timeStr)
-	return ast.NewDataMessage("DateTimeData", 2, 18, 0, "E->H", body), nil
+	return ast.NewDataMessage("DateTimeData", 2, 18, 0, "H<-E", body), nil
 }
 
 // onS2F31 handles Date and Time Set Request (Equipment side).
@@ -54,7 +54,7 @@ func (g *GemHandler) onS2F31(msg *ast.DataMessage) (*ast.DataMessage, error) {
 // buildS2F32 creates S2F32 response with TIACK code.
 func (g *GemHandler) buildS2F32(tiack byte) *ast.DataMessage {
 	body := ast.NewBinaryNode(int(tiack))
-	return ast.NewDataMessage("DateTimeSetAck", 2, 32, 0, "E->H", body)
+	return ast.NewDataMessage("DateTimeSetAck", 2, 32, 0, "H<-E", body)
 }
 
 // Public APIs for clock management
-- 
2.43.0


From f1c0fd5a3a2a212735eee7bf8ff9e39aef8045dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 22/45] fix: an empty item in a list is sent as a zero-length
 item

An EmptyItemNode given to NewListNode was taken for an unnamed variable, so a
reply holding one could not be encoded and one holding two panicked.
---
 lib-secs2-hsms-go/pkg/ast/list.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/list.go b/lib-secs2-hsms-go/pkg/ast/list.go
index 0dd50ba..bbaea95 100644
--- a/lib-secs2-hsms-go/pkg/ast/list.go
+++ b/lib-secs2-hsms-go/pkg/ast/list.go
@@ -73,7 +73,10 @@ func NewListNode(values ...interface{}) ItemNode {
 	)
 
 	for i, value := range values {
-		if v, ok := value.(ItemNode); ok {
+		if _, ok := value.(emptyItemNode); ok {
+			// Only variables are held as empty item nodes; an empty item is a list of zero length
+			nodeValues = append(nodeValues, NewListNode())
+		} else if v, ok := value.(ItemNode); ok {
 			nodeValues = append(nodeValues, v)
 		} else if v, ok := value.(string); ok {
 			nodeValues = append(nodeValues, emptyNode)
-- 
2.43.0


From 38fa92c211503d1d310bb13a1a56131b4316ad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 23/45] fix: identifiers above 32 bits are encoded with eight
 bytes

Answering a request that names such an identifier, an unknown one included,
panicked in the receive loop.
---
 gem/id_utils.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gem/id_utils.go b/gem/id_utils.go
index 299d75b..2474fba 100644
--- a/gem/id_utils.go
+++ b/gem/id_utils.go
@@ -2,6 +2,7 @@ package gem
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
 )
@@ -57,7 +58,11 @@ func newIDInfo(value interface{}) (idInfo, error) {
 }
 
 func newIDInfoFromUint(value uint64) (idInfo, error) {
-	node := ast.NewUintNode(4, value)
+	byteSize := 4
+	if value > math.MaxUint32 {
+		byteSize = 8
+	}
+	node := ast.NewUintNode(byteSize, value)
 	return idInfo{raw: value, node: node, key: fmt.Sprintf("N:%d", value)}, nil
 }
 
-- 
2.43.0


From cfff33d37c60b18cabf93765093332ce484b2dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 24/45] fix: alarm IDs that need more bytes are encoded with
 more bytes

Raising or clearing an alarm whose ID is above 65535 panicked (a negative one as
well, also when listed).
---
 gem/alarm.go          | 16 +++++++++++++++-
 gem/alarm_client.go   |  2 +-
 gem/alarm_handlers.go |  4 ++--
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/gem/alarm.go b/gem/alarm.go
index 4f693fb..e5a53b5 100644
--- a/gem/alarm.go
+++ b/gem/alarm.go
@@ -2,6 +2,7 @@ package gem
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
@@ -125,7 +126,7 @@ func (g *GemHandler) buildS5F1(alarm Alarm, set bool) *ast.DataMessage {
 
 	body := ast.NewListNode(
 		ast.NewBinaryNode(alcd),
-		ast.NewUintNode(2, alarm.ID),
+		alarmIDNode(2, alarm.ID),
 		ast.NewASCIINode(alarm.Text),
 	)
 
@@ -137,6 +138,19 @@ func (g *GemHandler) buildS5F1(alarm Alarm, set bool) *ast.DataMessage {
 	return ast.NewDataMessage("AlarmReport", 5, 1, 0, direction, body)
 }
 
+// alarmIDNode encodes an alarm ID with the given number of bytes, or with more when it needs them.
+func alarmIDNode(byteSize int, id int) ast.ItemNode {
+	switch {
+	case id < 0:
+		return ast.NewIntNode(8, id)
+	case id > math.MaxUint32:
+		byteSize = 8
+	case id > math.MaxUint16 && byteSize < 4:
+		byteSize = 4
+	}
+	return ast.NewUintNode(byteSize, id)
+}
+
 func (g *GemHandler) buildS5F2(ack int) *ast.DataMessage {
 	body := ast.NewListNode(ast.NewBinaryNode(ack))
 	return ast.NewDataMessage("AlarmAck", 5, 2, 0, "H->E", body)
diff --git a/gem/alarm_client.go b/gem/alarm_client.go
index 371c936..0e24c13 100644
--- a/gem/alarm_client.go
+++ b/gem/alarm_client.go
@@ -21,7 +21,7 @@ func (h *GemHandler) SendEnableAlarm(alarmIDs []int, enable bool) (byte, error)
 	// Build ALID list
 	alidItems := make([]interface{}, len(alarmIDs))
 	for i, id := range alarmIDs {
-		alidItems[i] = ast.NewUintNode(4, id)
+		alidItems[i] = alarmIDNode(4, id)
 	}
 
 	// ALED: 128=Enable, 0=Disable
diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index 1a8a932..a4e3cd7 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -140,7 +140,7 @@ func (g *GemHandler) buildS5F6(alarms []AlarmInfo) *ast.DataMessage {
 
 		items[i] = ast.NewListNode(
 			ast.NewBinaryNode(alcd),
-			ast.NewUintNode(4, a.ID),
+			alarmIDNode(4, a.ID),
 			ast.NewASCIINode(a.Text),
 		)
 	}
@@ -163,7 +163,7 @@ func (g *GemHandler) buildS5F8(alarms []AlarmInfo) *ast.DataMessage {
 
 		items[i] = ast.NewListNode(
 			ast.NewBinaryNode(alcd),
-			ast.NewUintNode(4, a.ID),
+			alarmIDNode(4, a.ID),
 			ast.NewASCIINode(a.Text),
 		)
 	}
-- 
2.43.0


From ac1cbc106e24c36225bed23c085fe181fc743efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 25/45] fix: a rejected S2F15 changes no equipment constant

The constants before the one whose value was refused had already been changed.
---
 gem/equipment_constants.go       | 23 ++++++++++++++++++-----
 gem/status_equipment_handlers.go | 24 +++++++++++++++++++++++-
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/gem/equipment_constants.go b/gem/equipment_constants.go
index 7c6a75d..01ed3ae 100644
--- a/gem/equipment_constants.go
+++ b/gem/equipment_constants.go
@@ -137,21 +137,34 @@ func (ec *EquipmentConstant) Value() (ast.ItemNode, error) {
 
 // ApplyValue stores or forwards a new value.
 func (ec *EquipmentConstant) ApplyValue(node ast.ItemNode) error {
+	if err := ec.validate(node); err != nil {
+		return err
+	}
+	return ec.apply(node)
+}
+
+// validate tells whether a new value is acceptable, without applying it.
+func (ec *EquipmentConstant) validate(node ast.ItemNode) error {
 	if node == nil {
 		return fmt.Errorf("nil value provided for equipment constant %v", ec.ID())
 	}
 
 	ec.mu.RLock()
 	validator := ec.validator
-	updater := ec.updater
-	provider := ec.provider
 	ec.mu.RUnlock()
 
 	if validator != nil {
-		if err := validator(node); err != nil {
-			return err
-		}
+		return validator(node)
 	}
+	return nil
+}
+
+// apply forwards and stores a validated value.
+func (ec *EquipmentConstant) apply(node ast.ItemNode) error {
+	ec.mu.RLock()
+	updater := ec.updater
+	provider := ec.provider
+	ec.mu.RUnlock()
 
 	if updater != nil {
 		if err := updater(node); err != nil {
diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index a31a1bb..b34a007 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -393,13 +393,35 @@ func (g *GemHandler) applyEquipmentConstantUpdates(updates []equipmentConstantUp
 		}
 	}
 
+	// All or nothing: check every value first, and undo what was applied if a later one fails.
 	for _, upd := range updates {
 		constant := g.equipmentConstants[upd.id.key]
-		if err := constant.ApplyValue(upd.value); err != nil {
+		if err := constant.validate(upd.value); err != nil {
 			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
 			return ECACKValidationError
 		}
 	}
 
+	previous := make([]ast.ItemNode, len(updates))
+	for i, upd := range updates {
+		constant := g.equipmentConstants[upd.id.key]
+		if value, err := constant.Value(); err == nil {
+			previous[i] = value
+		}
+		if err := constant.apply(upd.value); err != nil {
+			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
+			for j := i - 1; j >= 0; j-- {
+				applied := g.equipmentConstants[updates[j].id.key]
+				if previous[j] == nil {
+					continue
+				}
+				if err := applied.apply(previous[j]); err != nil {
+					g.logger.Error("equipment constant could not be restored", "ecid", applied.ID(), "error", err)
+				}
+			}
+			return ECACKValidationError
+		}
+	}
+
 	return ECACKAccepted
 }
-- 
2.43.0


From 42276ec19cd27ec1de5956068df045c2b80c9439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 26/45] fix: a rejected S2F37 enables or disables no event

The events named before the unknown one had already been switched.
---
 gem/collection_event_handlers.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 6743e92..7f2d929 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -329,12 +329,13 @@ func (g *GemHandler) setCollectionEventState(enable bool, ceids []idInfo) ERACKC
 	}
 
 	for _, ce := range ceids {
-		if link, ok := g.eventLinks[ce.key]; ok {
-			link.enabled = enable
-		} else {
+		if _, ok := g.eventLinks[ce.key]; !ok {
 			return ERACKCEIDUnknown
 		}
 	}
+	for _, ce := range ceids {
+		g.eventLinks[ce.key].enabled = enable
+	}
 	return ERACKAccepted
 }
 
-- 
2.43.0


From 68b4195aa728224b6427d152bfee639b8978ac56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 27/45] fix: an event report is built from one state of the
 report configuration

The link, its enabled flag and every report were looked up under separate locks,
so a concurrent S2F33, S2F35 or S2F37 could yield a report mixing both states.
---
 gem/collection_event_handlers.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 7f2d929..213f143 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -104,26 +104,20 @@ func (g *GemHandler) buildCollectionEventPayload(key string) ([]ast.ItemNode, in
 		return nil, 0, nil, fmt.Errorf("unknown collection event %s", key)
 	}
 
+	// One consistent snapshot of the report configuration
 	g.reportMu.RLock()
-	link, linked := g.eventLinks[key]
-	g.reportMu.RUnlock()
-	if !linked || !link.enabled || len(link.reports) == 0 {
-		return nil, 0, nil, nil
+	var reports []*ReportDefinition
+	if link, linked := g.eventLinks[key]; linked && link.enabled {
+		for _, rptKey := range link.reports {
+			if report, exists := g.reports[rptKey]; exists {
+				reports = append(reports, report)
+			}
+		}
 	}
-
-	g.reportMu.RLock()
-	reportKeys := append([]string{}, link.reports...)
 	g.reportMu.RUnlock()
 
-	reportNodes := make([]ast.ItemNode, 0, len(reportKeys))
-	for _, rptKey := range reportKeys {
-		g.reportMu.RLock()
-		report, exists := g.reports[rptKey]
-		g.reportMu.RUnlock()
-		if !exists {
-			continue
-		}
-
+	reportNodes := make([]ast.ItemNode, 0, len(reports))
+	for _, report := range reports {
 		values := g.collectReportValues(report)
 		reportNodes = append(reportNodes, ast.NewListNode(report.idNode(), ast.NewListNode(values...)))
 	}
-- 
2.43.0


From f108cb37de087690f7c76d1effa11daf1ac85f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 28/45] fix: a process program is stored and returned as it was
 uploaded

A binary or formatted S7F3 body was acknowledged but stored as an empty program,
and a body that is not plain ASCII panicked when sent.
---
 gem/process_program_handlers.go  | 24 +++++++++----------
 gem/process_programs.go          | 40 ++++++++++++++++++++++++++++++--
 gem/status_equipment_messages.go | 10 ++++----
 3 files changed, 55 insertions(+), 19 deletions(-)

diff --git a/gem/process_program_handlers.go b/gem/process_program_handlers.go
index 4cbf641..d90d7b5 100644
--- a/gem/process_program_handlers.go
+++ b/gem/process_program_handlers.go
@@ -55,11 +55,9 @@ func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	if err != nil {
 		return g.buildS7F4(1), nil
 	}
-	body := ""
-	if ascii, ok := bodyNode.(*ast.ASCIINode); ok {
-		if val, ok := ascii.Values().(string); ok {
-			body = val
-		}
+	body, binary, err := readProcessProgramBody(bodyNode)
+	if err != nil {
+		return g.buildS7F4(1), nil
 	}
 
 	ack := 0
@@ -71,6 +69,7 @@ func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 		if err != nil {
 			ack = 1
 		} else {
+			program.binary = binary
 			g.processStore.put(program)
 		}
 	}
@@ -80,20 +79,20 @@ func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 
 func (g *GemHandler) onS7F5(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	if msg == nil {
-		return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+		return g.buildS7F6(ast.NewEmptyItemNode(), "", false, 1), nil
 	}
 	root, err := msg.Get()
 	if err != nil {
-		return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+		return g.buildS7F6(ast.NewEmptyItemNode(), "", false, 1), nil
 	}
 	var ppidNode ast.ItemNode
 	if list, ok := root.(*ast.ListNode); ok {
 		if list.Size() == 0 {
-			return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+			return g.buildS7F6(ast.NewEmptyItemNode(), "", false, 1), nil
 		}
 		first, err := list.Get(0)
 		if err != nil {
-			return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+			return g.buildS7F6(ast.NewEmptyItemNode(), "", false, 1), nil
 		}
 		ppidNode = first
 	} else {
@@ -101,22 +100,23 @@ func (g *GemHandler) onS7F5(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	}
 	ppidInfo, err := newIDInfoFromNode(ppidNode)
 	if err != nil {
-		return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+		return g.buildS7F6(ast.NewEmptyItemNode(), "", false, 1), nil
 	}
 
 	body := ""
+	binary := false
 	ack := 0
 	if g.processRequestHandler != nil {
 		body, ack = g.processRequestHandler(ppidInfo.raw)
 	} else {
 		if program, ok := g.processStore.get(ppidInfo.key); ok {
-			body = program.Body
+			body, binary = program.Body, program.binary
 		} else {
 			ack = 1
 		}
 	}
 
-	return g.buildS7F6(ppidInfo.node, body, ack), nil
+	return g.buildS7F6(ppidInfo.node, body, binary, ack), nil
 }
 
 func (g *GemHandler) processProgram(ppid interface{}) (*ProcessProgram, error) {
diff --git a/gem/process_programs.go b/gem/process_programs.go
index 36ee120..aacc30f 100644
--- a/gem/process_programs.go
+++ b/gem/process_programs.go
@@ -3,14 +3,16 @@ package gem
 import (
 	"fmt"
 	"sync"
+	"unicode"
 
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
 )
 
 // ProcessProgram encapsulates a SEMI E30 process program (recipe) identified by PPID.
 type ProcessProgram struct {
-	info idInfo
-	Body string
+	info   idInfo
+	Body   string
+	binary bool // uploaded as a binary item
 }
 
 // ProcessProgramUploadHandler allows applications to validate or persist uploaded process programs.
@@ -79,6 +81,40 @@ func (s *processProgramStore) delete(key string) {
 	s.mu.Unlock()
 }
 
+// readProcessProgramBody reads a PPBODY, which is an ASCII or a binary item.
+func readProcessProgramBody(node ast.ItemNode) (body string, binary bool, err error) {
+	switch typed := node.(type) {
+	case *ast.ASCIINode:
+		if val, ok := typed.Values().(string); ok {
+			return val, false, nil
+		}
+	case *ast.BinaryNode:
+		if vals, ok := typed.Values().([]int); ok {
+			raw := make([]byte, len(vals))
+			for i, v := range vals {
+				raw[i] = byte(v)
+			}
+			return string(raw), true, nil
+		}
+	}
+	return "", false, fmt.Errorf("unsupported PPBODY node type %T", node)
+}
+
+// buildProcessProgramBody encodes a PPBODY, as a binary item if it is not plain ASCII.
+func buildProcessProgramBody(body string, binary bool) ast.ItemNode {
+	for i := 0; i < len(body) && !binary; i++ {
+		binary = body[i] > unicode.MaxASCII
+	}
+	if !binary {
+		return ast.NewASCIINode(body)
+	}
+	values := make([]interface{}, len(body))
+	for i := range values {
+		values[i] = body[i]
+	}
+	return ast.NewBinaryNode(values...)
+}
+
 func ensureProcessProgramKey(id interface{}) (string, error) {
 	info, err := newIDInfo(id)
 	if err != nil {
diff --git a/gem/status_equipment_messages.go b/gem/status_equipment_messages.go
index 55e4683..eacd4ae 100644
--- a/gem/status_equipment_messages.go
+++ b/gem/status_equipment_messages.go
@@ -209,7 +209,7 @@ func (g *GemHandler) buildS6F16(dataID int, ceNode ast.ItemNode, reports []ast.I
 }
 
 func (g *GemHandler) buildS7F3(ppid idInfo, programBody string) *ast.DataMessage {
-	payload := ast.NewListNode(ppid.node, ast.NewASCIINode(programBody))
+	payload := ast.NewListNode(ppid.node, buildProcessProgramBody(programBody, false))
 	return ast.NewDataMessage("ProcessProgramSend", 7, 3, 1, "H->E", payload)
 }
 
@@ -225,14 +225,14 @@ func (g *GemHandler) buildS7F5(ppid idInfo) *ast.DataMessage {
 
 // --- S7F6: ProcessProgramData ---
 // 按标准: <PPID><PPBODY><ACKC7>
-func (g *GemHandler) buildS7F6(ppid ast.ItemNode, programBody string, ack int) *ast.DataMessage {
+func (g *GemHandler) buildS7F6(ppid ast.ItemNode, programBody string, binary bool, ack int) *ast.DataMessage {
 	ppidNode := ppid
 	if ppidNode == nil {
 		ppidNode = ast.NewEmptyItemNode()
 	}
-	bodyNode := ast.NewASCIINode(programBody)
-	if ack != 0 {
-		bodyNode = ast.NewASCIINode("")
+	bodyNode := ast.NewASCIINode("")
+	if ack == 0 {
+		bodyNode = buildProcessProgramBody(programBody, binary)
 	}
 	if ack < 0 {
 		ack = 0
-- 
2.43.0


From c98203e0b2d38f2ce93602d52c662ed3f5f6e00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 29/45] fix: control state changes are made and reported one at
 a time

The state before and the state after a transition were read apart from the
transition itself, and events were fired by whichever goroutine got there
first, so that concurrent switches reported changes that never happened or in
the wrong order. The answer to an attempt to go online that had been overtaken
by a loss of communication decided a later attempt.
---
 gem/handler.go | 153 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 102 insertions(+), 51 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index 844c2e4..ab173ab 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -92,7 +92,15 @@ type GemHandler struct {
 
 	logger common.Logger
 
-	controlAttemptInProgress *atomic.Bool
+	// controlMu makes a control state transition and the queueing of its event one step.
+	controlMu      sync.Mutex
+	attempt        uint64 // counts the entries into ATTEMPT_ONLINE
+	attemptRunning bool
+
+	// notices are the event callbacks to be run, in the order of what they report.
+	noticeMu   sync.Mutex
+	notices    []func()
+	delivering bool
 }
 
 // NewGemHandler creates a GEM handler backed by the provided HSMS protocol.
@@ -125,17 +133,16 @@ func NewGemHandler(opts Options) (*GemHandler, error) {
 			ControlStateChanged:   &common.Event{},
 			S9ErrorReceived:       &common.Event{},
 		},
-		alarms:                   make(map[int]Alarm),
-		statusVars:               make(map[string]*StatusVariable),
-		equipmentConstants:       make(map[string]*EquipmentConstant),
-		dataVars:                 make(map[string]*DataVariable),
-		collectionEvents:         make(map[string]*CollectionEvent),
-		reports:                  make(map[string]*ReportDefinition),
-		eventLinks:               make(map[string]*collectionEventLink),
-		processStore:             newProcessProgramStore(),
-		clockManager:             NewClockManager(),
-		logger:                   resolveLogger(opts.Logger),
-		controlAttemptInProgress: atomic.NewBool(false),
+		alarms:             make(map[int]Alarm),
+		statusVars:         make(map[string]*StatusVariable),
+		equipmentConstants: make(map[string]*EquipmentConstant),
+		dataVars:           make(map[string]*DataVariable),
+		collectionEvents:   make(map[string]*CollectionEvent),
+		reports:            make(map[string]*ReportDefinition),
+		eventLinks:         make(map[string]*collectionEventLink),
+		processStore:       newProcessProgramStore(),
+		clockManager:       NewClockManager(),
+		logger:             resolveLogger(opts.Logger),
 	}
 
 	handler.setCommunicationState(CommunicationStateNotCommunicating)
@@ -183,7 +190,10 @@ func NewGemHandler(opts Options) (*GemHandler, error) {
 
 	//handler.protocol.RegisterHandler(5, 2, handler.onS5F2)
 
-	handler.onControlStateTransition(ControlStateInit, handler.control.State())
+	handler.controlMu.Lock()
+	handler.onControlStateTransitionLocked(ControlStateInit, handler.control.State())
+	handler.controlMu.Unlock()
+	handler.deliver()
 
 	return handler, nil
 }
@@ -275,7 +285,7 @@ func (g *GemHandler) SwitchControlOnline() error {
 			return sm.SwitchOnline()
 		}
 		if sm.State() == ControlStateAttemptOnline {
-			g.initiateAttemptOnline()
+			g.initiateAttemptOnlineLocked()
 		}
 		return nil
 	})
@@ -382,26 +392,53 @@ func (g *GemHandler) setCommunicationState(state CommunicationState) {
 	g.onCommunicationStateChanged(prev, state)
 }
 
+// notify queues an event callback; deliver runs it.
+func (g *GemHandler) notify(notice func()) {
+	g.noticeMu.Lock()
+	g.notices = append(g.notices, notice)
+	g.noticeMu.Unlock()
+}
+
+// deliver runs the queued event callbacks one after another. While one goroutine is at
+// it, the others leave it to that one.
+func (g *GemHandler) deliver() {
+	g.noticeMu.Lock()
+	if g.delivering {
+		g.noticeMu.Unlock()
+		return
+	}
+	g.delivering = true
+	for len(g.notices) > 0 {
+		notice := g.notices[0]
+		g.notices = g.notices[1:]
+		g.noticeMu.Unlock()
+		notice()
+		g.noticeMu.Lock()
+	}
+	g.delivering = false
+	g.noticeMu.Unlock()
+}
+
 func (g *GemHandler) transitionControl(transition func(sm *ControlStateMachine) error) error {
 	if g.control == nil {
 		return ErrOperationNotSupported
 	}
+	g.controlMu.Lock()
 	prev := g.control.State()
-	if err := transition(g.control); err != nil {
-		return err
+	err := transition(g.control)
+	if err == nil {
+		g.onControlStateTransitionLocked(prev, g.control.State())
 	}
-	next := g.control.State()
-	g.onControlStateTransition(prev, next)
-	return nil
+	g.controlMu.Unlock()
+	g.deliver()
+	return err
 }
 
-func (g *GemHandler) onControlStateTransition(prev, next ControlState) {
+func (g *GemHandler) onControlStateTransitionLocked(prev, next ControlState) {
 	if prev == next {
 		return
 	}
-	if prev == ControlStateAttemptOnline && next != ControlStateAttemptOnline {
-		g.controlAttemptInProgress.Store(false)
-	}
+	g.attemptRunning = false
 	if g.events.ControlStateChanged != nil {
 		payload := map[string]interface{}{
 			"handler":  g,
@@ -411,12 +448,12 @@ func (g *GemHandler) onControlStateTransition(prev, next ControlState) {
 		if g.control != nil {
 			payload["mode"] = g.control.OnlineMode()
 		}
-		g.events.ControlStateChanged.Fire(payload)
+		g.notify(func() { g.events.ControlStateChanged.Fire(payload) })
 	}
 
 	switch next {
 	case ControlStateAttemptOnline:
-		g.initiateAttemptOnline()
+		g.initiateAttemptOnlineLocked()
 	}
 }
 
@@ -432,13 +469,15 @@ func (g *GemHandler) onCommunicationStateChanged(prev, next CommunicationState)
 	case CommunicationStateCommunicating:
 		g.handshakeInProgress.Store(false)
 		if g.deviceType == DeviceEquipment {
-			state := g.control.State()
-			switch state {
-			case ControlStateEquipmentOffline, ControlStateHostOffline:
-				_ = g.transitionControl(func(sm *ControlStateMachine) error { return sm.SwitchOnline() })
-			case ControlStateAttemptOnline:
-				g.initiateAttemptOnline()
-			}
+			_ = g.transitionControl(func(sm *ControlStateMachine) error {
+				switch sm.State() {
+				case ControlStateEquipmentOffline, ControlStateHostOffline:
+					return sm.SwitchOnline()
+				case ControlStateAttemptOnline:
+					g.initiateAttemptOnlineLocked()
+				}
+				return nil
+			})
 		}
 	case CommunicationStateNotCommunicating:
 		g.handshakeInProgress.Store(false)
@@ -456,35 +495,48 @@ func (g *GemHandler) onCommunicationStateChanged(prev, next CommunicationState)
 	}
 }
 
-func (g *GemHandler) initiateAttemptOnline() {
-	if g.control == nil {
+// initiateAttemptOnlineLocked asks the peer whether it is there, unless that is already
+// being done. The answer counts only for the stay in ATTEMPT_ONLINE it was asked for.
+func (g *GemHandler) initiateAttemptOnlineLocked() {
+	if g.control == nil || g.attemptRunning {
 		return
 	}
-	if !g.controlAttemptInProgress.CompareAndSwap(false, true) {
-		return
+	g.attempt++
+	g.attemptRunning = true
+	attempt := g.attempt
+
+	finish := func(transition func(sm *ControlStateMachine) error) {
+		_ = g.transitionControl(func(sm *ControlStateMachine) error {
+			if attempt != g.attempt {
+				return nil
+			}
+			g.attemptRunning = false
+			if sm.State() != ControlStateAttemptOnline {
+				return nil
+			}
+			return transition(sm)
+		})
+	}
+	fail := func() {
+		finish(func(sm *ControlStateMachine) error { return sm.AttemptOnlineFailHostOffline() })
 	}
 
 	go func() {
-		defer g.controlAttemptInProgress.Store(false)
-
 		if g.ControlState() != ControlStateAttemptOnline {
+			fail()
 			return
 		}
 
 		if g.State() != CommunicationStateCommunicating {
 			g.logger.Warn("attempt online while not communicating")
-			_ = g.transitionControl(func(sm *ControlStateMachine) error {
-				return sm.AttemptOnlineFailHostOffline()
-			})
+			fail()
 			return
 		}
 
 		resp, err := g.protocol.SendAndWait(g.buildS1F1())
 		if err != nil {
 			g.logger.Error("S1F1 request failed", "error", err)
-			_ = g.transitionControl(func(sm *ControlStateMachine) error {
-				return sm.AttemptOnlineFailHostOffline()
-			})
+			fail()
 			return
 		}
 		if resp == nil || resp.StreamCode() != 1 || resp.FunctionCode() != 2 {
@@ -493,15 +545,11 @@ func (g *GemHandler) initiateAttemptOnline() {
 			} else {
 				g.logger.Warn("unexpected nil response to S1F1")
 			}
-			_ = g.transitionControl(func(sm *ControlStateMachine) error {
-				return sm.AttemptOnlineFailHostOffline()
-			})
+			fail()
 			return
 		}
 
-		_ = g.transitionControl(func(sm *ControlStateMachine) error {
-			return sm.AttemptOnlineSuccess()
-		})
+		finish(func(sm *ControlStateMachine) error { return sm.AttemptOnlineSuccess() })
 	}()
 }
 
@@ -707,8 +755,11 @@ func (g *GemHandler) onS1F15(_ *ast.DataMessage) (*ast.DataMessage, error) {
 	}
 
 	oflack := 0
-	if g.control != nil && g.control.IsOnlineState() {
+	if g.control != nil {
 		if err := g.transitionControl(func(sm *ControlStateMachine) error {
+			if !sm.IsOnlineState() {
+				return nil
+			}
 			return sm.RemoteOffline()
 		}); err != nil {
 			oflack = 1
-- 
2.43.0


From f3170978716d02bbf30986ec026aa7a3ec59491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 30/45] fix: communication belongs to the connection it was
 agreed on

Establishing communication raced with everything that ends it: an answer that
came after Disable or after the connection was lost still entered
COMMUNICATING, a connection replaced between two looks of the monitor stayed
COMMUNICATING without a handshake, and a timeout or a late denial of an attempt
given up left COMMUNICATING although it had been established in another way.
The monitor also began the next attempt at once instead of after
EstablishCommunicationWait. The state now carries the number of the connection
it belongs to, WAIT DELAY is waited for by both kinds of device, and Enable and
Disable exclude each other.
---
 gem/communication_state.go |  77 +++------
 gem/handler.go             | 318 +++++++++++++++----------------------
 hsms/protocol.go           |  17 +-
 3 files changed, 167 insertions(+), 245 deletions(-)

diff --git a/gem/communication_state.go b/gem/communication_state.go
index a4e8b37..eb763ab 100644
--- a/gem/communication_state.go
+++ b/gem/communication_state.go
@@ -16,10 +16,12 @@ const (
 	CommunicationStateCommunicating
 )
 
+// stateMachine is the communication state of a handler. It belongs to one connection of
+// the protocol: the one communication is being or has been established on.
 type stateMachine struct {
 	mu             sync.Mutex
 	state          CommunicationState
-	waitCRATimer   *time.Timer
+	connection     uint64 // 0 while disabled or not communicating
 	waitDelayTimer *time.Timer
 }
 
@@ -33,64 +35,29 @@ func (sm *stateMachine) State() CommunicationState {
 	return sm.state
 }
 
-func (sm *stateMachine) setState(state CommunicationState) (prev CommunicationState) {
-	sm.mu.Lock()
-	defer sm.mu.Unlock()
-
+// setLocked enters a state for a connection and returns the state before.
+func (sm *stateMachine) setLocked(state CommunicationState, connection uint64) (prev CommunicationState) {
 	prev = sm.state
-	if prev == state {
-		return prev
-	}
 	sm.state = state
-	sm.stopTimersLocked()
-	return prev
-}
-
-func (sm *stateMachine) setStateWithWaitCRA(state CommunicationState, duration time.Duration, timeout func()) {
-	sm.mu.Lock()
-	defer sm.mu.Unlock()
-	if sm.state == state {
-		sm.stopWaitCRALocked()
-	} else {
-		sm.state = state
-		sm.stopTimersLocked()
-	}
-	sm.waitCRATimer = time.AfterFunc(duration, timeout)
-}
-
-func (sm *stateMachine) setStateWithWaitDelay(state CommunicationState, duration time.Duration, timeout func()) {
-	sm.mu.Lock()
-	defer sm.mu.Unlock()
-	if sm.state == state {
-		sm.stopWaitDelayLocked()
-	} else {
-		sm.state = state
-		sm.stopTimersLocked()
-	}
-	sm.waitDelayTimer = time.AfterFunc(duration, timeout)
-}
-
-func (sm *stateMachine) stopTimers() {
-	sm.mu.Lock()
-	defer sm.mu.Unlock()
-	sm.stopTimersLocked()
-}
-
-func (sm *stateMachine) stopTimersLocked() {
-	sm.stopWaitCRALocked()
-	sm.stopWaitDelayLocked()
-}
-
-func (sm *stateMachine) stopWaitCRALocked() {
-	if sm.waitCRATimer != nil {
-		sm.waitCRATimer.Stop()
-		sm.waitCRATimer = nil
-	}
-}
-
-func (sm *stateMachine) stopWaitDelayLocked() {
+	sm.connection = connection
 	if sm.waitDelayTimer != nil {
 		sm.waitDelayTimer.Stop()
 		sm.waitDelayTimer = nil
 	}
+	return prev
+}
+
+// waitDelayLocked enters WAIT DELAY, which ends after duration unless it is left or
+// entered anew before.
+func (sm *stateMachine) waitDelayLocked(duration time.Duration, expiredLocked func()) {
+	sm.setLocked(CommunicationStateWaitDelay, sm.connection)
+	var timer *time.Timer
+	timer = time.AfterFunc(duration, func() {
+		sm.mu.Lock()
+		defer sm.mu.Unlock()
+		if sm.waitDelayTimer == timer {
+			expiredLocked()
+		}
+	})
+	sm.waitDelayTimer = timer
 }
diff --git a/gem/handler.go b/gem/handler.go
index ab173ab..803bc26 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -48,16 +48,16 @@ type GemHandler struct {
 	state   *stateMachine
 	control *ControlStateMachine
 
-	enabled             *atomic.Bool
-	handshakeInProgress *atomic.Bool
+	enabled *atomic.Bool
 
 	events Events
 
 	waitersMu sync.Mutex
 	waiters   []chan struct{}
 
-	stopMu sync.Mutex
-	stopCh chan struct{}
+	// lifecycleMu makes Enable and Disable exclude each other.
+	lifecycleMu sync.Mutex
+	stopCh      chan struct{}
 
 	alarmMu sync.RWMutex
 	alarms  map[int]Alarm
@@ -122,8 +122,7 @@ func NewGemHandler(opts Options) (*GemHandler, error) {
 			InitialState:      opts.InitialControlState,
 			InitialOnlineMode: opts.InitialOnlineMode,
 		}),
-		enabled:             atomic.NewBool(false),
-		handshakeInProgress: atomic.NewBool(false),
+		enabled: atomic.NewBool(false),
 		events: Events{
 			HandlerCommunicating:  &common.Event{},
 			AlarmReceived:         &common.Event{},
@@ -145,7 +144,7 @@ func NewGemHandler(opts Options) (*GemHandler, error) {
 		logger:             resolveLogger(opts.Logger),
 	}
 
-	handler.setCommunicationState(CommunicationStateNotCommunicating)
+	handler.leaveCommunication()
 
 	handler.protocol.OnS9Error = func(errorInfo *hsms.S9ErrorInfo) {
 		handler.events.S9ErrorReceived.Fire(map[string]interface{}{
@@ -223,37 +222,33 @@ func (g *GemHandler) RegisterDefaultStreamHandler(handler StreamFunctionHandler)
 
 // Enable activates the underlying HSMS protocol and starts communication monitoring.
 func (g *GemHandler) Enable() {
+	g.lifecycleMu.Lock()
+	defer g.lifecycleMu.Unlock()
 	if !g.enabled.CompareAndSwap(false, true) {
 		return
 	}
 
-	g.state.setState(CommunicationStateNotCommunicating)
 	g.protocol.Enable()
 
-	g.stopMu.Lock()
-	stopCh := make(chan struct{})
-	g.stopCh = stopCh
-	g.stopMu.Unlock()
-
-	go g.monitorLoop(stopCh)
+	g.stopCh = make(chan struct{})
+	go g.monitorLoop(g.stopCh)
 }
 
 // Disable stops monitoring and disables the HSMS protocol.
 func (g *GemHandler) Disable() {
+	g.lifecycleMu.Lock()
+	defer g.lifecycleMu.Unlock()
 	if !g.enabled.CompareAndSwap(true, false) {
 		return
 	}
 
-	g.setCommunicationState(CommunicationStateNotCommunicating)
-
-	g.stopMu.Lock()
-	if g.stopCh != nil {
-		close(g.stopCh)
-		g.stopCh = nil
-	}
-	g.stopMu.Unlock()
+	g.state.mu.Lock()
+	g.leaveCommunicationLocked()
+	g.state.mu.Unlock()
+	// not here: a callback may want to enable or disable the handler
+	go g.deliver()
 
-	g.state.stopTimers()
+	close(g.stopCh)
 	g.protocol.Disable()
 }
 
@@ -369,7 +364,7 @@ func (g *GemHandler) removeWaiter(target chan struct{}) {
 	}
 }
 
-func (g *GemHandler) notifyCommunicating() {
+func (g *GemHandler) releaseWaiters() {
 	g.waitersMu.Lock()
 	waiters := g.waiters
 	g.waiters = nil
@@ -381,15 +376,6 @@ func (g *GemHandler) notifyCommunicating() {
 		default:
 		}
 	}
-
-	if g.events.HandlerCommunicating != nil {
-		g.events.HandlerCommunicating.Fire(map[string]interface{}{"handler": g})
-	}
-}
-
-func (g *GemHandler) setCommunicationState(state CommunicationState) {
-	prev := g.state.setState(state)
-	g.onCommunicationStateChanged(prev, state)
 }
 
 // notify queues an event callback; deliver runs it.
@@ -423,15 +409,21 @@ func (g *GemHandler) transitionControl(transition func(sm *ControlStateMachine)
 	if g.control == nil {
 		return ErrOperationNotSupported
 	}
+	err := g.changeControl(transition)
+	g.deliver()
+	return err
+}
+
+// changeControl makes a control state transition and leaves its event to deliver.
+func (g *GemHandler) changeControl(transition func(sm *ControlStateMachine) error) error {
 	g.controlMu.Lock()
+	defer g.controlMu.Unlock()
 	prev := g.control.State()
-	err := transition(g.control)
-	if err == nil {
-		g.onControlStateTransitionLocked(prev, g.control.State())
+	if err := transition(g.control); err != nil {
+		return err
 	}
-	g.controlMu.Unlock()
-	g.deliver()
-	return err
+	g.onControlStateTransitionLocked(prev, g.control.State())
+	return nil
 }
 
 func (g *GemHandler) onControlStateTransitionLocked(prev, next ControlState) {
@@ -457,42 +449,65 @@ func (g *GemHandler) onControlStateTransitionLocked(prev, next ControlState) {
 	}
 }
 
-func (g *GemHandler) onCommunicationStateChanged(prev, next CommunicationState) {
-	if prev == next {
-		return
+// establishCommunication enters COMMUNICATING, provided the connection on which the peer
+// agreed to it is still the selected one.
+func (g *GemHandler) establishCommunication(connection uint64) {
+	established := false
+	g.state.mu.Lock()
+	if connection != 0 && g.enabled.Load() && g.protocol.SelectedConnection() == connection {
+		if g.state.connection != connection {
+			g.leaveCommunicationLocked()
+		}
+		if g.state.setLocked(CommunicationStateCommunicating, connection) != CommunicationStateCommunicating {
+			established = true
+			g.notify(func() { g.events.HandlerCommunicating.Fire(map[string]interface{}{"handler": g}) })
+			g.onCommunicatingLocked()
+		}
 	}
-	if g.control == nil {
-		return
+	g.state.mu.Unlock()
+	if established {
+		g.releaseWaiters()
 	}
+	g.deliver()
+}
 
-	switch next {
-	case CommunicationStateCommunicating:
-		g.handshakeInProgress.Store(false)
-		if g.deviceType == DeviceEquipment {
-			_ = g.transitionControl(func(sm *ControlStateMachine) error {
-				switch sm.State() {
-				case ControlStateEquipmentOffline, ControlStateHostOffline:
-					return sm.SwitchOnline()
-				case ControlStateAttemptOnline:
-					g.initiateAttemptOnlineLocked()
-				}
-				return nil
-			})
+func (g *GemHandler) onCommunicatingLocked() {
+	if g.control == nil || g.deviceType != DeviceEquipment {
+		return
+	}
+	_ = g.changeControl(func(sm *ControlStateMachine) error {
+		switch sm.State() {
+		case ControlStateEquipmentOffline, ControlStateHostOffline:
+			return sm.SwitchOnline()
+		case ControlStateAttemptOnline:
+			g.initiateAttemptOnlineLocked()
 		}
-	case CommunicationStateNotCommunicating:
-		g.handshakeInProgress.Store(false)
-		_ = g.transitionControl(func(sm *ControlStateMachine) error {
-			state := sm.State()
-			switch state {
-			case ControlStateOnline, ControlStateOnlineLocal, ControlStateOnlineRemote:
-				return sm.SwitchOffline()
-			case ControlStateAttemptOnline, ControlStateHostOffline:
-				return sm.AttemptOnlineFailEquipmentOffline()
-			default:
-				return nil
-			}
-		})
+		return nil
+	})
+}
+
+// leaveCommunication enters NOT COMMUNICATING.
+func (g *GemHandler) leaveCommunication() {
+	g.state.mu.Lock()
+	g.leaveCommunicationLocked()
+	g.state.mu.Unlock()
+	g.deliver()
+}
+
+func (g *GemHandler) leaveCommunicationLocked() {
+	if g.state.setLocked(CommunicationStateNotCommunicating, 0) == CommunicationStateNotCommunicating || g.control == nil {
+		return
 	}
+	_ = g.changeControl(func(sm *ControlStateMachine) error {
+		switch sm.State() {
+		case ControlStateOnline, ControlStateOnlineLocal, ControlStateOnlineRemote:
+			return sm.SwitchOffline()
+		case ControlStateAttemptOnline, ControlStateHostOffline:
+			return sm.AttemptOnlineFailEquipmentOffline()
+		default:
+			return nil
+		}
+	})
 }
 
 // initiateAttemptOnlineLocked asks the peer whether it is there, unless that is already
@@ -553,41 +568,6 @@ func (g *GemHandler) initiateAttemptOnlineLocked() {
 	}()
 }
 
-func (g *GemHandler) initiateEstablishCommunication() {
-	if g.deviceType != DeviceEquipment {
-		return
-	}
-	if !g.handshakeInProgress.CompareAndSwap(false, true) {
-		return
-	}
-
-	go func() {
-		defer g.handshakeInProgress.Store(false)
-
-		if g.State() == CommunicationStateCommunicating {
-			return
-		}
-
-		resp, err := g.protocol.SendAndWait(g.buildS1F13Equipment())
-		if err != nil {
-			g.logger.Error("S1F13 request failed", "error", err)
-			return
-		}
-		if resp == nil {
-			g.logger.Warn("S1F13 returned nil response")
-			return
-		}
-
-		ack := readCommAck(resp)
-		if ack != 0 {
-			g.logger.Warn("S1F13 communication denied", "COMMACK", ack)
-			return
-		}
-
-		g.setCommunicating()
-	}()
-}
-
 func (g *GemHandler) monitorLoop(stop <-chan struct{}) {
 	ticker := time.NewTicker(500 * time.Millisecond)
 	defer ticker.Stop()
@@ -602,37 +582,21 @@ func (g *GemHandler) monitorLoop(stop <-chan struct{}) {
 	}
 }
 
+// observe notices the end of the connection communication belongs to and attempts to
+// establish communication on a new one.
 func (g *GemHandler) observe() {
-	if !g.enabled.Load() {
-		return
-	}
-
-	if !g.protocol.Connected() {
-		g.handshakeInProgress.Store(false)
-		g.setCommunicationState(CommunicationStateNotCommunicating)
-		return
-	}
-
-	if g.deviceType == DeviceHost && g.protocol.CurrentState() == hsms.StateConnectedSelected {
-		if g.State() == CommunicationStateCommunicating {
-			return
+	g.state.mu.Lock()
+	if g.enabled.Load() {
+		selected := g.protocol.SelectedConnection()
+		if g.state.connection != selected {
+			g.leaveCommunicationLocked()
 		}
-		if g.handshakeInProgress.Load() {
-			return
+		if selected != 0 && g.state.state == CommunicationStateNotCommunicating {
+			g.initiateHandshakeLocked(selected)
 		}
-		g.initiateHandshake()
-		return
-	}
-
-	if g.deviceType == DeviceEquipment && g.protocol.CurrentState() == hsms.StateConnectedSelected {
-		if g.State() == CommunicationStateCommunicating {
-			return
-		}
-		if g.handshakeInProgress.Load() {
-			return
-		}
-		g.initiateEstablishCommunication()
 	}
+	g.state.mu.Unlock()
+	g.deliver()
 }
 
 func (g *GemHandler) ensureCommunicating() error {
@@ -642,82 +606,53 @@ func (g *GemHandler) ensureCommunicating() error {
 	return nil
 }
 
-func (g *GemHandler) initiateHandshake() {
-	if !g.enabled.Load() {
-		return
-	}
-
-	if !g.handshakeInProgress.CompareAndSwap(false, true) {
-		return
-	}
+// initiateHandshakeLocked asks the peer to establish communication on the connection and
+// waits for its answer.
+func (g *GemHandler) initiateHandshakeLocked(connection uint64) {
+	g.state.setLocked(CommunicationStateWaitCRA, connection)
 
 	go func() {
-		defer g.handshakeInProgress.Store(false)
-
-		waitCRA := time.Duration(g.protocol.Timeouts().T3ReplyTimeout()) * time.Second
-		if waitCRA <= 0 {
-			waitCRA = 45 * time.Second
+		request := g.buildS1F13()
+		if g.deviceType == DeviceEquipment {
+			request = g.buildS1F13Equipment()
 		}
 
-		g.state.setStateWithWaitCRA(CommunicationStateWaitCRA, waitCRA, g.onWaitCRATimeout)
-
-		dataMsg, err := g.protocol.SendAndWait(g.buildS1F13())
+		response, err := g.protocol.SendAndWait(request)
 		if err != nil {
 			g.logger.Error("establish communication request failed", "error", err)
-			g.scheduleRetry()
+			g.handshakeFailed(connection)
 			return
 		}
 
-		if commack := readCommAck(dataMsg); commack != 0 {
+		if commack := readCommAck(response); commack != 0 {
 			g.logger.Warn("establishing communication denied", "COMMACK", commack)
-			g.scheduleRetry()
+			g.handshakeFailed(connection)
 			return
 		}
 
-		g.setCommunicating()
+		g.establishCommunication(connection)
 	}()
 }
 
-func (g *GemHandler) scheduleRetry() {
-	if !g.enabled.Load() {
-		return
-	}
-	g.state.setStateWithWaitDelay(CommunicationStateWaitDelay, g.establishWait, g.onWaitDelayTimeout)
-}
-
-func (g *GemHandler) setCommunicating() {
-	prev := g.state.setState(CommunicationStateCommunicating)
-	if prev != CommunicationStateCommunicating {
-		g.notifyCommunicating()
+// handshakeFailed has the handshake repeated after the delay, unless communication has
+// been established in another way or the connection is another one by now.
+func (g *GemHandler) handshakeFailed(connection uint64) {
+	g.state.mu.Lock()
+	defer g.state.mu.Unlock()
+	if g.state.state == CommunicationStateWaitCRA && g.state.connection == connection {
+		g.scheduleRetryLocked()
 	}
-	g.onCommunicationStateChanged(prev, CommunicationStateCommunicating)
 }
 
-func (g *GemHandler) onWaitCRATimeout() {
-	if !g.enabled.Load() {
-		return
-	}
-	if g.State() != CommunicationStateWaitCRA {
-		return
-	}
-	g.logger.Warn("wait CRA timed out")
-	g.scheduleRetry()
+func (g *GemHandler) scheduleRetryLocked() {
+	g.state.waitDelayLocked(g.establishWait, g.onWaitDelayTimeoutLocked)
 }
 
-func (g *GemHandler) onWaitDelayTimeout() {
-	if !g.enabled.Load() {
-		return
+func (g *GemHandler) onWaitDelayTimeoutLocked() {
+	// if the connection is lost, observe starts over
+	if g.enabled.Load() && g.protocol.SelectedConnection() == g.state.connection {
+		g.initiateHandshakeLocked(g.state.connection)
 	}
-	if g.State() != CommunicationStateWaitDelay {
-		return
-	}
-
-	if g.deviceType == DeviceHost && g.protocol.Connected() && g.protocol.CurrentState() == hsms.StateConnectedSelected {
-		g.initiateHandshake()
-		return
-	}
-
-	g.setCommunicationState(CommunicationStateNotCommunicating)
 }
 
 func (g *GemHandler) onS1F1(_ *ast.DataMessage) (*ast.DataMessage, error) {
@@ -728,7 +663,7 @@ func (g *GemHandler) onS1F1(_ *ast.DataMessage) (*ast.DataMessage, error) {
 }
 
 func (g *GemHandler) onS1F13(_ *ast.DataMessage) (*ast.DataMessage, error) {
-	g.setCommunicating()
+	g.establishCommunication(g.protocol.SelectedConnection())
 
 	if g.deviceType == DeviceHost {
 		return g.buildS1F14Host(0), nil
@@ -741,10 +676,15 @@ func (g *GemHandler) onS1F14(msg *ast.DataMessage) (*ast.DataMessage, error) {
 		return nil, nil
 	}
 	if commack := readCommAck(msg); commack == 0 {
-		g.setCommunicating()
+		g.establishCommunication(g.protocol.SelectedConnection())
 	} else {
 		g.logger.Warn("received S1F14 with non-zero COMMACK", "COMMACK", commack)
-		g.scheduleRetry()
+		// it denies an attempt that was given up
+		g.state.mu.Lock()
+		if g.state.state == CommunicationStateWaitDelay {
+			g.scheduleRetryLocked()
+		}
+		g.state.mu.Unlock()
 	}
 	return nil, nil
 }
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 533e484..68e796a 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -100,7 +100,8 @@ type HsmsProtocol struct {
 
 	connectThreadRunning *atomic.Bool
 	enableCount          *atomic.Uint32
-	servedEnable         uint32 // enableCount when the last connection was taken up
+	connectionCount      atomic.Uint64 // connections taken up so far
+	servedEnable         uint32        // enableCount when the last connection was taken up
 
 	handlerMu      sync.RWMutex
 	handlers       map[string]DataMessageHandler
@@ -339,6 +340,7 @@ func (p *HsmsProtocol) removeQueue(systemID uint32) {
 }
 
 func (p *HsmsProtocol) OnConnectionEstablished() {
+	p.connectionCount.Inc()
 	p.connected.Store(true)
 	if err := p.connectionState.Connect(); err != nil {
 		p.logger.Error("change state to CONNECTED failed", "error", err)
@@ -1184,6 +1186,19 @@ func (p *HsmsProtocol) Connected() bool {
 	return p.connected.Load()
 }
 
+// SelectedConnection tells the connections of this protocol apart: it returns the number
+// of the connection that is selected at present, or 0 if none is.
+func (p *HsmsProtocol) SelectedConnection() uint64 {
+	number := p.connectionCount.Load()
+	if !p.connected.Load() || p.connectionState.CurrentState() != StateConnectedSelected {
+		return 0
+	}
+	if p.connectionCount.Load() != number {
+		return 0
+	}
+	return number
+}
+
 // CurrentState returns the current connection state name.
 func (p *HsmsProtocol) CurrentState() string {
 	return p.connectionState.CurrentState()
-- 
2.43.0


From ea00b72a4d46126ccfb0a0b67442387d0aab3125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 31/45] fix: event callbacks can be removed, and can add or
 remove callbacks

RemoveCallback compared the addresses of two local variables and never found
anything; Fire held the mutex while it ran the callbacks, so that one that used
the event blocked for ever.
---
 common/events.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/common/events.go b/common/events.go
index fee60da..eaa6c57 100644
--- a/common/events.go
+++ b/common/events.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"sync"
+	"unsafe"
 )
 
 // Event represents a class to handle the callbacks for a single event.
@@ -18,26 +19,34 @@ func (e *Event) AddCallback(callback func(data map[string]interface{})) {
 	e.callbacks = append(e.callbacks, callback)
 }
 
-// RemoveCallback removes a callback from the event.
+// RemoveCallback removes a callback from the event. It has to be the very function value
+// that was added.
 func (e *Event) RemoveCallback(callback func(data map[string]interface{})) {
 	e.mutex.Lock()
 	defer e.mutex.Unlock()
 
 	for i, cb := range e.callbacks {
-		if &cb == &callback {
+		if closureOf(cb) == closureOf(callback) {
 			// Remove the callback by copying the slice without the element at index i.
-			e.callbacks = append(e.callbacks[:i], e.callbacks[i+1:]...)
+			callbacks := append([]func(data map[string]interface{}){}, e.callbacks[:i]...)
+			e.callbacks = append(callbacks, e.callbacks[i+1:]...)
 			return
 		}
 	}
 }
 
-// Fire raises the event and calls all callbacks.
+// closureOf identifies a function value, which cannot be compared.
+func closureOf(callback func(data map[string]interface{})) unsafe.Pointer {
+	return *(*unsafe.Pointer)(unsafe.Pointer(&callback))
+}
+
+// Fire raises the event and calls all callbacks. They may add and remove callbacks.
 func (e *Event) Fire(data map[string]interface{}) {
 	e.mutex.Lock()
-	defer e.mutex.Unlock()
+	callbacks := e.callbacks
+	e.mutex.Unlock()
 
-	for _, callback := range e.callbacks {
+	for _, callback := range callbacks {
 		callback(data)
 	}
 }
-- 
2.43.0


From f6137a0f0f5010682f03ab3fd7dbc49b56e5df7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 32/45] fix: a close callback runs once, also when it is added
 while the session closes

Callbacks added to a closed or closing session were lost, and running them
with the mutex held deadlocked with a channel that was adding or removing one.
---
 session.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/session.go b/session.go
index a010324..8903481 100644
--- a/session.go
+++ b/session.go
@@ -24,6 +24,7 @@ type Session struct {
 	closeMutex         sync.Mutex
 	firstCloseCallback *closeCallback
 	lastCloseCallback  *closeCallback
+	callbacksInvoked   bool
 
 	State interface{}
 }
@@ -168,14 +169,17 @@ type closeCallback struct {
 	Next    *closeCallback
 }
 
+// AddCloseCallback registers a callback that is invoked once, when the session is closed.
+// On a session that is already closed it is invoked right away, in its own goroutine.
 func (session *Session) AddCloseCallback(handler, key interface{}, callback func()) {
-	if session.IsClosed() {
-		return
-	}
-
 	session.closeMutex.Lock()
 	defer session.closeMutex.Unlock()
 
+	if session.callbacksInvoked {
+		go callback()
+		return
+	}
+
 	newItem := &closeCallback{handler, key, callback, nil}
 
 	if session.firstCloseCallback == nil {
@@ -187,10 +191,6 @@ func (session *Session) AddCloseCallback(handler, key interface{}, callback func
 }
 
 func (session *Session) RemoveCloseCallback(handler, key interface{}) {
-	if session.IsClosed() {
-		return
-	}
-
 	session.closeMutex.Lock()
 	defer session.closeMutex.Unlock()
 
@@ -210,11 +210,20 @@ func (session *Session) RemoveCloseCallback(handler, key interface{}) {
 	}
 }
 
+// invokeCloseCallbacks invokes the callbacks without holding the mutex, so that a
+// callback, or somebody it waits for, can add and remove callbacks.
 func (session *Session) invokeCloseCallbacks() {
-	session.closeMutex.Lock()
-	defer session.closeMutex.Unlock()
+	for {
+		session.closeMutex.Lock()
+		callback := session.firstCloseCallback
+		if callback == nil {
+			session.callbacksInvoked = true
+			session.closeMutex.Unlock()
+			return
+		}
+		session.firstCloseCallback = callback.Next
+		session.closeMutex.Unlock()
 
-	for callback := session.firstCloseCallback; callback != nil; callback = callback.Next {
 		callback.Func()
 	}
 }
-- 
2.43.0


From e8f41850c8c3d5c5c622ec0ecf7878bc20f01037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 33/45] fix: closing a session does not remove its successor
 from a channel

---
 channel.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/channel.go b/channel.go
index 225436c..1b81168 100644
--- a/channel.go
+++ b/channel.go
@@ -48,7 +48,7 @@ func (channel *Channel) Put(key KEY, session *Session) {
 		channel.remove(key, session)
 	}
 	session.AddCloseCallback(channel, key, func() {
-		channel.Remove(key)
+		channel.removeClosed(key, session)
 	})
 	channel.sessions[key] = session
 }
@@ -58,6 +58,16 @@ func (channel *Channel) remove(key KEY, session *Session) {
 	delete(channel.sessions, key)
 }
 
+// removeClosed removes a session that was closed, unless the key belongs to another
+// session by now.
+func (channel *Channel) removeClosed(key KEY, session *Session) {
+	channel.mutex.Lock()
+	defer channel.mutex.Unlock()
+	if channel.sessions[key] == session {
+		delete(channel.sessions, key)
+	}
+}
+
 func (channel *Channel) Remove(key KEY) bool {
 	channel.mutex.Lock()
 	defer channel.mutex.Unlock()
-- 
2.43.0


From c33347521d1ae6504dae6c87da83f63f94cc26a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 34/45] fix: a dialled connection is closed when its codec
 cannot be made

---
 api.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api.go b/api.go
index 76ca8ba..bec83c2 100644
--- a/api.go
+++ b/api.go
@@ -48,6 +48,7 @@ func Dial(network, address string, protocol Protocol, sendChanSize int) (*Sessio
 	}
 	codec, err := protocol.NewCodec(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	return NewSession(codec, sendChanSize), nil
@@ -60,6 +61,7 @@ func DialTimeout(network, address string, timeout time.Duration, protocol Protoc
 	}
 	codec, err := protocol.NewCodec(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	return NewSession(codec, sendChanSize), nil
-- 
2.43.0


From 30730c6cd29c4ef76c159439214f2996059d478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 35/45] fix: a JSON message without a body does not panic

---
 codec/json.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/json.go b/codec/json.go
index 0e24239..6c4ed13 100644
--- a/codec/json.go
+++ b/codec/json.go
@@ -50,7 +50,7 @@ func (j *JsonProtocol) NewCodec(rw io.ReadWriter) (link.Codec, error) {
 
 type jsonIn struct {
 	Head string
-	Body *json.RawMessage
+	Body json.RawMessage
 }
 
 type jsonOut struct {
@@ -77,7 +77,7 @@ func (c *jsonCodec) Receive() (interface{}, error) {
 			body = reflect.New(t).Interface()
 		}
 	}
-	err = json.Unmarshal(*in.Body, &body)
+	err = json.Unmarshal(in.Body, &body)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From f142f6e78613741c4e1dc2152923022024900a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 36/45] fix: a framed byte message is received whole

---
 codec/byte.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/codec/byte.go b/codec/byte.go
index 032279b..0f881a1 100644
--- a/codec/byte.go
+++ b/codec/byte.go
@@ -36,6 +36,13 @@ type byteCodec struct {
 
 func (c *byteCodec) Receive() (interface{}, error) {
 
+	// inside a framing protocol the message is all that is left of the frame
+	if frame, ok := c.r.(*fixlenReadWriter); ok {
+		recvData := make([]byte, frame.recvBuf.Len())
+		_, err := io.ReadFull(frame, recvData)
+		return recvData, err
+	}
+
 	recvData := make([]byte, 4092)
 
 	cnt, err := c.r.Read(recvData)
-- 
2.43.0


From de6c26accf82cdbeee20238633e038e5bbcd68b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 37/45] fix: an eight-byte length that does not fit an int is
 refused

---
 codec/fixlen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/fixlen.go b/codec/fixlen.go
index 3425c7e..f35525b 100644
--- a/codec/fixlen.go
+++ b/codec/fixlen.go
@@ -123,7 +123,7 @@ func (c *fixlenCodec) Receive() (interface{}, error) {
 		return nil, err
 	}
 	size := c.headDecoder(c.headBuf)
-	if size > c.maxRecv {
+	if size < 0 || size > c.maxRecv {
 		return nil, ErrTooLargePacket
 	}
 	if cap(c.bodyBuf) < size {
-- 
2.43.0


From 53fc0db3fd3bbe48fc39282dd45076d28afea650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 38/45] fix: a message larger than maxSend is refused instead
 of sent damaged

---
 codec/fixlen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codec/fixlen.go b/codec/fixlen.go
index f35525b..ddc0004 100644
--- a/codec/fixlen.go
+++ b/codec/fixlen.go
@@ -146,7 +146,11 @@ func (c *fixlenCodec) Send(msg interface{}) error {
 		return err
 	}
 	buff := c.sendBuf.Bytes()
-	c.headEncoder(buff, len(buff)-c.n)
+	size := len(buff) - c.n
+	if size > c.maxSend {
+		return ErrTooLargePacket
+	}
+	c.headEncoder(buff, size)
 	_, err = c.rw.Write(buff)
 	return err
 }
-- 
2.43.0


From 20c94864256e2d4c452cb03da854000bf528d322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 39/45] fix: two ends that only write to each other no longer
 wait for ever

Sending held the session without bound while the peer took no byte. When both
ends were sending, neither read any more, so the connection stayed dead and
SendAndWait never returned. Sending now gives the connection up once the peer
has taken nothing for the T8 timeout.
---
 hsms/codec.go    | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 hsms/protocol.go |  5 ++---
 2 files changed, 50 insertions(+), 3 deletions(-)
 create mode 100644 hsms/codec.go

diff --git a/hsms/codec.go b/hsms/codec.go
new file mode 100644
index 0000000..bd0d997
--- /dev/null
+++ b/hsms/codec.go
@@ -0,0 +1,48 @@
+package hsms
+
+import (
+	"io"
+	"net"
+	"time"
+
+	link "github.com/younglifestyle/secs4go"
+	"github.com/younglifestyle/secs4go/codec"
+)
+
+// codec returns the HSMS codec. It gives up sending to a peer that takes no byte
+// for the T8 timeout: two ends that only write to each other would wait forever.
+func (p *HsmsProtocol) codec() link.Protocol {
+	timeout := time.Duration(p.timeouts.T8NetworkIntercharTimeout()) * time.Second
+	return writeTimeoutProtocol{codec.Bufio(codec.SECSII(), 1024*5, 1024*5), timeout}
+}
+
+type writeTimeoutProtocol struct {
+	link.Protocol
+	timeout time.Duration
+}
+
+func (p writeTimeoutProtocol) NewCodec(rw io.ReadWriter) (link.Codec, error) {
+	if conn, ok := rw.(net.Conn); ok && p.timeout > 0 {
+		rw = &writeTimeoutConn{conn, p.timeout}
+	}
+	return p.Protocol.NewCodec(rw)
+}
+
+type writeTimeoutConn struct {
+	net.Conn
+	timeout time.Duration
+}
+
+func (c *writeTimeoutConn) Write(b []byte) (n int, err error) {
+	for {
+		if err := c.SetWriteDeadline(time.Now().Add(c.timeout)); err != nil {
+			return n, err
+		}
+		k, err := c.Conn.Write(b[n:])
+		n += k
+		if ne, ok := err.(net.Error); ok && ne.Timeout() && k > 0 {
+			continue
+		}
+		return n, err
+	}
+}
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 68e796a..3904fc2 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -15,7 +15,6 @@ import (
 
 	"github.com/looplab/fsm"
 	link "github.com/younglifestyle/secs4go"
-	"github.com/younglifestyle/secs4go/codec"
 	"github.com/younglifestyle/secs4go/common"
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"
@@ -517,7 +516,7 @@ func (p *HsmsProtocol) connectLoop() (generation uint32, gaveUp bool) {
 func (p *HsmsProtocol) passiveConnect() error {
 	server, err := link.Listen("tcp",
 		fmt.Sprintf("%s:%d", p.remoteAddress, p.remotePort),
-		codec.Bufio(codec.SECSII(), 1024*5, 1024*5),
+		p.codec(),
 		0, link.HandlerFunc(p.OnConnectionEstablishedAndStartReceiver))
 	if err != nil {
 		return err
@@ -551,7 +550,7 @@ func (p *HsmsProtocol) passiveConnect() error {
 
 func (p *HsmsProtocol) activeConnect() error {
 	session, err := link.Dial("tcp", fmt.Sprintf("%s:%d", p.remoteAddress, p.remotePort),
-		codec.Bufio(codec.SECSII(), 1024*5, 1024*5), 0)
+		p.codec(), 0)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 34491a9ce399ab0cbf7735cfe7675c2fe274abef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 40/45] fix: deleting a report unlinks it also where it is
 linked twice

A host may link the same report to an event twice in one S2F35. Deleting the
report took away only the first of the two links: the other one came back to
life when a report with that ID was defined again, and an event left with it
alone was still accepted by S2F37.
---
 gem/collection_events.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gem/collection_events.go b/gem/collection_events.go
index f7d0b26..a5e34ad 100644
--- a/gem/collection_events.go
+++ b/gem/collection_events.go
@@ -77,12 +77,13 @@ func newCollectionEventLink(reports []string) *collectionEventLink {
 }
 
 func (link *collectionEventLink) removeReport(key string) {
-	for idx, rpt := range link.reports {
-		if rpt == key {
-			link.reports = append(link.reports[:idx], link.reports[idx+1:]...)
-			return
+	remaining := make([]string, 0, len(link.reports))
+	for _, rpt := range link.reports {
+		if rpt != key {
+			remaining = append(remaining, rpt)
 		}
 	}
+	link.reports = remaining
 }
 
 func ensureIDInfoSlice(values []interface{}) ([]idInfo, error) {
-- 
2.43.0


From 786069db34cc6520ea89d7b7001a268776b5c694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:11 +0000
Subject: [PATCH 41/45] fix: log the separate.req sent by Disable

Every other control message sent is logged if IncludeControlMessages is set.
---
 hsms/protocol.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 3904fc2..2e0d467 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -385,6 +385,7 @@ func (p *HsmsProtocol) Disable() {
 				}
 				systemID := p.getNextSystemCounter()
 				sep := ast.NewHSMSMessageSeparateReq(uint16(p.sessionID), p.encodeSystemID(systemID))
+				p.logControlMessage("TX", sep)
 				if err := sendOn(sess, sep.ToBytes()); err != nil {
 					p.logger.Error("send separate.req failed", "error", err)
 				}
-- 
2.43.0


From d8ebcb4317b8224401e979a0184b85635a477646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 42/45] fix: a getter waits although the queue holds an item

One notification may stand for several items put in a row, so whoever takes an
item and leaves others has to pass it on. Found by L06: get(3s), get(3s), put,
put -- both getters about to wait -- gave one item and one timeout.
---
 utils/queue.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/utils/queue.go b/utils/queue.go
index 3403a7a..db95639 100644
--- a/utils/queue.go
+++ b/utils/queue.go
@@ -50,6 +50,14 @@ func (s *Deque) Get(timeout int) (interface{}, error) {
 	}
 	lastContainerItem = s.container.Back()
 	item = s.container.Remove(lastContainerItem)
+	more := s.container.Len() > 0
 	s.Unlock()
+	if more {
+		// one notification may stand for several items
+		select {
+		case s.notEmptyNotify <- struct{}{}:
+		default:
+		}
+	}
 	return item, nil
 }
-- 
2.43.0


From a017aab5ad81a86861315ac38a346b56f5fa7a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:51 +0000
Subject: [PATCH 43/45] fix: a caller that starts to wait after Disable is not
 released by the establishment before it

---
 gem/handler.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index 803bc26..5cc4765 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -327,13 +327,15 @@ func (g *GemHandler) WaitForCommunicating(timeout time.Duration) bool {
 
 	waiter := make(chan struct{}, 1)
 
-	g.waitersMu.Lock()
-	if g.State() == CommunicationStateCommunicating {
-		g.waitersMu.Unlock()
+	g.state.mu.Lock()
+	if g.state.state == CommunicationStateCommunicating {
+		g.state.mu.Unlock()
 		return true
 	}
+	g.waitersMu.Lock()
 	g.waiters = append(g.waiters, waiter)
 	g.waitersMu.Unlock()
+	g.state.mu.Unlock()
 
 	if timeout <= 0 {
 		<-waiter
@@ -452,22 +454,18 @@ func (g *GemHandler) onControlStateTransitionLocked(prev, next ControlState) {
 // establishCommunication enters COMMUNICATING, provided the connection on which the peer
 // agreed to it is still the selected one.
 func (g *GemHandler) establishCommunication(connection uint64) {
-	established := false
 	g.state.mu.Lock()
 	if connection != 0 && g.enabled.Load() && g.protocol.SelectedConnection() == connection {
 		if g.state.connection != connection {
 			g.leaveCommunicationLocked()
 		}
 		if g.state.setLocked(CommunicationStateCommunicating, connection) != CommunicationStateCommunicating {
-			established = true
+			g.releaseWaiters()
 			g.notify(func() { g.events.HandlerCommunicating.Fire(map[string]interface{}{"handler": g}) })
 			g.onCommunicatingLocked()
 		}
 	}
 	g.state.mu.Unlock()
-	if established {
-		g.releaseWaiters()
-	}
 	g.deliver()
 }
 
-- 
2.43.0


From e981b3e6ae331b9985185f7266f6553014ab6f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:05 +0000
Subject: [PATCH 44/45] fix: establishment is not retried when the delay ends
 while the connection is deselected

---
 gem/handler.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index 5cc4765..3a10224 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -647,9 +647,14 @@ func (g *GemHandler) scheduleRetryLocked() {
 }
 
 func (g *GemHandler) onWaitDelayTimeoutLocked() {
-	// if the connection is lost, observe starts over
-	if g.enabled.Load() && g.protocol.SelectedConnection() == g.state.connection {
+	if !g.enabled.Load() {
+		return
+	}
+	if g.protocol.SelectedConnection() == g.state.connection {
 		g.initiateHandshakeLocked(g.state.connection)
+	} else {
+		// the connection is lost or deselected, observe starts over
+		g.leaveCommunicationLocked()
 	}
 }
 
-- 
2.43.0


From 2108fe5eb63e02706eb649252650b587f264ade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:49 +0000
Subject: [PATCH 45/45] fix: value providers and constant callbacks run with
 the registry locked, so one that registers a variable blocks the handler

S1F3 and S2F13 called the providers, and S2F15 the validators, updaters and providers,
while holding statusMu or ecMu for reading. A callback that registers a status variable
or an equipment constant waits for the write lock, which is never given: the receive
loop hangs and no further message is answered.
---
 gem/status_equipment_handlers.go | 76 +++++++++++++++++---------------
 1 file changed, 41 insertions(+), 35 deletions(-)

diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index b34a007..a743e31 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -108,30 +108,32 @@ func (g *GemHandler) onS2F29(msg *ast.DataMessage) (*ast.DataMessage, error) {
 }
 
 func (g *GemHandler) resolveStatusValues(requests []idRequest) []ast.ItemNode {
+	var variables []*StatusVariable
 	g.statusMu.RLock()
-	defer g.statusMu.RUnlock()
-
 	if len(requests) == 0 {
-		values := make([]ast.ItemNode, 0, len(g.statusOrder))
 		for _, key := range g.statusOrder {
 			if variable, ok := g.statusVars[key]; ok {
-				values = append(values, safeStatusValue(variable, g.logger))
+				variables = append(variables, variable)
 			}
 		}
-		return values
 	}
-
-	values := make([]ast.ItemNode, 0, len(requests))
 	for _, req := range requests {
-		if !req.ok {
-			values = append(values, ast.NewEmptyItemNode())
-			continue
+		var variable *StatusVariable
+		if req.ok {
+			variable = g.statusVars[req.info.key]
 		}
-		if variable, ok := g.statusVars[req.info.key]; ok {
-			values = append(values, safeStatusValue(variable, g.logger))
-		} else {
+		variables = append(variables, variable)
+	}
+	g.statusMu.RUnlock()
+
+	// unlocked: a provider may register variables or constants
+	values := make([]ast.ItemNode, 0, len(variables))
+	for _, variable := range variables {
+		if variable == nil {
 			values = append(values, ast.NewEmptyItemNode())
+			continue
 		}
+		values = append(values, safeStatusValue(variable, g.logger))
 	}
 	return values
 }
@@ -186,30 +188,32 @@ func buildStatusInfoNode(variable *StatusVariable) ast.ItemNode {
 }
 
 func (g *GemHandler) resolveEquipmentConstantValues(requests []idRequest) []ast.ItemNode {
+	var constants []*EquipmentConstant
 	g.ecMu.RLock()
-	defer g.ecMu.RUnlock()
-
 	if len(requests) == 0 {
-		values := make([]ast.ItemNode, 0, len(g.ecOrder))
 		for _, key := range g.ecOrder {
 			if constant, ok := g.equipmentConstants[key]; ok {
-				values = append(values, safeEquipmentConstantValue(constant, g.logger))
+				constants = append(constants, constant)
 			}
 		}
-		return values
 	}
-
-	values := make([]ast.ItemNode, 0, len(requests))
 	for _, req := range requests {
-		if !req.ok {
-			values = append(values, ast.NewEmptyItemNode())
-			continue
+		var constant *EquipmentConstant
+		if req.ok {
+			constant = g.equipmentConstants[req.info.key]
 		}
-		if constant, ok := g.equipmentConstants[req.info.key]; ok {
-			values = append(values, safeEquipmentConstantValue(constant, g.logger))
-		} else {
+		constants = append(constants, constant)
+	}
+	g.ecMu.RUnlock()
+
+	// unlocked: a provider may register variables or constants
+	values := make([]ast.ItemNode, 0, len(constants))
+	for _, constant := range constants {
+		if constant == nil {
 			values = append(values, ast.NewEmptyItemNode())
+			continue
 		}
+		values = append(values, safeEquipmentConstantValue(constant, g.logger))
 	}
 	return values
 }
@@ -381,21 +385,23 @@ func (g *GemHandler) applyEquipmentConstantUpdates(updates []equipmentConstantUp
 		return ECACKAccepted
 	}
 
-	g.ecMu.RLock()
-	defer g.ecMu.RUnlock()
-
-	for _, upd := range updates {
+	constants := make([]*EquipmentConstant, len(updates))
+	for i, upd := range updates {
 		if !upd.ok {
 			return ECACKInvalidData
 		}
-		if _, ok := g.equipmentConstants[upd.id.key]; !ok {
+		g.ecMu.RLock()
+		constant, ok := g.equipmentConstants[upd.id.key]
+		g.ecMu.RUnlock()
+		if !ok {
 			return ECACKDoesNotExist
 		}
+		constants[i] = constant
 	}
 
 	// All or nothing: check every value first, and undo what was applied if a later one fails.
-	for _, upd := range updates {
-		constant := g.equipmentConstants[upd.id.key]
+	for i, upd := range updates {
+		constant := constants[i]
 		if err := constant.validate(upd.value); err != nil {
 			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
 			return ECACKValidationError
@@ -404,14 +410,14 @@ func (g *GemHandler) applyEquipmentConstantUpdates(updates []equipmentConstantUp
 
 	previous := make([]ast.ItemNode, len(updates))
 	for i, upd := range updates {
-		constant := g.equipmentConstants[upd.id.key]
+		constant := constants[i]
 		if value, err := constant.Value(); err == nil {
 			previous[i] = value
 		}
 		if err := constant.apply(upd.value); err != nil {
 			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
 			for j := i - 1; j >= 0; j-- {
-				applied := g.equipmentConstants[updates[j].id.key]
+				applied := constants[j]
 				if previous[j] == nil {
 					continue
 				}
-- 
2.43.0


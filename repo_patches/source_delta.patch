From 0e9473185db18f64fd905d1fcc029123a47c7e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 01/74] fix: stop a fragmented read whose continuation makes no
 progress

---
 read.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/read.go b/read.go
index d81fc46..f36a9dd 100644
--- a/read.go
+++ b/read.go
@@ -1177,6 +1177,10 @@ func (client *Client) readFragmented(ioi *tagIOI, elements uint16, initialData [
 		if status != byte(CIPStatus_PartialTransfer) {
 			return nil, fmt.Errorf("FragRead at offset %d returned status %v", offset, CIPStatus(status))
 		}
+		if len(fragData) == 0 {
+			// asking again at the same offset would go on forever.
+			return nil, fmt.Errorf("FragRead at offset %d made no progress", offset)
+		}
 	}
 }
 
-- 
2.43.0


From 6265f839a3f27a98a3761f7bcc242a02f0452288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 02/74] fix: close the network connection when Connect fails

A Connect that failed after dialing (registration or forward open refused, or no
answer) returned with the TCP connection still open.
---
 connect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/connect.go b/connect.go
index 83ca1b4..932976e 100644
--- a/connect.go
+++ b/connect.go
@@ -76,6 +76,9 @@ func (client *Client) Connect() error {
 	defer func() {
 		if !success {
 			client.mutex.Lock()
+			if client.conn != nil {
+				client.conn.Close()
+			}
 			client.connStatus = connectionStatusDisconnected
 			client.mutex.Unlock()
 		}
-- 
2.43.0


From cd7733794e214e59dca13f1147a123e52c28796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 03/74] fix: make starting and cancelling keepalive safe in any
 order

Cancelling twice, cancelling before the start, or cancelling and then disconnecting
closed a closed or nil channel and crashed the program; a second start lost the
channel of the first; a forced cancel switched keepalive off for good, although it
is documented to resume on reconnect.
---
 connect.go    | 30 +++++++++++++++++++++++-------
 disconnect.go | 18 ++++++++++++++----
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/connect.go b/connect.go
index 932976e..cf20cbb 100644
--- a/connect.go
+++ b/connect.go
@@ -86,6 +86,9 @@ func (client *Client) Connect() error {
 			client.mutex.Lock()
 			client.connStatus = connectionStatusConnected
 			client.mutex.Unlock()
+			if client.KeepAliveAutoStart {
+				go client.KeepAlive()
+			}
 		}
 	}()
 
@@ -166,9 +169,6 @@ func (client *Client) Connect() error {
 	}
 
 	success = true
-	if client.KeepAliveAutoStart {
-		go client.KeepAlive()
-	}
 	return nil
 }
 
@@ -199,14 +199,26 @@ func (client *Client) KeepAlive() {
 	if !client.KeepAliveAutoStart || client.SocketTimeout == 0 {
 		return
 	}
+	client.mutex.Lock()
 	if client.keepAliveRunning {
+		client.mutex.Unlock()
 		err := errors.New("keepalive already running")
 		client.Logger.Warn(err.Error())
+		return
 	}
 	client.Logger.Debug("starting keep alive")
-	client.cancel_keepalive = make(chan struct{})
+	cancel := make(chan struct{})
+	client.cancel_keepalive = cancel
 	client.keepAliveRunning = true
-	defer func() { client.keepAliveRunning = false }()
+	client.mutex.Unlock()
+	defer func() {
+		client.mutex.Lock()
+		// after a cancel, another keepalive may be running already
+		if client.cancel_keepalive == cancel {
+			client.keepAliveRunning = false
+		}
+		client.mutex.Unlock()
+	}()
 
 	originalProps, err := client.GetAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
 	if err != nil {
@@ -231,6 +243,11 @@ func (client *Client) KeepAlive() {
 	for {
 		select {
 		case <-t.C:
+			select {
+			case <-cancel:
+				return
+			default:
+			}
 			if !client.Connected() {
 				client.Logger.Warn("keepalive failed. not connected")
 				return
@@ -267,8 +284,7 @@ func (client *Client) KeepAlive() {
 				originalProps = newProps
 			}
 
-		case <-client.cancel_keepalive:
-			client.KeepAliveAutoStart = false
+		case <-cancel:
 			return
 		}
 	}
diff --git a/disconnect.go b/disconnect.go
index d32051c..2e751ce 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -65,9 +65,9 @@ func (client *Client) Disconnect() error {
 		client.mutex.Unlock()
 	}()
 
-	if client.keepAliveRunning {
-		close(client.cancel_keepalive)
-	}
+	client.mutex.Lock()
+	client.stopKeepAlive()
+	client.mutex.Unlock()
 
 	items := make([]CIPItem, 2)
 	items[0] = CIPItem{} // null item
@@ -147,10 +147,20 @@ func (client *Client) KeepAliveCancel(force bool) error {
 	if client.KeepAliveAutoStart && !force {
 		return fmt.Errorf("unable to cancel keepalive due to AutoKeepAlive == true")
 	}
-	close(client.cancel_keepalive)
+	client.mutex.Lock()
+	defer client.mutex.Unlock()
+	client.stopKeepAlive()
 	return nil
 }
 
+// stopKeepAlive tells the running keepalive, if any, to stop. The mutex must be held.
+func (client *Client) stopKeepAlive() {
+	if client.keepAliveRunning {
+		close(client.cancel_keepalive)
+		client.keepAliveRunning = false
+	}
+}
+
 type msgCipUnRegister struct {
 	Service                CIPService
 	CipPathSize            byte
-- 
2.43.0


From 0331885cc6eb100990373e2930f5bbf83c35039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 04/74] fix: give up a connection as soon as a reply is lost

After a timeout the mutex was released before the connection was closed, so a waiting
goroutine sent its request on the same connection and could be handed the late reply
to the earlier request. Requests were also built before the mutex was taken, with the
session handle of an earlier connection. A request without a connection now returns an
error instead of dereferencing nil.
---
 connect.go     |  5 ++++-
 errors.go      |  3 +++
 sendreceive.go | 34 +++++++++++++++++++++-------------
 3 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/connect.go b/connect.go
index cf20cbb..e800478 100644
--- a/connect.go
+++ b/connect.go
@@ -133,7 +133,10 @@ func (client *Client) Connect() error {
 	}
 
 	address := fmt.Sprintf("%s:%v", client.Controller.IpAddress, client.Controller.Port)
-	client.conn, err = net.DialTimeout("tcp", address, client.SocketTimeout)
+	conn, err := net.DialTimeout("tcp", address, client.SocketTimeout)
+	client.mutex.Lock()
+	client.conn = conn
+	client.mutex.Unlock()
 	if err != nil {
 		msg := "cannot connect to controller"
 		client.Logger.Error(msg, slog.Any("err", err))
diff --git a/errors.go b/errors.go
index 2f514c8..42ddc12 100644
--- a/errors.go
+++ b/errors.go
@@ -5,6 +5,9 @@ import (
 	"fmt"
 )
 
+// a request or its reply was lost together with the network connection it was sent on.
+var errConnectionLost = errors.New("connection lost")
+
 // Represents a CIP error.
 type CIPError struct {
 	Code     byte
diff --git a/sendreceive.go b/sendreceive.go
index ad1efd2..e3151e4 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -77,34 +77,42 @@ func (client *Client) sendData(b []byte) error {
 
 // sends one message and gets one response in a mutex-protected way.
 func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *bytes.Buffer, error) {
+	client.mutex.Lock()
+	defer client.mutex.Unlock()
+
+	if client.conn == nil || (cmd == cipCommandSendUnitData && client.connStatus != connectionStatusConnected) {
+		return eipHeader{}, nil, fmt.Errorf("not connected")
+	}
 	buffer, err := client.sendMsgBuild(cmd, msgs...)
 	if err != nil {
 		return eipHeader{}, nil, fmt.Errorf("error preparing to send message: %w", err)
 	}
-	client.mutex.Lock()
 
 	err = client.sendData(buffer)
 	if err != nil {
-		client.mutex.Unlock()
-		err2 := client.Disconnect()
-		if err2 != nil {
-			return eipHeader{}, nil, fmt.Errorf("error disconnecting after send error %w: %w", err, err2)
-		}
-		return eipHeader{}, nil, fmt.Errorf("error sending data resulting in forced disconnect: %w", err)
+		client.abandonConnection()
+		return eipHeader{}, nil, fmt.Errorf("error sending data resulting in forced disconnect: %w: %w", errConnectionLost, err)
 	}
 
 	hdr, buf, err := client.recvData()
-	client.mutex.Unlock()
 	if err != nil {
-		err2 := client.Disconnect()
-		if err2 != nil {
-			return hdr, buf, fmt.Errorf("error disconnecting after recvError %w: %w", err, err2)
-		}
-		return hdr, buf, fmt.Errorf("error receiving data resulting in forced disconnect: %w", err)
+		client.abandonConnection()
+		return hdr, buf, fmt.Errorf("error receiving data resulting in forced disconnect: %w: %w", errConnectionLost, err)
 	}
 	return hdr, buf, nil
 }
 
+// abandonConnection closes a network connection on which a request failed. Its reply may still be on the way, so
+// the connection must not be used for another request. The mutex must be held.
+func (client *Client) abandonConnection() {
+	client.conn.Close()
+	// while connecting or disconnecting, Connect or Disconnect takes care of the status.
+	if client.connStatus == connectionStatusConnected {
+		client.connStatus = connectionStatusDisconnected
+		client.stopKeepAlive()
+	}
+}
+
 // recv_data reads the header and then the number of words it specifies.
 func (client *Client) recvData() (eipHeader, *bytes.Buffer, error) {
 
-- 
2.43.0


From 93bf7120f1c0d38e635cfc6ec0f210ecd4fca65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 05/74] fix: fall back to the standard forward open only when
 the large one is refused

When the reply to the large forward open was lost the client went on with a standard
open and kept the small connection size for good.
---
 connect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/connect.go b/connect.go
index e800478..04a6124 100644
--- a/connect.go
+++ b/connect.go
@@ -154,6 +154,9 @@ func (client *Client) Connect() error {
 			return err
 		}
 		err = client.forwardOpen(item)
+		if errors.Is(err, errConnectionLost) {
+			return err
+		}
 		if err != nil {
 			client.Logger.Warn("Large forward open failed. Not all devices support this.  Falling back to standard forward open", slog.Any("err", err))
 			client.ConnectionSize = connSizeStandardDefault
-- 
2.43.0


From 2a0275f5fa39083146ec0dff89092602cda6473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 06/74] fix: take GetAttrList's sequence count from the shared
 sequencer

A separate counter can give two consecutive connected requests the same sequence
count, to which the target answers with the earlier reply.
---
 getattr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/getattr.go b/getattr.go
index bf1e9ac..7035fc5 100644
--- a/getattr.go
+++ b/getattr.go
@@ -253,7 +253,7 @@ func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ..
 	}
 
 	readMsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(client.sequenceNumber.Add(1)),
+		SequenceCount: uint16(sequencer()),
 		Service:       CIPService_GetAttributeList,
 		PathLength:    byte(path.Len() / 2),
 	}
-- 
2.43.0


From 648617c4289457da82def4834b1400a205f35f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 07/74] fix: report a non-zero encapsulation status as an error

It was ignored by most operations; a refused session registration even let Connect go
on with session handle 0.
---
 sendreceive.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sendreceive.go b/sendreceive.go
index e3151e4..4a3bbd8 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -99,6 +99,9 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 		client.abandonConnection()
 		return hdr, buf, fmt.Errorf("error receiving data resulting in forced disconnect: %w: %w", errConnectionLost, err)
 	}
+	if hdr.Status != 0 {
+		return hdr, buf, fmt.Errorf("target refused the request with encapsulation status 0x%X", hdr.Status)
+	}
 	return hdr, buf, nil
 }
 
-- 
2.43.0


From 15bb293beb1262a8f3cc810b5fcd912acffd6f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 08/74] fix: let a cancel find the keepalive which Connect has
 just started

Connect started keepalive in a goroutine which registered itself only when it
was scheduled, so a KeepAliveCancel or Disconnect shortly after Connect found
nothing to cancel and polling went on.
---
 connect.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/connect.go b/connect.go
index 04a6124..b21a513 100644
--- a/connect.go
+++ b/connect.go
@@ -87,7 +87,10 @@ func (client *Client) Connect() error {
 			client.connStatus = connectionStatusConnected
 			client.mutex.Unlock()
 			if client.KeepAliveAutoStart {
-				go client.KeepAlive()
+				// register it here so that a cancel which follows Connect() finds it
+				if cancel := client.startKeepAlive(); cancel != nil {
+					go client.keepAlive(cancel)
+				}
 			}
 		}
 	}()
@@ -202,21 +205,33 @@ func (client *Client) registerSession() error {
 }
 
 func (client *Client) KeepAlive() {
+	if cancel := client.startKeepAlive(); cancel != nil {
+		client.keepAlive(cancel)
+	}
+}
+
+// startKeepAlive registers a new keepalive and returns the channel which cancels it, or nil
+// if keepalive is disabled or already running.
+func (client *Client) startKeepAlive() chan struct{} {
 	if !client.KeepAliveAutoStart || client.SocketTimeout == 0 {
-		return
+		return nil
 	}
 	client.mutex.Lock()
+	defer client.mutex.Unlock()
 	if client.keepAliveRunning {
-		client.mutex.Unlock()
 		err := errors.New("keepalive already running")
 		client.Logger.Warn(err.Error())
-		return
+		return nil
 	}
 	client.Logger.Debug("starting keep alive")
 	cancel := make(chan struct{})
 	client.cancel_keepalive = cancel
 	client.keepAliveRunning = true
-	client.mutex.Unlock()
+	return cancel
+}
+
+// keepAlive polls the controller until cancel is closed or a poll fails.
+func (client *Client) keepAlive(cancel chan struct{}) {
 	defer func() {
 		client.mutex.Lock()
 		// after a cancel, another keepalive may be running already
-- 
2.43.0


From 69a865513ab6f9f2f80e133f62013b528ebaa81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 09/74] fix: split multi-tag reads by the size of the whole
 request and reply

ReadList ignored the element count, the reply overhead and the size of strings
and structures, ReadMulti ignored the reply and most of the request, and a
first tag which did not fit made readList recurse without end.
---
 partialread.go | 32 +++++++++++++++++++++++++++-----
 read.go        | 11 ++++++-----
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/partialread.go b/partialread.go
index 3d923f7..0d89dfb 100644
--- a/partialread.go
+++ b/partialread.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"reflect"
 )
 
 // ReadList reads multiple tags with explicitly specified types and element counts in a single efficient request.
@@ -112,7 +113,7 @@ func (client *Client) countIOIsThatFit(tags []tagDesc) (int, error) {
 	// how many ioi's fit in the message
 	n := 1
 
-	response_size := 0
+	response_size := SizeOf(msgMultiReadResultHeader{})
 
 	for i, tag := range tags {
 		ioi, err := client.newIOI(tag.TagName, tag.TagType)
@@ -127,18 +128,18 @@ func (client *Client) countIOIsThatFit(tags []tagDesc) (int, error) {
 			Size:    byte(len(ioi.Buffer) / 2),
 		}
 		f := msgCIPIOIFooter{
-			Elements: 1,
+			Elements: uint16(tag.Elements),
 		}
 
 		// Calculate the size of the data once we add this ioi to the list.
 		newSize := mainhdr_size                                // length of the multi-read header
-		newSize += 2 * n                                       // add in the jump table
+		newSize += 2 * (i + 1)                                 // add in the jump table
 		newSize += b.Len()                                     // everything we have so far
 		newSize += ioihdr_size + len(ioi.Buffer) + ioiftr_size // the new ioi data
 		//newSize += 4                                           // Fudge for alignment if needed
 
-		response_size += tags[i].TagType.Size() * tags[i].Elements
-		if newSize >= int(client.ConnectionSize) || response_size >= int(client.ConnectionSize) {
+		response_size += multiReplySize(tag, ioi)
+		if newSize > int(client.ConnectionSize) || response_size > int(client.ConnectionSize) {
 			// break before adding this ioi to the list since it will push us over.
 			// we'll continue with n iois (n only increments after an IOI is added)
 			break
@@ -162,3 +163,24 @@ func (client *Client) countIOIsThatFit(tags []tagDesc) (int, error) {
 	return n, nil
 
 }
+
+// multiReplySize is the space that the reply for one tag takes up in the reply to a multiple service read.
+func multiReplySize(tag tagDesc, ioi *tagIOI) int {
+	size := 0
+	switch {
+	case tag.TagType == CIPTypeSTRING:
+		// type handle, then length and data of each string
+		size = 2 + 88*tag.Elements
+	case tag.TagType == CIPTypeStruct && tag.Struct != nil && reflect.TypeOf(tag.Struct).Kind() == reflect.Struct:
+		// type handle, then the structure with its padding
+		n := int(reflect.TypeOf(tag.Struct).Size())
+		size = 2 + (n+7)/8*8*tag.Elements
+	case tag.TagType == CIPTypeBOOL && ioi.BitAccess:
+		// the whole word comes back
+		size = CIPTypeLWORD.Size()
+	default:
+		size = tag.TagType.Size() * tag.Elements
+	}
+	// offset table entry, reply header and type, and an even number of bytes
+	return 2 + SizeOf(msgMultiReadResult{}) + (size+1)/2*2
+}
diff --git a/read.go b/read.go
index f36a9dd..a0ba46e 100644
--- a/read.go
+++ b/read.go
@@ -798,6 +798,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 		ServiceCount: uint16(qty),
 	}
 
+	replySize := SizeOf(msgMultiReadResultHeader{})
 	b := bytes.Buffer{}
 	// we now have to build up the jump table for each IOI.
 	// and pack all the IOIs together into b
@@ -823,11 +824,11 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 			return nil, fmt.Errorf("problem writing ioi buffer to msg buffer. %w", err)
 		}
 
-		totalMsgSize := b.Len() + SizeOf(h) + SizeOf(f) + 2 // 2 for the jump table entry
-		// TODO: calculate the actual message size, not just the IOI data size.
-		// TODO: We also need to calculate the response size we expect from the PLC and split
-		//       into multiple messages on that also.
-		if totalMsgSize > int(client.ConnectionSize) {
+		// the multi service header, the jump table and the services so far
+		totalMsgSize := SizeOf(ioi_header) + 2*(i+1) + b.Len()
+		replySize += multiReplySize(tags[i], ioi)
+		// a tag which doesn't even fit alone has to be tried anyway
+		if i > 0 && (totalMsgSize > int(client.ConnectionSize) || replySize > int(client.ConnectionSize)) {
 			first_part := tags[:i]
 			rest := tags[i:]
 
-- 
2.43.0


From dcde56748e07cefc5a34c7889f00b512992413da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 10/74] fix: turn malformed replies into errors

Missing items, a wrong number of multi read results, results out of range,
impossible string lengths and error statuses of attribute reads led to panics
or to wrong values, and the bit of a SINT could not be read.
---
 connect.go     |  2 +-
 getattr.go     |  9 ++++++---
 items.go       | 12 ++++++++++++
 listalltags.go |  2 +-
 listmembers.go |  4 ++--
 listsubtags.go |  2 +-
 read.go        | 44 +++++++++++++++++++++++++++++++++++++-------
 types.go       |  8 ++++----
 write.go       |  4 ++--
 9 files changed, 66 insertions(+), 21 deletions(-)

diff --git a/connect.go b/connect.go
index b21a513..b14ecf1 100644
--- a/connect.go
+++ b/connect.go
@@ -609,7 +609,7 @@ func (client *Client) parseResponse(header *eipHeader, data *bytes.Buffer) ([]CI
 		return nil, fmt.Errorf("problem reading items header from forward open request. %w", err)
 	}
 
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		return nil, fmt.Errorf("problem reading items from forward open request. %w", err)
 	}
diff --git a/getattr.go b/getattr.go
index 7035fc5..de37b48 100644
--- a/getattr.go
+++ b/getattr.go
@@ -146,7 +146,7 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	if err != nil {
 		client.Logger.Warn("Problem reading read result header.", "error", err)
 	}
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		client.Logger.Warn("Problem reading items.", "error", err)
 		return nil, err
@@ -157,6 +157,9 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	if err != nil {
 		return nil, fmt.Errorf("couldn't read response header. %w", err)
 	}
+	if resphdr.Status != uint16(CIPStatus_OK) {
+		return nil, fmt.Errorf("response header has status 0x%X (%v)", resphdr.Status, CIPStatus(resphdr.Status))
+	}
 	//dat := make([]byte, hdr.Length-26)
 	//items[1].DeSerialize(&dat)
 	return &items[1], nil
@@ -291,7 +294,7 @@ func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ..
 		client.Logger.Warn("Problem reading read result header.", "error", err)
 		return nil, err
 	}
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		client.Logger.Warn("Problem reading items.", "error", err)
 		return nil, err
@@ -456,7 +459,7 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 	if err != nil {
 		return nil, fmt.Errorf("problpm reading read result header: %w", err)
 	}
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		return nil, fmt.Errorf("problem reading items: %w", err)
 	}
diff --git a/items.go b/items.go
index e628b49..98c86f9 100644
--- a/items.go
+++ b/items.go
@@ -49,6 +49,18 @@ func readItems(r io.Reader) ([]CIPItem, error) {
 	return items, nil
 }
 
+// readReplyItems reads the items of a reply, which are an address and a data item.
+func readReplyItems(r io.Reader) ([]CIPItem, error) {
+	items, err := readItems(r)
+	if err != nil {
+		return nil, err
+	}
+	if len(items) != 2 {
+		return nil, fmt.Errorf("wrong number of items. Expected 2 but got %d", len(items))
+	}
+	return items, nil
+}
+
 // The CIPItem is one of the core abstractions this library uses.
 //
 // When a response comes back from the controller it is structured in a CIPItem which can then
diff --git a/listalltags.go b/listalltags.go
index 9df6b54..60ede2d 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -199,7 +199,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		return fmt.Errorf("problem getting padding bytes. %w", err)
 	}
 
-	resp_items, err := readItems(data)
+	resp_items, err := readReplyItems(data)
 	if err != nil {
 		return fmt.Errorf("couldn't parse items. %w", err)
 	}
diff --git a/listmembers.go b/listmembers.go
index 914a954..9b9d15b 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -115,7 +115,7 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 		return msgGetTemplateAttrListResponse{}, fmt.Errorf("problem reading padding. %w", err)
 	}
 
-	resp_items, err := readItems(data)
+	resp_items, err := readReplyItems(data)
 	if err != nil {
 		return msgGetTemplateAttrListResponse{}, fmt.Errorf("couldn't parse items. %w", err)
 	}
@@ -219,7 +219,7 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		return UDTDescriptor{}, fmt.Errorf("couldn't read padding. %w", err)
 	}
 
-	resp_items, err := readItems(data)
+	resp_items, err := readReplyItems(data)
 	if err != nil {
 		return UDTDescriptor{}, fmt.Errorf("couldn't parse items. %w", err)
 	}
diff --git a/listsubtags.go b/listsubtags.go
index a60d505..85def63 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -72,7 +72,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		return nil, fmt.Errorf("problem reading padding. %w", err)
 	}
 
-	resp_items, err := readItems(data)
+	resp_items, err := readReplyItems(data)
 	if err != nil {
 		return new_kts, fmt.Errorf("couldn't parse items. %w", err)
 	}
diff --git a/read.go b/read.go
index a0ba46e..fd4dde5 100644
--- a/read.go
+++ b/read.go
@@ -442,7 +442,7 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 	if err != nil {
 		client.Logger.Warn("Problem reading read result header", "error", err)
 	}
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		client.Logger.Warn("Problem reading items", "error", err)
 		return 0, err
@@ -488,6 +488,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct header. %w", err)
 				}
+				if int64(str_hdr.Length) > int64(len(items[1].Rest())) {
+					return nil, fmt.Errorf("string of length %d is cut short", str_hdr.Length)
+				}
 				str := make([]byte, str_hdr.Length)
 				err = items[1].DeSerialize(&str)
 				if err != nil {
@@ -508,6 +511,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct data. %w", err)
 				}
+				if str_hdr.Length > uint32(len(str)) {
+					return nil, fmt.Errorf("string element %d has an impossible length of %d", i, str_hdr.Length)
+				}
 				response[i] = str[:str_hdr.Length]
 			}
 			return response, nil
@@ -873,7 +879,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	if err != nil {
 		client.Logger.Warn("Problem reading read result header", "error", err)
 	}
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		return nil, fmt.Errorf("problem reading items. %w", err)
 	}
@@ -919,10 +925,23 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	if err != nil {
 		return nil, err
 	}
+	if int(reply_hdr.Reply_Count) != qty {
+		return nil, fmt.Errorf("asked for %d tags but got %d", qty, reply_hdr.Reply_Count)
+	}
 	result_values := make([]interface{}, reply_hdr.Reply_Count)
 	for i := 0; i < int(reply_hdr.Reply_Count); i++ {
-		offset := offset_table[i] + 10 // offset doesn't start at 0 in the item
-		myBytes := bytes.NewBuffer(rb[offset:])
+		offset := int(offset_table[i]) + 10 // offset doesn't start at 0 in the item
+		if offset > len(rb) {
+			return nil, fmt.Errorf("the result of %v is missing", tags[i].TagName)
+		}
+		// this result ends where the next one starts
+		end := len(rb)
+		for _, o := range offset_table {
+			if next := int(o) + 10; next > offset && next < end {
+				end = next
+			}
+		}
+		myBytes := bytes.NewBuffer(rb[offset:end])
 		rHdr := msgMultiReadResult{}
 		err = binary.Read(myBytes, binary.LittleEndian, &rHdr)
 		if err != nil {
@@ -946,16 +965,21 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				}
 				val, err := getBit(rHdr.Type, value, iois[i].BitPosition)
 				if err != nil {
-					client.Logger.Warn("problem reading value for this guy")
-					continue
+					return nil, fmt.Errorf("problem reading tag %v: %w", tags[i].TagName, err)
 				}
 				result_values[i] = val
 			} else if tags[i].TagType == CIPTypeSTRING {
+				if rHdr.Type != CIPTypeStruct {
+					return nil, fmt.Errorf("tag %v is not a string but %v", tags[i].TagName, rHdr.Type)
+				}
 				str_hdr := cipStringHeader{}
 				err = binary.Read(myBytes, binary.LittleEndian, &str_hdr)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack string struct header. %w", err)
 				}
+				if int64(str_hdr.Length) > int64(myBytes.Len()) {
+					return nil, fmt.Errorf("string %v of length %d is cut short", tags[i].TagName, str_hdr.Length)
+				}
 				str := make([]byte, str_hdr.Length)
 				err = binary.Read(myBytes, binary.LittleEndian, str)
 				if err != nil {
@@ -995,6 +1019,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 			// string length. Reading only Length bytes would misalign the next
 			// element. This mirrors the per-element loop used in Read for
 			// arrays of strings (see read.go above).
+			if rHdr.Type != CIPTypeStruct {
+				return nil, fmt.Errorf("tag %v is not a string but %v", tags[i].TagName, rHdr.Type)
+			}
 			val := make([]any, tags[i].Elements)
 			for respIndex := 0; respIndex < tags[i].Elements; respIndex++ {
 				str_hdr := cipStringHeader{}
@@ -1007,6 +1034,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack string data for tag %v element %d: %w", tags[i], respIndex, err)
 				}
+				if str_hdr.Length > uint32(len(str)) {
+					return nil, fmt.Errorf("tag %v element %d has an impossible length of %d", tags[i].TagName, respIndex, str_hdr.Length)
+				}
 				val[respIndex] = string(str[:str_hdr.Length])
 			}
 			result_values[i] = val
@@ -1217,7 +1247,7 @@ func (client *Client) sendFragReadRequest(ioi *tagIOI, elements uint16, offset u
 	if err := binary.Read(data, binary.LittleEndian, &resultHdr); err != nil {
 		return nil, 0, fmt.Errorf("FragRead result header: %w", err)
 	}
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		return nil, 0, fmt.Errorf("FragRead items: %w", err)
 	}
diff --git a/types.go b/types.go
index 75730d6..013e866 100644
--- a/types.go
+++ b/types.go
@@ -336,9 +336,9 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 		}
 	case CIPTypeSINT:
 		if bitpos >= 0 && bitpos < 8 {
-			x, ok := v.(byte)
+			x, ok := v.(int8)
 			if ok {
-				mask := byte(1 << bitpos)
+				mask := int8(1 << bitpos)
 				masked := x & mask
 				return masked != 0, nil
 			}
@@ -445,8 +445,8 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 		//panic("Default type.")
 
 	}
-	if err != nil {
-		return false, err
+	if err == nil {
+		err = fmt.Errorf("bit %d is out of range for %v", bitpos, t)
 	}
 	return false, err
 }
diff --git a/write.go b/write.go
index 72d2f70..0a06505 100644
--- a/write.go
+++ b/write.go
@@ -192,7 +192,7 @@ func (client *Client) write_udt(tag string, value any) error {
 	if err != nil {
 		client.Logger.Warn("Problem reading read result header", "error", err)
 	}
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		return fmt.Errorf("problem reading items from write, %w", err)
 	}
@@ -281,7 +281,7 @@ func (client *Client) write_single(tag string, value any) error {
 	if err != nil {
 		client.Logger.Warn("Problem reading read result header", "error", err)
 	}
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		return fmt.Errorf("problem reading items from write, %w", err)
 	}
-- 
2.43.0


From 57a7966c8dcc105c5b04153763709f9da0a47e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 11/74] fix: read into a slice of one element

Read with a slice of length one always failed and with an empty slice it
panicked.
---
 read.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index fd4dde5..66fa7ad 100644
--- a/read.go
+++ b/read.go
@@ -557,11 +557,16 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 
 func readArray[T GoLogixTypes](client *Client, tag string, elements uint16) ([]T, error) {
 	t := make([]T, elements)
-	ct, _ := GoVarToCIPType(t[0])
+	var zero T
+	ct, _ := GoVarToCIPType(zero)
 	val, err := client.Read_single(tag, ct, elements)
 	if err != nil {
 		return t, err
 	}
+	if elements == 1 && ct != CIPTypeStruct {
+		// a single element comes back as the value itself
+		val = []any{val}
+	}
 
 	if ct == CIPTypeStruct {
 		b, ok := val.([]byte)
-- 
2.43.0


From 741dc9d1bd1b4b2d642142469626f7febf5ff15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 12/74] fix: leave the caller's struct alone when reading it
 fails

A structure whose data was cut short was partly written to the destination.
Reading structures in a multi-tag read now also obeys the alignment rules.
---
 read.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/read.go b/read.go
index 66fa7ad..755f2aa 100644
--- a/read.go
+++ b/read.go
@@ -342,10 +342,14 @@ func (client *Client) Read(tag string, data any) error {
 		b := bytes.NewBuffer(cast)
 
 		//err = binary.Read(b, binary.LittleEndian, data)
-		_, err = Unpack(b, data)
+		// unpack into a copy so that data is only changed when all of it could be read.
+		fresh := reflect.New(v.Type().Elem())
+		fresh.Elem().Set(v.Elem())
+		_, err = Unpack(b, fresh.Interface())
 		if err != nil {
 			return fmt.Errorf("couldn't parse str data. %w", err)
 		}
+		v.Elem().Set(fresh.Elem())
 
 	case reflect.Slice:
 		// slice of structs.
@@ -362,10 +366,13 @@ func (client *Client) Read(tag string, data any) error {
 		b := bytes.NewBuffer(dat)
 		//TODO: unpack here instead of just a read.
 		//err = binary.Read(b, binary.LittleEndian, data)
-		_, err = Unpack(b, data)
+		fresh := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
+		reflect.Copy(fresh, v)
+		_, err = Unpack(b, fresh.Interface())
 		if err != nil {
 			return fmt.Errorf("couldn't parse str data element %w", err)
 		}
+		reflect.Copy(v, fresh)
 
 	}
 
@@ -1004,7 +1011,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 					continue
 				}
 				x := reflect.New(reflect.TypeOf(tags[i].Struct)).Interface()
-				err = binary.Read(myBytes, binary.LittleEndian, x)
+				_, err = Unpack(myBytes, x)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct data. %w", err)
 				}
-- 
2.43.0


From bf515799f47a6e2bb19c672fb7052f3fd10f7b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 13/74] fix: give every field and key of a multi-tag read its
 own, typed value

ReadMulti lost all but one of several fields with the same tag, took the wrong
fields of embedded structs and panicked when a type did not match, ReadMap
returned slices as []any and ReadPacked always panicked.
---
 pack.go | 15 ++-----------
 read.go | 67 ++++++++++++++++++++++++++++++++++++++++-----------------
 2 files changed, 49 insertions(+), 33 deletions(-)

diff --git a/pack.go b/pack.go
index 01cb4f4..caf2fa4 100644
--- a/pack.go
+++ b/pack.go
@@ -388,20 +388,9 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 
 func ReadPacked[T any](client *Client, tag string) (T, error) {
 	var data T
-	buf := new(bytes.Buffer)
-	size, err := Pack(buf, data)
+	err := client.Read(tag, &data)
 	if err != nil {
-		return data, err
-	}
-
-	b := make([]byte, size)
-	err = client.Read(tag, &b)
-	if err != nil {
-		return data, fmt.Errorf("couldn't read %s as bytes. %w", tag, err)
-	}
-	_, err = Unpack(bytes.NewBuffer(b), &data)
-	if err != nil {
-		return data, fmt.Errorf("problem unpacking from buffer. %w", err)
+		return data, fmt.Errorf("couldn't read %s. %w", tag, err)
 	}
 
 	return data, nil
diff --git a/read.go b/read.go
index 755f2aa..82aa662 100644
--- a/read.go
+++ b/read.go
@@ -734,8 +734,7 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 	T := reflect.TypeOf(tag_str).Elem()
 	vf := reflect.VisibleFields(T)
 	taglist := make([]tagDesc, 0, len(vf))
-	tags := make([]string, 0)
-	tag_map := make(map[string]int)
+	fields := make([]reflect.Value, 0, len(vf))
 	val := reflect.ValueOf(tag_str).Elem()
 	for i := range vf {
 		field := vf[i]
@@ -746,10 +745,10 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 		if args != nil {
 			tagPath = formatName(tagPath, args...)
 		}
-		v := val.Field(i).Interface()
+		fieldVal := val.FieldByIndex(field.Index)
+		v := fieldVal.Interface()
 		t, elem := GoVarToCIPType(v)
-		tags = append(tags, tagPath)
-		tag_map[tagPath] = i
+		fields = append(fields, fieldVal)
 		taglist = append(taglist, tagDesc{
 			TagName:  tagPath,
 			TagType:  t,
@@ -763,28 +762,50 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 		return fmt.Errorf("problem in read list: %w", err)
 	}
 
-	// now unpack the result values back into the given structure
-	for i, tag := range tags {
-		fieldNo := tag_map[tag]
-		val := result_values[i]
-
-		v := reflect.ValueOf(&tag_str).Elem().Elem().Elem()
-
-		fieldVal := v.Field(fieldNo)
-
-		if fieldVal.Type().Kind() != reflect.Slice {
-			fieldVal.Set(reflect.ValueOf(val))
+	// now unpack the result values back into the given structure, when all of them fit
+	values := make([]reflect.Value, len(fields))
+	for i, fieldVal := range fields {
+		values[i], err = convertResult(fieldVal.Type(), result_values[i])
+		if err != nil {
+			return fmt.Errorf("problem storing tag %s: %w", taglist[i].TagName, err)
+		}
+	}
+	for i, fieldVal := range fields {
+		if fieldVal.Kind() == reflect.Slice {
+			reflect.Copy(fieldVal, values[i])
 		} else {
-			l := fieldVal.Len()
-			for j := 0; j < l; j++ {
-				fieldVal.Index(j).Set(reflect.ValueOf(val).Index(j).Elem())
-			}
+			fieldVal.Set(values[i])
 		}
 	}
 
 	return nil
 }
 
+// convertResult makes a value of type t from what has been read for a tag. Array elements are read one by one as any.
+func convertResult(t reflect.Type, val any) (reflect.Value, error) {
+	v := reflect.ValueOf(val)
+	if v.IsValid() && v.Type().AssignableTo(t) {
+		return v, nil
+	}
+	if t.Kind() != reflect.Slice {
+		return v, fmt.Errorf("cannot use a %T as %v", val, t)
+	}
+	elems, ok := val.([]any)
+	if !ok {
+		// a single element is read as the value itself
+		elems = []any{val}
+	}
+	result := reflect.MakeSlice(t, len(elems), len(elems))
+	for i := range elems {
+		elem, err := convertResult(t.Elem(), elems[i])
+		if err != nil {
+			return v, err
+		}
+		result.Index(i).Set(elem)
+	}
+	return result, nil
+}
+
 type tagDesc struct {
 	TagName  string
 	TagType  CIPType
@@ -1194,6 +1215,12 @@ func (client *Client) ReadMap(m map[string]any) error {
 	// now unpack the result values back into the given structure
 	for i := range result_values {
 		m[indexes[i]] = result_values[i]
+		if t := reflect.TypeOf(tags[i].Struct); t != nil && t.Kind() == reflect.Slice {
+			// give back the same type of slice if the elements allow it
+			if v, err := convertResult(t, result_values[i]); err == nil {
+				m[indexes[i]] = v.Interface()
+			}
+		}
 	}
 
 	return nil
-- 
2.43.0


From 82116fb5189e1959a6645a44b8fe8b5131e5c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 14/74] fix: check the reply to WriteMap and split what does
 not fit

WriteMap and WriteMulti ignored the reply, so a rejected write looked like a
success. They also wrote only the type of structures, only one element of
slices and nothing of array fields, and sent everything in one message.
---
 udt_write.go | 196 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 137 insertions(+), 59 deletions(-)

diff --git a/udt_write.go b/udt_write.go
index 593cdb1..4fc71ac 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -19,6 +19,9 @@ func multi_to_dict(data any) (map[string]interface{}, error) {
 		v := vs.Field(i)
 		f := fs.Field(i)
 		fulltag := f.Tag.Get("gologix")
+		if fulltag == "" {
+			continue
+		}
 		switch v.Kind() {
 		case reflect.Struct:
 			d2, err := udt_to_dict(fulltag, v.Interface())
@@ -29,7 +32,7 @@ func multi_to_dict(data any) (map[string]interface{}, error) {
 				d[k] = d2[k]
 			}
 		case reflect.Array:
-			//TODO
+			d[fulltag] = arrayToSlice(v)
 		default:
 			d[fulltag] = v.Interface()
 		}
@@ -65,7 +68,7 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 				d[k] = d2[k]
 			}
 		case reflect.Array:
-			//TODO
+			d[fulltag] = arrayToSlice(v)
 		default:
 			d[fulltag] = v.Interface()
 		}
@@ -76,6 +79,13 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 
 }
 
+// arrayToSlice makes a slice of the elements of an array, which can then be written like any other slice
+func arrayToSlice(v reflect.Value) any {
+	s := reflect.MakeSlice(reflect.SliceOf(v.Type().Elem()), v.Len(), v.Len())
+	reflect.Copy(s, v)
+	return s.Interface()
+}
+
 // WriteMap writes multiple tags efficiently using a map where keys are tag names and values are the data to write.
 //
 // The map keys specify the tag names to write to in the PLC (case insensitive).
@@ -125,26 +135,85 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 // Returns an error if the connection fails, any tag doesn't exist, there are type mismatches,
 // or any tags are read-only.
 func (client *Client) WriteMap(tag_str map[string]interface{}) error {
-
-	// build the tag list from the structure
-	tags := make([]string, 0)
-	types := make([]CIPType, 0)
-	for k := range tag_str {
-		ct, _ := GoVarToCIPType(tag_str[k])
-		types = append(types, ct)
-		tags = append(tags, k)
+	err := client.checkConnection()
+	if err != nil {
+		return fmt.Errorf("could not start map write: %w", err)
 	}
 
-	// first generate IOIs for each tag
-	qty := len(tags)
-	iois := make([]*tagIOI, qty)
-	for i, tag := range tags {
-		var err error
-		iois[i], err = client.newIOI(tag, types[i])
+	// build the service request for each tag and send as many at a time as fit in a message.
+	tags := make([]string, 0, len(tag_str))
+	reqs := make([][]byte, 0, len(tag_str))
+	size := SizeOf(msgCIPConnectedMultiServiceReq{})
+	for tag, value := range tag_str {
+		req, err := client.writeRequest(tag, value)
 		if err != nil {
 			return err
 		}
+		reqSize := len(req) + 2 // 2 for the jump table entry
+		if len(reqs) > 0 && size+reqSize > int(client.ConnectionSize) {
+			err = client.sendWriteRequests(tags, reqs)
+			if err != nil {
+				return err
+			}
+			tags, reqs = tags[:0], reqs[:0]
+			size = SizeOf(msgCIPConnectedMultiServiceReq{})
+		}
+		tags = append(tags, tag)
+		reqs = append(reqs, req)
+		size += reqSize
+	}
+	if len(reqs) == 0 {
+		return nil
 	}
+	return client.sendWriteRequests(tags, reqs)
+}
+
+// writeRequest builds the write service request for one tag.
+func (client *Client) writeRequest(tag string, value any) ([]byte, error) {
+	datatype, elements := GoVarToCIPType(value)
+	ioi, err := client.newIOI(tag, datatype)
+	if err != nil {
+		return nil, err
+	}
+	h := msgCIPMultiIOIHeader{
+		Service: CIPService_Write,
+		Size:    byte(len(ioi.Buffer) / 2),
+	}
+	b, err := Serialize(h, ioi)
+	if err != nil {
+		return nil, fmt.Errorf("problem serializing header for %s: %w", tag, err)
+	}
+	if reflect.ValueOf(value).Kind() == reflect.Struct {
+		_, typecrc, err := TypeEncode(value)
+		if err != nil {
+			return nil, fmt.Errorf("problem encoding type of %s. %w", tag, err)
+		}
+		ftr, err := Serialize(datatype, byte(2), typecrc, uint16(elements))
+		if err != nil {
+			return nil, fmt.Errorf("problem serializing type of %s: %w", tag, err)
+		}
+		b.Write(ftr.Bytes())
+		_, err = Pack(b, value)
+		if err != nil {
+			return nil, fmt.Errorf("problem packing %s: %w", tag, err)
+		}
+		return b.Bytes(), nil
+	}
+	f := msgCIPWriteIOIFooter{
+		DataType: uint16(datatype),
+		Elements: uint16(elements),
+	}
+	data, err := Serialize(f, value)
+	if err != nil {
+		return nil, fmt.Errorf("problem serializing %s: %w", tag, err)
+	}
+	b.Write(data.Bytes())
+	return b.Bytes(), nil
+}
+
+// sendWriteRequests sends write requests in one multiple service message and checks that each of them succeeded.
+func (client *Client) sendWriteRequests(tags []string, reqs [][]byte) error {
+	qty := len(reqs)
 
 	reqitems := make([]CIPItem, 2)
 	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
@@ -158,50 +227,15 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	}
 
 	b := bytes.Buffer{}
-	// we now have to build up the jump table for each IOI.
-	// and pack all the IOIs together into b
+	// we now have to build up the jump table for each request.
+	// and pack all the requests together into b
 	jump_table := make([]uint16, qty)
 	jump_start := 2 + qty*2 // 2 bytes + 2 bytes per jump entry
-	for i := 0; i < qty; i++ {
+	for i, req := range reqs {
 		jump_table[i] = uint16(jump_start + b.Len())
-		ioi := iois[i]
-		h := msgCIPMultiIOIHeader{
-			Service: CIPService_Write,
-			Size:    byte(len(ioi.Buffer) / 2),
-		}
-		f := msgCIPWriteIOIFooter{
-			DataType: uint16(types[i]),
-			Elements: 1,
-		}
-		//f := msgCIPIOIFooter{
-		//Elements: 1,
-		//}
-		err := binary.Write(&b, binary.LittleEndian, h)
-		if err != nil {
-			return fmt.Errorf("problem writing udt item header to buffer. %w", err)
-		}
-		b.Write(ioi.Buffer)
-		ftr_buf, err := Serialize(f)
-		if err != nil {
-			return fmt.Errorf("problem serializing footer for item %d: %w", i, err)
-		}
-		err = binary.Write(&b, binary.LittleEndian, ftr_buf.Bytes())
-		if err != nil {
-			return fmt.Errorf("problem writing udt item footer to buffer. %w", err)
-		}
-		item_buf, err := Serialize(tag_str[tags[i]])
-		if err != nil {
-			return fmt.Errorf("problem serializing %v: %w", tags[i], err)
-		}
-		err = binary.Write(&b, binary.LittleEndian, item_buf.Bytes())
-		if err != nil {
-			return fmt.Errorf("problem writing udt tag name to buffer. %w", err)
-		}
+		b.Write(req)
 	}
 
-	// right now I'm putting the IOI data into the cip Item, but I suspect it might actually be that the readsequencer is
-	// the item's data and the service code actually starts the next portion of the message.  But the item's header length reflects
-	// the total data so maybe not.
 	reqitems[1] = CIPItem{Header: cipItemHeader{ID: cipItem_ConnectedData}}
 	err := reqitems[1].Serialize(ioi_header, jump_table, &b)
 	if err != nil {
@@ -212,13 +246,57 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	if err != nil {
 		return err
 	}
-	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
+	_, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
 	if err != nil {
 		return err
 	}
-	_ = hdr
-	_ = data
-	//TODO: do something with the result here!
 
+	result_header := msgCIPResultHeader{}
+	err = binary.Read(data, binary.LittleEndian, &result_header)
+	if err != nil {
+		return fmt.Errorf("problem reading write result header. %w", err)
+	}
+	items, err := readReplyItems(data)
+	if err != nil {
+		return fmt.Errorf("problem reading items from write, %w", err)
+	}
+	var hdr msgWriteResultHeader
+	err = items[1].DeSerialize(&hdr)
+	if err != nil {
+		return fmt.Errorf("problem deserializing write response header, %w", err)
+	}
+	if hdr.Status != CIPStatus_OK {
+		return fmt.Errorf("got status %v instead of 0 in write response", hdr.Status)
+	}
+
+	// offsets of the replies count from here
+	results := items[1].Rest()
+	count, err := items[1].Uint16()
+	if err != nil {
+		return fmt.Errorf("problem reading number of write results, %w", err)
+	}
+	if int(count) != qty {
+		return fmt.Errorf("wrote %d tags but got %d results", qty, count)
+	}
+	for i, tag := range tags {
+		offset, err := items[1].Uint16()
+		if err != nil {
+			return fmt.Errorf("problem reading write result of %s, %w", tag, err)
+		}
+		var result msgUnconnWriteResultHeader
+		if int(offset) > len(results) {
+			return fmt.Errorf("the write result of %s is missing", tags[i])
+		}
+		err = binary.Read(bytes.NewReader(results[offset:]), binary.LittleEndian, &result)
+		if err != nil {
+			return fmt.Errorf("problem reading write result of %s, %w", tag, err)
+		}
+		if result.Service != CIPService_Write.AsResponse() {
+			return fmt.Errorf("the write result of %s is for service %v", tag, result.Service)
+		}
+		if result.Status != CIPStatus_OK {
+			return fmt.Errorf("got status %v instead of 0 when writing %s", result.Status, tag)
+		}
+	}
 	return nil
 }
-- 
2.43.0


From 5de35e3ae7aa39235f57d5a9f74e80579edc0881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 15/74] fix: refuse tag paths which cannot be addressed and
 read bits 32 to 63

An index that could not be parsed was dropped or read as 0, so another element
was accessed, and bits above 31 of a LINT were taken for a member name.
---
 ioi.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/ioi.go b/ioi.go
index 0ae72ff..47cfd23 100644
--- a/ioi.go
+++ b/ioi.go
@@ -51,7 +51,7 @@ func (tag *tagPartDescriptor) Parse(tagpath string) error {
 			parts := strings.Split(arr_access_text, ",")
 			tag.Array_Order = make([]int, len(parts))
 			for i, part := range parts {
-				tag.Array_Order[i], err = strconv.Atoi(part)
+				tag.Array_Order[i], err = strconv.Atoi(strings.TrimSpace(part))
 				if err != nil {
 					return fmt.Errorf("could't parse %v to an array position. %w", arr_access_text, err)
 				}
@@ -59,7 +59,7 @@ func (tag *tagPartDescriptor) Parse(tagpath string) error {
 
 		} else {
 			tag.Array_Order = make([]int, 1)
-			tag.Array_Order[0], err = strconv.Atoi(arr_access_text)
+			tag.Array_Order[0], err = strconv.Atoi(strings.TrimSpace(arr_access_text))
 			if err != nil {
 				return fmt.Errorf("could't parse %v to an array position. %w", arr_access_text, err)
 			}
@@ -146,10 +146,13 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 	// we'll build this byte structure up as we go.
 	ioi.Buffer = make([]byte, 0, defaultIOIBufferSize)
 
-	for _, tag_part := range tag_array {
+	for i, tag_part := range tag_array {
 		if strings.HasSuffix(tag_part, "]") {
 			// part of an array
 			start_index := strings.Index(tag_part, "[")
+			if start_index < 0 {
+				return nil, fmt.Errorf("tag %q has a ']' without a '['", tagpath)
+			}
 			ioi_part, err := marshalIOIPart(tag_part[0:start_index])
 			if err != nil {
 				return nil, err
@@ -162,7 +165,10 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 
 			t, err := parse_tag_name(tag_part)
 			if err != nil {
-				client.Logger.Warn("problem parsing path", "error", err)
+				return nil, fmt.Errorf("problem parsing path of tag %q: %w", tagpath, err)
+			}
+			if t.Array_Order == nil {
+				return nil, fmt.Errorf("tag %q does not have a valid array index", tagpath)
 			}
 
 			for _, order_size := range t.Array_Order {
@@ -198,7 +204,7 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 		} else {
 			// not part of an array
 			bit_access, err := strconv.Atoi(tag_part)
-			if err == nil && bit_access <= 31 {
+			if err == nil && bit_access >= 0 && bit_access <= 63 && i > 0 && i == len(tag_array)-1 {
 				// This is a bit access.
 				// we won't do anything for now and will just parse the
 				// bit out of the word when that time comes.
@@ -219,6 +225,10 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 
 	}
 
+	if len(ioi.Buffer) > 2*255 {
+		// its length in words has to fit a byte
+		return nil, fmt.Errorf("tag path %q is too long", tagpath)
+	}
 	client.ioi_cache[tagpath] = ioi
 	return
 }
@@ -229,6 +239,9 @@ func marshalIOIPart(tagpath string) ([]byte, error) {
 		return nil, fmt.Errorf("could not parse tag path: %w", err)
 	}
 	tag_size := len(t.BasePath)
+	if tag_size > 255 {
+		return nil, fmt.Errorf("tag name %q is too long", t.BasePath)
+	}
 	need_extend := false
 	if tag_size%2 == 1 {
 		need_extend = true
-- 
2.43.0


From 46a449722cecce7df4acc36328a440e3cab008e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 16/74] fix: list all pages of tags and report pages which fail

ListSubTags dropped all pages but the first, a page was asked for again from
the last tag already known, which never ended when a page had only one tag or
only hidden ones, error statuses were ignored, programs were listed as tags by
the fallback and known tags were written while reads looked them up.
---
 listallprograms.go |  8 +++++---
 listalltags.go     | 23 +++++++++++++++++++----
 listsubtags.go     | 17 ++++++++++++-----
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/listallprograms.go b/listallprograms.go
index b29c645..4b1ee3d 100644
--- a/listallprograms.go
+++ b/listallprograms.go
@@ -31,15 +31,17 @@ func (client *Client) ListAllPrograms() error {
 
 	results := make(map[string]*KnownProgram)
 
-	for {
+	for len(resp.Rest()) > 0 {
 		var hdr listprograms_resp_header
 		err = resp.DeSerialize(&hdr)
 		if err != nil {
-			client.Logger.Debug("got last item")
-			break
+			return fmt.Errorf("problem reading program header: %w", err)
 		}
 
 		// read the name
+		if int64(hdr.NameLen) > int64(len(resp.Rest())) {
+			return fmt.Errorf("program name of length %d is cut short", hdr.NameLen)
+		}
 		name := make([]byte, hdr.NameLen)
 		err = resp.DeSerialize(&name)
 		if err != nil {
diff --git a/listalltags.go b/listalltags.go
index 60ede2d..cf7f58a 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -212,6 +212,10 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 	if err != nil {
 		return fmt.Errorf("problem reading list instance header. %w", err)
 	}
+	if data_hdr.Status != uint16(CIPStatus_OK) && data_hdr.Status != uint16(CIPStatus_PartialTransfer) {
+		return fmt.Errorf("problem listing tags: %w", CIPStatusError{Status: CIPStatus(data_hdr.Status)})
+	}
+	next_instance := start_instance
 
 	tag_hdr := new(msgtagResultDataHeader)
 	tag_ftr := new(TagInfo)
@@ -221,7 +225,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		if err != nil {
 			return fmt.Errorf("problem reading tag header. %w", err)
 		}
-		start_instance = tag_hdr.InstanceID
+		next_instance = tag_hdr.InstanceID + 1
 
 		tag_name := make([]byte, tag_hdr.NameLength)
 		err = binary.Read(data2, binary.LittleEndian, &tag_name)
@@ -282,7 +286,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 				if err != nil {
 					return fmt.Errorf("problem listing sub tags for %s: %w", p.Name, err)
 				}
-
+				continue
 			}
 		}
 
@@ -309,12 +313,16 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 			}
 		}
 
-		client.KnownTags[strings.ToLower(string(tag_name))] = kt
+		client.addKnownTag(kt)
 
 	}
 
 	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) { //} && start_instance < 200 {
-		err = client.ListAllTags(start_instance)
+		if next_instance <= start_instance {
+			// asking for the same tags again would go on forever.
+			return fmt.Errorf("listing tags from instance %d made no progress", start_instance)
+		}
+		err = client.ListAllTags(next_instance)
 		if err != nil {
 			return err
 		}
@@ -323,6 +331,13 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 	return nil
 }
 
+// addKnownTag stores a listed tag. Reads look for known tags while they hold the same lock.
+func (client *Client) addKnownTag(kt KnownTag) {
+	client.ioi_cache_lock.Lock()
+	defer client.ioi_cache_lock.Unlock()
+	client.KnownTags[strings.ToLower(kt.Name)] = kt
+}
+
 // per 1756-PM020H-EN-P page 43 there are some conditions in which we should discard the tags
 // because they aren't valid for reading/writing.
 func isValidTag(tag_string string, tag_ftr TagInfo) bool {
diff --git a/listsubtags.go b/listsubtags.go
index 85def63..1b253a7 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
-	"strings"
 )
 
 // the gist here is that we want to do a fragmented read (since there will undoubtedly be more than one packet's worth)
@@ -85,6 +84,10 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 	if err != nil {
 		return nil, fmt.Errorf("problem reading tag header. %w", err)
 	}
+	if data_hdr.Status != uint16(CIPStatus_OK) && data_hdr.Status != uint16(CIPStatus_PartialTransfer) {
+		return nil, fmt.Errorf("problem listing sub tags: %w", CIPStatusError{Status: CIPStatus(data_hdr.Status)})
+	}
+	next_instance := start_instance
 
 	tag_hdr := new(msgtagResultDataHeader)
 	tag_ftr := new(TagInfo)
@@ -94,6 +97,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		if err != nil {
 			return nil, fmt.Errorf("problem reading tag header. %w", err)
 		}
+		next_instance = tag_hdr.InstanceID + 1
 		newtag_bytes := make([]byte, tag_hdr.NameLength)
 		err = binary.Read(data2, binary.LittleEndian, &newtag_bytes)
 		if err != nil {
@@ -135,15 +139,18 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		if !isValidTag(string(newtag_bytes), *tag_ftr) {
 			continue
 		}
-		client.KnownTags[strings.ToLower(newtag_name)] = kt
+		client.addKnownTag(kt)
 		new_kts = append(new_kts, kt)
 
-		start_instance = tag_hdr.InstanceID
-
 	}
 
 	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) {
-		_, err = client.ListSubTags(Program, start_instance)
+		if next_instance <= start_instance {
+			// asking for the same tags again would go on forever.
+			return new_kts, fmt.Errorf("listing sub tags from instance %d made no progress", start_instance)
+		}
+		more_kts, err := client.ListSubTags(Program, next_instance)
+		new_kts = append(new_kts, more_kts...)
 		if err != nil {
 			return new_kts, fmt.Errorf("problem listing subtags. %w", err)
 		}
-- 
2.43.0


From c2ec65c9d853203ad697a2f59ea079f4ba79866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 17/74] fix: read templates completely and report their errors

---
 listmembers.go | 162 +++++++++++++++++++++++++++++--------------------
 1 file changed, 96 insertions(+), 66 deletions(-)

diff --git a/listmembers.go b/listmembers.go
index 9b9d15b..ad52e1b 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -128,6 +128,12 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 	if err != nil {
 		return result, fmt.Errorf("problem reading result. %w", err)
 	}
+	if result.Status != CIPStatus_OK {
+		return result, CIPStatusError{Status: result.Status}
+	}
+	if result.SizeWords_Status != 0 || result.SizeBytes_Status != 0 || result.MemberCount_Status != 0 || result.Handle_Status != 0 {
+		return result, fmt.Errorf("template %d does not have all attributes", str_instance)
+	}
 
 	return result, nil
 }
@@ -165,73 +171,11 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		return UDTDescriptor{}, fmt.Errorf("couldn't get template info. %w", err)
 	}
 
-	reqitems := make([]CIPItem, 2)
-	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
-
-	p, err := Serialize(
-		CipObject_Template, CIPInstance(str_instance),
-		//cipObject_Symbol, cipInstance(start_instance),
-	)
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't build path. %w", err)
-	}
-
-	readmsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
-		Service:       CIPService_Read,
-		PathLength:    byte(p.Len() / 2),
-	}
-
-	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
-	err = reqitems[1].Serialize(p.Bytes())
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing path: %w", err)
-	}
-	start_offset := uint32(0)
-	read_length := uint16(template_info.SizeWords*4 - 23)
-	err = reqitems[1].Serialize(start_offset)
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing item start offset: %w", err)
-	}
-	err = reqitems[1].Serialize(read_length)
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing item read length: %w", err)
-	}
-
-	itemdata, err := serializeItems(reqitems)
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing item data: %w", err)
-	}
-	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
+	template, err := client.readTemplate(str_instance, template_info.SizeWords)
 	if err != nil {
 		return UDTDescriptor{}, err
 	}
-	_ = hdr
-	_ = data
-	//data_hdr := ListInstanceHeader{}
-	//binary.Read(data, binary.LittleEndian, &data_hdr)
-
-	// first six bytes are zero.
-	padding := make([]byte, 6)
-	_, err = data.Read(padding)
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't read padding. %w", err)
-	}
-
-	resp_items, err := readReplyItems(data)
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't parse items. %w", err)
-	}
-
-	// get ready to read tag info from item 1 data
-	data2 := bytes.NewBuffer(resp_items[1].Data)
-
-	mihdr := msgMemberInfoHdr{}
-	err = binary.Read(data2, binary.LittleEndian, &mihdr)
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't read member info header. %w", err)
-	}
+	data2 := bytes.NewBuffer(template)
 
 	memberInfos := make([]msgMemberInfo, template_info.MemberCount)
 	err = binary.Read(data2, binary.LittleEndian, &memberInfos)
@@ -249,10 +193,10 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		return UDTDescriptor{}, fmt.Errorf("couldn't read struct name. %w", err)
 	}
 
+	struct_name = strings.TrimSuffix(struct_name, "\x00")
 	if strings.Contains(struct_name, ";") {
 		struct_name = strings.Split(struct_name, ";")[0]
 	}
-	struct_name = struct_name[:len(struct_name)-1]
 	descriptor.Name = struct_name
 
 	for i := 0; i < int(template_info.MemberCount); i++ {
@@ -261,7 +205,7 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		if err != nil && fieldname == "" {
 			return UDTDescriptor{}, fmt.Errorf("couldn't read field name. %w", err)
 		}
-		fieldname = fieldname[:len(fieldname)-1]
+		fieldname = strings.TrimSuffix(fieldname, "\x00")
 
 		descriptor.Members[i].Name = fieldname
 		descriptor.Members[i].Info = memberInfos[i]
@@ -281,6 +225,92 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 	return descriptor, nil
 }
 
+// readTemplate reads the definition of a template, in as many parts as the controller sends it.
+func (client *Client) readTemplate(str_instance uint32, size_words uint32) ([]byte, error) {
+	template := make([]byte, 0)
+	for {
+		reqitems := make([]CIPItem, 2)
+		//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
+		reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+
+		p, err := Serialize(
+			CipObject_Template, CIPInstance(str_instance),
+			//cipObject_Symbol, cipInstance(start_instance),
+		)
+		if err != nil {
+			return nil, fmt.Errorf("couldn't build path. %w", err)
+		}
+
+		readmsg := msgCIPConnectedServiceReq{
+			SequenceCount: uint16(sequencer()),
+			Service:       CIPService_Read,
+			PathLength:    byte(p.Len() / 2),
+		}
+
+		reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
+		err = reqitems[1].Serialize(p.Bytes())
+		if err != nil {
+			return nil, fmt.Errorf("problem serializing path: %w", err)
+		}
+		start_offset := uint32(len(template))
+		read_length := uint16(size_words*4 - 23 - start_offset)
+		err = reqitems[1].Serialize(start_offset)
+		if err != nil {
+			return nil, fmt.Errorf("problem serializing item start offset: %w", err)
+		}
+		err = reqitems[1].Serialize(read_length)
+		if err != nil {
+			return nil, fmt.Errorf("problem serializing item read length: %w", err)
+		}
+
+		itemdata, err := serializeItems(reqitems)
+		if err != nil {
+			return nil, fmt.Errorf("problem serializing item data: %w", err)
+		}
+		hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
+		if err != nil {
+			return nil, err
+		}
+		_ = hdr
+		_ = data
+		//data_hdr := ListInstanceHeader{}
+		//binary.Read(data, binary.LittleEndian, &data_hdr)
+
+		// first six bytes are zero.
+		padding := make([]byte, 6)
+		_, err = data.Read(padding)
+		if err != nil {
+			return nil, fmt.Errorf("couldn't read padding. %w", err)
+		}
+
+		resp_items, err := readReplyItems(data)
+		if err != nil {
+			return nil, fmt.Errorf("couldn't parse items. %w", err)
+		}
+
+		// get ready to read tag info from item 1 data
+		data2 := bytes.NewBuffer(resp_items[1].Data)
+
+		mihdr := msgMemberInfoHdr{}
+		err = binary.Read(data2, binary.LittleEndian, &mihdr)
+		if err != nil {
+			return nil, fmt.Errorf("couldn't read member info header. %w", err)
+		}
+		if mihdr.Status != uint16(CIPStatus_OK) && mihdr.Status != uint16(CIPStatus_PartialTransfer) {
+			return nil, fmt.Errorf("problem reading template %d: %w", str_instance, CIPStatusError{Status: CIPStatus(mihdr.Status)})
+		}
+		part := data2.Bytes()
+		template = append(template, part...)
+		if mihdr.Status == uint16(CIPStatus_OK) {
+			return template, nil
+		}
+		if len(part) == 0 {
+			// asking again at the same offset would go on forever.
+			return nil, fmt.Errorf("reading template %d made no progress", str_instance)
+		}
+	}
+}
+
 // full descriptor of a struct in the controller.
 // could be a UDT or a builtin struct like a TON
 type UDTDescriptor struct {
-- 
2.43.0


From f7f7b0e24ed35fd6e7ed89651e7f425e0c066abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 18/74] fix: do not send a request prepared for an earlier
 connection

---
 sendreceive.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sendreceive.go b/sendreceive.go
index 4a3bbd8..add476d 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -87,6 +87,9 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 	if err != nil {
 		return eipHeader{}, nil, fmt.Errorf("error preparing to send message: %w", err)
 	}
+	if cmd == cipCommandSendUnitData && !client.isForCurrentConnection(buffer) {
+		return eipHeader{}, nil, fmt.Errorf("the connection for which the request was prepared is gone")
+	}
 
 	err = client.sendData(buffer)
 	if err != nil {
@@ -105,6 +108,17 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 	return hdr, buf, nil
 }
 
+// isForCurrentConnection tells whether the connection address of a connected message, which was prepared without
+// holding the mutex, is still that of the open connection. The mutex must be held.
+func (client *Client) isForCurrentConnection(msg []byte) bool {
+	// encapsulation header, interface handle, timeout, item count and the type and length of the address item
+	const addressPos = 24 + 4 + 2 + 2 + 2 + 2
+	if len(msg) < addressPos+4 {
+		return false
+	}
+	return binary.LittleEndian.Uint32(msg[addressPos:]) == client.OTNetworkConnectionID
+}
+
 // abandonConnection closes a network connection on which a request failed. Its reply may still be on the way, so
 // the connection must not be used for another request. The mutex must be held.
 func (client *Client) abandonConnection() {
-- 
2.43.0


From 3d7a6f94d93a3342408f9e0df405bbddd0935b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 19/74] fix: count each client's requests separately

The sequence count was shared by every client in the process, so another
client's traffic could bring it round to the count of this client's
previous request, which the target then answers with the earlier reply.
---
 client.go      | 16 ++++++++++------
 getattr.go     |  6 +++---
 listalltags.go |  2 +-
 listmembers.go |  4 ++--
 listsubtags.go |  2 +-
 partialread.go |  2 +-
 read.go        |  6 +++---
 udt_write.go   |  2 +-
 write.go       |  4 ++--
 9 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/client.go b/client.go
index 5b9ae84..1e16220 100644
--- a/client.go
+++ b/client.go
@@ -24,14 +24,15 @@ const (
 // won't get an error but it will return the last value you requested again.
 // You don't even have to keep incrementing it.  just going back and forth between 1 and 0 works OK.
 // Use sequencer() instead of accessing this directly to achieve that.
-var sequenceValue uint32 = 0
+//
+// Every client counts its own requests: with one count for all of them, other clients could take it once around
+// between two requests on a connection, which would then carry the same count.
+func (client *Client) sequencer() uint32 {
+	return client.requestSequence.Add(1)
+}
 
 func init() {
 	rand.Seed(time.Now().UnixMicro())
-	sequenceValue = rand.Uint32()
-}
-func sequencer() uint32 {
-	return atomic.AddUint32(&sequenceValue, 1)
 }
 
 // Defines parameters from the host CIP device that the client will connect to
@@ -99,6 +100,7 @@ type Client struct {
 	ConnectionSerialNumber uint16
 	Context                uint64 // fun fact - rockwell PLCs don't mind being rick rolled.
 	sequenceNumber         atomic.Uint32
+	requestSequence        atomic.Uint32 // use sequencer() to get the next value
 
 	cancel_keepalive chan struct{}
 
@@ -158,7 +160,7 @@ func NewClient(ip string) *Client {
 		Port:      portDefault,
 		Path:      path,
 	}
-	return &Client{
+	client := &Client{
 		Controller:         controller,
 		VendorId:           vendorIdDefault,
 		ConnectionSize:     connSizeLargeDefault,
@@ -175,6 +177,8 @@ func NewClient(ip string) *Client {
 		ioi_cache:          make(map[string]*tagIOI),
 		Logger:             NewLogger(),
 	}
+	client.requestSequence.Store(rand.Uint32())
+	return client
 
 }
 
diff --git a/getattr.go b/getattr.go
index de37b48..cb2b81c 100644
--- a/getattr.go
+++ b/getattr.go
@@ -111,7 +111,7 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	pl = pl / 2
 
 	readmsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
+		SequenceCount: uint16(client.sequencer()),
 		Service:       CIPService_GetAttributeSingle,
 		PathLength:    byte(pl),
 	}
@@ -256,7 +256,7 @@ func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ..
 	}
 
 	readMsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
+		SequenceCount: uint16(client.sequencer()),
 		Service:       CIPService_GetAttributeList,
 		PathLength:    byte(path.Len() / 2),
 	}
@@ -428,7 +428,7 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 
 	readmsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
+		SequenceCount: uint16(client.sequencer()),
 		Service:       service,
 		PathLength:    byte(len(path) / 2),
 	}
diff --git a/listalltags.go b/listalltags.go
index cf7f58a..5d930ed 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -152,7 +152,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 	}
 
 	readMsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
+		SequenceCount: uint16(client.sequencer()),
 		Service:       CIPService_GetInstanceAttributeList,
 		PathLength:    byte(path.Len() / 2),
 	}
diff --git a/listmembers.go b/listmembers.go
index ad52e1b..f3213bf 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -63,7 +63,7 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 	}
 
 	readmsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
+		SequenceCount: uint16(client.sequencer()),
 		Service:       CIPService_GetAttributeList,
 		PathLength:    byte(p.Len() / 2),
 	}
@@ -242,7 +242,7 @@ func (client *Client) readTemplate(str_instance uint32, size_words uint32) ([]by
 		}
 
 		readmsg := msgCIPConnectedServiceReq{
-			SequenceCount: uint16(sequencer()),
+			SequenceCount: uint16(client.sequencer()),
 			Service:       CIPService_Read,
 			PathLength:    byte(p.Len() / 2),
 		}
diff --git a/listsubtags.go b/listsubtags.go
index 1b253a7..47fd168 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -34,7 +34,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 	}
 
 	readmsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
+		SequenceCount: uint16(client.sequencer()),
 		Service:       CIPService_GetInstanceAttributeList,
 		PathLength:    byte(p.Len() / 2),
 	}
diff --git a/partialread.go b/partialread.go
index 0d89dfb..eaea1f4 100644
--- a/partialread.go
+++ b/partialread.go
@@ -94,7 +94,7 @@ func (client *Client) countIOIsThatFit(tags []tagDesc) (int, error) {
 	qty := len(tags)
 
 	ioi_header := msgCIPConnectedMultiServiceReq{
-		Sequence:     uint16(sequencer()),
+		Sequence:     uint16(client.sequencer()),
 		Service:      CIPService_MultipleService,
 		PathSize:     2,
 		Path:         [4]byte{0x20, 0x02, 0x24, 0x01},
diff --git a/read.go b/read.go
index 82aa662..ec0befb 100644
--- a/read.go
+++ b/read.go
@@ -422,7 +422,7 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 
 	readMsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
+		SequenceCount: uint16(client.sequencer()),
 		Service:       CIPService_Read,
 		PathLength:    byte(len(ioi.Bytes()) / 2),
 	}
@@ -830,7 +830,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 
 	ioi_header := msgCIPConnectedMultiServiceReq{
-		Sequence:     uint16(sequencer()),
+		Sequence:     uint16(client.sequencer()),
 		Service:      CIPService_MultipleService,
 		PathSize:     2,
 		Path:         [4]byte{0x20, 0x02, 0x24, 0x01},
@@ -1263,7 +1263,7 @@ func (client *Client) sendFragReadRequest(ioi *tagIOI, elements uint16, offset u
 	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 
 	readMsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(sequencer()),
+		SequenceCount: uint16(client.sequencer()),
 		Service:       CIPService_FragRead,
 		PathLength:    byte(len(ioi.Bytes()) / 2),
 	}
diff --git a/udt_write.go b/udt_write.go
index 4fc71ac..3ff36be 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -219,7 +219,7 @@ func (client *Client) sendWriteRequests(tags []string, reqs [][]byte) error {
 	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 
 	ioi_header := msgCIPConnectedMultiServiceReq{
-		Sequence:     uint16(sequencer()),
+		Sequence:     uint16(client.sequencer()),
 		Service:      CIPService_MultipleService,
 		PathSize:     2,
 		Path:         [4]byte{0x20, 0x02, 0x24, 0x01},
diff --git a/write.go b/write.go
index 0a06505..d1cead2 100644
--- a/write.go
+++ b/write.go
@@ -123,7 +123,7 @@ func (client *Client) write_udt(tag string, value any) error {
 	elements := uint16(1)
 
 	ioi_header := msgCIPIOIHeader{
-		Sequence: uint16(sequencer()),
+		Sequence: uint16(client.sequencer()),
 		Service:  CIPService_Write,
 		Size:     byte(len(ioi.Buffer) / 2),
 	}
@@ -233,7 +233,7 @@ func (client *Client) write_single(tag string, value any) error {
 	}
 
 	ioi_header := msgCIPIOIHeader{
-		Sequence: uint16(sequencer()),
+		Sequence: uint16(client.sequencer()),
 		Service:  CIPService_Write,
 		Size:     byte(len(ioi.Buffer) / 2),
 	}
-- 
2.43.0


From 1c4966c20061eca7c96131794c589153e3e465c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 20/74] fix: list the programs found by their entries on every
 page

---
 listalltags.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/listalltags.go b/listalltags.go
index 5d930ed..aa8adb0 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -117,8 +117,12 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 	if start_instance < minimumTagValue {
 		start_instance = minimumTagValue
 	}
+	return client.listAllTags(start_instance, false)
+}
 
-	fallbackProgramNames := false
+// listAllTags lists the tags from an instance on. fallbackProgramNames is set if the programs could not be listed
+// directly and are found by their entries between the tags.
+func (client *Client) listAllTags(start_instance uint32, fallbackProgramNames bool) error {
 	// if we are starting from scratch, we should list all the programs first so we have
 	// their instance IDs when we come across program scoped tags.
 	if start_instance == 1 {
@@ -322,7 +326,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 			// asking for the same tags again would go on forever.
 			return fmt.Errorf("listing tags from instance %d made no progress", start_instance)
 		}
-		err = client.ListAllTags(next_instance)
+		err = client.listAllTags(next_instance, fallbackProgramNames)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From ab3be5d3cb209c386d6fd3ece976a06c5db589a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:45 +0000
Subject: [PATCH 21/74] fix: data-table buffers keep the PLC's indices after
 removals and split large adds

---
 datatable.go | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/datatable.go b/datatable.go
index 06bbbe5..42fabfd 100644
--- a/datatable.go
+++ b/datatable.go
@@ -45,6 +45,9 @@ type DataTableBuffer struct {
 
 	created bool // true after successful Create
 	synched bool // internal flag to track if tags have been added on this side but not yet sent to PLC via AddTag/AddTags
+
+	// lastIndex is the highest index the PLC has given out.  Indices are not used again when tags are removed.
+	lastIndex uint16
 }
 
 // InstanceID returns the PLC-assigned instance ID for this datatable buffer.
@@ -395,24 +398,54 @@ func (buf *DataTableBuffer) AddTag(tagName string, cipType CIPType) error {
 // Run through the tags in the buffer that have not yet been sent to the PLC and send them in a batch via DataTableAddTags.
 // marking them as synched if successful. This is called automatically by ReadAll if there are unsynched tags, but can be
 // called manually if you want to control when the tags are sent to the PLC (e.g. to group multiple AddTag calls into one batch).
+//
+// More tags than fit in one request are sent in several batches.
 func (buf *DataTableBuffer) SyncTags() error {
+	if !buf.created {
+		return fmt.Errorf("datatable buffer not created")
+	}
+
+	// sequence, service, path and header of the request
+	const overhead = 15
+	size := overhead
 	entries := make([]addTagEntry, 0)
 	for i := range buf.tags {
 		if buf.tags[i].synched {
 			continue
 		}
+		n := 3 + len(buf.tags[i].ioi)
+		// the tag count of a request is a single byte
+		if len(entries) == 255 || (len(entries) > 0 && size+n > int(buf.client.ConnectionSize)) {
+			if err := buf.addEntries(entries); err != nil {
+				return err
+			}
+			entries = entries[:0]
+			size = overhead
+		}
 		entries = append(entries, addTagEntry{buf.tags[i].DataTypeSize, buf.tags[i].ioi, i})
+		size += n
 	}
+	if len(entries) > 0 {
+		if err := buf.addEntries(entries); err != nil {
+			return err
+		}
+	}
+	buf.synched = true
+	return nil
+}
 
+// addEntries sends one batch of tags to the PLC and records the batch and the indices it got.
+func (buf *DataTableBuffer) addEntries(entries []addTagEntry) error {
 	batchID, err := buf.client.DataTableAddTags(buf.instanceID, entries)
 	if err != nil {
 		return fmt.Errorf("could not add tags to buffer: %w", err)
 	}
 	for _, entry := range entries {
+		buf.lastIndex++
+		buf.tags[entry.index].index = buf.lastIndex
 		buf.tags[entry.index].batchID = batchID
 		buf.tags[entry.index].synched = true
 	}
-	buf.synched = true
 	return nil
 }
 
@@ -663,9 +696,12 @@ func (buf *DataTableBuffer) RemoveTag(tagName string) error {
 		return fmt.Errorf("tag %q not found in buffer", tagName)
 	}
 
-	err := buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)
-	if err != nil {
-		return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
+	// a tag that has not been sent to the PLC yet only has to be forgotten
+	if buf.tags[idx].synched {
+		err := buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)
+		if err != nil {
+			return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
+		}
 	}
 
 	buf.tags = append(buf.tags[:idx], buf.tags[idx+1:]...)
-- 
2.43.0


From 0fb07f15d9a5b787bd5f67bf0d468dc7024f405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:04 +0000
Subject: [PATCH 22/74] fix: elements of an array without an index get names of
 their own

---
 taggroup.go | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/taggroup.go b/taggroup.go
index de7644d..0e02fb2 100644
--- a/taggroup.go
+++ b/taggroup.go
@@ -124,22 +124,12 @@ func expandArrayTag(baseName string, count int) []string {
 	}
 
 	tag, err := parse_tag_name(baseName)
-	if err != nil || tag.Array_Order == nil || len(tag.Array_Order) == 0 {
-		// No array index found — just return the base name repeated.
-		// This shouldn't happen in normal use.
-		result := make([]string, count)
-		for i := range result {
-			result[i] = baseName
-		}
-		return result
-	}
-
-	// Find the bracket position to reconstruct the name
 	bracketPos := strings.LastIndex(baseName, "[")
-	if bracketPos < 0 {
+	if err != nil || len(tag.Array_Order) == 0 || bracketPos < 0 || !strings.HasSuffix(baseName, "]") {
+		// No array index at the end — the elements start with the first one.
 		result := make([]string, count)
 		for i := range result {
-			result[i] = baseName
+			result[i] = fmt.Sprintf("%s[%d]", baseName, i)
 		}
 		return result
 	}
-- 
2.43.0


From 273fc5acbd22fb058c85f2c0383d91c63ad65e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:54 +0000
Subject: [PATCH 23/74] fix: removed or refused tags of a group no longer break
 typed reads of a data-table buffer

---
 datatable.go | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/datatable.go b/datatable.go
index 42fabfd..f869599 100644
--- a/datatable.go
+++ b/datatable.go
@@ -705,6 +705,21 @@ func (buf *DataTableBuffer) RemoveTag(tagName string) error {
 	}
 
 	buf.tags = append(buf.tags[:idx], buf.tags[idx+1:]...)
+
+	// an array that has lost one of its elements can't be put together any more
+	for _, tag := range buf.tags {
+		if tag.Name == tagName {
+			return nil
+		}
+	}
+	for baseName, expanded := range buf.expansions {
+		for _, name := range expanded {
+			if name == tagName {
+				delete(buf.expansions, baseName)
+				break
+			}
+		}
+	}
 	return nil
 }
 
@@ -750,23 +765,29 @@ func (buf *DataTableBuffer) AddTagGroup(group *TagGroup, args ...any) error {
 
 	// Collect all resolved tag names with their types for batched AddTags.
 	tagMap := make(map[string]CIPType)
+	expansions := make(map[string][]string)
 
 	for _, def := range group.defs {
 		resolvedName := formatName(def.Name, args...)
 
 		if def.Elements > 1 {
 			expanded := expandArrayTag(resolvedName, def.Elements)
-			buf.expansions[resolvedName] = expanded
+			expansions[resolvedName] = expanded
 			for _, name := range expanded {
 				tagMap[name] = def.Type
 			}
 		} else {
-			buf.expansions[resolvedName] = []string{resolvedName}
 			tagMap[resolvedName] = def.Type
 		}
 	}
 
-	return buf.AddTags(tagMap)
+	if err := buf.AddTags(tagMap); err != nil {
+		return err
+	}
+	for name, expanded := range expansions {
+		buf.expansions[name] = expanded
+	}
+	return nil
 }
 
 // ---------------------------------------------------------------------------
@@ -811,6 +832,7 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 	vf := reflect.VisibleFields(T)
 	tagMap := make(map[string]CIPType)
 	varPtrs := make(map[string]any)
+	expansions := make(map[string][]string)
 
 	for i := range vf {
 		field := vf[i]
@@ -827,7 +849,7 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 		// Handle slices/arrays (multi-element tags)
 		if elements > 1 {
 			expanded := expandArrayTag(tagPath, elements)
-			buf.expansions[tagPath] = expanded
+			expansions[tagPath] = expanded
 			for idx, name := range expanded {
 				tagMap[name] = cipType
 				// For slices, set Var to the element pointer
@@ -836,7 +858,6 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 				}
 			}
 		} else {
-			buf.expansions[tagPath] = []string{tagPath}
 			tagMap[tagPath] = cipType
 			varPtrs[tagPath] = fieldVal.Addr().Interface()
 		}
@@ -848,6 +869,10 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 		return err
 	}
 
+	for name, expanded := range expansions {
+		buf.expansions[name] = expanded
+	}
+
 	// Set Var pointers for each tag
 	for i := range buf.tags {
 		if ptr, ok := varPtrs[buf.tags[i].Name]; ok {
-- 
2.43.0


From 83fe4fa632233169cc781ff4477dc3b4fc4e0b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 24/74] fix: tagged structs with embedded structs or slices of
 one element work in data-table buffers

---
 datatable.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/datatable.go b/datatable.go
index f869599..7cfe345 100644
--- a/datatable.go
+++ b/datatable.go
@@ -843,7 +843,7 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 		if args != nil {
 			tagPath = formatName(tagPath, args...)
 		}
-		fieldVal := v.Field(i)
+		fieldVal := v.FieldByIndex(field.Index)
 		cipType, elements := GoVarToCIPType(fieldVal.Interface())
 
 		// Handle slices/arrays (multi-element tags)
@@ -859,7 +859,11 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 			}
 		} else {
 			tagMap[tagPath] = cipType
-			varPtrs[tagPath] = fieldVal.Addr().Interface()
+			if fieldVal.Kind() == reflect.Slice && fieldVal.Len() == 1 {
+				varPtrs[tagPath] = fieldVal.Index(0).Addr().Interface()
+			} else {
+				varPtrs[tagPath] = fieldVal.Addr().Interface()
+			}
 		}
 	}
 
-- 
2.43.0


From 3aacbc018af938a3bde9832ce54b436f0dfc0f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 25/74] fix: a data-table read stores nothing before the whole
 reply is known to be good

---
 datatable.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datatable.go b/datatable.go
index 7cfe345..7e7a60d 100644
--- a/datatable.go
+++ b/datatable.go
@@ -593,10 +593,14 @@ func (buf *DataTableBuffer) ReadAll() (map[string]any, error) {
 			return nil, fmt.Errorf("could not decode value for tag %q: %w", tag.Name, err)
 		}
 		result[tag.Name] = value
+	}
+
+	// The whole reply is good: nothing is stored before that is known.
+	for _, tag := range sorted {
 		if tag.Var != nil {
 			// If the caller has set the Var field, also store the value there for direct access.
 			// use reflection to set the value of the caller's variable, if possible
-			err := setGoVar(tag.Var, value)
+			err := setGoVar(tag.Var, result[tag.Name])
 			if err != nil {
 				return nil, fmt.Errorf("could not set Var field for tag %q: %w", tag.Name, err)
 			}
-- 
2.43.0


From b9f7f200db9ff73e6f0133f76c35f33cbda8b7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:57 +0000
Subject: [PATCH 26/74] fix: refuse to write strings that a STRING cannot hold,
 and nil

---
 udt_write.go |  4 ++++
 write.go     | 30 ++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/udt_write.go b/udt_write.go
index 3ff36be..83a420e 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -170,6 +170,10 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 
 // writeRequest builds the write service request for one tag.
 func (client *Client) writeRequest(tag string, value any) ([]byte, error) {
+	err := checkWriteValue(value)
+	if err != nil {
+		return nil, fmt.Errorf("could not write %s: %w", tag, err)
+	}
 	datatype, elements := GoVarToCIPType(value)
 	ioi, err := client.newIOI(tag, datatype)
 	if err != nil {
diff --git a/write.go b/write.go
index d1cead2..e5aff82 100644
--- a/write.go
+++ b/write.go
@@ -103,6 +103,10 @@ func (client *Client) Write(tag string, value any) error {
 	if err != nil {
 		return fmt.Errorf("could not start write: %w", err)
 	}
+	err = checkWriteValue(value)
+	if err != nil {
+		return fmt.Errorf("could not write %s: %w", tag, err)
+	}
 	v := reflect.ValueOf(value)
 	if v.Kind() == reflect.Struct {
 		return client.write_udt(tag, value)
@@ -110,6 +114,32 @@ func (client *Client) Write(tag string, value any) error {
 	return client.write_single(tag, value)
 }
 
+// the number of characters a STRING tag can hold
+const maxStringLength = 82
+
+// checkWriteValue returns an error if the value can't be sent to the PLC as it is
+func checkWriteValue(value any) error {
+	tooLong := func(s string) error {
+		if len(s) > maxStringLength {
+			return fmt.Errorf("string of length %d is longer than the maximum of %d", len(s), maxStringLength)
+		}
+		return nil
+	}
+	switch x := value.(type) {
+	case nil:
+		return fmt.Errorf("there is no value")
+	case string:
+		return tooLong(x)
+	case []string:
+		for i := range x {
+			if err := tooLong(x[i]); err != nil {
+				return fmt.Errorf("element %d: %w", i, err)
+			}
+		}
+	}
+	return nil
+}
+
 // write a single UDT struct to a tag.  The UDT *must* be named the same as the struct type and have the same field types.
 // field names don't matter but type names do.  go types will be converted to CIP types as appropriate, but any nested structs
 // must be named the same as the UDT on the plc.
-- 
2.43.0


From 3a327fab1dc282cc69d9f8c266b9c6716ce262c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 27/74] fix: a BOOL tag has a bit 0 only

---
 read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index ec0befb..7005268 100644
--- a/read.go
+++ b/read.go
@@ -534,7 +534,7 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 		return str, nil
 	}
 	if elements == 1 {
-		if datatype == CIPTypeBOOL && hdr2.Type != CIPTypeBOOL && ioi.BitAccess {
+		if datatype == CIPTypeBOOL && ioi.BitAccess {
 			// we have requested a bool from some other type.  Maybe a bit access?
 			value, err := readValue(hdr2.Type, &items[1])
 			if err != nil {
@@ -990,7 +990,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 			return nil, fmt.Errorf("problem reading %v. Status %v", tags[i], rHdr.Status)
 		}
 		if tags[i].Elements == 1 {
-			if tags[i].TagType == CIPTypeBOOL && rHdr.Type != CIPTypeBOOL && iois[i].BitAccess {
+			if tags[i].TagType == CIPTypeBOOL && iois[i].BitAccess {
 				// we have requested a bool from some other type.  Maybe a bit access?
 				value, err := readValue(rHdr.Type, myBytes)
 				if err != nil {
-- 
2.43.0


From db98b8a181011106bc720da4b28092574d4f2484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:37 +0000
Subject: [PATCH 28/74] fix: refuse an array index which does not fit 32 bits

---
 ioi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ioi.go b/ioi.go
index 47cfd23..9a880c0 100644
--- a/ioi.go
+++ b/ioi.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -186,6 +187,8 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 					if err != nil {
 						return nil, fmt.Errorf("problem reading index part. %w", err)
 					}
+				} else if int64(order_size) > math.MaxUint32 {
+					return nil, fmt.Errorf("index %d of tag %q is too large", order_size, tagpath)
 				} else {
 					// uint16, uint32
 					index_part0 := []uint16{uint16(cipElement_32bit)}
-- 
2.43.0


From 8aabf21ae644dadb98fc6d3b4049b8b175aeb50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:50 +0000
Subject: [PATCH 29/74] fix: forget the tags of an earlier listing when listing
 anew

---
 listalltags.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/listalltags.go b/listalltags.go
index aa8adb0..c2053eb 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -136,6 +136,7 @@ func (client *Client) listAllTags(start_instance uint32, fallbackProgramNames bo
 				return fmt.Errorf("problem listing programs: %w", err)
 			}
 		}
+		client.forgetKnown()
 		for _, p := range client.KnownPrograms {
 			_, err := client.ListSubTags(p, 1)
 			if err != nil {
@@ -335,6 +336,15 @@ func (client *Client) listAllTags(start_instance uint32, fallbackProgramNames bo
 	return nil
 }
 
+// forgetKnown drops what an earlier listing found. It may be gone by now, and its instances belong to something else.
+func (client *Client) forgetKnown() {
+	client.ioi_cache_lock.Lock()
+	defer client.ioi_cache_lock.Unlock()
+	client.KnownTags = make(map[string]KnownTag)
+	client.KnownTypes = make(map[string]UDTDescriptor)
+	client.KnownTypesByID = make(map[uint32]UDTDescriptor)
+}
+
 // addKnownTag stores a listed tag. Reads look for known tags while they hold the same lock.
 func (client *Client) addKnownTag(kt KnownTag) {
 	client.ioi_cache_lock.Lock()
-- 
2.43.0


From bfbb120680ca4d0c2c9a26f2e58d21b06900ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:08 +0000
Subject: [PATCH 30/74] fix: the server takes every message off the connection
 by its length

---
 server.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/server.go b/server.go
index 43cd03e..fe319d7 100644
--- a/server.go
+++ b/server.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"log/slog"
 	"math/rand"
 	"net"
@@ -212,23 +213,31 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 		if err != nil {
 			return fmt.Errorf("problem reading eip header. %w", err)
 		}
+		// the whole message is taken off the connection, however much of it is understood below,
+		// so that the next one is found where it starts.
+		data := make([]byte, eipHdr.Length)
+		_, err = io.ReadFull(h.conn, data)
+		if err != nil {
+			return fmt.Errorf("problem reading eip message. %w", err)
+		}
+		body := bytes.NewReader(data)
 		h.context = eipHdr.Context
 		h.server.Logger.Debug("New Context", "context", h.context)
 		switch eipHdr.Command {
 		case cipCommandRegisterSession:
-			err = h.registerSession(eipHdr)
+			err = h.registerSession(eipHdr, body)
 			if err != nil {
 				return fmt.Errorf("problem with register session %w", err)
 			}
 		case cipCommandSendRRData:
 			// this is things like forward opens
-			err = h.sendRRData(eipHdr)
+			err = h.sendRRData(eipHdr, body)
 			if err != nil {
 				return fmt.Errorf("problem with sendRRData %w", err)
 			}
 		case cipCommandSendUnitData:
 			// this is things like writes and reads
-			err = h.sendUnitData(eipHdr)
+			err = h.sendUnitData(eipHdr, body)
 			if err != nil {
 				return fmt.Errorf("problem with sendUnitData %w", err)
 			}
@@ -248,18 +257,18 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 
 }
 
-func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
+func (h *serverTCPHandler) sendUnitData(hdr eipHeader, body io.Reader) error {
 	var interface_handle uint32
 	var timeout uint16
-	err := binary.Read(h.conn, binary.LittleEndian, &interface_handle)
+	err := binary.Read(body, binary.LittleEndian, &interface_handle)
 	if err != nil {
 		return fmt.Errorf("problem reading interface handle %w", err)
 	}
-	err = binary.Read(h.conn, binary.LittleEndian, &timeout)
+	err = binary.Read(body, binary.LittleEndian, &timeout)
 	if err != nil {
 		return fmt.Errorf("problem reading timeout %w", err)
 	}
-	items, err := readItems(h.conn)
+	items, err := readItems(body)
 	if err != nil {
 		return fmt.Errorf("problem reading items for rrData %w", err)
 	}
@@ -511,18 +520,18 @@ func (h *serverTCPHandler) sendUnitDataReply(s CIPService) error {
 	return h.send(cipCommandSendUnitData, itemData)
 }
 
-func (h *serverTCPHandler) sendRRData(hdr eipHeader) error {
+func (h *serverTCPHandler) sendRRData(hdr eipHeader, body io.Reader) error {
 	var interface_handle uint32
 	var timeout uint16
-	err := binary.Read(h.conn, binary.LittleEndian, &interface_handle)
+	err := binary.Read(body, binary.LittleEndian, &interface_handle)
 	if err != nil {
 		return fmt.Errorf("problem reading interface handle %w", err)
 	}
-	err = binary.Read(h.conn, binary.LittleEndian, &timeout)
+	err = binary.Read(body, binary.LittleEndian, &timeout)
 	if err != nil {
 		return fmt.Errorf("problem reading timeout %w", err)
 	}
-	items, err := readItems(h.conn)
+	items, err := readItems(body)
 	if err != nil {
 		return fmt.Errorf("problem reading items for rrData %w", err)
 	}
@@ -859,10 +868,10 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 	}
 }
 
-func (h *serverTCPHandler) registerSession(hdr eipHeader) error {
+func (h *serverTCPHandler) registerSession(hdr eipHeader, body io.Reader) error {
 
 	reg_msg := msgCIPRegister{}
-	err := binary.Read(h.conn, binary.LittleEndian, &reg_msg)
+	err := binary.Read(body, binary.LittleEndian, &reg_msg)
 	if err != nil {
 		return fmt.Errorf("problem reading register session message. %w", err)
 	}
-- 
2.43.0


From d8eba3bb18d73cf5aec05684293aa28854686825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:52 +0000
Subject: [PATCH 31/74] fix: the server refuses commands it does not know
 instead of ignoring them

---
 server.go   | 19 ++++++++++++++++++-
 services.go |  1 +
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index fe319d7..0540d39 100644
--- a/server.go
+++ b/server.go
@@ -251,7 +251,14 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 			if err != nil {
 				return fmt.Errorf("problem with sendListIdentity %w", err)
 			}
-
+		case cipCommandNOP, cipCommandUnRegisterSession:
+			// these are never answered.
+		default:
+			h.server.Logger.Warn("unsupported command", "command", eipHdr.Command)
+			err = h.sendStatus(eipHdr.Command, eipStatusUnsupportedCommand)
+			if err != nil {
+				return fmt.Errorf("problem refusing command %v. %w", eipHdr.Command, err)
+			}
 		}
 	}
 
@@ -934,6 +941,16 @@ func (h *serverTCPHandler) send(cmd CIPCommand, msgs ...any) error {
 
 }
 
+// the encapsulation status for a command that this server does not know.
+const eipStatusUnsupportedCommand uint32 = 0x0001
+
+// sendStatus refuses a command with an encapsulation status.
+func (h *serverTCPHandler) sendStatus(cmd CIPCommand, status uint32) error {
+	hdr := h.newEIPHeader(cmd, 0)
+	hdr.Status = status
+	return binary.Write(h.conn, binary.LittleEndian, hdr)
+}
+
 func (h *serverTCPHandler) newEIPHeader(cmd CIPCommand, size int) (hdr eipHeader) {
 
 	hdr.Command = cmd
diff --git a/services.go b/services.go
index 3356b72..ce4cf15 100644
--- a/services.go
+++ b/services.go
@@ -157,6 +157,7 @@ type CIPCommand uint16
 
 const (
 	cipCommand_NOP              CIPCommand = 0x00
+	cipCommandNOP               CIPCommand = 0x00
 	cipCommandListServices      CIPCommand = 0x04
 	cipPCCCConnectedExplicit    CIPCommand = 0x0A
 	cipPCCCUnconnectedExplicit  CIPCommand = 0x0B
-- 
2.43.0


From d97d4262b01fb2f521201029b92e30ca01dad2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:51 +0000
Subject: [PATCH 32/74] fix: the reply to a list services request names that
 command and its length

---
 server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 0540d39..644c478 100644
--- a/server.go
+++ b/server.go
@@ -986,10 +986,10 @@ func (h *serverTCPHandler) sendListServicesData(hdr eipHeader) error {
 	response := listServicesReply{
 		Count:    1,
 		TypeCode: 0x0100,
-		Length:   10,
+		Length:   20, // version, capability flags and name
 		Version:  1,
 		CapFlags: ServiceCapabilityFlag_CipEncapsulation | ServiceCapabilityFlag_SupportsClass1UDP,
 		Name:     [16]byte{'C', 'o', 'm', 'm', 'u', 'n', 'i', 'c', 'a', 't', 'i', 'o', 'n', 's', ' ', ' '},
 	}
-	return h.send(cipCommandSendRRData, response)
+	return h.send(cipCommandListServices, response)
 }
-- 
2.43.0


From a4ad07c175b6abd4d34ee93722079977ebcea21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:23 +0000
Subject: [PATCH 33/74] fix: the server refuses connected requests that fail
 instead of dropping the session

---
 server.go           | 27 ++++++++++++++++++++-------
 server_connected.go | 36 ++++++++++++++++++------------------
 2 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/server.go b/server.go
index 644c478..05e2aec 100644
--- a/server.go
+++ b/server.go
@@ -301,31 +301,39 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader, body io.Reader) error {
 	if err != nil {
 		return fmt.Errorf("problem deserializing service %w", err)
 	}
+	// replies, refusals among them, go to the originator of the connection that the request came on.
+	conn, err := h.server.ConnMgr.GetByOT(connId)
+	if err != nil {
+		h.server.Logger.Warn("request on unknown connection", "service", service, "error", err)
+		h.TOConnectionID = 0
+		return h.sendUnitDataErrorReply(service, CIPStatus_ConnectionLost)
+	}
+	h.TOConnectionID = conn.TO
 	switch service {
 	case CIPService_Write:
 		err = h.cipConnectedWrite(items)
 		if err != nil {
-			return fmt.Errorf("problem handling write. %w", err)
+			err = fmt.Errorf("problem handling write. %w", err)
 		}
 	case CIPService_FragRead:
 		err = h.connectedRead(CIPService_FragRead, items)
 		if err != nil {
-			return fmt.Errorf("problem handling frag read. %w", err)
+			err = fmt.Errorf("problem handling frag read. %w", err)
 		}
 	case CIPService_Read:
 		err = h.connectedRead(CIPService_Read, items)
 		if err != nil {
-			return fmt.Errorf("problem handling non-frag read. %w", err)
+			err = fmt.Errorf("problem handling non-frag read. %w", err)
 		}
 	case CIPService_MultipleService:
 		err = h.connectedMulti(items)
 		if err != nil {
-			return fmt.Errorf("problem handling multi service. %w", err)
+			err = fmt.Errorf("problem handling multi service. %w", err)
 		}
 	case CIPService_GetAttributeSingle:
 		err = h.connectedGetAttr(items)
 		if err != nil {
-			return fmt.Errorf("problem handling getAttrSingle %w", err)
+			err = fmt.Errorf("problem handling getAttrSingle %w", err)
 		}
 	case CIPService_GetAttributeAll:
 		// pycomm3.LogixDriver.get_plc_name() and similar clients probe
@@ -334,7 +342,7 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader, body io.Reader) error {
 		// the silent default which left the client hanging until timeout.
 		err = h.connectedGetAttributeAll(items)
 		if err != nil {
-			return fmt.Errorf("problem handling connected getAttributesAll %w", err)
+			err = fmt.Errorf("problem handling connected getAttributesAll %w", err)
 		}
 	case CIPService_GetInstanceAttributeList:
 		// CIP Symbol Object (Class 0x6B) Service 0x55 — every Logix client
@@ -345,7 +353,7 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader, body io.Reader) error {
 		// TagProvider (provided it implements the TagLister interface).
 		err = h.connectedSymbolList(items)
 		if err != nil {
-			return fmt.Errorf("problem handling connected symbol list %w", err)
+			err = fmt.Errorf("problem handling connected symbol list %w", err)
 		}
 	default:
 		// Any other service that lands here would have silently dropped
@@ -356,6 +364,11 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader, body io.Reader) error {
 		h.server.Logger.Warn("connected: unsupported service", "service", service)
 		return h.sendUnitDataErrorReply(service, CIPStatus_ServiceNotSupported)
 	}
+	if err != nil {
+		// a request that cannot be carried out is refused. The session stays open.
+		h.server.Logger.Warn("connected: request failed", "service", service, "error", err)
+		return h.sendUnitDataErrorReply(service, CIPStatus_InvalidParameter)
+	}
 	h.server.Logger.Debug("send unit data service requested", "service", service)
 	return nil
 }
diff --git a/server_connected.go b/server_connected.go
index 4e500c9..fe83342 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -263,13 +263,13 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 	var connID uint32
 	err := items[0].DeSerialize(&connID)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, 0, 0, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("couldn't get connection ID from item 0: %w / %v", err, err2)
+		h.server.Logger.Warn("couldn't get connection ID from item 0", "error", err)
+		return h.sendConnectedError(reqSvc, 0, 0, CIPStatus_InvalidParameter, 0)
 	}
 	connection, err := h.server.ConnMgr.GetByOT(connID)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, 0, 0, CIPStatus_ConnectionLost, 0)
-		return fmt.Errorf("couldn't get connection with ID %v: %w /%v", connID, err, err2)
+		h.server.Logger.Warn("couldn't get connection with ID", "error", err)
+		return h.sendConnectedError(reqSvc, 0, 0, CIPStatus_ConnectionLost, 0)
 	}
 
 	items[1].Reset()
@@ -278,39 +278,39 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 	var seq uint16
 	err = item.DeSerialize(&seq)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("error getting sequence ID: %w / %v", err, err2)
+		h.server.Logger.Warn("error getting sequence ID", "error", err)
+		return h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 	}
 	var pathlen uint16
 	err = item.DeSerialize(&pathlen)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("error getting path len: %w / %v", err, err2)
+		h.server.Logger.Warn("error getting path len", "error", err)
+		return h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 	}
 	tag, err := getTagFromPath(&item)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("couldn't parse path: %w / %v", err, err2)
+		h.server.Logger.Warn("couldn't parse path", "error", err)
+		return h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 	}
 	var qty uint16
 	err = item.DeSerialize(&qty)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("error getting write qty: %w / %v", err, err2)
+		h.server.Logger.Warn("error getting write qty", "error", err)
+		return h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 	}
 
 	path := connection.Path
 
 	provider, err := h.server.Router.Resolve(path)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_PathDestinationUnknown, 0)
-		return fmt.Errorf("problem finding tag provider for %v. %w: %v", path, err, err2)
+		h.server.Logger.Warn("problem finding tag provider for", "error", err)
+		return h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_PathDestinationUnknown, 0)
 	}
 	p := provider
 	result, err := p.TagRead(tag, int16(qty))
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidMemberID, 0)
-		return fmt.Errorf("problem getting data from provider. %w / %v", err, err2)
+		h.server.Logger.Warn("problem getting data from provider", "error", err)
+		return h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidMemberID, 0)
 	}
 	typ, _ := GoVarToCIPType(result)
 
@@ -333,8 +333,8 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 			}
 			return h.sendConnectedReply(reqSvc, seq, connection.TO, payloads...)
 		}
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidAttributeValue, 0)
-		return fmt.Errorf("was expecting a string but didn't get one: %w", err2)
+		h.server.Logger.Warn("was expecting a string but didn't get one", "tag", tag)
+		return h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidAttributeValue, 0)
 	} else {
 		return h.sendConnectedReply(reqSvc, seq, connection.TO, typ, byte(0), result)
 	}
-- 
2.43.0


From e694264ecb410eb317ee32511c774a318de48a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:52 +0000
Subject: [PATCH 34/74] fix: the server refuses unconnected requests that fail
 instead of dropping the session

---
 server_unconnected.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/server_unconnected.go b/server_unconnected.go
index 2e674fa..d0f6337 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -15,6 +15,20 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem unmarshling service %w", err)
 	}
+	err = h.unconnectedService(&service, item)
+	if err != nil {
+		// a request that cannot be carried out is refused. The session stays open.
+		h.server.Logger.Warn("unconnected: request failed", "service", service, "error", err)
+		return h.sendUnconnectedErrorReply(service, CIPStatus_InvalidParameter)
+	}
+	return nil
+}
+
+// unconnectedService carries out one unconnected request. Service becomes the embedded service of an unconnected send
+// as soon as that is known, since that is the one that gets the reply.
+func (h *serverTCPHandler) unconnectedService(serviceP *CIPService, item CIPItem) error {
+	var err error
+	service := *serviceP
 	switch service {
 	case CIPService_ForwardOpen:
 		item.Reset()
@@ -91,6 +105,7 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 		if err != nil {
 			return fmt.Errorf("error getting embedded service. %w", err)
 		}
+		*serviceP = emService
 		switch emService {
 		case CIPService_Write:
 			return h.unconnectedServiceWrite(item)
@@ -361,7 +376,8 @@ func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem) error {
 
 	provider, err := h.server.Router.Resolve(path)
 	if err != nil {
-		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
+		h.server.Logger.Warn("problem finding tag provider", "path", path, "error", err)
+		return h.sendUnconnectedErrorReply(CIPService_Write, CIPStatus_PathDestinationUnknown)
 	}
 	p := provider
 	if qty > 1 {
@@ -603,12 +619,14 @@ func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem) error {
 
 	provider, err := h.server.Router.Resolve(path)
 	if err != nil {
-		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
+		h.server.Logger.Warn("problem finding tag provider", "path", path, "error", err)
+		return h.sendUnconnectedErrorReply(CIPService_Read, CIPStatus_PathDestinationUnknown)
 	}
 	p := provider
 	result, err := p.TagRead(tag, int16(qty))
 	if err != nil {
-		return fmt.Errorf("problem getting data from provider. %w", err)
+		h.server.Logger.Warn("problem getting data from provider", "error", err)
+		return h.sendUnconnectedErrorReply(CIPService_Read, CIPStatus_InvalidMemberID)
 	}
 	h.server.Logger.Debug("Read", "tag", tag, "path", path, "qty", qty, "results", result)
 	typ, _ := GoVarToCIPType(result)
-- 
2.43.0


From 49d8229313ff006d52a7d1f759dc864b98417d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 35/74] fix: a forward close is acknowledged and closes the
 connection it names

---
 server.go             | 52 ++++++++++++++++++++++++++-----------------
 server_connections.go | 30 ++++++++++++++++++++-----
 2 files changed, 56 insertions(+), 26 deletions(-)

diff --git a/server.go b/server.go
index 05e2aec..2f8ba4d 100644
--- a/server.go
+++ b/server.go
@@ -580,17 +580,25 @@ func (h *serverTCPHandler) forwardClose(i CIPItem) error {
 		return fmt.Errorf("problem parsing forward close %w", err)
 	}
 	h.server.Logger.Info("Closing connection", "serial", fwd_close.ConnectionSerialNumber)
-	err = h.server.ConnMgr.CloseByID(fwd_close.ConnectionSerialNumber)
+	err = h.server.ConnMgr.CloseByOriginator(fwd_close.ConnectionSerialNumber, fwd_close.VendorID, fwd_close.OriginatorSerialNumber)
 	if err != nil {
-		return fmt.Errorf("couldn't close open connection with ID %v. %v", fwd_close.ConnectionSerialNumber, err)
+		h.server.Logger.Warn("couldn't close connection", "serial", fwd_close.ConnectionSerialNumber, "error", err)
+		return h.sendUnconnectedErrorReply(CIPService_ForwardClose, CIPStatus_ConnectionFailure)
 	}
+	return h.sendUnconnectedRRDataReply(CIPService_ForwardClose, msgEIPForwardClose_Reply{
+		ConnectionSerialNumber: fwd_close.ConnectionSerialNumber,
+		VendorID:               fwd_close.VendorID,
+		OriginatorSerialNumber: fwd_close.OriginatorSerialNumber,
+	})
+}
 
-	path := make([]byte, fwd_close.PathSize*2)
-	err = i.DeSerialize(&path)
-	if err != nil {
-		return fmt.Errorf("problem parsing forward close path %w", err)
-	}
-	return nil
+// the data that acknowledges a forward close.
+type msgEIPForwardClose_Reply struct {
+	ConnectionSerialNumber uint16
+	VendorID               uint16
+	OriginatorSerialNumber uint32
+	ReplySize              byte
+	Reserved               byte
 }
 
 // in this message T is for target and O is for originator so
@@ -713,12 +721,14 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 	}
 
 	cipConnection := &serverConnection{
-		TO:   fwd_open.TOConnectionID,
-		OT:   fwd_open.OTConnectionID,
-		ID:   fwd_open.ConnectionSerialNumber,
-		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
-		Path: path,
-		Open: true,
+		TO:         fwd_open.TOConnectionID,
+		OT:         fwd_open.OTConnectionID,
+		ID:         fwd_open.ConnectionSerialNumber,
+		Vendor:     fwd_open.VendorID,
+		Originator: fwd_open.OriginatorSerialNumber,
+		RPI:        time.Duration(fwd_open.TORPI) * time.Microsecond,
+		Path:       path,
+		Open:       true,
 	}
 
 	h.server.ConnMgr.Add(cipConnection)
@@ -801,12 +811,14 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	}
 
 	cipConnection := &serverConnection{
-		TO:   fwd_open.TOConnectionID,
-		OT:   fwd_open.OTConnectionID,
-		ID:   fwd_open.ConnectionSerialNumber,
-		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
-		Path: path,
-		Open: true,
+		TO:         fwd_open.TOConnectionID,
+		OT:         fwd_open.OTConnectionID,
+		ID:         fwd_open.ConnectionSerialNumber,
+		Vendor:     fwd_open.VendorID,
+		Originator: fwd_open.OriginatorSerialNumber,
+		RPI:        time.Duration(fwd_open.TORPI) * time.Microsecond,
+		Path:       path,
+		Open:       true,
 	}
 
 	h.server.ConnMgr.Add(cipConnection)
diff --git a/server_connections.go b/server_connections.go
index 37cf22f..6070e85 100644
--- a/server_connections.go
+++ b/server_connections.go
@@ -8,12 +8,14 @@ import (
 )
 
 type serverConnection struct {
-	ID   uint16
-	OT   uint32
-	TO   uint32
-	RPI  time.Duration
-	Path []byte
-	Open bool
+	ID         uint16
+	Vendor     uint16
+	Originator uint32
+	OT         uint32
+	TO         uint32
+	RPI        time.Duration
+	Path       []byte
+	Open       bool
 }
 
 type serverConnectionManager struct {
@@ -79,6 +81,22 @@ func (cm *serverConnectionManager) CloseByID(ID uint16) error {
 	}
 	return fmt.Errorf("couldn't find connection %v by ID", ID)
 }
+
+// CloseByOriginator closes the connection that the originator's vendor and serial number and the connection serial
+// number identify. Different originators may use the same connection serial number.
+func (cm *serverConnectionManager) CloseByOriginator(ID uint16, vendor uint16, originator uint32) error {
+	cm.Lock.Lock()
+	defer cm.Lock.Unlock()
+	for i, conn := range cm.Connections {
+		if conn.ID == ID && conn.Vendor == vendor && conn.Originator == originator {
+			conn.Open = false
+			cm.Connections[i] = cm.Connections[len(cm.Connections)-1]
+			cm.Connections = cm.Connections[:len(cm.Connections)-1]
+			return nil
+		}
+	}
+	return fmt.Errorf("couldn't find connection %v of originator %v:%v", ID, vendor, originator)
+}
 func (cm *serverConnectionManager) CloseByOT(OT uint32) error {
 	cm.Lock.Lock()
 	defer cm.Lock.Unlock()
-- 
2.43.0


From a4244f855ad2867b4913f364d77f01891c85450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:05 +0000
Subject: [PATCH 36/74] fix: a forward open settles the connection's id and its
 whole route before it is acknowledged

---
 server.go             | 100 ++++++++++++++++++++++++++----------------
 server_connections.go |  16 ++++++-
 2 files changed, 77 insertions(+), 39 deletions(-)

diff --git a/server.go b/server.go
index 2f8ba4d..f8266cc 100644
--- a/server.go
+++ b/server.go
@@ -653,6 +653,30 @@ type msgEIPForwardOpen_Large struct {
 	ConnPathSize           byte
 }
 
+// forwardOpenRoute returns the part of a connection path that says where the connection goes: the port segments that it
+// starts with.
+func forwardOpenRoute(path []byte) ([]byte, error) {
+	if len(path) < 2 {
+		return nil, fmt.Errorf("connection path %v has no segment", path)
+	}
+	n := 0
+	for n+1 < len(path) && path[n]&0xE0 == 0 {
+		size := 2
+		if path[n]&0x10 != 0 {
+			// a link address of several bytes, padded to whole words
+			size = 2 + int(path[n+1]) + int(path[n+1])%2
+		}
+		if n+size > len(path) {
+			return nil, fmt.Errorf("connection path %v ends in a port segment", path)
+		}
+		n += size
+	}
+	if n == 0 {
+		n = 2
+	}
+	return path[:n], nil
+}
+
 func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 	h.server.Logger.Info("got large forward open", "remote", h.conn.RemoteAddr())
 	var fwd_open msgEIPForwardOpen_Large // TODO: Transition this to the new ForwardOpen
@@ -660,13 +684,16 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem with fwd open parsing %w", err)
 	}
-	fwd_path := make([]byte, fwd_open.ConnPathSize*2)
+	fwd_path := make([]byte, int(fwd_open.ConnPathSize)*2)
 	err = i.DeSerialize(&fwd_path)
 	if err != nil {
 		return fmt.Errorf("problem with fwd open path parsing %w", err)
 	}
 	h.server.Logger.Debug("forward open msg", "open", fwd_open, "path", fwd_path)
-	path := fwd_path[:2]
+	path, err := forwardOpenRoute(fwd_path)
+	if err != nil {
+		return fmt.Errorf("problem with fwd open path %w", err)
+	}
 
 	//preItem := msgPreItemData{Handle: 0, Timeout: 0}
 	items := make([]CIPItem, 2)
@@ -679,11 +706,21 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 		h.TOConnectionID = fwd_open.TOConnectionID
 	}
 	fwd_open.TOConnectionID = h.TOConnectionID
-	if fwd_open.OTConnectionID == 0 {
-		h.OTConnectionID = rand.Uint32()
-	} else {
-		h.OTConnectionID = fwd_open.OTConnectionID
+
+	// the connection is there before the originator is told so. Its O->T ID is settled by adding it.
+	cipConnection := &serverConnection{
+		TO:         fwd_open.TOConnectionID,
+		OT:         fwd_open.OTConnectionID,
+		ID:         fwd_open.ConnectionSerialNumber,
+		Vendor:     fwd_open.VendorID,
+		Originator: fwd_open.OriginatorSerialNumber,
+		RPI:        time.Duration(fwd_open.TORPI) * time.Microsecond,
+		Path:       path,
+		Open:       true,
 	}
+
+	h.server.ConnMgr.Add(cipConnection)
+	h.OTConnectionID = cipConnection.OT
 	fwd_open.OTConnectionID = h.OTConnectionID
 	// Echo the requested RPI back as the Actual Packet Interval (API). CIP
 	// spec ODVA Vol 1 §3-5.6 allows the target to commit to a different API
@@ -720,19 +757,6 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 		return fmt.Errorf("problem sending response data %w", err)
 	}
 
-	cipConnection := &serverConnection{
-		TO:         fwd_open.TOConnectionID,
-		OT:         fwd_open.OTConnectionID,
-		ID:         fwd_open.ConnectionSerialNumber,
-		Vendor:     fwd_open.VendorID,
-		Originator: fwd_open.OriginatorSerialNumber,
-		RPI:        time.Duration(fwd_open.TORPI) * time.Microsecond,
-		Path:       path,
-		Open:       true,
-	}
-
-	h.server.ConnMgr.Add(cipConnection)
-
 	if fwd_open.TransportTrigger == 1 {
 		h.server.Logger.Warn("Large Forward Open IO Connections Not Yet Supported")
 	}
@@ -747,7 +771,7 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem with fwd open parsing %w", err)
 	}
-	fwd_path := make([]byte, fwd_open.ConnPathSize*2)
+	fwd_path := make([]byte, int(fwd_open.ConnPathSize)*2)
 	err = i.DeSerialize(&fwd_path)
 	if err != nil {
 		return fmt.Errorf("problem with fwd open path parsing %w", err)
@@ -762,7 +786,10 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	// then a "simple data segment" of some mystery data.
 
 	h.server.Logger.Debug("forward open msg", "open", fwd_open, "path", fwd_path)
-	path := fwd_path[:2]
+	path, err := forwardOpenRoute(fwd_path)
+	if err != nil {
+		return fmt.Errorf("problem with fwd open path %w", err)
+	}
 
 	//preItem := msgPreItemData{Handle: 0, Timeout: 0}
 	items := make([]CIPItem, 2)
@@ -775,11 +802,21 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 		h.TOConnectionID = fwd_open.TOConnectionID
 	}
 	fwd_open.TOConnectionID = h.TOConnectionID
-	if fwd_open.OTConnectionID == 0 {
-		h.OTConnectionID = rand.Uint32()
-	} else {
-		h.OTConnectionID = fwd_open.OTConnectionID
+
+	// the connection is there before the originator is told so. Its O->T ID is settled by adding it.
+	cipConnection := &serverConnection{
+		TO:         fwd_open.TOConnectionID,
+		OT:         fwd_open.OTConnectionID,
+		ID:         fwd_open.ConnectionSerialNumber,
+		Vendor:     fwd_open.VendorID,
+		Originator: fwd_open.OriginatorSerialNumber,
+		RPI:        time.Duration(fwd_open.TORPI) * time.Microsecond,
+		Path:       path,
+		Open:       true,
 	}
+
+	h.server.ConnMgr.Add(cipConnection)
+	h.OTConnectionID = cipConnection.OT
 	fwd_open.OTConnectionID = h.OTConnectionID
 	// See largeForwardOpen above for why API must echo the requested RPI
 	// instead of zero. Same fix applies to the standard (small) Forward
@@ -810,19 +847,6 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 		return fmt.Errorf("problem sending response data %w", err)
 	}
 
-	cipConnection := &serverConnection{
-		TO:         fwd_open.TOConnectionID,
-		OT:         fwd_open.OTConnectionID,
-		ID:         fwd_open.ConnectionSerialNumber,
-		Vendor:     fwd_open.VendorID,
-		Originator: fwd_open.OriginatorSerialNumber,
-		RPI:        time.Duration(fwd_open.TORPI) * time.Microsecond,
-		Path:       path,
-		Open:       true,
-	}
-
-	h.server.ConnMgr.Add(cipConnection)
-
 	if fwd_open.TransportTrigger == 1 {
 		// this is a cyclic IO connection
 		tp, err := h.server.Router.Resolve(path)
diff --git a/server_connections.go b/server_connections.go
index 6070e85..663364d 100644
--- a/server_connections.go
+++ b/server_connections.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"fmt"
 	"log/slog"
+	"math/rand"
 	"sync"
 	"time"
 )
@@ -28,12 +29,25 @@ func (cm *serverConnectionManager) Init(logger *slog.Logger) {
 	cm.Connections = make([]*serverConnection, 0, 32)
 	cm.Logger = logger
 }
+
+// Add adds a connection. Requests name it by its O->T ID, so if the one it comes with is none or is taken it gets another.
 func (cm *serverConnectionManager) Add(conn *serverConnection) {
-	cm.Logger.Info("New Managed Connection.", "conn", *conn)
 	cm.Lock.Lock()
 	defer cm.Lock.Unlock()
+	for conn.OT == 0 || cm.taken(conn.OT) {
+		conn.OT = rand.Uint32()
+	}
+	cm.Logger.Info("New Managed Connection.", "conn", *conn)
 	cm.Connections = append(cm.Connections, conn)
 }
+func (cm *serverConnectionManager) taken(OT uint32) bool {
+	for _, conn := range cm.Connections {
+		if conn.OT == OT {
+			return true
+		}
+	}
+	return false
+}
 func (cm *serverConnectionManager) GetByID(ID uint16) (*serverConnection, error) {
 	cm.Lock.RLock()
 	defer cm.Lock.RUnlock()
-- 
2.43.0


From 6ef0db1542c72b4bbf2632acf69292b10fefeff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:04 +0000
Subject: [PATCH 37/74] fix: an I/O connection is acknowledged only when it can
 be served

---
 server.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/server.go b/server.go
index f8266cc..d21ba80 100644
--- a/server.go
+++ b/server.go
@@ -791,6 +791,18 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 		return fmt.Errorf("problem with fwd open path %w", err)
 	}
 
+	var tp CIPEndpoint
+	if fwd_open.TransportTrigger == 1 {
+		// this is a cyclic IO connection. It needs something to get the data from and an interval.
+		tp, err = h.server.Router.Resolve(path)
+		if err != nil {
+			return fmt.Errorf("no tag provider for path %v", path)
+		}
+		if fwd_open.TORPI == 0 {
+			return fmt.Errorf("no interval for the IO connection to path %v", path)
+		}
+	}
+
 	//preItem := msgPreItemData{Handle: 0, Timeout: 0}
 	items := make([]CIPItem, 2)
 	items[0] = CIPItem{Header: cipItemHeader{ID: cipItem_Null}}
@@ -848,11 +860,6 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	}
 
 	if fwd_open.TransportTrigger == 1 {
-		// this is a cyclic IO connection
-		tp, err := h.server.Router.Resolve(path)
-		if err != nil {
-			return fmt.Errorf("no tag provider for path %v", path)
-		}
 		go h.ioConnection(fwd_open, tp, cipConnection)
 	}
 
-- 
2.43.0


From 95f47c6362154e2a141c48e74f3211d877230b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:52 +0000
Subject: [PATCH 38/74] fix: the reply to a connected get attribute single
 names that service

---
 server_connected.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server_connected.go b/server_connected.go
index fe83342..8fe0901 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -584,6 +584,6 @@ func (h *serverTCPHandler) getAttrSingle(connection *serverConnection, item CIPI
 		return fmt.Errorf("bad attribute %d", attr)
 	}
 
-	return h.sendConnectedReply(CIPService_FragRead, seq, connection.TO, result)
+	return h.sendConnectedReply(CIPService_GetAttributeSingle, seq, connection.TO, result)
 
 }
-- 
2.43.0


From 9f57fa74352bf9c64812a0acf8f1ecf9928547d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:27 +0000
Subject: [PATCH 39/74] fix: a symbol list starts with the instance that was
 asked for

---
 server.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index d21ba80..e0e4232 100644
--- a/server.go
+++ b/server.go
@@ -492,10 +492,29 @@ func (h *serverTCPHandler) connectedSymbolList(items []CIPItem) error {
 		return h.sendUnitDataReplyWithPayload(CIPService_GetInstanceAttributeList, nil)
 	}
 
-	payload := buildSymbolObjectInstanceListResponse(lister.TagList(), 0)
+	start, err := symbolListStart(&items[1])
+	if err != nil {
+		return fmt.Errorf("symbol list: path: %w", err)
+	}
+	payload := buildSymbolObjectInstanceListResponse(lister.TagList(), start)
 	return h.sendUnitDataReplyWithPayload(CIPService_GetInstanceAttributeList, payload)
 }
 
+// symbolListStart reads the path of a symbol list request, which says the instance to start from. The item is positioned
+// after the service.
+func symbolListStart(item *CIPItem) (uint32, error) {
+	pathSize, err := item.Byte()
+	if err != nil {
+		return 0, fmt.Errorf("read path size: %w", err)
+	}
+	path := make([]byte, int(pathSize)*2)
+	if err := item.DeSerialize(&path); err != nil {
+		return 0, fmt.Errorf("read path: %w", err)
+	}
+	_, instance, err := parseClassInstancePath(bytes.NewBuffer(path))
+	return uint32(instance), err
+}
+
 // sendUnitDataReplyWithPayload is sendUnitDataReply with an additional
 // raw payload appended after the standard write-result header. Used by
 // the connected Get_Attributes_All handler to ship the Identity /
-- 
2.43.0


From 018aae402041973f88cbbd3bd5bed282b2ed48e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:36 +0000
Subject: [PATCH 40/74] fix: an array of strings is read as one type segment
 and its elements

---
 server_connected.go   | 43 ++++++++++++++++++++++++++++---------------
 server_unconnected.go |  6 +-----
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/server_connected.go b/server_connected.go
index 8fe0901..4a4896c 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -160,11 +160,16 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 				return fmt.Errorf("problem serializing header for %s: %w", tagname, err)
 			}
 			if typ == CIPTypeSTRING {
-				res_str, ok := result.(string)
-				if !ok {
+				var packed Serializable
+				switch x := result.(type) {
+				case string:
+					packed = cipStringPacker(x)
+				case []string:
+					packed = cipStringArrayPacker(x)
+				default:
 					return errors.New("expected a string but didn't get one")
 				}
-				b_dat, err := Serialize(cipStringPacker(res_str))
+				b_dat, err := Serialize(packed)
 				if err != nil {
 					return fmt.Errorf("problem serializing data for %s: %w", tagname, err)
 				}
@@ -319,19 +324,10 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 		if res_str, ok := result.(string); ok {
 			return h.sendConnectedReply(reqSvc, seq, connection.TO, cipStringPacker(res_str))
 		}
-		// STRING array — emit one cipStringPacker block per element, back
-		// to back. The L24ER MSG and pylogix both unpack the wire as N×90
-		// contiguous STRING slots when the request asks for multiple
-		// elements of a STRING tag. Without this branch, full-array reads
-		// of `strarr` failed with "Invalid Attribute" because the generic
-		// fallback below tried binary.Write on a Go `[]string`, which is
-		// not fixed-size and explodes inside the serializer.
+		// STRING array. The generic fallback below can't serialize a Go
+		// `[]string`, which is not fixed-size.
 		if res_strs, ok := result.([]string); ok {
-			payloads := make([]any, 0, len(res_strs))
-			for _, s := range res_strs {
-				payloads = append(payloads, cipStringPacker(s))
-			}
-			return h.sendConnectedReply(reqSvc, seq, connection.TO, payloads...)
+			return h.sendConnectedReply(reqSvc, seq, connection.TO, cipStringArrayPacker(res_strs))
 		}
 		h.server.Logger.Warn("was expecting a string but didn't get one", "tag", tag)
 		return h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidAttributeValue, 0)
@@ -396,6 +392,23 @@ func (c cipStringPacker) Bytes() []byte {
 	return b
 }
 
+// cipStringArrayPacker is the wire layout of an array of STRINGs. As for any
+// other array there is one type segment, which is followed by the Tag Data
+// of one element after the other.
+type cipStringArrayPacker []string
+
+func (c cipStringArrayPacker) Len() int {
+	return cipStringSlotLen - cipStringTagDataLen + len(c)*cipStringTagDataLen
+}
+func (c cipStringArrayPacker) Bytes() []byte {
+	b := make([]byte, 0, c.Len())
+	b = append(b, cipStringPacker("").Bytes()[:cipStringSlotLen-cipStringTagDataLen]...)
+	for _, s := range c {
+		b = append(b, cipStringPacker(s).Bytes()[cipStringSlotLen-cipStringTagDataLen:]...)
+	}
+	return b
+}
+
 // parseWriteValues decodes the payload portion of a CIP write request after
 // the path has been consumed. The wire is laid out as:
 //
diff --git a/server_unconnected.go b/server_unconnected.go
index d0f6337..8305d56 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -642,11 +642,7 @@ func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem) error {
 			return h.sendUnconnectedRRDataReply(CIPService_Read, cipStringPacker(s))
 		}
 		if ss, ok := result.([]string); ok {
-			payloads := make([]any, 0, len(ss))
-			for _, s := range ss {
-				payloads = append(payloads, cipStringPacker(s))
-			}
-			return h.sendUnconnectedRRDataReply(CIPService_Read, payloads...)
+			return h.sendUnconnectedRRDataReply(CIPService_Read, cipStringArrayPacker(ss))
 		}
 	}
 
-- 
2.43.0


From ddaa4288fa57fa5f16dd0806aa75590f2f3b08c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 41/74] fix: an unconnected send is taken apart by the length
 of the message in it

---
 server_unconnected.go | 45 ++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/server_unconnected.go b/server_unconnected.go
index 8305d56..e3e87f9 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -85,7 +85,7 @@ func (h *serverTCPHandler) unconnectedService(serviceP *CIPService, item CIPItem
 		if err != nil {
 			return fmt.Errorf("error getting path size 305. %w", err)
 		}
-		path := make([]byte, pathsize*2)
+		path := make([]byte, int(pathsize)*2)
 		err = item.DeSerialize(&path)
 		if err != nil {
 			return fmt.Errorf("error getting path. %w", err)
@@ -100,6 +100,15 @@ func (h *serverTCPHandler) unconnectedService(serviceP *CIPService, item CIPItem
 		if err != nil {
 			return fmt.Errorf("error getting embedded size. %w", err)
 		}
+		// the message to pass on comes first and is padded to whole words, where to comes after it.
+		rest := item.Rest()
+		messageEnd := int(embedded_size)
+		routeStart := messageEnd + messageEnd%2
+		if routeStart > len(rest) {
+			return fmt.Errorf("embedded message of %d bytes in %d", embedded_size, len(rest))
+		}
+		route := CIPItem{Header: item.Header, Data: rest[routeStart:]}
+		item = CIPItem{Header: item.Header, Data: rest[:messageEnd]}
 		var emService CIPService
 		err = item.DeSerialize(&emService)
 		if err != nil {
@@ -108,9 +117,9 @@ func (h *serverTCPHandler) unconnectedService(serviceP *CIPService, item CIPItem
 		*serviceP = emService
 		switch emService {
 		case CIPService_Write:
-			return h.unconnectedServiceWrite(item)
+			return h.unconnectedServiceWrite(item, route)
 		case CIPService_Read:
-			return h.unconnectedServiceRead(item)
+			return h.unconnectedServiceRead(item, route)
 		case CIPService_GetAttributeSingle:
 			return h.unconnectedServiceGetAttrSingle(item)
 		case CIPService_SetAttributeSingle:
@@ -348,7 +357,7 @@ func buildIdentityGetAttributesAllResponse(attrs map[CIPAttribute]any) ([]byte,
 	return buf.Bytes(), nil
 }
 
-func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem) error {
+func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem, route CIPItem) error {
 	var reserved byte
 	err := item.DeSerialize(&reserved)
 	if err != nil {
@@ -363,13 +372,18 @@ func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem) error {
 		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
 	}
 	qty := uint16(len(results))
-	var path_size uint16
-	err = item.DeSerialize(&path_size)
+	var path_size byte
+	err = route.DeSerialize(&path_size)
 	if err != nil {
 		return fmt.Errorf("couldn't get path size 374. %w", err)
 	}
-	path := make([]byte, 2*path_size)
-	err = item.DeSerialize(&path)
+	var pad byte
+	err = route.DeSerialize(&pad)
+	if err != nil {
+		return fmt.Errorf("couldn't get path padding. %w", err)
+	}
+	path := make([]byte, 2*int(path_size))
+	err = route.DeSerialize(&path)
 	if err != nil {
 		return fmt.Errorf("couldn't get path. %w", err)
 	}
@@ -590,7 +604,7 @@ func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint16) (s
 	return tags[instance-1].Name, true
 }
 
-func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem) error {
+func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem, route CIPItem) error {
 	var reserved byte
 	err := item.DeSerialize(&reserved)
 	if err != nil {
@@ -605,13 +619,18 @@ func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("error getting write qty. %w", err)
 	}
-	var path_size uint16
-	err = item.DeSerialize(&path_size)
+	var path_size byte
+	err = route.DeSerialize(&path_size)
 	if err != nil {
 		return fmt.Errorf("couldn't get path size 374. %w", err)
 	}
-	path := make([]byte, 2*path_size)
-	err = item.DeSerialize(&path)
+	var pad byte
+	err = route.DeSerialize(&pad)
+	if err != nil {
+		return fmt.Errorf("couldn't get path padding. %w", err)
+	}
+	path := make([]byte, 2*int(path_size))
+	err = route.DeSerialize(&path)
 	if err != nil {
 		return fmt.Errorf("couldn't get path. %w", err)
 	}
-- 
2.43.0


From bab7d30565acadd496fe91c604c1f5d109aa39a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 42/74] fix: a write of several strings takes each from its 88
 bytes

---
 server_connected.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/server_connected.go b/server_connected.go
index 4a4896c..fb7e4d4 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -417,7 +417,7 @@ func (c cipStringArrayPacker) Bytes() []byte {
 //	[qty: uint16]
 //	for each element:
 //	    atomic: typ.readValue
-//	    STRING struct (CRC 0x0FCE): [LEN: uint32] [DATA: 82 bytes]
+//	    STRING struct (CRC 0x0FCE): [LEN: uint32] [DATA: 82 bytes] [padding: 2 bytes]
 //
 // For atomic writes type_info_length_bytes is 0 — the field doubles as the
 // high byte of the uint16 DataType the gologix client serializes — so the
@@ -460,6 +460,12 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 		if structCRC != cipStringStructCRC {
 			return nil, fmt.Errorf("server only supports STRING struct writes (CRC 0x%04X); got CRC 0x%04X", cipStringStructCRC, structCRC)
 		}
+		// Elements come with the alignment padding that follows DATA, as in
+		// the controller's memory, unless the data is too short for that.
+		pad := make([]byte, cipStringStructPad)
+		if len(item.Rest()) < int(qty)*cipStringTagDataLen {
+			pad = nil
+		}
 		for i := 0; i < int(qty); i++ {
 			var slen uint32
 			if err := item.DeSerialize(&slen); err != nil {
@@ -469,6 +475,9 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 			if err := item.DeSerialize(&data); err != nil {
 				return nil, fmt.Errorf("error reading STRING DATA for element %d: %w", i, err)
 			}
+			if err := item.DeSerialize(&pad); err != nil {
+				return nil, fmt.Errorf("error reading STRING padding for element %d: %w", i, err)
+			}
 			if slen > cipStringDataLen {
 				slen = cipStringDataLen
 			}
-- 
2.43.0


From 8a7c4fb5fe83e05e1197da331b736ba5a838fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:22 +0000
Subject: [PATCH 43/74] fix: the map tag provider writes and reads exactly the
 elements addressed

---
 server_router.go | 97 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 76 insertions(+), 21 deletions(-)

diff --git a/server_router.go b/server_router.go
index 1a9b5ae..418f2b9 100644
--- a/server_router.go
+++ b/server_router.go
@@ -104,12 +104,15 @@ func (p *MapTagProvider) TagRead(tag string, qty int16) (any, error) {
 
 	baseName, elemIdx, hasElem := parseElementTag(tag)
 
-	val, ok := p.Data[baseName]
+	val, ok := p.Data[p.key(baseName)]
 	if !ok {
 		return nil, fmt.Errorf("tag %v not in map", tag)
 	}
 
 	t := reflect.ValueOf(val)
+	if t.Kind() == reflect.Slice && qty < 1 {
+		return nil, fmt.Errorf("tag %v: cannot read %d elements", tag, qty)
+	}
 
 	if hasElem {
 		if t.Kind() != reflect.Slice {
@@ -127,14 +130,12 @@ func (p *MapTagProvider) TagRead(tag string, qty int16) (any, error) {
 		if qty == 1 {
 			return t.Index(elemIdx).Interface(), nil
 		}
-		return t.Slice(elemIdx, end).Interface(), nil
+		return copyElements(t, elemIdx, end), nil
 	}
 
 	if t.Kind() == reflect.Slice {
 		if int(qty) <= t.Len() {
-			values := reflect.Indirect(t)
-			v := values.Slice(0, int(qty))
-			return v.Interface(), nil
+			return copyElements(t, 0, int(qty)), nil
 		}
 		return nil, fmt.Errorf("too many elements requested %v > %v", qty, t.Len())
 	}
@@ -142,6 +143,28 @@ func (p *MapTagProvider) TagRead(tag string, qty int16) (any, error) {
 	return val, nil
 }
 
+// copyElements returns some elements of a slice. The slice itself must not get out of the lock, where it could change
+// under the reader.
+func copyElements(t reflect.Value, from, to int) any {
+	v := reflect.MakeSlice(t.Type(), to-from, to-from)
+	reflect.Copy(v, t.Slice(from, to))
+	return v.Interface()
+}
+
+// key returns the key of Data that the lower case tag name stands for. Names are not case sensitive, but Data may have
+// been filled in with names of any case.
+func (p *MapTagProvider) key(name string) string {
+	if _, ok := p.Data[name]; ok {
+		return name
+	}
+	for k := range p.Data {
+		if strings.ToLower(k) == name {
+			return k
+		}
+	}
+	return name
+}
+
 // this is a thread-safe way to write a value to a tag. Like TagRead, it
 // supports element addressing (`name[N]`) AND preserves the underlying
 // element type of an existing typed slice when the caller hands us a
@@ -159,6 +182,7 @@ func (p *MapTagProvider) TagWrite(tag string, value any) error {
 	}
 
 	baseName, elemIdx, hasElem := parseElementTag(tag)
+	baseName = p.key(baseName)
 
 	if hasElem {
 		existing, ok := p.Data[baseName]
@@ -172,42 +196,73 @@ func (p *MapTagProvider) TagWrite(tag string, value any) error {
 		if elemIdx < 0 || elemIdx >= ev.Len() {
 			return fmt.Errorf("tag %v: element index %d out of range [0..%d)", tag, elemIdx, ev.Len())
 		}
-		converted, err := convertToElement(value, ev.Type().Elem())
+		values, ok := value.([]any)
+		if !ok {
+			values = []any{value}
+		}
+		if elemIdx+len(values) > ev.Len() {
+			return fmt.Errorf("tag %v: %d elements from index %d but array has %d total", tag, len(values), elemIdx, ev.Len())
+		}
+		converted, err := convertElements(values, ev.Type().Elem())
 		if err != nil {
 			return fmt.Errorf("tag %v: %w", tag, err)
 		}
 		// Slices are reference types — mutating in place is safe under the
 		// lock and matches the in-place semantics of a Logix array write.
-		ev.Index(elemIdx).Set(reflect.ValueOf(converted))
+		reflect.Copy(ev.Slice(elemIdx, elemIdx+len(values)), converted)
 		return nil
 	}
 
-	// Full-tag write. If the new value is `[]any` AND the existing tag is a
-	// typed slice, coerce element-by-element to preserve the original type
-	// so subsequent reads still serialize cleanly.
+	// Full-tag write. If the new value is `[]any` or a single value AND the
+	// existing tag is a typed slice, coerce element-by-element to preserve
+	// the original type so subsequent reads still serialize cleanly. Fewer
+	// elements than the array has are the first ones of it.
+	values, isList := value.([]any)
 	if existing, ok := p.Data[baseName]; ok {
 		ev := reflect.ValueOf(existing)
 		nv := reflect.ValueOf(value)
-		if ev.Kind() == reflect.Slice && nv.Kind() == reflect.Slice &&
-			nv.Type().Elem().Kind() == reflect.Interface {
-			elemType := ev.Type().Elem()
-			out := reflect.MakeSlice(reflect.SliceOf(elemType), nv.Len(), nv.Len())
-			for i := 0; i < nv.Len(); i++ {
-				converted, err := convertToElement(nv.Index(i).Interface(), elemType)
-				if err != nil {
-					return fmt.Errorf("tag %v element %d: %w", tag, i, err)
-				}
-				out.Index(i).Set(reflect.ValueOf(converted))
+		if ev.Kind() == reflect.Slice && (isList || nv.Kind() != reflect.Slice) {
+			if !isList {
+				values = []any{value}
+			}
+			converted, err := convertElements(values, ev.Type().Elem())
+			if err != nil {
+				return fmt.Errorf("tag %v: %w", tag, err)
+			}
+			if len(values) <= ev.Len() {
+				reflect.Copy(ev, converted)
+			} else {
+				p.Data[baseName] = converted.Interface()
 			}
-			p.Data[baseName] = out.Interface()
 			return nil
 		}
 	}
 
+	if isList && len(values) > 0 {
+		// what becomes an array takes its type from its first element.
+		converted, err := convertElements(values, reflect.TypeOf(values[0]))
+		if err != nil {
+			return fmt.Errorf("tag %v: %w", tag, err)
+		}
+		value = converted.Interface()
+	}
 	p.Data[baseName] = value
 	return nil
 }
 
+// convertElements converts values to a slice of the given element type.
+func convertElements(values []any, elemType reflect.Type) (reflect.Value, error) {
+	out := reflect.MakeSlice(reflect.SliceOf(elemType), len(values), len(values))
+	for i := range values {
+		converted, err := convertToElement(values[i], elemType)
+		if err != nil {
+			return out, fmt.Errorf("element %d: %w", i, err)
+		}
+		out.Index(i).Set(reflect.ValueOf(converted))
+	}
+	return out, nil
+}
+
 // parseElementTag splits a tag name on the trailing `[N]` element
 // indexer that ioi.go's getTagFromPath appends when a CIP request
 // addresses a specific array element. Returns hasElem=false when the
-- 
2.43.0


From 4da2452afa272a48fd52a54e1dde80b92f78773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:27 +0000
Subject: [PATCH 44/74] fix: the map tag provider converts a value only to one
 that equals it

---
 server_router.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/server_router.go b/server_router.go
index 418f2b9..c9b7434 100644
--- a/server_router.go
+++ b/server_router.go
@@ -291,12 +291,24 @@ func convertToElement(value any, target reflect.Type) (any, error) {
 	if v.Type() == target {
 		return value, nil
 	}
-	if v.Type().ConvertibleTo(target) {
-		return v.Convert(target).Interface(), nil
+	if isNumber(v.Type()) && isNumber(target) {
+		c := v.Convert(target)
+		if c.Convert(v.Type()).Equal(v) && isNegative(c) == isNegative(v) {
+			return c.Interface(), nil
+		}
+		return nil, fmt.Errorf("%T %v is no %v", value, value, target)
 	}
 	return nil, fmt.Errorf("cannot convert %T to %v", value, target)
 }
 
+func isNumber(t reflect.Type) bool {
+	return t.Kind() >= reflect.Int && t.Kind() <= reflect.Float64 && t.Kind() != reflect.Uintptr
+}
+
+func isNegative(v reflect.Value) bool {
+	return v.CanInt() && v.Int() < 0 || v.CanFloat() && v.Float() < 0
+}
+
 // TagList implements the optional TagLister interface and returns a snapshot
 // of every tag this provider exposes, along with its CIP type code. Used by
 // the Symbol Object (Class 0x6B) GetInstanceAttributeList handler so external
-- 
2.43.0


From fd60960088db736deefd622add5bd55c00408f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 45/74] fix: the server reads a tag path by its size and knows
 four byte indexes

---
 ioi.go                | 43 +++++++++++++++++++++++++++++++++++++++++++
 server_connected.go   | 14 ++++----------
 server_unconnected.go | 14 ++------------
 3 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/ioi.go b/ioi.go
index 9a880c0..66def01 100644
--- a/ioi.go
+++ b/ioi.go
@@ -283,6 +283,29 @@ func getAsciiTagPart(item *CIPItem) (string, error) {
 	tag_str := string(b)
 	return tag_str, nil
 }
+
+// readTagPath reads the size of a path in words and then the tag path of that size.
+func readTagPath(item *CIPItem) (string, error) {
+	words, err := item.Byte()
+	if err != nil {
+		return "", fmt.Errorf("couldn't get path size: %w", err)
+	}
+	size := int(words) * 2
+	if size > len(item.Rest()) {
+		return "", fmt.Errorf("path of %d bytes in %d", size, len(item.Rest()))
+	}
+	path := CIPItem{Data: item.Rest()[:size]}
+	tag, err := getTagFromPath(&path)
+	if err != nil {
+		return "", err
+	}
+	if tag == "" || path.Pos != size {
+		return "", fmt.Errorf("path % x is no tag path", path.Data)
+	}
+	item.Pos += size
+	return tag, nil
+}
+
 func getTagFromPath(item *CIPItem) (string, error) {
 
 	tag_str := ""
@@ -299,6 +322,9 @@ morepath:
 			}
 			return "", fmt.Errorf("couldn't get path part type: %w", err)
 		}
+		if (tag_path_type == 0x28 || tag_path_type == 0x29 || tag_path_type == 0x2A) && tag_str == "" {
+			return "", errors.New("array index without a name")
+		}
 		switch tag_path_type {
 		case 0x28:
 			// one byte index
@@ -329,6 +355,23 @@ morepath:
 			} else {
 				tag_str = fmt.Sprintf("%s[%d]", tag_str, array_index)
 			}
+		case 0x2A:
+			// four byte index
+			var pad byte
+			err = item.DeSerialize(&pad)
+			if err != nil {
+				return "", fmt.Errorf("couldn't get padding: %w", err)
+			}
+			var array_index uint32
+			err = item.DeSerialize(&array_index)
+			if err != nil {
+				return "", fmt.Errorf("couldn't get array index: %w", err)
+			}
+			if tag_str[len(tag_str)-1] == ']' {
+				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
+			} else {
+				tag_str = fmt.Sprintf("%s[%d]", tag_str, array_index)
+			}
 		case 0x91:
 			// ascii portion of tag path
 			s, err := getAsciiTagPart(item)
diff --git a/server_connected.go b/server_connected.go
index fb7e4d4..2c291b7 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -7,14 +7,9 @@ import (
 )
 
 func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
-	var l byte // length in words
 	item := items[1]
-	err := item.DeSerialize(&l)
-	if err != nil {
-		return fmt.Errorf("problem deserializing item length %w", err)
-	}
 
-	tag, err := getTagFromPath(&item)
+	tag, err := readTagPath(&item)
 	if err != nil {
 		return fmt.Errorf("problem deserializing tag bytes %w", err)
 	}
@@ -286,13 +281,12 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 		h.server.Logger.Warn("error getting sequence ID", "error", err)
 		return h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 	}
-	var pathlen uint16
-	err = item.DeSerialize(&pathlen)
+	_, err = item.Byte() // the service
 	if err != nil {
-		h.server.Logger.Warn("error getting path len", "error", err)
+		h.server.Logger.Warn("error getting service", "error", err)
 		return h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 	}
-	tag, err := getTagFromPath(&item)
+	tag, err := readTagPath(&item)
 	if err != nil {
 		h.server.Logger.Warn("couldn't parse path", "error", err)
 		return h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
diff --git a/server_unconnected.go b/server_unconnected.go
index e3e87f9..cbe8cb5 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -358,12 +358,7 @@ func buildIdentityGetAttributesAllResponse(attrs map[CIPAttribute]any) ([]byte,
 }
 
 func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem, route CIPItem) error {
-	var reserved byte
-	err := item.DeSerialize(&reserved)
-	if err != nil {
-		return fmt.Errorf("error getting reserved byte. %w", err)
-	}
-	tag, err := getTagFromPath(&item)
+	tag, err := readTagPath(&item)
 	if err != nil {
 		return fmt.Errorf("couldn't parse path. %w", err)
 	}
@@ -605,12 +600,7 @@ func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint16) (s
 }
 
 func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem, route CIPItem) error {
-	var reserved byte
-	err := item.DeSerialize(&reserved)
-	if err != nil {
-		return fmt.Errorf("error getting reserved byte. %w", err)
-	}
-	tag, err := getTagFromPath(&item)
+	tag, err := readTagPath(&item)
 	if err != nil {
 		return fmt.Errorf("couldn't parse path. %w", err)
 	}
-- 
2.43.0


From 41e8650f679c5eebd800d460a70c3a73154efa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:00 +0000
Subject: [PATCH 46/74] fix: a multiple service request gives every part a
 result of its own

---
 server_connected.go   | 261 ++++++++++++++++++++++--------------------
 server_unconnected.go |  14 +--
 2 files changed, 137 insertions(+), 138 deletions(-)

diff --git a/server_connected.go b/server_connected.go
index 2c291b7..29b8cf6 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -18,7 +18,6 @@ func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
 	}
-	qty := uint16(len(results))
 	h.server.Logger.Debug("write", "tag", tag, "value", results)
 
 	if items[0].Header.ID != cipItem_ConnectionAddress {
@@ -40,16 +39,9 @@ func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem finding tag provider for %v(%v). %w", connID, conn.Path, err)
 	}
-	if qty > 1 {
-		err = p.TagWrite(tag, results)
-		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
-		}
-	} else {
-		err = p.TagWrite(tag, results[0])
-		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
-		}
+	err = writeTag(p, tag, results)
+	if err != nil {
+		return err
 	}
 
 	// path is part of the forward open we've previously received.
@@ -97,160 +89,170 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 	}
 
 	// need to handle this differently!
-	pb := make([]byte, pathlen*2)
+	pb := make([]byte, int(pathlen)*2)
 	err = item.DeSerialize(&pb)
 	if err != nil {
 		return fmt.Errorf("problem dumping path bytes from multi-svc header")
 	}
+	base := item.Pos // offsets count from here.
 	qty, err := item.Uint16()
 	if err != nil {
 		return fmt.Errorf("problem getting multisvc item count: %w", err)
 	}
-	offsets := make([]int16, qty)
+	offsets := make([]uint16, qty)
 	results := make([][]byte, qty)
+	failed := false
 	for i := range offsets {
-		offsets[i], err = item.Int16()
+		offsets[i], err = item.Uint16()
 		if err != nil {
 			return fmt.Errorf("problem getting multisvc offset for item %d: %w", i, err)
 		}
 	}
 
-	for i := range results {
-		item.Pos = int(offsets[i]) + 8 // seek to the start of the multi-service payload data.
-		var svc CIPService
-		err = item.DeSerialize(&svc)
-		if err != nil {
-			return fmt.Errorf("problem getting multiread service for item %d: %w", i, err)
+	// every part must be there before any of them is carried out.
+	parts := make([]CIPItem, qty)
+	for i := range parts {
+		start, end := base+int(offsets[i]), len(item.Data)
+		if i+1 < len(offsets) {
+			end = base + int(offsets[i+1])
 		}
+		if start < item.Pos || start >= end || end > len(item.Data) {
+			return fmt.Errorf("multisvc item %d is at %d to %d of %d bytes", i, start, end, len(item.Data))
+		}
+		parts[i] = CIPItem{Header: item.Header, Data: item.Data[start:end]}
+	}
 
-		svcReqSize, err := item.Byte()
+	// each part gets a result of its own. One that fails does not keep the others from being carried out.
+	for i := range results {
+		svc, result, err := h.embeddedService(p, &parts[i])
 		if err != nil {
-			return fmt.Errorf("problem getting service req payload size for item %d: %w", i, err)
+			h.server.Logger.Warn("multi service item failed", "item", i, "service", svc, "error", err)
+			status := CIPStatus_InvalidParameter
+			if errors.Is(err, errServiceNotSupported) {
+				status = CIPStatus_ServiceNotSupported
+			}
+			result = []byte{byte(svc.AsResponse()), 0x00, byte(status), 0x00}
+			failed = true
 		}
-		_ = svcReqSize // don't need this yet.  It is in 16 bit words.
+		results[i] = result
+	}
 
-		switch svc {
-		case CIPService_FragRead,
-			CIPService_Read:
-			tagname, err := getTagFromPath(&item)
-			if err != nil {
-				return fmt.Errorf("problem getting multiread tagname for item %d: %w", i, err)
-			}
-			qty, err := item.Uint16()
-			if err != nil {
-				return fmt.Errorf("error getting write qty: %w", err)
-			}
+	response := make([]any, int(qty)+2)
+	response[0] = qty
 
-			result, err := p.TagRead(tagname, int16(qty))
-			if err != nil {
-				return fmt.Errorf("problem getting data for %s from provider. %w", tagname, err)
-			}
+	pos := (int(qty) + 1) * 2
+	jump_table := make([]uint16, qty)
+	for i := range jump_table {
+		jump_table[i] = uint16(pos)
+		pos += len(results[i])
+	}
+	response[1] = jump_table
+	for i := range results {
+		response[2+i] = results[i]
+	}
 
-			// build this portion of the response msg
+	if failed {
+		return h.sendConnectedStatus(CIPService_MultipleService, seq, connection.TO, CIPStatus_EmbeddedServiceError, response...)
+	}
+	return h.sendConnectedReply(CIPService_MultipleService, seq, connection.TO, response...)
+}
 
-			typ, _ := GoVarToCIPType(result)
-			rhdr := msgMultiReadResult{Service: svc.AsResponse(), Status: 0, Type: typ}
-			b, err := Serialize(rhdr)
-			if err != nil {
-				return fmt.Errorf("problem serializing header for %s: %w", tagname, err)
-			}
-			if typ == CIPTypeSTRING {
-				var packed Serializable
-				switch x := result.(type) {
-				case string:
-					packed = cipStringPacker(x)
-				case []string:
-					packed = cipStringArrayPacker(x)
-				default:
-					return errors.New("expected a string but didn't get one")
-				}
-				b_dat, err := Serialize(packed)
-				if err != nil {
-					return fmt.Errorf("problem serializing data for %s: %w", tagname, err)
-				}
-				b.Truncate(4)
-				_, err = b_dat.WriteTo(b)
-				if err != nil {
-					return fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
-				}
-			} else {
-				b_dat, err := Serialize(result)
-				if err != nil {
-					return fmt.Errorf("problem serializing data for %s: %w", tagname, err)
-				}
-				_, err = b_dat.WriteTo(b)
-				if err != nil {
-					return fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
-				}
-			}
+var errServiceNotSupported = errors.New("service not supported")
+
+// embeddedService carries out one part of a multiple service request and returns the service and its reply.
+func (h *serverTCPHandler) embeddedService(p CIPEndpoint, item *CIPItem) (CIPService, []byte, error) {
+	var svc CIPService
+	err := item.DeSerialize(&svc)
+	if err != nil {
+		return 0, nil, fmt.Errorf("problem getting service: %w", err)
+	}
+	switch svc {
+	case CIPService_Read:
+		tagname, err := readTagPath(item)
+		if err != nil {
+			return svc, nil, fmt.Errorf("problem getting tagname: %w", err)
+		}
+		qty, err := item.Uint16()
+		if err != nil {
+			return svc, nil, fmt.Errorf("error getting read qty: %w", err)
+		}
 
-			results[i] = b.Bytes()
-		case CIPService_Write,
-			CIPService_FragWrite:
+		result, err := p.TagRead(tagname, int16(qty))
+		if err != nil {
+			return svc, nil, fmt.Errorf("problem getting data for %s from provider. %w", tagname, err)
+		}
 
-			tag, err := getTagFromPath(&item)
-			if err != nil {
-				return fmt.Errorf("problem deserializing tag bytes %w", err)
-			}
+		// build this portion of the response msg
 
-			var typ CIPType
-			err = item.DeSerialize(&typ)
-			if err != nil {
-				return fmt.Errorf("problem deserializing cip type %w", err)
+		typ, _ := GoVarToCIPType(result)
+		rhdr := msgMultiReadResult{Service: svc.AsResponse(), Status: 0, Type: typ}
+		b, err := Serialize(rhdr)
+		if err != nil {
+			return svc, nil, fmt.Errorf("problem serializing header for %s: %w", tagname, err)
+		}
+		if typ == CIPTypeSTRING {
+			var packed Serializable
+			switch x := result.(type) {
+			case string:
+				packed = cipStringPacker(x)
+			case []string:
+				packed = cipStringArrayPacker(x)
+			default:
+				return svc, nil, errors.New("expected a string but didn't get one")
 			}
-			var reserved byte
-			err = item.DeSerialize(&reserved)
+			b_dat, err := Serialize(packed)
 			if err != nil {
-				return fmt.Errorf("problem deserializing reserved byte %w", err)
+				return svc, nil, fmt.Errorf("problem serializing data for %s: %w", tagname, err)
 			}
-			var qty uint16
-			err = item.DeSerialize(&qty)
+			b.Truncate(4)
+			_, err = b_dat.WriteTo(b)
 			if err != nil {
-				return fmt.Errorf("problem deserializing element count %w", err)
+				return svc, nil, fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
 			}
-
-			writeTags := make([]any, qty)
-			for i := 0; i < int(qty); i++ {
-				writeTags[i], err = typ.readValue(&item)
-				if err != nil {
-					return fmt.Errorf("problem getting write element %d: %w", i, err)
-				}
+		} else {
+			b_dat, err := Serialize(result)
+			if err != nil {
+				return svc, nil, fmt.Errorf("problem serializing data for %s: %w", tagname, err)
 			}
-			h.server.Logger.Debug("Write", "tag", tag, "value", writeTags)
-
-			if qty > 1 {
-				err = p.TagWrite(tag, writeTags)
-				if err != nil {
-					return fmt.Errorf("problem writing tag %v. %w", tag, err)
-				}
-			} else {
-				err = p.TagWrite(tag, writeTags[0])
-				if err != nil {
-					return fmt.Errorf("problem writing tag %v. %w", tag, err)
-				}
+			_, err = b_dat.WriteTo(b)
+			if err != nil {
+				return svc, nil, fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
 			}
-
-			results[i] = []byte{byte(svc.AsResponse()), 0x00, 0x00, 0x00}
-
 		}
-
+		return svc, b.Bytes(), nil
+	case CIPService_Write:
+		tag, err := readTagPath(item)
+		if err != nil {
+			return svc, nil, fmt.Errorf("problem deserializing tag bytes %w", err)
+		}
+		values, err := parseWriteValues(item)
+		if err != nil {
+			return svc, nil, fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
+		}
+		err = writeTag(p, tag, values)
+		if err != nil {
+			return svc, nil, err
+		}
+		return svc, []byte{byte(svc.AsResponse()), 0x00, 0x00, 0x00}, nil
 	}
+	return svc, nil, errServiceNotSupported
+}
 
-	response := make([]any, qty+2)
-	response[0] = qty
-
-	pos := (int(qty) + 1) * 2
-	jump_table := make([]uint16, qty)
-	for i := range jump_table {
-		jump_table[i] = uint16(pos)
-		pos += len(results[i])
+// writeTag writes the values of a write request to a tag. A single one is not passed on as an array.
+func writeTag(p CIPEndpoint, tag string, values []any) error {
+	var err error
+	switch len(values) {
+	case 0:
+		err = errors.New("no elements")
+	case 1:
+		err = p.TagWrite(tag, values[0])
+	default:
+		err = p.TagWrite(tag, values)
 	}
-	response[1] = jump_table
-	for i := range results {
-		response[2+i] = results[i]
+	if err != nil {
+		return fmt.Errorf("problem writing tag %v. %w", tag, err)
 	}
-
-	return h.sendConnectedReply(CIPService_MultipleService, seq, connection.TO, response...)
+	return nil
 }
 
 // connectedRead handles both CIPService_Read (0x4C) and CIPService_FragRead
@@ -491,11 +493,16 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 }
 
 func (h *serverTCPHandler) sendConnectedReply(s CIPService, seq uint16, connID uint32, payload ...any) error {
+	return h.sendConnectedStatus(s, seq, connID, CIPStatus_OK, payload...)
+}
+
+func (h *serverTCPHandler) sendConnectedStatus(s CIPService, seq uint16, connID uint32, status CIPStatus, payload ...any) error {
 	items := make([]CIPItem, 2)
 	items[0] = newItem(cipItem_ConnectionAddress, connID)
 	items[1] = newItem(cipItem_ConnectedData, seq)
 	resp := msgUnconnWriteResultHeader{
 		Service: s.AsResponse(),
+		Status:  status,
 	}
 	err := items[1].Serialize(resp)
 	if err != nil {
diff --git a/server_unconnected.go b/server_unconnected.go
index cbe8cb5..8d66cde 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -366,7 +366,6 @@ func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem, route CIPItem)
 	if err != nil {
 		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
 	}
-	qty := uint16(len(results))
 	var path_size byte
 	err = route.DeSerialize(&path_size)
 	if err != nil {
@@ -389,16 +388,9 @@ func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem, route CIPItem)
 		return h.sendUnconnectedErrorReply(CIPService_Write, CIPStatus_PathDestinationUnknown)
 	}
 	p := provider
-	if qty > 1 {
-		err = p.TagWrite(tag, results)
-		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
-		}
-	} else {
-		err = p.TagWrite(tag, results[0])
-		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
-		}
+	err = writeTag(p, tag, results)
+	if err != nil {
+		return err
 	}
 
 	return h.sendUnconnectedRRDataReply(CIPService_Write)
-- 
2.43.0


From 4723ef4f5809f40614fe28c4e7675d6042360fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:08 +0000
Subject: [PATCH 47/74] fix: a reply that is too large for a message is refused

---
 server.go             | 3 +++
 server_connected.go   | 7 +++++++
 server_unconnected.go | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/server.go b/server.go
index e0e4232..b6f39b4 100644
--- a/server.go
+++ b/server.go
@@ -533,6 +533,9 @@ func (h *serverTCPHandler) sendUnitDataReplyWithPayload(s CIPService, payload []
 	if err := items[1].Serialize(payload); err != nil {
 		return fmt.Errorf("serialize connected reply payload: %w", err)
 	}
+	if len(items[1].Data) > maxReplyItem {
+		return h.sendUnitDataErrorReply(s, CIPStatus_ReplyDataTooLarge)
+	}
 	itemData, err := serializeItems(items)
 	if err != nil {
 		return fmt.Errorf("serialize connected reply items: %w", err)
diff --git a/server_connected.go b/server_connected.go
index 29b8cf6..d6329c6 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -492,6 +492,10 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 	return results, nil
 }
 
+// maxReplyItem is the size of the data item with which a reply still fits into one message, whose length has 16 bits.
+// The headers of the items take 20 bytes of it.
+const maxReplyItem = 65535 - 20
+
 func (h *serverTCPHandler) sendConnectedReply(s CIPService, seq uint16, connID uint32, payload ...any) error {
 	return h.sendConnectedStatus(s, seq, connID, CIPStatus_OK, payload...)
 }
@@ -514,6 +518,9 @@ func (h *serverTCPHandler) sendConnectedStatus(s CIPService, seq uint16, connID
 			return fmt.Errorf("problem serializing unconnected data payload. %w", err)
 		}
 	}
+	if len(items[1].Data) > maxReplyItem {
+		return h.sendConnectedError(s, seq, connID, CIPStatus_ReplyDataTooLarge, 0)
+	}
 	itemdata, err := serializeItems(items)
 	if err != nil {
 		return fmt.Errorf("could not serialize items: %w", err)
diff --git a/server_unconnected.go b/server_unconnected.go
index 8d66cde..4eb7f45 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -696,6 +696,9 @@ func (h *serverTCPHandler) sendUnconnectedRRDataReply(s CIPService, payload ...a
 			return fmt.Errorf("problem serializing unconnected data payload. %w", err)
 		}
 	}
+	if len(items[1].Data) > maxReplyItem {
+		return h.sendUnconnectedErrorReply(s, CIPStatus_ReplyDataTooLarge)
+	}
 	itemdata, err := serializeItems(items)
 	if err != nil {
 		return err
-- 
2.43.0


From b81bf7af889b9f7370f8f51fbd19cfcd13c57ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:05 +0000
Subject: [PATCH 48/74] fix: a fragmented read starts at its offset

---
 server_connected.go | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/server_connected.go b/server_connected.go
index d6329c6..94c8dfa 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -299,6 +299,14 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 		h.server.Logger.Warn("error getting write qty", "error", err)
 		return h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 	}
+	var offset uint32 // a fragmented read starts at this byte of the data
+	if reqSvc == CIPService_FragRead {
+		offset, err = item.Uint32()
+		if err != nil {
+			h.server.Logger.Warn("error getting offset", "error", err)
+			return h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
+		}
+	}
 
 	path := connection.Path
 
@@ -315,6 +323,10 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 	}
 	typ, _ := GoVarToCIPType(result)
 
+	if reqSvc == CIPService_FragRead {
+		return h.sendFragment(seq, connection.TO, result, offset)
+	}
+
 	if typ == CIPTypeSTRING {
 		// Single STRING — the common case for atomic tag reads.
 		if res_str, ok := result.(string); ok {
@@ -332,6 +344,37 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 	}
 }
 
+// sendFragment answers a fragmented read with as much of a value's data as fits into a reply, from the byte at offset on.
+func (h *serverTCPHandler) sendFragment(seq uint16, connID uint32, value any, offset uint32) error {
+	var header, data []byte
+	elementSize := 8 // or a divisor of that
+	switch x := value.(type) {
+	case string:
+		header, data = cipStringPacker(x).Bytes()[:4], cipStringPacker(x).Bytes()[4:]
+		elementSize = cipStringTagDataLen
+	case []string:
+		header, data = cipStringArrayPacker(x).Bytes()[:4], cipStringArrayPacker(x).Bytes()[4:]
+		elementSize = cipStringTagDataLen
+	default:
+		typ, _ := GoVarToCIPType(value)
+		b, err := Serialize(value)
+		if err != nil {
+			return fmt.Errorf("problem serializing %T: %w", value, err)
+		}
+		header, data = []byte{byte(typ), 0}, b.Bytes()
+	}
+	if uint64(offset) > uint64(len(data)) {
+		return h.sendConnectedError(CIPService_FragRead, seq, connID, CIPStatus_InvalidParameter, 0)
+	}
+	data = data[offset:]
+	status := CIPStatus_OK
+	if room := maxReplyItem - 6 - len(header); len(data) > room {
+		data = data[:room-room%elementSize]
+		status = CIPStatus_PartialTransfer
+	}
+	return h.sendConnectedStatus(CIPService_FragRead, seq, connID, status, header, data)
+}
+
 // cipStringStructCRC is the StructTypeCRC the Logix STRING UDT serializes
 // with on the wire (see lgxtypes.STRING.TypeAbbr). External CIP clients
 // (pylogix, Kepware, Ignition, MSG instructions) tag both reads and
-- 
2.43.0


From 309f9126cc647130d38afadd049c9c9c2ad195a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:43 +0000
Subject: [PATCH 49/74] fix: a panic on one connection does not end the server

---
 server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server.go b/server.go
index b6f39b4..051bfd9 100644
--- a/server.go
+++ b/server.go
@@ -124,6 +124,12 @@ func (srv *Server) serveTCP() error {
 		// create a new handler and kick off its serve method to handle the connection
 		h := serverTCPHandler{conn: conn, server: srv}
 		go func() {
+			// what one peer sends must not end the whole program.
+			defer func() {
+				if r := recover(); r != nil {
+					srv.Logger.Error("panic on connection", "remote addr", h.conn.RemoteAddr().String(), "panic", r)
+				}
+			}()
 			err := h.serve(srv)
 			if err != nil {
 				srv.Logger.Warn("Error on connection %v. %v", h.conn.RemoteAddr().String(), err)
-- 
2.43.0


From 70a30c7b21903c786ebca7a9d4bac59222d4a377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:21 +0000
Subject: [PATCH 50/74] fix: an I/O packet is read to its own end

---
 server.go           | 3 +--
 server_io.go        | 2 +-
 server_iochannel.go | 2 +-
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/server.go b/server.go
index 051bfd9..045981d 100644
--- a/server.go
+++ b/server.go
@@ -150,7 +150,6 @@ func (srv *Server) serveUDP() error {
 	bufSize := 4096
 	for {
 		b := make([]byte, 4096)
-		buf := bytes.NewBuffer(b)
 		n, addr, err := srv.UDPListener.ReadFrom(b)
 		if n == 0 {
 			srv.Logger.Debug("Read 0 bytes on udp listener.")
@@ -167,7 +166,7 @@ func (srv *Server) serveUDP() error {
 		_ = addr // don't need this yet.
 		// we've read a packet on udp so we need to parse the eip data
 
-		items, err := readItems(buf)
+		items, err := readItems(bytes.NewBuffer(b[:n]))
 		if err != nil {
 			srv.Logger.Debug("problem reading udp items", "error", err)
 			continue
diff --git a/server_io.go b/server_io.go
index cde4d06..ab3a73c 100644
--- a/server_io.go
+++ b/server_io.go
@@ -58,7 +58,7 @@ func (p *IOProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem getting header. %w", err)
 	}
-	payload := make([]byte, items[1].Header.Length-6)
+	payload := make([]byte, len(items[1].Rest()))
 	err = items[1].DeSerialize(&payload)
 	if err != nil {
 		return fmt.Errorf("problem getting raw data. %w", err)
diff --git a/server_iochannel.go b/server_iochannel.go
index 2c2d9ff..8d0fe5b 100644
--- a/server_iochannel.go
+++ b/server_iochannel.go
@@ -58,7 +58,7 @@ func (p *IOChannelProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem getting header. %w", err)
 	}
-	payload := make([]byte, items[1].Header.Length-6)
+	payload := make([]byte, len(items[1].Rest()))
 	err = items[1].DeSerialize(&payload)
 	if err != nil {
 		return fmt.Errorf("problem getting raw data. %w", err)
-- 
2.43.0


From 7168bb78f05d7a89f38fb059aee01728e1d06aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 51/74] fix: output data reaches every channel that waits for
 it

---
 server_iochannel.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/server_iochannel.go b/server_iochannel.go
index 8d0fe5b..c3dcb9b 100644
--- a/server_iochannel.go
+++ b/server_iochannel.go
@@ -20,6 +20,7 @@ import (
 type IOChannelProvider[Tin, Tout any] struct {
 	inMutex     sync.Mutex
 	in          Tin
+	outMutex    sync.Mutex
 	outChannels []chan Tout
 }
 
@@ -70,13 +71,20 @@ func (p *IOChannelProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem unpacking data into output struct %w", err)
 	}
+	p.outMutex.Lock()
+	defer p.outMutex.Unlock()
+	missed := 0
 	for i := range p.outChannels {
 		select {
 		case p.outChannels[i] <- out:
 		default:
-			return errors.New("problem sending IOWrite data. channel full?")
+			// the others get it all the same.
+			missed++
 		}
 	}
+	if missed > 0 {
+		return fmt.Errorf("problem sending IOWrite data to %d of %d channels. channel full?", missed, len(p.outChannels))
+	}
 
 	return nil
 }
@@ -93,6 +101,8 @@ func (p *IOChannelProvider[Tin, Tout]) TagWrite(tag string, value any) error {
 // this output data is what the PLC is writing to us
 func (p *IOChannelProvider[Tin, Tout]) GetOutputDataChannel() <-chan Tout {
 	newout := make(chan Tout)
+	p.outMutex.Lock()
+	defer p.outMutex.Unlock()
 	p.outChannels = append(p.outChannels, newout)
 	return newout
 }
-- 
2.43.0


From 27840b5ee7b8732b287cfb7de33b007073cced97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:09 +0000
Subject: [PATCH 52/74] fix: the attribute bridge reads arrays of strings and
 takes whole instance numbers

---
 server_unconnected.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/server_unconnected.go b/server_unconnected.go
index 4eb7f45..2151926 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -438,7 +438,7 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
 	// (`CIA:C8:<instance>:1`) without going through the Rockwell-only
 	// Service 0x4B/0x64 tag-browsing extension.
 	if cls == 0xC8 {
-		tagName, found := h.resolveSymbolicTagFromCustomClass(uint16(inst))
+		tagName, found := h.resolveSymbolicTagFromCustomClass(uint32(inst))
 		if !found {
 			return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_PathDestinationUnknown)
 		}
@@ -458,6 +458,9 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
 			if s, ok := val.(string); ok {
 				return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, cipStringPacker(s))
 			}
+			if ss, ok := val.([]string); ok {
+				return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, cipStringArrayPacker(ss))
+			}
 		}
 		return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, typ, byte(0), val)
 	}
@@ -527,7 +530,7 @@ func (h *serverTCPHandler) unconnectedServiceSetAttrSingle(item CIPItem) error {
 	if attr != 1 {
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_AttributeNotSupported)
 	}
-	tagName, found := h.resolveSymbolicTagFromCustomClass(uint16(inst))
+	tagName, found := h.resolveSymbolicTagFromCustomClass(uint32(inst))
 	if !found {
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_PathDestinationUnknown)
 	}
@@ -574,7 +577,7 @@ var defaultLocalPath = []byte{1, 0}
 // Returns ok=false if the provider doesn't implement TagLister (no
 // browsable tag set), if the instance is out of range, or if the index
 // arithmetic underflows.
-func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint16) (string, bool) {
+func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint32) (string, bool) {
 	provider, err := h.server.Router.Resolve(defaultLocalPath)
 	if err != nil {
 		return "", false
@@ -585,7 +588,7 @@ func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint16) (s
 	}
 	tags := lister.TagList()
 	sort.Slice(tags, func(i, j int) bool { return tags[i].Name < tags[j].Name })
-	if instance == 0 || int(instance) > len(tags) {
+	if instance == 0 || instance > uint32(len(tags)) {
 		return "", false
 	}
 	return tags[instance-1].Name, true
-- 
2.43.0


From a17337893b1573ebec6c62d3cabf8c221b2f1f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:48 +0000
Subject: [PATCH 53/74] fix: a fragmented read works as a part of a multiple
 service request

---
 server_connected.go | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/server_connected.go b/server_connected.go
index 94c8dfa..002a337 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -167,7 +167,8 @@ func (h *serverTCPHandler) embeddedService(p CIPEndpoint, item *CIPItem) (CIPSer
 		return 0, nil, fmt.Errorf("problem getting service: %w", err)
 	}
 	switch svc {
-	case CIPService_Read:
+	case CIPService_FragRead,
+		CIPService_Read:
 		tagname, err := readTagPath(item)
 		if err != nil {
 			return svc, nil, fmt.Errorf("problem getting tagname: %w", err)
@@ -182,6 +183,18 @@ func (h *serverTCPHandler) embeddedService(p CIPEndpoint, item *CIPItem) (CIPSer
 			return svc, nil, fmt.Errorf("problem getting data for %s from provider. %w", tagname, err)
 		}
 
+		if svc == CIPService_FragRead {
+			offset, err := item.Uint32()
+			if err != nil {
+				return svc, nil, fmt.Errorf("error getting read offset: %w", err)
+			}
+			status, data, err := fragment(result, offset)
+			if err != nil {
+				return svc, nil, err
+			}
+			return svc, append([]byte{byte(svc.AsResponse()), 0x00, byte(status), 0x00}, data...), nil
+		}
+
 		// build this portion of the response msg
 
 		typ, _ := GoVarToCIPType(result)
@@ -344,8 +357,19 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 	}
 }
 
-// sendFragment answers a fragmented read with as much of a value's data as fits into a reply, from the byte at offset on.
+// sendFragment answers a fragmented read with a value's data from the byte at offset on.
 func (h *serverTCPHandler) sendFragment(seq uint16, connID uint32, value any, offset uint32) error {
+	status, data, err := fragment(value, offset)
+	if err != nil {
+		h.server.Logger.Warn("problem with fragmented read", "error", err)
+		return h.sendConnectedError(CIPService_FragRead, seq, connID, CIPStatus_InvalidParameter, 0)
+	}
+	return h.sendConnectedStatus(CIPService_FragRead, seq, connID, status, data)
+}
+
+// fragment returns the type of a value and as much of its data, from the byte at offset on, as fits into a reply. The
+// status tells whether that is all.
+func fragment(value any, offset uint32) (CIPStatus, []byte, error) {
 	var header, data []byte
 	elementSize := 8 // or a divisor of that
 	switch x := value.(type) {
@@ -359,12 +383,12 @@ func (h *serverTCPHandler) sendFragment(seq uint16, connID uint32, value any, of
 		typ, _ := GoVarToCIPType(value)
 		b, err := Serialize(value)
 		if err != nil {
-			return fmt.Errorf("problem serializing %T: %w", value, err)
+			return 0, nil, fmt.Errorf("problem serializing %T: %w", value, err)
 		}
 		header, data = []byte{byte(typ), 0}, b.Bytes()
 	}
 	if uint64(offset) > uint64(len(data)) {
-		return h.sendConnectedError(CIPService_FragRead, seq, connID, CIPStatus_InvalidParameter, 0)
+		return 0, nil, fmt.Errorf("offset %d in %d bytes", offset, len(data))
 	}
 	data = data[offset:]
 	status := CIPStatus_OK
@@ -372,7 +396,7 @@ func (h *serverTCPHandler) sendFragment(seq uint16, connID uint32, value any, of
 		data = data[:room-room%elementSize]
 		status = CIPStatus_PartialTransfer
 	}
-	return h.sendConnectedStatus(CIPService_FragRead, seq, connID, status, header, data)
+	return status, append(header, data...), nil
 }
 
 // cipStringStructCRC is the StructTypeCRC the Logix STRING UDT serializes
-- 
2.43.0


From 20e4bcbce1f6da0c7ec5499b46b8fa6b2e229908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:02 +0000
Subject: [PATCH 54/74] fix: the length of a string never exceeds the data that
 follows it

---
 items.go | 3 ++-
 pack.go  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/items.go b/items.go
index 98c86f9..8231334 100644
--- a/items.go
+++ b/items.go
@@ -227,7 +227,8 @@ func (item *CIPItem) Serialize(strs ...any) error {
 	for _, str := range strs {
 		switch x := str.(type) {
 		case string:
-			strLen := uint32(len(x))
+			// LEN must not claim more than the 84 bytes that follow it.
+			strLen := uint32(min(len(x), 84))
 			err := binary.Write(item, binary.LittleEndian, strLen)
 			if err != nil {
 				return fmt.Errorf("problem writing string header: %v", err)
diff --git a/pack.go b/pack.go
index caf2fa4..f73e042 100644
--- a/pack.go
+++ b/pack.go
@@ -59,7 +59,8 @@ func Serialize(strs ...any) (*bytes.Buffer, error) {
 	for _, str := range strs {
 		switch serializable_str := str.(type) {
 		case string:
-			strlen := uint32(len(serializable_str))
+			// LEN must not claim more than the 84 bytes that follow it.
+			strlen := uint32(min(len(serializable_str), 84))
 			err := binary.Write(b, binary.LittleEndian, strlen)
 			if err != nil {
 				return nil, fmt.Errorf("problem writing string header: %w", err)
-- 
2.43.0


From aece3c1328e04917451361c146d04b0554480aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:55 +0000
Subject: [PATCH 55/74] fix: attribute requests understand class, instance and
 attribute numbers above 255

---
 server_connected.go   | 21 ++--------------
 server_unconnected.go | 56 +++++++++++++++++++++----------------------
 2 files changed, 30 insertions(+), 47 deletions(-)

diff --git a/server_connected.go b/server_connected.go
index 002a337..6f7e3f1 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -650,32 +650,15 @@ func (h *serverTCPHandler) getAttrSingle(connection *serverConnection, item CIPI
 		return fmt.Errorf("couldn't read data len: %w", err)
 	}
 
-	if path_size != 3 {
-		return fmt.Errorf("currently only support getattrsingle path size of 3. got %d", path_size)
-	}
-
-	var cls CIPClass
-	err = cls.Read(&item)
-	if err != nil {
-		return fmt.Errorf("could not read class: %w", err)
-	}
-
-	var inst CIPInstance
-	err = inst.Read(&item)
+	cls, inst, attr, err := readAttributePath(&item, path_size)
 	if err != nil {
-		return fmt.Errorf("could not read instance: %w", err)
+		return fmt.Errorf("problem with the path of getattrsingle: %w", err)
 	}
 
 	if cls != 1 || inst != 1 {
 		return fmt.Errorf("only support class 1 instance 1 so far. got %d:%d", cls, inst)
 	}
 
-	var attr CIPAttribute
-	err = attr.Read(&item)
-	if err != nil {
-		return fmt.Errorf("could not read attribute ID: %w", err)
-	}
-
 	result, ok := h.server.Attributes[attr]
 	if !ok {
 		return fmt.Errorf("bad attribute %d", attr)
diff --git a/server_unconnected.go b/server_unconnected.go
index 2151926..f03b938 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -397,6 +397,29 @@ func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem, route CIPItem)
 
 }
 
+// readAttributePath reads a path of words words that names an attribute. Numbers above 255 take a longer segment, so
+// the path can have more than three words.
+func readAttributePath(item *CIPItem, words byte) (cls CIPClass, inst CIPInstance, attr CIPAttribute, err error) {
+	path := make([]byte, int(words)*2)
+	if err = item.DeSerialize(&path); err != nil {
+		return 0, 0, 0, fmt.Errorf("could not read path: %w", err)
+	}
+	r := bytes.NewReader(path)
+	if err = cls.Read(r); err != nil {
+		return 0, 0, 0, fmt.Errorf("could not read class: %w", err)
+	}
+	if err = inst.Read(r); err != nil {
+		return 0, 0, 0, fmt.Errorf("could not read instance: %w", err)
+	}
+	if err = attr.Read(r); err != nil {
+		return 0, 0, 0, fmt.Errorf("could not read attribute ID: %w", err)
+	}
+	if r.Len() != 0 {
+		return 0, 0, 0, fmt.Errorf("unexpected %d bytes after the attribute", r.Len())
+	}
+	return cls, inst, attr, nil
+}
+
 func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
 
 	// CIP wire format for Get_Attribute_Single requests: 1-byte path size in
@@ -413,24 +436,12 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("couldn't read path size: %w", err)
 	}
-	if pathSize != 3 {
-		h.server.Logger.Debug("getattrsingle: unsupported path size", "size", pathSize)
+	cls, inst, attr, err := readAttributePath(&item, pathSize)
+	if err != nil {
+		h.server.Logger.Debug("getattrsingle: unsupported path", "size", pathSize, "error", err)
 		return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_PathSegmentError)
 	}
 
-	var cls CIPClass
-	if err := cls.Read(&item); err != nil {
-		return fmt.Errorf("could not read class: %w", err)
-	}
-	var inst CIPInstance
-	if err := inst.Read(&item); err != nil {
-		return fmt.Errorf("could not read instance: %w", err)
-	}
-	var attr CIPAttribute
-	if err := attr.Read(&item); err != nil {
-		return fmt.Errorf("could not read attribute ID: %w", err)
-	}
-
 	// Custom class 0xC8: per-tag attribute container — see
 	// resolveSymbolicTagFromCustomClass. This is the bridge that lets
 	// FactoryTalk View (and any other Get_Attribute_Single client) read
@@ -508,21 +519,10 @@ func (h *serverTCPHandler) unconnectedServiceSetAttrSingle(item CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("couldn't read path size: %w", err)
 	}
-	if pathSize != 3 {
+	cls, inst, attr, err := readAttributePath(&item, pathSize)
+	if err != nil {
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_PathSegmentError)
 	}
-	var cls CIPClass
-	if err := cls.Read(&item); err != nil {
-		return fmt.Errorf("could not read class: %w", err)
-	}
-	var inst CIPInstance
-	if err := inst.Read(&item); err != nil {
-		return fmt.Errorf("could not read instance: %w", err)
-	}
-	var attr CIPAttribute
-	if err := attr.Read(&item); err != nil {
-		return fmt.Errorf("could not read attribute ID: %w", err)
-	}
 
 	if cls != 0xC8 {
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_PathDestinationUnknown)
-- 
2.43.0


From e67baa2b5b3f8b1d263503806e06fb0706985843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:11 +0000
Subject: [PATCH 56/74] fix: an output packet changes the output data as a
 whole or not at all

---
 server_io.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server_io.go b/server_io.go
index ab3a73c..3d5d365 100644
--- a/server_io.go
+++ b/server_io.go
@@ -68,10 +68,13 @@ func (p *IOProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	p.OutMutex.Lock()
 	defer p.OutMutex.Unlock()
 
-	_, err = Unpack(b, p.Out)
+	// the output data changes as a whole or not at all.
+	out := *p.Out
+	_, err = Unpack(b, &out)
 	if err != nil {
 		return fmt.Errorf("problem unpacking data into output struct %w", err)
 	}
+	*p.Out = out
 
 	return nil
 }
-- 
2.43.0


From ab84127f954eb12af3bb982b8920264cbe7b3116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:42 +0000
Subject: [PATCH 57/74] fix: a connection's state is read under the lock it is
 written under

---
 server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 045981d..7e5b4a3 100644
--- a/server.go
+++ b/server.go
@@ -915,7 +915,10 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 	for {
 		seq++
 		<-t.C
-		if !conn.Open {
+		h.server.ConnMgr.Lock.RLock()
+		open := conn.Open
+		h.server.ConnMgr.Lock.RUnlock()
+		if !open {
 			h.server.Logger.Warn("connection closed. no longer sending IO messages", "conn", *conn)
 			return
 
-- 
2.43.0


From 9af4bc3fb9972964e5e5366bf11972861b4b5515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:14 +0000
Subject: [PATCH 58/74] fix: pack and unpack the elements of an array of
 structures one by one

---
 pack.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/pack.go b/pack.go
index f73e042..5886600 100644
--- a/pack.go
+++ b/pack.go
@@ -208,8 +208,26 @@ func Pack(w io.Writer, data any) (int, error) {
 			pos += rem
 		}
 
-		// finally, if the field is some sub-structure, recurse.  Otherwise we will write the data out
-		if k != reflect.Struct {
+		// finally, if the field is some sub-structure (or an array of them), recurse.  Otherwise we will write the data out
+		if k == reflect.Array && field.Type.Elem().Kind() == reflect.Struct {
+			arr := refVal.Field(i)
+			s = 0
+			for ai := 0; ai < arr.Len(); ai++ {
+				n, err := Pack(w, arr.Index(ai).Interface())
+				s += n
+				if err != nil {
+					return pos + s, fmt.Errorf("problem packing array element %d: %w", ai, err)
+				}
+				// every element starts on an aligned byte
+				if n%a != 0 {
+					_, err = w.Write(make([]byte, a-n%a))
+					if err != nil {
+						return pos + s, fmt.Errorf("problem writing array element padding. %w", err)
+					}
+					s += a - n%a
+				}
+			}
+		} else if k != reflect.Struct {
 			err := binary.Write(w, p.Order(), refVal.Field(i).Interface())
 			if err != nil {
 				return pos, fmt.Errorf("problem reading sub-structure. %v", err)
@@ -367,8 +385,13 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 			n += rem
 		}
 
-		// finally, if the field is some sub-structure, recurse.  Otherwise we will write the data out
-		if k != reflect.Struct {
+		// finally, if the field is some sub-structure (or an array of them), recurse.  Otherwise we will write the data out
+		if k == reflect.Array && field.Type.Elem().Kind() == reflect.Struct {
+			s, err = Unpack(r, refVal.Field(i).Slice(0, refVal.Field(i).Len()).Interface())
+			if err != nil {
+				return
+			}
+		} else if k != reflect.Struct {
 			//binary.Read(r, p.Order(), refVal.Field(i).Interface())
 			err = binary.Read(r, p.Order(), refVal.Field(i).Addr().Interface())
 			if err != nil {
-- 
2.43.0


From 4d60517dd1d8862092c8a01b2a719d85e2387d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:16 +0000
Subject: [PATCH 59/74] fix: report a write that failed while packing a
 serializable value

---
 pack.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pack.go b/pack.go
index 5886600..34cb3a1 100644
--- a/pack.go
+++ b/pack.go
@@ -102,10 +102,7 @@ func Pack(w io.Writer, data any) (int, error) {
 		return d.Pack(w)
 	case Serializable:
 		n, err := w.Write(d.Bytes())
-		if err != nil {
-			return 0, nil
-		}
-		return n, nil
+		return n, err
 	}
 
 	// keep track of how many bytes we've written.  This is so we can correct field alignment with padding bytes if needed
-- 
2.43.0


From 7e5b519023f3ecd0aec801b41abbb9f47e361c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:48 +0000
Subject: [PATCH 60/74] fix: skip padding completely when the reader gives it
 in parts

---
 pack.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pack.go b/pack.go
index 34cb3a1..d030191 100644
--- a/pack.go
+++ b/pack.go
@@ -287,7 +287,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 			n += s
 			align := p.Align(refType.Elem())
 			if s%align != 0 {
-				s, err = r.Read(make([]byte, align-s%align))
+				s, err = io.ReadFull(r, make([]byte, align-s%align))
 				if err != nil {
 					return n, fmt.Errorf("problem reading slice element padding: %w", err)
 				}
@@ -375,7 +375,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 		if rem < a && rem > 0 {
 			// need paddding bits
 			pad := make([]byte, rem)
-			_, err = r.Read(pad)
+			_, err = io.ReadFull(r, pad)
 			if err != nil {
 				return
 			}
-- 
2.43.0


From 21cddf999632ff4af789dea7c215757b1cfa109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:38 +0000
Subject: [PATCH 61/74] fix: an address in a route path that does not follow a
 port number is an error

---
 path.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/path.go b/path.go
index 5a5871a..ad068e6 100644
--- a/path.go
+++ b/path.go
@@ -70,11 +70,16 @@ func ParsePath(path string) (*bytes.Buffer, error) {
 	parts := strings.Split(path, ",")
 
 	byte_path := make([]byte, 0, len(parts))
+	after_port := false // the last byte can be the port an address is the link of
 
 	for _, part := range parts {
 		// first see if this looks like an IP address.
 		is_ip := strings.Contains(part, ".")
 		if is_ip {
+			if !after_port {
+				return nil, fmt.Errorf("address %v does not follow a port number", part)
+			}
+			after_port = false
 			// for some god forsaken reason the path doesn't use the ip address as actual bytes but as an ascii string.
 			// we first have to set bit 5 in the previous byte to say we're using an extended address for this part.
 			last_pos := len(byte_path) - 1
@@ -95,6 +100,7 @@ func ParsePath(path string) (*bytes.Buffer, error) {
 			return nil, fmt.Errorf("number out of range. %v", part)
 		}
 		byte_path = append(byte_path, byte(val))
+		after_port = true
 	}
 
 	return bytes.NewBuffer(byte_path), nil
-- 
2.43.0


From 86d6221cbbd2b3cd21d115edd0b7c61b37511d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:39 +0000
Subject: [PATCH 62/74] fix: an address in a route path that is too long for
 its length byte is an error

---
 path.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/path.go b/path.go
index ad068e6..36005c2 100644
--- a/path.go
+++ b/path.go
@@ -86,6 +86,9 @@ func ParsePath(path string) (*bytes.Buffer, error) {
 			last_byte := byte_path[last_pos]
 			byte_path[last_pos] = last_byte | 1<<4
 			l := len(part)
+			if l > 255 {
+				return nil, fmt.Errorf("address too long. %v", part)
+			}
 			byte_path = append(byte_path, byte(l))
 			string_bytes := []byte(part)
 			byte_path = append(byte_path, string_bytes...)
-- 
2.43.0


From e98e73fcd9cb0e3595f08c686a5f2a0da32b0ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:40 +0000
Subject: [PATCH 63/74] fix: pad link addresses of odd length to whole words

---
 path.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/path.go b/path.go
index 36005c2..552559f 100644
--- a/path.go
+++ b/path.go
@@ -92,6 +92,10 @@ func ParsePath(path string) (*bytes.Buffer, error) {
 			byte_path = append(byte_path, byte(l))
 			string_bytes := []byte(part)
 			byte_path = append(byte_path, string_bytes...)
+			if l%2 != 0 {
+				// segments are a whole number of words. the pad byte isn't counted in the length.
+				byte_path = append(byte_path, 0)
+			}
 			continue
 		}
 		// not an IP address
-- 
2.43.0


From d6d661e81d1de3267a84bb8e008bc2a9d0e50f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:41 +0000
Subject: [PATCH 64/74] fix: element segments from 65536 on are 32 bit ones

---
 cip_definitions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cip_definitions.go b/cip_definitions.go
index 17f3279..cf56d77 100644
--- a/cip_definitions.go
+++ b/cip_definitions.go
@@ -112,7 +112,7 @@ func (p CIPElement) Bytes() []byte {
 	} else {
 
 		b := make([]byte, 6)
-		b[0] = byte(cipElement_16bit)
+		b[0] = byte(cipElement_32bit)
 		binary.LittleEndian.PutUint32(b[2:], uint32(p))
 		return b
 	}
@@ -121,7 +121,7 @@ func (p CIPElement) Bytes() []byte {
 func (p CIPElement) Len() int {
 	if p < 256 {
 		return 2
-	} else if p < 65535 {
+	} else if p < 65536 {
 		return 4
 	}
 	return 6
-- 
2.43.0


From c7c8e3b2fb24b1ac9245aa99825079e30e75a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:41 +0000
Subject: [PATCH 65/74] fix: a connection path that is too long for a forward
 open is an error

---
 connect.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/connect.go b/connect.go
index b14ecf1..6bd65c6 100644
--- a/connect.go
+++ b/connect.go
@@ -386,6 +386,9 @@ func (client *Client) newForwardOpenLarge() (CIPItem, error) {
 	if err != nil {
 		return item, fmt.Errorf("couldn't build path. %w", err)
 	}
+	if path.Len()/2 > 255 {
+		return item, fmt.Errorf("path of %d bytes is too long for a forward open", path.Len())
+	}
 
 	client.ConnectionSerialNumber = uint16(client.sequenceNumber.Add(1))
 	const (
@@ -465,6 +468,9 @@ func (client *Client) newForwardOpenStandard() (CIPItem, error) {
 	if err != nil {
 		return item, fmt.Errorf("couldn't build path. %w", err)
 	}
+	if path.Len()/2 > 255 {
+		return item, fmt.Errorf("path of %d bytes is too long for a forward open", path.Len())
+	}
 
 	client.ConnectionSerialNumber = uint16(client.sequenceNumber.Add(1))
 	const (
-- 
2.43.0


From 5e3235f1c1404ad19b02c110ce3229ba5cf8ee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:59 +0000
Subject: [PATCH 66/74] fix: refuse generic message paths that cannot be sent

---
 getattr.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/getattr.go b/getattr.go
index cb2b81c..4563308 100644
--- a/getattr.go
+++ b/getattr.go
@@ -423,6 +423,11 @@ func (e CIPStatusError) Error() string {
 // access. For standard tag operations, use Read(), Write(), and related functions.
 func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byte) (*CIPItem, error) {
 
+	// the path length is a byte that counts words.
+	if len(path)%2 != 0 || len(path)/2 > 255 {
+		return nil, fmt.Errorf("a path of %d bytes cannot be sent", len(path))
+	}
+
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
 	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
-- 
2.43.0


From 8e74308ec0b0a27b48af264d57865b3192f44a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:00 +0000
Subject: [PATCH 67/74] fix: guard what the client knows of tags, types and
 programs with its lock

---
 datatable.go       |  2 ++
 listallprograms.go |  2 +-
 listalltags.go     | 36 ++++++++++++++++++++++++++++++++----
 listmembers.go     |  4 ++++
 4 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/datatable.go b/datatable.go
index 7e7a60d..f49c8b1 100644
--- a/datatable.go
+++ b/datatable.go
@@ -98,7 +98,9 @@ func dataTableTypeSize(t CIPType) (uint16, error) {
 // Falls back to dataTableTypeSize() if the tag is not in KnownTags or has no UDT.
 func (buf *DataTableBuffer) resolveTypeSize(tagName string, cipType CIPType) (uint16, error) {
 	if cipType == CIPTypeSTRING || cipType == CIPTypeStruct {
+		buf.client.ioi_cache_lock.Lock()
 		kt, ok := buf.client.KnownTags[strings.ToLower(tagName)]
+		buf.client.ioi_cache_lock.Unlock()
 		if ok && kt.UDT != nil && kt.UDT.Info.SizeBytes > 0 {
 			return uint16(kt.UDT.Info.SizeBytes), nil
 		}
diff --git a/listallprograms.go b/listallprograms.go
index 4b1ee3d..d02b71b 100644
--- a/listallprograms.go
+++ b/listallprograms.go
@@ -54,7 +54,7 @@ func (client *Client) ListAllPrograms() error {
 		results[namestr] = &KnownProgram{ID: CIPInstance(hdr.InstanceID), Name: namestr}
 	}
 
-	client.KnownPrograms = results
+	client.setKnownPrograms(results)
 
 	return nil
 }
diff --git a/listalltags.go b/listalltags.go
index c2053eb..2d8665b 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -131,13 +131,13 @@ func (client *Client) listAllTags(start_instance uint32, fallbackProgramNames bo
 			var cipErr CIPStatusError
 			if errors.As(err, &cipErr) {
 				fallbackProgramNames = true
-				client.KnownPrograms = make(map[string]*KnownProgram)
+				client.setKnownPrograms(make(map[string]*KnownProgram))
 			} else {
 				return fmt.Errorf("problem listing programs: %w", err)
 			}
 		}
 		client.forgetKnown()
-		for _, p := range client.KnownPrograms {
+		for _, p := range client.listKnownPrograms() {
 			_, err := client.ListSubTags(p, 1)
 			if err != nil {
 				return fmt.Errorf("problem listing sub tags for %s: %w", p.Name, err)
@@ -286,7 +286,7 @@ func (client *Client) listAllTags(start_instance uint32, fallbackProgramNames bo
 					continue
 				}
 				p := &KnownProgram{Name: progName}
-				client.KnownPrograms[strings.ToLower(p.Name)] = p
+				client.addKnownProgram(p)
 				_, err := client.ListSubTags(p, 1)
 				if err != nil {
 					return fmt.Errorf("problem listing sub tags for %s: %w", p.Name, err)
@@ -314,7 +314,7 @@ func (client *Client) listAllTags(start_instance uint32, fallbackProgramNames bo
 			} else {
 				kt.UDT = &u
 				client.Logger.Debug("Successful member read for %s", "name", kt.Name)
-				client.KnownTypes[u.Name] = u
+				client.addKnownType(u)
 			}
 		}
 
@@ -352,6 +352,34 @@ func (client *Client) addKnownTag(kt KnownTag) {
 	client.KnownTags[strings.ToLower(kt.Name)] = kt
 }
 
+func (client *Client) addKnownType(u UDTDescriptor) {
+	client.ioi_cache_lock.Lock()
+	defer client.ioi_cache_lock.Unlock()
+	client.KnownTypes[u.Name] = u
+}
+
+func (client *Client) setKnownPrograms(programs map[string]*KnownProgram) {
+	client.ioi_cache_lock.Lock()
+	defer client.ioi_cache_lock.Unlock()
+	client.KnownPrograms = programs
+}
+
+func (client *Client) addKnownProgram(p *KnownProgram) {
+	client.ioi_cache_lock.Lock()
+	defer client.ioi_cache_lock.Unlock()
+	client.KnownPrograms[strings.ToLower(p.Name)] = p
+}
+
+func (client *Client) listKnownPrograms() []*KnownProgram {
+	client.ioi_cache_lock.Lock()
+	defer client.ioi_cache_lock.Unlock()
+	programs := make([]*KnownProgram, 0, len(client.KnownPrograms))
+	for _, p := range client.KnownPrograms {
+		programs = append(programs, p)
+	}
+	return programs
+}
+
 // per 1756-PM020H-EN-P page 43 there are some conditions in which we should discard the tags
 // because they aren't valid for reading/writing.
 func isValidTag(tag_string string, tag_ftr TagInfo) bool {
diff --git a/listmembers.go b/listmembers.go
index f3213bf..3850412 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -160,7 +160,9 @@ func (m msgMemberInfo) CIPType() CIPType {
 func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 	client.Logger.Debug("list members", "instance", str_instance)
 
+	client.ioi_cache_lock.Lock()
 	d, ok := client.KnownTypesByID[str_instance]
+	client.ioi_cache_lock.Unlock()
 	if ok {
 		return d, nil
 	}
@@ -221,7 +223,9 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		}
 	}
 
+	client.ioi_cache_lock.Lock()
 	client.KnownTypesByID[str_instance] = descriptor
+	client.ioi_cache_lock.Unlock()
 	return descriptor, nil
 }
 
-- 
2.43.0


From f40712dfc67782f210f17043fbd944ad4182dfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:32 +0000
Subject: [PATCH 68/74] fix: canned: report the status of the forces attribute

---
 canned/forces.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/canned/forces.go b/canned/forces.go
index 7311d7b..24e0ce5 100644
--- a/canned/forces.go
+++ b/canned/forces.go
@@ -35,6 +35,9 @@ func GetForces(client *gologix.Client) (ForceStatus, error) {
 	if err != nil {
 		return 0, fmt.Errorf("could not deserialize response: %v", err)
 	}
+	if response.Status != 0 {
+		return 0, fmt.Errorf("attribute %d has status 0x%X", response.ID, response.Status)
+	}
 
 	return response.Forces, nil
 
-- 
2.43.0


From fc19da0b6940d78f33862cd3480c9539bb7c2e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:09 +0000
Subject: [PATCH 69/74] fix: l5x: find the data of a tag by its format

---
 l5x/load_tags.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/l5x/load_tags.go b/l5x/load_tags.go
index 23db452..c2ddd53 100644
--- a/l5x/load_tags.go
+++ b/l5x/load_tags.go
@@ -12,11 +12,9 @@ func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 	tags := make(map[string]any)
 
 	for _, tag := range l5xData.Controller.Tags.Tag {
-		if tag.Data != nil {
-			if len(tag.Data) > 1 {
-				if tag.Data[1].DataValue != nil {
-					tags[tag.NameAttr], err = L5xTypeToGoType(tag.DataTypeAttr, tag.Data[1].DataValue.ValueAttr)
-				}
+		if data := decoratedData(tag); data != nil {
+			if data.DataValue != nil {
+				tags[tag.NameAttr], err = L5xTypeToGoType(tag.DataTypeAttr, data.DataValue.ValueAttr)
 			}
 		}
 		if err != nil {
@@ -30,19 +28,19 @@ func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 		for _, tag := range program.Tags.Tag {
 			tagname := tag.NameAttr
 			tagtype := tag.DataTypeAttr
-			if len(tag.Data) > 1 {
+			if data := decoratedData(tag); data != nil {
 				// could be an atomic value
-				if tag.Data[1].DataValue != nil {
-					progtags[tagname], err = L5xTypeToGoType(tagtype, tag.Data[1].DataValue.ValueAttr)
+				if data.DataValue != nil {
+					progtags[tagname], err = L5xTypeToGoType(tagtype, data.DataValue.ValueAttr)
 					if err != nil {
 						return nil, fmt.Errorf("error converting %s.%s: %s", progprefix, tagname, err)
 					}
 					continue
 				}
 				// or a structure
-				if tag.Data[1].Structure != nil {
+				if data.Structure != nil {
 					mapValue := make(map[string]any)
-					for _, member := range tag.Data[1].Structure.DataValueMember {
+					for _, member := range data.Structure.DataValueMember {
 						mapValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.ValueAttr)
 						if err != nil {
 							return nil, fmt.Errorf("error converting %s.%s.%s: %s", progprefix, tagname, member.NameAttr, err)
@@ -52,14 +50,14 @@ func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 					continue
 				}
 				// or an array of atomic values or structures
-				if tag.Data[1].Array != nil {
+				if data.Array != nil {
 
 					dims, err := strconv.ParseInt(tag.DimensionsAttr, 10, 64)
 					if err != nil {
 						return nil, fmt.Errorf("%s.%s invalid dimensions on %s: %s", progprefix, tagname, tag.DimensionsAttr, err)
 					}
 					arrValue := make([]any, 0, dims)
-					for _, element := range tag.Data[1].Array.Element {
+					for _, element := range data.Array.Element {
 						if element.Structure != nil {
 							// this is an array of structures
 							myValue := make(map[string]any)
@@ -97,6 +95,17 @@ func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 
 }
 
+// decoratedData returns the data of a tag in the decorated format, or nil. Which other formats come along, and before
+// it, depends on the options of the export.
+func decoratedData(tag *TagType) *DataWideType {
+	for _, data := range tag.Data {
+		if data.FormatAttr == "Decorated" {
+			return data
+		}
+	}
+	return nil
+}
+
 func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
 	dtm := GetDataTypeMap(l5xData)
 
-- 
2.43.0


From f1958419a996a146b44c58dad08ba803c8ad4123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:30 +0000
Subject: [PATCH 70/74] fix: l5x: read values displayed in other bases than ten

---
 l5x/types.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/l5x/types.go b/l5x/types.go
index f76db98..fc4696a 100644
--- a/l5x/types.go
+++ b/l5x/types.go
@@ -3,41 +3,60 @@ package l5x
 import (
 	"fmt"
 	"strconv"
+	"strings"
 )
 
+// parseInt reads an integer of so many bits as it is displayed with a radix: 2#1010_0101, 8#377, 16#0000_00ff or decimal.
+// Other than in decimal, negative values are displayed as the bits that they consist of.
+func parseInt(valuestr string, bits int) (int64, error) {
+	radix, digits, found := strings.Cut(valuestr, "#")
+	if !found {
+		return strconv.ParseInt(valuestr, 10, bits)
+	}
+	base, err := strconv.Atoi(radix)
+	if err != nil {
+		return 0, err
+	}
+	value, err := strconv.ParseUint(strings.ReplaceAll(digits, "_", ""), base, bits)
+	if err != nil {
+		return 0, err
+	}
+	return int64(value), nil
+}
+
 func L5xTypeToGoType(typestr string, valuestr string) (any, error) {
 	switch typestr {
 	case "REAL":
 		value, _ := strconv.ParseFloat(valuestr, 64)
 		return float64(value), nil
 	case "DINT":
-		value, _ := strconv.ParseInt(valuestr, 10, 32)
+		value, _ := parseInt(valuestr, 32)
 		return int32(value), nil
 	case "BOOL", "BIT":
 		value, _ := strconv.ParseBool(valuestr)
 		return bool(value), nil
 	case "INT":
-		value, _ := strconv.ParseInt(valuestr, 10, 16)
+		value, _ := parseInt(valuestr, 16)
 		return int16(value), nil
 	case "STRING":
 		return valuestr, nil
 	case "SINT":
-		value, _ := strconv.ParseInt(valuestr, 10, 8)
+		value, _ := parseInt(valuestr, 8)
 		return int8(value), nil
 	case "LINT":
-		value, _ := strconv.ParseInt(valuestr, 10, 64)
+		value, _ := parseInt(valuestr, 64)
 		return int64(value), nil
 	case "BYTE":
-		value, _ := strconv.ParseInt(valuestr, 10, 8)
+		value, _ := parseInt(valuestr, 8)
 		return uint8(value), nil
 	case "WORD":
-		value, _ := strconv.ParseInt(valuestr, 10, 16)
+		value, _ := parseInt(valuestr, 16)
 		return uint16(value), nil
 	case "DWORD":
-		value, _ := strconv.ParseInt(valuestr, 10, 32)
+		value, _ := parseInt(valuestr, 32)
 		return uint32(value), nil
 	case "LWORD":
-		value, _ := strconv.ParseInt(valuestr, 10, 64)
+		value, _ := parseInt(valuestr, 64)
 		return uint64(value), nil
 
 	default:
-- 
2.43.0


From ec81cebc4ef656930c8dc350f0b7f1692f7bcb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:51 +0000
Subject: [PATCH 71/74] fix: l5x: load files without some of the collections

---
 l5x/load_tags.go | 66 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 55 insertions(+), 11 deletions(-)

diff --git a/l5x/load_tags.go b/l5x/load_tags.go
index c2ddd53..12c447e 100644
--- a/l5x/load_tags.go
+++ b/l5x/load_tags.go
@@ -11,7 +11,7 @@ func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 	var err error
 	tags := make(map[string]any)
 
-	for _, tag := range l5xData.Controller.Tags.Tag {
+	for _, tag := range l5xData.Controller.Tags.tags() {
 		if data := decoratedData(tag); data != nil {
 			if data.DataValue != nil {
 				tags[tag.NameAttr], err = L5xTypeToGoType(tag.DataTypeAttr, data.DataValue.ValueAttr)
@@ -22,10 +22,10 @@ func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 		}
 	}
 
-	for _, program := range l5xData.Controller.Programs.Program {
+	for _, program := range l5xData.Controller.Programs.programs() {
 		progprefix := fmt.Sprintf("program:%s", program.NameAttr)
 		progtags := make(map[string]any)
-		for _, tag := range program.Tags.Tag {
+		for _, tag := range program.Tags.tags() {
 			tagname := tag.NameAttr
 			tagtype := tag.DataTypeAttr
 			if data := decoratedData(tag); data != nil {
@@ -112,7 +112,7 @@ func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
 	var err error
 	tags := make(map[string]string)
 
-	for _, module := range l5xData.Controller.Modules.Module {
+	for _, module := range l5xData.Controller.Modules.modules() {
 		if module.Communications == nil {
 			continue
 		}
@@ -157,7 +157,7 @@ func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
 		}
 	}
 
-	for _, tag := range l5xData.Controller.Tags.Tag {
+	for _, tag := range l5xData.Controller.Tags.tags() {
 
 		mydesc := ""
 		if tag.Data != nil {
@@ -177,10 +177,10 @@ func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
 		}
 	}
 
-	for _, program := range l5xData.Controller.Programs.Program {
+	for _, program := range l5xData.Controller.Programs.programs() {
 		progprefix := fmt.Sprintf("program:%s", program.NameAttr)
 		progtags := make(map[string]any)
-		for _, tag := range program.Tags.Tag {
+		for _, tag := range program.Tags.tags() {
 			tagname := tag.NameAttr
 			if len(tag.Description) > 1 {
 				comment := ""
@@ -203,7 +203,7 @@ func LoadRungComments(l5xData RSLogix5000Content) (map[string]string, error) {
 	comments := make(map[string]string)
 
 	taskLookup := make(map[string]string)
-	tasks := l5xData.Controller.Tasks.Task
+	tasks := l5xData.Controller.Tasks.tasks()
 	for _, task := range tasks {
 		if task.ScheduledPrograms == nil {
 			continue
@@ -213,8 +213,8 @@ func LoadRungComments(l5xData RSLogix5000Content) (map[string]string, error) {
 		}
 	}
 
-	for _, program := range l5xData.Controller.Programs.Program {
-		for _, routine := range program.Routines.Routine {
+	for _, program := range l5xData.Controller.Programs.programs() {
+		for _, routine := range program.Routines.routines() {
 			for _, rungContent := range routine.RLLContent {
 				for _, rung := range rungContent.Rung {
 					for _, comment := range rung.Comment {
@@ -237,7 +237,7 @@ func LoadRungComments(l5xData RSLogix5000Content) (map[string]string, error) {
 func GetDataTypeMap(l5xData RSLogix5000Content) map[string]*DataTypeType {
 	dataTypes := make(map[string]*DataTypeType)
 
-	for _, dataType := range l5xData.Controller.DataTypes.DataType {
+	for _, dataType := range l5xData.Controller.DataTypes.dataTypes() {
 		dataTypes[dataType.NameAttr] = dataType
 	}
 
@@ -312,3 +312,47 @@ func GetTypeComments(types map[string]*DataTypeType, typeName string) map[string
 	}
 	return out
 }
+
+// Any collection can be missing from a file, depending on what was exported.
+
+func (c *TagCollectionType) tags() []*TagType {
+	if c == nil {
+		return nil
+	}
+	return c.Tag
+}
+
+func (c *ProgramCollectionType) programs() []*AProgramType {
+	if c == nil {
+		return nil
+	}
+	return c.Program
+}
+
+func (c *RoutineCollectionType) routines() []*RoutineType {
+	if c == nil {
+		return nil
+	}
+	return c.Routine
+}
+
+func (c *MapDeviceCollectionType) modules() []*MapDeviceType {
+	if c == nil {
+		return nil
+	}
+	return c.Module
+}
+
+func (c *TaskCollectionType) tasks() []*TaskType {
+	if c == nil {
+		return nil
+	}
+	return c.Task
+}
+
+func (c *DataTypeCollectionType) dataTypes() []*DataTypeType {
+	if c == nil {
+		return nil
+	}
+	return c.DataType
+}
-- 
2.43.0


From a9afba123ddef74099e76eca39275c81d684e3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:49 +0000
Subject: [PATCH 72/74] fix: the number of a structure names the hidden byte of
 booleans after an array

---
 pack.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pack.go b/pack.go
index d030191..a3453a9 100644
--- a/pack.go
+++ b/pack.go
@@ -460,6 +460,7 @@ func TypeEncode(data any) (string, uint16, error) {
 				at, _, _ = TypeEncode(arr.Index(0).Interface())
 			}
 			encoded += fmt.Sprintf(",%s[%d]", at, arr.Len())
+			bitpos = 0
 			continue
 		case reflect.Bool:
 			// try to pack bools
-- 
2.43.0


From 99c7075e2f9e619bad2b407d6dc5d3bbb2896aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:21 +0000
Subject: [PATCH 73/74] fix: the number of a structure names members of
 declared number types

---
 pack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack.go b/pack.go
index a3453a9..236ed8b 100644
--- a/pack.go
+++ b/pack.go
@@ -499,7 +499,7 @@ func TypeEncode(data any) (string, uint16, error) {
 }
 
 func goTypeToLogixTypeName(t reflect.Type) (string, error) {
-	switch t.Name() {
+	switch t.Kind().String() {
 	case "int8":
 		return "SINT", nil
 	case "int16":
-- 
2.43.0


From f7c11bb211425fda4f8a9ca4ca5744f47b79225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:52 +0000
Subject: [PATCH 74/74] fix: loading comments of a file with a data type that
 has no members

---
 l5x/load_tags.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/l5x/load_tags.go b/l5x/load_tags.go
index 12c447e..76a7050 100644
--- a/l5x/load_tags.go
+++ b/l5x/load_tags.go
@@ -257,8 +257,9 @@ func GetTypeComments(types map[string]*DataTypeType, typeName string) map[string
 	out[typeName] = myDescription
 	members := dt.Members
 	if members == nil {
+		return out
 	}
-	for _, member := range dt.Members.Member {
+	for _, member := range members.Member {
 		//typeName := fmt.Sprintf("%s.%s", typeName, member.NameAttr)
 		memberDesc := myDescription
 		if member.Description != nil {
-- 
2.43.0


From e713a4d9d7304d6b80ab3366af057308c8ac65bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:46 +0000
Subject: [PATCH 01/61] fix: a frame started but never written leaves no
 payload in the next frame of its writer

---
 framewriter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framewriter.go b/framewriter.go
index 94d7390..8ae9bf2 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -49,6 +49,8 @@ func (dfw *defaultFrameWriter) Finalize() {
 
 // StartWrite Write the FrameHeader.
 func (dfw *defaultFrameWriter) StartWrite(requestID uint64, cmd Cmd, flags FrameFlag) {
+	// drop the payload of a frame that was started but never written
+	dfw.wbuf = dfw.wbuf[:headerSize]
 	binary.BigEndian.PutUint64(dfw.wbuf[4:], requestID)
 	cmdAndFlags := uint32(flags)<<24 + uint32(cmd)&0xffffff
 	binary.BigEndian.PutUint32(dfw.wbuf[12:], cmdAndFlags)
@@ -185,6 +187,8 @@ type defaultStreamWriter defaultFrameWriter
 
 func (dsw *defaultStreamWriter) StartWrite(cmd Cmd) {
 	dfw := (*defaultFrameWriter)(dsw)
+	// drop the payload of a frame that was started but never written
+	dfw.wbuf = dfw.wbuf[:headerSize]
 	dfw.SetCmd(cmd)
 }
 
-- 
2.43.0


From 1ef24067b224adeba9597c10e5b8010ac7e3b99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 02/61] fix: reading ends with its connection while a frame
 waits for its stream to finish

---
 framereader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/framereader.go b/framereader.go
index 3240649..fae4165 100644
--- a/framereader.go
+++ b/framereader.go
@@ -69,7 +69,11 @@ start:
 	}
 	ok := s.AddInFrame(f)
 	if !ok {
-		<-s.Done()
+		select {
+		case <-s.Done():
+		case <-dfr.ctx.Done():
+			return nil, dfr.ctx.Err()
+		}
 	}
 
 	goto start
-- 
2.43.0


From 378c9752c2f019fb5bf5ba715ea32dfb01a9e2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 03/61] fix: a frame after a reset does not close the stream's
 channel twice

---
 stream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream.go b/stream.go
index 20c3e96..5929746 100644
--- a/stream.go
+++ b/stream.go
@@ -150,7 +150,10 @@ func (s *Stream) closePeerIfNeeded(flags FrameFlag) {
 		return
 	}
 
-	atomic.StoreInt32(&s.closedPeer, 1)
+	// may already be closed by ResetByPeer
+	if !atomic.CompareAndSwapInt32(&s.closedPeer, 0, 1) {
+		return
+	}
 	close(s.frameCh)
 	if atomic.LoadInt32(&s.closedSelf) != 0 {
 		s.afterDone()
-- 
2.43.0


From abcd9caa149847c9e488a8920f94d6a1d6e2bab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 04/61] fix: a stream reset by the peer after it was ended here
 is finished

---
 stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stream.go b/stream.go
index 5929746..6a3d045 100644
--- a/stream.go
+++ b/stream.go
@@ -205,6 +205,9 @@ func (s *Stream) ResetByPeer() {
 	}
 
 	s.reset()
+	if atomic.LoadInt32(&s.closedSelf) != 0 {
+		s.afterDone()
+	}
 }
 
 func (s *Stream) afterDone() {
-- 
2.43.0


From 00d926a8e9a6ea70a3ba46f2748a52b9b5ba917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 05/61] fix: a request reset by the peer before its response
 releases the waiting caller

---
 clientconn.go  | 4 ++++
 framereader.go | 6 ++++++
 serveconn.go   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/clientconn.go b/clientconn.go
index 184b82d..6193535 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -511,6 +511,10 @@ func (conn *Connection) readFrames() {
 				// just ignore it
 				return
 			}
+			if frame.Flags.IsRst() {
+				// nobody waits for it
+				continue
+			}
 			if conn.conf.Handler != nil {
 				if !frame.FromServer() {
 					l.Error("clientconn get RequestFrame.RequestID not even")
diff --git a/framereader.go b/framereader.go
index fae4165..8467edf 100644
--- a/framereader.go
+++ b/framereader.go
@@ -55,6 +55,12 @@ start:
 		s := cs.GetStream(requestID, flags)
 		if s != nil {
 			s.ResetByPeer()
+			if !s.binded {
+				// no frame of this stream was seen yet, the initiator may wait for the first one
+				s.binded = true
+				f.Stream = s
+				return f, nil
+			}
 		}
 
 		goto start
diff --git a/serveconn.go b/serveconn.go
index 0a7f6d5..c891a07 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -411,6 +411,11 @@ func (sc *serveconn) readFrames() (err error) {
 			}
 		}
 
+		if req.Flags.IsRst() {
+			// nobody waits for it
+			continue
+		}
+
 		if req.Flags.IsNonBlock() {
 			select {
 			case sc.readFrameCh <- readFrameResult{f: (*RequestFrame)(req)}:
-- 
2.43.0


From c8e2b5cf5a0aa4cf385ed6385cbb7a6ed0241e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 06/61] fix: frames for a handler that has returned no longer
 block the connection

---
 clientconn.go | 2 ++
 serveconn.go  | 2 ++
 stream.go     | 4 +++-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/clientconn.go b/clientconn.go
index 6193535..6652c4b 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -569,6 +569,8 @@ func (conn *Connection) handleRequestPanic(frame *RequestFrame, begin time.Time)
 		}
 		w.Finalize()
 	}
+	// no one consumes the stream from now on
+	s.reset()
 }
 
 func (conn *Connection) getWriter() *defaultFrameWriter {
diff --git a/serveconn.go b/serveconn.go
index c891a07..3e64f4d 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -274,6 +274,8 @@ func (sc *serveconn) handleRequestPanic(frame *RequestFrame, begin time.Time, in
 			l.Debug("send error frame", zap.String("ip", sc.RemoteAddr()), zap.Any("frame", frame), zap.Error(err))
 		}
 	}
+	// no one consumes the stream from now on
+	s.reset()
 
 }
 
diff --git a/stream.go b/stream.go
index 6a3d045..2160356 100644
--- a/stream.go
+++ b/stream.go
@@ -138,7 +138,9 @@ func (s *Stream) AddInFrame(frame *Frame) bool {
 		s.closePeerIfNeeded(frame.Flags)
 		return true
 	case <-s.ctx.Done():
-		return false
+		// nobody consumes the frame any more: drop it
+		s.closePeerIfNeeded(frame.Flags)
+		return true
 	}
 }
 
-- 
2.43.0


From 69e088e765aa881faf0414b0968bd03292c26be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 07/61] fix: handlers of a client that wait for frames or
 writes are released when the connection ends

---
 clientconn.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/clientconn.go b/clientconn.go
index 6652c4b..eec1046 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -51,6 +51,7 @@ type Connection struct {
 	loopCancelCtx   context.CancelFunc
 	loopBytesWriter *Writer
 	loopWG          *sync.WaitGroup
+	handlerWG       sync.WaitGroup // wait group for handlers
 
 	cachedRequests []*writeFrameRequest
 	cachedBuffs    net.Buffers
@@ -239,6 +240,7 @@ func (conn *Connection) loop() {
 
 		conn.loopWG.Wait()
 		conn.endLoop()
+		conn.waitHandlers()
 
 		// close & quit if not reconnect; otherwise automatically reconnect
 		if !conn.reconnect {
@@ -450,6 +452,24 @@ func (conn *Connection) endLoop() {
 
 }
 
+// waitHandlers waits for the handlers of an ended loop, which are released by endLoop.
+// the write goroutine has quit, so writes committed in between are failed here
+func (conn *Connection) waitHandlers() {
+	done := make(chan struct{})
+	go func() {
+		conn.handlerWG.Wait()
+		close(done)
+	}()
+	for {
+		select {
+		case wfr := <-conn.writeFrameCh:
+			wfr.result <- ErrConnAlreadyClosed
+		case <-done:
+			return
+		}
+	}
+}
+
 // Close closes the qrpc connection
 func (conn *Connection) Close() error {
 
@@ -524,7 +544,7 @@ func (conn *Connection) readFrames() {
 					l.Error("clientconn get RequestFrame block")
 					return
 				}
-				util.GoFunc(conn.loopWG, func() {
+				util.GoFunc(&conn.handlerWG, func() {
 					defer conn.handleRequestPanic((*RequestFrame)(frame), time.Now())
 					w := conn.getWriter()
 					conn.conf.Handler.ServeQRPC(w, (*RequestFrame)(frame))
-- 
2.43.0


From cb90c5bf1735fe890ce063e89e978880304bcd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 08/61] fix: closing a client right after connecting does not
 make its reader use a nil transport

---
 clientconn.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index eec1046..4312844 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -499,10 +499,13 @@ func (conn *Connection) readFrames() {
 	defer conn.loopCancelCtx()
 
 	// in case closeRWC is already called
-	if conn.rwc == nil {
+	conn.mu.Lock()
+	rwc := conn.rwc
+	conn.mu.Unlock()
+	if rwc == nil {
 		return
 	}
-	reader := newFrameReader(*conn.loopCtx, conn.rwc, conn.conf.ReadTimeout, conn.conf.Codec)
+	reader := newFrameReader(*conn.loopCtx, rwc, conn.conf.ReadTimeout, conn.conf.Codec)
 	defer reader.Finalize()
 
 	for {
-- 
2.43.0


From 09af6b7dcb8880d54180f819f92b073b07737075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:32 +0000
Subject: [PATCH 09/61] fix: answers nobody waits for do not block a client's
 connection

---
 clientconn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clientconn.go b/clientconn.go
index 4312844..4236f99 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -557,6 +557,8 @@ func (conn *Connection) readFrames() {
 			}
 
 			l.Error("dangling resp", zap.Uint64("requestID", frame.RequestID))
+			// nobody will ever finish its stream
+			frame.Stream.Release()
 
 			continue
 		}
-- 
2.43.0


From 046baee053b8e62c90eecef3f7fa0f6344832729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:02 +0000
Subject: [PATCH 10/61] fix: a frame after the end of its stream is dropped
 instead of blocking the connection

---
 framereader.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/framereader.go b/framereader.go
index 8467edf..0cdb135 100644
--- a/framereader.go
+++ b/framereader.go
@@ -75,11 +75,9 @@ start:
 	}
 	ok := s.AddInFrame(f)
 	if !ok {
-		select {
-		case <-s.Done():
-		case <-dfr.ctx.Done():
-			return nil, dfr.ctx.Err()
-		}
+		// peer has already ended this stream: drop the frame.
+		// waiting for the stream to finish would also hide the end of the connection
+		l.Error("frame after end of stream", zap.Uint64("requestID", requestID), zap.Uint8("flags", uint8(flags)), zap.Uint32("cmd", uint32(f.Cmd)))
 	}
 
 	goto start
-- 
2.43.0


From ede747f6e8d904a118207c40543a5b2c3ea73703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:33 +0000
Subject: [PATCH 11/61] fix: a write given up on does not share its buffer with
 the write in progress

---
 clientconn.go  |  3 ++-
 framewriter.go | 13 +++++++++++++
 serveconn.go   |  3 ++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 4236f99..3836d44 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -382,7 +382,7 @@ func (conn *Connection) getCodec() CompressorCodec {
 func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 
 	wfr := wfrPool.Get().(*writeFrameRequest)
-	wfr.dfw = dfw
+	wfr.dfw = dfw.detach()
 	// just in case
 	if len(wfr.result) > 0 {
 		<-wfr.result
@@ -413,6 +413,7 @@ func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 			wfrPool.Put(wfr)
 			return err
 		case <-loopCtx.Done():
+			dfw.abandon()
 			return loopCtx.Err()
 		}
 	}
diff --git a/framewriter.go b/framewriter.go
index 8ae9bf2..c330004 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -47,6 +47,19 @@ func (dfw *defaultFrameWriter) Finalize() {
 	fwPool.Put(dfw)
 }
 
+// detach hands the frame over to a write request,
+// which may outlive the call that waits for it
+func (dfw *defaultFrameWriter) detach() *defaultFrameWriter {
+	detached := *dfw
+	dfw.resp = nil
+	return &detached
+}
+
+// abandon leaves wbuf to the detached frame, which may still be in use
+func (dfw *defaultFrameWriter) abandon() {
+	dfw.wbuf = append(make([]byte, 0, DefaultWBufSize), dfw.wbuf[:headerSize]...)
+}
+
 // StartWrite Write the FrameHeader.
 func (dfw *defaultFrameWriter) StartWrite(requestID uint64, cmd Cmd, flags FrameFlag) {
 	// drop the payload of a frame that was started but never written
diff --git a/serveconn.go b/serveconn.go
index 3e64f4d..29f3a60 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -458,7 +458,7 @@ var wfrPool = sync.Pool{New: func() interface{} {
 
 func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
 	wfr := wfrPool.Get().(*writeFrameRequest)
-	wfr.dfw = dfw
+	wfr.dfw = dfw.detach()
 	// just in case
 	if len(wfr.result) > 0 {
 		<-wfr.result
@@ -541,6 +541,7 @@ func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
 		wfrPool.Put(wfr)
 		return err
 	case <-sc.ctx.Done():
+		dfw.abandon()
 		return sc.ctx.Err()
 	}
 
-- 
2.43.0


From 45a25d56adb5f89f488863e6545863d3e52916e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:22 +0000
Subject: [PATCH 12/61] fix: a write failing while its connection is being
 kicked does not block the kick

---
 serveconn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serveconn.go b/serveconn.go
index 29f3a60..ed40b70 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -599,6 +599,9 @@ func (sc *serveconn) writeBuffers() error {
 	if err != nil {
 
 		l.Debug("serveconn.writeBuffers", zap.Uintptr("sc", uintptr(unsafe.Pointer(sc))), zap.Error(err))
+		// wlock is not released, so release other writers first:
+		// sc.Close may wait for one inside OnKickCB
+		sc.cancelCtx()
 		// don't call sc.Close while inside OnKickCB
 		if !sc.IsClosed() {
 			sc.Close()
-- 
2.43.0


From 456458a569f58e8aa6fed8f28d0161b8db14bd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 13/61] fix: a write queued for the next transport is released
 when the client is closed

---
 clientconn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clientconn.go b/clientconn.go
index 3836d44..fc567e8 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -398,13 +398,16 @@ func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 		return loopCtx.Err()
 	}
 
-	// if reconnect is enabled, wfr is guaranteed to be processed finally once committed
+	// if reconnect is enabled, wfr is guaranteed to be processed finally once committed, unless closed
 	if conn.reconnect {
 		select {
 		case err := <-wfr.result:
 			wfr.dfw = nil
 			wfrPool.Put(wfr)
 			return err
+		case <-conn.ctx.Done():
+			dfw.abandon()
+			return conn.ctx.Err()
 		}
 	} else {
 		select {
-- 
2.43.0


From 9dc08f2fd0c41ac5089beb1cc1cf019a6fc54b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 14/61] fix: a closed client does not redial

---
 clientconn.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index fc567e8..c0fc05c 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -266,6 +266,13 @@ func (conn *Connection) connect() error {
 
 	count := 0
 	for {
+		// don't dial once closed
+		select {
+		case <-conn.ctx.Done():
+			return conn.ctx.Err()
+		default:
+		}
+
 		addr := conn.addrs[conn.idx%len(conn.addrs)]
 		conn.idx++
 		count++
@@ -296,12 +303,6 @@ func (conn *Connection) connect() error {
 		if count >= len(conn.addrs) {
 			time.Sleep(reconnectIntervalAfter1stRound)
 		}
-
-		select {
-		case <-conn.ctx.Done():
-			return conn.ctx.Err()
-		default:
-		}
 	}
 
 }
-- 
2.43.0


From b0432f11a0e8484cb742c34b3f5ad3d2eb843c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 15/61] fix: a reconnecting client dials with its TLS
 configuration

---
 clientconn.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index c0fc05c..992d00f 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -165,9 +165,9 @@ func NewConnectionWithReconnect(addrs []string, conf ConnectionConfig, f SubFunc
 		err error
 	)
 	if conf.OverlayNetwork != nil {
-		rwc, err = conf.OverlayNetwork(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize})
+		rwc, err = conf.OverlayNetwork(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize, TLSConf: conf.TLSConf})
 	} else {
-		rwc, err = dialTCP(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize})
+		rwc, err = dialTCP(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize, TLSConf: conf.TLSConf})
 	}
 	if err != nil {
 		l.Error("initconnect DialTimeout", zap.Error(err))
@@ -282,9 +282,9 @@ func (conn *Connection) connect() error {
 			err error
 		)
 		if conn.conf.OverlayNetwork != nil {
-			rwc, err = conn.conf.OverlayNetwork(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize})
+			rwc, err = conn.conf.OverlayNetwork(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize, TLSConf: conn.conf.TLSConf})
 		} else {
-			rwc, err = dialTCP(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize})
+			rwc, err = dialTCP(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize, TLSConf: conn.conf.TLSConf})
 		}
 
 		if err != nil {
-- 
2.43.0


From e8456f7721ab96bcca3cafc260cc1258ac9dbb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 16/61] fix: a stream writer does not write resets after it has
 reset its stream

---
 framewriter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framewriter.go b/framewriter.go
index c330004..286af8e 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -223,7 +223,10 @@ func (dsw *defaultStreamWriter) EndWriteCompressed() (err error) {
 
 func (dsw *defaultStreamWriter) ResetFrame(reason Cmd) (err error) {
 	dfw := (*defaultFrameWriter)(dsw)
+	flags := dfw.Flags()
 	err = dfw.ResetFrame(dfw.RequestID(), reason)
+	// otherwise later frames are written as resets
+	dfw.SetFlags(flags)
 	return
 
 }
-- 
2.43.0


From d8fd245302f4169ff394c9f72e77b2dee1f2d6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:08 +0000
Subject: [PATCH 17/61] fix: a batched write to a finished stream fails instead
 of recreating the stream

---
 clientconn.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 992d00f..6a0992e 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -712,9 +712,19 @@ firstFrame:
 					break
 				}
 			} else if !flags.IsPush() { // skip stream logic if PushFlag set
-				s, loaded := conn.cs.CreateOrGetStream(*conn.loopCtx, requestID, flags)
-				if !loaded {
-					l.Debug("serveconn new stream", zap.Uint64("requestID", requestID), zap.Uint8("flags", uint8(flags)), zap.Uint32("cmd", uint32(dfw.Cmd())))
+				var s *Stream
+				if dfw.checkExist {
+					s = conn.cs.GetStream(requestID, flags)
+					if s == nil {
+						res.result <- ErrStreamNotExists
+						break
+					}
+				} else {
+					var loaded bool
+					s, loaded = conn.cs.CreateOrGetStream(*conn.loopCtx, requestID, flags)
+					if !loaded {
+						l.Debug("serveconn new stream", zap.Uint64("requestID", requestID), zap.Uint8("flags", uint8(flags)), zap.Uint32("cmd", uint32(dfw.Cmd())))
+					}
 				}
 				if !s.AddOutFrame(requestID, flags) {
 					res.result <- ErrWriteAfterCloseSelf
-- 
2.43.0


From 01259b928318bc306deed04a7c59ca21b56b3c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:54 +0000
Subject: [PATCH 18/61] fix: a streamed push nobody subscribed to does not
 block the connection

---
 clientconn.go | 3 +++
 serveconn.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/clientconn.go b/clientconn.go
index 6a0992e..540ccef 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -523,6 +523,9 @@ func (conn *Connection) readFrames() {
 			// pushed frame
 			if conn.subscriber != nil {
 				conn.subscriber(conn, frame)
+			} else {
+				// nobody will ever consume its stream
+				frame.Stream.Release()
 			}
 
 			continue
diff --git a/serveconn.go b/serveconn.go
index ed40b70..5832050 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -388,6 +388,9 @@ func (sc *serveconn) readFrames() (err error) {
 			// pushed frame
 			if binding.SubFunc != nil {
 				binding.SubFunc(ci, req)
+			} else {
+				// nobody will ever consume its stream
+				req.Stream.Release()
 			}
 
 			continue
-- 
2.43.0


From 7fdfed20237b38dd09164ce17a08a2598c153643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:50 +0000
Subject: [PATCH 19/61] fix: an id neither stays bound to a closed connection
 nor is taken from a live one

---
 server.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index bf17653..143f6b5 100644
--- a/server.go
+++ b/server.go
@@ -481,13 +481,30 @@ check:
 		atomic.AddUint64(&kickOrder, 1)
 		kick = true
 
+		// vsc may have been bound after it was untracked
+		srv.unbindID(vsc, id)
 		goto check
 	}
 
+	// sc may have been untracked before it was bound
+	if sc.IsClosed() {
+		srv.unbindID(sc, id)
+	}
+
 	ko = atomic.LoadUint64(&kickOrder)
 	return
 }
 
+// unbindID unbinds the id from sc, but not from a connection that took it over
+func (srv *Server) unbindID(sc *serveconn, id string) {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
+	if v, ok := srv.id2Conn[sc.idx].Load(id); ok && v.(*serveconn) == sc {
+		srv.id2Conn[sc.idx].Delete(id)
+	}
+}
+
 func (srv *Server) untrack(sc *serveconn, kicked bool) (bool, <-chan struct{}) {
 
 	locked := atomic.CompareAndSwapUint32(&sc.untrack, 0, 1)
@@ -498,7 +515,7 @@ func (srv *Server) untrack(sc *serveconn, kicked bool) (bool, <-chan struct{}) {
 
 	id := sc.GetID()
 	if id != "" {
-		srv.id2Conn[idx].Delete(id)
+		srv.unbindID(sc, id)
 	}
 	srv.activeConn[idx].Delete(sc)
 
-- 
2.43.0


From 6b9c46f82fef8cca13166aaaa24a0bd363600bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:00 +0000
Subject: [PATCH 20/61] fix: Shutdown stops serve loops that are just starting
 and waits for all of them

---
 server.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 143f6b5..b2ff3c2 100644
--- a/server.go
+++ b/server.go
@@ -283,7 +283,10 @@ func (srv *Server) Serve(ln Listener, idx int) error {
 	defer ln.Close()
 	var tempDelay time.Duration // how long to sleep on accept failure
 
-	srv.trackListener(ln, idx, true)
+	if !srv.trackListener(ln, idx, true) {
+		// shutdown before
+		return ErrServerClosed
+	}
 	defer srv.trackListener(ln, idx, false)
 
 	acceptCheckFunc := srv.bindings[idx].LifecycleCallbacks.OnAccept
@@ -407,14 +410,22 @@ func (ln *TCPKeepAliveListener) Accept() (c net.Conn, err error) {
 	return
 }
 
-func (srv *Server) trackListener(ln net.Listener, idx int, add bool) {
+// trackListener returns false if the server is already shutdown.
+// Shutdown waits for tracked listeners, so that no connection is served afterwards
+func (srv *Server) trackListener(ln net.Listener, idx int, add bool) bool {
 	srv.mu.Lock()
 	defer srv.mu.Unlock()
 	if add {
+		if srv.done {
+			return false
+		}
+		srv.wg.Add(1)
 		srv.listeners[idx] = ln
 	} else {
 		srv.listeners[idx] = nil
+		srv.wg.Done()
 	}
+	return true
 }
 
 // Create new connection from rwc.
-- 
2.43.0


From 2e77b74dd9bd59f9ed75e94c92e21de881da2c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:18 +0000
Subject: [PATCH 21/61] fix: Shutdown completes although a listener fails to
 close

---
 server.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/server.go b/server.go
index b2ff3c2..c0dbb25 100644
--- a/server.go
+++ b/server.go
@@ -542,19 +542,16 @@ func (srv *Server) untrack(sc *serveconn, kicked bool) (bool, <-chan struct{}) {
 // Shutdown gracefully shutdown the server
 func (srv *Server) Shutdown() error {
 
+	var lnerr error
+
 	srv.mu.Lock()
 	if srv.done {
 		srv.mu.Unlock()
 		goto done
 	}
 
-	{
-		lnerr := srv.closeListenersLocked()
-		if lnerr != nil {
-			srv.mu.Unlock()
-			return lnerr
-		}
-	}
+	// a listener that fails to close doesn't keep the rest from stopping
+	lnerr = srv.closeListenersLocked()
 
 	srv.done = true
 	srv.mu.Unlock()
@@ -568,7 +565,7 @@ func (srv *Server) Shutdown() error {
 done:
 	srv.wg.Wait()
 
-	return nil
+	return lnerr
 }
 
 // OnShutdown registers f to be called when shutdown
@@ -626,8 +623,8 @@ func (srv *Server) closeListenersLocked() (err error) {
 		if ln == nil {
 			continue
 		}
-		if err = ln.Close(); err != nil {
-			return
+		if lnerr := ln.Close(); lnerr != nil && err == nil {
+			err = lnerr
 		}
 		srv.listeners[idx] = nil
 	}
-- 
2.43.0


From 84a7c33daef7c1d05622d4c5be30c064c0570887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:59 +0000
Subject: [PATCH 22/61] fix: blocking requests do not raise the limit of
 concurrent non-blocking requests

---
 serveconn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serveconn.go b/serveconn.go
index 5832050..bdb0662 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -199,7 +199,8 @@ func (sc *serveconn) serve() {
 
 			if res.readMore != nil {
 				func() {
-					defer sc.handleRequestPanic(res.f, time.Now(), inflightStreamsPtr)
+					// not counted in inflightStreams
+					defer sc.handleRequestPanic(res.f, time.Now(), nil)
 					handler.ServeQRPC(sc.writer, res.f)
 				}()
 				res.readMore()
-- 
2.43.0


From 3f7f0306dbb4c3d2591ec1d7b60bf9e78515f83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:59 +0000
Subject: [PATCH 23/61] fix: setting and clearing the throttle concurrently
 neither panics nor loses those who wait

---
 server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server.go b/server.go
index c0dbb25..022c71d 100644
--- a/server.go
+++ b/server.go
@@ -645,6 +645,9 @@ func (srv *Server) waitThrottle(idx int, doneCh <-chan struct{}) {
 
 // SetThrottle sets throttle on
 func (srv *Server) SetThrottle(idx int) {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	v := srv.throttle[idx].Load()
 	if v != nil {
 		// already on,do nothing
@@ -657,6 +660,9 @@ func (srv *Server) SetThrottle(idx int) {
 
 // ClearThrottle clears throttle onff
 func (srv *Server) ClearThrottle(idx int) {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	v := srv.throttle[idx].Load()
 	if v == nil {
 		return
-- 
2.43.0


From 4f8d10108ceba8d6c7b9fdf6f678157306e9fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:22 +0000
Subject: [PATCH 24/61] fix: all frames count for the limit of frames per
 second

---
 framereader.go |  6 ++++++
 serveconn.go   | 21 ++++++++++++---------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/framereader.go b/framereader.go
index 0cdb135..949fefb 100644
--- a/framereader.go
+++ b/framereader.go
@@ -25,6 +25,7 @@ type defaultFrameReader struct {
 	ctx          context.Context
 	maxFrameSize int
 	codec        CompressorCodec
+	onFrame      func() error // called for each frame if set, reading ends if it fails
 }
 
 // newFrameReader creates a FrameWriter instance to read frames
@@ -43,6 +44,11 @@ start:
 	if err != nil {
 		return f, err
 	}
+	if dfr.onFrame != nil {
+		if err = dfr.onFrame(); err != nil {
+			return nil, err
+		}
+	}
 
 	requestID := f.RequestID
 	flags := f.Flags
diff --git a/serveconn.go b/serveconn.go
index bdb0662..5fc2c3b 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -358,14 +358,13 @@ func (sc *serveconn) readFrames() (err error) {
 	gate := make(gate, 1)
 	gateDone := gate.Done
 
-	checkInBoundQPS := binding.MaxInboundFramePerSecond > 0
-	var (
-		lastCheckTS int64
-		tsCount     int
-	)
-	for {
-		req, err := sc.reader.ReadFrame(sc.cs)
-		if checkInBoundQPS {
+	if binding.MaxInboundFramePerSecond > 0 {
+		var (
+			lastCheckTS int64
+			tsCount     int
+		)
+		// checked by the reader, so that frames following the first one of a stream count too
+		sc.reader.onFrame = func() error {
 			nowTS := time.Now().Unix()
 			if nowTS != lastCheckTS {
 				tsCount = 1
@@ -374,9 +373,13 @@ func (sc *serveconn) readFrames() (err error) {
 				tsCount++
 			}
 			if tsCount > binding.MaxInboundFramePerSecond {
-				err = ErrInboundFramePerSecondExceeded
+				return ErrInboundFramePerSecondExceeded
 			}
+			return nil
 		}
+	}
+	for {
+		req, err := sc.reader.ReadFrame(sc.cs)
 		if err != nil {
 			sc.Close()
 			sc.reader.Finalize()
-- 
2.43.0


From 3340ff1e979f86b4d7a7da70225e472bd2341a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 25/61] fix: Request sends nonstreamed frames even if stream
 flags are given

---
 qrpc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qrpc.go b/qrpc.go
index 67731bf..3d6ecfb 100644
--- a/qrpc.go
+++ b/qrpc.go
@@ -46,7 +46,7 @@ const (
 
 // ToNonStream convert flg to nonstreamed flag
 func (flg FrameFlag) ToNonStream() FrameFlag {
-	return flg & ^(StreamFlag & StreamEndFlag)
+	return flg & ^(StreamFlag | StreamEndFlag)
 }
 
 // ToStream convert flg to streamed flag
-- 
2.43.0


From c0637691a0c7baecb342994941b4f5fa39390f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 26/61] fix: a handler is not silently replaced by one for a
 command that routes equally

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 022c71d..927e068 100644
--- a/server.go
+++ b/server.go
@@ -98,7 +98,7 @@ func (mux *ServeMux) Handle(cmd Cmd, handler Handler, middleware ...MiddlewareFu
 	if mux.m == nil {
 		mux.m = make(map[Cmd]Handler)
 	}
-	if _, exist := mux.m[cmd]; exist {
+	if _, exist := mux.m[cmd.Routing()]; exist {
 		panic("qrpc: multiple registrations for " + string(cmd))
 	}
 
-- 
2.43.0


From 30745bea3e896780762f82a0b1780b1b11c03732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:48 +0000
Subject: [PATCH 27/61] fix: handlers of a client find their connection on the
 first transport too

---
 clientconn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clientconn.go b/clientconn.go
index 540ccef..4d97f44 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -202,7 +202,7 @@ func newConnection(rwc net.Conn, addr []string, conf ConnectionConfig, f SubFunc
 
 	if rwc != nil {
 		// loopxxx should be paired with rwc
-		loopCtx, loopCancelCtx := context.WithCancel(ctx)
+		loopCtx, loopCancelCtx := context.WithCancel(c.ctx)
 		c.loopCancelCtx = loopCancelCtx
 		atomic.StorePointer((*unsafe.Pointer)((unsafe.Pointer)(&c.loopCtx)), unsafe.Pointer(&loopCtx))
 		c.loopBytesWriter = NewWriterWithTimeout(loopCtx, rwc, conf.WriteTimeout)
-- 
2.43.0


From b2350b44bc85db7d067758d63edf7dc0dbd06516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:39 +0000
Subject: [PATCH 28/61] fix: a stream writer keeps its codec mark for later
 frames

---
 framewriter.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/framewriter.go b/framewriter.go
index 286af8e..ce924b7 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -111,6 +111,10 @@ var (
 // EndWrite finishes write frame
 func (dfw *defaultFrameWriter) EndWrite() (err error) {
 
+	// a stream writer keeps its flags for the frames that follow
+	flags := dfw.Flags()
+	defer func() { dfw.SetFlags(flags) }()
+
 	payloadLength := len(dfw.Payload())
 	if payloadLength == 0 {
 		dfw.SetFlags(dfw.Flags().ToNonCodec())
@@ -139,7 +143,10 @@ func (dfw *defaultFrameWriter) EndWrite() (err error) {
 }
 
 func (dfw *defaultFrameWriter) EndWriteCompressed() (err error) {
-	dfw.SetFlags(dfw.Flags().ToCodec())
+	flags := dfw.Flags()
+	defer func() { dfw.SetFlags(flags) }()
+
+	dfw.SetFlags(flags.ToCodec())
 	return dfw.endWrite()
 }
 
-- 
2.43.0


From 620bb962950e3112af6b99b58962b97d498b41bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:09 +0000
Subject: [PATCH 29/61] fix: a channel handler receives messages also if it
 does not ask for their command

---
 channel/servetransport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/servetransport.go b/channel/servetransport.go
index 89e03fc..310c8b5 100644
--- a/channel/servetransport.go
+++ b/channel/servetransport.go
@@ -87,7 +87,7 @@ func (r *serveReceiver) Receive(ctx context.Context, cmd *qrpc.Cmd, msg interfac
 
 	if cmd != nil {
 		*cmd = frame.Cmd
-		err = Unmarshal(frame.Payload, msg)
 	}
+	err = Unmarshal(frame.Payload, msg)
 	return
 }
-- 
2.43.0


From a82d7695de7f84eb26b22719207623c873caa2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 30/61] fix: concurrent first messages of a channel sender
 start one stream

---
 channel/clienttransport.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channel/clienttransport.go b/channel/clienttransport.go
index dd7d0d0..d55bb6c 100644
--- a/channel/clienttransport.go
+++ b/channel/clienttransport.go
@@ -69,8 +69,8 @@ func (s *clientSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{},
 		return
 	}
 
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	if s.closed {
 		err = ErrSenderClosed
-- 
2.43.0


From 1a4bfdf378360c09b3bfeffae2ee5d2ea1874b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:39 +0000
Subject: [PATCH 31/61] fix: a channel sender ends its stream with any message
 that is its last

---
 channel/clienttransport.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/channel/clienttransport.go b/channel/clienttransport.go
index d55bb6c..dbc4362 100644
--- a/channel/clienttransport.go
+++ b/channel/clienttransport.go
@@ -77,6 +77,12 @@ func (s *clientSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{},
 		return
 	}
 
+	defer func() {
+		if end && err == nil {
+			s.closed = true
+		}
+	}()
+
 	flag := qrpc.StreamFlag
 	if end {
 		flag |= qrpc.StreamEndFlag
@@ -88,7 +94,7 @@ func (s *clientSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{},
 
 	s.streamWriter.StartWrite(cmd)
 	s.streamWriter.WriteBytes(bytes)
-	err = s.streamWriter.EndWrite(false)
+	err = s.streamWriter.EndWrite(end)
 
 	return
 }
-- 
2.43.0


From 0508b7387c0e506cf0d5294217a8e6606815ef50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:39 +0000
Subject: [PATCH 32/61] fix: a channel handler's stream is ended once

---
 channel/servetransport.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/channel/servetransport.go b/channel/servetransport.go
index 310c8b5..d5d2b5c 100644
--- a/channel/servetransport.go
+++ b/channel/servetransport.go
@@ -15,8 +15,9 @@ type (
 	HandlerFunc func(Sender, Receiver, Transport)
 
 	serveSender struct {
-		w     qrpc.FrameWriter
-		frame *qrpc.RequestFrame
+		w      qrpc.FrameWriter
+		frame  *qrpc.RequestFrame
+		closed bool
 	}
 	serveReceiver struct {
 		frame                 *qrpc.RequestFrame
@@ -51,6 +52,11 @@ func (s *serveSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{}, e
 		return
 	}
 
+	if s.closed {
+		err = ErrSenderClosed
+		return
+	}
+
 	flag := qrpc.StreamFlag
 	if end {
 		flag |= qrpc.StreamEndFlag
@@ -59,10 +65,17 @@ func (s *serveSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{}, e
 	s.w.StartWrite(s.frame.RequestID, cmd, flag)
 	s.w.WriteBytes(bytes)
 	err = s.w.EndWrite()
+	s.closed = end && err == nil
 	return
 }
 
 func (s *serveSender) End() (err error) {
+	if s.closed {
+		err = ErrSenderCloseTwice
+		return
+	}
+
+	s.closed = true
 	err = s.w.ResetFrame(s.frame.RequestID, 0)
 	return
 }
-- 
2.43.0


From 8b3a1cfee2bd3121dbfb4dbffb0f0d8cf0f3f385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:39 +0000
Subject: [PATCH 33/61] fix: a stream ended without messages is finished for
 its channel receiver

---
 channel/clienttransport.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/channel/clienttransport.go b/channel/clienttransport.go
index dbc4362..88e6371 100644
--- a/channel/clienttransport.go
+++ b/channel/clienttransport.go
@@ -126,6 +126,9 @@ func (s *clientSender) getFrame(ctx context.Context) (frame *qrpc.Frame, err err
 
 	if s.firstFrame == nil {
 		frame, err = s.resp.GetFrameWithContext(ctx)
+		if err == qrpc.ErrStreamClosed {
+			err = ErrStreamFinished
+		}
 		s.firstFrame = frame
 	} else {
 		select {
-- 
2.43.0


From 53147785e1141acf44d8e706e655d5625740c298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:27 +0000
Subject: [PATCH 34/61] fix: a method that fails does not end the connection of
 other calls

---
 codegen/service_handler.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/codegen/service_handler.go b/codegen/service_handler.go
index accb909..2176e67 100644
--- a/codegen/service_handler.go
+++ b/codegen/service_handler.go
@@ -57,7 +57,6 @@ func (sh *ServiceHandler) ServeQRPC(w qrpc.FrameWriter, frame *qrpc.RequestFrame
 		w.StartWrite(frame.RequestID, sh.errCmd, 0)
 		w.WriteBytes([]byte(err.Error()))
 		w.EndWrite()
-		frame.Close()
 		return
 	}
 
-- 
2.43.0


From 26408743a8fd24db931dfa43640d7ccb86911493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:55 +0000
Subject: [PATCH 35/61] fix: a call whose lengths overflow is answered with an
 error instead of a panic

---
 codegen/pb/rpc.pb.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/codegen/pb/rpc.pb.go b/codegen/pb/rpc.pb.go
index 42ed930..bbb11c3 100644
--- a/codegen/pb/rpc.pb.go
+++ b/codegen/pb/rpc.pb.go
@@ -221,6 +221,9 @@ func (m *RpcRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRpc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRpc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -250,6 +253,9 @@ func (m *RpcRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRpc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRpc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -278,6 +284,9 @@ func (m *RpcRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRpc
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRpc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -295,6 +304,9 @@ func (m *RpcRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRpc
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRpc
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
-- 
2.43.0


From 4f448bc57adc5f2c474169d106fd414dd2e899ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:56 +0000
Subject: [PATCH 36/61] fix: a call with deeply nested groups does not overflow
 the server's stack

---
 codegen/pb/rpc.pb.go | 54 ++++++++++++++------------------------------
 1 file changed, 17 insertions(+), 37 deletions(-)

diff --git a/codegen/pb/rpc.pb.go b/codegen/pb/rpc.pb.go
index bbb11c3..3bcdaab 100644
--- a/codegen/pb/rpc.pb.go
+++ b/codegen/pb/rpc.pb.go
@@ -323,6 +323,7 @@ func (m *RpcRequest) Unmarshal(dAtA []byte) error {
 func skipRpc(dAtA []byte) (n int, err error) {
 	l := len(dAtA)
 	iNdEx := 0
+	depth := 0
 	for iNdEx < l {
 		var wire uint64
 		for shift := uint(0); ; shift += 7 {
@@ -354,10 +355,8 @@ func skipRpc(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			return iNdEx, nil
 		case 1:
 			iNdEx += 8
-			return iNdEx, nil
 		case 2:
 			var length int
 			for shift := uint(0); ; shift += 7 {
@@ -374,55 +373,36 @@ func skipRpc(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			iNdEx += length
 			if length < 0 {
 				return 0, ErrInvalidLengthRpc
 			}
-			return iNdEx, nil
+			iNdEx += length
 		case 3:
-			for {
-				var innerWire uint64
-				var start int = iNdEx
-				for shift := uint(0); ; shift += 7 {
-					if shift >= 64 {
-						return 0, ErrIntOverflowRpc
-					}
-					if iNdEx >= l {
-						return 0, io.ErrUnexpectedEOF
-					}
-					b := dAtA[iNdEx]
-					iNdEx++
-					innerWire |= (uint64(b) & 0x7F) << shift
-					if b < 0x80 {
-						break
-					}
-				}
-				innerWireType := int(innerWire & 0x7)
-				if innerWireType == 4 {
-					break
-				}
-				next, err := skipRpc(dAtA[start:])
-				if err != nil {
-					return 0, err
-				}
-				iNdEx = start + next
-			}
-			return iNdEx, nil
+			depth++
 		case 4:
-			return iNdEx, nil
+			if depth == 0 {
+				return 0, ErrUnexpectedEndOfGroupRpc
+			}
+			depth--
 		case 5:
 			iNdEx += 4
-			return iNdEx, nil
 		default:
 			return 0, fmt.Errorf("proto: illegal wireType %d", wireType)
 		}
+		if iNdEx < 0 {
+			return 0, ErrInvalidLengthRpc
+		}
+		if depth == 0 {
+			return iNdEx, nil
+		}
 	}
-	panic("unreachable")
+	return 0, io.ErrUnexpectedEOF
 }
 
 var (
-	ErrInvalidLengthRpc = fmt.Errorf("proto: negative length found during unmarshaling")
-	ErrIntOverflowRpc   = fmt.Errorf("proto: integer overflow")
+	ErrInvalidLengthRpc        = fmt.Errorf("proto: negative length found during unmarshaling")
+	ErrIntOverflowRpc          = fmt.Errorf("proto: integer overflow")
+	ErrUnexpectedEndOfGroupRpc = fmt.Errorf("proto: unexpected end of group")
 )
 
 func init() { proto.RegisterFile("rpc.proto", fileDescriptor_rpc_6a195279eb408770) }
-- 
2.43.0


From 15618935feb26796e35593b46577c5e84d7307cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:44 +0000
Subject: [PATCH 37/61] fix: a failed write to a websocket does not count its
 bytes as written

---
 ws/server/conn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ws/server/conn.go b/ws/server/conn.go
index 2bf4edb..05c3f66 100644
--- a/ws/server/conn.go
+++ b/ws/server/conn.go
@@ -64,7 +64,12 @@ func (c *conn) readBuffer(b []byte) (n int, err error) {
 	return
 }
 func (c *conn) Write(b []byte) (n int, err error) {
-	return len(b), c.wc.WriteMessage(websocket.BinaryMessage, b)
+	err = c.wc.WriteMessage(websocket.BinaryMessage, b)
+	if err != nil {
+		// a message is received as a whole or not at all
+		return 0, err
+	}
+	return len(b), nil
 }
 
 func (c *conn) Close() (err error) {
-- 
2.43.0


From e72d15d0c423ee4d8be60bca5d540b84c9c61ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:45 +0000
Subject: [PATCH 38/61] fix: nothing enters the stream after an unexpected
 websocket message

---
 ws/server/conn.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ws/server/conn.go b/ws/server/conn.go
index 05c3f66..ec0ad75 100644
--- a/ws/server/conn.go
+++ b/ws/server/conn.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"errors"
 	"net"
 	"time"
 
@@ -12,10 +13,13 @@ import (
 
 // conn impl net.Conn for websocket overlay
 type conn struct {
-	wc     *websocket.Conn
-	buffer []byte
+	wc      *websocket.Conn
+	buffer  []byte
+	readErr error
 }
 
+var errUnexpectedMessage = errors.New("unexpected websocket message")
+
 // NewConn is ctor for conn
 func NewConn(wc *websocket.Conn) net.Conn {
 	return &conn{wc: wc}
@@ -25,6 +29,9 @@ func (c *conn) Read(b []byte) (n int, err error) {
 	if len(c.buffer) > 0 {
 		return c.readBuffer(b)
 	}
+	if c.readErr != nil {
+		return 0, c.readErr
+	}
 
 	var (
 		msgType int
@@ -43,10 +50,10 @@ func (c *conn) Read(b []byte) (n int, err error) {
 			}
 		case msgType == websocket.PingMessage || msgType == websocket.PongMessage || msgType == websocket.TextMessage:
 			qrpc.Logger().Error("got ping/pong/text msg", zap.Int("msgType", msgType), zap.ByteString("msg", msg))
-			err = c.wc.Close()
-			if err != nil {
-				return
-			}
+			c.wc.Close()
+			// what was received after it does not belong to the stream
+			c.readErr = errUnexpectedMessage
+			return 0, c.readErr
 		case len(msg) == 0:
 			qrpc.Logger().Error("msg length zero")
 			continue
-- 
2.43.0


From 42885ac0ea12f8fda85ccfb39dd36c3c00413ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:46 +0000
Subject: [PATCH 39/61] fix: closing the websocket overlay closes connections
 nobody has accepted

---
 ws/server/overlay.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/ws/server/overlay.go b/ws/server/overlay.go
index 2f391bb..02307b9 100644
--- a/ws/server/overlay.go
+++ b/ws/server/overlay.go
@@ -53,7 +53,12 @@ func newOverlay(l net.Listener, tlsConfig *tls.Config) (o *qrpcOverWS) {
 
 		select {
 		case o.acceptCh <- c:
+			if o.ctx.Err() != nil {
+				// nobody may accept it anymore
+				o.closePending()
+			}
 		case <-o.ctx.Done():
+			c.Close()
 		}
 
 	})
@@ -90,7 +95,23 @@ func (o *qrpcOverWS) Accept() (conn net.Conn, err error) {
 
 func (o *qrpcOverWS) Close() error {
 	o.cancelFunc()
-	return o.l.Close()
+	err := o.l.Close()
+	// connections that are not upgraded yet
+	o.httpServer.Close()
+	o.closePending()
+	return err
+}
+
+// closePending closes connections nobody has accepted
+func (o *qrpcOverWS) closePending() {
+	for {
+		select {
+		case c := <-o.acceptCh:
+			c.Close()
+		default:
+			return
+		}
+	}
 }
 
 func (o *qrpcOverWS) Addr() (addr net.Addr) {
-- 
2.43.0


From 5083f17aba5cc4a2fe07a2ffb79b46b725bb0f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:47 +0000
Subject: [PATCH 40/61] fix: a slow reader does not end websocket and TLS
 connections before the write timeout

---
 writer.go         | 67 ++++++++++++++++++++++++++---------------------
 ws/server/conn.go |  3 +++
 2 files changed, 40 insertions(+), 30 deletions(-)

diff --git a/writer.go b/writer.go
index f1e9fcb..166b62d 100644
--- a/writer.go
+++ b/writer.go
@@ -2,6 +2,7 @@ package qrpc
 
 import (
 	"context"
+	"crypto/tls"
 	"net"
 	"time"
 )
@@ -30,14 +31,39 @@ func NewWriterWithTimeout(ctx context.Context, conn net.Conn, timeout int) *Writ
 	return &Writer{ctx: ctx, conn: conn, timeout: timeout}
 }
 
+// NotResumable is implemented by connections on which nothing can be written anymore
+// once a write timed out, like *tls.Conn
+type NotResumable interface {
+	NotResumable()
+}
+
+func resumable(conn net.Conn) bool {
+	switch conn.(type) {
+	case *tls.Conn, NotResumable:
+		return false
+	}
+	return true
+}
+
+// deadline for the next attempt to write
+func (w *Writer) deadline(endTime time.Time) time.Time {
+	if !resumable(w.conn) {
+		return endTime
+	}
+	deadline := time.Now().Add(CtxCheckMaxInterval)
+	if !endTime.IsZero() && endTime.Before(deadline) {
+		deadline = endTime
+	}
+	return deadline
+}
+
 // Write writes bytes
 func (w *Writer) Write(bytes []byte) (int, error) {
 	var (
-		endTime      time.Time
-		writeTimeout time.Duration
-		offset       int
-		n            int
-		err          error
+		endTime time.Time
+		offset  int
+		n       int
+		err     error
 	)
 
 	timeout := w.timeout
@@ -47,16 +73,7 @@ func (w *Writer) Write(bytes []byte) (int, error) {
 	size := len(bytes)
 
 	for {
-		if timeout > 0 {
-			writeTimeout = endTime.Sub(time.Now())
-			if writeTimeout > CtxCheckMaxInterval {
-				writeTimeout = CtxCheckMaxInterval
-			}
-		} else {
-			writeTimeout = CtxCheckMaxInterval
-		}
-
-		w.conn.SetWriteDeadline(time.Now().Add(writeTimeout))
+		w.conn.SetWriteDeadline(w.deadline(endTime))
 
 		n, err = w.conn.Write(bytes[offset:])
 		offset += n
@@ -84,11 +101,10 @@ func (w *Writer) Write(bytes []byte) (int, error) {
 
 func (w *Writer) writeBuffers(buffs *net.Buffers) (int64, error) {
 	var (
-		endTime      time.Time
-		writeTimeout time.Duration
-		offset       int64
-		n            int64
-		err          error
+		endTime time.Time
+		offset  int64
+		n       int64
+		err     error
 	)
 
 	timeout := w.timeout
@@ -101,16 +117,7 @@ func (w *Writer) writeBuffers(buffs *net.Buffers) (int64, error) {
 	}
 
 	for {
-		if timeout > 0 {
-			writeTimeout = endTime.Sub(time.Now())
-			if writeTimeout > CtxCheckMaxInterval {
-				writeTimeout = CtxCheckMaxInterval
-			}
-		} else {
-			writeTimeout = CtxCheckMaxInterval
-		}
-
-		w.conn.SetWriteDeadline(time.Now().Add(writeTimeout))
+		w.conn.SetWriteDeadline(w.deadline(endTime))
 
 		n, err = buffs.WriteTo(w.conn)
 		offset += n
diff --git a/ws/server/conn.go b/ws/server/conn.go
index ec0ad75..fa7e6d0 100644
--- a/ws/server/conn.go
+++ b/ws/server/conn.go
@@ -79,6 +79,9 @@ func (c *conn) Write(b []byte) (n int, err error) {
 	return len(b), nil
 }
 
+// NotResumable tells that a write that timed out breaks the websocket
+func (c *conn) NotResumable() {}
+
 func (c *conn) Close() (err error) {
 	return c.wc.Close()
 }
-- 
2.43.0


From b135071edfc186187dc9a8aa1c969d0140c070ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:48 +0000
Subject: [PATCH 41/61] fix: Receive may poll while the first message is sent

---
 channel/clienttransport.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/channel/clienttransport.go b/channel/clienttransport.go
index 88e6371..6cb3b1e 100644
--- a/channel/clienttransport.go
+++ b/channel/clienttransport.go
@@ -18,6 +18,7 @@ type (
 		t            *clientTransport
 		r            *clientReceiver
 		streamWriter qrpc.StreamWriter
+		respMu       sync.Mutex // guards resp, which Receive reads
 		resp         qrpc.Response
 		firstFrame   *qrpc.Frame
 		closed       bool
@@ -88,7 +89,11 @@ func (s *clientSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{},
 		flag |= qrpc.StreamEndFlag
 	}
 	if s.streamWriter == nil {
-		s.streamWriter, s.resp, err = s.t.c.StreamRequest(cmd, flag, bytes)
+		var resp qrpc.Response
+		s.streamWriter, resp, err = s.t.c.StreamRequest(cmd, flag, bytes)
+		s.respMu.Lock()
+		s.resp = resp
+		s.respMu.Unlock()
 		return
 	}
 
@@ -119,13 +124,17 @@ func (s *clientSender) End() (err error) {
 
 func (s *clientSender) getFrame(ctx context.Context) (frame *qrpc.Frame, err error) {
 
-	if s.resp == nil {
+	s.respMu.Lock()
+	resp := s.resp
+	s.respMu.Unlock()
+
+	if resp == nil {
 		err = ErrNoResp
 		return
 	}
 
 	if s.firstFrame == nil {
-		frame, err = s.resp.GetFrameWithContext(ctx)
+		frame, err = resp.GetFrameWithContext(ctx)
 		if err == qrpc.ErrStreamClosed {
 			err = ErrStreamFinished
 		}
-- 
2.43.0


From f6f24d67da7d4ec037f9b53b5b3cdc41c06ecff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:18 +0000
Subject: [PATCH 42/61] fix: the read timeout may be changed while frames are
 read

---
 reader.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/reader.go b/reader.go
index 0203bfa..fd2d2b5 100644
--- a/reader.go
+++ b/reader.go
@@ -7,14 +7,15 @@ import (
 	"io"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
 // Reader read data from socket
 type Reader struct {
+	timeout int64 // atomic, handlers may change it while frames are read
 	conn    net.Conn
 	reader  *bufio.Reader
-	timeout int
 	ctx     context.Context
 }
 
@@ -42,7 +43,7 @@ func NewReaderWithTimeout(ctx context.Context, conn net.Conn, timeout int) *Read
 
 	bufReader := bufPool.Get().(*bufio.Reader)
 	bufReader.Reset(conn)
-	return &Reader{ctx: ctx, conn: conn, reader: bufReader, timeout: timeout}
+	return &Reader{ctx: ctx, conn: conn, reader: bufReader, timeout: int64(timeout)}
 }
 
 // Finalize is called when no longer used
@@ -54,7 +55,7 @@ func (r *Reader) Finalize() {
 
 // SetReadTimeout allows modify timeout for read
 func (r *Reader) SetReadTimeout(timeout int) {
-	r.timeout = timeout
+	atomic.StoreInt64(&r.timeout, int64(timeout))
 }
 
 // ReadUint32 read uint32 from socket
@@ -80,7 +81,7 @@ func (r *Reader) ReadBytesWithMaxTimeout(bytes []byte, maxTimeoutSecond int) (er
 		offset  int
 		n       int
 	)
-	timeout := r.timeout
+	timeout := int(atomic.LoadInt64(&r.timeout))
 	if maxTimeoutSecond > 0 && timeout > maxTimeoutSecond {
 		timeout = maxTimeoutSecond
 	}
-- 
2.43.0


From b0f612e5b9dcefc7d6821d1f0f061c7564f115df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:47 +0000
Subject: [PATCH 43/61] fix: a write to a connection that is just being set up
 does not break later ones

---
 serveconn.go | 10 ----------
 server.go    | 13 +++++++++++++
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/serveconn.go b/serveconn.go
index 5fc2c3b..ab58b42 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -163,18 +163,8 @@ func (sc *serveconn) serve() {
 	}()
 
 	ctx := sc.ctx
-	{
-		var maxFrameSize int
-		if binding.MaxFrameSize > 0 {
-			maxFrameSize = binding.MaxFrameSize
-		} else {
-			maxFrameSize = DefaultMaxFrameSize
-		}
-		sc.reader = newFrameReaderWithMFS(ctx, sc.rwc, binding.DefaultReadTimeout, binding.Codec, maxFrameSize)
-	}
 	sc.writer = newFrameWriter(sc) // only used by blocking mode
 
-	sc.inflight = 1
 	util.GoFunc(&sc.wg, func() {
 		sc.readFrames()
 	})
diff --git a/server.go b/server.go
index 927e068..2f06392 100644
--- a/server.go
+++ b/server.go
@@ -448,7 +448,20 @@ func (srv *Server) newConn(ctx context.Context, rwc net.Conn, idx int) (sc *serv
 	sc.cancelCtx = cancelCtx
 	sc.ctx = ctx
 	sc.bytesWriter = NewWriterWithTimeout(ctx, rwc, srv.bindings[idx].DefaultWriteTimeout)
+	{
+		binding := srv.bindings[idx]
+		var maxFrameSize int
+		if binding.MaxFrameSize > 0 {
+			maxFrameSize = binding.MaxFrameSize
+		} else {
+			maxFrameSize = DefaultMaxFrameSize
+		}
+		sc.reader = newFrameReaderWithMFS(ctx, rwc, binding.DefaultReadTimeout, binding.Codec, maxFrameSize)
+	}
+	// held by serve until it ends
+	sc.inflight = 1
 
+	// from now on others can use sc
 	srv.activeConn[idx].Store(sc, struct{}{})
 
 	return sc
-- 
2.43.0


From 0a4a8fa1848271851d9aeb993a0286de5f917ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:29 +0000
Subject: [PATCH 44/61] fix: generated clients of services with sub services
 compile

---
 codegen/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index d761310..509cbd3 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -212,8 +212,8 @@ func (g *Generator) Generate() {
 		if ns == "" {
 			continue
 		}
-		g.P("func (c ", unexport(g.serviceName), "Client) ", ns, "Client {")
-		g.P("	return ", unexport(g.serviceName), ns, "{c.Client}")
+		g.P("func (c ", unexport(g.serviceName), "Client) ", ns, "Client() ", g.serviceName, ns, "Client {")
+		g.P("	return ", unexport(g.serviceName), ns, "Client{c.Client}")
 		g.P("}")
 		g.P()
 	}
-- 
2.43.0


From 872035c5b5ebbfade925563adcb61ea38f839c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:29 +0000
Subject: [PATCH 45/61] fix: generated sub services with several methods
 compile

---
 codegen/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index 509cbd3..b5b2364 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -310,8 +310,8 @@ func (g *Generator) Generate() {
 		}
 
 		g.P("case ", strconv.Quote(ns), ":")
+		g.P("	ssInterface := ss.(", g.serviceName, ns, "Client)")
 		for name, method := range methods {
-			g.P("	ssInterface := ss.(", g.serviceName, ns, "Client)")
 			inTypes := util.FuncInputTypes(method)
 			outTypes := util.FuncInputTypes(method)
 			inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
-- 
2.43.0


From bc64e98471bcab20e4bf7a215ceaad8646544620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:30 +0000
Subject: [PATCH 46/61] fix: generated servers encode results the way generated
 clients decode them

---
 codegen/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index b5b2364..50eec51 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -271,7 +271,7 @@ func (g *Generator) Generate() {
 	for name, method := range g.services[""] {
 		g.P("m.callback[", codegenPkgAlias, ".FQMethod(\"\",", strconv.Quote(name), ")] = func(ctx context.Context, inBytes []byte) (outBytes []byte, err error) {")
 		inTypes := util.FuncInputTypes(method)
-		outTypes := util.FuncInputTypes(method)
+		outTypes := util.FuncOutputTypes(method)
 		inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
 		outTypePtrIsMarshaler := reflect.PtrTo(outTypes[0]).Implements(marshalerType)
 		if inTypes[1].PkgPath() != "" {
@@ -313,7 +313,7 @@ func (g *Generator) Generate() {
 		g.P("	ssInterface := ss.(", g.serviceName, ns, "Client)")
 		for name, method := range methods {
 			inTypes := util.FuncInputTypes(method)
-			outTypes := util.FuncInputTypes(method)
+			outTypes := util.FuncOutputTypes(method)
 			inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
 			outTypePtrIsMarshaler := reflect.PtrTo(outTypes[0]).Implements(marshalerType)
 			g.P("	m.callback[", codegenPkgAlias, ".FQMethod(", strconv.Quote(ns), ",", strconv.Quote(name), ")] = func(ctx context.Context, inBytes []byte) (outBytes []byte, err error) {")
-- 
2.43.0


From 65924cd8918685299f54c99bd9e5956f41af587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:58 +0000
Subject: [PATCH 47/61] fix: generated code spells pointer, slice, array and
 map arguments

---
 codegen/generator.go | 97 +++++++++++++++++++++++---------------------
 1 file changed, 50 insertions(+), 47 deletions(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index 50eec51..95e9cad 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -127,19 +127,8 @@ func (g *Generator) generateImports() {
 		for _, method := range methods {
 			inTypes := util.FuncInputTypes(method)
 			outTypes := util.FuncOutputTypes(method)
-			inTypePkg := inTypes[1].PkgPath()
-			outTypePkg := outTypes[0].PkgPath()
-			if inTypePkg != "" {
-				if _, ok := allPkgs[inTypePkg]; !ok {
-					allPkgs[inTypePkg] = generator.RegisterUniquePackageName(g.pkgLastName(inTypePkg), nil)
-				}
-			}
-
-			if outTypePkg != "" {
-				if _, ok := allPkgs[outTypePkg]; !ok {
-					allPkgs[outTypePkg] = generator.RegisterUniquePackageName(g.pkgLastName(outTypePkg), nil)
-				}
-			}
+			g.registerPkgs(inTypes[1])
+			g.registerPkgs(outTypes[0])
 
 		}
 	}
@@ -163,6 +152,50 @@ func (g *Generator) generateImports() {
 	jsonPkgAlias = allPkgs[jsonPkg]
 }
 
+// registerPkgs registers the packages t needs
+func (g *Generator) registerPkgs(t reflect.Type) {
+	if t.Name() != "" {
+		pkg := t.PkgPath()
+		if pkg == "" {
+			return
+		}
+		if _, ok := allPkgs[pkg]; !ok {
+			allPkgs[pkg] = generator.RegisterUniquePackageName(g.pkgLastName(pkg), nil)
+		}
+		return
+	}
+
+	switch t.Kind() {
+	case reflect.Map:
+		g.registerPkgs(t.Key())
+		g.registerPkgs(t.Elem())
+	case reflect.Ptr, reflect.Slice, reflect.Array:
+		g.registerPkgs(t.Elem())
+	}
+}
+
+// fqType is how the generated code spells t
+func fqType(t reflect.Type) string {
+	if t.Name() != "" {
+		if t.PkgPath() != "" {
+			return allPkgs[t.PkgPath()] + "." + t.Name()
+		}
+		return t.Name()
+	}
+
+	switch t.Kind() {
+	case reflect.Ptr:
+		return "*" + fqType(t.Elem())
+	case reflect.Slice:
+		return "[]" + fqType(t.Elem())
+	case reflect.Array:
+		return fmt.Sprintf("[%d]%s", t.Len(), fqType(t.Elem()))
+	case reflect.Map:
+		return fmt.Sprintf("map[%s]%s", fqType(t.Key()), fqType(t.Elem()))
+	}
+	return t.String()
+}
+
 func (g *Generator) pkgLastName(fqPkg string) string {
 	parts := strings.Split(fqPkg, "/")
 	return parts[len(parts)-1]
@@ -274,12 +307,7 @@ func (g *Generator) Generate() {
 		outTypes := util.FuncOutputTypes(method)
 		inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
 		outTypePtrIsMarshaler := reflect.PtrTo(outTypes[0]).Implements(marshalerType)
-		if inTypes[1].PkgPath() != "" {
-			alias := allPkgs[inTypes[1].PkgPath()]
-			g.P("	var input ", alias, ".", inTypes[1].Name())
-		} else {
-			g.P("	var input ", inTypes[1].Name())
-		}
+		g.P("	var input ", fqType(inTypes[1]))
 
 		if inTypePtrIsMarshaler {
 			g.P("err = input.Unmarshal(inBytes)")
@@ -317,12 +345,7 @@ func (g *Generator) Generate() {
 			inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
 			outTypePtrIsMarshaler := reflect.PtrTo(outTypes[0]).Implements(marshalerType)
 			g.P("	m.callback[", codegenPkgAlias, ".FQMethod(", strconv.Quote(ns), ",", strconv.Quote(name), ")] = func(ctx context.Context, inBytes []byte) (outBytes []byte, err error) {")
-			if inTypes[1].PkgPath() != "" {
-				alias := allPkgs[inTypes[1].PkgPath()]
-				g.P("		var input ", alias, ".", inTypes[1].Name())
-			} else {
-				g.P("		var input ", inTypes[1].Name())
-			}
+			g.P("		var input ", fqType(inTypes[1]))
 
 			if inTypePtrIsMarshaler {
 				g.P("	err = input.Unmarshal(inBytes)")
@@ -366,17 +389,7 @@ func (g *Generator) generateClientSignature(name string, method reflect.Value) {
 	inTypes := util.FuncInputTypes(method)
 	outTypes := util.FuncOutputTypes(method)
 
-	var inFQType, outFQType string
-	if inTypes[1].PkgPath() != "" {
-		inFQType = allPkgs[inTypes[1].PkgPath()] + "." + inTypes[1].Name()
-	} else {
-		inFQType = inTypes[1].Name()
-	}
-	if outTypes[0].PkgPath() != "" {
-		outFQType = allPkgs[outTypes[0].PkgPath()] + "." + outTypes[0].Name()
-	} else {
-		outFQType = outTypes[0].Name()
-	}
+	inFQType, outFQType := fqType(inTypes[1]), fqType(outTypes[0])
 	g.P(name, "(", contextPkgAlias, ".Context,", inFQType, ")", outFQType)
 }
 
@@ -386,17 +399,7 @@ func (g *Generator) generateClientMethod(ns, name string, method reflect.Value)
 	inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
 	outTypePtrIsMarshaler := reflect.PtrTo(outTypes[0]).Implements(marshalerType)
 
-	var inFQType, outFQType string
-	if inTypes[1].PkgPath() != "" {
-		inFQType = allPkgs[inTypes[1].PkgPath()] + "." + inTypes[1].Name()
-	} else {
-		inFQType = inTypes[1].Name()
-	}
-	if outTypes[0].PkgPath() != "" {
-		outFQType = allPkgs[outTypes[0].PkgPath()] + "." + outTypes[0].Name()
-	} else {
-		outFQType = outTypes[0].Name()
-	}
+	inFQType, outFQType := fqType(inTypes[1]), fqType(outTypes[0])
 
 	g.P("func (c ", unexport(g.serviceName), ns, "Client)", name, "(ctx ", contextPkgAlias, ".Context, input ", inFQType, ") (output ", outFQType, ") {")
 	g.P("	cc := c.Client")
-- 
2.43.0


From c2351bd88c6006c39c6fa99b15b3ce851ef50d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:16 +0000
Subject: [PATCH 48/61] fix: generated code compiles when all types are
 Marshaler

---
 codegen/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codegen/generator.go b/codegen/generator.go
index 95e9cad..618ae81 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -150,6 +150,9 @@ func (g *Generator) generateImports() {
 	codegenPkgAlias = allPkgs[codegenPkg]
 	fmtPkgAlias = allPkgs[fmtPkg]
 	jsonPkgAlias = allPkgs[jsonPkg]
+
+	// not used when all types are Marshaler
+	g.P("var _ = ", jsonPkgAlias, ".Marshal")
 }
 
 // registerPkgs registers the packages t needs
-- 
2.43.0


From 3bf8d8f29d23cbe06a0a20eb2ce6d73af16f6c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:17 +0000
Subject: [PATCH 49/61] fix: generated servers refer to packages by their
 aliases

---
 codegen/generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index 618ae81..d7eab02 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -305,7 +305,7 @@ func (g *Generator) Generate() {
 	g.P()
 	g.P("func (m *", unexport(g.serviceName), "ServiceMux) Register(s ", g.serviceName, "Service) {")
 	for name, method := range g.services[""] {
-		g.P("m.callback[", codegenPkgAlias, ".FQMethod(\"\",", strconv.Quote(name), ")] = func(ctx context.Context, inBytes []byte) (outBytes []byte, err error) {")
+		g.P("m.callback[", codegenPkgAlias, ".FQMethod(\"\",", strconv.Quote(name), ")] = func(ctx ", contextPkgAlias, ".Context, inBytes []byte) (outBytes []byte, err error) {")
 		inTypes := util.FuncInputTypes(method)
 		outTypes := util.FuncOutputTypes(method)
 		inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
@@ -347,7 +347,7 @@ func (g *Generator) Generate() {
 			outTypes := util.FuncOutputTypes(method)
 			inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
 			outTypePtrIsMarshaler := reflect.PtrTo(outTypes[0]).Implements(marshalerType)
-			g.P("	m.callback[", codegenPkgAlias, ".FQMethod(", strconv.Quote(ns), ",", strconv.Quote(name), ")] = func(ctx context.Context, inBytes []byte) (outBytes []byte, err error) {")
+			g.P("	m.callback[", codegenPkgAlias, ".FQMethod(", strconv.Quote(ns), ",", strconv.Quote(name), ")] = func(ctx ", contextPkgAlias, ".Context, inBytes []byte) (outBytes []byte, err error) {")
 			g.P("		var input ", fqType(inTypes[1]))
 
 			if inTypePtrIsMarshaler {
@@ -374,7 +374,7 @@ func (g *Generator) Generate() {
 	g.P("	}")
 	g.P("}")
 	g.P()
-	g.P("func (m *", unexport(g.serviceName), "ServiceMux) Mux() *qrpc.ServeMux {")
+	g.P("func (m *", unexport(g.serviceName), "ServiceMux) Mux() *", qrpcPkgAlias, ".ServeMux {")
 	g.P("	if m.mux != nil {")
 	g.P("		return m.mux")
 	g.P("	}")
-- 
2.43.0


From 73f67650f01339701f3147a08d77bdf19ebe774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:17 +0000
Subject: [PATCH 50/61] fix: packages of types do not clash with names in
 generated code

---
 codegen/generator.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/codegen/generator.go b/codegen/generator.go
index d7eab02..9082a60 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -103,6 +103,16 @@ const (
 	fmtPkg     = "fmt"
 )
 
+func init() {
+	// not to be shadowed by or to shadow a package in generated code
+	for _, name := range []string{
+		"addrs", "conf", "c", "cc", "ctx", "input", "output", "inBytes", "outBytes", "err", "m", "mux", "s", "ss", "ssInterface", "ns",
+		"string", "byte", "error", "make", "panic", "nil",
+	} {
+		generator.RegisterUniquePackageName(name, nil)
+	}
+}
+
 var (
 	contextPkgAlias string
 	qrpcPkgAlias    string
-- 
2.43.0


From 75a103407c99ee3565a98733f8cd9657653064ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:26 +0000
Subject: [PATCH 51/61] fix: generated code encodes values whose pointers have
 MarshalJSON

---
 codegen/generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index 9082a60..77e35db 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -334,7 +334,7 @@ func (g *Generator) Generate() {
 		if outTypePtrIsMarshaler {
 			g.P("outBytes, err = output.Marshal()")
 		} else {
-			g.P("outBytes, err = ", jsonPkgAlias, ".Marshal(output)")
+			g.P("outBytes, err = ", jsonPkgAlias, ".Marshal(&output)")
 		}
 
 		g.P("	return")
@@ -372,7 +372,7 @@ func (g *Generator) Generate() {
 			if outTypePtrIsMarshaler {
 				g.P("	outBytes, err = output.Marshal()")
 			} else {
-				g.P("	outBytes, err = ", jsonPkgAlias, ".Marshal(output)")
+				g.P("	outBytes, err = ", jsonPkgAlias, ".Marshal(&output)")
 			}
 			g.P("		return")
 			g.P("	}")
@@ -419,7 +419,7 @@ func (g *Generator) generateClientMethod(ns, name string, method reflect.Value)
 	if inTypePtrIsMarshaler {
 		g.P("	inBytes, err := input.Marshal()")
 	} else {
-		g.P("	inBytes, err := ", jsonPkgAlias, ".Marshal(input)")
+		g.P("	inBytes, err := ", jsonPkgAlias, ".Marshal(&input)")
 	}
 
 	g.P("	if err != nil {")
-- 
2.43.0


From 0cfb7ca0d22d3c609a1106323cafe9cbdfc7ba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:25 +0000
Subject: [PATCH 52/61] fix: the dial timeout covers the TLS handshake

---
 clientconn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clientconn.go b/clientconn.go
index 4d97f44..fa8241f 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -137,12 +137,17 @@ func dialTCP(addr string, dialConfig DialConfig) (rwc net.Conn, err error) {
 	}
 
 	if dialConfig.TLSConf != nil {
+		if dialConfig.DialTimeout > 0 {
+			// a peer that never answers fails the dial too
+			rwc.SetDeadline(time.Now().Add(dialConfig.DialTimeout))
+		}
 		tlsConn := tls.Client(rwc, dialConfig.TLSConf)
 		err = tlsConn.Handshake()
 		if err != nil {
 			rwc.Close()
 			return
 		}
+		rwc.SetDeadline(time.Time{})
 
 		rwc = tlsConn
 	}
-- 
2.43.0


From 038bece5858225fd99dfb28abdda6fb4914ad743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:25 +0000
Subject: [PATCH 53/61] fix: the dial timeout covers the websocket handshake

---
 ws/client/conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ws/client/conn.go b/ws/client/conn.go
index ccca656..452782e 100644
--- a/ws/client/conn.go
+++ b/ws/client/conn.go
@@ -45,6 +45,8 @@ func DialConn(address string, dialConfig qrpc.DialConfig) (nc net.Conn, err erro
 			return
 		},
 		TLSClientConfig: dialConfig.TLSConf,
+		// a peer that never answers fails the dial too
+		HandshakeTimeout: dialConfig.DialTimeout,
 	}
 	if dialConfig.TLSConf != nil {
 		wc, resp, err = dialer.Dial("wss://"+address+"/qrpc", http.Header{})
-- 
2.43.0


From 1d49e30989d5c9e6dc29c922bd22d9e644280b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:32 +0000
Subject: [PATCH 54/61] fix: Shutdown releases a blocking handler waiting for
 its connection to end

---
 serveconn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serveconn.go b/serveconn.go
index ab58b42..13f8b70 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -436,6 +436,10 @@ func (sc *serveconn) readFrames() (err error) {
 			select {
 			case <-gate:
 			case <-ctx.Done():
+				// the handler may be waiting for the connection to end
+				if !sc.IsClosed() {
+					sc.Close()
+				}
 				return ctx.Err()
 			}
 		}
-- 
2.43.0


From 81779265eccd67e86c8a224d8a46ca20aa456de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:32 +0000
Subject: [PATCH 55/61] fix: a response awaited inside OnConnect is released
 when the transport ends

---
 clientconn.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/clientconn.go b/clientconn.go
index fa8241f..0a62bad 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -232,6 +232,13 @@ func (conn *Connection) loop() {
 			conn.writeFrames()
 		})
 
+		loopCtx := *conn.loopCtx
+		util.GoFunc(conn.loopWG, func() {
+			// OnConnect may wait for a response
+			<-loopCtx.Done()
+			conn.closeRWC()
+		})
+
 		if conn.conf.LifecycleCallbacks.OnConnect != nil {
 			conn.conf.LifecycleCallbacks.OnConnect(conn)
 		}
-- 
2.43.0


From ec08fd59bf3d6e68d32d8265336db3564eb8ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:32 +0000
Subject: [PATCH 56/61] fix: writing inside hooks does not keep a client from
 reconnecting

---
 clientconn.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/clientconn.go b/clientconn.go
index 0a62bad..fff56be 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -233,10 +233,13 @@ func (conn *Connection) loop() {
 		})
 
 		loopCtx := *conn.loopCtx
+		hooksDone := make(chan struct{})
 		util.GoFunc(conn.loopWG, func() {
 			// OnConnect may wait for a response
 			<-loopCtx.Done()
 			conn.closeRWC()
+			// OnConnect and OnDisconnect may write, and the next transport waits for them
+			conn.failWrites(hooksDone)
 		})
 
 		if conn.conf.LifecycleCallbacks.OnConnect != nil {
@@ -249,6 +252,7 @@ func (conn *Connection) loop() {
 		if conn.conf.LifecycleCallbacks.OnDisconnect != nil {
 			conn.conf.LifecycleCallbacks.OnDisconnect(conn)
 		}
+		close(hooksDone)
 
 		conn.loopWG.Wait()
 		conn.endLoop()
@@ -477,6 +481,11 @@ func (conn *Connection) waitHandlers() {
 		conn.handlerWG.Wait()
 		close(done)
 	}()
+	conn.failWrites(done)
+}
+
+// failWrites fails writes committed after the write goroutine has quit, until done
+func (conn *Connection) failWrites(done <-chan struct{}) {
 	for {
 		select {
 		case wfr := <-conn.writeFrameCh:
-- 
2.43.0


From 98558774fac241856bac29fc82c810bab127085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:58 +0000
Subject: [PATCH 57/61] fix: qrpcurl panics after sending a push

---
 tool/qrpcurl/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tool/qrpcurl/main.go b/tool/qrpcurl/main.go
index a0932bc..19fc0f2 100644
--- a/tool/qrpcurl/main.go
+++ b/tool/qrpcurl/main.go
@@ -92,6 +92,11 @@ func main() {
 			fmt.Println(payload)
 			fmt.Println("")
 
+			if resp == nil {
+				// a push has no response
+				return
+			}
+
 			frame, err := resp.GetFrame()
 			if err != nil {
 				fmt.Println("get response fail:", err)
-- 
2.43.0


From 1808ad74ec2ab0d532af43d7889ae44045d87a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:43 +0000
Subject: [PATCH 58/61] fix: a reused connection uses the configured TLS

---
 clientconn_reuse.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/clientconn_reuse.go b/clientconn_reuse.go
index 557ab0d..7fa3900 100644
--- a/clientconn_reuse.go
+++ b/clientconn_reuse.go
@@ -3,7 +3,9 @@
 package qrpc
 
 import (
+	"crypto/tls"
 	"net"
+	"time"
 
 	reuse "github.com/zhiqiangxu/go-reuseport"
 	"go.uber.org/zap"
@@ -17,6 +19,23 @@ func NewReusedConnection(addr string, conf ConnectionConfig, f SubFunc) (*Connec
 		return nil, err
 	}
 
+	if conf.TLSConf != nil {
+		if conf.DialTimeout > 0 {
+			// a peer that never answers fails the dial too
+			rwc.SetDeadline(time.Now().Add(conf.DialTimeout))
+		}
+		tlsConn := tls.Client(rwc, conf.TLSConf)
+		err = tlsConn.Handshake()
+		if err != nil {
+			l.Error("NewConnection Handshake", zap.Error(err))
+			rwc.Close()
+			return nil, err
+		}
+		rwc.SetDeadline(time.Time{})
+
+		rwc = tlsConn
+	}
+
 	return newConnection(rwc, []string{addr}, conf, f, false), nil
 }
 
-- 
2.43.0


From 1f57826d2a2629d69a65947b7d05d30963ae1385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:43 +0000
Subject: [PATCH 59/61] fix: GetReusedCon reads the transport under its lock

---
 clientconn_reuse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clientconn_reuse.go b/clientconn_reuse.go
index 7fa3900..9bb507a 100644
--- a/clientconn_reuse.go
+++ b/clientconn_reuse.go
@@ -41,5 +41,7 @@ func NewReusedConnection(addr string, conf ConnectionConfig, f SubFunc) (*Connec
 
 // GetReusedCon returns the underlying reuse-able socket
 func (conn *Connection) GetReusedCon() net.Conn {
+	conn.mu.Lock()
+	defer conn.mu.Unlock()
 	return conn.rwc
 }
-- 
2.43.0


From 831d69d793aaaba0d7bfcbed38b2677c7009c044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:59 +0000
Subject: [PATCH 60/61] fix: a frame that fails to end a stream does not mark
 the next frames

---
 framewriter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/framewriter.go b/framewriter.go
index ce924b7..901219a 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -169,8 +169,12 @@ func (dfw *defaultFrameWriter) Length() int {
 }
 
 func (dfw *defaultFrameWriter) StreamEndWrite(end bool) error {
+	// a frame that failed to end the stream must not mark the frames that follow
+	flags := dfw.Flags()
+	defer func() { dfw.SetFlags(flags) }()
+
 	if end {
-		dfw.SetFlags(dfw.Flags().ToEndStream())
+		dfw.SetFlags(flags.ToEndStream())
 	}
 	return dfw.EndWrite()
 }
-- 
2.43.0


From bad110a9d73a8d39ae02db28a119062348ec2e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:46 +0000
Subject: [PATCH 61/61] fix: a server's Request is never sent as a stream

---
 serveconn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serveconn.go b/serveconn.go
index 13f8b70..750bc12 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -708,7 +708,7 @@ func (sc *serveconn) tryFreeStreams() {
 
 // Request clientconn from serveconn
 func (sc *serveconn) Request(cmd Cmd, flags FrameFlag, payload []byte) (uint64, Response, error) {
-	flags = flags | NBFlag
+	flags = flags.ToNonStream() | NBFlag
 	requestID, resp, _, err := sc.writeFirstFrame(cmd, flags, payload)
 
 	return requestID, resp, err
-- 
2.43.0


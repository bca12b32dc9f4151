From 7e660abc66a98e925c2823844dd2a3f1fda0e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 01/45] fix: deliver NATS queue messages to one of the members
 sharing a connection

Every queue subscriber of a channel on the same bus received every message,
because the router passed messages on to all its routes.
---
 internal/bus/bus_nats.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/bus/bus_nats.go b/internal/bus/bus_nats.go
index 19c92de..d6df4ff 100644
--- a/internal/bus/bus_nats.go
+++ b/internal/bus/bus_nats.go
@@ -175,6 +175,7 @@ type natsRouter struct {
 	bus     *natsMessageBus
 	channel string
 	queue   bool
+	next    int
 }
 
 func (n *natsRouter) open(channel string, s *natsRouterSubscription) {
@@ -214,7 +215,13 @@ func (n *natsRouter) write(m *nats.Msg) {
 
 	n.mu.Lock()
 	defer n.mu.Unlock()
-	for _, s := range n.routes[channel] {
+	subs := n.routes[channel]
+	if n.queue && len(subs) > 1 {
+		// round-robin between the queue members sharing this connection
+		n.next++
+		subs = subs[n.next%len(subs):][:1]
+	}
+	for _, s := range subs {
 		s.write(m)
 	}
 }
-- 
2.43.0


From 73bd2ed4a96719cdc9f191e0cccedd5b5f2cd7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 02/45] fix: do not deliver an error with an empty message as a
 success

---
 pkg/client/multi.go | 2 +-
 pkg/client/rpc.go   | 4 ++--
 pkg/server/rpc.go   | 4 ++++
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/client/multi.go b/pkg/client/multi.go
index 00c80b5..777afed 100644
--- a/pkg/client/multi.go
+++ b/pkg/client/multi.go
@@ -128,7 +128,7 @@ func (m *multiRPC[ResponseType]) handleResponses(
 		case res := <-resChan:
 			var v ResponseType
 			var err error
-			if res.Error != "" {
+			if res.Error != "" || res.Code != "" {
 				err = psrpc.NewErrorFromResponse(res.Code, res.Error, res.ErrorDetails...)
 			} else {
 				v, err = bus.DeserializePayload[ResponseType](res.RawResponse)
diff --git a/pkg/client/rpc.go b/pkg/client/rpc.go
index 8d879de..b6cc6fb 100644
--- a/pkg/client/rpc.go
+++ b/pkg/client/rpc.go
@@ -145,7 +145,7 @@ func newRPC[ResponseType proto.Message](c *RPCClient, i *info.RequestInfo) psrpc
 
 		select {
 		case res := <-resChan:
-			if res.Error != "" {
+			if res.Error != "" || res.Code != "" {
 				err = psrpc.NewErrorFromResponse(res.Code, res.Error, res.ErrorDetails...)
 			} else {
 				response, err = bus.DeserializePayload[ResponseType](res.RawResponse)
@@ -228,7 +228,7 @@ func selectServer(
 
 		case res := <-resChan:
 			// will only happen with malformed requests
-			if res.Error != "" {
+			if res.Error != "" || res.Code != "" {
 				resErr = psrpc.NewErrorFromResponse(res.Code, res.Error, res.ErrorDetails...)
 			}
 		}
diff --git a/pkg/server/rpc.go b/pkg/server/rpc.go
index 07ccd22..3b01c1f 100644
--- a/pkg/server/rpc.go
+++ b/pkg/server/rpc.go
@@ -273,6 +273,10 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) sendResponse(
 			res.Error = err.Error()
 			res.Code = string(psrpc.Unknown)
 		}
+		// an error without a code must not be mistaken for a success
+		if res.Code == "" {
+			res.Code = string(psrpc.Unknown)
+		}
 	} else if response != nil {
 		b, err := bus.SerializePayload(response)
 		if err != nil {
-- 
2.43.0


From 0756621f3b9e114f4710d4f63abb57588c836d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 03/45] fix: deliver errors whose message is not valid UTF-8

---
 internal/stream/stream.go | 4 ++++
 pkg/server/rpc.go         | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/internal/stream/stream.go b/internal/stream/stream.go
index 9d20867..4286145 100644
--- a/internal/stream/stream.go
+++ b/internal/stream/stream.go
@@ -17,6 +17,7 @@ package stream
 import (
 	"context"
 	"errors"
+	"strings"
 	"sync"
 	"time"
 
@@ -284,6 +285,9 @@ func (s *streamBase[RequestType, ResponseType]) Close(cause error) error {
 		msg.Error = cause.Error()
 		msg.Code = string(psrpc.Unknown)
 	}
+	// a string field holding invalid UTF-8 cannot be encoded
+	msg.Error = strings.ToValidUTF8(msg.Error, "\uFFFD")
+	msg.Code = strings.ToValidUTF8(msg.Code, "\uFFFD")
 
 	now := time.Now()
 	err := s.adapter.Send(context.Background(), &internal.Stream{
diff --git a/pkg/server/rpc.go b/pkg/server/rpc.go
index 3b01c1f..d7a6fe5 100644
--- a/pkg/server/rpc.go
+++ b/pkg/server/rpc.go
@@ -17,6 +17,7 @@ package server
 import (
 	"context"
 	"errors"
+	"strings"
 	"sync"
 	"time"
 
@@ -277,6 +278,9 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) sendResponse(
 		if res.Code == "" {
 			res.Code = string(psrpc.Unknown)
 		}
+		// a string field holding invalid UTF-8 cannot be encoded
+		res.Error = strings.ToValidUTF8(res.Error, "\uFFFD")
+		res.Code = strings.ToValidUTF8(res.Code, "\uFFFD")
 	} else if response != nil {
 		b, err := bus.SerializePayload(response)
 		if err != nil {
-- 
2.43.0


From eccd776d2981038b0aa59212e5dfc21895da2e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 04/45] fix: skip bus messages of an unexpected type instead of
 crashing

---
 internal/bus/subscription.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/bus/subscription.go b/internal/bus/subscription.go
index 5a45fae..3cd0ab1 100644
--- a/internal/bus/subscription.go
+++ b/internal/bus/subscription.go
@@ -42,7 +42,11 @@ func newSubscription[MessageType proto.Message](sub Reader, size int) Subscripti
 			if err != nil {
 				continue
 			}
-			msgChan <- p.(MessageType)
+			m, ok := p.(MessageType)
+			if !ok {
+				continue
+			}
+			msgChan <- m
 		}
 	}()
 
-- 
2.43.0


From 76736787d0012b17d688a0761d18c0319d202ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 05/45] fix: keep one call's backlog from blocking the client's
 other calls

---
 pkg/client/client.go | 36 ++++++++++++++++++++++++++++++------
 pkg/client/multi.go  | 30 ++++++++++++++++++++----------
 pkg/client/rpc.go    | 11 ++++++-----
 pkg/client/stream.go |  5 +++--
 4 files changed, 59 insertions(+), 23 deletions(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index e160548..b31bce1 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -33,12 +33,36 @@ type RPCClient struct {
 	bus bus.MessageBus
 
 	mu               sync.Mutex
-	claimRequests    map[string]chan *internal.ClaimRequest
-	responseChannels map[string]chan *internal.Response
+	claimRequests    map[string]callChannel[*internal.ClaimRequest]
+	responseChannels map[string]callChannel[*internal.Response]
 	streamChannels   map[string]streamChannels
 	closed           core.Fuse
 }
 
+// callChannel passes messages on to a call until the call is done with them
+type callChannel[MessageType any] struct {
+	c    chan MessageType
+	done chan struct{}
+}
+
+func newCallChannel[MessageType any](size int) callChannel[MessageType] {
+	return callChannel[MessageType]{make(chan MessageType, size), make(chan struct{})}
+}
+
+// send never blocks, so that a call which is not ready to receive does not hold up the others
+func (c callChannel[MessageType]) send(msg MessageType) {
+	select {
+	case c.c <- msg:
+	default:
+		go func() {
+			select {
+			case c.c <- msg:
+			case <-c.done:
+			}
+		}()
+	}
+}
+
 func NewRPCClientWithStreams(
 	sd *info.ServiceDefinition,
 	b bus.MessageBus,
@@ -56,8 +80,8 @@ func NewRPCClient(
 		ServiceDefinition: sd,
 		ClientOpts:        getClientOpts(opts...),
 		bus:               b,
-		claimRequests:     make(map[string]chan *internal.ClaimRequest),
-		responseChannels:  make(map[string]chan *internal.Response),
+		claimRequests:     make(map[string]callChannel[*internal.ClaimRequest]),
+		responseChannels:  make(map[string]callChannel[*internal.Response]),
 		streamChannels:    make(map[string]streamChannels),
 	}
 	if c.ClientID != "" {
@@ -113,7 +137,7 @@ func NewRPCClient(
 				claimChan, ok := c.claimRequests[claim.RequestId]
 				c.mu.Unlock()
 				if ok {
-					claimChan <- claim
+					claimChan.send(claim)
 				}
 
 			case res := <-responses.Channel():
@@ -125,7 +149,7 @@ func NewRPCClient(
 				resChan, ok := c.responseChannels[res.RequestId]
 				c.mu.Unlock()
 				if ok {
-					resChan <- res
+					resChan.send(res)
 				}
 
 			case msg := <-streams.Channel():
diff --git a/pkg/client/multi.go b/pkg/client/multi.go
index 777afed..6104771 100644
--- a/pkg/client/multi.go
+++ b/pkg/client/multi.go
@@ -80,6 +80,7 @@ type multiRPC[ResponseType proto.Message] struct {
 	requestID string
 	handler   psrpc.ClientMultiRPCHandler
 	resChan   chan<- *psrpc.Response[ResponseType]
+	ctx       context.Context
 }
 
 func (m *multiRPC[ResponseType]) Send(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) error {
@@ -101,13 +102,19 @@ func (m *multiRPC[ResponseType]) Send(ctx context.Context, req proto.Message, op
 		Metadata:   metadata.OutgoingContextMetadata(ctx),
 	}
 
-	resChan := make(chan *internal.Response, m.c.ChannelSize)
+	resChan := newCallChannel[*internal.Response](m.c.ChannelSize)
+	resCtx, cancel := context.WithTimeout(ctx, o.Timeout)
+	m.ctx = resCtx
 
 	m.c.mu.Lock()
 	m.c.responseChannels[m.requestID] = resChan
 	m.c.mu.Unlock()
 
-	go m.handleResponses(ctx, req, resChan, o)
+	go func() {
+		defer cancel()
+		defer close(resChan.done)
+		m.handleResponses(ctx, req, resChan.c)
+	}()
 
 	if err = m.c.bus.Publish(ctx, m.i.GetRPCChannel(), ir); err != nil {
 		return psrpc.NewError(psrpc.Internal, err)
@@ -120,9 +127,7 @@ func (m *multiRPC[ResponseType]) handleResponses(
 	ctx context.Context,
 	req proto.Message,
 	resChan chan *internal.Response,
-	opts psrpc.RequestOpts,
 ) {
-	timer := time.NewTimer(opts.Timeout)
 	for {
 		select {
 		case res := <-resChan:
@@ -144,11 +149,7 @@ func (m *multiRPC[ResponseType]) handleResponses(
 
 			m.handler.Recv(v, err)
 
-		case <-timer.C:
-			m.handler.Close()
-			return
-
-		case <-ctx.Done():
+		case <-m.ctx.Done():
 			m.handler.Close()
 			return
 		}
@@ -156,10 +157,19 @@ func (m *multiRPC[ResponseType]) handleResponses(
 }
 
 func (m *multiRPC[ResponseType]) Recv(msg proto.Message, err error) {
-	m.resChan <- &psrpc.Response[ResponseType]{
+	res := &psrpc.Response[ResponseType]{
 		Result: msg.(ResponseType),
 		Err:    err,
 	}
+	select {
+	case m.resChan <- res:
+	default:
+		// wait for the caller, but not past the end of the call
+		select {
+		case m.resChan <- res:
+		case <-m.ctx.Done():
+		}
+	}
 }
 
 func (m *multiRPC[ResponseType]) Close() {
diff --git a/pkg/client/rpc.go b/pkg/client/rpc.go
index b6cc6fb..2f1332b 100644
--- a/pkg/client/rpc.go
+++ b/pkg/client/rpc.go
@@ -100,12 +100,11 @@ func newRPC[ResponseType proto.Message](c *RPCClient, i *info.RequestInfo) psrpc
 			Metadata:   metadata.OutgoingContextMetadata(ctx),
 		}
 
-		var claimChan chan *internal.ClaimRequest
-		resChan := make(chan *internal.Response, 1)
+		claimChan := newCallChannel[*internal.ClaimRequest](c.ChannelSize)
+		resChan := newCallChannel[*internal.Response](1)
 
 		c.mu.Lock()
 		if i.RequireClaim {
-			claimChan = make(chan *internal.ClaimRequest, c.ChannelSize)
 			c.claimRequests[requestID] = claimChan
 		}
 		c.responseChannels[requestID] = resChan
@@ -118,6 +117,8 @@ func newRPC[ResponseType proto.Message](c *RPCClient, i *info.RequestInfo) psrpc
 			}
 			delete(c.responseChannels, requestID)
 			c.mu.Unlock()
+			close(claimChan.done)
+			close(resChan.done)
 		}()
 
 		if err = c.bus.Publish(ctx, i.GetRPCChannel(), req); err != nil {
@@ -129,7 +130,7 @@ func newRPC[ResponseType proto.Message](c *RPCClient, i *info.RequestInfo) psrpc
 		defer cancel()
 
 		if i.RequireClaim {
-			serverID, err := selectServer(ctx, claimChan, resChan, o.SelectionOpts)
+			serverID, err := selectServer(ctx, claimChan.c, resChan.c, o.SelectionOpts)
 			if err != nil {
 				return nil, err
 			}
@@ -144,7 +145,7 @@ func newRPC[ResponseType proto.Message](c *RPCClient, i *info.RequestInfo) psrpc
 		}
 
 		select {
-		case res := <-resChan:
+		case res := <-resChan.c:
 			if res.Error != "" || res.Code != "" {
 				err = psrpc.NewErrorFromResponse(res.Code, res.Error, res.ErrorDetails...)
 			} else {
diff --git a/pkg/client/stream.go b/pkg/client/stream.go
index 54f236b..ca935b3 100644
--- a/pkg/client/stream.go
+++ b/pkg/client/stream.go
@@ -57,7 +57,7 @@ func OpenStream[SendType, RecvType proto.Message](
 		},
 	}
 
-	claimChan := make(chan *internal.ClaimRequest, c.ChannelSize)
+	claimChan := newCallChannel[*internal.ClaimRequest](c.ChannelSize)
 	recvChan := make(chan *internal.Stream, c.ChannelSize)
 	closed := make(chan struct{})
 
@@ -70,6 +70,7 @@ func OpenStream[SendType, RecvType proto.Message](
 		c.mu.Lock()
 		delete(c.claimRequests, requestID)
 		c.mu.Unlock()
+		close(claimChan.done)
 	}()
 
 	ackChan := make(chan struct{})
@@ -95,7 +96,7 @@ func OpenStream[SendType, RecvType proto.Message](
 	}
 
 	if i.RequireClaim {
-		serverID, err := selectServer(ctx, claimChan, nil, o.SelectionOpts)
+		serverID, err := selectServer(ctx, claimChan.c, nil, o.SelectionOpts)
 		if err != nil {
 			_ = cs.Close(err)
 			return nil, err
-- 
2.43.0


From 500b5786d79332fdb310ab417f35372b1e9a8d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 06/45] fix: do not block a handler on repeated claim responses

---
 pkg/server/rpc.go    | 6 +++++-
 pkg/server/stream.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/server/rpc.go b/pkg/server/rpc.go
index d7a6fe5..09db051 100644
--- a/pkg/server/rpc.go
+++ b/pkg/server/rpc.go
@@ -147,7 +147,11 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) run(s *RPCServer) {
 				claimChan, ok := h.claims[claim.RequestId]
 				h.mu.RUnlock()
 				if ok {
-					claimChan <- claim
+					// only the first response to a claim counts
+					select {
+					case claimChan <- claim:
+					default:
+					}
 				}
 			}
 		}
diff --git a/pkg/server/stream.go b/pkg/server/stream.go
index 8946d55..30754fc 100644
--- a/pkg/server/stream.go
+++ b/pkg/server/stream.go
@@ -121,7 +121,11 @@ func (h *streamHandler[RecvType, SendType]) run(s *RPCServer) {
 				claimChan, ok := h.claims[claim.RequestId]
 				h.mu.RUnlock()
 				if ok {
-					claimChan <- claim
+					// only the first response to a claim counts
+					select {
+					case claimChan <- claim:
+					default:
+					}
 				}
 			}
 		}
-- 
2.43.0


From c2e18adec4af2fd4998307c330ff27e1cab9baf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 07/45] fix: let a graceful shutdown finish every request
 received, and a kill interrupt it

---
 pkg/server/rpc.go | 50 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/pkg/server/rpc.go b/pkg/server/rpc.go
index 09db051..5c3a4a0 100644
--- a/pkg/server/rpc.go
+++ b/pkg/server/rpc.go
@@ -46,6 +46,9 @@ type rpcHandlerImpl[RequestType proto.Message, ResponseType proto.Message] struc
 	claimSub    bus.Subscription[*internal.ClaimResponse]
 	claims      map[string]chan *internal.ClaimResponse
 	handling    sync.WaitGroup
+	drained     chan struct{}
+	forceOnce   sync.Once
+	forced      chan struct{}
 	closeOnce   sync.Once
 	complete    chan struct{}
 	onCompleted func()
@@ -96,6 +99,8 @@ func newRPCHandler[RequestType proto.Message, ResponseType proto.Message](
 		claimSub:     claimSub,
 		claims:       make(map[string]chan *internal.ClaimResponse),
 		affinityFunc: affinityFunc,
+		drained:      make(chan struct{}),
+		forced:       make(chan struct{}),
 		complete:     make(chan struct{}),
 	}
 
@@ -127,20 +132,30 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) run(s *RPCServer) {
 			case <-h.complete:
 				return
 
-			case ir := <-requests:
-				if ir == nil {
+			case ir, ok := <-requests:
+				if !ok {
+					requests = nil
+					close(h.drained)
 					continue
 				}
+				select {
+				case <-h.complete:
+					return
+				default:
+				}
 				if time.Now().UnixNano() < ir.Expiry {
+					h.handling.Add(1)
 					go func() {
+						defer h.handling.Done()
 						if err := h.handleRequest(s, ir); err != nil {
 							logger.Error(err, "failed to handle request", "requestID", ir.RequestId)
 						}
 					}()
 				}
 
-			case claim := <-claims:
-				if claim == nil {
+			case claim, ok := <-claims:
+				if !ok {
+					claims = nil
 					continue
 				}
 				h.mu.RLock()
@@ -162,9 +177,6 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) handleRequest(
 	s *RPCServer,
 	ir *internal.Request,
 ) error {
-	h.handling.Add(1)
-	defer h.handling.Done()
-
 	head := &metadata.Header{
 		RemoteID: ir.ClientId,
 		SentAt:   time.Unix(0, ir.SentAt),
@@ -299,10 +311,13 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) sendResponse(
 }
 
 func (h *rpcHandlerImpl[RequestType, ResponseType]) close(force bool) {
+	if force {
+		h.forceOnce.Do(func() { close(h.forced) })
+	}
 	h.closeOnce.Do(func() {
 		_ = h.requestSub.Close()
 		if !force {
-			h.handling.Wait()
+			h.waitHandled()
 		}
 		_ = h.claimSub.Close()
 		h.onCompleted()
@@ -310,3 +325,22 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) close(force bool) {
 	})
 	<-h.complete
 }
+
+// waitHandled waits until the requests which were already received have been handled,
+// or until the handler is closed by force
+func (h *rpcHandlerImpl[RequestType, ResponseType]) waitHandled() {
+	handled := make(chan struct{})
+	go func() {
+		select {
+		case <-h.drained:
+			h.handling.Wait()
+			close(handled)
+		case <-h.forced:
+		}
+	}()
+
+	select {
+	case <-handled:
+	case <-h.forced:
+	}
+}
-- 
2.43.0


From 49e4323cb10fd8d67fcf987f7e11712563ada7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 08/45] fix: do not start a stream on a server that is closing

---
 pkg/server/stream.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pkg/server/stream.go b/pkg/server/stream.go
index 30754fc..6ff9592 100644
--- a/pkg/server/stream.go
+++ b/pkg/server/stream.go
@@ -103,8 +103,9 @@ func (h *streamHandler[RecvType, SendType]) run(s *RPCServer) {
 			case <-h.complete:
 				return
 
-			case is := <-requests:
-				if is == nil {
+			case is, ok := <-requests:
+				if !ok {
+					requests = nil
 					continue
 				}
 				if time.Now().UnixNano() < is.Expiry {
@@ -113,8 +114,9 @@ func (h *streamHandler[RecvType, SendType]) run(s *RPCServer) {
 					}
 				}
 
-			case claim := <-claims:
-				if claim == nil {
+			case claim, ok := <-claims:
+				if !ok {
+					claims = nil
 					continue
 				}
 				h.mu.RLock()
@@ -195,9 +197,16 @@ func (h *streamHandler[RecvType, SendType]) handleOpenRequest(
 	)
 
 	h.mu.Lock()
-	h.streams[is.StreamId] = ss
+	draining := h.draining.Load()
+	if !draining {
+		h.streams[is.StreamId] = ss
+	}
 	h.mu.Unlock()
 
+	if draining {
+		return ss.Close(psrpc.ErrStreamEOF)
+	}
+
 	if err := ss.Ack(octx, is); err != nil {
 		_ = ss.Close(err)
 		return err
@@ -266,9 +275,8 @@ func (h *streamHandler[RecvType, SendType]) claimRequest(
 
 func (h *streamHandler[RecvType, SendType]) close(force bool) {
 	h.closeOnce.Do(func() {
-		h.draining.Store(true)
-
 		h.mu.Lock()
+		h.draining.Store(true)
 		serverStreams := maps.Values(h.streams)
 		h.mu.Unlock()
 
-- 
2.43.0


From 358a43cd63834d1d252e5c555a5ca9d2b58a154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 09/45] fix: make handler registration exclusive and impossible
 once the server is closed

---
 pkg/server/server.go | 123 ++++++++++++++++++++++++-------------------
 1 file changed, 68 insertions(+), 55 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index c992b16..7749ba6 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -65,38 +65,26 @@ func RegisterHandler[RequestType proto.Message, ResponseType proto.Message](
 	svcImpl func(context.Context, RequestType) (ResponseType, error),
 	affinityFunc AffinityFunc[RequestType],
 ) error {
-	if s.shutdown.IsBroken() {
-		return psrpc.ErrServerClosed
-	}
-
 	i := s.GetInfo(rpc, topic)
 
 	key := i.GetHandlerKey()
-	s.mu.RLock()
-	_, ok := s.handlers[key]
-	s.mu.RUnlock()
-	if ok {
-		return errors.New("handler already exists")
+	if err := s.reserve(key); err != nil {
+		return err
 	}
 
 	// create handler
 	h, err := newRPCHandler(s, i, svcImpl, s.ChainedInterceptor, affinityFunc)
 	if err != nil {
+		s.release(key)
 		return err
 	}
 
-	s.active.Add(1)
-	h.onCompleted = func() {
-		s.active.Done()
-		s.mu.Lock()
-		delete(s.handlers, key)
-		s.mu.Unlock()
+	h.onCompleted = func() { s.release(key) }
+	if !s.activate(key, h) {
+		h.close(true)
+		return psrpc.ErrServerClosed
 	}
 
-	s.mu.Lock()
-	s.handlers[key] = h
-	s.mu.Unlock()
-
 	h.run(s)
 	return nil
 }
@@ -108,38 +96,26 @@ func RegisterStreamHandler[RequestType proto.Message, ResponseType proto.Message
 	svcImpl func(psrpc.ServerStream[ResponseType, RequestType]) error,
 	affinityFunc StreamAffinityFunc,
 ) error {
-	if s.shutdown.IsBroken() {
-		return psrpc.ErrServerClosed
-	}
-
 	i := s.GetInfo(rpc, topic)
 
 	key := i.GetHandlerKey()
-	s.mu.RLock()
-	_, ok := s.handlers[key]
-	s.mu.RUnlock()
-	if ok {
-		return errors.New("handler already exists")
+	if err := s.reserve(key); err != nil {
+		return err
 	}
 
 	// create handler
 	h, err := newStreamRPCHandler(s, i, svcImpl, affinityFunc)
 	if err != nil {
+		s.release(key)
 		return err
 	}
 
-	s.active.Add(1)
-	h.onCompleted = func() {
-		s.active.Done()
-		s.mu.Lock()
-		delete(s.handlers, key)
-		s.mu.Unlock()
+	h.onCompleted = func() { s.release(key) }
+	if !s.activate(key, h) {
+		h.close(true)
+		return psrpc.ErrServerClosed
 	}
 
-	s.mu.Lock()
-	s.handlers[key] = h
-	s.mu.Unlock()
-
 	h.run(s)
 	return nil
 }
@@ -148,35 +124,72 @@ func (s *RPCServer) DeregisterHandler(rpc string, topic []string) {
 	i := s.GetInfo(rpc, topic)
 	key := i.GetHandlerKey()
 	s.mu.RLock()
-	h, ok := s.handlers[key]
+	h := s.handlers[key]
 	s.mu.RUnlock()
-	if ok {
+	if h != nil {
 		h.close(true)
 	}
 }
 
+// reserve makes sure that only one handler is registered for a key, and none once the server is closed
+func (s *RPCServer) reserve(key string) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.shutdown.IsBroken() {
+		return psrpc.ErrServerClosed
+	}
+	if _, ok := s.handlers[key]; ok {
+		return errors.New("handler already exists")
+	}
+	s.handlers[key] = nil
+	s.active.Add(1)
+	return nil
+}
+
+// activate sets the handler of a reserved key, unless the server was closed in the meantime
+func (s *RPCServer) activate(key string, h rpcHandler) bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.shutdown.IsBroken() {
+		return false
+	}
+	s.handlers[key] = h
+	return true
+}
+
+func (s *RPCServer) release(key string) {
+	s.mu.Lock()
+	delete(s.handlers, key)
+	s.mu.Unlock()
+	s.active.Done()
+}
+
 func (s *RPCServer) Publish(ctx context.Context, rpc string, topic []string, msg proto.Message) error {
 	i := s.GetInfo(rpc, topic)
 	return s.bus.Publish(ctx, i.GetRPCChannel(), msg)
 }
 
 func (s *RPCServer) Close(force bool) {
-	s.shutdown.Once(func() {
-		s.mu.RLock()
-		handlers := maps.Values(s.handlers)
-		s.mu.RUnlock()
-
-		var wg sync.WaitGroup
-		for _, h := range handlers {
-			wg.Add(1)
-			h := h
-			go func() {
-				h.close(force)
-				wg.Done()
-			}()
+	s.shutdown.Break()
+
+	s.mu.RLock()
+	handlers := maps.Values(s.handlers)
+	s.mu.RUnlock()
+
+	var wg sync.WaitGroup
+	for _, h := range handlers {
+		if h == nil {
+			// still being registered
+			continue
 		}
-		wg.Wait()
-	})
+		wg.Add(1)
+		h := h
+		go func() {
+			h.close(force)
+			wg.Done()
+		}()
+	}
+	wg.Wait()
 
 	if !force {
 		s.active.Wait()
-- 
2.43.0


From b70ad289e72d64fc7973580b55fe14732011c6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 10/45] fix: fail stream opens on a closed client at once

---
 pkg/client/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/client/stream.go b/pkg/client/stream.go
index ca935b3..b00372c 100644
--- a/pkg/client/stream.go
+++ b/pkg/client/stream.go
@@ -37,6 +37,9 @@ func OpenStream[SendType, RecvType proto.Message](
 	topic []string,
 	opts ...psrpc.RequestOption,
 ) (psrpc.ClientStream[SendType, RecvType], error) {
+	if c.closed.IsBroken() {
+		return nil, psrpc.ErrClientClosed
+	}
 
 	i := c.GetInfo(rpc, topic)
 	o := getRequestOpts(ctx, i, c.ClientOpts, opts...)
-- 
2.43.0


From 2c5324d04ccf6c742e401ebca266a137d5bb191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 11/45] fix: let metadata set last win over appended metadata
 and copy the maps passed in

---
 pkg/metadata/metadata.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pkg/metadata/metadata.go b/pkg/metadata/metadata.go
index a900172..23763cb 100644
--- a/pkg/metadata/metadata.go
+++ b/pkg/metadata/metadata.go
@@ -57,7 +57,7 @@ func IncomingHeader(ctx context.Context) *Header {
 
 // NewContextWithOutgoingMetadata resets any existing outgoing metadata in the context to the one provided.
 func NewContextWithOutgoingMetadata(ctx context.Context, md Metadata) context.Context {
-	return context.WithValue(ctx, metadataKey{}, ctxMD{md: md})
+	return context.WithValue(ctx, metadataKey{}, ctxMD{md: maps.Clone(md)})
 }
 
 // WithOutgoingMetadata adds outgoing metadata to the context.
@@ -65,16 +65,12 @@ func WithOutgoingMetadata(ctx context.Context, md Metadata) context.Context {
 	if len(md) == 0 {
 		return ctx
 	}
-	m, ok := ctx.Value(metadataKey{}).(ctxMD)
-	if ok && m.md != nil {
-		m.md = maps.Clone(m.md)
-		for k, v := range md {
-			m.md[k] = v
-		}
-	} else {
-		m.md = md
+	m := OutgoingContextMetadata(ctx)
+	if m == nil {
+		m = make(Metadata, len(md))
 	}
-	return context.WithValue(ctx, metadataKey{}, m)
+	maps.Copy(m, md)
+	return context.WithValue(ctx, metadataKey{}, ctxMD{md: m})
 }
 
 // AppendMetadataToOutgoingContext appends key-value pairs to the outgoing context.
-- 
2.43.0


From 0ef27999e4f4017a8152fdc4217f181584a4aad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 12/45] fix: hand the request a server interceptor passes on to
 the handler

---
 pkg/server/rpc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/server/rpc.go b/pkg/server/rpc.go
index 5c3a4a0..af9e9c7 100644
--- a/pkg/server/rpc.go
+++ b/pkg/server/rpc.go
@@ -109,7 +109,10 @@ func newRPCHandler[RequestType proto.Message, ResponseType proto.Message](
 	} else {
 		h.handler = func(ctx context.Context, req RequestType) (ResponseType, error) {
 			var response ResponseType
-			res, err := interceptor(ctx, req, i.RPCInfo, func(ctx context.Context, _ proto.Message) (proto.Message, error) {
+			res, err := interceptor(ctx, req, i.RPCInfo, func(ctx context.Context, next proto.Message) (proto.Message, error) {
+				if r, ok := next.(RequestType); ok {
+					return svcImpl(ctx, r)
+				}
 				return svcImpl(ctx, req)
 			})
 			if res != nil {
-- 
2.43.0


From 8568204445b267997f90c7e4591cf1c5adea0b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 13/45] fix: clamp the expiry of multi calls and stream opens
 to the caller's deadline

---
 pkg/client/multi.go  | 6 +++++-
 pkg/client/stream.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/client/multi.go b/pkg/client/multi.go
index 6104771..cb11f6a 100644
--- a/pkg/client/multi.go
+++ b/pkg/client/multi.go
@@ -92,11 +92,15 @@ func (m *multiRPC[ResponseType]) Send(ctx context.Context, req proto.Message, op
 	}
 
 	now := time.Now()
+	expiry := now.Add(o.Timeout)
+	if deadline, ok := ctx.Deadline(); ok && deadline.Before(expiry) {
+		expiry = deadline
+	}
 	ir := &internal.Request{
 		RequestId:  m.requestID,
 		ClientId:   m.c.ID,
 		SentAt:     now.UnixNano(),
-		Expiry:     now.Add(o.Timeout).UnixNano(),
+		Expiry:     expiry.UnixNano(),
 		Multi:      true,
 		RawRequest: b,
 		Metadata:   metadata.OutgoingContextMetadata(ctx),
diff --git a/pkg/client/stream.go b/pkg/client/stream.go
index b00372c..3800553 100644
--- a/pkg/client/stream.go
+++ b/pkg/client/stream.go
@@ -47,11 +47,15 @@ func OpenStream[SendType, RecvType proto.Message](
 	streamID := rand.NewStreamID()
 	requestID := rand.NewRequestID()
 	now := time.Now()
+	expiry := now.Add(o.Timeout)
+	if deadline, ok := ctx.Deadline(); ok && deadline.Before(expiry) {
+		expiry = deadline
+	}
 	req := &internal.Stream{
 		StreamId:  streamID,
 		RequestId: requestID,
 		SentAt:    now.UnixNano(),
-		Expiry:    now.Add(o.Timeout).UnixNano(),
+		Expiry:    expiry.UnixNano(),
 		Body: &internal.Stream_Open{
 			Open: &internal.StreamOpen{
 				NodeId:   c.ID,
-- 
2.43.0


From 19484437b6cb27036216a2bbbcdddf701e6526e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 14/45] fix: close and open NATS subscriptions without racing
 deliveries and each other

---
 internal/bus/bus_nats.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/bus/bus_nats.go b/internal/bus/bus_nats.go
index d6df4ff..1684c1b 100644
--- a/internal/bus/bus_nats.go
+++ b/internal/bus/bus_nats.go
@@ -101,6 +101,7 @@ func (n *natsMessageBus) subscribeRouter(ctx context.Context, channel Channel, s
 	}
 
 	n.mu.Lock()
+	defer n.mu.Unlock()
 	r, ok := n.routers[channel.Server]
 	if !ok {
 		r = &natsRouter{
@@ -111,13 +112,11 @@ func (n *natsMessageBus) subscribeRouter(ctx context.Context, channel Channel, s
 		}
 		n.routers[channel.Server] = r
 	} else if r.queue != queue {
-		n.mu.Unlock()
 		return nil, fmt.Errorf("subscription type mismatch for channel %q %q", channel, sub.channel)
 	}
 
 	r.open(sub.channel, sub)
 	sub.router = r
-	n.mu.Unlock()
 
 	if ok {
 		return sub, nil
@@ -130,9 +129,7 @@ func (n *natsMessageBus) subscribeRouter(ctx context.Context, channel Channel, s
 		r.sub, err = n.nc.Subscribe(channel.Server, r.write)
 	}
 	if err != nil {
-		n.mu.Lock()
 		delete(n.routers, channel.Server)
-		n.mu.Unlock()
 		return nil, err
 	}
 
@@ -143,10 +140,17 @@ type natsSubscription struct {
 	ctx     context.Context
 	cancel  context.CancelFunc
 	sub     *nats.Subscription
+	mu      sync.Mutex
 	msgChan chan *nats.Msg
 }
 
 func (n *natsSubscription) write(msg *nats.Msg) {
+	n.mu.Lock()
+	defer n.mu.Unlock()
+	if n.ctx.Err() != nil {
+		// the channel may be closed already
+		return
+	}
 	select {
 	case n.msgChan <- msg:
 	case <-n.ctx.Done():
@@ -164,7 +168,9 @@ func (n *natsSubscription) read() ([]byte, bool) {
 func (n *natsSubscription) Close() error {
 	n.cancel()
 	err := n.sub.Unsubscribe()
+	n.mu.Lock()
 	close(n.msgChan)
+	n.mu.Unlock()
 	return err
 }
 
-- 
2.43.0


From 014e724431d6ba80d786f7f75b1b819ea0df0880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 15/45] fix: deliver Redis queue messages with equal content
 more than once

---
 internal/bus/bus_redis.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/bus/bus_redis.go b/internal/bus/bus_redis.go
index 7d770e2..dc4ace9 100644
--- a/internal/bus/bus_redis.go
+++ b/internal/bus/bus_redis.go
@@ -18,7 +18,7 @@ import (
 	"context"
 	"crypto/sha256"
 	"encoding/base64"
-	"math/rand"
+	mathrand "math/rand"
 	"sync"
 	"time"
 
@@ -31,6 +31,7 @@ import (
 	"google.golang.org/protobuf/proto"
 
 	"github.com/livekit/psrpc/internal/logger"
+	"github.com/livekit/psrpc/pkg/rand"
 )
 
 const (
@@ -81,7 +82,8 @@ func NewRedisMessageBus(rc redis.UniversalClient) MessageBus {
 }
 
 func (r *redisMessageBus) Publish(_ context.Context, channel Channel, msg proto.Message) error {
-	b, err := serialize(msg, "")
+	// queue members lock messages by their content, so make every message unique
+	b, err := serialize(msg, rand.NewString())
 	if err != nil {
 		return err
 	}
@@ -346,7 +348,7 @@ func (r *redisSubscription) read() ([]byte, bool) {
 		if r.queue {
 			sha := sha256.Sum256([]byte(msg.Payload))
 			hash := base64.StdEncoding.EncodeToString(sha[:])
-			acquired, err := r.bus.rc.SetNX(r.ctx, hash, rand.Int(), lockExpiration).Result()
+			acquired, err := r.bus.rc.SetNX(r.ctx, hash, mathrand.Int(), lockExpiration).Result()
 			if err != nil || !acquired {
 				continue
 			}
-- 
2.43.0


From 7f279482babca5f85ff00b7ece12dfe35f9ba88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 16/45] fix: reconcile Redis subscriptions after failed
 commands

The client library remembers the channels of subscribe and unsubscribe
commands that failed and applies them when it reconnects, so the outcome
of a failed command is unknown: a failed unsubscribe followed by a new
subscription left that subscription deaf, and a failed subscribe followed
by closing left the channel subscribed.
---
 internal/bus/bus_redis.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/bus/bus_redis.go b/internal/bus/bus_redis.go
index dc4ace9..d6a3d45 100644
--- a/internal/bus/bus_redis.go
+++ b/internal/bus/bus_redis.go
@@ -246,16 +246,20 @@ type redisReconcileSubscriptionsOp struct {
 }
 
 func (r *redisReconcileSubscriptionsOp) run() error {
+	// after a failed command the channel may or may not be subscribed
+	unknownChannels := map[string]struct{}{}
+
 	r.mu.Lock()
 	for len(r.dirtyChannels) > 0 {
 		subscribe := make(map[string]struct{}, len(r.dirtyChannels))
 		unsubscribe := make(map[string]struct{}, len(r.dirtyChannels))
 		for c := range r.dirtyChannels {
 			_, current := r.currentChannels[c]
+			_, unknown := unknownChannels[c]
 			desired := r.subs[c] != nil || r.queues[c] != nil
-			if !current && desired {
+			if desired && (!current || unknown) {
 				subscribe[c] = struct{}{}
-			} else if current && !desired {
+			} else if !desired && (current || unknown) {
 				unsubscribe[c] = struct{}{}
 			}
 		}
@@ -275,14 +279,18 @@ func (r *redisReconcileSubscriptionsOp) run() error {
 			time.Sleep(reconcilerRetryInterval)
 		}
 
+		maps.Clear(unknownChannels)
+
 		r.mu.Lock()
 		if subscribeErr != nil {
 			maps.Copy(r.dirtyChannels, subscribe)
+			maps.Copy(unknownChannels, subscribe)
 		} else {
 			maps.Copy(r.currentChannels, subscribe)
 		}
 		if unsubscribeErr != nil {
 			maps.Copy(r.dirtyChannels, unsubscribe)
+			maps.Copy(unknownChannels, unsubscribe)
 		} else {
 			for c := range unsubscribe {
 				delete(r.currentChannels, c)
-- 
2.43.0


From c39ea9bdb1064dbddcde1117e00c82fc1f080e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 17/45] fix: do not report an interrupted stream send as
 delivered

When the context of a stream ended, a send in progress could return
before the stream was marked as closed, with a nil error.
---
 internal/stream/stream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/stream/stream.go b/internal/stream/stream.go
index 4286145..518aea3 100644
--- a/internal/stream/stream.go
+++ b/internal/stream/stream.go
@@ -242,7 +242,10 @@ func (s *streamBase[SendType, RecvType]) Send(msg proto.Message, opts ...psrpc.S
 	case <-ctx.Done():
 		select {
 		case <-s.ctx.Done():
-			err = s.Err()
+			if err = s.Err(); err == nil {
+				// the context ended and the stream is about to be closed for it
+				err = s.ctx.Err()
+			}
 		default:
 			err = psrpc.ErrRequestTimedOut
 		}
-- 
2.43.0


From 5e4135bd1a7e3c782e4efedab33f6adc81e2a4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 18/45] fix: do not open a stream on the server that its client
 has already closed

---
 pkg/server/stream.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pkg/server/stream.go b/pkg/server/stream.go
index 6ff9592..5a6bd8f 100644
--- a/pkg/server/stream.go
+++ b/pkg/server/stream.go
@@ -44,6 +44,7 @@ type streamHandler[RecvType, SendType proto.Message] struct {
 	mu          sync.RWMutex
 	streamSub   bus.Subscription[*internal.Stream]
 	claimSub    bus.Subscription[*internal.ClaimResponse]
+	opening     map[string]struct{} // streams being opened that have not been closed yet
 	streams     map[string]stream.Stream[SendType, RecvType]
 	claims      map[string]chan *internal.ClaimResponse
 	draining    atomic.Bool
@@ -84,6 +85,7 @@ func newStreamRPCHandler[RecvType, SendType proto.Message](
 		i:            i,
 		streamSub:    streamSub,
 		claimSub:     claimSub,
+		opening:      make(map[string]struct{}),
 		streams:      make(map[string]stream.Stream[SendType, RecvType]),
 		claims:       make(map[string]chan *internal.ClaimResponse),
 		affinityFunc: affinityFunc,
@@ -143,6 +145,10 @@ func (h *streamHandler[RecvType, SendType]) handleRequest(
 			return nil
 		}
 
+		h.mu.Lock()
+		h.opening[is.StreamId] = struct{}{}
+		h.mu.Unlock()
+
 		go func() {
 			if err := h.handleOpenRequest(s, is, open); err != nil {
 				logger.Error(err, "stream handler failed", "requestID", is.RequestId)
@@ -151,6 +157,10 @@ func (h *streamHandler[RecvType, SendType]) handleRequest(
 	} else {
 		h.mu.Lock()
 		ss, ok := h.streams[is.StreamId]
+		if !ok && is.GetClose() != nil {
+			// the client gave up before the stream was open
+			delete(h.opening, is.StreamId)
+		}
 		h.mu.Unlock()
 
 		if ok {
@@ -165,6 +175,12 @@ func (h *streamHandler[RecvType, SendType]) handleOpenRequest(
 	is *internal.Stream,
 	open *internal.StreamOpen,
 ) error {
+	defer func() {
+		h.mu.Lock()
+		delete(h.opening, is.StreamId)
+		h.mu.Unlock()
+	}()
+
 	head := &metadata.Header{
 		RemoteID: open.NodeId,
 		SentAt:   time.Unix(0, is.SentAt),
@@ -198,11 +214,16 @@ func (h *streamHandler[RecvType, SendType]) handleOpenRequest(
 
 	h.mu.Lock()
 	draining := h.draining.Load()
-	if !draining {
+	_, opening := h.opening[is.StreamId]
+	if opening && !draining {
 		h.streams[is.StreamId] = ss
 	}
 	h.mu.Unlock()
 
+	if !opening {
+		return nil
+	}
+
 	if draining {
 		return ss.Close(psrpc.ErrStreamEOF)
 	}
-- 
2.43.0


From 8d2d505e3614d26bc2393f861680189ff0a2cc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 19/45] fix: send a stream's open before anything can close it

---
 pkg/client/stream.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/client/stream.go b/pkg/client/stream.go
index 3800553..2097621 100644
--- a/pkg/client/stream.go
+++ b/pkg/client/stream.go
@@ -92,8 +92,6 @@ func OpenStream[SendType, RecvType proto.Message](
 		map[string]chan struct{}{requestID: ackChan},
 	)
 
-	go runClientStream(c, cs, recvChan)
-
 	ctx, cancel := context.WithTimeout(ctx, o.Timeout)
 	defer cancel()
 
@@ -102,6 +100,9 @@ func OpenStream[SendType, RecvType proto.Message](
 		return nil, psrpc.NewError(psrpc.Internal, err)
 	}
 
+	// only now, so that a close never gets ahead of the open
+	go runClientStream(c, cs, recvChan)
+
 	if i.RequireClaim {
 		serverID, err := selectServer(ctx, claimChan.c, nil, o.SelectionOpts)
 		if err != nil {
-- 
2.43.0


From baeebd03f73e9957fd4cec39d4a1694ccfe9d5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 20/45] fix: let a gRPC status error close a stream with its
 own code

---
 internal/stream/stream.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/stream/stream.go b/internal/stream/stream.go
index 518aea3..9637759 100644
--- a/internal/stream/stream.go
+++ b/internal/stream/stream.go
@@ -21,6 +21,8 @@ import (
 	"sync"
 	"time"
 
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
 
 	"github.com/livekit/psrpc"
@@ -284,6 +286,9 @@ func (s *streamBase[RequestType, ResponseType]) Close(cause error) error {
 	if errors.As(cause, &e) {
 		msg.Error = e.Error()
 		msg.Code = string(e.Code())
+	} else if st, ok := status.FromError(cause); ok && st.Code() != codes.OK {
+		msg.Error = st.Message()
+		msg.Code = string(psrpc.ErrorCodeFromGRPC(st.Code()))
 	} else {
 		msg.Error = cause.Error()
 		msg.Code = string(psrpc.Unknown)
-- 
2.43.0


From 97d60aac82c651355760cf9da8d9c0e225b1017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:13 +0000
Subject: [PATCH 21/45] fix: drain the subscriptions of closed clients and
 handlers

---
 internal/bus/subscription.go | 10 ++++++++++
 pkg/client/client.go         |  3 +++
 pkg/server/rpc.go            |  2 ++
 pkg/server/stream.go         |  2 ++
 4 files changed, 17 insertions(+)

diff --git a/internal/bus/subscription.go b/internal/bus/subscription.go
index 3cd0ab1..c2a7bef 100644
--- a/internal/bus/subscription.go
+++ b/internal/bus/subscription.go
@@ -56,6 +56,16 @@ func newSubscription[MessageType proto.Message](sub Reader, size int) Subscripti
 	}
 }
 
+// Drain discards what is left in a closed subscription, so that nothing waits for it to be read
+func Drain[MessageType proto.Message](sub Subscription[MessageType]) {
+	c := sub.Channel()
+	if c == nil {
+		return
+	}
+	for range c {
+	}
+}
+
 func (s *subscription[MessageType]) Channel() <-chan MessageType {
 	return s.c
 }
diff --git a/pkg/client/client.go b/pkg/client/client.go
index b31bce1..8b6af3d 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -126,6 +126,9 @@ func NewRPCClient(
 				_ = claims.Close()
 				_ = responses.Close()
 				_ = streams.Close()
+				bus.Drain(claims)
+				bus.Drain(responses)
+				bus.Drain(streams)
 				return
 
 			case claim := <-claims.Channel():
diff --git a/pkg/server/rpc.go b/pkg/server/rpc.go
index af9e9c7..4cc140c 100644
--- a/pkg/server/rpc.go
+++ b/pkg/server/rpc.go
@@ -325,6 +325,8 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) close(force bool) {
 		_ = h.claimSub.Close()
 		h.onCompleted()
 		close(h.complete)
+		go bus.Drain(h.requestSub)
+		go bus.Drain(h.claimSub)
 	})
 	<-h.complete
 }
diff --git a/pkg/server/stream.go b/pkg/server/stream.go
index 5a6bd8f..45770fb 100644
--- a/pkg/server/stream.go
+++ b/pkg/server/stream.go
@@ -316,6 +316,8 @@ func (h *streamHandler[RecvType, SendType]) close(force bool) {
 		_ = h.claimSub.Close()
 		h.onCompleted()
 		close(h.complete)
+		go bus.Drain(h.streamSub)
+		go bus.Drain(h.claimSub)
 	})
 	<-h.complete
 }
-- 
2.43.0


From d446027f304d42d49cbad8fc2610ea5d68061c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 22/45] fix: run the whole rest of the chain each time a server
 interceptor continues it

---
 internal/interceptors/interceptor.go | 31 ++++++++++++++--------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/internal/interceptors/interceptor.go b/internal/interceptors/interceptor.go
index 6698835..497a873 100644
--- a/internal/interceptors/interceptor.go
+++ b/internal/interceptors/interceptor.go
@@ -42,21 +42,22 @@ func ChainServerInterceptors(interceptors []psrpc.ServerRPCInterceptor) psrpc.Se
 		return interceptors[0]
 	default:
 		return func(ctx context.Context, req proto.Message, rpcInfo psrpc.RPCInfo, handler psrpc.ServerRPCHandler) (proto.Message, error) {
-			// the struct ensures the variables are allocated together, rather than separately, since we
-			// know they should be garbage collected together. This saves 1 allocation and decreases
-			// time/call by about 10% on the microbenchmark.
-			var state struct {
-				i    int
-				next psrpc.ServerRPCHandler
-			}
-			state.next = func(ctx context.Context, req proto.Message) (proto.Message, error) {
-				if state.i == len(interceptors)-1 {
-					return interceptors[state.i](ctx, req, rpcInfo, handler)
-				}
-				state.i++
-				return interceptors[state.i-1](ctx, req, rpcInfo, state.next)
-			}
-			return state.next(ctx, req)
+			return interceptors[0](ctx, req, rpcInfo, chainServerHandler(interceptors, 1, rpcInfo, handler))
 		}
 	}
 }
+
+// chainServerHandler continues the chain with the i-th interceptor, however often it is called
+func chainServerHandler(
+	interceptors []psrpc.ServerRPCInterceptor,
+	i int,
+	rpcInfo psrpc.RPCInfo,
+	handler psrpc.ServerRPCHandler,
+) psrpc.ServerRPCHandler {
+	if i == len(interceptors) {
+		return handler
+	}
+	return func(ctx context.Context, req proto.Message) (proto.Message, error) {
+		return interceptors[i](ctx, req, rpcInfo, chainServerHandler(interceptors, i+1, rpcInfo, handler))
+	}
+}
-- 
2.43.0


From dafe44c34e22d3c1682f8e6648a3f2df82ade059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:01 +0000
Subject: [PATCH 23/45] fix: report a client's unary responses as received and
 its requests as sent

---
 pkg/middleware/metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/middleware/metrics.go b/pkg/middleware/metrics.go
index ff17306..9d345ee 100644
--- a/pkg/middleware/metrics.go
+++ b/pkg/middleware/metrics.go
@@ -72,7 +72,7 @@ func newClientRPCMetricsInterceptor(observer MetricsObserver) psrpc.ClientRPCInt
 		return func(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) (res proto.Message, err error) {
 			start := time.Now()
 			defer func() {
-				observer.OnUnaryRequest(ClientRole, rpcInfo, time.Since(start), err, proto.Size(req), proto.Size(res))
+				observer.OnUnaryRequest(ClientRole, rpcInfo, time.Since(start), err, proto.Size(res), proto.Size(req))
 			}()
 			return next(ctx, req, opts...)
 		}
-- 
2.43.0


From 84069bb95696857a2ae6aa3705410483750a239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:01 +0000
Subject: [PATCH 24/45] fix: close the stream of an open its client has given
 up

---
 pkg/server/stream.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/server/stream.go b/pkg/server/stream.go
index 45770fb..91fc0da 100644
--- a/pkg/server/stream.go
+++ b/pkg/server/stream.go
@@ -221,6 +221,7 @@ func (h *streamHandler[RecvType, SendType]) handleOpenRequest(
 	h.mu.Unlock()
 
 	if !opening {
+		_ = ss.Close(psrpc.ErrStreamClosed)
 		return nil
 	}
 
-- 
2.43.0


From 0ed76a0b972df71f2b95a5e156dbd84133f3e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:10 +0000
Subject: [PATCH 25/45] fix: report stream messages that could not be received
 with their error

---
 pkg/middleware/metrics.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/middleware/metrics.go b/pkg/middleware/metrics.go
index 9d345ee..dc5e430 100644
--- a/pkg/middleware/metrics.go
+++ b/pkg/middleware/metrics.go
@@ -120,7 +120,8 @@ type streamMetricsInterceptor struct {
 }
 
 func (s *streamMetricsInterceptor) Recv(msg proto.Message) (err error) {
-	s.observer.OnStreamRecv(s.role, s.info, err, proto.Size(msg))
+	size := proto.Size(msg)
+	defer func() { s.observer.OnStreamRecv(s.role, s.info, err, size) }()
 	return s.StreamHandler.Recv(msg)
 }
 
-- 
2.43.0


From eb143bf2bc0d50dd0487d77fb1b03d30a0405788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 26/45] fix: name imported packages apart from everything else
 in generated code

---
 protoc-gen-psrpc/generator.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index a039af0..fc3bf99 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -22,6 +22,7 @@ import (
 	"go/parser"
 	"go/printer"
 	"go/token"
+	"go/types"
 	"path"
 	"sort"
 	"strconv"
@@ -113,6 +114,7 @@ func (t *psrpc) Generate(in *plugin.CodeGeneratorRequest) *plugin.CodeGeneratorR
 		gen.Fail(err.Error())
 	}
 	t.genPkgName = genPkgName
+	t.pkgNamesInUse[genPkgName] = true
 
 	// We also need to figure out the full import path of the package we're
 	// generating. It's possible to import proto definitions from different .proto
@@ -149,9 +151,7 @@ func (t *psrpc) Generate(in *plugin.CodeGeneratorRequest) *plugin.CodeGeneratorR
 		if name == "" {
 			name = stringutils.BaseName(f.GetName())
 		}
-		name = stringutils.CleanIdentifier(name)
-		alias := t.registerPackageName(name)
-		t.fileToGoPackageName[f] = alias
+		t.fileToGoPackageName[f] = t.registerImportName(stringutils.CleanIdentifier(name))
 	}
 
 	// Showtime! Generate the response.
@@ -167,17 +167,34 @@ func (t *psrpc) Generate(in *plugin.CodeGeneratorRequest) *plugin.CodeGeneratorR
 }
 
 func (t *psrpc) registerPackageName(name string) (alias string) {
+	alias = t.registerImportName(name)
+	t.pkgs[name] = alias
+	return alias
+}
+
+// registerImportName picks a name for an imported package which nothing else in
+// the generated code uses.
+func (t *psrpc) registerImportName(name string) (alias string) {
 	alias = name
 	i := 1
-	for t.pkgNamesInUse[alias] {
+	for t.pkgNamesInUse[alias] || isReservedName(alias) {
 		alias = name + strconv.Itoa(i)
 		i++
 	}
 	t.pkgNamesInUse[alias] = true
-	t.pkgs[name] = alias
 	return alias
 }
 
+// isReservedName reports whether a name is a keyword, predeclared, or the name of
+// a variable in generated code.
+func isReservedName(name string) bool {
+	switch name {
+	case "bus", "c", "ctx", "err", "msg", "opts", "req", "rpcClient", "s", "sd", "svc":
+		return true
+	}
+	return token.IsKeyword(name) || types.Universe.Lookup(name) != nil
+}
+
 // deduceGenPkgName figures out the go package name to use for generated code.
 // Will try to use the explicit go_package setting in a file (if set, must be
 // consistent in all files). If no files have go_package set, then use the
-- 
2.43.0


From 25383c59ff1f27fe41c126e01b58c7f475fe4e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 27/45] fix: keep topic parameters from hiding what generated
 functions use

---
 protoc-gen-psrpc/generator.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index fc3bf99..3ca3dec 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -879,23 +879,31 @@ func (t *psrpc) topicsForMethod(method *descriptor.MethodDescriptorProto) topicS
 		return nil
 	}
 	if opt.TopicParams == nil || len(opt.TopicParams.Names) == 0 {
-		return []topic{{"topic", "string", false}}
+		return []topic{{t.paramName("topic"), "string", false}}
 	}
 	ts := make([]topic, 0, len(opt.TopicParams.Names))
 	for _, p := range opt.TopicParams.Names {
-		t := topic{
-			varName:  stringutils.LowerCamelCase(p),
+		tp := topic{
+			varName:  t.paramName(stringutils.LowerCamelCase(p)),
 			typeName: "string",
 			typed:    opt.TopicParams.Typed,
 		}
-		if t.typed {
-			t.typeName = fmt.Sprintf("%sTopicType", stringutils.CamelCase(p))
+		if tp.typed {
+			tp.typeName = fmt.Sprintf("%sTopicType", stringutils.CamelCase(p))
 		}
-		ts = append(ts, t)
+		ts = append(ts, tp)
 	}
 	return ts
 }
 
+// paramName keeps a topic parameter from hiding anything its function uses.
+func (t *psrpc) paramName(name string) string {
+	for t.pkgNamesInUse[name] || isReservedName(name) {
+		name += "_"
+	}
+	return name
+}
+
 func (t *psrpc) typedTopicsForService(service *descriptor.ServiceDescriptorProto) topicSlice {
 	var ts []topic
 	found := map[string]bool{}
-- 
2.43.0


From ac524559f2edb441139f587180dc35caf4149693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 28/45] fix: name nested messages like protoc-gen-go

---
 protoc-gen-psrpc/generator.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index 3ca3dec..9b918ae 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -1030,10 +1030,14 @@ func (t *psrpc) goTypeName(protoName string) string {
 	}
 
 	var name string
-	for _, parent := range def.Lineage() {
-		name += stringutils.CamelCase(parent.Descriptor.GetName()) + "_"
+	for _, m := range append(def.Lineage(), def) {
+		protoName := m.Descriptor.GetName()
+		// like protoc-gen-go, join a nested name which starts with a lower case letter directly
+		if name != "" && (protoName[0] < 'a' || protoName[0] > 'z') {
+			name += "_"
+		}
+		name += stringutils.CamelCase(protoName)
 	}
-	name += stringutils.CamelCase(def.Descriptor.GetName())
 	return prefix + name
 }
 
-- 
2.43.0


From 642492ce30f42791d8e3fa4f5be417c95447bdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 29/45] fix: make package names valid identifiers like
 protoc-gen-go does

---
 .../internal/gen/stringutils/stringutils.go           | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/protoc-gen-psrpc/internal/gen/stringutils/stringutils.go b/protoc-gen-psrpc/internal/gen/stringutils/stringutils.go
index 42628c1..e2ad3b2 100644
--- a/protoc-gen-psrpc/internal/gen/stringutils/stringutils.go
+++ b/protoc-gen-psrpc/internal/gen/stringutils/stringutils.go
@@ -14,8 +14,10 @@
 package stringutils
 
 import (
+	"go/token"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 // Is c an ASCII lower-case letter?
@@ -93,9 +95,14 @@ func AlphaDigitize(r rune) rune {
 }
 
 // CleanIdentifier makes sure s is a valid 'identifier' string: it contains only
-// letters, numbers, and underscore.
+// letters, numbers, and underscore. Like protoc-gen-go, it adds an underscore in
+// front of keywords and of anything that does not start with a letter.
 func CleanIdentifier(s string) string {
-	return strings.Map(AlphaDigitize, s)
+	s = strings.Map(AlphaDigitize, s)
+	if r, _ := utf8.DecodeRuneInString(s); token.IsKeyword(s) || !unicode.IsLetter(r) {
+		return "_" + s
+	}
+	return s
 }
 
 // BaseName the last path element of a slash-delimited name, with the last
-- 
2.43.0


From 792e6da914f6aaef1d000cc9758495b56d49f568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 30/45] fix: find methods' messages where they are defined, not
 where they are publicly imported

---
 .../internal/gen/typemap/typemap.go           | 48 ++++++++++++-------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/protoc-gen-psrpc/internal/gen/typemap/typemap.go b/protoc-gen-psrpc/internal/gen/typemap/typemap.go
index ec5338f..738e134 100644
--- a/protoc-gen-psrpc/internal/gen/typemap/typemap.go
+++ b/protoc-gen-psrpc/internal/gen/typemap/typemap.go
@@ -47,6 +47,14 @@ func New(files []*descriptor.FileDescriptorProto) *Registry {
 			r.messagesByProtoName[name] = def
 		}
 	}
+
+	// A publicly imported message is indexed as if it was defined where it is
+	// imported. It must not hide one that really is defined there.
+	for _, f := range files {
+		for _, def := range definedMessages(f) {
+			r.messagesByProtoName[def.ProtoName()] = def
+		}
+	}
 	return r
 }
 
@@ -165,25 +173,12 @@ func (m *MessageDefinition) descendants() []*MessageDefinition {
 // transitively imported by f.
 func messageDefsForFile(f *descriptor.FileDescriptorProto, filesByName map[string]*descriptor.FileDescriptorProto) map[string]*MessageDefinition {
 	byProtoName := make(map[string]*MessageDefinition)
-	// First, gather all the messages defined at the top level.
-	for i, d := range f.MessageType {
-		path := []int32{messagePath, int32(i)}
-		def := &MessageDefinition{
-			Descriptor: d,
-			File:       f,
-			Parent:     nil,
-			Comments:   commentsAtPath(path, f),
-			path:       path,
-		}
-
+	// First, gather all the messages defined in the file.
+	for _, def := range definedMessages(f) {
 		byProtoName[def.ProtoName()] = def
-		// Next, all nested message definitions.
-		for _, child := range def.descendants() {
-			byProtoName[child.ProtoName()] = child
-		}
 	}
 
-	// Finally, all messages imported publicly.
+	// Then, all messages imported publicly.
 	for _, depIdx := range f.PublicDependency {
 		depFileName := f.Dependency[depIdx]
 		depFile := filesByName[depFileName]
@@ -203,6 +198,27 @@ func messageDefsForFile(f *descriptor.FileDescriptorProto, filesByName map[strin
 	return byProtoName
 }
 
+// definedMessages gathers the messages f itself defines, top level or nested.
+func definedMessages(f *descriptor.FileDescriptorProto) []*MessageDefinition {
+	var defs []*MessageDefinition
+	// First, gather all the messages defined at the top level.
+	for i, d := range f.MessageType {
+		path := []int32{messagePath, int32(i)}
+		def := &MessageDefinition{
+			Descriptor: d,
+			File:       f,
+			Parent:     nil,
+			Comments:   commentsAtPath(path, f),
+			path:       path,
+		}
+
+		defs = append(defs, def)
+		// Next, all nested message definitions.
+		defs = append(defs, def.descendants()...)
+	}
+	return defs
+}
+
 // DefinitionComments contains the comments surrounding a definition in a
 // protobuf file.
 //
-- 
2.43.0


From b74cef32d02568cf6097769c297075fe74f7e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 31/45] fix: refuse empty and repeated topic parameter names

---
 protoc-gen-psrpc/generator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index 9b918ae..a8a61cf 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -882,7 +882,11 @@ func (t *psrpc) topicsForMethod(method *descriptor.MethodDescriptorProto) topicS
 		return []topic{{t.paramName("topic"), "string", false}}
 	}
 	ts := make([]topic, 0, len(opt.TopicParams.Names))
+	found := map[string]bool{}
 	for _, p := range opt.TopicParams.Names {
+		if p == "" {
+			gen.Fail(fmt.Sprintf(`empty topic parameter name in "%s"`, method.GetName()))
+		}
 		tp := topic{
 			varName:  t.paramName(stringutils.LowerCamelCase(p)),
 			typeName: "string",
@@ -891,6 +895,10 @@ func (t *psrpc) topicsForMethod(method *descriptor.MethodDescriptorProto) topicS
 		if tp.typed {
 			tp.typeName = fmt.Sprintf("%sTopicType", stringutils.CamelCase(p))
 		}
+		if found[tp.varName] {
+			gen.Fail(fmt.Sprintf(`topic parameter "%s" is repeated in "%s"`, p, method.GetName()))
+		}
+		found[tp.varName] = true
 		ts = append(ts, tp)
 	}
 	return ts
-- 
2.43.0


From 2d86136dbaedad3e5ebc83cedc5e5daf92a28ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 32/45] fix: only methods with topics are members of topic
 groups

---
 protoc-gen-psrpc/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index a8a61cf..f527641 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -939,7 +939,7 @@ func (t *psrpc) topicGroupsForService(service *descriptor.ServiceDescriptorProto
 	found := map[string]int{}
 	for _, m := range service.Method {
 		opt := t.getOptions(m)
-		if opt.TopicParams == nil || opt.TopicParams.Group == "" || opt.Subscription {
+		if opt.TopicParams == nil || opt.TopicParams.Group == "" || opt.Subscription || !opt.Topics {
 			continue
 		}
 
-- 
2.43.0


From 488f025f507ccd395f46d5a974fd393125c1cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 33/45] fix: accept files called options.proto without a
 package

---
 protoc-gen-psrpc/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index f527641..bb58cce 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -125,7 +125,7 @@ func (t *psrpc) Generate(in *plugin.CodeGeneratorRequest) *plugin.CodeGeneratorR
 
 	// Next, we need to pick names for all the files that are dependencies.
 	for _, f := range in.ProtoFile {
-		if *f.Name == "options.proto" && *f.Package == "psrpc" {
+		if f.GetName() == "options.proto" && f.GetPackage() == "psrpc" {
 			continue
 		}
 
-- 
2.43.0


From 86ef0e0c28c4604e27578d14669892dd80089e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 34/45] fix: name packages whose import path ends in a slash
 like protoc-gen-go

---
 protoc-gen-psrpc/go_naming.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protoc-gen-psrpc/go_naming.go b/protoc-gen-psrpc/go_naming.go
index 4c9ab5b..d7a6c63 100644
--- a/protoc-gen-psrpc/go_naming.go
+++ b/protoc-gen-psrpc/go_naming.go
@@ -39,7 +39,7 @@ func goPackageOption(f *descriptor.FileDescriptorProto) (impPath, pkg string, ok
 	if slash < 0 {
 		return "", pkg, true
 	}
-	impPath, pkg = pkg, pkg[slash+1:]
+	impPath, pkg = pkg, path.Base(pkg)
 	// A semicolon-delimited suffix overrides the package name.
 	sc := strings.IndexByte(impPath, ';')
 	if sc < 0 {
-- 
2.43.0


From 397425685769187125152c587a857f3e63518db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 35/45] fix: refuse files without a package name

---
 protoc-gen-psrpc/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index bb58cce..b6bfd40 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -203,6 +203,9 @@ func deduceGenPkgName(genFiles []*descriptor.FileDescriptorProto) (string, error
 	var genPkgName string
 	for _, f := range genFiles {
 		name, explicit := goPackageName(f)
+		if name == "" {
+			return "", errors.Errorf("no package name for %q: %q", f.GetName(), f.GetOptions().GetGoPackage())
+		}
 		if explicit {
 			name = stringutils.CleanIdentifier(name)
 			if genPkgName != "" && genPkgName != name {
-- 
2.43.0


From 21595d8975d51d896b6c77e8f91560c030a0b346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 36/45] fix: tell Go packages apart by import path, for each
 generated file

---
 protoc-gen-psrpc/generator.go | 93 +++++++++++++++--------------------
 protoc-gen-psrpc/go_naming.go | 21 ++++++++
 2 files changed, 62 insertions(+), 52 deletions(-)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index b6bfd40..a02b948 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -23,7 +23,6 @@ import (
 	"go/printer"
 	"go/token"
 	"go/types"
-	"path"
 	"sort"
 	"strconv"
 	"strings"
@@ -98,6 +97,33 @@ func (t *psrpc) Generate(in *plugin.CodeGeneratorRequest) *plugin.CodeGeneratorR
 	// Collect information on types.
 	t.reg = typemap.New(in.ProtoFile)
 
+	// Figure out the package name for the package we're generating.
+	genPkgName, err := deduceGenPkgName(t.genFiles)
+	if err != nil {
+		gen.Fail(err.Error())
+	}
+	t.genPkgName = genPkgName
+
+	// Showtime! Generate the response.
+	resp := new(plugin.CodeGeneratorResponse)
+	resp.SupportedFeatures = proto.Uint64(uint64(plugin.CodeGeneratorResponse_FEATURE_PROTO3_OPTIONAL))
+	for _, f := range t.genFiles {
+		t.registerPackageNames(f, in.ProtoFile)
+		respFile := t.generate(f)
+		if respFile != nil {
+			resp.File = append(resp.File, respFile)
+		}
+	}
+	return resp
+}
+
+// registerPackageNames picks the names of all packages the code generated for file
+// may refer to.
+func (t *psrpc) registerPackageNames(file *descriptor.FileDescriptorProto, files []*descriptor.FileDescriptorProto) {
+	t.pkgs = make(map[string]string)
+	t.pkgNamesInUse = make(map[string]bool)
+	t.fileToGoPackageName = make(map[*descriptor.FileDescriptorProto]string)
+
 	// Register names of packages that we import.
 	t.registerPackageName("client")
 	t.registerPackageName("context")
@@ -106,46 +132,21 @@ func (t *psrpc) Generate(in *plugin.CodeGeneratorRequest) *plugin.CodeGeneratorR
 	t.registerPackageName("rand")
 	t.registerPackageName("server")
 	t.registerPackageName("version")
-
-	// Time to figure out package names of objects defined in protobuf. First,
-	// we'll figure out the name for the package we're generating.
-	genPkgName, err := deduceGenPkgName(t.genFiles)
-	if err != nil {
-		gen.Fail(err.Error())
-	}
-	t.genPkgName = genPkgName
-	t.pkgNamesInUse[genPkgName] = true
-
-	// We also need to figure out the full import path of the package we're
-	// generating. It's possible to import proto definitions from different .proto
-	// files which will be generated into the same Go package, which we need to
-	// detect (and can only detect if files use fully-specified go_package
-	// options).
-	genPkgImportPath, _, _ := goPackageOption(t.genFiles[0])
+	t.pkgNamesInUse[t.genPkgName] = true
 
 	// Next, we need to pick names for all the files that are dependencies.
-	for _, f := range in.ProtoFile {
+	for _, f := range files {
 		if f.GetName() == "options.proto" && f.GetPackage() == "psrpc" {
 			continue
 		}
 
-		// Is this is a file we are generating? If yes, it gets the shared package name.
-		if fileDescSliceContains(t.genFiles, f) {
+		// Does this file belong to the package we're generating? If yes, it gets the
+		// shared package name.
+		if t.sameGoPackage(f, file) {
 			t.fileToGoPackageName[f] = t.genPkgName
 			continue
 		}
 
-		// Is this is an imported .proto file which has the same fully-specified
-		// go_package as the targeted file for generation? If yes, it gets the
-		// shared package name too.
-		if genPkgImportPath != "" {
-			importPath, _, _ := goPackageOption(f)
-			if importPath == genPkgImportPath {
-				t.fileToGoPackageName[f] = t.genPkgName
-				continue
-			}
-		}
-
 		// This is a dependency from a different go_package. Use its package name.
 		name := f.GetPackage()
 		if name == "" {
@@ -153,17 +154,17 @@ func (t *psrpc) Generate(in *plugin.CodeGeneratorRequest) *plugin.CodeGeneratorR
 		}
 		t.fileToGoPackageName[f] = t.registerImportName(stringutils.CleanIdentifier(name))
 	}
+}
 
-	// Showtime! Generate the response.
-	resp := new(plugin.CodeGeneratorResponse)
-	resp.SupportedFeatures = proto.Uint64(uint64(plugin.CodeGeneratorResponse_FEATURE_PROTO3_OPTIONAL))
-	for _, f := range t.genFiles {
-		respFile := t.generate(f)
-		if respFile != nil {
-			resp.File = append(resp.File, respFile)
+// sameGoPackage reports whether the code of two files belongs to one Go package.
+func (t *psrpc) sameGoPackage(a, b *descriptor.FileDescriptorProto) bool {
+	// Files generated together share their package unless both say where they belong.
+	if fileDescSliceContains(t.genFiles, a) && fileDescSliceContains(t.genFiles, b) {
+		if !t.hasGoImportPath(a) || !t.hasGoImportPath(b) {
+			return true
 		}
 	}
-	return resp
+	return t.goImportPath(a) == t.goImportPath(b)
 }
 
 func (t *psrpc) registerPackageName(name string) (alias string) {
@@ -308,7 +309,6 @@ func (t *psrpc) generateImports(file *descriptor.FileDescriptorProto) {
 	// method. Make sure to import the package of any such message. First, dedupe
 	// them.
 	deps := make(map[string]string) // Map of package name to quoted import path.
-	ourImportPath := path.Dir(t.goFileName(file))
 	for _, s := range file.Service {
 		for _, m := range s.Method {
 			defs := []*typemap.MessageDefinition{
@@ -316,18 +316,7 @@ func (t *psrpc) generateImports(file *descriptor.FileDescriptorProto) {
 				t.reg.MethodOutputDefinition(m),
 			}
 			for _, def := range defs {
-				importPath, _ := parseGoPackageOption(def.File.GetOptions().GetGoPackage())
-				if importPath == "" { // no option go_package
-					importPath := path.Dir(t.goFileName(def.File)) // use the dirname of the Go filename as import path
-					if importPath == ourImportPath {
-						continue
-					}
-				}
-
-				if substitution, ok := t.importMap[def.File.GetName()]; ok {
-					importPath = substitution
-				}
-				importPath = t.importPrefix + importPath
+				importPath := t.importPrefix + t.goImportPath(def.File)
 
 				pkg := t.goPackageName(def.File)
 				if pkg != t.genPkgName {
diff --git a/protoc-gen-psrpc/go_naming.go b/protoc-gen-psrpc/go_naming.go
index d7a6c63..a9d1c33 100644
--- a/protoc-gen-psrpc/go_naming.go
+++ b/protoc-gen-psrpc/go_naming.go
@@ -117,3 +117,24 @@ func parseGoPackageOption(v string) (importPath, packageName string) {
 	packageName = v
 	return
 }
+
+// hasGoImportPath reports whether a parameter or the option go_package says what
+// the import path of the file's package is.
+func (t *psrpc) hasGoImportPath(f *descriptor.FileDescriptorProto) bool {
+	if _, ok := t.importMap[f.GetName()]; ok {
+		return true
+	}
+	importPath, _ := parseGoPackageOption(f.GetOptions().GetGoPackage())
+	return importPath != ""
+}
+
+// goImportPath returns the import path of the file's package.
+func (t *psrpc) goImportPath(f *descriptor.FileDescriptorProto) string {
+	if substitution, ok := t.importMap[f.GetName()]; ok {
+		return substitution
+	}
+	if importPath, _ := parseGoPackageOption(f.GetOptions().GetGoPackage()); importPath != "" {
+		return importPath
+	}
+	return path.Dir(t.goFileName(f)) // use the dirname of the Go filename as import path
+}
-- 
2.43.0


From 52dbaea00f2e7ddc2cec3d31ca7354eb581f7252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 37/45] fix: trim the module path at a path boundary only

---
 protoc-gen-psrpc/go_naming.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/protoc-gen-psrpc/go_naming.go b/protoc-gen-psrpc/go_naming.go
index a9d1c33..69458e1 100644
--- a/protoc-gen-psrpc/go_naming.go
+++ b/protoc-gen-psrpc/go_naming.go
@@ -82,7 +82,7 @@ func (t *psrpc) goFileName(f *descriptor.FileDescriptorProto) string {
 	// otherwise, the directory is taken from the option go_package
 	if impPath, _, ok := goPackageOption(f); ok && impPath != "" {
 		if t.modulePrefix != "" {
-			impPath = strings.TrimPrefix(strings.TrimPrefix(impPath, t.modulePrefix), "/")
+			impPath = trimModule(impPath, t.modulePrefix)
 		}
 
 		// Replace the existing dirname with the import path from go_package
@@ -94,6 +94,16 @@ func (t *psrpc) goFileName(f *descriptor.FileDescriptorProto) string {
 	return name
 }
 
+// trimModule returns the part of importPath behind the module path, or all of it if
+// it is not inside of the module.
+func trimModule(importPath, module string) string {
+	module = strings.TrimSuffix(module, "/")
+	if rest, ok := strings.CutPrefix(importPath, module); ok && (rest == "" || rest[0] == '/') {
+		return strings.TrimPrefix(rest, "/")
+	}
+	return importPath
+}
+
 func parseGoPackageOption(v string) (importPath, packageName string) {
 	// Allowed formats:
 	// option go_package = "foo";
-- 
2.43.0


From f13423e5f5406110904868ee5b03a46212445ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 38/45] fix: apply command line parameters in their order

---
 protoc-gen-psrpc/command_line.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/protoc-gen-psrpc/command_line.go b/protoc-gen-psrpc/command_line.go
index 8024a1a..90b64c8 100644
--- a/protoc-gen-psrpc/command_line.go
+++ b/protoc-gen-psrpc/command_line.go
@@ -29,7 +29,9 @@ type commandLineParams struct {
 // in the parameter (a member of the request protobuf) into a key/value map.
 // It then sets command line parameter mappings defined by those entries.
 func parseCommandLineParams(parameter string) (*commandLineParams, error) {
-	ps := make(map[string]string)
+	clp := &commandLineParams{
+		importMap: make(map[string]string),
+	}
 	for _, p := range strings.Split(parameter, ",") {
 		if p == "" {
 			continue
@@ -43,13 +45,6 @@ func parseCommandLineParams(parameter string) (*commandLineParams, error) {
 		if v == "" {
 			return nil, fmt.Errorf("invalid parameter %q: expected format of parameter to be k=v", k)
 		}
-		ps[k] = v
-	}
-
-	clp := &commandLineParams{
-		importMap: make(map[string]string),
-	}
-	for k, v := range ps {
 		switch {
 		// Support import map 'M' prefix: https://developers.google.com/protocol-buffers/docs/reference/go-generated
 		case len(k) > 0 && k[0] == 'M':
@@ -61,6 +56,7 @@ func parseCommandLineParams(parameter string) (*commandLineParams, error) {
 			switch v {
 			case "import":
 				// this is the default behavior; the output file is placed in a directory named after the option go_package
+				clp.paths = ""
 			case "source_relative":
 				// the directory prefix on the option go_package is removed from the output filename (only the last part is used)
 				clp.paths = "source_relative"
-- 
2.43.0


From f52931d98d3ba2adfcbdec711d352da951955cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 39/45] fix: accept package names in import mappings

---
 protoc-gen-psrpc/go_naming.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protoc-gen-psrpc/go_naming.go b/protoc-gen-psrpc/go_naming.go
index 69458e1..8ffc596 100644
--- a/protoc-gen-psrpc/go_naming.go
+++ b/protoc-gen-psrpc/go_naming.go
@@ -141,7 +141,9 @@ func (t *psrpc) hasGoImportPath(f *descriptor.FileDescriptorProto) bool {
 // goImportPath returns the import path of the file's package.
 func (t *psrpc) goImportPath(f *descriptor.FileDescriptorProto) string {
 	if substitution, ok := t.importMap[f.GetName()]; ok {
-		return substitution
+		// The package name may follow, as in the option go_package
+		importPath, _, _ := strings.Cut(substitution, ";")
+		return importPath
 	}
 	if importPath, _ := parseGoPackageOption(f.GetOptions().GetGoPackage()); importPath != "" {
 		return importPath
-- 
2.43.0


From 049d0234b0691d9a1ce93e50d102319d2d861c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 40/45] fix: take valid package names of go_package as they are

---
 protoc-gen-psrpc/generator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index a02b948..ac8242c 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -208,7 +208,10 @@ func deduceGenPkgName(genFiles []*descriptor.FileDescriptorProto) (string, error
 			return "", errors.Errorf("no package name for %q: %q", f.GetName(), f.GetOptions().GetGoPackage())
 		}
 		if explicit {
-			name = stringutils.CleanIdentifier(name)
+			// Like protoc-gen-go, take a name behind a semicolon as it is
+			if !strings.Contains(f.GetOptions().GetGoPackage(), ";") || !token.IsIdentifier(name) {
+				name = stringutils.CleanIdentifier(name)
+			}
 			if genPkgName != "" && genPkgName != name {
 				// Make sure they're all set consistently.
 				return "", errors.Errorf("files have conflicting go_package settings, must be the same: %q and %q", genPkgName, name)
-- 
2.43.0


From 2385520c0145dae6ad340c28a345eb83a3b17720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:35 +0000
Subject: [PATCH 41/45] fix: keep the options passed to a client with streams
 as they are

---
 pkg/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 8b6af3d..49656a2 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -68,7 +68,7 @@ func NewRPCClientWithStreams(
 	b bus.MessageBus,
 	opts ...psrpc.ClientOption,
 ) (*RPCClient, error) {
-	return NewRPCClient(sd, b, append(opts, withStreams())...)
+	return NewRPCClient(sd, b, psrpc.WithClientOptions(opts...), withStreams())
 }
 
 func NewRPCClient(
-- 
2.43.0


From ac94674479b37c12bc7e8a6bf8f78d48fa5475c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:37 +0000
Subject: [PATCH 42/45] fix: keep a closing client from blocking deliveries on
 its connection

---
 pkg/client/client.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 49656a2..efaceda 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -123,12 +123,13 @@ func NewRPCClient(
 		for {
 			select {
 			case <-closed:
+				// closing one waits for deliveries to the others
+				go bus.Drain(claims)
+				go bus.Drain(responses)
+				go bus.Drain(streams)
 				_ = claims.Close()
 				_ = responses.Close()
 				_ = streams.Close()
-				bus.Drain(claims)
-				bus.Drain(responses)
-				bus.Drain(streams)
 				return
 
 			case claim := <-claims.Channel():
-- 
2.43.0


From 044d35041f6bbc3f00ebe8ae401e4ee5b5697991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:32 +0000
Subject: [PATCH 43/45] fix: let multi-call interceptors pass a failed response
 on without a message

---
 pkg/client/multi.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/client/multi.go b/pkg/client/multi.go
index cb11f6a..753c1ed 100644
--- a/pkg/client/multi.go
+++ b/pkg/client/multi.go
@@ -161,9 +161,9 @@ func (m *multiRPC[ResponseType]) handleResponses(
 }
 
 func (m *multiRPC[ResponseType]) Recv(msg proto.Message, err error) {
-	res := &psrpc.Response[ResponseType]{
-		Result: msg.(ResponseType),
-		Err:    err,
+	res := &psrpc.Response[ResponseType]{Err: err}
+	if msg != nil {
+		res.Result = msg.(ResponseType)
 	}
 	select {
 	case m.resChan <- res:
-- 
2.43.0


From d010117672b67d228938cbd24c5c3e871b6d13a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:46 +0000
Subject: [PATCH 44/45] fix: take the result of a claimed call from the server
 it was given to only

---
 pkg/client/rpc.go | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/pkg/client/rpc.go b/pkg/client/rpc.go
index 2f1332b..efcae01 100644
--- a/pkg/client/rpc.go
+++ b/pkg/client/rpc.go
@@ -129,8 +129,9 @@ func newRPC[ResponseType proto.Message](c *RPCClient, i *info.RequestInfo) psrpc
 		ctx, cancel := context.WithTimeout(ctx, o.Timeout)
 		defer cancel()
 
+		var serverID string
 		if i.RequireClaim {
-			serverID, err := selectServer(ctx, claimChan.c, resChan.c, o.SelectionOpts)
+			serverID, err = selectServer(ctx, claimChan.c, resChan.c, o.SelectionOpts)
 			if err != nil {
 				return nil, err
 			}
@@ -144,27 +145,33 @@ func newRPC[ResponseType proto.Message](c *RPCClient, i *info.RequestInfo) psrpc
 			}
 		}
 
-		select {
-		case res := <-resChan.c:
-			if res.Error != "" || res.Code != "" {
-				err = psrpc.NewErrorFromResponse(res.Code, res.Error, res.ErrorDetails...)
-			} else {
-				response, err = bus.DeserializePayload[ResponseType](res.RawResponse)
-				if err != nil {
-					err = psrpc.NewError(psrpc.MalformedResponse, err)
+		for {
+			select {
+			case res := <-resChan.c:
+				if serverID != "" && res.ServerId != "" && res.ServerId != serverID {
+					// from a server which could not read the request, and was not selected
+					continue
 				}
-			}
-
-		case <-ctx.Done():
-			err = ctx.Err()
-			if errors.Is(err, context.Canceled) {
-				err = psrpc.ErrRequestCanceled
-			} else if errors.Is(err, context.DeadlineExceeded) {
-				err = psrpc.ErrRequestTimedOut
+				if res.Error != "" || res.Code != "" {
+					err = psrpc.NewErrorFromResponse(res.Code, res.Error, res.ErrorDetails...)
+				} else {
+					response, err = bus.DeserializePayload[ResponseType](res.RawResponse)
+					if err != nil {
+						err = psrpc.NewError(psrpc.MalformedResponse, err)
+					}
+				}
+				return
+
+			case <-ctx.Done():
+				err = ctx.Err()
+				if errors.Is(err, context.Canceled) {
+					err = psrpc.ErrRequestCanceled
+				} else if errors.Is(err, context.DeadlineExceeded) {
+					err = psrpc.ErrRequestTimedOut
+				}
+				return
 			}
 		}
-
-		return
 	}
 }
 
-- 
2.43.0


From f491d74868ca5157efd6b48cd0ed4ea59961fbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:28 +0000
Subject: [PATCH 45/45] fix: closing a subscription twice does not panic

---
 internal/bus/subscription.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/bus/subscription.go b/internal/bus/subscription.go
index c2a7bef..703a7d5 100644
--- a/internal/bus/subscription.go
+++ b/internal/bus/subscription.go
@@ -15,6 +15,8 @@
 package bus
 
 import (
+	"sync"
+
 	"google.golang.org/protobuf/proto"
 )
 
@@ -26,6 +28,9 @@ type Subscription[MessageType proto.Message] interface {
 type subscription[MessageType proto.Message] struct {
 	Reader
 	c <-chan MessageType
+
+	closeOnce sync.Once
+	closeErr  error
 }
 
 func newSubscription[MessageType proto.Message](sub Reader, size int) Subscription[MessageType] {
@@ -69,3 +74,11 @@ func Drain[MessageType proto.Message](sub Subscription[MessageType]) {
 func (s *subscription[MessageType]) Channel() <-chan MessageType {
 	return s.c
 }
+
+// Close ends the subscription, closing it again has no effect
+func (s *subscription[MessageType]) Close() error {
+	s.closeOnce.Do(func() {
+		s.closeErr = s.Reader.Close()
+	})
+	return s.closeErr
+}
-- 
2.43.0


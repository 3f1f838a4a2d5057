From 36c93e41bc2902bd2980705888b24ee1e1e67af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 01/31] fix: release a subscription's goroutine when it is
 closed

A subscription whose channel was full when it was closed left its goroutine
blocked on the channel forever, and closing it twice closed the reader twice.
---
 internal/bus/subscription.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/internal/bus/subscription.go b/internal/bus/subscription.go
index 5a45fae..c58d7ce 100644
--- a/internal/bus/subscription.go
+++ b/internal/bus/subscription.go
@@ -15,6 +15,8 @@
 package bus
 
 import (
+	"sync"
+
 	"google.golang.org/protobuf/proto"
 )
 
@@ -25,11 +27,14 @@ type Subscription[MessageType proto.Message] interface {
 
 type subscription[MessageType proto.Message] struct {
 	Reader
-	c <-chan MessageType
+	c    <-chan MessageType
+	once sync.Once
+	done chan struct{}
 }
 
 func newSubscription[MessageType proto.Message](sub Reader, size int) Subscription[MessageType] {
 	msgChan := make(chan MessageType, size)
+	done := make(chan struct{})
 	go func() {
 		for {
 			b, ok := sub.read()
@@ -42,16 +47,36 @@ func newSubscription[MessageType proto.Message](sub Reader, size int) Subscripti
 			if err != nil {
 				continue
 			}
-			msgChan <- p.(MessageType)
+			m := p.(MessageType)
+			select {
+			case msgChan <- m:
+				continue
+			default:
+			}
+
+			// a closed subscription may no longer be read
+			select {
+			case msgChan <- m:
+			case <-done:
+			}
 		}
 	}()
 
 	return &subscription[MessageType]{
 		Reader: sub,
 		c:      msgChan,
+		done:   done,
 	}
 }
 
+func (s *subscription[MessageType]) Close() (err error) {
+	s.once.Do(func() {
+		close(s.done)
+		err = s.Reader.Close()
+	})
+	return
+}
+
 func (s *subscription[MessageType]) Channel() <-chan MessageType {
 	return s.c
 }
-- 
2.43.0


From c3297eae23e732bcd47b65015cb94c92c87cef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 02/31] fix: do not block the client on requests which no
 longer read their channels

A claim that arrived after the server was selected, a duplicate response, or
responses to a multi request whose channel is not read, blocked the client's
only worker and with it every other request on the client.
---
 pkg/client/client.go | 30 ++++++++++++++++++++++++------
 pkg/client/multi.go  | 34 ++++++++++++++++++++++++----------
 pkg/client/rpc.go    | 12 ++++++++++--
 pkg/client/stream.go |  7 ++++++-
 4 files changed, 64 insertions(+), 19 deletions(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index e160548..ff03669 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -33,8 +33,8 @@ type RPCClient struct {
 	bus bus.MessageBus
 
 	mu               sync.Mutex
-	claimRequests    map[string]chan *internal.ClaimRequest
-	responseChannels map[string]chan *internal.Response
+	claimRequests    map[string]claimChannel
+	responseChannels map[string]responseChannel
 	streamChannels   map[string]streamChannels
 	closed           core.Fuse
 }
@@ -56,8 +56,8 @@ func NewRPCClient(
 		ServiceDefinition: sd,
 		ClientOpts:        getClientOpts(opts...),
 		bus:               b,
-		claimRequests:     make(map[string]chan *internal.ClaimRequest),
-		responseChannels:  make(map[string]chan *internal.Response),
+		claimRequests:     make(map[string]claimChannel),
+		responseChannels:  make(map[string]responseChannel),
 		streamChannels:    make(map[string]streamChannels),
 	}
 	if c.ClientID != "" {
@@ -113,7 +113,10 @@ func NewRPCClient(
 				claimChan, ok := c.claimRequests[claim.RequestId]
 				c.mu.Unlock()
 				if ok {
-					claimChan <- claim
+					select {
+					case claimChan.claimChan <- claim:
+					case <-claimChan.done:
+					}
 				}
 
 			case res := <-responses.Channel():
@@ -125,7 +128,10 @@ func NewRPCClient(
 				resChan, ok := c.responseChannels[res.RequestId]
 				c.mu.Unlock()
 				if ok {
-					resChan <- res
+					select {
+					case resChan.resChan <- res:
+					case <-resChan.done:
+					}
 				}
 
 			case msg := <-streams.Channel():
@@ -149,6 +155,18 @@ func NewRPCClient(
 	return c, nil
 }
 
+// claimChannel receives the claims for a request until done is closed
+type claimChannel struct {
+	claimChan chan *internal.ClaimRequest
+	done      <-chan struct{}
+}
+
+// responseChannel receives the responses to a request until done is closed
+type responseChannel struct {
+	resChan chan *internal.Response
+	done    <-chan struct{}
+}
+
 func (c *RPCClient) Close() {
 	c.closed.Break()
 }
diff --git a/pkg/client/multi.go b/pkg/client/multi.go
index 00c80b5..d528319 100644
--- a/pkg/client/multi.go
+++ b/pkg/client/multi.go
@@ -80,6 +80,7 @@ type multiRPC[ResponseType proto.Message] struct {
 	requestID string
 	handler   psrpc.ClientMultiRPCHandler
 	resChan   chan<- *psrpc.Response[ResponseType]
+	done      <-chan struct{}
 }
 
 func (m *multiRPC[ResponseType]) Send(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) error {
@@ -103,11 +104,19 @@ func (m *multiRPC[ResponseType]) Send(ctx context.Context, req proto.Message, op
 
 	resChan := make(chan *internal.Response, m.c.ChannelSize)
 
+	// responses are received until the request times out or is canceled, whether
+	// or not they are read
+	resCtx, cancel := context.WithTimeout(ctx, o.Timeout)
+	m.done = resCtx.Done()
+
 	m.c.mu.Lock()
-	m.c.responseChannels[m.requestID] = resChan
+	m.c.responseChannels[m.requestID] = responseChannel{resChan, m.done}
 	m.c.mu.Unlock()
 
-	go m.handleResponses(ctx, req, resChan, o)
+	go func() {
+		defer cancel()
+		m.handleResponses(ctx, req, resChan)
+	}()
 
 	if err = m.c.bus.Publish(ctx, m.i.GetRPCChannel(), ir); err != nil {
 		return psrpc.NewError(psrpc.Internal, err)
@@ -120,9 +129,7 @@ func (m *multiRPC[ResponseType]) handleResponses(
 	ctx context.Context,
 	req proto.Message,
 	resChan chan *internal.Response,
-	opts psrpc.RequestOpts,
 ) {
-	timer := time.NewTimer(opts.Timeout)
 	for {
 		select {
 		case res := <-resChan:
@@ -144,11 +151,7 @@ func (m *multiRPC[ResponseType]) handleResponses(
 
 			m.handler.Recv(v, err)
 
-		case <-timer.C:
-			m.handler.Close()
-			return
-
-		case <-ctx.Done():
+		case <-m.done:
 			m.handler.Close()
 			return
 		}
@@ -156,10 +159,21 @@ func (m *multiRPC[ResponseType]) handleResponses(
 }
 
 func (m *multiRPC[ResponseType]) Recv(msg proto.Message, err error) {
-	m.resChan <- &psrpc.Response[ResponseType]{
+	res := &psrpc.Response[ResponseType]{
 		Result: msg.(ResponseType),
 		Err:    err,
 	}
+
+	select {
+	case m.resChan <- res:
+		return
+	default:
+	}
+
+	select {
+	case m.resChan <- res:
+	case <-m.done:
+	}
 }
 
 func (m *multiRPC[ResponseType]) Close() {
diff --git a/pkg/client/rpc.go b/pkg/client/rpc.go
index 8d879de..1845b35 100644
--- a/pkg/client/rpc.go
+++ b/pkg/client/rpc.go
@@ -103,12 +103,19 @@ func newRPC[ResponseType proto.Message](c *RPCClient, i *info.RequestInfo) psrpc
 		var claimChan chan *internal.ClaimRequest
 		resChan := make(chan *internal.Response, 1)
 
+		// the client must not wait for this request to read claims once a server
+		// has been selected, or responses once it has returned
+		claimCtx, stopClaims := context.WithCancel(ctx)
+		defer stopClaims()
+		resCtx, stopResponses := context.WithCancel(ctx)
+		defer stopResponses()
+
 		c.mu.Lock()
 		if i.RequireClaim {
 			claimChan = make(chan *internal.ClaimRequest, c.ChannelSize)
-			c.claimRequests[requestID] = claimChan
+			c.claimRequests[requestID] = claimChannel{claimChan, claimCtx.Done()}
 		}
-		c.responseChannels[requestID] = resChan
+		c.responseChannels[requestID] = responseChannel{resChan, resCtx.Done()}
 		c.mu.Unlock()
 
 		defer func() {
@@ -130,6 +137,7 @@ func newRPC[ResponseType proto.Message](c *RPCClient, i *info.RequestInfo) psrpc
 
 		if i.RequireClaim {
 			serverID, err := selectServer(ctx, claimChan, resChan, o.SelectionOpts)
+			stopClaims()
 			if err != nil {
 				return nil, err
 			}
diff --git a/pkg/client/stream.go b/pkg/client/stream.go
index 54f236b..cfecd0a 100644
--- a/pkg/client/stream.go
+++ b/pkg/client/stream.go
@@ -61,8 +61,12 @@ func OpenStream[SendType, RecvType proto.Message](
 	recvChan := make(chan *internal.Stream, c.ChannelSize)
 	closed := make(chan struct{})
 
+	// the client must not wait for claims to be read once a server has been selected
+	claimCtx, stopClaims := context.WithCancel(ctx)
+	defer stopClaims()
+
 	c.mu.Lock()
-	c.claimRequests[requestID] = claimChan
+	c.claimRequests[requestID] = claimChannel{claimChan, claimCtx.Done()}
 	c.streamChannels[streamID] = streamChannels{recvChan, closed}
 	c.mu.Unlock()
 
@@ -96,6 +100,7 @@ func OpenStream[SendType, RecvType proto.Message](
 
 	if i.RequireClaim {
 		serverID, err := selectServer(ctx, claimChan, nil, o.SelectionOpts)
+		stopClaims()
 		if err != nil {
 			_ = cs.Close(err)
 			return nil, err
-- 
2.43.0


From 711571573c3af6aa9f3835b4d170a9ab176f702b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 03/31] fix: skip messages of an unexpected type

A message of another type published on a subscribed channel panicked the
subscription's goroutine, and with it the process.
---
 internal/bus/subscription.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/bus/subscription.go b/internal/bus/subscription.go
index c58d7ce..07483b2 100644
--- a/internal/bus/subscription.go
+++ b/internal/bus/subscription.go
@@ -47,7 +47,11 @@ func newSubscription[MessageType proto.Message](sub Reader, size int) Subscripti
 			if err != nil {
 				continue
 			}
-			m := p.(MessageType)
+			m, ok := p.(MessageType)
+			if !ok {
+				continue
+			}
+
 			select {
 			case msgChan <- m:
 				continue
-- 
2.43.0


From fb8f85c3d7eec4824f5015697b5fdf03be5990f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 04/31] fix: wait for all requests in a graceful shutdown

A request received just before a graceful shutdown was handled after the
shutdown had returned, as handlers were only counted once their goroutine
ran. A forced shutdown waited for a graceful one in progress.
---
 pkg/server/rpc.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pkg/server/rpc.go b/pkg/server/rpc.go
index 07ccd22..44e547f 100644
--- a/pkg/server/rpc.go
+++ b/pkg/server/rpc.go
@@ -45,6 +45,7 @@ type rpcHandlerImpl[RequestType proto.Message, ResponseType proto.Message] struc
 	claimSub    bus.Subscription[*internal.ClaimResponse]
 	claims      map[string]chan *internal.ClaimResponse
 	handling    sync.WaitGroup
+	drained     chan struct{}
 	closeOnce   sync.Once
 	complete    chan struct{}
 	onCompleted func()
@@ -95,6 +96,7 @@ func newRPCHandler[RequestType proto.Message, ResponseType proto.Message](
 		claimSub:     claimSub,
 		claims:       make(map[string]chan *internal.ClaimResponse),
 		affinityFunc: affinityFunc,
+		drained:      make(chan struct{}),
 		complete:     make(chan struct{}),
 	}
 
@@ -118,6 +120,9 @@ func newRPCHandler[RequestType proto.Message, ResponseType proto.Message](
 
 func (h *rpcHandlerImpl[RequestType, ResponseType]) run(s *RPCServer) {
 	go func() {
+		drained := sync.OnceFunc(func() { close(h.drained) })
+		defer drained()
+
 		requests := h.requestSub.Channel()
 		claims := h.claimSub.Channel()
 
@@ -126,12 +131,16 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) run(s *RPCServer) {
 			case <-h.complete:
 				return
 
-			case ir := <-requests:
-				if ir == nil {
+			case ir, ok := <-requests:
+				if !ok {
+					requests = nil
+					drained()
 					continue
 				}
 				if time.Now().UnixNano() < ir.Expiry {
+					h.handling.Add(1)
 					go func() {
+						defer h.handling.Done()
 						if err := h.handleRequest(s, ir); err != nil {
 							logger.Error(err, "failed to handle request", "requestID", ir.RequestId)
 						}
@@ -157,9 +166,6 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) handleRequest(
 	s *RPCServer,
 	ir *internal.Request,
 ) error {
-	h.handling.Add(1)
-	defer h.handling.Done()
-
 	head := &metadata.Header{
 		RemoteID: ir.ClientId,
 		SentAt:   time.Unix(0, ir.SentAt),
@@ -287,11 +293,14 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) sendResponse(
 }
 
 func (h *rpcHandlerImpl[RequestType, ResponseType]) close(force bool) {
+	_ = h.requestSub.Close()
+	if !force {
+		// requests received before closing are handled
+		<-h.drained
+		h.handling.Wait()
+	}
+
 	h.closeOnce.Do(func() {
-		_ = h.requestSub.Close()
-		if !force {
-			h.handling.Wait()
-		}
 		_ = h.claimSub.Close()
 		h.onCompleted()
 		close(h.complete)
-- 
2.43.0


From 61c70ec9f012667930a374ce416ad98e94037e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 05/31] fix: register handlers atomically

Concurrent registrations of one handler both succeeded, replacing the first
handler without closing it. A handler registered while the server was closed
kept serving, and blocked Close.
---
 pkg/server/server.go | 119 ++++++++++++++++++++++++-------------------
 1 file changed, 67 insertions(+), 52 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index c992b16..801c202 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -65,38 +65,27 @@ func RegisterHandler[RequestType proto.Message, ResponseType proto.Message](
 	svcImpl func(context.Context, RequestType) (ResponseType, error),
 	affinityFunc AffinityFunc[RequestType],
 ) error {
-	if s.shutdown.IsBroken() {
-		return psrpc.ErrServerClosed
-	}
-
 	i := s.GetInfo(rpc, topic)
 
 	key := i.GetHandlerKey()
-	s.mu.RLock()
-	_, ok := s.handlers[key]
-	s.mu.RUnlock()
-	if ok {
-		return errors.New("handler already exists")
+	release, err := s.reserveHandler(key)
+	if err != nil {
+		return err
 	}
 
 	// create handler
 	h, err := newRPCHandler(s, i, svcImpl, s.ChainedInterceptor, affinityFunc)
 	if err != nil {
+		release()
 		return err
 	}
 
-	s.active.Add(1)
-	h.onCompleted = func() {
-		s.active.Done()
-		s.mu.Lock()
-		delete(s.handlers, key)
-		s.mu.Unlock()
+	h.onCompleted = release
+	if !s.addHandler(key, h) {
+		h.close(true)
+		return psrpc.ErrServerClosed
 	}
 
-	s.mu.Lock()
-	s.handlers[key] = h
-	s.mu.Unlock()
-
 	h.run(s)
 	return nil
 }
@@ -108,49 +97,72 @@ func RegisterStreamHandler[RequestType proto.Message, ResponseType proto.Message
 	svcImpl func(psrpc.ServerStream[ResponseType, RequestType]) error,
 	affinityFunc StreamAffinityFunc,
 ) error {
-	if s.shutdown.IsBroken() {
-		return psrpc.ErrServerClosed
-	}
-
 	i := s.GetInfo(rpc, topic)
 
 	key := i.GetHandlerKey()
-	s.mu.RLock()
-	_, ok := s.handlers[key]
-	s.mu.RUnlock()
-	if ok {
-		return errors.New("handler already exists")
+	release, err := s.reserveHandler(key)
+	if err != nil {
+		return err
 	}
 
 	// create handler
 	h, err := newStreamRPCHandler(s, i, svcImpl, affinityFunc)
 	if err != nil {
+		release()
 		return err
 	}
 
+	h.onCompleted = release
+	if !s.addHandler(key, h) {
+		h.close(true)
+		return psrpc.ErrServerClosed
+	}
+
+	h.run(s)
+	return nil
+}
+
+// reserveHandler reserves the key for a handler, until release is called
+func (s *RPCServer) reserveHandler(key string) (release func(), err error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.shutdown.IsBroken() {
+		return nil, psrpc.ErrServerClosed
+	}
+	if _, ok := s.handlers[key]; ok {
+		return nil, errors.New("handler already exists")
+	}
+
+	s.handlers[key] = nil
 	s.active.Add(1)
-	h.onCompleted = func() {
-		s.active.Done()
+	return func() {
 		s.mu.Lock()
 		delete(s.handlers, key)
 		s.mu.Unlock()
-	}
+		s.active.Done()
+	}, nil
+}
 
+// addHandler sets the handler of a reserved key, unless the server has been closed
+func (s *RPCServer) addHandler(key string, h rpcHandler) bool {
 	s.mu.Lock()
-	s.handlers[key] = h
-	s.mu.Unlock()
+	defer s.mu.Unlock()
 
-	h.run(s)
-	return nil
+	if s.shutdown.IsBroken() {
+		return false
+	}
+	s.handlers[key] = h
+	return true
 }
 
 func (s *RPCServer) DeregisterHandler(rpc string, topic []string) {
 	i := s.GetInfo(rpc, topic)
 	key := i.GetHandlerKey()
 	s.mu.RLock()
-	h, ok := s.handlers[key]
+	h := s.handlers[key]
 	s.mu.RUnlock()
-	if ok {
+	if h != nil {
 		h.close(true)
 	}
 }
@@ -161,22 +173,25 @@ func (s *RPCServer) Publish(ctx context.Context, rpc string, topic []string, msg
 }
 
 func (s *RPCServer) Close(force bool) {
-	s.shutdown.Once(func() {
-		s.mu.RLock()
-		handlers := maps.Values(s.handlers)
-		s.mu.RUnlock()
-
-		var wg sync.WaitGroup
-		for _, h := range handlers {
-			wg.Add(1)
-			h := h
-			go func() {
-				h.close(force)
-				wg.Done()
-			}()
+	// no handlers are added once the fuse is broken
+	s.mu.Lock()
+	s.shutdown.Break()
+	handlers := maps.Values(s.handlers)
+	s.mu.Unlock()
+
+	var wg sync.WaitGroup
+	for _, h := range handlers {
+		if h == nil {
+			continue
 		}
-		wg.Wait()
-	})
+		wg.Add(1)
+		h := h
+		go func() {
+			h.close(force)
+			wg.Done()
+		}()
+	}
+	wg.Wait()
 
 	if !force {
 		s.active.Wait()
-- 
2.43.0


From fe1039bc6f76f5083335596267815c05951252d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 06/31] fix: close streams opened while their handler is closed

A stream that was being opened when its handler was closed stayed open forever.
---
 pkg/server/stream.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/server/stream.go b/pkg/server/stream.go
index 8946d55..e8669b8 100644
--- a/pkg/server/stream.go
+++ b/pkg/server/stream.go
@@ -191,9 +191,17 @@ func (h *streamHandler[RecvType, SendType]) handleOpenRequest(
 	)
 
 	h.mu.Lock()
-	h.streams[is.StreamId] = ss
+	draining := h.draining.Load()
+	if !draining {
+		h.streams[is.StreamId] = ss
+	}
 	h.mu.Unlock()
 
+	// the handler was closed while the stream was being opened
+	if draining {
+		return ss.Close(psrpc.ErrStreamEOF)
+	}
+
 	if err := ss.Ack(octx, is); err != nil {
 		_ = ss.Close(err)
 		return err
-- 
2.43.0


From 4e15cb6a66f64d46bac7298c6a9903403293735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 07/31] fix: close streams canceled while being opened

---
 pkg/client/stream.go |  5 +++--
 pkg/server/stream.go | 25 +++++++++++++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/pkg/client/stream.go b/pkg/client/stream.go
index cfecd0a..c6ba516 100644
--- a/pkg/client/stream.go
+++ b/pkg/client/stream.go
@@ -88,8 +88,6 @@ func OpenStream[SendType, RecvType proto.Message](
 		map[string]chan struct{}{requestID: ackChan},
 	)
 
-	go runClientStream(c, cs, recvChan)
-
 	ctx, cancel := context.WithTimeout(ctx, o.Timeout)
 	defer cancel()
 
@@ -98,6 +96,9 @@ func OpenStream[SendType, RecvType proto.Message](
 		return nil, psrpc.NewError(psrpc.Internal, err)
 	}
 
+	// the stream must not be closed before it has been opened
+	go runClientStream(c, cs, recvChan)
+
 	if i.RequireClaim {
 		serverID, err := selectServer(ctx, claimChan, nil, o.SelectionOpts)
 		stopClaims()
diff --git a/pkg/server/stream.go b/pkg/server/stream.go
index e8669b8..e1c7a35 100644
--- a/pkg/server/stream.go
+++ b/pkg/server/stream.go
@@ -45,6 +45,7 @@ type streamHandler[RecvType, SendType proto.Message] struct {
 	streamSub   bus.Subscription[*internal.Stream]
 	claimSub    bus.Subscription[*internal.ClaimResponse]
 	streams     map[string]stream.Stream[SendType, RecvType]
+	opening     map[string]*internal.Stream // streams being opened, with their close request if any
 	claims      map[string]chan *internal.ClaimResponse
 	draining    atomic.Bool
 	closeOnce   sync.Once
@@ -85,6 +86,7 @@ func newStreamRPCHandler[RecvType, SendType proto.Message](
 		streamSub:    streamSub,
 		claimSub:     claimSub,
 		streams:      make(map[string]stream.Stream[SendType, RecvType]),
+		opening:      make(map[string]*internal.Stream),
 		claims:       make(map[string]chan *internal.ClaimResponse),
 		affinityFunc: affinityFunc,
 		handler:      svcImpl,
@@ -137,7 +139,16 @@ func (h *streamHandler[RecvType, SendType]) handleRequest(
 			return nil
 		}
 
+		h.mu.Lock()
+		h.opening[is.StreamId] = nil
+		h.mu.Unlock()
+
 		go func() {
+			defer func() {
+				h.mu.Lock()
+				delete(h.opening, is.StreamId)
+				h.mu.Unlock()
+			}()
 			if err := h.handleOpenRequest(s, is, open); err != nil {
 				logger.Error(err, "stream handler failed", "requestID", is.RequestId)
 			}
@@ -145,6 +156,11 @@ func (h *streamHandler[RecvType, SendType]) handleRequest(
 	} else {
 		h.mu.Lock()
 		ss, ok := h.streams[is.StreamId]
+		if !ok && is.GetClose() != nil {
+			if _, opening := h.opening[is.StreamId]; opening {
+				h.opening[is.StreamId] = is
+			}
+		}
 		h.mu.Unlock()
 
 		if ok {
@@ -192,12 +208,17 @@ func (h *streamHandler[RecvType, SendType]) handleOpenRequest(
 
 	h.mu.Lock()
 	draining := h.draining.Load()
-	if !draining {
+	closed := h.opening[is.StreamId]
+	delete(h.opening, is.StreamId)
+	if !draining && closed == nil {
 		h.streams[is.StreamId] = ss
 	}
 	h.mu.Unlock()
 
-	// the handler was closed while the stream was being opened
+	// the stream or the handler was closed while the stream was being opened
+	if closed != nil {
+		return ss.HandleStream(closed)
+	}
 	if draining {
 		return ss.Close(psrpc.ErrStreamEOF)
 	}
-- 
2.43.0


From 8ba23eae804bfcb41dbc395e92343511d4120ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 08/31] fix: refuse to open streams on a closed client

---
 pkg/client/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/client/stream.go b/pkg/client/stream.go
index c6ba516..d08d7a8 100644
--- a/pkg/client/stream.go
+++ b/pkg/client/stream.go
@@ -37,6 +37,9 @@ func OpenStream[SendType, RecvType proto.Message](
 	topic []string,
 	opts ...psrpc.RequestOption,
 ) (psrpc.ClientStream[SendType, RecvType], error) {
+	if c.closed.IsBroken() {
+		return nil, psrpc.ErrClientClosed
+	}
 
 	i := c.GetInfo(rpc, topic)
 	o := getRequestOpts(ctx, i, c.ClientOpts, opts...)
-- 
2.43.0


From bb1500e6421f225e649b51f851da6405c9656433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 09/31] fix: do not mistake errors without a message for
 successes

---
 pkg/client/multi.go | 2 +-
 pkg/client/rpc.go   | 4 ++--
 pkg/server/rpc.go   | 4 ++++
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/client/multi.go b/pkg/client/multi.go
index d528319..690147d 100644
--- a/pkg/client/multi.go
+++ b/pkg/client/multi.go
@@ -135,7 +135,7 @@ func (m *multiRPC[ResponseType]) handleResponses(
 		case res := <-resChan:
 			var v ResponseType
 			var err error
-			if res.Error != "" {
+			if res.Error != "" || res.Code != "" {
 				err = psrpc.NewErrorFromResponse(res.Code, res.Error, res.ErrorDetails...)
 			} else {
 				v, err = bus.DeserializePayload[ResponseType](res.RawResponse)
diff --git a/pkg/client/rpc.go b/pkg/client/rpc.go
index 1845b35..c78c48f 100644
--- a/pkg/client/rpc.go
+++ b/pkg/client/rpc.go
@@ -153,7 +153,7 @@ func newRPC[ResponseType proto.Message](c *RPCClient, i *info.RequestInfo) psrpc
 
 		select {
 		case res := <-resChan:
-			if res.Error != "" {
+			if res.Error != "" || res.Code != "" {
 				err = psrpc.NewErrorFromResponse(res.Code, res.Error, res.ErrorDetails...)
 			} else {
 				response, err = bus.DeserializePayload[ResponseType](res.RawResponse)
@@ -236,7 +236,7 @@ func selectServer(
 
 		case res := <-resChan:
 			// will only happen with malformed requests
-			if res.Error != "" {
+			if res.Error != "" || res.Code != "" {
 				resErr = psrpc.NewErrorFromResponse(res.Code, res.Error, res.ErrorDetails...)
 			}
 		}
diff --git a/pkg/server/rpc.go b/pkg/server/rpc.go
index 44e547f..057c06b 100644
--- a/pkg/server/rpc.go
+++ b/pkg/server/rpc.go
@@ -279,6 +279,10 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) sendResponse(
 			res.Error = err.Error()
 			res.Code = string(psrpc.Unknown)
 		}
+		if res.Code == "" {
+			// the code tells errors without a message from successes
+			res.Code = string(psrpc.Unknown)
+		}
 	} else if response != nil {
 		b, err := bus.SerializePayload(response)
 		if err != nil {
-- 
2.43.0


From a944028965fae2ae491d5ca0a1c5758c6b60a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 10/31] fix: send errors whose text is not valid UTF-8

---
 internal/stream/stream.go | 3 +++
 pkg/server/rpc.go         | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/internal/stream/stream.go b/internal/stream/stream.go
index 9d20867..f7bee4f 100644
--- a/internal/stream/stream.go
+++ b/internal/stream/stream.go
@@ -17,6 +17,7 @@ package stream
 import (
 	"context"
 	"errors"
+	"strings"
 	"sync"
 	"time"
 
@@ -284,6 +285,8 @@ func (s *streamBase[RequestType, ResponseType]) Close(cause error) error {
 		msg.Error = cause.Error()
 		msg.Code = string(psrpc.Unknown)
 	}
+	// messages with other strings cannot be encoded
+	msg.Error = strings.ToValidUTF8(msg.Error, "\uFFFD")
 
 	now := time.Now()
 	err := s.adapter.Send(context.Background(), &internal.Stream{
diff --git a/pkg/server/rpc.go b/pkg/server/rpc.go
index 057c06b..df4507f 100644
--- a/pkg/server/rpc.go
+++ b/pkg/server/rpc.go
@@ -17,6 +17,7 @@ package server
 import (
 	"context"
 	"errors"
+	"strings"
 	"sync"
 	"time"
 
@@ -293,6 +294,9 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) sendResponse(
 		}
 	}
 
+	// messages with other strings cannot be encoded
+	res.Error = strings.ToValidUTF8(res.Error, "\uFFFD")
+
 	return s.bus.Publish(ctx, info.GetResponseChannel(s.Name, ir.ClientId), res)
 }
 
-- 
2.43.0


From 5917c83e4ee09f9cdfdf7677d2a13fb371598685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:09 +0000
Subject: [PATCH 11/31] fix: outgoing metadata is independent of the caller's
 map and of earlier appends

---
 pkg/metadata/metadata.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pkg/metadata/metadata.go b/pkg/metadata/metadata.go
index a900172..14f8174 100644
--- a/pkg/metadata/metadata.go
+++ b/pkg/metadata/metadata.go
@@ -57,7 +57,7 @@ func IncomingHeader(ctx context.Context) *Header {
 
 // NewContextWithOutgoingMetadata resets any existing outgoing metadata in the context to the one provided.
 func NewContextWithOutgoingMetadata(ctx context.Context, md Metadata) context.Context {
-	return context.WithValue(ctx, metadataKey{}, ctxMD{md: md})
+	return context.WithValue(ctx, metadataKey{}, ctxMD{md: maps.Clone(md)})
 }
 
 // WithOutgoingMetadata adds outgoing metadata to the context.
@@ -65,16 +65,15 @@ func WithOutgoingMetadata(ctx context.Context, md Metadata) context.Context {
 	if len(md) == 0 {
 		return ctx
 	}
-	m, ok := ctx.Value(metadataKey{}).(ctxMD)
-	if ok && m.md != nil {
-		m.md = maps.Clone(m.md)
-		for k, v := range md {
-			m.md[k] = v
-		}
-	} else {
-		m.md = md
+	// replaces values which have been appended before
+	m := OutgoingContextMetadata(ctx)
+	if m == nil {
+		m = make(Metadata, len(md))
+	}
+	for k, v := range md {
+		m[k] = v
 	}
-	return context.WithValue(ctx, metadataKey{}, m)
+	return context.WithValue(ctx, metadataKey{}, ctxMD{md: m})
 }
 
 // AppendMetadataToOutgoingContext appends key-value pairs to the outgoing context.
-- 
2.43.0


From cfa19d3301688ffe29fde23adf61298644b7d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 12/31] fix: bound the expiry of multi requests and stream
 opens by the caller's deadline

---
 pkg/client/multi.go  | 6 +++++-
 pkg/client/stream.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/client/multi.go b/pkg/client/multi.go
index 690147d..6b219d5 100644
--- a/pkg/client/multi.go
+++ b/pkg/client/multi.go
@@ -92,11 +92,15 @@ func (m *multiRPC[ResponseType]) Send(ctx context.Context, req proto.Message, op
 	}
 
 	now := time.Now()
+	expiry := now.Add(o.Timeout)
+	if deadline, ok := ctx.Deadline(); ok && deadline.Before(expiry) {
+		expiry = deadline
+	}
 	ir := &internal.Request{
 		RequestId:  m.requestID,
 		ClientId:   m.c.ID,
 		SentAt:     now.UnixNano(),
-		Expiry:     now.Add(o.Timeout).UnixNano(),
+		Expiry:     expiry.UnixNano(),
 		Multi:      true,
 		RawRequest: b,
 		Metadata:   metadata.OutgoingContextMetadata(ctx),
diff --git a/pkg/client/stream.go b/pkg/client/stream.go
index d08d7a8..cf26a75 100644
--- a/pkg/client/stream.go
+++ b/pkg/client/stream.go
@@ -47,11 +47,15 @@ func OpenStream[SendType, RecvType proto.Message](
 	streamID := rand.NewStreamID()
 	requestID := rand.NewRequestID()
 	now := time.Now()
+	expiry := now.Add(o.Timeout)
+	if deadline, ok := ctx.Deadline(); ok && deadline.Before(expiry) {
+		expiry = deadline
+	}
 	req := &internal.Stream{
 		StreamId:  streamID,
 		RequestId: requestID,
 		SentAt:    now.UnixNano(),
-		Expiry:    now.Add(o.Timeout).UnixNano(),
+		Expiry:    expiry.UnixNano(),
 		Body: &internal.Stream_Open{
 			Open: &internal.StreamOpen{
 				NodeId:   c.ID,
-- 
2.43.0


From 53c7efbb3cea640d0a0e8a9c95af6e59e2852b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 13/31] fix: pass the request of server interceptors to the
 handler

---
 pkg/server/rpc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/server/rpc.go b/pkg/server/rpc.go
index df4507f..a1786cc 100644
--- a/pkg/server/rpc.go
+++ b/pkg/server/rpc.go
@@ -106,7 +106,10 @@ func newRPCHandler[RequestType proto.Message, ResponseType proto.Message](
 	} else {
 		h.handler = func(ctx context.Context, req RequestType) (ResponseType, error) {
 			var response ResponseType
-			res, err := interceptor(ctx, req, i.RPCInfo, func(ctx context.Context, _ proto.Message) (proto.Message, error) {
+			res, err := interceptor(ctx, req, i.RPCInfo, func(ctx context.Context, msg proto.Message) (proto.Message, error) {
+				if m, ok := msg.(RequestType); ok {
+					return svcImpl(ctx, m)
+				}
 				return svcImpl(ctx, req)
 			})
 			if res != nil {
-- 
2.43.0


From 63beb3ffd63a41565ee3aeba0bfba5dc8f342b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 14/31] fix: run all server interceptors when one of them calls
 the handler again

---
 internal/interceptors/interceptor.go | 31 ++++++++++++++--------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/internal/interceptors/interceptor.go b/internal/interceptors/interceptor.go
index 6698835..a660f15 100644
--- a/internal/interceptors/interceptor.go
+++ b/internal/interceptors/interceptor.go
@@ -42,21 +42,22 @@ func ChainServerInterceptors(interceptors []psrpc.ServerRPCInterceptor) psrpc.Se
 		return interceptors[0]
 	default:
 		return func(ctx context.Context, req proto.Message, rpcInfo psrpc.RPCInfo, handler psrpc.ServerRPCHandler) (proto.Message, error) {
-			// the struct ensures the variables are allocated together, rather than separately, since we
-			// know they should be garbage collected together. This saves 1 allocation and decreases
-			// time/call by about 10% on the microbenchmark.
-			var state struct {
-				i    int
-				next psrpc.ServerRPCHandler
-			}
-			state.next = func(ctx context.Context, req proto.Message) (proto.Message, error) {
-				if state.i == len(interceptors)-1 {
-					return interceptors[state.i](ctx, req, rpcInfo, handler)
-				}
-				state.i++
-				return interceptors[state.i-1](ctx, req, rpcInfo, state.next)
-			}
-			return state.next(ctx, req)
+			return interceptors[0](ctx, req, rpcInfo, chainServerHandler(interceptors, 0, rpcInfo, handler))
 		}
 	}
 }
+
+// chainServerHandler returns the handler called by the i-th interceptor. It may be called repeatedly.
+func chainServerHandler(
+	interceptors []psrpc.ServerRPCInterceptor,
+	i int,
+	rpcInfo psrpc.RPCInfo,
+	handler psrpc.ServerRPCHandler,
+) psrpc.ServerRPCHandler {
+	if i == len(interceptors)-1 {
+		return handler
+	}
+	return func(ctx context.Context, req proto.Message) (proto.Message, error) {
+		return interceptors[i+1](ctx, req, rpcInfo, chainServerHandler(interceptors, i+1, rpcInfo, handler))
+	}
+}
-- 
2.43.0


From d73e8d10aec2a1ea5c6122a2c413b754a1c01176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 15/31] fix: accept errors without a message from multi request
 interceptors

---
 pkg/client/multi.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/client/multi.go b/pkg/client/multi.go
index 6b219d5..dc6d3c2 100644
--- a/pkg/client/multi.go
+++ b/pkg/client/multi.go
@@ -163,8 +163,10 @@ func (m *multiRPC[ResponseType]) handleResponses(
 }
 
 func (m *multiRPC[ResponseType]) Recv(msg proto.Message, err error) {
+	// interceptors may pass errors without a message
+	result, _ := msg.(ResponseType)
 	res := &psrpc.Response[ResponseType]{
-		Result: msg.(ResponseType),
+		Result: result,
 		Err:    err,
 	}
 
-- 
2.43.0


From b39020fbde9e5ac8b35a6f857db3e0b893222242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 16/31] fix: report received bytes of client requests and
 errors of received stream messages

---
 pkg/middleware/metrics.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/middleware/metrics.go b/pkg/middleware/metrics.go
index ff17306..dc5e430 100644
--- a/pkg/middleware/metrics.go
+++ b/pkg/middleware/metrics.go
@@ -72,7 +72,7 @@ func newClientRPCMetricsInterceptor(observer MetricsObserver) psrpc.ClientRPCInt
 		return func(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) (res proto.Message, err error) {
 			start := time.Now()
 			defer func() {
-				observer.OnUnaryRequest(ClientRole, rpcInfo, time.Since(start), err, proto.Size(req), proto.Size(res))
+				observer.OnUnaryRequest(ClientRole, rpcInfo, time.Since(start), err, proto.Size(res), proto.Size(req))
 			}()
 			return next(ctx, req, opts...)
 		}
@@ -120,7 +120,8 @@ type streamMetricsInterceptor struct {
 }
 
 func (s *streamMetricsInterceptor) Recv(msg proto.Message) (err error) {
-	s.observer.OnStreamRecv(s.role, s.info, err, proto.Size(msg))
+	size := proto.Size(msg)
+	defer func() { s.observer.OnStreamRecv(s.role, s.info, err, size) }()
 	return s.StreamHandler.Recv(msg)
 }
 
-- 
2.43.0


From 9b930be5a3216f3c9855f9c8f00aefc68e9b1c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 17/31] fix: local subscriptions close while others are not
 read

---
 internal/bus/bus_local.go | 60 +++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/internal/bus/bus_local.go b/internal/bus/bus_local.go
index 283b564..977c927 100644
--- a/internal/bus/bus_local.go
+++ b/internal/bus/bus_local.go
@@ -104,6 +104,7 @@ func (l *localSubList) create(ctx context.Context, size int) *localSubscription
 		ctx:     ctx,
 		cancel:  cancel,
 		msgChan: make(chan []byte, size),
+		closed:  make(chan struct{}),
 	}
 
 	l.Lock()
@@ -134,28 +135,18 @@ func (l *localSubList) create(ctx context.Context, size int) *localSubscription
 }
 
 func (l *localSubList) dispatch(b []byte) {
+	// writes may wait for a subscriber, and must not hold up the others
 	if l.queue {
-		l.Lock()
-		defer l.Unlock()
-
-		// round-robin
-		for i := 0; i <= len(l.subs); i++ {
-			if l.next >= len(l.subs) {
-				l.next = 0
-			}
-			s := l.subs[l.next]
-			l.next++
-			if s != nil {
-				s.write(b)
-				return
-			}
+		if s := l.nextSub(); s != nil {
+			s.write(b)
 		}
 	} else {
 		l.RLock()
-		defer l.RUnlock()
+		subs := append([]*localSubscription(nil), l.subs...)
+		l.RUnlock()
 
 		// send to all
-		for _, s := range l.subs {
+		for _, s := range subs {
 			if s != nil {
 				s.write(b)
 			}
@@ -163,10 +154,29 @@ func (l *localSubList) dispatch(b []byte) {
 	}
 }
 
+func (l *localSubList) nextSub() *localSubscription {
+	l.Lock()
+	defer l.Unlock()
+
+	// round-robin
+	for i := 0; i <= len(l.subs); i++ {
+		if l.next >= len(l.subs) {
+			l.next = 0
+		}
+		s := l.subs[l.next]
+		l.next++
+		if s != nil {
+			return s
+		}
+	}
+	return nil
+}
+
 type localSubscription struct {
 	ctx     context.Context
 	cancel  context.CancelFunc
-	msgChan chan []byte
+	msgChan chan []byte // not closed, a publisher may be writing
+	closed  chan struct{}
 	onClose func()
 }
 
@@ -178,16 +188,24 @@ func (l *localSubscription) write(b []byte) {
 }
 
 func (l *localSubscription) read() ([]byte, bool) {
-	msg, ok := <-l.msgChan
-	if !ok {
+	select {
+	case msg := <-l.msgChan:
+		return msg, true
+	case <-l.closed:
+	}
+
+	// what was received before closing
+	select {
+	case msg := <-l.msgChan:
+		return msg, true
+	default:
 		return nil, false
 	}
-	return msg, true
 }
 
 func (l *localSubscription) Close() error {
 	l.cancel()
 	l.onClose()
-	close(l.msgChan)
+	close(l.closed)
 	return nil
 }
-- 
2.43.0


From b6772064540b21f5673258d9ee8bbe04e424a1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 18/31] fix: do not write to the caller's client options

---
 pkg/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index ff03669..59a78e4 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -44,7 +44,7 @@ func NewRPCClientWithStreams(
 	b bus.MessageBus,
 	opts ...psrpc.ClientOption,
 ) (*RPCClient, error) {
-	return NewRPCClient(sd, b, append(opts, withStreams())...)
+	return NewRPCClient(sd, b, append(opts[:len(opts):len(opts)], withStreams())...)
 }
 
 func NewRPCClient(
-- 
2.43.0


From 2860b43a97109f8f83aefe0e40a5bbced6c8b8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 19/31] fix: NATS queue messages go to one of the local
 subscriptions

---
 internal/bus/bus_nats.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/bus/bus_nats.go b/internal/bus/bus_nats.go
index 19c92de..5d4b933 100644
--- a/internal/bus/bus_nats.go
+++ b/internal/bus/bus_nats.go
@@ -214,7 +214,14 @@ func (n *natsRouter) write(m *nats.Msg) {
 
 	n.mu.Lock()
 	defer n.mu.Unlock()
-	for _, s := range n.routes[channel] {
+	subs := n.routes[channel]
+	if n.queue && len(subs) > 1 {
+		// one of the local subscriptions at a time, in turn
+		subs = append(slices.Clone(subs[1:]), subs[0])
+		n.routes[channel] = subs
+		subs = subs[len(subs)-1:]
+	}
+	for _, s := range subs {
 		s.write(m)
 	}
 }
-- 
2.43.0


From 2d257ecd58ba33e3b58d3acdcca9bc2f074895ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 20/31] fix: NATS subscriptions sharing a subject wait for the
 server subscription

---
 internal/bus/bus_nats.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/bus/bus_nats.go b/internal/bus/bus_nats.go
index 5d4b933..9273e41 100644
--- a/internal/bus/bus_nats.go
+++ b/internal/bus/bus_nats.go
@@ -100,7 +100,9 @@ func (n *natsMessageBus) subscribeRouter(ctx context.Context, channel Channel, s
 		channel: channel.Local,
 	}
 
+	// held until the server knows the subscription, for those who share it
 	n.mu.Lock()
+	defer n.mu.Unlock()
 	r, ok := n.routers[channel.Server]
 	if !ok {
 		r = &natsRouter{
@@ -111,13 +113,11 @@ func (n *natsMessageBus) subscribeRouter(ctx context.Context, channel Channel, s
 		}
 		n.routers[channel.Server] = r
 	} else if r.queue != queue {
-		n.mu.Unlock()
 		return nil, fmt.Errorf("subscription type mismatch for channel %q %q", channel, sub.channel)
 	}
 
 	r.open(sub.channel, sub)
 	sub.router = r
-	n.mu.Unlock()
 
 	if ok {
 		return sub, nil
@@ -130,9 +130,7 @@ func (n *natsMessageBus) subscribeRouter(ctx context.Context, channel Channel, s
 		r.sub, err = n.nc.Subscribe(channel.Server, r.write)
 	}
 	if err != nil {
-		n.mu.Lock()
 		delete(n.routers, channel.Server)
-		n.mu.Unlock()
 		return nil, err
 	}
 
-- 
2.43.0


From 3ca1e02ae5950348bae7180bd4bf88ea5510f701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 21/31] fix: closing NATS subscriptions neither panics nor
 waits for unread ones

---
 internal/bus/bus_nats.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/internal/bus/bus_nats.go b/internal/bus/bus_nats.go
index 9273e41..44a9d30 100644
--- a/internal/bus/bus_nats.go
+++ b/internal/bus/bus_nats.go
@@ -152,18 +152,17 @@ func (n *natsSubscription) write(msg *nats.Msg) {
 }
 
 func (n *natsSubscription) read() ([]byte, bool) {
-	msg, ok := <-n.msgChan
-	if !ok {
+	select {
+	case msg := <-n.msgChan:
+		return msg.Data, true
+	case <-n.ctx.Done():
 		return nil, false
 	}
-	return msg.Data, true
 }
 
 func (n *natsSubscription) Close() error {
 	n.cancel()
-	err := n.sub.Unsubscribe()
-	close(n.msgChan)
-	return err
+	return n.sub.Unsubscribe()
 }
 
 type natsRouter struct {
@@ -211,7 +210,6 @@ func (n *natsRouter) write(m *nats.Msg) {
 	}
 
 	n.mu.Lock()
-	defer n.mu.Unlock()
 	subs := n.routes[channel]
 	if n.queue && len(subs) > 1 {
 		// one of the local subscriptions at a time, in turn
@@ -219,6 +217,9 @@ func (n *natsRouter) write(m *nats.Msg) {
 		n.routes[channel] = subs
 		subs = subs[len(subs)-1:]
 	}
+	subs = slices.Clone(subs)
+	n.mu.Unlock()
+
 	for _, s := range subs {
 		s.write(m)
 	}
@@ -240,16 +241,16 @@ func (n *natsRouterSubscription) write(m *nats.Msg) {
 }
 
 func (n *natsRouterSubscription) read() ([]byte, bool) {
-	msg, ok := <-n.msgChan
-	if !ok {
+	select {
+	case msg := <-n.msgChan:
+		return msg.Data, true
+	case <-n.ctx.Done():
 		return nil, false
 	}
-	return msg.Data, true
 }
 
 func (n *natsRouterSubscription) Close() error {
 	n.cancel()
 	n.router.bus.unsubscribeRouter(n.router, n.channel, n)
-	close(n.msgChan)
 	return nil
 }
-- 
2.43.0


From 0162b795b777b8020dfe7b7b1e8c85614d07ad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 22/31] fix: Redis subscriptions open and close while others
 are not read

---
 internal/bus/bus_redis.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/internal/bus/bus_redis.go b/internal/bus/bus_redis.go
index 7d770e2..6cc6e8e 100644
--- a/internal/bus/bus_redis.go
+++ b/internal/bus/bus_redis.go
@@ -169,14 +169,20 @@ func (r *redisMessageBus) readWorker() {
 		}
 		delay = 0
 
+		var subs []*redisSubscription
 		r.mu.Lock()
 		if subList, ok := r.subs[msg.Channel]; ok {
-			subList.dispatch(msg)
+			subs = slices.Clone(subList.subs)
 		}
 		if subList, ok := r.queues[msg.Channel]; ok {
-			subList.dispatchQueue(msg)
+			subs = append(subs, subList.nextQueue())
 		}
 		r.mu.Unlock()
+
+		// not under the lock: a subscription may be closed while another is not read
+		for _, sub := range subs {
+			sub.write(msg)
+		}
 	}
 }
 
@@ -298,18 +304,13 @@ type redisSubList struct {
 	next int
 }
 
-func (r *redisSubList) dispatchQueue(msg *redis.Message) {
+func (r *redisSubList) nextQueue() *redisSubscription {
 	if r.next >= len(r.subs) {
 		r.next = 0
 	}
-	r.subs[r.next].write(msg)
+	sub := r.subs[r.next]
 	r.next++
-}
-
-func (r *redisSubList) dispatch(msg *redis.Message) {
-	for _, sub := range r.subs {
-		sub.write(msg)
-	}
+	return sub
 }
 
 // ----------------------------------------------------
@@ -333,12 +334,8 @@ func (r *redisSubscription) write(msg *redis.Message) {
 func (r *redisSubscription) read() ([]byte, bool) {
 	for {
 		var msg *redis.Message
-		var ok bool
 		select {
-		case msg, ok = <-r.msgChan:
-			if !ok {
-				return nil, false
-			}
+		case msg = <-r.msgChan:
 		case <-r.ctx.Done():
 			return nil, false
 		}
@@ -359,7 +356,6 @@ func (r *redisSubscription) read() ([]byte, bool) {
 func (r *redisSubscription) Close() error {
 	r.cancel()
 	r.bus.unsubscribe(r.channel, r.queue, r)
-	close(r.msgChan)
 	return nil
 }
 
-- 
2.43.0


From 33342d3c33128ccd39db8ab7cac8f2d2ac8c9e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 23/31] fix: Redis subscriptions are reconciled after failed
 changes

---
 internal/bus/bus_redis.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/bus/bus_redis.go b/internal/bus/bus_redis.go
index 6cc6e8e..1488080 100644
--- a/internal/bus/bus_redis.go
+++ b/internal/bus/bus_redis.go
@@ -53,7 +53,7 @@ type redisMessageBus struct {
 	wakeup          chan struct{}
 	ops             *redisWriteOpQueue
 	dirtyChannels   map[string]struct{}
-	currentChannels map[string]struct{}
+	currentChannels map[string]bool // false: not known, the last change failed
 
 	publishQueues [publishBuckets]*redisPublishQueue
 }
@@ -70,7 +70,7 @@ func NewRedisMessageBus(rc redis.UniversalClient) MessageBus {
 		wakeup:          make(chan struct{}, 1),
 		ops:             &redisWriteOpQueue{},
 		dirtyChannels:   map[string]struct{}{},
-		currentChannels: map[string]struct{}{},
+		currentChannels: map[string]bool{},
 	}
 	for i := range len(r.publishQueues) {
 		r.publishQueues[i] = newRedisPublishQueue(r.ctx, r.rc)
@@ -255,9 +255,9 @@ func (r *redisReconcileSubscriptionsOp) run() error {
 		subscribe := make(map[string]struct{}, len(r.dirtyChannels))
 		unsubscribe := make(map[string]struct{}, len(r.dirtyChannels))
 		for c := range r.dirtyChannels {
-			_, current := r.currentChannels[c]
+			subscribed, current := r.currentChannels[c]
 			desired := r.subs[c] != nil || r.queues[c] != nil
-			if !current && desired {
+			if !subscribed && desired {
 				subscribe[c] = struct{}{}
 			} else if current && !desired {
 				unsubscribe[c] = struct{}{}
@@ -282,11 +282,15 @@ func (r *redisReconcileSubscriptionsOp) run() error {
 		r.mu.Lock()
 		if subscribeErr != nil {
 			maps.Copy(r.dirtyChannels, subscribe)
-		} else {
-			maps.Copy(r.currentChannels, subscribe)
+		}
+		for c := range subscribe {
+			r.currentChannels[c] = subscribeErr == nil
 		}
 		if unsubscribeErr != nil {
 			maps.Copy(r.dirtyChannels, unsubscribe)
+			for c := range unsubscribe {
+				r.currentChannels[c] = false
+			}
 		} else {
 			for c := range unsubscribe {
 				delete(r.currentChannels, c)
-- 
2.43.0


From 129eed72a19e6adb7dca7a2ce3a034c75d2f99e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 24/31] fix: ignore the topic group of methods without topics

They have no topic registration functions, so the code did not compile.
---
 protoc-gen-psrpc/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index a039af0..1335489 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -906,7 +906,7 @@ func (t *psrpc) topicGroupsForService(service *descriptor.ServiceDescriptorProto
 	found := map[string]int{}
 	for _, m := range service.Method {
 		opt := t.getOptions(m)
-		if opt.TopicParams == nil || opt.TopicParams.Group == "" || opt.Subscription {
+		if !opt.Topics || opt.TopicParams == nil || opt.TopicParams.Group == "" || opt.Subscription {
 			continue
 		}
 
-- 
2.43.0


From 06e51e3afc3acee67f8946d1efb642ea7937a0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 25/31] fix: deprecated routing options set to false do not
 apply

---
 protoc-gen-psrpc/generator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index 1335489..2742182 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -774,12 +774,12 @@ func (t *psrpc) getOptions(method *descriptor.MethodDescriptorProto) *options.Op
 	}
 
 	opts := proto.GetExtension(method.Options, options.E_Options).(*options.Options)
-	switch opts.Routing.(type) {
-	case *options.Options_AffinityFunc:
+	switch {
+	case opts.GetAffinityFunc():
 		opts.Type = options.Routing_AFFINITY
-	case *options.Options_Multi:
+	case opts.GetMulti():
 		opts.Type = options.Routing_MULTI
-	case *options.Options_Queue:
+	case opts.GetQueue():
 		opts.Type = options.Routing_QUEUE
 	}
 
-- 
2.43.0


From 4d99e5a6314f5fbf94e2a46f35e4c5f85969dddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 26/31] fix: generated names do not collide with topic
 parameters and imported packages

---
 protoc-gen-psrpc/generator.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index 2742182..161ffe9 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -106,6 +106,14 @@ func (t *psrpc) Generate(in *plugin.CodeGeneratorRequest) *plugin.CodeGeneratorR
 	t.registerPackageName("server")
 	t.registerPackageName("version")
 
+	// Names that must not be shadowed in the generated code.
+	for _, name := range []string{
+		"bus", "c", "ctx", "err", "error", "float32", "msg", "nil", "opts",
+		"req", "rpcClient", "s", "sd", "string", "svc",
+	} {
+		t.pkgNamesInUse[name] = true
+	}
+
 	// Time to figure out package names of objects defined in protobuf. First,
 	// we'll figure out the name for the package we're generating.
 	genPkgName, err := deduceGenPkgName(t.genFiles)
@@ -174,7 +182,9 @@ func (t *psrpc) registerPackageName(name string) (alias string) {
 		i++
 	}
 	t.pkgNamesInUse[alias] = true
-	t.pkgs[name] = alias
+	if _, ok := t.pkgs[name]; !ok {
+		t.pkgs[name] = alias
+	}
 	return alias
 }
 
@@ -862,23 +872,31 @@ func (t *psrpc) topicsForMethod(method *descriptor.MethodDescriptorProto) topicS
 		return nil
 	}
 	if opt.TopicParams == nil || len(opt.TopicParams.Names) == 0 {
-		return []topic{{"topic", "string", false}}
+		return []topic{{t.topicVarName("topic"), "string", false}}
 	}
 	ts := make([]topic, 0, len(opt.TopicParams.Names))
 	for _, p := range opt.TopicParams.Names {
-		t := topic{
-			varName:  stringutils.LowerCamelCase(p),
+		tp := topic{
+			varName:  t.topicVarName(stringutils.LowerCamelCase(p)),
 			typeName: "string",
 			typed:    opt.TopicParams.Typed,
 		}
-		if t.typed {
-			t.typeName = fmt.Sprintf("%sTopicType", stringutils.CamelCase(p))
+		if tp.typed {
+			tp.typeName = fmt.Sprintf("%sTopicType", stringutils.CamelCase(p))
 		}
-		ts = append(ts, t)
+		ts = append(ts, tp)
 	}
 	return ts
 }
 
+// topicVarName avoids keywords and names used by the generated code.
+func (t *psrpc) topicVarName(name string) string {
+	if token.IsKeyword(name) || t.pkgNamesInUse[name] {
+		return name + "_"
+	}
+	return name
+}
+
 func (t *psrpc) typedTopicsForService(service *descriptor.ServiceDescriptorProto) topicSlice {
 	var ts []topic
 	found := map[string]bool{}
-- 
2.43.0


From 6ebde42f94a8a020c50afdf9b087ce28cce66c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:18 +0000
Subject: [PATCH 27/31] fix: an imported package named like the generated one
 is told apart from it

---
 protoc-gen-psrpc/generator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index 161ffe9..40a39d5 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -131,7 +131,7 @@ func (t *psrpc) Generate(in *plugin.CodeGeneratorRequest) *plugin.CodeGeneratorR
 
 	// Next, we need to pick names for all the files that are dependencies.
 	for _, f := range in.ProtoFile {
-		if *f.Name == "options.proto" && *f.Package == "psrpc" {
+		if f.GetName() == "options.proto" && f.GetPackage() == "psrpc" {
 			continue
 		}
 
@@ -159,6 +159,12 @@ func (t *psrpc) Generate(in *plugin.CodeGeneratorRequest) *plugin.CodeGeneratorR
 		}
 		name = stringutils.CleanIdentifier(name)
 		alias := t.registerPackageName(name)
+		if alias == t.genPkgName {
+			// The alias distinguishes imported packages from the one we're generating.
+			if importPath, _, _ := goPackageOption(f); importPath != "" {
+				alias = t.registerPackageName(name)
+			}
+		}
 		t.fileToGoPackageName[f] = alias
 	}
 
-- 
2.43.0


From c81da6feafda0780b8d7801b9935fe7a7289db16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:48 +0000
Subject: [PATCH 28/31] fix: M parameters with a package name, of the generated
 package, or for files without go_package

---
 protoc-gen-psrpc/command_line.go | 11 +++++++++--
 protoc-gen-psrpc/generator.go    | 29 +++++++++++++----------------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/protoc-gen-psrpc/command_line.go b/protoc-gen-psrpc/command_line.go
index 8024a1a..ae08009 100644
--- a/protoc-gen-psrpc/command_line.go
+++ b/protoc-gen-psrpc/command_line.go
@@ -53,9 +53,9 @@ func parseCommandLineParams(parameter string) (*commandLineParams, error) {
 		switch {
 		// Support import map 'M' prefix: https://developers.google.com/protocol-buffers/docs/reference/go-generated
 		case len(k) > 0 && k[0] == 'M':
-			clp.importMap[k[1:]] = v // 1 is the length of 'M'.
+			clp.importMap[k[1:]] = importPathOf(v) // 1 is the length of 'M'.
 		case len(k) > 0 && strings.HasPrefix(k, "go_import_mapping@"): // twirp specific version of M parameters
-			clp.importMap[k[18:]] = v // 18 is the length of 'go_import_mapping@'.
+			clp.importMap[k[18:]] = importPathOf(v) // 18 is the length of 'go_import_mapping@'.
 
 		case k == "paths":
 			switch v {
@@ -82,3 +82,10 @@ func parseCommandLineParams(parameter string) (*commandLineParams, error) {
 	}
 	return clp, nil
 }
+
+// importPathOf returns the import path of a mapping, which may be followed by
+// a package name: import/path;name.
+func importPathOf(v string) string {
+	importPath, _, _ := strings.Cut(v, ";")
+	return importPath
+}
diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index 40a39d5..ed077e3 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -144,12 +144,13 @@ func (t *psrpc) Generate(in *plugin.CodeGeneratorRequest) *plugin.CodeGeneratorR
 		// Is this is an imported .proto file which has the same fully-specified
 		// go_package as the targeted file for generation? If yes, it gets the
 		// shared package name too.
-		if genPkgImportPath != "" {
-			importPath, _, _ := goPackageOption(f)
-			if importPath == genPkgImportPath {
-				t.fileToGoPackageName[f] = t.genPkgName
-				continue
-			}
+		importPath, _, _ := goPackageOption(f)
+		if substitution, ok := t.importMap[f.GetName()]; ok {
+			importPath = substitution
+		}
+		if genPkgImportPath != "" && importPath == genPkgImportPath {
+			t.fileToGoPackageName[f] = t.genPkgName
+			continue
 		}
 
 		// This is a dependency from a different go_package. Use its package name.
@@ -159,11 +160,9 @@ func (t *psrpc) Generate(in *plugin.CodeGeneratorRequest) *plugin.CodeGeneratorR
 		}
 		name = stringutils.CleanIdentifier(name)
 		alias := t.registerPackageName(name)
-		if alias == t.genPkgName {
+		if alias == t.genPkgName && importPath != "" {
 			// The alias distinguishes imported packages from the one we're generating.
-			if importPath, _, _ := goPackageOption(f); importPath != "" {
-				alias = t.registerPackageName(name)
-			}
+			alias = t.registerPackageName(name)
 		}
 		t.fileToGoPackageName[f] = alias
 	}
@@ -313,16 +312,14 @@ func (t *psrpc) generateImports(file *descriptor.FileDescriptorProto) {
 			}
 			for _, def := range defs {
 				importPath, _ := parseGoPackageOption(def.File.GetOptions().GetGoPackage())
-				if importPath == "" { // no option go_package
-					importPath := path.Dir(t.goFileName(def.File)) // use the dirname of the Go filename as import path
+				if substitution, ok := t.importMap[def.File.GetName()]; ok {
+					importPath = substitution
+				} else if importPath == "" { // no option go_package
+					importPath = path.Dir(t.goFileName(def.File)) // use the dirname of the Go filename as import path
 					if importPath == ourImportPath {
 						continue
 					}
 				}
-
-				if substitution, ok := t.importMap[def.File.GetName()]; ok {
-					importPath = substitution
-				}
 				importPath = t.importPrefix + importPath
 
 				pkg := t.goPackageName(def.File)
-- 
2.43.0


From e8240d9ad056716ed6cb96360a0ad66df4a8b088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:11 +0000
Subject: [PATCH 29/31] fix: generated package names are identifiers

---
 protoc-gen-psrpc/generator.go                    | 16 +++++++++++++---
 .../internal/gen/stringutils/stringutils.go      | 11 +++++++++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index ed077e3..717079b 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -108,11 +108,17 @@ func (t *psrpc) Generate(in *plugin.CodeGeneratorRequest) *plugin.CodeGeneratorR
 
 	// Names that must not be shadowed in the generated code.
 	for _, name := range []string{
-		"bus", "c", "ctx", "err", "error", "float32", "msg", "nil", "opts",
-		"req", "rpcClient", "s", "sd", "string", "svc",
+		"bus", "byte", "c", "ctx", "err", "error", "float32", "init", "msg",
+		"nil", "opts", "req", "rpcClient", "s", "sd", "string", "svc", "true",
 	} {
 		t.pkgNamesInUse[name] = true
 	}
+	for _, f := range t.genFiles {
+		for _, service := range f.Service {
+			t.pkgNamesInUse[clientStruct(service)] = true
+			t.pkgNamesInUse[serviceStruct(service)] = true
+		}
+	}
 
 	// Time to figure out package names of objects defined in protobuf. First,
 	// we'll figure out the name for the package we're generating.
@@ -475,7 +481,7 @@ func (t *psrpc) generateClientSignature(method *descriptor.MethodDescriptorProto
 func (t *psrpc) generateClient(service *descriptor.ServiceDescriptorProto) {
 	servName := serviceNameCamelCased(service)
 	servTopics := t.typedTopicsForService(service)
-	structName := unexported(servName) + "Client"
+	structName := clientStruct(service)
 	newClientFunc := "New" + servName + "Client"
 
 	t.P(`type `, structName, servTopics.FormatTypeParamConstraints(), ` struct {`)
@@ -1069,6 +1075,10 @@ func serviceNameCamelCased(service *descriptor.ServiceDescriptorProto) string {
 	return stringutils.CamelCase(service.GetName())
 }
 
+func clientStruct(service *descriptor.ServiceDescriptorProto) string {
+	return unexported(serviceNameCamelCased(service)) + "Client"
+}
+
 func serviceStruct(service *descriptor.ServiceDescriptorProto) string {
 	return unexported(serviceNameCamelCased(service)) + "Server"
 }
diff --git a/protoc-gen-psrpc/internal/gen/stringutils/stringutils.go b/protoc-gen-psrpc/internal/gen/stringutils/stringutils.go
index 42628c1..aff5e6d 100644
--- a/protoc-gen-psrpc/internal/gen/stringutils/stringutils.go
+++ b/protoc-gen-psrpc/internal/gen/stringutils/stringutils.go
@@ -14,8 +14,10 @@
 package stringutils
 
 import (
+	"go/token"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 // Is c an ASCII lower-case letter?
@@ -93,9 +95,14 @@ func AlphaDigitize(r rune) rune {
 }
 
 // CleanIdentifier makes sure s is a valid 'identifier' string: it contains only
-// letters, numbers, and underscore.
+// letters, numbers, and underscore, does not begin with a number, and is not a
+// Go keyword.
 func CleanIdentifier(s string) string {
-	return strings.Map(AlphaDigitize, s)
+	s = strings.Map(AlphaDigitize, s)
+	if r, _ := utf8.DecodeRuneInString(s); token.IsKeyword(s) || !unicode.IsLetter(r) {
+		return "_" + s
+	}
+	return s
 }
 
 // BaseName the last path element of a slash-delimited name, with the last
-- 
2.43.0


From 675c9e18c320cc7951268681d74ddd9d6955a609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:42 +0000
Subject: [PATCH 30/31] fix: report the size of requests as they were received

---
 pkg/middleware/metrics.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/middleware/metrics.go b/pkg/middleware/metrics.go
index dc5e430..521b22b 100644
--- a/pkg/middleware/metrics.go
+++ b/pkg/middleware/metrics.go
@@ -82,6 +82,7 @@ func newClientRPCMetricsInterceptor(observer MetricsObserver) psrpc.ClientRPCInt
 func newServerRPCMetricsInterceptor(observer MetricsObserver) psrpc.ServerRPCInterceptor {
 	return func(ctx context.Context, req proto.Message, rpcInfo psrpc.RPCInfo, handler psrpc.ServerRPCHandler) (res proto.Message, err error) {
 		start := time.Now()
+		rxBytes := proto.Size(req) // the handler may change the request
 		defer func() {
 			if rpcInfo.Multi {
 				var responseCount, errorCount int
@@ -90,9 +91,9 @@ func newServerRPCMetricsInterceptor(observer MetricsObserver) psrpc.ServerRPCInt
 				} else {
 					errorCount++
 				}
-				observer.OnMultiRequest(ServerRole, rpcInfo, time.Since(start), responseCount, errorCount, proto.Size(req), proto.Size(res))
+				observer.OnMultiRequest(ServerRole, rpcInfo, time.Since(start), responseCount, errorCount, rxBytes, proto.Size(res))
 			} else {
-				observer.OnUnaryRequest(ServerRole, rpcInfo, time.Since(start), err, proto.Size(req), proto.Size(res))
+				observer.OnUnaryRequest(ServerRole, rpcInfo, time.Since(start), err, rxBytes, proto.Size(res))
 			}
 		}()
 		return handler(ctx, req)
-- 
2.43.0


From 78c14e4c123bb87e1741a2ae501b4c4fe436ad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:47 +0000
Subject: [PATCH 31/31] fix: a grant that arrives several times does not block
 the server

---
 pkg/server/rpc.go    | 5 ++++-
 pkg/server/stream.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/server/rpc.go b/pkg/server/rpc.go
index a1786cc..14972f7 100644
--- a/pkg/server/rpc.go
+++ b/pkg/server/rpc.go
@@ -159,7 +159,10 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) run(s *RPCServer) {
 				claimChan, ok := h.claims[claim.RequestId]
 				h.mu.RUnlock()
 				if ok {
-					claimChan <- claim
+					select {
+					case claimChan <- claim:
+					default: // a duplicate
+					}
 				}
 			}
 		}
diff --git a/pkg/server/stream.go b/pkg/server/stream.go
index e1c7a35..12e0639 100644
--- a/pkg/server/stream.go
+++ b/pkg/server/stream.go
@@ -123,7 +123,10 @@ func (h *streamHandler[RecvType, SendType]) run(s *RPCServer) {
 				claimChan, ok := h.claims[claim.RequestId]
 				h.mu.RUnlock()
 				if ok {
-					claimChan <- claim
+					select {
+					case claimChan <- claim:
+					default: // a duplicate
+					}
 				}
 			}
 		}
-- 
2.43.0


exec(open("/verif/tools/seedsrc/s1.py").read().split('seed("p01')[0])
SEEDS.clear()
ST, RPC, SST, CL = "pkg/server/stream.go", "pkg/server/rpc.go", "internal/stream/stream.go", "pkg/client/client.go"

seed("p08-ack-dropped-when-full", "P08", [(CL, """					select {
					case streamChans.recvChan <- msg:
					case <-streamChans.closed:
					}
""", """					select {
					case streamChans.recvChan <- msg:
					case <-streamChans.closed:
					default:
						// the stream is too slow, the others must not wait for it
					}
""")], "more acknowledgments arriving at once than the channel size of the client", "sends of messages which were delivered time out",
(f"fmt sync time {P} {P}/internal/bus {PKG}client {PKG}server", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	must(server.RegisterStreamHandler[*Str, *Str](s, "stream", nil, func(st psrpc.ServerStream[*Str, *Str]) error {
		for range st.Channel() {
		}
		return nil
	}, nil))
	st, err := client.OpenStream[*Str, *Str](bg, newClient(b, psrpc.WithClientChannelSize(1)), "stream", nil)
	must(err)
	for r := 0; r < 20; r++ {
		var wg sync.WaitGroup
		errs := make(chan error, 60)
		for i := 0; i < 60; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs <- st.Send(str(fmt.Sprint(i)), psrpc.WithTimeout(3*time.Second))
			}()
		}
		wg.Wait()
		for i := 0; i < 60; i++ {
			must(<-errs)
		}
	}
}
"""))
seed("p10-undecodable-stream-message", "P10", [(SST, """			err = psrpc.NewError(psrpc.MalformedRequest, err)
			go func() {
				if e := s.handler.Close(err); e != nil {
					logger.Error(e, "failed to close stream")
				}
			}()
			return err
""", """			// the sender is told by the missing acknowledgment
			err = psrpc.NewError(psrpc.MalformedRequest, err)
			logger.Error(err, "failed to decode stream message")
			return err
""")], "a peer with another version of the message type sends a stream message that cannot be decoded", "the stream goes on with a message missing, instead of ending with malformed_request",
(f"time {P} {P}/internal/bus {PKG}client {PKG}server google.golang.org/protobuf/types/known/wrapperspb", """
func demo() {
	b := bus.NewLocalMessageBus()
	s := newServer(b)
	must(server.RegisterStreamHandler[*Str, *Str](s, "stream", nil, func(st psrpc.ServerStream[*Str, *Str]) error {
		<-st.Context().Done()
		return nil
	}, nil))
	st, err := client.OpenStream[*wrapperspb.BytesValue, *Str](bg, newClient(b), "stream", nil)
	must(err)
	_ = st.Send(wrapperspb.Bytes([]byte{0xff}), psrpc.WithTimeout(time.Second))
	select {
	case <-st.Context().Done():
	case <-time.After(3 * time.Second):
		fail("the stream goes on")
	}
	code, _ := psrpc.GetErrorCode(st.Err())
	expect(code == psrpc.MalformedRequest, "the stream ended with %v", st.Err())
}
"""))

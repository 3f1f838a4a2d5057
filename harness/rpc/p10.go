package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/twitchtv/twirp"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/zzverif/mc"
	. "github.com/livekit/psrpc/internal/zzverif/sim"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
)

// codeRow is one row of the documented code table.
type codeRow struct {
	code  psrpc.ErrorCode
	text  string
	http  int
	grpc  codes.Code
	twirp twirp.ErrorCode
}

var codeTable = []codeRow{
	{psrpc.OK, "", 200, codes.OK, twirp.NoError},
	{psrpc.Canceled, "canceled", 503, codes.Canceled, twirp.Canceled},
	{psrpc.MalformedRequest, "malformed_request", 400, codes.InvalidArgument, twirp.Malformed},
	{psrpc.MalformedResponse, "malformed_result", 500, codes.Internal, twirp.Malformed},
	{psrpc.DeadlineExceeded, "deadline_exceeded", 503, codes.DeadlineExceeded, twirp.DeadlineExceeded},
	{psrpc.Unavailable, "unavailable", 503, codes.Unavailable, twirp.Unavailable},
	{psrpc.Unknown, "unknown", 500, codes.Unknown, twirp.Unknown},
	{psrpc.InvalidArgument, "invalid_argument", 400, codes.InvalidArgument, twirp.InvalidArgument},
	{psrpc.NotFound, "not_found", 404, codes.NotFound, twirp.NotFound},
	{psrpc.NotAcceptable, "not_acceptable", 406, codes.Unknown, twirp.Unknown},
	{psrpc.AlreadyExists, "already_exists", 409, codes.AlreadyExists, twirp.AlreadyExists},
	{psrpc.PermissionDenied, "permission_denied", 403, codes.PermissionDenied, twirp.PermissionDenied},
	{psrpc.ResourceExhausted, "resource_exhausted", 429, codes.ResourceExhausted, twirp.ResourceExhausted},
	{psrpc.FailedPrecondition, "failed_precondition", 412, codes.FailedPrecondition, twirp.FailedPrecondition},
	{psrpc.Aborted, "aborted", 409, codes.Aborted, twirp.Aborted},
	{psrpc.OutOfRange, "out_of_range", 416, codes.OutOfRange, twirp.OutOfRange},
	{psrpc.Unimplemented, "unimplemented", 501, codes.Unimplemented, twirp.Unimplemented},
	{psrpc.Internal, "internal", 500, codes.Internal, twirp.Internal},
	{psrpc.DataLoss, "data_loss", 500, codes.DataLoss, twirp.DataLoss},
	{psrpc.Unauthenticated, "unauthenticated", 401, codes.Unauthenticated, twirp.Unauthenticated},
	{psrpc.UnprocessableEntity, "unprocessable_entity", 422, codes.Unknown, twirp.Unknown},
	{psrpc.UpstreamServerError, "upstream_server_error", 502, codes.Internal, twirp.Internal},
	{psrpc.UpstreamClientError, "upstream_client_error", 424, codes.InvalidArgument, twirp.InvalidArgument},
	{psrpc.ErrorCode("something_else"), "something_else", 500, codes.Unknown, twirp.Unknown},
}

type customErr struct{ code psrpc.ErrorCode }

func (e customErr) Error() string { return "custom error" }

type grpcErr struct{ st *status.Status }

func (e grpcErr) Error() string              { return "custom: " + e.st.Message() }
func (e grpcErr) GRPCStatus() *status.Status { return e.st }

func mustAny(m proto.Message) *anypb.Any {
	a, err := anypb.New(m)
	if err != nil {
		panic(err)
	}
	return a
}

var detailSets = [][]proto.Message{nil, {wrapperspb.String("d1")}, {wrapperspb.Bool(true), wrapperspb.String("d2"), wrapperspb.Bool(true)}}

func sameDetails(got []*anypb.Any, want []proto.Message) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !proto.Equal(got[i], mustAny(want[i])) {
			return false
		}
	}
	return true
}

var p10msgs = []string{"plain", "", "ünï \u0000 100% %s\n", "bad \xff\xfe utf8", strings.Repeat("long ", 900)}

// p10err is one way to fail.
type p10err struct {
	name  string
	make  func(code codeRow, msg string, det []proto.Message) error
	codes int // codes that matter: 0 none, 1 gRPC codes, 2 all
	dets  bool
	want  func(code codeRow, msg string) (psrpc.ErrorCode, []string)
}

var sentinel = errors.New("sentinel")

func sameP(code codeRow, msg string) (psrpc.ErrorCode, []string) {
	if code.code == psrpc.OK {
		return psrpc.Unknown, []string{msg}
	}
	return code.code, []string{msg}
}

func asG(code codeRow, msg string) (psrpc.ErrorCode, []string) {
	return psrpc.ErrorCodeFromGRPC(code.grpc), []string{msg}
}

func gst(code codeRow, msg string, det []proto.Message) *status.Status {
	p := status.New(code.grpc, msg).Proto()
	for _, d := range det {
		p.Details = append(p.Details, mustAny(d))
	}
	return status.FromProto(p)
}

var p10errs = []p10err{
	{"psrpc", func(c codeRow, m string, d []proto.Message) error { return psrpc.NewError(c.code, errors.New(m), d...) }, 2, true, sameP},
	{"errorf", func(c codeRow, m string, d []proto.Message) error { return psrpc.NewErrorf(c.code, "%s", m) }, 2, false, sameP},
	{"wrapped", func(c codeRow, m string, d []proto.Message) error {
		return fmt.Errorf("outer: %w", psrpc.NewError(c.code, errors.New(m), d...))
	}, 2, true, func(c codeRow, m string) (psrpc.ErrorCode, []string) {
		code, _ := sameP(c, m)
		return code, []string{m, "outer: " + m}
	}},
	{"wrapped2", func(c codeRow, m string, d []proto.Message) error {
		return fmt.Errorf("a: %w", fmt.Errorf("b: %w", psrpc.NewError(c.code, errors.New(m), d...)))
	}, 2, true, func(c codeRow, m string) (psrpc.ErrorCode, []string) {
		code, _ := sameP(c, m)
		return code, []string{m, "a: b: " + m}
	}},
	{"joined", func(c codeRow, m string, d []proto.Message) error {
		return errors.Join(sentinel, psrpc.NewError(c.code, errors.New(m), d...))
	}, 2, true, func(c codeRow, m string) (psrpc.ErrorCode, []string) {
		code, _ := sameP(c, m)
		return code, []string{m, "sentinel\n" + m}
	}},
	{"nested", func(c codeRow, m string, d []proto.Message) error {
		return psrpc.NewError(c.code, psrpc.NewErrorf(psrpc.Internal, "%s", m), d...)
	}, 2, true, sameP},
	{"over-grpc", func(c codeRow, m string, d []proto.Message) error {
		return psrpc.NewError(c.code, grpcErr{gst(codeTable[2], m, nil)}, d...)
	}, 2, true, func(c codeRow, m string) (psrpc.ErrorCode, []string) {
		code, _ := sameP(c, m)
		return code, []string{"custom: " + m}
	}},
	{"grpc", func(c codeRow, m string, d []proto.Message) error { return gst(c, m, d).Err() }, 1, true, asG},
	{"grpc-wrapped", func(c codeRow, m string, d []proto.Message) error { return fmt.Errorf("outer: %w", gst(c, m, d).Err()) }, 1, true,
		func(c codeRow, m string) (psrpc.ErrorCode, []string) {
			return psrpc.ErrorCodeFromGRPC(c.grpc), []string{m, "outer: " + gst(c, m, nil).Err().Error()}
		}},
	{"grpc-custom", func(c codeRow, m string, d []proto.Message) error { return grpcErr{gst(c, m, d)} }, 1, true, func(c codeRow, m string) (psrpc.ErrorCode, []string) {
		return psrpc.ErrorCodeFromGRPC(c.grpc), []string{m, "custom: " + m}
	}},
	{"plain", func(c codeRow, m string, d []proto.Message) error { return errors.New(m) }, 0, false, func(c codeRow, m string) (psrpc.ErrorCode, []string) {
		return psrpc.Unknown, []string{m}
	}},
	{"custom", func(c codeRow, m string, d []proto.Message) error { return customErr{} }, 0, false, func(c codeRow, m string) (psrpc.ErrorCode, []string) {
		return psrpc.Unknown, []string{"custom error"}
	}},
	{"deadline", func(c codeRow, m string, d []proto.Message) error { return context.DeadlineExceeded }, 0, false, func(c codeRow, m string) (psrpc.ErrorCode, []string) {
		return psrpc.Unknown, []string{context.DeadlineExceeded.Error()}
	}},
	{"eof", func(c codeRow, m string, d []proto.Message) error { return io.EOF }, 0, false, func(c codeRow, m string) (psrpc.ErrorCode, []string) {
		return psrpc.Unknown, []string{"EOF"}
	}},
}

// grpcRows are the rows which stand for a distinct gRPC code other than OK.
func grpcRows() (r []codeRow) {
	seen := map[codes.Code]bool{codes.OK: true}
	for _, c := range codeTable {
		if !seen[c.grpc] {
			seen[c.grpc] = true
			r = append(r, c)
		}
	}
	return
}

func textOK(got string, want []string) bool {
	if !utf8.ValidString(got) {
		return false
	}
	for _, w := range want {
		if got == w {
			return true
		}
		if !utf8.ValidString(w) {
			// whatever stands for the invalid bytes, the rest is unaltered
			if strings.HasSuffix(got, " utf8") && strings.HasPrefix(got, w[:strings.Index(w, "\xff")]) {
				return true
			}
		}
	}
	return false
}

// p10pick chooses an error, its code, message and details.
func p10pick(x *mc.X) (e p10err, row codeRow, msg string, det []proto.Message) {
	e = p10errs[x.Choice(len(p10errs), 1)]
	switch e.codes {
	case 1:
		rows := grpcRows()
		row = rows[x.Choice(len(rows), 2)]
	case 2:
		row = codeTable[x.Choice(len(codeTable), 2)]
	}
	msg = p10msgs[x.Choice(len(p10msgs), 3)]
	if e.dets {
		det = detailSets[x.Choice(len(detailSets), 4)]
	}
	return
}

func judgeErr(x *mc.X, what string, err error, e p10err, row codeRow, msg string, det []proto.Message) {
	code, texts := e.want(row, msg)
	if err == nil {
		x.Fail("%s: %s error with code %q and message %q became a success", what, e.name, row.code, trim(msg))
		return
	}
	pe, ok := err.(psrpc.Error)
	if !ok {
		x.Fail("%s: the caller got %T", what, err)
		return
	}
	if pe.Code() != code {
		x.Fail("%s: %s error with code %q and message %q has code %q", what, e.name, row.code, trim(msg), pe.Code())
	}
	if !textOK(pe.Error(), texts) {
		x.Fail("%s: %s error with code %q and message %q has message %q", what, e.name, row.code, trim(msg), trim(pe.Error()))
	}
	if !sameDetails(pe.DetailsProto(), det) {
		x.Fail("%s: %s error with code %q and details %v has details %v", what, e.name, row.code, det, pe.DetailsProto())
	}
	if !errors.Is(err, code) {
		x.Fail("%s: errors.Is does not find code %q", what, code)
	}
	x.Out("%s %s %s", what, e.name, pe.Code())
}

func trim(s string) string {
	if len(s) > 60 {
		return s[:60]
	}
	return s
}

func p10call(rpc string) func(x *mc.X) {
	return func(x *mc.X) {
		e, row, msg, det := p10pick(x)
		w := NewWorld(x)
		a := w.Server("A")
		ctx := context.Background()
		h := func(context.Context, *Msg) (*Msg, error) {
			var res *Msg
			if x.Choice(2, 5) == 1 {
				res = M("result and error")
			}
			return res, e.make(row, msg, det)
		}
		w.Handle(a, rpc, nil, h, nil)
		c := w.Client("C")
		if rpc == "multi" {
			b := w.Server("B")
			w.Handle(b, rpc, nil, func(context.Context, *Msg) (*Msg, error) { return M("fine"), nil }, nil)
			ch, err := client.RequestMulti[*Msg](ctx, c, rpc, nil, M("r"), psrpc.WithRequestTimeout(2*time.Second))
			if err != nil {
				x.Fail("multi: %v", err)
				return
			}
			good, bad := 0, 0
			for r := range ch {
				if r.Err == nil && r.Result != nil && r.Result.Value == "fine" {
					good++
					continue
				}
				bad++
				judgeErr(x, rpc, r.Err, e, row, msg, det)
			}
			if good != 1 || bad != 1 {
				x.Fail("multi: %d results, %d errors (%s %q %q)", good, bad, e.name, row.code, trim(msg))
			}
		} else {
			took := time.Now()
			_, err := client.RequestSingle[*Msg](ctx, c, rpc, nil, M("r"), psrpc.WithRequestTimeout(2*time.Second), psrpc.WithSelectionOpts(psrpc.SelectionOpts{AcceptFirstAvailable: true}))
			judgeErr(x, rpc, err, e, row, msg, det)
			if d := time.Since(took); d > 0 {
				x.Fail("the error took %v", d)
			}
		}
		w.Close()
	}
}

// p10stream: the error of a stream handler, or the cause of a close, on the other side.
func p10stream(how string) func(x *mc.X) {
	return func(x *mc.X) {
		e, row, msg, det := p10pick(x)
		if e.codes == 1 {
			return // how a gRPC status ends a stream is not specified
		}
		w := NewWorld(x)
		a := w.Server("A")
		cause := e.make(row, msg, det)
		errs := make(chan error, 1)
		err := server.RegisterStreamHandler(a, "str", nil, func(st psrpc.ServerStream[*Msg, *Msg]) error {
			switch how {
			case "return":
				return cause
			case "server":
				_ = st.Close(cause)
			}
			for range st.Channel() {
			}
			errs <- st.Err()
			return nil
		}, nil)
		if err != nil {
			x.Fail("register: %v", err)
		}
		c := w.Client("C")
		st, err := client.OpenStream[*Msg, *Msg](context.Background(), c, "str", nil)
		if err != nil {
			x.Fail("open: %v", err)
			return
		}
		got := errs
		if how == "client" {
			_ = st.Close(cause)
		} else {
			got = make(chan error, 1)
			go func() {
				for range st.Channel() {
				}
				got <- st.Err()
			}()
		}
		select {
		case err := <-got:
			judgeErr(x, how, err, e, row, msg, nil)
		case <-time.After(10 * time.Second):
			if x.TimeDevs() == 0 {
				x.Fail("%s: a close with a %s error, code %q and message %q did not arrive", how, e.name, row.code, trim(msg))
			}
		}
		w.Close()
	}
}

// p10malformed sends what the other side cannot decode.
func p10malformed(x *mc.X) {
	w := NewWorld(x)
	a := w.Server("A")
	type Raw = wrapperspb.BytesValue // its bytes need not be valid UTF-8
	bad := wrapperspb.Bytes([]byte("\xff"))
	badReq := x.Choice(2, 1) == 0
	rpc := Pick2(x, 2, "aff", "one", "single", "multi")
	ran := false
	if badReq {
		w.Handle(a, rpc, nil, func(context.Context, *Msg) (*Msg, error) { ran = true; return M("x"), nil }, nil)
	} else {
		_ = server.RegisterHandler(a, rpc, nil, func(context.Context, *Raw) (*Raw, error) { return bad, nil }, nil)
	}
	c := w.Client("C")
	var err error
	if rpc == "multi" {
		ch, _ := client.RequestMulti[*Msg](context.Background(), c, rpc, nil, bad)
		n := 0
		for r := range ch {
			n++
			err = r.Err
		}
		if n != 1 {
			if x.TimeDevs() > 0 {
				w.Close()
				return
			}
			x.Fail("%d responses", n)
		}
	} else {
		_, err = client.RequestSingle[*Msg](context.Background(), c, rpc, nil, bad)
	}
	want := psrpc.MalformedResponse
	if badReq {
		want = psrpc.MalformedRequest
	}
	if code, _ := psrpc.GetErrorCode(err); err == nil || code != want && x.TimeDevs() == 0 {
		x.Fail("%s which cannot be decoded: %v", map[bool]string{true: "request", false: "response"}[badReq], err)
	}
	if ran {
		x.Fail("the handler ran for a request which cannot be decoded")
	}
	x.Out("%v", err)
	w.Close()
}

// p10badStream: a stream message which cannot be decoded ends the stream with a
// malformed-request error on both sides.
func p10badStream(x *mc.X) {
	w := NewWorld(x)
	type Raw = wrapperspb.BytesValue
	bad := wrapperspb.Bytes([]byte("\xff"))
	a := w.Server("A")
	fromServer := x.Choice(2, 1) == 1
	code := func(err error) psrpc.ErrorCode { c, _ := psrpc.GetErrorCode(err); return c }
	var errs [2]error
	var n [2]int
	var over [2]chan bool
	over[0], over[1] = make(chan bool), make(chan bool)
	if fromServer {
		_ = server.RegisterStreamHandler[*Msg, *Raw](a, "str", nil, func(st psrpc.ServerStream[*Raw, *Msg]) error {
			_ = st.Send(bad, psrpc.WithTimeout(time.Second))
			for range st.Channel() {
				n[0]++
			}
			errs[0] = st.Err()
			close(over[0])
			return nil
		}, nil)
	} else {
		_ = server.RegisterStreamHandler[*Msg, *Msg](a, "str", nil, func(st psrpc.ServerStream[*Msg, *Msg]) error {
			for range st.Channel() {
				n[0]++
			}
			errs[0] = st.Err()
			close(over[0])
			return nil
		}, nil)
	}
	c := w.Client("C")
	var err error
	if fromServer {
		var st psrpc.ClientStream[*Msg, *Msg]
		if st, err = client.OpenStream[*Msg, *Msg](context.Background(), c, "str", nil); err == nil {
			go func() {
				for range st.Channel() {
					n[1]++
				}
				errs[1] = st.Err()
				close(over[1])
			}()
		}
	} else {
		var st psrpc.ClientStream[*Raw, *Msg]
		if st, err = client.OpenStream[*Raw, *Msg](context.Background(), c, "str", nil); err == nil {
			if st.Send(bad, psrpc.WithTimeout(time.Second)) == nil {
				x.Fail("a message which cannot be decoded was acknowledged")
			}
			go func() {
				for range st.Channel() {
					n[1]++
				}
				errs[1] = st.Err()
				close(over[1])
			}()
		}
	}
	if err != nil {
		if x.TimeDevs() == 0 {
			x.Fail("open: %v", err)
		}
		w.Close()
		return
	}
	time.Sleep(10 * time.Second)
	w.Quiesce()
	for i, side := range []string{"server", "client"} {
		select {
		case <-over[i]:
			if code(errs[i]) != psrpc.MalformedRequest && x.TimeDevs() == 0 {
				x.Fail("the stream ended at the %s with %v, expected a malformed request", side, errs[i])
			}
			if n[i] != 0 {
				x.Fail("the %s received %d messages", side, n[i])
			}
		default:
			if x.TimeDevs() == 0 {
				x.Fail("the stream goes on at the %s after a message which cannot be decoded", side)
			}
		}
	}
	w.Close()
}

// p10unencodable: a message that cannot be encoded is refused where it is sent: requests and
// stream messages before anything is sent, responses with an error of their own.
func p10unencodable(x *mc.X) {
	w := NewWorld(x)
	bad := M("bad \xff")
	mode := Pick2(x, 1, "request", "response", "client-stream", "server-stream", "update")
	code := func(err error) psrpc.ErrorCode { c, _ := psrpc.GetErrorCode(err); return c }
	switch mode {
	case "request", "response":
		rpc := Pick2(x, 2, "aff", "one", "single", "multi")
		ran := 0
		a := w.Server("A")
		w.Handle(a, rpc, nil, func(_ context.Context, m *Msg) (*Msg, error) {
			ran++
			if m.Value == "good" {
				return M("fine"), nil
			}
			return bad, nil
		}, nil)
		c := w.Client("C")
		call := func(m *Msg) (string, error) {
			if rpc != "multi" {
				r, err := client.RequestSingle[*Msg](context.Background(), c, rpc, nil, m)
				return r.GetValue(), err
			}
			ch, err := client.RequestMulti[*Msg](context.Background(), c, rpc, nil, m)
			if err != nil {
				return "", err
			}
			v, n := "", 0
			for r := range ch {
				n++
				v, err = r.Result.GetValue(), r.Err
			}
			if n != 1 && x.TimeDevs() == 0 {
				x.Fail("%d responses", n)
			}
			return v, err
		}
		n := w.Publishes()
		req, want, runs := bad, psrpc.MalformedRequest, 0
		if mode == "response" {
			req, want, runs = M("bad, please"), psrpc.MalformedResponse, 1
		}
		v, err := call(req)
		if v != "" || err == nil || code(err) != want && x.TimeDevs() == 0 {
			x.Fail("%s: a %s which cannot be encoded: %q, %v", rpc, mode, v, err)
		}
		if ran != runs && (x.TimeDevs() == 0 || ran > runs) {
			x.Fail("%s: the handler ran %d times, expected %d", rpc, ran, runs)
		}
		if mode == "request" && w.Publishes() != n {
			x.Fail("%s: %d messages sent for a request which cannot be encoded", rpc, w.Publishes()-n)
		}
		if v, err := call(M("good")); x.TimeDevs() == 0 && (v != "fine" || err != nil) {
			x.Fail("%s: afterwards: %q %v", rpc, v, err)
		}
	case "client-stream", "server-stream":
		p := openPair(w, "str", nil, nil)
		if p == nil {
			w.Close()
			return
		}
		var from, to strm = p.cl, p.sv
		if mode == "server-stream" {
			from, to = p.sv, p.cl
		}
		var got side
		done := make(chan bool)
		go func() { got.drain(to); close(done) }()
		n := w.Publishes()
		err := from.Send(bad)
		if err == nil || code(err) != psrpc.MalformedRequest && x.TimeDevs() == 0 {
			x.Fail("%s: a message which cannot be encoded: %v", mode, err)
		}
		if w.Publishes() != n && x.TimeDevs() == 0 {
			x.Fail("%s: %d messages sent for one which cannot be encoded", mode, w.Publishes()-n)
		}
		if err := from.Send(M("good")); err != nil && x.TimeDevs() == 0 {
			x.Fail("%s: afterwards: %v", mode, err)
		}
		_ = from.Close(nil)
		w.Quiesce()
		if x.TimeDevs() == 0 {
			<-done
			if fmt.Sprint(got.recv) != "[good]" {
				x.Fail("%s: received %q", mode, got.recv)
			}
		}
	case "update":
		s := w.Server("A")
		c := w.Client("C")
		sub, err := client.Join[*Msg](context.Background(), c, "sub", nil)
		if err != nil {
			x.Fail("join: %v", err)
			return
		}
		if err := s.Publish(context.Background(), "sub", nil, bad); err == nil {
			x.Fail("an update which cannot be encoded was published")
		}
		_ = s.Publish(context.Background(), "sub", nil, M("good"))
		w.Quiesce()
		select {
		case m := <-sub.Channel():
			if m.GetValue() != "good" {
				x.Fail("received %v", m)
			}
		default:
			x.Fail("received nothing")
		}
		_ = sub.Close()
	}
	x.Out("%s", mode)
	w.Close()
}

func Pick2(x *mc.X, where uint32, o ...string) string { return o[x.Choice(len(o), where)] }

// p10codes compares the local mappings with the table, for every wrapping.
func p10codes(s *mc.S) {
	text := map[string]bool{}
	for _, r := range codeTable {
		if !s.Mine() {
			continue
		}
		if string(r.code) != r.text || r.code.Error() != r.text {
			s.Fail("code %q is written %q", r.text, r.code)
		}
		if r.code.ToHTTP() != r.http || r.code.ToGRPC() != r.grpc || r.code.ToTwirp() != r.twirp {
			s.Fail("code %q maps to http %d grpc %v twirp %v instead of %d %v %v", r.code, r.code.ToHTTP(), r.code.ToGRPC(), r.code.ToTwirp(), r.http, r.grpc, r.twirp)
		}
		if text[r.text] {
			s.Fail("two codes are written %q", r.text)
		}
		text[r.text] = true
		for _, m := range p10msgs {
			for _, det := range detailSets {
				e := psrpc.NewError(r.code, fmt.Errorf("%s: %w", m, sentinel), det...)
				s.Steps(8)
				if e.Code() != r.code || e.ToHttp() != r.http || e.Error() != m+": sentinel" {
					s.Fail("error of code %q and message %q: code %q http %d message %q", r.code, trim(m), e.Code(), e.ToHttp(), trim(e.Error()))
				}
				st := e.GRPCStatus()
				if st.Code() != r.grpc || r.grpc != codes.OK && st.Message() != e.Error() || !sameDetails(st.Proto().GetDetails(), det) || !sameDetails(e.DetailsProto(), det) {
					s.Fail("gRPC status of an error with code %q: %v", r.code, st)
				}
				if r.grpc != codes.OK && len(e.Details()) != len(det) {
					s.Fail("details of an error with code %q: %v", r.code, e.Details())
				}
				ne := psrpc.NewErrorFromResponse(string(r.code), e.Error(), e.DetailsProto()...)
				wc, _ := sameP(r, m)
				if ne.Code() != wc || ne.Error() != e.Error() || !sameDetails(ne.DetailsProto(), det) {
					s.Fail("error from response with code %q: %v %v", r.code, ne.Code(), ne)
				}
				var w error = e
				for depth := 0; depth < 4; depth++ {
					var pe psrpc.Error
					var te twirp.Error
					if !errors.Is(w, sentinel) || !errors.Is(w, r.code) || !errors.Is(w, e) || !errors.As(w, &pe) || pe.Code() != r.code {
						s.Fail("the cause or code %q of an error wrapped %d times cannot be reached", r.code, depth)
					} else if !errors.As(w, &te) || te.Code() != r.twirp || te.Msg() != e.Error() {
						s.Fail("twirp error of code %q: %v", r.code, te)
					}
					for _, o := range codeTable {
						if o.code != r.code && errors.Is(w, o.code) {
							s.Fail("an error of code %q is one of code %q", r.code, o.code)
						}
					}
					if c, ok := psrpc.GetErrorCode(w); !ok || c != r.code {
						s.Fail("GetErrorCode of an error with code %q wrapped %d times: %q %v", r.code, depth, c, ok)
					}
					w = []error{fmt.Errorf("w: %w", w), errors.Join(w, io.EOF), errors.Join(customErr{}, w)}[depth%3]
					s.Steps(4)
				}
			}
		}
		s.Case(r.text)
	}
	for c := codes.OK; c <= codes.Unauthenticated+3; c++ {
		if !s.Mine() {
			continue
		}
		p := psrpc.ErrorCodeFromGRPC(c)
		want := c
		if c > codes.Unauthenticated {
			want = codes.Unknown
		}
		if p.ToGRPC() != want {
			s.Fail("gRPC code %v becomes %q and then %v", c, p, p.ToGRPC())
		}
		if c != codes.OK {
			if g, ok := psrpc.GetErrorCode(fmt.Errorf("w: %w", status.Error(c, "m"))); !ok || g != p {
				s.Fail("GetErrorCode of gRPC code %v: %q %v", c, g, ok)
			}
		}
		s.Case(string(p))
	}
	if s.Mine() {
		if c, ok := psrpc.GetErrorCode(sentinel); ok || c != psrpc.Unknown {
			s.Fail("GetErrorCode of a plain error: %q %v", c, ok)
		}
		for _, e := range []struct {
			err  error
			code psrpc.ErrorCode
		}{{psrpc.ErrRequestCanceled, psrpc.Canceled}, {psrpc.ErrRequestTimedOut, psrpc.DeadlineExceeded}, {psrpc.ErrNoResponse, psrpc.Unavailable},
			{psrpc.ErrUnimplemented, psrpc.Unimplemented}, {psrpc.ErrStreamEOF, psrpc.Unavailable}, {psrpc.ErrClientClosed, psrpc.Canceled},
			{psrpc.ErrServerClosed, psrpc.Canceled}, {psrpc.ErrStreamClosed, psrpc.Canceled}, {psrpc.ErrSlowConsumer, psrpc.Unavailable}} {
			if c, _ := psrpc.GetErrorCode(e.err); c != e.code {
				s.Fail("%v has code %q", e.err, c)
			}
		}
		if !errors.Is(psrpc.ErrStreamEOF, io.EOF) {
			s.Fail("ErrStreamEOF is not EOF")
		}
		s.Case("sentinels")
	}
	s.Sample("not_found -> 404, NotFound, not_found; and every other row, wrapped up to 3 times")
}

func init() {
	addSeq(mc.Seq{Name: "P10/codes", Run: p10codes})
	for _, r := range []string{"aff", "one", "single", "multi"} {
		add(mc.Scenario{Name: "P10/wire-" + r, Passes: env, Body: p10call(r)})
	}
	for _, h := range []string{"return", "server", "client"} {
		add(mc.Scenario{Name: "P10/stream-" + h, Passes: env, Body: p10stream(h)})
	}
	add(mc.Scenario{Name: "P10/unencodable", Passes: []mc.Pass{mc.E, mc.P1}, Deep: []mc.Pass{mc.P2}, Body: p10unencodable})
	add(mc.Scenario{Name: "P10/malformed-stream", Passes: []mc.Pass{mc.E, mc.P1}, Deep: []mc.Pass{mc.P2}, Body: p10badStream})
	add(mc.Scenario{Name: "P10/malformed", Passes: []mc.Pass{mc.E, mc.P1}, Deep: []mc.Pass{mc.P2}, Body: p10malformed})
}

// Package p21kit is the uniform view of generated clients and servers.
package p21kit

import (
	"context"

	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
)

type (
	Req  = wrapperspb.StringValue
	Resp = wrapperspb.BytesValue
)

// Method is what the options of a method mean.
type Method struct {
	Proto, Go string // names
	Kind      string // unary, stream, sub
	Route     string // queue, affinity, multi
	Params    int    // number of topic parameters
	Topics    bool
	Single    bool   // single_server
	Group     string // Go name of the topic group
}

// Impl is what a generated server calls.
type Impl struct {
	Unary    func(method string, ctx context.Context, r *Req) (*Resp, error)
	Stream   func(method string, s psrpc.ServerStream[*Resp, *Req]) error
	Affinity func(method string, r *Req) float32
}

// Server is a generated server.
type Server struct {
	Register, RegisterAll     map[string]func(t []string) error
	Deregister, DeregisterAll map[string]func(t []string)
	Publish                   map[string]func(ctx context.Context, t []string, m *Resp) error
	Shutdown, Kill            func()
}

// Client is a generated client.
type Client struct {
	Unary  map[string]func(ctx context.Context, t []string, r *Req, o ...psrpc.RequestOption) (*Resp, error)
	Multi  map[string]func(ctx context.Context, t []string, r *Req, o ...psrpc.RequestOption) (<-chan *psrpc.Response[*Resp], error)
	Stream map[string]func(ctx context.Context, t []string, o ...psrpc.RequestOption) (psrpc.ClientStream[*Req, *Resp], error)
	Sub    map[string]func(ctx context.Context, t []string) (psrpc.Subscription[*Resp], error)
	Close  func()
}

// Service is a generated service.
type Service struct {
	Desc      string // the options
	Go        string // name
	Methods   []Method
	NewServer func(i *Impl, bus psrpc.MessageBus, o ...psrpc.ServerOption) (*Server, error)
	NewClient func(bus psrpc.MessageBus, o ...psrpc.ClientOption) (*Client, error)
}

// Services are all generated services.
var Services []*Service

func Add(s *Service) { Services = append(Services, s) }

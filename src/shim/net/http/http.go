//go:build go1.21

// Package http: the real client on the simulated network.
package http

import (
	stdctx "context"
	"crypto/tls"
	"io"
	"net"
	"net/http"
	"net/url"
	"time"

	"github.com/hsiaosiyuan0/mole/zzsim/shim/context"
	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

// Transport has the settings of the real one, and the simulated network behind it.
type Transport struct {
	Proxy                  func(*http.Request) (*url.URL, error)
	OnProxyConnectResponse func(ctx stdctx.Context, proxyURL *url.URL, connectReq *http.Request, connectRes *http.Response) error
	DialContext            func(ctx stdctx.Context, network, addr string) (net.Conn, error)
	Dial                   func(network, addr string) (net.Conn, error)
	DialTLSContext         func(ctx stdctx.Context, network, addr string) (net.Conn, error)
	DialTLS                func(network, addr string) (net.Conn, error)
	TLSClientConfig        *tls.Config
	TLSHandshakeTimeout    time.Duration
	DisableKeepAlives      bool
	DisableCompression     bool
	MaxIdleConns           int
	MaxIdleConnsPerHost    int
	MaxConnsPerHost        int
	IdleConnTimeout        time.Duration
	ResponseHeaderTimeout  time.Duration
	ExpectContinueTimeout  time.Duration
	TLSNextProto           map[string]func(authority string, c *tls.Conn) http.RoundTripper
	ProxyConnectHeader     http.Header
	GetProxyConnectHeader  func(ctx stdctx.Context, proxyURL *url.URL, target string) (http.Header, error)
	MaxResponseHeaderBytes int64
	WriteBufferSize        int
	ReadBufferSize         int
	ForceAttemptHTTP2      bool
}

func (t *Transport) RoundTrip(q *http.Request) (*http.Response, error) {
	return http.DefaultTransport.RoundTrip(q)
}

func (t *Transport) Clone() *Transport     { c := *t; return &c }
func (t *Transport) CloseIdleConnections() {}

var DefaultTransport http.RoundTripper = &Transport{}

func NewRequestWithContext(ctx context.Context, method, url string, body io.Reader) (*http.Request, error) {
	return http.NewRequestWithContext(stdctx.WithValue(stdctx.Background(), sim.CtxKey, ctx), method, url, body)
}

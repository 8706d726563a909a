package harness

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"sync"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/grpc"
	"github.com/continusec/verifiabledatastructures/server/httprest"
)

// handlerTransport carries requests to a handler through their HTTP/1.1 wire form, without sockets.
type handlerTransport struct {
	h     http.Handler
	alter func(*http.Response) // may be nil
}

func (h *handlerTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	var wire bytes.Buffer
	if err := r.Write(&wire); err != nil {
		return nil, err
	}
	sr, err := http.ReadRequest(bufio.NewReader(&wire))
	if err != nil {
		return nil, err
	}
	rec := httptest.NewRecorder()
	h.h.ServeHTTP(rec, sr)
	resp := rec.Result()
	if h.alter != nil {
		h.alter(resp)
	}
	var back bytes.Buffer
	if err := resp.Write(&back); err != nil {
		return nil, err
	}
	return http.ReadResponse(bufio.NewReader(&back), r)
}

func restClient(s server, alter func(*http.Response)) server {
	tr := &handlerTransport{h: httprest.CreateRESTHandler(s, nil, nil), alter: alter}
	return (&httprest.Client{BaseURL: "http://server.test", HTTPClient: &http.Client{Transport: tr}}).MustDial()
}

// relay is a service whose target can be replaced, so that one gRPC server serves all cases.
type relay struct {
	server
}

var (
	grpcOnce   sync.Once
	grpcRelay  = &relay{}
	grpcDialed server
)

// grpcClient returns a client of s through a real gRPC server on a unix socket. Only one service at a time.
func grpcClient(s server) server {
	grpcOnce.Do(func() {
		sock := newDir() + "/s"
		go grpc.StartServer(&pb.ServerConfig{InsecureServerForTesting: true, GrpcListenProtocol: "unix", GrpcListenBind: sock}, grpcRelay)
		for i := 0; ; i++ {
			c, err := net.Dial("unix", sock)
			if err == nil {
				c.Close()
				break
			}
			if i > 1000 {
				fmt.Println("gRPC server did not start:", err)
				os.Exit(3)
			}
			time.Sleep(10 * time.Millisecond)
		}
		grpcDialed = (&grpc.Client{NoGrpcSecurity: true, Address: "unix://" + sock}).MustDial()
	})
	grpcRelay.server = s
	return grpcDialed
}

func setBody(r *http.Response, b []byte) {
	r.Body = io.NopCloser(bytes.NewReader(b))
	r.ContentLength = int64(len(b))
	r.Header.Del("Content-Length")
}

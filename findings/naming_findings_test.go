package naming

import (
	"context"
	"net"
	"testing"
	"time"

	"github.com/tg123/phabrik/transport"
)

func pair(t *testing.T, h transport.MessageCallback) *NamingClient {
	l, _ := net.Listen("tcp", "127.0.0.1:0")
	s, _ := transport.Listen(l, transport.ServerConfig{MessageCallback: h})
	go s.Serve()
	c, err := transport.DialTCP(l.Addr().String(), transport.ClientConfig{})
	if err != nil {
		t.Fatal(err)
	}
	n, err := NewNamingClient(c)
	if err != nil {
		t.Fatal(err)
	}
	go c.Wait()
	return n
}

func TestF_PingCancel(t *testing.T) { // X02
	n := pair(t, func(transport.Conn, *transport.ByteArrayMessage) {})
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
	defer cancel()
	done := make(chan error, 1)
	go func() { _, err := n.Ping(ctx); done <- err }()
	select {
	case err := <-done:
		if err == nil {
			t.Error("no error")
		}
	case <-time.After(time.Second):
		t.Error("context ignored")
	}
}

func TestF_QueryFailure(t *testing.T) { // N01
	n := pair(t, func(c transport.Conn, m *transport.ByteArrayMessage) {
		r := &transport.Message{Headers: transport.MessageHeaders{RelatesTo: m.Headers.Id, Action: "ClientOperationFailure"}}
		r.Body = &struct{ ErrorCode int64 }{5}
		c.SendOneWay(r)
	})
	_, err := n.GetApplicationList(context.Background(), "")
	if err == nil || err.Error() != "ClientOperationFailure HResult: 5" {
		t.Error("failure not reported:", err)
	}
}

func TestF_QueryEmptyResult(t *testing.T) { // N01
	n := pair(t, func(c transport.Conn, m *transport.ByteArrayMessage) {
		r := &transport.Message{Headers: transport.MessageHeaders{RelatesTo: m.Headers.Id, Action: "QueryReply"}}
		r.Body = &struct {
			ResultKind int32
			ResultList *struct{ List []ApplicationQueryResult }
			ErrorCode  int32
		}{}
		c.SendOneWay(r)
	})
	defer func() {
		if p := recover(); p != nil {
			t.Error("panic", p)
		}
	}()
	if _, err := n.GetApplicationList(context.Background(), ""); err == nil {
		t.Error("no error")
	}
}

type rec struct {
	transport.Conn
	n int
}

func (r *rec) SendOneWay(*transport.Message) error { r.n++; return nil }

func TestF_BadNotification(t *testing.T) { // N02
	n := &NamingClient{}
	called := make(chan int, 1)
	n.OnServiceNotification = func(*ServiceNotification) { called <- 1 }
	r := &rec{}
	n.onMessage(r, &transport.ByteArrayMessage{Headers: transport.MessageHeaders{Action: "ServiceNotificationRequest"}, Body: []byte{1, 2, 3}})
	time.Sleep(50 * time.Millisecond)
	if r.n != 0 || len(called) != 0 {
		t.Error("undecodable notification acknowledged or delivered", r.n, len(called))
	}
}

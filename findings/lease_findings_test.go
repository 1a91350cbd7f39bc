package lease

import (
	"bytes"
	"context"
	"encoding/binary"
	"io"
	"net"
	"testing"
	"time"
)

func recovered(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

func TestF_RoundTrip(t *testing.T) { // L02
	mc := marshalContext{AppId: "a", Address: "127.0.0.1", Port: 99}
	b, err := mc.marshal(&Message{Type: LeaseMessageTypePingRequest, LeaseInstance: 5})
	if err != nil {
		t.Fatal(err)
	}
	m, err := unmarshal(b)
	if err != nil {
		t.Fatal(err)
	}
	if m.MessageListenEndpoint != "127.0.0.1:99" {
		t.Error(m.MessageListenEndpoint)
	}
}

func TestF_BadListDesc(t *testing.T) { // L03
	for _, d := range []listDesc{{0, 200, 0xffffff80}, {0, 10, 4}, {0, 10, 2}, {0, 10, 5}} {
		var h leaseMessageHeader
		h.MessageListenEndpoint = d
		var b bytes.Buffer
		binary.Write(&b, binary.LittleEndian, &h)
		b.Write(make([]byte, 100))
		if p := recovered(func() {
			_, err := unmarshal(b.Bytes())
			if err == nil && d.Size < 6 {
				t.Error("accepted", d)
			}
		}); p != nil {
			t.Error("panic", d, p)
		}
	}
}

func TestF_FrameTooSmall(t *testing.T) { // L03
	var b bytes.Buffer
	binary.Write(&b, binary.LittleEndian, &ltFrameHeader{FrameType: ltFrametypeMessage, FrameSize: 3})
	_, err := nextLtFrame(&b)
	if err == nil || err == io.EOF || err == io.ErrUnexpectedEOF {
		t.Error("accepted", err)
	}
}

type connects struct{ n int }

func (c *connects) Read(b []byte) (int, error) {
	c.n++
	if c.n > 30000000 {
		return 0, io.EOF
	}
	var h bytes.Buffer
	_ = h
	for i := range b {
		b[i] = 0
	}
	b[0] = 2
	return len(b), nil
}

func TestF_EndlessConnectFrames(t *testing.T) { // L03: stack overflow kills the process
	if testing.Short() {
		t.Skip()
	}
	nextLtFrame(&connects{})
}

func TestF_AgentWaitEndsAtClose(t *testing.T) { // X05
	a, err := NewTcpListeningAgent(AgentConfig{}, "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan error, 1)
	go func() { done <- a.Wait() }()
	time.Sleep(50 * time.Millisecond)
	a.Close()
	select {
	case err := <-done:
		if err == nil {
			t.Error("no error")
		}
	case <-time.After(time.Second):
		t.Error("still spinning")
	}
}

type fakeConn struct {
	net.Conn
	onWrite func()
	n       int
}

func (f *fakeConn) Write(b []byte) (int, error) {
	f.n++
	if f.onWrite != nil {
		f.onWrite()
	}
	return len(b), nil
}
func (f *fakeConn) Close() error { return nil }

func session(t *testing.T, fc *fakeConn) (*Agent, *leaseSession) {
	l, _ := net.Listen("tcp", "127.0.0.1:0")
	a, err := NewAgent(AgentConfig{}, l, func(string) (net.Conn, error) { return fc, nil })
	if err != nil {
		t.Fatal(err)
	}
	s, err := a.Establish("x")
	if err != nil {
		t.Fatal(err)
	}
	return a, s.(*leaseSession)
}

func TestF_PingFastPong(t *testing.T) { // L01
	fc := &fakeConn{}
	a, s := session(t, fc)
	defer a.Close()
	fc.onWrite = func() { s.onMessage(&Message{Type: LeaseMessageTypePingResponse}) }
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Millisecond)
	defer cancel()
	if err := s.Ping(ctx); err != nil {
		t.Error("pong missed:", err)
	}
	if fc.n != 1 {
		t.Error("frame written in", fc.n, "writes") // T01
	}
}

func TestF_PingClosed(t *testing.T) { // L01, X01
	fc := &fakeConn{}
	_, s := session(t, fc)
	go func() { time.Sleep(100 * time.Millisecond); s.Close() }()
	if err := s.Ping(context.Background()); err == nil {
		t.Error("ping succeeds without a pong")
	}
}

func TestF_CloseClosesIncoming(t *testing.T) { // X04
	a, err := NewTcpListeningAgent(AgentConfig{}, "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go a.Wait()
	c, err := net.Dial("tcp", a.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	io.ReadFull(c, make([]byte, 12))
	a.Close()
	c.SetReadDeadline(time.Now().Add(time.Second))
	if _, err := c.Read(make([]byte, 1)); err != io.EOF {
		t.Error("incoming connection survives the agent:", err)
	}
}

func TestF_EstablishTwice(t *testing.T) { // X04: the first session leaks and its pongs go to the second
	a, s1 := session(t, &fakeConn{})
	s2, err := a.Establish("x")
	if err != nil {
		t.Fatal(err)
	}
	s1.Close()
	if v, ok := a.sessions.Load("x"); !ok || v != s2 {
		t.Error("closing the first session unregisters the second")
	}
}

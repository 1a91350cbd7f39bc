package transport

// Demonstrations of the defects of the original tree that the checks in /verif found
// (see known_findings.txt). Each test fails on commit 21bb527 and passes after the fix commits.

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func recovered(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

func TestF_FrameHeaderLengthBeyondBody(t *testing.T) { // T04
	var b bytes.Buffer
	binary.Write(&b, binary.LittleEndian, &frameheader{FrameLength: 14, HeaderLength: 100})
	b.Write([]byte{1, 2})
	if p := recovered(func() {
		if _, _, err := nextMessageHeaderAndBodyFromFrame(&b, frameReadConfig{}); err == nil {
			t.Error("no error")
		}
	}); p != nil {
		t.Error("panic", p)
	}
}

func TestF_FrameLengthTooSmall(t *testing.T) { // T04: 4 GiB allocated for a frame of length 3
	var b bytes.Buffer
	binary.Write(&b, binary.LittleEndian, &frameheader{FrameLength: 3})
	_, _, err := nextFrame(&b, frameReadConfig{})
	if err == nil || err == io.EOF || err == io.ErrUnexpectedEOF {
		t.Error("length accepted:", err)
	}
}

func TestF_TruncatedHeaderSection(t *testing.T) { // T04
	for _, b := range [][]byte{{1, 0x80}, {1, 0x80, 5, 0}} {
		if _, err := parseFabricMessageHeaders(bytes.NewBuffer(b)); err == nil {
			t.Error("truncated header accepted", b)
		}
	}
}

func TestF_HeaderTruncatedOnWrite(t *testing.T) { // T12
	m := &Message{}
	m.Headers.SetCustomHeader(MessageHeaderIdTypeTimeout, make([]byte, 70000))
	var b bytes.Buffer
	if err := writeMessageWithFrame(&b, m, frameWriteConfig{}); err == nil {
		t.Error("oversized header accepted")
	}
	m = &Message{}
	for i := 0; i < 3; i++ {
		m.Headers.SetCustomHeader(MessageHeaderIdType(0x8100+i), make([]byte, 40000))
	}
	if err := writeMessageWithFrame(&b, m, frameWriteConfig{}); err == nil {
		t.Error("oversized header section accepted")
	}
}

type slowConn struct {
	net.Conn
	writes int32
}

func (s *slowConn) Write(b []byte) (int, error) { atomic.AddInt32(&s.writes, 1); return s.Conn.Write(b) }

func TestF_FrameInOneWrite(t *testing.T) { // T01
	p1, p2, _ := netPipe()
	defer p1.Close()
	defer p2.Close()
	sc := &slowConn{Conn: p1}
	c := mustTestConnection(t, sc)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				c.SendOneWay(&Message{Body: make([]byte, 64)})
			}
		}()
	}
	go func() { wg.Wait(); p1.Close() }()
	n := 0
	for {
		_, b, err := nextFrame(p2, frameReadConfig{CheckFrameHeaderCRC: true})
		if err == io.EOF {
			break
		}
		if err != nil {
			t.Fatal("stream corrupted after", n, err)
		}
		_ = b
		n++
	}
	if n != 1600 {
		t.Error(n)
	}
}

func TestF_UnsolicitedHeartbeatResponse(t *testing.T) { // T03: panic: send on closed channel
	p1, p2, _ := netPipe()
	defer p2.Close()
	c := mustTestConnection(t, p1)
	done := make(chan interface{}, 1)
	m := c.msgfac.newMessage()
	m.Headers.Action = "HeartbeatResponse"
	m.Body = &heartbeat{1}
	_, raw, _ := m.marshal()
	_ = raw
	hl, raw, _ := m.marshal()
	go func() {
		done <- recovered(func() {
			c.handleTransportMessage(&ByteArrayMessage{Headers: m.Headers, Body: raw[hl:]})
		})
	}()
	time.Sleep(100 * time.Millisecond)
	c.Close()
	select {
	case p := <-done:
		if p != nil {
			t.Error("panic", p)
		}
	case <-time.After(time.Second):
		t.Error("goroutine stuck")
	}
}

func TestF_PingAfterCancelledPing(t *testing.T) { // T11
	p1, p2, _ := netPipe()
	defer p2.Close()
	c := mustTestConnection(t, p1)
	go c.Wait()
	defer c.Close()
	go func() {
		var held *Message
		for {
			h, b, err := nextMessageHeaderAndBodyFromFrame(p2, frameReadConfig{})
			if err != nil {
				return
			}
			r := &Message{Headers: MessageHeaders{Actor: MessageActorTypeTransport, Action: "HeartbeatResponse"}, Body: b}
			_ = h
			if held == nil {
				held = r
				go func() {
					time.Sleep(200 * time.Millisecond)
					writeMessageWithFrame(p2, held, frameWriteConfig{FrameHeaderCRC: true})
				}()
				continue
			}
			time.Sleep(300 * time.Millisecond)
			writeMessageWithFrame(p2, r, frameWriteConfig{FrameHeaderCRC: true})
		}
	}()
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
	defer cancel()
	c.Ping(ctx)
	if _, err := c.Ping(context.Background()); err != nil {
		t.Error("second ping:", err)
	}
}

func TestF_SecondPingCancellable(t *testing.T) { // X02
	p1, p2, _ := netPipe()
	defer p2.Close()
	c := mustTestConnection(t, p1)
	defer c.Close()
	go c.Ping(context.Background()) // never answered
	time.Sleep(100 * time.Millisecond)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
	defer cancel()
	done := make(chan error, 1)
	go func() { _, err := c.Ping(ctx); done <- err }()
	select {
	case err := <-done:
		if err != context.DeadlineExceeded {
			t.Error(err)
		}
	case <-time.After(time.Second):
		t.Error("ping ignores its context")
	}
}

func TestF_FeedAfterCancel(t *testing.T) { // T03: the receive loop blocks for good
	var rt RequestTable
	m := &Message{}
	m.Headers.Id.Index = 7
	rt.Put(m) // waiter gone before it waits
	done := make(chan bool, 1)
	go func() { done <- rt.Feed(&ByteArrayMessage{Headers: MessageHeaders{RelatesTo: m.Headers.Id}}) }()
	select {
	case <-done:
	case <-time.After(time.Second):
		t.Error("feed blocks")
	}
}

type failConn struct{ net.Conn }

func (failConn) Write([]byte) (int, error) { return 0, fmt.Errorf("write failed") }

func TestF_HandshakeWriteError(t *testing.T) { // X03
	mf, _ := newMessageFactory()
	c := &fabricSecureConn{rawconn: failConn{}, mf: mf}
	if _, err := c.Write([]byte{1}); err == nil {
		t.Error("write error lost")
	}
}

func TestF_DialTCPClosesOnFailure(t *testing.T) { // X04
	l, _ := net.Listen("tcp", "127.0.0.1:0")
	defer l.Close()
	closed := make(chan error, 1)
	go func() {
		c, _ := l.Accept()
		// answer the client hello with garbage, then wait for the client to hang up
		nextFrame(c, frameReadConfig{})
		writeMessageWithFrame(c, &Message{Body: []byte("garbage garbage garbage")}, frameWriteConfig{})
		c.SetReadDeadline(time.Now().Add(2 * time.Second))
		var err error
		for err == nil {
			_, err = c.Read(make([]byte, 1000))
		}
		closed <- err
	}()
	_, err := DialTCP(l.Addr().String(), ClientConfig{Config: Config{TLS: &tls.Config{InsecureSkipVerify: true}}})
	if err == nil {
		t.Fatal("no error")
	}
	if err := <-closed; err != io.EOF {
		t.Error("connection not closed:", err)
	}
}

func TestF_AppendCustomHeader(t *testing.T) { // F06
	var h MessageHeaders
	h.AppendCustomHeader(MessageHeaderIdTypeTimeout, []byte{1})
	h.AppendCustomHeader(MessageHeaderIdTypeTimeout, []byte{2})
	if n := len(h.GetCustomHeaders(MessageHeaderIdTypeTimeout)); n != 2 {
		t.Error("headers kept:", n)
	}
}

package federation

import (
	"context"
	"net"
	"testing"
	"time"

	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/transport"
)

func recovered(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

func node(t *testing.T, seeds ...SeedNodeInfo) *SiteNode {
	s, err := transport.ListenTCP("127.0.0.1:0", transport.ServerConfig{})
	if err != nil {
		t.Fatal(err)
	}
	l, _ := net.Listen("tcp", "127.0.0.1:0")
	a, err := lease.NewAgent(lease.AgentConfig{}, l, lease.TcpDialer)
	if err != nil {
		t.Fatal(err)
	}
	n, err := NewSiteNode(SiteNodeConfig{TransportServer: s, LeaseAgent: a, Instance: NodeInstance{NodeID{9, 9}, 1}, SeedNodes: seeds})
	if err != nil {
		t.Fatal(err)
	}
	return n
}

func TestF_RangeWrap(t *testing.T) { // F03
	r := NodeIdRange{NodeID{10, 0}, NodeID{2, 0}}
	if !r.Contains(NodeID{11, 0}) || !r.Contains(NodeID{1, 0}) || r.Contains(NodeID{5, 0}) {
		t.Error("wrapping range")
	}
}

func TestF_ClosestPartner(t *testing.T) { // F04
	all := func(PartnerNodeInfo) bool { return true }
	for i := 0; i < 50; i++ {
		n := node(t, SeedNodeInfo{NodeID{10, 0}, "a"}, SeedNodeInfo{NodeID{20, 0}, "b"}, SeedNodeInfo{NodeID{30, 0}, "c"})
		if p := n.closestPartnerNode(NodeID{10, 0}, all); p.Instance.Id != (NodeID{10, 0}) {
			t.Fatal("got", p.Instance.Id)
		}
		if p := n.closestPartnerNode(NodeID{9, 0}, all); p.Instance.Id != (NodeID{10, 0}) {
			t.Fatal("closest: got", p.Instance.Id)
		}
		n.Close()
	}
	n := node(t, SeedNodeInfo{NodeID{10, 0}, "a"})
	defer n.Close()
	if n.closestPartnerNode(NodeID{10, 1}, all) == nil {
		t.Error("the only partner is not found")
	}
}

func TestF_V4GeneratorNoSeparator(t *testing.T) { // F05
	if p := recovered(func() { NodeIDFromV4Generator("node") }); p != nil {
		t.Error("panic", p)
	}
}

func TestF_HexRange(t *testing.T) { // F05
	for _, s := range []string{"-1", "1ffffffffffffffffffffffffffffffff"} {
		if id, err := NodeIDFromHex(s); err == nil {
			t.Error(s, "accepted as", id)
		}
	}
}

func TestF_BootstrapEarlyPhaseChange(t *testing.T) { // F02
	n := node(t, SeedNodeInfo{NodeID{10, 0}, "127.0.0.1:1"})
	defer n.Close()
	n.clientDialer = func(addr string) (*transport.Client, error) {
		// the reply to the first ping is processed before Bootstrap starts to wait
		n.updatePartnerNode(&FederationPartnerNodeHeader{PartnerNodeInfo: PartnerNodeInfo{
			Instance: NodeInstance{NodeID{10, 0}, 1}, Phase: NodePhaseRouting}})
		return nil, net.ErrClosed
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	if err := n.Bootstrap(ctx); err != nil {
		t.Error(err)
	}
}

func TestF_RouteReleasedByClose(t *testing.T) { // X01
	l, _ := net.Listen("tcp", "127.0.0.1:0")
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			defer c.Close()
		}
	}()
	n := node(t, SeedNodeInfo{NodeID{10, 0}, l.Addr().String()})
	done := make(chan error, 1)
	go func() {
		_, err := n.Route(context.Background(), NodeID{10, 0}, &transport.Message{})
		done <- err
	}()
	time.Sleep(200 * time.Millisecond)
	n.Close()
	select {
	case err := <-done:
		if err == nil {
			t.Error("no error")
		}
	case <-time.After(time.Second):
		t.Error("route still waiting")
	}
}

func TestF_JoinError(t *testing.T) { // F08, X03
	n := node(t, SeedNodeInfo{NodeID{10, 0}, "127.0.0.1:1"})
	defer n.Close()
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	if n.Join(ctx) == nil {
		t.Error("join reports success")
	}
}

func TestF_DiscoverCancel(t *testing.T) { // X02
	n := node(t, SeedNodeInfo{NodeID{10, 0}, "127.0.0.1:1"})
	defer n.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
	defer cancel()
	st := time.Now()
	if _, err := n.Discover(ctx); err == nil || time.Since(st) > 900*time.Millisecond {
		t.Error("discover ignores its context", err, time.Since(st))
	}
}

package serialization

import (
	"encoding/hex"
	"runtime"
	"testing"
)

func recovered(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// obj wraps field bytes in an object envelope
func obj(fields ...byte) []byte {
	b := []byte{0, byte(len(fields) + 11), 0, 0, 0, 0, 0, 0, 0, 0x1f}
	b = append(b, fields...)
	return append(b, 0x2f, 0x3f)
}

func TestF_CharIntoUnsigned(t *testing.T) { // S01, S03: panic in reflect
	var u struct{ A uint8 }
	var s struct{ A int8 }
	if p := recovered(func() {
		if Unmarshal(obj(0x03, 'x'), &u) == nil {
			t.Error("char accepted for uint8")
		}
		if Unmarshal(obj(0x04, 'x'), &s) == nil {
			t.Error("uchar accepted for int8")
		}
	}); p != nil {
		t.Error("panic", p)
	}
}

func TestF_HugeString(t *testing.T) { // S01
	var s struct{ A string }
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	if Unmarshal(obj(0x8d, 0x81, 0x80, 0x80, 0x00), &s) == nil {
		t.Error("accepted")
	}
	runtime.ReadMemStats(&m1)
	if m1.TotalAlloc-m0.TotalAlloc > 1<<20 {
		t.Error("allocated", m1.TotalAlloc-m0.TotalAlloc)
	}
}

func TestF_HugeList(t *testing.T) { // S01
	var s struct{ A []uint64 }
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	if p := recovered(func() {
		if Unmarshal(obj(0x8a, 0x81, 0x80, 0x80, 0x00), &s) == nil {
			t.Error("accepted")
		}
	}); p != nil {
		t.Error("panic", p)
	}
	runtime.ReadMemStats(&m1)
	if m1.TotalAlloc-m0.TotalAlloc > 1<<20 {
		t.Error("allocated", m1.TotalAlloc-m0.TotalAlloc)
	}
}

func TestF_BackwardsObjectEnd(t *testing.T) { // S01: the object's declared end lies before its start
	type child struct{ A uint16 }
	var s struct {
		A []child
	}
	// two elements; the size of each object points back to a scope end earlier in the data
	in := obj(0x80, 0x02, // list of two objects
		0x00, 0x0b, 0, 0, 0, 0, 0, 0, 0, 0x1f, 0x06, 0x01, 0x2f, 0x3f,
		0x00, 0xfd, 0xff, 0xff, 0x7f, 0, 0, 0, 0, 0x1f, 0x06, 0x01, 0x2f, 0x3f)
	_ = in
	// well-formed first element; the second declares size 0, i.e. an end inside its own header
	in2 := obj(0x80, 0x02,
		0x00, 0x0d, 0, 0, 0, 0, 0, 0, 0, 0x1f, 0x06, 0x01, 0x2f, 0x3f,
		// header at offset h; end = h+size-2; choose size so that it points at the first element's end marker
		0x00, 0x00, 0, 0, 0, 0, 0, 0, 0, 0x1f, 0x06, 0x02, 0x2f, 0x3f)
	if err := Unmarshal(in2, &s); err == nil {
		t.Error("object that ends before it begins accepted", s)
	}
}

func TestF_WrongMarkers(t *testing.T) { // S03
	var p struct{ A *uint16 }
	if Unmarshal(obj(0x0d, 0x06, 0x05), &p) == nil {
		t.Error("non-pointer marker accepted for pointer")
	}
	var l struct{ A []uint16 }
	if Unmarshal(obj(0x0b, 0x01, 0x06, 0x05), &l) == nil {
		t.Error("double marker accepted for list")
	}
	var o struct{ A struct{ B uint16 } }
	if Unmarshal(obj(0x0b, 0x06, 0x05), &o) == nil {
		t.Error("double marker accepted for object")
	}
	var e struct{ A uint16 }
	if Unmarshal(obj(0x40|0x0d|0x80), &e) == nil {
		t.Error("empty string marker accepted for uint16")
	}
	var u struct{ A uint16 }
	if err := Unmarshal(obj(0x0a, 0x84, 0x80, 0x00), &u); err == nil && u.A == 0 {
		t.Error("uint64 65536 decoded into uint16 as", u.A)
	}
	_ = hex.EncodeToString
}

package common

import (
	"testing"
	"time"
)

func TestF_Max(t *testing.T) { // B01
	if d := TimeSpanMax.ToDuration(); d != time.Duration(1<<63-1) {
		t.Error(d)
	}
	if d := TimeSpan(-1 << 63).ToDuration(); d != time.Duration(-1<<63) {
		t.Error(d)
	}
}

//go:build go1.21

// Package vclock is the clock the instrumented adapter reads: real time plus an offset chosen by the explorer,
// per goroutine (parallel explorations), inherited by the goroutines it starts.
package vclock

import (
	"sync/atomic"
	"time"
	"unsafe"
)

// The offset lives in the goroutine's profiling label, which child goroutines inherit.

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(unsafe.Pointer)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

type label struct {
	m     map[string]string // what the profiler expects to find
	magic uint64
	off   time.Duration
	tid   int // scheduled thread, from 1
	epoch int32
	sink  interface{} // who watches this goroutine
}

const magic = 0x76636c6f636b3031

// SleepHook, if set, replaces sleeping.
var SleepHook func(time.Duration)

var slept int64

// Set moves the calling goroutine's clock to real time plus d.
func Set(d time.Duration) {
	place(d, Sink())
}

func place(d time.Duration, sink interface{}) {
	if d == 0 && sink == nil {
		setLabel(nil)
		return
	}
	setLabel(unsafe.Pointer(&label{magic: magic, off: d, sink: sink}))
}

// SetSink names the watcher of the calling goroutine and of those it starts.
func SetSink(s interface{}) { place(Offset(), s) }

// Sink returns the watcher.
func Sink() interface{} {
	if l := (*label)(getLabel()); l != nil && l.magic == magic {
		return l.sink
	}
	return nil
}

// SetThread positions the calling goroutine's clock and makes it thread tid of an execution.
func SetThread(d time.Duration, tid int, epoch int32) {
	setLabel(unsafe.Pointer(&label{magic: magic, off: d, tid: tid + 1, epoch: epoch}))
}

// Tid returns the calling goroutine's thread number in the given execution, or -1.
func Tid(epoch int32) int {
	if l := (*label)(getLabel()); l != nil && l.magic == magic && l.tid > 0 && l.epoch == epoch {
		return l.tid - 1
	}
	return -1
}

// Offset returns the calling goroutine's offset.
func Offset() time.Duration {
	if l := (*label)(getLabel()); l != nil && l.magic == magic {
		return l.off
	}
	return 0
}

// Now returns the current time of the calling goroutine.
func Now() time.Time {
	t := time.Now()
	if l := (*label)(getLabel()); l != nil && l.magic == magic {
		return t.Add(l.off)
	}
	return t
}

// Since is time.Since on this clock.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until on this clock.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep does not sleep, it records that the code wanted to.
func Sleep(d time.Duration) {
	if SleepHook != nil {
		SleepHook(d)
		return
	}
	atomic.AddInt64(&slept, int64(d))
}

// Slept returns the total requested sleep.
func Slept() time.Duration { return time.Duration(atomic.LoadInt64(&slept)) }

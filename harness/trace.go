package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

// Trace records the events of one scenario, in the order of the calls to Emit (which are made under one lock, at
// points chosen so that the order is the order in which the things became visible).
type Trace struct {
	idx  int
	out  *sink
	mu   sync.Mutex
	n    int
	dead bool
}

type sink struct {
	mu sync.Mutex
	f  *os.File
}

type ev map[string]any

func (s *sink) line(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	b = append(b, '\n')
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, err := s.f.Write(b); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write trace:", err)
		os.Exit(3)
	}
}

// Emit appends an event.  Events after a panic or hang are not recorded: the scenario ended there.
func (t *Trace) Emit(name string, e ev) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.dead {
		return
	}
	if e == nil {
		e = ev{}
	}
	e["ev"] = name
	t.n++
	t.out.line(map[string]any{"i": t.idx, "e": e})
}

func (t *Trace) kill(name string, e ev) {
	t.mu.Lock()
	if t.dead {
		t.mu.Unlock()
		return
	}
	t.mu.Unlock()
	t.Emit(name, e)
	t.mu.Lock()
	t.dead = true
	t.mu.Unlock()
}

func (t *Trace) isDead() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.dead
}

// infra reports that the harness itself could not do its work (not a verdict about the code).
func infra(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "INFRA: "+format+"\n", a...)
	os.Exit(3)
}

// hopeless ends a trace with an event that no specification has, after a wait for nothing.  A driver in which that
// happened several times leaves its other scenarios out.
func (t *Trace) hopeless(name string, e ev) {
	if e == nil {
		e = ev{}
	}
	t.kill(name, e)
	hopelessN.Add(1)
}

var hopelessN atomic.Int32

// guard runs fn, turning a panic into a "panic" event and a call that does not come back within d into "hang".
// It returns false in these two cases.
func (t *Trace) guard(what string, d time.Duration, fn func()) bool {
	done := make(chan bool, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintf(os.Stderr, "scenario %d: panic in %s: %v\n%s\n", t.idx, what, r, debug.Stack())
				t.kill("panic", ev{"in": what, "msg": fmt.Sprint(r)})
				done <- false
				return
			}
			done <- true
		}()
		fn()
	}()
	select {
	case ok := <-done:
		return ok
	case <-time.After(d):
		t.hopeless("hang", ev{"in": what})
		return false
	}
}

package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"sync"
)

// A runner drives the real code through one scenario and records what was observed.
type runner func(sc json.RawMessage, tr *Trace)

var areas = map[string]runner{}

// areaPar limits how many scenarios of an area may run at the same time (0: as many as asked for).
var areaPar = map[string]int{}

type quiet struct{}

func (quiet) Debug(string, ...any) {}
func (quiet) Error(string, ...any) {}
func (quiet) Warn(string, ...any)  {}
func (quiet) Info(string, ...any)  {}

func main() {
	in := flag.String("in", "", "scenarios (JSON array)")
	out := flag.String("out", "", "event log (one JSON object per line)")
	par := flag.Int("par", 8, "scenarios at a time")
	only := flag.Int("only", -1, "run this scenario only")
	flag.Parse()
	log.SetOutput(io.Discard)
	area := flag.Arg(0)
	run, ok := areas[area]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown area", area)
		os.Exit(3)
	}
	if areaNS[area] {
		ownNetwork()
	}
	b, err := os.ReadFile(*in)
	if err != nil {
		infra("%v", err)
	}
	var scs []json.RawMessage
	if err := json.Unmarshal(b, &scs); err != nil {
		infra("%v", err)
	}
	f, err := os.OpenFile(*out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		infra("%v", err)
	}
	s := &sink{f: f}
	if m := areaPar[area]; m != 0 && *par > m {
		*par = m
	}
	work := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < *par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range work {
				tr := &Trace{idx: i, out: s}
				s.line(map[string]any{"i": i, "start": true})
				if hopelessN.Load() >= 8 {
					s.line(map[string]any{"i": i, "skip": true})
					continue
				}
				run(scs[i], tr)
				reportRaces(tr)
				s.line(map[string]any{"i": i, "end": true})
			}
		}()
	}
	for i := range scs {
		if *only >= 0 && i != *only {
			continue
		}
		work <- i
	}
	close(work)
	wg.Wait()
}

package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"
)

// In a driver built with the race detector, two accesses to the same memory by the code under test, at the same time and one
// of them a write, are an event of the scenario in which they were found.  (Scenarios run one at a time then.)

var raceSeen int
var raceFn = regexp.MustCompile(`(?m)danomagnum/gologix\.(.*)\(\)$`)

func reportRaces(tr *Trace) {
	base := os.Getenv("VERIF_RACE_LOG")
	if base == "" {
		return
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", base, os.Getpid()))
	if err != nil || len(b) <= raceSeen {
		return
	}
	text := string(b[raceSeen:])
	raceSeen = len(b)
	for _, rep := range strings.Split(text, "==================") {
		i := strings.Index(rep, "Previous ")
		if !strings.Contains(rep, "DATA RACE") || i < 0 {
			continue
		}
		a, z := rep[:i], rep[i:]
		if j := strings.Index(z, "\nGoroutine "); j >= 0 {
			z = z[:j]
		}
		x, y := raceFn.FindStringSubmatch(a), raceFn.FindStringSubmatch(z)
		if x != nil && y != nil {
			tr.Emit("race", ev{"a": x[1], "b": y[1]})
		}
	}
}

//go:build go1.25

package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/itstarsun/go-thrift/zzverifsim/simrt"
)

// The race engine is the harness built with Go's race detector, which sees the code under test but neither
// the harness nor the hand-overs of the simulator. Its reports come through a log file.

const raceModule = "github.com/itstarsun/go-thrift/"

func raceEnv(dir string) string {
	return "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=4 log_path=" + filepath.Join(dir, "race")
}

var (
	raceSeen int
	raceLog  *os.File
)

// raceCheck reports the first race of the run, if both accesses come from the code under test.
func raceCheck() *simrt.Violation {
	n := simrt.RaceCount()
	if n == raceSeen {
		return nil
	}
	raceSeen = n
	if raceLog == nil {
		_, path, ok := strings.Cut(os.Getenv("GORACE"), "log_path=")
		if !ok {
			return nil
		}
		f, err := os.Open(fmt.Sprintf("%s.%d", path, os.Getpid()))
		if err != nil {
			return nil
		}
		raceLog = f
	}
	b, _ := io.ReadAll(raceLog)
	for _, rep := range strings.Split(string(b), "WARNING: DATA RACE")[1:] {
		if m := raceOf(rep); m != "" {
			return &simrt.Violation{Class: "data-race", Msg: m}
		}
	}
	return nil
}

var raceHead = regexp.MustCompile(`^(Previous )?(atomic )?(write|read|Write|Read|Atomic write|Atomic read) at 0x`)

// raceOf says what raced with what, or nothing if the harness or the simulator has a part in it.
func raceOf(rep string) string {
	var acc []string
	for _, sec := range strings.Split(rep, "\n\n") {
		lines := strings.Split(strings.TrimSpace(sec), "\n")
		if !raceHead.MatchString(lines[0]) {
			continue
		}
		fn, at := "", ""
		for i := 1; i+1 < len(lines); i += 2 {
			f := strings.TrimSpace(lines[i])
			if strings.HasPrefix(f, "main.") {
				// The runtime reports what it does for the harness (append, copy) too, but not what orders it.
				return ""
			}
			if strings.HasPrefix(f, raceModule) {
				fn = strings.TrimSuffix(f[len(raceModule):], "()")
				at, _, _ = strings.Cut(strings.TrimSpace(lines[i+1]), " +0x")
				break
			}
		}
		if fn == "" || strings.HasPrefix(fn, "zzverifsim/") {
			return ""
		}
		kind := strings.ToLower(lines[0][:strings.Index(lines[0], " at 0x")])
		acc = append(acc, fmt.Sprintf("%s in %s (%s)", kind, fn, filepath.Base(at)))
	}
	if len(acc) < 2 {
		return ""
	}
	return strings.Join(acc, ", ") + ": nothing orders the two"
}

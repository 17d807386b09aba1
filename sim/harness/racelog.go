package main

import (
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

// The race detector writes its reports to a file whose name starts with what
// SIMRACELOG holds (see the driver), followed by the process id.
var raceLogAt int64

// takeRaceReport returns a summary of what the race detector wrote since the
// last call: the places of both accesses, without addresses.
func takeRaceReport() string {
	base := os.Getenv("SIMRACELOG")
	if base == "" {
		return ""
	}
	b, err := os.ReadFile(base + "." + strconv.Itoa(os.Getpid()))
	if err != nil || int64(len(b)) <= raceLogAt {
		return ""
	}
	s := string(b[raceLogAt:])
	raceLogAt = int64(len(b))
	return summarizeRace(s)
}

var raceFrame = regexp.MustCompile(`(?m)^  ([^\s(][^\n]*)\(\)\n\s+([^\n]+):(\d+) \+`)
var raceHead = regexp.MustCompile(`(?m)^(Write|Read|Previous write|Previous read|Atomic [^\n]*|Previous atomic [^\n]*) (at|by) [^\n]*\n`)

func summarizeRace(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if j := strings.Index(s, "=================="); j > 0 {
		s = s[:j]
	}
	if j := strings.Index(s, "\nGoroutine "); j > 0 {
		s = s[:j]
	}
	var parts []string
	hs := raceHead.FindAllStringSubmatchIndex(s, -1)
	for k, h := range hs {
		end := len(s)
		if k+1 < len(hs) {
			end = hs[k+1][0]
		}
		what := strings.ToLower(s[h[2]:h[3]])
		var fr []string
		for _, m := range raceFrame.FindAllStringSubmatch(s[h[1]:end], -1) {
			if strings.Contains(m[1], "simverif/") {
				break
			}
			fn := m[1]
			if x := strings.LastIndexByte(fn, '/'); x >= 0 {
				fn = fn[x+1:]
			}
			fr = append(fr, fn+" "+filepath.Base(strings.TrimPrefix(m[2], "src_"))+":"+m[3])
			if len(fr) == 3 {
				break
			}
		}
		parts = append(parts, what+" in "+strings.Join(fr, " < "))
	}
	return strings.Join(parts, "; ")
}

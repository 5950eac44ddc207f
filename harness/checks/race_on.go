//go:build race

package checks

import (
	"os"
	"runtime"
	"strconv"
	"strings"
)

const raceBuild = true

// races counts reports of races inside the library.
func races() int {
	n := 0
	for _, r := range raceReports() {
		if !strings.Contains(r, "PlatONnetwork/tecdsa") {
			panic("harness: race outside the library: " + r)
		}
		n++
	}
	if runtime.RaceErrors() > 0 && n == 0 {
		panic("harness: the report of the race detector is not there")
	}
	return n
}

func raceReports() []string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			b, _ := os.ReadFile(p + "." + strconv.Itoa(os.Getpid()))
			return strings.Split(string(b), "WARNING: DATA RACE")[1:]
		}
	}
	return nil
}

// raceReport describes the last race.
func raceReport() string {
	rs := raceReports()
	var fs []string
	for _, l := range strings.Split(rs[len(rs)-1], "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, " at 0x") || strings.HasSuffix(l, "()") && len(fs) < 14 {
			fs = append(fs, l)
		}
	}
	return strings.Join(fs, " | ")
}

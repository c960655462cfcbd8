package core

import (
	"fmt"
	"os"
	"strings"

	"verifsim/sim"
)

// With the race detector, its reports go to a file of each process.

var raceLog = raceLogName()
var raceAt int64

func raceLogName() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if s, ok := strings.CutPrefix(f, "log_path="); ok {
			return fmt.Sprintf("%s.%d", s, os.Getpid())
		}
	}
	return ""
}

func raceEnv(dir string) []string {
	if !sim.RaceEnabled {
		return nil
	}
	return []string{"GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 history_size=4 log_path=" + dir + "/race"}
}

// raceReport is what was reported since it was called before.
func raceReport() string {
	if raceLog == "" {
		return ""
	}
	buf, err := os.ReadFile(raceLog)
	if err != nil {
		return ""
	}
	if int64(len(buf)) < raceAt {
		raceAt = 0
	}
	s := string(buf[raceAt:])
	raceAt = int64(len(buf))
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/simkit/") || strings.Contains(l, "verifsim") {
			continue
		}
		out = append(out, l)
		if len(out) >= 50 {
			break
		}
	}
	return strings.Join(out, "\n")
}

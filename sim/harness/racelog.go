package harness

import (
	"fmt"
	"os"
	"strings"
)

// raceLog reads what the race detector of this process reports.
type raceLog struct {
	path string
	off  int
}

func newRaceLog() *raceLog {
	return &raceLog{path: fmt.Sprintf("%s.%d", os.Getenv("VSIM_RACELOG"), os.Getpid())}
}

// next returns a description of the first new report in which code of the
// module under test takes part ("" when there is none).
func (l *raceLog) next() string {
	b, err := os.ReadFile(l.path)
	if err != nil || len(b) <= l.off {
		return ""
	}
	text := string(b[l.off:])
	l.off = len(b)
	for _, rep := range strings.Split(text, "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		var sides []string
		gofre := 0
		for _, sec := range strings.Split(rep, "\n\n") {
			sec = strings.TrimPrefix(strings.TrimLeft(sec, "\n"), "WARNING: DATA RACE\n")
			low := strings.ToLower(sec)
			if !strings.HasPrefix(low, "read at") && !strings.HasPrefix(low, "write at") &&
				!strings.HasPrefix(low, "previous read") && !strings.HasPrefix(low, "previous write") {
				continue
			}
			kind := strings.Fields(strings.TrimPrefix(low, "previous "))[0]
			where, mod := side(sec)
			if where == "" {
				sides = nil
				break
			}
			if mod {
				gofre++
			}
			sides = append(sides, kind+" in "+where)
		}
		if len(sides) >= 2 && gofre > 0 {
			return "unsynchronised accesses from different goroutines: " + sides[0] + " / " + sides[1]
		}
	}
	return ""
}

// side names the function responsible for an access: the innermost frame
// outside the standard library. It is "" for the simulator itself, which hides
// its own synchronisation from the detector.
func side(sec string) (where string, mod bool) {
	for _, f := range strings.Split(sec, "\n")[1:] {
		f = strings.TrimSpace(f)
		i := strings.LastIndex(f, "(")
		if i <= 0 || strings.HasPrefix(f, "/") {
			continue
		}
		switch {
		case strings.HasPrefix(f, "github.com/ixtendio/gofre"):
			return f[:i], true
		case strings.HasPrefix(f, "verifsim/harness"):
			return f[:i], false
		case strings.HasPrefix(f, "verifsim/simrt.") && strings.Contains(f, "Iter"):
			// iterates a map on behalf of its caller
		case strings.HasPrefix(f, "verifsim/"), strings.HasPrefix(f, "testing"):
			return "", false
		}
	}
	return "", false
}

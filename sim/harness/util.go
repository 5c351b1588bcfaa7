package harness

import (
	"encoding/json"
	"os"
	"reflect"
	"runtime"
	"strings"
	"time"
)

func runtimeStack(b []byte) int    { return runtime.Stack(b, false) }
func runtimeStackAll(b []byte) int { return runtime.Stack(b, true) }

const hour = 3600 * 1e9 * time.Nanosecond

var sites []string

func loadSites() {
	if p := os.Getenv("VSIM_SITES"); p != "" {
		if b, err := os.ReadFile(p); err == nil {
			sites = strings.Split(string(b), "\n")
		}
	}
}

func siteName(s int32) string {
	if s >= 0 && int(s) < len(sites) {
		return sites[s]
	}
	return "?"
}

// sameJSON says whether two documents are the same value.
func sameJSON(a []byte, b string) bool {
	var x, y any
	return json.Unmarshal(a, &x) == nil && json.Unmarshal([]byte(b), &y) == nil && reflect.DeepEqual(x, y)
}

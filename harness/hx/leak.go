package hx

import (
	"runtime"
	"strings"
)

// Leaked counts goroutines created by the packages under test, beyond those
// in the given base set; base maps goroutine headers' ids.
func HealthGoroutines() map[string]string {
	out := map[string]string{}
	for _, g := range strings.Split(AllStacks(), "\n\n") {
		if strings.Contains(g, "created by github.com/gocraft/health") {
			id := strings.SplitN(g, " [", 2)[0]
			out[id] = g
		}
	}
	return out
}

// NewLeaks returns how many goroutines created by the code under test exist
// that are not in base.
func NewLeaks(base map[string]string) int {
	n := 0
	for id := range HealthGoroutines() {
		if _, ok := base[id]; !ok {
			n++
		}
	}
	return n
}

// AllStacks returns the stacks of all goroutines.
func AllStacks() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return string(buf[:n])
		}
		buf = make([]byte, 2*len(buf))
	}
}

package core

import (
	"testing"

	"verif/hx"
)

func TestDrive(t *testing.T) {
	hx.Main(t, map[string]hx.Driver{
		"poll":     Poll,
		"stream":   Stream,
		"merge":    Merge,
		"statsd":   Statsd,
		"statsdq":  StatsdQ,
		"writer":   Writer,
		"pollconc": PollConc,
	})
}

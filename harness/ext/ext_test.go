package ext

import (
	"testing"

	"verif/hx"
)

func TestDrive(t *testing.T) {
	hx.Main(t, map[string]hx.Driver{
		"bugsnag": Bugsnag,
		"librato": Librato,
		"runtime": Runtime,
		"life":    Life,
		"lifesrv": LifeSrv,
		"mix":     Mix,
	})
}

package stk

import (
	"testing"

	"verif/hx"
)

func TestDrive(t *testing.T) {
	hx.Main(t, map[string]hx.Driver{"stack": Stack})
}

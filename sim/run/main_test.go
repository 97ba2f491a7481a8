package run

import (
	"flag"
	"os"
	"testing"

	"verif/sim/core"
	_ "verif/sim/props"
)

var body func(t *testing.T)

func TestSim(t *testing.T) {
	if body != nil {
		body(t)
	}
}

func TestMain(m *testing.M) {
	flag.Parse()
	os.Exit(core.Main(func(f func(t *testing.T)) int {
		body = f
		return m.Run()
	}))
}

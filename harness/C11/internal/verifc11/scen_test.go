package verifc11

import (
	"testing"

	"github.com/bab-sh/bab/internal/verifh"
)

// TestVerifScenarios: random Babfiles run by the real binary against the model in verifh/bb.go.
func TestVerifScenarios(t *testing.T) {
	r := verifh.New("a random Babfile (with includes) in which at least one command or log item is reached; distinct file texts")
	defer r.Done()
	if err := verifh.RunScenarios(r, "C11", verifh.Profile{Kinds: verifh.K("echo", "show"), Tasks: 4, Items: 3, PDeps: .3, PTask: .4, PPar: .3, PVis: .5, PFail: .05, PIncl: .3}, verifh.N(2500, 40000)); err != nil {
		t.Fatal(err)
	}
}

package verifc13

import (
	"testing"

	"github.com/bab-sh/bab/internal/verifh"
)

// TestVerifScenarios: random Babfiles run by the real binary against the model in verifh/bb.go.
func TestVerifScenarios(t *testing.T) {
	r := verifh.New("a random Babfile (with includes) in which at least one command or log item is reached; distinct file texts")
	defer r.Done()
	if err := verifh.RunScenarios(r, "C13", verifh.Profile{Kinds: verifh.K("run", "once", "end", "limit", "name", "exit"), OneBlock: true, Tasks: 5, Items: 2, PDeps: .15, PTask: .3, PLog: .1, PWhen: .1, PPlat: .1, PPar: .2, PFail: .15, PIncl: .1, Sleep: true}, verifh.N(2000, 40000)); err != nil {
		t.Fatal(err)
	}
}

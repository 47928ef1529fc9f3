package verifc04

import (
	"testing"

	"github.com/bab-sh/bab/internal/verifh"
)

// TestVerifScenarios: random Babfiles run by the real binary against the model in verifh/bb.go.
func TestVerifScenarios(t *testing.T) {
	r := verifh.New("a random Babfile (with includes) in which at least one command or log item is reached; distinct file texts")
	defer r.Done()
	if err := verifh.RunScenarios(r, "C04", verifh.Profile{Kinds: verifh.K("run", "once", "order", "end", "vars"), Tasks: 4, Items: 6, PDeps: .2, PTask: .25, PLog: .2, PPrompt: .2, PWhen: .4, PTWhen: .1, PPlat: .35, PPar: .25, PFail: .1, PBad: .2, PIncl: .1, Sleep: true}, verifh.N(2500, 40000)); err != nil {
		t.Fatal(err)
	}
}

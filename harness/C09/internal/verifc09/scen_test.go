package verifc09

import (
	"testing"

	"github.com/bab-sh/bab/internal/verifh"
)

// TestVerifScenarios: random Babfiles run by the real binary against the model in verifh/bb.go.
func TestVerifScenarios(t *testing.T) {
	r := verifh.New("a random Babfile (with includes) in which at least one command or log item is reached; distinct file texts")
	defer r.Done()
	if err := verifh.RunScenarios(r, "C09", verifh.Profile{Kinds: verifh.K("env"), Tasks: 3, Items: 3, PDeps: .2, PTask: .3, PPrompt: .1, PPar: .25, PEnv: .7, PBad: .05, PIncl: .4}, verifh.N(2500, 40000)); err != nil {
		t.Fatal(err)
	}
}

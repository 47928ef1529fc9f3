package verifc17

import (
	"testing"

	"github.com/bab-sh/bab/internal/verifh"
)

// TestVerifScenarios: random Babfiles run by the real binary against the model in verifh/bb.go.
func TestVerifScenarios(t *testing.T) {
	r := verifh.New("a random Babfile (with includes) in which at least one command or log item is reached; distinct file texts")
	defer r.Done()
	if err := verifh.RunScenarios(r, "C17", verifh.Profile{Kinds: verifh.K("vars", "run"), Tasks: 3, Items: 6, PDeps: .2, PTask: .2, PLog: .3, PPrompt: .5, PWhen: .3, PPar: .2, PIncl: .1}, verifh.N(2500, 40000)); err != nil {
		t.Fatal(err)
	}
}

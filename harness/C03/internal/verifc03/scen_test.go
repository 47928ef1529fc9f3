package verifc03

import (
	"testing"

	"github.com/bab-sh/bab/internal/verifh"
)

// TestVerifScenarios: random Babfiles run by the real binary against the model in verifh/bb.go.
func TestVerifScenarios(t *testing.T) {
	r := verifh.New("a random Babfile (with includes) in which at least one command or log item is reached; distinct file texts")
	defer r.Done()
	if err := verifh.RunScenarios(r, "C03", verifh.Profile{Kinds: verifh.K("run"), Tasks: 3, Items: 5, PDeps: .2, PTask: .2, PLog: .3, PPrompt: .15, PWhen: .8, PTWhen: .5, PPar: .2, PBad: .2, PIncl: .1}, verifh.N(2500, 40000)); err != nil {
		t.Fatal(err)
	}
}

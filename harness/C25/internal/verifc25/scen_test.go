package verifc25

import (
	"testing"

	"github.com/bab-sh/bab/internal/verifh"
)

// TestVerifScenarios: random Babfiles run by the real binary against the model in verifh/bb.go.
func TestVerifScenarios(t *testing.T) {
	r := verifh.New("a random Babfile (with includes) in which at least one command or log item is reached; distinct file texts")
	defer r.Done()
	if err := verifh.RunScenarios(r, "C25", verifh.Profile{Kinds: verifh.K("exit"), Tasks: 5, Items: 4, PDeps: .35, PTask: .35, PLog: .1, PPrompt: .15, PWhen: .2, PTWhen: .1, PPlat: .2, PPar: .3, PFail: .15, PBad: .3, PEnv: .1, PDir: .1, PIncl: .2}, verifh.N(2500, 40000)); err != nil {
		t.Fatal(err)
	}
}

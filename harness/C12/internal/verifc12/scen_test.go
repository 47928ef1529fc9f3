package verifc12

import (
	"testing"

	"github.com/bab-sh/bab/internal/verifh"
)

// TestVerifScenarios: random Babfiles run by the real binary against the model in verifh/bb.go.
func TestVerifScenarios(t *testing.T) {
	r := verifh.New("a random Babfile run with -n; nothing may be executed")
	defer r.Done()
	if err := verifh.RunScenarios(r, "C12", verifh.Profile{Kinds: verifh.K("dry"), DryRun: true, Tasks: 5, Items: 4, PDeps: .4, PTask: .4, PLog: .2, PPrompt: .15, PPar: .4, PWhen: .1, PIncl: .3}, verifh.N(2500, 40000)); err != nil {
		t.Fatal(err)
	}
}

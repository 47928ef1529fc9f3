package verifc05

import (
	"testing"

	"github.com/bab-sh/bab/internal/verifh"
)

// TestVerifScenarios: random Babfiles run by the real binary against the model in verifh/bb.go.
func TestVerifScenarios(t *testing.T) {
	r := verifh.New("a random Babfile (with includes) in which at least one command or log item is reached; distinct file texts")
	defer r.Done()
	if err := verifh.RunScenarios(r, "C05", verifh.Profile{Kinds: verifh.K("run", "once", "order", "end", "exit"), Tasks: 8, Items: 3, PDeps: .7, PTask: .6, PLog: .05, PWhen: .1, PTWhen: .15, PPar: .45, PFail: .06, PIncl: .15, Sleep: true}, verifh.N(2500, 40000)); err != nil {
		t.Fatal(err)
	}
}

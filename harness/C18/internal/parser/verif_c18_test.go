package parser_test

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/bab-sh/bab/internal/parser"
	"github.com/bab-sh/bab/internal/verifh"
	"github.com/bab-sh/bab/internal/verifload"
)

// TestVerifLoad: random Babfile texts are loaded and compared field by field with
// what was written; texts with one planted fault must be rejected.
func TestVerifLoad(t *testing.T) {
	r := verifh.New("a random Babfile text (block and flow style), with or without one planted fault; distinct texts")
	defer r.Done()
	root := verifh.Scratch()
	defer os.RemoveAll(root)
	p := filepath.Join(root, "Babfile")
	m := filepath.Join(root, "Main")
	if err := os.WriteFile(m, []byte("includes:\n  ns:\n    babfile: Babfile\ntasks:\n  main:\n    run:\n      - cmd: echo\n"), 0o644); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < verifh.N(20000, 400000); i++ {
		fault := ""
		if r.Intn(2) == 0 {
			fault = verifload.Faults[r.Intn(len(verifload.Faults))]
		}
		d := verifload.Gen(r, fault)
		if err := os.WriteFile(p, []byte(d.Text), 0o644); err != nil {
			t.Fatal(err)
		}
		pr, err := parser.Parse(p)
		r.Case(d.Text)
		if fault != "" {
			if err == nil {
				r.Violation("accepted", "a Babfile with the fault "+fault+" was accepted", map[string]any{"babfile": d.Text})
			}
			if r.Intn(4) == 0 { // an error in an included file is not dropped either
				if _, err := parser.Parse(m); err == nil {
					r.Violation("accepted", "an included Babfile with the fault "+fault+" was accepted", map[string]any{"babfile": d.Text})
				}
			}
		} else if err != nil {
			r.Violation("rejected", "a valid Babfile was rejected: "+err.Error(), map[string]any{"babfile": d.Text})
		} else if got, want := verifload.JSON(verifload.Canon(pr, true)), verifload.JSON(d.Want); got != want {
			r.Violation("content", fmt.Sprintf("the loaded file differs from the text: %s", verifload.Diff(got, want)), map[string]any{"babfile": d.Text})
		}
		if r.Violations() > 3 {
			return
		}
	}
}

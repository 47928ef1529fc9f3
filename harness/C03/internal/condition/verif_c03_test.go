package condition_test

import (
	"fmt"
	"testing"

	"github.com/bab-sh/bab/internal/condition"
	"github.com/bab-sh/bab/internal/interpolate"
	"github.com/bab-sh/bab/internal/verifh"
)

// TestVerifEvaluate compares Evaluate on conditions of known structure.
func TestVerifEvaluate(t *testing.T) {
	r := verifh.New("a random non-empty condition of known structure and random variable values; distinct (condition, values)")
	defer r.Done()
	vals := []string{"", "a", "b", "false", "FALSE", " false", "true", "a == 'a'", `a" == "a`, "x' != 'x", "a b", "==", "'a'", `"`, "${{ x }}", "$${{ x }}", " a ", "\t", "0", "no", "é"}
	for i := 0; i < verifh.N(120000, 2500000); i++ {
		vars := map[string]string{}
		for _, k := range []string{"x", "y", "z"} {
			if r.Intn(12) > 0 {
				vars[k] = vals[r.Intn(len(vals))]
			}
		}
		op := func(right bool) string {
			s := ""
			for k := r.Intn(2); k >= 0; k-- {
				s += verifh.Pick(r, "${{ x }}", "${{y}}", "${{ z }}", "a", "b", "false", "true", "x-1", "$${{ x }}", "é", "a b")
			}
			if right && r.Intn(8) == 0 {
				return ""
			}
			return s
		}
		var c *verifh.Cond
		if r.Intn(5) < 3 {
			c = &verifh.Cond{Cmp: true, L: op(false), R: op(true), Q: verifh.Pick(r, "'", `"`), LQ: verifh.Pick(r, "", "", "'", `"`), Op: verifh.Pick(r, "==", "!="), Sp: verifh.Pick(r, " ", "", "  ", "\t"), Out: verifh.Pick(r, "", "", " ")}
			if r.Intn(8) == 0 && c.R != "" {
				c.R += verifh.Pick(r, " == ", " != ") + "b"
			}
		} else {
			c = &verifh.Cond{T: verifh.Pick(r, op(false), " "+op(false)+" ", "", " ", "false", "False ", "${{ x }}", "${{ x }}${{ y }}")}
		}
		want, werr := c.Eval(vars, nil)
		got, gerr := condition.Evaluate(c.Text(), interpolate.NewContext(vars))
		key := ""
		if c.Text() != "" {
			key = c.Text() + fmt.Sprintf("%q", vars)
		}
		r.Case(key)
		if (werr == nil) != (gerr == nil) || werr == nil && want != got.ShouldRun {
			r.Violation("when", fmt.Sprintf("Evaluate(%q) with %q = %v, %v; the property says %v, %v", c.Text(), vars, got.ShouldRun, gerr, want, werr), map[string]any{"condition": c.Text(), "vars": vars})
		}
		if r.Violations() > 3 {
			return
		}
	}
}

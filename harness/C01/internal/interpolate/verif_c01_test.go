package interpolate_test

import (
	"fmt"
	"os"
	"testing"

	"github.com/bab-sh/bab/internal/interpolate"
	"github.com/bab-sh/bab/internal/verifh"
)

// TestVerifInterpolate compares Interpolate with the scanner in verifh.Interp.
func TestVerifInterpolate(t *testing.T) {
	r := verifh.New("a text containing at least one ${{ and a random variable map; distinct (text, outcome)")
	defer r.Done()
	env := map[string]string{"VA": "va ${{ x }}", "VB": "$${{ y }}", "V_2": "", "Va.b": "dotted"}
	for k, v := range env {
		os.Setenv(k, v)
	}
	os.Unsetenv("VNONE")
	pieces := []string{"$", "{", "}", "${{", "}}", "$${{", " ", "\t", "\n", "x", "y", "zz", "a.b", "env.VA", "env.VB", "env.VNONE", "env.V_2", "env.Va.b", "env.", "ENV.VA", "${{ x }}", "${{y}}", "${{  zz\t}}", "${{ env.VA }}", "${{ env.VB}}", "${{ a.b }}", "_", "9", "é", "\x00", "\xff", "\u00a0", "$1", "\\", "${{ nosuch }}", "${{ nosuch2 }}", "-", "{{", "\v", "${x}", "${{ x", "env.VA }}"}
	vals := []string{"", "v", "${{ y }}", "$${{ x }}", "$1${1}", "}}", "${{", "$", "\n", "é\xff", "a b"}
	names := []string{"x", "y", "zz", "a.b", "_", "env", "ENV.VA"}
	n := verifh.N(150000, 3000000)
	for i := 0; i < n; i++ {
		s := ""
		for k := r.Intn(7); k >= 0; k-- {
			s += pieces[r.Intn(len(pieces))]
		}
		vars := map[string]string{}
		for _, nm := range names {
			if r.Intn(6) > 0 {
				vars[nm] = vals[r.Intn(len(vals))]
			}
		}
		want, werr := verifh.Interp(s, vars, env)
		cp := map[string]string{}
		for k, v := range vars {
			cp[k] = v
		}
		got, gerr := interpolate.Interpolate(s, interpolate.NewContext(vars))
		key := ""
		if len(verifh.Refs(s)) > 0 {
			key = s
		}
		r.Case(key)
		if (werr == nil) != (gerr == nil) || werr == nil && got != want {
			r.Violation("interpolate", fmt.Sprintf("Interpolate(%q) = %q, %v; the property says %q, %v", s, got, gerr, want, werr), map[string]any{"vars": vars, "text": s})
		}
		if gerr != nil && !namesUndefined(gerr.Error(), s, vars) {
			r.Violation("error", fmt.Sprintf("Interpolate(%q): the error %q names no undefined variable", s, gerr), map[string]any{"vars": vars})
		}
		if fmt.Sprint(cp) != fmt.Sprint(vars) {
			r.Violation("mutated", fmt.Sprintf("Interpolate(%q) changed the variables", s), nil)
		}
		if r.Violations() > 3 {
			return
		}
	}
}

func namesUndefined(msg, s string, vars map[string]string) bool {
	for _, n := range verifh.Refs(s) {
		if _, ok := vars[n]; !ok && contains(msg, n) {
			return true
		}
	}
	return false
}

func contains(a, b string) bool {
	for i := 0; i+len(b) <= len(a); i++ {
		if a[i:i+len(b)] == b {
			return true
		}
	}
	return false
}

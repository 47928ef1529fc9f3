package interpolate_test

import (
	"fmt"
	"os"
	"reflect"
	"testing"
	"time"

	"github.com/bab-sh/bab/internal/interpolate"
	"github.com/bab-sh/bab/internal/verifh"
)

// TestVerifResolve compares ResolveVars with verifh.Resolve on random definitions
// (chains, cycles, overrides, undefined names) over random parent scopes.
func TestVerifResolve(t *testing.T) {
	r := verifh.New("a random set of definitions with at least one reference over a random parent scope; distinct (definitions, parent)")
	defer r.Done()
	env := map[string]string{"VA": "va ${{ a }}"}
	os.Setenv("VA", env["VA"])
	names := []string{"a", "b", "c", "d", "e", "f"}
	n := verifh.N(60000, 1500000)
	for i := 0; i < n; i++ {
		mk := func(max int, refs bool) map[string]string {
			m := map[string]string{}
			for k := r.Intn(max + 1); k > 0; k-- {
				v := ""
				for j := r.Intn(3); j >= 0; j-- {
					switch x := r.Intn(8); {
					case x < 3 && refs:
						v += "${{ " + names[r.Intn(len(names))] + " }}"
					case x == 3 && refs:
						v += "$${{ " + names[r.Intn(len(names))] + " }}"
					case x == 4:
						v += "${{ env.VA }}"
					default:
						v += verifh.Pick(r, "x", "", "y z", "$", "}}", "$1")
					}
				}
				m[names[r.Intn(len(names))]] = v
			}
			return m
		}
		vars, parent := mk(5, true), mk(4, true)
		if r.Intn(20) == 0 {
			vars = nil
		}
		if r.Intn(20) == 0 {
			parent = nil
		}
		desc := fmt.Sprintf("vars %q parent %q", vars, parent)
		pc, vc := clone(parent), clone(vars)
		want, werr := verifh.Resolve(vars, parent, env)
		type res struct {
			m   map[string]string
			err error
		}
		ch := make(chan res, 1)
		go func() {
			m, err := interpolate.ResolveVarsWithLocation(vars, parent, "f", 1)
			ch <- res{m, err}
		}()
		var g res
		select {
		case g = <-ch:
		case <-time.After(20 * time.Second):
			r.Violation("hang", "ResolveVars did not return: "+desc, map[string]any{"vars": vc, "parent": pc})
			return
		}
		key := ""
		if len(vars) > 0 {
			key = desc
		}
		r.Case(key)
		det := map[string]any{"vars": vc, "parent": pc, "got": g.m, "want": want, "error": fmt.Sprint(g.err), "want_error": fmt.Sprint(werr)}
		switch {
		case (werr == nil) != (g.err == nil):
			r.Violation("resolve", fmt.Sprintf("ResolveVars(%s): error %v, the property says %v", desc, g.err, werr), det)
		case werr == nil && !(len(want) == 0 && len(g.m) == 0) && !reflect.DeepEqual(want, g.m):
			r.Violation("resolve", fmt.Sprintf("ResolveVars(%s) = %q, the property says %q", desc, g.m, want), det)
		}
		if werr != nil && g.m != nil {
			r.Violation("partial", "ResolveVars returned values together with an error: "+desc, det)
		}
		if !reflect.DeepEqual(pc, clone(parent)) {
			r.Violation("parent", "ResolveVars changed the parent scope: "+desc, det)
		}
		if g.err == nil && g.m != nil && parent != nil {
			g.m["zzz"] = "1"
			for k := range g.m {
				g.m[k] = "changed"
			}
			if !reflect.DeepEqual(pc, clone(parent)) {
				r.Violation("alias", "changing the result changed the parent scope: "+desc, det)
			}
		}
		if r.Violations() > 3 {
			return
		}
	}
}

func clone(m map[string]string) map[string]string {
	o := map[string]string{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

package main

import (
	_ "embed"
	"go/types"
	"regexp/syntax"

	"golang.org/x/tools/go/ssa"
)

//go:embed stdmodel/stdmodel.go
var stdModelSrc []byte

const stdModelDir = "internal/verifmodel"

// library functions whose model is written in Go (see stdmodel/)
var goModels = map[string]string{
	"(*regexp.Regexp).ReplaceAllStringFunc": "RegexpReplaceAllStringFunc",
}

var goModelFns = map[string]*ssa.Function{}

func indexGoModels(prog *ssa.Program) {
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == repoPrefix+"/"+stdModelDir {
			for _, n := range goModels {
				goModelFns[n] = p.Func(n)
			}
		}
	}
}

func normRegex(p string) string {
	r, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return p
	}
	return r.Simplify().String()
}

// contentTypes: specification types for the contents of a map.
var contentTypes = map[string]*types.Named{}
var contentOfMap = map[string]types.Type{}

func contentType(m types.Type) *types.Named {
	k := typeName(m.Underlying())
	if n, ok := contentTypes[k]; ok {
		return n
	}
	n := types.NewNamed(types.NewTypeName(0, nil, "content<"+k+">", nil), types.NewStruct(nil, nil), nil)
	contentTypes[k] = n
	contentOfMap["content<"+k+">"] = m.Underlying()
	return n
}

func contentBase(t types.Type) types.Type {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == nil {
		return contentOfMap[n.Obj().Name()]
	}
	return nil
}

func contentLeaves(m types.Type) []Leaf {
	ks := mapKeySort(m)
	_, vt := mapKV(m)
	out := []Leaf{{"#dom", arr(ks, SBool), m, ""}}
	for _, l := range leavesOf(vt) {
		out = append(out, Leaf{"#val" + l.path, arr(ks, l.sort), m, ""})
	}
	return out
}

// content gives the contents of a map value.
func (ex *Exec) content(st *State, m Val) Val {
	ct := contentType(m.T)
	ls := contentLeaves(m.T.Underlying())
	r := m.L[0]
	v := Val{T: ct}
	if r.op == "int" && r.ival == 0 {
		v.L = append(v.L, ConstArr(ls[0].sort, tFalse))
		for _, l := range ls[1:] {
			v.L = append(v.L, ConstArr(l.sort, zeroOf(l.sort)))
		}
		return v
	}
	dom := st.mapDom(m.T, r)
	if r.op != "int" && !isTopRef(r) && !st.facts[Not(Eq(r, Int(0)))] && !st.facts[Gt(r, Int(0))] {
		dom = Ite(Eq(r, Int(0)), ConstArr(ls[0].sort, tFalse), dom)
	}
	v.L = append(v.L, dom)
	for i, x := range st.mapVals(m.T, r) {
		l := ls[i+1]
		if r.op != "int" && !isTopRef(r) && !st.facts[Not(Eq(r, Int(0)))] && !st.facts[Gt(r, Int(0))] {
			x = Ite(Eq(r, Int(0)), ConstArr(l.sort, zeroOf(l.sort)), x)
		}
		if x.op != "constarr" {
			ks, _ := arrParts(l.sort)
			q := QVar("k", ks)
			e := App("select", elemSort(l.sort), x, q)
			st.assume(Forall([]*Term{q}, Imp(Not(App("select", SBool, dom, q)), App("=", SBool, e, zeroOf(l.sort))), []*Term{e}))
		}
		v.L = append(v.L, x)
	}
	return v
}

func zeroOf(arrSort string) *Term { return zeroTerm(Leaf{sort: elemSort(arrSort)}) }

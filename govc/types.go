package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Leaf is one scalar component of a Go value.
type Leaf struct {
	path string
	sort string
	t    types.Type // Go type of the component the leaf belongs to (for refs: the ref type)
	role string     // "", "ref", "slen", "soff", "scap", "sarr", "tag", "pay", "str", "func", "brf"
}

// external struct types that are transparent (all fields visible)
var transparent = map[string]bool{
	"gopkg.in/yaml.v3.Node":                    true,
	"github.com/charmbracelet/x/exp/term.Size": true,
}

var intLeafStructs = map[string]bool{}

var strLeafStructs = map[string]bool{"strings.Builder": true, "bytes.Buffer": true}

var repoPrefix = "github.com/bab-sh/bab"

func isRepoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == repoPrefix || strings.HasPrefix(p.Path(), repoPrefix+"/"))
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// structOf returns the visible struct of t (nil when opaque or not a struct).
func structOf(t types.Type) *types.Struct {
	if contentBase(t) != nil {
		return nil
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if p := n.Obj().Pkg(); p != nil && !isRepoPkg(p) {
			nm := typeName(t)
			if strLeafStructs[nm] {
				return nil
			}
			if transparent[nm] || specTransparent[nm] {
				return s
			}
			return nil
		}
	}
	return s
}

var specTransparent = map[string]bool{}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

var leafCache = map[string][]Leaf{}

func leavesOf(t types.Type) []Leaf {
	k := typeName(t)
	if l, ok := leafCache[k]; ok {
		return l
	}
	l := leaves0(t)
	leafCache[k] = l
	return l
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func leaves0(t types.Type) []Leaf {
	if m := contentBase(t); m != nil {
		return contentLeaves(m)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, t, ""}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SStr, t, ""}}
		}
		return []Leaf{{"", SInt, t, "num"}}
	case *types.Pointer, *types.Map, *types.Chan:
		return []Leaf{{"", SInt, t, "ref"}}
	case *types.Signature:
		return []Leaf{{"", SInt, t, "func"}}
	case *types.Slice:
		if isByteSlice(t) {
			return []Leaf{{"#str", SStr, t, "str"}, {"#arr", SInt, t, "brf"}}
		}
		return []Leaf{{"#arr", SInt, t, "sarr"}, {"#off", SInt, t, "soff"}, {"#len", SInt, t, "slen"}, {"#cap", SInt, t, "scap"}}
	case *types.Interface:
		return []Leaf{{"#tag", SInt, t, "tag"}, {"#pay", SInt, t, "pay"}}
	case *types.Struct:
		if strLeafStructs[typeName(t)] {
			return []Leaf{{"", SStr, t, ""}}
		}
		s := structOf(t)
		if s == nil {
			return []Leaf{{"", SInt, t, "num"}}
		}
		var out []Leaf
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			for _, l := range leavesOf(f.Type()) {
				p := f.Name()
				if l.path != "" {
					if strings.HasPrefix(l.path, "#") {
						p += l.path
					} else {
						p += "." + l.path
					}
				}
				out = append(out, Leaf{p, l.sort, l.t, l.role})
			}
		}
		return out
	case *types.Array:
		n := int(u.Len())
		if n > 64 {
			unsup("large array type %s", t)
		}
		var out []Leaf
		for i := 0; i < n; i++ {
			for _, l := range leavesOf(u.Elem()) {
				p := fmt.Sprintf("[%d]", i)
				if l.path != "" {
					p += "." + l.path
				}
				out = append(out, Leaf{p, l.sort, l.t, l.role})
			}
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leavesOf(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf("%d.%s", i, l.path), l.sort, l.t, l.role})
			}
		}
		return out
	}
	if isTypeParam(t) {
		unsup("type parameter %s", t)
	}
	unsup("type %s", t)
	return nil
}

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

// fieldRange gives the leaf range of field i of struct type t.
func fieldRange(t types.Type, i int) (int, int) {
	s := structOf(t)
	if s == nil {
		unsup("field of opaque struct %s", typeName(t))
	}
	lo := 0
	for j := 0; j < i; j++ {
		lo += len(leavesOf(s.Field(j).Type()))
	}
	return lo, lo + len(leavesOf(s.Field(i).Type()))
}

func tupleRange(t *types.Tuple, i int) (int, int) {
	lo := 0
	for j := 0; j < i; j++ {
		lo += len(leavesOf(t.At(j).Type()))
	}
	return lo, lo + len(leavesOf(t.At(i).Type()))
}

// type ids for interface tags
var (
	typeIDs   = map[string]int64{}
	typeByID  = map[int64]types.Type{}
	idCounter int64
)

func typeID(t types.Type) int64 {
	k := typeName(types.Unalias(t))
	if id, ok := typeIDs[k]; ok {
		return id
	}
	idCounter++
	typeIDs[k] = idCounter
	typeByID[idCounter] = t
	return idCounter
}

// Val is a Go value: its leaves, and for pointers with a statically known
// target inside another object, that address.
type Val struct {
	T types.Type
	L []*Term
	A *Addr
	X any
}

func (v Val) String() string {
	var b []string
	for _, l := range v.L {
		b = append(b, l.String())
	}
	if v.A != nil {
		b = append(b, "@"+v.A.String())
	}
	return "<" + strings.Join(b, ",") + ">"
}

// Addr is a memory location: a (sub)object of a heap object, or a slice element.
type Addr struct {
	ref   *Term      // object
	owner types.Type // type of the whole object ( element type for elem )
	elem  bool
	idx   *Term
	path  string // leaf path prefix within owner
	lo    int    // leaf range in owner
	t     types.Type
}

func (a *Addr) String() string {
	if a.elem {
		return fmt.Sprintf("%s[%s].%s", a.ref, a.idx, a.path)
	}
	return fmt.Sprintf("%s.%s", a.ref, a.path)
}

func term1(t types.Type, x *Term) Val { return Val{T: t, L: []*Term{x}} }

func zeroTerm(l Leaf) *Term {
	switch l.sort {
	case SBool:
		return tFalse
	case SStr:
		return Str("")
	}
	return Int(0)
}

func zeroVal(t types.Type) Val {
	ls := leavesOf(t)
	v := Val{T: t, L: make([]*Term, len(ls))}
	for i, l := range ls {
		v.L[i] = zeroTerm(l)
	}
	return v
}

var (
	tyString = types.Typ[types.String]
	tyInt    = types.Typ[types.Int]
	tyBool   = types.Typ[types.Bool]
	tyByteSl = types.NewSlice(types.Typ[types.Uint8])
	tyError  = types.Universe.Lookup("error").Type()
)

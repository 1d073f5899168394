package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"mkverif/ai"
	"mkverif/sym"
)

// Counters: integers in memory that the repository computes from their own former
// value (x.n++, atomic additions, n = (n+1) % k).  How often they were stepped
// before a scenario begins is not known, so scenarios begin with an arbitrary
// value of each.

type fieldKey struct {
	t types.Type
	i int
}

func place(v ssa.Value) (k fieldKey, g *ssa.Global) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fieldKey{x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field}, nil
	case *ssa.Global:
		return k, x
	}
	return
}

// counters lists the fields and package variables that are stepped.
func (c *Ctx) counters() (map[fieldKey]bool, map[*ssa.Global]bool) {
	if c.cntF != nil {
		return c.cntF, c.cntG
	}
	c.cntF, c.cntG = map[fieldKey]bool{}, map[*ssa.Global]bool{}
	integer := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	mark := func(addr ssa.Value) {
		k, g := place(addr)
		if g != nil {
			c.cntG[g] = true
		} else if k.t != nil {
			c.cntF[k] = true
		}
	}
	for _, fn := range c.functions() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					k, g := place(x.Addr)
					if (k.t != nil || g != nil) && integer(x.Val.Type()) && stepped(x.Val, k, g, false, map[ssa.Value]bool{}) {
						mark(x.Addr)
					}
				case ssa.CallInstruction:
					f := x.Common().StaticCallee()
					if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync/atomic" || len(x.Common().Args) == 0 {
						continue
					}
					if n := f.Name(); len(n) >= 3 && n[:3] == "Add" || n == "Swap" || n == "Store" {
						mark(x.Common().Args[0])
					}
				}
			}
		}
	}
	return c.cntF, c.cntG
}

// stepped: the value is computed from what the place holds.
func stepped(v ssa.Value, k fieldKey, g *ssa.Global, op bool, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.BinOp:
		return stepped(x.X, k, g, true, seen) || stepped(x.Y, k, g, true, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			k2, g2 := place(x.X)
			return op && k2 == k && g2 == g
		}
		return stepped(x.X, k, g, true, seen)
	case *ssa.Convert:
		return stepped(x.X, k, g, op, seen)
	case *ssa.ChangeType:
		return stepped(x.X, k, g, op, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if stepped(e, k, g, op, seen) {
				return true
			}
		}
	}
	return false
}

// Call calls a function; an evaluating object it makes counts as used for an unknown
// number of times.
func (e *Env) Call(pkg, recv, name string, args ...ai.Value) ai.Value {
	v := e.World.Call(pkg, recv, name, args...)
	switch name {
	case "NewEncryptor", "NewDecryptor", "NewEvaluator", "NewKeyGenerator", "NewKeySwitcher", "NewFastBasisExtender", "NewDecomposer":
		if e.base != nil {
			e.widen(vals{"new": v})
		}
	}
	return v
}

// widen gives every counter reachable from the roots and every counting package
// variable an arbitrary value.
func (e *Env) widen(roots vals) {
	fs, gs := e.c.counters()
	if len(fs)+len(gs) == 0 {
		return
	}
	any := func(old ai.Value) ai.Value {
		if _, ok := old.(ai.I); !ok {
			return old
		}
		e.junk++
		return ai.X{E: sym.Red(sym.Atom(fmt.Sprintf("calls%d", e.junk)), sym.Int(1<<40))}
	}
	reach := e.ReachAll(roots)
	var os []*ai.Obj
	for o := range reach {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].ID < os[j].ID })
	for _, o := range os {
		e.M.S.Mem[o] = e.widenIn(o.T, e.M.S.Mem[o], fs, any)
	}
	var list []*ssa.Global
	for g := range gs {
		list = append(list, g)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].String() < list[j].String() })
	for _, g := range list {
		o := e.M.Global(g)
		v := any(e.M.S.Mem[o])
		if w, ok := v.(*ai.Agg); ok { // an atomic integer
			z := &ai.Agg{V: append([]ai.Value{}, w.V...)}
			for j := range z.V {
				z.V[j] = any(z.V[j])
			}
			v = z
		}
		e.M.S.Mem[o] = v
	}
}

func (e *Env) widenIn(t types.Type, v ai.Value, fs map[fieldKey]bool, any func(ai.Value) ai.Value) ai.Value {
	a, ok := v.(*ai.Agg)
	if !ok {
		return v
	}
	n := &ai.Agg{V: append([]ai.Value{}, a.V...)}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := range n.V {
			if fs[fieldKey{t, i}] {
				n.V[i] = any(n.V[i])
				if w, ok := n.V[i].(*ai.Agg); ok { // an atomic integer
					z := &ai.Agg{V: append([]ai.Value{}, w.V...)}
					for j := range z.V {
						z.V[j] = any(z.V[j])
					}
					n.V[i] = z
				}
			} else if i < u.NumFields() {
				n.V[i] = e.widenIn(u.Field(i).Type(), n.V[i], fs, any)
			}
		}
	case *types.Array:
		for i := range n.V {
			n.V[i] = e.widenIn(u.Elem(), n.V[i], fs, any)
		}
	case *types.Slice:
		for i := range n.V {
			n.V[i] = e.widenIn(u.Elem(), n.V[i], fs, any)
		}
	}
	return n
}

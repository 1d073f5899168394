package chk

import (
	"fmt"
	"sort"
	"strings"

	"mkverif/ai"
)

// objRefs calls f for every object a value refers to directly.
func objRefs(v ai.Value, f func(o *ai.Obj)) {
	switch x := v.(type) {
	case *ai.Ptr:
		f(x.O)
	case ai.Slice:
		if x.O != nil {
			f(x.O)
		}
	case ai.MapV:
		if x.O != nil {
			f(x.O)
		}
	case *ai.MapC:
		for k, w := range x.V {
			objRefs(w, f)
			objRefs(x.K[k], f)
		}
	case *ai.Agg:
		for _, w := range x.V {
			objRefs(w, f)
		}
	case ai.Tup:
		for _, w := range x {
			objRefs(w, f)
		}
	case ai.Iface:
		objRefs(x.V, f)
	case *ai.Clo:
		for _, w := range x.Binds {
			objRefs(w, f)
		}
	case ai.Clo:
		for _, w := range x.Binds {
			objRefs(w, f)
		}
	case *ai.Bound:
		objRefs(x.Recv, f)
	case ai.Bound:
		objRefs(x.Recv, f)
	case *ai.Sel:
		objRefs(x.A, f)
		objRefs(x.B, f)
	}
}

// Reach is the set of objects reachable from values, each with the name of a root.
func (e *Env) Reach(roots map[string]ai.Value) map[*ai.Obj]string {
	out := map[*ai.Obj]string{}
	var names []string
	for n := range roots {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		var todo []*ai.Obj
		add := func(o *ai.Obj) {
			if o == nil {
				return
			}
			if _, ok := out[o]; !ok {
				out[o] = n
				todo = append(todo, o)
			}
		}
		v := roots[n]
		if v == nil {
			continue
		}
		if e.RlSet != nil && ai.Same(v, e.RlSet) { // the key set also owns scratch memory
			v = e.M.Get(v, "Value")
		}
		objRefs(v, add)
		for len(todo) > 0 {
			o := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			objRefs(e.M.S.Mem[o], add)
		}
	}
	return out
}

// Freeze records the content of everything reachable from the roots.
type Frozen struct {
	name map[*ai.Obj]string
	val  map[*ai.Obj]ai.Value
}

func (e *Env) Freeze(roots map[string]ai.Value) *Frozen {
	f := &Frozen{e.Reach(roots), map[*ai.Obj]ai.Value{}}
	for o := range f.name {
		f.val[o] = e.M.S.Mem[o]
	}
	return f
}

// Changed decides that nothing recorded has changed.
func (e *Env) Unchanged(rule, an string, f *Frozen) bool {
	bad := map[string][]string{}
	for o := range f.name {
		if ai.Same(f.val[o], e.M.S.Mem[o]) {
			continue
		}
		w := ""
		if p, ok := e.M.LastW[o]; ok {
			w = " written at " + e.where(p)
		}
		bad[f.name[o]] = append(bad[f.name[o]], fmt.Sprintf("%s%s", o.T, w))
	}
	if len(bad) == 0 {
		return e.c.Ok(rule, an, true, "")
	}
	var ss []string
	for n, l := range bad {
		sort.Strings(l)
		if len(l) > 3 {
			l = append(l[:3], fmt.Sprintf("and %d more", len(l)-3))
		}
		ss = append(ss, n+": "+strings.Join(l, "; "))
	}
	sort.Strings(ss)
	return e.c.Ok(rule, an, false, "the call changes %s", strings.Join(ss, "; "))
}

// Disjoint decides that a result shares no memory with the given roots.
func (e *Env) Disjoint(rule, an string, out ai.Value, roots map[string]ai.Value) bool {
	mine := e.Reach(map[string]ai.Value{"result": out})
	theirs := e.ReachAll(roots)
	var bad []string
	seen := map[string]bool{}
	for o := range mine {
		if n, ok := theirs[o]; ok && !immutable(e.M.S.Mem[o]) {
			s := fmt.Sprintf("%s (%s, allocated in %s at %s)", n, o.T, o.Fn, e.where(o.Pos))
			if !seen[s] {
				seen[s] = true
				bad = append(bad, s)
			}
		}
	}
	if len(bad) == 0 {
		return e.c.Ok(rule, an, true, "")
	}
	sort.Strings(bad)
	if len(bad) > 4 {
		bad = bad[:4]
	}
	return e.c.Ok(rule, an, false, "the result shares memory with %s", strings.Join(bad, "; "))
}

// Apart decides that no coefficient memory is reached from a result in two ways,
// so changing one part of the result changes no other.
func (e *Env) Apart(rule, an string, out ai.Value) bool {
	type ref struct {
		o       *ai.Obj
		path    []int
		lo, hi  int // elements of the array at path, all of it if hi is 0
		refered string
	}
	seen := map[*ai.Obj]bool{}
	var refs []ref
	var walk func(v ai.Value, name string) bool // whether v leads to coefficients
	holds := map[*ai.Obj]bool{}
	enter := func(o *ai.Obj, name string) bool {
		if !seen[o] {
			seen[o] = true
			holds[o] = walk(e.M.S.Mem[o], name)
		}
		return holds[o]
	}
	walk = func(v ai.Value, name string) bool {
		h := false
		switch x := v.(type) {
		case *ai.Row:
			return true
		case *ai.Agg:
			for i, w := range x.V {
				h = walk(w, fmt.Sprintf("%s.%d", name, i)) || h
			}
		case *ai.MapC:
			for _, k := range x.SortedKeys() {
				h = walk(x.V[k], fmt.Sprintf("%s[%s]", name, e.show(x.K[k]))) || h
			}
		case ai.Tup:
			for i, w := range x {
				h = walk(w, fmt.Sprintf("%s %d", name, i)) || h
			}
		case ai.Iface:
			return walk(x.V, name)
		case ai.MapV:
			if h = enter(x.O, name); h {
				refs = append(refs, ref{x.O, nil, 0, 0, name})
			}
		case *ai.Ptr:
			if h = enter(x.O, name); h {
				refs = append(refs, ref{x.O, x.Path, 0, 0, name})
			}
		case ai.Slice:
			if h = x.O != nil && x.Len > 0 && enter(x.O, name); h {
				refs = append(refs, ref{x.O, x.Path, x.Off, x.Off + x.Len, name})
			}
		}
		return h
	}
	walk(out, "result")
	by := map[*ai.Obj][]ref{}
	var bad []string
	for _, r := range refs {
		for _, q := range by[r.o] {
			if apart(r.path, q.path) { // different parts of one object
				continue
			}
			if len(r.path) == len(q.path) && r.hi > 0 && q.hi > 0 && (r.lo >= q.hi || q.lo >= r.hi) {
				continue
			}
			bad = append(bad, fmt.Sprintf("%s and %s are one piece of memory (allocated in %s at %s)", q.refered, r.refered, r.o.Fn, e.where(r.o.Pos)))
		}
		by[r.o] = append(by[r.o], r)
	}
	if len(bad) == 0 {
		return e.c.Ok(rule, an, true, "")
	}
	if len(bad) > 3 {
		bad = bad[:3]
	}
	return e.c.Ok(rule, an, false, "%s", strings.Join(bad, "; "))
}

// apart tells paths to parts of an object neither of which lies within the other.
func apart(p, q []int) bool {
	for i := 0; i < len(p) && i < len(q); i++ {
		if p[i] != q[i] {
			return true
		}
	}
	return false
}

func (e *Env) show(v ai.Value) string { return ai.Show(v) }

// ReachAll is Reach without the exception for scratch memory.
func (e *Env) ReachAll(roots map[string]ai.Value) map[*ai.Obj]string {
	rl := e.RlSet
	e.RlSet = nil
	defer func() { e.RlSet = rl }()
	return e.Reach(roots)
}

// immutable: memory without any content.
func immutable(v ai.Value) bool {
	a, ok := v.(*ai.Agg)
	return ok && len(a.V) == 0
}

// Owned are the roots of the environment: parameters, keys, evaluating objects.
func (e *Env) Owned() map[string]ai.Value {
	m := map[string]ai.Value{"the parameters": e.Params, "the secret keys": e.SkSet, "the public keys": e.PkSet, "the rotation keys": e.RkSet,
		"the conjugation keys": e.CkSet, "the relinearization keys": e.RlSet}
	for id, r := range e.R {
		m["the randomness of "+id] = r
	}
	return m
}

// Workers are the evaluating objects.
func (e *Env) Workers() map[string]ai.Value {
	return map[string]ai.Value{"the evaluator": e.Eval, "the encryptor": e.Enc, "the decryptor": e.Dec, "the key switcher": e.Ks, "the key generator": e.Kg}
}

func merge(ms ...map[string]ai.Value) map[string]ai.Value {
	out := map[string]ai.Value{}
	for _, m := range ms {
		for k, v := range m {
			if v != nil {
				out[k] = v
			}
		}
	}
	return out
}

package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"mkverif/sym"

	"golang.org/x/tools/go/ssa"
)

// ---- post-dominators ----

type pdInfo struct{ ipdom []*ssa.BasicBlock }

// postdoms computes immediate post-dominators, ignoring paths that end in a panic.
func (m *Machine) postdoms(fn *ssa.Function) *pdInfo {
	if p, ok := m.pdoms[fn]; ok {
		return p
	}
	n := len(fn.Blocks)
	// reaches a return?
	live := make([]bool, n)
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			if live[b.Index] {
				continue
			}
			ok := false
			if _, r := b.Instrs[len(b.Instrs)-1].(*ssa.Return); r {
				ok = true
			}
			for _, s := range b.Succs {
				ok = ok || live[s.Index]
			}
			if ok {
				live[b.Index] = true
				ch = true
			}
		}
	}
	// pd[b] = set of post-dominators (bitset); exit is virtual index n
	all := make([]bool, n+1)
	for i := range all {
		all[i] = true
	}
	pd := make([][]bool, n)
	for i := range pd {
		pd[i] = append([]bool(nil), all...)
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if !live[i] {
				continue
			}
			cur := append([]bool(nil), all...)
			if _, r := b.Instrs[len(b.Instrs)-1].(*ssa.Return); r {
				for k := range cur {
					cur[k] = k == n
				}
			} else {
				for _, s := range b.Succs {
					if live[s.Index] {
						for k := range cur {
							cur[k] = cur[k] && pd[s.Index][k]
						}
					}
				}
			}
			cur[i] = true
			for k := range cur {
				if cur[k] != pd[i][k] {
					ch = true
				}
			}
			pd[i] = cur
		}
	}
	cnt := func(i int) int {
		c := 0
		for _, x := range pd[i] {
			if x {
				c++
			}
		}
		return c
	}
	info := &pdInfo{make([]*ssa.BasicBlock, n)}
	for i := range fn.Blocks {
		if !live[i] {
			continue
		}
		best, bc := -1, -1
		for k := 0; k < n; k++ {
			if k != i && pd[i][k] && live[k] {
				if c := cnt(k); c > bc {
					best, bc = k, c
				}
			}
		}
		if best >= 0 {
			info.ipdom[i] = fn.Blocks[best]
		}
	}
	m.pdoms[fn] = info
	return info
}

// ---- function calls ----

type outcome struct {
	ret  Value
	done bool // returned (otherwise: reached the stop block, phis evaluated)
}

func (m *Machine) CallFn(fn *ssa.Function, args []Value, binds []Value) Value {
	m.Calls++
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if m.OnCall != nil {
		m.OnCall(fn, args, m.Pos())
	}
	if mod, ok := m.Models[name]; ok {
		return mod(m, fn, args)
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" {
		return Tup{}
	}
	if len(fn.Blocks) == 0 {
		m.undecided("no model of %s", name)
	}
	if !m.interpretable(fn) {
		m.undecided("no model of %s", name)
	}
	if m.P.InRepo(fn) {
		m.Funcs[name] = true
	}
	if len(m.frames) > 200 {
		m.undecided("call depth exceeded in %s", name)
	}
	fr := &Frame{Fn: fn, Env: map[ssa.Value]Value{}, Pos: fn.Pos(), Args: args}
	for i, p := range fn.Params {
		fr.Env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.Env[p] = binds[i]
	}
	m.frames = append(m.frames, fr)
	nf := len(m.frames)
	var o outcome
	if defers(fn) {
		o = m.runDeferring(fr, nf)
	} else {
		o = m.run(fr, fn.Blocks[0], nil, nil)
	}
	m.frames = m.frames[:nf-1]
	return o.ret
}

func defers(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

// recovers reports whether fn calls the builtin recover itself.
func recovers(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if u, ok := c.Common().Value.(*ssa.Builtin); ok && u.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// pending reports whether a function on the stack has deferred calls left to run (rec: one that recovers).
func (m *Machine) pending(rec bool) bool {
	for _, f := range m.frames {
		for _, d := range f.Defers {
			if !rec || d.recovers {
				return true
			}
		}
	}
	return false
}

// runDeferring runs the body of a function that defers calls: a panic runs those that are pending and,
// if none of them recovers it, goes on to the caller.
func (m *Machine) runDeferring(fr *Frame, nf int) (o outcome) {
	catch := func(f func()) {
		defer func() {
			if r := recover(); r != nil {
				p, ok := r.(*AbsPanic)
				if !ok {
					panic(r)
				}
				m.frames = m.frames[:nf]
				fr.Panic = p
			}
		}()
		f()
	}
	catch(func() { o = m.run(fr, fr.Fn.Blocks[0], nil, nil) })
	if fr.Panic == nil {
		return o
	}
	for len(fr.Defers) > 0 {
		catch(func() { m.popDefer(fr) })
	}
	if fr.Panic != nil {
		panic(fr.Panic)
	}
	if fr.Fn.Recover == nil {
		m.undecided("function without a recover block")
	}
	return m.run(fr, fr.Fn.Recover, nil, nil)
}

func (m *Machine) popDefer(fr *Frame) {
	d := fr.Defers[len(fr.Defers)-1]
	fr.Defers = fr.Defers[:len(fr.Defers)-1]
	d.call()
}

// recovered is the builtin recover, called by the function on top of the stack.
func (m *Machine) recovered() Value {
	if len(m.frames) < 2 {
		return Nil{}
	}
	fr := m.frames[len(m.frames)-2]
	p := fr.Panic
	if p == nil {
		return Nil{}
	}
	fr.Panic = nil
	if p.Val != nil {
		return p.Val
	}
	return m.errValue(p.Msg)
}

func (m *Machine) interpretable(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	var path string
	switch {
	case f.Package() != nil:
		path = f.Package().Pkg.Path()
	case f.Object() != nil && f.Object().Pkg() != nil:
		path = f.Object().Pkg().Path()
	case f.Origin() != nil && f.Origin().Package() != nil:
		path = f.Origin().Package().Pkg.Path()
	default:
		return true // synthetic wrappers
	}
	if strings.HasPrefix(path, m.P.Mod) || strings.HasPrefix(path, Lattigo) {
		return true
	}
	return stdInterp[path]
}

var stdInterp = map[string]bool{"sort": true, "slices": true, "maps": true, "cmp": true, "strings": true,
	"unicode/utf8": true, "errors": true, "math/bits": true, "internal/bytealg": true, "iter": true, "math/cmplx": true, "internal/race": true, "sync/atomic": true, "internal/stringslite": true}

// run executes from block b (entered from prev) until a return or until stop is reached.
func (m *Machine) run(fr *Frame, b, prev, stop *ssa.BasicBlock) outcome {
	skipPhi := false
	for {
		// phis
		if !skipPhi {
			var vals []Value
			var phis []*ssa.Phi
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, pr := range b.Preds {
					if pr == prev {
						vals = append(vals, m.val(fr, p.Edges[i]))
						break
					}
				}
				phis = append(phis, p)
			}
			for i, p := range phis {
				fr.Env[p] = vals[i]
			}
			if b == stop && prev != nil {
				return outcome{}
			}
		}
		skipPhi = false
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			m.Fuel--
			m.Instrs++
			if m.Fuel < 0 {
				m.undecided("step budget exhausted (a loop whose bound the analysis cannot see)")
			}
			if p := in.Pos(); p.IsValid() {
				fr.Pos = p
			}
			switch x := in.(type) {
			case *ssa.Phi:
			case *ssa.If:
				c := m.val(fr, x.Cond)
				if s, ok := c.(*Sel); ok {
					ea, _ := ToE(s.A)
					eb, _ := ToE(s.B)
					if ea != nil && eb != nil {
						c = XB{sym.Ite(s.C, ea, eb)}
					}
				}
				switch cv := c.(type) {
				case B:
					if cv {
						next = b.Succs[0]
					} else {
						next = b.Succs[1]
					}
				case XB:
					m.steer("branches", cv.E)
					if k, ok := m.known(cv.E); ok {
						if k {
							next = b.Succs[0]
						} else {
							next = b.Succs[1]
						}
						break
					}
					o, at := m.fork(fr, b, cv.E, stop)
					if at == nil {
						return o
					}
					if at == stop {
						return outcome{}
					}
					next = at
					skipPhi = true
				default:
					m.undecided("branch on %T %v", c, c)
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				var r Value
				switch len(x.Results) {
				case 0:
					r = Tup{}
				case 1:
					r = m.val(fr, x.Results[0])
				default:
					t := make(Tup, len(x.Results))
					for i, v := range x.Results {
						t[i] = m.val(fr, v)
					}
					r = t
				}
				return outcome{ret: r, done: true}
			case *ssa.Panic:
				v := m.val(fr, x.X)
				m.text(v)
				panic(&AbsPanic{Pos: m.Pos(), Fn: m.fnName(), Msg: showPanic(v), Explicit: true, Val: v})
			default:
				m.step(fr, in)
			}
		}
		if next == nil {
			m.undecided("block without successor")
		}
		prev, b = b, next
	}
}

// steer reports data that decides where the analysed repository goes on.
func (m *Machine) steer(how string, e *sym.E) {
	if m.OnSteer != nil && len(m.frames) > 0 && m.P.InRepo(m.frames[len(m.frames)-1].Fn) {
		m.OnSteer(how, e)
	}
}

func showPanic(v Value) string {
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	if s, ok := v.(S); ok {
		return string(s)
	}
	return fmt.Sprint(v)
}

// fork runs both sides of an undecided branch up to the immediate post-dominator and joins.
// It returns the block at which execution continues (phis already evaluated), or nil and the joined return value.
func (m *Machine) fork(fr *Frame, b *ssa.BasicBlock, c *sym.E, outer *ssa.BasicBlock) (outcome, *ssa.BasicBlock) {
	m.Forks++
	if m.Forks > 60000 {
		m.undecided("too many undecided branches (last condition %s)", trunc(c.String(), 200))
	}
	j := m.postdoms(m.frames[len(m.frames)-1].Fn).ipdom[b.Index]
	if j == nil && outer != nil {
		// both ways leave the enclosing region by returning or panicking
	}
	type side struct {
		st  *State
		env map[ssa.Value]Value
		o   outcome
		pan *AbsPanic
		dfr []deferred
	}
	base, env, dfr := m.S, fr.Env, fr.Defers
	nf := len(m.frames)
	pos := m.Pos()
	do := func(val bool, succ *ssa.BasicBlock) (s side) {
		m.S = base.clone()
		fr.Defers = dfr
		fr.Env = make(map[ssa.Value]Value, len(env))
		for k, v := range env {
			fr.Env[k] = v
		}
		old, had := m.pc[c]
		m.pc[c] = val
		defer func() {
			if had {
				m.pc[c] = old
			} else {
				delete(m.pc, c)
			}
			if r := recover(); r != nil {
				if p, ok := r.(*AbsPanic); ok {
					s.pan, s.st, s.dfr = p, m.S, fr.Defers
					m.frames = m.frames[:nf]
					return
				}
				panic(r)
			}
		}()
		s.o = m.run(fr, succ, b, j)
		s.st, s.env, s.dfr = m.S, fr.Env, fr.Defers
		return
	}
	x := do(true, b.Succs[0])
	y := do(false, b.Succs[1])
	if x.pan != nil && y.pan != nil {
		m.S, fr.Defers = x.st, x.dfr
		if m.pending(false) {
			if len(x.dfr) != len(y.dfr) {
				m.undecided("deferred calls depend on data")
			}
			m.S = m.join(c, x.st, y.st)
		}
		panic(x.pan)
	}
	if x.pan != nil || y.pan != nil {
		if fr.Defers = x.dfr; y.pan != nil {
			fr.Defers = y.dfr
		}
		if m.pending(true) {
			m.undecided("a panic that data decides may be recovered")
		}
		s, p, cc := x, y.pan, sym.Not(c)
		if x.pan != nil {
			s, p, cc = y, x.pan, c
		}
		p2 := *p
		p2.Msg += " (possible: when " + trunc(cc.String(), 300) + ", branch at " + pos + ")"
		m.Panics = append(m.Panics, &p2)
		m.S, fr.Env, fr.Defers = s.st, s.env, s.dfr
		if s.o.done {
			return s.o, nil
		}
		return outcome{}, j
	}
	if x.o.done != y.o.done {
		m.undecided("branch sides end differently")
	}
	if len(x.dfr) != len(y.dfr) || len(x.dfr) != 0 && &x.dfr[len(x.dfr)-1] != &y.dfr[len(y.dfr)-1] {
		m.undecided("deferred calls depend on data")
	}
	fr.Defers = x.dfr
	m.S = m.join(c, x.st, y.st)
	if x.o.done {
		fr.Env = x.env
		return outcome{ret: m.sel(c, x.o.ret, y.o.ret), done: true}, nil
	}
	ne := make(map[ssa.Value]Value, len(x.env))
	for k, v := range x.env {
		if w, ok := y.env[k]; ok {
			ne[k] = m.sel(c, v, w)
		}
	}
	fr.Env = ne
	return outcome{}, j
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- operands ----

func (m *Machine) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		return Nil{}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return B(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		return S(constant.StringVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return I(i)
		}
		u, _ := constant.Uint64Val(v)
		return I(int64(u))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return F(f)
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return Cx{F(re), F(im)}
	}
	return Nil{}
}

func (m *Machine) val(fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return m.constVal(x)
	case *ssa.Global:
		return m.global(x)
	case *ssa.Function:
		return &Clo{Fn: x}
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.Env[v]
	if !ok {
		m.undecided("value %s = %s is not available", v.Name(), v)
	}
	return r
}

// Global is the memory of a package variable.
func (m *Machine) Global(g *ssa.Global) *Obj { return m.global(g).(*Ptr).O }

func (m *Machine) global(g *ssa.Global) Value {
	o, ok := m.Globals[g]
	if !ok {
		t := g.Type().(*types.Pointer).Elem()
		o = &Obj{ID: -1 - len(m.Globals), T: t, Note: "global " + g.Name()}
		m.Globals[g] = o
		m.S.Mem[o] = m.zero(t)
	}
	if _, ok := m.S.Mem[o]; !ok {
		m.S.Mem[o] = m.zero(o.T)
	}
	return &Ptr{O: o}
}

// InitPackages interprets the package initialisers of the given packages.
func (m *Machine) InitPackages(paths ...string) {
	for _, p := range paths {
		q := m.P.pkg(p)
		if q == nil {
			continue
		}
		for _, mem := range q.Members {
			if g, ok := mem.(*ssa.Global); ok {
				m.global(g)
			}
		}
		f := q.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		fr := &Frame{Fn: f, Env: map[ssa.Value]Value{}}
		m.frames = append(m.frames, fr)
		m.run(fr, f.Blocks[0], nil, nil)
		m.frames = m.frames[:len(m.frames)-1]
	}
}

// ---- instructions ----

func (m *Machine) step(fr *Frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		o := m.New(t, m.zero(t), x.Comment)
		fr.Env[x] = &Ptr{O: o}
	case *ssa.BinOp:
		fr.Env[x] = m.binop(x.Op, m.val(fr, x.X), m.val(fr, x.Y), x.X.Type(), x.Type())
	case *ssa.UnOp:
		fr.Env[x] = m.unop(x, m.val(fr, x.X))
	case *ssa.Call:
		fr.Env[x] = m.call(fr, &x.Call)
	case *ssa.ChangeInterface:
		fr.Env[x] = m.val(fr, x.X)
	case *ssa.ChangeType:
		fr.Env[x] = m.val(fr, x.X)
	case *ssa.Convert:
		fr.Env[x] = m.convert(m.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.Env[x] = m.convert(m.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		t := m.val(fr, x.Tuple)
		fr.Env[x] = m.extract(t, x.Index)
	case *ssa.Field:
		fr.Env[x] = m.field(m.val(fr, x.X), x.Field)
	case *ssa.FieldAddr:
		fr.Env[x] = m.fieldAddr(m.val(fr, x.X), x.Field)
	case *ssa.Index:
		fr.Env[x] = m.index(m.val(fr, x.X), m.val(fr, x.Index))
	case *ssa.IndexAddr:
		fr.Env[x] = m.indexAddr(m.val(fr, x.X), m.val(fr, x.Index))
	case *ssa.Lookup:
		fr.Env[x] = m.lookup(m.val(fr, x.X), m.val(fr, x.Index), x.X.Type(), x.CommaOk)
	case *ssa.MakeClosure:
		c := &Clo{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.Binds = append(c.Binds, m.val(fr, b))
		}
		fr.Env[x] = c
	case *ssa.MakeInterface:
		v := m.val(fr, x.X)
		fr.Env[x] = Iface{x.X.Type(), v}
	case *ssa.MakeMap:
		o := m.New(x.Type(), &MapC{K: map[string]Value{}, V: map[string]Value{}}, "map")
		fr.Env[x] = MapV{o}
	case *ssa.MakeSlice:
		n, c := m.intOf(m.val(fr, x.Len)), m.intOf(m.val(fr, x.Cap))
		if n < 0 || c < n || c > 1<<20 {
			m.fault("makeslice: len %d cap %d out of range", n, c)
		}
		fr.Env[x] = m.MakeSlice(x.Type().Underlying().(*types.Slice).Elem(), n, c)
	case *ssa.MapUpdate:
		m.mapUpdate(m.val(fr, x.Map), m.val(fr, x.Key), m.val(fr, x.Value))
	case *ssa.Range:
		fr.Env[x] = m.rangeIter(m.val(fr, x.X))
	case *ssa.Next:
		fr.Env[x] = m.next(fr, x)
	case *ssa.Slice:
		fr.Env[x] = m.slice(fr, x)
	case *ssa.SliceToArrayPointer:
		s, ok := m.val(fr, x.X).(Slice)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if !ok || s.Len < n {
			m.fault("slice to array pointer conversion out of range")
		}
		fr.Env[x] = &Ptr{O: s.O, Path: sub(s.Path, s.Off), View: n}
	case *ssa.Store:
		m.Store(m.val(fr, x.Addr), m.val(fr, x.Val))
	case *ssa.TypeAssert:
		fr.Env[x] = m.typeAssert(x, m.val(fr, x.X))
	case *ssa.Defer:
		cc := x.Call
		fn, args := m.callee(fr, &cc)
		d := deferred{call: func() { m.apply(fn, args, &cc) }}
		if f := cc.StaticCallee(); f != nil {
			d.recovers = recovers(f)
		} else {
			_, b := cc.Value.(*ssa.Builtin)
			d.recovers = !b
		}
		fr.Defers = append(fr.Defers[:len(fr.Defers):len(fr.Defers)], d)
	case *ssa.RunDefers:
		for len(fr.Defers) > 0 {
			m.popDefer(fr)
		}
	case *ssa.Go:
		m.undecided("goroutine")
	default:
		m.undecided("instruction %T", in)
	}
}

func (m *Machine) extract(t Value, i int) Value {
	switch y := t.(type) {
	case Tup:
		return y[i]
	case *Sel:
		return m.underSel(y, func(v Value) Value { return m.extract(v, i) })
	}
	m.undecided("extract from %T", t)
	return nil
}

func (m *Machine) intOf(v Value) int {
	switch x := v.(type) {
	case I:
		return int(x)
	}
	m.undecided("a length or index depends on %T %s", v, Show(v))
	return 0
}

func (m *Machine) field(v Value, i int) Value {
	switch x := v.(type) {
	case *Agg:
		return x.V[i]
	case *Sel:
		return m.underSel(x, func(v Value) Value { return m.field(v, i) })
	}
	m.undecided("field of %T", v)
	return nil
}

func (m *Machine) fieldAddr(v Value, i int) Value {
	switch x := v.(type) {
	case *Ptr:
		return &Ptr{O: x.O, Path: sub(x.Path, i)}
	case Nil:
		m.fault("nil pointer dereference")
	case *Sel:
		return m.underSel(x, func(v Value) Value { return m.fieldAddr(v, i) })
	}
	m.undecided("field address of %T", v)
	return nil
}

func (m *Machine) index(v, idx Value) Value {
	switch x := v.(type) {
	case S:
		i := m.intOf(idx)
		if i < 0 || i >= len(x) {
			m.fault("index out of range [%d] with length %d", i, len(x))
		}
		return I(x[i])
	case *Agg, *Row:
		return m.get(x, []int{m.intOf(idx)})
	}
	m.undecided("index of %T", v)
	return nil
}

func (m *Machine) indexAddr(v, idx Value) Value {
	switch x := v.(type) {
	case Slice:
		if e, ok := idx.(X); ok {
			m.steer("selects memory", e.E)
			return &SymPtr{S: x, Idx: e.E}
		}
		i := m.intOf(idx)
		if i < 0 || i >= x.Len {
			m.fault("index out of range [%d] with length %d", i, x.Len)
		}
		return m.elemPtr(x, i)
	case *Ptr:
		i := m.intOf(idx)
		if x.View > 0 {
			if i < 0 || i >= x.View {
				m.fault("index out of range [%d] with length %d", i, x.View)
			}
			p := sub(x.Path)
			p[len(p)-1] += i
			return &Ptr{O: x.O, Path: p}
		}
		n := -1
		switch a := m.get(m.S.Mem[x.O], x.Path).(type) {
		case *Agg:
			n = len(a.V)
		case *Row:
			n = a.N
		}
		if n >= 0 && (i < 0 || i >= n) {
			m.fault("index out of range [%d] with length %d", i, n)
		}
		return &Ptr{O: x.O, Path: sub(x.Path, i)}
	case Nil:
		if e, ok := idx.(I); ok {
			m.fault("index out of range [%d] with length 0", e)
		}
		m.fault("index of a nil slice")
	case *Sel:
		return m.underSel(x, func(v Value) Value { return m.indexAddr(v, idx) })
	}
	m.undecided("index address of %T", v)
	return nil
}

func (m *Machine) mapOf(v Value) (*MapC, *Obj) {
	switch x := v.(type) {
	case MapV:
		return m.S.Mem[x.O].(*MapC), x.O
	case Nil:
		return nil, nil
	}
	m.undecided("map operation on %T", v)
	return nil, nil
}

func (m *Machine) lookup(mv, k Value, t types.Type, commaOk bool) Value {
	if s, ok := mv.(S); ok {
		return m.index(s, k)
	}
	if s, ok := mv.(*Sel); ok {
		return m.underSel(s, func(v Value) Value { return m.lookup(v, k, t, commaOk) })
	}
	et := t.Underlying().(*types.Map).Elem()
	c, _ := m.mapOf(mv)
	key, ok := KeyOf(k)
	if !ok {
		m.undecided("map lookup with key %T %s", k, Show(k))
	}
	var v Value
	found := false
	if c != nil {
		v, found = c.V[key]
	}
	if !found {
		v = m.zero(et)
	}
	if commaOk {
		return Tup{v, B(found)}
	}
	return v
}

func (m *Machine) mapUpdate(mv, k, v Value) {
	c, o := m.mapOf(mv)
	if c == nil {
		m.fault("assignment to entry in nil map")
	}
	key, ok := KeyOf(k)
	if !ok {
		m.undecided("map update with key %T %s", k, Show(k))
	}
	m.wrote(o)
	n := c.clone()
	if _, ok := n.V[key]; !ok {
		n.Keys = append(n.Keys, key)
	}
	n.K[key], n.V[key] = k, v
	m.S.Mem[o] = n
}

type iter struct {
	keys []string
	o    *Obj
	str  string
	kind int
}

func (m *Machine) rangeIter(v Value) Value {
	switch x := v.(type) {
	case S:
		return &Ptr{O: m.New(types.Typ[types.Int], Tup{I(0), S(x)}, "striter")}
	case MapV, Nil:
		c, o := m.mapOf(x)
		it := &iter{o: o}
		if c != nil {
			it.keys = c.SortedKeys()
			if m.RevMaps {
				sort.Sort(sort.Reverse(sort.StringSlice(it.keys)))
			}
		}
		return &Ptr{O: m.New(types.Typ[types.Int], Tup{I(0), it}, "mapiter")}
	}
	m.undecided("range over %T", v)
	return nil
}

func (m *Machine) next(fr *Frame, x *ssa.Next) Value {
	p := m.val(fr, x.Iter).(*Ptr)
	st := m.S.Mem[p.O].(Tup)
	i := int(st[0].(I))
	tt := x.Type().(*types.Tuple)
	switch it := st[1].(type) {
	case S:
		rs := string(it)
		if i >= len(rs) {
			return Tup{B(false), I(0), I(0)}
		}
		for off, r := range rs[i:] {
			_ = off
			m.S.Mem[p.O] = Tup{I(int64(i + len(string(r)))), it}
			return Tup{B(true), I(int64(i)), I(int64(r))}
		}
	case *iter:
		for ; i < len(it.keys); i++ {
			c := m.S.Mem[it.o].(*MapC)
			k := it.keys[i]
			v, ok := c.V[k]
			if !ok {
				continue
			}
			m.S.Mem[p.O] = Tup{I(int64(i + 1)), it}
			return Tup{B(true), c.K[k], v}
		}
		return Tup{B(false), m.zero(tt.At(1).Type()), m.zero(tt.At(2).Type())}
	}
	return nil
}

func (m *Machine) slice(fr *Frame, x *ssa.Slice) Value {
	v := m.val(fr, x.X)
	opt := func(o ssa.Value, d int) int {
		if o == nil {
			return d
		}
		return m.intOf(m.val(fr, o))
	}
	switch s := v.(type) {
	case S:
		lo, hi := opt(x.Low, 0), opt(x.High, len(s))
		if lo < 0 || hi > len(s) || lo > hi {
			m.fault("slice bounds out of range [%d:%d]", lo, hi)
		}
		return s[lo:hi]
	case Slice:
		lo := opt(x.Low, 0)
		hi := opt(x.High, s.Len)
		mx := opt(x.Max, s.Cap)
		if lo < 0 || hi < lo || hi > mx || mx > s.Cap {
			m.fault("slice bounds out of range [%d:%d] with capacity %d", lo, hi, s.Cap)
		}
		return Slice{O: s.O, Path: s.Path, Off: s.Off + lo, Len: hi - lo, Cap: mx - lo}
	case Nil:
		lo, hi := opt(x.Low, 0), opt(x.High, 0)
		if lo != 0 || hi != 0 {
			m.fault("slice bounds out of range [%d:%d] with capacity 0", lo, hi)
		}
		return Nil{}
	case *Ptr: // pointer to array
		n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		lo := opt(x.Low, 0)
		hi := opt(x.High, n)
		mx := opt(x.Max, n)
		if lo < 0 || hi < lo || hi > mx || mx > n {
			m.fault("slice bounds out of range [%d:%d]", lo, hi)
		}
		if s.View > 0 {
			p := s.Path[:len(s.Path)-1]
			st := s.Path[len(s.Path)-1]
			return Slice{O: s.O, Path: p, Off: st + lo, Len: hi - lo, Cap: mx - lo}
		}
		return Slice{O: s.O, Path: s.Path, Off: lo, Len: hi - lo, Cap: mx - lo}
	}
	m.undecided("slicing %T", v)
	return nil
}

func (m *Machine) typeAssert(x *ssa.TypeAssert, v Value) Value {
	if s, ok := v.(*Sel); ok {
		return m.underSel(s, func(v Value) Value { return m.typeAssert(x, v) })
	}
	ok := false
	var r Value
	if i, is := v.(Iface); is {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			if types.Implements(i.T, it) {
				ok, r = true, i
			}
		} else if types.Identical(i.T, x.AssertedType) {
			ok, r = true, i.V
		}
	} else if !isNil(v) {
		m.undecided("type assertion on %T", v)
	}
	if !ok {
		if !x.CommaOk {
			m.fault("interface conversion failed: want %s", x.AssertedType)
		}
		r = m.zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tup{r, B(ok)}
	}
	return r
}

// ---- calls ----

func (m *Machine) callee(fr *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := m.val(fr, c.Value)
		for _, a := range c.Args {
			args = append(args, m.val(fr, a))
		}
		return &invoke{recv, c.Method}, args
	}
	for _, a := range c.Args {
		args = append(args, m.val(fr, a))
	}
	return m.val(fr, c.Value), args
}

type invoke struct {
	recv Value
	meth *types.Func
}

func (m *Machine) call(fr *Frame, c *ssa.CallCommon) Value {
	fn, args := m.callee(fr, c)
	return m.apply(fn, args, c)
}

func (m *Machine) apply(fn Value, args []Value, c *ssa.CallCommon) Value {
	switch f := fn.(type) {
	case *Clo:
		return m.CallFn(f.Fn, args, f.Binds)
	case *ssa.Builtin:
		return m.builtin(f.Name(), args, c)
	case *invoke:
		switch r := f.recv.(type) {
		case Iface:
			g := m.P.Prog.LookupMethod(r.T, f.meth.Pkg(), f.meth.Name())
			if g == nil {
				m.undecided("method %s of %s", f.meth.Name(), r.T)
			}
			return m.CallFn(g, append([]Value{r.V}, args...), nil)
		case Nil:
			m.fault("nil pointer dereference (method %s on a nil interface)", f.meth.Name())
		case *Sel:
			return m.underSel(r, func(v Value) Value { return m.apply(&invoke{v, f.meth}, args, c) })
		}
		m.undecided("method call on %T", f.recv)
	case Nil:
		m.fault("call of nil function")
	case *Sel:
		return m.underSel(f, func(v Value) Value { return m.apply(v, args, c) })
	}
	m.undecided("call of %T", fn)
	return nil
}

func (m *Machine) builtin(name string, args []Value, c *ssa.CallCommon) Value {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case S:
			return I(len(x))
		case Slice:
			if name == "cap" {
				return I(x.Cap)
			}
			return I(x.Len)
		case MapV:
			return I(len(m.S.Mem[x.O].(*MapC).V))
		case Nil:
			return I(0)
		case *Agg:
			return I(len(x.V))
		case *Row:
			return I(x.N)
		case *Ptr:
			if a, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				if ar, ok := a.Elem().Underlying().(*types.Array); ok {
					return I(ar.Len())
				}
			}
		case *Sel:
			return m.underSel(x, func(v Value) Value { return m.builtin(name, []Value{v}, c) })
		}
		m.undecided("%s of %T", name, args[0])
	case "append":
		et := c.Signature().Results().At(0).Type().Underlying().(*types.Slice).Elem()
		return m.appendSlice(args, et)
	case "copy":
		return m.copySlice(args[0], args[1])
	case "delete":
		cm, o := m.mapOf(args[0])
		if cm == nil {
			return Tup{}
		}
		key, ok := KeyOf(args[1])
		if !ok {
			m.undecided("delete with key %T", args[1])
		}
		if _, in := cm.V[key]; in {
			m.wrote(o)
			n := cm.clone()
			delete(n.V, key)
			delete(n.K, key)
			var ks []string
			for _, k := range n.Keys {
				if k != key {
					ks = append(ks, k)
				}
			}
			n.Keys = ks
			m.S.Mem[o] = n
		}
		return Tup{}
	case "clear":
		switch x := args[0].(type) {
		case MapV:
			m.S.Mem[x.O] = &MapC{K: map[string]Value{}, V: map[string]Value{}}
		case Slice:
			z := m.zero(c.Args[0].Type().Underlying().(*types.Slice).Elem())
			for i := 0; i < x.Len; i++ {
				m.sliceSet(x, i, z)
			}
		}
		return Tup{}
	case "print", "println":
		m.text(args...)
		return Tup{}
	case "panic":
		m.text(args...)
		panic(&AbsPanic{Pos: m.Pos(), Fn: m.fnName(), Msg: showPanic(args[0]), Explicit: true, Val: args[0]})
	case "recover":
		return m.recovered()
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			lt := m.binop(token.LSS, a, r, c.Args[0].Type(), types.Typ[types.Bool])
			e, _ := ToE(lt)
			if name == "max" {
				lt = m.binop(token.LSS, r, a, c.Args[0].Type(), types.Typ[types.Bool])
				e, _ = ToE(lt)
			}
			r = m.sel(e, a, r)
		}
		return r
	case "real":
		return args[0].(Cx).Re
	case "imag":
		return args[0].(Cx).Im
	case "complex":
		return Cx{args[0], args[1]}
	case "ssa:wrapnilchk":
		if isNil(args[0]) {
			m.fault("nil pointer dereference (method on nil)")
		}
		return args[0]
	}
	m.undecided("builtin %s", name)
	return nil
}

func (m *Machine) values(v Value) []Value {
	switch x := v.(type) {
	case Nil:
		return nil
	case S:
		var r []Value
		for i := 0; i < len(x); i++ {
			r = append(r, I(x[i]))
		}
		return r
	case Slice:
		r := make([]Value, x.Len)
		c := m.get(m.S.Mem[x.O], x.Path)
		for i := range r {
			r[i] = m.get(c, []int{x.Off + i})
		}
		return r
	}
	m.undecided("elements of %T", v)
	return nil
}

func (m *Machine) appendSlice(args []Value, et types.Type) Value {
	if s, ok := args[0].(*Sel); ok {
		return m.underSel(s, func(v Value) Value { return m.appendSlice([]Value{v, args[1]}, et) })
	}
	add := m.values(args[1])
	base, ok := args[0].(Slice)
	if !ok {
		if !isNil(args[0]) {
			m.undecided("append to %T", args[0])
		}
		if len(add) == 0 {
			return Nil{}
		}
		// appending a whole row to nil keeps it whole
		if s2, ok := args[1].(Slice); ok && s2.Len == m.N && m.isRowElem(et) {
			r, _ := m.RowOf(s2)
			s := m.MakeSlice(et, m.N, m.N)
			m.S.Mem[s.O] = r
			return s
		}
		return m.SliceOf(et, add)
	}
	n := base.Len + len(add)
	if n <= base.Cap {
		for i, v := range add {
			m.sliceSet(base, base.Len+i, v)
		}
		return Slice{O: base.O, Path: base.Path, Off: base.Off, Len: n, Cap: base.Cap}
	}
	old := m.values(base)
	return m.SliceOf(et, append(append([]Value(nil), old...), add...))
}

func (m *Machine) copySlice(d, s Value) Value {
	if x, ok := d.(*Sel); ok {
		return m.underSel(x, func(v Value) Value { return m.copySlice(v, s) })
	}
	dd, ok := d.(Slice)
	if !ok {
		if isNil(d) {
			return I(0)
		}
		m.undecided("copy to %T", d)
	}
	if ss, ok := s.(Slice); ok && ss.Len == dd.Len {
		rd, okd := m.get(m.S.Mem[dd.O], dd.Path).(*Row)
		rs, oks := m.get(m.S.Mem[ss.O], ss.Path).(*Row)
		if okd && oks && dd.Off == 0 && ss.Off == 0 && rd.N == dd.Len && rs.N == ss.Len {
			m.Store(&Ptr{O: dd.O, Path: dd.Path}, rs)
			return I(dd.Len)
		}
	}
	vs := m.values(s)
	n := len(vs)
	if dd.Len < n {
		n = dd.Len
	}
	for i := 0; i < n; i++ {
		m.sliceSet(dd, i, vs[i])
	}
	return I(n)
}

// ---- operators ----

func wrap(v int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(v))
	case types.Int16:
		return int64(int16(v))
	case types.Int32:
		return int64(int32(v))
	case types.Uint8:
		return int64(uint8(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Uint32:
		return int64(uint32(v))
	}
	return v
}

func (m *Machine) unop(x *ssa.UnOp, v Value) Value {
	switch x.Op {
	case token.MUL:
		return m.Load(v)
	case token.NOT:
		switch b := v.(type) {
		case B:
			return !b
		case XB:
			return XB{sym.Not(b.E)}
		}
	case token.SUB:
		switch b := v.(type) {
		case I:
			return I(wrap(-int64(b), x.Type()))
		case F:
			return -b
		case Cx:
			return Cx{m.neg(b.Re), m.neg(b.Im)}
		case X:
			return X{sym.Neg(b.E)}
		}
	case token.XOR:
		if b, ok := v.(I); ok {
			return I(wrap(^int64(b), x.Type()))
		}
		if e, ok := ToE(v); ok {
			return X{sym.App("compl", "", e)}
		}
	}
	m.undecided("unary %s on %T", x.Op, v)
	return nil
}

func (m *Machine) neg(v Value) Value {
	if f, ok := v.(F); ok {
		return -f
	}
	e, ok := ToE(v)
	if !ok {
		m.undecided("negation of %T", v)
	}
	return X{sym.Neg(e)}
}

func (m *Machine) binop(op token.Token, a, b Value, ot, rt types.Type) Value {
	if s, ok := a.(*Sel); ok {
		return m.underSel(s, func(v Value) Value { return m.binop(op, v, b, ot, rt) })
	}
	if s, ok := b.(*Sel); ok {
		return m.underSel(s, func(v Value) Value { return m.binop(op, a, v, ot, rt) })
	}
	switch op {
	case token.EQL, token.NEQ:
		e := m.equal(a, b)
		if op == token.NEQ {
			e = sym.Not(e)
		}
		return boolOf(e)
	}
	if x, ok := a.(I); ok {
		if y, ok := b.(I); ok {
			return m.intOp(op, int64(x), int64(y), ot)
		}
	}
	if x, ok := a.(F); ok {
		if y, ok := b.(F); ok {
			switch op {
			case token.ADD:
				return x + y
			case token.SUB:
				return x - y
			case token.MUL:
				return x * y
			case token.QUO:
				return x / y
			case token.LSS:
				return B(x < y)
			case token.GTR:
				return B(x > y)
			case token.LEQ:
				return B(x <= y)
			case token.GEQ:
				return B(x >= y)
			}
		}
	}
	if x, ok := a.(S); ok {
		if y, ok := b.(S); ok {
			switch op {
			case token.ADD:
				return x + y
			case token.LSS:
				return B(x < y)
			case token.GTR:
				return B(x > y)
			case token.LEQ:
				return B(x <= y)
			case token.GEQ:
				return B(x >= y)
			}
		}
	}
	if x, ok := a.(Cx); ok {
		if y, ok := b.(Cx); ok {
			ft := types.Typ[types.Float64]
			o := func(op token.Token, a, b Value) Value { return m.binop(op, a, b, ft, ft) }
			switch op {
			case token.ADD, token.SUB:
				return Cx{o(op, x.Re, y.Re), o(op, x.Im, y.Im)}
			case token.MUL:
				return Cx{o(token.SUB, o(token.MUL, x.Re, y.Re), o(token.MUL, x.Im, y.Im)),
					o(token.ADD, o(token.MUL, x.Re, y.Im), o(token.MUL, x.Im, y.Re))}
			}
		}
	}
	if bx, ok := a.(B); ok {
		if by, ok := b.(B); ok {
			switch op {
			case token.AND:
				return bx && by
			case token.OR:
				return bx || by
			}
		}
	}
	ea, oka := ToE(a)
	eb, okb := ToE(b)
	if !oka || !okb {
		m.undecided("%s on %T and %T", op, a, b)
	}
	u64 := isInteger(ot)
	switch op {
	case token.ADD:
		return FromE(sym.Add(ea, eb), rt)
	case token.SUB:
		return FromE(sym.Sub(ea, eb), rt)
	case token.MUL:
		p := sym.Mul(ea, eb)
		if u64 && hasQinv(p) {
			p = sym.Lo64(p)
		}
		return FromE(p, rt)
	case token.QUO:
		if u64 {
			if eb == sym.Zero {
				m.fault("integer divide by zero")
			}
			return FromE(sym.App("trunc", "", sym.Div(ea, eb)), rt)
		}
		return FromE(sym.Div(ea, eb), rt)
	case token.REM:
		if eb == sym.Zero {
			m.fault("integer divide by zero")
		}
		if isUnsigned(ot) {
			return FromE(sym.Red(ea, eb), rt)
		}
		if lo, _, ok := ea.Range(); ok && lo >= 0 {
			return FromE(sym.Red(ea, eb), rt)
		}
		return FromE(sym.Raw("rem", "", ea, eb), rt)
	case token.LSS:
		return boolOf(sym.Lt(ea, eb))
	case token.GTR:
		return boolOf(sym.Lt(eb, ea))
	case token.LEQ:
		return boolOf(sym.Not(sym.Lt(eb, ea)))
	case token.GEQ:
		return boolOf(sym.Not(sym.Lt(ea, eb)))
	case token.SHL:
		if k, ok := b.(I); ok && k >= 0 && k < 64 {
			return FromE(sym.Scale(ea, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(k)))), rt)
		}
		if x, ok := a.(I); ok && x == 1 {
			return X{sym.Raw("pow2", "", eb)}
		}
		return X{sym.Mul(ea, sym.Raw("pow2", "", eb))}
	case token.SHR:
		if k, ok := b.(I); ok && k >= 0 && k < 64 {
			r := sym.Scale(ea, new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), uint(k))))
			return FromE(sym.App("floor", "", r), rt)
		}
		return X{sym.Raw("shr", "", ea, eb)}
	case token.AND:
		if ot != nil {
			if _, isB := a.(XB); isB {
				return XB{sym.Mul(ea, eb)}
			}
		}
		return X{sym.App("and", "", ea, eb)}
	case token.OR:
		return X{sym.App("or", "", ea, eb)}
	case token.XOR:
		return X{sym.App("xor", "", ea, eb)}
	case token.AND_NOT:
		return X{sym.App("andnot", "", ea, eb)}
	}
	m.undecided("operator %s", op)
	return nil
}

func hasQinv(e *sym.E) bool {
	for _, mo := range e.M {
		for _, f := range mo.F {
			if f.N.Op == "qinv" || f.N.Op == "lo64" {
				return true
			}
		}
	}
	return false
}

func boolOf(e *sym.E) Value {
	if e.IsTrue() {
		return B(true)
	}
	if e.IsFalse() {
		return B(false)
	}
	return XB{e}
}

func (m *Machine) intOp(op token.Token, x, y int64, t types.Type) Value {
	u := isUnsigned(t)
	r := func(v int64) Value { return I(wrap(v, t)) }
	bits := uint64(64)
	switch op {
	case token.ADD:
		return r(x + y)
	case token.SUB:
		return r(x - y)
	case token.MUL:
		return r(x * y)
	case token.QUO, token.REM:
		if y == 0 {
			m.fault("integer divide by zero")
		}
		if u {
			if op == token.QUO {
				return r(int64(uint64(x) / uint64(y)))
			}
			return r(int64(uint64(x) % uint64(y)))
		}
		if op == token.QUO {
			return r(x / y)
		}
		return r(x % y)
	case token.AND:
		return r(x & y)
	case token.OR:
		return r(x | y)
	case token.XOR:
		return r(x ^ y)
	case token.AND_NOT:
		return r(x &^ y)
	case token.SHL:
		if uint64(y) >= bits {
			if y < 0 {
				m.fault("negative shift amount")
			}
			return r(0)
		}
		return r(x << uint(y))
	case token.SHR:
		if y < 0 {
			m.fault("negative shift amount")
		}
		if u {
			if uint64(y) >= bits {
				return r(0)
			}
			return r(int64(uint64(x) >> uint(y)))
		}
		if y > 63 {
			y = 63
		}
		return r(x >> uint(y))
	}
	if u {
		a, b := uint64(x), uint64(y)
		switch op {
		case token.LSS:
			return B(a < b)
		case token.GTR:
			return B(a > b)
		case token.LEQ:
			return B(a <= b)
		case token.GEQ:
			return B(a >= b)
		}
	}
	switch op {
	case token.LSS:
		return B(x < y)
	case token.GTR:
		return B(x > y)
	case token.LEQ:
		return B(x <= y)
	case token.GEQ:
		return B(x >= y)
	}
	m.undecided("operator %s", op)
	return nil
}

func (m *Machine) equal(a, b Value) *sym.E {
	if s, ok := a.(*Sel); ok {
		return sym.Ite(s.C, m.equal(s.A, b), m.equal(s.B, b))
	}
	if s, ok := b.(*Sel); ok {
		return sym.Ite(s.C, m.equal(a, s.A), m.equal(a, s.B))
	}
	switch x := a.(type) {
	case Nil:
		if _, ok := b.(X); ok {
			m.undecided("comparison of nil with a number")
		}
		return sym.Bool(isNil(b))
	case *Ptr:
		y, ok := b.(*Ptr)
		return sym.Bool(ok && x.O == y.O && eqPath(x.Path, y.Path))
	case S:
		y, ok := b.(S)
		if !ok {
			m.undecided("string comparison with %T", b)
		}
		return sym.Bool(x == y)
	case Slice, MapV, *Clo:
		return sym.Bool(false)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return sym.Zero
		}
		if !types.Identical(x.T, y.T) {
			return sym.Zero
		}
		return m.equal(x.V, y.V)
	case *Agg:
		y, ok := b.(*Agg)
		if !ok {
			return sym.Zero
		}
		r := sym.One
		for i := range x.V {
			r = sym.Mul(r, m.equal(x.V[i], y.V[i]))
		}
		return r
	case *Row:
		if Same(a, b) {
			return sym.One
		}
		m.undecided("comparison of polynomials")
	case Cx:
		y, ok := b.(Cx)
		if ok {
			return sym.Mul(m.equal(x.Re, y.Re), m.equal(x.Im, y.Im))
		}
	case F:
		if y, ok := b.(F); ok {
			return sym.Bool(x == y)
		}
	}
	ea, oka := ToE(a)
	eb, okb := ToE(b)
	if !oka || !okb {
		m.undecided("comparison of %T and %T", a, b)
	}
	_, b1 := a.(B)
	_, b2 := a.(XB)
	if b1 || b2 { // boolean equality
		return sym.Ite(ea, eb, sym.Not(eb))
	}
	return sym.EqE(ea, eb)
}

func (m *Machine) convert(v Value, from, to types.Type) Value {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if tb != nil && tb.Kind() == types.UnsafePointer {
		return v
	}
	if fb != nil && fb.Kind() == types.UnsafePointer {
		if p, ok := to.Underlying().(*types.Pointer); ok {
			if ar, ok := p.Elem().Underlying().(*types.Array); ok {
				q, ok := v.(*Ptr)
				if !ok {
					if isNil(v) {
						return v
					}
					m.undecided("array view of %T", v)
				}
				// a view must stay inside the backing array
				n := int(ar.Len())
				if len(q.Path) > 0 {
					switch c := m.get(m.S.Mem[q.O], q.Path[:len(q.Path)-1]).(type) {
					case *Row:
						if q.Path[len(q.Path)-1]+n > c.N {
							m.fault("array view past the end of the backing array")
						}
					case *Agg:
						if q.Path[len(q.Path)-1]+n > len(c.V) {
							m.fault("array view past the end of the backing array")
						}
					}
				}
				return &Ptr{O: q.O, Path: q.Path, View: n}
			}
		}
		return v
	}
	if s, ok := v.(*Sel); ok {
		return m.underSel(s, func(v Value) Value { return m.convert(v, from, to) })
	}
	if tb == nil {
		if _, ok := to.Underlying().(*types.Slice); ok {
			if s, ok := v.(S); ok {
				return m.SliceOf(types.Typ[types.Byte], m.values(s))
			}
		}
		return v
	}
	switch {
	case tb.Info()&types.IsString != 0:
		switch x := v.(type) {
		case S:
			return x
		case I:
			return S(string(rune(x)))
		case Slice:
			var bs []byte
			for _, e := range m.values(x) {
				i, ok := e.(I)
				if !ok {
					m.undecided("string from symbolic bytes")
				}
				bs = append(bs, byte(i))
			}
			return S(bs)
		case Nil:
			return S("")
		}
	case tb.Info()&types.IsFloat != 0:
		switch x := v.(type) {
		case I:
			if isUnsigned(from) {
				return F(float64(uint64(x)))
			}
			return F(float64(x))
		case F:
			if tb.Kind() == types.Float32 {
				return F(float32(x))
			}
			return x
		case X:
			return x
		}
	case tb.Info()&types.IsInteger != 0:
		switch x := v.(type) {
		case I:
			return I(wrap(int64(x), to))
		case F:
			f := math.Trunc(float64(x))
			if f >= 9.3e18 && isUnsigned(to) {
				return I(int64(uint64(f)))
			}
			return I(wrap(int64(f), to))
		case X:
			if fb != nil && fb.Info()&types.IsFloat != 0 {
				return FromE(sym.App("trunc", "", x.E), to)
			}
			switch tb.Kind() {
			case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
				return x
			}
			return X{sym.Raw("narrow", tb.Name(), x.E)}
		}
	case tb.Info()&types.IsComplex != 0:
		return v
	case tb.Info()&types.IsBoolean != 0:
		return v
	}
	m.undecided("conversion of %T from %s to %s", v, from, to)
	return nil
}

// Show prints a value for diagnostics.
func Show(v Value) string {
	switch x := v.(type) {
	case X:
		return trunc(x.E.String(), 400)
	case XB:
		return trunc(x.E.String(), 400)
	case *Row:
		if x.Elems != nil {
			return fmt.Sprintf("row[%d entries: %s ...]", x.N, Show(x.Elems[0]))
		}
		q := "?"
		if x.Q != nil {
			q = x.Q.String()
		}
		return fmt.Sprintf("row(dom %d mod %s: %s)", x.Dom, q, trunc(x.E.String(), 1500))
	case *Sel:
		return "sel(" + x.C.String() + "," + Show(x.A) + "," + Show(x.B) + ")"
	case Iface:
		return Show(x.V)
	}
	return trunc(fmt.Sprint(v), 300)
}

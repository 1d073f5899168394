package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"mkverif/sym"

	"golang.org/x/tools/go/ssa"
)

// AbsPanic is a panic of the analysed program.
type AbsPanic struct {
	Pos, Msg, Fn string
	Explicit     bool  // an explicit panic statement (as opposed to a runtime fault)
	Val          Value // what recover returns (nil: a run-time error)
}

func (p *AbsPanic) String() string { return fmt.Sprintf("%s: panic in %s: %s", p.Pos, p.Fn, p.Msg) }

// Undecided means that the analysis cannot decide the program's behaviour.
type Undecided struct{ Pos, Msg, Fn string }

func (u *Undecided) String() string { return fmt.Sprintf("%s: %s: %s", u.Pos, u.Fn, u.Msg) }

// Model is the transfer function of an external callee.
type Model func(m *Machine, fn *ssa.Function, args []Value) Value

type Machine struct {
	P           *Prog
	N           int
	S           *State
	nobj        int
	reuse, made []*Obj // see Recording
	record      bool
	Globals     map[*ssa.Global]*Obj
	Models      map[string]Model
	Fuel        int
	frames      []*Frame
	RevMaps     bool // iterate maps in descending key order
	pc          map[*sym.E]bool

	// accounting for evidence
	Funcs  map[string]bool
	Instrs int
	Calls  int
	Forks  int
	Panics []*AbsPanic
	Notes  []string
	noteM  map[string]bool

	LastW   map[*Obj]token.Pos // last write inside the analysed repository
	OnRead  func(o *Obj, path []int)
	OnCall  func(fn *ssa.Function, args []Value, pos string)
	OnSteer func(how string, e *sym.E) // a branch or an index on data in the analysed repository
	OnText  func(v Value)              // a value that goes into a text or an error
	fresh   map[string]int
	pdoms   map[*ssa.Function]*pdInfo
	Samples []Sample
	prngs   int
	inInit  bool
	Mods    []*sym.E
	cyc     map[string]Value
}

// Sample records one draw from a randomness source.
type Sample struct {
	Kind  string // gauss, ternary, uniform
	Atom  *sym.E
	Src   string // identity of the randomness source
	Pos   string
	Param string
	Obj   *Obj
}

type Frame struct {
	Fn     *ssa.Function
	Env    map[ssa.Value]Value
	Pos    token.Pos
	Defers []deferred
	Panic  *AbsPanic // the panic that the deferred calls run under
	Args   []Value
	repo   int
}

type deferred struct {
	call     func()
	recovers bool // may call recover
}

func NewMachine(p *Prog, n int) *Machine {
	m := &Machine{P: p, N: n, S: &State{Mem: map[*Obj]Value{}}, Globals: map[*ssa.Global]*Obj{},
		Models: map[string]Model{}, Fuel: 400000000, Funcs: map[string]bool{}, fresh: map[string]int{},
		pdoms: map[*ssa.Function]*pdInfo{}, pc: map[*sym.E]bool{}, noteM: map[string]bool{}, cyc: map[string]Value{}, LastW: map[*Obj]token.Pos{}}
	installStd(m)
	installRing(m)
	return m
}

func (m *Machine) Fresh(prefix string) string {
	m.fresh[prefix]++
	return fmt.Sprintf("%s%d", prefix, m.fresh[prefix])
}

// Pos is the innermost source position inside the analysed repository.
func (m *Machine) Pos() string {
	for i := len(m.frames) - 1; i >= 0; i-- {
		f := m.frames[i]
		if m.P.InRepo(f.Fn) && f.Pos.IsValid() {
			return m.P.Pos(f.Pos)
		}
	}
	if len(m.frames) > 0 {
		return m.P.Pos(m.frames[len(m.frames)-1].Pos)
	}
	return "harness"
}

// Where is Pos together with the chain of calls in the repository.
func (m *Machine) Where() string {
	s := ""
	for i := len(m.frames) - 1; i >= 0; i-- {
		f := m.frames[i]
		if s != "" {
			s += " <- "
		}
		s += f.Fn.Name() + "@" + m.P.Pos(f.Pos)
	}
	return s
}

// FnName is the function of the repository under analysis.
func (m *Machine) FnName() string { return m.fnName() }

func (m *Machine) fnName() string {
	if len(m.frames) == 0 {
		return "harness"
	}
	for i := len(m.frames) - 1; i >= 0; i-- {
		if m.P.InRepo(m.frames[i].Fn) {
			return m.frames[i].Fn.Name()
		}
	}
	return m.frames[len(m.frames)-1].Fn.Name()
}

func (m *Machine) undecided(f string, a ...interface{}) {
	panic(&Undecided{Pos: m.Pos(), Msg: fmt.Sprintf(f, a...) + " [" + m.Where() + "]", Fn: m.fnName()})
}

func (m *Machine) fault(f string, a ...interface{}) {
	panic(&AbsPanic{Pos: m.Pos(), Msg: fmt.Sprintf(f, a...), Fn: m.fnName()})
}

// Note records a diagnosis (a construct whose result is meaningless algebraically).
func (m *Machine) Note(f string, a ...interface{}) {
	s := m.Pos() + ": " + fmt.Sprintf(f, a...)
	if !m.noteM[s] {
		m.noteM[s] = true
		m.Notes = append(m.Notes, s)
	}
}

// ClearNotes forgets all diagnoses.
func (m *Machine) ClearNotes() { m.Notes, m.noteM = nil, map[string]bool{} }

// Recording runs f, in which memory is allocated at the places of a former recording
// as far as it asks for the same kinds of objects, and returns the places.
func (m *Machine) Recording(again []*Obj, f func()) []*Obj {
	m.made, m.reuse, m.record = nil, again, true
	defer func() { m.made, m.reuse, m.record = nil, nil, false }()
	f()
	return m.made
}

func (m *Machine) New(t types.Type, content Value, note string) *Obj {
	if len(m.reuse) > 0 {
		if o := m.reuse[0]; o.Note == note && types.Identical(o.T, t) {
			m.reuse = m.reuse[1:]
			m.made = append(m.made, o)
			m.S.Mem[o] = content
			return o
		}
		m.reuse = nil
	}
	m.nobj++
	o := &Obj{ID: m.nobj, T: t, Note: note}
	if m.record {
		m.made = append(m.made, o)
	}
	if len(m.frames) > 0 {
		f := m.frames[len(m.frames)-1]
		o.Pos = f.Pos
		o.Fn = f.Fn.Name()
	}
	m.S.Mem[o] = content
	return o
}

func (m *Machine) get(v Value, path []int) Value {
	for d, i := range path {
		switch x := v.(type) {
		case *Agg:
			if i < 0 || i >= len(x.V) {
				m.fault("index out of range [%d] with length %d", i, len(x.V))
			}
			v = x.V[i]
		case *Row:
			if i < 0 || i >= x.N {
				m.fault("index out of range [%d] with length %d", i, x.N)
			}
			if x.Elems != nil {
				x = m.compact(x)
			}
			return m.elem(x, i)
		case Tup:
			v = x[i]
		case *Sel:
			return m.sel(x.C, m.get(x.A, path[d:]), m.get(x.B, path[d:]))
		default:
			m.undecided("load through %T", v)
		}
	}
	return v
}

func (m *Machine) set(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	i := path[0]
	switch x := v.(type) {
	case *Agg:
		if i < 0 || i >= len(x.V) {
			m.fault("index out of range [%d] with length %d", i, len(x.V))
		}
		n := &Agg{append([]Value(nil), x.V...)}
		n.V[i] = m.set(x.V[i], path[1:], nv)
		return n
	case *Row:
		if i < 0 || i >= x.N {
			m.fault("index out of range [%d] with length %d", i, x.N)
		}
		n := &Row{N: x.N, Elems: make([]Value, x.N), Dom: -1}
		if x.Elems != nil {
			copy(n.Elems, x.Elems)
		} else {
			for k := range n.Elems {
				n.Elems[k] = m.elem(x, k)
			}
		}
		n.Elems[i] = nv
		if len(m.frames) > 0 {
			n.w = m.frames[len(m.frames)-1]
		}
		return n
	}
	m.undecided("store through %T", v)
	return nil
}

// elem reads one stored entry of a row.
func (m *Machine) elem(r *Row, k int) Value {
	if r.Elems != nil {
		return r.Elems[k]
	}
	if r.E == sym.Zero {
		return I(0)
	}
	e := sym.ElAt(r.E, r.Dom, k)
	if r.Dom == -1 {
		e = sym.ElAt(r.E, 0, k)
	}
	if r.Q != nil {
		if r.Bnd() > 1 {
			e = sym.Raw("lazy", fmt.Sprint(r.B), sym.Strip(e, r.Q), r.Q)
		} else {
			e = sym.Red(e, r.Q)
		}
	}
	return FromE(e, types.Typ[types.Uint64])
}

// lazyMod is the modulus of entries that are unfinished Montgomery products.
func lazyMod(r *Row) *sym.E {
	e, ok := ToE(r.Elems[0])
	if !ok {
		return nil
	}
	var p *sym.E
	for _, mo := range e.M {
		for _, f := range mo.F {
			if f.N.Op != "lo64" || f.X != 1 {
				continue
			}
			for _, a := range f.N.Args[0].M {
				for _, g := range a.F {
					if g.N.Op == "qinv" {
						if p != nil && p != g.N.Args[0] {
							return nil
						}
						p = g.N.Args[0]
					}
				}
			}
		}
	}
	return p
}

// compact replaces entries that are all residues modulo one prime by the ring
// element they spell, when a later activation reads a row that another one
// filled entry by entry.
func (m *Machine) compact(r *Row) *Row {
	if r.tried {
		if r.comp != nil {
			return r.comp
		}
		return r
	}
	if len(m.frames) == 0 || r.w == nil || r.w == m.frames[len(m.frames)-1] || r.N != m.N {
		return r
	}
	r.tried = true
	var q *sym.E
	for _, v := range r.Elems {
		e, ok := ToE(v)
		if !ok {
			return r
		}
		if e == sym.Zero {
			continue
		}
		n := e.Single()
		if n == nil || n.Op != "red" || q != nil && n.Args[1] != q {
			return r
		}
		q = n.Args[1]
	}
	if q == nil {
		return r
	}
	w := m.Whole(r, q)
	if w.E == sym.Zero {
		return r
	}
	if n := w.E.Single(); n != nil && n.Op == "em" {
		return r
	}
	r.comp = w
	return w
}

// redMod is the modulus p of entries that are all residues red(x;p) or their
// negations p - red(x;p), as an automorphism in the coefficient domain leaves
// them: representatives in [0,p] of the residues modulo p.
func redMod(r *Row) *sym.E {
	var p *sym.E
	same := func(x *sym.E) bool {
		if p == nil {
			p = x
		}
		return p == x
	}
	for _, v := range r.Elems {
		e, ok := ToE(v)
		if !ok {
			return nil
		}
		if e == sym.Zero {
			continue
		}
		if n := e.Single(); n != nil && n.Op == "red" {
			if !same(n.Args[1]) {
				return nil
			}
			continue
		}
		found := false
		for _, mo := range e.M {
			for _, f := range mo.F {
				if f.N.Op == "red" && f.X == 1 && len(mo.F) == 1 && sym.Sub(f.N.Args[1], f.N.E()) == e {
					if !same(f.N.Args[1]) {
						return nil
					}
					found = true
				}
			}
		}
		if !found {
			return nil
		}
	}
	return p
}

// Whole views a row as one ring element modulo q.
func (m *Machine) Whole(r *Row, q *sym.E) *Row {
	if r.Elems == nil {
		if r.E == sym.Zero {
			return &Row{N: r.N, E: sym.Zero, Dom: -1, Q: q}
		}
		if r.Q == nil || r.Q == q {
			if r.Q == q {
				return r
			}
			return &Row{N: r.N, E: sym.Strip(r.E, q), Dom: r.Dom, Q: q}
		}
		if r.Bnd() > 1 { // representatives beyond [0,Q) seen modulo another prime
			return &Row{N: r.N, E: sym.Raw("em", fmt.Sprintf("%d:lazy/%d", r.Dom, r.B), r.E, r.Q), Dom: r.Dom, Q: q}
		}
		if r.Dom == -1 { // constants: entries reduced modulo another prime
			return &Row{N: r.N, E: sym.Mul(sym.Red(sym.ElAt(r.E, 0, 0), r.Q), sym.J), Dom: -1, Q: q}
		}
		return &Row{N: r.N, E: sym.Lift(r.E, r.Dom, []*sym.E{r.Q}), Dom: r.Dom, Q: q}
	}
	if r.memo != nil && r.memoQ == q {
		return r.memo
	}
	p := lazyMod(r)
	if p == nil {
		p = redMod(r)
	}
	if p != nil && p != q {
		// Montgomery products modulo p that were never reduced completely: a
		// representative of the residue modulo p, a small multiple of p above
		// the canonical one at most.
		w := m.Whole(r, p)
		if w.Dom != -1 && w.E != sym.Zero {
			w = &Row{N: r.N, E: sym.Lift(w.E, w.Dom, []*sym.E{p}), Dom: w.Dom, Q: q}
			return w
		}
	}
	es := make([]*sym.E, r.N)
	zero := true
	for k, v := range r.Elems {
		e, ok := ToE(v)
		if !ok {
			m.undecided("entry %d of a polynomial is %T %v", k, v, v)
		}
		es[k] = sym.Strip(e, q)
		if es[k] != sym.Zero {
			zero = false
		}
	}
	var w *Row
	if zero {
		w = &Row{N: r.N, E: sym.Zero, Dom: -1, Q: q}
	} else {
		e, dom := sym.Generalise(es, q)
		w = &Row{N: r.N, E: e, Dom: dom, Q: q}
	}
	r.memo, r.memoQ = w, q
	return w
}

// Load reads through a pointer.
func (m *Machine) Load(p Value) Value {
	switch x := p.(type) {
	case *Ptr:
		c, ok := m.S.Mem[x.O]
		if !ok {
			m.undecided("load from unknown object %v", x.O)
		}
		if x.View > 0 {
			base := m.get(c, x.Path[:len(x.Path)-1])
			st := x.Path[len(x.Path)-1]
			a := &Agg{make([]Value, x.View)}
			for i := range a.V {
				a.V[i] = m.get(base, []int{st + i})
			}
			return a
		}
		return m.get(c, x.Path)
	case *SymPtr:
		return m.symLoad(x)
	case *Sel:
		return m.underSel(x, m.Load)
	case Nil:
		m.fault("nil pointer dereference")
	}
	m.undecided("load through %T %v", p, p)
	return nil
}

// underSel evaluates f on both alternatives and joins.
func (m *Machine) underSel(x *Sel, f func(Value) Value) Value {
	if b, ok := m.known(x.C); ok {
		if b {
			return f(x.A)
		}
		return f(x.B)
	}
	return m.sel(x.C, f(x.A), f(x.B))
}

// SymPtr is the address of a slice element at a symbolic index.
type SymPtr struct {
	S   Slice
	Idx *sym.E
}

// Sel is a value that depends on an undecided condition.
type Sel struct {
	C    *sym.E
	A, B Value
}

// symLoad reads a table at a symbolic index: the table must be affine in the index.
func (m *Machine) symLoad(p *SymPtr) Value {
	var es []*sym.E
	var q *sym.E
	for i := 0; i < p.S.Len; i++ {
		e, ok := ToE(m.sliceGet(p.S, i))
		if !ok {
			m.undecided("table lookup at a symbolic index")
		}
		if n := e.Single(); n != nil && n.Op == "red" {
			q = n.Args[1]
		}
		es = append(es, e)
	}
	if len(es) < 2 {
		m.undecided("table lookup at a symbolic index")
	}
	if q != nil {
		for i := range es {
			es[i] = sym.Strip(es[i], q)
		}
	}
	d := sym.Sub(es[1], es[0])
	for i := range es {
		if es[i] != sym.Add(es[0], sym.Mul(sym.Int(int64(i)), d)) {
			m.undecided("table lookup at a symbolic index: the table is not affine")
		}
	}
	r := sym.Add(es[0], sym.Mul(p.Idx, d))
	if q != nil {
		r = sym.Red(r, q)
	}
	return X{r}
}

// Store writes through a pointer.
func (m *Machine) Store(p Value, v Value) {
	switch x := p.(type) {
	case *Ptr:
		c, ok := m.S.Mem[x.O]
		if !ok {
			m.undecided("store to unknown object %v", x.O)
		}
		m.wrote(x.O)
		if x.View > 0 {
			a, ok := v.(*Agg)
			if !ok {
				m.undecided("store of %T through an array view", v)
			}
			st := x.Path[len(x.Path)-1]
			for i, e := range a.V {
				c = m.set(c, append(append([]int(nil), x.Path[:len(x.Path)-1]...), st+i), e)
			}
			m.S.Mem[x.O] = c
			return
		}
		m.S.Mem[x.O] = m.set(c, x.Path, v)
		return
	case *Sel:
		if b, ok := m.known(x.C); ok {
			if b {
				m.Store(x.A, v)
			} else {
				m.Store(x.B, v)
			}
			return
		}
		// weak update on both
		oa := m.Load(x.A)
		m.Store(x.A, m.sel(x.C, v, oa))
		ob := m.Load(x.B)
		m.Store(x.B, m.sel(x.C, ob, v))
		return
	case Nil:
		m.fault("nil pointer dereference")
	}
	m.undecided("store through %T", p)
}

func sub(path []int, i ...int) []int {
	return append(append(make([]int, 0, len(path)+len(i)), path...), i...)
}

func (m *Machine) sliceGet(s Slice, i int) Value {
	return m.get(m.S.Mem[s.O], sub(s.Path, s.Off+i))
}

func (m *Machine) sliceSet(s Slice, i int, v Value) {
	m.Store(&Ptr{O: s.O, Path: sub(s.Path, s.Off+i)}, v)
}

// elemPtr is &s[i].
func (m *Machine) elemPtr(s Slice, i int) *Ptr { return &Ptr{O: s.O, Path: sub(s.Path, s.Off+i)} }

// MakeSlice allocates a zeroed slice.
func (m *Machine) MakeSlice(et types.Type, n, c int) Slice {
	var content Value
	if m.isRowElem(et) && c == m.N {
		content = &Row{N: c, E: sym.Zero, Dom: -1}
	} else {
		a := &Agg{make([]Value, c)}
		if c > 0 {
			z := m.zero(et)
			for i := range a.V {
				a.V[i] = z
			}
		}
		content = a
	}
	o := m.New(types.NewSlice(et), content, "make")
	return Slice{O: o, Len: n, Cap: c}
}

// SliceOf builds a slice from values.
func (m *Machine) SliceOf(et types.Type, vs []Value) Slice {
	s := m.MakeSlice(et, len(vs), len(vs))
	if m.isRowElem(et) && len(vs) == m.N {
		m.S.Mem[s.O] = &Row{N: m.N, Elems: append([]Value(nil), vs...), Dom: -1}
	} else {
		m.S.Mem[s.O] = &Agg{append([]Value(nil), vs...)}
	}
	return s
}

// RowOf returns the row behind a []uint64 that spans a whole coefficient vector, or nil.
func (m *Machine) RowOf(v Value) (*Row, Slice) {
	s, ok := v.(Slice)
	if !ok {
		if isNil(v) {
			m.fault("use of a nil coefficient slice")
		}
		m.undecided("coefficient slice is %T", v)
	}
	c := m.get(m.S.Mem[s.O], s.Path)
	r, ok := c.(*Row)
	if !ok || s.Off != 0 || s.Len != r.N {
		// build a row from the parts
		n := &Row{N: s.Len, Elems: make([]Value, s.Len), Dom: -1}
		for i := range n.Elems {
			n.Elems[i] = m.sliceGet(s, i)
		}
		return n, s
	}
	return r, s
}

// SetRow overwrites the row behind a slice.
func (m *Machine) SetRow(s Slice, r *Row) {
	c := m.get(m.S.Mem[s.O], s.Path)
	if o, ok := c.(*Row); ok && s.Off == 0 && s.Len == o.N {
		m.Store(&Ptr{O: s.O, Path: s.Path}, r)
		return
	}
	for i := 0; i < s.Len; i++ {
		m.sliceSet(s, i, m.elem(r, i))
	}
}

// known consults the assumptions of the current branch.
func (m *Machine) known(c *sym.E) (bool, bool) {
	if c.IsTrue() {
		return true, true
	}
	if c.IsFalse() {
		return false, true
	}
	if b, ok := m.pc[c]; ok {
		return b, true
	}
	if b, ok := m.pc[sym.Not(c)]; ok {
		return !b, true
	}
	return false, false
}

// sel joins two values under a condition (true -> a).
func (m *Machine) sel(c *sym.E, a, b Value) Value {
	if c.IsTrue() {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if Same(a, b) {
		return a
	}
	switch x := a.(type) {
	case *Agg:
		if y, ok := b.(*Agg); ok && len(x.V) == len(y.V) {
			n := &Agg{make([]Value, len(x.V))}
			for i := range n.V {
				n.V[i] = m.sel(c, x.V[i], y.V[i])
			}
			return n
		}
	case *Row:
		if y, ok := b.(*Row); ok && x.N == y.N {
			if x.Elems == nil && y.Elems == nil && (x.Dom == y.Dom || x.E == sym.Zero || y.E == sym.Zero) && (x.Q == y.Q || x.E == sym.Zero || y.E == sym.Zero) {
				d, q := x.Dom, x.Q
				if x.E == sym.Zero {
					d, q = y.Dom, y.Q
				}
				b := x.Bnd()
				if y.Bnd() > b {
					b = y.Bnd()
				}
				return &Row{N: x.N, E: sym.Ite(c, x.E, y.E), Dom: d, Q: q, B: b}
			}
			n := &Row{N: x.N, Elems: make([]Value, x.N), Dom: -1}
			for i := range n.Elems {
				n.Elems[i] = m.sel(c, m.elem(x, i), m.elem(y, i))
			}
			return n
		}
	case Tup:
		if y, ok := b.(Tup); ok && len(x) == len(y) {
			n := make(Tup, len(x))
			for i := range n {
				n[i] = m.sel(c, x[i], y[i])
			}
			return n
		}
	case *MapC:
		if y, ok := b.(*MapC); ok {
			n := x.clone()
			same := len(x.V) == len(y.V)
			for k, v := range x.V {
				w, ok := y.V[k]
				if !ok {
					same = false
					break
				}
				n.V[k] = m.sel(c, v, w)
			}
			if same {
				return n
			}
		}
	case Cx:
		if y, ok := b.(Cx); ok {
			return Cx{m.sel(c, x.Re, y.Re), m.sel(c, x.Im, y.Im)}
		}
	}
	ea, oka := ToE(a)
	eb, okb := ToE(b)
	if oka && okb {
		e := condSub(c, ea, eb)
		_, ba := a.(B)
		_, xba := a.(XB)
		if ba || xba {
			return XB{e}
		}
		return X{e}
	}
	return &Sel{c, a, b}
}

// condSub is the value of a selection; x >= q ? x - q : x for x in [0,2q) is x mod q.
func condSub(c, a, b *sym.E) *sym.E {
	q := sym.Sub(b, a)
	if n := q.Single(); n == nil || n.Op != "atom" {
		q = sym.Neg(q)
		if n := q.Single(); n == nil || n.Op != "atom" {
			return sym.Ite(c, a, b)
		}
	}
	for _, x := range []*sym.E{a, b} {
		lt := sym.Lt(x, q)
		if (x == b && c == sym.Not(lt) && sym.Sub(x, a) == q) || (x == a && c == lt && sym.Sub(x, b) == q) {
			if lo, hi, ok := qBound(x, q); ok && lo >= -1e-9 && hi <= 2+1e-9 {
				return sym.Red(x, q)
			}
		}
	}
	return sym.Ite(c, a, b)
}

// join merges state b into a under condition c (true -> a).
func (m *Machine) join(c *sym.E, a, b *State) *State {
	n := &State{Mem: make(map[*Obj]Value, len(a.Mem))}
	for o, v := range a.Mem {
		if w, ok := b.Mem[o]; ok {
			n.Mem[o] = m.sel(c, v, w)
		} else {
			n.Mem[o] = v
		}
	}
	for o, v := range b.Mem {
		if _, ok := a.Mem[o]; !ok {
			n.Mem[o] = v
		}
	}
	n.copyLocks(a) // held if either path holds it
	n.copyLocks(b)
	return n
}

func (m *Machine) wrote(o *Obj) {
	for i := len(m.frames) - 1; i >= 0; i-- {
		f := m.frames[i]
		if f.repo == 0 {
			f.repo = 1
			if m.P.InRepo(f.Fn) {
				f.repo = 2
			}
		}
		if f.repo == 2 && f.Pos.IsValid() {
			m.LastW[o] = f.Pos
			return
		}
	}
	m.LastW[o] = token.NoPos
}

// Snapshot and Restore save and recover the abstract memory.
func (m *Machine) Snapshot() *State { return m.S.clone() }
func (m *Machine) Restore(s *State) {
	m.S = s.clone()
	m.LastW = map[*Obj]token.Pos{}
	m.Panics = nil
	m.pc = map[*sym.E]bool{}
}

// Depth and Unwind let a harness resume after an abnormal end.
func (m *Machine) Depth() int   { return len(m.frames) }
func (m *Machine) Unwind(d int) { m.frames = m.frames[:d] }

// Zero is the zero value of a type.
func (m *Machine) Zero(t types.Type) Value { return m.zero(t) }

// SliceU64 makes a []uint64.
func (m *Machine) SliceU64(vs []Value) Slice { return m.SliceOf(tU64, vs) }

// Values lists the elements of a slice or array.
func (m *Machine) Values(v Value) []Value {
	if a, ok := v.(*Agg); ok {
		return a.V
	}
	return m.values(v)
}

// MapSet stores an entry of a Go map.
func (m *Machine) MapSet(mv, k, v Value) { m.mapUpdate(mv, k, v) }

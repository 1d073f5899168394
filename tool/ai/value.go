package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mkverif/sym"
)

// Value is an abstract value.  Structure (pointers, lengths, map keys,
// booleans that steer control) is tracked exactly per analysed shape; numbers
// and polynomial coefficients are tracked as algebraic normal forms.
type Value interface{}

type (
	I   int64   // known integer (bit pattern for unsigned)
	F   float64 // known float
	B   bool
	S   string
	X   struct{ E *sym.E } // symbolic number
	XB  struct{ E *sym.E } // symbolic boolean (0/1)
	Cx  struct{ Re, Im Value }
	Nil struct{}
	Tup []Value
	Agg struct{ V []Value } // struct or array (immutable)
	Clo struct {
		Fn    *ssa.Function
		Binds []Value
	}
	Iface struct {
		T types.Type
		V Value
	}
	Top struct{ Why string }
)

// Ptr points to a part of an object.
type Ptr struct {
	O    *Obj
	Path []int
	View int // >0: last path element is the start of an n-element array view
}

type Slice struct {
	O             *Obj
	Path          []int
	Off, Len, Cap int
}

type MapV struct{ O *Obj }

// Bound is a method value / builtin.
type Bound struct {
	Fn   *ssa.Function
	Recv Value
}

// Row is the content of a coefficient vector: either one whole ring element
// modulo Q in some domain, or its individual entries.
type Row struct {
	N     int
	E     *sym.E // whole
	Dom   int    // -1 any, 0 coefficients, 1 NTT, 2.. iterated
	Q     *sym.E // modulus the row is reduced by, nil if none
	B     int    // entries lie in [0, B*Q); 0 means 1
	Elems []Value
	memoQ *sym.E
	memo  *Row
	w     *Frame // activation that wrote the last entry
	comp  *Row   // the row as one ring element, once known
	tried bool
}

// Bnd is the bound of the entries in multiples of the modulus.
func (r *Row) Bnd() int {
	if r.B < 1 {
		return 1
	}
	return r.B
}

// MapC is the content of a map.
type MapC struct {
	Keys []string
	K    map[string]Value
	V    map[string]Value
}

// Obj is an abstract memory object.
type Obj struct {
	ID   int
	T    types.Type
	Pos  token.Pos
	Note string
	Fn   string // allocating function
}

func (o *Obj) String() string {
	if o == nil {
		return "nil"
	}
	return fmt.Sprintf("obj%d(%s %s)", o.ID, o.T, o.Note)
}

// State is the abstract memory.
type State struct {
	Mem   map[*Obj]Value
	Locks map[string]int // mutexes held: -1 for writing, else the number of readers
}

func (s *State) clone() *State {
	n := &State{Mem: make(map[*Obj]Value, len(s.Mem))}
	for k, v := range s.Mem {
		n.Mem[k] = v
	}
	n.copyLocks(s)
	return n
}

func (n *State) copyLocks(s *State) {
	for k, v := range s.Locks {
		n.setLock(k, v)
	}
}

func (n *State) setLock(k string, v int) {
	if n.Locks == nil {
		n.Locks = map[string]int{}
	}
	if n.Locks[k] = v; v == 0 {
		delete(n.Locks, k)
	}
}

func (c *MapC) clone() *MapC {
	n := &MapC{Keys: append([]string(nil), c.Keys...), K: map[string]Value{}, V: map[string]Value{}}
	for k, v := range c.V {
		n.V[k] = v
		n.K[k] = c.K[k]
	}
	return n
}

// SortedKeys returns the keys in canonical order.
func (c *MapC) SortedKeys() []string {
	ks := append([]string(nil), c.Keys...)
	sort.Strings(ks)
	return ks
}

func KeyOf(v Value) (string, bool) {
	switch x := v.(type) {
	case I:
		return fmt.Sprintf("i%020d", int64(x)+(1<<40)), true
	case S:
		return "s" + string(x), true
	case B:
		return fmt.Sprint("b", bool(x)), true
	case Iface:
		k, ok := KeyOf(x.V)
		return x.T.String() + k, ok
	case *Ptr:
		return fmt.Sprintf("p%d%v", x.O.ID, x.Path), true
	case *Agg:
		var sb strings.Builder
		for _, e := range x.V {
			k, ok := KeyOf(e)
			if !ok {
				return "", false
			}
			sb.WriteString(k + "|")
		}
		return "a" + sb.String(), true
	case F:
		return fmt.Sprint("f", float64(x)), true
	case X:
		if sym.IsPrime(x.E) {
			return "q" + x.E.String(), true
		}
	}
	return "", false
}

// ToE converts a numeric value to a normal form.
func ToE(v Value) (*sym.E, bool) {
	switch x := v.(type) {
	case I:
		return sym.Int(int64(x)), true
	case F:
		r := new(big.Rat)
		if r.SetFloat64(float64(x)) == nil {
			return nil, false
		}
		return sym.Rat(r), true
	case X:
		return x.E, true
	case XB:
		return x.E, true
	case B:
		return sym.Bool(bool(x)), true
	}
	return nil, false
}

// EachE calls f for every normal form a value holds directly.
func EachE(v Value, f func(x *sym.E)) {
	switch x := v.(type) {
	case X:
		f(x.E)
	case XB:
		f(x.E)
	case Cx:
		EachE(x.Re, f)
		EachE(x.Im, f)
	case Iface:
		EachE(x.V, f)
	case *Sel:
		f(x.C)
		EachE(x.A, f)
		EachE(x.B, f)
	case *Row:
		if x.E != nil {
			f(x.E)
		}
		for _, w := range x.Elems {
			EachE(w, f)
		}
	case *Agg:
		for _, w := range x.V {
			EachE(w, f)
		}
	case Tup:
		for _, w := range x {
			EachE(w, f)
		}
	case *MapC:
		for _, w := range x.V {
			EachE(w, f)
		}
	}
}

// FromE turns a normal form back into the most concrete value for type t.
func FromE(e *sym.E, t types.Type) Value {
	b, _ := t.Underlying().(*types.Basic)
	if c, ok := e.Const(); ok && b != nil {
		if b.Info()&types.IsFloat != 0 {
			f, _ := c.Float64()
			if r := new(big.Rat); r.SetFloat64(f) != nil && r.Cmp(c) == 0 {
				return F(f)
			}
			return X{e}
		}
		if b.Info()&types.IsInteger != 0 && c.IsInt() {
			if c.Num().IsInt64() {
				return I(c.Num().Int64())
			}
			if c.Num().IsUint64() {
				return I(int64(c.Num().Uint64()))
			}
		}
	}
	return X{e}
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isNil(v Value) bool {
	_, ok := v.(Nil)
	return ok
}

// Zero value of a type.
func (m *Machine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return B(false)
		case u.Info()&types.IsString != 0:
			return S("")
		case u.Info()&types.IsInteger != 0:
			return I(0)
		case u.Info()&types.IsFloat != 0:
			return F(0)
		case u.Info()&types.IsComplex != 0:
			return Cx{F(0), F(0)}
		}
		return Nil{}
	case *types.Struct:
		if isBig(t) {
			return X{sym.Zero}
		}
		a := &Agg{make([]Value, u.NumFields())}
		for i := range a.V {
			a.V[i] = m.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(u.Len())
		if m.isRowElem(u.Elem()) && n == m.N {
			return &Row{N: n, E: sym.Zero, Dom: -1}
		}
		a := &Agg{make([]Value, n)}
		if n > 0 {
			z := m.zero(u.Elem())
			for i := range a.V {
				a.V[i] = z
			}
		}
		return a
	case *types.Tuple:
		t := make(Tup, u.Len())
		for i := range t {
			t[i] = m.zero(u.At(i).Type())
		}
		return t
	}
	return Nil{}
}

func (m *Machine) isRowElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

func isBig(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "math/big" {
		return false
	}
	switch n.Obj().Name() {
	case "Int", "Float", "Rat":
		return true
	}
	return false
}

func eqPath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Same is structural equality of abstract values.
func Same(a, b Value) bool {
	switch x := a.(type) {
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.V) != len(y.V) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.V {
			if !Same(x.V[i], y.V[i]) {
				return false
			}
		}
		return true
	case *Row:
		y, ok := b.(*Row)
		if !ok || x.N != y.N {
			return false
		}
		if x == y {
			return true
		}
		if (x.Elems == nil) != (y.Elems == nil) {
			return false
		}
		if x.Elems == nil {
			return x.E == y.E && (x.Dom == y.Dom || x.E == sym.Zero) && ((x.Q == y.Q && x.Bnd() == y.Bnd()) || x.E == sym.Zero)
		}
		for i := range x.Elems {
			if !Same(x.Elems[i], y.Elems[i]) {
				return false
			}
		}
		return true
	case *Ptr:
		y, ok := b.(*Ptr)
		return ok && x.O == y.O && x.View == y.View && eqPath(x.Path, y.Path)
	case Slice:
		y, ok := b.(Slice)
		return ok && x.O == y.O && x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap && eqPath(x.Path, y.Path)
	case *MapC:
		y, ok := b.(*MapC)
		if !ok || len(x.V) != len(y.V) {
			return false
		}
		if x == y {
			return true
		}
		for k, v := range x.V {
			w, ok := y.V[k]
			if !ok || !Same(v, w) {
				return false
			}
		}
		return true
	case Tup:
		y, ok := b.(Tup)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Same(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Clo:
		y, ok := b.(*Clo)
		if !ok || x.Fn != y.Fn || len(x.Binds) != len(y.Binds) {
			return false
		}
		for i := range x.Binds {
			if !Same(x.Binds[i], y.Binds[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		return ok && types.Identical(x.T, y.T) && Same(x.V, y.V)
	case Cx:
		y, ok := b.(Cx)
		return ok && Same(x.Re, y.Re) && Same(x.Im, y.Im)
	case MapV:
		y, ok := b.(MapV)
		return ok && x.O == y.O
	case nil:
		return b == nil
	}
	switch b.(type) {
	case *Agg, *Row, *Ptr, Slice, *MapC, Tup, *Clo, Iface, Cx, MapV:
		return false
	}
	return a == b
}

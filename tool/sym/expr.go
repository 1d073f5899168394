// Package sym implements the abstract value domain of the analyser: Laurent
// polynomials with rational coefficients over interned nodes.  Integers,
// floats, booleans (idempotent 0/1 nodes), strings and ring elements all live
// in this one normal form, so that two pieces of source text computing the
// same algebraic value obtain the same (pointer-equal) abstract value.
package sym

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Node is an interned non-arithmetic term (atom or function application).
type Node struct {
	ID   int
	Op   string
	S    string
	Args []*E
	Bool bool // idempotent: value is 0 or 1
	Ring bool // denotes a ring element (as opposed to a scalar)
	self *E
	info *Info
}

type FP struct {
	N *Node
	X int
}

type Mono struct {
	C *big.Rat
	F []FP
	k string
}

// E is an immutable polynomial; equal polynomials are pointer-equal.
type E struct {
	M   []Mono
	key string
	id  int
}

var (
	nodeTab = map[string]*Node{}
	nodes   []*Node
	exprTab = map[string]*E{}
)

func intern(op, s string, args []*E) *Node {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(s)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	k := sb.String()
	if n, ok := nodeTab[k]; ok {
		return n
	}
	n := &Node{ID: len(nodes), Op: op, S: s, Args: args}
	switch op {
	case "lt0", "eq0", "bool":
		n.Bool = true
	case "ra", "perm", "lift", "rep", "em", "ring":
		n.Ring = true
	}
	nodes = append(nodes, n)
	nodeTab[k] = n
	return n
}

func monoKey(f []FP) string {
	buf := make([]byte, 0, 6*len(f))
	for _, x := range f {
		id := x.N.ID
		buf = append(buf, byte(id>>21), byte(id>>14)&0x7f, byte(id>>7)&0x7f, byte(id)&0x7f)
		if x.X > -60 && x.X < 60 {
			buf = append(buf, byte(x.X+64))
		} else {
			buf = append(buf, 200)
			buf = strconv.AppendInt(buf, int64(x.X), 10)
			buf = append(buf, 201)
		}
	}
	return string(buf)
}

func build(acc map[string]*Mono) *E {
	keys := make([]string, 0, len(acc))
	for k, m := range acc {
		if m.C.Sign() != 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	sb := make([]byte, 0, 16*len(keys))
	for _, k := range keys {
		m := acc[k]
		if m.C.Cmp(one) != 0 {
			if m.C.IsInt() && m.C.Num().IsInt64() {
				sb = strconv.AppendInt(sb, m.C.Num().Int64(), 10)
			} else {
				sb = append(sb, m.C.RatString()...)
			}
		}
		sb = append(sb, '*')
		sb = append(sb, byte(len(k)), byte(len(k)>>8))
		sb = append(sb, k...)
	}
	if e, ok := exprTab[string(sb)]; ok {
		return e
	}
	key := string(sb)
	ms := make([]Mono, 0, len(keys))
	for _, k := range keys {
		m := acc[k]
		m.k = k
		ms = append(ms, *m)
	}
	e := &E{M: ms, key: key, id: len(exprTab)}
	exprTab[key] = e
	return e
}

func addTo(acc map[string]*Mono, m Mono, c *big.Rat) {
	k := m.k
	if k == "" && len(m.F) > 0 {
		k = monoKey(m.F)
	}
	nc := m.C
	if c != one {
		nc = new(big.Rat).Mul(m.C, c)
	}
	if o, ok := acc[k]; ok {
		acc[k] = &Mono{C: new(big.Rat).Add(nc, o.C), F: m.F, k: k}
	} else {
		acc[k] = &Mono{C: nc, F: m.F, k: k}
	}
}

var one = big.NewRat(1, 1)

func Rat(r *big.Rat) *E {
	return build(map[string]*Mono{"": {C: new(big.Rat).Set(r)}})
}
func Int(i int64) *E { return Rat(big.NewRat(i, 1)) }
func BigI(i *big.Int) *E {
	return Rat(new(big.Rat).SetInt(i))
}

var (
	Zero = Int(0)
	One  = Int(1)
)

func (n *Node) E() *E {
	if n.self == nil {
		n.self = build(map[string]*Mono{monoKey([]FP{{n, 1}}): {C: one, F: []FP{{n, 1}}}})
	}
	return n.self
}

func Add(es ...*E) *E {
	acc := map[string]*Mono{}
	for _, e := range es {
		for _, m := range e.M {
			addTo(acc, m, one)
		}
	}
	return build(acc)
}

func Sub(a, b *E) *E {
	if a == b {
		return Zero
	}
	acc := map[string]*Mono{}
	for _, m := range a.M {
		addTo(acc, m, one)
	}
	neg := big.NewRat(-1, 1)
	for _, m := range b.M {
		addTo(acc, m, neg)
	}
	return build(acc)
}

func Neg(a *E) *E { return Scale(a, big.NewRat(-1, 1)) }

func Scale(a *E, c *big.Rat) *E {
	acc := map[string]*Mono{}
	for _, m := range a.M {
		addTo(acc, m, c)
	}
	return build(acc)
}

func mulMono(a, b []FP) []FP {
	r := make([]FP, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].N.ID < b[j].N.ID):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j].N.ID < a[i].N.ID:
			r = append(r, b[j])
			j++
		default:
			x := a[i].X + b[j].X
			if a[i].N.Bool && x > 1 {
				x = 1
			}
			if x != 0 {
				r = append(r, FP{a[i].N, x})
			}
			i++
			j++
		}
	}
	return r
}

func Mul(es ...*E) *E {
	if len(es) == 0 {
		return One
	}
	r := es[0]
	for _, e := range es[1:] {
		r = mul2(r, e)
	}
	return r
}

// MaxMonos bounds the size of a product; beyond it an opaque node is used.
const MaxMonos = 2000000

func mul2(a, b *E) *E {
	if a == Zero || b == Zero {
		return Zero
	}
	if a == One {
		return b
	}
	if b == One {
		return a
	}
	if len(a.M)*len(b.M) > MaxMonos {
		return App("bigprod", "", a, b)
	}
	acc := map[string]*Mono{}
	for _, x := range a.M {
		for _, y := range b.M {
			f := mulMono(x.F, y.F)
			c := x.C
			if x.C == one || x.C.Cmp(one) == 0 {
				c = y.C
			} else if y.C != one {
				c = new(big.Rat).Mul(x.C, y.C)
			}
			addTo(acc, Mono{C: c, F: f}, one)
		}
	}
	return build(acc)
}

// Const returns the constant value of e if it is constant.
func (e *E) Const() (*big.Rat, bool) {
	if len(e.M) == 0 {
		return new(big.Rat), true
	}
	if len(e.M) == 1 && len(e.M[0].F) == 0 {
		return e.M[0].C, true
	}
	return nil, false
}

func (e *E) Int() (int64, bool) {
	c, ok := e.Const()
	if !ok || !c.IsInt() || !c.Num().IsInt64() {
		return 0, false
	}
	return c.Num().Int64(), true
}

func (e *E) IsTrue() bool  { return e == One }
func (e *E) IsFalse() bool { return e == Zero }

// Single returns the node if e is exactly one node with coefficient 1.
func (e *E) Single() *Node {
	if len(e.M) == 1 && len(e.M[0].F) == 1 && e.M[0].F[0].X == 1 && e.M[0].C.Cmp(one) == 0 {
		return e.M[0].F[0].N
	}
	return nil
}

// Inv returns 1/e as a Laurent expression.
func Inv(e *E) *E {
	if len(e.M) == 1 {
		m := e.M[0]
		f := make([]FP, len(m.F))
		for i, x := range m.F {
			f[i] = FP{x.N, -x.X}
		}
		acc := map[string]*Mono{}
		addTo(acc, Mono{C: new(big.Rat).Inv(m.C), F: f}, one)
		return build(acc)
	}
	if len(e.M) == 0 {
		return intern("divzero", "", nil).E()
	}
	// canonical sign/scale: make the leading coefficient 1
	c := e.M[0].C
	s := Scale(e, new(big.Rat).Inv(c))
	n := intern("recip", "", []*E{s})
	return Scale(n.E(), new(big.Rat).Inv(c))
}

func Div(a, b *E) *E { return Mul(a, Inv(b)) }

func PowInt(a *E, k int) *E {
	if k < 0 {
		return PowInt(Inv(a), -k)
	}
	r := One
	for i := 0; i < k; i++ {
		r = Mul(r, a)
	}
	return r
}

// App builds a function application through the simplifier.
func App(op, s string, args ...*E) *E { return simp(op, s, args) }

func raw(op, s string, args ...*E) *E { return intern(op, s, args).E() }

// Raw interns an application without simplification.
func Raw(op, s string, args ...*E) *E { return raw(op, s, args...) }

func Atom(name string) *E  { return intern("atom", name, nil).E() }
func RAtom(name string) *E { return intern("ra", name, nil).E() }
func BAtom(name string) *E { return intern("bool", name, nil).E() }

func (e *E) String() string {
	if len(e.M) == 0 {
		return "0"
	}
	var parts []string
	for _, m := range e.M {
		var fs []string
		if m.C.Cmp(one) != 0 || len(m.F) == 0 {
			fs = append(fs, m.C.RatString())
		}
		for _, f := range m.F {
			s := f.N.String()
			if f.X != 1 {
				s += fmt.Sprintf("^%d", f.X)
			}
			fs = append(fs, s)
		}
		parts = append(parts, strings.Join(fs, "·"))
	}
	sort.Strings(parts)
	return strings.ReplaceAll(strings.Join(parts, " + "), "+ -", "- ")
}

func (n *Node) String() string {
	switch n.Op {
	case "atom", "ra", "bool":
		return n.S
	case "str":
		return fmt.Sprintf("%q", n.S)
	}
	var as []string
	for _, a := range n.Args {
		as = append(as, a.String())
	}
	name := n.Op
	if n.S != "" {
		name += "<" + n.S + ">"
	}
	return name + "(" + strings.Join(as, ",") + ")"
}

// Nodes visits every node of e (deeply, once each).
func (e *E) Visit(f func(*Node)) { e.visit(f, map[int]bool{}) }
func (e *E) visit(f func(*Node), seen map[int]bool) {
	for _, m := range e.M {
		for _, x := range m.F {
			if !seen[x.N.ID] {
				seen[x.N.ID] = true
				f(x.N)
				for _, a := range x.N.Args {
					a.visit(f, seen)
				}
			}
		}
	}
}

// FromMono turns one monomial back into an expression.
func FromMono(c *big.Rat, f []FP) *E {
	acc := map[string]*Mono{}
	addTo(acc, Mono{C: c, F: f}, one)
	return build(acc)
}

// Fac returns node^x.
func Fac(n *Node, x int) *E {
	if x == 1 {
		return n.E()
	}
	return FromMono(one, []FP{{n, x}})
}

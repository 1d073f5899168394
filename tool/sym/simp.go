package sym

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
)

// TwoN is the order parameter 2N of the automorphism group of the shape under analysis.
var TwoN = 32

// Info caches derived facts of a node.
type Info struct {
	kdone bool
	kset  []int // coefficient positions the node depends on
	lo    float64
	hi    float64
	rng   int // 0 unknown-yet, 1 known, 2 none
	prime bool
}

func (n *Node) inf() *Info {
	if n.info == nil {
		n.info = &Info{}
	}
	return n.info
}

// SetRange declares the interval of a scalar atom, once: simplifications rely on it.
func SetRange(a *E, lo, hi float64) {
	i := a.Single().inf()
	if i.rng == 1 && (i.lo != lo || i.hi != hi) {
		panic("the interval of " + a.String() + " changed")
	}
	i.lo, i.hi, i.rng = lo, hi, 1
}

// SetPrime declares that an atom stands for a prime of one parameter set: two
// of them with different names are different numbers.
func SetPrime(a *E) { a.Single().inf().prime = true }

// IsPrime tells an atom declared by SetPrime.
func IsPrime(e *E) bool {
	n := e.Single()
	return n != nil && n.info != nil && n.info.prime
}

// ---- booleans and comparisons ----

func Bool(b bool) *E {
	if b {
		return One
	}
	return Zero
}
func Not(b *E) *E { return Sub(One, b) }

// Ite(c,a,b) = c*a + (1-c)*b, the join of two values under condition c.
func Ite(c, a, b *E) *E {
	if a == b || c == One {
		return a
	}
	if c == Zero {
		return b
	}
	return Add(b, Mul(c, Sub(a, b)))
}

// Lt is the truth value of a < b.
func Lt(a, b *E) *E {
	d := Sub(a, b)
	if c, ok := d.Const(); ok {
		return Bool(c.Sign() < 0)
	}
	if lo, hi, ok := d.Range(); ok {
		if hi < 0 {
			return One
		}
		if lo >= 0 {
			return Zero
		}
	}
	c := new(big.Rat).Abs(d.M[0].C)
	return raw("lt0", "", Scale(d, new(big.Rat).Inv(c)))
}

// EqE is the truth value of a == b.
func EqE(a, b *E) *E {
	d := Sub(a, b)
	if c, ok := d.Const(); ok {
		return Bool(c.Sign() == 0)
	}
	if IsPrime(a) && IsPrime(b) {
		return Zero
	}
	if lo, hi, ok := d.Range(); ok && (lo > 0 || hi < 0) {
		return Zero
	}
	return raw("eq0", "", Scale(d, new(big.Rat).Inv(d.M[0].C)))
}

// Range bounds a scalar expression.
func (e *E) Range() (lo, hi float64, ok bool) {
	for _, m := range e.M {
		c, _ := m.C.Float64()
		l, h := c, c
		for _, f := range m.F {
			fl, fh, k := f.N.Range()
			if !k {
				return 0, 0, false
			}
			if f.X < 0 {
				if fl <= 0 && fh >= 0 {
					return 0, 0, false
				}
				fl, fh = 1/fh, 1/fl
			}
			x := f.X
			if x < 0 {
				x = -x
			}
			for ; x > 0; x-- {
				a, b, c2, d := l*fl, l*fh, h*fl, h*fh
				l = math.Min(math.Min(a, b), math.Min(c2, d))
				h = math.Max(math.Max(a, b), math.Max(c2, d))
			}
		}
		lo += l
		hi += h
	}
	return lo, hi, true
}

func (n *Node) Range() (lo, hi float64, ok bool) {
	i := n.inf()
	if i.rng == 0 {
		i.rng = 2
		if n.Bool {
			i.lo, i.hi, i.rng = 0, 1, 1
		} else {
			switch n.Op {
			case "trunc":
				if l, h, ok := n.Args[0].Range(); ok {
					i.lo, i.hi, i.rng = math.Trunc(l), math.Trunc(h), 1
				}
			case "floor", "round", "ceil":
				if l, h, ok := n.Args[0].Range(); ok {
					i.lo, i.hi, i.rng = math.Floor(l), math.Ceil(h), 1
				}
			case "red":
				if _, h, ok := n.Args[1].Range(); ok {
					i.lo, i.hi, i.rng = 0, h-1, 1
				}
			case "lazy":
				if _, h, ok := n.Args[1].Range(); ok {
					b, _ := strconv.Atoi(n.S)
					i.lo, i.hi, i.rng = 0, h*float64(b), 1
				}
			case "minv":
				if _, h, ok := n.Args[1].Range(); ok {
					i.lo, i.hi, i.rng = 0, h, 1
				}
			case "frac":
				i.lo, i.hi, i.rng = 0, 1, 1
			case "and": // q & (q-1) for an odd modulus q > 1 is not 0
				a, b := n.Args[0], n.Args[1]
				if Sub(a, b) == One || Sub(b, a) == One {
					if Sub(b, a) == One {
						a = b
					}
					if l, h, ok := a.Range(); ok && l > 2 && a.Single() != nil && a.Single().Op == "atom" {
						i.lo, i.hi, i.rng = 1, h, 1
					}
				}
			case "lo64":
				i.lo, i.hi, i.rng = 0, math.Ldexp(1, 64), 1
			case "abs":
				if l, h, ok := n.Args[0].Range(); ok {
					if l < 0 {
						l = 0
					}
					i.lo, i.hi, i.rng = l, math.Max(math.Abs(l), math.Abs(h)), 1
				}
			}
		}
	}
	return i.lo, i.hi, i.rng == 1
}

// Integral reports whether e is syntactically integer valued.
func (e *E) Integral() bool {
	for _, m := range e.M {
		if !m.C.IsInt() {
			return false
		}
		for _, f := range m.F {
			if f.X < 0 {
				return false
			}
			switch f.N.Op {
			case "atom":
				if len(f.N.S) > 0 && f.N.S[0] == '~' { // real-valued atoms
					return false
				}
			case "trunc", "floor", "round", "ceil", "red", "lazy", "lo64", "lt0", "eq0", "bool", "minv", "el", "shr", "and", "or", "xor", "idiv", "imod":
			default:
				return false
			}
		}
	}
	return true
}

func simp(op, s string, a []*E) *E {
	switch op {
	case "trunc", "floor", "ceil", "round":
		if c, ok := a[0].Const(); ok {
			q := new(big.Int)
			half := big.NewRat(1, 2)
			switch op {
			case "trunc":
				q.Quo(c.Num(), c.Denom())
			case "floor":
				q.Div(c.Num(), c.Denom())
			case "ceil":
				q.Div(new(big.Int).Neg(c.Num()), c.Denom())
				q.Neg(q)
			case "round":
				if c.Sign() >= 0 {
					t := new(big.Rat).Add(c, half)
					q.Div(t.Num(), t.Denom())
				} else {
					t := new(big.Rat).Sub(half, c)
					q.Div(t.Num(), t.Denom())
					q.Neg(q)
				}
			}
			return BigI(q)
		}
		if a[0].Integral() {
			return a[0]
		}
		if lo, hi, ok := a[0].Range(); ok && op != "round" {
			f := math.Floor
			switch op {
			case "trunc":
				f = math.Trunc
			case "ceil":
				f = math.Ceil
			}
			if f(lo) == f(hi) && math.Abs(lo) < 1<<50 && f(lo*(1-1e-12)) == f(hi*(1+1e-12)) {
				return Int(int64(f(lo)))
			}
		}
		return raw(op, s, a...)
	case "abs":
		if c, ok := a[0].Const(); ok {
			return Rat(new(big.Rat).Abs(c))
		}
		if lo, hi, ok := a[0].Range(); ok {
			if lo >= 0 {
				return a[0]
			}
			if hi <= 0 {
				return Neg(a[0])
			}
		}
		return raw(op, s, a...)
	case "max", "min":
		if a[0] == a[1] {
			return a[0]
		}
		c := Lt(a[0], a[1])
		if op == "max" {
			return Ite(c, a[1], a[0])
		}
		return Ite(c, a[0], a[1])
	case "fdiv": // floor division with explicit fractional part: a/b - frac(a/b)
		q := Div(a[0], a[1])
		if c, ok := q.Const(); ok {
			return BigI(new(big.Int).Div(c.Num(), c.Denom()))
		}
		if q.Integral() {
			return q
		}
		return Sub(q, raw("frac", "", q))
	case "red":
		return Red(a[0], a[1])
	case "lo64":
		return Lo64(a[0])
	case "and", "or", "xor":
		if a[1] == Zero {
			if op == "and" {
				return Zero
			}
			return a[0]
		}
		if a[0] == Zero {
			if op == "and" {
				return Zero
			}
			return a[1]
		}
		if a[1].id < a[0].id {
			a = []*E{a[1], a[0]}
		}
		return raw(op, s, a...)
	case "perm":
		g, _ := strconv.Atoi(s)
		return Perm(g, a[0])
	}
	return raw(op, s, a...)
}

// R is the Montgomery constant 2^64 as an atom.
var R = Atom("R")

func init() { SetRange(R, 18446744073709551616, 18446744073709551616) }

// Lo64 is e mod 2^64 for an integer e.
func Lo64(e *E) *E {
	if n := e.Single(); n != nil && n.Op == "lo64" {
		return e
	}
	if c, ok := e.Const(); ok && c.IsInt() && c.Sign() >= 0 && c.Num().BitLen() <= 64 {
		return e
	}
	// strip inner lo64 of each monomial: lo64(lo64(x)*y) = lo64(x*y); q*qinv = 1
	acc := Zero
	changed := true
	for changed {
		changed = false
		acc = Zero
		for _, m := range e.M {
			t := Rat(m.C)
			for _, f := range m.F {
				if f.N.Op == "lo64" && f.X == 1 && m.C.IsInt() {
					t = Mul(t, f.N.Args[0])
					changed = true
				} else {
					t = Mul(t, Fac(f.N, f.X))
				}
			}
			// qinv(q)*q = 1
			acc = Add(acc, t)
		}
		e = cancelQinv(acc)
	}
	e = cancelQinv(e)
	return raw("lo64", "", e)
}

func cancelQinv(e *E) *E {
	acc := Zero
	for _, m := range e.M {
		t := Rat(m.C)
		var fs []FP
		fs = append(fs, m.F...)
		for i := range fs {
			if fs[i].N.Op == "qinv" && fs[i].X > 0 {
				q := fs[i].N.Args[0].Single()
				for j := range fs {
					if fs[j].N == q && fs[j].X > 0 {
						k := fs[i].X
						if fs[j].X < k {
							k = fs[j].X
						}
						fs[i].X -= k
						fs[j].X -= k
					}
				}
			}
		}
		for _, f := range fs {
			if f.X != 0 {
				t = Mul(t, Fac(f.N, f.X))
			}
		}
		acc = Add(acc, t)
	}
	return acc
}

// Strip returns the canonical representative of e modulo q: multiples of q are
// dropped and inner reductions modulo the same q are unfolded.
func Strip(e, q *E) *E {
	if len(q.M) != 1 || len(q.M[0].F) == 0 || q.M[0].C.Cmp(one) != 0 {
		return e
	}
	for {
		changed := false
		acc := Zero
		for _, m := range e.M {
			nest := false
			drop := divides(q, m)
			for _, f := range m.F {
				if unfolds(f.N, q) && f.X > 0 {
					nest = true
				}
			}
			if drop {
				changed = true
				continue
			}
			if nest {
				changed = true
				t := Rat(m.C)
				for _, f := range m.F {
					if unfolds(f.N, q) && f.X > 0 {
						if f.N.Op == "minv" {
							t = Mul(t, PowInt(f.N.Args[0], -f.X))
							continue
						}
						t = Mul(t, PowInt(f.N.Args[0], f.X))
					} else {
						t = Mul(t, Fac(f.N, f.X))
					}
				}
				acc = Add(acc, t)
				continue
			}
			acc = Add(acc, FromMono(m.C, m.F))
		}
		e = acc
		if !changed {
			return e
		}
	}
}

// divides reports whether the modulus (a product of atoms) divides the monomial.
func divides(q *E, m Mono) bool {
	for _, g := range q.M[0].F {
		ok := false
		for _, f := range m.F {
			if f.N == g.N && f.X >= g.X {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// unfolds: a reduction modulo a multiple of q disappears modulo q, and so does
// the integer inverse modulo a multiple of q.
func unfolds(n *Node, q *E) bool {
	switch n.Op {
	case "red", "lazy", "minv":
		b := n.Args[1]
		if b == q {
			return true
		}
		return len(b.M) == 1 && b.M[0].C.IsInt() && divides(q, b.M[0])
	}
	return false
}

// Red is the residue of e modulo q in [0,q).
func Red(e, q *E) *E {
	e = Strip(e, q)
	if c, ok := e.Const(); ok && c.IsInt() && c.Sign() >= 0 {
		if qc, ok := q.Const(); ok {
			return BigI(new(big.Int).Mod(c.Num(), qc.Num()))
		}
		if lo, _, ok := q.Range(); ok {
			if f, _ := c.Float64(); f < lo {
				return e
			}
		}
	}
	if qc, ok := q.Const(); ok {
		if c, ok := e.Const(); ok && c.IsInt() {
			return BigI(new(big.Int).Mod(c.Num(), qc.Num()))
		}
	}
	return raw("red", "", e, q)
}

// ---- rows: polynomials modulo one prime, seen whole or per position ----

// J is the polynomial all of whose stored entries are 1.
var J = RAtom("J")

// Perm applies the automorphism X -> X^g, a ring homomorphism.
func Perm(g int, e *E) *E {
	g = ((g % TwoN) + TwoN) % TwoN
	if g == 1 {
		return e
	}
	acc := Zero
	for _, m := range e.M {
		t := Rat(m.C)
		for _, f := range m.F {
			if !f.N.Ring {
				t = Mul(t, Fac(f.N, f.X))
				continue
			}
			t = Mul(t, PowInt(permNode(g, f.N), f.X))
		}
		acc = Add(acc, t)
	}
	return acc
}

func permNode(g int, n *Node) *E {
	if n.Op == "perm" {
		h, _ := strconv.Atoi(n.S)
		x := n.Args[0]
		gh := g * h % TwoN
		if gh == 1 {
			return x
		}
		return raw("perm", strconv.Itoa(gh), x)
	}
	return raw("perm", strconv.Itoa(g), n.E())
}

// splitRing separates the ring factors of a monomial from its scalar factors.
func splitRing(m Mono) (sc *E, rg []FP) {
	sc = Rat(m.C)
	for _, f := range m.F {
		if f.N.Ring {
			rg = append(rg, f)
		} else {
			sc = Mul(sc, Fac(f.N, f.X))
		}
	}
	return
}

func el(m *E, dom, k int) *E { return raw("el", strconv.Itoa(k), m, Int(int64(dom))) }

// ElAt is the stored entry at position k of the row (e,dom) as an unreduced linear expression.
func ElAt(e *E, dom, k int) *E {
	acc := Zero
	for _, m := range e.M {
		sc, rg := splitRing(m)
		var v *E
		switch {
		case len(rg) == 0:
			v = One
			if dom == 0 && k != 0 {
				v = Zero
			}
		case len(rg) == 1 && rg[0].X == 1:
			n := rg[0].N
			switch {
			case n.E() == J && dom <= 0:
				v = One
			case n.Op == "lift" && len(n.Args) == 2 && n.S == strconv.Itoa(dom):
				v = Red(ElAt(n.Args[0], dom, k), n.Args[1])
			case n.Op == "em" && emDom(n) == dom:
				v = emAt(n, dom, k)
			default:
				v = el(n.E(), dom, k)
			}
		default:
			v = el(FromMono(one, rg), dom, k)
		}
		acc = Add(acc, Mul(sc, v))
	}
	return acc
}

func emDom(n *Node) int {
	d := 0
	fmt.Sscanf(n.S, "%d:", &d)
	return d
}

func emName(n *Node) string {
	for i := 0; i < len(n.S); i++ {
		if n.S[i] == ':' {
			return n.S[i+1:]
		}
	}
	return n.S
}

func emAt(n *Node, dom, k int) *E {
	name := emName(n)
	if name == "vec" {
		return n.Args[k]
	}
	if name == "had" {
		return Mul(ElAt(n.Args[0], dom, k), ElAt(n.Args[1], dom, k))
	}
	var as []*E
	for _, a := range n.Args {
		as = append(as, ElAt(a, dom, k))
	}
	op, s := name, ""
	for i := 0; i < len(name); i++ {
		if name[i] == '/' {
			op, s = name[:i], name[i+1:]
		}
	}
	return App(op, s, as...)
}

// kset returns the positions an elementwise node depends on.
func (n *Node) kset() []int {
	i := n.inf()
	if i.kdone {
		return i.kset
	}
	i.kdone = true
	if n.Ring {
		return nil
	}
	if n.Op == "el" {
		k, _ := strconv.Atoi(n.S)
		i.kset = []int{k}
		return i.kset
	}
	set := map[int]bool{}
	for _, a := range n.Args {
		for _, k := range a.KSet() {
			set[k] = true
		}
	}
	for k := range set {
		i.kset = append(i.kset, k)
	}
	sort.Ints(i.kset)
	return i.kset
}

func (e *E) KSet() []int {
	set := map[int]bool{}
	for _, m := range e.M {
		for _, f := range m.F {
			for _, k := range f.N.kset() {
				set[k] = true
			}
		}
	}
	var r []int
	for k := range set {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// abst turns the entry expression e at position k back into a row expression.
// dom is set from the el nodes (or stays -1 when only constants occur).
func abst(e *E, k int, dom *int) (*E, bool) {
	acc := map[string]*Mono{}
	jn := J.Single()
	for _, m := range e.M {
		sc := make([]FP, 0, len(m.F)+1)
		var parts []*E
		for _, f := range m.F {
			ks := f.N.kset()
			if len(ks) == 0 {
				sc = append(sc, f)
				continue
			}
			if len(ks) != 1 || ks[0] != k || f.X < 0 {
				return nil, false
			}
			p, ok := abstNode(f.N, k, dom)
			if !ok {
				return nil, false
			}
			for i := 0; i < f.X; i++ {
				parts = append(parts, p)
			}
		}
		if len(parts) == 0 {
			addTo(acc, Mono{C: m.C, F: mulMono(sc, []FP{{jn, 1}})}, one)
			continue
		}
		p := parts[0]
		for _, q := range parts[1:] {
			if *dom == 1 {
				p = Mul(p, q)
			} else {
				a, b := p, q
				if b.id < a.id {
					a, b = b, a
				}
				p = raw("em", fmt.Sprintf("%d:had", *dom), a, b)
			}
		}
		for _, x := range p.M {
			c := m.C
			if x.C.Cmp(one) != 0 {
				c = new(big.Rat).Mul(m.C, x.C)
			}
			addTo(acc, Mono{C: c, F: mulMono(sc, x.F)}, one)
		}
	}
	return build(acc), true
}

type abKey struct{ n, k int }
type abRes struct {
	e   *E
	dom int
	ok  bool
}

var abMemo = map[abKey]abRes{}

func abstNode(n *Node, k int, dom *int) (*E, bool) {
	key := abKey{n.ID, k}
	r, hit := abMemo[key]
	if !hit {
		d := -1
		e, ok := abstNode1(n, k, &d)
		r = abRes{e, d, ok}
		abMemo[key] = r
	}
	if !r.ok {
		return nil, false
	}
	if *dom == -1 {
		*dom = r.dom
	} else if r.dom != -1 && *dom != r.dom {
		return nil, false
	}
	return r.e, true
}

func abstNode1(n *Node, k int, dom *int) (*E, bool) {
	if n.Op == "el" {
		d64, _ := n.Args[1].Int()
		d := int(d64)
		if *dom == -1 {
			*dom = d
		} else if *dom != d {
			return nil, false
		}
		return n.Args[0], true
	}
	var as []*E
	for i, a := range n.Args {
		if (n.Op == "red" || n.Op == "lazy") && i == 1 {
			break
		}
		x, ok := abst(a, k, dom)
		if !ok {
			return nil, false
		}
		as = append(as, x)
	}
	if n.Op == "red" {
		if *dom == 1 {
			as[0] = dropJ(as[0])
		}
		as[0] = LiftPat(as[0], *dom, n.Args[1])
		return raw("lift", strconv.Itoa(*dom), as[0], n.Args[1]), true
	}
	name := n.Op
	if n.S != "" {
		name += "/" + n.S
	}
	return raw("em", fmt.Sprintf("%d:%s", *dom, name), as...), true
}

// dropJ: in the evaluation domain the all-ones row is the ring constant 1.
func DropJ(e *E) *E { return dropJ(e) }

func dropJ(e *E) *E {
	acc := Zero
	for _, m := range e.M {
		t := Rat(m.C)
		for _, f := range m.F {
			if f.N.E() == J {
				continue
			}
			t = Mul(t, Fac(f.N, f.X))
		}
		acc = Add(acc, t)
	}
	return acc
}

// Generalise recognises a row from its entries (already stripped modulo q).
// It returns the row expression and its domain (-1: any).
func Generalise(es []*E, q *E) (*E, int) {
	dom := -1
	r0, ok := abst(es[0], 0, &dom)
	if ok {
		same := true
		for k := 1; k < len(es); k++ {
			d := dom
			r, ok := abst(es[k], k, &d)
			if !ok || r != r0 || d != dom {
				same = false
				break
			}
		}
		if same {
			if dom == 1 {
				r0 = dropJ(r0)
			}
			return LiftPat(r0, dom, q), dom
		}
	}
	if r, ok := genPermWhole(es, q); ok {
		return r, 0
	}
	if r, d, ok := genPerm(es); ok {
		return r, d
	}
	if r, ok := genConst0(es); ok {
		return r, 0
	}
	return raw("em", "0:vec", es...), 0
}

// genConst0: only the constant coefficient differs -> ring constant plus regular row.
func genConst0(es []*E) (*E, bool) {
	dom := -1
	r1, ok := abst(es[1], 1, &dom)
	if !ok || (dom != 0 && dom != -1) {
		return nil, false
	}
	for k := 2; k < len(es); k++ {
		d := dom
		r, ok := abst(es[k], k, &d)
		if !ok || r != r1 || d != dom {
			return nil, false
		}
	}
	d := dom
	r0, ok := abst(es[0], 0, &d)
	if !ok || d != dom {
		return nil, false
	}
	diff := Sub(r0, r1)
	c := dropJ(diff)
	for _, m := range c.M {
		for _, f := range m.F {
			if f.N.Ring {
				return nil, false
			}
		}
	}
	return Add(r1, c), true
}

// genPermWhole recognises a row all of whose terms are moved by one automorphism.
func genPermWhole(es []*E, q *E) (*E, bool) {
	n := len(es)
	src := make([]int, n)
	inv := make([]int, n)
	for i := range inv {
		inv[i] = -1
	}
	for k, e := range es {
		ks := e.KSet()
		if len(ks) != 1 || ks[0] >= n || inv[ks[0]] >= 0 {
			return nil, false
		}
		src[k] = ks[0]
		inv[ks[0]] = k
	}
	for _, g := range []int{inv[1], inv[1] + n} {
		if g%2 == 0 || g == 1 {
			continue
		}
		dom := -1
		var r0 *E
		ok := true
		for i := 0; i < n && ok; i++ {
			d := (i * g) % (2 * n)
			neg := d >= n
			if neg {
				d -= n
			}
			if src[d] != i {
				ok = false
				break
			}
			x := es[d]
			if neg {
				x = Neg(x)
			}
			dd := dom
			r, o := abst(x, i, &dd)
			if !o || dd != 0 {
				ok = false
				break
			}
			dom = dd
			if r0 == nil {
				r0 = r
			} else if r0 != r {
				ok = false
			}
		}
		if ok {
			return Perm(g, LiftPat(r0, 0, q)), true
		}
		// the automorphism was applied before the entries were computed
		ok = true
		r0, dom = nil, -1
		for d := 0; d < n && ok; d++ {
			e := n2(src[d], g, n)
			if e.d != d {
				ok = false
				break
			}
			x := substEl(es[d], src[d], d, e.neg, g, map[*E]*E{})
			dd := dom
			r, o := abst(x, d, &dd)
			if !o || dd != 0 || (r0 != nil && r != r0) {
				ok = false
				break
			}
			r0, dom = r, dd
		}
		if ok {
			return LiftPat(r0, 0, q), true
		}
	}
	return nil, false
}

type permPos struct {
	d   int
	neg bool
}

func n2(i, g, n int) permPos {
	d := (i * g) % (2 * n)
	if d >= n {
		return permPos{d - n, true}
	}
	return permPos{d, false}
}

// substEl rewrites el<src>(x) to the equal +-el<d>(perm_g(x)) everywhere in e.
func substEl(e *E, src, d int, neg bool, g int, memo map[*E]*E) *E {
	if r, ok := memo[e]; ok {
		return r
	}
	acc := Zero
	for _, m := range e.M {
		t := Rat(m.C)
		for _, f := range m.F {
			if len(f.N.kset()) == 0 {
				t = Mul(t, Fac(f.N, f.X))
				continue
			}
			var v *E
			if f.N.Op == "el" {
				v = ElAt(Perm(g, f.N.Args[0]), 0, d)
				if neg {
					v = Neg(v)
				}
			} else {
				as := make([]*E, len(f.N.Args))
				for i, a := range f.N.Args {
					as[i] = substEl(a, src, d, neg, g, memo)
				}
				if f.N.Op == "red" {
					v = Red(as[0], as[1])
				} else {
					v = raw(f.N.Op, f.N.S, as...)
				}
			}
			t = Mul(t, PowInt(v, f.X))
		}
		acc = Add(acc, t)
	}
	memo[e] = acc
	return acc
}

type permTerm struct {
	coef *E
	src  int
}

// genPerm recognises a signed index permutation induced by an automorphism.
func genPerm(es []*E) (*E, int, bool) {
	n := len(es)
	dom := -1
	tab := map[*E][]permTerm{}
	var order []*E
	for k, e := range es {
		for _, m := range e.M {
			sc := Rat(m.C)
			var M *E
			src := -1
			for _, f := range m.F {
				if f.N.Op == "el" && f.X == 1 && M == nil {
					M = f.N.Args[0]
					d, _ := f.N.Args[1].Int()
					if dom == -1 {
						dom = int(d)
					} else if dom != int(d) {
						return nil, 0, false
					}
					src, _ = strconv.Atoi(f.N.S)
					continue
				}
				if len(f.N.kset()) > 0 {
					return nil, 0, false
				}
				sc = Mul(sc, Fac(f.N, f.X))
			}
			if M == nil {
				return nil, 0, false
			}
			if _, ok := tab[M]; !ok {
				order = append(order, M)
			}
			if len(tab[M]) != k {
				return nil, 0, false
			}
			tab[M] = append(tab[M], permTerm{sc, src})
		}
	}
	if dom != 0 || len(order) == 0 {
		return nil, 0, false
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	acc := Zero
	for _, M := range order {
		ts := tab[M]
		if len(ts) != n {
			return nil, 0, false
		}
		// position of source 1 determines g
		pos := -1
		c0 := ts[0].coef
		for k, t := range ts {
			if t.src == 1 {
				pos = k
			}
		}
		if pos < 0 || ts[0].src != 0 {
			return nil, 0, false
		}
		g := pos
		if ts[pos].coef == Neg(c0) {
			g = pos + n
		}
		seen := make([]bool, n)
		for i := 0; i < n; i++ {
			d := (i * g) % (2 * n)
			sgn := c0
			if d >= n {
				d -= n
				sgn = Neg(c0)
			}
			if ts[d].src != i || ts[d].coef != sgn || seen[d] {
				return nil, 0, false
			}
			seen[d] = true
		}
		acc = Add(acc, Mul(c0, Perm(g, M)))
	}
	return acc, dom, true
}

// LiftPat folds the exact CRT reconstruction pattern
// sum_i lift(F_i;q_i)*Q/q_i - trunc(sum_i lift(F_i;q_i)/q_i)*Q into lift(X;{q_i}).
func LiftPat(e *E, dom int, q *E) *E {
	any := false
	for _, m := range e.M {
		for _, f := range m.F {
			if f.N.Op == "em" && emName(f.N) == "trunc" {
				any = true
			}
		}
	}
	if !any {
		return e
	}
	key := abKey{e.id, dom}
	if r, ok := lpMemo[key]; ok {
		return r
	}
	r := liftPat(e, dom)
	lpMemo[key] = r
	return r
}

var lpMemo = map[abKey]*E{}

func liftPat(e *E, dom int) *E {
	for again := true; again; {
		again = false
		for _, m := range e.M {
			var tn *Node
			rest := Rat(m.C)
			for _, f := range m.F {
				if f.N.Op == "em" && emName(f.N) == "trunc" && f.X == 1 && tn == nil {
					tn = f.N
				} else {
					rest = Mul(rest, Fac(f.N, f.X))
				}
			}
			if tn == nil {
				continue
			}
			var ln []*Node
			prod := One
			ok := true
			for _, a := range tn.Args[0].M {
				if a.C.Cmp(one) != 0 || len(a.F) != 2 {
					ok = false
					break
				}
				var l, qn *Node
				for _, f := range a.F {
					if f.N.Op == "lift" && f.X == 1 && len(f.N.Args) == 2 {
						l = f.N
					} else if f.X == -1 {
						qn = f.N
					}
				}
				if l == nil || qn == nil || l.Args[1] != qn.E() {
					ok = false
					break
				}
				ln = append(ln, l)
				prod = Mul(prod, qn.E())
			}
			if !ok || len(ln) == 0 {
				continue
			}
			k := Neg(Div(rest, prod))
			var X *E
			pat := Mul(Neg(prod), tn.E())
			for _, l := range ln {
				cof := Div(prod, l.Args[1])
				x := Mul(l.Args[0], cof)
				if X == nil {
					X = x
				} else if X != x {
					ok = false
				}
				pat = Add(pat, Mul(cof, l.E()))
			}
			if !ok {
				continue
			}
			var mods []*E
			for _, l := range ln {
				mods = append(mods, l.Args[1])
			}
			ne := Sub(e, Mul(k, pat))
			if len(ne.M) >= len(e.M) {
				continue
			}
			e = Add(ne, Mul(k, Lift(X, dom, mods)))
			again = true
			break
		}
	}
	return e
}

// Lift is the integer polynomial with coefficients in [0,prod mods) congruent to x.
func Lift(x *E, dom int, mods []*E) *E {
	ms := append([]*E(nil), mods...)
	sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
	// a lift over a superset basis is absorbed by neither; keep as is
	return raw("lift", strconv.Itoa(dom), append([]*E{x}, ms...)...)
}

// LiftV is the lift of a polynomial given by possibly different residue expressions.
func LiftV(xs []*E, dom int, mods []*E) *E {
	same := true
	for _, x := range xs {
		if x != xs[0] {
			same = false
		}
	}
	if same {
		return Lift(xs[0], dom, mods)
	}
	return raw("lift", fmt.Sprintf("%d:v", dom), append(append([]*E{}, xs...), mods...)...)
}

// MapMonos rebuilds e applying f to every monomial.
func (e *E) MapMonos(f func(c *big.Rat, fs []FP) *E) *E {
	acc := map[string]*Mono{}
	for _, m := range e.M {
		for _, x := range f(m.C, m.F).M {
			addTo(acc, x, one)
		}
	}
	return build(acc)
}

// Scalarity: IsScalar reports whether no ring factor occurs.
func (e *E) IsScalar() bool {
	for _, m := range e.M {
		for _, f := range m.F {
			if f.N.Ring {
				return false
			}
		}
	}
	return true
}

func (e *E) ID() int { return e.id }

// Package chk states the properties of the repository as rules over abstract
// values and decides them with the abstract interpreter of package ai.
package chk

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	"mkverif/ai"
	"mkverif/sym"

	"golang.org/x/tools/go/ssa"
)

// N is the ring degree of the shapes.
var N, LogN = 16, 4

func (s Shape) plain() Shape {
	s.Plain = true
	return s
}

// SetRing chooses the ring degree; it must not change once analysis has begun.
func SetRing(logN int) {
	LogN, N = logN, 1<<uint(logN)
	sym.TwoN = 2 * N
}

// Shape is one member of the finite set of structural shapes every rule is evaluated on.
type Shape struct {
	Name     string
	NQ       int // number of ciphertext moduli
	NP       int // number of special moduli
	Gamma    int
	LogQ     int
	Log0     int     // size of the first prime, 0 for that of the others
	Scale    float64 // CKKS scale
	Rev      bool    // visit maps in reverse key order
	LogSlots int     // CKKS: log of the number of slots, 0 for the maximum (LogSlots -1: one slot)
	Sigma    float64 // standard deviation of the errors, 0 for 3.2
	Plain    bool    // parties are called A, B ... also in the reverse order
	Prior    bool    // other parameters, keys and objects were made and used before
}

func (s Shape) Alpha() int { return s.NP / s.Gamma }

// World is a machine with one instance of the library's parameters and objects.
type World struct {
	M   *ai.Machine
	P   *ai.Prog
	Sh  Shape
	alt int // which of the earlier parameter sets is being made, 0 for none

	Q, PM []*sym.E // moduli atoms
	QMul  []*sym.E
	T     *sym.E

	CkksP  ai.Value // the lattigo CKKS parameters
	Params ai.Value // the parameters value the scheme under analysis uses
	Kind   string   // rlwe, ckks, bfv
}

// Err is the abnormal outcome of an analysed call.
type Err struct {
	Panic *ai.AbsPanic
	Und   *ai.Undecided
}

func (e *Err) Error() string {
	if e.Panic != nil {
		return e.Panic.String()
	}
	return "undecided: " + e.Und.String()
}

func primeAtom(name string, lg int) *sym.E {
	q := sym.Atom(name)
	p := math.Ldexp(1, lg)
	sym.SetRange(q, p*(1-math.Ldexp(1, -18)), p*(1-math.Ldexp(1, -30)))
	sym.SetPrime(q)
	return q
}

func NewWorld(p *ai.Prog, sh Shape) *World {
	m := ai.NewMachine(p, N)
	m.RevMaps = sh.Rev
	w := &World{M: m, P: p, Sh: sh}
	m.InitPackages("unicode/utf8", "strings", "math/bits", "math/cmplx", "sort", "utils", "ring", "rlwe", "ckks", "bfv")
	m.InitPackages(p.InitOrder()...)
	return w
}

// Try runs f and turns abnormal ends of the analysis into an error.
func (w *World) Try(f func()) (err *Err) {
	d := w.M.Depth()
	defer func() {
		if r := recover(); r != nil {
			w.M.Unwind(d)
			switch x := r.(type) {
			case *ai.AbsPanic:
				err = &Err{Panic: x}
			case *ai.Undecided:
				err = &Err{Und: x}
			default:
				panic(r)
			}
		}
	}()
	f()
	return nil
}

// Call calls a function or method of the analysed repository.
func (w *World) Call(pkg, recv, name string, args ...ai.Value) ai.Value {
	fn := w.P.Func(pkg, recv, name)
	if recv != "" && len(args) > 0 {
		if a, ok := args[0].(*ai.Agg); ok { // receiver held by value
			if v := w.P.Method(pkg, recv, name, false); v != nil {
				fn = v
			} else if fn != nil {
				o := w.M.New(w.P.Type(pkg, recv), a, "receiver")
				args = append([]ai.Value{&ai.Ptr{O: o}}, args[1:]...)
			}
		}
	}
	if fn == nil {
		panic(&ai.Undecided{Pos: "harness", Fn: name, Msg: fmt.Sprintf("%s.%s.%s does not exist", pkg, recv, name)})
	}
	return w.CallFn(fn, args...)
}

func (w *World) CallFn(fn *ssa.Function, args ...ai.Value) ai.Value {
	if len(args) != len(fn.Params) {
		panic(&ai.Undecided{Pos: "harness", Fn: fn.Name(), Msg: fmt.Sprintf("%s takes %d arguments, not %d", fn, len(fn.Params), len(args))})
	}
	return w.M.CallFn(fn, args, nil)
}

func u64s(m *ai.Machine, es []*sym.E) ai.Value {
	var vs []ai.Value
	for _, e := range es {
		vs = append(vs, ai.X{E: e})
	}
	return m.SliceU64(vs)
}

func (w *World) setModuli() {
	for i := 0; i < w.Sh.NQ; i++ {
		lg := w.Sh.logQ(i)
		w.Q = append(w.Q, primeAtom(fmt.Sprintf("q%d.%d", i, lg)+w.other(1, i), lg))
	}
	for i := 0; i < w.Sh.NP; i++ {
		w.PM = append(w.PM, primeAtom(fmt.Sprintf("p%d", i)+w.other(2, i), 61))
	}
	w.M.Mods = append(append([]*sym.E{}, w.Q...), w.PM...)
}

// other marks the primes in which an earlier parameter set differs: all but the
// first of Q, all but the first of P, or the plaintext modulus.
func (w *World) other(alt, i int) string {
	if w.alt == alt && i > 0 {
		return "x"
	}
	return ""
}

// logQ is the size of a ciphertext prime in bits.
func (s Shape) logQ(i int) int {
	switch {
	case i == 0 && s.Log0 > 0:
		return s.Log0
	case s.LogQ == 0:
		return 60
	}
	return s.LogQ
}

func tupErr(v ai.Value) ai.Value { return v.(ai.Tup)[0] }

// RLWE builds mkrlwe parameters.
func (w *World) RLWE() {
	w.Kind = "rlwe"
	w.setModuli()
	w.Params = w.newParams()
}

// newParams makes parameters of the announced moduli.
func (w *World) newParams() ai.Value {
	switch w.Kind {
	case "rlwe":
		return w.Call("mkrlwe", "", "NewParameters", w.rlweParams(), ai.I(w.Sh.Gamma))
	case "ckks":
		return w.Call("mkckks", "", "NewParameters", w.CkksP)
	}
	lt := w.P.Type("mkbfv", "ParametersLiteral")
	o := w.M.New(lt, w.M.Zero(lt), "literal")
	p := &ai.Ptr{O: o}
	w.SetField(p, "LogN", ai.I(LogN))
	w.SetField(p, "Q", u64s(w.M, w.Q))
	w.SetField(p, "QMul", u64s(w.M, w.QMul))
	w.SetField(p, "P", u64s(w.M, w.PM))
	w.SetField(p, "Sigma", ai.F(w.Sh.sigma()))
	w.SetField(p, "T", ai.X{E: w.T})
	return w.Call("mkbfv", "", "NewParametersFromLiteral", w.M.Load(p))
}

func (w *World) rlweParams() ai.Value {
	return tupErr(w.Call("rlwe", "", "NewParameters", ai.I(LogN), u64s(w.M, w.Q), u64s(w.M, w.PM), ai.F(w.Sh.sigma())))
}

// CKKS builds mkckks parameters.
func (w *World) CKKS(logSlots int) {
	w.Kind = "ckks"
	w.setModuli()
	w.CkksP = tupErr(w.Call("ckks", "", "NewParameters", w.rlweParams(), ai.I(logSlots), ai.F(w.Sh.Scale)))
	w.Params = w.newParams()
}

// BFV builds mkbfv parameters.
func (w *World) BFV() {
	w.Kind = "bfv"
	w.setModuli()
	for i := 0; i < w.Sh.NQ; i++ {
		w.QMul = append(w.QMul, primeAtom(fmt.Sprintf("r%d", i)+w.other(1, i), 60))
	}
	w.T = primeAtom("t"+w.other(3, 1), 16)
	w.M.Mods = append(w.M.Mods, w.QMul...)
	w.M.Mods = append(w.M.Mods, w.T)
	w.Params = w.newParams()
}

func (w *World) SetField(p *ai.Ptr, name string, v ai.Value) {
	fp, _ := w.M.FieldPtr(p, nil, name)
	w.M.Store(fp, v)
}

// Rlwe is the mkrlwe.Parameters part of the parameters.
func (w *World) Rlwe() ai.Value {
	if w.Kind == "rlwe" {
		return w.Params
	}
	return w.Params.(*ai.Agg).V[0]
}

// ---- reading structures ----

// Rows returns the rows of a *ring.Poly as ring elements with their domains.
func (w *World) Rows(poly ai.Value) []*ai.Row {
	var out []*ai.Row
	for i, s := range w.M.PolyRows(poly) {
		_ = i
		r, _ := w.M.RowOf(s)
		out = append(out, r)
	}
	return out
}

// party is what the parties A, B ... of the reports are called on shapes with the reverse map
// order: names that share beginnings, differ in case, are long or empty.
var party = map[string]string{"A": "party", "B": "party, the second of that name, whose name is long", "C": "", "D": "Party", "E": "p"}

func (w *World) id(s string) ai.S {
	if w.Sh.Rev && !w.Sh.Plain {
		if r, ok := party[s]; ok {
			return ai.S(r)
		}
	}
	return ai.S(s)
}

// MapGet reads an entry of a Go map.
func (w *World) MapGet(mv ai.Value, key string) (ai.Value, bool) {
	c := w.MapC(mv)
	if c == nil {
		return nil, false
	}
	for k, v := range c.K {
		if s, ok := v.(ai.S); ok && s == w.id(key) {
			return c.V[k], true
		}
	}
	return nil, false
}

func (w *World) MapC(mv ai.Value) *ai.MapC {
	x, ok := mv.(ai.MapV)
	if !ok {
		return nil
	}
	c, _ := w.M.S.Mem[x.O].(*ai.MapC)
	return c
}

// MapDelete removes a string key from a map.
func (w *World) MapDelete(mv ai.Value, key string) {
	c := w.MapC(mv)
	if c == nil {
		return
	}
	n := &ai.MapC{K: map[string]ai.Value{}, V: map[string]ai.Value{}}
	for _, k := range c.Keys {
		if s, ok := c.K[k].(ai.S); ok && s == w.id(key) {
			continue
		}
		n.Keys = append(n.Keys, k)
		n.K[k], n.V[k] = c.K[k], c.V[k]
	}
	w.M.S.Mem[mv.(ai.MapV).O] = n
}

// Keys returns the string keys of a map in order.
func (w *World) Keys(mv ai.Value) []string {
	c := w.MapC(mv)
	if c == nil {
		return nil
	}
	var out []string
	for _, v := range c.K {
		if s, ok := v.(ai.S); ok {
			name := string(s)
			for k := range party {
				if w.id(k) == s {
					name = k
				}
			}
			out = append(out, name)
		}
	}
	sort.Strings(out)
	return out
}

// Mods of level l.
func (w *World) Level(l int) []*sym.E { return w.Q[:l+1] }

func prod(es []*sym.E) *sym.E {
	r := sym.One
	for _, e := range es {
		r = sym.Mul(r, e)
	}
	return r
}

func ratInt(i int64) *big.Rat { return big.NewRat(i, 1) }

func join(ss []string) string { return strings.Join(ss, ", ") }

func sorted(ss []string) []string {
	r := append([]string(nil), ss...)
	sort.Strings(r)
	return r
}

// SecretE is the ring element a secret key holds (stored in NTT and Montgomery form).
func (w *World) SecretE(sk ai.Value) *sym.E {
	rows := w.M.PolyRows(w.M.Get(sk, "Value", "Q"))
	r, _ := w.M.RowOf(rows[0])
	r = w.M.Whole(r, w.Q[0])
	return sym.Div(r.E, sym.R)
}

// IDSet makes a party set.
func (w *World) IDSet(ids ...string) ai.Value {
	s := w.Call("mkrlwe", "", "NewIDSet")
	for _, id := range ids {
		w.Call("mkrlwe", "IDSet", "Add", s, w.id(id))
	}
	return s
}

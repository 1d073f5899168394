package chk

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"mkverif/ai"
	"mkverif/sym"
)

// ---- factors ----

// liftOf sees through an automorphism: n = perm_g(lift(y;B)).
func liftOf(n *sym.Node) (y *sym.E, mods []*sym.E, ok bool) {
	g := 1
	if n.Op == "perm" {
		fmt.Sscan(n.S, &g)
		a := n.Args[0].Single()
		if a == nil {
			return nil, nil, false
		}
		n = a
	}
	if n.Op != "lift" || strings.HasSuffix(n.S, ":v") {
		return nil, nil, false
	}
	y = n.Args[0]
	if g != 1 {
		y = sym.Perm(g, y)
	}
	return y, n.Args[1:], true
}

func has(es []*sym.E, q *sym.E) bool {
	for _, e := range es {
		if e == q {
			return true
		}
	}
	return false
}

func subset(a, b []*sym.E) bool {
	for _, x := range a {
		if !has(b, x) {
			return false
		}
	}
	return true
}

// Lower views an integer polynomial expression modulo q: lifts over bases
// containing q are the lifted element itself, multiples of q vanish.
func Lower(e, q *sym.E) *sym.E {
	for i := 0; i < 20; i++ {
		n := sym.Strip(e.MapMonos(func(c *big.Rat, fs []sym.FP) *sym.E {
			t := sym.Rat(c)
			for _, f := range fs {
				if y, mods, ok := liftOf(f.N); ok && has(mods, q) && f.X > 0 {
					for i := 0; i < f.X; i++ {
						t = sym.Mul(t, y)
					}
					continue
				}
				t = sym.Mul(t, sym.Fac(f.N, f.X))
			}
			return t
		}), q)
		if n == e {
			return e
		}
		e = n
	}
	return e
}

func nodeBits(n *sym.Node) float64 {
	switch n.Op {
	case "perm":
		if a := n.Args[0].Single(); a != nil {
			return nodeBits(a)
		}
		return exprBits(n.Args[0])
	case "lift":
		b := 0.0
		first := 1
		if strings.HasSuffix(n.S, ":v") {
			first = len(n.Args) / 2
		}
		for _, q := range n.Args[first:] {
			b += exprBits(q)
		}
		return b
	case "ra":
		if n.E() == sym.J {
			return 0
		}
		if ai.IsNoise(n) {
			return 5
		}
		if strings.HasPrefix(n.S, "u") || strings.HasPrefix(n.S, "w") || strings.HasPrefix(n.S, "s") {
			return 0
		}
		return math.Inf(1)
	}
	if n.Ring {
		return math.Inf(1)
	}
	lo, hi, ok := n.Range()
	if !ok {
		return math.Inf(1)
	}
	return math.Log2(math.Max(math.Abs(lo), math.Abs(hi)))
}

// exprBits bounds log2 of the coefficients of an integer expression (up to the
// number of terms and the convolution length).
func exprBits(e *sym.E) float64 {
	b := math.Inf(-1)
	for _, m := range e.M {
		b = math.Max(b, monoBits(m))
	}
	return b
}

func monoBits(m sym.Mono) float64 {
	c, _ := new(big.Rat).Abs(m.C).Float64()
	b := math.Log2(c)
	for _, f := range m.F {
		if f.X > 0 {
			b += float64(f.X) * nodeBits(f.N)
			continue
		}
		lo, hi, ok := f.N.Range()
		if !ok || f.N.Ring || lo*hi <= 0 {
			return math.Inf(1)
		}
		b += float64(f.X) * math.Log2(math.Min(math.Abs(lo), math.Abs(hi)))
	}
	return b
}

func monoE(m sym.Mono) *sym.E { return sym.FromMono(m.C, m.F) }

// hasD reports whether a monomial is a rounding term of a division by the
// primes in D: its only large factor is one lift over exactly those primes
// (or none at all: a constant).
func roundTerm(m sym.Mono, D []*sym.E) (rest *sym.E, x *sym.E, ok bool) {
	rest = sym.Rat(m.C)
	for _, f := range m.F {
		if y, mods, o := liftOf(f.N); o && f.X == 1 && x == nil && len(mods) == len(D) && subset(mods, D) {
			x = y
			continue
		} else if o {
			return rest, nil, false // a product of large factors is no rounding term
		}
		rest = sym.Mul(rest, sym.Fac(f.N, f.X))
	}
	return rest, x, x != nil
}

// Failure is one violated rule instance.
type Failure struct {
	Rule string
	Msg  string
}

func short(e *sym.E) string {
	s := e.String()
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// Undivide recovers, from the rows of a polynomial that was divided with
// rounding by D (a product of primes), the rows of the dividend: modulo the
// remaining moduli it is D*out minus the rounding terms, and modulo each prime
// of D the rounding terms are its negated residue.
func Undivide(rows map[*sym.E]*sym.E, D []*sym.E) (pre map[*sym.E]*sym.E, err string) {
	d := prod(D)
	pre = map[*sym.E]*sym.E{}
	var ref *sym.E
	var refq *sym.E
	for q, e := range rows {
		wq := sym.Mul(d, e)
		pl := sym.Zero
		keep := sym.Zero
		cst := sym.Zero
		for _, m := range wq.M {
			rest, _, ok := roundTerm(m, D)
			if ok && math.Abs(exprBits(rest)) < 8 {
				pl = sym.Add(pl, monoE(m))
				continue
			}
			if b := monoBits(m); b < exprBits(d)+1 && b > exprBits(d)-8 && !ringRaw(m) && isConst(m) {
				cst = sym.Add(cst, monoE(m))
				continue
			}
			keep = sym.Add(keep, monoE(m))
		}
		pre[q] = sym.Strip(keep, q)
		r := sym.Add(pl, cst)
		if ref == nil {
			ref, refq = r, q
		} else if ref != r {
			return nil, fmt.Sprintf("rounding terms modulo %s and modulo %s differ: %s and %s", refq, q, short(ref), short(r))
		}
	}
	for _, p := range D {
		pre[p] = Lower(sym.Neg(Lower(ref, p)), p)
	}
	return pre, ""
}

// isConst: constant or small secret times a scalar (no lifts).
func isConst(m sym.Mono) bool {
	sc := false
	for _, f := range m.F {
		if f.N.Ring {
			if nodeBits(f.N) > 0.1 {
				return false
			}
		} else {
			sc = true
		}
	}
	return sc || len(m.F) == 0
}

func ringRaw(m sym.Mono) bool {
	for _, f := range m.F {
		if f.N.Ring && math.IsInf(nodeBits(f.N), 1) {
			return true
		}
	}
	return false
}

// CheckSwitchNoise decides that a polynomial known modulo qs and modulo the
// special primes ps equals P*target plus an integer polynomial that is
// small against P.
func CheckSwitchNoise(pre map[*sym.E]*sym.E, qs, ps []*sym.E, target map[*sym.E]*sym.E) (noise *sym.E, err string) {
	P := prod(ps)
	V := pre[ps[0]]
	for _, p := range ps[1:] {
		if pre[p] != V {
			return nil, fmt.Sprintf("residues modulo the special primes %s and %s differ", ps[0], p)
		}
	}
	for _, m := range V.M {
		if b := monoBits(m); b > exprBits(P)+12 {
			return nil, fmt.Sprintf("term %s of the switching error is not small against P (%.0f bits against %.0f)", short(monoE(m)), b, exprBits(P))
		}
	}
	for _, q := range qs {
		d := sym.Sub(pre[q], Lower(sym.Mul(P, target[q]), q))
		d = sym.Sub(d, Lower(V, q))
		d = Lower(d, q)
		if d != sym.Zero {
			return V, fmt.Sprintf("modulo %s the result differs from the expected value by %s (divided by P)", q, short(d))
		}
	}
	return V, ""
}

// ---- ciphertexts ----

// CtRows returns the rows of one component; they must be in the coefficient domain unless ntt.
func (w *World) CtRows(ct ai.Value, id string, mods []*sym.E) ([]*sym.E, string) {
	mv := w.M.Get(ct, "Value")
	p, ok := w.MapGet(mv, id)
	if !ok {
		return nil, fmt.Sprintf("component %q is missing", id)
	}
	return w.PolyE(p, mods)
}

// PolyE returns the ring elements a polynomial holds modulo mods, in the
// domain its flag announces.
func (w *World) PolyE(p ai.Value, mods []*sym.E) ([]*sym.E, string) {
	ntt, _ := w.M.Get(p, "IsNTT").(ai.B)
	want := 0
	if ntt {
		want = 1
	}
	var out []*sym.E
	rows := w.M.PolyRows(p)
	if len(rows) != len(mods) {
		return nil, fmt.Sprintf("has %d rows, expected %d", len(rows), len(mods))
	}
	for i, s := range rows {
		r, _ := w.M.RowOf(s)
		r = w.M.Whole(r, mods[i])
		if r.Dom != -1 && r.Dom != want {
			return nil, fmt.Sprintf("row %d is in domain %d but the flag says %d", i, r.Dom, want)
		}
		e := r.E
		if r.Dom == -1 && want == 1 {
			e = sym.DropJ(e)
		}
		out = append(out, e)
	}
	return out, ""
}

// Phase computes ct_0 + sum ct_id*s_id row by row.
func (w *World) Phase(ct ai.Value, sks map[string]*sym.E, ids []string, mods []*sym.E) (map[*sym.E]*sym.E, string) {
	mv := w.M.Get(ct, "Value")
	got := w.Keys(mv)
	want := append([]string{"0"}, ids...)
	if join(sorted(got)) != join(sorted(want)) {
		return nil, fmt.Sprintf("result has components {%s}, expected {%s}", join(got), join(sorted(want)))
	}
	out := map[*sym.E]*sym.E{}
	for _, q := range mods {
		out[q] = sym.Zero
	}
	for _, id := range want {
		rows, err := w.CtRows(ct, id, mods)
		if err != "" {
			return nil, fmt.Sprintf("component %q: %s", id, err)
		}
		for j, q := range mods {
			t := rows[j]
			if id != "0" {
				t = sym.Mul(t, sks[id])
			}
			out[q] = sym.Add(out[q], t)
		}
	}
	for _, q := range mods {
		out[q] = Lower(out[q], q)
	}
	return out, ""
}

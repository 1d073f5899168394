package chk

import (
	"fmt"

	"mkverif/ai"
	"mkverif/sym"
)

// modsOf lists the moduli of a ring.
func (e *Env) modsOf(ring ai.Value) []*sym.E {
	sl, ok := e.M.Get(ring, "Modulus").(ai.Slice)
	if !ok {
		return nil
	}
	var out []*sym.E
	for _, v := range e.M.Values(sl) {
		x, ok := ai.ToE(v)
		if !ok {
			x = nil
		}
		out = append(out, x)
	}
	return out
}

func sameMods(a, b []*sym.E) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (e *Env) isRing(rule, an, what string, ring ai.Value, want []*sym.E) bool {
	m := e.modsOf(ring)
	good := e.c.Ok(rule, an, sameMods(m, want), "%s has the moduli %v, expected %v", what, m, want)
	n := e.M.Get(ring, "N")
	return e.c.Ok(rule, an, n == ai.I(N), "%s has degree %v, expected %d", what, n, N) && good
}

func (e *Env) isRingQP(rule, an, what string, r ai.Value, q, p []*sym.E) {
	e.isRing(rule, an, what+" (first part)", e.M.Get(r, "RingQ"), q)
	e.isRing(rule, an, what+" (second part)", e.M.Get(r, "RingP"), p)
}

// parShapes: many numbers of primes and digit groupings.
func parShapes(tier string) []kindShape {
	var r []kindShape
	top := 7
	if deep(tier) {
		top = 12
	}
	for nq := 1; nq <= top; nq++ {
		for _, pg := range [][2]int{{1, 1}, {2, 1}, {3, 1}, {2, 2}, {3, 2}, {4, 2}, {5, 2}, {6, 2}, {3, 3}, {6, 3}, {7, 3}, {4, 4}} {
			r = append(r, kindShape{"rlwe", Shape{Name: fmt.Sprintf("rlwe-q%dp%dg%d", nq, pg[0], pg[1]), NQ: nq, NP: pg[0], Gamma: pg[1]}})
		}
		for _, np := range []int{2, 3, 4, 6} {
			r = append(r, kindShape{"ckks", Shape{Name: fmt.Sprintf("ckks-q%dp%d", nq, np), NQ: nq, NP: np, Gamma: 2, LogQ: 40, Scale: 1 << 40}})
			if nq%(np/2) == 0 {
				r = append(r, kindShape{"bfv", Shape{Name: fmt.Sprintf("bfv-q%dp%d", nq, np), NQ: nq, NP: np, Gamma: 2, LogQ: 60}})
			}
		}
	}
	for ls := 0; ls < LogN; ls++ {
		r = append(r, kindShape{"ckks", cA1.slots(ls)})
	}
	return r
}

// bare is an environment with parameters only.
func (c *Ctx) bare(kind string, sh Shape) *Env {
	e := &Env{World: NewWorld(c.P, sh), c: c}
	e.err = e.Try(func() {
		switch kind {
		case "rlwe":
			e.RLWE()
		case "ckks":
			e.CKKS(e.logSlots())
		case "bfv":
			e.BFV()
		}
	})
	e.base = e.M.Snapshot()
	return e
}

func (e *Env) derived(an string) {
	sh, L := e.Sh, lv(e.Sh)
	alpha := sh.NP / sh.Gamma
	rl := e.Rlwe()
	get := func(name string, args ...ai.Value) ai.Value {
		return e.Call("mkrlwe", "Parameters", name, append([]ai.Value{rl}, args...)...)
	}
	is := func(rule, what string, have ai.Value, want ai.Value) {
		e.c.Ok(rule, an, have == want, "%s is %v, expected %v", what, have, want)
	}
	is("derived.gamma", "Gamma", get("Gamma"), ai.I(sh.Gamma))
	is("derived.alpha", "Alpha", get("Alpha"), ai.I(alpha))
	covered := 0
	for l := 0; l <= L; l++ {
		b := (l + 1 + alpha - 1) / alpha
		is("derived.beta", fmt.Sprintf("Beta at level %d", l), get("Beta", ai.I(l)), ai.I(b))
		covered = b * alpha
	}
	e.c.Ok("derived.cover", an, covered >= sh.NQ && covered < sh.NQ+alpha, "the digits cover %d primes of %d", covered, sh.NQ)
	is("derived.level", "MaxLevel", get("MaxLevel"), ai.I(L))
	is("derived.count", "QCount", get("QCount"), ai.I(sh.NQ))
	is("derived.count", "PCount", get("PCount"), ai.I(sh.NP))
	is("derived.degree", "N", get("N"), ai.I(N))
	is("derived.sigma", "Sigma", get("Sigma"), ai.F(sh.sigma()))
	e.isRing("derived.ring", an, "RingQ", get("RingQ"), e.Q)
	e.isRing("derived.ring", an, "RingP", get("RingP"), e.PM)
	e.isRingQP("derived.ring", an, "RingQP", get("RingQP"), e.Q, e.PM)
	e.judgeCRS("derived.crs", an, rl, defaultCRS(), map[*sym.Node]string{})
	swk := e.Call("mkrlwe", "", "NewSwitchingKey", rl)
	s := e.zeroSwk(swk)
	e.c.Ok("derived.switching", an, s == "", "a new switching key %s", s)
	switch e.Kind {
	case "ckks":
		ls := e.logSlots()
		ck := func(name string) ai.Value { return e.Call("mkckks", "Parameters", name, e.Params) }
		is("derived.slots", "LogSlots", ck("LogSlots"), ai.I(ls))
		is("derived.slots", "Slots", ck("Slots"), ai.I(1<<uint(ls)))
		is("derived.scale", "Scale", ck("Scale"), ai.F(sh.Scale))
	case "bfv":
		bf := func(name string) ai.Value { return e.Call("mkbfv", "Parameters", name, e.Params) }
		R := append(append([]*sym.E{}, e.Q...), e.QMul...)
		e.isRing("derived.bfv", an, "RingQMul", bf("RingQMul"), e.QMul)
		e.isRing("derived.bfv", an, "RingR", bf("RingR"), R)
		e.isRing("derived.bfv", an, "RingT", bf("RingT"), []*sym.E{e.T})
		e.isRingQP("derived.bfv", an, "RingRP", bf("RingRP"), R, e.PM)
		e.isRingQP("derived.bfv", an, "RingQMulP", bf("RingQMulP"), e.QMul, e.PM)
		t, ok := ai.ToE(bf("T"))
		e.c.Ok("derived.bfv", an, ok && t == e.T, "T is %v, expected %v", t, e.T)
	}
}

// literal is a BFV parameters literal with its slices.
func (e *Env) literal() (ai.Value, [3]ai.Slice) {
	lt := e.P.Type("mkbfv", "ParametersLiteral")
	p := &ai.Ptr{O: e.M.New(lt, e.M.Zero(lt), "literal")}
	var sl [3]ai.Slice
	// one array holds all primes, each slice has room to grow into the next
	chain := append(append(append([]*sym.E{}, e.Q...), e.PM...), e.QMul...)
	all := u64s(e.M, chain).(ai.Slice)
	off := []int{0, len(e.Q) + len(e.PM), len(e.Q)}
	for i, n := range []int{len(e.Q), len(e.QMul), len(e.PM)} {
		sl[i] = all
		sl[i].Off, sl[i].Len, sl[i].Cap = all.Off+off[i], n, all.Cap-off[i]
		e.SetField(p, []string{"Q", "QMul", "P"}[i], sl[i])
	}
	e.SetField(p, "LogN", ai.I(LogN))
	e.SetField(p, "Sigma", ai.F(e.Sh.sigma()))
	e.SetField(p, "T", ai.X{E: e.T})
	return p, sl
}

func paramUnits(tier string) []Unit {
	var us []Unit
	for _, x := range parShapes(tier) {
		x := x
		us = append(us, Unit{x.sh.Name + "/derived values", func(c *Ctx) {
			e := c.bare(x.kind, x.sh)
			fn := [3]string{pkgOf(x.kind), "", "NewParameters"}
			if x.kind == "bfv" {
				fn[2] = "NewParametersFromLiteral"
			}
			an := c.Anchor(fn[0], fn[1], fn[2])
			c.Scenario(e, "derived values", "derived", an, func() {
				fr := e.Freeze(vals{"the parameters": e.Params})
				e.derived(an)
				e.Unchanged("derived.kept", an, fr)
				e.Pending("derived", an)
			})
		}})
	}
	for _, sh := range []Shape{bA1, bA24} {
		sh := sh
		us = append(us, Unit{sh.Name + "/literal", func(c *Ctx) {
			e := c.bare("bfv", sh)
			an := c.Anchor("mkbfv", "", "NewParametersFromLiteral")
			c.Scenario(e, "literal", "literal", an, func() {
				p, sl := e.literal()
				fr := e.Freeze(vals{"the literal": p})
				e.Params = e.Call("mkbfv", "", "NewParametersFromLiteral", e.M.Load(p.(*ai.Ptr)))
				e.Unchanged("literal.kept", an, fr)
				// the literal's owner may reuse its slices afterwards
				for _, s := range sl {
					for i := 0; i < s.Len; i++ {
						e.M.Store(&ai.Ptr{O: s.O, Path: append(append([]int{}, s.Path...), s.Off+i)}, ai.X{E: sym.Atom("overwritten")})
					}
				}
				e.derived(an)
				// different lengths of Q and QMul
				for d := -1; d <= 1; d += 2 {
					p, sl := e.literal()
					ms := append([]*sym.E{}, e.QMul...)
					if d < 0 {
						ms = ms[:sl[1].Len-1]
					} else {
						ms = append(ms, e.PM[0])
					}
					e.SetField(p.(*ai.Ptr), "QMul", u64s(e.M, ms))
					e.MustRefuse("literal.lengths", an, fmt.Sprintf("a literal with %d primes in Q and %d in QMul", sh.NQ, len(ms)), func() {
						e.Call("mkbfv", "", "NewParametersFromLiteral", e.M.Load(p.(*ai.Ptr)))
					})
				}
			})
		}})
	}
	return us
}

func init() {
	register(&Prop{ID: "C26", Min: 300,
		Rule:  "For every combination of prime counts and digit grouping: digit sizes and counts at every level, rings, degree, error width, scale, slots and plaintext modulus are those the arguments determine, the digits cover every ciphertext prime, every default reference string is complete, inconsistent BFV literals are refused and later changes of a literal's slices do not reach the parameters.",
		Units: paramUnits})
}

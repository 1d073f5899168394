package chk

import (
	"fmt"
	"math"

	"mkverif/ai"
	"mkverif/sym"
)

// Want describes the value a produced ciphertext must decrypt to.
type Want struct {
	Ids    []string
	Level  int
	Target *sym.E     // ring element modulo every prime of the level the divisions start from
	Div    [][]*sym.E // divisions with rounding applied on the way, first applied first
	Noise  bool       // the first division removes the special primes and a switching error with them
	Scale  *sym.E     // expected scale, nil if not recorded
}

// fillRows makes every row of a polynomial the ring element name.
func (e *Env) fillRows(poly ai.Value, mods []*sym.E, v *sym.E, dom int) {
	for i, s := range e.M.PolyRows(poly) {
		if i < len(mods) {
			e.M.SetRow(s, &ai.Row{N: N, E: v, Dom: dom, Q: mods[i]})
		}
	}
}

// Ct makes an arbitrary ciphertext of the scheme under analysis: component id
// is the ring element name_id.
func (e *Env) Ct(name string, level int, scale *sym.E, ids ...string) ai.Value {
	set := e.IDSet(ids...)
	// every other operand below the maximum level was dropped from it: its slices
	// have capacity left, with the values of the higher primes behind them
	made := level
	if e.Kind != "bfv" && (level+len(ids)+len(name))%2 == 0 {
		made = lv(e.Sh)
	}
	var ct ai.Value
	switch e.Kind {
	case "rlwe":
		ct = e.Call("mkrlwe", "", "NewCiphertext", e.Rlwe(), set, ai.I(made))
	case "ckks":
		ct = e.Call("mkckks", "", "NewCiphertext", e.Params, set, ai.I(made), e.num(scale))
	case "bfv":
		ct = e.Call("mkbfv", "", "NewCiphertext", e.Params, set)
	}
	mv := e.M.Get(ct, "Value")
	for _, id := range append([]string{"0"}, ids...) {
		p, ok := e.MapGet(mv, id)
		if !ok {
			panic(&ai.Undecided{Pos: "harness", Msg: "a fresh ciphertext has no component " + id})
		}
		e.fillRows(p, e.Q, sym.RAtom(name+e.Sfx+"_"+id), 0)
		if made > level {
			e.junk++
			for i, s := range e.M.PolyRows(p) {
				if i > level {
					e.M.SetRow(s, &ai.Row{N: N, E: sym.RAtom(fmt.Sprintf("dropped%d", e.junk)), Dom: 0, Q: e.Q[i]})
				}
			}
			if sl, ok := e.M.Get(p, "Coeffs").(ai.Slice); ok {
				sl.Len = level + 1
				e.storeField(p, "Coeffs", sl)
			}
		}
	}
	return ct
}

func (e *Env) num(x *sym.E) ai.Value {
	if x == nil {
		return ai.F(e.Sh.Scale)
	}
	if r, ok := x.Const(); ok {
		f, _ := r.Float64()
		return ai.F(f)
	}
	return ai.X{E: x}
}

// Ph is the phase of an arbitrary ciphertext made by Ct.
func (e *Env) Ph(name string, ids ...string) *sym.E {
	r := sym.RAtom(name + e.Sfx + "_0")
	for _, id := range ids {
		r = sym.Add(r, sym.Mul(sym.RAtom(name+e.Sfx+"_"+id), e.S[id]))
	}
	return r
}

func union(a, b []string) []string {
	m := map[string]bool{}
	for _, x := range append(append([]string{}, a...), b...) {
		m[x] = true
	}
	var out []string
	for x := range m {
		out = append(out, x)
	}
	return sorted(out)
}

// Judge decides whether a ciphertext has the wanted shape and decrypts to the wanted value.
func (e *Env) Judge(rule, anchor string, out ai.Value, w Want) bool {
	c := e.c
	if x, ok := out.(ai.Tup); ok && len(x) > 0 {
		out = x[0]
	}
	lvl := e.levelOf(out)
	if !c.Ok(rule+".level", anchor, lvl == w.Level, "the result is at level %d, expected %d", lvl, w.Level) {
		return false
	}
	if w.Scale != nil {
		sc, _ := ai.ToE(e.M.Get(out, "Scale"))
		good := sameScale(sc, w.Scale)
		if !c.Ok(rule+".scale", anchor, good, "the recorded scale is %v, expected %v", sc, w.Scale) {
			return false
		}
	}
	mods := e.Level(w.Level)
	ph, err := e.Phase(out, e.S, w.Ids, mods)
	if err != "" {
		return e.bad(rule, anchor, out, "%s", err)
	}
	return e.judgeRows(rule, anchor, out, ph, w)
}

func (e *Env) bad(rule, anchor string, out ai.Value, f string, a ...interface{}) bool {
	e.c.Bad(rule, anchor, f, a...)
	s := ""
	mv := e.M.Get(out, "Value")
	for _, k := range e.Keys(mv) {
		p, _ := e.MapGet(mv, k)
		s += k + ": " + e.LastWrites(p) + "; "
	}
	e.c.Writes(s)
	return false
}

func (e *Env) judgeRows(rule, anchor string, out ai.Value, ph map[*sym.E]*sym.E, w Want) bool {
	mods := e.Level(w.Level)
	rows := ph
	var all []*sym.E
	all = append(all, mods...)
	for i := len(w.Div) - 1; i >= 0; i-- {
		pre, err := Undivide(rows, w.Div[i])
		if err != "" {
			return e.bad(rule, anchor, out, "division by %v: %s", w.Div[i], err)
		}
		rows = pre
		if !(i == 0 && w.Noise) {
			all = append(all, w.Div[i]...)
		}
	}
	tg := map[*sym.E]*sym.E{}
	for _, q := range all {
		tg[q] = w.Target
	}
	if w.Noise {
		if _, err := CheckSwitchNoise(rows, all, w.Div[0], tg); err != "" {
			return e.bad(rule, anchor, out, "%s", err)
		}
		return e.c.Ok(rule, anchor, true, "")
	}
	for _, q := range all {
		d := Lower(sym.Sub(rows[q], tg[q]), q)
		if d != sym.Zero {
			return e.bad(rule, anchor, out, "modulo %s the result differs from the expected value by %s", q, short(d))
		}
	}
	return e.c.Ok(rule, anchor, true, "")
}

func (e *Env) levelOf(ct ai.Value) int {
	p, ok := e.MapGet(e.M.Get(ct, "Value"), "0")
	if !ok {
		return -1
	}
	return len(e.M.PolyRows(p)) - 1
}

// sameScale compares scales as exact expressions; concrete floats up to rounding.
func sameScale(a, b *sym.E) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	ra, oka := a.Const()
	rb, okb := b.Const()
	if oka && okb {
		x, _ := ra.Float64()
		y, _ := rb.Float64()
		return math.Abs(x-y) <= 1e-9*math.Abs(y)
	}
	d := sym.Sub(sym.Div(a, b), sym.One)
	if r, ok := d.Const(); ok {
		x, _ := r.Float64()
		return math.Abs(x) < 1e-9
	}
	return false
}

func scaleE(f float64) *sym.E { e, _ := ai.ToE(ai.F(f)); return e }

var _ = fmt.Sprint

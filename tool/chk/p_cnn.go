package chk

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"mkverif/ai"
	"mkverif/sym"

	"golang.org/x/tools/go/ssa"
)

// The network layers are analysed against the contract of the evaluator (which
// the properties about the evaluator establish): a ciphertext stands for its
// slot vector, held as one symbol by its constant component, and evaluator
// methods are replaced by what they promise to do with slot vectors.
type layers struct {
	*Env
	hoist  map[*ai.Obj]*sym.E // what a hoisted form was computed from
	plain  map[*ai.Obj]*sym.E
	rl, rk ai.Value
	eval   ai.Value
	pool   map[string]ai.Value // the operands of the first run: the second one has others in the same places
}

var cCNN = Shape{Name: "ckks-q7p2-n16384", NQ: 7, NP: 2, Gamma: 2, LogQ: 40, Scale: 1 << 40}

func (y *layers) slotsOf(ct ai.Value) *sym.E {
	p, ok := y.MapGet(y.M.Get(ct, "Value"), "0")
	if !ok {
		panic(&ai.Undecided{Pos: "harness", Msg: "a ciphertext without constant component"})
	}
	r, _ := y.M.RowOf(y.M.PolyRows(p)[0])
	return y.M.Whole(r, y.Q[0]).E
}

func (y *layers) idsOfCt(ct ai.Value) []string { return without(y.Keys(y.M.Get(ct, "Value")), "0") }

func (y *layers) level(ct ai.Value) int {
	p, _ := y.MapGet(y.M.Get(ct, "Value"), "0")
	return len(y.M.PolyRows(p)) - 1
}

func (y *layers) cipher(v *sym.E, level int, ids []string) ai.Value {
	ct := y.Call("mkckks", "", "NewCiphertext", y.Params, y.IDSet(ids...), ai.I(level), ai.F(y.Sh.Scale))
	p, _ := y.MapGet(y.M.Get(ct, "Value"), "0")
	y.fillRows(p, y.Q, v, 0)
	return ct
}

// place names an operand, whichever the run
func (y *layers) place(name string) string { return strings.TrimLeft(y.Sfx, "'") + " " + name }

func (y *layers) hoistedIn(name string, ct ai.Value) ai.Value {
	k := y.place("hoisted " + name)
	if h, ok := y.pool[k]; ok {
		y.hoist[objOf(h)] = y.slotsOf(ct)
		return h
	}
	y.pool[k] = y.hoisted(ct)
	return y.pool[k]
}

func (y *layers) hoisted(ct ai.Value) ai.Value {
	t := y.P.Type("mkrlwe", "HoistedCiphertext")
	o := y.M.New(t, y.M.Zero(t), "hoisted form")
	y.hoist[o] = y.slotsOf(ct)
	return &ai.Ptr{O: o}
}

// rot is the rotation of a slot vector by k to the left.
func rot(v *sym.E, k int) *sym.E {
	s := N / 2
	k = ((k % s) + s) % s
	g := 1
	for b := 5; k > 0; k >>= 1 {
		if k&1 == 1 {
			g = g * b % (2 * N)
		}
		b = b * b % (2 * N)
	}
	return sym.Perm(g, v)
}

func (y *layers) fail(f string, a ...interface{}) {
	panic(&ai.AbsPanic{Pos: y.M.Pos(), Msg: fmt.Sprintf(f, a...)})
}

func (y *layers) und(f string, a ...interface{}) {
	panic(&ai.Undecided{Pos: y.M.Pos(), Msg: fmt.Sprintf(f, a...)})
}

func objOf(v ai.Value) *ai.Obj {
	if p, ok := v.(*ai.Ptr); ok {
		return p.O
	}
	return nil
}

func (y *layers) install() {
	model := func(name string, f func(a []ai.Value) ai.Value) {
		fn := y.P.Func("mkckks", "Evaluator", name)
		if fn == nil {
			return
		}
		y.M.Models[fn.String()] = func(m *ai.Machine, fn *ssa.Function, a []ai.Value) ai.Value {
			if !ai.Same(a[0], y.eval) {
				y.und("%s is called on another evaluator", name)
			}
			return f(a[1:])
		}
	}
	keys := func(k, want ai.Value, what string) {
		if !ai.Same(k, want) {
			y.fail("an operation gets other %s keys than the caller's", what)
		}
	}
	mustBe := func(h, ct ai.Value) {
		if o := objOf(h); o != nil && y.hoist[o] != y.slotsOf(ct) {
			y.fail("an operation gets the hoisted form of another ciphertext")
		}
	}
	both := func(a, b ai.Value, drop int, v *sym.E) ai.Value {
		l := y.level(a)
		if y.level(b) < l {
			l = y.level(b)
		}
		if l-drop < 0 {
			y.fail("the modulus is exhausted")
		}
		return y.cipher(v, l-drop, union(y.idsOfCt(a), y.idsOfCt(b)))
	}
	model("AddNew", func(a []ai.Value) ai.Value { return both(a[0], a[1], 0, sym.Add(y.slotsOf(a[0]), y.slotsOf(a[1]))) })
	model("SubNew", func(a []ai.Value) ai.Value { return both(a[0], a[1], 0, sym.Sub(y.slotsOf(a[0]), y.slotsOf(a[1]))) })
	model("MulRelinNew", func(a []ai.Value) ai.Value {
		keys(a[2], y.rl, "relinearization")
		return both(a[0], a[1], 1, sym.Mul(y.slotsOf(a[0]), y.slotsOf(a[1])))
	})
	model("MulRelinHoistedNew", func(a []ai.Value) ai.Value {
		keys(a[4], y.rl, "relinearization")
		mustBe(a[2], a[0])
		mustBe(a[3], a[1])
		return both(a[0], a[1], 1, sym.Mul(y.slotsOf(a[0]), y.slotsOf(a[1])))
	})
	turn := func(ct, k ai.Value) ai.Value {
		i, ok := k.(ai.I)
		if !ok {
			y.und("rotation by %v", k)
		}
		return y.cipher(rot(y.slotsOf(ct), int(i)), y.level(ct), y.idsOfCt(ct))
	}
	model("RotateNew", func(a []ai.Value) ai.Value {
		keys(a[2], y.rk, "rotation")
		return turn(a[0], a[1])
	})
	model("RotateHoistedNew", func(a []ai.Value) ai.Value {
		keys(a[3], y.rk, "rotation")
		mustBe(a[2], a[0])
		return turn(a[0], a[1])
	})
	model("HoistedForm", func(a []ai.Value) ai.Value { return y.hoisted(a[0]) })
	model("MulPtxtNew", func(a []ai.Value) ai.Value {
		v, ok := y.plain[objOf(a[1])]
		if !ok {
			y.und("an unknown plaintext")
		}
		return both(a[0], a[0], 1, sym.Mul(y.slotsOf(a[0]), v))
	})
	for _, n := range []string{"MultByConst", "Rescale", "RescaleNew", "ConjugateNew", "add", "sub", "mulRelin", "mulRelinHoisted", "rotate", "rotateHoisted", "conjugate"} {
		n := n
		model(n, func([]ai.Value) ai.Value { y.und("no contract for %s", n); return nil })
	}
}

func (y *layers) in(name string, ids ...string) (ai.Value, *sym.E) {
	v := sym.RAtom(name + y.Sfx)
	k := y.place(name)
	if ct, ok := y.pool[k]; ok {
		p, _ := y.MapGet(y.M.Get(ct, "Value"), "0")
		y.fillRows(p, y.Q, v, 0)
		return ct, v
	}
	y.pool[k] = y.cipher(v, lv(y.Sh), ids)
	return y.pool[k], v
}

func (y *layers) many(name string, n int, ids []string, at ...int) (ct, ho ai.Value, v []*sym.E, all vals) {
	var cs, hs []ai.Value
	all = vals{}
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("%s%d", name, i)
		c, x := y.in(nm, ids...)
		cs, hs, v = append(cs, c), append(hs, y.hoistedIn(nm, c)), append(v, x)
		all[fmt.Sprintf("%s %d", name, i)] = c
	}
	ctT := y.P.Type("mkckks", "Ciphertext")
	hoT := y.P.Type("mkrlwe", "HoistedCiphertext")
	k := y.place("list of " + name)
	if y.pool[k] == nil {
		y.pool[k], y.pool["hoisted "+k] = y.M.SliceOf(types.NewPointer(ctT), cs), y.M.SliceOf(types.NewPointer(hoT), hs)
	}
	return y.pool[k], y.pool["hoisted "+k], v, all
}

func (y *layers) judge(rule, an string, out ai.Value, want *sym.E, ids []string) {
	have := y.slotsOf(out)
	d := sym.Sub(have, want)
	if d != sym.Zero {
		y.c.Ok(rule, an, false, "the result differs from the layer's value by %s", short(d))
		y.c.Writes(y.LastWrites(func() ai.Value { p, _ := y.MapGet(y.M.Get(out, "Value"), "0"); return p }()))
	} else {
		y.c.Ok(rule, an, true, "")
	}
	k := y.idsOfCt(out)
	sort.Strings(k)
	y.c.Ok(rule+".parties", an, sameIDs(k, ids), "the result involves %q, expected %q", k, ids)
}

func layerUnits(tier string) []Unit {
	unit := func(name, fn string, f func(y *layers, an string)) Unit {
		return Unit{cCNN.Name + "/" + name, func(c *Ctx) {
			e := c.bare("ckks", cCNN)
			an := c.Anchor("cnn", "", fn)
			c.Scenario(e, name, "layer", an, func() {
				y := &layers{Env: e, hoist: map[*ai.Obj]*sym.E{}, plain: map[*ai.Obj]*sym.E{}, pool: map[string]ai.Value{}}
				y.eval = e.opaque("mkckks", "Evaluator")
				y.rl, y.rk = e.opaque("mkrlwe", "RelinearizationKeySet"), e.opaque("mkrlwe", "RotationKeySet")
				y.install()
				for i := 0; i < 2; i++ {
					f(y, an)
					e.Sfx = "'"
				}
				e.Pending("layer", an)
			})
		}}
	}
	parties := [][2][]string{{A, B}, {A, A}, {AB, BC}}
	us := []Unit{unit("Convolution", "Convolution", func(y *layers, an string) {
		for i, ps := range parties {
			y.Sfx += fmt.Sprint(i)
			im, x := y.in("image", ps[0]...)
			ks, kh, k, all := y.many("kernel", 4, ps[1])
			all["image"] = im
			fr := y.Freeze(all)
			out := y.Call("cnn", "", "Convolution", y.eval, y.rl, y.rk, im, y.hoistedIn("image", im), ks, kh)
			w := sym.Zero
			for j, r := range []int{0, 1, 14, 15} {
				w = sym.Add(w, sym.Mul(rot(x, r), k[j]))
			}
			w = sym.Add(w, rot(w, 2048))
			w = sym.Add(w, rot(w, 1024))
			y.judge("layer.convolution", an, out, w, union(ps[0], ps[1]))
			y.Unchanged("layer.kept", an, fr)
			y.Disjoint("layer.own", an, out, all)
		}
	})}
	for n := 1; n <= 9; n++ {
		n := n
		us = append(us, unit(fmt.Sprintf("FC1Layer[%d]", n), "FC1Layer", func(y *layers, an string) {
			for i, ps := range parties {
				y.Sfx += fmt.Sprint(i)
				vec, x := y.in("vector", ps[0]...)
				ms, mh, m, all := y.many("matrix", n, ps[1])
				bias, b := y.in("bias", ps[1]...)
				all["vector"], all["bias"] = vec, bias
				fr := y.Freeze(all)
				out := y.Call("cnn", "", "FC1Layer", y.eval, y.rl, y.rk, vec, y.hoistedIn("vector", vec), ms, mh, bias)
				w := sym.Zero
				for j := range m {
					w = sym.Add(w, sym.Mul(rot(x, 128*j), m[j]))
				}
				for j := 1; j < 128; j *= 2 {
					w = sym.Add(w, rot(w, j))
				}
				y.judge("layer.fc1", an, out, sym.Add(w, b), union(ps[0], ps[1]))
				y.Unchanged("layer.kept", an, fr)
				y.Disjoint("layer.own", an, out, all)
			}
		}))
	}
	us = append(us, unit("FC2Layer", "FC2Layer", func(y *layers, an string) {
		for i, ps := range parties {
			y.Sfx += fmt.Sprint(i)
			vec, x := y.in("vector", ps[0]...)
			mat, m := y.in("matrix", ps[1]...)
			bias, b := y.in("bias", ps[1]...)
			if k := y.place("mask"); y.pool[k] == nil {
				y.pool[k] = y.opaque("ckks", "Plaintext")
			}
			pt := y.pool[y.place("mask")]
			mask := sym.RAtom("mask" + y.Sfx)
			y.plain[objOf(pt)] = mask
			all := vals{"vector": vec, "matrix": mat, "bias": bias}
			fr := y.Freeze(all)
			out := y.Call("cnn", "", "FC2Layer", y.eval, y.rl, y.rk, vec, mat, bias, pt)
			w := sym.Mul(x, mask)
			for j := 1; j < 16; j *= 2 {
				w = sym.Add(w, rot(w, -j))
			}
			w = sym.Mul(w, m)
			for j := 128; j < 128*64; j *= 2 {
				w = sym.Add(w, rot(w, j))
			}
			y.judge("layer.fc2", an, out, sym.Add(w, b), union(ps[0], ps[1]))
			y.Unchanged("layer.kept", an, fr)
			y.Disjoint("layer.own", an, out, all)
		}
	}))
	return us
}

// opaque is an object the analysed code may only pass on.
func (e *Env) opaque(pkg, typ string) ai.Value {
	t := e.P.Type(pkg, typ)
	return &ai.Ptr{O: e.M.New(t, e.M.Zero(t), typ)}
}

func init() {
	register(&Prop{ID: "C22", Min: 30, LogN: 14,
		Rule:  "With ciphertexts standing for symbolic slot vectors and evaluator methods for their contracts, the value every layer returns is the polynomial in rotations of its inputs that defines the layer; every hoisted form used belongs to the ciphertext it is used with, inputs are unchanged and the result owns its memory.",
		Units: layerUnits})
}

package chk

import (
	"fmt"
	"sort"
	"strings"

	"mkverif/ai"
	"mkverif/sym"
)

// ---- working memory ----

// working is the memory of the evaluating objects and of relinearization key
// sets that belongs neither to parameters nor to keys.
func (e *Env) working() map[*ai.Obj]string {
	all := e.ReachAll(merge(e.Workers(), vals{"the scratch memory of the relinearization keys": e.RlSet}))
	var keys map[*ai.Obj]string
	o := e.Owned()
	delete(o, "the relinearization keys")
	if e.RlSet != nil {
		o["the relinearization keys"] = e.M.Get(e.RlSet, "Value")
	}
	keys = e.ReachAll(o)
	for k := range keys {
		delete(all, k)
	}
	return all
}

// history is what the operations of the menu do to working memory.
type history struct {
	written map[*ai.Obj]bool // working memory some operation writes
	movers  []Op             // operations that change more than row contents
	sigs    []string
	err     *Err
}

// skeleton blanks the coefficient rows of a value.
func skeleton(v ai.Value) ai.Value {
	return mapRows(v, func(r *ai.Row) ai.Value { return ai.S("row") })
}

// mapRows rebuilds a value with its coefficient rows replaced.
func mapRows(v ai.Value, f func(r *ai.Row) ai.Value) ai.Value {
	switch x := v.(type) {
	case *ai.Row:
		return f(x)
	case *ai.Agg:
		vs := make([]ai.Value, len(x.V))
		for i, w := range x.V {
			vs[i] = mapRows(w, f)
		}
		return &ai.Agg{V: vs}
	case *ai.MapC:
		vs := map[string]ai.Value{}
		for k, w := range x.V {
			vs[k] = mapRows(w, f)
		}
		return &ai.MapC{Keys: x.Keys, K: x.K, V: vs}
	}
	return v
}

// shapeOf is the working memory without row contents.
func (e *Env) shapeOf(objs map[*ai.Obj]string) map[*ai.Obj]ai.Value {
	m := map[*ai.Obj]ai.Value{}
	for o := range objs {
		m[o] = skeleton(e.M.S.Mem[o])
	}
	return m
}

// moved describes how working memory other than rows differs from before.
func (e *Env) moved(before map[*ai.Obj]ai.Value) string {
	var d []string
	for o, v := range before {
		w := skeleton(e.M.S.Mem[o])
		if !ai.Same(v, w) {
			d = append(d, fmt.Sprintf("%d:%s", o.ID, describe(w)))
		}
	}
	sort.Strings(d)
	return strings.Join(d, "; ")
}

// describe prints the scalars of a value and the extent of what it refers to.
func describe(v ai.Value) string {
	switch x := v.(type) {
	case *ai.Agg:
		var s []string
		for _, w := range x.V {
			s = append(s, describe(w))
		}
		return "{" + strings.Join(s, " ") + "}"
	case *ai.MapC:
		var s []string
		for k, w := range x.V {
			s = append(s, k+"="+describe(w))
		}
		sort.Strings(s)
		return "map{" + strings.Join(s, " ") + "}"
	case ai.Slice:
		return fmt.Sprintf("slice[%d:%d]", x.Off, x.Len)
	case *ai.Ptr:
		return "ptr"
	case ai.MapV:
		return "map"
	case ai.S, ai.I, ai.F, ai.B, ai.X, ai.Nil:
		return fmt.Sprintf("%v", x)
	}
	return fmt.Sprintf("%T", v)
}

// foul replaces the contents of every row in the given memory by values unrelated
// to everything else.
func (e *Env) foul(objs map[*ai.Obj]bool) {
	var os []*ai.Obj
	for o := range objs {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].ID < os[j].ID })
	for _, o := range os {
		v, ok := e.M.S.Mem[o]
		if !ok {
			continue
		}
		e.M.S.Mem[o] = mapRows(v, func(r *ai.Row) ai.Value {
			e.junk++
			return &ai.Row{N: r.N, E: sym.RAtom(fmt.Sprintf("leftover%d", e.junk)), Dom: 1}
		})
	}
}

// op is the refused call as an operation that precedes others.
func (r refusal) op(kind string) Op {
	return Op{Name: "the refusal of " + r.what, Kind: kind, Anchor: r.anchor, Make: func(e *Env) *Inst {
		return &Inst{Call: func() ai.Value {
			n := len(e.M.Panics)
			if err := e.Try(func() { r.f(e) }); err != nil && err.Und != nil {
				panic(err.Und)
			}
			e.M.Panics = e.M.Panics[:n]
			return nil
		}}
	}}
}

// History runs every operation of the menu and every call that must be refused once from the initial memory (once
// per worker process and shape).
func (c *Ctx) History(e *Env, sh Shape, kind string) *history {
	key := fmt.Sprint(kind, sh)
	if h := c.hist[key]; h != nil {
		return h
	}
	h := &history{written: map[*ai.Obj]bool{}}
	if c.hist == nil {
		c.hist = map[string]*history{}
	}
	c.hist[key] = h
	if e.err != nil {
		h.err = e.err
		return h
	}
	seen := map[string]bool{}
	e.Renew()
	if e.err != nil {
		h.err = e.err
		return h
	}
	e.Reset()
	work := e.working()
	before := e.shapeOf(work)
	ops := menu(kind, sh)
	for _, r := range refusals(kind, sh) {
		if !r.edits {
			ops = append(ops, r.op(kind))
		}
	}
	for _, op := range ops {
		e.Reset()
		e.Try(func() {
			in := e.quiet(op)
			e.M.LastW = newWrites()
			in.Call()
		})
		for o := range work {
			if _, ok := e.M.LastW[o]; ok {
				h.written[o] = true
			}
		}
		s := e.moved(before)
		if len(e.M.S.Locks) > 0 {
			s += fmt.Sprint(" holds ", e.M.S.Locks)
		}
		if s != "" && !seen[s] {
			seen[s] = true
			h.movers = append(h.movers, op)
			h.sigs = append(h.sigs, s)
		}
	}
	e.Reset()
	e.M.Panics = nil
	dbg(fmt.Sprint(key, " working ", len(work), " written ", len(h.written), " movers ", h.sigs))
	return h
}

// histUnits: every operation of the menu after an arbitrary history.  The rows
// of working memory that any operation writes are arbitrary; where operations
// change more of their working memory than rows, each such operation precedes.
func histUnits(tier string) []Unit {
	var us []Unit
	for _, x := range memShapes(tier) {
		x := x
		ops := menu(x.kind, x.sh)
		parts := 3
		for p := 0; p < parts; p++ {
			p := p
			us = append(us, Unit{fmt.Sprintf("%s/part %d of %d", x.sh.Name, p+1, parts), func(c *Ctx) {
				e := c.Env(x.kind, x.sh, ABC...)
				e.c = c
				c.Quiet(func() { c.History(e, x.sh, x.kind) })
				h := c.History(e, x.sh, x.kind)
				for i := p; i < len(ops); i += parts {
					c.afterAny(e, h, ops[i])
				}
			}})
		}
	}
	return us
}

// afterAny judges an operation after an arbitrary history.
func (c *Ctx) afterAny(e *Env, h *history, op Op) {
	an := op.anchor(c)
	run := func(after string, first []Op, renewed, same bool) {
		c.Scenario(e, op.Name+after, "history", an, func() {
			dirty := map[*ai.Obj]bool{}
			for o := range h.written {
				dirty[o] = true
			}
			k := *e.renewed
			if renewed {
				e.swapKeys(&k)
				defer func() {
					if renewed {
						e.swapKeys(&k)
					}
				}()
			}
			var places []*ai.Obj
			for i, f := range first {
				e.Sfx = fmt.Sprint("#", i)
				var in *Inst
				places = e.M.Recording(nil, func() { in = e.quiet(f) })
				e.M.LastW = newWrites()
				in.Call()
				for o := range e.working() {
					if _, ok := e.M.LastW[o]; ok {
						dirty[o] = true
					}
				}
				e.Sfx = ""
			}
			if renewed {
				e.swapKeys(&k)
				renewed = false
			}
			e.foul(dirty)
			if !same {
				places = nil
			}
			var in *Inst
			e.M.Recording(places, func() { in = e.quiet(op) })
			out := in.Call()
			in.Judge("history", out)
			e.Pending("history", an)
		})
	}
	run(" after any history", nil, false, false)
	run(" after the same call on the same objects with other values", []Op{op}, false, true)
	for i := range h.movers {
		run(" after "+h.movers[i].Name+" and any history", h.movers[i:i+1], false, false)
	}
	if len(h.movers) > 1 {
		run(" after all operations that change more than rows", h.movers, false, false)
	}
	if len(h.movers) > 0 {
		run(" after the same operations with other keys of the same parties", h.movers, true, false)
	}
}

// ---- hoisted forms ----

// hoistOps are the ciphertexts with a hoisted form and their parties: two overlapping sets and one party
var hoistOps = map[string][]string{"x": AB, "y": BC, "z": {"A"}}

type hstep struct {
	name string
	an   [3]string
	run  func(e *Env, h map[string]ai.Value) (ai.Value, Want)
}

// hoistLevel: the ciphertext of one party is a level below the others, where there is one.
func hoistLevel(n string, l int) int {
	if n == "z" && l > 1 {
		return l - 1
	}
	return l
}

func hoistSteps(kind string, top int) []hstep {
	var s []hstep
	cts := hoistOps
	ct := func(e *Env, n string) ai.Value { return e.hoistCt[n] }
	rot := func(n string, k int) {
		ids, l := cts[n], hoistLevel(n, top)
		s = append(s, hstep{fmt.Sprintf("rotate %s by %d", n, k), [3]string{"mkckks", "Evaluator", "RotateHoistedNew"}, func(e *Env, h map[string]ai.Value) (ai.Value, Want) {
			w := Want{Ids: ids, Level: l, Target: sym.Perm(gal(k), e.Ph(n, ids...)), Scale: e.keepScale(), Div: e.divs(true, l, 0), Noise: true}
			if kind == "ckks" {
				return e.Call("mkckks", "Evaluator", "RotateHoistedNew", e.Eval, ct(e, n), ai.I(k), h[n], e.RkSet), w
			}
			out := e.Call("mkrlwe", "", "NewCiphertext", e.Rlwe(), e.IDSet(ids...), ai.I(l))
			e.Call("mkrlwe", "KeySwitcher", "RotateHoisted", e.Ks, ct(e, n), ai.I(k), h[n], e.RkSet, out)
			return out, w
		}})
	}
	mul := func(a, b string) {
		l := min(hoistLevel(a, top), hoistLevel(b, top))
		s = append(s, hstep{fmt.Sprintf("multiply %s and %s", a, b), [3]string{"mkckks", "Evaluator", "MulRelinHoistedNew"}, func(e *Env, h map[string]ai.Value) (ai.Value, Want) {
			t := sym.Mul(e.Ph(a, cts[a]...), e.Ph(b, cts[b]...))
			ids := union(cts[a], cts[b])
			if kind == "ckks" {
				n := e.expectRescale(s40*s40, l, e.Sh.Scale)
				return e.Call("mkckks", "Evaluator", "MulRelinHoistedNew", e.Eval, ct(e, a), ct(e, b), h[a], h[b], e.RlSet),
					Want{Ids: ids, Level: l - n, Target: t, Div: e.divs(true, l, n), Noise: true, Scale: e.rescaled(s40*s40, l, n)}
			}
			out := e.Call("mkrlwe", "", "NewCiphertext", e.Rlwe(), e.IDSet(ids...), ai.I(l))
			e.Call("mkrlwe", "KeySwitcher", "MulAndRelinHoisted", e.Ks, ct(e, a), ct(e, b), h[a], h[b], e.RlSet, out)
			return out, Want{Ids: ids, Level: l, Target: t, Div: e.divs(true, l, 0), Noise: true}
		}})
	}
	rot("x", 1)
	rot("y", 4)
	mul("x", "y")
	mul("x", "x")
	rot("x", 2)
	mul("y", "x")
	mul("z", "x")
	mul("y", "z")
	rot("z", 1)
	return s
}

// hoistUnits: two hoisted forms coexist and are used in every order of two steps
// and in one long sequence, after an arbitrary history of the evaluator.
func hoistUnits(tier string) []Unit {
	var us []Unit
	shs := []kindShape{{"ckks", cA1}, {"ckks", cA2p.rev()}, {"rlwe", rA1}, {"rlwe", rA2p.rev()}, {"rlwe", rG3}}
	few := len(shs)
	for _, k := range []string{"ckks", "rlwe"} {
		for _, sh := range otherShapes(k, tier) {
			if sh.NQ > 1 {
				shs = append(shs, kindShape{k, sh})
			}
		}
	}
	if deep(tier) {
		shs = append(shs, kindShape{"ckks", cA2}, kindShape{"rlwe", rA3})
	}
	for n, x := range shs {
		n, x := n, x
		other := n >= few && !(deep(tier) && n >= len(shs)-2)
		L := lv(x.sh)
		for l := 1; l <= L; l++ {
			if other && l != (L+1)/2 {
				continue
			}
			l := l
			steps := hoistSteps(x.kind, l)
			var seqs [][]int
			for i := range steps {
				for j := range steps {
					if i+j > 12 && !deep(tier) {
						continue
					}
					if (x.kind == "ckks" && (i+j+l)%3 == 0) || (x.kind == "rlwe" && (i+j+l)%2 == 0) || deep(tier) {
						seqs = append(seqs, []int{i, j})
					}
				}
			}
			if other {
				seqs = nil
			}
			for _, q := range append(seqs, []int{0, 2, 6, 4, 3, 7, 1, 5, 8, 0}) {
				q := q
				var names []string
				for _, i := range q {
					names = append(names, steps[i].name)
				}
				us = append(us, Unit{fmt.Sprintf("%s/level %d: %s", x.sh.Name, l, strings.Join(names, ", ")), func(c *Ctx) {
					e := c.Env(x.kind, x.sh, ABC...)
					c.Scenario(e, fmt.Sprintf("level %d: %s", l, strings.Join(names, ", ")), "hoisted", c.Anchor("mkckks", "Evaluator", "HoistedForm"), func() {
						e.hoistCt = vals{}
						h, kept := vals{}, vals{}
						for _, n := range []string{"x", "y", "z"} {
							ids := hoistOps[n]
							e.hoistCt[n] = e.Ct(n, hoistLevel(n, l), scaleE(s40), ids...)
							if x.kind == "ckks" {
								h[n] = e.Call("mkckks", "Evaluator", "HoistedForm", e.Eval, e.hoistCt[n])
							} else {
								h[n] = e.Hoist(e.hoistCt[n], hoistLevel(n, l), ids)
							}
							kept[n], kept["hoisted form of "+n] = e.hoistCt[n], h[n]
						}
						f := e.Freeze(kept)
						for k, i := range q {
							st := steps[i]
							an := c.Anchor(st.an[0], st.an[1], st.an[2])
							out, w := st.run(e, h)
							c.inst = fmt.Sprintf("%s/level %d: %s, step %d", x.sh.Name, l, strings.Join(names, ", "), k+1)
							e.Judge("hoisted.result", an, out, w)
							e.Unchanged("hoisted.kept", an, f)
						}
						e.Pending("hoisted", c.Anchor("mkckks", "Evaluator", "HoistedForm"))
					})
				}})
			}
		}
	}
	return us
}

func init() {
	register(&Prop{ID: "C18", Min: 150,
		Rule:  "Every operation started from working memory whose coefficient rows hold arbitrary values (all rows any operation writes are replaced by unrelated symbols), and after every operation that changes anything else in working memory, still satisfies its result rule: no result contains a leftover symbol.",
		Units: histUnits})
	register(&Prop{ID: "C09", Min: 150,
		Rule:  "For every level and every order of steps, rotations and products that use a hoisted form made once have the phase, level, scale and parties they have without it, and the hoisted forms and operands stay unchanged.",
		Units: hoistUnits})
}

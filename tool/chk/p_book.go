package chk

import (
	"fmt"
	"strings"

	"mkverif/ai"
	"mkverif/sym"
)

// zeroPoly describes why a polynomial is not zero with n rows of N coefficients.
func (e *Env) zeroPoly(pol ai.Value, mods []*sym.E) string {
	rows := e.M.PolyRows(pol)
	if len(rows) != len(mods) {
		return fmt.Sprintf("has %d rows, expected %d", len(rows), len(mods))
	}
	for i, s := range rows {
		r, _ := e.M.RowOf(s)
		if s.Len != N {
			return fmt.Sprintf("row %d has %d coefficients, expected %d", i, s.Len, N)
		}
		if r = e.M.Whole(r, mods[i]); r.E != sym.Zero {
			return fmt.Sprintf("row %d holds %s, expected zero", i, short(r.E))
		}
	}
	return ""
}

// zeroQP is zeroPoly for a polynomial modulo Q and P.
func (e *Env) zeroQP(p ai.Value) string {
	if s := e.zeroPoly(e.M.Get(p, "Q"), e.Q); s != "" {
		return "part Q " + s
	}
	if s := e.zeroPoly(e.M.Get(p, "P"), e.PM); s != "" {
		return "part P " + s
	}
	return ""
}

func (e *Env) zeroSwk(swk ai.Value) string {
	sl, ok := e.M.Get(swk, "Value").(ai.Slice)
	if !ok {
		return "has no value"
	}
	if beta := (e.Sh.NQ + e.Sh.Alpha() - 1) / e.Sh.Alpha(); sl.Len != beta {
		return fmt.Sprintf("has %d digits, expected %d", sl.Len, beta)
	}
	for i := 0; i < sl.Len; i++ {
		if s := e.zeroQP(&ai.Ptr{O: sl.O, Path: append(append([]int{}, sl.Path...), sl.Off+i)}); s != "" {
			return fmt.Sprintf("digit %d %s", i, s)
		}
	}
	return ""
}

// idsOf is the set a party set holds.
func (e *Env) idsOf(set ai.Value) []string { return e.Keys(e.M.Get(set, "Value")) }

func sameIDs(a, b []string) bool { return strings.Join(sorted(a), "|") == strings.Join(sorted(b), "|") }

// isSet decides that a party set holds exactly ids and answers Has and Size so.
func (e *Env) isSet(rule, an string, set ai.Value, ids []string) bool {
	if !e.c.Ok(rule, an, sameIDs(e.idsOf(set), ids), "the set holds %q, expected %q", e.idsOf(set), sorted(ids)) {
		return false
	}
	n := e.Call("mkrlwe", "IDSet", "Size", set)
	if !e.c.Ok(rule+".size", an, n == ai.I(len(ids)), "the size of %q is %v", ids, n) {
		return false
	}
	for _, id := range append([]string{"0", "nobody", ""}, idPool...) {
		in := false
		for _, x := range ids {
			in = in || x == id
		}
		h := e.Call("mkrlwe", "IDSet", "Has", set, ai.S(id))
		if !e.c.Ok(rule+".has", an, h == ai.B(in), "%q is in %q: %v", id, ids, h) {
			return false
		}
	}
	return true
}

// idPool: names that differ in ways a careless comparison could miss.
var idPool = []string{"A", "a", "00", "A0"}

func subsets(pool []string) [][]string {
	var out [][]string
	for m := 0; m < 1<<uint(len(pool)); m++ {
		var s []string
		for i, x := range pool {
			if m>>uint(i)&1 == 1 {
				s = append(s, x)
			}
		}
		out = append(out, s)
	}
	return out
}

func intersect(a, b []string) []string {
	var r []string
	for _, x := range a {
		for _, y := range b {
			if x == y {
				r = append(r, x)
			}
		}
	}
	return r
}

func idsetUnits(sh Shape) []Unit {
	an := func(n string) [3]string { return [3]string{"mkrlwe", "IDSet", n} }
	subs := subsets(idPool)
	binary := func(name string, f func(a, b []string) []string) Unit {
		return envUnit("rlwe", sh, "IDSet."+name, "sets", an(name), func(e *Env, an string) {
			for _, a := range subs {
				for _, b := range subs {
					x, y := e.IDSet(a...), e.IDSet(b...)
					if strings.Join(a, "|") == strings.Join(b, "|") && len(a)%2 == 1 {
						y = x // both operands the same object
					}
					in := vals{"the first set": x, "the second set": y}
					fr := e.Freeze(in)
					z := e.Call("mkrlwe", "IDSet", name, x, y)
					e.isSet("sets", an, z, f(a, b))
					e.Unchanged("sets.kept", an, fr)
					e.Disjoint("sets.own", an, z, in)
				}
			}
		})
	}
	return []Unit{
		binary("Union", func(a, b []string) []string { return union(a, b) }),
		binary("Intersection", intersect),
		envUnit("rlwe", sh, "IDSet.CopyNew", "sets", an("CopyNew"), func(e *Env, an string) {
			for _, a := range subs {
				x := e.IDSet(a...)
				fr := e.Freeze(vals{"the set": x})
				z := e.Call("mkrlwe", "IDSet", "CopyNew", x)
				e.isSet("sets", an, z, a)
				e.Disjoint("sets.own", an, z, vals{"the set": x})
				e.Call("mkrlwe", "IDSet", "Add", z, ai.S("Z"))
				e.Unchanged("sets.kept", an, fr)
			}
		}),
		envUnit("rlwe", sh, "IDSet.Add, Remove", "sets", an("Add"), func(e *Env, an string) {
			for _, a := range subs {
				for _, id := range idPool {
					x := e.IDSet(a...)
					e.Call("mkrlwe", "IDSet", "Add", x, ai.S(id))
					e.isSet("sets.add", an, x, union(a, []string{id}))
					e.Call("mkrlwe", "IDSet", "Remove", x, ai.S(id))
					e.isSet("sets.remove", an, x, without(a, id))
					e.Call("mkrlwe", "IDSet", "Remove", x, ai.S("nobody"))
					e.isSet("sets.remove", an, x, without(a, id))
				}
			}
			x := e.IDSet("A")
			e.MustRefuse("sets.zero", an, "adding the reserved id 0", func() { e.Call("mkrlwe", "IDSet", "Add", x, ai.S("0")) })
		}),
	}
}

// isZeroCt decides that a ciphertext is a fresh zero one.
func (e *Env) isZeroCt(rule, an string, ct ai.Value, ids []string, level int, ntt bool, skip ...string) bool {
	mv := e.M.Get(ct, "Value")
	want := append([]string{"0"}, ids...)
	if !e.c.Ok(rule+".parties", an, sameIDs(e.Keys(mv), want), "the ciphertext has components %q, expected %q", e.Keys(mv), sorted(want)) {
		return false
	}
	roots := vals{}
	for _, id := range want {
		p, _ := e.MapGet(mv, id)
		roots[id] = p
		if s := e.zeroPoly(p, e.Level(level)); s != "" {
			return e.c.Ok(rule, an, false, "component %q %s", id, s)
		}
	}
	e.judgeFlags(rule, an, ct, ntt)
	for _, id := range want {
		others := vals{}
		for k, v := range roots {
			if k != id {
				others["component "+k] = v
			}
		}
		e.Disjoint(rule+".own", an, roots[id], others)
	}
	lc := ct
	if e.Kind != "rlwe" {
		if p, ok := e.M.Get(ct, "Ciphertext").(*ai.Ptr); ok {
			lc = p
		}
	}
	l := e.Call("mkrlwe", "Ciphertext", "Level", lc)
	e.c.Ok(rule+".level", an, l == ai.I(level), "Level is %v, expected %d", l, level)
	set := e.Call("mkrlwe", "Ciphertext", "IDSet", lc)
	e.c.Ok(rule+".IDSet", an, sameIDs(e.idsOf(set), ids), "IDSet is %q, expected %q", e.idsOf(set), ids)
	e.Disjoint(rule+".IDSet.own", an, set, vals{"the ciphertext": ct})
	return true
}

func (e *Env) generic(ct ai.Value) ai.Value {
	if e.Kind == "rlwe" {
		return ct
	}
	return e.M.Get(ct, "Ciphertext")
}

func bookCtUnits(kind string, sh Shape) []Unit {
	pkg := pkgOf(kind)
	L := lv(sh)
	subs := subsets([]string{"A", "B", "00"})
	var levels []int
	for l := 0; l <= L; l++ {
		levels = append(levels, l)
	}
	if kind == "bfv" {
		levels = []int{L}
	}
	var us []Unit
	us = append(us, envUnit(kind, sh, "NewCiphertext", "new", [3]string{pkg, "", "NewCiphertext"}, func(e *Env, an string) {
		for _, l := range levels {
			for _, ids := range subs {
				set := e.IDSet(ids...)
				fr := e.Freeze(merge(e.Owned(), vals{"the set": set}))
				roots := merge(e.Owned(), e.Workers(), vals{"the set": set})
				var cts []ai.Value
				switch kind {
				case "rlwe":
					cts = append(cts, e.Call(pkg, "", "NewCiphertext", e.Rlwe(), set, ai.I(l)), e.Call(pkg, "", "NewCiphertextNTT", e.Rlwe(), set, ai.I(l)))
				case "ckks":
					ct := e.Call(pkg, "", "NewCiphertext", e.Params, set, ai.I(l), ai.F(12345))
					sc := e.Call(pkg, "Ciphertext", "ScalingFactor", ct)
					e.c.Ok("new.scale", an, sc == ai.F(12345) && e.M.Get(ct, "Scale") == ai.F(12345), "the scale is %v, expected 12345", sc)
					e.Call(pkg, "Ciphertext", "SetScalingFactor", ct, ai.F(77))
					sc = e.Call(pkg, "Ciphertext", "ScalingFactor", ct)
					e.c.Ok("new.scale", an, sc == ai.F(77) && e.M.Get(ct, "Scale") == ai.F(77), "the scale is %v after setting it to 77", sc)
					cts = append(cts, ct)
				case "bfv":
					cts = append(cts, e.Call(pkg, "", "NewCiphertext", e.Params, set), e.Call(pkg, "", "NewCiphertextNTT", e.Params, set))
				}
				for i, ct := range cts {
					e.isZeroCt("new", an, ct, ids, l, i == 1)
					e.Disjoint("new.own", an, ct, roots)
				}
				e.Unchanged("new.kept", an, fr)
			}
		}
	}))
	us = append(us, envUnit(kind, sh, "Ciphertext.CopyNew", "copy", [3]string{pkg, "Ciphertext", "CopyNew"}, func(e *Env, an string) {
		for _, l := range levels {
			for _, ids := range subs {
				for _, ntt := range []bool{false, true} {
					e.Sfx += "."
					ct := e.bookCt("x", l, ids, ntt)
					fr := e.Freeze(vals{"the ciphertext": ct})
					cp := e.Call(pkg, "Ciphertext", "CopyNew", ct)
					e.Disjoint("copy.own", an, cp, vals{"the ciphertext": ct})
					e.sameCt("copy", an, cp, "x", l, ids, ids, ntt)
					if kind == "ckks" {
						e.c.Ok("copy.scale", an, ai.Same(e.M.Get(cp, "Scale"), e.M.Get(ct, "Scale")), "the scale of the copy is %v", e.M.Get(cp, "Scale"))
					}
					e.Unchanged("copy.kept", an, fr)
				}
			}
		}
	}))
	us = append(us, envUnit(kind, sh, "Ciphertext.Copy", "copy", [3]string{"mkrlwe", "Ciphertext", "Copy"}, func(e *Env, an string) {
		for _, l := range levels {
			for _, ids := range subs {
				for k := 0; k < 4; k++ {
					e.Sfx += "."
					ct, to := e.bookCt("x", l, ids, k&1 == 1), e.bookCt("y", l, ids, k&2 == 2)
					fr := e.Freeze(vals{"the ciphertext": ct})
					e.Call("mkrlwe", "Ciphertext", "Copy", e.generic(to), e.generic(ct))
					e.sameCt("copy.into", an, to, "x", l, ids, ids, k&1 == 1)
					e.Disjoint("copy.into.own", an, to, vals{"the ciphertext": ct})
					e.Unchanged("copy.into.kept", an, fr)
				}
			}
		}
	}))
	us = append(us, envUnit(kind, sh, "Ciphertext.PadCiphertext", "pad", [3]string{"mkrlwe", "Ciphertext", "PadCiphertext"}, func(e *Env, an string) {
		for _, l := range levels {
			for i, ids := range subs {
				for j, more := range subs {
					e.Sfx += "."
					ntt := (i+j)%2 == 1
					ct := e.bookCt("x", l, ids, ntt)
					set := e.IDSet(more...)
					fr := e.Freeze(merge(e.Owned(), vals{"the set": set}))
					e.Call("mkrlwe", "Ciphertext", "PadCiphertext", e.generic(ct), set)
					e.sameCt("pad", an, ct, "x", l, ids, union(ids, more), ntt)
					e.Unchanged("pad.kept", an, fr)
					e.Disjoint("pad.own", an, ct, merge(e.Owned(), e.Workers(), vals{"the set": set}))
				}
			}
		}
	}))
	return us
}

func (e *Env) bookCt(name string, l int, ids []string, ntt bool) ai.Value {
	ct := e.Ct(name, l, scaleE(s40), ids...)
	if ntt {
		n := e.CtNTT(name, l, ids...)
		if e.Kind == "rlwe" {
			return n
		}
		e.storeField(ct, "Ciphertext", n)
	}
	return ct
}

// sameCt decides that the components ids of a ciphertext are those Ct gave it
// and that its other components are zero, all in the same domain and level.
func (e *Env) sameCt(rule, an string, ct ai.Value, name string, l int, ids, all []string, ntt bool) bool {
	mv := e.M.Get(ct, "Value")
	want := append([]string{"0"}, all...)
	if !e.c.Ok(rule+".parties", an, sameIDs(e.Keys(mv), want), "the ciphertext has components %q, expected %q", e.Keys(mv), sorted(want)) {
		return false
	}
	e.judgeFlags(rule, an, ct, ntt)
	e.Apart(rule+".parts", an, ct)
	good := true
	for _, id := range want {
		p, _ := e.MapGet(mv, id)
		old := id == "0"
		for _, x := range ids {
			old = old || x == id
		}
		if n := len(e.M.PolyRows(p)); n != l+1 {
			return e.c.Ok(rule+".level", an, false, "component %q has %d rows, expected %d", id, n, l+1)
		}
		if !old {
			s := e.zeroPoly(p, e.Level(l))
			good = e.c.Ok(rule+".zero", an, s == "", "the added component %q %s", id, s) && good
			continue
		}
		d := 0
		if ntt {
			d = 1
		}
		for i, s := range e.M.PolyRows(p) {
			r, _ := e.M.RowOf(s)
			r = e.M.Whole(r, e.Q[i])
			if !e.c.Ok(rule, an, s.Len == N && r.Dom == d && r.E == sym.RAtom(name+e.Sfx+"_"+id), "row %d of component %q is %s (domain %d, %d coefficients)", i, id, short(r.E), r.Dom, s.Len) {
				return false
			}
		}
	}
	return good
}

// keySet describes one of the key set types.
type keySet struct {
	pkg, typ, elem string
	slots          [][2]interface{}                        // id and rotation index of what can be stored
	make           func(e *Env) ai.Value                   // an empty set
	key            func(e *Env, id string, k int) ai.Value // a key object
	idx            bool
}

func keySets(kind string) []keySet {
	ab := [][2]interface{}{{"A", 0}, {"00", 0}}
	label := func(e *Env, typ, id string) ai.Value {
		t := e.P.Type("mkrlwe", typ)
		p := &ai.Ptr{O: e.M.New(t, e.M.Zero(t), "key")}
		e.SetField(p, "ID", ai.S(id))
		return p
	}
	if kind == "bfv" {
		return []keySet{{"mkbfv", "RelinearizationKeySet", "RelinearizationKey", ab,
			func(e *Env) ai.Value { return e.Call("mkbfv", "", "NewRelinearizationKeyKeySet", e.Params) },
			func(e *Env, id string, k int) ai.Value {
				t := e.P.Type("mkbfv", "RelinearizationKey")
				p := &ai.Ptr{O: e.M.New(t, e.M.Zero(t), "key")}
				e.SetField(p, "ID", ai.S(id))
				return p
			}, false}}
	}
	simple := func(typ, ctor, elem string) keySet {
		return keySet{"mkrlwe", typ, elem, ab,
			func(e *Env) ai.Value {
				if typ == "RelinearizationKeySet" {
					return e.Call("mkrlwe", "", ctor, e.Rlwe())
				}
				return e.Call("mkrlwe", "", ctor)
			},
			func(e *Env, id string, k int) ai.Value { return label(e, elem, id) }, false}
	}
	return []keySet{
		simple("SecretKeySet", "NewSecretKeySet", "SecretKey"),
		simple("PublicKeySet", "NewPublicKeyKeySet", "PublicKey"),
		simple("ConjugationKeySet", "NewConjugationKeySet", "ConjugationKey"),
		simple("RelinearizationKeySet", "NewRelinearizationKeyKeySet", "RelinearizationKey"),
		{"mkrlwe", "RotationKeySet", "RotationKey", [][2]interface{}{{"A", 1}, {"A", 2}, {"00", 1}},
			func(e *Env) ai.Value { return e.Call("mkrlwe", "", "NewRotationKeySet") },
			func(e *Env, id string, k int) ai.Value {
				p := label(e, "RotationKey", id)
				e.SetField(p.(*ai.Ptr), "RotIdx", ai.I(k))
				return p
			}, true},
	}
}

// keySetUnits: every history of adding, replacing and deleting keys against a map.
func keySetUnits(kind string, sh Shape) []Unit {
	var us []Unit
	depth := 4
	for _, ks := range keySets(kind) {
		ks := ks
		us = append(us, envUnit(kind, sh, ks.pkg+"."+ks.typ, "keyset", [3]string{ks.pkg, ks.typ, "Get" + ks.elem}, func(e *Env, an string) {
			set := ks.make(e)
			keys := map[int][2]ai.Value{} // two keys per slot
			for i, s := range ks.slots {
				id, k := s[0].(string), s[1].(int)
				keys[i] = [2]ai.Value{ks.key(e, id, k), ks.key(e, id, k)}
			}
			get := func(i int) ai.Value {
				a := []ai.Value{set, ai.S(ks.slots[i][0].(string))}
				if ks.idx {
					a = append(a, ai.I(ks.slots[i][1].(int)))
				}
				return e.Call(ks.pkg, ks.typ, "Get"+ks.elem, a...)
			}
			inst := e.c.inst
			var walk func(path string, model map[int]ai.Value, d int)
			walk = func(path string, model map[int]ai.Value, d int) {
				e.c.inst = inst + path
				for i := range ks.slots {
					if w, ok := model[i]; ok {
						got := get(i)
						e.c.Ok("keyset.get", an, ai.Same(got, w), "Get(%v) does not return the key added last", ks.slots[i])
					} else {
						e.MustRefuse("keyset.absent", an, fmt.Sprintf("getting the absent key %v", ks.slots[i]), func() { get(i) })
					}
				}
				for k, p := range keys {
					for j := range p {
						id := e.M.Get(p[j], "ID")
						e.c.Ok("keyset.kept", an, id == ai.S(ks.slots[k][0].(string)), "the id of a stored key became %v", id)
					}
				}
				if d == 0 {
					return
				}
				for i, s := range ks.slots {
					for v := 0; v < 3; v++ {
						snap := e.M.Snapshot()
						m := map[int]ai.Value{}
						for k, x := range model {
							m[k] = x
						}
						var op string
						if v < 2 {
							op = fmt.Sprintf("/add %v (%d)", s, v)
							m[i] = keys[i][v]
							e.Call(ks.pkg, ks.typ, "Add"+ks.elem, set, keys[i][v])
						} else {
							op = fmt.Sprintf("/delete %v", s)
							delete(m, i)
							a := []ai.Value{set, ai.S(s[0].(string))}
							if ks.idx {
								a = append(a, ai.I(s[1].(int)))
							}
							e.Call(ks.pkg, ks.typ, "Del"+ks.elem, a...)
						}
						walk(path+op, m, d-1)
						e.M.Restore(snap)
					}
				}
			}
			dd := depth
			if len(ks.slots) > 2 || kind == "bfv" {
				dd--
			}
			walk("", map[int]ai.Value{}, dd)
			e.c.inst = inst
		}))
	}
	return us
}

// blankUnits: constructors of keys and messages.
func blankUnits(kind string, sh Shape) []Unit {
	pkg := pkgOf(kind)
	var us []Unit
	us = append(us, envUnit(kind, sh, "new keys", "blank", [3]string{"mkrlwe", "", "NewSecretKey"}, func(e *Env, an string) {
		anc := func(n string) string { return e.c.Anchor("mkrlwe", "", n) }
		for _, id := range []string{"A", "00", ""} {
			fr := e.Freeze(e.Owned())
			lab := func(n string, k ai.Value) {
				e.c.Ok("blank.id", anc(n), e.M.Get(k, "ID") == ai.S(id), "%s is labelled %v, expected %q", n, e.M.Get(k, "ID"), id)
				e.Disjoint("blank.own", anc(n), k, merge(e.Owned(), e.Workers()))
			}
			zero := func(n, s string) { e.c.Ok("blank.zero", anc(n), s == "", "%s %s", n, s) }
			k := e.Call("mkrlwe", "", "NewSecretKey", e.Rlwe(), ai.S(id))
			lab("NewSecretKey", k)
			zero("NewSecretKey", e.zeroQP(e.M.Sub(k, "Value")))
			k = e.Call("mkrlwe", "", "NewPublicKey", e.Rlwe(), ai.S(id))
			lab("NewPublicKey", k)
			v := e.M.Sub(k, "Value")
			zero("NewPublicKey", e.zeroQP(elem(v, 0)))
			zero("NewPublicKey", e.zeroQP(elem(v, 1)))
			e.Disjoint("blank.own", anc("NewPublicKey"), e.elemOf(v, 0), vals{"the other component": e.elemOf(v, 1)})
			k = e.Call("mkrlwe", "", "NewRotationKey", e.Rlwe(), ai.I(5), ai.S(id))
			lab("NewRotationKey", k)
			e.c.Ok("blank.index", anc("NewRotationKey"), e.M.Get(k, "RotIdx") == ai.I(5), "the index is %v, expected 5", e.M.Get(k, "RotIdx"))
			zero("NewRotationKey", e.zeroSwk(e.M.Get(k, "Value")))
			k = e.Call("mkrlwe", "", "NewConjugationKey", e.Rlwe(), ai.S(id))
			lab("NewConjugationKey", k)
			zero("NewConjugationKey", e.zeroSwk(e.M.Get(k, "Value")))
			rl := e.Call("mkrlwe", "", "NewRelinearizationKey", e.Rlwe(), ai.S(id))
			lab("NewRelinearizationKey", rl)
			rls := []ai.Value{rl}
			if kind == "bfv" {
				b := e.Call("mkbfv", "", "NewRelinearizationKey", e.Params, ai.S(id))
				lab("NewRelinearizationKey", b)
				for i := 0; i < 2; i++ {
					rls = append(rls, e.elemOf(e.M.Sub(b, "Value"), i))
				}
				e.Disjoint("blank.own", anc("NewRelinearizationKey"), rls[1], vals{"the other half": rls[2]})
			}
			for _, r := range rls {
				lab("NewRelinearizationKey", r)
				for i := 0; i < 3; i++ {
					zero("NewRelinearizationKey", e.zeroSwk(e.elemOf(e.M.Sub(r, "Value"), i)))
					for j := 0; j < i; j++ {
						e.Disjoint("blank.own", anc("NewRelinearizationKey"), e.elemOf(e.M.Sub(r, "Value"), i), vals{"another part": e.elemOf(e.M.Sub(r, "Value"), j)})
					}
				}
			}
			k = e.Call("mkrlwe", "", "NewSwitchingKey", e.Rlwe())
			zero("NewSwitchingKey", e.zeroSwk(k))
			e.Disjoint("blank.own", anc("NewSwitchingKey"), k, merge(e.Owned(), e.Workers()))
			e.Unchanged("blank.kept", an, fr)
		}
	}))
	us = append(us, envUnit(kind, sh, "key copies", "copy", [3]string{"mkrlwe", "SecretKey", "CopyNew"}, func(e *Env, an string) {
		for _, id := range ABC {
			for _, x := range []struct {
				typ string
				v   ai.Value
			}{{"SecretKey", e.Sk[id]}, {"PublicKey", e.Pk[id]}} {
				an := e.c.Anchor("mkrlwe", x.typ, "CopyNew")
				fr := e.Freeze(vals{"the key": x.v})
				cp := e.Call("mkrlwe", x.typ, "CopyNew", x.v)
				e.Disjoint("copy.own", an, cp, vals{"the key": x.v})
				e.Unchanged("copy.kept", an, fr)
				e.c.Ok("copy.id", an, e.M.Get(cp, "ID") == ai.S(id), "the copy is labelled %v", e.M.Get(cp, "ID"))
				ps := func(k ai.Value) []ai.Value {
					if x.typ == "SecretKey" {
						return []ai.Value{e.M.Sub(k, "Value")}
					}
					v := e.M.Sub(k, "Value")
					return []ai.Value{elem(v, 0), elem(v, 1)}
				}
				a, b := ps(x.v), ps(cp)
				for i := range a {
					for _, f := range []string{"Q", "P"} {
						r, s := e.Rows(e.M.Get(a[i], f)), e.Rows(e.M.Get(b[i], f))
						same := len(r) == len(s)
						for k := range r {
							same = same && ai.Same(r[k], s[k])
						}
						e.c.Ok("copy", an, same, "part %d %s of the copy differs from the key", i, f)
						e.c.Ok("copy.domain", an, ai.Same(e.M.Get(e.M.Get(a[i], f), "IsNTT"), e.M.Get(e.M.Get(b[i], f), "IsNTT")), "part %d %s of the copy is flagged differently", i, f)
					}
				}
			}
		}
	}))
	if kind != "rlwe" {
		us = append(us, envUnit(kind, sh, "NewMessage", "message", [3]string{pkg, "", "NewMessage"}, func(e *Env, an string) {
			fr := e.Freeze(e.Owned())
			m := e.Call(pkg, "", "NewMessage", e.Params)
			n := N
			if kind == "ckks" {
				n = 1 << uint(e.logSlots())
			}
			vs := e.M.Values(e.M.Get(m, "Value"))
			e.c.Ok("message.slots", an, len(vs) == n, "the message has %d slots, expected %d", len(vs), n)
			s := e.Call(pkg, "Message", "Slots", m)
			e.c.Ok("message.slots", an, s == ai.I(n), "Slots is %v, expected %d", s, n)
			for i, v := range vs {
				x, _ := ai.ToE(v)
				if c, ok := v.(ai.Cx); ok {
					re, _ := ai.ToE(c.Re)
					im, _ := ai.ToE(c.Im)
					x = sym.Add(re, im)
				}
				e.c.Ok("message.zero", an, x == sym.Zero, "slot %d is %v", i, v)
			}
			e.Disjoint("message.own", an, m, merge(e.Owned(), e.Workers()))
			m2 := e.Call(pkg, "", "NewMessage", e.Params)
			e.Disjoint("message.own", an, m, vals{"another message": m2})
			e.Unchanged("message.kept", an, fr)
		}))
	}
	return us
}

func bookUnits(tier string) []Unit {
	var us []Unit
	us = append(us, idsetUnits(rA1)...)
	us = append(us, idsetUnits(rA1.rev().plain())...)
	for _, x := range []kindShape{{"rlwe", rA1}, {"rlwe", rA2p.rev().plain()}, {"rlwe", rG3}, {"ckks", cA1}, {"ckks", cA2p.rev().plain()}, {"ckks", cA1.slots(2)}, {"bfv", bA1}, {"bfv", bA24.rev().plain()}} {
		us = append(us, blankUnits(x.kind, x.sh)...)
		if x.sh.LogSlots != 0 {
			continue
		}
		us = append(us, bookCtUnits(x.kind, x.sh)...)
		us = append(us, keySetUnits(x.kind, x.sh)...)
	}
	return us
}

func init() {
	register(&Prop{ID: "C17", Min: 1000,
		Rule:  "Party sets, ciphertext containers, key sets and key constructors, evaluated on every subset, level and domain and on every history of additions, replacements and deletions up to four steps, agree with finite sets and maps, hold zero where nothing was stored, and own their memory.",
		Units: bookUnits})
}

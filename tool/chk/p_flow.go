package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mkverif/ai"
	"mkverif/sym"
)

// secretNode: a sample of a secret, of randomness or of an error, or a coefficient
// of a message or plaintext.  Reference polynomials, components of ciphertexts,
// moduli and leftovers of earlier calls are public.
func secretNode(n *sym.Node) bool {
	switch n.Op {
	case "ra":
		switch atomKind(n) {
		case 'e', 'u', 'w':
			return true
		case 0:
			s := strings.TrimRight(n.S, "'")
			return s == "m" || s == "p"
		}
	case "atom":
		return strings.HasPrefix(n.S, "m.") || strings.HasPrefix(n.S, "m'")
	}
	return false
}

func secretOf(x *sym.E) *sym.Node {
	var found *sym.Node
	x.Visit(func(n *sym.Node) {
		if found == nil && secretNode(n) {
			found = n
		}
	})
	return found
}

// reduction: the comparison of a value with a multiple of a modulus, as made when
// values are brought into range word by word.
func (e *Env) reduction(c *sym.E) bool {
	ok := false
	c.Visit(func(n *sym.Node) {
		if n.Op != "lt0" || ok {
			return
		}
		for _, m := range n.Args[0].M {
			t := monoE(m)
			mod := false
			t.Visit(func(n *sym.Node) { mod = mod || e.modulus(n) })
			if mod && secretOf(t) == nil {
				ok = true
			}
		}
	})
	return ok
}

func (e *Env) modulus(n *sym.Node) bool {
	for _, q := range e.M.Mods {
		if q.Single() == n {
			return true
		}
	}
	return false
}

// flow watches where data of the analysed calls goes.
func (e *Env) flow(an string, f func()) {
	seen := map[string]bool{}
	var order []string
	n := 0
	e.M.OnSteer = func(how string, x *sym.E) {
		n++
		s := secretOf(x)
		if s == nil || how == "branches" && e.reduction(x) {
			return
		}
		k := fmt.Sprintf("%s: %s %s on %s, which depends on the secret value %s", e.M.Pos(), e.M.FnName(), how, short(x), short(s.E()))
		if p := e.M.Pos() + how; !seen[p] {
			seen[p] = true
			order = append(order, k)
		}
	}
	e.M.OnText = func(v ai.Value) {
		n++
		if s := e.secretIn(v); s != "" {
			k := fmt.Sprintf("%s: %s puts %s into a text", e.M.Pos(), e.M.FnName(), s)
			if !seen[k] {
				seen[k] = true
				order = append(order, k)
			}
		}
	}
	defer func() { e.M.OnSteer, e.M.OnText = nil, nil }()
	f()
	if len(order) == 0 {
		e.c.Ok("flow.steer", an, true, "")
	}
	for _, k := range order {
		i := strings.Index(k, ": ")
		e.c.Bad("flow.steer", k[:i]+", reached from "+an, "%s", k[i+2:])
	}
}

// secretIn: what secret data a value holds or refers to.
func (e *Env) secretIn(v ai.Value) string {
	bad := ""
	look := func(v ai.Value) {
		ai.EachE(v, func(x *sym.E) {
			if s := secretOf(x); s != nil && bad == "" {
				bad = "data that depends on the secret value " + short(s.E())
			}
		})
	}
	look(v)
	for o := range e.Reach(vals{"v": v}) {
		look(e.M.S.Mem[o])
	}
	return bad
}

// outputs are the packages and functions by which data leaves a program.
var outputs = map[string]bool{"os": true, "log": true, "net": true, "syscall": true, "net/http": true, "os/exec": true, "io/ioutil": true, "log/slog": true, "bufio": true, "unsafe": false}

// coeffs: the fields that hold coefficients or message values.
func coeffs(fa ssa.Value) string {
	var t types.Type
	i := 0
	switch x := fa.(type) {
	case *ssa.FieldAddr:
		t, i = x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field
	case *ssa.Field:
		t, i = x.X.Type(), x.Field
	default:
		return ""
	}
	n, ok := t.(*types.Named)
	if !ok {
		return ""
	}
	f := t.Underlying().(*types.Struct).Field(i).Name()
	switch n.Obj().Name() + "." + f {
	case "Poly.Coeffs", "Message.Value":
		return "the " + f + " of a " + n.Obj().Name()
	}
	return ""
}

// holds: a type through which coefficients can be reached.
func holds(t types.Type, seen map[types.Type]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	switch x := t.(type) {
	case *types.Named:
		if p := x.Obj().Pkg(); p != nil {
			switch x.Obj().Name() {
			case "Poly", "Message", "SecretKey":
				return x.Obj().Name()
			case "Parameters", "Ring", "RingQP":
				return ""
			}
		}
		return holds(x.Underlying(), seen)
	case *types.Pointer:
		return holds(x.Elem(), seen)
	case *types.Slice:
		return holds(x.Elem(), seen)
	case *types.Array:
		return holds(x.Elem(), seen)
	case *types.Map:
		return holds(x.Elem(), seen)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if s := holds(x.Field(i).Type(), seen); s != "" {
				return s
			}
		}
	}
	return ""
}

// derived: coefficients a value is computed from within its function.
func derivedFrom(v ssa.Value, seen map[ssa.Value]bool) string {
	if v == nil || seen[v] {
		return ""
	}
	seen[v] = true
	if s := coeffs(v); s != "" {
		return s
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return ""
		}
		if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
			return "" // results of calls are judged by their type
		}
	case *ssa.Alloc: // what is stored into it
		for _, r := range *x.Referrers() {
			switch u := r.(type) {
			case *ssa.Store:
				if u.Addr == x {
					if s := derivedFrom(u.Val, seen); s != "" {
						return s
					}
				}
			case *ssa.IndexAddr:
				for _, w := range *u.Referrers() {
					if st, ok := w.(*ssa.Store); ok && st.Addr == u {
						if s := derivedFrom(st.Val, seen); s != "" {
							return s
						}
					}
				}
			}
		}
		return ""
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Const, *ssa.Function:
		return ""
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return ""
	}
	var ops []*ssa.Value
	for _, o := range in.Operands(ops) {
		if s := derivedFrom(*o, seen); s != "" {
			return s
		}
	}
	return ""
}

// holdsValue: the type behind an interface conversion.
func holdsValue(v ssa.Value) string {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	if _, ok := v.Type().Underlying().(*types.Interface); ok {
		return ""
	}
	return holds(v.Type(), map[types.Type]bool{})
}

// texts: the values given to a function that makes texts.
func texts(args []ssa.Value) []ssa.Value {
	var out []ssa.Value
	for _, a := range args {
		out = append(out, a)
		if s, ok := a.(*ssa.Slice); ok {
			if al, ok := s.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok {
						for _, w := range *ia.Referrers() {
							if st, ok := w.(*ssa.Store); ok && st.Addr == ia {
								out = append(out, st.Val)
							}
						}
					}
				}
			}
		}
	}
	return out
}

// silent decides for one function of the repository that it opens no way out and
// puts no coefficients into texts.
func (c *Ctx) silent(fn *ssa.Function) {
	an := fn.String() + " (" + c.P.Pos(fn.Pos()) + ")"
	at := func(p token.Pos) string {
		if p.IsValid() {
			return c.P.Pos(p)
		}
		return c.P.Pos(fn.Pos())
	}
	good := true
	bad := func(rule string, p token.Pos, f string, a ...interface{}) {
		good = false
		c.Bad(rule, at(p)+" in "+fn.String(), f, a...)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var buf [16]*ssa.Value
			for _, o := range in.Operands(buf[:0]) {
				if *o == nil {
					continue
				}
				switch x := (*o).(type) {
				case *ssa.Function:
					pk := ""
					if x.Pkg != nil {
						pk = x.Pkg.Pkg.Path()
					} else if x.Object() != nil && x.Object().Pkg() != nil {
						pk = x.Object().Pkg().Path()
					}
					if outputs[pk] {
						bad("out.write", in.Pos(), "it uses %s, by which data leaves the program", x)
					}
					if pk == "fmt" && (strings.HasPrefix(x.Name(), "Print") || strings.HasPrefix(x.Name(), "Fprint") || strings.HasPrefix(x.Name(), "Scan") || strings.HasPrefix(x.Name(), "Fscan")) {
						bad("out.write", in.Pos(), "it uses %s, by which data leaves the program", x)
					}
				case *ssa.Global:
					if x.Pkg != nil && outputs[x.Pkg.Pkg.Path()] {
						bad("out.write", in.Pos(), "it uses %s", x)
					}
				case *ssa.Builtin:
					if x.Name() == "print" || x.Name() == "println" {
						bad("out.write", in.Pos(), "it uses the builtin %s", x.Name())
					}
				}
			}
			var args []ssa.Value
			what := ""
			switch x := in.(type) {
			case *ssa.Panic:
				args, what = []ssa.Value{x.X}, "panic"
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && g.Pkg != nil {
					switch g.Pkg.Pkg.Path() {
					case "fmt", "errors", "strconv":
						args, what = x.Common().Args, g.String()
					}
				}
			}
			for _, a := range texts(args) {
				if s := holdsValue(a); s != "" {
					bad("out.text", in.Pos(), "%s is given a value that leads to a %s", what, s)
				} else if s := derivedFrom(a, map[ssa.Value]bool{}); s != "" {
					bad("out.text", in.Pos(), "%s is given a value computed from %s", what, s)
				}
			}
		}
	}
	if good {
		c.Ok("out", an, true, "")
	}
}

// Functions lists the functions of the repository with bodies.
func (c *Ctx) functions() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.All() {
		if c.P.InRepo(fn) && len(fn.Blocks) > 0 {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func flowUnits(tier string) []Unit {
	var us []Unit
	us = append(us, Unit{"every function of the repository", func(c *Ctx) {
		c.inst = "source"
		for _, fn := range c.functions() {
			c.silent(fn)
		}
	}})
	for _, x := range memShapes(tier) {
		x := x
		us = append(us, Unit{x.sh.Name + "/construction and keys of two parties", func(c *Ctx) {
			c.inst = x.sh.Name + "/construction and keys"
			an := c.Anchor("mkrlwe", "", "NewKeyGenerator")
			e := &Env{World: NewWorld(c.P, x.sh), c: c, IDs: AB, Sk: vals{}, Pk: vals{}, R: vals{}, S: map[string]*sym.E{}, RS: map[string]*sym.E{}}
			e.flow(an, func() {
				if err := e.Try(func() { e.build(x.kind) }); err != nil {
					e.report("flow.steer", an, err)
				}
			})
			e.collect()
		}})
		us = append(us, Unit{x.sh.Name + "/secrets of other distributions", func(c *Ctx) {
			e := c.Env(x.kind, x.sh, AB...)
			for _, g := range []struct {
				fn   string
				args []ai.Value
			}{{"GenSecretKeyGaussian", nil}, {"GenSecretKeySparse", []ai.Value{ai.I(3)}}, {"GenSecretKeyWithDistrib", []ai.Value{ai.F(0.25)}}} {
				an := c.Anchor("mkrlwe", "KeyGenerator", g.fn)
				c.Scenario(e, g.fn, "flow.steer", an, func() {
					e.flow(an, func() {
						sk := e.Kgen(g.fn, append(g.args, e.id("Z"))...)
						e.Kgen("GenPublicKey", sk)
						e.Kgen("GenConjugationKey", sk)
					})
				})
			}
		}})
		for _, op := range append(encOps(x.kind, x.sh), keyOps(x.kind)...) {
			op := op
			us = append(us, Unit{x.sh.Name + "/" + op.Name, func(c *Ctx) {
				e := c.OpEnv(x.sh, op)
				an := op.anchor(c)
				c.Scenario(e, op.Name, "flow.steer", an, func() {
					in := e.quiet(op)
					e.flow(an, func() { in.Call() })
				})
			}})
		}
	}
	return us
}

func init() {
	register(&Prop{ID: "C29", Min: 150,
		Rule:  "On every analysed path of construction, key generation, encoding, encryption, partial decryption and decryption no branch and no index in the repository depends on a sample of a secret key, of randomness or of an error or on a coefficient of a message or plaintext (comparisons with a modulus for reduction excepted), and no such value goes into a text or an error; no function of the repository refers to a function or variable by which data leaves the program.",
		Units: flowUnits})
}

package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"

	"mkverif/sym"

	"golang.org/x/tools/go/ssa"
)

var (
	tU64 = types.Typ[types.Uint64]
	tF64 = types.Typ[types.Float64]
	tInt = types.Typ[types.Int]
)

// num converts an argument to a normal form or gives up.
func (m *Machine) num(v Value) *sym.E {
	if e, ok := ToE(v); ok {
		return e
	}
	if s, ok := v.(*Sel); ok {
		return sym.Ite(s.C, m.num(s.A), m.num(s.B))
	}
	m.undecided("number expected, got %T %s", v, Show(v))
	return nil
}

func (m *Machine) errValue(msg string) Value {
	t := m.P.Type("errors", "errorString")
	if t == nil {
		m.undecided("errors.errorString not found")
	}
	o := m.New(t, &Agg{[]Value{S(msg)}}, "error")
	return Iface{types.NewPointer(t), &Ptr{O: o}}
}

func (m *Machine) sprint(vs []Value) string {
	var sb strings.Builder
	for _, v := range vs {
		m.text(v)
		sb.WriteString(fmt.Sprint(nativeOf(v)))
	}
	return sb.String()
}

// text reports values that go into a text.
func (m *Machine) text(vs ...Value) {
	if m.OnText != nil {
		for _, v := range vs {
			m.OnText(v)
		}
	}
}

func nativeOf(v Value) interface{} {
	switch x := v.(type) {
	case Iface:
		if b, ok := x.T.Underlying().(*types.Basic); ok {
			if i, ok := x.V.(I); ok && b.Info()&types.IsUnsigned != 0 {
				return uint64(i)
			}
		}
		return nativeOf(x.V)
	case I:
		return int64(x)
	case F:
		return float64(x)
	case B:
		return bool(x)
	case S:
		return string(x)
	case X:
		return x.E.String()
	case Nil:
		return nil
	}
	return fmt.Sprintf("%T", v)
}

func installStd(m *Machine) {
	M := m.Models
	// --- fmt, errors, strconv
	M["fmt.Sprintf"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		f, ok := a[0].(S)
		if !ok {
			m.undecided("format string is not constant")
		}
		var as []interface{}
		for _, v := range m.values(a[1]) {
			m.text(v)
			as = append(as, nativeOf(v))
		}
		return S(fmt.Sprintf(string(f), as...))
	}
	M["fmt.Sprint"] = func(m *Machine, fn *ssa.Function, a []Value) Value { return S(m.sprint(m.values(a[0]))) }
	M["fmt.Sprintln"] = func(m *Machine, fn *ssa.Function, a []Value) Value { return S(m.sprint(m.values(a[0])) + "\n") }
	M["fmt.Errorf"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		s, _ := a[0].(S)
		m.text(m.values(a[1])...)
		return m.errValue(string(s))
	}
	prt := func(m *Machine, fn *ssa.Function, a []Value) Value { return Tup{I(0), Nil{}} }
	for _, n := range []string{"Println", "Printf", "Print", "Fprintf", "Fprintln", "Fprint"} {
		M["fmt."+n] = prt
	}
	for _, n := range []string{"Println", "Printf", "Print"} {
		M["log."+n] = func(m *Machine, fn *ssa.Function, a []Value) Value { return Tup{} }
	}
	for _, n := range []string{"Panic", "Panicf", "Panicln", "Fatal", "Fatalf", "Fatalln"} {
		M["log."+n] = func(m *Machine, fn *ssa.Function, a []Value) Value {
			panic(&AbsPanic{Pos: m.Pos(), Fn: m.fnName(), Msg: "log." + fn.Name(), Explicit: true})
		}
	}
	M["(*errors.errorString).Error"] = nil
	delete(M, "(*errors.errorString).Error")
	M["strconv.Itoa"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		if i, ok := a[0].(I); ok {
			return S(strconv.Itoa(int(i)))
		}
		m.undecided("Itoa of %s", Show(a[0]))
		return nil
	}
	M["strconv.FormatInt"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		i, ok := a[0].(I)
		b, ok2 := a[1].(I)
		if ok && ok2 {
			return S(strconv.FormatInt(int64(i), int(b)))
		}
		m.undecided("FormatInt of %s", Show(a[0]))
		return nil
	}
	M["strconv.Atoi"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(S); ok {
			i, err := strconv.Atoi(string(s))
			if err != nil {
				return Tup{I(0), m.errValue(err.Error())}
			}
			return Tup{I(i), Nil{}}
		}
		m.undecided("Atoi of %s", Show(a[0]))
		return nil
	}
	M["strconv.ParseFloat"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(S); ok {
			f, err := strconv.ParseFloat(string(s), 64)
			if err != nil {
				return Tup{F(f), m.errValue(err.Error())}
			}
			return Tup{F(f), Nil{}}
		}
		m.undecided("ParseFloat of %s", Show(a[0]))
		return nil
	}
	// --- synchronisation: one goroutine is followed; a lock that it holds already is never released by another
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive"} {
		M[n] = func(m *Machine, fn *ssa.Function, a []Value) Value { return Tup{} }
	}
	lock := func(by int) Model {
		return func(m *Machine, fn *ssa.Function, a []Value) Value {
			p, ok := a[0].(*Ptr)
			if !ok {
				m.undecided("lock %s", Show(a[0]))
			}
			k := fmt.Sprintf("%p%v", p.O, p.Path)
			h := m.S.Locks[k]
			switch {
			case by < 0 && h != 0, by == 1 && h < 0:
				m.fault("the call never returns: it waits for a lock that it or an earlier call holds")
			case by == 2 && h >= 0, by == 3 && h <= 0:
				m.fault("fatal error: unlock of unlocked mutex")
			case by == 2:
				h = 0
			case by == 3:
				h--
			default:
				h += by
			}
			m.S.setLock(k, h)
			return Tup{}
		}
	}
	M["(*sync.Mutex).Lock"], M["(*sync.RWMutex).Lock"] = lock(-1), lock(-1)
	M["(*sync.Mutex).Unlock"], M["(*sync.RWMutex).Unlock"] = lock(2), lock(2)
	M["(*sync.RWMutex).RLock"], M["(*sync.RWMutex).RUnlock"] = lock(1), lock(3)
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		ty := map[string]types.Type{"Int32": types.Typ[types.Int32], "Int64": types.Typ[types.Int64], "Uint32": types.Typ[types.Uint32],
			"Uint64": tU64, "Uintptr": types.Typ[types.Uintptr]}[t]
		M["sync/atomic.Add"+t] = func(m *Machine, fn *ssa.Function, a []Value) Value {
			v := m.binop(token.ADD, m.Load(a[0]), a[1], ty, ty)
			m.Store(a[0], v)
			return v
		}
		M["sync/atomic.Load"+t] = func(m *Machine, fn *ssa.Function, a []Value) Value { return m.Load(a[0]) }
		M["sync/atomic.Store"+t] = func(m *Machine, fn *ssa.Function, a []Value) Value {
			m.Store(a[0], a[1])
			return Tup{}
		}
		M["sync/atomic.Swap"+t] = func(m *Machine, fn *ssa.Function, a []Value) Value {
			v := m.Load(a[0])
			m.Store(a[0], a[1])
			return v
		}
		M["sync/atomic.CompareAndSwap"+t] = func(m *Machine, fn *ssa.Function, a []Value) Value {
			c := m.binop(token.EQL, m.Load(a[0]), a[1], ty, types.Typ[types.Bool])
			b, ok := c.(B)
			if !ok {
				m.undecided("compare and swap on %s", Show(c))
			}
			if b {
				m.Store(a[0], a[2])
			}
			return b
		}
	}
	// a pool hands out what was put back last; only what it holds is kept in its first field
	M["(*sync.Pool).Put"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.fieldAddr(a[0], 0)
		t, _ := m.Load(p).(Tup)
		m.Store(p, append(append(Tup{}, t...), a[1]))
		return Tup{}
	}
	M["(*sync.Pool).Get"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.fieldAddr(a[0], 0)
		if t, _ := m.Load(p).(Tup); len(t) > 0 {
			m.Store(p, append(Tup{}, t[:len(t)-1]...))
			return t[len(t)-1]
		}
		f := m.Load(m.Sub(a[0], "New"))
		if _, none := f.(Nil); none {
			return Nil{}
		}
		return m.apply(f, nil, nil)
	}
	M["(*sync.Once).Do"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.fieldAddr(a[0], 1) // any field that is not the mutex
		if _, done := m.Load(p).(Tup); !done {
			m.Store(p, Tup{})
			m.apply(a[1], nil, nil)
		}
		return Tup{}
	}
	// strings.Builder: its self pointer and its unsafe growth have no effect on what is built
	M["(*strings.Builder).copyCheck"] = func(m *Machine, fn *ssa.Function, a []Value) Value { return Tup{} }
	M["(*strings.Builder).grow"] = func(m *Machine, fn *ssa.Function, a []Value) Value { return Tup{} }
	M["(*strings.Builder).Grow"] = func(m *Machine, fn *ssa.Function, a []Value) Value { return Tup{} }
	M["(*strings.Builder).String"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		b := m.Load(m.Sub(a[0], "buf"))
		if isNil(b) {
			return S("")
		}
		return m.convert(b, types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String])
	}
	// --- math
	f1 := func(name string, f func(float64) float64) {
		M["math."+name] = func(m *Machine, fn *ssa.Function, a []Value) Value {
			if x, ok := a[0].(F); ok {
				return F(f(float64(x)))
			}
			if x, ok := a[0].(I); ok {
				return F(f(float64(x)))
			}
			e := m.num(a[0])
			switch name {
			case "Abs":
				return FromE(sym.App("abs", "", e), tF64)
			case "Floor", "Ceil", "Round", "Trunc":
				return FromE(sym.App(strings.ToLower(name), "", e), tF64)
			}
			return X{sym.Raw(strings.ToLower(name), "", e)}
		}
	}
	for n, f := range map[string]func(float64) float64{"Abs": math.Abs, "Floor": math.Floor, "Ceil": math.Ceil, "Round": math.Round,
		"Trunc": math.Trunc, "RoundToEven": math.RoundToEven,
		"Log2": math.Log2, "Log": math.Log, "Log10": math.Log10, "Sqrt": math.Sqrt, "Exp2": math.Exp2, "Exp": math.Exp, "Cos": math.Cos, "Sin": math.Sin} {
		f1(n, f)
	}
	f2 := func(name string, f func(a, b float64) float64) {
		M["math."+name] = func(m *Machine, fn *ssa.Function, a []Value) Value {
			x, ok := a[0].(F)
			y, ok2 := a[1].(F)
			if ok && ok2 {
				return F(f(float64(x), float64(y)))
			}
			ex, ey := m.num(a[0]), m.num(a[1])
			switch name {
			case "Max", "Min":
				return FromE(sym.App(strings.ToLower(name), "", ex, ey), tF64)
			case "Pow":
				if k, ok := ey.Int(); ok && k > -64 && k < 64 {
					return FromE(sym.PowInt(ex, int(k)), tF64)
				}
			}
			return X{sym.Raw(strings.ToLower(name), "", ex, ey)}
		}
	}
	for n, f := range map[string]func(a, b float64) float64{"Max": math.Max, "Min": math.Min, "Pow": math.Pow, "Mod": math.Mod} {
		f2(n, f)
	}
	M["math.IsNaN"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(F); ok {
			return B(math.IsNaN(float64(x)))
		}
		return B(false)
	}
	M["math.IsInf"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(F); ok {
			return B(math.IsInf(float64(x), 0))
		}
		return B(false)
	}
	M["math.Inf"] = func(m *Machine, fn *ssa.Function, a []Value) Value { return F(math.Inf(int(a[0].(I)))) }
	M["math.Float64bits"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(F); ok {
			return I(int64(math.Float64bits(float64(x))))
		}
		m.undecided("Float64bits of a symbolic value")
		return nil
	}
	M["math.Float64frombits"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(I); ok {
			return F(math.Float64frombits(uint64(x)))
		}
		m.undecided("Float64frombits of a symbolic value")
		return nil
	}
	M["math.Modf"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(F); ok {
			i, f := math.Modf(float64(x))
			return Tup{F(i), F(f)}
		}
		e := m.num(a[0])
		i := sym.App("trunc", "", e)
		return Tup{FromE(i, tF64), FromE(sym.Sub(e, i), tF64)}
	}
	// --- math/bits
	M["math/bits.Mul64"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		x, ok := a[0].(I)
		y, ok2 := a[1].(I)
		if ok && ok2 {
			h, l := bits.Mul64(uint64(x), uint64(y))
			return Tup{I(int64(h)), I(int64(l))}
		}
		p := sym.Mul(m.u64(a[0]), m.u64(a[1]))
		lo := sym.Lo64(p)
		return Tup{FromE(sym.Div(sym.Sub(p, lo), sym.R), tU64), FromE(lo, tU64)}
	}
	M["math/bits.Add64"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		x, ok := a[0].(I)
		y, ok2 := a[1].(I)
		c, ok3 := a[2].(I)
		if ok && ok2 && ok3 {
			s, co := bits.Add64(uint64(x), uint64(y), uint64(c))
			return Tup{I(int64(s)), I(int64(co))}
		}
		s := sym.Add(m.u64(a[0]), m.u64(a[1]), m.u64(a[2]))
		if _, hi, ok := s.Range(); ok && hi < two64 {
			return Tup{FromE(s, tU64), I(0)} // no carry: the words are not negative
		}
		lo := sym.Lo64(unLo(s))
		return Tup{FromE(lo, tU64), FromE(sym.Div(sym.Sub(s, lo), sym.R), tU64)}
	}
	M["math/bits.Sub64"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		x, ok := a[0].(I)
		y, ok2 := a[1].(I)
		c, ok3 := a[2].(I)
		if ok && ok2 && ok3 {
			s, co := bits.Sub64(uint64(x), uint64(y), uint64(c))
			return Tup{I(int64(s)), I(int64(co))}
		}
		s := sym.Sub(m.u64(a[0]), sym.Add(m.u64(a[1]), m.u64(a[2])))
		if l, _, ok := s.Range(); ok && l >= 0 {
			return Tup{FromE(s, tU64), I(0)}
		}
		lo := sym.Lo64(unLo(s))
		return Tup{FromE(lo, tU64), FromE(sym.Div(sym.Sub(lo, s), sym.R), tU64)}
	}
	b1 := func(name string, f func(uint64) int) {
		M["math/bits."+name] = func(m *Machine, fn *ssa.Function, a []Value) Value {
			if x, ok := a[0].(I); ok {
				return I(f(uint64(x)))
			}
			e := m.num(a[0])
			if strings.HasPrefix(name, "Len") || strings.HasPrefix(name, "LeadingZeros") {
				if lo, hi, ok := e.Range(); ok && lo >= 1 {
					l1 := int(math.Floor(math.Log2(lo))) + 1
					l2 := int(math.Floor(math.Log2(hi))) + 1
					if l1 == l2 {
						if strings.HasPrefix(name, "Len") {
							return I(l1)
						}
						return I(64 - l1)
					}
				}
			}
			return X{sym.Raw("bits"+name, "", e)}
		}
	}
	for n, f := range map[string]func(uint64) int{"Len64": bits.Len64, "Len": func(x uint64) int { return bits.Len64(x) },
		"LeadingZeros64": bits.LeadingZeros64, "TrailingZeros64": bits.TrailingZeros64, "OnesCount64": bits.OnesCount64,
		"LeadingZeros": bits.LeadingZeros64, "TrailingZeros": bits.TrailingZeros64, "OnesCount": bits.OnesCount64} {
		b1(n, f)
	}
	for _, n := range []string{"Reverse64", "Reverse"} {
		M["math/bits."+n] = func(m *Machine, fn *ssa.Function, a []Value) Value {
			if x, ok := a[0].(I); ok {
				return I(int64(bits.Reverse64(uint64(x))))
			}
			m.undecided("bit reversal of a symbolic value")
			return nil
		}
	}
	installBig(m)
	_ = token.ADD
}

// u64 reads an argument as an unsigned 64-bit number.
func (m *Machine) u64(v Value) *sym.E {
	if i, ok := v.(I); ok && i < 0 {
		return sym.BigI(new(big.Int).SetUint64(uint64(i)))
	}
	return m.num(v)
}

// unLo drops lo64 of whole monomials: valid modulo 2^64.
func unLo(e *sym.E) *sym.E {
	return e.MapMonos(func(c *big.Rat, fs []sym.FP) *sym.E {
		if len(fs) == 1 && fs[0].X == 1 && fs[0].N.Op == "lo64" && c.IsInt() {
			return sym.Scale(fs[0].N.Args[0], c)
		}
		return sym.FromMono(c, fs)
	})
}

// ---- math/big ----

func (m *Machine) big(v Value) *sym.E {
	switch x := m.Load(v).(type) {
	case X:
		return x.E
	case *Sel:
		return m.num(x)
	case I:
		return sym.Int(int64(x))
	default:
		m.undecided("big number is %T", x)
	}
	return nil
}

func (m *Machine) newBig(kind string, e *sym.E) Value {
	t := m.P.Type("math/big", kind)
	o := m.New(t, X{e}, "big."+kind)
	return &Ptr{O: o}
}

func sgn(e *sym.E) Value {
	return FromE(sym.Sub(sym.Lt(sym.Zero, e), sym.Lt(e, sym.Zero)), tInt)
}

func installBig(m *Machine) {
	M := m.Models
	M["math/big.NewInt"] = func(m *Machine, fn *ssa.Function, a []Value) Value { return m.newBig("Int", m.num(a[0])) }
	M["math/big.NewFloat"] = func(m *Machine, fn *ssa.Function, a []Value) Value { return m.newBig("Float", m.num(a[0])) }
	M["math/big.NewRat"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.newBig("Rat", sym.Div(m.num(a[0]), m.num(a[1])))
	}
	bin := func(kind, name string, f func(m *Machine, x, y *sym.E) *sym.E) {
		M["(*math/big."+kind+")."+name] = func(m *Machine, fn *ssa.Function, a []Value) Value {
			r := f(m, m.big(a[1]), m.big(a[2]))
			m.Store(a[0], X{r})
			return a[0]
		}
	}
	un := func(kind, name string, f func(m *Machine, x *sym.E) *sym.E) {
		M["(*math/big."+kind+")."+name] = func(m *Machine, fn *ssa.Function, a []Value) Value {
			m.Store(a[0], X{f(m, m.big(a[1]))})
			return a[0]
		}
	}
	scal := func(kind, name string, f func(m *Machine, v Value) *sym.E) {
		M["(*math/big."+kind+")."+name] = func(m *Machine, fn *ssa.Function, a []Value) Value {
			m.Store(a[0], X{f(m, a[1])})
			return a[0]
		}
	}
	for _, k := range []string{"Int", "Float", "Rat"} {
		bin(k, "Add", func(m *Machine, x, y *sym.E) *sym.E { return sym.Add(x, y) })
		bin(k, "Sub", func(m *Machine, x, y *sym.E) *sym.E { return sym.Sub(x, y) })
		bin(k, "Mul", func(m *Machine, x, y *sym.E) *sym.E { return sym.Mul(x, y) })
		un(k, "Set", func(m *Machine, x *sym.E) *sym.E { return x })
		un(k, "Neg", func(m *Machine, x *sym.E) *sym.E { return sym.Neg(x) })
		un(k, "Abs", func(m *Machine, x *sym.E) *sym.E { return sym.App("abs", "", x) })
		scal(k, "SetInt64", func(m *Machine, v Value) *sym.E { return m.num(v) })
		scal(k, "SetUint64", func(m *Machine, v Value) *sym.E { return m.u64(v) })
		M["(*math/big."+k+").Sign"] = func(m *Machine, fn *ssa.Function, a []Value) Value { return sgn(m.big(a[0])) }
		M["(*math/big."+k+").Cmp"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
			return sgn(sym.Sub(m.big(a[0]), m.big(a[1])))
		}
		M["(*math/big."+k+").String"] = func(m *Machine, fn *ssa.Function, a []Value) Value { return S("number") }
	}
	quo := func(m *Machine, x, y *sym.E) *sym.E {
		if y == sym.Zero {
			m.fault("division by zero")
		}
		if lo, _, ok := x.Range(); ok && lo >= 0 {
			if lo, _, ok := y.Range(); ok && lo > 0 {
				return sym.App("fdiv", "", x, y) // the same for operands that are not negative
			}
		}
		return sym.App("trunc", "", sym.Div(x, y))
	}
	bin("Int", "Quo", quo)
	bin("Int", "Div", func(m *Machine, x, y *sym.E) *sym.E {
		if y == sym.Zero {
			m.fault("division by zero")
		}
		return sym.App("fdiv", "", x, y)
	})
	mod := func(m *Machine, x, y *sym.E) *sym.E { return sym.Red(x, y) }
	bin("Int", "Mod", mod)
	bin("Int", "Rem", func(m *Machine, x, y *sym.E) *sym.E {
		if lo, _, ok := x.Range(); ok && lo >= 0 {
			return sym.Red(x, y)
		}
		return sym.Raw("rem", "", x, y)
	})
	bin("Int", "And", func(m *Machine, x, y *sym.E) *sym.E { return sym.App("and", "", x, y) })
	bin("Int", "GCD", func(m *Machine, x, y *sym.E) *sym.E { return sym.Raw("gcd", "", x, y) })
	bin("Int", "ModInverse", func(m *Machine, x, q *sym.E) *sym.E {
		return sym.Raw("minv", "", sym.Strip(x, q), q)
	})
	M["(*math/big.Int).Exp"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		x, y := m.big(a[1]), m.big(a[2])
		var r *sym.E
		if isNil(a[3]) {
			if k, ok := y.Int(); ok && k >= 0 && k < 4096 {
				r = sym.PowInt(x, int(k))
			} else {
				r = sym.Raw("pow", "", x, y)
			}
		} else {
			q := m.big(a[3])
			if y == sym.Sub(q, sym.Int(2)) {
				r = sym.Red(sym.Inv(x), q)
			} else if k, ok := y.Int(); ok && k >= 0 && k < 64 {
				r = sym.Red(sym.PowInt(x, int(k)), q)
			} else {
				r = sym.Red(sym.Raw("pow", "", x, y), q)
			}
		}
		m.Store(a[0], X{r})
		return a[0]
	}
	M["(*math/big.Int).DivMod"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		x, y := m.big(a[1]), m.big(a[2])
		q := sym.App("fdiv", "", x, y)
		m.Store(a[0], X{q})
		m.Store(a[3], X{sym.Red(x, y)})
		return Tup{a[0], a[3]}
	}
	M["(*math/big.Int).QuoRem"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		x, y := m.big(a[1]), m.big(a[2])
		q := quo(m, x, y)
		m.Store(a[0], X{q})
		m.Store(a[3], X{sym.Sub(x, sym.Mul(q, y))})
		return Tup{a[0], a[3]}
	}
	sh := func(name string) {
		M["(*math/big.Int)."+name] = func(m *Machine, fn *ssa.Function, a []Value) Value {
			x := m.big(a[1])
			k := m.intOf(a[2])
			p := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(k)))
			if name == "Rsh" {
				p.Inv(p)
				m.Store(a[0], X{sym.App("floor", "", sym.Scale(x, p))})
			} else {
				m.Store(a[0], X{sym.Scale(x, p)})
			}
			return a[0]
		}
	}
	sh("Lsh")
	sh("Rsh")
	M["(*math/big.Int).CmpAbs"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		return sgn(sym.Sub(sym.App("abs", "", m.big(a[0])), sym.App("abs", "", m.big(a[1]))))
	}
	toU := func(m *Machine, fn *ssa.Function, a []Value) Value { return FromE(m.big(a[0]), tU64) }
	M["(*math/big.Int).Uint64"] = toU
	M["(*math/big.Int).Int64"] = func(m *Machine, fn *ssa.Function, a []Value) Value { return FromE(m.big(a[0]), types.Typ[types.Int64]) }
	M["(*math/big.Int).IsInt64"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		if c, ok := m.big(a[0]).Const(); ok {
			return B(c.IsInt() && c.Num().IsInt64())
		}
		if lo, hi, ok := m.big(a[0]).Range(); ok {
			if lo >= -9.2e18 && hi <= 9.2e18 {
				return B(true)
			}
		}
		return XB{sym.Raw("bool", "isint64:"+m.big(a[0]).String())}
	}
	M["(*math/big.Int).IsUint64"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		if c, ok := m.big(a[0]).Const(); ok {
			return B(c.IsInt() && c.Num().IsUint64())
		}
		if lo, hi, ok := m.big(a[0]).Range(); ok {
			if lo >= 0 && hi <= 1.8e19 {
				return B(true)
			}
			if lo > 1.85e19 || hi < 0 {
				return B(false)
			}
		}
		return XB{sym.Raw("bool", "isuint64:"+m.big(a[0]).String())}
	}
	M["(*math/big.Int).BitLen"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		e := m.big(a[0])
		if c, ok := e.Const(); ok {
			return I(c.Num().BitLen())
		}
		if lo, hi, ok := e.Range(); ok && lo >= 1 {
			l1, l2 := int(math.Floor(math.Log2(lo)))+1, int(math.Floor(math.Log2(hi)))+1
			if l1 == l2 {
				return I(l1)
			}
		}
		return X{sym.Raw("bitlen", "", e)}
	}
	M["(*math/big.Int).ProbablyPrime"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		if c, ok := m.big(a[0]).Const(); ok {
			return B(c.Num().ProbablyPrime(10))
		}
		return B(true)
	}
	M["(*math/big.Int).SetString"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		s, ok := a[1].(S)
		if !ok {
			m.undecided("SetString of a symbolic string")
		}
		z, good := new(big.Int).SetString(string(s), int(a[2].(I)))
		if !good {
			return Tup{Nil{}, B(false)}
		}
		m.Store(a[0], X{sym.BigI(z)})
		return Tup{a[0], B(true)}
	}
	// --- Float
	un("Float", "SetInt", func(m *Machine, x *sym.E) *sym.E { return x })
	un("Float", "SetRat", func(m *Machine, x *sym.E) *sym.E { return x })
	un("Rat", "SetInt", func(m *Machine, x *sym.E) *sym.E { return x })
	scal("Float", "SetFloat64", func(m *Machine, v Value) *sym.E { return m.num(v) })
	scal("Rat", "SetFloat64", func(m *Machine, v Value) *sym.E { return m.num(v) })
	fq := func(m *Machine, x, y *sym.E) *sym.E {
		if y == sym.Zero {
			m.fault("division by zero")
		}
		return sym.Div(x, y)
	}
	bin("Float", "Quo", fq)
	bin("Rat", "Quo", fq)
	un("Float", "Sqrt", func(m *Machine, x *sym.E) *sym.E { return sym.Raw("sqrt", "", x) })
	M["(*math/big.Float).SetPrec"] = func(m *Machine, fn *ssa.Function, a []Value) Value { return a[0] }
	M["(*math/big.Float).SetMode"] = func(m *Machine, fn *ssa.Function, a []Value) Value { return a[0] }
	M["(*math/big.Float).Prec"] = func(m *Machine, fn *ssa.Function, a []Value) Value { return I(53) }
	M["(*math/big.Float).Float64"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		return Tup{FromE(m.big(a[0]), tF64), I(0)}
	}
	M["(*math/big.Rat).Float64"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		return Tup{FromE(m.big(a[0]), tF64), B(true)}
	}
	M["(*math/big.Float).Int"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := sym.App("trunc", "", m.big(a[0]))
		if isNil(a[1]) {
			return Tup{m.newBig("Int", r), I(0)}
		}
		m.Store(a[1], X{r})
		return Tup{a[1], I(0)}
	}
	M["(*math/big.Float).Int64"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		return Tup{FromE(sym.App("trunc", "", m.big(a[0])), types.Typ[types.Int64]), I(0)}
	}
	M["(*math/big.Float).Uint64"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		return Tup{FromE(sym.App("trunc", "", m.big(a[0])), tU64), I(0)}
	}
}

// two64 is a little less than 2^64.
const two64 = 18446744073709551616 * (1 - 1e-9)

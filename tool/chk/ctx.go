package chk

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mkverif/ai"
	"mkverif/sym"
)

// Ob is one decided rule instance.
type Ob struct {
	Prop   string `json:"prop"`
	Rule   string `json:"rule"`
	Inst   string `json:"inst"`   // structural shape and configuration
	Anchor string `json:"anchor"` // construct: function under analysis, file:line
	Status string `json:"status"` // ok, violation, undecided
	Detail string `json:"detail,omitempty"`
	Writes string `json:"writes,omitempty"` // last writers of the offending memory
}

// Ctx is the state of one worker.
type Ctx struct {
	hist   map[string]*history
	Silent bool // decided rules are not recorded
	P      *ai.Prog
	Tier   string
	Prop   string

	Obs   []Ob
	envs  map[string]*Env
	cur   string // current instance
	Stats Stats
	entry map[string]bool
	cntF  map[fieldKey]bool
	cntG  map[*ssa.Global]bool
	inst  string
}

// Stats is what was analysed.
type Stats struct {
	Funcs  map[string]bool `json:"-"`
	FuncL  []string        `json:"funcs"`
	Instrs int             `json:"instrs"`
	Calls  int             `json:"calls"`
	Forks  int             `json:"forks"`
	Entry  map[string]int  `json:"entry"`
	Samps  int             `json:"samples"`
}

func NewCtx(p *ai.Prog, prop, tier string) *Ctx {
	return &Ctx{P: p, Prop: prop, Tier: tier, envs: map[string]*Env{}, Stats: Stats{Funcs: map[string]bool{}, Entry: map[string]int{}}}
}

func NewStats() Stats { return Stats{Funcs: map[string]bool{}, Entry: map[string]int{}} }

// Finish makes the statistics printable.
func (s *Stats) Finish() {
	for f := range s.Funcs {
		s.FuncL = append(s.FuncL, f)
	}
	sort.Strings(s.FuncL)
}

// Crash records an internal failure of the analysis as an undecided obligation.
func (c *Ctx) Crash(unit string, x interface{}) {
	c.inst = unit
	c.Und("analysis", unit, "internal error of the analysis: %v", x)
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Ok records a decided rule instance.
func (c *Ctx) Ok(rule, anchor string, good bool, f string, a ...interface{}) bool {
	o := Ob{Prop: c.Prop, Rule: rule, Inst: c.inst, Anchor: anchor, Status: "ok"}
	if !good {
		o.Status = "violation"
		o.Detail = clip(fmt.Sprintf(f, a...), 1500)
	}
	if !c.Silent {
		c.Obs = append(c.Obs, o)
	}
	return good
}

// Quiet runs f without recording what it decides.
func (c *Ctx) Quiet(f func()) {
	old := c.Silent
	c.Silent = true
	defer func() { c.Silent = old }()
	f()
}

func (c *Ctx) Bad(rule, anchor, f string, a ...interface{}) { c.Ok(rule, anchor, false, f, a...) }

func (c *Ctx) Und(rule, anchor, f string, a ...interface{}) {
	c.Obs = append(c.Obs, Ob{Prop: c.Prop, Rule: rule, Inst: c.inst, Anchor: anchor, Status: "undecided", Detail: clip(fmt.Sprintf(f, a...), 1500)})
}

// Writes attaches the last writers to the obligation recorded last.
func (c *Ctx) Writes(s string) {
	if n := len(c.Obs); n > 0 && c.Obs[n-1].Status != "ok" {
		c.Obs[n-1].Writes = s
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Anchor is the construct a rule instance is about.
func (c *Ctx) Anchor(pkg, recv, name string) string {
	fn := c.P.Func(pkg, recv, name)
	s := pkg + "."
	if recv != "" {
		s += recv + "."
	}
	s += name
	if fn == nil {
		return s + " (missing)"
	}
	return s + " (" + c.P.Pos(fn.Pos()) + ")"
}

// Env is a machine with one instance of a scheme: keys of several parties and
// the evaluating objects.
type Env struct {
	*World
	c    *Ctx
	base *ai.State // memory after construction
	IDs  []string

	Kg, Enc, Dec, Eval, Ks, Encr ai.Value
	Sk, Pk, R                    map[string]ai.Value
	S, RS                        map[string]*sym.E
	SkSet, PkSet                 ai.Value
	RkSet, CkSet, RlSet          ai.Value
	err                          *Err
	builtNotes                   []string
	Sfx                          string // distinguishes the operands of successive calls
	accF                         int
	want                         map[*sym.Node]string
	junk                         int
	hoistCt                      map[string]ai.Value
	renewed                      *keyring // other keys of the same parties
}

// keyring is one set of keys of all parties.
type keyring struct {
	Sk, Pk, R                         map[string]ai.Value
	S, RS                             map[string]*sym.E
	SkSet, PkSet, RkSet, CkSet, RlSet ai.Value
}

// swapKeys exchanges the keys in use with those of k.
func (e *Env) swapKeys(k *keyring) {
	o := keyring{e.Sk, e.Pk, e.R, e.S, e.RS, e.SkSet, e.PkSet, e.RkSet, e.CkSet, e.RlSet}
	e.Sk, e.Pk, e.R, e.S, e.RS = k.Sk, k.Pk, k.R, k.S, k.RS
	e.SkSet, e.PkSet, e.RkSet, e.CkSet, e.RlSet = k.SkSet, k.PkSet, k.RkSet, k.CkSet, k.RlSet
	*k = o
}

// Renew generates a second set of keys under the same names, as part of the
// memory every scenario begins with.
func (e *Env) Renew() {
	if e.renewed != nil || e.err != nil {
		return
	}
	e.Reset()
	k := &keyring{Sk: map[string]ai.Value{}, Pk: map[string]ai.Value{}, R: map[string]ai.Value{}, S: map[string]*sym.E{}, RS: map[string]*sym.E{}}
	e.swapKeys(k)
	e.err = e.Try(func() { e.keys(e.World.Kind) })
	e.swapKeys(k)
	e.renewed = k
	e.base = e.M.Snapshot()
	e.Reset()
}

type envOpt struct {
	ids  []string
	keys string // which evaluation keys: r rotation, c conjugation, m multiplication
}

// Env builds (once per worker) an environment.  kind: rlwe, ckks, bfv.
func (c *Ctx) Env(kind string, sh Shape, ids ...string) *Env {
	key := fmt.Sprint(kind, sh, ids)
	if e := c.envs[key]; e != nil {
		e.Reset()
		return e
	}
	e := &Env{World: NewWorld(c.P, sh), c: c, IDs: ids,
		Sk: map[string]ai.Value{}, Pk: map[string]ai.Value{}, R: map[string]ai.Value{}, S: map[string]*sym.E{}, RS: map[string]*sym.E{}}
	c.envs[key] = e
	e.err = e.Try(func() { e.build(kind) })
	e.widen(merge(e.Workers(), e.Owned(), e.globals()))
	e.builtNotes = append([]string(nil), e.M.Notes...)
	e.base = e.M.Snapshot()
	e.Reset()
	return e
}

// Reset returns to the memory right after construction.
func (e *Env) Reset() {
	e.M.Restore(e.base)
	e.Sfx = ""
	e.M.ClearNotes()
}

// build makes the parameters, keys and objects; before, if the shape asks for it,
// those of other parameter sets that agree with it in part.
func (e *Env) build(kind string) {
	if e.Sh.Prior {
		sh, world := e.Sh, *e.World
		fresh := *e
		for alt := 1; alt <= 3; alt++ {
			e.alt = alt
			if alt == 3 {
				e.Sh.Scale *= 2
			}
			e.make(kind)
			e.c.Quiet(func() {
				for i, op := range menu(kind, e.Sh) {
					if i%3 != alt-1 {
						continue
					}
					e.Sfx = fmt.Sprintf("#%d.%d", alt, i)
					op.Make(e).Call()
				}
			})
			*e.World = world
			w := e.World
			*e = fresh
			e.World = w
			e.Sh = sh
			e.Sk, e.Pk, e.R, e.S, e.RS = map[string]ai.Value{}, map[string]ai.Value{}, map[string]ai.Value{}, map[string]*sym.E{}, map[string]*sym.E{}
		}
	}
	e.make(kind)
}

func (e *Env) make(kind string) {
	switch kind {
	case "rlwe":
		e.RLWE()
	case "ckks":
		e.CKKS(e.logSlots())
	case "bfv":
		e.BFV()
	}
	pk := "mk" + kind
	if kind == "ckks" {
		pk = "mkrlwe"
		if e.P.Func("mkckks", "", "NewKeyGenerator") != nil {
			e.Kg = e.Call("mkckks", "", "NewKeyGenerator", e.Params)
		} else {
			e.Kg = e.Call("mkrlwe", "", "NewKeyGenerator", e.Rlwe())
		}
	} else {
		e.Kg = e.Call(pk, "", "NewKeyGenerator", e.Params)
	}
	e.keys(kind)
	switch kind {
	case "rlwe":
		e.Enc = e.Call("mkrlwe", "", "NewEncryptor", e.Params)
		e.Dec = e.Call("mkrlwe", "", "NewDecryptor", e.Params)
		e.Ks = e.Call("mkrlwe", "", "NewKeySwitcher", e.Params)
	default:
		e.Enc = e.Call(pkgOf(kind), "", "NewEncryptor", e.Params)
		e.Dec = e.Call(pkgOf(kind), "", "NewDecryptor", e.Params)
		e.Eval = e.Call(pkgOf(kind), "", "NewEvaluator", e.Params)
	}
}

// keys generates the keys of every party.
func (e *Env) keys(kind string) {
	e.RkSet = e.Call("mkrlwe", "", "NewRotationKeySet")
	e.CkSet = e.Call("mkrlwe", "", "NewConjugationKeySet")
	e.SkSet = e.Call("mkrlwe", "", "NewSecretKeySet")
	e.PkSet = e.Call("mkrlwe", "", "NewPublicKeyKeySet")
	if kind == "bfv" {
		e.RlSet = e.Call("mkbfv", "", "NewRelinearizationKeyKeySet", e.Params)
	} else {
		e.RlSet = e.Call("mkrlwe", "", "NewRelinearizationKeyKeySet", e.Rlwe())
	}
	for _, id := range e.IDs {
		e.Sk[id] = e.Kgen("GenSecretKey", e.id(id))
		e.R[id] = e.Kgen("GenSecretKey", e.id(id))
		e.Pk[id] = e.Kgen("GenPublicKey", e.Sk[id])
		e.S[id] = e.SecretE(e.Sk[id])
		e.RS[id] = e.SecretE(e.R[id])
		e.Call("mkrlwe", "SecretKeySet", "AddSecretKey", e.SkSet, e.Sk[id])
		e.Call("mkrlwe", "PublicKeySet", "AddPublicKey", e.PkSet, e.Pk[id])
		if kind == "bfv" {
			e.Call("mkbfv", "RelinearizationKeySet", "AddRelinearizationKey", e.RlSet, e.Call("mkbfv", "KeyGenerator", "GenRelinearizationKey", e.Kg, e.Sk[id], e.R[id]))
		} else {
			e.Call("mkrlwe", "RelinearizationKeySet", "AddRelinearizationKey", e.RlSet, e.Kgen("GenRelinearizationKey", e.Sk[id], e.R[id]))
		}
		e.Kgen("GenDefaultRotationKeys", e.Sk[id], e.RkSet)
		e.Call("mkrlwe", "ConjugationKeySet", "AddConjugationKey", e.CkSet, e.Kgen("GenConjugationKey", e.Sk[id]))
	}
}

func pkgOf(kind string) string { return "mk" + kind }

// Kgen calls a method of the generic key generator.
func (e *Env) Kgen(name string, args ...ai.Value) ai.Value {
	kg := e.Kg
	if e.Kind == "bfv" {
		kg = e.M.Get(e.Kg, "KeyGenerator")
	}
	return e.Call("mkrlwe", "KeyGenerator", name, append([]ai.Value{kg}, args...)...)
}

// Scenario runs one analysed scenario from the freshly built memory; abnormal
// ends become obligations.
func (c *Ctx) Scenario(e *Env, inst, rule, anchor string, f func()) *Err {
	c.inst = e.Sh.Name + "/" + inst
	e.c = c
	if e.err != nil {
		e.report(rule, anchor, e.err)
		return e.err
	}
	e.Reset()
	err := e.Try(f)
	if err != nil {
		e.report(rule, anchor, err)
	}
	e.collect()
	return err
}

func (e *Env) report(rule, anchor string, err *Err) {
	if err.Panic != nil {
		e.c.Bad(rule, anchor, "the analysed path ends in a panic: %s", err.Panic)
	} else {
		e.c.Und(rule, anchor, "%s", err.Und)
	}
}

func (e *Env) collect() {
	st := &e.c.Stats
	for f := range e.M.Funcs {
		st.Funcs[f] = true
	}
	e.M.Funcs = map[string]bool{}
	st.Instrs += e.M.Instrs
	st.Calls += e.M.Calls
	st.Forks += e.M.Forks
	e.M.Instrs, e.M.Calls, e.M.Forks = 0, 0, 0
}

// NewNotes returns diagnoses raised since the scenario began.
func (e *Env) NewNotes() []string { return e.M.Notes }

// LastWrites describes who wrote the rows of a polynomial last.
func (e *Env) LastWrites(poly ai.Value) string {
	set := map[string]bool{}
	for _, s := range e.M.PolyRows(poly) {
		if p, ok := e.M.LastW[s.O]; ok {
			set[e.where(p)] = true
		}
	}
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func (e *Env) where(p token.Pos) string { return e.P.Pos(p) }

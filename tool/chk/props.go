package chk

import (
	"sort"
)

// Unit is an independently analysable part of a property.
type Unit struct {
	Name string
	Run  func(c *Ctx)
}

// Prop is one property with the rule instances that decide it.
type Prop struct {
	ID    string
	Rule  string // the rule in words, for the evidence
	Min   int    // hand-confirmed lower bound on decided obligations (quick)
	LogN  int    // ring degree, where the property needs a particular one
	Units func(tier string) []Unit
}

var registry = map[string]*Prop{}

func register(p *Prop) { registry[p.ID] = p }

// Get returns a property.
func Get(id string) *Prop { return registry[id] }

// IDs lists the properties with checks.
func IDs() []string {
	var r []string
	for id := range registry {
		r = append(r, id)
	}
	sort.Strings(r)
	return r
}

// wide: the larger part of a family of shapes, analysed in both tiers; deep: the
// part left to the thorough tier (which also repeats the wide part with a larger
// ring degree).
func wide(tier string) bool { return true }
func deep(tier string) bool { return tier == "thorough" }

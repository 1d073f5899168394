// Command mkv decides the properties of the repository statically.
//
//	mkv check <ID> <tier>    decide one property (parent: distributes units over workers)
//	mkv worker <ID> <tier>   internal: reads unit numbers on stdin
//	mkv one <ID> <tier> <substring>   run matching units in this process and print obligations
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"mkverif/ai"
	"mkverif/chk"
)

const repo = "/repo"

func verif() string {
	exe, _ := os.Executable()
	if d := os.Getenv("MKV_HOME"); d != "" {
		return d
	}
	return filepath.Dir(filepath.Dir(exe))
}

func load() *ai.Prog {
	r := repo
	if d := os.Getenv("MKV_REPO"); d != "" {
		r = d // development only: analyse a scratch copy
	}
	p, err := ai.Load(r, filepath.Join(verif(), "tool", "mk-lattigo.sum"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	return p
}

// Result of one unit.
type Result struct {
	Unit   string
	Obs    []chk.Ob
	Stats  chk.Stats
	Secs   float64
	Crash  string
	Retire bool // the worker has grown large and wants to be replaced
}

func runUnit(p *ai.Prog, c *chk.Ctx, u chk.Unit) (r Result) {
	t := time.Now()
	r.Unit = u.Name
	c.Obs = nil
	c.Stats = chk.NewStats()
	func() {
		defer func() {
			if x := recover(); x != nil {
				if os.Getenv("MKV_PANIC") != "" {
					panic(x)
				}
				r.Crash = fmt.Sprintf("%v", x) + "\n" + string(debug.Stack())
				c.Crash(u.Name, x)
			}
		}()
		u.Run(c)
	}()
	r.Obs = c.Obs
	c.Stats.Finish()
	r.Stats = c.Stats
	r.Secs = time.Since(t).Seconds()
	return
}

func main() {
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: mkv check|one ID tier")
		os.Exit(2)
	}
	id, tier := os.Args[2], os.Args[3]
	p := chk.Get(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker(p, tier)
	case "one":
		one(p, tier, os.Args[4:])
	case "check":
		os.Exit(check(p, tier))
	}
}

// units lists the parts of a property: thorough repeats the rules of the quick
// tier with the larger ring degree.
func units(p *chk.Prop, tier string) []chk.Unit {
	if chk.SetRing(ring()); p.LogN > 0 {
		chk.SetRing(p.LogN)
	}
	if ring() > 4 {
		tier = "quick"
	}
	us := p.Units(tier)
	if ring() > 4 {
		for i := range us {
			us[i].Name = fmt.Sprintf("N=%d ", chk.N) + us[i].Name
		}
	}
	return us
}

func ring() int {
	if n, err := strconv.Atoi(os.Getenv("MKV_LOGN")); err == nil {
		return n
	}
	return 4
}

func worker(p *chk.Prop, tier string) {
	debug.SetGCPercent(200)
	prog := load()
	c := chk.NewCtx(prog, p.ID, tier)
	us := units(p, tier)
	in := bufio.NewScanner(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	for in.Scan() {
		i, err := strconv.Atoi(in.Text())
		if err != nil || i >= len(us) {
			return
		}
		r := runUnit(prog, c, us[i])
		if os.Getenv("MKV_SEQ") != "" {
			fmt.Fprintln(os.Stderr, "SEQ", os.Getpid(), i, r.Crash != "")
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		r.Retire = ms.HeapAlloc > 1500<<20
		enc.Encode(r)
		out.Flush()
	}
}

func one(p *chk.Prop, tier string, sub []string) {
	t := time.Now()
	prog := load()
	fmt.Println("load", time.Since(t))
	f, _ := os.Create("/tmp/cpu.prof")
	pprof.StartCPUProfile(f)
	defer pprof.StopCPUProfile()
	c := chk.NewCtx(prog, p.ID, tier)
	us := units(p, tier)
	if len(sub) > 0 && sub[0][0] == '#' { // these units in this order
		var vs []chk.Unit
		for _, s := range strings.Split(sub[0][1:], ",") {
			n, _ := strconv.Atoi(s)
			vs = append(vs, us[n])
		}
		us, sub = vs, sub[1:]
	}
	if len(sub) > 0 && sub[0][0] == '~' { // a random order
		n, _ := strconv.Atoi(sub[0][1:])
		rand.New(rand.NewSource(int64(n))).Shuffle(len(us), func(i, j int) { us[i], us[j] = us[j], us[i] })
		sub = sub[1:]
	}
	for _, u := range us {
		if len(sub) > 0 && !strings.Contains(u.Name, sub[0]) {
			continue
		}
		r := runUnit(prog, c, u)
		n := map[string]int{}
		for _, o := range r.Obs {
			n[o.Status]++
		}
		fmt.Printf("%-50s %6.1fs %v %s\n", u.Name, r.Secs, n, r.Crash)
		for _, o := range r.Obs {
			if o.Status != "ok" || len(sub) > 1 {
				fmt.Println("   ", o.Status, o.Rule, o.Inst, o.Anchor, o.Detail, o.Writes)
			}
		}
	}
}

func check(p *chk.Prop, tier string) int {
	t0 := time.Now()
	limit := 800 * time.Second
	if tier == "thorough" {
		limit = 860 * time.Second
	}
	us, res := pass(p, tier, ring(), t0.Add(limit))
	if tier == "thorough" && ring() == 4 {
		os.Setenv("MKV_LOGN", "5")
		us2, res2 := pass(p, tier, 5, t0.Add(limit))
		us, res = append(us, us2...), append(res, res2...)
	}
	return report(p, tier, us, res, time.Since(t0))
}

// memory is the available memory in MiB
func memory() int {
	m := 24 << 10
	b, _ := os.ReadFile("/proc/meminfo")
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) > 1 && f[0] == "MemAvailable:" {
			if k, err := strconv.Atoi(f[1]); err == nil {
				m = k >> 10
			}
		}
	}
	if m < 4<<10 {
		m = 4 << 10
	}
	return m
}

// pass distributes the units for one ring degree over worker processes.
func pass(p *chk.Prop, tier string, logN int, end time.Time) ([]chk.Unit, []*Result) {
	us := units(p, tier)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n > len(us) {
		n = len(us)
	}
	share := memory() * 7 / 10 / n // of each worker, a soft limit
	res := make([]*Result, len(us))
	next, bad, start, kf := 0, false, time.Now(), known(p.ID)
	var mu sync.Mutex
	var wg sync.WaitGroup
	var procs []*exec.Cmd
	exe, _ := os.Executable()
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				cmd := exec.Command(exe, "worker", p.ID, tier)
				cmd.Env = append(os.Environ(), fmt.Sprintf("MKV_LOGN=%d", logN), fmt.Sprintf("GOMEMLIMIT=%dMiB", share))
				cmd.Stderr = os.Stderr
				in, _ := cmd.StdinPipe()
				out, _ := cmd.StdoutPipe()
				if err := cmd.Start(); err != nil {
					return
				}
				mu.Lock()
				procs = append(procs, cmd)
				mu.Unlock()
				dec := json.NewDecoder(bufio.NewReader(out))
				again := false
				for !again {
					mu.Lock()
					i := next
					next++
					mu.Unlock()
					if i >= len(us) {
						break
					}
					fmt.Fprintln(in, i)
					var r Result
					if err := dec.Decode(&r); err != nil {
						again = true // the unit stays without a result
						break
					}
					mu.Lock()
					res[i] = &r
					for _, o := range r.Obs {
						bad = bad || o.Status == "violation" && !listed(kf, o)
					}
					if bad && time.Since(start) > 120*time.Second {
						next = len(us) // the verdict stands: leave the units not begun
					}
					mu.Unlock()
					again = r.Retire
				}
				in.Close()
				cmd.Wait()
				if !again || time.Now().After(end) {
					return
				}
			}
		}()
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	grace := time.NewTicker(time.Second)
	defer grace.Stop()
	for over := false; !over; {
		select {
		case <-done:
			return us, res
		case <-grace.C:
		}
		mu.Lock()
		over = time.Now().After(end) || bad && time.Since(start) > 200*time.Second
		if !over {
			mu.Unlock()
			continue
		}
		next = len(us)
		for _, c := range procs {
			c.Process.Kill()
		}
		mu.Unlock()
	}
	<-done
	return us, res
}

type finding struct{ line, rule, inst, what string }

func known(id string) []finding {
	var out []finding
	b, _ := os.ReadFile(filepath.Join(verif(), "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := finding{line: l}
		ok := false
		rest := strings.SplitN(strings.TrimPrefix(l, "known: "), " :: ", 2)
		head := rest[0]
		if i := strings.Index(head, " inst="); i >= 0 { // instance names contain spaces
			f.inst = strings.TrimSpace(head[i+6:])
			head = head[:i]
		}
		for _, kv := range strings.Fields(head) {
			switch {
			case kv == "property="+id:
				ok = true
			case strings.HasPrefix(kv, "rule="):
				f.rule = kv[5:]
			}
		}
		if len(rest) == 2 {
			f.what = rest[1]
		}
		if ok && f.rule != "" && f.inst != "" {
			out = append(out, f)
		}
	}
	return out
}

// listed reports whether a known finding names this violation.
func listed(kf []finding, o chk.Ob) bool {
	for _, k := range kf {
		if k.rule == o.Rule && k.inst == o.Inst {
			return true
		}
	}
	return false
}

func report(p *chk.Prop, tier string, us []chk.Unit, res []*Result, wall time.Duration) int {
	var obs []chk.Ob
	funcs := map[string]bool{}
	var st chk.Stats
	st.Entry = map[string]int{}
	slow, slowN := 0.0, ""
	for i, u := range us {
		r := res[i]
		if r == nil {
			obs = append(obs, chk.Ob{Prop: p.ID, Rule: "analysis", Inst: u.Name, Status: "undecided", Detail: "the analysis of this unit did not finish (units not begun two minutes after the start are left out once there is a violation)"})
			continue
		}
		if r.Crash != "" {
			fmt.Fprintln(os.Stderr, r.Crash)
		}
		obs = append(obs, r.Obs...)
		for _, f := range r.Stats.FuncL {
			funcs[f] = true
		}
		st.Instrs += r.Stats.Instrs
		st.Calls += r.Stats.Calls
		st.Forks += r.Stats.Forks
		st.Samps += r.Stats.Samps
		for k, v := range r.Stats.Entry {
			st.Entry[k] += v
		}
		if r.Secs > slow {
			slow, slowN = r.Secs, u.Name
		}
	}
	cnt := map[string]int{}
	byRule := map[string]int{}
	anchors := map[string]int{}
	insts := map[string]bool{}
	for _, o := range obs {
		cnt[o.Status]++
		byRule[o.Rule]++
		anchors[o.Anchor]++
		insts[o.Inst] = true
	}
	if len(obs) < p.Min {
		obs = append(obs, chk.Ob{Prop: p.ID, Rule: "coverage", Inst: "count", Status: "violation",
			Detail: fmt.Sprintf("only %d rule instances were found, at least %d are expected: an anchor of this property no longer resolves", len(obs), p.Min)})
	}
	kf := known(p.ID)
	hit := map[string]bool{}
	var bad []chk.Ob
	for _, o := range obs {
		if o.Status == "ok" {
			continue
		}
		sup := false
		for _, k := range kf {
			if k.rule == o.Rule && k.inst == o.Inst && o.Status == "violation" {
				hit[k.line] = true
				sup = true
			}
		}
		if !sup {
			bad = append(bad, o)
		}
	}
	ev := filepath.Join(verif(), "evidence")
	os.MkdirAll(ev, 0o755)
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var samples []interface{}
	seen := map[string]bool{}
	for _, o := range obs {
		if k := o.Rule + o.Anchor; !seen[k] && len(samples) < 12 {
			seen[k] = true
			samples = append(samples, map[string]string{"rule": o.Rule, "instance": o.Inst, "construct": o.Anchor, "outcome": o.Status})
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	doc := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "other", "wall_s": wall.Seconds(),
		"coverage": map[string]interface{}{
			"explanation":               p.Rule,
			"obligations":               len(obs),
			"discharged":                cnt["ok"],
			"violations":                cnt["violation"],
			"undecided":                 cnt["undecided"],
			"known_findings":            len(hit),
			"units":                     len(us),
			"instances":                 len(insts),
			"obligations_by_rule":       byRule,
			"constructs":                anchors,
			"repo_functions":            fl,
			"analysed_instructions":     st.Instrs,
			"analysed_calls":            st.Calls,
			"undecided_branches_joined": st.Forks,
			"randomness_draws":          st.Samps,
			"slowest_unit":              fmt.Sprintf("%s (%.1fs)", slowN, slow),
			"samples":                   samples,
		},
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	os.WriteFile(filepath.Join(ev, p.ID+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s (%s): %d rule instances, %d discharged, %d violated, %d undecided; %d functions, %d abstract instructions, %.1fs\n",
		p.ID, tier, len(obs), cnt["ok"], cnt["violation"], cnt["undecided"], len(fl), st.Instrs, wall.Seconds())
	for _, k := range kf {
		if hit[k.line] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.what)
		}
	}
	if len(bad) == 0 {
		os.Remove(filepath.Join(ev, p.ID+".report.txt"))
		return 0
	}
	rp := filepath.Join(ev, p.ID+".report.txt")
	var sb strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&sb, "%s property=%s rule=%s instance=%s\n  construct: %s\n  %s\n", strings.ToUpper(o.Status), o.Prop, o.Rule, o.Inst, o.Anchor, o.Detail)
		if o.Writes != "" {
			fmt.Fprintf(&sb, "  last written at: %s\n", o.Writes)
		}
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	txt := sb.String()
	if len(txt) > 6000 {
		txt = txt[:6000] + "...\n"
	}
	fmt.Print(txt)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
	return 1
}

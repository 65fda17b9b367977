package main

// The check of one property: which obligations it needs, running them, and
// deciding.

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// proofBudget bounds the proof part of one check; what is left after it is
// undecided and falls to the bounded harness.
const proofBudget = 420 * time.Second

type Worker struct {
	p     *Prog
	s     *Solver
	specs *SpecSet
	sch   *Schema // golden
	alt   *Schema // layout read off the current Encode methods, if different
	callC map[string]*Contract
	// contracts that are not to be used
	skip map[string]bool
	// end of the whole run
	stopAt time.Time
}

// Task is the verification of one behaviour of one function.
type Task struct {
	Name string
	Fn   string
	Key  string // groups tasks for replay (message type, function)
	// Make prepares the run. alt asks for the layout read off the code.
	Make func(w *Worker, alt bool) (x *Exec, fn *ssa.Function, ct *Contract, beh *Behavior)
	// Custom replaces the standard run.
	Custom func(w *Worker, unroll int) *FuncResult
	Skip   func(o *Oblig) bool
	HasAlt bool
	Unroll int
	// Nested: the methods of the parts of a message, whose meaning is opaque
	// to the caller. Code that handles a part in place cannot be judged.
	Nested []string
}

type Outcome struct {
	Task    *Task
	Status  string // proved, refuted, undecided
	Reason  string
	Res     *FuncResult
	Bounded bool
	Bad     []*Oblig
	Alt     bool
	Elapsed time.Duration
}

func (w *Worker) contractsFor() func(name string, fn *ssa.Function) *Contract {
	return func(name string, fn *ssa.Function) *Contract {
		if w.sch.isMsgMethod(name) {
			if w.callC[name] == nil {
				w.callC[name] = msgContract(w.specs, name, nil)
			}
			return w.callC[name]
		}
		if w.skip[name] {
			return nil
		}
		ct := w.specs.contracts[name]
		if ct != nil && ct.inlines() {
			return nil
		}
		return ct
	}
}

// inlines: a contract that says which memory the result shares cannot be used
// at a call, which enters the function instead.
func (ct *Contract) inlines() bool {
	for _, e := range ct.ensures {
		if strings.Contains(e.text, "sharesArray") {
			return true
		}
	}
	return false
}

// isHelper: contracts on unexported functions are means, not ends. If one
// fails, its callers are verified by entering the function instead.
func isHelper(n string) bool {
	b := n[strings.LastIndexByte(n, '.')+1:]
	return b != "" && b[0] >= 'a' && b[0] <= 'z'
}

func (w *Worker) newExec() *Exec {
	x := NewExec(w.p, w.s)
	stdModels(x)
	x.contracts = w.contractsFor()
	x.cands = arrayCands
	return x
}

func (w *Worker) run(t *Task, prop string, unroll int, alt bool) (res *FuncResult) {
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, msg, string(debug.Stack()))
			}
			if res == nil {
				res = &FuncResult{Func: t.Name}
			}
			res.Unsup = "contract cannot be evaluated: " + msg
		}
	}()
	lim := taskBudget
	if unroll > 0 {
		lim /= 2
	}
	w.s.stopAt = time.Now().Add(lim + 10*time.Second)
	if !w.stopAt.IsZero() && w.stopAt.Before(w.s.stopAt) {
		w.s.stopAt = w.stopAt
	}
	if t.Custom != nil {
		return t.Custom(w, unroll)
	}
	x, fn, ct, beh := t.Make(w, alt)
	if fn == nil {
		return &FuncResult{Func: t.Name, Unsup: "function not found"}
	}
	x.unroll = unroll
	if prop == "C07" {
		x.opts["alloc"] = true
	}
	return x.Verify(fn, ct, beh, func(c *Clause) bool { return c.forProp(prop) })
}

func relevant(prop string, t *Task, o *Oblig) bool {
	if o.Name == "no-write-after-error" && prop != "C09" {
		return false
	}
	if t.Skip != nil && t.Skip(o) {
		return false
	}
	return true
}

func (w *Worker) decide(t *Task, prop string) *Outcome {
	t0 := time.Now()
	out := &Outcome{Task: t}
	defer func() { out.Elapsed = time.Since(t0) }()
	sum := func(r *FuncResult) (bad []*Oblig, refuted bool) {
		for _, o := range r.Obligs {
			if o.Status == "proved" || !relevant(prop, t, o) {
				continue
			}
			bad = append(bad, o)
			if o.Status == "refuted" && o.Taint == "" {
				refuted = true
			}
		}
		return
	}
	judge := func(alt bool) bool { // reports whether proved
		out.Res = w.run(t, prop, t.Unroll, alt)
		bad, ref := sum(out.Res)
		out.Bad = bad
		out.Alt = alt
		if len(bad) == 0 && out.Res.Unsup == "" {
			out.Status, out.Reason, out.Bounded = "proved", "", out.Res.Bounded
			return true
		}
		if out.Res.Loops && t.Unroll == 0 {
			r2 := w.run(t, prop, 3, alt)
			bad2, ref2 := sum(r2)
			if len(bad2) == 0 && r2.Unsup == "" && !r2.Bounded {
				// no loop runs further than it was followed
				out.Res, out.Bad = r2, nil
				out.Status, out.Reason, out.Bounded = "proved", "", false
				return true
			}
			if len(bad2) == 0 && r2.Unsup == "" {
				out.Status, out.Bounded = "undecided", true
				out.Reason = "no loop invariant found; holds with loops unrolled 3 times"
				return false
			}
			if !ref2 {
				out.Status, out.Reason = "undecided", firstNonEmpty(r2.Unsup, "unrolled run undecided")
				return false
			}
			out.Bad = bad2
			out.Status = "refuted"
			return false
		}
		if ref {
			out.Status = "refuted"
			return false
		}
		out.Status, out.Reason = "undecided", firstNonEmpty(out.Res.Unsup, "solver gave no answer")
		return false
	}
	defer func() {
		if out.Status != "refuted" || out.Res == nil {
			return
		}
		used := map[string]bool{}
		for _, u := range out.Res.Used {
			used[u] = true
		}
		for _, n := range t.Nested {
			if !used[n] {
				out.Status, out.Reason = "undecided", "handles a part without calling "+n
			}
		}
	}()
	if judge(false) {
		return out
	}
	if t.HasAlt && w.alt != nil {
		keep := *out
		if judge(true) || keep.Status != "refuted" {
			return out
		}
		if out.Status != "proved" {
			*out = keep
		}
	}
	return out
}

func firstNonEmpty(ss ...string) string {
	for _, s := range ss {
		if s != "" {
			return s
		}
	}
	return ""
}

func wantsBehavior(b *Behavior, prop string) bool {
	for _, e := range b.ensures {
		if e.forProp(prop) {
			return true
		}
	}
	return false
}

// specTasks: functions with contracts in the spec files.
func specTasks(specs *SpecSet, prop string) []*Task {
	var out []*Task
	for _, n := range specs.order {
		ct := specs.contracts[n]
		if ct.trusted {
			continue
		}
		add := func(b *Behavior) {
			name := n
			if b != nil {
				name += "#" + b.name
			}
			b2 := b
			out = append(out, &Task{Name: name, Fn: n, Key: n, Make: func(w *Worker, alt bool) (*Exec, *ssa.Function, *Contract, *Behavior) {
				x := w.newExec()
				if strings.HasPrefix(n, "message.") || strings.HasPrefix(n, "sizeof.") {
					x.opts["bytes"] = true
				}
				return x, w.p.funcs[n], w.specs.contracts[n], b2
			}})
		}
		base := false
		for _, e := range ct.ensures {
			if e.forProp(prop) {
				base = true
			}
		}
		if base {
			add(nil)
		}
		for _, b := range ct.behav {
			if wantsBehavior(b, prop) {
				add(b)
			}
		}
	}
	return out
}

// msgTasks: the generated methods.
func msgTasks(w0 *Worker, prop string, only map[string]bool) []*Task {
	var out []*Task
	for _, T := range w0.sch.order {
		T := T
		if only != nil && !only[T] {
			continue
		}
		for _, name := range []string{"message." + T + ".Size", "message." + T + ".Encode", "message.(*" + T + ").Decode"} {
			name := name
			probe := msgContract(w0.specs, name, &MsgCtx{})
			base := false
			for _, e := range probe.ensures {
				if e.forProp(prop) {
					base = true
				}
			}
			var bs []int
			if base {
				bs = append(bs, -1)
			}
			for i, b := range probe.behav {
				if wantsBehavior(b, prop) {
					bs = append(bs, i)
				}
			}
			for _, bi := range bs {
				bi := bi
				for ri, r := range w0.sch.regions(T) {
					ri, r := ri, r
					n := fmt.Sprintf("%s@v%d..%d", name, r[0], r[1])
					if bi >= 0 {
						n = fmt.Sprintf("%s#%s@v%d..%d", name, probe.behav[bi].name, r[0], r[1])
					}
					var nested []string
					for _, f := range w0.sch.carried(T, r) {
						for _, k := range []string{"msgarr:", "msg:"} {
							if strings.HasPrefix(f.Kind, k) {
								nested = append(nested, strings.Replace(name, T, f.Kind[len(k):], 1))
							}
						}
					}
					out = append(out, &Task{Name: n, Fn: name, Key: T, Nested: nested, HasAlt: prop == "C01" || prop == "C02" || prop == "C08", Make: func(w *Worker, alt bool) (*Exec, *ssa.Function, *Contract, *Behavior) {
						fn := w.p.funcs[name]
						if fn == nil {
							return nil, nil, nil, nil
						}
						sch, reg := w.sch, r
						if alt {
							sch = w.alt
							rs := sch.regions(T)
							// the regions of the other layout cover all versions too
							if ri >= len(rs) {
								reg = rs[len(rs)-1]
							} else {
								reg = rs[ri]
							}
						}
						m := &MsgCtx{sch: sch, T: T, region: reg, pkg: fn.Pkg.Pkg}
						ct := msgContract(w.specs, name, m)
						var b *Behavior
						if bi >= 0 {
							b = ct.behav[bi]
						}
						return w.newExec(), fn, ct, b
					}})
				}
			}
		}
	}
	return out
}

func tasksFor(w *Worker, prop string) []*Task {
	ts := specTasks(w.specs, prop)
	switch prop {
	case "C01", "C02", "C03", "C07", "C08", "C09":
		ts = append(ts, msgTasks(w, prop, nil)...)
	case "C12":
		ts = append(ts, negotiateTasks()...)
		ts = append(ts, clientTasks(prop)...)
	case "C13", "C14", "C17", "C18":
		ts = append(connTasks(prop), ts...)
	case "C15", "C16":
		ts = append(ts, ringTasks(prop)...)
	case "C19":
		ts = append(recordTasks(), ts...)
	case "C20", "C21", "C22":
		ts = append(ts, clientTasks(prop)...)
	case "C10", "C11":
		ts = append(apiTasks(prop), ts...)
		for _, t := range msgTasks(w, prop, apiTypes(w.sch, prop)) {
			dec := strings.HasSuffix(t.Fn, ".Decode")
			if dec == (prop == "C11") {
				ts = append(ts, t)
			}
		}
	}
	return append(append(ts, binaryTasks(prop)...), lemmaTasks(prop)...)
}

type Report struct {
	prop     string
	tier     string
	outcomes []*Outcome
	queries  int
	cached   int
	byCvc5   int
	solver   time.Duration
	wall     time.Duration
	sch      *Schema
	partial  bool
	dropped  []*Outcome // helper contracts that were not proved, and so not used
}

func runTasks(p *Prog, specs *SpecSet, sch *Schema, tasks []*Task, prop string, n int) *Report {
	rep := &Report{prop: prop}
	t0 := time.Now()
	var first, rest []*Task
	for _, t := range tasks {
		if t.Custom == nil && isHelper(t.Fn) {
			first = append(first, t)
		} else {
			rest = append(rest, t)
		}
	}
	skip := map[string]bool{}
	if len(first) > 0 {
		rep.runSet(p, first, prop, n, sch, t0, nil)
		var keep []*Outcome
		for _, o := range rep.outcomes {
			if o.Status != "proved" && len(rest) > 0 {
				skip[o.Task.Fn] = true
				rep.dropped = append(rep.dropped, o)
			}
		}
		for _, o := range rep.outcomes {
			if !skip[o.Task.Fn] {
				keep = append(keep, o)
			}
		}
		rep.outcomes = keep
	}
	rep.runSet(p, rest, prop, n, sch, t0, skip)
	order := map[*Task]int{}
	for i, t := range tasks {
		order[t] = i
	}
	sort.Slice(rep.outcomes, func(i, j int) bool { return order[rep.outcomes[i].Task] < order[rep.outcomes[j].Task] })
	rep.wall = time.Since(t0)
	return rep
}

func checkCmd(args []string) int {
	prop := args[0]
	if prop == "C19" {
		ghost = ghostSrc
	}
	p, err := LoadProg(*repoDir)
	if err != nil {
		fmt.Println("cannot load", *repoDir, err)
		return 2
	}
	specs := loadSpecs(*verifDir + "/contracts")
	sch, err := loadSchema(*verifDir + "/contracts/messages.schema")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	w0 := &Worker{p: p, specs: specs, sch: sch, callC: map[string]*Contract{}}
	tasks := tasksFor(w0, prop)
	if len(args) > 1 {
		var f []*Task
		for _, t := range tasks {
			if strings.Contains(t.Name, args[1]) {
				f = append(f, t)
			}
		}
		tasks = f
	}
	t0 := time.Now()
	rep := runTasks(p, specs, sch, tasks, prop, 8)
	rep.tier = firstNonEmpty(os.Getenv("VERIF_TIER"), "quick")
	rep.sch = sch
	rep.partial = len(args) > 1
	return finish(rep, t0)
}

func (rep *Report) runSet(p *Prog, tasks []*Task, prop string, n int, sch *Schema, t0 time.Time, skip map[string]bool) {
	ch := make(chan *Task)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &Worker{p: p, s: NewSolver(10000), specs: loadSpecs(*verifDir + "/contracts"), sch: sch, callC: map[string]*Contract{}, skip: skip, stopAt: t0.Add(proofBudget + 20*time.Second)}
			defer w.s.Close()
			for t := range ch {
				var o *Outcome
				if time.Since(t0) > proofBudget {
					o = &Outcome{Task: t, Status: "undecided", Reason: "time budget used up", Res: &FuncResult{Func: t.Name}}
				} else {
					o = w.decide(t, prop)
				}
				mu.Lock()
				rep.outcomes = append(rep.outcomes, o)
				mu.Unlock()
			}
			mu.Lock()
			rep.queries += w.s.Queries
			rep.cached += w.s.Cached
			rep.byCvc5 += w.s.ByCvc5
			rep.solver += w.s.Time
			mu.Unlock()
		}()
	}
	for _, t := range tasks {
		ch <- t
	}
	close(ch)
	wg.Wait()
}

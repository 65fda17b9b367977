package main

// Reporting: evidence files, replay files, VIOLATION and KNOWN-FINDING lines,
// and the concrete replay harnesses.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A harness drives the real code on concrete inputs. It looks for a failing
// input when an obligation fails, and stands in (bounded) for functions the
// verifier cannot handle.
type harnessDef struct {
	pkg   string // package directory under the repository
	files string // directory under /verif/harness
	race  bool
	weave bool // yields in front of every statement of the package
}

var harnesses = map[string]harnessDef{}

func init() {
	for _, p := range []string{"C10", "C11", "C12", "C19", "C20", "C21", "C22"} {
		harnesses[p] = harnessDef{pkg: ".", files: "kafka"}
	}
	for _, p := range []string{"C13", "C14", "C17", "C18"} {
		harnesses[p] = harnessDef{pkg: ".", files: "kafka", race: true, weave: true}
	}
	for _, p := range []string{"C15", "C16"} {
		harnesses[p] = harnessDef{pkg: "ring", files: "ring", race: true, weave: true}
	}
	for _, p := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"} {
		harnesses[p] = harnessDef{pkg: "message", files: "message"}
	}
}

type HarnessRun struct {
	Status   string // pass, fail, norun
	Cases    int
	Failures []string
	Output   string
	Cmd      string
	Elapsed  time.Duration
}

func runHarness(prop string, sch *Schema, types []string, budget int, seed string) *HarnessRun {
	h, ok := harnesses[prop]
	if !ok {
		return &HarnessRun{Status: "norun", Output: "no harness"}
	}
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "govc-harness-")
	if err != nil {
		return &HarnessRun{Status: "norun", Output: err.Error()}
	}
	defer os.RemoveAll(tmp)
	repl := map[string]string{}
	files, _ := filepath.Glob(filepath.Join(*verifDir, "harness", h.files, "*_test.go"))
	for _, f := range files {
		repl[filepath.Join(*repoDir, h.pkg, filepath.Base(f))] = f
	}
	if h.files == "kafka" {
		b, _ := os.ReadFile(filepath.Join(*verifDir, "harness/message/zz_ref_test.go"))
		f := filepath.Join(tmp, "zz_ref_test.go")
		os.WriteFile(f, bytes.Replace(b, []byte("package message_test"), []byte("package kafka_test"), 1), 0o644)
		repl[filepath.Join(*repoDir, h.pkg, "zz_verif_ref_test.go")] = f
	}
	if h.files == "message" {
		var sb strings.Builder
		sb.WriteString("package message_test\n\nimport \"github.com/savaki/kafka/message\"\n\nvar ztypes = map[string]func() zmsg{\n")
		for _, T := range sch.order {
			fmt.Fprintf(&sb, "\t%q: func() zmsg { return new(message.%s) },\n", T, T)
		}
		sb.WriteString("}\n")
		f := filepath.Join(tmp, "zz_verif_types_test.go")
		os.WriteFile(f, []byte(sb.String()), 0o644)
		repl[filepath.Join(*repoDir, h.pkg, "zz_verif_types_test.go")] = f
	}
	if h.weave {
		if err := instrumentPkg(filepath.Join(*repoDir, h.pkg), tmp, repl); err != nil {
			return &HarnessRun{Status: "norun", Output: err.Error()}
		}
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	args := []string{"test", "-overlay", ovf, "-vet=off", "-count=1", "-timeout", fmt.Sprintf("%ds", budget*4+60), "-run", "^TestVerif" + prop + "$", "-v"}
	if h.race {
		args = append(args, "-race")
	}
	args = append(args, "./"+strings.TrimPrefix(h.pkg, "."))
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(budget*4+120)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = *repoDir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.Env = append(os.Environ(), "VERIF_SCHEMA="+filepath.Join(*verifDir, "contracts/messages.schema"), "VERIF_APIS="+filepath.Join(*verifDir, "contracts/apis.table"), "VERIF_BUDGET="+strconv.Itoa(budget),
		"VERIF_SEED="+seed, "VERIF_TYPES="+strings.Join(types, ","), "GOFLAGS=-mod=mod")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	r := &HarnessRun{Cmd: "VERIF_TYPES=" + strings.Join(types, ",") + " VERIF_BUDGET=" + strconv.Itoa(budget) + " go " + strings.Join(args, " "), Elapsed: time.Since(t0)}
	o := out.String()
	for _, l := range strings.Split(o, "\n") {
		if i := strings.Index(l, "FAILING-INPUT "); i >= 0 {
			r.Failures = append(r.Failures, l[i+14:])
		}
		if strings.Contains(l, "WARNING: DATA RACE") && len(r.Failures) < 3 {
			r.Failures = append(r.Failures, "data race (see the race detector's report below)")
		}
		if strings.HasPrefix(l, "VERIF-CASES ") {
			r.Cases, _ = strconv.Atoi(strings.Fields(l)[1])
		}
	}
	if err != nil && len(r.Failures) == 0 {
		if f := crash(o); f != "" {
			r.Failures = append(r.Failures, f)
		}
	}
	if len(o) > 20000 {
		o = o[:10000] + "\n...\n" + o[len(o)-10000:]
	}
	r.Output = o
	switch {
	case len(r.Failures) > 0:
		r.Status = "fail"
	case err == nil && r.Cases > 0:
		r.Status = "pass"
	default:
		r.Status = "norun"
	}
	return r
}

// crash: the run ended by a panic (or a fatal error of the runtime) in the
// code under test, while a test was using it.
func crash(o string) string {
	i := -1
	for _, k := range []string{"\npanic: ", "\nfatal error: concurrent map"} {
		if j := strings.Index(o, k); j >= 0 && (i < 0 || j < i) {
			i = j + 1
		}
	}
	if i < 0 || strings.HasPrefix(o[i:], "panic: test timed out") {
		return ""
	}
	head := strings.SplitN(o[i:], "\n", 2)[0]
	for _, l := range strings.Split(o[i:], "\n") {
		if !strings.HasPrefix(l, "\t"+*repoDir+"/") {
			continue
		}
		at := strings.Fields(l)[0]
		if strings.Contains(at, "_test.go:") {
			return ""
		}
		return "the process crashes: " + head + " at " + strings.TrimPrefix(at, *repoDir+"/") + " (stack below)"
	}
	return ""
}

var commonTrusted = []string{
	"govc (contracts, SSA-to-obligation generator, lemma schemas) in /verif/govc",
	"golang.org/x/tools/go/ssa: the SSA form is the code that runs",
	"z3 (first), cvc5 (second opinion on unknown) answer unsat only for unsatisfiable queries",
	"the Go compiler and runtime implement the language specification",
}

var commonAssumptions = []string{
	"slices and strings hold at most 2^48 elements; machine integers are modelled exactly with wrap-around, lengths as mathematical integers below that bound",
	"distinct pointer parameters of a function do not alias; append may or may not extend in place: reads through slices that may share memory with a later write are outside the verifier's reach (undecided)",
	"termination is proved for the loops of the code under contract (obligations named loop-ends), except the service loops of the connection and the waits of the ring buffer; a function that calls itself through its contract is undecided",
}

func finish(rep *Report, t0 time.Time) int {
	prop := rep.prop
	obl, dis := 0, 0
	classes := map[string]int{}
	assumed := map[string]bool{}
	funcs := map[string]bool{}
	inl := map[string]bool{}
	used := map[string]bool{}
	invs := map[string]bool{}
	var bad []*Outcome
	paths := 0
	var bounded []string
	alts := 0
	for _, o := range rep.outcomes {
		if o.Res == nil {
			continue
		}
		if o.Status == "proved" {
			funcs[o.Task.Fn] = true
		}
		paths += o.Res.Paths
		for _, a := range o.Res.Assumed {
			assumed[a] = true
		}
		for _, a := range o.Res.Inlined {
			inl[a] = true
		}
		for _, a := range o.Res.Used {
			used[a] = true
		}
		for _, a := range o.Res.Invs {
			invs[a] = true
		}
		for _, ob := range o.Res.Obligs {
			if !relevant(prop, o.Task, ob) {
				continue
			}
			obl++
			classes[ob.Class]++
			if ob.Status == "proved" {
				dis++
			}
		}
		if o.Status != "proved" {
			bad = append(bad, o)
		}
		if o.Alt {
			alts++
		}
		if o.Status == "proved" && o.Bounded {
			bounded = append(bounded, o.Task.Name)
		}
	}
	var samples []interface{}
	for i := 0; i < len(rep.outcomes) && len(samples) < 5; i += len(rep.outcomes)/5 + 1 {
		o := rep.outcomes[i]
		for _, ob := range o.Res.Obligs {
			if ob.Class == "post" {
				d := ob.Desc
				if len(d) > 400 {
					d = d[:400] + "..."
				}
				samples = append(samples, map[string]string{"function": ob.Func, "obligation": ob.Name, "text": d, "at": ob.Pos, "status": ob.Status})
				break
			}
		}
	}
	if os.Getenv("GOVC_COVER") != "" {
		for _, u := range rep.unreached() {
			fmt.Println("  unreached", u)
		}
	}
	fmt.Printf("%s: %d tasks, %d functions under contract, %d obligations, %d discharged, %d solver queries (%d cached, %d by cvc5), solver %.1fs, wall %.1fs\n",
		prop, len(rep.outcomes), len(funcs), obl, dis, rep.queries, rep.cached, rep.byCvc5, rep.solver.Seconds(), rep.wall.Seconds())
	if os.Getenv("GOVC_SLOW") != "" {
		os := append([]*Outcome{}, rep.outcomes...)
		sort.Slice(os, func(i, j int) bool { return os[i].Elapsed > os[j].Elapsed })
		for i := 0; i < 12 && i < len(os); i++ {
			fmt.Println("  slow", os[i].Task.Name, os[i].Elapsed.Round(time.Millisecond))
		}
	}
	for _, o := range rep.dropped {
		fmt.Printf("  contract of helper %s not proved (%s %.120s): its callers were verified by entering it\n", o.Task.Fn, o.Status, o.Reason)
	}
	refuted := 0
	shown := 0
	var detail strings.Builder
	for _, o := range bad {
		if o.Status == "refuted" {
			refuted++
		}
		fmt.Fprintf(&detail, "%s %s: %s\n", o.Status, o.Task.Name, o.Reason)
		for k, b := range o.Bad {
			if k > 8 {
				break
			}
			fmt.Fprintf(&detail, "    %s obligation %q [%s] at %s: %.600s\n        counterexample: %.1500s\n", b.Status, b.Name, b.Class, b.Pos, b.Desc, b.Model)
		}
		if shown < 12 {
			shown++
			fmt.Printf("  %s %s: %.200s\n", o.Status, o.Task.Name, o.Reason)
			for k, b := range o.Bad {
				if k > 4 {
					break
				}
				fmt.Printf("      %s %s [%s] %s %.200s\n", b.Status, b.Name, b.Class, b.Pos, b.Desc)
			}
		}
	}
	if len(bad) > shown {
		fmt.Printf("  ... and %d more\n", len(bad)-shown)
	}
	if rep.partial {
		return 0
	}
	seed := firstNonEmpty(os.Getenv("VERIF_SEED"), "1")
	var runs []*HarnessRun
	violation, noInput := false, false
	var hf *HarnessRun
	if len(rep.outcomes) == 0 || obl == 0 {
		fmt.Println("  no obligations were generated")
		bad = append(bad, &Outcome{Task: &Task{Name: "vacuity"}, Status: "undecided", Reason: "no obligations"})
	}
	if len(bad) > 0 {
		// which message types are concerned
		var ts []string
		seen := map[string]bool{}
		all := false
		for _, o := range bad {
			if rep.sch != nil && rep.sch.types[o.Task.Key] != nil {
				if !seen[o.Task.Key] {
					seen[o.Task.Key] = true
					ts = append(ts, o.Task.Key)
				}
			} else {
				all = true
			}
		}
		if len(ts) > 0 && len(ts) < 40 {
			r := runHarness(prop, rep.sch, ts, 20, seed)
			runs = append(runs, r)
			if r.Status == "fail" {
				hf = r
			}
		} else {
			all = true
		}
		if hf == nil && all {
			r := runHarness(prop, rep.sch, nil, 40, seed)
			runs = append(runs, r)
			if r.Status == "fail" {
				hf = r
			}
		}
		switch {
		case hf != nil:
			violation = true
		case refuted > 0:
			violation, noInput = true, true
		}
	} else {
		// the contracts themselves are tried on the running code
		budget := 10
		if rep.tier == "thorough" {
			budget = 120
		}
		r := runHarness(prop, rep.sch, nil, budget, seed)
		runs = append(runs, r)
		if r.Status == "fail" {
			again := runHarness(prop, rep.sch, nil, 2*budget, seed)
			runs = append(runs, again)
			if again.Status == "fail" {
				hf = r
				violation = true
			} else {
				fmt.Println("  a failure of the harness was not seen again")
			}
		}
	}
	for _, r := range runs {
		fmt.Printf("  harness: %s, %d cases, %.1fs\n", r.Status, r.Cases, r.Elapsed.Seconds())
		if r.Status == "norun" {
			fmt.Printf("    %.1500s\n", r.Output)
		}
	}
	replay := ""
	if violation {
		replay = filepath.Join(*verifDir, "evidence", "replay-"+prop+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n\n", prop)
		if hf != nil {
			fmt.Fprintf(&sb, "failing inputs, run against the real code with\n  cd /repo && %s\n(the overlay adds the files of /verif/harness to the package)\n\n", hf.Cmd)
			for _, f := range hf.Failures {
				fmt.Fprintf(&sb, "  %s\n", f)
			}
			fmt.Fprintf(&sb, "\noutput\n%.6000s\n", hf.Output)
		}
		fmt.Fprintf(&sb, "failed obligations (verifier: govc, solvers z3 and cvc5)\n%s\n", detail.String())
		os.MkdirAll(filepath.Dir(replay), 0o755)
		os.WriteFile(replay, []byte(sb.String()), 0o644)
	}
	// evidence
	var undecided []string
	for _, o := range bad {
		undecided = append(undecided, o.Status+": "+o.Task.Name+": "+o.Reason)
	}
	if len(undecided) > 60 {
		undecided = append(undecided[:60], "...")
	}
	assumptions := append([]string{}, commonAssumptions...)
	var elsewhere []string
	for _, a := range keysOf(assumed) {
		if strings.Contains(a, "(proved") || strings.Contains(a, "contracts proved for them") || strings.Contains(a, "(C15, C16)") {
			elsewhere = append(elsewhere, a)
			continue
		}
		assumptions = append(assumptions, "assumed: "+a)
	}
	assumptions = append(assumptions, propAssumptions[prop]...)
	var hs []interface{}
	for _, r := range runs {
		hs = append(hs, map[string]interface{}{"status": r.Status, "cases": r.Cases, "failures": r.Failures, "wall_s": r.Elapsed.Seconds(), "label": "bounded, not counted as proved"})
	}
	cov := map[string]interface{}{
		"obligations":                 obl,
		"discharged":                  dis,
		"checker_cmd":                 "/verif/bin/govc check " + prop,
		"trusted_base":                append(append([]string{}, commonTrusted...), propTrusted[prop]...),
		"obligation_classes":          classes,
		"functions_under_contract":    len(funcs),
		"functions":                   keysOf(funcs),
		"contracts_used_at_calls":     keysOf(used),
		"functions_inlined":           keysOf(inl),
		"paths":                       paths,
		"loop_invariants_inferred":    len(invs),
		"back_ends":                   map[string]int{"z3": rep.queries - rep.byCvc5, "cvc5": rep.byCvc5, "answered_from_cache": rep.cached},
		"solver_s":                    rep.solver.Seconds(),
		"bounded":                     bounded,
		"undecided_or_refuted":        undecided,
		"bounded_harness":             hs,
		"decided_with_code_s_layout":  alts,
		"samples":                     samples,
		"helper_contracts_dropped":    len(rep.dropped),
		"blocks_no_proof_ran_through": rep.unreached(),
		// contracts this check relies on that are proved in this run (std
		// tasks) or by the check of another property
		"contracts_proved_in_std_tasks_or_other_checks": elsewhere,
	}
	if len(invs) > 0 {
		ks := keysOf(invs)
		if len(ks) > 12 {
			ks = ks[:12]
		}
		cov["loop_invariant_samples"] = ks
	}
	viol := 0
	if violation {
		viol = 1
	}
	sd, _ := strconv.Atoi(seed)
	ev := map[string]interface{}{
		"property": prop, "tier": rep.tier, "seed": sd, "level": "proof", "coverage": cov, "assumptions": assumptions,
		"wall_s": time.Since(t0).Seconds(), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
	}
	if violation {
		end := ""
		if noInput {
			end = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, replay, end)
		return 1
	}
	if len(bad) > 0 {
		fmt.Printf("  %d obligations groups were not decided by the verifier; the bounded harness found no failing input\n", len(bad))
	}
	fmt.Printf("OK property=%s\n", prop)
	return 0
}

const seqLemmas = "the induction principle: the lemmas on the sequence functions encArr, domArr, eqArr and szArr are proved by base and step (lemma tasks)"

var propAssumptions = map[string][]string{
	"C01": {"the size of a message is computed in 32-bit arithmetic: values whose encoding is 2 GiB or longer are outside the domain"},
	"C02": {"strings of a message are at most 32767 bytes long: longer ones have no encoding"},
	"C05": {"strings with a 16-bit length are at most 32767 bytes long: longer ones have no encoding"},
	"C06": {"the size is computed in 32-bit arithmetic: values whose encoding is 2 GiB or longer are outside the domain"},
	"C13": {"the counter of correlation ids wraps after 2^32 calls: of fewer calls no two share an id"},
	"C15": {"one reader and one writer per buffer (Connect starts exactly one of each); 0 <= n <= len(data); a buffer of at least 2 bytes"},
	"C16": {"one reader and one writer per buffer (Connect starts exactly one of each); 0 <= n <= len(data); a buffer of at least 2 bytes"},
	"C19": {"records are shorter than 2 GiB"},
}
var propTrusted = map[string][]string{
	"C01": {seqLemmas}, "C02": {seqLemmas}, "C03": {seqLemmas, "contracts/messages.schema: the layouts of the protocol definition"}, "C06": {seqLemmas}, "C08": {seqLemmas}, "C09": {seqLemmas},
	"C10": {seqLemmas, "contracts/apis.table: key and request type of every API method"},
	"C11": {seqLemmas, "contracts/apis.table: key and response type of every API method"},
	"C13": {"rules for goroutines, the mutexes and the requests map of the connection in govc/conn.go"},
	"C14": {"rules for goroutines, the mutexes and the requests map of the connection in govc/conn.go"},
	"C15": {"rely/guarantee rules for the two sides of the ring buffer in govc/ring.go"},
	"C16": {"rely/guarantee rules for the two sides of the ring buffer in govc/ring.go"},
	"C17": {"rules for goroutines, the mutexes and the requests map of the connection in govc/conn.go"},
	"C18": {"rules for goroutines, the mutexes and the requests map of the connection in govc/conn.go"},
	"C20": {"trace rules for dialling in govc/client.go"},
	"C21": {"trace rules for dialling in govc/client.go"},
	"C22": {"trace rules for dialling in govc/client.go"},
}

// unreached lists the blocks of the functions that were entered which no
// proof of this property ran through.
func (rep *Report) unreached() []string {
	seen := map[*ssa.BasicBlock]bool{}
	fns := map[*ssa.Function]bool{}
	for _, o := range rep.outcomes {
		if o.Res == nil {
			continue
		}
		for b := range o.Res.Visited {
			seen[b] = true
			fns[b.Parent()] = true
		}
	}
	var out []string
	for f := range fns {
		for _, b := range f.Blocks {
			if seen[b] || len(b.Instrs) == 0 {
				continue
			}
			pos := token.NoPos
			for _, in := range b.Instrs {
				if p := in.Pos(); p != token.NoPos {
					pos = p
					break
				}
			}
			at := f.Prog.Fset.Position(pos)
			out = append(out, fmt.Sprintf("%s block %d (%s) at %s:%d", funcName(f), b.Index, b.Comment, filepath.Base(at.Filename), at.Line))
		}
	}
	sort.Strings(out)
	return out
}

package main

// SMT back ends: a persistent z3 process per worker, cvc5 as second opinion.

import (
	"bufio"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"sort"
	"strings"
	"time"
)

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	cache   map[[32]byte]string
	Queries int
	Cached  int
	ByCvc5  int
	Time    time.Duration
	timeout int       // ms
	stopAt  time.Time // from then on every query is answered unknown
	Late    int
}

var z3bin = "z3-new"

func NewSolver(timeoutMs int) *Solver {
	s := &Solver{cache: map[[32]byte]string{}, timeout: timeoutMs}
	return s
}
func (s *Solver) start() error {
	s.cmd = exec.Command(z3bin, "-in", "-smt2")
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<20)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :print-success false)\n", s.timeout)
	return nil
}
func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

type query struct {
	c      *Ctx
	decl   strings.Builder
	body   strings.Builder
	done   map[*Term]string
	sorts  map[string]bool
	funs   map[string]bool
	axDone map[*Term]bool
	todo   []*Term
	vars   []*Term
}

func (q *query) useSort(s string) {
	if strings.HasPrefix(s, "(Array Int ") {
		q.useSort(elemSort(s))
		return
	}
	if s == "Int" || s == "Bool" || q.sorts[s] {
		return
	}
	q.sorts[s] = true
	fmt.Fprintf(&q.decl, "(declare-sort %s 0)\n", smtName(s))
}
func (q *query) sortName(s string) string {
	if strings.HasPrefix(s, "(Array Int ") {
		return "(Array Int " + q.sortName(elemSort(s)) + ")"
	}
	if s == "Int" || s == "Bool" {
		return s
	}
	return smtName(s)
}

func (q *query) term(t *Term) string {
	if n, ok := q.done[t]; ok {
		return n
	}
	var as []string
	for _, a := range t.args {
		as = append(as, q.term(a))
	}
	if !q.axDone[t] {
		q.axDone[t] = true
		if t.axGen != nil && !t.axRun {
			t.axRun = true
			for _, f := range t.axGen() {
				q.c.Attach(t, f)
			}
		}
		q.todo = append(q.todo, t.ax...)
	}
	var e string
	switch t.op {
	case "int":
		e = smtInt(t.ival)
		q.done[t] = e
		return e
	case "true", "false":
		q.done[t] = t.op
		return t.op
	case "var":
		q.useSort(t.sort)
		n := smtName(t.name)
		fmt.Fprintf(&q.decl, "(declare-const %s %s)\n", n, q.sortName(t.sort))
		q.done[t] = n
		q.vars = append(q.vars, t)
		return n
	case "app":
		if !q.funs[t.name] {
			q.funs[t.name] = true
			d := q.c.funs[t.name]
			var ss []string
			for _, a := range d.args {
				q.useSort(a)
				ss = append(ss, q.sortName(a))
			}
			q.useSort(d.res)
			fmt.Fprintf(&q.decl, "(declare-fun %s (%s) %s)\n", smtName(t.name), strings.Join(ss, " "), q.sortName(d.res))
		}
		e = "(" + smtName(t.name) + " " + strings.Join(as, " ") + ")"
	case "lin":
		var ps []string
		for i, a := range as {
			if t.coef[i].Cmp(big.NewInt(1)) == 0 {
				ps = append(ps, a)
			} else {
				ps = append(ps, "(* "+smtInt(t.coef[i])+" "+a+")")
			}
		}
		if t.ival.Sign() != 0 {
			ps = append(ps, smtInt(t.ival))
		}
		if len(ps) == 1 {
			e = ps[0]
		} else {
			e = "(+ " + strings.Join(ps, " ") + ")"
		}
	case "mul":
		e = "(* " + strings.Join(as, " ") + ")"
	case "constarr":
		q.useSort(t.sort)
		e = "((as const " + q.sortName(t.sort) + ") " + as[0] + ")"
	default:
		e = "(" + t.op + " " + strings.Join(as, " ") + ")"
	}
	n := fmt.Sprintf("n%d", t.id)
	q.useSort(t.sort)
	fmt.Fprintf(&q.body, "(define-fun %s () %s %s)\n", n, q.sortName(t.sort), e)
	q.done[t] = n
	return n
}

func (c *Ctx) buildQuery(fs []*Term) *query {
	q := &query{c: c, done: map[*Term]string{}, sorts: map[string]bool{}, funs: map[string]bool{}, axDone: map[*Term]bool{}}
	seen := map[*Term]bool{}
	assert := func(f *Term) {
		if seen[f] || f == c.True {
			return
		}
		seen[f] = true
		n := q.term(f)
		fmt.Fprintf(&q.body, "(assert %s)\n", n)
	}
	for _, f := range fs {
		assert(f)
	}
	for len(q.todo) > 0 {
		t := q.todo
		q.todo = nil
		for _, f := range t {
			assert(f)
		}
	}
	return q
}

// Check returns sat, unsat or unknown for the conjunction.
func (s *Solver) Check(c *Ctx, fs []*Term) string {
	for _, f := range fs {
		if f == c.False {
			return "unsat"
		}
	}
	q := c.buildQuery(fs)
	text := q.decl.String() + q.body.String()
	h := sha256.Sum256([]byte(text))
	if r, ok := s.cache[h]; ok {
		s.Cached++
		return r
	}
	t0 := time.Now()
	if !s.stopAt.IsZero() && t0.After(s.stopAt) {
		s.Late++
		return "unknown"
	}
	s.Queries++
	r := s.run(text)
	if r == "unknown" && (s.stopAt.IsZero() || time.Now().Before(s.stopAt)) {
		if r2 := runCvc5(text, s.timeout); r2 != "unknown" {
			r = r2
			s.ByCvc5++
		}
	}
	s.Time += time.Since(t0)
	s.cache[h] = r
	return r
}

func (s *Solver) run(text string) string {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return "unknown"
		}
	}
	// z3's own time limit is not always honoured: end it from outside
	proc := s.cmd.Process
	dog := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond+5*time.Second, func() { proc.Kill() })
	defer dog.Stop()
	fmt.Fprintf(s.in, "(push 1)\n%s(check-sat)\n(pop 1)\n(echo \"done\")\n", text)
	res := "unknown"
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.cmd.Wait()
			s.cmd = nil
			return "unknown"
		}
		l = strings.Trim(strings.TrimSpace(l), "\"")
		if l == "done" {
			break
		}
		switch l {
		case "sat", "unsat", "unknown", "timeout":
			if l != "timeout" {
				res = l
			}
		default:
			if strings.HasPrefix(l, "(error") {
				panic("z3: " + l + "\n" + text)
			}
		}
	}
	return res
}

func runCvc5(text string, timeout int) string {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(timeout)*time.Millisecond+3*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", timeout), "-")
	cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + text + "(check-sat)\n")
	o, _ := cmd.Output()
	r := strings.TrimSpace(string(o))
	if r == "sat" || r == "unsat" {
		return r
	}
	return "unknown"
}

// Model evaluates terms in a model of fs (if sat).
func (s *Solver) Model(c *Ctx, fs []*Term, want []*Term) map[*Term]string {
	all := append([]*Term{}, fs...)
	q := c.buildQuery(all)
	var names []string
	for _, w := range want {
		names = append(names, q.term(w))
	}
	for len(q.todo) > 0 {
		t := q.todo
		q.todo = nil
		for _, f := range t {
			n := q.term(f)
			fmt.Fprintf(&q.body, "(assert %s)\n", n)
		}
	}
	text := q.decl.String() + q.body.String()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.timeout)*time.Millisecond+3*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, z3bin, "-in", "-smt2", fmt.Sprintf("-t:%d", s.timeout))
	cmd.Stdin = strings.NewReader(text + "(check-sat)\n(get-value (" + strings.Join(names, " ") + "))\n")
	o, _ := cmd.Output()
	txt := string(o)
	if !strings.HasPrefix(txt, "sat") {
		return nil
	}
	vals := parseValues(txt[4:])
	if len(vals) != len(want) {
		return nil
	}
	m := map[*Term]string{}
	for i, w := range want {
		m[w] = vals[i]
	}
	return m
}

// parseValues reads ((expr val) (expr val) ...) and returns the vals.
func parseValues(s string) []string {
	var toks []string
	for i := 0; i < len(s); {
		switch ch := s[i]; {
		case ch == '(' || ch == ')':
			toks = append(toks, string(ch))
			i++
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '|':
			j := strings.IndexByte(s[i+1:], '|') + i + 2
			toks = append(toks, s[i:j])
			i = j
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			toks = append(toks, s[i:j])
			i = j
		}
	}
	p := 0
	var expr func() string
	expr = func() string {
		if p >= len(toks) {
			return ""
		}
		t := toks[p]
		p++
		if t != "(" {
			return t
		}
		var ps []string
		for p < len(toks) && toks[p] != ")" {
			ps = append(ps, expr())
		}
		p++
		if len(ps) == 2 && ps[0] == "-" {
			return "-" + ps[1]
		}
		return "(" + strings.Join(ps, " ") + ")"
	}
	var out []string
	if p < len(toks) && toks[p] == "(" {
		p++
		for p < len(toks) && toks[p] == "(" {
			p++
			expr()
			out = append(out, expr())
			p++
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

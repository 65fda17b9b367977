package main

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The lemmas on the recursively defined sequence functions that the engine
// attaches to their applications, each proved by induction from the recursion
// (an uninterpreted function with one unfolding as hypothesis):
//
//	szArr(a, 0) = 0    szArr(a, k+1) = szArr(a, k) + sz(a[k])
//	P(0) = true        P(k+1) = P(k) && Q(k)        (encArr, domArr, eqArr)
func lemmaTasks(prop string) []*Task {
	if !strings.Contains(" C01 C02 C03 C04 C05 C06 C08 C09 C10 C11 C19 ", " "+prop+" ") {
		return nil
	}
	lemma := func(name string, f func(x *Exec, prove func(part string, hyps []*Term, goal *Term))) *Task {
		return &Task{Name: "lemma " + name, Fn: "lemma " + name, Key: "lemma " + name, Custom: func(w *Worker, u int) *FuncResult {
			x := w.newExec()
			r := &FuncResult{Func: "lemma " + name, Covered: true, Live: true, Visited: map[*ssa.BasicBlock]bool{}, Paths: 1}
			f(x, func(part string, hyps []*Term, goal *Term) {
				o := &Oblig{Func: r.Func, Name: part, Class: "lemma", Pos: "govc/lemmas.go", Desc: name + ": " + part + " of the induction"}
				switch x.s.Check(x.c, append(append([]*Term{}, hyps...), x.c.Not(goal))) {
				case "unsat":
					o.Status = "proved"
				case "sat":
					o.Status = "refuted"
				default:
					o.Status = "unknown"
				}
				r.Obligs = append(r.Obligs, o)
			})
			return r
		}}
	}
	var out []*Task
	S := func(x *Exec, k *Term) *Term { return x.c.App("lemma:S", "Int", k) }
	sz := func(x *Exec, k *Term) *Term { return x.c.App("lemma:sz", "Int", k) }
	for _, m := range []int64{0, 1, 2} {
		m := m
		out = append(out, lemma(fmt.Sprintf("szArr-min-%d", m), func(x *Exec, prove func(string, []*Term, *Term)) {
			c := x.c
			k := c.Var("k", "Int")
			k1 := c.Add(k, c.Int(1))
			prove("base", []*Term{c.Eq(S(x, c.Int(0)), c.Int(0))}, c.Le(c.Int(0), S(x, c.Int(0))))
			prove("step", []*Term{
				c.Le(c.Int(0), k), c.Le(c.Int(m), sz(x, k)), c.Eq(S(x, k1), c.Add(S(x, k), sz(x, k))),
				c.Le(c.MulK(k, big.NewInt(m)), S(x, k)),
			}, c.Le(c.MulK(k1, big.NewInt(m)), S(x, k1)))
		}))
		if m > 1 {
			continue
		}
		out = append(out, lemma(fmt.Sprintf("szArr-monotone-%d", m), func(x *Exec, prove func(string, []*Term, *Term)) {
			c := x.c
			j, k := c.Var("j", "Int"), c.Var("k", "Int")
			k1 := c.Add(k, c.Int(1))
			claim := func(n *Term) *Term {
				return c.Le(c.Add(S(x, j), c.MulK(c.Sub(n, j), big.NewInt(m))), S(x, n))
			}
			prove("base", nil, claim(j))
			prove("step", []*Term{
				c.Le(c.Int(0), j), c.Le(j, k), c.Le(c.Int(m), sz(x, k)), c.Eq(S(x, k1), c.Add(S(x, k), sz(x, k))), claim(k),
			}, claim(k1))
		}))
	}
	out = append(out, lemma("prefix-element", func(x *Exec, prove func(string, []*Term, *Term)) {
		c := x.c
		P := func(k *Term) *Term { return c.App("lemma:P", "Bool", k) }
		Q := func(k *Term) *Term { return c.App("lemma:Q", "Bool", k) }
		j, n := c.Var("j", "Int"), c.Var("n", "Int")
		n1 := c.Add(n, c.Int(1))
		claim := func(n *Term) *Term {
			return c.Imp(c.And(c.Le(c.Int(0), j), c.Lt(j, n), P(n)), Q(j))
		}
		prove("base", nil, claim(c.Int(0)))
		prove("step", []*Term{c.Le(c.Int(0), n), c.Eq(P(n1), c.And(P(n), Q(n))), claim(n)}, claim(n1))
	}), lemma("eqArr-store", func(x *Exec, prove func(string, []*Term, *Term)) {
		c := x.c
		srt := arrSort("Int")
		a, b := c.Var("a", srt), c.Var("b", srt)
		i, v, k := c.Var("i", "Int"), c.Var("v", "Int"), c.Var("k", "Int")
		st := c.App("lemma:stored", srt, a, i, v)
		P := func(a, k *Term) *Term { return c.App("lemma:E", "Bool", a, k) }
		k1 := c.Add(k, c.Int(1))
		q := func(a *Term) *Term { return c.App("lemma:eq", "Bool", c.Select(a, k), c.Select(b, k)) }
		base := []*Term{P(a, c.Int(0)), P(st, c.Int(0))}
		prove("base", base, c.Eq(P(st, c.Int(0)), P(a, c.Int(0))))
		prove("step", []*Term{
			c.Le(c.Int(0), k), c.Le(k1, i), c.Eq(st, c.Store(a, i, v)), c.Eq(P(st, k), P(a, k)),
			c.Eq(P(st, k1), c.And(P(st, k), q(st))), c.Eq(P(a, k1), c.And(P(a, k), q(a))),
		}, c.Eq(P(st, k1), P(a, k1)))
	}))
	return out
}

package main

// The contracts the models give to encoding/binary, proved on the source of
// the standard library that is compiled into the program. The loops run at
// most ten times (64 bits in groups of seven), so they are followed to their
// end: an unrolled run in which no path is cut is complete.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// zigzag is 2i for i >= 0 and -2i-1 otherwise.
func (x *Exec) zigzag(i *Term) *Term {
	c := x.c
	return c.Ite(c.Le(c.Int(0), i), c.MulK(i, big.NewInt(2)), c.Sub(c.MulK(i, big.NewInt(-2)), c.Int(1)))
}

// vbytes are the ten bytes that the zig-zag base-128 form of i may have; the
// first vlen(i) of them are the form.
func (x *Exec) vbytes(i *Term) []*Term {
	c := x.c
	q := x.zigzag(i)
	n := x.vlen(i)
	var out []*Term
	for k := int64(0); k < 10; k++ {
		d := c.Div(q, pow2(7))
		m := c.Sub(q, c.MulK(d, pow2(7)))
		out = append(out, c.Add(m, c.Ite(c.Lt(c.Int(k+1), n), c.Int(128), c.Int(0))))
		q = d
	}
	return out
}

// resultN is the n-th result of a finished run.
func (x *Exec) resultN(e *State, n int) Val {
	if tv, ok := e.result.(*TupleV); ok {
		return tv.vs[n]
	}
	return e.result
}

func (w *Worker) stdExec(name string) (*Exec, *ssa.Function) {
	x := w.newExec()
	x.unroll = 12
	for n := range x.models {
		if strings.HasPrefix(n, "binary.") {
			delete(x.models, n)
		}
	}
	x.opts["std"] = true
	return x, w.p.funcs[name]
}

func binaryTasks(prop string) []*Task {
	var out []*Task
	add := func(name string, props string, run func(x *Exec, fn *ssa.Function, name string) *FuncResult) {
		for _, p := range strings.Fields(props) {
			if p == prop {
				out = append(out, &Task{Name: "std " + name, Fn: name, Key: name, Custom: func(w *Worker, u int) *FuncResult {
					x, fn := w.stdExec(name)
					if fn == nil {
						return &FuncResult{Func: name, Unsup: "function not found"}
					}
					return run(x, fn, name)
				}})
			}
		}
	}
	param := func(st *State, fn *ssa.Function, i int) Val { return st.top().env[fn.Params[i]] }
	byteAt := func(x *Exec, st *State, s *SliceV, k int64) *Term {
		return x.c.Select(x.sliceContent(st, s), x.c.Add(s.off, x.c.Int(k)))
	}
	isByte := func(x *Exec, st *State, b *Term) {
		x.assume(st, x.c.And(x.c.Le(x.c.Int(0), b), x.c.Le(b, x.c.Int(255))))
	}
	for _, n := range []int64{2, 4, 8} {
		n := n
		add(fmt.Sprintf("binary.bigEndian.PutUint%d", n*8), "C01 C02 C03 C04 C05 C06 C09 C10 C19", func(x *Exec, fn *ssa.Function, name string) *FuncResult {
			c := x.c
			var s *SliceV
			var v *Term
			return x.runFn(fn, name, nil, func(st *State, vars map[string]Val) {
				s, v = param(st, fn, 1).(*SliceV), param(st, fn, 2).(*Term)
				x.assume(st, c.Le(c.Int(n), s.len))
			}, func(e, init *State, vars map[string]Val) {
				for k := int64(0); k < n; k++ {
					b := c.Mod(c.Div(v, pow2(uint(8*(n-1-k)))), pow2(8))
					x.assert(e, c.Eq(byteAt(x, e, s, k), b), "post", "bytes", fmt.Sprintf("byte %d is bits %d..%d of the value", k, 8*(n-1-k), 8*(n-k)-1))
				}
				j := c.Var("J", "Int")
				x.assert(e, c.Imp(c.Or(c.Lt(j, s.off), c.Le(c.Add(s.off, c.Int(n)), j)), c.Eq(c.Select(x.sliceContent(e, s), j), c.Select(x.sliceContent(init, s), j))), "frame", "others-kept", "no other byte is changed")
			})
		})
		add(fmt.Sprintf("binary.bigEndian.Uint%d", n*8), "C02 C03 C05 C07 C08 C11 C13", func(x *Exec, fn *ssa.Function, name string) *FuncResult {
			c := x.c
			var s *SliceV
			return x.runFn(fn, name, nil, func(st *State, vars map[string]Val) {
				s = param(st, fn, 1).(*SliceV)
				x.assume(st, c.Le(c.Int(n), s.len))
				for k := int64(0); k < n; k++ {
					isByte(x, st, byteAt(x, st, s, k))
				}
			}, func(e, init *State, vars map[string]Val) {
				u := c.Int(0)
				for k := int64(0); k < n; k++ {
					u = c.Add(u, c.MulK(byteAt(x, init, s, k), pow2(uint(8*(n-1-k)))))
				}
				x.assert(e, c.Eq(x.resultN(e, 0).(*Term), u), "post", "value", "the value is the big-endian number of the bytes")
			})
		})
	}
	putVarint := func(neg bool) func(x *Exec, fn *ssa.Function, name string) *FuncResult {
		return func(x *Exec, fn *ssa.Function, name string) *FuncResult {
			c := x.c
			var s *SliceV
			var i *Term
			return x.runFn(fn, name, nil, func(st *State, vars map[string]Val) {
				s, i = param(st, fn, 0).(*SliceV), param(st, fn, 1).(*Term)
				x.assume(st, c.Le(x.vlen(i), s.len))
				if neg {
					x.assume(st, c.Lt(i, c.Int(0)))
				} else {
					x.assume(st, c.Le(c.Int(0), i))
				}
			}, func(e, init *State, vars map[string]Val) {
				n := x.resultN(e, 0).(*Term)
				x.assert(e, c.Eq(n, x.vlen(i)), "post", "length", "the number of 7-bit groups is returned")
				for k, b := range x.vbytes(i) {
					x.assert(e, c.Imp(c.Lt(c.Int(int64(k)), n), c.Eq(byteAt(x, e, s, int64(k)), b)), "post", "bytes", fmt.Sprintf("byte %d is the 7-bit group %d of the zig-zag value, with the continuation bit except in the last", k, k))
				}
			})
		}
	}
	for _, m := range []struct {
		mode string
		neg  bool
	}{{"negative", true}, {"not-negative", false}} {
		k := len(out)
		add("binary.PutVarint", "C01 C02 C03 C04 C05 C06 C09 C10 C19", putVarint(m.neg))
		for ; k < len(out); k++ {
			out[k].Name += "#" + m.mode
		}
	}
	varint := func(mode string) func(x *Exec, fn *ssa.Function, name string) *FuncResult {
		return func(x *Exec, fn *ssa.Function, name string) *FuncResult {
			c := x.c
			var s *SliceV
			i := x.intRange(c.Var("ghost:i", "Int"), types.Typ[types.Int64])
			return x.runFn(fn, name, nil, func(st *State, vars map[string]Val) {
				s = param(st, fn, 0).(*SliceV)
				for k, b := range x.vbytes(i) {
					at := byteAt(x, st, s, int64(k))
					isByte(x, st, at)
					if mode != "any" {
						x.assume(st, c.Imp(c.Lt(c.Int(int64(k)), x.vlen(i)), c.Eq(at, b)))
					}
				}
				isByte(x, st, byteAt(x, st, s, 10))
				switch mode {
				case "whole":
					x.assume(st, c.Le(x.vlen(i), s.len))
				case "cut":
					x.assume(st, c.Lt(s.len, x.vlen(i)))
				}
			}, func(e, init *State, vars map[string]Val) {
				v, n := x.resultN(e, 0).(*Term), x.resultN(e, 1).(*Term)
				switch mode {
				case "whole":
					x.assert(e, c.Eq(n, x.vlen(i)), "post", "length", "the whole form and nothing else is consumed")
					x.assert(e, c.Eq(v, i), "post", "value", "the value whose form was given is returned")
				case "cut":
					x.assert(e, c.Eq(n, c.Int(0)), "post", "truncated", "a truncated form is reported by 0")
				default:
					x.assert(e, c.And(c.Le(c.Int(-11), n), c.Le(n, c.Int(10)), c.Le(n, s.len)), "post", "count", "the count lies between -11 and 10 and does not pass the end")
				}
			})
		}
	}
	for _, m := range []struct{ mode, props string }{{"whole", "C02 C05 C08 C11"}, {"cut", "C08"}, {"any", "C05 C07"}} {
		k := len(out)
		add("binary.Varint", m.props, varint(m.mode))
		for ; k < len(out); k++ {
			out[k].Name += "#" + m.mode
		}
	}
	return out
}

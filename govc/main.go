package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func loadSpecs(dir string) *SpecSet {
	s := &SpecSet{macros: map[string]macro{}, contracts: map[string]*Contract{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	for _, f := range fs {
		if err := s.parseFile(f); err != nil {
			panic(err)
		}
	}
	return s
}

var (
	repoDir  = flag.String("repo", "/repo", "")
	verifDir = flag.String("verif", "/verif", "")
)

func main() {
	flag.Parse()
	args := flag.Args()
	switch args[0] {
	case "ssa":
		p, err := LoadProg(*repoDir)
		if err != nil {
			panic(err)
		}
		for n, f := range p.funcs {
			if strings.Contains(n, args[1]) {
				f.WriteTo(os.Stdout)
				for _, a := range f.AnonFuncs {
					a.WriteTo(os.Stdout)
				}
			}
		}
	case "harness": // run the replay harness alone
		b := 20
		if flag.NArg() > 2 {
			fmt.Sscan(flag.Arg(2), &b)
		}
		sch, err := loadSchema(*verifDir + "/contracts/messages.schema")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		r := runHarness(flag.Arg(1), sch, nil, b, firstNonEmpty(os.Getenv("VERIF_SEED"), "1"))
		fmt.Printf("%s %d cases %.1fs\n", r.Status, r.Cases, r.Elapsed.Seconds())
		for _, f := range r.Failures {
			fmt.Printf("  %.400s\n", f)
		}
		if r.Status == "norun" || os.Getenv("GOVC_DEBUG") != "" {
			fmt.Println(r.Output)
		}
	case "check":
		os.Exit(checkCmd(args[1:]))
	case "dbgmsg":
		dbgMsg(args[1:])
	case "dbg":
		dbg(args[1:])
	}
}

func dbg(args []string) {
	p, err := LoadProg(*repoDir)
	if err != nil {
		panic(err)
	}
	specs := loadSpecs(*verifDir + "/contracts")
	s := NewSolver(10000)
	for _, n := range specs.order {
		if len(args) > 0 && !strings.Contains(n, args[0]) {
			continue
		}
		ct := specs.contracts[n]
		fn := p.funcs[n]
		if fn == nil {
			fmt.Println("MISSING", n)
			continue
		}
		bs := append([]*Behavior{nil}, ct.behav...)
		for _, b := range bs {
			t0 := time.Now()
			q0 := s.Queries
			x := NewExec(p, s)
			stdModels(x)
			x.opts["bytes"] = true
			x.contracts = func(name string, fn *ssa.Function) *Contract { return specs.contracts[name] }
			x.cands = arrayCands
			r := x.Verify(fn, ct, b, func(*Clause) bool { return true })
			nb := 0
			for _, o := range r.Obligs {
				if o.Status != "proved" {
					nb++
				}
			}
			fmt.Printf("%-50s obl=%d bad=%d paths=%d q=%d %v %s\n", r.Func, len(r.Obligs), nb, r.Paths, s.Queries-q0, time.Since(t0).Round(time.Millisecond), r.Unsup)
			for _, o := range r.Obligs {
				if o.Status != "proved" {
					fmt.Printf("    %s %s %s %.160s\n", o.Status, o.Name, o.Pos, o.Desc)
					if len(args) > 1 {
						fmt.Println("      ", o.Model)
					}
				}
			}
			if len(args) > 1 {
				fmt.Println(strings.Join(r.Invs, "\n"))
			}
		}
	}
}

func dbgMsg(args []string) {
	p, err := LoadProg(*repoDir)
	if err != nil {
		panic(err)
	}
	specs := loadSpecs(*verifDir + "/contracts")
	sch, err := loadSchema(*verifDir + "/contracts/messages.schema")
	if err != nil {
		panic(err)
	}
	s := NewSolver(10000)
	callC := map[string]*Contract{}
	for _, T := range sch.order {
		for _, meth := range []string{"message." + T + ".Size", "message." + T + ".Encode", "message.(*" + T + ").Decode"} {
			if len(args) > 0 && !strings.Contains(meth, args[0]) {
				continue
			}
			fn := p.funcs[meth]
			if fn == nil {
				fmt.Println("MISSING", meth)
				continue
			}
			for _, r := range sch.regions(T) {
				m := &MsgCtx{sch: sch, T: T, region: r, pkg: fn.Pkg.Pkg}
				ct := msgContract(specs, meth, m)
				for _, b := range append([]*Behavior{nil}, ct.behav...) {
					t0 := time.Now()
					q0 := s.Queries
					x := NewExec(p, s)
					stdModels(x)
					x.contracts = func(name string, fn *ssa.Function) *Contract {
						if sch.isMsgMethod(name) {
							if callC[name] == nil {
								callC[name] = msgContract(specs, name, nil)
							}
							return callC[name]
						}
						return specs.contracts[name]
					}
					x.cands = arrayCands
					res := x.Verify(fn, ct, b, func(*Clause) bool { return true })
					nb := 0
					for _, o := range res.Obligs {
						if o.Status != "proved" {
							nb++
						}
					}
					fmt.Printf("%-50s %v obl=%d bad=%d paths=%d q=%d %v %s\n", res.Func, r, len(res.Obligs), nb, res.Paths, s.Queries-q0, time.Since(t0).Round(time.Millisecond), res.Unsup)
					for _, o := range res.Obligs {
						if o.Status != "proved" {
							fmt.Printf("    %s %s %s %.160s\n", o.Status, o.Name, o.Pos, o.Desc)
							if len(args) > 1 {
								fmt.Println("      ", o.Model)
							}
						}
					}
					if len(args) > 1 {
						fmt.Println(strings.Join(res.Invs, "\n"))
					}
				}
			}
		}
	}
}

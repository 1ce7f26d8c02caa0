package world

import (
	"fmt"

	"github.com/bytedance/mockey/zzverif/zz"
)

// Profile is an alphabet with bounds.
type Profile struct {
	Name    string
	Targets []int // that can be mocked
	Obs     []int // called after every operation (default: all function targets of Targets)
	Rules   []int // rule sets for new mocks
	Re      []Op  // operations on existing handles (H is filled in)
	RelRule []int // rule sets after Release
	Exits   []int
	Nest    int // scope nesting
	Handles int // mocks created
	Depth   int // operations
	All     bool
	Assign  []int
	Extra   func(in *interp)
	Bare    bool
	// Modes: where operations take place, see interp.perform
	Modes []int
	// Must keeps only programs that contain an operation of one of these kinds
	Must []int
	// Last restricts the last operation: only programs that end with one of these are new (others are prefixes)
}

func (pf Profile) suite(name string, depth func(e *zz.Env) int) zz.Suite {
	return zz.Suite{
		Name: name,
		Bound: func(e *zz.Env) string {
			d := depth(e)
			return fmt.Sprintf("all programs of up to %d operations over %s", d, pf.alphabet())
		},
		Gen: func(e *zz.Env, yield func(zz.Case) bool) { pf.gen(depth(e), yield) },
	}
}

func (pf Profile) alphabet() string {
	s := "targets"
	for _, t := range pf.Targets {
		s += " " + tNames[t]
	}
	s += ", rules"
	for _, r := range pf.Rules {
		s += " [" + ruleNames[r] + "]"
	}
	s += fmt.Sprintf(", %d handle operations, %d handles, nesting %d, endings", len(pf.Re), pf.Handles, pf.Nest)
	for _, x := range pf.Exits {
		s += " " + exitNames[x]
	}
	if pf.All {
		s += ", UnPatchAll"
	}
	for _, m := range pf.Modes {
		s += "," + modeNames[m]
	}
	return s
}

func (pf Profile) obs() []int {
	if pf.Obs != nil {
		return pf.Obs
	}
	var obs []int
	for _, t := range pf.Targets {
		if !isVar(t) {
			obs = append(obs, t)
		}
	}
	return obs
}

func (pf Profile) gen(maxDepth int, yield func(zz.Case) bool) {
	obs := pf.obs()
	alive := true
	for d := 1; d <= maxDepth && alive; d++ {
		prog := make([]Op, 0, d)
		var rec func(m *model, nh int, seq int)
		rec = func(m *model, nh int, seq int) {
			if !alive {
				return
			}
			if len(prog) == d {
				if !pf.wanted(prog) {
					return
				}
				p := append([]Op(nil), prog...)
				own := false
				for _, o := range p {
					if o.K == oExit && o.R == xGoexit {
						own = true
					}
				}
				modes := pf.Modes
				if modes == nil {
					modes = []int{here}
				}
				for _, mode := range modes {
					mode := mode
					alive = alive && yield(zz.Case{
						Text: func() string { return progText(p) + modeNames[mode] },
						Own:  own,
						Run: func(c *zz.Ctx) {
							in := newInterp(c, p, obs)
							in.extra, in.bare, in.mode = pf.Extra, pf.Bare, mode
							if own {
								done := make(chan bool)
								go func() {
									defer close(done)
									zz.Grow()
									if msg := zz.PanicText(in.body); msg != "" {
										c.Fail("panic: %s", msg)
									}
								}()
								<-done
								in.observe("after the program's goroutine ended")
								in.finish()
								return
							}
							in.main()
						},
					})
				}
				return
			}
			left := d - len(prog)
			try := func(o Op) {
				if !alive || !m.legal(o) {
					return
				}
				n := m.clone()
				n.step(o)
				prog = append(prog, o)
				h := nh
				if o.K == oMock || o.K == oRelease {
					h++
				}
				rec(n, h, seq+1)
				prog = prog[:len(prog)-1]
			}
			if nh < pf.Handles {
				for _, t := range pf.Targets {
					if isVar(t) {
						try(Op{K: oMock, T: t, N: nh})
						continue
					}
					for _, r := range pf.Rules {
						try(Op{K: oMock, T: t, R: r, N: nh})
					}
				}
			}
			for h := 0; h < nh; h++ {
				for _, o := range pf.Re {
					o.H = h
					switch o.K {
					case oReRet, oReTo, oVarTo:
						o.T = len(prog) + 1 // distinct constant
					}
					try(o)
				}
				if nh < pf.Handles+1 {
					for _, r := range pf.RelRule {
						try(Op{K: oRelease, H: h, R: r, N: nh})
					}
				}
			}
			for _, t := range pf.Assign {
				try(Op{K: oAssign, T: t, R: len(prog)})
			}
			if pf.All {
				try(Op{K: oUnpatchAll})
			}
			if m.cur() < pf.Nest && left > 1 {
				try(Op{K: oEnter})
			}
			if m.cur() > 0 {
				for _, x := range pf.Exits {
					if x == xGoexit && left > 1 {
						continue // nothing runs after it
					}
					try(Op{K: oExit, R: x})
				}
			}
		}
		rec(newModel(), 0, 0)
	}
}

func (pf Profile) wanted(p []Op) bool {
	if len(pf.Must) == 0 {
		return true
	}
	for _, o := range p {
		for _, k := range pf.Must {
			if o.K == k {
				return true
			}
		}
	}
	return false
}

func (in *interp) body() {
	initText()
	resetVars()
	in.observe("start")
	in.run(0)
}

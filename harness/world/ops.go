package world

import (
	"fmt"
	"strings"
)

// Operation kinds.
const (
	oMock       = iota // T, R -> H: build a mock
	oUnpatch           // H
	oPatch             // H
	oReRet             // H: mocker.Return
	oReTo              // H: mocker.To
	oReWhen            // H, R=condition: mocker.When
	oReOrigin          // H: mocker.Origin
	oReIncl            // H: mocker.IncludeCurrentGoRoutine
	oReExcl            // H: mocker.ExcludeCurrentGoRoutine
	oReOff             // H: mocker.FilterGoRoutine(Disable, 0)
	oRelease           // H, R -> H2: Release and rebuild
	oUnpatchAll        //
	oEnter             // body
	oExit              // R: kind of ending (closes the body)
	oAssign            // T: the program assigns to a variable
	oVarTo             // H: MockerVar.To on an existing handle
)

const (
	xReturn = iota
	xPanic
	xFail
	xGoexit
)

var exitNames = [...]string{"return", "panic", "failed So", "Goexit"}

// Op is one operation; H is the handle used, N the one created.
type Op struct{ K, T, R, H, N int }

// Rule sets a mock can be built with.
var ruleSets = [][]rule{
	0: {{wNone, hRet, 0, 0}},
	1: {{wPos, hRet, 0, 0}},
	2: {{wNone, hOrigin, 0, 0}},
	3: {{wBig, hRet, 0, 0}, {wPos, hTo, 50, 0}},
	4: {{wNone, hTo, 0, 0}},
	5: {{wPos, hNone, 0, 0}},
	6: {{wNone, hSeq, 0, 0}},
	7: {{wNone, hNone, 0, 0}},
	8: {{wNev, hRet, 0, 0}, {wPos, hOrigin, 30, 0}, {wNone, hRet, 60, 0}},
}

var ruleNames = [...]string{"Return", "When(>0).Return", "To(origin)", "When(>5).Return.When(>0).To", "To", "When(>0)", "Return(Sequence)", "no rule", "When(never).Return.When(>0).To(origin).Return"}

func (o Op) String() string {
	switch o.K {
	case oMock:
		if isVar(o.T) {
			return fmt.Sprintf("m%d=MockValue(%s).To", o.N, tNames[o.T])
		}
		return fmt.Sprintf("m%d=Mock(%s).%s.Build", o.N, tNames[o.T], ruleNames[o.R])
	case oUnpatch:
		return fmt.Sprintf("m%d.UnPatch", o.H)
	case oPatch:
		return fmt.Sprintf("m%d.Patch", o.H)
	case oReRet:
		return fmt.Sprintf("m%d.Return", o.H)
	case oReTo:
		return fmt.Sprintf("m%d.To", o.H)
	case oReWhen:
		return fmt.Sprintf("m%d.When(%d)", o.H, o.R)
	case oReOrigin:
		return fmt.Sprintf("m%d.Origin", o.H)
	case oReIncl:
		return fmt.Sprintf("m%d.IncludeCurrentGoRoutine", o.H)
	case oReExcl:
		return fmt.Sprintf("m%d.ExcludeCurrentGoRoutine", o.H)
	case oReOff:
		return fmt.Sprintf("m%d.FilterGoRoutine(Disable)", o.H)
	case oRelease:
		return fmt.Sprintf("m%d=m%d.Release.%s.Build", o.N, o.H, ruleNames[o.R])
	case oUnpatchAll:
		return "UnPatchAll"
	case oEnter:
		return "PatchConvey{"
	case oExit:
		return "}" + exitNames[o.R]
	case oAssign:
		return fmt.Sprintf("%s=new value", tNames[o.T])
	case oVarTo:
		return fmt.Sprintf("m%d.To", o.H)
	}
	return "?"
}

func progText(p []Op) string {
	var s []string
	for _, o := range p {
		s = append(s, o.String())
	}
	return strings.Join(s, "; ")
}

// constant a rule returns: distinct per handle and per reconfiguration.
func constFor(h, seq, c int) int { return 1000*(h+1) + 100*seq + c }

// legal tells whether the operation is covered by the properties in this state (mocks of one target are undone
// innermost first, dead handles are not used).
func (m *model) legal(o Op) bool {
	switch o.K {
	case oMock:
		if isVar(o.T) && m.mocks[o.N] == nil {
			return true
		}
		return m.mocks[o.N] == nil
	case oUnpatchAll, oEnter:
		return true
	case oExit:
		return true
	case oAssign:
		return len(m.stack[siteOf[o.T]]) == 0 || true
	}
	k := m.mocks[o.H]
	if k == nil || k.dead {
		return false
	}
	switch o.K {
	case oUnpatch, oRelease:
		if k.applied && !m.top(o.H) {
			return false
		}
		if o.K == oRelease && (isVar(k.target) || m.mocks[o.N] != nil) {
			return false
		}
		return true
	case oPatch:
		if k.applied || !isVar(k.target) {
			return true
		}
		// the value saved by an undone variable mock is only meaningful if nothing else is in force
		return m.varClean(o.H)
	case oReRet, oReTo, oReWhen, oReOrigin, oReIncl, oReExcl, oReOff:
		if isVar(k.target) {
			return false
		}
		if k.applied && !m.top(o.H) {
			return false
		}
		if o.K == oReWhen && false {
			return false
		}
		return true
	case oVarTo:
		if !isVar(k.target) {
			return false
		}
		if k.applied {
			return m.top(o.H)
		}
		return m.varClean(o.H)
	}
	return false
}

// varClean: nothing is in force at the site of an undone variable mock, except where the request is refused anyway.
func (m *model) varClean(h int) bool {
	k := m.mocks[h]
	if m.clash(k.target, h) {
		return true
	}
	if len(m.stack[siteOf[k.target]]) != 0 {
		return false
	}
	return true
}

// step advances the model; refused tells that the request must panic and change nothing.
func (m *model) step(o Op) (refused bool) {
	switch o.K {
	case oMock:
		k := &mock{target: o.T, builder: o.N}
		if isVar(o.T) {
			k.val = constFor(o.N, 0, 0)
			k.saved, k.savedS = m.v, m.vs
			if o.T == tVB {
				k.saved = m.vs[1]
			}
			if m.clash(o.T, -1) {
				return true
			}
		} else {
			for _, r := range ruleSets[o.R] {
				r.c += constFor(o.N, 0, 0)
				k.rules = append(k.rules, r)
				if r.hook == hOrigin {
					k.origin = true
				}
			}
			if m.clash(o.T, -1) {
				return true
			}
		}
		m.mocks[o.N] = k
		m.apply(o.N)
	case oUnpatch:
		m.undo(o.H)
	case oPatch:
		k := m.mocks[o.H]
		if k.applied {
			return false
		}
		if m.clash(k.target, o.H) {
			return true
		}
		if isVar(k.target) {
			// saved stays the value at MockValue
		}
		m.apply(o.H)
	case oReRet, oReTo, oReWhen:
		k := m.mocks[o.H]
		if len(k.rules) != 1 {
			return true
		}
		fallthrough
	case oReOrigin, oReIncl, oReExcl, oReOff:
		k := m.mocks[o.H]
		if m.clash(k.target, o.H) {
			return true
		}
		m.undo(o.H)
		switch o.K {
		case oReRet:
			k.rules[0].hook, k.rules[0].c = hRet, constFor(o.H, o.T, 0)
		case oReTo:
			k.rules[0].hook, k.rules[0].c = hTo, constFor(o.H, o.T, 1)
		case oReWhen:
			k.rules[0].when = o.R
		case oReOrigin:
			// the handle of origin hooks is the same variable again
			k.origin = true
		case oReIncl:
			k.filter = fIncl
		case oReExcl:
			k.filter = fExcl
		case oReOff:
			k.filter = fOff
		}
		m.apply(o.H)
	case oRelease:
		k := m.mocks[o.H]
		m.undo(o.H)
		k.dead = true
		n := &mock{target: k.target, filter: k.filter, origin: k.origin, builder: k.builder}
		for _, r := range ruleSets[o.R] {
			r.c += constFor(o.N, 0, 0)
			n.rules = append(n.rules, r)
		}
		if m.clash(k.target, -1) {
			return true
		}
		m.mocks[o.N] = n
		m.apply(o.N)
	case oUnpatchAll:
		m.undoScope()
	case oEnter:
		m.enter()
	case oExit:
		m.exit()
	case oAssign:
		switch o.T {
		case tV:
			m.v = 70 + o.R
		case tVS:
			m.vs = [2]int{80 + o.R, 90 + o.R}
		case tVB:
			m.vs[1] = 95 + o.R
		}
	case oVarTo:
		k := m.mocks[o.H]
		if k.applied {
			k.val = constFor(o.H, o.T, 0)
			switch k.target {
			case tV:
				m.v = k.val
			case tVS:
				m.vs = [2]int{k.val, k.val + 1}
			case tVB:
				m.vs[1] = k.val
			}
			return false
		}
		if m.clash(k.target, o.H) {
			return true
		}
		k.val = constFor(o.H, o.T, 0)
		m.apply(o.H)
	}
	return false
}

package world

import (
	"fmt"
	"strings"
)

// The reference model: what a user of mockey expects, written down as plainly as possible.

// Targets.
const (
	tF  = iota // plain function
	tM         // pointer method
	tG1        // generic function instantiated with *A1
	tG2        // the same code instantiated with *B1
	tGi        // generic function instantiated with int
	tR         // recursive function
	tV         // variable
	tVS        // struct variable
	tVB        // field of that variable
	tF2        // another plain function
	nTargets
)

var tNames = [...]string{"F", "M", "G[*A1]", "G[*B1]", "G[int]", "Rec", "&V", "&VS", "&VS.B", "F2"}

// site of a target: targets sharing code or memory.
const (
	sF = iota
	sM
	sGp
	sGi
	sR
	sV
	sVS
	sF2
	nSites
)

var siteOf = [...]int{sF, sM, sGp, sGp, sGi, sR, sV, sVS, sVS, sF2}

func isVar(t int) bool { return t == tV || t == tVS || t == tVB }

// Hook kinds of a rule.
const (
	hNone   = iota
	hRet    // Return(c)
	hTo     // To(func: x*2+c)
	hOrigin // To(func: origin(x+10)+c)
	hSeq    // Return(Sequence(c).Times(2).Then(c+1))
)

// Condition kinds.
const (
	wNone = iota
	wPos  // x > 0
	wBig  // x > 5
	wNev  // false
)

func holds(w, x int) bool {
	switch w {
	case wPos:
		return x > 0
	case wBig:
		return x > 5
	case wNev:
		return false
	}
	return true
}

type rule struct{ when, hook, c, pos int }

// Filters.
const (
	fOff = iota
	fIncl
	fExcl
)

// mock is a mock the user has a handle of.
type mock struct {
	target  int
	rules   []rule
	filter  int // relative to the goroutine of the program
	origin  bool
	applied bool
	dead    bool // released
	scope   int  // where it is applied
	times   int
	mtimes  int

	// variables
	val, saved int
	savedS     [2]int
	builder    int // mock whose builder it shares
}

type model struct {
	mocks  map[int]*mock
	scopes [][]int       // mocks applied per open scope, in order
	stack  [nSites][]int // mocks applied per site, the one in force last
	v      int
	vs     [2]int
}

func newModel() *model {
	return &model{mocks: map[int]*mock{}, scopes: [][]int{nil}, v: 7, vs: [2]int{1, 2}}
}

func (m *model) clone() *model {
	n := *m
	n.mocks = make(map[int]*mock, len(m.mocks))
	for k, v := range m.mocks {
		c := *v
		c.rules = append([]rule(nil), v.rules...)
		n.mocks[k] = &c
	}
	n.scopes = make([][]int, len(m.scopes))
	for i := range m.scopes {
		n.scopes[i] = append([]int(nil), m.scopes[i]...)
	}
	for i := range m.stack {
		n.stack[i] = append([]int(nil), m.stack[i]...)
	}
	return &n
}

func (m *model) cur() int { return len(m.scopes) - 1 }

// clash tells whether the current scope holds another mock of the target (or, of a function, of its code).
func (m *model) clash(t, self int) bool {
	for _, h := range m.scopes[m.cur()] {
		k := m.mocks[h].target
		if h != self && (k == t || !isVar(t) && !isVar(k) && siteOf[k] == siteOf[t]) {
			return true
		}
	}
	return false
}

// top tells whether h is the mock in force at its site.
func (m *model) top(h int) bool {
	s := m.stack[siteOf[m.mocks[h].target]]
	return len(s) > 0 && s[len(s)-1] == h
}

func (m *model) apply(h int) {
	k := m.mocks[h]
	k.applied, k.scope = true, m.cur()
	m.scopes[m.cur()] = append(m.scopes[m.cur()], h)
	s := siteOf[k.target]
	m.stack[s] = append(m.stack[s], h)
	switch k.target {
	case tV:
		m.v = k.val
	case tVS:
		m.vs = [2]int{k.val, k.val + 1}
	case tVB:
		m.vs[1] = k.val
	}
}

func (m *model) undo(h int) {
	k := m.mocks[h]
	if !k.applied {
		return
	}
	if !m.top(h) {
		panic("model: undo of a covered mock")
	}
	k.applied = false
	k.times, k.mtimes = 0, 0
	s := siteOf[k.target]
	m.stack[s] = m.stack[s][:len(m.stack[s])-1]
	sc := m.scopes[k.scope]
	for i, x := range sc {
		if x == h {
			m.scopes[k.scope] = append(sc[:i:i], sc[i+1:]...)
		}
	}
	switch k.target {
	case tV:
		m.v = k.saved
	case tVS:
		m.vs = k.savedS
	case tVB:
		m.vs[1] = k.saved
	}
}

// undoScope undoes what the current scope applied.
func (m *model) undoScope() {
	for {
		sc := m.scopes[m.cur()]
		if len(sc) == 0 {
			return
		}
		m.undo(sc[len(sc)-1])
	}
}

func (m *model) enter() { m.scopes = append(m.scopes, nil) }

func (m *model) exit() {
	m.undoScope()
	m.scopes = m.scopes[:len(m.scopes)-1]
}

// orig is what the unmocked target computes (rec is evaluated through the mock).
func (m *model) orig(t, x int) int {
	switch t {
	case tF:
		return x*3 + 1
	case tF2:
		return x*5 + 2
	case tM:
		return x*11 + 4
	case tG1, tG2, tGi:
		return x*31 + 5
	case tR:
		if x <= 0 {
			return 1
		}
		return x*10 + m.call(tR, x-1)
	}
	panic("model: orig")
}

// call is a call of target t.
func (m *model) call(t, x int) int {
	return m.callAt(t, len(m.stack[siteOf[t]])-1, x)
}

func (m *model) callAt(t, depth, x int) int {
	if depth < 0 {
		return m.orig(t, x)
	}
	k := m.mocks[m.stack[siteOf[t]][depth]]
	k.times++
	if k.filter == fExcl {
		return m.callAt(t, depth-1, x)
	}
	for i, r := range k.rules {
		if !holds(r.when, x) {
			continue
		}
		switch r.hook {
		case hNone:
			return m.callAt(t, depth-1, x)
		case hRet:
			k.mtimes++
			return r.c
		case hTo:
			k.mtimes++
			return x*2 + r.c
		case hOrigin:
			k.mtimes++
			if t == tR {
				return m.callAt(t, depth-1, x) + r.c
			}
			return m.callAt(t, depth-1, x+10) + r.c
		case hSeq:
			k.mtimes++
			p := r.pos
			k.rules[i].pos = (p + 1) % 3
			if p == 2 {
				return r.c + 1
			}
			return r.c
		}
	}
	return m.callAt(t, depth-1, x)
}

// key is the canonical form of the state.
func (m *model) key() string {
	var b strings.Builder
	for _, s := range m.scopes {
		fmt.Fprintf(&b, "%v|", s)
	}
	for _, s := range m.stack {
		fmt.Fprintf(&b, "%v;", s)
	}
	ids := make([]int, 0, len(m.mocks))
	for id := range m.mocks {
		ids = append(ids, id)
	}
	for i := range ids { // few: insertion sort
		for j := i; j > 0 && ids[j] < ids[j-1]; j-- {
			ids[j], ids[j-1] = ids[j-1], ids[j]
		}
	}
	for _, id := range ids {
		fmt.Fprintf(&b, "%d%+v", id, *m.mocks[id])
	}
	fmt.Fprintf(&b, "%d %v", m.v, m.vs)
	return b.String()
}

package world

import (
	"github.com/bytedance/mockey/zzverif/tg"
	"github.com/bytedance/mockey/zzverif/zz"
)

func resetVars() { tg.Reset() }

func depth(mini, quick, thorough int) func(e *zz.Env) int {
	return func(e *zz.Env) int { return e.Pick(mini, quick, thorough) }
}

var reAll = []Op{{K: oUnpatch}, {K: oPatch}, {K: oReRet}, {K: oReTo}, {K: oReWhen, R: wPos}, {K: oReWhen, R: wNev}, {K: oReOrigin}, {K: oReIncl}, {K: oReExcl}, {K: oReOff}}

func init() {
	scopes := Profile{
		Targets: []int{tF, tV}, Rules: []int{0}, Re: []Op{{K: oUnpatch}, {K: oPatch}, {K: oReRet}},
		Exits: []int{xReturn, xPanic, xFail, xGoexit}, Nest: 2, Handles: 3, Obs: []int{tF, tF2},
	}
	shared := Profile{
		Targets: []int{tF, tG1, tG2, tVS, tVB}, Rules: []int{0}, Re: []Op{{K: oUnpatch}},
		Exits: []int{xReturn, xPanic}, Nest: 2, Handles: 4, Obs: []int{tF, tG1, tG2, tGi},
	}
	deep := Profile{
		Targets: []int{tF}, Rules: []int{1}, Re: []Op{{K: oUnpatch}},
		Exits: []int{xReturn, xPanic, xFail, xGoexit}, Nest: 3, Handles: 3, Obs: []int{tF, tR},
	}
	wide := Profile{
		Targets: []int{tF, tM, tG1, tV}, Rules: []int{0, 2}, Re: []Op{{K: oReTo}, {K: oReIncl}, {K: oVarTo}}, RelRule: []int{0},
		Exits: []int{xReturn}, Nest: 2, Handles: 3, Obs: []int{tF, tM, tG1}, All: true,
	}
	places := Profile{
		Targets: []int{tF, tG1, tV}, Rules: []int{1}, Re: []Op{{K: oUnpatch}, {K: oPatch}, {K: oReRet}}, RelRule: []int{0},
		Exits: []int{xReturn, xPanic}, Nest: 2, Handles: 3, Obs: []int{tF, tG1}, All: true, Modes: []int{elsewhere, inHook, inCond, inOrigin, inDefer},
	}
	placesRef := Profile{
		Targets: []int{tF, tM, tV}, Rules: []int{0, 3}, Re: []Op{{K: oUnpatch}, {K: oPatch}, {K: oReTo}, {K: oReWhen, R: wPos}, {K: oVarTo}},
		Exits: []int{xReturn}, Nest: 1, Handles: 3, Obs: []int{tF, tM}, Modes: []int{elsewhere, inHook, inOrigin},
	}
	zz.Register("C04", placesRef.suite("operations in other places", depth(3, 5, 6)))
	zz.Register("C01", places.suite("operations in other places", depth(3, 5, 6)))
	placesAll := places
	placesAll.Must = []int{oUnpatchAll}
	zz.Register("C18", placesAll.suite("operations in other places", depth(3, 5, 6)))
	placesLife := Profile{
		Targets: []int{tF, tM}, Rules: []int{1, 2, 3}, Re: reAll, RelRule: []int{0, 3},
		Handles: 2, Modes: []int{elsewhere, inHook, inCond, inOrigin, inDefer},
	}
	zz.Register("C03", placesLife.suite("operations in other places", depth(2, 4, 5)))
	zz.Register("C01",
		scopes.suite("scopes", depth(4, 6, 7)),
		shared.suite("shared code and memory", depth(3, 5, 6)),
		deep.suite("deep nesting", depth(5, 8, 10)),
		wide.suite("all kinds of mocks", depth(3, 4, 5)),
	)

	// C03: life cycle and reconfiguration of one mock, and of two
	life := Profile{
		Targets: []int{tF, tM, tG1}, Rules: []int{0, 1, 2, 3, 5, 6, 7, 8}, Re: reAll, RelRule: []int{0, 2, 3, 7},
		Nest: 0, Handles: 1,
	}
	life2 := Profile{
		Targets: []int{tF, tM}, Rules: []int{1, 2}, Re: []Op{{K: oUnpatch}, {K: oPatch}, {K: oReRet}, {K: oReOrigin}, {K: oReExcl}}, RelRule: []int{0},
		Exits: []int{xReturn, xPanic}, Nest: 1, Handles: 2,
	}
	lifeV := Profile{
		Targets: []int{tV, tVB}, Re: []Op{{K: oUnpatch}, {K: oPatch}, {K: oVarTo}}, Assign: []int{tV},
		Exits: []int{xReturn}, Nest: 1, Handles: 2, Obs: []int{},
	}
	long := Profile{
		Targets: []int{tF}, Rules: []int{1}, Re: []Op{{K: oUnpatch}, {K: oPatch}, {K: oReTo}, {K: oReWhen, R: wBig}, {K: oReExcl}}, RelRule: []int{1},
		Nest: 0, Handles: 1,
	}
	zz.Register("C03",
		life.suite("one mock, all settings", depth(3, 4, 5)),
		life2.suite("two mocks and a scope", depth(4, 5, 6)),
		lifeV.suite("variables", depth(4, 5, 7)),
		long.suite("long histories of one mock", depth(4, 7, 9)),
	)

	// C04
	ref := Profile{
		Targets: []int{tF, tM, tG1, tV}, Rules: []int{0, 3, 2}, Re: []Op{{K: oUnpatch}, {K: oPatch}, {K: oReTo}, {K: oReOrigin}, {K: oVarTo}},
		Exits: []int{xReturn}, Nest: 1, Handles: 2, Extra: badRequests, Obs: []int{tF, tM, tG1},
	}
	two := Profile{
		Targets: []int{tF}, Rules: []int{1}, Re: []Op{{K: oUnpatch}, {K: oPatch}, {K: oReTo}, {K: oReWhen, R: wPos}, {K: oReOrigin}},
		Handles: 2, Obs: []int{tF},
	}
	zz.Register("C04",
		two.suite("two mocks of one target", depth(4, 7, 9)),
		ref.suite("every bad request in every state", depth(3, 4, 5)),
		builderSuite(),
	)

	// C05
	count := Profile{
		Targets: []int{tR, tF}, Rules: []int{0, 1, 2, 5, 8}, Re: reAll, RelRule: []int{1},
		Exits: []int{xReturn}, Nest: 1, Handles: 2,
	}
	zz.Register("C05",
		count.suite("counters over histories", depth(3, 4, 5)),
	)

	// C09
	vars := Profile{
		Targets: []int{tV, tVS, tVB}, Re: []Op{{K: oUnpatch}, {K: oPatch}, {K: oVarTo}}, Assign: []int{tV, tVS, tVB},
		Exits: []int{xReturn, xPanic}, Nest: 2, Handles: 3, Obs: []int{}, All: true,
	}
	badv := vars
	badv.Extra, badv.Exits, badv.Nest = badVars, []int{xReturn}, 1
	zz.Register("C09",
		vars.suite("histories of variable mocks", depth(4, 5, 6)),
		badv.suite("refused requests about variables", depth(3, 4, 5)),
	)

	// C16
	by := Profile{
		Targets: []int{tF, tM, tG1, tGi, tV}, Rules: []int{0, 2}, Re: []Op{{K: oUnpatch}, {K: oPatch}, {K: oReWhen, R: wPos}},
		Exits: []int{xReturn}, Nest: 1, Handles: 3, Obs: []int{tF, tF2, tM, tG1, tGi, tR}, Extra: bystanders, All: true,
	}
	zz.Register("C16",
		by.suite("bystanders of histories", depth(3, 4, 5)),
	)

	// C18
	all := Profile{
		Targets: []int{tF, tM, tG1, tV}, Rules: []int{0, 2}, Re: []Op{{K: oUnpatch}, {K: oPatch}, {K: oReRet}},
		Exits: []int{xReturn}, Nest: 2, Handles: 3, All: true, Must: []int{oUnpatchAll}, Obs: []int{tF, tM, tG1},
	}
	allShared := Profile{
		Targets: []int{tG1, tG2, tVS, tVB}, Rules: []int{0}, Re: []Op{{K: oPatch}, {K: oUnpatch}},
		Exits: []int{xReturn, xPanic}, Nest: 2, Handles: 4, All: true, Must: []int{oUnpatchAll}, Obs: []int{tG1, tG2},
	}
	allDeep := Profile{
		Targets: []int{tF, tV}, Rules: []int{1}, Re: []Op{{K: oPatch}},
		Exits: []int{xReturn}, Nest: 3, Handles: 3, All: true, Must: []int{oUnpatchAll}, Obs: []int{tF},
	}
	zz.Register("C18",
		all.suite("UnPatchAll in every history", depth(4, 5, 6)),
		allShared.suite("shared code and memory", depth(4, 5, 6)),
		allDeep.suite("nested scopes", depth(4, 7, 8)),
	)
}

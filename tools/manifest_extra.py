TECH.update({
    "C10": SEQ % "signatures (bounded parameter/result lists over a type alphabet) x call paths x rule forms",
    "C11": SEQ % "generated Go types (bounded embedding depth, receiver and name kinds) x names",
    "C12": "explicit enumeration of instruction layouts, entry positions and function lengths on the real code; every byte, protection and mapping compared",
    "C13": "explicit enumeration of the branch emitters' input space (per-bit/boundary-complete address blocks), emitted code executed on a machine model and natively",
    "C14": SEQ % "generic shapes x lifecycle histories",
    "C15": "stateless model checking: all interleavings of the real code up to a preemption bound under a controlled scheduler",
    "C17": SEQ % "caller kinds x applying operations x re-mock requests",
    "C19": SEQ % "histories of the other checks in every build/run configuration",
})

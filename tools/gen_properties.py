#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every mock applied in a PatchConvey scope is gone when the scope ends",
 "When the body of a PatchConvey scope ends - by returning, a failed assertion, a panic or runtime.Goexit, at any nesting depth - every function, method, generic or variable mock applied while that scope was the innermost one and still in force has been undone, in an order that leaves each target and variable exactly as it was before the scope began, however many mocks touched it. Mocks applied in enclosing scopes stay in force (or come back into force if an inner mock of the same target had hidden them), and a scope that mocked and un-mocked, re-applied or reconfigured mocks, its own or those of enclosing scopes, leaves no residue that changes what later scopes can do.",
 ["histories", "programs", "fault_sequences"],
 "every program of nested and sibling scopes, mock operations and scope endings, in which mocks of one target are undone innermost first",
 "the tests exit a handful of scopes normally with one or two mocks each; the number of nesting/undo/ending combinations, and the undo order (the order of a Go map), is never varied",
 ["convey.go", "mock.go", "mock_var.go"],
 [("scope push/pop and unpatch on exit", "convey.go:PatchConvey"), ("registry add/remove", "convey.go:addToGlobal/removeFromGlobal")],
 [("gMocker", "stack of scopes, each the set of mocks applied in it", "convey.go")],
 ["results of calling the targets", "values of the variables", "success of later Mock calls"])

prop("C02", "A mocked call runs the first matching rule, otherwise the original",
 "Every call of a mocked function or method, whatever its arguments, receiver, variadic arity or call path, is answered by the first When/To/Return rule (in declaration order) whose condition holds for that call's arguments - a rule without a condition always matches, a condition without a hook or return runs the original - and by the original with exactly the call's arguments when no rule matches. Conditions and hooks receive exactly the arguments of the call (with or without the receiver, as they declare it), conditions after the first match are not evaluated, and the results of the chosen hook, Return or original are what the caller receives, the values of a Return converted to the result types and nil standing for the zero value.",
 ["programs", "inputs"],
 "every chain of When/To/Return declarations, every hook/condition signature form allowed for the target, every argument vector",
 "tests use at most a few fixed chains on a few fixed arguments; rule order x receiver form x variadic arity x nil and convertible results is not enumerated",
 ["mock.go", "mock_condition.go", "internal/tool/call.go", "internal/tool/check.go"],
 [("rule chain construction", "mock.go:buildHook"), ("argument adaptation", "mock_condition.go:checkGenericAndReceiver/adaptArgsForReflectCall"), ("result conversion", "mock_condition.go:SetReturnForce")],
 [("conditions", "ordered rules of a builder", "mock.go:MockBuilder")],
 ["results and arguments seen by caller, conditions, hooks and original"])

prop("C03", "A mock is in force exactly from Build/Patch until UnPatch, latest settings",
 "After any sequence of Build, Patch, UnPatch, Release and reconfiguration (When, To, Return, Origin, goroutine filter) on a mock, the target behaves as mocked with the latest settings if and only if the mock is currently applied, and as the unmocked original otherwise. Patch on an applied mock and UnPatch on an undone one change nothing, reconfiguring leaves the mock applied (in the current scope, with its counters at 0) with the new setting and every other setting kept, and Release undoes the mock and hands back a builder without its rules that can be configured and built again.",
 ["histories"],
 "every sequence of lifecycle and reconfiguration operations interleaved with calls, where mocks of one target are undone innermost first",
 "tests check single transitions; histories (reconfigure after unpatch, release after release, rebuild, double patch) have unboundedly many combinations",
 ["mock.go", "mock_condition.go"],
 [("patch/unpatch flag", "mock.go:Patch/UnPatch"), ("reconfigure", "mock.go:rePatch"), ("Release", "mock.go:Release/resetCondition")],
 [("isPatched", "whether the mock is applied", "mock.go:Mocker")],
 ["results of calling the target after each operation"])

prop("C04", "A rejected mock request panics at the request and changes nothing",
 "A request mockey must refuse - mocking a target or variable already mocked in the current scope, a rule whose condition, hook or origin handle does not fit the target, setting a rule part twice, reconfiguring a mock with several rules, a value of the wrong type, a non-function or non-pointer, a non-positive repeat count, an unknown method - panics when it is made (a Return with the wrong number or type of values: when that rule is used) and has no other effect. Afterwards every target, variable, already applied mock, its counters and its scope behave exactly as if the request had not been made, and a corrected request succeeds.",
 ["histories", "inputs", "fault_sequences"],
 "every kind of refused request at every point of a mock's life (never built, applied, undone, inside nested scopes)",
 "tests only check that a few refused requests panic, never the state left behind, nor requests made in the middle of a mock's life",
 ["mock.go", "mock_condition.go", "mock_var.go", "convey.go", "utils.go", "mock_sequence.go", "internal/tool/check.go", "internal/tool/assert.go"],
 [("argument checks", "mock_condition.go, internal/tool/check.go"), ("re-mock check", "convey.go:addToGlobal")],
 (), ["panic or not", "behaviour of everything else afterwards"])

prop("C05", "Times and MockTimes count calls and hook runs exactly",
 "Since a mock was last applied or reconfigured, Times equals the number of calls of the target that reached it (filtered or not, matched or not, nested and concurrent ones included) and MockTimes the number of those answered by a hook or Return; both are 0 right after Build, Patch of an undone mock, UnPatch, Release and reconfiguration. Calls that run the original through an origin handle are not counted, and no call is counted twice or lost.",
 ["histories", "schedules"],
 "every history of calls and lifecycle operations, and every interleaving of concurrent calls",
 "tests count a few sequential calls; concurrent increments, filter exits, recursion and resets in other orders are not covered",
 ["mock.go"],
 [("counters", "mock.go:access/mock/Times/MockTimes"), ("reset", "mock.go:UnPatch")],
 [("times, mockTimes", "call and hook counters", "mock.go:Mocker")],
 ["Times()", "MockTimes()"])

prop("C06", "A Sequence yields its values in order, each its count, then starts over",
 "A mock returning a Sequence answers its k-th call with the k-th element of the declared list (each value repeated its declared number of times, one by default, the last Times given for a value counting), starting over after the last element; each such call consumes exactly one element and calls answered otherwise consume none. Under concurrent calls, the calls together receive exactly the next elements of that order, each handed out once.",
 ["inputs", "histories", "schedules"],
 "every declared list of values and repeat counts, every number of calls, every interleaving of concurrent calls",
 "tests walk two fixed sequences from a single goroutine",
 ["mock_sequence.go", "mock_condition.go"],
 [("cursor", "mock_sequence.go:GetNext"), ("builder", "mock_sequence.go:Then/Times")],
 [("curV, curT", "cursor: value index and uses of it", "mock_sequence.go:sequence")],
 ["results of the calls"])

prop("C07", "Goroutine filters select by the calling goroutine, and ids are per goroutine",
 "With an include filter for a goroutine, the mock answers calls made on that goroutine and every other goroutine gets the original; with an exclude filter the other way round; without a filter it answers all of them. The filter set last wins whether set on the builder or on the applied mock, 'current goroutine' is the one that sets the filter, and a goroutine's reported id is the runtime's id for it: stable for its life and different from every other goroutine's.",
 ["histories", "schedules"],
 "every sequence of filter settings made from, and calls made on, several goroutines",
 "tests set one filter and call from two goroutines once",
 ["mock.go", "internal/tool/goroutine.go", "internal/tool/goroutine_amd64.s", "utils.go"],
 [("filter switch", "mock.go:buildHook"), ("goid", "internal/tool/goroutine.go:GetGoroutineID")],
 [("filterGoroutine, gId", "filter kind and goroutine", "mock.go:MockBuilder")],
 ["results of calls per goroutine", "GetGoroutineId against the runtime's own stack header"])

prop("C08", "Calling the original behaves exactly like the unmocked target",
 "While a mock is applied, calling its origin handle (from inside or outside the hook, once or many times, nested, recursively, from several goroutines, with changed arguments, with or without the receiver as the handle declares), and every call that falls through to the original, has the effects and results the target would have without that mock (those of the enclosing mock, where it hides one) on exactly the arguments of that call - for a handle without receiver, the receiver of the mocked call in progress on that goroutine. It never changes the arguments other parts of the same call see, calls the target makes to itself go through the mock, and a call already past the mock when it is undone, or a handle kept after it, still runs the original.",
 ["programs", "histories", "schedules"],
 "every combination of handle form, call position, nesting, argument change, lifecycle operation during the call and interleaving of calling goroutines",
 "tests call an origin handle in a few fixed positions from one goroutine",
 ["mock.go", "internal/monkey/patch.go", "internal/monkey/fn/inject.go"],
 [("origin handle", "mock.go:buildProxy"), ("relocated prologue", "internal/monkey/patch.go:PatchValue")],
 [("proxy", "callable copy of the original entry", "mock.go:Mocker")],
 ["results, side effects and received arguments"])

prop("C09", "A variable mock sets exactly that variable and restores its old value",
 "MockValue(&v).To(x) makes v equal x (nil meaning v's zero value) until undone and UnPatch, UnPatchAll or the end of its scope gives v the value it had when MockValue was called, bit for bit, for variables of every kind including interfaces, nil values, aggregates, struct fields, array elements and functions; no other variable ever changes. To on an applied mock makes v equal the new value, Patch after UnPatch applies the last accepted value again, and repeating Patch or UnPatch changes nothing.",
 ["inputs", "histories"],
 "every variable type, old/new value pair and sequence of To/Patch/UnPatch/assignment",
 "tests mock an int, a string, a function and a nil interface once each",
 ["mock_var.go"],
 [("set/restore", "mock_var.go:Patch/UnPatch/To")],
 [("origin", "saved value", "mock_var.go:MockerVar")],
 ["the variable and its neighbours in memory"])

prop("C10", "Mocking keeps every argument and result intact for every signature",
 "For a target of any signature - any number and mix of integer, float, string, slice, interface, pointer, struct, array, function, complex, zero-size and large-by-value parameters and results, variadic or not, function or value- or pointer-receiver method - a call made while it is mocked delivers every argument bit-for-bit to the hook, the conditions, the origin handle and the original, and every result bit-for-bit back to the caller. This holds for direct calls, calls through function values, method values, method expressions and interfaces.",
 ["inputs", "programs"],
 "every signature shape up to the bound over a basis of types that covers each register and stack passing class, by every call path",
 "tests use a few signatures with small argument lists that fit in registers",
 ["mock.go", "mock_condition.go", "internal/monkey/patch.go", "internal/monkey/inst/inst_amd64.go", "internal/tool/call.go"],
 [("entry branch keeps all argument registers", "internal/monkey/inst/inst_amd64.go:BranchInto/BranchTo"), ("reflect adapter", "mock.go:buildHook")],
 (), ["arguments and results at caller, hook, condition, origin"])

prop("C11", "GetMethod finds the method or function field that name denotes",
 "For an instance of any type, GetMethod returns a function that can be mocked and is the very method a call instance.name(...) runs: value- or pointer-receiver, exported or not, of a private type, promoted from embedded structs, pointers or interfaces at any depth (resolved to the embedded value that really provides it), or the function held by a field of that name. If the instance is nil or has neither, it panics; it never returns a different method. (An unexported method whose signature type the linker dropped from the program, because nothing else uses it, may be refused with a panic.)",
 ["inputs", "programs"],
 "every type shape built from value/pointer receivers, embedding depth and kind, interface embedding, function fields and exported/unexported names, for unambiguous (unshadowed) names",
 "tests resolve a dozen hand-written types",
 ["utils.go", "internal/unsafereflect/type.go"],
 [("resolution order", "utils.go:GetMethod/getNestedMethod/getFieldMethod/unsafeMethodByName"), ("method tables", "internal/unsafereflect/type.go")],
 (), ["identity of the function found", "effect of mocking it"])

prop("C12", "Applying and undoing a mock rewrites only the target's entry, byte-exactly",
 "While a mock is applied only the instructions at the target's own entry differ from the unmocked program, wherever the function lies relative to page boundaries and however its first instructions are laid out; the replaced bytes are whole instructions of that function, and the original run through the mock executes all of them. After it is undone every byte is restored, all memory is executable again and not writable, repeated mocking accumulates no memory mappings beyond the next garbage collections, and a function whose code ends before the replaced bytes do is refused (unless the unsafe option is given) without being touched.",
 ["inputs", "histories"],
 "every entry offset within and across pages, every layout of leading instruction lengths, every function length around the limit",
 "tests patch a few functions at whatever address the linker chose",
 ["internal/monkey/patch.go", "internal/monkey/mem/write.go", "internal/monkey/mem/write_linux.go", "internal/monkey/mem/write_linux_amd64.s", "internal/monkey/inst/disasm_amd64.go", "internal/monkey/common/page.go", "internal/monkey/fn/inject.go"],
 [("cut point", "internal/monkey/inst/disasm_amd64.go:Disassemble"), ("page-wise write", "internal/monkey/mem/write.go:WriteWithSTW"), ("restore", "internal/monkey/patch.go:Unpatch")],
 (), ["bytes of the text segment", "/proc/self/maps", "behaviour of mock and original"])

prop("C13", "The branch code mockey writes jumps to exactly the intended address",
 "For every 64-bit address, the branch instructions mockey emits transfer control to that address (or to the code the function value at that address points to) with no effect on any register or memory other than the ABI's scratch/closure-context registers, on amd64 and arm64. The callee address computed from a relative call instruction is exact for every call address and signed displacement, and the set of helper calls ignored when looking for a generic function's implementation contains no address outside those helpers.",
 ["inputs"],
 "every address up to bit-pattern equivalence (each 16-bit chunk enumerated completely), every displacement class, both architectures",
 "tests encode a couple of addresses, only those of the build architecture",
 ["internal/monkey/inst/inst_amd64.go", "internal/monkey/inst/inst_arm64.go", "internal/monkey/inst/disasm_amd64.go", "internal/monkey/inst/disasm_arm64.go", "internal/monkey/inst/generic_extra.go"],
 [("encoders", "internal/monkey/inst/inst_*.go"), ("call target", "internal/monkey/inst/disasm_*.go:calcAddr")],
 (), ["emitted bytes executed by an independent instruction interpreter (and, on amd64, by the CPU)"])

prop("C14", "Generic mocks hit exactly their instantiation shape and report its types",
 "Mocking an instantiation of a generic function or method with the generic option intercepts every call of that instantiation (and only calls of instantiations sharing its compiled code), for every parameter and result shape including large ones copied by runtime helpers and code built with the race detector; the hook gets the original arguments, and Times, origin, conditions, undo and re-mock checks behave as for ordinary functions. The generic-info argument identifies the calling instantiation: for functions and methods that use their type parameters it is equal exactly for calls of the same instantiation, and for a function that uses its type parameters as they are its n-th used parameter type is the one of the call. A further mock of code that a generic mock already replaces (the same instantiation, however its function value was obtained, or one sharing its code) is refused in the same scope.",
 ["inputs", "programs", "configurations"],
 "every instantiation over the type basis and every declaration form (function, value/pointer method, one to three type parameters), with and without -race",
 "tests use a few instantiations",
 ["mock.go", "mock_generics.go", "internal/monkey/patch.go", "internal/monkey/inst/disasm_amd64.go", "internal/monkey/inst/generic_extra.go", "internal/monkey/inst/generic_extra_race.go", "internal/unsafereflect/type.go"],
 [("implementation lookup", "internal/monkey/inst/disasm_amd64.go:GetGenericJumpAddr"), ("type dictionary access", "mock_generics.go:UsedParamType")],
 (), ["results of calls per instantiation", "types reported to the hook"])

prop("C15", "Concurrent calls and operations on one mock are safe and atomic",
 "When goroutines call a mocked target while others call Patch, UnPatch, Times or MockTimes on that mock or reconfigure its rules (When, To, Return), each call completes with either the original's outcome or the outcome of one rule set that was in force at some moment of the call, never a mixture, panic, deadlock or lost call (provided the target's entry instructions are exchanged atomically, as with the stop-the-world option). Concurrent Patch/UnPatch operations on one mock take effect one at a time, so that when all are done the target, the mock and its scope are in the state some order of them gives.",
 ["schedules"],
 "every interleaving (up to the preemption bound) of two or three goroutines performing one to three operations each",
 "tests run one schedule",
 ["mock.go", "mock_condition.go", "mock_sequence.go", "mock_var.go", "convey.go"],
 [("mocker lock", "mock.go:Patch/UnPatch"), ("atomic counters", "mock.go:access/mock")],
 (), ["results of the calls, state after the last operation"],
 "statement-level scheduling points and synchronisation stand-ins, inserted in a build overlay (nothing in /repo)")

prop("C16", "Mocking a target leaves every other function and variable alone",
 "While mocks are applied, undone, rejected or reconfigured, calls of every function, method, generic instantiation or closure other than the mocked targets, including ones adjacent in memory, sharing the target's name, receiver type or embedded implementation, and those mockey itself uses, behave as if mockey were not there. Mocks of different targets do not influence each other's rules, counters, origin handles or undo.",
 ["histories", "programs"],
 "every set and order of mocks over a family of related targets",
 "tests look only at the target they mock",
 ["mock.go", "mock_condition.go", "convey.go", "internal/monkey/patch.go"],
 [("per-mocker state", "mock.go:Mocker"), ("entry-only patching", "internal/monkey/patch.go")],
 (), ["behaviour of bystander functions; bytes of the text segment"])

prop("C17", "A re-mock report names the user's line that applied the earlier mock",
 "When mocking is refused because the target is already mocked in the current scope, the panic message names the source file and line, outside mockey itself, of the statement that last applied the earlier mock (Build, Patch, To or a reconfiguration), from whatever kind of function - plain, method, closure, package-level initialiser, deferred call, generic - it was made and however deep the stack.",
 ["programs", "histories"],
 "every kind of calling function and every operation that can apply a mock",
 "the tests do not look at the reported position",
 ["internal/tool/caller.go", "convey.go", "mock.go", "mock_var.go"],
 [("caller search", "internal/tool/caller.go:OuterCaller"), ("report", "convey.go:addToGlobal")],
 [("outerCaller", "position that applied the mock", "mock.go:Mocker")],
 ["text of the panic"])

prop("C18", "UnPatchAll undoes all mocks of the current scope and no others",
 "UnPatchAll undoes every mock applied in the innermost open PatchConvey scope (or, outside any scope, every mock applied outside scopes), leaving each target and variable as it was before those mocks, with their counters at 0, and does not touch mocks of other scopes. Afterwards the same targets can be mocked again in that scope, undone mocks can be re-applied, and calling it with nothing applied does nothing.",
 ["histories", "programs"],
 "every program of nested scopes and mock operations with UnPatchAll at every point",
 "tests call it at two or three fixed points",
 ["convey.go", "mock.go", "mock_var.go"],
 [("UnPatchAll", "convey.go:UnPatchAll")],
 [("gMocker", "stack of scopes", "convey.go")],
 ["results of calling the targets", "values of the variables"])

prop("C19", "Mockey behaves the same in every supported build and run configuration",
 "The guarantees about mocking, undoing, origin calls, counters, sequences, filters, scopes and generics hold identically with the race detector, with debug output enabled, with the stop-the-world build option, and under garbage collection between and during operations. Debug output is printed only when enabled, and the compiler-flag warning is printed exactly when inlining is on and the check has not been switched off.",
 ["configurations", "histories"],
 "the product of build options (-race, stop-the-world tag, inlining flags) and environment switches, each with the whole bounded history suite",
 "the test suite runs in one configuration",
 ["internal/tool/debug.go", "internal/tool/check_gcflags.go", "internal/tool/check_gcflags_amd64.go", "internal/monkey/common/runtime_link/stw/stw_ctx.go", "internal/monkey/common/runtime_link/stw/stw_disable.go", "internal/monkey/inst/generic_extra_race.go"],
 [("debug switch", "internal/tool/debug.go"), ("flag check", "internal/tool/check_gcflags.go"), ("stop the world", "internal/monkey/common/runtime_link/stw")],
 (), ["outcomes of the history suite; standard output and error"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

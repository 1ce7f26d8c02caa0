"""What each check runs."""
import shutil

from check import Build, Job, NLALL, NL, goenv

W = Build("w")
KF = Build("kf")
BI = Build("bi")  # uses internal functions
BA = Build("ba", overlay="arm")

# schedules: mockey instrumented with scheduling points (without them if that does not compile), and with the race detector
S = Build("s", overlay="sched", fallback=Build("s", name="s-plain"))
SR = Build("s", name="sr", overlay="sched", flags=["-race"])

# generated type shapes: depth of embedding, depth up to which every provider type is used
GM = Build("gm", overlay="shapes31")
GMT = Build("gm", name="gm-thorough", overlay="shapes32")

# generated generic functions
GE = Build("ge", overlay="generics0")
GET = Build("ge", name="ge-thorough", overlay="generics1")
GER = Build("ge", name="ge-race", overlay="generics0", flags=["-race"])

CL = Build("cl")

# other configurations
STW = ["-tags", "mockey_stw", "-ldflags=-checklinkname=0"]
WR = Build("w", name="w-race", flags=["-race"])
WS = Build("w", name="w-stw", flags=STW)
WRS = Build("w", name="w-race-stw", flags=["-race"] + STW)
GES = Build("ge", name="ge-stw", overlay="generics0", flags=STW)
GMS = Build("gm", name="gm-stw", overlay="shapes31", flags=STW)
CLS = Build("cl", name="cl-stw", flags=STW)
CFG = Build("cfg")

# the other Go version that mockey supports and is here
W24 = Build("w", name="w-124", go="go1.24")
WS24 = Build("w", name="w-stw-124", flags=STW, go="go1.24")
GE24 = Build("ge", name="ge-124", overlay="generics0", go="go1.24")
GM24 = Build("gm", name="gm-124", overlay="shapes31", go="go1.24")
CL24 = Build("cl", name="cl-124", go="go1.24")


def cf(name, gc, flags=()):
    """The program whose output is looked at: mockey (and the probe for inlining) with the flags gc, the rest as always."""
    p = "github.com/bytedance/mockey/"
    return Build("cf", name="cf-" + name, gc="-gcflags=%s...=%s" % (p, gc),
                 flags=["-gcflags=%szzverif/...=-l -N" % p, "-gcflags=%szzverif/probe=%s" % (p, gc)] + list(flags))


CF = [cf("nl", "-N -l"), cf("nl-stw", "-N -l", STW), cf("l", "-l"), cf("n", "-N"), cf("none", "")]
CFT = CF + [cf("nl-race", "-N -l", ["-race"]), cf("none-stw", "", STW), cf("none-race", "", ["-race"])]
ONE = dict(GOMAXPROCS="1")
RACE = dict(GOMAXPROCS="1", GORACE="halt_on_error=1 exitcode=66")


def sched(prop, w=1.0):
    return [Job(S, prop, env=ONE, weight=w), Job(SR, prop, env=RACE, weight=w / 4, optional=True)]


SCHED = ["schedules: scheduling points are before every statement of mockey's root, tool, monkey, fn and common packages that may touch shared memory, inside split read-modify-write statements, at every lock and atomic operation, and in hooks, conditions and originals",
         "the target's entry is exchanged in one step (as with stop-the-world)",
         "race build: only programs whose accesses are not ordered by the code exchange"]

BASE = ["mock targets are compiled with -l -N as mockey requires; targets whose original is run have no stack check in their entry (known findings KF-1, KF-2)",
        "one goroutine operates mockey at a time unless the check says otherwise",
        "behaviour outside the stated bounds (longer histories, more mocks, deeper nesting) is not explored"]


def simple(prop, **kw):
    return dict(dict(jobs=lambda tier: [Job(W, prop)], assumptions=BASE), **kw)


def mixed(prop, **kw):
    return dict(dict(jobs=lambda tier: [Job(W, prop, weight=2.0)] + sched(prop), assumptions=BASE + SCHED), **kw)


def configs(tier):
    dbg = dict(MOCKEY_DEBUG="true")
    gor = dict(GORACE=RACE["GORACE"])
    js = [
        Job(CFG, "C19", name="output", children=CFT if tier == "thorough" else CF, weight=1.0),
        Job(WS, "C19", tier="mini", name="stw,debug,busy output", env=dict(dbg, ZZ_STDOUT="pipe"), weight=1.5),
        Job(GES, "C19", tier="mini", name="generics,stw,debug", env=dbg, weight=0.5),
        Job(GMS, "C19", tier="mini", name="types,stw,debug", env=dbg, weight=0.3),
        Job(CLS, "C19", tier="mini", name="callers,stw,debug", env=dbg, weight=0.3),
        Job(S, "C19", tier="mini", name="schedules,debug", env=dict(dbg, **ONE), weight=0.5),
        Job(WR, "C19", tier="mini", name="race", env=gor, weight=1.5, optional=True),
        Job(W, "C19", tier="mini", name="gc", env=dict(ZZ_GC="1", GOMAXPROCS="1"), weight=2.0),
    ]
    if shutil.which("go1.24", path=goenv()["PATH"]):
        js += [
            Job(WS24, "C19", tier="mini", name="go 1.24,stw", weight=1.0),
            Job(GE24, "C19", tier="mini", name="generics,go 1.24", weight=0.5),
        ]
        if tier == "thorough":
            js += [
                Job(W24, "C19", tier="quick", name="go 1.24", weight=2.0),
                Job(GM24, "C19", tier="mini", name="types,go 1.24", weight=0.3),
                Job(CL24, "C19", tier="mini", name="callers,go 1.24", weight=0.3),
            ]
    if tier == "thorough":
        js += [
            Job(WS, "C19", tier="quick", name="stw,8 processors", env=dict(GOMAXPROCS="8"), weight=2.0),
            Job(W, "C19", tier="quick", name="debug,1 processor", env=dict(dbg, GOMAXPROCS="1"), weight=2.0),
            Job(WS, "C19", tier="mini", name="gc,stw", env=dict(ZZ_GC="1", GOMAXPROCS="1"), weight=2.0),
            Job(WRS, "C19", tier="mini", name="race,stw,debug", env=dict(dbg, GOMAXPROCS="8", **gor), weight=2.0, optional=True),
            Job(WRS, "C19", tier="mini", name="race,stw,busy output", env=dict(dbg, ZZ_STDOUT="pipe", **gor), weight=2.0, optional=True),
        ]
    return js


CHECKS = {
    "C01": simple("C01"),
    "C02": simple("C02"),
    "C03": simple("C03", known=["KF-3"]),
    "C04": simple("C04"),
    "C05": mixed("C05"),
    "C06": mixed("C06"),
    "C07": mixed("C07"),
    "C08": mixed("C08", known=["KF-1", "KF-2", "KF-6"]),
    "C09": simple("C09"),
    "C10": simple("C10", known=["KF-4"]),
    "C11": dict(jobs=lambda tier: [Job(GMT if tier == "thorough" else GM, "C11")], known=["KF-5"],
                assumptions=["names that are shadowed or ambiguous on the instance are left out (the embedded method is found first, as the existing tests require)",
                             "an embedded interface is not nil (there is no method to find)",
                             "the signatures of unexported methods are used as types elsewhere in the program (the linker drops them otherwise and GetMethod panics)"]),
    "C12": simple("C12"),
    "C13": dict(jobs=lambda tier: [Job(W, "C13", weight=3), Job(BI, "C13", optional=True), Job(BA, "C13", optional=True)],
                assumptions=["a 47-bit user address space: higher target addresses are only explored on the machine model",
                             "arm64 code is executed on a machine model of the instructions mockey uses, not on hardware"]),
    "C14": dict(jobs=lambda tier: [Job(GET if tier == "thorough" else GE, "C14", weight=2.0), Job(W, "C14", weight=1.0),
                                   Job(GER, "C14", tier=None if tier == "thorough" else "mini", env=dict(GORACE=RACE["GORACE"]), optional=True)], known=["KF-7", "KF-8"],
                assumptions=["the stack does not have to grow in a call of an original (known findings KF-1, KF-2 of C08)",
                             "generic info is only compared for functions that use their type parameters (dictionaries of others are empty)",
                             "used parameter types are those of functions (not methods) up to the first use of a composite type",
                             "a method with a value receiver is mocked with hooks as a method of the value type (known finding KF-7), as one of the pointer type with Return only"]),
    "C15": dict(jobs=lambda tier: sched("C15"), assumptions=BASE + SCHED),
    "C16": simple("C16"),
    "C17": dict(jobs=lambda tier: [Job(CL, "C17")],
                assumptions=["the operation is a statement of a Go function (not the operand of a go statement, a deferred mockey method during a panic or a reflect call)",
                             "user code is compiled with -l -N as mockey requires"]),
    "C18": simple("C18"),
    "C19": dict(jobs=configs, limit=480,
                assumptions=["the supported configurations: all combinations of -race, stop-the-world build tag, debug output, garbage collections at every point between operations and in hooks, 1 to 8 processors (quick: the pairs)",
                             "a program of which mockey itself is compiled with inlining only has its output looked at",
                             "Go 1.23 (all of the above) and Go 1.24 (without -race), linux/amd64; mockey at this commit does not build or pass its tests with Go 1.25 and later"] + BASE),
}


def all_builds():
    return [W, KF, BI, BA, S, SR, GM, GE, GER, CL, WR, WS, GES, GMS, CLS, CFG] + CF + ([WS24, GE24] if shutil.which("go1.24", path=goenv()["PATH"]) else [])

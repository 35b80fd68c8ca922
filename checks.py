"""which design checks and conformance runs decide which property"""

def pure(mode, n, inp=None, runs=1):
    d = dict(bin="p_pure", mode=mode, n=n, spec="TracePure", chunks=7, runs=runs)
    if inp:
        d["inp"] = inp
    return d

CHECKS = {}
CHECKS["C02"] = dict(
    quick=dict(design=[dict(module="MCTruth", out="cases")], traces=[pure("truth", 6000, "cases")]),
    thorough=dict(design=[dict(module="MCTruth", cfg="MCTruthBig.cfg", out="cases")], traces=[pure("truth", 40000, "cases"), pure("truth", 40000, None, 4)]),
    need=["tv", "dedGoal", "exp", "tvx", "cnt"])
CHECKS["C21"] = dict(
    quick=dict(design=[dict(module="MCTerms", out="cases")], traces=[pure("terms", 3000, "cases")]),
    thorough=dict(design=[dict(module="MCTerms", out="cases")], traces=[pure("terms", 12000, "cases"), pure("terms", 12000, None, 5)]),
    need=["subterms", "unique", "complexity", "eq", "count", "decodeop", "encodeop"])
CHECKS["C05"] = dict(
    quick=dict(design=[dict(module="MCUnify", out="cases")], traces=[pure("unify", 15000, "cases")]),
    thorough=dict(design=[dict(module="MCUnify", cfg="MCUnifyBig.cfg", out="cases")], traces=[pure("unify", 40000, "cases"), pure("unify", 60000, None, 5)]),
    need=["unify"])
CHECKS["C03"] = dict(
    quick=dict(design=[dict(module="MCRules1", out="cases")], traces=[pure("rules1", 8000, "cases")]),
    thorough=dict(design=[dict(module="MCRules1", out="cases")], traces=[pure("rules1", 30000, "cases"), pure("rules1", 30000, None, 5)]),
    need=["rules1", "inf1"])
CHECKS["C04"] = dict(
    quick=dict(design=[dict(module="MCRules", out="cases")], traces=[pure("rules2", 12000, "cases")]),
    thorough=dict(design=[dict(module="MCRules", cfg="MCRulesBig.cfg", out="cases")], traces=[pure("rules2", 40000, "cases"), pure("rules2", 40000, None, 5)]),
    need=["rules2", "inf2"])

# ---------------------------------------------------------------- declarative reasoner
def decl(asp, mode, n, inp=None, runs=1, chunks=4, seed0=0):
    d = dict(bin="p_decl", mode=mode, n=n, spec="TraceDecl", chunks=chunks, runs=runs, tlc_env={"ASPECT": asp}, seed0=seed0)
    if inp:
        d["inp"] = inp
    return d

MEM = dict(module="MCDecl", grep="mem.json")
MEMBIG = dict(module="MCDecl", cfg="MCDeclBig.cfg")
REA = dict(module="MCReason", cfg="MCReason.cfg")
REABIG = dict(module="MCReason", cfg="MCReasonBig.cfg", timeout=3000)
REASIM = dict(module="MCReason", cfg="MCReasonSim.cfg", sim=(4, 13), grep="rea.json")
REASIMBIG = dict(module="MCReason", cfg="MCReasonSim.cfg", sim=(200, 13), grep="rea.json")

CHECKS["C01"] = dict(
    quick=dict(design=[MEM, REASIM], traces=[pure("stamp", 3000), decl("C01", "pool", 150), decl("C01", "storescript", 60, "mem.json"), decl("C01", "cyclescript", 25, "rea.json"), decl("C01", "store", 100), decl("C01", "cycles", 60, runs=5)]),
    thorough=dict(design=[MEM, MEMBIG, REABIG, REASIMBIG], traces=[pure("stamp", 20000), decl("C01", "pool", 400, runs=4), decl("C01", "storescript", 1000, "mem.json"), decl("C01", "cyclescript", 600, "rea.json", chunks=12), decl("C01", "store", 250, runs=10), decl("C01", "cycles", 80, runs=40), decl("C01", "long", 700, runs=6)]),
    need=["merge", "overlap", "input", "add", "cycle", "derive"])
CHECKS["C06"] = dict(
    quick=dict(design=[REA, REASIM], traces=[decl("C06", "cyclescript", 40, "rea.json"), decl("C06", "qa", 70, runs=10), decl("C06", "cycles", 60, runs=3)]),
    thorough=dict(design=[REABIG, REASIMBIG], traces=[decl("C06", "cyclescript", 600, "rea.json", chunks=12), decl("C06", "qa", 90, runs=50), decl("C06", "cycles", 80, runs=30)]),
    need=["input", "cycle", "derive"])
CHECKS["C07"] = dict(
    quick=dict(design=[MEM], traces=[decl("C07", "storescript", 150, "mem.json"), decl("C07", "store", 110, runs=7), decl("C07", "pool", 100), decl("C07", "cycles", 50, runs=3), pure("usage", 1500)]),
    thorough=dict(design=[MEM, MEMBIG], traces=[decl("C07", "storescript", 1000, "mem.json", chunks=8), decl("C07", "store", 300, runs=30), decl("C07", "pool", 300, runs=4), decl("C07", "cycles", 80, runs=20), pure("usage", 20000)]),
    need=["add", "input", "used"])
CHECKS["C08"] = dict(
    quick=dict(design=[MEM], traces=[decl("C08", "storescript", 60, "mem.json"), decl("C08", "store", 110, runs=5), decl("C08", "limit", 150), decl("C08", "long", 360, runs=7), decl("C08", "cycles", 50, runs=3), decl("C08", "requests", 90, runs=3), decl("C08", "states", 24, runs=4), decl("C08", "many", 1, runs=2)]),
    thorough=dict(design=[MEM, MEMBIG], traces=[decl("C08", "storescript", 1000, "mem.json", chunks=8), decl("C08", "store", 300, runs=20), decl("C08", "limit", 1500, chunks=4), decl("C08", "long", 1200, runs=20), decl("C08", "cycles", 80, runs=20), decl("C08", "requests", 150, runs=20), decl("C08", "states", 60, runs=20), decl("C08", "many", 2, runs=4)]),
    need=["add", "limit", "cycle"])
CHECKS["C09"] = dict(
    quick=dict(design=[REA, REASIM], traces=[decl("C09", "cyclescript", 40, "rea.json"), decl("C09", "cycles", 70, runs=10), decl("C09", "long", 240, runs=4), decl("C09", "states", 24, runs=6), decl("C09", "wide", 3, runs=1)]),
    thorough=dict(design=[REABIG, REASIMBIG], traces=[decl("C09", "cyclescript", 600, "rea.json", chunks=12), decl("C09", "cycles", 90, runs=60), decl("C09", "long", 1200, runs=14), decl("C09", "states", 60, runs=20), decl("C09", "wide", 4, runs=4)]),
    need=["cycle"])
CHECKS["C10"] = dict(
    quick=dict(design=[REA, REASIM], traces=[decl("C10", "cyclescript", 40, "rea.json"), decl("C10", "cycles", 70, runs=12), decl("C10", "store", 80, runs=2), decl("C10", "requests", 90, runs=8)]),
    thorough=dict(design=[REABIG, REASIMBIG], traces=[decl("C10", "cyclescript", 600, "rea.json", chunks=12), decl("C10", "cycles", 90, runs=70), decl("C10", "store", 250, runs=10), decl("C10", "requests", 150, runs=60)]),
    need=["cycle", "derive", "input"])

# ---------------------------------------------------------------- procedural reasoner
def proc(asp, mode, n, inp=None, runs=1, chunks=4, seed0=0):
    d = dict(bin="p_proc", mode=mode, n=n, spec="TraceProc", chunks=chunks, runs=runs, tlc_env={"ASPECT": asp}, seed0=seed0)
    if inp:
        d["inp"] = inp
    return d

PRO = dict(module="MCProc", cfg="MCProc.cfg")
PROBIG = dict(module="MCProc", cfg="MCProcBig.cfg", timeout=3000)
PROSIM = dict(module="MCProc", cfg="MCProcSim.cfg", sim=(12, 29), grep="proc.json")
PROSIMBIG = dict(module="MCProc", cfg="MCProcSim.cfg", sim=(300, 29), grep="proc.json")
def procs(asp, quick, thorough, need):
    CHECKS[asp] = dict(
        quick=dict(design=[PRO, PROSIM], traces=[proc(asp, "script", 60, "proc.json")] + quick),
        thorough=dict(design=[PROBIG, PROSIMBIG], traces=[proc(asp, "script", 1500, "proc.json", chunks=14)] + thorough),
        need=need)
procs("C11", [proc("C11", "rules", 1200), proc("C11", "percept", 60, runs=2), proc("C11", "run", 80, runs=12)],
             [proc("C11", "rules", 8000, chunks=7), proc("C11", "percept", 300, runs=7), proc("C11", "run", 120, runs=100)],
             ["step0", "store", "percept", "introvar", "interval"])
procs("C12", [proc("C12", "rules", 300), proc("C12", "plans", 60, runs=4, chunks=2), proc("C12", "run", 80, runs=21)],
             [proc("C12", "rules", 2000), proc("C12", "plans", 120, runs=40), proc("C12", "run", 120, runs=120)],
             ["step0", "step1"])
procs("C13", [proc("C13", "babble", 10, runs=2), proc("C13", "plans", 60, runs=7, chunks=2), proc("C13", "run", 80, runs=21)],
             [proc("C13", "babble", 40, runs=4), proc("C13", "plans", 120, runs=60), proc("C13", "run", 120, runs=120)],
             ["step1", "babble", "query"])
procs("C14", [proc("C14", "rules", 2500, chunks=7), proc("C14", "run", 80, runs=14)],
             [proc("C14", "rules", 20000, chunks=14), proc("C14", "run", 120, runs=100)],
             ["goalbelief", "detach", "derive", "query"])
procs("C15", [proc("C15", "goalmem", 160, runs=14), proc("C15", "run", 80, runs=7)],
             [proc("C15", "goalmem", 200, runs=100), proc("C15", "run", 120, runs=50)],
             ["addgoal", "glimit", "occurred", "sample", "query", "step1"])

# ---------------------------------------------------------------- text
def text(mode, n, inp=None, runs=1, chunks=4):
    d = dict(bin="p_text", mode=mode, n=n, spec="TraceText", chunks=chunks, runs=runs)
    if inp:
        d["inp"] = inp
    return d
CHECKS["C16"] = dict(
    quick=dict(design=[dict(module="MCText", out="texts")], traces=[text("cases", 6000, "texts"), text("gen", 700, runs=10), text("odd", 2000, runs=4)]),
    thorough=dict(design=[dict(module="MCText", cfg="MCTextBig.cfg", out="texts", timeout=1500)], traces=[text("cases", 50000, "texts", chunks=7), text("gen", 2000, runs=100), text("odd", 6000, runs=50)]),
    need=["parse", "print", "prints"])

# ---------------------------------------------------------------- facade, sessions, operations
def shell(mode, n, inp=None, runs=1, chunks=3):
    d = dict(bin="p_shell", mode=mode, n=n, spec="TraceShell", chunks=chunks, runs=runs)
    if inp:
        d["inp"] = inp
    return d
SHL = dict(module="MCShell")
SHLBIG = dict(module="MCShell", cfg="MCShellBig.cfg", timeout=1500)
SHLSIM = dict(module="MCShell", cfg="MCShellSim.cfg", sim=(40, 15), grep="shell.json")
SHLSIMBIG = dict(module="MCShell", cfg="MCShellSim.cfg", sim=(400, 15), grep="shell.json")
CHECKS["C17"] = dict(
    quick=dict(design=[SHL, SHLSIM], traces=[shell("script", 150, "shell.json"), shell("lines", 600, runs=10)]),
    thorough=dict(design=[SHLBIG, SHLSIMBIG], traces=[shell("script", 3000, "shell.json", chunks=14), shell("lines", 2400, runs=100)]),
    need=["line", "inputn"])
CHECKS["C22"] = dict(
    quick=dict(design=[SHL], traces=[shell("session", 60, runs=10)]),
    thorough=dict(design=[SHLBIG], traces=[shell("session", 400, runs=40)]),
    need=["session"])
CHECKS["C23"] = dict(
    quick=dict(design=[dict(module="MCOps", out="opcases")], traces=[shell("opcases", 400, "opcases"), shell("ops", 400, runs=10)]),
    thorough=dict(design=[dict(module="MCOps", out="opcases")], traces=[shell("opcases", 100000, "opcases", chunks=7), shell("ops", 2000, runs=60)]),
    need=["call", "opinfo"])

# ---------------------------------------------------------------- threads and locks
def lock(mode, n, runs=1, chunks=2, seed0=0):
    return dict(bin="p_lock", mode=mode, n=n, spec="TraceLocks", chunks=chunks, runs=runs, seed0=seed0)
CHECKS["C18"] = dict(
    quick=dict(design=[dict(module="MCWorkers"), dict(module="MCWorkers", cfg="MCWorkers_inverted.cfg"), dict(module="MCWorkers", cfg="MCWorkers_recursive.cfg")],
               traces=[lock("env2", 0), lock("env1", 1, runs=2), lock("chaos", 600, runs=10, seed0=10)]),
    thorough=dict(design=[dict(module="MCWorkers", cfg="MCWorkersBig.cfg", timeout=1500), dict(module="MCWorkers", cfg="MCWorkers_inverted.cfg"), dict(module="MCWorkers", cfg="MCWorkers_recursive.cfg")],
                  traces=[lock("env2", 0, runs=3), lock("env2", 1, runs=3, seed0=5), lock("env1", 1, runs=10), lock("chaos", 2400, runs=60, seed0=10)]),
    need=["probe", "locks", "env"])

# ---------------------------------------------------------------- server: one run at a time (fixed port), explanations are searched depth first
def server(mode, n, runs=1, seed0=0):
    return dict(bin="p_server", mode=mode, n=n, spec="TraceServer", runs=runs, seed0=seed0, chunks=4, jvm=["-Dtlc2.tool.queue.IStateQueue=StateDeque"], undecided=True, tlc_timeout=100)
CHECKS["C19"] = dict(
    quick=dict(design=[dict(module="MCServer"), dict(module="MCServer", cfg="MCServerLive.cfg")], traces=[server("talk", 24, runs=10), server("answers", 24, runs=3, seed0=50)], par_record=1),
    thorough=dict(design=[dict(module="MCServer", cfg="MCServerBig.cfg", timeout=1500), dict(module="MCServer", cfg="MCServerLive.cfg")], traces=[server("talk", 48, runs=60), server("answers", 48, runs=15, seed0=100)], par_record=1),
    need=["connect", "send", "got", "leave", "quiet"])

# ---------------------------------------------------------------- environments
def env(mode, n, spec, runs=1, seed0=0, chunks=1):
    return dict(bin="p_env", mode=mode, n=n, spec=spec, runs=runs, seed0=seed0, chunks=chunks)
CHECKS["C20"] = dict(
    quick=dict(design=[dict(module="MCPong")], traces=[env("steps", 12000, "TracePong", chunks=4), env("pong", 1, "TracePong", runs=3)]),
    thorough=dict(design=[dict(module="MCPong", cfg="MCPongBig.cfg", timeout=1500)], traces=[env("steps", 60000, "TracePong", runs=5, chunks=4), env("pong", 2, "TracePong", runs=12, chunks=2)]),
    need=["make", "step", "it", "end"])
CHECKS["C24"] = dict(
    quick=dict(design=[dict(module="MCTicTac")], traces=[env("tictac", 40, "TraceTicTac", runs=6)]),
    thorough=dict(design=[dict(module="MCTicTac")], traces=[env("tictac", 120, "TraceTicTac", runs=24)]),
    need=["stim", "call", "state", "winner"])

# ---------------------------------------------------------------- vision and network helpers
VIS = dict(module="MCVision")
VISBIG = dict(module="MCVision", cfg="MCVisionBig.cfg", timeout=1500)
def vision(mode, n, runs=1, chunks=3):
    return dict(bin="p_vision", mode=mode, n=n, spec="TraceVision", runs=runs, chunks=chunks)
CHECKS["C25"] = dict(quick=dict(design=[VIS], traces=[vision("maps", 2500, runs=3)]), thorough=dict(design=[VISBIG], traces=[vision("maps", 20000, runs=8, chunks=4)]), need=["map", "gabor", "limit"])
CHECKS["C26"] = dict(quick=dict(design=[VIS], traces=[vision("real", 900, runs=3), vision("tv", 600, runs=4)]), thorough=dict(design=[VISBIG], traces=[vision("real", 6000, runs=10), vision("tv", 4000, runs=12)]), need=["real", "tv"])
CHECKS["C27"] = dict(quick=dict(design=[VIS], traces=[vision("nets", 4000, runs=2)]), thorough=dict(design=[VISBIG], traces=[vision("nets", 40000, runs=6, chunks=4)]), need=["ad", "neuron", "net", "vec"])

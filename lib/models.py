"""The specification checked on its own (nothing of the code under test is involved).

Each property has invariants in three modules: ShogiMC (the rules against themselves), AlgoMC and AlgoSim
(yasai's algorithms against the rules), MachineMC (objects, calls); C20 also in LazyMC (threads, tables)."""
import concurrent.futures as cf, os
from core import *

FULL = "{1,2,3,4,5,6,7,9,10,11,12,13,14}"


def mc_cfg(inv, nf=3, nr=3, extra=1, bag=FULL, hand="{1}", kings="{{1,2}}", depth=0, sim=None, prop=()):
    s = f"""SPECIFICATION {'SimSpec' if sim else 'Spec'}
CONSTANTS
  NF = {nf}
  NR = {nr}
  ZONE = {2 if nr < 9 else 3}
  EXTRA = {extra}
  BAG = {bag}
  HANDBAG = {hand}
  KINGSETS = {kings}
  DEPTH = {depth}
"""
    if sim:
        s += f"  PIECES = {sim[0]}\n  PLIES = {sim[1]}\n"
    return s + "INVARIANTS " + " ".join(inv) + "\nCHECK_DEADLOCK FALSE\n"


def machine_cfg(inv, depth, prop=True):
    return f"""SPECIFICATION Spec
CONSTANTS
  NF = 3
  NR = 3
  ZONE = 2
  MAXOBJ = 2
  MAXDEPTH = {depth}
INVARIANTS {' '.join(inv)}
{'PROPERTY OneAtATime' if prop else ''}
CHECK_DEADLOCK FALSE
"""


def lazy_cfg(threads, calls, objects):
    return f"""SPECIFICATION Spec
CONSTANTS
  THREADS = {threads}
  CALLS = {calls}
  OBJECTS = {objects}
  PARTS = 2
INVARIANTS SeenOK OnceOK NoCircle
PROPERTY Returns
CHECK_DEADLOCK FALSE
"""


def bits_cfg(sqs):
    return f"""SPECIFICATION Spec
CONSTANTS
  NF = 9
  NR = 9
  ZONE = 3
  SQS = {sqs}
INVARIANTS PairOK LanceOK VacantOK StepOK
CHECK_DEADLOCK FALSE
"""


# property -> invariants
RULES = {"C01": "LegalOK PartsOK AttackedOK", "C02": "LegalOK PartsOK", "C03": "LegalOK PartsOK", "C04": "LegalOK PartsOK",
         "C05": "LegalOK PartsOK", "C06": "LegalOK PartsOK", "C07": "AttackedOK KingsOff CheckOK", "C08": "CheckOK AttackedOK",
         "C09": "PreservedOK UndoOK", "C10": "UndoOK", "C17": "SymOK", "C19": "LegalOK CheckOK KingsOff",
         "C22": "PreservedOK"}
ALGO = {"C01": "Moves_", "C02": "Moves_", "C03": "Moves_ Checkers", "C04": "Moves_", "C05": "Moves_", "C06": "Moves_",
        "C07": "Checkers", "C08": "Asks", "C09": "Repr", "C10": "Undo", "C11": "Repr", "C12": "Repr KeyReads", "C13": "KeyReads",
        "C15": "Room", "C16": "Undo Repr", "C18": "Repr", "C19": "Moves_ Asks Checkers Undo Repr", "C21": "Moves_ Undo",
        "C22": "Repr Undo"}
MACHINE = {"C09": "FoldOK", "C10": "BackOK FoldOK", "C11": "FoldOK", "C16": "FoldOK BackOK", "C18": "FoldOK", "C20": "FoldOK",
           "C21": "WalkOK", "C22": "ReachableOK"}
KINGS = {"C19": "{{},{1},{2}}"}


def one(name, module, cfg, tmp, **kw):
    r = tlc(module, cfg, tmp, **kw)
    if r.status != "ok":
        raise ToolError(f"the specification fails on its own: {name}: {r.status} {r.invariant}\n{r.out[-4000:]}")
    return {"stage": "specification", "model": name, "states": r.states or r.generated, "transitions": r.generated}


def walks(name, cfg, seed, num, tmp, depth=200):
    """AlgoSim in one process per core: TLC's random choices are the same in all of its workers."""
    with cf.ThreadPoolExecutor(CPUS) as ex:
        rs = list(ex.map(lambda i: tlc("AlgoSim", cfg, tmp, workers=1, heap="1500m",
                                       extra=("-seed", str(seed * 100 + i), "-simulate", f"num={num}", "-depth", str(depth))),
                         range(CPUS)))
    for r in rs:
        if r.status == "violated" or "Error" in r.out:
            raise ToolError(f"the specification fails on its own: {name}: {r.invariant}\n{r.out[-4000:]}")
    return {"stage": "specification", "model": name, "states": sum(r.generated for r in rs)}


def quick(prop, seed, tmp):
    if prop == "C20":
        yield one("LazyMC 2 threads, 2 calls each, one object", "LazyMC", lazy_cfg("{1,2}", 2, "{1}"), tmp)
    if prop == "C14":
        yield one("Bitboard, squares 7i and 8h", "Bitboard", bits_cfg("{63, 71}"), tmp)
    elif prop in MACHINE:
        yield one("MachineMC 3x3, 2 objects, 3 deep", "MachineMC", machine_cfg(MACHINE[prop].split(), 3), tmp)
    elif prop in ALGO:
        yield one("AlgoMC 3x3, kings and one of pawn, lance, horse, dragon", "AlgoMC",
                  mc_cfg(ALGO[prop].split(), bag="{1,2,13,14}", kings=KINGS.get(prop, "{{1,2}}")), tmp)
    elif prop in RULES:
        yield one("ShogiMC 3x3, kings and one of pawn, bishop", "ShogiMC",
                  mc_cfg(RULES[prop].split(), bag="{1,6}"), tmp)


def thorough(prop, seed, tmp, more=1):
    k = KINGS.get(prop, "{{1,2}}")
    if prop == "C20":
        yield one("LazyMC 2 threads, 2 calls each, two objects", "LazyMC", lazy_cfg("{1,2}", 2, "{1,2}"), tmp)
        yield one("LazyMC 3 threads, a call each, two objects", "LazyMC", lazy_cfg("{1,2,3}", 1, "{1,2}"), tmp)
    if prop == "C14":
        yield one("Bitboard, all squares and lines", "Bitboard", bits_cfg("1..81"), tmp)
    if prop in MACHINE:
        yield one("MachineMC 3x3, 2 objects, 4 deep", "MachineMC", machine_cfg(MACHINE[prop].split(), 4), tmp)
    if prop in RULES:
        yield one("ShogiMC 3x3, one piece of any kind", "ShogiMC", mc_cfg(RULES[prop].split(), kings=k), tmp)
    if prop in ALGO:
        inv = ALGO[prop].split()
        yield one("AlgoMC 3x3, one piece of any kind, one move", "AlgoMC", mc_cfg(inv, kings=k, depth=1), tmp)
        yield walks("AlgoSim 5x5, up to 9 pieces", mc_cfg(inv, 5, 5, sim=(9, 8), hand="{1,2,3,5}", kings=k), seed, 40 * more, tmp)
        yield walks("AlgoSim 9x9, up to 25 pieces", mc_cfg(inv, 9, 9, sim=(25, 20), hand="{1,2,3,5}", kings=k), seed, 8 * more, tmp)


def everything(seed, tmp):
    """All of it, larger: `check --spec`."""
    rules = sorted({i for v in RULES.values() for i in v.split()})
    algo = sorted({i for v in ALGO.values() for i in v.split()})
    yield one("MachineMC 4 deep", "MachineMC", machine_cfg(["ReachableOK", "FoldOK", "BackOK", "WalkOK"], 4), tmp, timeout=3000)
    yield one("LazyMC 3 threads, 2 calls each, one object", "LazyMC", lazy_cfg("{1,2,3}", 2, "{1}"), tmp, timeout=3000)
    yield one("Bitboard, all squares and lines", "Bitboard", bits_cfg("1..81"), tmp, timeout=3000)
    for kings in ("{{1,2}}", "{{},{1},{2}}"):
        yield one(f"ShogiMC 3x4 kings {kings}", "ShogiMC", mc_cfg(rules, 3, 4, kings=kings), tmp, timeout=3000)
        yield one(f"AlgoMC 3x4 kings {kings}", "AlgoMC", mc_cfg(algo, 3, 4, kings=kings, hand="{1,2,3}"), tmp, timeout=3000)
    yield one("AlgoMC 3x4, one move", "AlgoMC", mc_cfg(algo, 3, 4, depth=1), tmp, timeout=3000)
    yield one("AlgoMC 3x3, two pieces", "AlgoMC", mc_cfg(algo, 3, 3, extra=2, bag="{1,4,13,14}"), tmp, timeout=3000)
    yield one("AlgoMC 3x3, two pieces", "AlgoMC", mc_cfg(algo, 3, 3, extra=2, bag="{2,6,7}"), tmp, timeout=3000)
    for kings in ("{{1,2}}", "{{},{1},{2}}"):
        yield walks(f"AlgoSim 5x5 kings {kings}", mc_cfg(algo, 5, 5, sim=(9, 8), hand="{1,2,3,5}", kings=kings), seed, 400, tmp)
        yield walks(f"AlgoSim 9x9 kings {kings}", mc_cfg(algo, 9, 9, sim=(25, 20), hand="{1,2,3,5}", kings=kings), seed, 100, tmp)

#!/usr/bin/env python3
"""Tests of the checks themselves: every one of these must be rejected.

  selftest.py design    faults put into YasaiAlgo / Bitboard, to be found by TLC
  selftest.py traces    recorded executions with one answer altered, to be rejected by ShogiTrace

Not part of any check: it shows that the invariants are not vacuous."""
import copy, json, os, random, re, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, models
from core import *

# (what, module edited, old, new, properties' invariants that must notice)
DESIGN = [
    ("evasions: no special case for the dragon", "YasaiAlgo", "IF k = ProRook /\\ File[ch]", "IF FALSE /\\ File[ch]", "Moves_"),
    ("evasions: the king may step back along the line", "YasaiAlgo", "ELSE PseudoAttack(k, ch, Opp(c)) :", "ELSE (PseudoAttack(k, ch, Opp(c)) \\ {t \\in Squares : king \\in Between[ch][t]}) :", "Moves_"),
    ("pawn drop mate: pinned protectors count, even on the file", "YasaiAlgo", "\\cup FileSet[File[sq]]) = {}", ") = {}", "Moves_"),
    ("pawn drop mate: pins ignored", "YasaiAlgo", "((Squares \\ TopS(o).ai.pinned[d]) \\cup FileSet[File[sq]]) = {}", "Squares = {}", "Moves_"),
    ("pawn drop mate: the pawn does not block lines", "YasaiAlgo", "occ == Occ(x) \\cup {sq}", "occ == Occ(x)", "Moves_"),
    ("pawn drop mate: protection of the pawn not asked", "YasaiAlgo", "/\\ AttackersTo(x, c, sq, Occ(x)) # {}", "/\\ TRUE", "Moves_"),
    ("pins: of both sides taken for the mover's", "YasaiAlgo", "/\\ ~(/\\ from \\in TopS(o).ai.pinned[c]", "/\\ ~(/\\ from \\in TopS(o).ai.pinned[1] \\cup TopS(o).ai.pinned[2]", "Moves_"),
    ("pins: two blockers also pin", "YasaiAlgo", "IF Cardinality(bl) = 1 THEN bl", "IF Cardinality(bl) \\in {1, 2} THEN bl", "Moves_"),
    ("checkables: dragon without its steps", "YasaiAlgo", "ka \\cup ki, hi \\cup gi >>", "ka \\cup ki, hi >>", "Asks"),
    ("discovered check: any move off the square", "YasaiAlgo", "~(to \\in Between[s][from] \\/ from \\in Between[s][to])\n\nAlgoDo", "TRUE\n\nAlgoDo", "Asks"),
    ("checkers only the piece moved", "YasaiAlgo", "AttackInfo(IF chk THEN CalcCheckers(x3) ELSE {}, x3)", "AttackInfo(IF chk THEN {to} ELSE {}, x3)", "Checkers"),
    ("a captured tokin goes to hand as a gold", "YasaiAlgo", "kc   == IF cap = 0 THEN 0 ELSE Unpromote(KindOf[cap])", "kc   == IF cap = 0 THEN 0 ELSE IF KindOf[cap] = ProPawn THEN Gold ELSE Unpromote(KindOf[cap])", "Repr"),
    ("undo forgets the captured piece's set", "YasaiAlgo", "[XorPiece(x, to, st.cap) EXCEPT !.hands[c][kc] = @ - 1]", "[x EXCEPT !.hands[c][kc] = @ - 1]", "Undo"),
    ("key of the side to move not hashed at construction", "YasaiAlgo", "IF p.c = White THEN Xor(k0, TColor) ELSE k0", "k0", "Repr KeyReads"),
    ("hand key one too high after a drop", "YasaiAlgo", "k1 == Xor(keys[2], THand(c, k, x2.hands[c][k]))", "k1 == Xor(keys[2], THand(c, k, x.hands[c][k]))", "Repr"),
    ("knights may stay on the second rank", "YasaiAlgo", "Forced(x, s, KE[s][c] \\cap target, 2)", "Forced(x, s, KE[s][c] \\cap target, 1)", "Moves_"),
    ("two pawns: promoted pawns count", "YasaiAlgo", "x.kbb[Pawn] \\cap FileSet", "(x.kbb[Pawn] \\cup x.kbb[ProPawn]) \\cap FileSet", "Moves_"),
    ("double check: more than king steps", "YasaiAlgo", "IF Cardinality(ai.checkers) > 1 THEN steps", "IF FALSE THEN steps", "Moves_"),
]
BITS = [
    ("SIMD: borrow not carried to the high half", "Bitboard", "shh == IF al = All64 THEN {} ELSE All64", "shh == {}"),
    ("SIMD: smear without its second step", "Bitboard", "a \\cup Shr16(a, 2)", "a"),
    ("SIMD: low bytes of the next byte", "Bitboard", "LowBytes(Max(NonZeroBytes(m) \\cup {0}))", "LowBytes(Max(NonZeroBytes(m) \\cup {1}))"),
    ("AArch64: sentinel a bit low", "Bitboard", "Min(Hi(m) \\cup {17}) + 64", "Min(Hi(m) \\cup {16}) + 64"),
    ("vacant files: shifted by 7", "Bitboard", "sh == Shr(vm \\cap sub, 8, 64)", "sh == Shr(vm \\cap sub, 7, 64)"),
]
LAZY = [
    ("a table published before it is full", "LazyMC", "/\\ tab[t].n = PARTS\n     /\\ tab'", "/\\ tab[t].n > 0\n     /\\ tab'"),
    ("a table begun by two", "LazyMC", "/\\ ~tab[Wants(i)].ok /\\ tab[Wants(i)].by = 0", "/\\ ~tab[Wants(i)].ok /\\ tab[Wants(i)].by # i"),
    ("a table read while it is being filled", "LazyMC", "/\\ tab[Wants(i)].ok\n", "/\\ tab[Wants(i)].n > 0\n"),
    ("two tables that read each other", "LazyMC", 'THEN {"ranks"} ELSE {}', 'THEN {"ranks"} ELSE IF t = "ranks" THEN {"promotable"} ELSE {}'),
    ("a call that changes an object others are reading", "LazyMC", "=> ~Writes(k) /\\ ~Writes(th[i].k)", "=> ~Writes(th[i].k)"),
    ("a query that writes to the object", "LazyMC", "obj' = IF Writes(k) THEN", "obj' = IF Writes(k) \\/ k = \"ask\" THEN"),
]


def design(tmp):
    bad = 0
    for what, mod, old, new, *_ in DESIGN + BITS + LAZY:
        n = open(os.path.join(SPEC, mod + ".tla")).read().count(old)
        assert n, (what, n)
    for what, mod, old, new, inv in DESIGN:
        r = None
        for name, kw in (("AlgoMC", dict(cfg=models.mc_cfg(inv.split(), 3, 3, depth=1, bag="{1,3,13,14}"))),
                         ("AlgoSim", dict(cfg=models.mc_cfg(inv.split(), 5, 5, sim=(9, 8), hand="{1,2,3,5}"))),
                         ("AlgoSim", dict(cfg=models.mc_cfg(inv.split(), 9, 9, sim=(25, 20), hand="{1,2,3,5}")))):
            if name == "AlgoMC":
                r = tlc(name, kw["cfg"], tmp, edit=(mod, old, new))
            else:
                import concurrent.futures as cf
                with cf.ThreadPoolExecutor(8) as ex:
                    rs = list(ex.map(lambda i: tlc(name, kw["cfg"], tmp, edit=(mod, old, new), workers=1, heap="1500m",
                                                   extra=("-seed", str(i + 1), "-simulate", "num=40", "-depth", "200")),
                                     range(8)))
                r = next((x for x in rs if x.status == "violated"), rs[0])
            if r.status == "violated":
                break
        ok = r.status == "violated"
        bad += not ok
        print("found " if ok else "MISSED", f"{what}: {name} {r.invariant}", flush=True)
    for what, mod, old, new in BITS:
        r = tlc("Bitboard", models.bits_cfg("{1, 41, 63, 71}"), tmp, edit=(mod, old, new))
        bad += r.status != "violated"
        print("found " if r.status == "violated" else "MISSED", f"{what}: Bitboard {r.invariant}", flush=True)
    for what, mod, old, new in LAZY:
        r = tlc("LazyMC", models.lazy_cfg("{1,2}", 2, "{1}"), tmp, edit=(mod, old, new))
        bad += r.status != "violated"
        print("found " if r.status == "violated" else "MISSED", f"{what}: LazyMC {r.invariant}", flush=True)
    return bad


# ---------------------------------------------------------------- altered recordings


def alterations(rng, e):
    ob = e.get("ob", {})
    res = []
    if "leg" in ob and ob["leg"]:
        res += ["leg-", "leg+", "leg2"]
        if any(m >= 20000 for m in ob["leg"]):
            res += ["drop-"]
        if any(10000 <= m < 20000 for m in ob["leg"]):
            res += ["promo-"]
    if "gc" in ob and ob["gc"]:
        res += ["gc-"]
    if "leg" in ob and "gc" in ob and set(ob["leg"]) - set(ob["gc"]):
        res += ["gc+"]
    for k in ("chk", "key"):
        if k in ob:
            res.append(k)
    if "st" in ob:
        res += ["board", "hand", "side", "ply"]
    if "pre" in e:
        res.append("pre")
    if "fr" in e:
        res += ["fr." + k for k in e["fr"] if k in ("leg", "chk", "key", "st")]
    if "rp" in e:
        res += ["rp." + k for k in e["rp"] if k in ("leg", "chk", "key", "st")]
    if "n" in e:
        res += ["n", "div"]
    return res


def apply(rng, e, a):
    ob = e.get("ob", {})
    if a == "leg-":
        ob["leg"].remove(rng.choice(ob["leg"]))
    elif a == "leg+":
        ob["leg"].append(rng.choice([x for x in (101, 5152, 20105, 20741) if x not in ob["leg"]]))
    elif a == "leg2":
        ob["leg"].append(ob["leg"][0])
    elif a == "drop-":
        ob["leg"].remove(rng.choice([m for m in ob["leg"] if m >= 20000]))
    elif a == "promo-":
        ob["leg"].remove(rng.choice([m for m in ob["leg"] if 10000 <= m < 20000]))
    elif a == "gc-":
        ob["gc"].remove(rng.choice(ob["gc"]))
    elif a == "gc+":
        ob["gc"].append(rng.choice(sorted(set(ob["leg"]) - set(ob["gc"]))))
    elif a == "chk":
        ob["chk"] = not ob["chk"]
    elif a == "key":
        i = rng.randrange(3)
        ob["key"][i][rng.randrange(4)] ^= 1 << rng.randrange(12)
    elif a == "board":
        i = rng.randrange(81)
        ob["st"]["b"][i] = 1 if ob["st"]["b"][i] == 0 else 0
    elif a == "hand":
        ob["st"]["h"][rng.randrange(2)][rng.randrange(7)] += 1
    elif a == "side":
        ob["st"]["c"] = 3 - ob["st"]["c"]
    elif a == "ply":
        ob["st"]["ply"] += 1
    elif a == "pre":
        e["pre"] = not e["pre"]
    elif a == "n":
        e["n"] += 1
    elif a == "div":
        e["div"][0][1] += 1
    elif a[:3] in ("fr.", "rp."):
        apply(rng, {"ob": e[a[:2]]}, {"leg": "leg+", "chk": "chk", "key": "key", "st": "board"}[a[3:]])


def traces(tmp):
    """For every property: alter one answer of a recording; TLC must reject what the property is about."""
    exe, _ = build(["simd-shipped"], ("conform",))
    exe = exe["simd-shipped"]["conform"]
    rng = random.Random(7)
    bad = 0
    for n in ([int(x[1:]) for x in sys.argv[2:]] or range(1, 23)):
        prop = f"C{n:02d}"
        out = os.path.join(tmp, "rec")
        conform(exe, ["record", "--prop", str(n), "--seed", "5", "--heavy", "60", "--events", "250", "--out", out], tmp, rec=True)
        ts = read_traces(out)
        kinds = {}
        for i, t in enumerate(ts):
            for j, e in enumerate(t["ev"]):
                for a in alterations(rng, e):
                    kinds.setdefault((e["op"], a), []).append((i, j))
        bad_ts, twins, names = [], [], []
        for (op, a), where in sorted(kinds.items()):
            where = [x for x in where if x[1] <= 40] or where
            for i, j in rng.sample(where, min(6, len(where))):
                t = copy.deepcopy(ts[i])
                t["ev"] = t["ev"][: j + 1]
                apply(rng, t["ev"][j], a)
                bad_ts.append(t)
                twins.append(dict(ts[i], ev=ts[i]["ev"][: j + 1]))
                names.append(f"{op}.{a}")
        write_traces(out + ".x", bad_ts)
        write_traces(out + ".t", twins)
        invs = {"C14": ["C14"], "C20": ["C20", "C20T"]}.get(prop, [prop])
        r = tlc("ShogiTrace", TRACE_CFG % "\n  ".join(invs), tmp, {"TRACE": out + ".x", "TWIN": out + ".t"}, extra=("-continue",))
        rejected = set()
        for block in re.split(r"Invariant \S+ is violated|Deadlock reached", r.out)[1:]:
            m = re.findall(r"^/\\ t = (\d+)$", block, re.M)
            if m:
                rejected.add(int(m[0]))
        res = {}
        for k, nm in enumerate(names):
            h, n_ = res.get(nm, (0, 0))
            res[nm] = (h + (k + 1 in rejected), n_ + 1)
        hits = {k: f"{h}/{n_}" for k, (h, n_) in res.items() if h}
        ignored = [k for k, (h, n_) in res.items() if not h]
        bad += not hits
        print(prop, "rejected", json.dumps(hits), "not its business", " ".join(ignored), flush=True)
    return bad


if __name__ == "__main__":
    os.makedirs(core.BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=core.BUILD, prefix="self-")
    try:
        bad = (design if sys.argv[1] == "design" else traces)(tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(bad != 0)

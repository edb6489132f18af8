"""C34-C39: rules over every translation unit."""
import json
import os
import re
import subprocess
from .. import build, desc, instspec, lint as L, par
from ..registry import prop
from ..report import HOLDS, Obs, UNDECIDED, VIOLATED

TB = ["the trusted base is the extractor (clang AST) and the rule itself",
      "templates are judged as instantiated by the drivers with the library's own and with opaque argument types"]


@prop("C34", "every assertion condition of every instantiated function is walked, calls followed transitively, for writes to storage that "
      "outlives the condition; and the syntax tree of every function is the same with and without NDEBUG", "effect analysis of the typed AST",
      assumptions=TB)
def c34(deep):
    obs = Obs()
    seen = {}
    for u in L.units():
        P = L.prog(u)
        E = L.Effects(P)
        for f in L.functions(P):
            for n in L.conditions(P, f):
                r, d = E.expr(n["args"][0])
                key = ("assertion in %s" % f["q"], L.where(P, f, n))
                st = (VIOLATED, "the condition has an effect: " + r) if r else (UNDECIDED, d) if d else (HOLDS, "")
                if key not in seen or st[0] == VIOLATED:
                    seen[key] = st
            obs.functions.add(f["q"])
        Q = L.prog(u, True)
        got = {}
        for X in (P, Q):
            for f in L.functions(X):
                if f.get("implicit") or f.get("defaulted"):
                    continue
                got.setdefault((f["sig"], bool(f.get("const")), f["line"]), []).append((f, L.skeleton(X, [f.get("inits"), f["body"]], {}), X))
        for (sig, cn, _), l in sorted(got.items()):
            f, X = l[0][0], l[0][2]
            sig += " const" if cn else ""
            key = ("both builds: " + sig[:160], L.where(X, f))
            if len({x[1] for x in l}) == 1 and len(l) >= 2:
                seen.setdefault(key, (HOLDS, ""))
            elif len(l) == 1:
                seen.setdefault(key, (UNDECIDED, "exists in one build flavour only"))
            else:
                seen[key] = (VIOLATED, "the function differs between builds with and without debug assertions")
    for (k, w), (st, d) in sorted(seen.items()):
        obs.add(k, w, st, d)
    return obs


@prop("C35", "every variable with static or thread storage duration defined in the library is constant, or every use of it in every "
      "instantiated function only reads it; no function calls a stateful C library function", "storage and effect analysis of the typed AST",
      assumptions=TB)
def c35(deep):
    obs = Obs()
    seen = {}

    def put(key, st, d=""):
        if key not in seen or st == VIOLATED:
            seen[key] = (st, d)
    for u in L.units():
        P = L.prog(u)
        for g in L.globals_of(P):
            key = ("variable " + g["q"], L.where(P, g))
            if L.constant(P, g):
                put(key, HOLDS)
                continue
            bad = [(f, n, w) for f, n, w in L.global_uses(P, g["id"]) if w != L.READS]
            wr = [x for x in bad if x[2] == L.WRITES]
            if wr:
                put(key, VIOLATED, "%s writes it at %s" % (wr[0][0]["q"], L.where(P, wr[0][0], wr[0][1])))
            elif bad:
                put(key, VIOLATED if g["static_local"] or not L.constant(P, g) else UNDECIDED,
                    "mutable, and %s may change it at %s" % (bad[0][0]["q"], L.where(P, bad[0][0], bad[0][1])))
            else:
                put(key, HOLDS)
        for f, r in L.all_trees(P):
            obs.functions.add(f["q"])
            hit = None
            for n, up in L.walk(r):
                if n.get("k") == "call" and "f" in n:
                    g = P.F[n["f"]]
                    if g["n"] in L.STATEFUL and "this" not in n and g["q"] in (g["n"], "std::" + g["n"]) and not g.get("body"):
                        hit = (n, g)
            key = ("function %s" % f["sig"][:160], L.where(P, f))
            put(key, VIOLATED if hit else HOLDS, "calls %s, which keeps hidden state" % hit[1]["q"] if hit else "")
    for (k, w), (st, d) in sorted(seen.items()):
        obs.add(k, w, st, d)
    return obs


WARN = ["-Wuninitialized", "-Wsometimes-uninitialized", "-Wuninitialized-const-reference", "-Wreturn-type"]


def diagnostics(src, flags):
    flags = [f for f in build.cxx_flags() if f != "-w"] + flags
    r = subprocess.run(["clang++-18", "-fsyntax-only", "-ferror-limit=0"] + flags + [src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


@prop("C36", "every constructor of every library class gives every scalar member a value (in-class initialiser, member initialiser or body), "
      "no encapsulated class has a compiler-made default constructor leaving one without, no local object is made without a value and only "
      "read, and the compiler's flow-sensitive analysis finds no local read before assignment nor missing return",
      "definite-initialisation analysis of the typed AST and control-flow graph", assumptions=TB)
def c36(deep):
    obs = Obs()
    seen = {}

    def put(key, st, d=""):
        if key not in seen or st == VIOLATED:
            seen[key] = (st, d)
    for u in L.units():
        P = L.prog(u)
        for f, r in L.constructors(P):
            if f.get("implicit") or f.get("defaulted"):
                continue
            obs.functions.add(f["q"])
            key = ("constructor " + f["sig"][:160], L.where(P, f))
            put(key, HOLDS)
            for x, path in L.unset_fields(P, f, r):
                put(key, VIOLATED, "%s has no value afterwards" % ".".join((x["n"],) + path))
        for r in P.d["records"]:
            if r.get("lambda") or not L.ours(L.file(P, r)) or not r.get("fields"):
                continue
            if not L.encapsulated(r) or not L.default_constructible(P, r):
                continue
            key = ("class " + r["q"], L.where(P, r))
            put(key, HOLDS)
            for x in r["fields"]:
                if not x.get("init") and L.leaves(P, x["t"]):
                    put(key, VIOLATED, "%s has no value in a default-constructed object" % ".".join((x["n"],) + L.leaves(P, x["t"])[0]))
        for f, d, path, bad in L.blank_locals(P):
            obs.functions.add(f["q"])
            put(("local %s of %s" % (d["n"], f["q"]), L.where(P, f, d)), VIOLATED if bad else HOLDS,
                "%s is read without a value" % ".".join((d["n"],) + path) if bad else "")
        rc, out = diagnostics(u, WARN)
        n = 0
        for m in re.finditer(r"^([^\s:]+):(\d+):\d+: warning: (.*) \[-W([\w-]+)\]", out, re.M):
            if L.ours(m.group(1)):
                n += 1
                put(("flow: %s" % m.group(3), "%s:%s" % (L.rel(m.group(1)), m.group(2))), VIOLATED, m.group(3))
        put(("flow analysis of " + L.rel(u).replace(build.VERIF + "/", ""), L.rel(u).replace(build.VERIF + "/", "")),
            UNDECIDED if rc else HOLDS, "does not compile" if rc else "")
        for f in L.functions(P):
            obs.functions.add(f["q"])
    for (k, w), (st, d) in sorted(seen.items()):
        obs.add(k, w, st, d)
    return obs


# ------------------------------------------------------------ C37

BASE = os.path.join(build.VERIF, "ygv", "baseline.json")


def current():
    S = desc.Schema(build.ensure_pb() + "/all.desc")
    r = {"messages": {}, "enums": {}, "constants": {}}
    for n, m in S.messages.items():
        r["messages"][n] = {f.name: [f.number, f.type, f.type_name, bool(f.repeated), f.oneof if not f.proto3_optional else None]
                            for f in m.fields.values()}
    for n, e in S.enums.items():
        r["enums"][n] = dict(e.values)
    for u in L.units():
        P = L.prog(u)
        for e in P.d["enums"]:
            if L.ours(L.file(P, e)) and ("/duel/constants/" in L.file(P, e) or L.file(P, e).endswith("ocgcore_messages.inl")):
                r["constants"][e["q"]] = {v["n"]: int(v["v"]) for v in e["vals"] if not v["n"].endswith("ARRAY_SIZE")}
    return r


PACKABLE = {"int32", "int64", "uint32", "uint64", "sint32", "sint64", "bool", "enum", "fixed32", "fixed64", "sfixed32", "sfixed64",
            "float", "double"}


def names_kept(obs, kind, q, was, now):
    """Enumerators keep their values; a value may be spelt differently."""
    if now is None:
        obs.add("%s %s" % (kind, q), q, VIOLATED, "no longer exists")
        return
    byv = {}
    for n, v in now.items():
        byv.setdefault(v, set()).add(n)
    for n, v in was.items():
        key = "%s %s.%s" % (kind, q, n)
        if n in now:
            obs.add(key, q, HOLDS if now[n] == v else VIOLATED, "" if now[n] == v else "was %d, is %d" % (v, now[n]))
        elif v in byv and not byv[v] & set(was):
            obs.add(key, q, HOLDS, "spelt %s" % sorted(byv[v])[0])
        else:
            obs.add(key, q, VIOLATED, "value %d is gone or taken over" % v)


@prop("C37", "every message field, enumerator and protocol constant recorded in ygv/baseline.json still has its number, wire type, label, "
      "message type and oneof, and no number was taken over by another recorded name", "comparison of the compiled schema and of the "
      "enumerators in the typed AST with a recorded baseline", assumptions=[
          "the baseline is the schema of the pinned commit; additions and renamings that keep number and type are compatible"])
def c37(deep):
    obs = Obs()
    with open(BASE) as fh:
        base = json.load(fh)
    now = current()
    for q, was in sorted(base["messages"].items()):
        m = now["messages"].get(q)
        if m is None:
            obs.add("message " + q, q, VIOLATED, "no longer exists")
            continue
        bynum = {v[0]: (n, v) for n, v in m.items()}
        for n, v in sorted(was.items()):
            key = "field %s.%s" % (q, n)
            if n in m:
                obs.add(key, q, HOLDS if list(m[n]) == list(v) else VIOLATED, "" if list(m[n]) == list(v) else "was %s, is %s" % (v, m[n]))
            elif v[0] in bynum and bynum[v[0]][0] not in was and list(bynum[v[0]][1])[:4] == list(v)[:4]:
                obs.add(key, q, HOLDS, "renamed %s" % bynum[v[0]][0])
            else:
                obs.add(key, q, VIOLATED, "field number %d is gone or taken over" % v[0])
    for q, was in sorted(base["enums"].items()):
        names_kept(obs, "enumerator", q, was, now["enums"].get(q))
    for q, was in sorted(base["constants"].items()):
        names_kept(obs, "constant", q, was, now["constants"].get(q))
    obs.functions |= set(base["messages"])
    return obs


# ------------------------------------------------------------ C38, C39: compile witnesses

def headers():
    r = []
    for dp, dn, fn in os.walk(os.path.join(build.REPO, "include")):
        r += [os.path.join(dp, f) for f in fn if f.endswith(".hpp")]
    return sorted(r)


def one_header(h, times, std):
    inc = os.path.join(build.REPO, "include")
    text = "".join('#include "%s"\n' % os.path.relpath(h, inc) for _ in range(times))
    r = subprocess.run(["clang++-18", "-std=" + std, "-w", "-fsyntax-only", "-I" + inc, "-I" + build.ensure_pb(), "-x", "c++", "-"],
                       input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    err = [l for l in r.stdout.splitlines() if "error" in l]
    return h, times, std, r.returncode, err[0] if err else ""


@prop("C38", "for every public header, a translation unit that includes only it, once and twice, type-checks in every supported language "
      "version", "compile witnesses", assumptions=["clang 18 with libstdc++ 13 stands for the supported compilers"])
def c38(deep):
    obs = Obs()
    build.ensure_pb()
    jobs = [(one_header, (h, n, s)) for h in headers() for n in (1, 2) for s in (("c++17", "c++20", "c++23") if deep else ("c++17", "c++20"))]
    for h, n, s, rc, err in par.run(jobs, 2):
        rel = L.rel(h)
        obs.add("%s included %s, %s" % (rel, "once" if n == 1 else "twice", s), rel, VIOLATED if rc else HOLDS, L.rel(err))
    obs.functions |= {L.rel(h) for h in headers()}
    return obs


OWNERS = {"frame": "YGOpen::Client::BasicFrame", "history-keeping frame": "YGOpen::Client::LimboFrame",
          "undoable value": "YGOpen::Client::BasicUndoable", "undoable list": "YGOpen::Client::BasicUndoable",
          "board": "YGOpen::Client::BasicBoard", "history-keeping board": "YGOpen::Client::BasicBoard",
          "room": "YGOpen::Server::BasicRoom", "encode context": "YGOpen::Server::BasicEncodeContext"}
WAYS = ("constructed", "constructed from a variable", "assigned")


@prop("C39", "static assertions that no owning type can be copy-constructed or copy-assigned; where one can, the copy operation chosen has "
      "to be one the library wrote itself, not a memberwise one", "type-level compile-fail witnesses", assumptions=[
          "the instantiations in drivers/witness/copy.cpp stand for all", "moving is not copying"])
def c39(deep):
    obs = Obs()
    src = build.VERIF + "/drivers/witness/copy.cpp"
    rc, out = diagnostics(src, ["-w"])
    failed = set(re.findall(r"static assertion failed[^\n]*: \[([^\]|]*\|[^\]]*)\]", out))
    other = [l for l in out.splitlines() if " error: " in l and "static assertion failed" not in l]
    P = L.prog(src, flags=["-DYGV_NO_WITNESS"]) if failed and not other else None
    for nm, q in OWNERS.items():
        rec = q.replace("::", "/")
        for w in WAYS:
            key = "%s cannot be copied: %s" % (nm, w)
            if other:
                obs.add(key, rec, UNDECIDED, "the witness does not compile: " + other[0][:160])
            elif "%s|%s" % (nm, w) not in failed:
                obs.add(key, rec, HOLDS)
            else:
                own = [f for f in L.functions(P) if f["q"].rsplit("::", 1)[0] == q and (f.get("copy") or f.get("copy_assign")) and
                       not f.get("implicit") and not f.get("defaulted")]
                hit = [r for r in P.d["records"] if r["q"] == q]
                at = L.where(P, hit[0]) if hit else rec
                if own:
                    obs.add(key, at, UNDECIDED, "copied by an operation of the library's own")
                else:
                    obs.add(key, at, VIOLATED, "%s can be %s memberwise: the copy refers to what the original owns" % (q, w))
    obs.functions |= set(OWNERS.values())
    return obs


@prop("C45", "uses of every library template with types that meet its requirements and nothing more type-check under both compilers, in both "
      "language versions, with and without assertions", "compile witnesses (instantiations)", assumptions=[
          "the types in drivers/witness/inst.hpp and ygv/instspec.py stand for all that are admitted",
          "clang 18 and gcc 13 with libstdc++ 13 stand for the supported compilers"])
def c45(deep):
    obs = Obs()
    build.ensure_pb()
    jobs = [(instspec.check, (n, c, s, d, x)) for n, f, c in instspec.shapes() for x in ("clang++-18", "g++")
            for s in (("c++17", "c++20", "c++23") if deep else ("c++17", "c++20")) for d in ((True, False) if deep or x != "g++" else (True,))]
    where = {n: f for n, f, c in instspec.shapes()}
    for n, s, d, x, rc, err in par.run(jobs, 2):
        obs.add("%s, %s %s%s" % (n, "clang" if "clang" in x else "gcc", s, "" if d else " without assertions"), where[n], VIOLATED if rc else HOLDS,
                L.rel(err)[:300])
    obs.functions |= set(where.values())
    return obs

"""Compares the engine's summaries of idioms.cpp with the natively compiled code."""
import ctypes, json, os, re, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from ygv import build, terms as t
from ygv.interp import Interp, Prog
from ygv.evalt import Val, Undef, TooBig
from ygv.values import Lst, Loc
from ygv.budget import limit
here = os.path.dirname(os.path.abspath(__file__))
src = os.path.join(here, "idioms.cpp")
tmp = tempfile.mkdtemp()
text = open(src).read()
names = re.findall(r"^T\((\w+)\)", text, re.M)
only = sys.argv[1:]
nat = os.path.join(tmp, "n.cpp")
with open(nat, "w") as f:
    f.write('#include "%s"\nextern "C" unsigned run(int k, unsigned a, unsigned b, unsigned* p, unsigned* n){ V v(p, p + *n); U r = 0; switch(k){\n' % src)
    for i, n in enumerate(names):
        f.write("case %d: r = idiom::%s(a, b, v); break;\n" % (i, n))
    f.write("}\n *n = v.size(); std::copy(v.begin(), v.end(), p); return r; }\n")
so = os.path.join(tmp, "n.so")
subprocess.check_call(["clang++-18", "-std=c++17", "-O1", "-w", "-shared", "-fPIC", "-DNDEBUG", nat, "-o", so])
lib = ctypes.CDLL(so)
lib.run.restype = ctypes.c_uint


def native(k, a, b, vs):
    buf = (ctypes.c_uint * 4096)(*vs)
    n = ctypes.c_uint(len(vs))
    r = lib.run(k, ctypes.c_uint(a), ctypes.c_uint(b), buf, ctypes.byref(n))
    return r, list(buf[:n.value])


tool = build.ensure_tool()
js = os.path.join(tmp, "a.json")
res = subprocess.run(["clang-18", "-print-resource-dir"], stdout=subprocess.PIPE, text=True).stdout.strip()
subprocess.check_call([tool, js, here + "/", src, "--", "-resource-dir", res, "-std=c++17", "-w"])
from ygv.cardspec import program
P = Prog(json.load(open(js)), program("query.cpp").schema)
bad = und = good = 0
for k, nm in enumerate(names):
    if only and nm not in only:
        continue
    f = [g for g in P.fns("idiom::" + nm) if g.get("body")][0]
    I = Interp(P)
    a, b, A = t.atom("a", 0, 2**32 - 1), t.atom("b", 0, 2**32 - 1), t.atom("v", None, None)
    I.elem_kind[A] = ("rng", (0, 2**20))      # the engine takes 32-bit sums not to wrap
    root = ("vec",)
    try:
        with limit(20):
            I.st.m[root] = Lst([("sl", A, t.ZERO, t.mk("size", A))])
            pc0 = I.st.pc
            I.vartype = getattr(I, "vartype", {})
            r = I.invoke(f, None, [a, b, Loc(root)])
            if I.st is None:
                raise Exception("no path returns")
            out = I.st.m[root]
    except Exception as e:
        print("undecided %-14s %s: %s" % (nm, type(e).__name__, str(e)[:150]))
        und += 1
        continue
    wrong = None
    und1 = None
    for seed in range(200):
        v = Val(seed, None, {t.mk("size", A)}, I, None)
        try:
            n = seed % 6
            v.memo[t.mk("size", A)] = n
            def pick(j):
                x = v.h("p", j)
                return [x % 4, x % 12, x % 300, x % 2**20][(seed // 6) % 4]
            av, bv = pick(0), pick(1)
            v.memo[a], v.memo[b] = av, bv
            vs = [v.ev(I.elem(A, t.C(i))) for i in range(n)]
            want = native(k, av, bv, vs)
            if not v.ev(I.st.pc) :
                wrong = "path condition false for a=%d b=%d v=%r" % (av, bv, vs)
                break
            got = (v.ev(r) & 0xffffffff, v.val(out))
        except (Undef, TooBig, AttributeError, TypeError, KeyError, IndexError) as e:
            und1 = "evaluation: %s" % e
            continue
        g2 = list(got[1]) if isinstance(got[1], (list, tuple)) else got[1]
        if got[0] != want[0] or g2 != want[1]:
            wrong = "a=%d b=%d v=%r: engine %r, native %r" % (av, bv, vs, (got[0], g2), want)
            break
    if wrong:
        print("WRONG     %-14s %s" % (nm, wrong[:300]))
        bad += 1
    elif und1:
        print("undecided %-14s %s" % (nm, und1[:150]))
        und += 1
    else:
        good += 1
print("%d right, %d undecided, %d wrong" % (good, und, bad))
sys.exit(bad > 0)

"""Lines of TurbuStat not reached: SIM_COV=DIR check.sh ...; cover.py DIR"""
import os
import pickle
import sys
import types

REPO = os.environ.get("SIM_REPO", "/repo")
seen = set()
for f in os.listdir(sys.argv[1]):
    seen |= pickle.load(open(os.path.join(sys.argv[1], f), "rb"))


def lines(code, out):
    for _, _, ln in code.co_lines():
        if ln:
            out.add(ln)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            lines(c, out)


def funcs(code, out):
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            if c.co_flags & 2 and c.co_name != "<lambda>":
                lines(c, out)
            else:
                funcs(c, out)


tot = hit = 0
for d, _, fs in sorted(os.walk(os.path.join(REPO, "turbustat"))):
    if "tests" in d:
        continue
    for f in sorted(fs):
        fn = os.path.join(d, f)
        if not f.endswith(".py"):
            continue
        try:
            code = compile(open(fn).read(), fn, "exec")
        except SyntaxError:
            continue
        ln = set()
        funcs(code, ln)
        first = set()
        got = set(l for n, l in seen if n == fn)
        miss = sorted(l for l in ln if l not in got)
        if not ln:
            continue
        tot += len(ln)
        hit += len(ln) - len(miss)
        print("%s %d/%d" % (fn[len(REPO) + 1:], len(ln) - len(miss),
                            len(ln)))
        if "-v" in sys.argv:
            src = open(fn).read().split("\n")
            for l in miss:
                t = src[l - 1].strip()
                if t and not t.startswith(("def ", "@", '"')):
                    print("   %5d %s" % (l, t[:90]))
print("total", hit, tot)

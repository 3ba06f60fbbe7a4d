"""Developer tool: adds to vsim/corpus.json, in place, lines with boundary values
(zero, one, large, empty), repeated options and pairs of options, where these
survive being written and read again and set something no line of the corpus sets
yet.  Not run by any check."""
import sys, json, warnings, multiprocessing, random, itertools
sys.path.insert(0, "/repo"); sys.path.insert(0, "/verif"); sys.path.insert(0, "/verif/tools")
warnings.simplefilter("ignore")
from pykickstart.version import makeVersion
from pykickstart.options import *
from vsim import dump
from recheck import one

def feats(v, l):
    """Everything the line sets that differs from the defaults, falsy values too."""
    h0, h = makeVersion(v), makeVersion(v)
    h.dispatcher(list(l), 1)
    a, b = dump.commands(h0, seen=False), dump.commands(h, seen=False)
    out = set()
    def walk(x, y, p):
        if isinstance(x, dict):
            for k in x:
                if k in ("seen", "lineno"): continue
                walk(x[k], y.get(k) if isinstance(y, dict) else None, p + "." + k)
        elif isinstance(x, list):
            if x != y:
                out.add((p, "len%d" % min(len(x), 3)))
                for i in x: walk(i, None, p + "[]")
        elif x != y:
            s = repr(x)
            out.add((p, s if isinstance(x, (bool, int, type(None))) and len(s) < 3 or x == "" else type(x).__name__))
    walk(b, a, "")
    return frozenset(out)

INTS = ["0", "1", "2", "100000"]
def values(a):
    t = getattr(a.type, "__name__", None)
    if a.choices: return [str(c) for c in a.choices]
    if t == "int": return INTS
    if t == "ksboolean": return ["on", "off"]
    if t == "mountpoint": return ["/", "/x"]
    return ["", "0", "abc"]

def work(job):
    v, c, L = job
    rng = random.Random("b" + v)
    h0 = makeVersion(v)
    out = []
    for n, ls in sorted(c["good"].items()):
        o = h0.commands[n]
        if not hasattr(o, "op"):
            continue
        seen = set()
        for i, s in ls:
            if s:
                try: seen |= feats(v, L[i])
                except Exception: pass
        bases = sorted((L[i] for i, s in ls if s), key=len)
        if not bases: continue
        acts = [a for a in o.op._actions if a.option_strings and not a.deprecated]
        cands = []
        def opt(a, val):
            s = rng.choice(a.option_strings)
            return [s] if a.nargs == 0 else ["%s=%s" % (s, val)]
        def insert(b, extra):
            # behind the command name
            return [b[0]] + extra + b[1:]
        def without(b, a):
            return [w for w in b if w.split("=")[0] not in a.option_strings]
        for a in acts:
            vals = [None] if a.nargs == 0 else values(a)
            for val in vals:
                for b in bases[:2] + ([rng.choice(bases)] if len(bases) > 2 else []):
                    cands.append(insert(without(b, a), opt(a, val)))
                if a.nargs != 0:
                    cands.append(insert(without(bases[0], a), opt(a, val) + opt(a, rng.choice(vals))))
        pairs = list(itertools.combinations(acts, 2)); rng.shuffle(pairs)
        for a, b2 in pairs[:150]:
            e = opt(a, rng.choice(values(a))) + opt(b2, rng.choice(values(b2)))
            b = bases[0]
            cands.append(insert(without(without(b, a), b2), e))
        got = 0
        pairseen = set()
        for l in cands:
            if got >= 24: break
            try: f = feats(v, l)
            except Exception: continue
            new = f - seen
            pk = frozenset(p for p, _ in f)
            if not new and (pk in pairseen or len(pairseen) > 14): continue
            try: k, st = one(v, l)
            except Exception: continue
            if k == "good" and st:
                seen |= f
                pairseen.add(pk)
                out.append((n, l)); got += 1
    return v, out

if __name__ == "__main__":
    p = "/verif/vsim/corpus.json"
    c = json.load(open(p))
    L = c["lines"]
    idx = {json.dumps(l): i for i, l in enumerate(L)}
    with multiprocessing.Pool(8) as pool:
        for v, out in pool.imap(work, [(v, d, L) for v, d in sorted(c["versions"].items())]):
            for n, l in out:
                k = json.dumps(l)
                if k not in idx:
                    idx[k] = len(L); L.append(l)
                have = c["versions"][v]["good"][n]
                if idx[k] not in [x[0] for x in have]:
                    have.append([idx[k], 1])
            print(v, len(out), out[:2], flush=True)
    json.dump(c, open(sys.argv[1] if len(sys.argv) > 1 else p, "w"), separators=(",", ":"))

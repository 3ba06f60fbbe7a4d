"""Developer tool: adds to vsim/corpus.json, in place, lines whose values hold
blanks, quotes, remarks and other awkward characters, where these survive being
written and read again.  Not run by any check."""
import sys, json, warnings, multiprocessing, random
sys.path.insert(0, "/repo"); sys.path.insert(0, "/verif"); sys.path.insert(0, "/verif/tools")
warnings.simplefilter("ignore")
from pykickstart.version import makeVersion
from recheck import one
VALS = ["a b", "it's", "a #b", "\u00fc \u65e5", "say \"x\"", "a=b c", "100%", "-x y", "$HOME `x`", "a,b c", "x;y", "~/x", "a\\b"]

def work(job):
    v, c, L = job
    rng = random.Random(v)
    h0 = makeVersion(v)
    out = []
    for n, ls in sorted(c["good"].items()):
        o = h0.commands[n]
        if not hasattr(o, "op"):
            continue
        slots = {}
        for i, s in ls:
            if not s:
                continue
            for k, w in enumerate(L[i]):
                if k == 0:
                    continue
                if w.startswith("--"):
                    if "=" not in w: continue
                    a = o.op._option_string_actions.get(w.split("=")[0])
                    if a is None or a.nargs == 0 or a.choices or getattr(a.type, "__name__", None) in ("int", "ksboolean"): continue
                    slots.setdefault(a.dest, []).append((L[i], k, w.split("=")[0] + "="))
                else:
                    slots.setdefault("pos%d" % min(k, 3), []).append((L[i], k, ""))
        for d, uses in sorted(slots.items()):
            got = 0
            vals = list(VALS); rng.shuffle(vals)
            for val in vals:
                if got >= 2: break
                l, k, p = rng.choice(uses)
                l = list(l); l[k] = p + val
                kk, st = one(v, l)
                if kk == "good" and st:
                    out.append((n, l)); got += 1
    return v, out

if __name__ == "__main__":
    p = "/verif/vsim/corpus.json"
    c = json.load(open(p))
    L = c["lines"]
    idx = {json.dumps(l): i for i, l in enumerate(L)}
    with multiprocessing.Pool(8) as pool:
        for v, out in pool.imap(work, [(v, d, L) for v, d in sorted(c["versions"].items())]):
            for n, l in out:
                k = json.dumps(l)
                if k not in idx:
                    idx[k] = len(L); L.append(l)
                have = c["versions"][v]["good"][n]
                if idx[k] not in [x[0] for x in have]:
                    have.append([idx[k], 1])
            print(v, len(out), out[:2])
    json.dump(c, open(p, "w"), separators=(",", ":"))

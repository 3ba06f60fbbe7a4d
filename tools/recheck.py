"""Developer tool: re-verifies vsim/corpus.json in place with a fresh handler per
line (accepted / stable / rejected).  Not run by any check."""
import json, sys, warnings, multiprocessing
sys.path.insert(0, "/repo"); sys.path.insert(0, "/verif"); sys.path.insert(0, "/verif/tools")
from vsim import dump
from pykickstart.version import makeVersion
from pykickstart.parser import KickstartParser
from pykickstart.errors import KickstartParseError, KickstartParseWarning
warnings.simplefilter("ignore")
warnings.filterwarnings("error", category=KickstartParseWarning)

def one(v, l):
    h = makeVersion(v)
    try:
        h.dispatcher(list(l), 1)
    except KickstartParseWarning:
        return "warn", False
    except KickstartParseError:
        return "bad", False
    except Exception:
        return "other", False
    d = dump.handler(h, seen=False)
    try:
        s = str(h)
        h2 = makeVersion(v)
        KickstartParser(h2).readKickstartFromString(s)
        return "good", dump.handler(h2, seen=False) == d and str(h2) == s
    except Exception:
        return "good", False

def work(job):
    v, c, L = job
    out = {"good": {}, "bad": {}, "warn": {}}
    log = []
    for k in ("good", "bad", "warn"):
        for n, ls in c[k].items():
            for x in ls:
                i, s = x if k == "good" else (x, 0)
                kk, st = one(v, L[i])
                if kk != k:
                    log.append((v, k, kk, L[i]))
                    continue
                if k == "good":
                    if bool(s) != st:
                        log.append((v, "stable", bool(s), st, L[i]))
                    out[k].setdefault(n, []).append([i, 1 if (s and st) else 0])
                else:
                    out[k].setdefault(n, []).append(i)
    return v, out, log

if __name__ == "__main__":
    p = "/verif/vsim/corpus.json"
    c = json.load(open(p))
    with multiprocessing.Pool(8) as pool:
        for v, out, log in pool.imap(work, [(v, d, c["lines"]) for v, d in sorted(c["versions"].items())]):
            c["versions"][v] = out
            for l in log: print(*l)
    json.dump(c, open(p, "w"), separators=(",", ":"))

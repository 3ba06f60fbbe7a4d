"""Developer tool: builds vsim/corpus.json, the vocabulary of command lines.

  mkcorpus.py MINED.jsonl OUT.json

Lines come from the repository's own command tests (recorded with a pytest
plugin) and from a generator that walks the option parsers.  Every line is tried
on every version; the result records per version which lines are accepted,
which survive one write/read cycle unchanged ("stable") and which are rejected.
Not run by any check."""
import sys, json, random, warnings, shlex, collections, multiprocessing
sys.path.insert(0, "/repo"); sys.path.insert(0, "/verif")
from vsim import dump
warnings.simplefilter("ignore")
import pykickstart
from pykickstart.version import makeVersion, versionMap
from pykickstart.parser import KickstartParser
from pykickstart.base import DeprecatedCommand, RemovedCommand
from pykickstart.errors import KickstartParseWarning
warnings.filterwarnings("error", category=KickstartParseWarning)
WORDS = ["sda", "sdb1", "foo", "bar42", "/mnt/x", "http://h.example/x", "10", "2048", "192.168.1.1",
         "en_US", "us", "a,b", "America/New_York", "LVM", "pv.01", "raid.01", "eth0", "root", "sdc,sdd"]

def val(a, rng):
    if a.choices: return str(rng.choice(list(a.choices)))
    t = getattr(a.type, '__name__', None)
    if t == 'int': return str(rng.randint(1, 5000))
    if t == 'ksboolean': return rng.choice(["on", "off", "yes", "no", "true", "false"])
    if t == 'mountpoint': return rng.choice(["/", "/boot", "/home"])
    return rng.choice(WORDS)

def gen(cmd, obj, rng, force=None, p=0.2):
    parts = [cmd]; pos = []
    for a in obj.op._actions:
        if a.deprecated: continue
        if not a.option_strings:
            n = a.nargs
            k = 1 if n is None else (rng.randint(0, 1) if n == '?' else rng.randint(0, 3) if n == '*' else rng.randint(1, 3) if n == '+' else (n if isinstance(n, int) else 1))
            pos += [val(a, rng) for _ in range(k)]
        elif a.required or a is force or rng.random() < p:
            o = rng.choice(a.option_strings); n = a.nargs
            if n == 0: parts.append(o)
            elif n in (None, '?', 1): parts.append("%s=%s" % (o, val(a, rng)))
            else:
                parts.append(o); parts += [val(a, rng) for _ in range(rng.randint(1, 2))]
    return parts + pos

def features(d, base):
    """attributes that differ from the defaults, with a coarse value"""
    out = set()
    def walk(x, y, path):
        if isinstance(x, dict) and "__obj__" in x:
            yy = y["a"] if isinstance(y, dict) and "a" in y else {}
            for k, v in x["a"].items():
                if k == "seen": continue
                if k not in yy or yy[k] != v:
                    if isinstance(v, list) and v and isinstance(v[0], dict):
                        for i in v: walk(i, None, path + "." + k)
                    elif v not in (None, "", [], False, 0):
                        out.add((path + "." + k, 0))
                        out.add((path + "." + k, str(v)[:12] if isinstance(v, (bool, int, str)) and len(str(v)) < 14 else type(v).__name__))
    walk(d, base, "")
    return out

def full(v, l):
    h = makeVersion(v)
    try:
        h.dispatcher(list(l), 1)
    except Exception:
        return None
    d = dump.handler(h, seen=False)
    s = str(h)
    try:
        h2 = makeVersion(v)
        KickstartParser(h2).readKickstartFromString(s)
        return dump.handler(h2, seen=False) == d and str(h2) == s
    except Exception:
        return False

def work(job):
    v, cands, seed = job
    rng = random.Random(seed)
    h0 = makeVersion(v); hA = makeVersion(v); hB = makeVersion(v)
    base = dump.commands(h0, seen=False)
    res = {"good": {}, "bad": {}, "warn": {}}
    for cmd in sorted(h0.commands):
        o = h0.commands[cmd]
        if isinstance(o, RemovedCommand) or isinstance(o, DeprecatedCommand):
            kind = "bad" if isinstance(o, RemovedCommand) else "warn"
            res[kind][cmd] = [[cmd]]
            continue
        lines = [tuple(x) for x in cands.get(cmd, [])]
        if hasattr(o, "op"):
            for a in o.op._actions:
                for t in range(8):
                    lines.append(tuple(gen(cmd, o, rng, force=a, p=rng.choice([0, 0.1, 0.3]))))
        lines = list(dict.fromkeys(lines))
        rng.shuffle(lines)
        ok = []; bad = []; warn = []
        for l in lines:
            h = hA
            h.resetCommand(cmd)
            try:
                h.dispatcher(list(l), 1)
            except KickstartParseWarning:
                warn.append(l); continue
            except pykickstart.errors.KickstartParseError:
                bad.append(l); continue
            except Exception as e:
                continue
            d = dump.command(h.commands[cmd], seen=False)
            stable = False
            try:
                s = str(h.commands[cmd])
                hB.resetCommand(cmd)
                KickstartParser(hB).readKickstartFromString(s)
                stable = dump.command(hB.commands[cmd], seen=False) == d and str(hB.commands[cmd]) == s
            except Exception:
                pass
            ok.append((l, stable, features(d, base[cmd])))
        # greedy cover
        chosen = []
        for want in (True, False):
            pool = [x for x in ok if x[1] is want]
            count = collections.Counter(); 
            cap = 16 if want else 4
            n = 0
            while pool and n < cap:
                best = max(pool, key=lambda x: (sum(1.0 / (1 + 3 * count[f]) if count[f] < 3 else 0 for f in x[2]), -len(x[0])))
                gain = sum(1 for f in best[2] if count[f] < 2)
                if n >= 3 and gain == 0: break
                pool.remove(best)
                real = full(v, best[0])
                if real is None: continue
                n += 1
                for f in best[2]: count[f] += 1
                chosen.append([list(best[0]), real])
        if chosen: res["good"][cmd] = chosen
        # rejected: prefer mined, short
        bad.sort(key=lambda l: (len(l), l))
        if bad: res["bad"][cmd] = [list(x) for x in rng.sample(bad, min(3, len(bad)))]
        if warn: res["warn"][cmd] = [list(x) for x in warn[:2]]
    return v, res

def main():
    mined, out = sys.argv[1:3]
    cands = collections.defaultdict(dict)
    for l in open(mined):
        kind, cls, s = json.loads(l)
        try: args = shlex.split(s, comments=True)
        except ValueError: continue
        if args and "\n" not in s: cands[args[0]][tuple(args)] = 1
    extra = [
        "mouse generic3ps/2 --device psaux --emulthree", "mouse none", "device scsi aha1542 --opts=io=0x330",
        "btrfs / --label=root --data=1 --metadata=2 btrfs.01 btrfs.02", "snapshot fedora/root --name=snap --when=post-install",
    ]
    for s in extra:
        a = s.split(); cands[a[0]][tuple(a)] = 1
    cands = {k: [list(x) for x in v] for k, v in cands.items()}
    vers = [v for v in versionMap if v != "DEVEL"]
    with multiprocessing.Pool(8) as p:
        res = dict(p.map(work, [(v, cands, "corpus-" + v) for v in vers], chunksize=1))
    table = {}; 
    def idx(args):
        return table.setdefault(tuple(args), len(table))
    o = {}
    for v in vers:
        r = res[v]
        o[v] = {"good": {c: [[idx(a), 1 if s else 0] for a, s in ls] for c, ls in sorted(r["good"].items())},
                "bad": {c: [idx(a) for a in ls] for c, ls in sorted(r["bad"].items())},
                "warn": {c: [idx(a) for a in ls] for c, ls in sorted(r["warn"].items())}}
    json.dump({"lines": [list(a) for a in table], "versions": o}, open(out, "w"), separators=(",", ":"))
    for v in vers:
        print(v, sum(len(x) for x in o[v]["good"].values()), sum(s for x in o[v]["good"].values() for _, s in x),
              "no stable:", [c for c, x in o[v]["good"].items() if not any(s for _, s in x)], "none:", [c for c in makeVersion(v).commands if c not in o[v]["good"] and c not in o[v]["warn"] and c not in o[v]["bad"]])
main()

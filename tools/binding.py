#!/usr/bin/env python3
"""tools/binding.py [C08 C11 ...]: how tightly each trace specification binds what is recorded.

Runs the drivers of each check, alters one number in a copy of a recorded line (an integer by
one, a 0/1 flag flipped, a fixed-point value by 10^-4 or 10^-8 of its unit) and asks TLC
whether the altered line is still a step of the specification.  Prints, for every kind of
line and field, how many alterations were rejected.  Arguments the result does not depend
on may be altered freely; a result that may be is a hole."""
import collections, importlib, json, os, random, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True
import vf

PER = int(os.environ.get("PER", "6"))


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if k != "e":
                yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    elif isinstance(x, int):
        yield path


def get(x, p):
    for k in p:
        x = x[k]
    return x


def put(x, p, v):
    for k in p[:-1]:
        x = x[k]
    x[p[-1]] = v


def name(p):
    return ".".join(("#" if k > 15 else str(k)) if isinstance(k, int) else k for k in p)


class Ctx(vf.Ctx):
    def mc(self, *a, **k):
        pass

    def validate(self, module, trace, cfg=None, what="", reset=None, env=None, **kw):
        text = open(os.path.join(HERE, "specs", module + ".tla")).read()
        if reset is not None or "Ok /\\ l' = l + 1" not in text:
            return self.sequential(module, trace, reset)
        rows = [json.loads(x) for x in open(trace)]
        byfield = collections.defaultdict(list)
        for n in random.sample(range(len(rows)), min(len(rows), 3000)):
            for p in leaves(rows[n]):
                key = (rows[n].get("e", "?"), name(p))
                if len(byfield[key]) < 200:
                    byfield[key].append((n, p))
        bad = []
        for key, c in byfield.items():
            for n, p in random.sample(c, min(PER, len(c))):
                r = json.loads(json.dumps(rows[n]))
                par = get(r, p[:-1]) if len(p) > 1 else None
                v = get(r, p)
                if isinstance(par, list) and len(par) == 5 and all(isinstance(t, int) for t in par) and "tr_fx" in self.src:
                    q = p[:-1] + (random.choice((1, 2)),)
                    put(r, q, get(r, q) + 1)
                elif v in (0, 1):
                    put(r, p, 1 - v)
                else:
                    put(r, p, v + random.choice((-1, 1)))
                bad.append((key, r))
        hit = collections.Counter()
        tot = collections.Counter(k for k, _ in bad)
        todo = list(bad)
        mod = "Corrupted_" + module
        d = os.path.join(HERE, "specs")
        # the altered lines, each judged on its own
        spec = os.path.join(self.tmp, mod + ".tla")
        with open(spec, "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS %s\nCNext == l <= Len(Trace) /\\ (IF Ok THEN TRUE ELSE PrintT(<<\"BAD\", l>>)) /\\ l' = l + 1\n====\n" % (mod, module))
        c = os.path.join(self.tmp, mod + ".cfg")
        with open(c, "w") as f:
            f.write("INIT TInit\nNEXT CNext\nCHECK_DEADLOCK FALSE\n")
        for x in os.listdir(d):
            y = os.path.join(self.tmp, x)
            if not os.path.exists(y):
                os.symlink(os.path.join(d, x), y)
        while todo:
            p = os.path.join(self.tmp, "bad.ndjson")
            with open(p, "w") as f:
                f.write("".join(json.dumps(r) + "\n" for _, r in todo))
            out = self._tlc(mod + ".tla", mod + ".cfg", 1, env=dict({"TRACE": p}, **(env or {})), timeout=1500, specdir=self.tmp)[3]
            for m in re.finditer(r'<<"BAD", (\d+)>>', out):
                hit[todo[int(m.group(1)) - 1][0]] += 1
            if "No error has been found" in out:
                break
            # an alteration on which the specification is undefined: rejected, too
            m = re.findall(r"^/\\ l = (\d+)|^l = (\d+)", out, re.M)
            n = max([int(a or b) for a, b in m] or [1])
            if "Error" not in out or n > len(todo):
                print(out[-1500:])
                break
            hit[todo[n - 1][0]] += 1
            todo = todo[n:]
        for k in sorted(tot):
            print("%s %-14s %-10s %-14s %d/%d%s" % (self.prop, module, k[0], k[1], hit[k], tot[k], "   <-- free" if not hit[k] else ""))
        print("%s %s total %d/%d" % (self.prop, module, sum(hit.values()), sum(tot.values())), flush=True)

    def sequential(self, module, trace, reset):
        rows = [json.loads(x) for x in open(trace)]
        if reset is False:
            hist = [rows[:400]]
        else:
            marks = (reset,) if isinstance(reset, str) else reset
            hist, cur = [], []
            for r in rows:
                if r.get("e") in marks and cur:
                    hist.append(cur)
                    cur = []
                cur.append(r)
            hist.append(cur)
        hit = tot = 0
        free = collections.Counter()
        for _ in range(int(os.environ.get("SEQ", "40"))):
            h = json.loads(json.dumps(random.choice(hist)[:400]))
            r = random.choice(h)
            c = list(leaves(r))
            if not c:
                continue
            p = random.choice(c)
            v = get(r, p)
            put(r, p, 1 - v if v in (0, 1) else v + random.choice((-1, 1)))
            q = os.path.join(self.tmp, "bad.ndjson")
            with open(q, "w") as f:
                f.write("".join(json.dumps(x) + "\n" for x in h))
            rc = self._tlc(module + ".tla", module + ".cfg", 1, env={"TRACE": q})[0]
            tot += 1
            hit += rc != 0
            if rc == 0:
                free[(r.get("e"), name(p))] += 1
        print("%s %s histories: %d/%d rejected; accepted: %s" % (self.prop, module, hit, tot, dict(free)), flush=True)

    def driver(self, name, *a, **k):
        for x in (".c", ".cc"):
            f = os.path.join(HERE, "drivers", name + x)
            if os.path.exists(f):
                self.src = open(f).read()
        return super().driver(name, *a, **k)


random.seed(int(os.environ.get("VERIF_SEED", "1")))
for i in sys.argv[1:] or ["C%02d" % k for k in range(1, 100) if os.path.exists(os.path.join(HERE, "checks", "c%02d.py" % k))]:
    ctx = Ctx(i, "quick", 1)
    try:
        importlib.import_module(i.lower()).run(ctx)
    finally:
        ctx.cleanup()

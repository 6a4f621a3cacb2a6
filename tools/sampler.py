"""Bounded exploration of two decision tables that are too large to enumerate.

Both versions are interpreted abstractly under the same complete choice of atom values (a pseudo-random but fixed
function of the atom, plus explicit overrides); starting from seeded choices, every decision on a newly reached abstract
path is flipped in turn.  Nothing is executed and no solver is involved: this explores a deterministic subset of the same
disjoint abstract paths that the full tables consist of, and is reported as such.
"""
import random
import time
import zlib

import absint
import equiv
from absint import Limit
from equiv import OTHER, DEngine, canon, path_of, rewrite_out


class SEngine(DEngine):
    """follows, at each decision, only the case that the oracle's choice allows"""

    oracle = None

    def choose(self, st, alts):
        if self.oracle is None:
            return alts
        alts = list(alts)
        if len(alts) < 2:
            return alts
        picked = []
        for a in alts:
            d = [(k, v) for k, v in a[0].cons.items() if st.cons.get(k) != v]
            ok = True
            for k, v in d:
                if not self.oracle.allows(self, k, v):
                    ok = False
                    break
            if ok:
                picked.append(a)
        return picked


class Oracle:
    def __init__(self, nrep):
        self.nrep = nrep
        self.asked = {}
        self.new = {}
        self.doms = {}
        self.seed = 0
        self.over = {}
        self.val = {}

    def start(self, seed, over):
        self.seed, self.over, self.val = seed, over, {}

    def end(self):
        for k, vs in self.new.items():
            self.asked.setdefault(k, set()).update(vs)
        self.new = {}

    def allows(self, e, k, v):
        if k[0] == "var":
            key = ("var", canon(k[1]))
            if key not in self.doms:
                self.doms[key] = list(e.vardom.get(k[1]) or ())
            if isinstance(v, str):
                self.new.setdefault(key, set()).add(v)
                return self.value(key) == v
            return self.value(key) not in v
        if k[0] == "eqv":
            key = ("eqv", canon(k[1]))
            known, x = v
            xs = [canon(x)] if known else [canon(y) for y in x]
            self.new.setdefault(key, set()).update(xs)
            return (self.value(key) in xs) == bool(known)
        if k[0] == "nonempty":
            return self.value(("ne", canon(k[1]))) == v
        return self.value(("b", canon(k))) == int(bool(v))

    def options(self, key):
        if key[0] == "b":
            return [0, 1]
        if key[0] == "ne":
            return list(range(self.nrep + 1))
        asked = sorted(self.asked.get(key, ()), key=repr)
        if key[0] == "eqv":
            return asked + [OTHER]
        dom = self.doms.get(key) or []
        rest = [x for x in dom if x not in self.asked.get(key, ())]
        return asked + rest[:1] if asked else dom

    def value(self, key):
        if key in self.val:
            return self.val[key]
        if key in self.over:
            v = self.over[key]
        else:
            h = zlib.crc32(repr((self.seed, key)).encode())
            o = self.options(key)
            if key[0] == "ne" and len(o) == 3:
                o = [0, 1, 1, 2]
            if key[0] == "var" and set(o) == {"Some", "None"}:
                o = ["Some", "Some", "None"]
            v = o[(h >> 7) % len(o)] if o else OTHER
        self.val[key] = v
        return v


class Sampler:
    def __init__(self, conf, key, extra, nrep, runs, seconds, strict=False):
        self.conf, self.key, self.nrep = conf, key, nrep
        self.runs, self.deadline = runs, time.time() + seconds
        self.oracle = Oracle(nrep)
        self.sides = []
        for V, memo in ((conf.R, conf.memoR), (conf.C, conf.memoC)):
            self.sides.append((V, V.fns[key], conf.inl(V, extra), memo.setdefault((extra, strict), {})))
        self.done = self.skipped = 0

    def run1(self, side):
        V, body, inl, memo = side
        e = SEngine(V, inl, self.nrep, 64, memo, 0, 0, False)
        e.oracle = self.oracle
        e.max_steps = 60000
        st = absint.State()
        args = [e.arg_value(st, body, i) for i in range(1, body.nargs + 1)]
        out = []
        for s, v in e.run_body(st, body, args, (), 0, ()):
            p = path_of(e, s, v, args)
            if p is not None:
                out.append(p)
            if len(out) > 64:
                raise Limit("paths")
        return out, e.cuts

    def pair(self, seed, over):
        """None | (assignment, outcomes, outcomes); also the atoms met"""
        o = self.oracle
        o.start(seed, over)
        try:
            pa, ca = self.run1(self.sides[0])
            pb, cb = self.run1(self.sides[1])
        except Limit:
            self.skipped += 1
            o.end()
            return None, ()
        keys = list(dict.fromkeys(k for p in pa + pb for k in p[0]))
        asg = {k: o.value(k) for k in keys}
        o.end()
        self.done += 1
        if not pa and ca or not pb and cb or not pa and not pb:
            return None, asg
        oa, ob = {p[1] for p in pa}, {p[1] for p in pb}
        if oa == ob:
            return None, asg
        m = {}
        if {rewrite_out(x, asg, m) for x in oa} == {rewrite_out(x, asg, m) for x in ob}:
            return None, asg
        return (asg, oa, ob), asg

    def run(self):
        rnd = random.Random(1)
        for i in range(40):  # learn which values the two versions ask about
            self.pair(1000 + i, {})
        queue = [(i, {}) for i in range(60)]
        seen = set()
        while queue and self.done + self.skipped < self.runs and time.time() < self.deadline:
            j = rnd.randrange(len(queue))
            queue[j], queue[-1] = queue[-1], queue[j]
            seed, over = queue.pop()
            d, asg = self.pair(seed, over)
            if d is not None:
                return d
            sig = hash(frozenset(asg.items())) if asg else 0
            if not asg or sig in seen:
                continue
            seen.add(sig)
            if len(queue) < 60000:
                for k, v in asg.items():
                    for x in self.oracle.options(k):
                        if x != v:
                            o2 = dict(over)
                            o2[k] = x
                            queue.append((seed, o2))
        self.paths = len(seen)
        return None

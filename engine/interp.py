"""Context-sensitive forward dataflow over the MIR of one contract entry point.

Every local function and closure is expanded at its call site; values are gated value-numbered terms
(terms.py); each program point carries a path predicate; joins gate the differing values; loops are
analysed once with the values they modify replaced by loop-carried unknowns (`mu`).  No path is
executed or enumerated and no solver is consulted.  The result is a Summary: the list of externally
visible effects (storage reads/writes, authorisations, cross-contract calls, deployments, events) with
the predicate under which each is reached, the predicate of successful return and the return value.
"""
import re
from . import facts as F
from .terms import *
from .terms import _top, _cof, _pushes

OPAQUE_CRATES = {"soroban_decimal", "curve"}
INTS = {"i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "i128": (128, 1), "isize": (64, 1),
        "u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0), "u128": (128, 0), "usize": (64, 0), "bool": (1, 0), "char": (32, 0)}
READ_PREFIX = ("query_", "simulate_", "get_", "balance", "allowance", "decimals", "name", "symbol", "spendable_balance", "authorized")


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("vars", "store", "fam", "epoch", "pc")

    def copy(self):
        s = State()
        s.vars = dict(self.vars)
        s.store = dict(self.store)
        s.fam = dict(self.fam)
        s.epoch = self.epoch
        s.pc = self.pc
        return s


class Event:
    __slots__ = ("kind", "pc", "loops", "site", "fn", "d", "seq")

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return "%s %s {%s}%s @%s" % (self.kind, " ".join("%s=%s" % (k, v) for k, v in self.d.items()), self.pc, " in " + ",".join(show(l) for l in self.loops) if self.loops else "", self.site)


class Frame:
    __slots__ = ("id", "fn", "body", "T", "chain", "rets")


class Summary:
    pass


def loopy(t):
    """depends on a loop's current position or carried value"""
    return any(x.op in ("bv", "bvi", "acc", "mu") for x in subterms(t))


class Interp:
    def __init__(self, prog, opaque_crates=OPAQUE_CRATES, depth=40, opaque_fns=None):
        self.opaque_fns = opaque_fns or {}
        self.prog = prog
        self.opaque_crates = opaque_crates
        self.nframe = 0
        self.events = []
        self.casts = []
        self.valty = {}
        self.at = None
        self.loopstk = []
        self.headstk = []
        self.seqs = {}
        self.turn = {}
        self.closing = set()
        self.goes = {}
        self.gates = {}
        self.whole = set()
        self.skips = {}
        self.counted = set()    # positions counted up to the length of their sequence
        self.counters = {}
        self.alias = {}
        self.noalias = set()
        self.loopq = {}
        self.loops = {}
        self.mus = {}
        self.warn = []
        self.depth = depth
        self.fnobj = {}
        self.stats = {"blocks": 0, "stmts": 0, "calls": 0, "inlined": set(), "opaque": set(), "loops": 0}
        self.constcache = {}

    # ------------------------------------------------------------ state helpers
    def merge(self, ss):
        ss = [s for s in ss if s is not None and s.pc is not FALSE]
        if not ss:
            return None
        if len(ss) == 1:
            return ss[0]
        a = ss[0]
        for b in ss[1:]:
            a = self.merge2(a, b)
        return a

    def merge2(self, a, b):
        u = bor(a.pc, b.pc)
        c = constrain(a.pc, u)
        r = State()
        r.pc = u
        r.vars = self._mergedict(c, a.vars, b.vars)
        r.epoch = ite(c, a.epoch, b.epoch)
        fam = {}
        for k in set(a.fam) | set(b.fam):
            fam[k] = ite(c, a.fam.get(k, FALSE), b.fam.get(k, FALSE))
        r.fam = fam
        st = {}
        for k in list(a.store) + [k for k in b.store if k not in a.store]:
            x = a.store.get(k)
            y = b.store.get(k)
            if x is None:
                x = self._base(a, k)
            if y is None:
                y = self._base(b, k)
            st[k] = ite(c, x, y)
        r.store = st
        return r

    def _mergedict(self, c, a, b):
        r = dict(a)
        for k, v in b.items():
            x = r.get(k)
            if x is None:
                r[k] = v
            elif x is not v:
                r[k] = ite(c, x, v)
        return r

    # ------------------------------------------------------------ references
    def newtemp(self, st, v):
        self.nframe += 1
        k = (-self.nframe, 0)
        st.vars[k] = v
        return mk("ref", k, ())

    def deref(self, st, t, depth=0):
        """value behind a reference (opaque values stand for themselves)"""
        if t.op == "ref":
            return self.readplace(st, t.args[0], t.args[1])
        if t.op == "ite":
            return leafmap(t, lambda l: self.deref(st, l))
        return t

    def readplace(self, st, root, projs):
        v = st.vars.get(root, UNDEF)
        for p in projs:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        k = p[0]
        if k == "*":
            return self.deref(st, v)
        if k == "f":
            return field(v, p[1])
        if k == "vf":
            return vfield(v, p[1], p[2])
        if k == "i":
            return self.index(v, p[1])
        if k == "x":
            return mk("sub", v, *p[1:])
        raise Unsupported(str(p))

    def index(self, v, i):
        if v.op == "agg" and v.args[0] == "array" and is_int(i):
            n = i.args[0]
            if 0 <= n < len(v.args) - 3:
                return v.args[3 + n]
        if v.op == "ite":
            return leafmap(v, lambda l: self.index(l, i))
        if v is UNDEF:
            return v
        if v.op == "agg" and v.args[0] == "array" and 1 < len(v.args) - 3 <= 4 and not loopy(i):
            # one of a few (the bounds check comes first)
            r = v.args[-1]
            for n in range(len(v.args) - 5, -1, -1):
                r = ite(eqn(i, I(n)), v.args[3 + n], r)
            return r
        return mk("idx", v, i)

    def writeplace(self, st, root, projs, v, cond=TRUE):
        old = st.vars.get(root, UNDEF)
        # writing through a reference stored in root?
        for n, p in enumerate(projs):
            if p[0] == "*":
                r = old
                for q in projs[:n]:
                    r = self.proj(st, r, q)
                self.writeref(st, r, projs[n + 1:], v, cond)
                return
        new = self._upd(st, old, list(projs), v)
        st.vars[root] = new if cond is TRUE else ite(cond, new, old)

    def writeref(self, st, r, projs, v, cond=TRUE):
        if r.op == "ref":
            self.writeplace(st, r.args[0], tuple(r.args[1]) + tuple(projs), v, cond)
        elif r.op == "ite":
            for c, l in leaves(r):
                self.writeref(st, l, projs, v, band(cond, c))
        elif r is UNDEF:
            pass
        else:
            self.warn.append("write through unmodelled reference %s" % show(r))

    def _upd(self, st, old, projs, v):
        if not projs:
            return v
        p = projs[0]
        if p[0] == "f":
            return setfield(old, p[1], self._upd(st, field(old, p[1]), projs[1:], v), p[2] if len(p) > 2 else None)
        if p[0] == "vf":
            inner = self._upd(st, vfield(old, p[1], p[2]), projs[1:], v)
            if old.op == "agg" and old.args[1] == p[1]:
                return setfield(old, p[2], inner)
            if old.op == "ite":
                return leafmap(old, lambda l: self._upd(st, l, projs, v))
            if old is UNDEF:
                return old
            return mk("vupd", old, p[1], p[2], inner)
        if p[0] == "i":
            if old.op == "agg" and old.args[0] == "array" and is_int(p[1]):
                vals = list(old.args[3:])
                vals[p[1].args[0]] = self._upd(st, vals[p[1].args[0]], projs[1:], v)
                return mk("agg", "array", None, old.args[2], *vals)
            return mk("idxupd", old, p[1], self._upd(st, self.index(old, p[1]), projs[1:], v))
        raise Unsupported("update " + str(p))

    def resolve(self, st, t, d=0):
        """replace references inside a value by what they point to"""
        if d > 8:
            return t
        if t.op == "ref":
            return self.resolve(st, self.deref(st, t), d + 1)
        if t.op == "ite":
            return leafmap(t, lambda l: self.resolve(st, l, d + 1))
        if t.op == "agg" and len(t.args) > 3:
            vals = [self.resolve(st, x, d + 1) for x in t.args[3:]]
            if all(x is y for x, y in zip(vals, t.args[3:])):
                return t
            return agg(t.args[0], t.args[1], t.args[2], vals)
        if t.op in ("clos", "itmap", "it", "vec", "vpush") or any(isinstance(x, T) and x.op == "ref" for x in t.args):
            na = tuple(self.resolve(st, x, d + 1) if isinstance(x, T) else x for x in t.args)
            return mk(t.op, *na)
        return t

    # ------------------------------------------------------------ places / operands
    def place(self, fr, st, p):
        """MIR place -> (root, projs) with leading derefs resolved when they are plain references"""
        root = (fr.id, p[0])
        projs = []
        variant = None
        for e in p[1]:
            if e == "*":
                # resolve the reference now
                v = self.readplace(st, root, tuple(projs))
                if v.op == "ref":
                    root = v.args[0]
                    projs = list(v.args[1])
                elif v.op == "ite":
                    projs.append(("*",))
                # opaque: a reference to an unknown value is that value itself
            elif e == "cast":
                pass
            elif "f" in e:
                if variant is not None:
                    projs.append(("vf", variant, e["n"]))
                    variant = None
                else:
                    projs.append(("f", e["n"], e.get("a")))
            elif "d" in e:
                variant = e["n"]
            elif "i" in e:
                projs.append(("i", self.resolve(st, st.vars.get((fr.id, e["i"]), UNDEF))))
            elif "c" in e:
                o, ml, fe = e["c"]
                projs.append(("i", I(o)) if not fe else ("x", "end", o))
            elif "s" in e:
                projs.append(("x", "slice", tuple(e["s"])))
            else:
                raise Unsupported("proj %s" % e)
        return root, tuple(projs)

    def readp(self, fr, st, p):
        if not p[1]:
            return st.vars.get((fr.id, p[0]), UNDEF)
        root, projs = self.place(fr, st, p)
        return self.readplace(st, root, projs)

    def operand(self, fr, st, o):
        k = o["k"]
        if k in ("cp", "mv"):
            return self.readp(fr, st, o["p"])
        if k == "int":
            return I(int(o["v"]))
        if k == "str":
            return mk("str", o["v"])
        if k == "fn":
            self.fnobj[o["key"]] = (o, fr.T)
            return mk("fnitem", o["key"])
        if k == "zst":
            ty = fr.T[o["t"]]
            if ty["k"] == "closure":
                return mk("clos", ty["d"])
            if ty["k"] == "tuple":
                return UNIT
            if ty["k"] == "adt":
                return mk("agg", ty["d"], None, ())
            return mk("zst", ty["s"])
        if k == "promoted":
            fn = self.prog.fns.get(o["def"])
            if fn is None:
                return mk("const", o["def"], o["i"])
            v = self.constbody(fn, fn.promoted[o["i"]], st)
            return v
        if k == "named":
            fn = self.prog.fns.get(o["def"])
            if fn is None:
                return mk("const", o["def"])
            return self.constbody(fn, fn.body, st)
        if k == "bits":
            return mk("const", o["v"], fr.T[o["t"]]["s"])
        return mk("const", o.get("v", "?"), fr.T[o["t"]]["s"])

    def constbody(self, fn, body, st):
        """value of a constant / promoted body (references to constants stand for their value)"""
        k = (fn.key, id(body))
        v = self.constcache.get(k)
        if v is None:
            s = State()
            s.vars, s.store, s.fam, s.epoch, s.pc = {}, {}, {}, FALSE, TRUE
            r = self.run_body(fn, body, [], s, [("const", "")])
            v = UNDEF if r is None else r[1]
            self.constcache[k] = v
        return v

    # ------------------------------------------------------------ bodies
    def run_body(self, fn, body, args, st, chain):
        fr = Frame()
        self.nframe += 1
        fr.id = self.nframe
        fr.fn = fn
        fr.body = body
        fr.T = fn.T
        fr.chain = chain
        fr.rets = []
        s = st
        for i, a in enumerate(args):
            s.vars[(fr.id, i + 1)] = a
        c = F.cfg(fn, body)
        self.region(fr, c, set(c.rpo), 0, s, None)
        if not fr.rets:
            return None
        out = self.merge(fr.rets)
        if out is None:
            return None
        rv = out.vars.get((fr.id, 0), UNIT)
        rv = self.unframe(out, rv, fr.id)
        for k in [k for k in out.vars if k[0] == fr.id]:
            del out.vars[k]
        return out, rv

    def unframe(self, st, v, fid):
        """a returned value must not refer to the callee's frame"""
        if v.op == "ref" and v.args[0][0] == fid:
            return self.resolve(st, v)
        if v.op in ("agg", "clos") and any(isinstance(x, T) and x.op == "ref" and x.args[0][0] == fid for x in v.args):
            return mk(v.op, *[self.unframe(st, x, fid) if isinstance(x, T) else x for x in v.args])
        return v

    def region(self, fr, c, blocks, entry, st, header):
        """forward dataflow over `blocks`; returns (states on edges back to header, exit edges)"""
        pend = {entry: [st]}
        backs, exits = [], []

        def route(t, s):
            if t not in c.live:
                return      # ends in a panic
            if t == header:
                backs.append(s)
            elif t in blocks:
                pend.setdefault(t, []).append(s)
            else:
                exits.append((t, s))
        for b in c.rpo:
            if b not in blocks or b not in pend:
                continue
            s = self.merge(pend.pop(b))
            if s is None:
                continue
            if b in c.loops and b != header:
                for t, x in self.loop(fr, c, b, s):
                    route(t, x)
            else:
                for t, x in self.block(fr, b, s):
                    route(t, x)
        return backs, exits

    # ------------------------------------------------------------ loops
    def used_locals(self, fr, blocks):
        r = set()

        def w(o):
            if isinstance(o, list):
                if len(o) == 2 and isinstance(o[0], int) and isinstance(o[1], list):
                    r.add(o[0])
                    for e in o[1]:
                        if isinstance(e, dict) and "i" in e:
                            r.add(e["i"])
                    return
                for x in o:
                    w(x)
            elif isinstance(o, dict):
                for k, x in o.items():
                    if k in ("p",) or isinstance(x, (list, dict)):
                        w(x)
        for b in blocks:
            st, t = fr.body["blocks"][b]
            for s in st:
                w(s)
            if t[0] == "call":
                w(t[2])
                w(t[3])
                w(t[1])
            else:
                w(t)
        return r

    def loop_term(self, fr, h, sig, what, span):
        LP = mk("loop", what, h, *sig, *[("turn", self.turn[l][0]) for l in self.loopstk if l in self.turn])
        self.loops[LP] = {"fn": fr.fn.path, "span": span, "chain": list(fr.chain)}
        return LP

    def loop(self, fr, c, h, st):
        blocks = c.loops[h]
        sig, its = [], []
        for l in sorted(self.used_locals(fr, blocks)):
            v = st.vars.get((fr.id, l))
            if v is not None and v is not UNDEF:
                sig.append(self.resolve(st, v))
                ty = fr.T[fr.body["locals"][l]]
                if ty["k"] == "adt" and re.search(r"Iter\b|::Range\b|iter::adapters", ty["d"]):
                    its.append(sig[-1])
        t = fr.body["blocks"][h][1]
        LP = self.loop_term(fr, h, sig, fr.fn.key, t[5] if t[0] in ("call", "switch", "assert") and isinstance(t[5], str) else fr.fn.span)

        def body(s):
            return self.region(fr, c, blocks, h, s, h)
        nested = any(b in c.loops for b in blocks if b != h)
        if any(concrete(x) and not (x.op == "agg" and nested) for x in its):
            r = self.peel(LP, st, body)
            if r is not None:
                return r
        return self.fix(LP, st, body)

    def peel(self, LP, st, body):
        """loop over a sequence whose elements are written out: one copy of the body per element; None: not such a loop"""
        mark, cmark = len(self.events), len(self.casts)
        out, s, k = [], st.copy(), 0
        while s is not None:
            self.loopstk.append(LP)
            self.headstk.append(s)
            for d in (self.skips, self.seqs, self.gates):
                d.pop(LP, None)
            self.turn[LP] = [k, None]
            try:
                backs, exits = body(s.copy())
            finally:
                self.loopstk.pop()
                self.headstk.pop()
                n = self.turn.pop(LP)[1]
            if n is None or LP in self.seqs or (backs and k >= n):
                del self.events[mark:]
                del self.casts[cmark:]
                self.seqs.pop(LP, None)
                return None
            sk = self.skips.pop(LP, FALSE)
            self.gates.pop(LP, None)
            if sk is not FALSE:
                x = s.copy()
                x.pc = sk
                backs = backs + [x]
            out += exits
            s = self.merge(backs)
            k += 1
        self.stats["peeled"] = self.stats.get("peeled", 0) + 1
        # edges that leave for the same place are one edge
        res = []
        for t, x in out:
            for i, (u, y) in enumerate(res):
                if u == t:
                    res[i] = (t, self.merge([y, x]))
                    break
            else:
                res.append((t, x))
        return res

    def inloops(self):
        return tuple(l for l in self.loopstk if l not in self.turn)

    def ix(self, LP, xs):
        """position of the current element of xs"""
        return I(self.turn[LP][0]) if LP in self.turn and concrete(xs) else mk("index", LP, xs)

    def fix(self, LP, st, body):
        """generic loop fixpoint.  body(head state) -> (back states, exits)"""
        self.stats["loops"] += 1
        rank = {f: i for i, f in enumerate(sorted({k[0] for k in st.vars}, key=lambda f: -abs(f)))}
        vname = lambda k: "v%d%s:" % (k[1], ".%d" % rank[k[0]] if rank[k[0]] else "")
        head = st.copy()
        for rnd in range(60):
            mark, cmark = len(self.events), len(self.casts)
            self.loopstk.append(LP)
            self.headstk.append(head)
            self.skips.pop(LP, None)
            self.seqs.pop(LP, None)
            self.gates.pop(LP, None)
            try:
                backs, exits = body(head.copy())
            finally:
                self.loopstk.pop()
                self.headstk.pop()
            sk = self.skips.get(LP, FALSE)
            if sk is not FALSE:
                x = head.copy()
                x.pc = sk
                backs = backs + [x]
            bk = self.merge(backs)
            if bk is None:
                # no second iteration: the loop body runs at most once
                return self.close(LP, head, self.dead(head), exits)
            ch = False
            new = head.copy()
            for k, v in head.vars.items():
                b = bk.vars.get(k, v)
                if b is not v:
                    g = self.gen(LP, vname(k), v, b, st.vars.get(k), bk.pc)
                    if g is not v:
                        new.vars[k] = g
                        ch = True
            for k in bk.store:
                b = bk.store[k]
                v = head.store.get(k)
                if v is None:
                    if self.depends(k[1], LP):
                        famk = (k[0],) + family(k[1])
                        if head.fam.get(famk) is not LP:
                            new.fam[famk] = LP
                            ch = True
                        continue
                    v = self._base(head, k)
                    new.store[k] = v
                    if b is not v:
                        ch = True
                if b is not v:
                    g = self.gen(LP, "s:" + show(k[1]), v, b, st.store.get(k, self._base(st, k)), bk.pc)
                    if g is not v:
                        new.store[k] = g
                        ch = True
            for k in bk.fam:
                if bk.fam[k] is not head.fam.get(k, FALSE) and new.fam.get(k) is not LP:
                    new.fam[k] = LP
                    ch = True
            if bk.epoch is not head.epoch:
                g = self.gen(LP, "epoch", head.epoch, bk.epoch, st.epoch)
                if g is not head.epoch:
                    new.epoch = g
                    ch = True
            if not ch:
                c = self.counter(LP, bk, exits)
                if c is None and self.twins(LP, head):
                    del self.events[mark:]
                    del self.casts[cmark:]
                    head = st.copy()
                    continue
                if c is None:
                    return self.close(LP, head, bk, exits)
                self.counters[(LP, c[0])] = c[1]
                new = st.copy()
                for k in new.vars:
                    if (LP, vname(k)) in self.counters and new.vars[k] is FALSE:
                        new.vars[k] = self.counters[(LP, vname(k))]
            del self.events[mark:]
            del self.casts[cmark:]
            head = new
        raise Unsupported("loop fixpoint did not converge")

    def twins(self, LP, head):
        """loop-carried unknowns that start equal and are stepped equally are one unknown; True: the loop must be redone"""
        ms = []
        for v in list(head.vars.values()) + list(head.store.values()):
            ms += [x for x in subterms(v) if x.op == "mu" and x.args[0] is LP and x not in ms]
        ms.sort(key=lambda m: m.args[1])
        al = {n: (r, s) for (L, n), (r, s) in self.alias.items() if L is LP}
        bad = [n for n, (r, s) in al.items() if s is not None and s is not self.mus[r][1]]
        if bad:
            for n in bad:
                del self.alias[(LP, n)]
                self.noalias.add((LP, n))
            return True
        ms = [m for m in ms if (LP, m.args[1]) not in self.noalias and m.args[1] != "epoch" and self.mus[m][1] is not None]
        part = {}
        for m in ms:
            part.setdefault(self.mus[m][0].id, []).append(m)
        cls = [c for c in part.values() if len(c) > 1]
        while cls:
            rep = {m.id: c[0] for c in cls for m in c[1:]}
            nxt = []
            for c in cls:
                d = {}
                for m in c:
                    d.setdefault(rewrite(self.mus[m][1], rep).id, []).append(m)
                nxt += list(d.values())
            n2 = [c for c in nxt if len(c) > 1]
            if n2 == cls:
                break
            cls = n2
        for c in cls:
            for m in c[1:]:
                self.alias[(LP, m.args[1])] = (c[0], None)
        return bool(cls)

    def dead(self, head):
        s = head.copy()
        s.pc = FALSE
        return s

    def counter(self, LP, bk, exits):
        """a loop-carried unknown that counts 0,1,2.. up to the length of a sequence: (name, position term)"""
        at = {}
        for t in [bk.pc] + [s.pc for _, s in exits]:
            at.update(atoms_of(t))
        if any(a.op == "hasnext" and a.args[0] is LP for a in at.values()):
            return None
        for a in at.values():
            if a.op == "isv" and a.args[0].op == "vget":
                v, m = a.args[0].args
                if m.op == "mu" and m.args[0] is LP and not self.depends(v, LP) and (LP, m.args[1]) not in self.counters:
                    init, step = self.mus.get(m, (None, None))
                    if init is FALSE and step is padd(m, TRUE) and implies(bk.pc, atom(a)):
                        i = mk("index", LP, v)
                        OPEN.add(i)
                        return m.args[1], i
            if a.op != "lt":
                continue
            d = as_poly(a.args[0])
            if sorted(d.values()) != [-1, 1] or any(len(m) != 1 for m in d):
                continue
            x, y = [m[0] for m in d]
            for m, l in ((x, y), (y, x)):
                if m.op == "mu" and m.args[0] is LP and l.op == "len" and not self.depends(l, LP) and (LP, m.args[1]) not in self.counters:
                    init, step = self.mus.get(m, (None, None))
                    if init is FALSE and step is padd(m, TRUE) and implies(bk.pc, lt(m, l)):
                        i = mk("index", LP, l.args[0])
                        self.counted.add(i)
                        return m.args[1], i
        return None

    def gen(self, LP, name, old, new, init, pc=TRUE):
        """widen: keep the common structure, replace what differs by a loop-carried unknown"""
        if old is new or alike(old, new, pc):
            return old
        if old.op == "agg" and new.op == "ite" and len(old.args) > 3 and all(l is UNDEF or l.op == "agg" and l.args[:3] == old.args[:3] for _, l in leaves(new)):
            # one shape under every gate: widen field by field
            new = mk("agg", *(old.args[:3] + tuple(leafmap(new, lambda l: l.args[3 + i]) for i in range(len(old.args) - 3))))
        c = self.counters.get((LP, name))
        if c is not None:
            self.leafseq(LP, c.args[1])
            return c
        al = self.alias.get((LP, name))
        if al is not None:
            if old is al[0]:
                self.alias[(LP, name)] = (al[0], new)
            return al[0]
        if old.op == "mu" and old.args[0] is LP:
            self.mus[old] = (self.mus.get(old, (init, None))[0], new)
            return old
        if old.op == "agg" and new.op == "agg" and old.args[:3] == new.args[:3] and len(old.args) == len(new.args) and len(old.args) > 3:
            ini = init if init is not None and init.op == "agg" and init.args[:3] == old.args[:3] else None
            return mk("agg", *(old.args[:3] + tuple(
                self.gen(LP, name + "." + str(n), a, b, ini.args[3 + i] if ini is not None else None, pc) for i, (n, a, b) in enumerate(zip(old.args[2], old.args[3:], new.args[3:])))))
        m = mk("mu", LP, name)
        self.mus[m] = (init if init is not None else old, new)
        return m

    def depends(self, t, LP):
        for x in subterms(t):
            if x.op in ("mu", "elem", "hasnext", "index") and x.args[0] is LP:
                return True
        return False

    # ------------------------------------------------------------ blocks
    def block(self, fr, b, st):
        self.stats["blocks"] += 1
        stmts, t = fr.body["blocks"][b]
        for s in stmts:
            self.stats["stmts"] += 1
            if s[0] == "=":
                self.at = s[3]
                v = self.rvalue(fr, st, s[2])
                root, projs = self.place(fr, st, s[1])
                self.writeplace(st, root, projs, v)
            elif s[0] == "sd":
                pass
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            fr.rets.append(st)
            return []
        if k in ("unreachable", "unwind"):
            return []
        if k == "assert":
            return [(t[4], st)]
        if k == "switch":
            v = self.operand(fr, st, t[1])
            return self.switch(fr, st, v, t)
        if k == "call":
            r = self.call(fr, st, t)
            if r is None or t[4] < 0:
                return []
            st2, rv = r
            root, projs = self.place(fr, st2, t[3])
            self.writeplace(st2, root, projs, rv)
            return [(t[4], st2)]
        raise Unsupported(k)

    def switch(self, fr, st, v, t):
        ty = fr.T[t[4]]
        rest = TRUE
        out = []
        isb = ty["k"] == "bool"
        vb = tobool(v) if isb else None
        for val, b in t[2]:
            n = int(val)
            if isb:
                c = vb if n else bnot(vb)
            else:
                c = eqn(v, I(n))
            out.append((b, band(rest, c)))
            rest = band(rest, bnot(c))
        out.append((t[3], rest))
        res = []
        live = [(b, c) for b, c in out if c is not FALSE]
        for b, c in live:
            pc = band(st.pc, c)
            if pc is FALSE:
                continue
            if c is not TRUE and not self.feasible(pc):
                continue
            s = st.copy() if len(live) > 1 else st
            s.pc = pc
            res.append((b, s))
        return res

    def feasible(self, pc):
        try:
            return sat(pc, budget=3000) is not None
        except Budget:
            return True

    def rvalue(self, fr, st, r):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref":
            if not r[1]:
                # a shared borrow freezes its referent: it stands for the value it points to
                return self.readp(fr, st, r[2])
            root, projs = self.place(fr, st, r[2])
            if projs and any(p[0] == "*" for p in projs):
                v = self.readplace(st, root, projs)
                if r[1]:
                    # &mut through a gated reference: gate the references instead
                    n = [i for i, p in enumerate(projs) if p[0] == "*"][0]
                    rr = self.readplace(st, root, projs[:n])
                    rest = projs[n + 1:]
                    if not any(p[0] == "*" for p in rest):
                        return leafmap(rr, lambda l: mk("ref", l.args[0], tuple(l.args[1]) + tuple(rest)) if l.op == "ref" else l)
                return v
            return mk("ref", root, projs)
        if k == "cast":
            v = self.operand(fr, st, r[2])
            if r[1].startswith("IntToInt"):
                self.note_cast(fr, st, v, fr.T[r[3]]["s"], fr.T[r[4]]["s"])
            return self.cast(fr, v, r[1], fr.T[r[3]], fr.T[r[4]])
        if k == "bin":
            return self.binop(r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]), fr.T[r[4]])
        if k == "un":
            v = self.operand(fr, st, r[2])
            if r[1] == "Neg":
                return pneg(v)
            if r[1] == "PtrMetadata":
                v = self.deref(st, v)
                if v.op == "agg" and v.args[0] == "array":
                    return I(len(v.args) - 3)
                return mk("len", v)
            if v.op in ("int", "ite") or True:
                if v is TRUE or v is FALSE or v.op == "ite":
                    return bnot(tobool(v))
                if v.op == "poly":
                    return mk("bitnot", v)
                return bnot(tobool(v))
        if k == "discr":
            v = self.readp(fr, st, r[1])
            ty = fr.T[r[2]]
            return discr(v, ty.get("d", ""))
        if k == "agg":
            ops = [self.operand(fr, st, o) for o in r[2]]
            kd = r[1]
            if kd["k"] == "tuple":
                return tup(*ops) if ops else UNIT
            if kd["k"] == "array":
                return mk("agg", "array", None, tuple(str(i) for i in range(len(ops))), *ops)
            if kd["k"] == "closure":
                return mk("clos", kd["d"], *ops)
            if kd["k"] == "adt":
                a = ADTS.get(kd["d"])
                if a and a["variants"]:
                    var = a["variants"][kd["v"]]
                    names = [x[0] for x in var["f"]]
                    if len(names) != len(ops):
                        names = [str(i) for i in range(len(ops))]
                    return agg(kd["d"], var["n"] if a["enum"] else None, names, ops)
                return agg(kd["d"], str(kd["v"]), [str(i) for i in range(len(ops))], ops)
            return mk("call", "aggregate", *ops)
        if k == "repeat":
            n = r[2].split("_")[0]
            v = self.operand(fr, st, r[1])
            if n.isdigit() and int(n) <= 64:
                return mk("agg", "array", None, tuple(str(i) for i in range(int(n))), *([v] * int(n)))
            return mk("repeat", v, r[2])
        if k == "opaque":
            return mk("const", r[1])
        raise Unsupported(k)

    def note_cast(self, fr, st, v, f, t):
        """remember a conversion that can change a number"""
        if f not in INTS or t not in INTS or v is UNDEF:
            return
        (fb, fs), (tb, ts) = INTS[f], INTS[t]
        if (fs == ts and tb >= fb) or (not fs and ts and tb > fb):
            return
        e = Event()
        e.kind, e.pc, e.loops, e.site, e.fn = "cast", st.pc, self.inloops(), self.at, fr.fn.path
        e.d = {"val": v, "from_": f, "to": t, "chain": tuple(fr.chain)}
        self.casts.append(e)

    def cast(self, fr, v, kind, ft, tt):
        if kind.startswith("IntToInt"):
            if v is UNDEF:
                return v
            f, t = ft["s"], tt["s"]
            if f in INTS and t in INTS:
                fb, fs = INTS[f]
                tb, ts = INTS[t]
                if is_int(v):
                    n = v.args[0]
                    lo, hi = (-(1 << (tb - 1)), (1 << (tb - 1)) - 1) if ts else (0, (1 << tb) - 1)
                    if lo <= n <= hi:
                        return v
                if (fs == ts and tb >= fb) or (not fs and ts and tb > fb):
                    return v
                if v.op == "ite":
                    return leafmap(v, lambda l: self.cast(fr, l, kind, ft, tt))
                if v.op == "cast" and v.args[0] == t and v.args[1] == f and fb == tb:
                    return v.args[2]
                return mk("cast", f, t, v)
            # enum -> int
            if ft["k"] == "adt":
                return discr(v, ft["d"])
            return v
        return v

    def binop(self, op, a, b, ty):
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            f = {"A": padd, "S": psub, "M": pmul}[op[0]]
            return tup(f(a, b), mk("ovf", f(a, b)))
        if op.startswith("Add"):
            return padd(a, b)
        if op.startswith("Sub"):
            return psub(a, b)
        if op.startswith("Mul"):
            return pmul(a, b)
        if op == "Div":
            return pdiv(a, b)
        if op == "Rem":
            return prem(a, b)
        if op in ("Lt", "Le", "Gt", "Ge"):
            u = ty["s"] in UNS
            if op == "Lt":
                return ult(a, b) if u else lt(a, b)
            if op == "Le":
                return bnot(ult(b, a) if u else lt(b, a))
            if op == "Gt":
                return ult(b, a) if u else lt(b, a)
            return bnot(ult(a, b) if u else lt(a, b))
        if op in ("Eq", "Ne"):
            if ty["k"] == "bool":
                x, y = tobool(a), tobool(b)
                e = ite(x, y, bnot(y))
            else:
                e = eqn(a, b)
            return e if op == "Eq" else bnot(e)
        if ty["k"] == "bool":
            x, y = tobool(a), tobool(b)
            if op == "BitAnd":
                return band(x, y)
            if op == "BitOr":
                return bor(x, y)
            if op == "BitXor":
                return ite(x, bnot(y), y)
        if op == "Cmp":
            return self.ordering(a, b, True)
        if is_int(a) and is_int(b):
            if op.startswith("Shl"):
                return I(a.args[0] << b.args[0])
            if op.startswith("Shr"):
                return I(a.args[0] >> b.args[0])
        return mk("bop", op, a, b)

    def ordering(self, a, b, numeric):
        O = "core::cmp::Ordering"
        return ite(lt(a, b), mk("agg", O, "Less", ()), ite(eqn(a, b) if numeric else eq(a, b), mk("agg", O, "Equal", ()), mk("agg", O, "Greater", ())))

    # ------------------------------------------------------------ events
    def emit(self, kind, fr, st, site, **d):
        e = Event()
        e.kind = kind
        e.pc = st.pc
        e.loops = self.inloops()
        e.site = site
        e.fn = fr.fn.path if fr is not None else ""
        e.d = d
        e.seq = len(self.events)
        if fr is not None:
            d.setdefault("chain", tuple(fr.chain))
        self.events.append(e)
        return e

    def note(self, v, T, i):
        """v was handed to another contract as a value of this type"""
        while T[i]["k"] == "ref":
            i = T[i]["t"]
        r = self.prog.tref(T, i)
        if self.valty.setdefault(v, r) != r:
            self.valty[v] = "?"

    # ------------------------------------------------------------ calls
    def call(self, fr, st, t):
        self.stats["calls"] += 1
        _, func, args, dest, target, site, atys, macs, rty = t
        av = [self.operand(fr, st, a) for a in args]
        if func["k"] == "fn":
            co, T_ = func, fr.T
        else:
            fv = self.operand(fr, st, func)
            if fv.op in ("fnitem", "clos") or fv.op == "ite" and all(l.op in ("fnitem", "clos") for _, l in leaves(fv)):
                return self.apply(fr, st, fv, av, site)
            return self.opaque(fr, st, {"path": "indirect", "decl": "indirect", "name": "indirect"}, av, atys, fr.T, site, rty)
        return self.dispatch(fr, st, co, T_, av, atys, fr.T, site, rty, target, macs)

    def dispatch(self, fr, st, co, T_, av, atys, aT, site, rty, target=0, macs=()):
        from .models import MODELS, PREFIX
        for key in (co["decl"], co["path"]):
            m = MODELS.get(key)
            if m is not None:
                r = m(Ctx(self, fr, st, co, T_, av, atys, aT, site, rty))
                if r is not NotImplemented:
                    return r
        for pre, m in PREFIX:
            if co["path"].startswith(pre):
                r = m(Ctx(self, fr, st, co, T_, av, atys, aT, site, rty))
                if r is not NotImplemented:
                    return r
        if co["key"].endswith("::{constructor#0}"):        # a tuple struct or variant used as a function
            of, _, vn = co["path"].rpartition("::")
            a, vn = (ADTS[co["path"]], None) if co["path"] in ADTS else (ADTS.get(of), vn)
            var = next((x for x in a["variants"] if vn is None or x["n"] == vn), None) if a else None
            if var is not None and len(var["f"]) == len(av):
                return st, agg(of if vn else co["path"], vn, [x[0] for x in var["f"]], av)
        fn = self.prog.fns.get(co["key"])
        if fn is not None and fn.kind in ("fn", "closure"):
            if fn.kind == "closure" and ("Fn" in co["decl"]):
                return self.apply_closure(fr, st, fn, av[0], self.untuple(st, av[1]), site)
            if fn.path in self.opaque_fns:
                return self.opaque(fr, st, dict(co, path=self.opaque_fns[fn.path]), av, atys, aT, site, rty)
            if fn.crate not in self.opaque_crates:
                if len(fr.chain) < self.depth and sum(1 for c in fr.chain if c[0] == fn.path) < 2:
                    return self.inline(fr, st, fn, av, site)
                self.warn.append("recursion/depth limit at %s" % fn.path)
        if target == -1:
            self.emit("panic", fr, st, site, what=co["path"], args=[self.resolve(st, a) for a in av])
            return None
        return self.opaque(fr, st, co, av, atys, aT, site, rty)

    def untuple(self, st, t):
        if t is UNIT:
            return []
        if t.op == "agg" and t.args[0] == "tuple":
            return list(t.args[3:])
        return [field(t, "0")]

    def inline(self, fr, st, fn, av, site):
        self.stats["inlined"].add(fn.path)
        r = self.run_body(fn, fn.body, av, st, fr.chain + [(fn.path, site)])
        return r

    def apply(self, fr, st, fv, av, site):
        """call a function value"""
        if fv.op == "ref":
            fv = self.deref(st, fv)
        if fv.op == "fnitem":
            co, T_ = self.fnobj[fv.args[0]]
            return self.dispatch(fr, st, co, T_, av, [None] * len(av), T_, site, None)
        if fv.op == "clos":
            return self.apply_closure(fr, st, self.prog.fns[fv.args[0]], fv, av, site)
        if fv.op == "ite":          # one of several functions
            outs = []
            for cd, l in leaves(fv):
                pc = band(st.pc, cd)
                if pc is FALSE or not self.feasible(pc):
                    continue
                s = st.copy()
                s.pc = pc
                r = self.apply(fr, s, l, list(av), site)
                if r is not None:
                    r[0].vars[(0, -1)] = r[1]
                    outs.append(r[0])
            m = self.merge(outs)
            return None if m is None else (m, m.vars.pop((0, -1)))
        return st, mk("call", "apply", fv, *[self.resolve(st, a) for a in av])

    def apply_closure(self, fr, st, fn, cv, av, site):
        want_ref = fn.T[fn.body["locals"][1]]["k"] == "ref"
        if want_ref and cv.op != "ref":
            cv = self.newtemp(st, cv)
        elif not want_ref and cv.op == "ref":
            cv = self.deref(st, cv)
        n = fn.body["argc"] - 1
        return self.inline(fr, st, fn, [cv] + av[:n], site)

    def opaque(self, fr, st, co, av, atys, aT, site, rty):
        self.stats["opaque"].add(co["path"])
        vals = [self.resolve(st, a) for a in av]
        vals2 = [v for v in vals if v is not ENV]
        name = co["path"]
        for i, a in enumerate(av):
            ty = aT[atys[i]] if atys and i < len(atys) and atys[i] is not None else None
            if ty and ty["k"] == "ref" and ty.get("m") and vals[i] is not ENV:
                self.writeref(st, a, (), mk("call", name + "&%d" % i, *vals2)) if a.op in ("ref", "ite") else None
        if co.get("name") in ("clone",):
            return st, vals[0]
        return st, mk("call", name, *vals2)

    # ------------------------------------------------------------ storage
    def _base(self, st, k):
        f = (k[0],) + family(k[1])
        return mk("get", k[0], k[1], st.fam.get(f, FALSE))

    def load(self, st, cls, key):
        k = (cls, key)
        v = st.store.get(k)
        if v is not None:
            return v
        v = self._base(st, k)
        for (c2, k2), v2 in st.store.items():
            if c2 == cls and k2 is not key:
                c = eq(key, k2)
                if c is not FALSE and may_alias(key, k2):
                    v = ite(c, v2, v)
        return v

    def store_(self, st, cls, key, v):
        for (c2, k2), v2 in list(st.store.items()):
            if c2 == cls and k2 is not key and may_alias(key, k2):
                c = eq(key, k2)
                if c is not FALSE:
                    st.store[(c2, k2)] = ite(c, v, v2)
        st.store[(cls, key)] = v

    # ------------------------------------------------------------ iteration
    def loop_owned(self, root):
        """the iterator living at root was made outside the innermost loop (or there is no loop at all but it is a loop's own)"""
        return bool(self.headstk) and root in self.headstk[-1].vars

    def next_once(self, c, it):
        """`next` on an iterator that no loop drives: its first element; the iterator then stands for the rest"""
        from . import models
        st, r = c.st, c.a[0]
        if it.op != "it" or it.args[0] in ("map", "enum", "filter", "filter_map", "rev", "mapiter", "mvals"):
            LP, xs, x, pc = models.pred_on_generic(c, it, None, "first")
            if xs is not None and pc is not FALSE:
                q = rewrite(pc, {mk("hasnext", LP, xs, "").id: TRUE})
                B = self.binder(LP, xs, [q])
                a = mk_any(xs, B(q), B.n)
                sq = mk("it", "rev", xs) if self.reved(LP, xs) else xs
                F = self.found(LP, xs, sq, B(q), B.n)
                v = ite(a, some(F(x)), NONE)
                self.writeref(st, r, (), mk("it", "skip", it, TRUE))
                return st, v
        raise Unsupported("Iterator::next outside a loop on a compound iterator")

    def narrow(self, st, LP, got, cond):
        """elements for which cond is false are passed over"""
        if cond is TRUE:
            return
        k = band(st.pc, band(got, bnot(cond)))
        self.skips[LP] = bor(self.skips.get(LP, FALSE), k)
        st.pc = band(st.pc, bimp(got, cond))

    def leafseq(self, LP, xs, rev=False):
        self.seqs.setdefault(LP, {})[xs] = rev or self.seqs.get(LP, {}).get(xs, False)

    def single_seq(self, LP):
        d = self.seqs.get(LP, {})
        return list(d)[0] if len(d) == 1 else None

    def opengate(self, LP, head, H, bk, exits):
        """the condition under which the sequence read by position is the one traversed, and not an empty one"""
        e = FALSE
        for _, s in exits:
            e = bor(e, constrain(rewrite(s.pc, {H.id: TRUE}), head.pc))
        if self.depends(e, LP) or band(bk.pc, e) is not FALSE:
            return TRUE
        if any(LP in v.loops and band(v.pc, e) is not FALSE and self.depends(v.pc, LP) for v in self.events):
            return TRUE
        for _, s in exits:
            p = constrain(band(s.pc, e), head.pc)
            if rewrite(p, {H.id: TRUE}) is not rewrite(p, {H.id: FALSE}):
                return TRUE
        return bnot(e)

    def reved(self, LP, xs):
        return self.seqs.get(LP, {}).get(xs, False)

    def plain_index(self, LP, it):
        """(base sequence, offset): the n-th element `it` yields is the (n+offset)-th of the base"""
        while it.op == "it" and it.args[0] in ("map", "enum", "inspect"):
            it = it.args[1]
        p = self.built(it)
        if p is not None:
            return self.plain_index(LP, p[0]) if p[1] is TRUE else None
        if it.op == "it" and it.args[0] == "skip" and is_int(it.args[2]):
            b = self.plain_index(LP, it.args[1])
            return None if b is None else (b[0], b[1] + it.args[2].args[0])
        if it.op == "it" and it.args[0] in ("mapiter", "mvals"):
            it = mkeys(it.args[1])
        if it.op == "ite":
            x = ungate(it)
            return self.plain_index(LP, x[0]) if x else None
        if it.op in ("it", "agg", "ite"):
            return None
        return it, 0

    def built(self, it):
        """a vector made of f(x) for the x of xs with c(x): (xs, c, f, n)"""
        p = _pushes(it)
        if p is None or p[1] is not mk("vec") or concrete(p[0]):
            return None
        return p[0], p[2], p[3], p[4]

    def next_elem(self, fr, st, it, site, tag=""):
        """-> (state, option term) for one `next` on iterator value `it`"""
        LP = self.loopstk[-1] if self.loopstk else mk("once", site, fr.chain[-1][0] if fr.chain and isinstance(fr.chain[-1], tuple) else "")
        if it.op == "agg" and it.args[0].endswith("Range"):
            it = self.range_iter(it)
        if it.op == "ite":
            x = ungate(it)
            if x is None:
                return st, NONE
            if x is not False:
                # one sequence, or nothing when the gate g is closed
                it, g = x
                gg = self.gates.get(LP, TRUE)
                self.gates[LP] = band(gg, g)
                r = self.next_elem(fr, st, it, site, tag)
                if r is None:
                    return None
                s, o = r
                return s, ite(g, o, NONE)
            # gate the iterators
            outs = []
            for c, l in leaves(it):
                s = st.copy()
                s.pc = band(st.pc, c)
                r = self.next_elem(fr, s, l, site, tag)
                if r is not None:
                    outs.append(r)
            if not outs:
                return None
            ss = []
            for s, v in outs:
                s.vars[(0, -1)] = v
                ss.append(s)
            m = self.merge(ss)
            v = m.vars.pop((0, -1))
            return m, v
        p = self.built(self.resolve(st, it))
        if p is not None:
            # traversing it is traversing what it was built from
            xs, cond, f, n = p
            r = self.next_elem(fr, st, xs, site, tag)
            if r is None:
                return None
            s, o = r
            i = mk("index", LP, xs) if xs.op == "it" else self.ix(LP, xs)
            for l in leaves(o):
                if l[1].op == "agg" and l[1].args[1] == "Some":
                    self.narrow(s, LP, l[0], inst(cond, n, payload(l[1]), i))
            return s, leafmap(o, lambda l: some(inst(f, n, payload(l), i)) if l.op == "agg" and l.args[1] == "Some" else l)
        if it.op == "it":
            kind = it.args[0]
            if kind in ("mapiter", "mvals"):
                m = it.args[1]
                st, o = self.next_elem(fr, st, mkeys(m), site, tag)
                f = (lambda k: tup(k, mk("mval", m, k))) if kind == "mapiter" else (lambda k: mk("mval", m, k))
                return st, leafmap(o, lambda l: some(f(payload(l))) if l.op == "agg" and l.args[1] == "Some" else l)
            if kind == "idx":
                V, frm, shift = it.args[1:]
                st, o = self.next_elem(fr, st, V, site, tag)
                i = self.ix(LP, V)
                self.narrow(st, LP, is_some(o), le(frm, i))
                return st, leafmap(o, lambda l: some(psub(i, shift)) if l.op == "agg" and l.args[1] == "Some" else l)
            if kind in ("map", "inspect"):
                r = self.next_elem(fr, st, it.args[1], site, tag)
                if r is None:
                    return None
                s, o = r
                if kind == "inspect":
                    return self.opt_map(fr, s, o, lambda s2, x: self._keep(self.apply(fr, s2, it.args[2], [x], site), x), lambda y: some(y), NONE)
                return self.opt_map(fr, s, o, lambda s2, x: self.apply(fr, s2, it.args[2], [x], site), lambda y: some(y), NONE)
            if kind in ("filter", "filter_map"):
                r = self.next_elem(fr, st, it.args[1], site, tag)
                if r is None:
                    return None
                s, o = r

                def f(s2, x):
                    r = self.apply(fr, s2, it.args[2], [x], site)
                    if r is None:
                        return None
                    s3, v = r
                    self.narrow(s3, LP, TRUE, tobool(v) if kind == "filter" else is_some(v))
                    return s3, (x if kind == "filter" else payload(v))
                return self.opt_map(fr, s, o, f, lambda y: some(y), NONE)
            if kind in ("skip_while", "take_while"):
                b = it.args[1]
                while b.op == "it" and b.args[0] in ("map", "inspect", "filter", "filter_map", "skip_while", "take_while", "skip", "take", "enum"):
                    b = b.args[1]
                b = self.plain_index(LP, b)
                if b is not None and b[0].op == "mkeys":
                    # keys come in increasing order: a downward-closed predicate splits them in two
                    r = self.next_elem(fr, st, it.args[1], site, tag)
                    if r is None:
                        return None
                    s, o = r
                    e = mk("elem", LP, b[0], tag)
                    okk = []

                    def f(s2, x):
                        r = self.apply(fr, s2, it.args[2], [x], site)
                        if r is None:
                            return None
                        s3, v = r
                        p = tobool(v)
                        okk.append(downward(p, e))
                        self.narrow(s3, LP, TRUE, bnot(p) if kind == "skip_while" else p)
                        return s3, x
                    r = self.opt_map(fr, s.copy(), o, f, lambda y: some(y), NONE)
                    if all(okk):
                        return r
                return self.opaque_next(st, it, LP, tag)
            if kind in ("skip", "take"):
                b = self.plain_index(LP, it.args[1])
                if b is not None:
                    r = self.next_elem(fr, st, it.args[1], site, tag)
                    if r is None:
                        return None
                    s, o = r
                    i = psub(self.ix(LP, b[0]), I(b[1]))
                    self.narrow(s, LP, is_some(o), le(it.args[2], i) if kind == "skip" else lt(i, it.args[2]))
                    return s, o
            if kind == "enum":
                b = self.plain_index(LP, it.args[1])
                r = self.next_elem(fr, st, it.args[1], site, tag)
                if r is None:
                    return None
                s, o = r
                i = psub(self.ix(LP, b[0]), I(b[1])) if b is not None else mk("index", LP, it.args[1])
                return s, leafmap(o, lambda l: some(tup(i, payload(l))) if l.op == "agg" and l.args[1] == "Some" else l)
            if kind == "flatten":
                r = self.next_elem(fr, st, it.args[1], site, tag)
                if r is None:
                    return None
                s, o = r
                return self.opt_map(fr, s, o, lambda s2, x: self._some(s2, LP, self.resolve(s2, x)), lambda y: some(y), NONE)
            if kind == "rev":
                b = self.plain_index(LP, it.args[1])
                r = self.next_elem(fr, st, it.args[1], site, tag)
                if r is not None:
                    for x in self.seqs.get(LP, {}):
                        self.seqs[LP][x] = not self.seqs[LP][x]
                    if not any(x.op == "index" for x in subterms(r[1])):
                        return r
                return self.opaque_next(st, it, LP, tag)
            if kind == "zip":
                a, b = it.args[1], it.args[2]
                pa, pb = self.plain_index(LP, a), self.plain_index(LP, b)
                if pa is not None and pb is not None and pa[0] is pb[0]:
                    # the same sequence at two offsets: walk the larger one
                    hi, lo, fst = (b, pa[1], False) if pb[1] >= pa[1] else (a, pb[1], True)
                    k = abs(pb[1] - pa[1])
                    r = self.next_elem(fr, st, hi, site, tag)
                    if r is None:
                        return None
                    s, o = r
                    other = a if not fst else b
                    x = payload(vget(pa[0], psub(mk("index", LP, pa[0]), I(k)))) if k else mk("elem", LP, pa[0], tag)

                    def f(s2, y):
                        r = self.map_chain(fr, s2, other, x, LP, site)
                        if r is None:
                            return None
                        s3, z = r
                        return s3, (tup(z, y) if not fst else tup(y, z))
                    return self.opt_map(fr, s, o, f, lambda y: some(y), NONE)
                r = self.next_elem(fr, st, it.args[1], site, tag + "0")
                if r is None:
                    return None
                s, o = r
                r2 = self.next_elem(fr, s, it.args[2], site, tag + "1")
                if r2 is None:
                    return None
                s2, o2 = r2
                c = band(is_some(o), is_some(o2))
                return s2, ite(c, some(tup(payload(o), payload(o2))), NONE)
        return self.opaque_next(st, it, LP, tag)

    def opaque_next(self, st, it, LP, tag):
        its = self.resolve(st, it)
        if LP in self.turn:
            xs = elements(its)
            if xs is not None:
                t = self.turn[LP]
                t[1] = max(t[1] or 0, len(xs))
                return st, (some(xs[t[0]]) if t[0] < len(xs) else NONE)
        if its is mk("vec"):
            return st, NONE
        self.leafseq(LP, its)
        a = atom(mk("hasnext", LP, its, tag))
        return st, ite(a, some(mk("elem", LP, its, tag)), NONE)

    def _some(self, st, LP, x):
        self.narrow(st, LP, TRUE, is_some(x))
        return st, payload(x)

    def _keep(self, r, x):
        return None if r is None else (r[0], x)

    def map_chain(self, fr, st, it, x, LP, site):
        """apply the closures of a map/enumerate chain over a plain sequence to its element x"""
        if it.op == "it" and it.args[0] == "map":
            r = self.map_chain(fr, st, it.args[1], x, LP, site)
            return None if r is None else self.apply(fr, r[0], it.args[2], [r[1]], site)
        if it.op == "it" and it.args[0] == "skip":
            return self.map_chain(fr, st, it.args[1], x, LP, site)
        if it.op == "it":
            raise Unsupported("zip over %s" % it.args[0])
        return st, x

    def range_iter(self, it):
        """start..len(V)+c as an iteration over the positions of V"""
        s, e = field(it, "start"), field(it, "end")
        if e.op == "ite":
            return leafmap(e, lambda l: self.range_iter(agg(it.args[0], it.args[1], it.args[2], [s, l])))
        if is_int(s) and is_int(e) and e.args[0] <= s.args[0]:
            return mk("vec")
        if not is_int(s) or is_int(e):
            return it
        d = as_poly(e)
        ms = [m for m in d if m]
        c = d.get((), 0)
        if len(ms) == 1 and len(ms[0]) == 1 and d[ms[0]] == 1 and ms[0][0].op == "len" and c <= 0:
            return mk("it", "idx", ms[0][0].args[0], I(s.args[0] - c), I(-c))
        return it

    # ------------------------------------------------------------ what a traversal as a whole establishes
    def binder(self, LP, xs, ts, extra=()):
        """replaces the generic element of the traversal by a bound variable"""
        n = 1 + max([0] + [bvn(t) for t in ts])
        at = psub(mk("bv", n), xs.args[3]) if xs.op == "agg" and xs.args[0].endswith("Range") else mk("bvi", n)
        sub = {mk("elem", LP, xs, "").id: mk("bv", n), mk("index", LP, xs).id: at, mk("hasnext", LP, xs, "").id: TRUE}
        memo = {}

        def B(t):
            return rewrite(t, sub, memo)
        B.n = n
        return B

    def found(self, LP, xs, sq, q, n):
        """replaces the generic element by the first one satisfying q"""
        f, p = payload(mk_find("find", sq, q, n)), payload(mk_find("position", sq, q, n))
        sub = {mk("elem", LP, xs, "").id: f, mk("index", LP, xs).id: p, mk("hasnext", LP, xs, "").id: TRUE}
        memo = {}
        return lambda t: rewrite(t, sub, memo)

    def closed(self, LP, xs, m, sq, cut=None):
        """value of the loop-carried unknown m after the elements of sq (satisfying cut) (None: no closed form)"""
        init, step = self.mus[m]
        if step is None:
            return None
        step = rewrite(step, {mk("hasnext", LP, xs, "").id: TRUE})
        if LP in self.goes:
            step = rewrite(step, self.goes[LP][0])
            step = fewer(step, self.goes[LP][1])
        others = {x for x in subterms(step) if x.op == "mu" and x.args[0] is LP and x is not m}
        if others:
            # the other loop-carried unknowns, by their value after the elements before this one
            if (LP, m) in self.closing or sq.op == "it" and sq.args[0] == "rev" or self.reved(LP, xs):
                return None
            self.closing.add((LP, m))
            try:
                sub = {}
                for x in others:
                    hole = mk("hole", LP)
                    c = None if x.args[1] == "epoch" else self.closed(LP, xs, x, mk("it", "take", sq.args[1] if sq.op == "it" and sq.args[0] == "take" else sq, hole), cut)
                    if c is None:
                        return None
                    sub[x.id] = rewrite(c, {hole.id: mk("index", LP, xs)})
            finally:
                self.closing.discard((LP, m))
            step = rewrite(step, sub)
        if cut is not None:
            step = ite(cut, step, m)
        if init.op in ("agg", "ref", "clos") or step.op in ("agg", "ref", "clos") or UNDEF in (init, step):
            if step.op == "ref" or init.op in ("ref", "clos"):
                return None
        ls = [l for _, l in leaves(step)]
        own = any(x is m for x in subterms(step))
        num = all(numlike(l) or l is m for l in ls)
        if own and num:
            d = leafmap(step, lambda l: psub(l, m))
            if not any(x is m for x in subterms(d)):
                B = self.binder(LP, xs, [d])
                return padd(init, mk_sum(sq, B(d), B.n))
        if own and all(l in (TRUE, FALSE, m) for l in ls):
            s0, s1 = rewrite(step, {m.id: FALSE}), rewrite(step, {m.id: TRUE})
            if s1 is TRUE:
                B = self.binder(LP, xs, [s0])
                return bor(tobool(init), mk_any(sq, B(s0), B.n))
            if s0 is FALSE:
                B = self.binder(LP, xs, [s1])
                return band(tobool(init), bnot(mk_any(sq, bnot(B(s1)), B.n)))
        B = self.binder(LP, xs, [step])
        st = rewrite(step, {m.id: mk("acc", B.n)})
        return mk_fold(sq, init, B(st), B.n)

    def close(self, LP, head, bk, exits):
        """a traversal of one sequence: state after running out of elements / after stopping at one"""
        hs = {}
        for t in [bk.pc] + [s.pc for _, s in exits]:
            for a in atoms_of(t).values():
                if a.op == "hasnext" and a.args[0] is LP:
                    hs[a.id] = a
        if not hs:
            return self.close_count(LP, head, bk, exits)
        if len(hs) != 1:
            return exits
        H = list(hs.values())[0]
        xs = H.args[1]
        if rewrite(bk.pc, {H.id: FALSE}) is not FALSE:
            return exits
        src = xs
        if xs.op == "agg" and xs.args[0].endswith("Range") and xs.args[2] == ("start", "end") and not is_int(xs.args[4]):
            n = 1 + max(bvn(xs.args[3]), bvn(xs.args[4]))
            src = mk("it", "upto", xs.args[3], mk_first(xs.args[3], bnot(lt(mk("bv", n), xs.args[4])), n))
        if H.args[2] != "" or src.op in ("agg", "ite") or src is xs and xs.op == "it" or self.depends(xs, LP) or self.single_seq(LP) is not xs:
            return exits
        rev = self.reved(LP, xs)
        if rev and src is not xs:
            return exits
        if (mk("index", LP, xs) in OPEN or mk("index", LP, xs) in self.counted) and LP not in self.gates:
            self.gates[LP] = self.opengate(LP, head, H, bk, exits)
        g = self.gates.get(LP, TRUE)
        hole = mk("hole", LP)
        go = rewrite(bk.pc, {H.id: TRUE})
        self.goes[LP] = implied(go), go
        q = constrain(rewrite(bk.pc, {H.id: TRUE}), band(head.pc, g))
        used = set()
        for t in [q] + [s.pc for _, s in exits]:
            used |= {x for x in subterms(t) if x.op == "mu" and x.args[0] is LP}
        pre, exact = {}, not rev
        for m in used:
            c = None if rev else self.closed(LP, xs, m, mk("it", "take", src, hole))
            if c is None:
                exact = False
                q = exists_atoms(q, m)
            else:
                pre[m.id] = c
        memo = {}
        q1 = rewrite(q, pre, memo)
        B = self.binder(LP, xs, [q1])
        qb = rewrite(B(q1), {hole.id: mk("bvi", B.n)})
        notall = band(g, mk_any(src, bnot(qb), B.n))
        if not used:
            exact = True
        brk = [1 for _, x in exits if band(g, rewrite(x.pc, {H.id: TRUE})) is not FALSE]
        if brk:
            self.whole.discard(LP)
            self.loopq[LP] = TRUE
        else:
            self.whole.add(LP)
            self.loopq[LP] = q
        # keys come in increasing order: a traversal that goes on while a downward-closed condition holds sees exactly the keys satisfying it
        cut = None
        if brk and not rev and not used and xs.op == "mkeys" and downward(q, mk("elem", LP, xs, "")):
            cut = q
        fin = {}

        def final(m):
            if m.id not in fin:
                c = None if rev else self.closed(LP, xs, m, src, cut)
                if rev:
                    c = self.closed(LP, xs, m, mk("it", "rev", xs))
                fin[m.id] = m if c is None else ite(g, c, self.mus[m][0])
            return fin[m.id]
        out = []
        for k, s in exits:
            p0, p1 = rewrite(s.pc, {H.id: FALSE}), band(g, rewrite(s.pc, {H.id: TRUE}))
            if p0 is not FALSE:
                ms = set()
                for t in list(s.vars.values()) + list(s.store.values()) + list(s.fam.values()) + [s.epoch, p0] + ([k[1]] if isinstance(k, tuple) and isinstance(k[1], T) else []):
                    ms |= {x for x in subterms(t) if x.op == "mu" and x.args[0] is LP}
                sub = {m.id: final(m) for m in ms if not (m.op == "mu" and m.args[1] == "epoch")}
                sub[H.id] = FALSE
                s0 = self.rewrite_state(s, sub)
                s0.pc = band(rewrite(p0, sub), bnot(notall))
                if s0.pc is not FALSE:
                    out.append((self.rewrite_exit(k, sub), s0))
            if p1 is not FALSE:
                r = constrain(p1, bnot(rewrite(bk.pc, {H.id: TRUE})))
                if exact:
                    sq = mk("it", "rev", xs) if rev else src
                    nq = bnot(qb)
                    pos = payload(mk_find("position", sq, nq, B.n))
                    sub = {mk("elem", LP, xs, "").id: payload(mk_find("find", sq, nq, B.n)), mk("index", LP, xs).id: pos, H.id: TRUE}
                    if rev:
                        del sub[mk("index", LP, xs).id]
                    for i, c in pre.items():
                        sub[i] = rewrite(c, {hole.id: pos})
                    if not rev:
                        ms = set()
                        for t in list(s.vars.values()) + list(s.store.values()) + list(s.fam.values()) + [r] + ([k[1]] if isinstance(k, tuple) and isinstance(k[1], T) else []):
                            ms |= {x for x in subterms(t) if x.op == "mu" and x.args[0] is LP and x.id not in sub and x.args[1] != "epoch"}
                        for m in ms:
                            c = self.closed(LP, xs, m, mk("it", "take", src, hole) if cut is None else xs, cut)
                            if c is not None:
                                sub[m.id] = rewrite(c, {hole.id: pos})
                    stop = bnot(rewrite(bk.pc, {H.id: TRUE}))
                    at = implied(band(rewrite(s.pc, {H.id: TRUE}), stop))
                    r = rewrite(r, implied(band(head.pc, stop)))
                    s1 = self.rewrite_state(self.rewrite_state(s, at), sub)
                    k = self.rewrite_exit(k, at)
                    s1.pc = band(band(head.pc, notall), rewrite(r, sub))
                    if s1.pc is not FALSE:
                        out.append((self.rewrite_exit(k, sub), s1))
                else:
                    s1 = s.copy()
                    s1.pc = band(p1, atom(H))
                    out.append((k, s1))
        return out

    def close_count(self, LP, head, bk, exits):
        """a loop that counts up until a condition on the counter holds"""
        cur = set()
        for s in [bk] + [x for _, x in exits]:
            for t in [s.pc]:
                cur |= {x for x in subterms(t) if x.op == "mu" and x.args[0] is LP}
        if len(cur) != 1:
            return exits
        m = list(cur)[0]
        init, step = self.mus[m]
        if step is not padd(m, TRUE):
            return exits
        q = constrain(bk.pc, head.pc)
        out = FALSE
        for _, s in exits:
            out = bor(out, s.pc)
        if not implies(band(head.pc, bnot(q)), out) or band(out, q) is not FALSE:
            return exits
        n = 1 + bvn(q)
        F = mk_first(init, rewrite(bnot(q), {m.id: mk("bv", n)}), n)
        xs = mk("it", "upto", init, F)
        res = []
        for k, s in exits:
            ms = set()
            for t in list(s.vars.values()) + list(s.store.values()) + list(s.fam.values()) + [s.epoch] + ([k[1]] if isinstance(k, tuple) and isinstance(k[1], T) else []):
                ms |= {x for x in subterms(t) if x.op == "mu" and x.args[0] is LP}
            sub = {m.id: F}
            for x in ms - {m}:
                i2, s2 = self.mus[x]
                if s2 is None or any(y.op == "mu" and y.args[0] is LP and y not in (x, m) for y in subterms(s2)) or x.args[1] == "epoch" or init.op in ("agg", "ref", "clos"):
                    continue
                b = 1 + bvn(s2)
                sub[x.id] = mk_fold(xs, i2, rewrite(s2, {m.id: mk("bv", b), x.id: mk("acc", b)}), b)
            r = constrain(s.pc, band(head.pc, bnot(q)))
            s1 = self.rewrite_state(s, sub)
            s1.pc = band(head.pc, rewrite(r, sub))
            if s1.pc is not FALSE:
                res.append((self.rewrite_exit(k, sub), s1))
        return res

    def rewrite_exit(self, k, sub):
        if isinstance(k, tuple) and isinstance(k[1], T):
            return (k[0], rewrite(k[1], sub))
        return k

    def rewrite_state(self, s, sub):
        memo = {}
        r = State()
        r.vars = {k: rewrite(v, sub, memo) for k, v in s.vars.items()}
        r.store = {(c, rewrite(k, sub, memo)): rewrite(v, sub, memo) for (c, k), v in s.store.items()}
        r.fam = {k: rewrite(v, sub, memo) for k, v in s.fam.items()}
        r.epoch = rewrite(s.epoch, sub, memo)
        r.pc = s.pc
        return r

    def opt_map(self, fr, st, o, f, wrap, none):
        """apply f to the payload under the Some-condition; merge with None"""
        c = is_some(o)
        outs = []
        s1 = st.copy()
        s1.pc = band(st.pc, c)
        if s1.pc is not FALSE:
            r = f(s1, payload(o))
            if r is not None:
                s, v = r
                s.vars[(0, -1)] = wrap(v)
                outs.append(s)
        s0 = st
        s0.pc = band(st.pc, bnot(c))
        if s0.pc is not FALSE:
            if callable(none):
                r = none(s0)
                if r is not None:
                    s, v = r
                    s.vars[(0, -1)] = v
                    outs.append(s)
            else:
                s0.vars[(0, -1)] = none
                outs.append(s0)
        m = self.merge(outs)
        if m is None:
            return None
        v = m.vars.pop((0, -1))
        return m, v

    def synth_loop(self, fr, st, itv, site, step, what, extra=()):
        """loop over iterator value; step(state, element) -> list of (kind, state): kind 'next'|'exit:<value>'"""
        sig = [self.resolve(st, itv)] + [self.resolve(st, x) for x in extra]
        LP = self.loop_term(fr, site, sig, what, site)
        done = []

        def body(s):
            del done[:]
            r = self.next_elem(fr, s, itv, site)
            if r is None:
                return [], []
            s, o = r
            c = is_some(o)
            out = s.copy()
            out.pc = band(s.pc, bnot(c))
            exits = [(("end", None), out)]
            s.pc = band(s.pc, c)
            backs = []
            if s.pc is not FALSE:
                for k, s2, v in step(s, payload(o)):
                    if k == "next":
                        backs.append(s2)
                    else:
                        exits.append((("exit", v), s2))
            return backs, exits
        if concrete(sig[0]):
            r = self.peel(LP, st, body)
            if r is not None:
                return LP, r
        return LP, self.fix(LP, st, body)


def elements(x):
    """the elements of a sequence that is written out in full"""
    if x.op == "vec" or (x.op == "agg" and x.args[0] == "array"):
        return list(x.args if x.op == "vec" else x.args[3:])
    if x.op == "agg" and x.args[0].endswith("Range") and x.args[2] == ("start", "end"):
        a, b = x.args[3], x.args[4]
        if is_int(a) and is_int(b) and b.args[0] - a.args[0] <= PEEL:
            return [I(i) for i in range(a.args[0], b.args[0])]
    return None


def concrete(x):
    """an iterator over such a sequence"""
    while x.op == "it":
        if x.args[0] == "zip" and not concrete(x.args[2]):
            return False
        x = x.args[1]
    if x.op == "ite":
        return concrete(x.args[1]) and concrete(x.args[2])
    return elements(x) is not None


PEEL = 8


class Ctx:
    __slots__ = ("I", "fr", "st", "co", "T", "a", "at", "aT", "site", "rty")

    def __init__(self, *x):
        self.I, self.fr, self.st, self.co, self.T, self.a, self.at, self.aT, self.site, self.rty = x

    def v(self, i):
        return self.I.resolve(self.st, self.a[i])

    def targ(self, i):
        return self.T[self.co["ga"][i]]

    def ret(self, v):
        return self.st, v


def ungate(t):
    """a gated sequence that is X or empty: (X, gate); None when always empty; False when it is several sequences"""
    x, g = None, FALSE
    for c, l in leaves(t):
        if l is UNDEF or l is mk("vec"):
            continue
        if x is not None and l is not x:
            return False
        x, g = l, bor(g, c)
    return None if x is None else (x, g)


def alike(b, v, pc):
    """equal wherever pc holds"""
    return (b.op == "ite" or v.op == "ite") and constrain(b, pc) is constrain(v, pc)


def numlike(t):
    return t.op in ("int", "poly", "div", "rem", "cast", "sum", "len", "index")


def exists_atoms(q, m):
    """forget every condition that involves m"""
    for a in list(atoms_of(q).values()):
        if any(x is m for x in subterms(a)):
            q = bor(rewrite(q, {a.id: TRUE}), rewrite(q, {a.id: FALSE}))
    return q


def family(key):
    if key.op == "agg":
        return (key.args[0], key.args[1] or "")
    if key.op == "sym":
        return ("sym", key.args[0])
    if key.op == "ite":
        return ("?",)
    return (key.op if key.op != "param" else "val",)


def may_alias(a, b):
    if a is b:
        return True
    fa, fb = a, b
    for x, y in ((a, b), (b, a)):
        if x.op == "ite":
            return any(may_alias(l, y) for _, l in leaves(x))
    if a.op == "agg" and b.op == "agg":
        if a.args[0] != b.args[0] or a.args[1] != b.args[1]:
            return False
        return all(may_alias(x, y) for x, y in zip(a.args[3:], b.args[3:]))
    if a.op == "sym" or b.op == "sym":
        return a is b if a.op == b.op else not ("agg" in (a.op, b.op) or (a if b.op == "sym" else b).op in ("param", "self"))
    if (a.op == "agg") != (b.op == "agg"):
        return False
    if a.op == "int" and b.op == "int":
        return False
    return True


def agree(f, g, c):
    """the gated values f and g coincide wherever c holds"""
    if c is FALSE or f is g:
        return True
    if "ite" not in (f.op, g.op):
        return False
    a = _top((f, g, c))
    return all(agree(_cof(f, a, v), _cof(g, a, v), _cof(c, a, v)) for v in (1, 0))


def fewer(f, c):
    """the gated value f without the gates that do not matter where c holds"""
    if f.op == "ite" and c.op == "ite":
        for a in list(atoms_of(f).values()):
            for v in (TRUE, FALSE):
                g = rewrite(f, {a.id: v})
                if g is not f and agree(f, g, c):
                    f = g
                    break
    return f


def implied(p):
    """the literals that p implies, as a substitution"""
    r = {}
    for a in atoms_of(p).values():
        if rewrite(p, {a.id: FALSE}) is FALSE:
            r[a.id] = TRUE
        elif rewrite(p, {a.id: TRUE}) is FALSE:
            r[a.id] = FALSE
    return r


def analyse(prog, crate, name, fn, given=None, **kw):
    """summary of fn; `given` fixes parameters (by position, environment not counted) to terms"""
    it = Interp(prog, **kw)
    st = State()
    st.vars = {}
    st.store = {}
    st.fam = {}
    st.epoch = FALSE
    st.pc = TRUE
    args = []
    names = {p[0]: n for n, p in fn.body["names"] if not p[1] and 1 <= p[0] <= fn.body["argc"]}
    params = []
    for i in range(1, fn.body["argc"] + 1):
        ty = fn.T[fn.body["locals"][i]]
        isref = ty["k"] == "ref"
        base = fn.T[ty["t"]] if isref else ty
        if base["s"].endswith("soroban_sdk::env::Env") or base["s"].endswith("soroban_sdk::Env"):
            v = ENV
        else:
            v = mk("param", names.get(i, "arg%d" % i))
            if given and len(params) in given:
                v = given[len(params)]
            params.append((names.get(i, "arg%d" % i), base["s"]))
        if isref:
            v = it.newtemp(st, v)
        args.append(v)
    r = it.run_body(fn, fn.body, args, st, [(fn.path, fn.span)])
    s = Summary()
    s.crate, s.name, s.fn = crate, name, fn
    s.events = it.events
    s.casts = it.casts
    s.valty = it.valty
    s.mus, s.loops, s.warn, s.stats = it.mus, it.loops, it.warn, it.stats
    s.loopq, s.seqs, s.gates, s.whole = it.loopq, it.seqs, it.gates, it.whole
    s.params = params
    if r is None:
        s.ret, s.pc, s.store = None, FALSE, {}
    else:
        s.pc = r[0].pc
        s.store = r[0].store
        s.ret = it.resolve(r[0], r[1])
    return s

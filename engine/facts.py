"""Load the JSON facts written by the MIR driver."""
import glob
import json
import os
from . import terms as tm


class Fn:
    __slots__ = ("key", "path", "name", "kind", "self", "trait", "expn", "mac", "parent", "generic", "span", "body", "promoted", "T", "crate", "_cfg")


class Program:
    def __init__(self, d):
        self.fns = {}
        self.crates = {}
        self.adts = {}
        for f in sorted(glob.glob(os.path.join(d, "*.json"))):
            j = json.load(open(f))
            c = j["crate"]
            self.crates[c] = j
            for a in j["adts"]:
                if a["local"] or a["path"] not in self.adts:
                    self.adts[a["path"]] = dict(a, T=j["types"])
            for x in j["fns"]:
                o = Fn()
                for k in ("key", "path", "name", "kind", "self", "trait", "expn", "mac", "parent", "generic", "span", "body", "promoted"):
                    setattr(o, k, x[k])
                o.T = j["types"]
                o.crate = c
                o._cfg = {}
                self.fns[o.key] = o
        tm.ADTS.update(self.adts)

    def by_path(self, p):
        return next(f for f in self.fns.values() if f.path == p)

    def tref(self, T, i):
        """a type as text: the crate whose type table it is in, and its number there"""
        for c, j in self.crates.items():
            if j["types"] is T:
                return "%s:%d" % (c, i)
        return ""

    def deref(self, r):
        c, _, i = r.partition(":")
        T = self.crates[c]["types"]
        return T, int(i)

    def agree(self, T, i, U, j, seen=()):
        """the two types have the same representation between contracts (None: they do, otherwise what differs);
        a type imported from the other contract's own interface is regenerated from it and agrees by construction"""
        a, b = T[i], U[j]
        while a["k"] == "ref":
            i = a["t"]
            a = T[i]
        while b["k"] == "ref":
            j = b["t"]
            b = U[j]
        if a["k"] in ("param", "other") or b["k"] in ("param", "other"):
            return None
        if a["s"] == b["s"] and a["k"] != "adt":
            return None
        if "Val" == a["s"].split("::")[-1] or "Val" == b["s"].split("::")[-1]:
            return None
        if a["k"] == b["k"] == "tuple" and len(a["a"]) == len(b["a"]):
            for x, y in zip(a["a"], b["a"]):
                r = self.agree(T, x, U, y, seen)
                if r:
                    return r
            return None
        if a["k"] != "adt" or b["k"] != "adt":
            return "%s is not %s" % (a["s"], b["s"])
        if self.imported(a["d"]) or self.imported(b["d"]):
            return None if a["d"].split("::")[-1] == b["d"].split("::")[-1] else "%s is not %s" % (a["s"], b["s"])
        x, y = self.adts.get(a["d"]), self.adts.get(b["d"])
        if not (x and y and x["local"] and y["local"]):
            if a["d"] != b["d"] or len(a["a"]) != len(b["a"]):
                return "%s is not %s" % (a["s"], b["s"])
            for p, q in zip(a["a"], b["a"]):
                r = self.agree(T, p, U, q, seen)
                if r:
                    return r
            return None if a["a"] or a["s"] == b["s"] else "%s is not %s" % (a["s"], b["s"])
        if (a["d"], b["d"]) in seen or a["d"] == b["d"]:
            return None
        seen = seen + ((a["d"], b["d"]),)
        if x["enum"] != y["enum"] or len(x["variants"]) != len(y["variants"]):
            return "%s is not %s" % (a["s"], b["s"])
        if not x["enum"]:
            vs = [(x["variants"][0], y["variants"][0])]
        elif not any(v["f"] for v in x["variants"] + y["variants"]):
            d, e = sorted(v["d"] for v in x["variants"]), sorted(v["d"] for v in y["variants"])
            return None if d == e else "%s and %s number their variants differently" % (a["s"], b["s"])
        else:
            p, q = ({v["n"]: v for v in z["variants"]} for z in (x, y))
            if set(p) != set(q):
                return "%s and %s have different variants" % (a["s"], b["s"])
            vs = [(p[n], q[n]) for n in p]
        for v, u in vs:
            f, g = dict(v["f"]), dict(u["f"])
            if set(f) != set(g):
                return "%s and %s have different fields: %s" % (a["s"], b["s"], ", ".join(sorted(set(f) ^ set(g))))
            for n in f:
                r = self.agree(x["T"], f[n], y["T"], g[n], seen)
                if r:
                    return "%s.%s: %s" % (a["s"].split("::")[-1], n, r)
        return None

    def imported(self, d):
        """defined in a module generated from another contract's interface"""
        return d.rpartition("::")[0] + "::Client" in self.adts

    def entries(self):
        """contract entry points: [(crate, exported name, Fn)] - what `invoke_raw` of each
        #[contractimpl] function calls"""
        out = []
        for f in self.fns.values():
            if f.name != "invoke_raw" or f.kind != "fn":
                continue
            tgt = None
            for st, t in f.body["blocks"]:
                if t[0] == "call" and t[1].get("k") == "fn" and t[1]["key"] in self.fns:
                    tgt = self.fns[t[1]["key"]]
            mod = f.key.split("::")[-2]
            name = mod[2:] if mod.startswith("__") else mod
            if tgt is None:
                raise Exception("entry %s has no resolvable target" % f.key)
            out.append((f.crate, name, tgt))
        return sorted(out, key=lambda x: (x[0], x[1]))


class CFG:
    """successors, reverse postorder and natural loops of one MIR body"""

    def __init__(self, body):
        n = len(body["blocks"])
        self.succ = [[] for _ in range(n)]
        for i, (st, t) in enumerate(body["blocks"]):
            k = t[0]
            if k == "goto":
                self.succ[i] = [t[1]]
            elif k == "switch":
                self.succ[i] = [b for _, b in t[2]] + [t[3]]
            elif k == "call":
                self.succ[i] = [t[4]] if t[4] >= 0 else []
            elif k == "assert":
                self.succ[i] = [t[4]]
        # dead ends (unreachable) stay
        order, state, back = [], {}, []
        st = [(0, iter(self.succ[0]))]
        state[0] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if v not in state:
                    state[v] = 1
                    st.append((v, iter(self.succ[v])))
                    break
                elif state[v] == 1:
                    back.append((u, v))
            else:
                state[u] = 2
                order.append(u)
                st.pop()
        self.rpo = order[::-1]
        preds = {}
        for u in self.rpo:
            for v in self.succ[u]:
                preds.setdefault(v, []).append(u)
        # blocks from which the body can return
        w = [i for i, (st, t) in enumerate(body["blocks"]) if t[0] == "return"]
        self.live = set(w)
        while w:
            for p in preds.get(w.pop(), []):
                if p not in self.live:
                    self.live.add(p)
                    w.append(p)
        self.loops = {}
        for u, h in back:
            body_ = self.loops.setdefault(h, {h})
            w = [u]
            while w:
                x = w.pop()
                if x in body_:
                    continue
                body_.add(x)
                w.extend(preds.get(x, []))


def cfg(fn, body):
    k = id(body)
    c = fn._cfg.get(k)
    if c is None:
        c = fn._cfg[k] = CFG(body)
    return c

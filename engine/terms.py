"""Hash-consed value terms with a multi-terminal BDD layer for gated values and path predicates.

A value is a term.  Conditional values are gated (`ite`) over *atoms* (comparison / variant-test
terms), kept in MTBDD normal form; a path predicate is such a term whose leaves are 0 and 1.
Integer arithmetic is kept in polynomial normal form, comparisons in the form  P < k  (P without
constant term, leading coefficient positive), so that equal conditions written differently are the
same atom.
"""
import sys
sys.setrecursionlimit(100000)


class T:
    __slots__ = ("op", "args", "id", "_ck")

    def __repr__(self):
        return show(self)


_tab = {}
_all = []


def mk(op, *args):
    k = (op,) + tuple(a.id if isinstance(a, T) else ("#", a) for a in args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_all)
        t._ck = None
        _tab[k] = t
        _all.append(t)
    return t


def ckey(t):
    """Run-independent structural order key (ids depend on creation order)."""
    if t._ck is None:
        t._ck = hash_str(t)
    return t._ck


def hash_str(t):
    import hashlib
    h = hashlib.blake2b(digest_size=10)
    h.update(t.op.encode())
    if t.op == "poly":
        for e in sorted(b"*".join(sorted(ckey(_all[i]) for i in m)) + repr(c).encode() for m, c in t.args[0]):
            h.update(e + b"|")
        return h.digest()
    for a in t.args:
        if isinstance(a, T):
            h.update(b"T" + ckey(a))
        else:
            h.update(repr(a).encode() if not isinstance(a, tuple) else b"(" + b",".join(
                (ckey(x) if isinstance(x, T) else repr(x).encode()) for x in a) + b")")
        h.update(b"|")
    return h.digest()


def I(n):
    return mk("int", n)


TRUE = I(1)
FALSE = I(0)
UNDEF = mk("undef")
ENV = mk("env")
SELF = mk("self")
UNIT = mk("unit")


def is_int(t):
    return t.op == "int"


# ---------------------------------------------------------------- MTBDD
_ite_memo = {}


ORDER = int(__import__("os").environ.get("PHX_ORDER", "0"))


def _top(ts):
    """the atom to test first: any fixed order will do (0: oldest first, 1: newest first, 2: by structure)"""
    m = None
    for t in ts:
        if t.op == "ite":
            a = t.args[0]
            if m is None or (a.id < m.id if ORDER == 0 else a.id > m.id if ORDER == 1 else ckey(a) < ckey(m)):
                m = a
    return m


def _cof(t, a, v):
    if t.op == "ite" and t.args[0] is a:
        return t.args[1] if v else t.args[2]
    return t


def node(a, x, y):
    if x is y:
        return x
    return mk("ite", a, x, y)


def ite(c, x, y):
    if c is TRUE or x is y:
        return x
    if c is FALSE:
        return y
    if x is UNDEF:
        return y
    if y is UNDEF:
        return x
    k = (c.id, x.id, y.id)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    a = _top((c, x, y))
    assert c.op == "ite", c
    r = node(a, ite(_cof(c, a, 1), _cof(x, a, 1), _cof(y, a, 1)), ite(_cof(c, a, 0), _cof(x, a, 0), _cof(y, a, 0)))
    _ite_memo[k] = r
    return r


def atom(t):
    return mk("ite", t, TRUE, FALSE)


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def bnot(a):
    return ite(a, FALSE, TRUE)


def bimp(a, b):
    return ite(a, b, TRUE)


def tobool(t):
    if t is TRUE or t is FALSE:
        return t
    if t.op == "ite":
        c, x, y = t.args
        return ite(atom(c), tobool(x), tobool(y))
    if t is UNDEF:
        return FALSE
    if t.op == "int":
        return TRUE
    return atom(t)


_con_memo = {}


def constrain(f, c):
    if c is TRUE or f.op != "ite" or c is FALSE:
        return f
    k = (f.id, c.id)
    r = _con_memo.get(k)
    if r is not None:
        return r
    a = _top((f, c))
    c1, c0 = _cof(c, a, 1), _cof(c, a, 0)
    f1, f0 = _cof(f, a, 1), _cof(f, a, 0)
    if c1 is FALSE:
        r = constrain(f0, c0)
    elif c0 is FALSE:
        r = constrain(f1, c1)
    elif f1 is f0:
        # do not drag in variables the function does not depend on
        r = constrain(f1, bor(c1, c0))
    else:
        r = node(a, constrain(f1, c1), constrain(f0, c0))
    _con_memo[k] = r
    return r


def leafmap(t, f):
    if t.op == "ite":
        a, x, y = t.args
        return ite(atom(a), leafmap(x, f), leafmap(y, f))
    if t is UNDEF:
        return t
    return f(t)


def leaves(t, cond=None):
    """[(path predicate, leaf)]"""
    if t.op == "ite":
        a, x, y = t.args
        A = atom(a)
        return [(band(A, c), l) for c, l in leaves(x)] + [(band(bnot(A), c), l) for c, l in leaves(y)]
    return [(TRUE, t)]


def atoms_of(t, acc=None, seen=None):
    if acc is None:
        acc = {}
        seen = set()
    if t.id in seen:
        return acc
    seen.add(t.id)
    if t.op == "ite":
        acc[t.args[0].id] = t.args[0]
        atoms_of(t.args[1], acc, seen)
        atoms_of(t.args[2], acc, seen)
    return acc


# ---------------------------------------------------------------- arithmetic
def as_poly(t):
    if t.op == "int":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return {tuple(_all[i] for i in m): c for m, c in t.args[0]}
    return {(t,): 1}


def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return FALSE
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return I(c)
        if len(m) == 1 and c == 1:
            return m[0]
    return mk("poly", tuple(sorted((tuple(x.id for x in m), c) for m, c in d.items())))


def padd(a, b, k=1):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    d = dict(as_poly(a))
    for m, c in as_poly(b).items():
        d[m] = d.get(m, 0) + k * c
    return from_poly(d)


def psub(a, b):
    return padd(a, b, -1)


def pmul(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    A, B = as_poly(a), as_poly(b)
    d = {}
    for m1, c1 in A.items():
        for m2, c2 in B.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def pneg(a):
    return psub(FALSE, a)


def pdiv(a, b):
    if is_int(a) and is_int(b) and b.args[0] > 0 and a.args[0] >= 0:
        return I(a.args[0] // b.args[0])
    if b is TRUE:
        return a
    if a is FALSE:
        return a
    if is_int(b) and b.args[0] > 1:   # a common factor cancels
        from math import gcd
        g = b.args[0]
        d = as_poly(a)
        for c in d.values():
            g = gcd(g, abs(c))
        if g > 1:
            return pdiv(from_poly({m: c // g for m, c in d.items()}), I(b.args[0] // g))
    if b.op == "poly" and a.op == "poly":
        q = _exact(as_poly(a), as_poly(b))
        if q is not None:
            return q
    return mk("div", a, b)


def _exact(a, b):
    """the quotient of two polynomials, if there is no remainder"""
    if len(b) < 2 or len(a) < len(b) or len(a) > 16:
        return None
    key = lambda m: (len(m),) + tuple(sorted(x.id for x in m))
    lead = max(b, key=key)
    a, q = dict(a), {}
    for _ in range(16):
        if not a:
            return from_poly(q)
        m = max(a, key=key)
        rest = list(m)
        for x in lead:
            if x not in rest:
                return None
            rest.remove(x)
        if a[m] % b[lead]:
            return None
        c = a[m] // b[lead]
        t = from_poly({tuple(rest): c})
        q = as_poly(padd(from_poly(q), t))
        a = as_poly(psub(from_poly(a), pmul(t, from_poly(b))))
    return None


def prem(a, b):
    if is_int(a) and is_int(b) and b.args[0] > 0 and a.args[0] >= 0:
        return I(a.args[0] % b.args[0])
    return psub(a, pmul(b, pdiv(a, b)))


def _split(t):
    """t = P + k, P canonical sign -> (P, k, sign)"""
    d = dict(as_poly(t))
    k = d.pop((), 0)
    if not d:
        return None, k, 1
    lead = min(d, key=lambda m: tuple(ckey(x) for x in m))
    s = 1
    if d[lead] < 0:
        s = -1
        d = {m: -c for m, c in d.items()}
    g = 0
    from math import gcd
    for c in d.values():
        g = gcd(g, abs(c))
    return (from_poly(d), k, s, g)


GETTY = {}      # (storage class, key family) -> type of the values stored there
EXTTY = {}      # method name -> type of what it returns
_ufields = [0, {}]
_uns = set()


def _tyargs(s):
    """type arguments of Path<A, B>"""
    i = s.find("<")
    if i < 0 or not s.endswith(">"):
        return []
    out, d, cur = [], 0, ""
    for c in s[i + 1:-1]:
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += (c in "<([") - (c in ">)]")
        cur += c
    return out + [cur.strip()]


def family(key):
    """the storage keys that only differ in their arguments"""
    if key.op == "agg":
        return (key.args[0], key.args[1] or "")
    if key.op == "sym":
        return ("sym", key.args[0])
    if key.op == "ite":
        a, b = family(key.args[1]), family(key.args[2])
        return a if a == b else ("?",)
    return ("key",)


def tyof(t):
    """declared type of an atomic term, when it can be told from where the term comes from"""
    if t.op == "vf" and t.args[1] == "Some":
        b = t.args[0]
        if b.op == "get":
            return GETTY.get((b.args[0], family(b.args[1])))
        if b.op in ("mget", "vget"):
            a = _tyargs(tyof(b.args[0]) or "")
            return a[-1] if a else None
        return None
    if t.op == "ext" and t.args[1].op == "sym":
        return EXTTY.get(t.args[1].args[0])
    if t.op == "mval":
        a = _tyargs(tyof(t.args[0]) or "")
        return a[-1] if a else None
    if t.op == "elem":
        m = t.args[1]
        a = _tyargs(tyof(m.args[0] if m.op == "mkeys" else m) or "")
        return a[0] if a else None
    if t.op == "f":
        b = tyof(t.args[0])
        a = ADTS.get(b.split("<")[0]) if b else None
        if a and not a["enum"] and "T" in a and a["variants"]:
            for n, i in a["variants"][0]["f"]:
                if n == t.args[1]:
                    return a["T"][i]["s"]
        if _ufields[0] != len(ADTS):
            d = {}
            for x in ADTS.values():
                if x.get("T") and not x["enum"] and x["variants"]:
                    for n, i in x["variants"][0]["f"]:
                        d.setdefault(n, set()).add(x["T"][i]["s"])
            _ufields[:] = [len(ADTS), {n: list(v)[0] for n, v in d.items() if len(v) == 1}]
        return _ufields[1].get(t.args[1])
    return None


def _unsigned(t):
    if t.id in _uns:
        return True
    if t.op == "int":
        r = t.args[0] >= 0
    elif t.op in ("timestamp", "seq", "len", "index", "bvi", "pow"):
        r = True
    elif t.op == "poly":
        r = all(c >= 0 and all(_unsigned(_all[i]) for i in m) for m, c in t.args[0])
    elif t.op == "call" and t.args[0] == "U256::to_u128":
        r = True
    elif t.op == "div":
        r = _unsigned(t.args[0]) and _unsigned(t.args[1])
    elif t.op == "sum":
        r = _unsigned(t.args[1])
    elif t.op == "ite":
        r = all(l is UNDEF or _unsigned(l) for _, l in leaves(t))
    else:
        r = (tyof(t) or "") in UNS
    if r:
        _uns.add(t.id)
    return r


def _nonneg(P):
    return _unsigned(P)


def lt(a, b):
    """a < b as a predicate"""
    if a is UNDEF or b is UNDEF:
        return FALSE
    if a.op == "ite":
        return ite(atom(a.args[0]), lt(a.args[1], b), lt(a.args[2], b))
    if b.op == "ite":
        return ite(atom(b.args[0]), lt(a, b.args[1]), lt(a, b.args[2]))
    if a.op == "agg" or b.op == "agg":
        return atom(mk("ltx", a, b))
    r = _split(psub(a, b))
    if r[0] is None:
        return TRUE if r[1] < 0 else FALSE
    P, k, s, g = r
    if s > 0:       # P + k < 0
        return _ltatom(P, -k)
    # -P + k < 0  <=>  P > k  <=> not (P < k+1)
    return bnot(_ltatom(P, k + 1))


UNS = ("u8", "u16", "u32", "u64", "u128", "usize")


def ult(a, b):
    """a < b for unsigned operands: comparing with zero is a test for zero"""
    if b is TRUE:
        return eqn(a, FALSE)
    if a is FALSE:
        return bnot(eqn(b, FALSE))
    return lt(a, b)


def _ltatom(P, k):
    if P.op in ("index", "bvi", "len", "timestamp", "seq") and k <= 1:
        return FALSE if k <= 0 else eqn(P, FALSE)
    if P.op == "div" and is_int(P.args[1]) and P.args[1].args[0] > 0:
        # division truncates towards zero
        c = P.args[1].args[0]
        return lt(P.args[0], I(k * c if k > 0 else (k - 1) * c + 1))
    if P.op == "vf" and P.args[0].op == "position":
        # the first index with Q: below k only if Q can hold below k
        _, Q, n = P.args[0].args
        if k <= 0 or rewrite(Q, {(mk("lt", mk("bvi", n), k) if k > 1 else mk("eqk", mk("bvi", n), 0)).id: TRUE}) is FALSE:
            return FALSE
    if P.op == "poly" and len(P.args[0]) == 2:
        h = _idxlen(P)
        if h is not None and h[0] == k:
            return bnot(h[1]) if k else h[1]
        h = _keyfind(P)
        if h is not None and h[0] == k:
            return h[1]
    return atom(mk("lt", P, k))


def _idxlen(P):
    """P = index - length (or its negation) of the same iteration: (0, hasnext) or (1, hasnext)"""
    d = as_poly(P)
    if sorted(d.values()) != [-1, 1] or any(len(m) != 1 for m in d):
        return None
    (p,), (q,) = [m for m, c in d.items() if c == 1][0], [m for m, c in d.items() if c == -1][0]
    if p.op == "index" and q.op == "len" and p.args[1] is q.args[0]:
        return 0, atom(mk("hasnext", p.args[0], p.args[1], ""))
    if q.op == "index" and p.op == "len" and q.args[1] is p.args[0]:
        return 1, atom(mk("hasnext", q.args[0], q.args[1], ""))
    return None


def _keyfind(P):
    """a map key compared with the first key satisfying an upward-closed condition Q: e < first <=> not Q(e)"""
    d = as_poly(P)
    if sorted(d.values()) != [-1, 1] or any(len(m) != 1 for m in d):
        return None
    (p,), (q,) = [m for m, c in d.items() if c == 1][0], [m for m, c in d.items() if c == -1][0]
    for e, f, k in ((p, q, 0), (q, p, 1)):
        if e.op == "elem" and e.args[1].op == "mkeys" and f.op == "vf" and f.args[0].op == "find" and f.args[0].args[0] is e.args[1]:
            _, Q, n = f.args[0].args
            if downward(bnot(Q), mk("bv", n)):
                r = inst(Q, n, e, None)
                return k, (r if k else bnot(r))
    return None


def le(a, b):
    return bnot(lt(b, a))


def eqn(a, b):
    """numeric equality"""
    if a is UNDEF or b is UNDEF:
        return FALSE
    if a.op == "ite":
        return ite(atom(a.args[0]), eqn(a.args[1], b), eqn(a.args[2], b))
    if b.op == "ite":
        return ite(atom(b.args[0]), eqn(a, b.args[1]), eqn(a, b.args[2]))
    if a is b:
        return TRUE
    if a.op == "discr" and is_int(b):
        return isv_d(a, b.args[0])
    if b.op == "discr" and is_int(a):
        return isv_d(b, a.args[0])
    r = _split(psub(a, b))
    if r[0] is None:
        return TRUE if r[1] == 0 else FALSE
    P, k, s, g = r
    if P.op == "pow" and is_int(P.args[0]) and P.args[0].args[0] > 0 and (-k if s > 0 else k) < 1:
        return FALSE
    return atom(mk("eqk", P, -k if s > 0 else k))


NUMTY = {"i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"}


def numfield(adt, variant, name):
    """a field that holds a number"""
    a = ADTS.get(adt)
    if a is None or "T" not in a:
        return False
    for v in a["variants"]:
        if variant is None and not a["enum"] or v["n"] == variant:
            return any(f[0] == name and a["T"][f[1]]["s"] in NUMTY for f in v["f"])
    return False


def eq(a, b):
    """structural equality of non-numeric values"""
    if a is UNDEF or b is UNDEF:
        return FALSE
    if a.op == "ite":
        return ite(atom(a.args[0]), eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite":
        return ite(atom(b.args[0]), eq(a, b.args[1]), eq(a, b.args[2]))
    if a is b:
        return TRUE
    if a.op == "agg" and b.op == "agg":
        if a.args[0] != b.args[0] or a.args[1] != b.args[1] or len(a.args) != len(b.args):
            return FALSE
        r = TRUE
        for n, x, y in zip(a.args[2], a.args[3:], b.args[3:]):
            r = band(r, eqn(x, y) if numfield(a.args[0], a.args[1], n) else eq(x, y))
        return r
    if a.op in ("int", "poly") or b.op in ("int", "poly"):
        return eqn(a, b)
    if a.op in ("sym", "str") and b.op in ("sym", "str"):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and x.args[1] is not None:      # enum literal against an opaque enum
            r = isv(y, x.args[0], x.args[1])
            for n, v in zip(x.args[2], x.args[3:]):
                r = band(r, (eqn if numfield(x.args[0], x.args[1], n) else eq)(vfield(y, x.args[1], n), v))
            return r
        if x.op == "agg" and x.args[0] in ADTS and not ADTS[x.args[0]]["enum"] and x.args[2]:      # struct literal against an opaque one
            r = TRUE
            for n, v in zip(x.args[2], x.args[3:]):
                r = band(r, (eqn if numfield(x.args[0], None, n) else eq)(field(y, n), v))
            return r
    if ckey(a) > ckey(b):
        a, b = b, a
    return atom(mk("eq", a, b))


# ---------------------------------------------------------------- aggregates
ADTS = {}   # path -> {"enum":bool,"variants":[{"n","d","f"}]}
ADTS["core::option::Option"] = {"enum": True, "variants": [{"n": "None", "d": "0", "f": []}, {"n": "Some", "d": "1", "f": [["0", 0]]}]}


def agg(adt, variant, names, vals):
    names = tuple(names)
    if variant is None and vals and adt not in ("tuple", "array"):
        b = None
        for n, v in zip(names, vals):
            if v.op == "f" and v.args[1] == n and (b is None or v.args[0] is b):
                b = v.args[0]
            else:
                b = False
                break
        if b:
            return b
    return mk("agg", adt, variant, names, *vals)


def some(x):
    return mk("agg", "core::option::Option", "Some", ("0",), x)


NONE = mk("agg", "core::option::Option", "None", ())


def ok(x):
    return mk("agg", "core::result::Result", "Ok", ("0",), x)


def err(x):
    return mk("agg", "core::result::Result", "Err", ("0",), x)


def tup(*xs):
    return mk("agg", "tuple", None, tuple(str(i) for i in range(len(xs))), *xs)


def field(t, name):
    if t.op == "ite":
        return leafmap(t, lambda l: field(l, name))
    if t is UNDEF:
        return t
    if t.op == "agg":
        if name in t.args[2]:
            return t.args[3 + t.args[2].index(name)]
        return UNDEF
    if t.op == "clos":
        return t.args[1 + int(name)]
    return mk("f", t, name)


def vfield(t, variant, name):
    if t.op == "ite":
        return leafmap(t, lambda l: vfield(l, variant, name))
    if t is UNDEF:
        return t
    if t.op == "agg":
        if t.args[1] == variant and name in t.args[2]:
            return t.args[3 + t.args[2].index(name)]
        return UNDEF
    return mk("vf", t, variant, name)


def setfield(t, name, v, adt=None, variant=None):
    if t.op == "ite":
        return leafmap(t, lambda l: setfield(l, name, v, adt, variant))
    if t.op == "agg":
        names = t.args[2]
        vals = list(t.args[3:])
        if name in names:
            vals[names.index(name)] = v
            return agg(t.args[0], t.args[1], names, vals)
        return agg(t.args[0], t.args[1], names + (name,), vals + [v])
    if adt in ADTS and not ADTS[adt]["enum"]:
        fs = [f[0] for f in ADTS[adt]["variants"][0]["f"]]
        return agg(adt, None, fs, [v if n == name else (field(t, n) if t is not UNDEF else UNDEF) for n in fs])
    if t is UNDEF:
        return mk("agg", adt or "tuple", None, (name,), v)
    return mk("upd", t, name, v)


def isv(t, adt, variant):
    if t.op == "ite":
        return leafmap(t, lambda l: isv(l, adt, variant))
    if t is UNDEF:
        return FALSE
    if t.op == "agg":
        return TRUE if t.args[1] == variant else FALSE
    if t.op in ("find", "position"):
        r = mk_any(*t.args)
        return r if variant == "Some" else bnot(r)
    if t.op == "vget" and t.args[1].op == "poly" and adt == OPT:
        # an earlier position than the current one of the same traversal
        d = as_poly(t.args[1])
        c = d.get((), 0)
        ms = [m for m in d if m]
        if c < 0 and len(ms) == 1 and d[ms[0]] == 1 and len(ms[0]) == 1 and ms[0][0].op == "index" and ms[0][0].args[1] is t.args[0]:
            r = bnot(lt(ms[0][0], I(-c)))
            return r if variant == "Some" else bnot(r)
        # a position counted from the end
        if c < 0 and len(ms) == 1 and d[ms[0]] == 1 and len(ms[0]) == 1 and ms[0][0].op == "len" and ms[0][0].args[0] is t.args[0]:
            r = lt(ms[0][0], I(-c))
            return bnot(r) if variant == "Some" else r
    if t.op == "vget" and adt == OPT and is_int(t.args[1]) and t.args[1].args[0] >= 0 and vlen(t.args[0]).op == "len":
        r = lt(vlen(t.args[0]), I(t.args[1].args[0] + 1))
        return bnot(r) if variant == "Some" else r
    vs = [v["n"] for v in ADTS[adt]["variants"]] if adt in ADTS else None
    if vs and len(vs) == 2 and variant in vs:
        if adt == "core::option::Option":
            main = "Some"
        elif adt == "core::result::Result":
            main = "Ok"
        else:
            main = vs[0]
        A = atom(mk("isv", t, main))
        return A if variant == main else bnot(A)
    if vs and len(vs) == 1:
        return TRUE
    return atom(mk("isv", t, variant))


def isv_d(d, n):
    t, adt = d.args
    if adt in ADTS:
        for v in ADTS[adt]["variants"]:
            if int(v["d"]) == n:
                return isv(t, adt, v["n"])
        return FALSE
    return atom(mk("eqk", d, n))


def discr(t, adt):
    if t.op == "ite":
        return leafmap(t, lambda l: discr(l, adt))
    if t is UNDEF:
        return t
    if t.op == "agg":
        if adt in ADTS:
            for v in ADTS[adt]["variants"]:
                if v["n"] == t.args[1]:
                    return I(int(v["d"]))
    return mk("discr", t, adt)


OPT = "core::option::Option"
RES = "core::result::Result"


def is_some(t):
    return isv(t, OPT, "Some")


def payload(t):
    return vfield(t, "Some", "0")


# ---------------------------------------------------------------- traversal / rewriting
def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if x.op == "poly":
            for m, _ in x.args[0]:
                for i in m:
                    st.append(_all[i])
        else:
            for a in x.args:
                if isinstance(a, T):
                    st.append(a)
                elif isinstance(a, tuple):
                    for y in a:
                        if isinstance(y, T):
                            st.append(y)


def rebuild(t, args):
    """re-apply the smart constructor of t.op to new args"""
    op = t.op
    if op == "poly":
        d = FALSE
        for m, c in args[0]:
            x = I(c)
            for y in m:
                x = pmul(x, y)
            d = padd(d, x)
        return d
    if op == "ite":
        return ite(tobool_atom(args[0]), args[1], args[2])
    if op == "f":
        return field(*args)
    if op == "vf":
        return vfield(*args)
    if op == "agg":
        return agg(args[0], args[1], args[2], list(args[3:]))
    if op == "div":
        return pdiv(*args)
    if op == "rem":
        return prem(*args)
    if op == "discr":
        return discr(*args)
    if op == "vget":
        return vget(*args)
    if op == "mget":
        return mget(*args)
    if op == "mkeys":
        return mkeys(*args)
    if op == "len":
        return vlen(*args)
    if op == "pow" and is_int(args[0]) and is_int(args[1]) and 0 <= args[1].args[0] < 80:
        return I(args[0].args[0] ** args[1].args[0])
    if op == "sum":
        return mk_sum(*args)
    if op == "fold":
        return mk_fold(*args)
    if op in ("find", "position"):
        return mk_find(op, *args)
    if op == "first":
        return mk_first(*args)
    if op == "it" and args[0] == "take" and args[2] is FALSE:
        return mk("vec")
    return mk(op, *args)


def tobool_atom(a):
    """atoms after rewriting: comparison atoms must be re-normalised"""
    if a.op in ("int", "ite"):
        return tobool(a)
    if a.op == "lt":
        return lt(a.args[0], I(a.args[1]))
    if a.op == "eqk":
        return eqn(a.args[0], I(a.args[1]))
    if a.op == "eq":
        return eq(*a.args)
    if a.op == "any":
        return mk_any(*a.args)
    if a.op == "isv":
        t, v = a.args
        if t.op in ("find", "position") and v == "Some":
            return mk_any(*t.args)
        if t.op in ("agg", "ite"):
            return leafmap(t, lambda l: (TRUE if l.args[1] == v else FALSE) if l.op == "agg" else atom(mk("isv", l, v)))
    return atom(a)


def rewrite(t, sub, memo=None):
    """bottom-up rewriting. sub: dict term.id -> term  (atoms may map to TRUE/FALSE)"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.id in sub:
        r = sub[t.id]
    elif t.op == "loop":
        # the identity of a loop does not depend on how conditions are decided
        s2 = {k: v for k, v in sub.items() if v is not TRUE and v is not FALSE}
        r = t
        if s2:
            m2 = {}
            r = mk("loop", *[rewrite(a, s2, m2) if isinstance(a, T) else a for a in t.args])
    elif t.op == "poly":
        r = rebuild(t, [[([rewrite(_all[i], sub, memo) for i in m], c) for m, c in t.args[0]]])
    elif not any(isinstance(a, (T, tuple)) for a in t.args):
        r = t
    else:
        na = []
        ch = False
        for a in t.args:
            if isinstance(a, T):
                b = rewrite(a, sub, memo)
                ch |= b is not a
                na.append(b)
            elif isinstance(a, tuple):
                b = tuple(rewrite(x, sub, memo) if isinstance(x, T) else x for x in a)
                ch |= any(p is not q for p, q in zip(a, b))
                na.append(b)
            else:
                na.append(a)
        r = rebuild(t, na) if ch else t
    memo[t.id] = r
    return r


# ---------------------------------------------------------------- sequences, bound variables, quantified conditions
_bvn_memo = {}


def bvn(t):
    """largest bound-variable number occurring in t"""
    r = _bvn_memo.get(t.id)
    if r is None:
        r = 0
        for x in subterms(t):
            if x.op in ("bv", "bvi", "acc"):
                r = max(r, x.args[0])
        _bvn_memo[t.id] = r
    return r


_fv_memo = {}


def fv(t):
    """numbers of the bound variables free in t"""
    if bvn(t) == 0:
        return frozenset()
    r = _fv_memo.get(t.id)
    if r is None:
        if t.op in ("bv", "bvi", "acc"):
            r = frozenset(t.args)
        elif t.op == "poly":
            r = frozenset().union(*[fv(_all[i]) for m, _ in t.args[0] for i in m])
        else:
            r = frozenset()
            ts = [a for a in t.args if isinstance(a, T)]
            for a in t.args:
                if isinstance(a, tuple):
                    ts += [y for y in a if isinstance(y, T)]
            k = _BIND.get(t.op)
            if k is not None:
                body = t.args[k - 1]
                r = fv(body) - {t.args[k]}
                ts = [x for x in ts if x is not body]
            r = r.union(*[fv(x) for x in ts])
        _fv_memo[t.id] = r
    return r


def inst(q, n, a, i):
    sub = {mk("bv", n).id: a}
    if i is not None:
        sub[mk("bvi", n).id] = i
    return rewrite(q, sub)


def renum(q, n, m):
    return q if n == m else rewrite(q, {mk(o, n).id: mk(o, m) for o in ("bv", "bvi", "acc")})


def vlen(v):
    if v.op == "ite":
        return leafmap(v, vlen)
    if v.op == "vec":
        return I(len(v.args))
    if v.op == "vpush":
        return padd(vlen(v.args[0]), TRUE)
    if v.op == "agg" and v.args[0] == "array":
        return I(len(v.args) - 3)
    if v.op == "it" and v.args[0] == "rev":
        return vlen(v.args[1])
    if v.op == "it" and v.args[0] == "take":
        return v.args[2]        # prefixes are only formed at positions of the sequence
    p = _pushes(v)
    if p is not None:
        return padd(vlen(p[1]), mk_sum(p[0], tobool(p[2]), p[4]))
    return mk("len", v)


def mk_any(it, q, n):
    """some element of `it` satisfies q (a predicate over the bound variable n)"""
    if q is FALSE:
        return FALSE
    if q.op == "ite" and _suspect(q) and sat(q) is None:
        return FALSE        # excludes every variant, or every value of a quantity
    if it.op == "ite":
        return leafmap(it, lambda l: mk_any(l, q, n))
    if it is UNDEF:
        return FALSE
    if it.op == "agg" and it.args[0].endswith("RangeFrom"):
        return TRUE         # there is one, or the search never ends
    if it.op == "vec":
        r = FALSE
        for i, a in enumerate(it.args):
            r = bor(r, tobool(inst(q, n, a, I(i))))
        return r
    if q.op == "ite" and not (q.args[1] is TRUE and q.args[2] is FALSE):
        # the element is x, and something else holds of it: that holds of x
        for a in atoms_of(q).values():
            x = _member(atom(a), n) if a.op == "eq" else None
            if x is not None and rewrite(q, {a.id: FALSE}) is FALSE:
                r = inst(rewrite(q, {a.id: TRUE}), n, x, None)
                if _free(r, n):
                    return band(tobool(r), mk_any(it, atom(a), n))
    if it.op == "vpush":
        return bor(mk_any(it.args[0], q, n), tobool(inst(q, n, it.args[1], vlen(it.args[0]))))
    if it.op == "it" and it.args[0] == "rev":
        return mk_any(it.args[1], q, n)
    if it.op == "vcat" and not _uses(q, mk("bvi", n)):
        return bor(mk_any(it.args[0], q, n), mk_any(it.args[1], q, n))
    if it.op == "it" and it.args[0] == "upto":
        p = _before(it, q, n)
        if p is not None:
            return mk_any(p[0], p[1], n)
    p = _later(it, q, n)
    if p is not None:
        return mk_any(it, p, n)
    p = _pushes(it)
    if p is not None:
        # a vector built by pushing f(x) for every x with c(x)
        xs, init, c, f, m = p
        k = 1 + max(bvn(q), bvn(c), bvn(f), n, m)
        q1, c1, f1 = renum(q, n, k + 1), renum(c, m, k), renum(f, m, k)
        if not any(x.op == "bvi" and x.args[0] == k + 1 for x in subterms(q1)):
            return bor(mk_any(init, q, n), _any1(xs, band(tobool(c1), tobool(rewrite(q1, {mk("bv", k + 1).id: f1}))), k))
    p = _inserts(it)
    if p is not None:
        # a set built by adding every x of xs not yet in it: its members are those of init and of xs
        xs, init = p
        x = _member(q, n)
        if x is not None:
            k = 1 + max(bvn(q), n)
            return bor(mk_any(init, q, n), mk_any(xs, eq(mk("bv", k), x), k))
    return _any1(it, q, n)


def _suspect(q):
    at = atoms_of(q).values()
    if sum(a.op == "isv" for a in at) > 2:
        return True
    ps = [a.args[0].id for a in at if a.op in ("lt", "eqk")]
    return len(ps) > len(set(ps)) and len(at) < 9


def _member(q, n):
    """q says that the bound variable is x"""
    b = mk("bv", n)
    if q.op == "ite" and q.args[1] is TRUE and q.args[2] is FALSE and q.args[0].op == "eq":
        x, y = q.args[0].args
        for u, v in ((x, y), (y, x)):
            if u is b and _free(v, n):
                return v
    return None


def _inserts(v):
    """v = init with every x of xs appended that is not yet in it"""
    if v.op != "fold":
        return None
    xs, init, step, n = v.args
    acc, b = mk("acc", n), mk("bv", n)
    if step.op == "ite" and step.args[1] is acc and step.args[2] is mk("vpush", acc, b) and step.args[0].op == "any":
        it, q, m = step.args[0].args
        if it is acc and _member(q, m) is b:
            return xs, init
    return None


def _free(t, n):
    return n not in fv(t)


def _any1(it, q, n):
    if q is FALSE:
        return FALSE
    if q is TRUE or (q.op != "ite" and _free(q, n)):
        return band(bnot(eqn(vlen(it), FALSE)), tobool(q))
    a = _freeatom(q, n)
    if a is not None:
        return ite(atom(a), _any1(it, _cof(q, a, 1) if q.args[0] is a else rewrite(q, {a.id: TRUE}), n), _any1(it, _cof(q, a, 0) if q.args[0] is a else rewrite(q, {a.id: FALSE}), n))
    if q.op == "ite" and _suspect(q) and sat(q) is None:
        return FALSE
    return atom(mk("any", it, *_low(q, n)))


_BIND = {"any": 2, "find": 2, "position": 2, "sum": 2, "fold": 3, "first": 2}


def _before(it, q, n):
    """counting from zero up to the position of an outer element, only to look at the elements before it"""
    F, b = it.args[2], mk("bv", n)
    if it.args[1] is not FALSE or F.op != "first" or F.args[0] is not FALSE:
        return None
    m = F.args[2]
    k = next((x for x in subterms(F.args[1]) if x.op == "bvi" and mk_first(FALSE, bnot(lt(mk("bv", m), x)), m) is F), None)
    gs = [x for x in subterms(q) if x.op == "vget" and x.args[1] is b]
    if k is None or not gs or any(x.args[0] is not gs[0].args[0] for x in gs) or not _free(gs[0].args[0], n):
        return None
    hole = mk("hole", "before")
    r = rewrite(q, {gs[0].id: hole})
    if not _free(r, n):
        return None
    return mk("it", "take", gs[0].args[0], k), rewrite(r, {hole.id: some(b)})


def _later(it, q, n):
    """some later element, read by position, stands in a relation to this one: some earlier one does, seen from the later"""
    if q.op != "ite" or q.args[1] is not TRUE or q.args[2] is not FALSE:
        return None
    a = q.args[0]
    if a.op != "any" or a.args[0].op != "agg" or not a.args[0].args[0].endswith("Range") or a.args[0].args[2] != ("start", "end"):
        return None
    lo, hi, r, m = a.args[0].args[3], a.args[0].args[4], a.args[1], a.args[2]
    b, i = mk("bv", n), mk("bv", m)
    if m == n or lo is not padd(mk("bvi", n), TRUE) or hi is not vlen(it):
        return None
    g = vget(it, i)
    h1, h2 = mk("hole", "later"), mk("hole", "earlier")
    r = rewrite(r, {g.id: some(h1), b.id: h2})
    if not _free(r, m) or not _free(r, n):
        return None
    return mk_any(mk("it", "take", it, mk("bvi", n)), rewrite(r, {h1.id: b, h2.id: i}), m)


def _low(q, n):
    """canonical number for the variable bound over q"""
    b, f = 0, set()
    for x in subterms(q):
        if x.op in _BIND:
            b = max(b, x.args[_BIND[x.op]])
        elif x.op in ("bv", "bvi", "acc"):
            f.add(x.args[0])
    m = b + 1
    while m in f and m != n:
        m += 1
    return renum(q, n, m), m


def mk_first(init, q, n):
    """the smallest number from init on that satisfies q (there is one, or this is never evaluated)"""
    if q is TRUE:
        return init
    return mk("first", init, *_low(q, n))


def mk_find(op, it, q, n):
    if it.op == "ite":
        return leafmap(it, lambda l: mk_find(op, l, q, n))
    if q is FALSE:
        return NONE
    a = _freeatom(q, n) if q.op == "ite" else None
    if a is not None:
        return ite(atom(a), mk_find(op, it, rewrite(q, {a.id: TRUE}), n), mk_find(op, it, rewrite(q, {a.id: FALSE}), n))
    if q is TRUE and it.op != "it":
        return vget(it, FALSE) if op == "find" else some(FALSE)
    if op == "find" and it.op == "agg" and it.args[0].endswith("RangeFrom") and len(it.args) == 4:
        return some(mk_first(it.args[3], q, n))
    return mk(op, it, *_low(q, n))


def _freeatom(q, n):
    """a gate of q that does not depend on the bound variable"""
    for a in atoms_of(q).values():
        if _free(a, n):
            return a
    return None


def _pushes(v):
    """v = the vector init followed by f(x) for each x of xs with c(x), in order"""
    if v.op != "fold":
        return None
    xs, init, step, n = v.args
    acc = mk("acc", n)
    ls = leaves(step)
    on = [(c, l) for c, l in ls if l.op == "vpush" and l.args[0] is acc]
    off = [(c, l) for c, l in ls if l is acc]
    if len(on) != 1 or len(on) + len(off) != len(ls):
        return None
    c, f = on[0][0], on[0][1].args[1]
    if any(x is acc for x in subterms(c)) or any(x is acc for x in subterms(f)):
        return None
    return xs, init, c, f, n


_shave_memo = {}


def _shave(g):
    """comparisons with a bound where both outcomes agree at the last value below it: with the bound one lower (x <= k ? x : k is x < k ? x : k)"""
    r = _shave_memo.get(g.id)
    if r is not None:
        return r
    r = g
    for a in [x for x in subterms(g) if x.op == "lt"]:
        P, k = a.args
        x, y = rewrite(r, {a.id: TRUE}), rewrite(r, {a.id: FALSE})
        if x is y:
            continue
        new = None
        for d in subterms(x):
            if d.op == "div" and d.args[0] is P and is_int(d.args[1]) and d.args[1].args[0] > 0 and k > 0 and k % d.args[1].args[0] == 0:
                c = d.args[1].args[0]
                if rewrite(x, {d.id: I(k // c - 1)}) is y:
                    new = lt(P, I(k - c))
                    break
        if new is None and P.op not in ("poly", "int") and rewrite(x, {P.id: I(k - 1)}) is y:
            new = lt(P, I(k - 1))
        if new is not None:
            r = rewrite(r, {a.id: new})
    _shave_memo[g.id] = r
    return r


def mk_sum(it, g, n):
    if g is FALSE:
        return FALSE
    g = _shave(g)
    if it.op == "ite":
        return leafmap(it, lambda l: mk_sum(l, g, n))
    if it.op == "vec":
        r = FALSE
        for i, a in enumerate(it.args):
            r = padd(r, inst(g, n, a, I(i)))
        return r
    if it.op == "vpush":
        return padd(mk_sum(it.args[0], g, n), inst(g, n, it.args[1], vlen(it.args[0])))
    if it.op == "it" and it.args[0] == "rev":
        return mk_sum(it.args[1], g, n)
    if it.op == "vcat" and not _uses(g, mk("bvi", n)):
        return padd(mk_sum(it.args[0], g, n), mk_sum(it.args[1], g, n))
    if g.op == "ite":
        a = _freeatom(g, n)
        if a is not None:
            return ite(atom(a), mk_sum(it, rewrite(g, {a.id: TRUE}), n), mk_sum(it, rewrite(g, {a.id: FALSE}), n))
    elif g.op in ("poly", "int") or _free(g, n):
        # linear: constants and factors without the bound variable come out
        r, whole = FALSE, FALSE
        for m, c in as_poly(g).items():
            out = [x for x in m if _free(x, n)]
            ins = [x for x in m if not _free(x, n)]
            k = I(c)
            for x in out:
                k = pmul(k, x)
            if not ins:
                r = padd(r, pmul(k, vlen(it)))
            else:
                b = TRUE
                for x in ins:
                    b = pmul(b, x)
                r = padd(r, pmul(k, _sum1(it, b, n)))
        return r
    return _sum1(it, g, n)


def _sum1(it, g, n):
    return mk("sum", it, *_low(g, n))


def _noacc(t, n):
    return not any(x.op == "acc" and x.args[0] == n for x in subterms(t))


def _known(step, acc):
    """a step that keeps Some(v) where it is Some(v) already, and sets Some(v) otherwise, sets it"""
    if step.op != "ite" or not any(x.op == "isv" and x.args[0] is acc for x in atoms_of(step).values()):
        return step
    ls = leaves(step)
    new = {l for _, l in ls if l is not acc}
    if len(ls) < 3 or len(new) != 1 or not any(l is acc for _, l in ls):
        return step
    v = new.pop()
    if v.op != "agg" or v.args[:2] != (OPT, "Some") or _uses(v, acc):
        return step
    for e in (eq, eqn):
        if all(implies(c, band(is_some(acc), e(payload(acc), payload(v)))) for c, l in ls if l is acc):
            return v
    return step


def _uses(t, v):
    return any(x is v for x in subterms(t))


def mk_fold(it, init, step, n):
    if it.op == "ite":
        return leafmap(it, lambda l: mk_fold(l, init, step, n))
    if step is mk("acc", n):
        return init
    step = _known(step, mk("acc", n))
    if it.op == "vcat" and not _uses(step, mk("bvi", n)):
        return mk_fold(it.args[1], mk_fold(it.args[0], init, step, n), step, n)
    if it.op != "vec" and _noacc(step, n) and not (it.op == "it" and it.args[0] == "rev"):
        # only the last element matters
        last = psub(vlen(it), TRUE)
        return ite(eqn(vlen(it), FALSE), init, inst(step, n, payload(vget(it, last)), last))
    if step.op == "ite" and step.args[1] is mk("acc", n) and _noacc(step.args[2], n) and it.op != "vec" and not (it.op == "it" and it.args[0] == "rev"):
        # the first k elements leave the initial value, afterwards only the last element matters
        g = step.args[0]
        if g.op in ("lt", "eqk") and g.args[0] is mk("bvi", n) and (g.op == "lt" or g.args[1] == 0):
            k = g.args[1] if g.op == "lt" else 1
            ln = vlen(it)
            last = psub(ln, I(1))
            tail = inst(step.args[2], n, payload(vget(it, last)), last)
            if k == 1 and init is inst(step.args[2], n, payload(vget(it, FALSE)), FALSE):
                k = 0
            return ite(le(ln, I(k)), init, tail)
    if it.op == "vec":
        r = init
        for i, a in enumerate(it.args):
            r = rewrite(step, {mk("bv", n).id: a, mk("bvi", n).id: I(i), mk("acc", n).id: r})
        return r
    step, n = _low(step, n)
    if init is mk("vec") and step is mk("vpush", mk("acc", n), mk("bv", n)) and it.op != "it":
        return it
    return mk("fold", it, init, step, n)


OPEN = set()        # positions of traversals that end where reading the sequence yields nothing


def vget(v, i):
    if v.op == "ite" or i.op == "ite":
        a = _top((v, i))
        return ite(atom(a), vget(_cof(v, a, 1), _cof(i, a, 1)), vget(_cof(v, a, 0), _cof(i, a, 0)))
    if v.op == "vec" and is_int(i):
        n = i.args[0]
        return some(v.args[n]) if 0 <= n < len(v.args) else NONE
    if v.op == "vec" and not v.args:
        return NONE
    if v.op == "it" and v.args[0] == "take":
        return vget(v.args[1], i)
    if i.op == "index" and i.args[1] is v:
        r = some(mk("elem", i.args[0], v, ""))
        return ite(atom(mk("hasnext", i.args[0], v, "")), r, NONE) if i in OPEN else r
    return mk("vget", v, i)


def mkeys(m):
    if m.op == "ite":
        return leafmap(m, mkeys)
    if m.op == "map":
        return mk("vec")
    return mk("mkeys", m)


def mget(m, k):
    if m.op == "ite":
        return leafmap(m, lambda l: mget(l, k))
    if m.op == "map":
        return NONE
    if m.op == "mset":
        c = eq(k, m.args[1])
        return ite(c, some(m.args[2]), mget(m.args[0], k))
    if k.op == "elem" and k.args[1].op == "mkeys" and k.args[1].args[0] is m:
        return some(mk("mval", m, k))
    return mk("mget", m, k)


def seq_of_len(e):
    """the sequence whose length e is, if it is a length"""
    if e.op == "ite":
        x, y = seq_of_len(e.args[1]), seq_of_len(e.args[2])
        return None if x is None or y is None else ite(atom(e.args[0]), x, y)
    if e is FALSE:
        return mk("vec")
    return e.args[0] if e.op == "len" else None


def downward(p, e):
    """p(e) holds for every smaller e as well (sound check: p is monotone in every comparison of e)"""
    for a in atoms_of(p).values():
        if not any(x is e for x in subterms(a)):
            continue
        if a.op != "lt":
            return False
        c = 0
        for m, k in as_poly(a.args[0]).items():
            if m == (e,):
                c = k
            elif any(y is e for x in m for y in subterms(x)):
                return False
        p1, p0 = rewrite(p, {a.id: TRUE}), rewrite(p, {a.id: FALSE})
        if not (implies(p0, p1) if c > 0 else implies(p1, p0)):
            return False
    return True


# ---------------------------------------------------------------- theory over literals
_cov_memo = {}


def _covers(ns):
    """the variants ns are all there are"""
    r = _cov_memo.get(ns)
    if r is None:
        m = [a for a in ADTS.values() if a.get("enum") and ns <= {v["n"] for v in a["variants"]}]
        r = bool(m) and all(len(a["variants"]) == len(ns) for a in m)
        _cov_memo[ns] = r
    return r


def _offset(x):
    """x = y + constant"""
    if x.op != "poly":
        return x, 0
    d = as_poly(x)
    k = d.pop((), 0)
    return from_poly(d), k


def _consistent(lits):
    """lits: list of (atom, bool).  Sound refutation only (True = maybe satisfiable)."""
    lo, hi, ne, iv, neg = {}, {}, {}, {}, {}
    parent = {}

    def find(x):
        while parent.get(x, x) != x:
            x = parent[x]
        return x
    for a, v in lits:
        if a.op == "eq" and v:
            x, y = find(a.args[0].id), find(a.args[1].id)
            parent[x] = y
    for a, v in lits:
        if a.op == "eq" and not v:
            if find(a.args[0].id) == find(a.args[1].id):
                return False
    # congruence classes must not contain two distinct literals
    reps = {}
    for a, v in lits:
        if a.op == "eq" and v:
            for x in a.args:
                if x.op in ("sym", "str", "int"):
                    r = find(x.id)
                    if reps.setdefault(r, x) is not x:
                        return False
    for a, v in lits:
        if a.op in ("lt", "eqk") and a.args[0].op != "discr" and _nonneg(a.args[0]):
            lo[a.args[0].id] = max(lo.get(a.args[0].id, 0), 0)
        if a.op == "lt":
            P, k = a.args
            if v:
                hi[P.id] = min(hi.get(P.id, k - 1), k - 1)
            else:
                lo[P.id] = max(lo.get(P.id, k), k)
        elif a.op == "eqk":
            P, k = a.args
            if v:
                hi[P.id] = min(hi.get(P.id, k), k)
                lo[P.id] = max(lo.get(P.id, k), k)
            else:
                ne.setdefault(P.id, set()).add(k)
        elif a.op == "isv":
            t, n = a.args
            if v:
                if iv.setdefault(find(t.id), n) != n:
                    return False
            else:
                neg.setdefault(find(t.id), set()).add(n)
    for a, v in lits:
        if a.op == "eqk" and a.args[0].op == "div" and is_int(a.args[0].args[1]) and a.args[0].args[1].args[0] > 0:
            # truncating division by a constant
            x, c = a.args[0].args
            c, k = c.args[0], a.args[1]
            x, o = _offset(x)
            l, h = (k * c if k > 0 else (k - 1) * c + 1) - o, ((k + 1) * c - 1 if k >= 0 else k * c) - o
            if v:
                lo[x.id] = max(lo.get(x.id, l), l)
                hi[x.id] = min(hi.get(x.id, h), h)
            else:
                if _nonneg(x):
                    lo[x.id] = max(lo.get(x.id, 0), 0)
                if lo.get(x.id, l - 1) >= l and hi.get(x.id, h + 1) <= h:
                    return False
    for r, n in iv.items():
        if n in neg.get(r, ()):
            return False
    for r, ns in neg.items():
        if len(ns) > 2 and _covers(frozenset(ns)):
            return False
    for p in lo:
        h = hi.get(p)
        if h is not None:
            if lo[p] > h:
                return False
            s = ne.get(p, ())
            if h - lo[p] < 50 and all(x in s for x in range(lo[p], h + 1)):
                return False
    return True


_lin_memo = {}


def _linear(lits):
    """joint consistency of the integer bounds (Fourier-Motzkin elimination; False only if inconsistent)"""
    lo, hi = {}, {}
    for a, v in lits:
        if a.op == "lt":
            P, k = a.args
            if v:
                hi[P.id] = min(hi.get(P.id, k - 1), k - 1)
            else:
                lo[P.id] = max(lo.get(P.id, k), k)
        elif a.op == "eqk" and v and a.args[0].op != "discr":
            P, k = a.args
            hi[P.id] = min(hi.get(P.id, k), k)
            lo[P.id] = max(lo.get(P.id, k), k)
    key = (frozenset(lo.items()), frozenset(hi.items()))
    r = _lin_memo.get(key)
    if r is not None:
        return r
    cons = set()         # (coefficients sorted, bound): sum c*x <= b
    big = False

    def add(d, b):
        from math import gcd
        if not d:
            return b >= 0
        g = 0
        for c in d.values():
            g = gcd(g, abs(c))
        cons.add((tuple(sorted((x, c // g) for x, c in d.items())), b // g))
        return True
    for tab, s in ((hi, 1), (lo, -1)):
        for i, b in tab.items():
            d = {tuple(x.id for x in m): s * c for m, c in as_poly(_all[i]).items()}
            big = big or len(d) > 1
            k = d.pop((), 0)
            add(d, s * b - k)
    for x in {v for c, _ in cons for v, _ in c}:
        if len(x) == 1 and (_nonneg(_all[x[0]]) or _all[x[0]].op == "pow"):
            cons.add((((x, -1),), 0))
    ok = True
    while big and cons:
        cnt = {}
        for c, _ in cons:
            for x, k in c:
                p = cnt.setdefault(x, [0, 0])
                p[k > 0] += 1
        x = min(cnt, key=lambda v: (cnt[v][0] * cnt[v][1] - sum(cnt[v]), v))
        if cnt[x][0] * cnt[x][1] > 120 or len(cons) > 400:
            break
        up = [(dict(c), b) for c, b in cons if (x, 1) in [(v, k > 0) for v, k in c]]
        dn = [(dict(c), b) for c, b in cons if any(v == x and k < 0 for v, k in c)]
        up = [(c, b) for c, b in up if c.get(x, 0) > 0]
        cons = {cb for cb in cons if all(v != x for v, _ in cb[0])}
        for c1, b1 in up:
            for c2, b2 in dn:
                f1, f2 = -c2[x], c1[x]
                d = {}
                for c, f in ((c1, f1), (c2, f2)):
                    for v, k in c.items():
                        d[v] = d.get(v, 0) + f * k
                d = {v: k for v, k in d.items() if k}
                if not add(d, f1 * b1 + f2 * b2):
                    ok = False
                    break
            if not ok:
                break
        if not ok:
            break
        best = {}
        for c, b in cons:
            best[c] = min(best.get(c, b), b)
        cons = set(best.items())
    _lin_memo[key] = ok
    return ok


class Budget(Exception):
    pass


_quant_memo = {}


def _quant(lits):
    """an element satisfying q is a contradiction if no element satisfies any of some q' that q implies (False only if inconsistent)"""
    pos = [a for a, v in lits if a.op == "any" and v]
    neg = [a for a, v in lits if a.op == "any" and not v]
    for a in pos:
        qs = [b for b in neg if b.args[0] is a.args[0]]
        if not qs:
            continue
        k = (a.id, tuple(sorted(b.id for b in qs)))
        r = _quant_memo.get(k)
        if r is None:
            n = 1 + max([bvn(a.args[1]), a.args[2]] + [max(bvn(b.args[1]), b.args[2]) for b in qs])
            f = tobool(renum(a.args[1], a.args[2], n))
            for b in qs:
                f = band(f, bnot(tobool(renum(b.args[1], b.args[2], n))))
            try:
                r = f is not FALSE and sat(f, budget=5000) is not None
            except Budget:
                r = True
            _quant_memo[k] = r
        if not r:
            return False
    return True


def sat(f, extra=(), budget=200000):
    """Is predicate f satisfiable modulo the literal theory?  returns a witness literal list or None"""
    cnt = [0]

    def rec(t, lits):
        cnt[0] += 1
        if cnt[0] > budget:
            raise Budget()
        if t is FALSE:
            return None
        if t is TRUE:
            return lits if _consistent(lits) and _linear(lits) and _quant(lits) else None
        a, x, y = t.args
        if len(lits) % 4 == 0 and not _consistent(lits):
            return None
        r = rec(x, lits + [(a, True)])
        if r is not None:
            return r
        return rec(y, lits + [(a, False)])
    return rec(f, list(extra))


_imp_memo = {}


def implies(p, c):
    """p => c, modulo theory"""
    k = (p.id, c.id)
    r = _imp_memo.get(k)
    if r is None:
        f = band(p, bnot(c))
        r = f is FALSE or sat(f) is None
        _imp_memo[k] = r
    return r


def witness(p, c):
    f = band(p, bnot(c))
    if f is FALSE:
        return None
    return sat(f)


# ---------------------------------------------------------------- printing
def short(p):
    return p.split("::")[-1] if isinstance(p, str) else str(p)


def show(t, depth=0):
    if depth > 14:
        return "…"
    op, a = t.op, t.args
    s = lambda x: show(x, depth + 1) if isinstance(x, T) else str(x)
    if op == "int":
        return str(a[0])
    if op == "poly":
        out = []
        for m, c in a[0]:
            ms = "*".join(s(_all[i]) for i in m)
            if not m:
                out.append("%+d" % c)
            elif c == 1:
                out.append("+" + ms)
            elif c == -1:
                out.append("-" + ms)
            else:
                out.append("%+d*%s" % (c, ms))
        return "(" + " ".join(out) + ")"
    if op == "param":
        return a[0]
    if op in ("sym", "str"):
        return "'%s'" % a[0]
    if op == "f":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "vf":
        if a[1] in ("Some", "Ok"):
            return "%s!" % s(a[0])
        return "%s@%s.%s" % (s(a[0]), a[1], a[2])
    if op == "get":
        return "%s[%s]%s" % (a[0], s(a[1]), "" if a[2] is FALSE else "~" + s(a[2]))
    if op == "agg":
        nm = short(a[0]) + ("::" + a[1] if a[1] else "")
        if a[0] == "tuple":
            return "(" + ", ".join(s(x) for x in a[3:]) + ")"
        if a[0] == "core::option::Option":
            nm = a[1]
        if not a[2]:
            return nm
        if all(n.isdigit() for n in a[2]):
            return nm + "(" + ", ".join(s(x) for x in a[3:]) + ")"
        return nm + "{" + ", ".join("%s: %s" % (n, s(x)) for n, x in zip(a[2], a[3:])) + "}"
    if op == "ite":
        if a[1] is TRUE and a[2] is FALSE:
            return s(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return "!" + s(a[0])
        if a[2] is FALSE:
            return "%s & %s" % (s(a[0]), s(a[1]))
        if a[1] is FALSE:
            return "!%s & %s" % (s(a[0]), s(a[2]))
        return "[%s ? %s : %s]" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "lt":
        return "(%s < %s)" % (s(a[0]), a[1])
    if op == "eqk":
        return "(%s == %s)" % (s(a[0]), a[1])
    if op == "eq":
        return "(%s == %s)" % (s(a[0]), s(a[1]))
    if op == "isv":
        return "%s is %s" % (s(a[0]), a[1])
    if op == "div":
        return "(%s / %s)" % (s(a[0]), s(a[1]))
    if op == "call":
        return "%s(%s)" % (short(a[0]), ", ".join(s(x) for x in a[1:]))
    if op == "ext":
        return "ext:%s.%s(%s)%s" % (s(a[0]), a[1].args[0] if a[1].op == "sym" else s(a[1]), ", ".join(s(x) for x in a[3:]), "" if a[2] is FALSE else "~e")
    if op == "mu":
        return "mu.%s#%d" % (short(a[1]), a[0].id)
    if op == "loop":
        return "loop#%d" % t.id
    if op == "elem":
        return "elem(%s)" % s(a[1])
    if op == "clos":
        return "closure"
    if op == "ref":
        return "&" + str(a)
    if not a:
        return op
    return "%s(%s)" % (op, ", ".join(s(x) for x in a))

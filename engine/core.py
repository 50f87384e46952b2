"""Shared machinery of the property rules: summaries, anchors, predicates about authorisation,
token movements and storage slots, and the bookkeeping of obligations."""
import threading
import sys
import traceback
from . import facts, interp
from .terms import *
from . import terms as tm

POOL, STABLE, STAKE, SREW = "phoenix_pool", "phoenix_pool_stable", "phoenix_stake", "phoenix_stake_rewards"
FACTORY, MULTIHOP, TRADER, VESTING, TOKEN = "phoenix_factory", "phoenix_multihop", "phoenix_trader", "phoenix_vesting", "soroban_token_contract"
CONTRACTS = [FACTORY, MULTIHOP, POOL, STABLE, STAKE, SREW, TRADER, VESTING, TOKEN]
INIT = {c: ("initialize",) for c in CONTRACTS}
INIT[VESTING] = ("initialize", "initialize_with_minter")
INIT[TOKEN] = ("__constructor",)


class Missing(Exception):
    """a construct the rule is about is not there"""


class World:
    def __init__(self, d):
        self.prog = facts.Program(d)
        self.entry = {}
        for c, n, f in self.prog.entries():
            self.entry[(c, n)] = f
        self._s = {}
        self._roles = {}
        self.failed = {}

    def S(self, crate, name):
        k = (crate, name)
        if k not in self._s:
            if k not in self.entry:
                raise Missing("entry point %s::%s" % k)
            self._s[k] = interp.analyse(self.prog, crate, name, self.entry[k], opaque_fns=self.roles(crate))
            s = self._s[k]
            s.pc0 = s.pc
        return self._s[k]

    # numerical kernels that stay uninterpreted inside the entry points (their own bodies are checked in P32),
    # found by the types of their arguments and result
    ROLES = {STABLE: {"stable::D": ("u128", "&[u128]", "->", "U256"), "stable::Y": ("u128", "u128", "&[u128]", "u32", "->", "u128"),
                      "stable::AMP": ("AmplifierParameters", "->", "u64")}}

    def roles(self, crate):
        if crate not in self._roles:
            self._roles[crate] = {}
            for role, sig in self.ROLES.get(crate, {}).items():
                c = [f for f in self.prog.fns.values() if f.crate == crate and f.kind == "fn" and fsig(f) == sig]
                if len(c) == 1:
                    self._roles[crate][c[0].path] = role
        return self._roles[crate]

    def role_fn(self, crate, role):
        for p, r in self.roles(crate).items():
            if r == role:
                return self.prog.by_path(p)
        raise Missing("%s: the function computing %s" % (crate, role))

    def all(self):
        for k in sorted(self.entry):
            yield self.S(*k)

    def of(self, crate):
        for k in sorted(self.entry):
            if k[0] == crate:
                yield self.S(*k)

    # ---------------------------------------------------------- anchors
    def init_slot(self, crate, what, init=None):
        """term of the storage location in which initialisation stores the parameter path `what`"""
        for n in ([init] if init else INIT[crate]):
            s = self.S(crate, n)
            head, _, rest = what.partition(".")
            a = Args(s)
            if not hasattr(a, head):
                continue
            want = getattr(a, head)
            for p in rest.split(".") if rest else []:
                want = field(want, p)
            for (cls, key), v in s.store.items():
                if depends_on_params(key):
                    continue
                base = payload(mk("get", cls, key, FALSE))
                r = find_path(payload(v), want, base, s)
                if r is not None:
                    return r
        raise Missing("%s: storage location initialised from `%s`" % (crate, what))

    def q(self, crate, entry, *path):
        """term a query entry point returns (under successful return)"""
        s = self.S(crate, entry)
        if s.ret is None:
            raise Missing("%s::%s never returns" % (crate, entry))
        t = s.ret
        for p in path:
            t = field(t, p)
        return simp(t, s.pc)


def struct(crate, **fields):
    """value of the crate's struct type with these field names"""
    c = [p for p, a in tm.ADTS.items() if not a["enum"] and p.startswith(crate + "::") and not any(m.endswith(("_contract", "_pool")) for m in p.split("::")) and a["variants"] and sorted(x[0] for x in a["variants"][0]["f"]) == sorted(fields)]
    if len(c) != 1:
        raise Missing("%s: structure with fields %s" % (crate, ", ".join(fields)))
    names = [x[0] for x in tm.ADTS[c[0]]["variants"][0]["f"]]
    return agg(c[0], None, names, [fields[n] for n in names])


def pushed(v, x):
    """vector v with x appended"""
    return leafmap(v, lambda l: mk("vec", *(l.args + (x,))) if l.op == "vec" else mk("vpush", l, x))


def over(v, f):
    """f(v) for a possibly absent vector"""
    return leafmap(v, f)


def mapset(m, k, x):
    return leafmap(m, lambda l: mk("mset", l, k, x))


def fsig(f):
    ty = [f.T[x]["s"] for x in f.body["locals"][:f.body["argc"] + 1]]
    sh = lambda s: "&[u128]" if s == "&[u128]" else s.split("::")[-1]
    return tuple(sh(s) for s in ty[1:] if not s.endswith("Env")) + ("->", sh(ty[0]))


def simp(t, pc):
    return constrain(t, pc) if t.op == "ite" else t


def find_path(v, what, base, s):
    v = simp(v, s.pc)
    if v is what:
        return base
    if v.op == "agg":
        for n, x in zip(v.args[2], v.args[3:]):
            r = find_path(x, what, field(base, n) if v.args[1] is None else vfield(base, v.args[1], n), s)
            if r is not None:
                return r
    return None


def depends_on_params(t):
    return any(x.op == "param" for x in subterms(t))


def param(n):
    return mk("param", n)


def sym(n):
    return mk("sym", n)


# ---------------------------------------------------------------- predicates
_ex_memo = {}


def loop_dep(t, loops):
    for x in subterms(t):
        if x.op in ("mu", "elem", "hasnext", "index", "loop") and (x in loops if x.op == "loop" else x.args[0] in loops):
            return True
    return False


def exists(f, pred):
    memo = {}

    def rec(t):
        if t.op != "ite":
            return t
        r = memo.get(t.id)
        if r is None:
            a, x, y = t.args
            x, y = rec(x), rec(y)
            r = bor(x, y) if pred(a) else ite(atom(a), x, y)
            memo[t.id] = r
        return r
    return rec(f)


def forget_loops(f, loops):
    if not loops:
        return f
    ls = set(loops)
    memo = {}

    def p(a):
        r = memo.get(a.id)
        if r is None:
            r = memo[a.id] = loop_dep(a, ls)
        return r
    return exists(f, p)


def ctx(s, e):
    """what is known when event e took place and the entry point went on to return normally"""
    h = band(e.pc, forget_loops(s.pc, e.loops))
    for l in e.loops:
        h = band(h, s.loopq.get(l, TRUE))
    return h


def auths(s):
    return [e for e in s.events if e.kind == "auth" and "forargs" not in e.d]


def auth_pred(s, who, loops=()):
    r = FALSE
    for a in auths(s):
        if set(a.loops) <= set(loops):
            r = bor(r, band(a.pc, eq(a.who, who)))
    return r


def prove(h, c):
    """(ok, witness)"""
    try:
        if implies(h, c):
            return True, None
        w = witness(h, c)
        return (True, None) if w is None else (False, w)
    except tm.Budget:
        return False, "budget"


def showw(w, n=8):
    if w is None or isinstance(w, str):
        return str(w)
    return " & ".join(("" if v else "not ") + show(a)[:90] for a, v in w[-n:])


def sets(s):
    return [e for e in s.events if e.kind in ("set", "remove")]


def calls(s, method=None, mut=None):
    for e in s.events:
        if e.kind == "call" and (method is None or e.method is sym(method) or (isinstance(method, (tuple, list, set)) and e.method.op == "sym" and e.method.args[0] in method)):
            if mut is None or e.mut == mut:
                yield e


EFFECTS = ("set", "remove", "upgrade", "deploy", "authorize_as")


def effects(s):
    return [e for e in s.events if e.kind in EFFECTS or (e.kind == "call" and e.mut)]


class Move:
    """a token movement: who loses, who gains"""
    __slots__ = ("e", "token", "frm", "to", "amount", "kind")


def moves(s):
    out = []
    for e in s.events:
        if e.kind != "call" or not e.mut or e.method.op != "sym":
            continue
        m, a = e.method.args[0], e.args
        if m not in ("transfer", "transfer_from", "mint", "burn", "burn_from"):
            continue
        x = Move()
        x.e, x.token, x.kind = e, e.addr, m
        x.frm = x.to = None
        if m == "transfer" and len(a) == 3:
            x.frm, x.to, x.amount = a
        elif m == "transfer_from" and len(a) == 4:
            _, x.frm, x.to, x.amount = a
        elif m == "mint" and len(a) == 2:
            x.to, x.amount = a
        elif m == "burn" and len(a) == 2:
            x.frm, x.amount = a
        elif m == "burn_from" and len(a) == 3:
            _, x.frm, x.amount = a
        else:
            continue
        out.append(x)
    return out


def post(s, t):
    """value, after the call, of the expression t over initial storage"""
    sub = {}
    for x in subterms(t):
        if x.op == "get" and x.args[2] is FALSE:
            v = s.store.get((x.args[0], x.args[1]))
            if v is not None:
                sub[x.id] = v
    return rewrite(t, sub) if sub else t


def slot_of(t):
    """the storage read underneath an accessor term"""
    while t.op in ("f", "vf"):
        t = t.args[0]
    return t if t.op == "get" else None


def subst(t, m):
    return rewrite(t, {k.id: v for k, v in m.items()})


def assume(t, lits):
    """specialise a term under literals [(predicate, bool)] given as single-atom predicates"""
    sub = {}
    for p, v in lits:
        assert p.op == "ite", show(p)
        a, x, y = p.args
        sub[a.id] = tobool(x if v else y) if False else ((TRUE if v else FALSE) if x is TRUE else (FALSE if v else TRUE))
    return rewrite(t, sub)


def strip_conv(t, memo=None):
    """erase integer width conversions (each of them is range-checked; see the arithmetic property)"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "cast":
        r = strip_conv(t.args[2], memo)
    elif t.op == "vf" and t.args[1] in ("Some", "Ok") and t.args[0].op == "call" and t.args[0].args[0] in ("U256::to_u128",):
        r = strip_conv(t.args[0].args[1], memo)
    elif t.op == "poly":
        r = rebuild(t, [[([strip_conv(tm._all[i], memo) for i in m], c) for m, c in t.args[0]]])
    elif not any(isinstance(a, (T, tuple)) for a in t.args):
        r = t
    else:
        na = [strip_conv(a, memo) if isinstance(a, T) else (tuple(strip_conv(x, memo) if isinstance(x, T) else x for x in a) if isinstance(a, tuple) else a) for a in t.args]
        r = rebuild(t, na)
    memo[t.id] = r
    return r


def expand_balances(t, acct=SELF):
    """balance(tok, acct) read after calls e1..en  ->  balance before + the balance change each ei on tok made"""
    sub = {}
    for x in subterms(t):
        if x.op == "ext" and x.args[1] is sym("balance") and len(x.args) == 4 and x.args[3] is acct:
            tok, ep = x.args[0], x.args[2]

            def rec(ep):
                if ep is FALSE:
                    return mk("ext", tok, sym("balance"), FALSE, acct)
                if ep.op == "ite":
                    return leafmap(ep, rec)
                if ep.op == "ep":
                    r = rec(ep.args[0])
                    if ep.args[1] is tok:
                        return padd(r, mk("delta", tok, *ep.args[2:]))
                    return r
                return mk("ext", tok, sym("balance"), ep, acct)
            v = rec(ep)
            if v is not x:
                sub[x.id] = v
    return rewrite(t, sub) if sub else t


def delta_of(tok, e):
    """the change of the contract's balance of tok made by call event e"""
    return mk("delta", tok, e.method, *e.args)


def const(t):
    return t.args[0] if t.op == "int" else None


def equal(h, a, b):
    """a == b wherever h holds"""
    if a is b:
        return True
    p = eqn(a, b) if (numeric(a) or numeric(b)) else eq(a, b)
    return prove(h, p)[0]


def scalar(t):
    if t.op == "ite":
        return scalar(t.args[1]) and scalar(t.args[2])
    return t.op in ("ext", "f", "vf", "param", "get")


def numeric(t):
    if t.op == "ite":
        return numeric(t.args[1]) or numeric(t.args[2])
    return t.op in ("int", "poly", "div", "rem", "cast")


# ---------------------------------------------------------------- obligations
class Check:
    def __init__(self, world, prop):
        self.w = world
        self.prop = prop
        self.obs = []          # (rule, instance, ok)
        self.bad = []          # (key, message)
        self.counts = {}
        self.floors = {}
        self.notes = []
        self.analysed = set()
        self.rules = {}

    def S(self, crate, name):
        s = self.w.S(crate, name)
        self.analysed.add((crate, name))
        return s

    def rule(self, rid, text):
        self.rules[rid] = text

    def ob(self, rid, inst, ok, why="", site=None, fn=None):
        """record one obligation of rule rid; inst must not contain line numbers"""
        self.counts[rid] = self.counts.get(rid, 0) + 1
        self.obs.append((rid, inst, bool(ok)))
        if not ok:
            self.fail("%s|%s" % (rid, inst), "%s: %s%s%s" % (inst, why, " in %s" % fn if fn else "", " at %s" % site if site else ""))
        return bool(ok)

    def fail(self, key, msg):
        if not any(k == key for k, _ in self.bad):
            self.bad.append((key, msg))

    def floor(self, rid, n):
        """rule rid must have matched at least n instances"""
        self.floors[rid] = n

    def need(self, rid, inst, x, why):
        if not x:
            self.ob(rid, inst, False, why)
            raise Missing(why)
        return x

    def finish(self):
        for rid, n in self.floors.items():
            c = self.counts.get(rid, 0)
            if c < n:
                self.fail("%s|floor" % rid, "rule %s matched %d instances, at least %d expected: the construct it protects is gone" % (rid, c, n))


REG = {}


def rule(prop):
    def d(f):
        REG.setdefault(prop, []).append(f)
        return f
    return d


def run_rules(world, prop):
    ck = Check(world, prop)
    for f in REG.get(prop, []):
        try:
            f(ck)
        except Missing as e:
            ck.fail("anchor|%s|%s" % (f.__name__, e), "%s: required construct not found: %s" % (f.__name__, e))
        except interp.Unsupported as e:
            ck.fail("unsupported|%s" % f.__name__, "%s: the code uses a construct the analysis does not handle (%s)" % (f.__name__, e))
        except Exception as e:  # fail closed
            ck.fail("error|%s" % f.__name__, "%s: rule could not be evaluated: %s" % (f.__name__, "".join(traceback.format_exception_only(type(e), e)).strip()))
            if "PHX_DEBUG" in __import__("os").environ:
                traceback.print_exc()
    ck.finish()
    return ck


def big_stack(f):
    sys.setrecursionlimit(1000000)
    threading.stack_size(512 * 1024 * 1024)
    r = {}

    def g():
        try:
            r["v"] = f()
        except BaseException as e:
            r["e"] = e
    t = threading.Thread(target=g)
    t.start()
    t.join()
    if "e" in r:
        raise r["e"]
    return r["v"]


# ---------------------------------------------------------------- case-splitting equality / entailment
def _nested_atom(t, seen, top=True):
    """an atom of a gated value that occurs strictly inside another term (or anywhere when top=False)"""
    st = [(t, top)]
    while st:
        x, tp = st.pop()
        if (x.id, tp) in seen:
            continue
        seen.add((x.id, tp))
        if x.op == "ite":
            if not tp and not tm.fv(x.args[0]):
                return x.args[0]
            st.append((x.args[0], False))
            st.append((x.args[1], tp))
            st.append((x.args[2], tp))
        elif x.op == "poly":
            for m, _ in x.args[0]:
                for i in m:
                    st.append((tm._all[i], False))
        else:
            for a in x.args:
                if isinstance(a, T):
                    st.append((a, False))
                elif isinstance(a, tuple):
                    st += [(y, False) for y in a if isinstance(y, T)]
    return None


def _simple(t):
    return 0 if t.op in ("int", "sym", "str", "self") else 1 if t.op in ("f", "vf", "get") else 3 if t.op == "param" else 2


def _lit_sub(a, v):
    sub = {a.id: TRUE if v else FALSE}
    if v and a.op == "eq":
        x, y = a.args
        if _simple(x) > _simple(y):
            x, y = y, x
        if not any(z is y for z in subterms(x)):
            sub[y.id] = x
    elif v and a.op == "eqk" and a.args[0].op not in ("poly", "discr"):
        sub[a.args[0].id] = I(a.args[1])
    elif v and a.op == "eqk" and a.args[0].op == "poly":
        d = tm.as_poly(a.args[0])
        for m, c in d.items():   # solve for a variable that occurs once
            if len(m) == 1 and c in (1, -1) and m[0].op != "ite":
                rest = tm.from_poly({k: -x * c for k, x in d.items() if k != m})
                if not any(x is m[0] for x in subterms(rest)):
                    sub[m[0].id] = padd(rest, I(a.args[1] * c))
                    break
    return sub


def split_cases(terms, leaf, budget=3000):
    """call leaf(terms) for every way of deciding the atoms nested inside the terms; all must be true.
    terms[0] is the hypothesis."""
    cnt = [0]

    def rec(ts):
        if ts[0] is FALSE:
            return True
        cnt[0] += 1
        if cnt[0] > budget:
            raise tm.Budget()
        at = None
        for t in ts[1:]:
            at = _nested_atom(t, set(), True)
            if at is not None:
                break
        if at is None:
            if leaf(ts):
                return True
            at = _nested_atom(ts[0], set(), True)
            for t in ts[1:]:
                if t.op == "ite" and at is None and not tm.fv(t.args[0]):
                    at = t.args[0]
            if at is None:
                if LEAF:
                    if "PHX_DIFF" in __import__("os").environ:
                        import sys; sys.path.insert(0, "/tmp"); import diff; diff.diff(ts[1], ts[2]) if len(ts) > 2 else None
                    print("LEAF\n  " + "\n  ".join(show(x)[:1500] for x in ts[1:]) + "\n  h=" + show(ts[0])[:3000])
                return False
        # innermost first: an atom without nested gates
        while True:
            inner = _nested_atom(at, set(), False)
            if inner is None:
                break
            at = inner
        for v in (True, False):
            h = band(ts[0], atom(at) if v else bnot(atom(at)))
            if h is FALSE:
                continue
            sub = _lit_sub(at, v)
            if at.op == "lt":
                # squeezed between two bounds: the one number in between
                p, k = at.args
                if band(h, lt(p, I(k - 1)) if v else bnot(lt(p, I(k + 1)))) is FALSE:
                    e = tm.eqn(p, I(k - 1 if v else k))
                    if e.op == "ite" and e.args[1] is TRUE:
                        sub.update({i: x for i, x in _lit_sub(e.args[0], True).items() if i not in sub})
            memo = {}
            nt = [rewrite(x, sub, memo) for x in [ts[0]] + list(ts[1:])]
            nt[0] = band(nt[0], atom(at) if v else bnot(atom(at)))
            if not rec(nt):
                return False
        return True
    return rec(list(terms))


ONE18 = 10 ** 18
_D = "soroban_decimal::decimal::Decimal::"
_AR = "core::ops::arith::"
# fixed-point decimals are integers counting 10^-18 units; each formula is checked against the library in P31
DECIMAL = {
    _D + "bps": lambda x: pmul(I(10 ** 14), x), _D + "percent": lambda x: pmul(I(10 ** 16), x), _D + "permille": lambda x: pmul(I(10 ** 15), x),
    _D + "one": lambda: I(ONE18), _D + "zero": lambda: I(0), _D + "new": lambda x: x, _D + "raw": lambda x: x, _D + "atomics": lambda x: x,
    _D + "from_ratio": lambda a, b: pdiv(pmul(a, I(ONE18)), b),
    _D + "is_zero": None,
    "soroban_decimal::decimal::<impl %sMul<soroban_decimal::decimal::Decimal> for i128>::mul" % _AR: lambda n, d: pdiv(pmul(n, d), I(ONE18)),
    "<soroban_decimal::decimal::Decimal as %sMul<i128>>::mul" % _AR: lambda d, n: pdiv(pmul(n, d), I(ONE18)),
    "<soroban_decimal::decimal::Decimal as %sMul>::mul" % _AR: lambda a, b: pdiv(pmul(a, b), I(ONE18)),
    "<soroban_decimal::decimal::Decimal as %sDiv>::div" % _AR: lambda a, b: pdiv(pmul(a, I(ONE18)), b),
    "<soroban_decimal::decimal::Decimal as %sDiv<i128>>::div" % _AR: lambda a, b: pdiv(a, b),
    _D + "abs": lambda a: ite(lt(a, FALSE), pneg(a), a),
}
_norm_memo = {}


def norm(t):
    """erase range-checked width conversions and expand decimal operations into integer arithmetic"""
    r = _norm_memo.get(t.id)
    if r is not None:
        return r
    if t.op == "cast":
        r = norm(t.args[2])
    elif t.op == "vf" and t.args[1] in ("Some", "Ok") and t.args[0].op == "call" and t.args[0].args[0] == "U256::to_u128":
        r = norm(t.args[0].args[1])
    elif t.op == "call" and DECIMAL.get(t.args[0]):
        r = DECIMAL[t.args[0]](*[norm(a) for a in t.args[1:]])
    elif t.op == "poly":
        r = rebuild(t, [[([norm(tm._all[i]) for i in m], c) for m, c in t.args[0]]])
    elif not any(isinstance(a, (T, tuple)) for a in t.args):
        r = t
    else:
        na = [norm(a) if isinstance(a, T) else (tuple(norm(x) if isinstance(x, T) else x for x in a) if isinstance(a, tuple) else a) for a in t.args]
        r = rebuild(t, na)
    _norm_memo[t.id] = r
    return r


LEAF = "PHX_LEAF" in __import__("os").environ


def deep(t, h):
    """the value with every gate inside it simplified under h"""
    memo = {}

    def rec(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op == "poly":
            r = rebuild(t, [[([rec(tm._all[i]) for i in m], c) for m, c in t.args[0]]])
        elif t.op == "ite":
            c = constrain(t, h)
            r = c if c.op != "ite" else rebuild(c, [rec(c.args[0]), rec(c.args[1]), rec(c.args[2])])
            if c.op != "ite":
                r = rec(c)
        elif t.op == "loop" or not any(isinstance(a, (T, tuple)) for a in t.args):
            r = t
        else:
            r = rebuild(t, [rec(a) if isinstance(a, T) else (tuple(rec(x) if isinstance(x, T) else x for x in a) if isinstance(a, tuple) else a) for a in t.args])
        memo[t.id] = r
        return r
    return rec(t)


def _hoist(t, memo):
    """all gates moved to the top of the value (it must not be large)"""
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "ite":
        r = ite(leafmap(_hoist(t.args[0], memo), tm.tobool_atom), _hoist(t.args[1], memo), _hoist(t.args[2], memo))
    elif t.op == "poly":
        r = rebuild(t, [[([_hoist(tm._all[i], memo) for i in m], c) for m, c in t.args[0]]])
        gs = [x for m, _ in r.args[0] for x in (tm._all[i] for i in m) if x.op == "ite"] if r.op == "poly" else []
        if gs:
            r = _branch(r, gs, memo)
    elif t.op == "loop":
        r = t
    elif t.op in tm._BIND or not any(isinstance(a, T) for a in t.args):
        r = rebuild(t, [_hoist(a, memo) if isinstance(a, T) else a for a in t.args]) if t.op in tm._BIND else t
    else:
        na = [_hoist(a, memo) if isinstance(a, T) else a for a in t.args]
        r = rebuild(t, na)
        gs = [a for a in r.args if isinstance(a, T) and a.op == "ite"] if r.op not in ("ite", "agg") else []
        if gs:
            r = _branch(r, gs, memo)
    memo[t.id] = r
    return r


def _branch(r, gs, memo):
    _cnt[0] += 1
    if _cnt[0] > 2000:
        raise tm.Budget()
    a = tm._top(gs)
    return ite(atom(a), _hoist(rewrite(r, {a.id: TRUE}), memo), _hoist(rewrite(r, {a.id: FALSE}), memo))


_cnt = [0]


_bod_memo = {}


def bodies(t):
    """bodies of sums, folds and searches in gated normal form"""
    r = _bod_memo.get(t.id)
    if r is None:
        r = _bod_memo[t.id] = _bodies(t)
    return r


def caps(t):
    """p < k ? x : y where x and y agree for p in [n, k) is p < n ? x : y: the smallest such threshold"""
    for _ in range(20):
        sub = {}
        for x in subterms(t):
            if x.op == "ite" and x.args[0].op == "lt":
                k = _cap(x.args[0].args[0], x.args[0].args[1], x.args[1], x.args[2])
                if k is not None:
                    sub[x.id] = ite(lt(x.args[0].args[0], I(k)), x.args[1], x.args[2])
        t2 = rewrite(t, sub) if sub else t
        if t2 is t:
            return t
        t = t2
    return t


def _cap(P, k, x, y):
    if x.op != "ite" and y.op != "ite" and (x.op == "int") != (y.op == "int"):
        d, q = psub(x, y), psub(P, I(k - 1))
        if d is q or d is pneg(q):
            return k - 1
    v, low, sub = k - 1, None, {}
    for z in set(subterms(x)) | set(subterms(y)):
        if z.op == "div" and is_int(z.args[1]) and z.args[1].args[0] > 0:
            o = psub(z.args[0], P)
            if is_int(o):
                o, c = o.args[0], z.args[1].args[0]
                r = abs(v + o) // c * (1 if v + o >= 0 else -1)
                l = (r * c if r > 0 else (r - 1) * c + 1) - o
                sub[z.id] = I(r)
                low = l if low is None else max(low, l)
        elif z.op == "lt" and z.args[0] is P:
            sub[z.id] = TRUE if v < z.args[1] else FALSE
            if v >= z.args[1]:
                low = z.args[1] if low is None else max(low, z.args[1])
    if low is None or low >= k or rewrite(x, sub) is not rewrite(y, sub):
        return None
    return low


def _bodies(t):
    sub = {}
    seen = set()

    def rec(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.op in tm._BIND:
            _cnt[0] = 0
            try:
                y = caps(_hoist(x, {}))
            except tm.Budget:
                return
            if y is not x:
                sub[x.id] = y
            return
        for a in x.args:
            if isinstance(a, T):
                rec(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        rec(b)
        if x.op == "poly":
            for m, _ in x.args[0]:
                for i in m:
                    rec(tm._all[i])
    rec(t)
    return rewrite(t, sub) if sub else t


def tidy(t, done=()):
    """drop a test that some element satisfies q around a sum to which only such elements contribute"""
    for x in list(subterms(t)):
        if x.op != "any" or x.id in done:
            continue
        xs, q, n = x.args
        sub = {}
        for y in subterms(t):
            if y.op == "sum" and y.args[0] is xs:
                m = 1 + max(bvn(q), bvn(y.args[1]))
                nz = FALSE
                for c, l in leaves(renum(y.args[1], y.args[2], m)):
                    if l is not FALSE:
                        nz = bor(nz, c)
                if implies(nz, renum(q, n, m)):
                    sub[y.id] = FALSE
        if not sub:
            continue
        t1, t0 = rewrite(t, {x.id: TRUE}), rewrite(t, {x.id: FALSE})
        if rewrite(t1, sub) is rewrite(t0, sub):
            return tidy(t1, done + (x.id,))
    return t


def alike(h, a, b):
    """the same operation on operands that are the same"""
    if a.op == "poly" and b.op == "poly":
        A, B = dict(a.args[0]), dict(b.args[0])
        x, y = [m for m in A if A[m] != B.get(m)], [m for m in B if B[m] != A.get(m)]
        if len(x) != 1 or len(y) != 1 or A[x[0]] != B[y[0]]:
            return False
        x, y = list(x[0]), list(y[0])
        for i in list(x):
            if i in y:
                x.remove(i)
                y.remove(i)
        return len(x) == 1 and len(y) == 1 and same(h, tm._all[x[0]], tm._all[y[0]])
    if (a.op == "agg") != (b.op == "agg"):
        # a value and the same fields put together again
        x, y = (a, b) if a.op == "agg" else (b, a)
        return y.op in ("f", "vf", "ext", "bv", "sym", "call", "any:bv") and x.args[1] is None and x.args[0] != "array" and len(x.args) > 3 and all(
            same(h, u, tm.field(y, n)) for n, u in zip(x.args[2], x.args[3:]))
    if a.op != b.op or a.op not in ("agg", "vpush", "div", "mul", "call", "ext", "mset", "cast") or len(a.args) != len(b.args):
        return False
    return all(x is y or (same(h, x, y) if isinstance(x, T) and isinstance(y, T) else x == y) for x, y in zip(a.args, b.args))


def same(h, a, b):
    """a == b at every state satisfying h (structural identity after case splitting)"""
    h, a, b = norm(h), norm(a), norm(b)
    if a is b:
        return True
    a, b, h = bodies(tidy(a)), bodies(tidy(b)), bodies(h)
    if a is b:
        return True
    if numeric(a) or numeric(b):
        a, b = caps(a), caps(b)
    if a is b:
        return True
    if LEAF:
        import sys; sys.path.insert(0, "/tmp"); import diff; print("TOP"); diff.diff(a, b)

    def leaf(ts):
        h, a, b = ts
        a, b = constrain(a, h) if a.op == "ite" else a, constrain(b, h) if b.op == "ite" else b
        if a is b:
            return True
        if a.op == b.op and a.op in tm._BIND and a.args[0] is b.args[0] and a.args[-1] == b.args[-1] and len(a.args) == len(b.args):
            k, n = tm._BIND[a.op], a.args[-1]
            # the bodies agree at an arbitrary element
            sk = {mk(o, n).id: mk("any:" + o, a.args[0], n) for o in ("bv", "bvi", "acc")}
            h2 = h
            for y in atoms_of(h).values():
                if y.op == "any" and y.args[0] is a.args[0] and implies(h, bnot(atom(y))):
                    h2 = band(h2, bnot(tobool(rewrite(y.args[1], {mk(o, y.args[-1]).id: mk("any:" + o, a.args[0], n) for o in ("bv", "bvi")}))))
            return (k == 2 or same(h, a.args[1], b.args[1])) and same(h2, rewrite(a.args[k - 1], sk), rewrite(b.args[k - 1], sk))
        num = numeric(a) or numeric(b)
        if prove(h, eqn(a, b) if num else eq(a, b))[0] or (not num and scalar(a) and scalar(b) and prove(h, eqn(a, b))[0]) or alike(h, a, b):
            return True
        # what the hypothesis fixes
        sub = {}
        for y in atoms_of(h).values():
            if y.op != "lt" and implies(h, atom(y)):
                sub.update(_lit_sub(y, True))
        x, y = rewrite(a, sub), rewrite(b, sub)
        return (x is not a or y is not b) and (x is y or num and prove(h, eqn(x, y))[0])
    try:
        return split_cases([h, deep(a, h), deep(b, h)], leaf)
    except tm.Budget:
        if LEAF:
            print("BUDGET", show(a)[:200], show(b)[:200])
        return False


def entails(h, c):
    """h => c, deciding gates nested inside atoms by cases"""
    if c is TRUE or h is FALSE:
        return True
    if prove(h, c)[0]:
        return True
    h, c = bodies(norm(h)), bodies(norm(c))
    try:
        return split_cases([h, c], lambda ts: prove(ts[0], ts[1])[0])
    except tm.Budget:
        return False


# ---------------------------------------------------------------- parameters by position
class Args:
    def __init__(self, s):
        from .sigs import SIG
        labels = SIG.get((s.crate, s.name))
        if labels is None:
            raise Missing("signature of %s::%s" % (s.crate, s.name))
        labels = labels.split()
        if len(labels) != len(s.params):
            raise Missing("%s::%s takes %d arguments, expected %d" % (s.crate, s.name, len(s.params), len(labels)))
        for l, (n, _) in zip(labels, s.params):
            setattr(self, l, mk("param", n))

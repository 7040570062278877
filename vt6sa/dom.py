"""The fact domain: interval sets per atom, linear (in)equalities, string constants, quantified byte classes.

Facts are about immutable terms, so they never have to be invalidated.  Entailment of linear
constraints is decided by Gaussian elimination plus Fourier-Motzkin projection with integer tightening
(incomplete but sound: a `True` answer is always right).
"""
import ctypes
import os
import subprocess
from array import array
from math import gcd
from .terms import *

FULL = ((-(2 ** 130), 2 ** 130),)


def _norm(c, d):
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        c = -((-c) // g)
        d = {x: k // g for x, k in d.items()}
    return c, d


def fm_infeasible(cons, limit=4000):
    """cons: list of (c, {atom:k}) meaning c + sum <= 0. True if certainly no integer solution."""
    seen = {}
    work = []
    for c, d in cons:
        c, d = _norm(c, dict(d))
        if not d:
            if c > 0:
                return True
            continue
        key = tuple(sorted((a.id, k) for a, k in d.items()))
        if key in seen and seen[key] >= c:
            continue
        seen[key] = c
        work.append((c, d))
    while work:
        cnt = {}
        for c, d in work:
            for a, k in d.items():
                p, n = cnt.get(a, (0, 0))
                cnt[a] = (p + 1, n) if k > 0 else (p, n + 1)
        # choose the variable with the least fill-in
        best = min(cnt, key=lambda a: (cnt[a][0] * cnt[a][1] - cnt[a][0] - cnt[a][1], a.id))
        pos = [(c, d) for c, d in work if d.get(best, 0) > 0]
        neg = [(c, d) for c, d in work if d.get(best, 0) < 0]
        rest = [(c, d) for c, d in work if best not in d]
        if len(pos) * len(neg) + len(rest) > limit:
            return False
        out = {}
        for c, d in rest:
            key = tuple(sorted((a.id, k) for a, k in d.items()))
            if key not in out or out[key][0] < c:
                out[key] = (c, d)
        for c1, d1 in pos:
            k1 = d1[best]
            for c2, d2 in neg:
                k2 = -d2[best]
                g = gcd(k1, k2)
                m1, m2 = k2 // g, k1 // g
                d = {}
                for a, k in d1.items():
                    d[a] = k * m1
                for a, k in d2.items():
                    d[a] = d.get(a, 0) + k * m2
                d = {a: k for a, k in d.items() if k}
                c = c1 * m1 + c2 * m2
                c, d = _norm(c, d)
                if not d:
                    if c > 0:
                        return True
                    continue
                key = tuple(sorted((a.id, k) for a, k in d.items()))
                if key not in out or out[key][0] < c:
                    out[key] = (c, d)
        work = list(out.values())
    return False


def _load_native():
    """compile native/fm.c (a speed-up of the pure Python procedure below; optional)"""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    src = os.path.join(here, "native", "fm.c")
    out = os.path.join(here, ".build", "libfm.so")
    try:
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            tmp = "%s.%d" % (out, os.getpid())
            subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src], check=True,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.replace(tmp, out)
        return ctypes.CDLL(out).fm
    except (OSError, subprocess.SubprocessError):
        return None


_native = _load_native()
_qcache = {}
_M64 = (1 << 64) - 1
_BIG = 1 << 120        # the native procedure calculates with 128 bits


def native_infeasible(atoms, les, eqs):
    """les, eqs: lists of (c, {atom: k})"""
    idx = {a: i for i, a in enumerate(sorted(atoms, key=lambda x: x.id))}
    nv = len(idx)
    w = nv + 1
    n = len(les) + len(eqs)
    buf = [0] * (2 * w * n)
    r = 0
    for c, d in les + eqs:
        if not -_BIG < c < _BIG or any(not -_BIG < k < _BIG for k in d.values()):
            return None
        for a, k in d.items():
            p = 2 * (r + idx[a])
            buf[p] = k & _M64
            buf[p + 1] = k >> 64
        p = 2 * (r + nv)
        buf[p] = c & _M64
        buf[p + 1] = c >> 64
        r += w
    try:
        arr = array("Q", [x & _M64 for x in buf])
    except OverflowError:
        return None
    return bool(_native(n, nv, (ctypes.c_char * (len(arr) * 8)).from_buffer(arr), bytes([0] * len(les) + [1] * len(eqs)),
                        4000))


class Fact:
    """immutable fact set; all update operations return a new set or None (contradiction)"""
    __slots__ = ("dom", "les", "eqs", "neqs", "strv", "strn", "alls", "_memo")

    def __init__(self):
        self.dom = {}
        self.les = ()
        self.eqs = ()
        self.neqs = ()
        self.strv = {}   # slice term -> bytes
        self.strn = ()   # (slice term, bytes) known different
        self.alls = ()   # (array, lo, hi, ivset): every element in [lo,hi) is in the set
        self._memo = {}

    def clone(self):
        f = Fact.__new__(Fact)
        f.dom = dict(self.dom)
        f.les = self.les
        f.eqs = self.eqs
        f.neqs = self.neqs
        f.strv = self.strv
        f.strn = self.strn
        f.alls = self.alls
        f._memo = {}
        return f

    # ------------------------------------------------------------ bounds
    def ivs(self, atom):
        """interval set of one atom"""
        d = self.dom.get(atom)
        if d is not None:
            return d
        s = atom_sort(atom)
        r = sort_range(s) if s else None
        base = (r,) if r else FULL
        if atom.op == "sel" and atom.args[0].op in ("bytes", "arrlit"):
            base = self._element(atom.args[0], atom.args[1], base)
        if atom.op == "sel" and self.alls:
            arr, idx = atom.args[0], atom.args[1]
            for a, lo, hi, cl in self.alls:
                if a is arr and self.le(lo, idx) and self.le(addc(idx, 1), hi):
                    base = iv_inter(base, cl)
        return base

    def _element(self, arr, idx, base):
        """values of a constant table at an index that is not known exactly"""
        xs = arr.args[0] if arr.op == "bytes" else arr.args
        lo, hi = self.bounds(idx)
        lo, hi = max(lo, 0), min(hi, len(xs) - 1)
        xs = xs[lo:hi + 1]
        if arr.op == "arrlit":
            if not all(x.op == "int" for x in xs):
                return base
            xs = [x.args[0] for x in xs]
        return iv_norm([(x, x) for x in xs])

    def bounds(self, e):
        c, d = lin_parts(e)
        lo = hi = c
        for a, k in d.items():
            iv = self.ivs(a)
            if not iv:
                return (1, 0)
            if k > 0:
                lo += k * iv_min(iv)
                hi += k * iv_max(iv)
            else:
                lo += k * iv_max(iv)
                hi += k * iv_min(iv)
        return lo, hi

    def range_of(self, e):
        """interval set of an integer expression"""
        c, d = lin_parts(e)
        if len(d) == 1:
            (a, k), = d.items()
            if k == 1:
                return tuple((lo + c, hi + c) for lo, hi in self.ivs(a))
            if k == -1:
                return iv_norm([(c - hi, c - lo) for lo, hi in self.ivs(a)])
        lo, hi = self.bounds(e)
        return ((lo, hi),)

    # ------------------------------------------------------------ entailment
    def _relevant(self, e, depth=None):
        atoms = atoms_of(e)
        cons = []
        les = [(t, lin_parts(t)) for t in self.les]
        eqs = [(t, lin_parts(t)) for t in self.eqs]
        used = set()
        changed = True
        while changed:
            changed = False
            if depth is not None:
                if depth == 0:
                    break
                depth -= 1
                new = set()
            else:
                new = atoms
            for t, (c, d) in les + eqs:
                if t in used:
                    continue
                if any(a in atoms for a in d):
                    used.add(t)
                    for a in d:
                        if a not in atoms:
                            new.add(a)
                    changed = True
            if new is not atoms:
                atoms |= new
        lecons = [(c, d) for t, (c, d) in les if t in used]
        eqcons = [(c, d) for t, (c, d) in eqs if t in used]
        return atoms, lecons, eqcons

    def infeasible_with(self, extra, depth=None):
        """extra: list of terms e (e<=0). True if contradictory with the facts"""
        big = I(0)
        for e in extra:
            # union of atoms
            pass
        atoms = set()
        for e in extra:
            atoms |= atoms_of(e)
        probe = mk_lin(0, {a: 1 for a in atoms})
        atoms2, lec, eqc = self._relevant(probe)
        if depth is None and _native is not None and len(lec) + len(eqc) > 14:
            # a small neighbourhood usually suffices, and keeps the elimination within its limits
            if self.infeasible_with(extra, 1) or self.infeasible_with(extra, 2):
                return True
        if depth is not None:
            atoms2, lec, eqc = self._relevant(probe, depth)
        cons = [lin_parts(e) for e in extra] + lec
        for a in atoms2:
            iv = self.ivs(a)
            if not iv:
                return True
            lo, hi = iv_min(iv), iv_max(iv)
            if lo > FULL[0][0]:
                cons.append((lo, {a: -1}))
            if hi < FULL[0][1]:
                cons.append((-hi, {a: 1}))
        if _native is not None:
            r = native_infeasible(atoms2, cons, eqc)
            if r is not None:
                return r
        # eliminate equalities
        eqc = [(c, dict(d)) for c, d in eqc]
        while eqc:
            c, d = eqc.pop()
            if not d:
                if c != 0:
                    return True
                continue
            unit = None
            for a in sorted(d, key=lambda x: -x.id):
                if abs(d[a]) == 1:
                    unit = a
                    break
            if unit is None:
                cons.append((c, d))
                cons.append((-c, {a: -k for a, k in d.items()}))
                continue
            k = d[unit]
            # unit = -(c + rest)/k
            sub_c = -c * k
            sub_d = {a: -v * k for a, v in d.items() if a is not unit}

            def subst(cc, dd):
                q = dd.get(unit)
                if not q:
                    return cc, dd
                nd = {a: v for a, v in dd.items() if a is not unit}
                for a, v in sub_d.items():
                    nd[a] = nd.get(a, 0) + q * v
                nd = {a: v for a, v in nd.items() if v}
                return cc + q * sub_c, nd
            cons = [subst(cc, dd) for cc, dd in cons]
            eqc = [subst(cc, dd) for cc, dd in eqc]
        return fm_infeasible(cons)

    def le0(self, e):
        """is e <= 0 certainly true?"""
        lo, hi = self.bounds(e)
        if hi <= 0:
            return True
        if lo > 0:
            return lo > hi
        if not atoms_of(e):
            return False
        key = ("le", e)
        r = self._memo.get(key)
        if r is None:
            self._memo[key] = False
            r = self.infeasible_with([addc(scale(e, -1), 1)])
            self._memo[key] = r
        return r

    def le(self, a, b):
        return a is b or self.le0(sub(a, b))

    def lt(self, a, b):
        return self.le0(addc(sub(a, b), 1))

    def eq(self, a, b):
        if a is b:
            return True
        e = sub(a, b)
        return self.le0(e) and self.le0(scale(e, -1))

    def ne(self, a, b):
        return self.decide(eq0(sub(a, b))) is False

    def decide(self, b):
        """True / False / None"""
        o = b.op
        if o == "int":
            return bool(b.args[0])
        if o == "not":
            r = self.decide(b.args[0])
            return None if r is None else not r
        if o == "and":
            x = self.decide(b.args[0])
            if x is False:
                return False
            y = self.decide(b.args[1])
            if y is False:
                return False
            return True if x and y else None
        if o == "le0":
            if self.le0(b.args[0]):
                return True
            if self.le0(addc(scale(b.args[0], -1), 1)):
                return False
            return None
        if o == "eq0":
            e = b.args[0]
            if e in self.neqs or scale(e, -1) in self.neqs:
                return False
            c, d = lin_parts(e)
            if len(d) == 1:
                (a, k), = d.items()
                iv = self.ivs(a)
                if c % k:
                    return False
                if not iv_has(iv, -c // k):
                    return False
                if iv_size(iv) == 1:
                    return True
            if self.le0(addc(e, 1)) or self.le0(addc(scale(e, -1), 1)):
                return False
            if self.le0(e) and self.le0(scale(e, -1)):
                return True
            return None
        if o == "seqeq":
            s, c = b.args[0], b.args[1]
            v = self.strv.get(s)
            if v is not None:
                return v == c
            if (s, c) in self.strn:
                return False
            ln = s.args[3] if s.op == "slice" else None
            if ln is not None and self.decide(eq0(addc(ln, -len(c)))) is False:
                return False
            if s.op == "slice" and self.alls:
                for i, byte in enumerate(c[:64]):
                    pass
        iv = self.ivs(b)
        if iv == ((1, 1),):
            return True
        if iv == ((0, 0),):
            return False
        if o in ("sliceeq", "starts"):
            return self.decide_range(b)
        return None

    def seq_range(self, b):
        """(x, y, length, condition on the lengths that holds if the atom is true)"""
        x, y = b.args[0], b.args[1]
        if x.op != "slice" or y.op != "slice":
            return None
        if b.op == "sliceeq":
            return x, y, x.args[3], eq0(sub(x.args[3], y.args[3]))
        return x, y, y.args[3], le0(sub(y.args[3], x.args[3]))

    def proper_prefix(self, x, y):
        """of two sequences known to differ: if one is a prefix of the other, their lengths differ"""
        if x.op == "slice" and y.op == "slice":
            for k, iv in self.dom.items():
                if k.op == "starts" and iv == ((1, 1),) and set(k.args[:2]) == {x, y}:
                    return self.add_ne(sub(x.args[3], y.args[3]))
        return self

    def decide_range(self, b):
        """equality of two byte sequences or prefix relation, from what is known about the same ranges"""
        r = self.seq_range(b)
        if r is None:
            return None
        x, y, ln, cond = r
        c = self.decide(cond)
        if c is False:
            return False
        for k, iv in self.dom.items():
            if k.op not in ("sliceeq", "starts") or k is b or iv not in (((1, 1),), ((0, 0),)):
                continue
            q = self.seq_range(k)
            if q is None:
                continue
            x2, y2, ln2, cond2 = q
            for u, v in ((x2, y2), (y2, x2)):
                if u.args[0] is x.args[0] and v.args[0] is y.args[0] and u.args[1] == x.args[1] and v.args[1] == y.args[1] \
                        and self.eq(u.args[2], x.args[2]) and self.eq(v.args[2], y.args[2]):
                    break
            else:
                continue
            if iv == ((1, 1),):
                if c is True and self.le(ln, ln2):
                    return True
            elif self.decide(cond2) is True and self.le(ln2, ln):
                return False
        # short sequences: byte by byte
        if x.args[0].op != "cv" or y.args[0].op != "cv" or x.args[1] or y.args[1]:
            return None
        res = True if c is True else None
        for i in range(9):
            if self.le(ln, I(i)):
                return res
            p = mk("sel", x.args[0].args[0], addc(x.args[2], i), "u8")
            q = mk("sel", y.args[0].args[0], addc(y.args[2], i), "u8")
            r = self.decide(eq0(sub(p, q)))
            if r is False and self.le(I(i + 1), ln):
                return False
            if r is not True:
                res = None
        return None

    # ------------------------------------------------------------ updates
    def _setdom(self, atom, iv):
        old = self.ivs(atom)
        new = iv_inter(old, iv)
        if not new:
            return None
        if new == old and atom in self.dom:
            return self
        f = self.clone()
        f.dom[atom] = new
        return f

    def add_le(self, e):
        """assume e <= 0"""
        c, d = lin_parts(e)
        if not d:
            return self if c <= 0 else None
        if self.le0(e):
            if len(d) > 1 and e not in self.les and len(self.les) < 400:
                return self
            return self
        if self.le0(addc(scale(e, -1), 1)):
            return None
        f = self
        if len(d) == 1:
            (a, k), = d.items()
            if k > 0:
                f = f._setdom(a, ((FULL[0][0], (-c) // k),))
            else:
                f = f._setdom(a, ((_ceil_div(c, -k), FULL[0][1]),))
            if f is None:
                return None
        else:
            f = f.clone()
            f.les = f.les + (e,)
        # a disequality may now be sharp
        for n in f.neqs:
            if f.le0(n) and not f.le0(addc(n, 1)):
                f = f.clone()
                f.neqs = tuple(x for x in f.neqs if x is not n)
                return f.add_le(addc(n, 1))
            m = scale(n, -1)
            if f.le0(m) and not f.le0(addc(m, 1)):
                f = f.clone()
                f.neqs = tuple(x for x in f.neqs if x is not n)
                return f.add_le(addc(m, 1))
        return f

    def add_eq(self, e):
        c, d = lin_parts(e)
        if not d:
            return self if c == 0 else None
        r = self.decide(eq0(e))
        if r is False:
            return None
        if r is True:
            return self
        if len(d) == 1:
            (a, k), = d.items()
            return self._setdom(a, ((-c // k, -c // k),))
        # interval propagation for differences of two atoms with small domains
        f = self.clone()
        f.eqs = f.eqs + (e,)
        if len(d) == 2:
            (a, ka), (b, kb) = d.items()
            if abs(ka) == 1 and abs(kb) == 1:
                for x, y, kx, ky in ((a, b, ka, kb), (b, a, kb, ka)):
                    iv = f.ivs(y)
                    # kx*x = -c - ky*y
                    m = [((-c - ky * hi) * kx, (-c - ky * lo) * kx) for lo, hi in iv]
                    m = iv_norm([(min(p, q), max(p, q)) for p, q in m])
                    f = f._setdom(x, m)
                    if f is None:
                        return None
        return f

    def add_ne(self, e):
        c, d = lin_parts(e)
        if not d:
            return self if c != 0 else None
        r = self.decide(eq0(e))
        if r is True:
            return None
        if r is False:
            return self
        if len(d) == 1:
            (a, k), = d.items()
            v = -c // k
            iv = iv_minus(self.ivs(a), ((v, v),))
            if not iv:
                return None
            return self._setdom(a, iv)
        if self.le0(e):
            return self.add_le(addc(e, 1))
        m = scale(e, -1)
        if self.le0(m):
            return self.add_le(addc(m, 1))
        f = self.clone()
        f.neqs = f.neqs + (e,)
        return f

    def add_all(self, arr, lo, hi, cl):
        f = self.clone()
        f.alls = f.alls + ((arr, lo, hi, cl),)
        return f

    def assume(self, b):
        """list of fact sets whose disjunction is facts /\\ b"""
        o = b.op
        if o == "int":
            return [self] if b.args[0] else []
        if o == "and":
            out = []
            for f in self.assume(b.args[0]):
                out.extend(f.assume(b.args[1]))
            return out
        if o == "le0":
            f = self.add_le(b.args[0])
            return [f] if f is not None else []
        if o == "eq0":
            f = self.add_eq(b.args[0])
            return [f] if f is not None else []
        if o == "seqeq":
            r = self.decide(b)
            if r is False:
                return []
            f = self.clone()
            f.strv = dict(f.strv)
            f.strv[b.args[0]] = b.args[1]
            s = b.args[0]
            if s.op == "slice":
                f = f.add_eq(addc(s.args[3], -len(b.args[1])))
                if f is None:
                    return []
            return [f]
        if o == "not":
            x = b.args[0]
            if x.op == "and":
                out = self.assume(bnot(x.args[0]))
                for f in self.assume(x.args[0]):
                    out.extend(f.assume(bnot(x.args[1])))
                return out
            if x.op == "eq0":
                f = self.add_ne(x.args[0])
                return [f] if f is not None else []
            if x.op == "seqeq":
                r = self.decide(x)
                if r is True:
                    return []
                f = self.clone()
                f.strn = f.strn + ((x.args[0], x.args[1]),)
                return [f]
            f = self._setdom(x, ((0, 0),))
            if f is not None and x.op == "sliceeq":
                f = f.proper_prefix(x.args[0], x.args[1])
            return [f] if f is not None else []
        f = self._setdom(b, ((1, 1),))
        if f is not None and b.op == "starts" and any(
                k.op == "sliceeq" and iv == ((0, 0),) and set(k.args[:2]) == set(b.args[:2]) for k, iv in self.dom.items()):
            f = f.proper_prefix(b.args[0], b.args[1])
        if f is not None and b.op in ("sliceeq", "starts"):
            r = f.seq_range(b)
            if r is not None:
                c = r[3]
                if c.op == "int":
                    f = f if c.args[0] else None
                else:
                    f = f.add_eq(c.args[0]) if c.op == "eq0" else f.add_le(c.args[0])
        return [f] if f is not None else []


def _ceil_div(c, k):
    """smallest x with c - k*x <= 0 for k > 0"""
    return -((-c) // k)


EMPTY = Fact()


def show_facts(f, about=None):
    out = []
    for a, iv in f.dom.items():
        out.append("%s in %s" % (show(a), iv_show(iv) if iv_max(iv) < 2000 else str(iv)))
    for e in f.les:
        out.append(show(e) + " <= 0")
    for e in f.eqs:
        out.append(show(e) + " == 0")
    for e in f.neqs:
        out.append(show(e) + " != 0")
    for s, v in f.strv.items():
        out.append("%s == %r" % (show(s), v))
    for a, lo, hi, cl in f.alls:
        out.append("%s[%s..%s] in %s" % (show(a), show(lo), show(hi), iv_show(cl)))
    return out


def all_class(f, arr, lo, hi):
    """a set that contains every element of arr[lo..hi] under the facts; None if nothing is known"""
    if f.le(hi, lo):
        return ()
    cl = ()
    cur = lo
    for _ in range(6):
        best = None
        for a, l, h, k in f.alls:
            if a is arr and f.le(l, cur):
                if f.le(hi, h):
                    return iv_union(cl, k)
                if f.lt(cur, h):
                    best = (h, k)
        if best is None:
            x = mk("sel", arr, cur, "u8")
            iv = f.ivs(x)
            if not iv or (iv[0][0] <= 0 and iv[-1][1] >= 255 and len(iv) == 1):
                return None
            best = (addc(cur, 1), iv)
        cl = iv_union(cl, best[1])
        cur = best[0]
        if f.le(hi, cur):
            return cl
    return None


def join_facts(fs, subs=None, limit=60, phis=None):
    """the strongest fact set (of the forms we look at) implied by every one of fs.

    subs: per fact set a {old atom: new atom} map used to guess relations for merged values.
    """
    f0 = fs[0]
    if all(f is f0 for f in fs):
        return f0
    r = Fact()
    atoms = set()
    for f in fs:
        atoms |= set(f.dom)
    for a in atoms:
        iv = ()
        for f in fs:
            iv = iv_union(iv, f.ivs(a))
        s = atom_sort(a)
        rg = sort_range(s) if s else None
        if iv and (iv[0][0] > FULL[0][0] or iv[-1][1] < FULL[0][1] or len(iv) > 1) and \
                not (rg and len(iv) == 1 and iv[0] == rg):
            r.dom[a] = iv
    eqs = set(f0.eqs)
    les = set(f0.les)
    for f in fs[1:]:
        eqs &= set(f.eqs)
        les &= set(f.les)
    cand = []
    for n, f in enumerate(fs):
        for e in f.les:
            if e not in les:
                cand.append(e)
                if subs and subs[n]:
                    x = replace(e, subs[n])
                    if x is not e:
                        cand.append(x)
        for e in f.eqs:
            if e not in eqs:
                for y in (e, scale(e, -1)):
                    cand.append(y)
                    if subs and subs[n]:
                        x = replace(y, subs[n])
                        if x is not y:
                            cand.append(x)
    seen = set()
    extra = []
    for e in cand:
        if e in seen:
            continue
        seen.add(e)
        if len(seen) > limit:
            break
        if all(f.le0(e) for f in fs):
            extra.append(e)
    if phis:
        # differences between merged numbers and the numbers they are related to
        others = set(phis)
        for vs in phis.values():
            for v in vs:
                others |= atoms_of(v)
        rel = set()
        for f in fs:
            for e in f.les + f.eqs:
                at = atoms_of(e)
                if at & others:
                    rel |= at
            for v in f.dom:
                if v.op == "len":
                    rel.add(v)
        others = sorted(others | rel, key=lambda x: x.id)
        if len(others) > 16:
            others = sorted(others, key=lambda x: (x not in phis, x.op != "len", -x.id))[:16]
        for p in phis:
            for q in others:
                if q is p or (q in phis and q.id < p.id):
                    continue
                d = sub(p, q)
                for e in (d, scale(d, -1)):
                    # the least constant among a few that bounds the difference
                    if e in seen:
                        continue
                    best = None
                    for c in (1, 0, -1):
                        x = addc(e, c)
                        if all(f.le0(x) for f in fs):
                            best = x
                            break
                    if best is not None and best not in seen:
                        extra.append(best)
    r.eqs = tuple(e for e in f0.eqs if e in eqs)
    r.les = tuple(e for e in f0.les if e in les)
    ne = set(f0.neqs)
    for f in fs[1:]:
        ne &= set(f.neqs)
    r.neqs = tuple(e for e in f0.neqs if e in ne)
    r.strv = {k: v for k, v in f0.strv.items() if all(f.strv.get(k) == v for f in fs[1:])}
    sn = set(f0.strn)
    for f in fs[1:]:
        sn = {x for x in sn if x in f.strn or (x[0] in f.strv and f.strv[x[0]] != x[1])}
    r.strn = tuple(x for x in f0.strn if x in sn)
    al = []
    cands = []
    for f in fs:
        for x in f.alls:
            y = (x[0], x[1], x[2])
            if y not in cands:
                cands.append(y)
    for x in cands[:24]:
        cl = ()
        for f in fs:
            m = all_class(f, x[0], x[1], x[2])
            if m is None:
                cl = None
                break
            cl = iv_union(cl, m)
        if cl is not None:
            al.append((x[0], x[1], x[2], cl))
    r.alls = tuple(al)
    for e in extra:
        q = r.add_le(e)
        if q is not None:
            r = q
    return r

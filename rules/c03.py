"""C03: the value of an operation does not depend on what was evaluated before."""
import random

from rules.client import *
from rules.curved import f2

OPS = ['A * B', 'B * A', 'A ^ B', 'A | B', 'A < B', 'A > B', 'v * b', 'b * v', 'A.dual()', 'A.undual()', 'A.rev()', 'A.g_invol()', 'A.even()', 'A.grade(1)', 'A.pure_grade()', 'A.base_rep()', 'A.blade_rep()', 'A.base_rep() * B', 'A * B.base_rep()',
       'ga.e', 'ga.e_sq', 'ga.i', 'ga.i_inv', 'ga.detg', 'ga.g_inv', 'ga.g_adj', 'ga.g', 'ga.dg', 'ga.de', 'ga.mvr(True)', 'ga.mvr(False)', 'ga.mv_basis', 'ga.mv_blades_lst' if 0 else 'ga.mv()', 'ga.Christoffel_symbols(1)', 'ga.Christoffel_symbols(2)',
       'v.inv()', 'v / w', 'v ** -2', 'A.diff(x)', 'A.diff(y)', 'v.diff(x)', 'b.diff(x)', 'ga.grad * A', 'ga.grad ^ v', 'ga.grad | v', 'A * ga.rgrad', 'ga.grad * v', 'ga.grad * s', 'ga.grad * ga.grad', 'ga.grads()', 'D * A', 'D * E', 'D + E', 'Dr + Dr', 'E * D', 'Sd * Se', 'P * Q', 'P * Sd',
       'F(A)', 'F(v)', 'F * G', 'G * F', 'F.det()', 'F.tr()', 'F.adj()', 'F.inv()', 'F.matrix()', 'G.matrix()', "ga.lt('L')", "ga.lt('L', mode='s')", "ga.lt('K', mode='a')", "ga.lt('L', f=True)", 'ga.lt(M)',
       'T1(v)', 'T2(v, w)', 'T2(w, v)', 'T2.contract(1, 2)', 'T1.pdiff(1)', 'T2.pdiff(1)', 'T2.cderiv()', 'T1 * U1', 'T1 + U1',
       'ga.com(A, B)', 'A << B', 'A >> B', 'cross(v, w)', 'refl(e12, v)', 'proj(e12, v)', 'com(A, B)', 'v.norm2()', 'v.qform()', 'v.is_blade()', 'e12.is_versor()', 'A.is_scalar()', 'v.is_vector()', 'ga.make_grad(v)', 'ga.make_grad(v, cmpflg=True)', 'ga.make_grad([x, y])', 'ga.make_grad(A)', 'ga.make_grad(e1 * x + e2 * y) * A',
       "ga.mv('C', 'mv')", "ga.mv('C', 'mv', f=True)", "ga.mv('C', 'vector')", "ga.mv('C', 'grade', 2)", 'ga.ReciprocalFrame([v, w])', 'ga.connection(v.obj, e1.obj, "*", True)' if 0 else 'ga.I()', 'ga.E()', 'A == B', 'A.list()', 'v.get_coefs(1)', 'A.blade_coefs([e1, e12])', 'v.components()',
       'A.subs({x: k})', 'A.func(lambda c: c)', 'A + B', 'A - B', '-A', 'k * A', 'A + k', 'k - A', 'A.proj([e1, e12])', 'ga.blades.flat', 'ga.bases.flat', 'ga.indexes.flat', 'ga.e1' if 0 else 'ga.coords', 'ga.pDiff(A, x)', 'ga.pDiff(A, y)', 'ga.dual(A) if 0 else ga.grade_decomposition(A)', 'grade(A, 1)', 'e1 * e1', 'e1 * e2', 'e2 * e1', 'e12 * e1',
       'B.dual()', 'B.rev()', 'B.even()', 'B.odd()', 'B.grade(1)', 'B.blade_rep()', 'B.base_rep()', 'w.inv()', 'w.norm2()', 'B.diff(x)', 'w.diff(x)', 'ga.grad * B', 'ga.grad | w', 'B * ga.rgrad', 'D * B', 'E * B', 'G(A)', 'G(B)', 'F(B)', 'G(v)', 'F(w)', 'G.det()', 'G.tr()', 'G.adj()', 'G.inv()',
       'U1(v)', 'T1(w)', 'U2(v, w)', 'U2.contract(1, 2)', 'U1.pdiff(1)', 'U1.cderiv()' if 0 else 'U2.cderiv()', 'ga.make_grad(w)', 'ga.make_grad(w, cmpflg=True)', 'ga.pDiff(B, x)', 'ga.com(B, A)', 'A.get_grade(0)', 'A.get_grade(2)', 'B.get_grade(2)', 'refl(e12, w)', 'proj(e12, w)', 'ga.reverse(A)' if 0 else 'rev(B)', 'Sd * A', 'Se * A', 'P * x', 'Q * x', 'A.scalar()', 'B.scalar()', 'ga.lt(G)', 'ga.lt(F)', 'F - G', 'F + G', 'k * F']


class View:
    """what a value says, free of identities"""

    def __init__(self, A):
        self.A, self.H, self.W = A, A.H, A.W

    def view(self, v, depth=0):
        H, W = self.H, self.W
        if isinstance(v, Obj):
            if H.is_matrix(v):
                return ('seq', [('seq', [self.view(x, depth + 1) for x in r]) for r in H.mdata(v)])
            mro = v.cls.mro() if isinstance(v.cls, ClassInfo) else []
            if W.Ga in mro:
                return ('algebra',)
            if W.Mv in mro:
                d = H.lin(v)
                return ('value', d) if d is not None else None
            if not mro or depth > 5:
                return None
            fs = []
            for k, x in sorted(v.fields.items()):
                if k == 'Ga' or k.startswith('_') or x is v:
                    continue
                f = self.view(x, depth + 1)
                if f is None:
                    if isinstance(x, (Fn, Bound, Prim)):
                        continue
                    return None
                fs.append((('const', k), f))
            return ('dict', [(('const', 'class'), ('const', v.cls.name))] + fs) if fs else None
        if isinstance(v, Seq):
            if not v.concrete():
                return None
            r = [self.view(x, depth + 1) for x in v.items]
            return None if None in r else ('seq', r)
        if isinstance(v, Dct):
            if v.open is not None:
                return None
            r = [(self.view(i[0], depth + 1), self.view(i[1], depth + 1)) for i in v.items]
            return None if any(None in x for x in r) else ('dict', r)
        if isinstance(v, Const) and (v.v is None or isinstance(v.v, (bool, str))):
            return ('const', v.v)
        if isinstance(v, (T, Const)):
            d = H.lin(v)
            if d is not None:
                return ('value', d)
        return None

    def same(self, a, b):
        if a[0] != b[0]:
            return False
        if a[0] == 'value':
            return deq(a[1], b[1])
        if a[0] == 'seq':
            return len(a[1]) == len(b[1]) and all(self.same(x, y) for x, y in zip(a[1], b[1]))
        if a[0] == 'dict':
            if len(a[1]) != len(b[1]):
                return False
            rest = list(b[1])
            for k, v in a[1]:
                for i, (l, w) in enumerate(rest):
                    if self.same(k, l) and self.same(v, w):
                        del rest[i]
                        break
                else:
                    return False
            return True
        return a == b

    def say(self, a):
        if a[0] == 'value':
            return show(a[1])[:120]
        if a[0] == 'seq':
            return '[%s]' % ', '.join(self.say(x) for x in a[1])[:150]
        if a[0] == 'dict':
            return '{%s}' % ', '.join('%s: %s' % (self.say(k), self.say(v)) for k, v in a[1])[:200]
        return repr(a[1] if len(a) > 1 else a[0])


RAISED = ('raised',)


def run(ck, W):
    ck.rule('history', 'an operation evaluated after others on the same algebra and operands has the value it has when it is evaluated first')
    thorough = ck.tier == 'thorough'
    configs = [(2, f2(2), 'oblique coordinates, n=2', CBuild, {}), (2, f2(2, ortho=True), 'orthogonal coordinates, n=2', CBuild, {}),
               (3, gatoms(3, True), 'orthogonal metric, n=3', CBuild, {}), (2, gatoms(2, False), 'general metric, n=2', CRec, {})]
    for n, g, nm, cls, kw in configs:
        one(ck, W, n, g, nm, cls, thorough)
    return ck.finish('Abstract interpretation of sequences of operations on one algebra object with shared operands: each operation is interpreted on a fresh algebra, and again at every place of histories that contain every other '
                     'operation before it and after it; the values are compared.', min_decided=100)


def one(ck, W, n, g, nm, cls, thorough):
    H0 = (lambda W, n, g, c: CRec(W, n, g, c, skip=SKIP)) if cls is CRec else cls
    A = Alg(ck, W, n, g, ['x', 'y', 'z'][:n], nm, H=H0, steps=60000000)
    V = View(A)
    C = Client(A)
    ops = [o for o in OPS if not ('cross' in o and n != 3)]

    # a history is used only when it is one abstract trace
    A.I.max_traces = 1

    def sequence(srcs):
        """[(view | RAISED | None)] of the operations evaluated one after the other on one fresh algebra; None when the run is not decided"""
        C.box = []
        A.I.run(lambda m: C.box.append(C.setup(m)))
        if not C.box:
            return None
        bodies = [C.entry(s) for s in srcs]
        got = []

        def entry(m):
            got.clear()
            shared = {}
            for b in bodies:
                k0 = len(und(m))
                try:
                    v = b(m, shared)
                    r = V.view(v)
                except PyRaise as e:
                    r = RAISED
                if len(und(m)) > k0:
                    r = None
                got.append(r)
            return NONE
        try:
            tr = A.I.run(entry)
        except RecursionError:
            return None
        if len(tr) != 1 or tr[0].kind != 'return' or len(got) != len(srcs):
            return None
        return list(got)

    def und(m):
        return [c for c, v in m.factlog if not isinstance(c, Const)]
    base = {}
    for o in ops:
        r = sequence([o])
        base[o] = r[0] if r else None
    usable = [o for o in ops if base[o] is not None and base[o] != RAISED]
    for o in ops:
        if o not in usable and base[o] is None:
            ck.undecided('history', '%s [%s]' % (o, nm), 'the operation alone is not decided')
    rng = random.Random(1)
    seqs = [usable + usable, usable[::-1]]
    for i in range(12 if thorough else 2):
        p = usable[:]
        rng.shuffle(p)
        seqs.append(p)
    bad = {}
    done = {o: 0 for o in usable}
    for s in seqs:
        r = sequence(s)
        if r is None:
            # one operation forks only in company: evaluate in halves
            for part in (s[:len(s) // 2], s[len(s) // 2:]):
                q = sequence(part)
                if q is not None:
                    tally(V, base, part, q, bad, done)
            continue
        tally(V, base, s, r, bad, done)
    for o in usable:
        subj = '%s [%s]' % (o, nm)
        if o in bad:
            s, i, got = bad[o]
            # the shortest history that shows it
            why = None
            for p in s[:i] if len(ck.findings) < 2 else []:
                q = sequence([p, o])
                if q is not None and q[1] is not None and (q[1] == RAISED or not V.same(base[o], q[1])):
                    why = (p, q[1])
                    break
            ck.bad('history', subj, 'galgebra', 'after %s it is %s; evaluated first it is %s' % (
                why[0] if why else 'a history of %d operations' % i, 'an exception' if (why or (0, got))[1] == RAISED else V.say((why or (0, got))[1]), V.say(base[o])), list(s[:i])[-12:] if not why else [])
        elif done[o]:
            ck.ok('history', subj, '%d places in histories' % done[o])
        else:
            ck.undecided('history', subj, 'no decided history')


def tally(V, base, s, r, bad, done):
    for i, (o, v) in enumerate(zip(s, r)):
        if v is None:
            continue
        done[o] += 1
        if (v == RAISED or not V.same(base[o], v)) and o not in bad:
            bad[o] = (s, i, v)

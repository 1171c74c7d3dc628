"""Proof units, lemmas and the registry of a property module."""
import linecache
import time
import z3
from .core import (RT, Obl, PathEnd, Unsupported, Restart, axioms, zbool, SInt, mkint, iv, P2F, MULF, zmul, external)


class Lemma:
    """A theorem about specification functions, proved on every run.

    params: list of z3 Int constants; stmt(*args) -> z3 Bool
    induct: index of the parameter induction is done on (None: direct)
    base:   integer; the statement is claimed for param >= base
    uses(*args, step): facts (definitions, instances of earlier lemmas) for the
           direct proof / base case (step=False) and the step from p to p+1.
    """
    ALL = {}

    def __init__(self, name, nparams, stmt, pre=None, induct=None, base=0, uses=None, names=None, back=1):
        self.name, self.n, self.stmt = name, nparams, stmt
        self.pre = pre or (lambda *a: z3.BoolVal(True))
        self.induct, self.base, self.uses = induct, base, uses or (lambda *a, **k: [])
        self.used_by = set()
        Lemma.ALL[name] = self

    def inst(self, *args):
        args = [a.e if isinstance(a, SInt) else (iv(a) if isinstance(a, int) else a) for a in args]
        c = z3.Implies(self.pre(*args), self.stmt(*args))
        if self.induct is not None:
            c = z3.Implies(args[self.induct] >= self.base, c)
        return c

    def use(self, *args):
        RT.lemmas_used.add(self.name)
        RT.fact(self.inst(*args))

    def prove(self, timeout=20000):
        """list of Obl"""
        out = []
        ps = [z3.Int('%s_p%d' % (self.name, k)) for k in range(self.n)]

        def check(label, asm, goal):
            t = time.time()
            fs = list(asm) + [z3.Not(goal)]
            st, be = 'unknown', 'z3'
            for deep in (False, True):
                s = z3.Solver()
                s.set('timeout', timeout)
                s.add(*fs)
                s.add(*axioms(fs, deep=deep))
                r = s.check()
                if r == z3.unsat:
                    st = 'proved'
                    break
                if r == z3.sat and deep:
                    st = 'failed'
            if st == 'unknown':
                e = external(s, timeout / 1000)
                if e:
                    st, be = 'proved', e
            out.append(Obl('lemma %s/%s' % (self.name, label), st, time.time() - t, be))
        if self.induct is None:
            check('direct', [self.pre(*ps)] + self.uses(*ps), self.stmt(*ps))
        else:
            i = self.induct
            b = list(ps)
            b[i] = iv(self.base)
            check('base', [self.pre(*b)] + self.uses(*b, step=False), self.stmt(*b))
            nx = list(ps)
            nx[i] = ps[i] + 1
            check('step', [ps[i] >= self.base, self.pre(*nx), z3.Implies(self.pre(*ps), self.stmt(*ps))] +
                  self.uses(*ps, step=True), self.stmt(*nx))
        return out


RT.lemmas_used = set()


def plain(m):
    if isinstance(m, dict):
        return {str(k): v if isinstance(v, (int, str, bool, type(None))) else str(v) for k, v in m.items()}
    return m


class Unit:
    """One proof unit: a driver which sets up an arbitrary state satisfying the
    precondition, runs the real (instrumented) function once per path, and
    states the postcondition as obligations."""

    def __init__(self, name, targets, body, loops=None, calls=None, comps=None, models=None, case=None,
                 max_iter=None, unroll=None, paths=4000, timeout=None, symlists=()):
        self.name, self.targets, self.body = name, targets, body
        self.loops, self.calls, self.comps, self.models = loops or {}, calls or {}, comps or {}, models or {}
        self.case = case
        self.symlists = symlists if isinstance(symlists, dict) else dict.fromkeys(symlists)
        self.max_iter, self.unroll, self.paths, self.timeout = max_iter, unroll, paths, timeout

    def run(self, deadline=None):
        """loops may be a list of alternative invariant sets: the first one
        under which every obligation is discharged is used"""
        alts = self.loops if isinstance(self.loops, list) else [self.loops]
        best = None
        for k, alt in enumerate(alts):
            r = self.run1(alt, deadline)
            r['alternative'] = k
            bad = (1 if r['error'] else 0, sum(o['status'] != 'proved' for o in r['obls']))
            if best is None or bad < best[0]:
                best = (bad, r)
            if bad == (0, 0):
                break
        return best[1]

    def run1(self, loops, deadline=None):
        t0 = time.time()
        RT.obls = []
        RT.covers = {}
        RT.loops = dict(loops)
        RT.contracts = dict(self.calls)
        RT.comps = dict(self.comps)
        RT.symlists = self.symlists
        old_models = dict(RT.models)
        RT.models.update(self.models)
        RT.called, RT.applied, RT.trusted, RT.loops_cut = set(), set(), set(), set()
        RT.lemmas_used = set()
        RT.solver_time = 0.0
        if self.max_iter:
            RT.max_iter = self.max_iter
        if self.unroll:
            RT.unroll = self.unroll
        RT.given_up = 0
        if self.timeout:
            RT.timeout = self.timeout
        err = None
        n = 0
        try:
            n = RT.explore(self.name, self.body, deadline=deadline, max_paths=self.paths)
        except Unsupported as e:
            err = 'unsupported: %s' % e
            last = [o for o in RT.obls]
        except Restart:
            err = 'restart'
        except Exception as e:      # an exception of the code outside the driver's control
            import traceback
            err = 'error: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
        RT.active = False
        RT.models = old_models
        return dict(unit=self.name, targets=self.targets, paths=n, error=err,
                    obls=[dict(name=o.name, status=o.status, secs=o.secs, backend=o.backend,
                               detail=o.detail, model=plain(o.model), where=o.where) for o in RT.obls],
                    covers=dict(RT.covers), called=sorted(RT.called), applied=sorted(RT.applied),
                    trusted=sorted(RT.trusted), loops_cut=sorted(RT.loops_cut), lemmas=sorted(RT.lemmas_used),
                    solver_time=RT.solver_time, wall=time.time() - t0)


def run_target(qual, f, *a, **k):
    """call the function under verification with its body (not its contract)"""
    RT.enter = qual
    try:
        return f(*a, **k)
    finally:
        RT.enter = None


def expect(qual, f, *a, **k):
    """(kind, value): ('ret', v) or ('exc', e)"""
    try:
        return 'ret', run_target(qual, f, *a, **k)
    except (PathEnd, Unsupported, Restart):
        raise
    except Exception as e:
        tb = e.__traceback__
        while tb is not None and tb.tb_next is not None:
            tb = tb.tb_next
        fn = tb.tb_frame.f_code.co_filename if tb is not None else ''
        if '/pyvc/' in fn and isinstance(e, (TypeError, AttributeError)):
            raise Unsupported('engine: %s: %s' % (type(e).__name__, e))
        if '/contracts/' in fn and type(e) in (TypeError, AttributeError, NameError) \
                and not linecache.getline(fn, tb.tb_lineno).strip().startswith('raise'):
            # a value or a method the models do not have
            raise Unsupported('engine: %s: %s' % (type(e).__name__, e))
        return 'exc', e

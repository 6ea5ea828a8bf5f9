"""Obligations, the prover (z3, then cvc5 on the same SMT-LIB text), contracts and target runner."""
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback
import z3
from . import values as V
from .values import *       # noqa
from .interp import Interp, Path, PyExc, PathPruned, NeedBranch, ReturnEx, BreakEx, ContinueEx, has_quantifier

Z3_TIERS = [  # (ms, options)
    (4000, {'auto_config': False, 'mbqi': False}),
    (15000, {}),
    (15000, {'auto_config': False, 'mbqi': False, 'random_seed': 7, 'phase_selection': 5}),
    (6000, {'auto_config': False, 'mbqi': False, 'random_seed': 23, 'arith.solver': 2}),
]
CVC5 = '/usr/bin/cvc5'


def find_cvc5():
    for d in os.environ.get('PATH', '').split(':') + ['/opt/veriftools/bin', '/usr/local/bin']:
        p = os.path.join(d, 'cvc5')
        if os.path.exists(p):
            return p
    return None


class Prover:
    def __init__(self, budget=1.0):
        self.extra = []           # global axioms (lemmas), each proved or listed as trusted
        self.stats = {'z3': 0, 'z3-alt': 0, 'cvc5': 0, 'trivial': 0}
        self.time = 0.0
        self.scale = budget
        self.cvc5 = find_cvc5()
        self.cache = {}

    def axioms(self):
        return list(self.extra) + cur_str().axioms() + class_axioms()

    def _check(self, pc, goal, ms, opts):
        s = z3.Solver()
        s.set('timeout', max(50, int(ms)))
        for k, v in opts.items():
            s.set(k, v)
        s.add(*self.axioms())
        s.add(*pc)
        s.add(z3.Not(goal))
        t = time.time()
        r = s.check()
        d = time.time() - t
        self.time += d
        if d > 0.6 and os.environ.get('PYVC_SLOW'):
            import traceback as tb
            fr = [f.name for f in tb.extract_stack()[-9:-1]]
            print('SLOW %.1f %s %s %s' % (d, r, str(goal)[:300].replace('\n', ' '), fr), file=sys.stderr)
        return r, s

    def norm(self, goal):
        if isinstance(goal, bool):
            return goal
        if z3.is_true(goal):
            return True
        return goal

    def quick(self, pc, goal, timeout):
        goal = self.norm(goal)
        if goal is True:
            return True
        if goal is False:
            goal = z3.BoolVal(False)
        r, _ = self._check(pc, goal, min(timeout, 1500) * self.scale, Z3_TIERS[0][1])
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
        r, _ = self._check(pc, goal, timeout * self.scale, {})
        return r == z3.unsat

    def valid(self, pc, goal, strong):
        """for invariant candidates"""
        goal = self.norm(goal)
        if goal is True:
            return True
        if goal is False:
            goal = z3.BoolVal(False)
        for g in conjuncts(goal):
            ok = False
            tiers = [(6000, Z3_TIERS[0][1]), (8000, {})] if strong else [(700, Z3_TIERS[0][1])]
            for ms, o in tiers:
                r, _ = self._check(pc, g, ms * self.scale, o)
                if r == z3.unsat:
                    ok = True
                    break
                if r == z3.sat:
                    return False
            if not ok:
                return False
        return True

    def explain(self, name, pc, goal):
        """debugging: why a candidate named by PYVC_CAND is not kept"""
        want = os.environ.get('PYVC_CAND')
        if not want or want not in name:
            return
        for g in conjuncts(goal) if not isinstance(goal, bool) else []:
            r, s = self._check(pc, g, 6000, Z3_TIERS[0][1])
            if r != z3.unsat:
                print('CAND %s: %s\n%s' % (name, r, g), file=sys.stderr)
                with open('/tmp/cand.smt2', 'w') as f:
                    f.write(s.to_smt2())
                if r == z3.sat:
                    with open('/tmp/cand.model', 'w') as f:
                        f.write(str(s.model()))
                break

    def prove(self, pc, goal):
        """(status, backend, seconds, detail): status in valid / sat / unknown"""
        goal = self.norm(goal)
        if goal is True:
            self.stats['trivial'] += 1
            return 'valid', 'simplifier', 0.0, ''
        if goal is False:
            goal = z3.BoolVal(False)
        t0 = time.time()
        parts = conjuncts(goal)
        backend = 'z3'
        for g in parts:
            st, be, det = self._prove1(pc, g)
            if st != 'valid':
                return st, be, time.time() - t0, det
            if be != 'z3':
                backend = be
        self.stats[backend] = self.stats.get(backend, 0) + 1
        return 'valid', backend, time.time() - t0, ''

    def _prove1(self, pc, g):
        det = ''
        for n, (ms, o) in enumerate(Z3_TIERS):
            r, s = self._check(pc, g, ms * self.scale, o)
            if r == z3.unsat:
                return 'valid', 'z3' if n < 2 else 'z3-alt', ''
            if r == z3.sat:
                try:
                    det = str(s.model())[:1500]
                except z3.Z3Exception:
                    pass
                return 'sat', 'z3', det
            det = s.reason_unknown()
        if self.cvc5:
            s = z3.Solver()
            s.add(*self.axioms())
            s.add(*pc)
            s.add(z3.Not(g))
            txt = '(set-logic ALL)\n' + s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(txt)
            try:
                p = subprocess.run([self.cvc5, '--tlimit=%d' % int(15000 * self.scale), '--strings-exp', f.name], capture_output=True, text=True,
                                   timeout=25 + 15 * self.scale)
                if p.stdout.strip().startswith('unsat'):
                    return 'valid', 'cvc5', ''
            except subprocess.TimeoutExpired:
                pass
            finally:
                os.unlink(f.name)
        return 'unknown', 'z3+cvc5', det


def conjuncts(g):
    if z3.is_and(g):
        r = []
        for c in g.children():
            r += conjuncts(c)
        return r
    if z3.is_quantifier(g) and g.is_forall():
        # skolemise the goal: forall x. P  |-  P(c)
        vs = [z3.Const('sk!%s!%d' % (g.var_name(i), next(V._uid)), g.var_sort(i)) for i in range(g.num_vars())]
        return conjuncts(z3.substitute_vars(g.body(), *reversed(vs)))
    if z3.is_implies(g):
        a, b = g.children()
        return [z3.Implies(a, x) for x in conjuncts(b)]
    if z3.is_or(g):
        ch = g.children()
        qs = [c for c in ch if z3.is_quantifier(c) and c.is_forall() or z3.is_and(c)]
        if len(qs) == 1:
            rest = [c for c in ch if not c.eq(qs[0])]
            return [z3.Or(*(rest + [x])) for x in conjuncts(qs[0])]
    return [g]


# ---------------------------------------------------------------- contracts
class Contract:
    """Contract of a function of the repository, used instead of its body at call sites.  The same object is
    verified against the body by a target of its own."""
    qual = None

    def applies(self, I, b):
        return True

    def apply(self, I, b):
        raise NotImplementedError


class Verifier(Interp):
    def __init__(self, repo, str_mode='z3', scale=1.0):
        V.set_str_mode(str_mode)
        super().__init__(repo)
        self.prover = Prover(scale)
        self.obls = []
        self.target = ''
        self.path_no = 0
        self.covers = 0
        self.debug = bool(os.environ.get('PYVC_DEBUG'))

    # ---------------------------------------------------------------- stating obligations
    def ensure(self, name, cond):
        self.flush_axioms()
        self.n_obl += 1
        if not self.quiet:
            st, be, sec, det = self.prover.prove(self.path.pc, cond)
            o = {'target': self.target, 'name': name, 'trail': ''.join('TF'[not d] for d in self.path.trail),
                 'status': st, 'backend': be, 's': round(sec, 3)}
            if st != 'valid':
                o['detail'] = det
                o['goal'] = str(cond)[:800]
                if self.debug:
                    self.log('OPEN', o)
                    if os.environ.get('PYVC_DUMP'):
                        s = z3.Solver()
                        s.add(*self.prover.axioms(), *self.path.pc)
                        if not isinstance(cond, bool):
                            s.add(z3.Not(cond))
                        open(os.environ['PYVC_DUMP'], 'w').write(s.to_smt2())
            self.obls.append(o)
        if cond is not False:
            self.assume(z_bool(cond) if isinstance(cond, bool) else cond)

    def fail(self, name, why=''):
        """this path must be infeasible"""
        self.ensure(name + (' (%s)' % why if why else ''), False)
        raise PathPruned()

    def require(self, name, cond):
        self.ensure('pre ' + name, cond)

    def outcome(self, f, args=(), kwargs=None):
        """('ok', value) or ('exc', ExcV)"""
        try:
            return 'ok', self.call(f, list(args), dict(kwargs or {}))
        except PyExc as e:
            return 'exc', e.exc

    def method(self, o, name, *args, **kw):
        return self.call(self.getattr(o, name), list(args), kw)


class Target:
    def __init__(self, name, prop, functions, run, str_mode='z3', timeout=120, setup=None, level='proved', note='', unroll=False):
        self.name, self.prop, self.functions, self.run = name, prop, functions, run
        self.str_mode, self.timeout, self.setup, self.level, self.note, self.unroll = str_mode, timeout, setup, level, note, unroll


def run_target(t, repo):
    I = Verifier(repo, t.str_mode, float(os.environ.get('PYVC_SCALE') or 1))
    I.target = t.name
    I.unroll_while = t.unroll
    t0 = time.time()
    res = {'target': t.name, 'property': t.prop, 'functions': t.functions, 'level': t.level, 'note': t.note, 'str_mode': t.str_mode}
    try:
        st = t.setup(I) if t.setup else None
        feasible = [0]
        cands = list(I.loop_cands)

        def run():
            I.loop_cands[:] = cands         # (each path states its own)
            I.flush_axioms()
            try:
                t.run(I) if t.setup is None else t.run(I, st)
            except PyExc as e:
                I.ensure('no unexpected exception %s' % (e.exc,), False)

        def on_path(r):
            I.path_no += 1
            if r[0] == 'flow':
                raise Unsupported('control flow escapes the target')
            # vacuity: at least one path whose assumptions the solver cannot refute
            if feasible[0] < 3:
                s = z3.Solver()
                s.set('timeout', 1500)
                s.add(*I.prover.axioms())
                s.add(*I.path.pc)
                if s.check() != z3.unsat:
                    feasible[0] += 1
        I.explore(run, [], on_path)
        res['paths'] = I.path_no
        res['feasible_paths'] = feasible[0]
        res['status'] = 'ok'
        if not I.obls:
            res['status'] = 'error'
            res['error'] = 'no obligations generated'
        elif feasible[0] == 0:
            res['status'] = 'error'
            res['error'] = 'vacuous: no feasible path'
    except Unsupported as e:
        res['status'] = 'unsupported'
        res['error'] = 'line %s: %s' % (getattr(I, 'cur_line', '?'), e)
        if I.debug:
            traceback.print_exc()
    except NeedBranch:
        res['status'] = 'unsupported'
        res['error'] = 'branch in specification'
        if I.debug:
            traceback.print_exc()
    except Exception as e:       # engine failure: the obligation stays open
        res['status'] = 'error'
        res['error'] = '%s: %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()[-2000:]
        if I.debug:
            traceback.print_exc()
    res['obligations'] = I.obls
    res['inlined'] = sorted(I.inlined)
    res['contracts'] = sorted(I.used_contracts)
    res['trusted'] = sorted(I.trusted)
    res['solver_s'] = round(I.prover.time, 2)
    res['backends'] = I.prover.stats
    res['s'] = round(time.time() - t0, 2)
    return res


def main(argv):
    """python -m pyvc.verify SPECMODULE TARGET REPO OUT"""
    import importlib
    specmod, name, repo, out = argv
    m = importlib.import_module(specmod)
    t = [x for x in m.TARGETS if x.name == name][0]
    r = run_target(t, repo)
    with open(out, 'w') as f:
        json.dump(r, f)

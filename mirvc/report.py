"""Driver shared by all checks: collects obligations, discharges them, applies the outcome policy and
writes evidence.  Policy (see DESIGN.md):
  every obligation discharged, bounded stand-ins pass      -> exit 0
  a stand-in / replay finds a failing input on the real code -> exit 1, VIOLATION with replay
  an obligation is refuted (a counterexample exists within the contract vocabulary), no input found
                                                            -> exit 1, ... no-failing-input-found
  undecided only (construct outside the verifier's reach, lost anchor, solver limit)
                                                            -> the bounded stand-in decides; evidence says undischarged
"""
import json, os, sys, time, traceback, multiprocessing as mp
import z3
from mir import Unsupported
import engine as E
import extract

VERIF = extract.VERIF


class Check:
    def __init__(self, pid, level='proof'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.functions = {}      # function -> list of obligation results
        self.obs = []            # result dicts
        self.undecided = []      # (function, reason)
        self.bounded = []        # dicts: name, bound, cases, failures
        self.failures = []       # concrete failing inputs
        self.assumptions = set()
        self.trusted = set()
        self.models = set()
        self.contracts = set()
        self.inlined = set()
        self.notes = []
        self.covers = 0
        self.open_ = 0           # obligations the solvers gave up on
        self.cover = {}          # function -> are the hypotheses of some obligation consistent (not refutable)
        self.solver_s = 0.0

    # --------------------------------------------------------------
    def add(self, fn, name, status, backend, secs=0.0, detail='', known=False):
        r = {'function': fn, 'obligation': name, 'status': status, 'backend': backend, 'time': round(secs, 4), 'detail': detail}
        self.obs.append(r)
        self.functions.setdefault(fn, []).append(r)
        self.solver_s += secs
        return r

    def und(self, fn, reason):
        self.undecided.append((fn, str(reason)))
        self.functions.setdefault(fn, [])

    def prove(self, fn, name, hyps, goal, axioms=(), timeout=20000, vocab=None):
        ob = E.Obligation(name, hyps, goal)
        # a tree on which obligations stay open is decided by the bounded part: do not spend the time on all of them
        timeout = min(timeout, 20000 if self.open_ < 2 else 6000 if self.open_ < 6 else 2500 if self.open_ < 20 else 1000)
        E.discharge(ob, axioms, timeout)
        self.open_ += ob.status != 'proved'
        if not self.cover.get(fn) and not name.startswith('does not panic'):
            s = z3.Solver()
            s.set('timeout', 250)
            s.add(*hyps, *E.relevant(axioms, list(hyps) + [goal]))
            self.cover[fn] = s.check() != z3.unsat
        if ob.status == 'undecided':
            self.und(fn, f'{name}: solver gave no answer ({getattr(ob, "reason", "")})')
            return self.add(fn, name, 'undecided', ob.backend, ob.time)
        d = ''
        if ob.status == 'refuted':
            d = str(ob.model)[:1500]
            bad = None if vocab is None else foreign_symbols(list(hyps) + [goal], vocab)
            if bad:
                self.und(fn, f'{name}: not proved; uses functions outside the contract vocabulary: {sorted(bad)[:5]}')
                return self.add(fn, name, 'undecided', ob.backend, ob.time, d)
        return self.add(fn, name, ob.status, ob.backend, ob.time, d)

    def guard(self, fn, f):
        """run f(); anything outside the verifier's reach makes fn undecided"""
        try:
            return f()
        except Unsupported as e:
            self.und(fn, e)
        except (KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError, z3.Z3Exception) as e:
            self.und(fn, 'verifier: ' + ''.join(traceback.format_exception_only(type(e), e)).strip() + ' @ ' +
                     traceback.format_exc().strip().split('\n')[-3].strip())

    def use(self, eng):
        self.models |= eng.used_models
        self.contracts |= eng.used_contracts
        self.inlined |= eng.inlined

    # --------------------------------------------------------------
    def finish(self, native=None, always_native=False, scope=''):
        """native(check, reasons) -> runs bounded stand-in / replay, appends to self.bounded / self.failures"""
        for f in [f for f, ok in self.cover.items() if not ok]:
            self.und(f, 'vacuous: the hypotheses of every obligation contradict each other')
        self.covers += len([f for f, ok in self.cover.items() if ok])
        refuted = [o for o in self.obs if o['status'] == 'refuted']
        need = bool(refuted or self.undecided)
        if native and (need or always_native or self.tier == 'thorough'):
            try:
                native(self, [o['function'] for o in refuted] + [f for f, _ in self.undecided])
            except Exception as e:
                self.notes.append('bounded stand-in failed to run: ' + repr(e)[:2000])
                if os.environ.get('MIRVC_DEBUG'):
                    traceback.print_exc()
        known = load_known(self.pid)
        viol = []
        for f in self.failures:
            k = match_known(known, f)
            if k:
                print(f'KNOWN-FINDING: property={self.pid} {k}')
            else:
                viol.append(f)
        rc = 0
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        rp = os.path.join(VERIF, 'evidence', f'{self.pid}.replay.json')
        if viol or refuted:
            json.dump({'property': self.pid, 'failed_obligations': refuted[:20], 'undecided': self.undecided[:20],
                       'failing_inputs': viol[:20], 'tree': extract.tree_hash()}, open(rp, 'w'), indent=1, default=str)
        if viol:
            for o in refuted[:5]:
                print(f'failed obligation: {o["function"]} :: {o["obligation"]}')
            print('failing input: ' + json.dumps(viol[0], default=str)[:800])
            print(f'VIOLATION property={self.pid} replay={rp}')
            rc = 1
        elif refuted:
            for o in refuted[:5]:
                print(f'failed obligation: {o["function"]} :: {o["obligation"]}\n  verifier counterexample: {o["detail"][:400]}')
            print(f'VIOLATION property={self.pid} replay={rp} no-failing-input-found')
            rc = 1
        proved = [o for o in self.obs if o['status'] == 'proved']
        backends = {}
        for o in proved:
            backends[o['backend']] = backends.get(o['backend'], 0) + 1
        cov = {
            'obligations': len(self.obs), 'discharged': len(proved),
            'checker_cmd': f'python3-vt /verif/mirvc/check.py {self.pid}',
            'trusted_base': sorted(self.trusted) + ['mirvc obligation generator (/verif/mirvc)', 'rustc nightly-2024-10-20 MIR output', 'z3 5.3 / cvc5 1.4'],
            'functions_under_contract': len([f for f, v in self.functions.items() if v]),
            'functions': sorted(self.functions)[:400],
            'refuted': len(refuted), 'undecided': [list(x) for x in self.undecided[:60]],
            'backends': backends, 'solver_s': round(self.solver_s, 3),
            'contracts_used_at_calls': sorted(self.contracts), 'library_models_used': sorted(self.models),
            'inlined_bodies': sorted(self.inlined)[:200],
            'vacuity_covers': self.covers,
            'bounded': self.bounded, 'notes': self.notes,
            'samples': [{k: o[k] for k in ('function', 'obligation', 'status', 'backend')} for o in self.obs[:: max(1, len(self.obs) // 12)]][:14],
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': sorted(self.assumptions), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol) + (len(refuted) if not viol else 0)}
        if self.level == 'other':
            cov.setdefault('explanation', scope or 'bounded differential runs only; see bounded')
        json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w'), indent=1, default=str)
        nb = sum(b.get('cases', 0) for b in self.bounded)
        print(f'{self.pid}: {len(proved)}/{len(self.obs)} obligations discharged over {cov["functions_under_contract"]} functions, '
              f'{len(refuted)} refuted, {len(self.undecided)} undecided, {nb} bounded cases, {ev["wall_s"]} s')
        if self.undecided and os.environ.get('MIRVC_DEBUG'):
            for f, r in self.undecided[:40]:
                print('  undecided', f[:110], '--', r[:400])
        return rc


def foreign_symbols(exprs, vocab):
    """uninterpreted functions occurring in exprs which are not in vocab (a predicate)"""
    seen = set()
    bad = set()
    todo = list(exprs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and (d.arity() > 0 or d.name().startswith('lossy!')):
                # (lossy!: a value of which the summary of a loop or of a chain of iterators does not say all)
                if d.name().startswith('lossy!') or not vocab(d.name()):
                    bad.add(d.name())
            todo += e.children()
        elif z3.is_quantifier(e):
            todo.append(e.body())
    return bad


def load_known(pid):
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f'known: property={pid} '):
                out.append(l[len(f'known: property={pid} '):])
    return out


def match_known(known, f):
    key = f.get('key') or ''
    for k in known:
        if key and k.split(' ')[0] == key:
            return k
    return None

"""Loop contracts: invariant checked on entry, havoc of the loop's frame, invariant assumed, body executed once,
invariant (and variant) checked at the back edge."""
import z3
from mir import *
from engine import *


def through_ref(pl):
    """a place behind a reference: the frame check sees its memory, the reference itself is unchanged"""
    return bool(pl.proj) and pl.proj[0][0] == 'deref'


def assigned_locals(fn, body, refs=False, borrowed=True):
    """locals assigned in the body; refs: also those whose pointee may change; borrowed: also those borrowed mutably"""
    out = set()
    for b in body:
        blk = fn.blocks[b]
        for s in blk.stmts:
            if s.kind == 'assign':
                if refs or not through_ref(s.place):
                    out.add(s.place.local)
                if borrowed and s.rv[0] in ('refmut', 'raw') and (refs or not through_ref(s.rv[1])):
                    out.add(s.rv[1].local)
        if blk.term and blk.term.kind == 'call':
            out.add(blk.term.d['dst'].local)
    return out


class LoopInv:
    """inv(eng, fr, st, snap) -> z3 Bool ; variant(eng, fr, st) -> z3 Int or None.
    havoc(eng, fr, st, local) may override how a local is havocked (return True if handled)."""

    def __init__(self, inv, variant=None, havoc=None, sink=None, pre=None, facts=None):
        self.inv, self.variant, self.havoc, self.sink = inv, variant, havoc, sink
        self.facts = facts

    def __call__(self, eng, fr, st, bb, body, seen):
        fn = fr['fn']
        if bb in seen:
            g = self.inv(eng, fr, st, seen[bb])
            self.sink.append(('invariant preserved by the loop body', list(st.pc), g, eng.axioms()))
            if self.variant:
                v0 = seen[bb]['variant']
                v1 = self.variant(eng, fr, st)
                self.sink.append(('variant decreases', list(st.pc), z3.And(v1 < v0, v0 >= 0), eng.axioms()))
            return 'cut'
        g = self.inv(eng, fr, st, None)
        self.sink.append(('invariant holds on entry', list(st.pc), g, eng.axioms()))
        st = st.copy()
        for l in assigned_locals(fn, body, True):
            c = fr['cells'][l]
            if c not in st.mem:
                continue
            if self.havoc and self.havoc(eng, fr, st, l):
                continue
            v = st.mem[c]
            if isinstance(v, Ref):
                # a reference local assigned in the loop: only dead temporaries are allowed
                del st.mem[c]
                continue
            st.mem[c] = eng.fresh(eng.local_ty(fr, l), st, 'h' + l)
        snap = {}
        if self.facts:
            self.facts(eng, fr, st)
        st.assume(self.inv(eng, fr, st, None))
        if self.variant:
            snap['variant'] = self.variant(eng, fr, st)
        seen = dict(seen)
        seen[bb] = snap
        return (st, seen)

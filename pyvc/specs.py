"""loop contracts (invariants), keyed by module, function and loop ordinal"""
import z3

from . import core
from .core import cur, lift, wrap, Unsupported
from .loader import LOOPSPECS


class LoopSpec:
    """base: subclasses define invariant(loop, st, k) -> [(name, bool)] and havoc(loop, st)"""

    proof_only = False

    def applies(self, loop, it):
        return not (self.proof_only and getattr(cur(), 'mode', 'proof') != 'proof')

    def entry(self, loop, st):
        rec = cur().recorder
        try:
            fs = self.invariant(loop, st, z3.IntVal(0) if loop.kind == 'for' else None)
        except (KeyError, AttributeError, TypeError) as e:
            raise Unsupported('loop invariant does not apply: %r' % e)
        for name, f in fs:
            rec('loop-entry:' + name, f)

    def havoc(self, loop, st):
        raise NotImplementedError

    def assume_inv(self, loop, st):
        for name, f in self.invariant(loop, st, loop.k):
            cur().assume(f)

    def preserved(self, loop, st):
        rec = cur().recorder
        for name, f in self.invariant(loop, st, None if loop.k is None else z3.simplify(loop.k + 1)):
            rec('loop-step:' + name, f)

    def exit(self, loop):
        pass


def loopspec(mod, qual, k):
    def d(cls):
        LOOPSPECS[(mod, qual, k)] = cls()
        return cls
    return d

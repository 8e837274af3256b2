"""Tables summarised to one value: where a table comes from and where it is written, not what happens inside it.

A table read from the outside is the single value TABLE, and everything computed from it is TABLE again; only reading
it in and writing it out are effects.
"""
from . import terms as tm
from .terms import mk
from .interp import Interp

TABLE = mk('sym', 'the table', 'any')
WRITERS = {'to_csv', 'to_excel', 'to_pickle', 'to_json', 'to_hdf', 'to_parquet', 'to_feather', 'to_sql', 'to_html'}


def has(args, kwargs=()):
    return any(a is TABLE for a in args) or any(v is TABLE for v in (kwargs.values() if kwargs else ()))


class Summary(Interp):
    """an interpreter that forgets the contents of what the given library functions return"""

    def __init__(self, prog, sources=(), **kw):
        Interp.__init__(self, prog, **kw)
        self.sources = set(sources)

    def getattr(self, fr, b, name, node=None):
        return TABLE if b is TABLE else Interp.getattr(self, fr, b, name, node)

    def getitem(self, fr, b, k, node=None):
        return TABLE if b is TABLE or k is TABLE else Interp.getitem(self, fr, b, k, node)

    def setattr(self, fr, b, name, v, node=None):
        if b is not TABLE:
            Interp.setattr(self, fr, b, name, v, node)

    def setitem(self, fr, tgt, b, k, v):
        if b is not TABLE:
            Interp.setitem(self, fr, tgt, b, k, v)

    def mutator(self, fr, e, fobj):
        return None if fobj is TABLE else Interp.mutator(self, fr, e, fobj)

    def call_method(self, fr, obj, name, args, kwargs, node=None):
        if obj is TABLE:
            if name in WRITERS:
                self.emit(fr, mk('eff', mk('mcall', TABLE, name, *self.opargs(fr, args, kwargs))))
            return TABLE
        if has(args, kwargs) and obj.op not in ('ext', 'mod', 'cls', 'super'):
            return TABLE
        return Interp.call_method(self, fr, obj, name, args, kwargs, node)

    def apply(self, fr, f, args, kwargs, node=None):
        if f is TABLE:
            return TABLE
        if f.op == 'ext':
            if f.args[0] in self.sources:
                self.emit(fr, mk('eff', mk('call', f.args[0], *self.opargs(fr, args, kwargs))))
                return TABLE
            if has(args, kwargs):
                return TABLE
        return Interp.apply(self, fr, f, args, kwargs, node)

    def binop(self, fr, op, a, b, node):
        return TABLE if has((a, b)) else Interp.binop(self, fr, op, a, b, node)

    def compare(self, fr, op, a, b, node):
        return TABLE if has((a, b)) else Interp.compare(self, fr, op, a, b, node)

    def e_UnaryOp(self, fr, e):
        import ast
        if not isinstance(e.op, ast.Not) and self.ev(fr, e.operand) is TABLE:
            return TABLE
        return Interp.e_UnaryOp(self, fr, e)

"""A not-a-number that absorbs arithmetic (what a singular sparse solve returns)."""


class NaN:
    def _s(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _s
    __neg__ = __pos__ = __abs__ = __pow__ = __rpow__ = _s
    sqrt = _s

    def __round__(self, nd=None):
        return self

    def _f(self, o):
        return False
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _f

    def __ne__(self, o):
        return True

    def __hash__(self):
        return 0

    def __bool__(self):
        return True

    def __str__(self):
        return 'nan'

    def __format__(self, s):
        return 'nan'


NAN = NaN()

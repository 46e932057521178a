"""Scripted input: the reader is analysed for an input of a known shape (tags and counts given, everything else symbolic)."""
from rules.common import *
import stream

class Script:
    """items: (bytes, value or label); a value of None or a string is a symbol named by the position"""
    def __init__(self, items, more=None):
        self.items = items; self.more = more; self.odd = []
    def sym(self, k):
        n, v = self.items[k]
        if isinstance(v, int): return C(v, 8 * n)
        return mk('rd', k, v, w=8 * n)
    def model(self, e, s, i, name, args, rt):
        if self.more:
            r = self.more(e, s, i, name, args, rt)
            if r is not None: return r
        sg = lib.sig(e.prog, name)
        if sg.cls in stream.ISTREAM and sg.name in ('read', 'get', 'peek') and s.ts[0] == 'G':
            pos = s.ts[1]
            if sg.name == 'read': p, n = args[1], e.known(s, args[2])
            elif len(args) == 2: p, n = args[1], C(1)
            else: p, n = None, C(1)
            w = e.width(i.get('t'))
            if isc(n) and cv(n) == 0: return [('ret', s, args[0])]
            if pos >= len(self.items) or isc(n) and pos < len(self.items) and cv(n) > self.items[pos][0] and pos == len(self.items) - 1:
                # the input ends
                s.ts = ('E',) + s.ts[1:]
                s.ver[mk('gcount')] = C(0)
                return [('ret', s, args[0] if p is not None else C(-1, w))]
            if not isc(n) or cv(n) != self.items[pos][0]:
                if e.final: self.odd.append(locstr(i))
                raise Odd(locstr(i))
            v = self.sym(pos)
            if p is not None: stream.put(e, s, p, n, lambda m: v)
            if sg.name != 'peek': s.ts = s.ts[:1] + (pos + 1,) + s.ts[2:]
            s.ver[mk('gcount')] = n
            return [('ret', s, args[0] if p is not None else cast('zext', w, v))]
        return stream.call(e, s, i, name, args, rt)
class Odd(Exception): pass

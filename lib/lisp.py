"""Reader for the forms of the Lisp sources: lists, symbols, strings, numbers; reader macros are kept as ordinary symbols."""
class Sym(str): __slots__ = ()
class Str(str): __slots__ = ()
class Form(list):
    __slots__ = ('line', 'q')
class Missing(Exception): pass

OPEN = {'(': ')', '[': ']', '{': '}'}
def tokens(t):
    i = 0; line = 1; n = len(t)
    while i < n:
        c = t[i]
        if c == '\n': line += 1; i += 1
        elif c.isspace(): i += 1
        elif c == ';':
            while i < n and t[i] != '\n': i += 1
        elif t.startswith('#|', i):
            d = 1; i += 2
            while i < n and d:
                if t.startswith('|#', i): d -= 1; i += 2
                elif t.startswith('#|', i): d += 1; i += 2
                else:
                    line += t[i] == '\n'; i += 1
        elif c == '"':
            j = i + 1; s = []; l0 = line
            while j < n and t[j] != '"':
                if t[j] == '\\': j += 1
                if j < n: s.append(t[j]); line += t[j] == '\n'
                j += 1
            yield 'str', Str(''.join(s)), l0; i = j + 1
        elif c in '([{': yield 'open', c, line; i += 1
        elif c in ')]}': yield 'close', c, line; i += 1
        elif t.startswith('#\\', i):
            j = i + 3
            while j < n and (t[j].isalnum() or t[j] in '-_'): j += 1
            yield 'sym', Sym(t[i:j]), line; i = j
        elif t.startswith(("#'", ',@'), i): yield 'q', t[i:i + 2], line; i += 2
        elif c == '#' and t.startswith(('#+', '#-'), i): yield 'feat', t[i:i + 2], line; i += 2
        elif c == '#' and t.startswith('#(', i): i += 1
        elif c == '#' and t.startswith('#.', i): i += 2
        elif c in "'`,": yield 'q', c, line; i += 1
        elif c == '|':
            j = t.index('|', i + 1); yield 'sym', Sym(t[i + 1:j]), line; i = j + 1
        else:
            j = i
            while j < n and not t[j].isspace() and t[j] not in '()[]{};"\'`,': j += 1
            if j == i: j += 1
            yield 'sym', Sym(t[i:j].lower()), line; i = j
def parse(t):
    """top-level forms; a quoted datum q is read as the list (quote-character q) flattened: the datum itself with .q set"""
    st = [Form()]; st[0].line = 1; st[0].q = ''
    pend = ''; feats = []
    for k, v, l in tokens(t):
        if k == 'q': pend += v; continue
        if k == 'feat': pend = ''; continue
        if k == 'open':
            f = Form(); f.line = l; f.q = pend; pend = ''
            st[-1].append(f); st.append(f)
        elif k == 'close':
            if len(st) > 1: st.pop()
            pend = ''
        else: st[-1].append(v); pend = ''
    return st[0]
def walk(f):
    yield f
    for x in f:
        if isinstance(x, Form): yield from walk(x)
def number(x):
    s = str(x)
    try:
        if s.startswith('#x'): return int(s[2:], 16)
        if s.startswith('#b'): return int(s[2:], 2)
        return int(s.rstrip('.'))
    except ValueError: return None

"""Parser for TLA+ values as printed by TLC (states, traces, dumps)."""
import re

_TOK = re.compile(r'\s*(<<|>>|\|->|:>|@@|\.\.|[\[\]{}(),]|"(?:\\.|[^"\\])*"|-?\d+|[A-Za-z_][A-Za-z0-9_!]*)')


class FrozenRec(dict):
    def __hash__(self):
        return hash(frozenset(self.items()))


def _hashable(v):
    if isinstance(v, list):
        return tuple(_hashable(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return frozenset(_hashable(x) for x in v)
    if isinstance(v, dict):
        return FrozenRec({k: _hashable(x) for k, x in v.items()})
    return v


class _P:
    def __init__(self, s):
        self.toks = []
        pos = 0
        n = len(s)
        while pos < n:
            m = _TOK.match(s, pos)
            if not m:
                if s[pos:].strip() == '':
                    break
                raise ValueError('bad TLA value at %r' % s[pos:pos + 60])
            self.toks.append(m.group(1))
            pos = m.end()
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def expect(self, t):
        g = self.next()
        if g != t:
            raise ValueError('expected %s got %s' % (t, g))

    def value(self):
        t = self.next()
        if t == '<<':
            out = []
            while self.peek() != '>>':
                out.append(self.value())
                if self.peek() == ',':
                    self.next()
            self.next()
            return out
        if t == '{':
            out = []
            while self.peek() != '}':
                out.append(self.value())
                if self.peek() == ',':
                    self.next()
            self.next()
            return frozenset(_hashable(x) for x in out)
        if t == '[':
            out = {}
            while self.peek() != ']':
                k = self.next()
                self.expect('|->')
                out[k] = self.value()
                if self.peek() == ',':
                    self.next()
            self.next()
            return out
        if t == '(':
            out = {}
            while True:
                k = self.value()
                self.expect(':>')
                out[_hashable(k)] = self.value()
                nx = self.next()
                if nx == ')':
                    return out
                if nx != '@@':
                    raise ValueError('bad function literal')
        if t[0] == '"':
            return bytes(t[1:-1], 'utf-8').decode('unicode_escape')
        if t == 'TRUE':
            return True
        if t == 'FALSE':
            return False
        if re.match(r'-?\d+$', t):
            v = int(t)
            if self.peek() == '..':
                self.next()
                hi = int(self.next())
                return frozenset(range(v, hi + 1))
            return v
        return t


def parse(s):
    p = _P(s)
    v = p.value()
    if p.peek() is not None:
        raise ValueError('trailing tokens: %r' % p.toks[p.i:p.i + 5])
    return v


def parse_state(text):
    """'/\\ a = ..\n/\\ b = ..' (values may span lines) -> dict."""
    out = {}
    parts = re.split(r'(?m)^\s*/\\ (?=[A-Za-z_]\w* = )', text)
    if len(parts) == 1:
        parts = ['', text]
    for part in parts[1:]:
        name, val = part.split(' = ', 1)
        out[name.strip()] = parse(val)
    return out

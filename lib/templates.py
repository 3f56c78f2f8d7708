"""Input templates: a template is a list of items, each a concrete character or a set of inclusive
code point ranges (a symbolic character).  The solver decides the property for every assignment."""

def S(*parts):
    """set from strings of characters, (lo, hi) pairs and other sets"""
    out = []
    for p in parts:
        if isinstance(p, str):
            out += [(ord(c), ord(c)) for c in p]
        elif isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], int):
            out.append(p)
        else:
            out += list(p)
    out.sort()
    merged = []
    for lo, hi in out:
        if merged and lo <= merged[-1][1] + 1:
            merged[-1] = (merged[-1][0], max(hi, merged[-1][1]))
        else:
            merged.append((lo, hi))
    return tuple(merged)

def T(*parts):
    """template from strings (concrete characters), sets, and lists of these"""
    out = []
    for p in parts:
        if isinstance(p, str):
            out += list(p)
        elif isinstance(p, list):
            out += T(*p)
        else:
            out.append(p)
    return out

FULL = S((0, 0xd7ff), (0xe000, 0x10ffff))
# every ASCII character and a representative of each class above it
X = S((0, 0x7f), '\x85\xa0\xad\xe9\u0301\u1680\u2007\u200b\u200c\u200d\u2028\u2029\u3000\ufeff\ufffd\U00010000\U0001f600\U0010ffff')
DIG = S('0123456789')
OCT = S('01234567')
BIN = S('01')
HEX = S('0123456789', 'abcdef', 'ABCDEF')
LOW = S((97, 122))
IDC = S((97, 122), (65, 90), '0123456789$_')
NL = S('\n\r\u2028\u2029')
WS = S('\t\x0b\x0c \xa0\ufeff\u1680\u2007\u3000')
Q = S('\'"')
SIGN = S('+-')

def n_of(s, n):
    return [s] * n

# words that must not run into the name that follows
WORDS = set('in of instanceof typeof void delete new case else do var let const throw return function while finally catch'.split())

class Alt(tuple):
    """one of several spellings, all ASCII, padded with spaces to one width; which one is symbolic"""
    def __new__(cls, *parts):
        w = [x for p in parts for x in (p.split(' ') if isinstance(p, str) else p)]
        w = list(dict.fromkeys(w))
        n = max(map(len, w))
        if any(len(x) == n and x in WORDS for x in w):
            n += 1
        assert all(ord(c) < 128 for x in w for c in x)
        return tuple.__new__(cls, [x.ljust(n) for x in w])

class Params:
    """parameter vector of a case, with character sets placed behind the templates"""
    def __init__(self, head):
        self.p = list(head)
        self.fix = []
        self.sets = {}
        self.slots = []     # what each recorded input value stands for

    def template(self, t):
        at = len(self.p)
        self.p.append(len(t))
        for x in t:
            if isinstance(x, Alt) and len(x) == 1:
                raise ValueError('no choice')
            if isinstance(x, str):
                self.p.append(ord(x))
            else:
                self.fix.append((len(self.p), x))
                self.p.append(None)
        return at

    def done(self):
        for i, s in self.fix:
            if s not in self.sets:
                self.sets[s] = len(self.p)
                self.p.append(len(s))
                if isinstance(s, Alt):
                    self.p.append(len(s[0]))
                    self.p += [ord(c) for x in s for c in x]
                else:
                    self.p += [lo << 32 | hi for lo, hi in s]
            self.p[i] = (2 if isinstance(s, Alt) else 1) << 32 | self.sets[s]
        return self.p

def lex(check, policy, maxtok, t):
    p = Params([check, policy, maxtok])
    p.template(t)
    return p.done()

def par(what, mode, t):
    p = Params([what, mode])
    p.template(t)
    return p.done()

"""The cases of each property: (label, entry, params, description).  Everything here is a bound."""
import json, os
from templates import *
from par_cases import par_cases

TOTAL, TILE, LINECOL, NEWLINE, PUNCT, STR, NUMVAL, NUMFORM, WORD, ESC, RE, TRIVIA, ERR = 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14

RESERVED = """null true false break case catch class const continue debugger default delete do else export extends
finally for function if import in instanceof new return super switch this throw try typeof var void while with enum""".split()
CONTEXTUAL = """arguments async await eval from get implements interface let of package private protected public set
static target yield""".split()

PUNCTUATORS = """{ } ( ) [ ] . ... ; , < > <= >= == != === !== + - * % ++ -- << >> >>> & | ^ ! ~ && || ? : = += -= *= %= <<= >>=
>>>= &= |= ^= => / /=""".split()

class Cases(list):
    def lex(self, label, check, t, policy=1, maxtok=None):
        self.append((label, 'h_lex', lex(check, policy, (len(t) + 2) if maxtok is None else maxtok, t)))

    def all_upto(self, check, s, lo, hi, policies=(0, 1), tag=''):
        for n in range(lo, hi + 1):
            for p in policies:
                self.lex('any%s-n%d-op%s' % (tag, n, p), check, n_of(s, n), p)

# ---------------------------------------------------------------- building blocks
def braces(deep):
    """hexadecimal digit strings of every length up to ten (the code point limit is at six, the
    32-bit limit at eight); decimal and letter digits are kept apart to bound the case split"""
    for n in range(1, 5 if deep else 3):
        yield 'h%d' % n, n_of(HEX, n)
    for n in range(3, 11):
        if deep:
            yield 'd%d' % n, n_of(DIG, n - 1) + [HEX]
            yield 'l%d' % n, n_of(S('abcdef'), n)
            yield 'z%d' % n, ['0'] * (n - 3) + n_of(HEX, 3)
        else:
            yield 'd%d' % n, (n_of(DIG, n - 1) if n < 6 else [S('0189'), DIG] + ['0'] * (n - 4) + [S('09')]) + [S('0fF')]
            yield 'l%d' % n, n_of(S('abcdef'), 2) + ['f'] * (n - 2)
            yield 'z%d' % n, ['0'] * (n - 3) + ['1', S('0189abcdef'), HEX]
    yield 'top5', [HEX] + n_of(DIG, 3) + [HEX]
    yield 'top6', ['1', '0'] + n_of(HEX, 2) + n_of(DIG, 2)
    yield 'long', n_of(S('0'), 12) + n_of(S('0f'), 3)

def strings(deep):
    """(label, template): one string literal and what surrounds it"""
    q = Q
    for n in range(0, 4 if deep else 3):
        yield 'str-body%d' % n, T(q, n_of(X, n), q)
    for n in range(1, 4 if deep else 3):
        yield 'str-esc%d' % n, T(q, '\\', n_of(X, n), q)
    for n in range(1, 5 if deep else 4):
        yield 'str-oct%d' % n, T('"a\\', n_of(S('0123456789a"\\'), n), '"')
    yield 'str-hex', T('"\\x', n_of(S(HEX, 'gx"\n'), 2), X, '"')
    yield 'str-hex-cut1', T('"\\x', X)
    yield 'str-u4', T('"\\u', n_of(HEX, 4), 'b"')
    yield 'str-u4-bad', T('"\\u', n_of(S('0aFg{}"'), 5), '"')
    for l, ds in braces(deep):
        yield 'str-ubrace-' + l, T('"\\u{', ds, '}"')
    for n in range(0, 4):
        yield 'str-ubrace-bad%d' % n, T('"\\u{', n_of(S('0aFg{}"'), n), X)
    yield 'str-cont', T('"a\\', NL, S('\n\r\u2028\u2029', 'b"'), S('\n', 'b"'), '"')
    yield 'str-cut', T(q, 'ab', X, '\\')
    yield 'str-two', T('"\\', S((0x20, 0x7e)), '\\', S((0x20, 0x7e)), '"')

def numbers(deep):
    alpha = S('0123456789', '.eExXoObB+-_afn;')
    for n in range(1, 5 if deep else 4):
        yield 'num-any%d' % n, T(DIG, n_of(alpha, n))
    yield 'num-exp', T(DIG, 'e', S('+-0123456789.e'), DIG, S('0123456789', '.ex'))
    yield 'num-frac', T(DIG, '.', n_of(S('0123456789', '.eE'), 3 if deep else 2), S('0123456789', '+-.;a'))
    yield 'num-dot', T('.', DIG, S('0123456789', '.eE'), S('0123456789', '+-.;'), S('0123456789', ';a'))
    for r, s in (('x', HEX), ('X', HEX), ('o', OCT), ('O', OCT), ('b', BIN), ('B', BIN)):
        yield 'num-0%s' % r, T('0' + r, S(s, '29gz.'), S(s, '29gz.e'), X)
        yield 'num-0%s-cut' % r, T('0' + r)
    yield 'num-leg', T('0', n_of(DIG, 4 if deep else 3), S(DIG, '.e;x'))
    yield 'num-dec-long', T(n_of(DIG, 9), S('.;'), n_of(DIG, 2))
    yield 'num-dec-53', T('9007199254740', n_of(DIG, 3), S('.;'))
    yield 'num-dec-17', T(DIG, '000000001', DIG, '00000', DIG, S('.;'))
    yield 'num-dec-19', T('922337203685477', n_of(DIG, 4), S('.;'), S('0;'))
    yield 'num-dec-20', T('18446744073709551', n_of(DIG, 3), S('.;'))
    yield 'num-exp-zeros', T('1', S('.;'), '5', S('eE'), S('+-0'), '000', n_of(DIG, 2))
    yield 'num-exp-int-zeros', T(DIG, S('eE'), S('+-0'), '000', n_of(DIG, 2))
    yield 'num-exp-int', T('7e', S('+-0'), n_of(DIG, 2))
    yield 'num-exp-long', T(DIG, '.', DIG, S('eE'), S('+-', DIG), n_of(DIG, 2))

def radix_values(deep):
    """digit strings around and beyond 53 bits: symbolic where rounding is decided"""
    yield 'hex-short', T('0x', n_of(HEX, 3 if deep else 2))
    yield 'oct-short', T('0o', n_of(OCT, 4 if deep else 3))
    yield 'bin-short', T('0b', n_of(BIN, 6 if deep else 5))
    yield 'leg-short', T('0', n_of(OCT, 4 if deep else 3))
    for l, r, t in long_radix(deep):
        yield l, T(('0b', '0o', '', '0x')[r], t)

def words(deep):
    for n in range(1, 12):
        yield 'word-low%d' % n, T(n_of(LOW, n))
    yield 'word-any1', T(FULL)
    yield 'word-any2', T(IDC, FULL)
    yield 'word-any3', T(X, X, X)
    yield 'word-tail', T('instanceo', IDC, X)
    yield 'word-pair', T(LOW, LOW, S(' \n;.'), LOW, LOW) if deep else T(S('id'), S('fno'), S(' \n;.'), S('iad'), S('fos'))

def escapes(deep):
    h = HEX if deep else S('0123456789abcdef')
    yield 'esc-u4-start', T('\\u', n_of(h, 4))
    yield 'esc-u4-cont', T('a\\u', n_of(h, 4))
    yield 'esc-u4-mid', T('a\\u00', n_of(HEX, 2), 'b')
    yield 'esc-u4-high', T('\\u', n_of(HEX, 2), '6', S('0aF'))
    for l, ds in braces(deep):
        yield 'esc-brace-' + l, T('\\u{', ds, '}')
    yield 'esc-brace-cont', T('x\\u{', n_of(h, 4 if deep else 3), '}y')
    for n in range(0, 4):
        yield 'esc-any%d' % n, T('\\', n_of(X, n))
    for n in range(0, 3):
        yield 'esc-ubrace-any%d' % n, T('a\\u{', n_of(S('0aFg}\\ '), n), X)
    yield 'esc-u-bad', T('\\u', n_of(S('0aFg{}\\ '), 4), X)

def escaped_words(deep):
    """one letter of a reserved or contextual word written as an escape"""
    every = RESERVED + CONTEXTUAL
    for w in every:
        spots = range(len(w)) if deep else {0, len(w) - 1}
        for i in sorted(spots):
            code = '%04x' % ord(w[i])
            yield 'escw-%s-%d' % (w, i), T(w[:i], '\\u', code[:3], HEX, w[i + 1:])
    yield 'escw-if-brace', T('\\u{', HEX, HEX, '}', LOW)
    yield 'escw-in-brace', T(LOW, '\\u{', HEX, HEX, '}')

def regexps(deep):
    r = S('/[]\\*=agi \n\r\u2028\u2029(+-"')
    for n in range(0, 4):
        yield 're-any%d' % n, T('/', n_of(X, n))
    for n in range(2, 6 if deep else 5):
        yield 're-small%d' % n, T('/', n_of(r, n))
    yield 're-class', T('/[', n_of(r, 3 if deep else 2), ']', S('/a'), S('/gi]'))
    yield 're-esc', T('/a\\', X, S('/]'), '/', IDC)
    yield 're-flags', T('/a/', n_of(S(IDC, '\u200c\xe9 ;'), 3))

def trivia(deep):
    t = S(' \n\r/*-><!a;=\u2028\ufeff\u2007')
    for n in range(1, 6 if deep else 5):
        yield 'triv%d' % n, T(n_of(t, n))
    yield 'triv-html-open', T('a<!--', S('ab>-'), NL, S('-a'), '-', S('>-'), 'b')
    yield 'triv-html-close', T('/*', S('\n*a'), '*/', S(' /'), '-->', S('a\n'), NL, 'b')
    yield 'triv-html-close2', T(S(' \na;'), S(' \n\t'), '-->', X, NL, '-->', X)
    yield 'triv-html-token', T(S('{}()[];,~?:a1'), S(' \n\t'), '-->', X, NL, 'b')
    yield 'triv-html-token2', T(NL, S('{}()[];,~?:a1'), S(' \n\t'), '--', S('>x'), 'c')
    yield 'triv-html-word', T(S(' \n'), S('gi'), S('ef'), S('t '), S(' \t\n'), '-->x')
    yield 'triv-html-str', T('"', S('\\a'), 'n"', S(' \t\n'), '-->x', NL, 'b')
    yield 'triv-block', T('/*', n_of(S('*/\n a'), 3), '*/', X)
    yield 'triv-line', T('//', n_of(X, 2), S('a\n'))
    yield 'triv-ws', T(WS, FULL, 'a')

def puncts(deep):
    p = S('{}()[].;,<>=!+-*%&|^~?:/')
    for n in range(1, 5 if deep else 4):
        yield 'punct%d' % n, T(n_of(p, n))
    pp = S('><=!.+-&|*/')
    yield 'punct-long', T(n_of(pp, 5 if deep else 4))
    # what follows a punctuator, however long it is
    for i, w in enumerate(PUNCTUATORS):
        yield 'punct-then%d' % i, T(w, S(p, 'a1 \n.'), S(p, 'a1 \n"'))
    yield 'punct-ctx', T(S(p, 'a1 '), p, p, S('a1 \n='))

def lines(deep):
    l = S('\n\r\u2028\u2029a \'"\\/*;`')
    for n in range(1, 6 if deep else 5):
        yield 'lines%d' % n, T(n_of(l, n))
    for k, t in enumerate(('"\\%%"%%b', '/*%%*/%%b', '//a%%%%b', "'\\%a\\%%'c", '/*a%b%*/c', 'a%%<!--%b', 'a%%-->%b')):
        parts = []
        for ch in t:
            parts.append(NL if ch == '%' else ch)
        yield 'lines-mix%d' % k, T(*parts)
    yield 'lines-wide', T(S('a\U0001f600\xe9'), NL, S('a\U0001f600\xe9 '), S('a\U0001f600\xe9 \t'), 'z')

def sequences(deep):
    """several tokens of different kinds in a row, glue symbolic"""
    g = S(' \n;')
    yield 'seq-1', T('a', g, '"b"', g, '0x1F', g, '+=')
    yield 'seq-2', T('if', g, '\'\\x41\\\r\n\'', g, '1.5e3', S('/;'))
    yield 'seq-3', T('var', S(' \t\r\u2028'), '\\u{61}b', S('=/'), S('=/ '), '7')
    yield 'seq-4', T('/*x*/', g, '>>>=', g, '.5', g, '...')
    yield 'seq-5', T('"\\u{1F600}"', g, '"\\101\\0"', g, '017', g, '089.5')
    yield 'seq-6', T('get', g, 'yield', g, 'null', g, '$_', g, '{}')

def longs(deep):
    """thresholds: long tokens, long gaps, many lines, wide lines, many tokens; symbolic where it ends"""
    e = S('a1"\'/\\ \n\r\u2028.;*')
    yield 'long-word', T('abcdefghij' * 13, S(IDC, ' \n.'), S('z;'))
    yield 'long-word-u', T('\xe9\U00010400' * 40, S(IDC, ' \n.\u2028'), S('z;'))
    yield 'long-word-esc', T('\\u0061b' * 25, S('c \n'), ' x')
    yield 'long-str', T('"', 'ab\xe9 ' * 70, e, 'z"', S(' ;'))
    yield 'long-str-esc', T("'", '\\x41\\u0042\\u{43}\\n\\101' * 12, S("'a"), "b'")
    yield 'long-str-cont', T('"', '\\\nab\\\r\nc\\\u2028' * 12, NL, '"x')
    yield 'long-line-comment', T('//', 'a *\t' * 75, S('a\n\r\u2028'), 'b', NL, 'c')
    yield 'long-block', T('/*', 'a*\n/ ' * 60, S('*a'), S('/*'), '/', ' b*/')
    yield 'long-comments', T('/**/' * 30, '//\r\n' * 30, S('/a\n'), S('/*'), '*/b')
    yield 'long-html', T('a\n', '--> x\n' * 12, '<!-- y\r' * 12, S('-<'), '-->', NL, 'b')
    yield 'long-blank', T(' \t\xa0\ufeff' * 75, S(' a\n'), 'b')
    yield 'long-lines', T('\n' * 150, '\r\n' * 120, '\r' * 20, S('\n\u2029a'), S('\n b'), 'c')
    yield 'long-tokens', T('a ;' * 90, S('+=;'), S('+= \n'), X)
    yield 'long-punct', T('>>>=' * 20, '...' * 5, S('><='), S('>=.'), S('>=a'))
    yield 'long-num', T('1234567890' * 4, S(DIG, '.e;'), S(DIG, ';'))
    yield 'long-num-frac', T('0.', '0' * 25, DIG, S(DIG, 'e'), S('1;'))
    yield 'long-num-exp', T('1', S('eE'), S('+-0'), '0' * 20, DIG)
    yield 'long-hex', T('0x', '0' * 40, S(HEX, 'g'), S('0f;'))
    yield 'long-leg', T('0', '7' * 30, S('0789.'), S('01;'))
    yield 'long-bin', T('0b', '01' * 30, S('012;'), S('01'))
    yield 'long-re-as-div', T('a / ' * 30, S('b/'), S(' *'), 'c')
    if deep:
        yield 'long-lines-64k', T('\n' * 65534, S('\na'), S('\na'), S('\na'), 'b')
        yield 'long-line-64k', T(' ' * 65534, S(' a'), S(' a'), S(' a'), 'b')

def long_regexps(deep):
    yield 're-long', T('/', 'ab\\/' * 60, S('/a\\[\n'), S('/g'), 'i')
    yield 're-long-class', T('/[', 'ab/' * 60, S('/a\\]'), S('/]'), S('/]'), 'g')
    yield 're-classes', T('/', '[/]' * 40, S('/[]'), S('/]'), 'g')
    yield 're-flags-long', T('/a/', 'gimuy' * 12, S(IDC, ' ;'), 'b')

ALLWS = S('\t\x0b\x0c \xa0\ufeff\u1680\u202f\u205f\u3000', (0x2000, 0x200a))

def minus(*sets):
    """every code point outside the sets"""
    out, at = [], 0
    for lo, hi in S(*sets) + ((0x110000, 0x110000),):
        out += [(max(a, at), min(b, lo - 1)) for a, b in FULL if max(a, at) <= min(b, lo - 1)]
        at = hi + 1
    return tuple(out)

def long_radix(deep):
    """(label, radix kind, digits): 50 to 70 bit literals, symbolic where rounding is decided"""
    one = lambda n: ['1'] + ['0'] * (n - 1)
    b = BIN
    yield 'bin53', 0, ['1'] + ['0'] * 51 + [b]
    yield 'bin54', 0, ['1'] + ['0'] * 50 + [b, b, b]
    yield 'bin55', 0, ['1'] + ['0'] * 51 + [b, b, b]
    yield 'bin60-sticky', 0, ['1'] + ['0'] * 51 + [b, b] + ['0'] * 5 + [b]
    yield 'bin64', 0, ['1'] * 52 + [b, b] + ['0'] * 9 + [b]
    yield 'bin65', 0, ['1'] + ['0'] * 51 + [b, b] + ['0'] * 10 + [b]
    yield 'bin70', 0, ['1'] * 51 + [b, b, b] + ['0'] * 15 + [b]
    yield 'hex14', 3, ['2'] + ['0'] * 11 + [S('0189'), S('01238')]
    yield 'hex16', 3, ['8'] + ['0'] * 12 + [S('048c'), S('018'), S('01')]
    yield 'hex17', 3, ['1'] + ['0'] * 12 + [S('08'), S('018'), S('08'), S('01')]
    yield 'hex20', 3, ['f'] * 13 + [S('78f'), S('08'), '0', '0', '0', '0', S('01')]
    yield 'hex20-tie', 3, ['1'] + ['0'] * 12 + [S('08'), '0', '0', S('01'), S('01'), S('01'), '0']
    yield 'bin72-tie', 0, ['1'] + ['0'] * 51 + [b, '1'] + ['0'] * 13 + [b, b, '0', '0', b, '0']
    yield 'oct18', 1, ['1'] + ['0'] * 15 + [S('0145'), S('0137')]
    yield 'oct22', 1, ['1'] + ['0'] * 16 + [S('04'), S('04'), '0', '0', S('01')]
    yield 'leg22', 2, ['0', '7'] + ['7'] * 16 + [S('37'), S('04'), '0', S('01')]

ALLFAM = [strings, numbers, words, escapes, regexps, long_regexps, trivia, puncts, lines, sequences, longs]

def build(pid, tier):
    deep = tier == 'thorough'
    if PROPS[pid]['group'] == 'par':
        return par_cases(pid, deep or pid not in ('P01', 'P02', 'P05', 'P12', 'P14'))
    c = Cases()
    both = (0, 1)
    if pid == 'L01':
        c.all_upto(TOTAL, FULL, 0, 2, (2,), '')
        c.all_upto(TOTAL, X, 3, 4 if deep else 3, (2,), 'x')
        for fam in ALLFAM:
            for l, t in fam(deep):
                c.lex(l, TOTAL, t, 0 if fam in (regexps, long_regexps) else 1)
        c.lex('re-seq', TOTAL, T('a', S('/='), S('/=*'), S('/]g'), 'i'), 2)
    elif pid in ('L02', 'L03', 'L04'):
        k = {'L02': TILE, 'L03': LINECOL, 'L04': NEWLINE}[pid]
        c.all_upto(k, FULL, 0, 2, both)
        c.all_upto(k, X, 3, 4 if deep else 3, (1,), 'x')
        fams = {'L02': ALLFAM, 'L03': [lines, strings, regexps, long_regexps, trivia, sequences, words, longs], 'L04': [lines, trivia, sequences, puncts, longs]}[pid]
        for fam in fams:
            for l, t in fam(deep):
                c.lex(l, k, t, 0 if fam in (regexps, long_regexps) else 1)
    elif pid == 'L05':
        c.all_upto(PUNCT, FULL, 1, 2, both)
        c.all_upto(PUNCT, X, 3, 4 if deep else 3, (1,), 'x')
        for fam in (puncts, sequences, longs):
            for l, t in fam(deep):
                c.lex(l, PUNCT, t, 2 if l == 'punct-ctx' else 1)
    elif pid == 'L06':
        c.all_upto(STR, FULL, 1, 2, (1,))
        for fam in (strings, sequences, longs):
            for l, t in fam(deep):
                c.lex(l, STR, t)
    elif pid == 'L07':
        for fam in (numbers, radix_values, sequences, longs):
            for l, t in fam(deep):
                c.lex(l, NUMVAL, t)
    elif pid == 'L08':
        c.all_upto(NUMFORM, FULL, 1, 2, (1,))
        c.all_upto(NUMFORM, X, 3, 4 if deep else 3, (1,), 'x')
        for fam in (numbers, sequences, longs):
            for l, t in fam(deep):
                c.lex(l, NUMFORM, t)
    elif pid == 'L09':
        c.all_upto(WORD, FULL, 1, 2, (1,))
        for fam in (words, sequences, longs):
            for l, t in fam(deep):
                c.lex(l, WORD, t)
    elif pid == 'L10':
        for fam in (escapes, escaped_words, sequences, longs):
            for l, t in fam(deep):
                c.lex(l, ESC, t)
    elif pid == 'L11':
        c.all_upto(RE, FULL, 1, 2, (0,))
        for fam in (regexps, long_regexps):
            for l, t in fam(deep):
                c.lex(l, RE, t, 0)
        c.lex('re-or-div', RE, T('a', S('/ '), S('/=*'), S('/]g'), S('/i')), 2)
    elif pid == 'L12':
        c.all_upto(TRIVIA, FULL, 1, 2, both)
        c.all_upto(TRIVIA, X, 3, 4 if deep else 3, (1,), 'x')
        for fam in (trivia, lines, sequences, longs):
            for l, t in fam(deep):
                c.lex(l, TRIVIA, t)
    elif pid == 'L14':
        c.all_upto(ERR, FULL, 0, 2, both)
        c.all_upto(ERR, X, 3, 4 if deep else 3, (1,), 'x')
        for fam in ALLFAM + [escaped_words]:
            for l, t in fam(deep):
                c.lex(l, ERR, t, 0 if fam in (regexps, long_regexps) else 1)
    elif pid == 'L13':
        # operations: 1 read, 2 peek, 4 skip, 8 repeek, 16 reread, 32 unread
        ops = 5 if deep else 4
        for tag, t in (('mix', T(S('a1"/;'), S(' \n=/'), S('/a"\\'))), ('words', T('a', S(' \n'), 'if', S(';.'), '"c"'))):
            for n in range(1, ops + 1):
                p = Params([2 if n < 3 else 1, n, 63])
                p.template(t)
                c.append(('look-%s%d' % (tag, n), 'h_look', p.done()))
        p = Params([2, 3, 7])
        p.template(T('a', S('/ '), S('/ga'), S('/=')))
        c.append(('look-slash', 'h_look', p.done()))
        for i, t in enumerate((T(S('/ \n'), S('/a'), S('/ga'), S('/=')), T(S(' \n;'), S('/}'), S('/=a'), S('/g')))):
            p = Params([2, 3, 7])
            p.template(t)
            c.append(('look-slash-first%d' % i, 'h_look', p.done()))
        p = Params([1, ops + 2, 0b110011])
        p.template(T('a', S(' \n'), 'b', S('\n;'), 'c'))
        c.append(('look-unread', 'h_look', p.done()))
        for n in (1, 2):
            p = Params([2, 2, 63])
            p.template(n_of(FULL if n == 1 else X, n))
            c.append(('look-any%d' % n, 'h_look', p.done()))
    elif pid == 'L15':
        def name(l, t):
            p = Params([])
            p.template(t)
            c.append(('name-' + l, 'h_name', p.done()))
        name('any0', [])
        name('any1', T(FULL))
        name('any2', T(X, X))
        for n in range(2, 12):
            name('low%d' % n, T(n_of(LOW, n)))
        for w in CONTEXTUAL + RESERVED:
            for i in (range(len(w)) if deep else sorted({0, len(w) // 2, len(w) - 1})):
                name('near-%s-%d' % (w, i), T(w[:i], IDC, w[i + 1:]))
            name('more-' + w, T(w, IDC))
        for m in range(4):
            c.append(('atoms-%d' % m, 'h_atoms', [m]))
    elif pid == 'L16':
        def eq(l, kind, *ts):
            p = Params([kind, 0, 0, 0, 0])
            for i, t in enumerate(ts):
                p.p[1 + i] = p.template(t)
            c.append(('eq-' + l, 'h_eq', p.done()))
        f = S('gimuy')
        for i, j in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (2, 1)) + (((3, 3), (2, 3)) if deep else ()):
            eq('re-flags%d%d' % (i, j), 0, T('a'), T('a'), n_of(f, i), n_of(f, j))
        eq('re-flags-mix', 0, T('a'), T('a'), T('g', S('gim'), f), T(S('gim'), f, 'g'))
        eq('re-body', 0, n_of(X, 2), n_of(X, 2), T('g'), T('g'))
        eq('re-both', 0, T(S('ab')), T(S('abB')), T(S('gi')), T(S('gi')))
        for i, j in ((0, 0), (1, 1), (2, 2), (0, 1), (2, 1)):
            eq('str%d%d' % (i, j), 1, n_of(X, i), n_of(X, j), T('"a"'), T("'b'"))
        eq('str-src', 1, T('a'), T(S('ab')), n_of(X, 1), n_of(X, 1))
        eq('num', 2, T('1'), T(S('12')))
    elif pid == 'L17':
        def ctx(l, head, nhead, tail, ncmp, pol=2):
            p = Params([pol, nhead, ncmp, 0])
            p.template(T(head))
            p.p[3] = p.template(tail)
            c.append(('ctx-' + l, 'h_ctx', p.done()))
        heads = [('a', 1), ('if', 1), ('"s"', 1), ('0x1f', 1), ("\\u0061", 1), ('1.5e3', 1), ('a = b ;', 4), ('\n\n (', 1), ('/*\n*/ ;', 1),
                 ('x\n--', 2), ('get', 1), ('"\\\n"', 1), ('//c\n=>', 1), ('<!-- x\r\n}', 1), ('a\u2028++', 2), ('. . .', 3)]
        for i, (h, k) in enumerate(heads):
            for n in ((2, 3) if deep else (2,)):
                ctx('%d-n%d' % (i, n), h, k, n_of(X, n), n + 2, 2 if n < 3 else 1)
        # every kind of token after every kind of token: what a token leaves behind must not show in the next
        heads += [('\\u{62}c', 1), ('0b1', 1), ('017', 1), ('089', 1), ('.5', 1), ("'\\u{1F600}\\x41\\101'", 1), ('/*a*/ yield', 1), ('\n-->x\n)', 1),
                  ('null', 1), ('a.b.c', 5), ('1 2 3', 3), ('"" ""', 2), ('if (', 2), ('\u2028\u2029 {', 1)]
        g = S(' \n')
        tails = [T(g, 'if', S(' (')), T(g, 'get', X), T(g, 'x', IDC), T(g, '"\\x4', S('12g'), '\\\r\n"'), T(g, "'a", X, "'"), T(g, '0x1', S('Fg')), T(g, '01', S('79')),
                 T(g, '1', S('.e'), '5', S('e;'), '7'), T(g, '-->', X, '\n'), T('/*', S('\n*'), '*/-->', S('\nx')), T(g, '\\u006', S('12'), S('fg')), T('<!--', S('\nc'), '\ny'),
                 T(' ', '\\u{', S('06'), S('12'), '}'), T(g, '/*', S('*x')), T(' ', '>>>', S('=>')), T(g, 'yield', S(' ;')), T('\r', S('\na'), 'b'), T('//', S('x\n'), '\nlet')]
        for i, (h, k) in enumerate(heads):
            for j, t in enumerate(tails):
                ctx('%d-t%d' % (i, j), h, k, t, 5, 1)
            ctx('%d-re' % i, h, k, T(S(' \n'), '/[', S('/a'), ']', S('/\n'), S('/g'), 'i'), 4, 0)
        # the same again, spelled in another way
        again = [('of', ['of', '\\u006', HEX, 'f'], ['o\\u00', HEX, '6']), ('\\u006ff', ['of'], ['o', S('fn')]), ('if', ['if'], ['\\u006', HEX, 'f']), ('\\u0061b', ['ab'], ['a', S('bc')]),
                 ('"a"', ["'a'"], ['"\\x6', HEX, '"'], ['"', S('a\\'), 'a"']), ('1', ['1.0'], ['0x', HEX], ['1e', S('01')]), ('010', ['10'], ['0', S('o1'), S('10')]),
                 ('async', ['async'], ['\\u{6', HEX, '}sync']), ('let', ['l\\u00', HEX, '5t'], ['let'])]
        for i, w in enumerate(again):
            for j, t in enumerate(w[1:]):
                ctx('again%d-%d' % (i, j), w[0], 1, T(S(' \n'), *t), 3, 1)
                ctx('again%d-%d-2' % (i, j), w[0] + ' ' + w[0] + ' ;', 3, T(S(' \n'), *t), 3, 1)
        ctx('long', 'a;', 2, T(S(' \n/'), S('/*'), S('a*'), '*/', S('-\n'), '-->'), 6)
        ctx('sym-head', [S('(){}[];,~?:'), S(' \n\r')] + ['a'], 2, n_of(S('\n\r a-+/"'), 2), 4)
        ctx('words', 'a ', 1, T(S(' \n'), S('gi'), S('ef'), S('t '), S('\n '), '"', S('a\\'), 'n"'), 5)
        ctx('comment', T('x /*', S('\n\r*/ '), S('\n\r* '), '*/ y'), 2, T(X, X), 4)
    elif pid == 'L18':
        def num(l, shape, i=None, f=None, e=None, radix=0):
            p = Params([shape, 0, 0, 0, radix])
            for k, t in enumerate((i, f, e)):
                if t is not None:
                    p.p[1 + k] = p.template(t)
            c.append(('numsrc-' + l, 'h_numsrc', p.done()))
        for n in (1, 2, 6, 12):
            num('int%d' % n, 0, n_of(DIG, n))
        for n in (1, 2, 3):
            num('int-exp%d' % n, 0, n_of(DIG, 2), None, n_of(DIG, n))
        for i in (None, 0, 1, 3):
            for f in (None, 0, 1, 3):
                if (i or 0) + (f or 0) == 0:
                    continue
                num('float-%s-%s' % (i, f), 1, None if i is None else n_of(DIG, i), None if f is None else n_of(DIG, f))
                num('float-exp-%s-%s' % (i, f), 1, None if i is None else n_of(DIG, i), None if f is None else n_of(DIG, f), n_of(DIG, 2))
        # decimal rounding at its hardest: digits fixed, markers and signs free
        for k, (i, f, e) in enumerate((('9007199254740993', None, '2'), ('841', None, '21'), ('36028797018963969', None, '3'), ('1', None, '23'), ('9', None, '22'), ('5', None, '324'),
                                       ('17976931348623158', None, '292'), ('22250738585072011', None, '324'), ('123456789012345678901', None, '0'), ('3', None, '1'), ('7', None, '2'),
                                       ('0', '1', None), ('0', '3', '1'), ('1', '005', '3'), ('8', '41', '21'), ('9007199254740992', '5', None), ('9007199254740993', '0', '1'),
                                       (None, '000001', '6'), ('1', '7976931348623159', '308'), ('2', '2250738585072014', '308'), ('4', '35', '0002'), ('0', '30000000000000004', '17'),
                                       ('123456', '789012345678901234567', '5'), ('5', '', '1'), ('00012', '50', '22'), ('1', None, '0400'), ('0', None, '999999999999'))):
            num('hard%d' % k, 0 if f is None else 1, None if i is None else T(i), None if f is None else T(f), None if e is None else T(e))
        for l, r, b, ns in (('bin', 0, BIN, (1, 2, 8)), ('oct', 1, OCT, (1, 2, 4)), ('leg', 2, OCT, (1, 2, 4)), ('hex', 3, HEX, (1, 2))):
            for n in ns:
                num('%s%d' % (l, n), 2, n_of(b, n), radix=r)
        for l, r, t in long_radix(deep):
            num(l, 2, t, radix=r)
    elif pid == 'L19':
        b = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'unicode_bounds.json')))
        pairs = lambda k: tuple((lo, hi) for lo, hi in b[k])
        def cls(l, mode, s):
            p = Params([mode])
            p.template([s])
            c.append(('class-' + l, 'h_class', p.done()))
        ascii_ = ((0, 127),)
        cls('start', 0, pairs('start_lo'))
        cls('not-start', 1, minus(pairs('start_hi'), ascii_, ALLWS, NL))
        cls('continue', 2, pairs('cont_lo'))
        cls('not-continue', 3, minus(pairs('cont_hi'), S('\\')))
        cls('white-space', 4, ALLWS)
        cls('newline', 5, NL)
        cls('separates', 6, S(ALLWS, NL))
    elif pid == 'T01':
        c.append(('span', 'h_span', []))
    elif pid in ('J01', 'J02', 'J03', 'J04'):
        for w in range(8):
            c.append(('json-%d' % w, 'h_json', [int(pid[2]), w]))
    return c

# ---------------------------------------------------------------- what each property's check claims
LEXB = 'source texts: every text of length 0..2 over all Unicode scalar values and of length 3 (thorough: 4) over the lexically relevant alphabet X (lib/templates.py), plus the listed templates (fixed characters with symbolic positions) that reach every construct up to 24 characters; both slash contexts; loops run to the end of the input, no unrolling limit'
LEXO = 'longer texts that are not instances of a template; escapes of lone surrogates or above U+10FFFF in strings (the value is left open)'
NAMEB = 'names of length 0..2 over the alphabet X / all code points, lower-case names of length 2..11, every contextual and reserved word with one position replaced by any identifier character or one appended'
JSONB = 'objects holding any subset of the four fields "a", "ab", "b", "" with the accessed field holding any JSON value: null, both booleans, every i64/u64/f64 bit pattern, strings, arrays and objects up to depth 2; every wanted type, plain and optional'
JSONO = 'values nested deeper, other field names (BTreeMap lookup is generic in the key)'
PARB = 'source texts: the templates of lib/par_cases.py for this property: %s; positions hold any character of a set or any spelling of a list, all combinations decided; texts up to about 60 characters, executed to the end without unrolling limit'
PARO = 'texts that are no instance of a template; %s. Not claimed, with the reason in DESIGN.md: syntax the parser announces as unsupported (arrow functions, classes, import/export, templates, destructuring bindings, defaults, computed keys), early errors about redeclaration, duplicate labels and parameters, retroactive strictness, legacy octal in strict code'
E = ['6esprit', '6easter', '5joker']
EE = ['6estree', '6unjson', '6easter']
J = ['5joker']
U = ['6unjson']
def P(group, reach, bounds, outside, crates, **kw):
    return dict(group=group, reach=reach, bounds=bounds, outside=outside, crates=crates, **kw)
PROPS = {
    'L01': P('lex', [0, 1], LEXB, LEXO, J),
    'L02': P('lex', [0, 1, 2], LEXB, LEXO, J),
    'L03': P('lex', [0, 1, 2], LEXB, LEXO, J),
    'L04': P('lex', [0, 2, 3], LEXB, LEXO, J),
    'L05': P('lex', [2], LEXB, LEXO, J),
    'L06': P('lex', [1, 2], LEXB, LEXO, J),
    'L07': P('lex', [2], 'numeric literals of the listed templates: decimal up to 3 symbolic characters after a digit (thorough: 4), fractions, exponents, 12-digit decimals, radix literals up to 70 bits symbolic where rounding is decided', LEXO + '; the decimal-to-double conversion of the standard library itself (modelled, see assumptions)', J),
    'L08': P('lex', [1, 2], LEXB, LEXO, J),
    'L09': P('lex', [2, 3, 4], LEXB + '; all lower-case words of length 1..11', LEXO, J),
    'L10': P('lex', [1, 2], 'identifier escapes: every \\uXXXX at the start and inside a word, \\u{...} with up to ten digits, every malformed escape of up to 3 characters over X, every reserved and contextual word with one letter escaped', LEXO, J),
    'L11': P('lex', [1, 2], LEXB, LEXO + '; escapes inside regular expression flags', J),
    'L12': P('lex', [0, 1, 2], LEXB, LEXO, J),
    'L13': P('lex', list(range(10)), 'every sequence of up to 4 (thorough: 5) read/peek/skip/repeek/reread/unread operations (repeek and reread only when a token waits, at most two waiting), then the rest of the input, over the listed symbolic texts', 'longer operation sequences; more than two waiting tokens', J),
    'L14': P('lex', [1] + [16 + i for i in (1, 2, 4, 5, 6, 7)], LEXB, LEXO, J),
    'L15': P('lex', [0, 1], NAMEB, 'longer names', J),
    'L16': P('lex', [0, 1], 'regular expression flag multisets up to 3 over g,i,m,u,y, bodies and strings up to 2 characters over X, all pairs of doubles', 'longer texts', J),
    'L17': P('lex', [0, 2, 3], '16 fixed heads of one to four tokens, 3 symbolic ones, each followed by every text of two (thorough: three) characters over X or a listed template; nine words and literals after themselves spelled in another way', 'longer tails', J),
    'L18': P('lex', [0], 'integers of up to 12 digits, fractions and integer parts of up to 3 digits, exponents of up to 3 digits with any sign, radix digits up to 70 bits symbolic where rounding is decided', 'longer digit strings', J),
    'L19': P('lex', [0], 'every Unicode scalar value, one at a time', 'code points whose identifier status changed between Unicode 3.2 and 15.0', J,
             assumptions=['the Unicode data of Python (unicodedata.ucd_3_2_0 and the 15.0 tables) from which lib/unicode_bounds.json was generated']),
    'T01': P('lex', [0], 'every pair of positions (all 32-bit lines, columns and offsets)', 'untracking of values deeper than the nesting built by the harness', J),
    'P01': P('par', [0, 1], PARB % 'every text of one character over all scalar values and of two (thorough: three) over X, 39 programs cut or changed at a position by any character of X, all pairs (thorough: triples) of 64 tokens, the templates of P04, P07, P08 and P13; script, strict, module and program entry points', 'longer arbitrary texts', E),
    'P02': P('par', [0, 1], PARB % 'chains of up to six binary operators of all levels with any prefix and postfix operators, conditionals, assignments, commas, parentheses, for headers, and five operators in each of 23 places that take an expression within nine constructs', 'longer chains', E),
    'P03': P('par', [0, 1], PARB % 'up to four suffixes, up to three new, arrays of up to four elements, objects of up to two (thorough: three) properties, function expressions', 'larger literals', E),
    'P04': P('par', [0, 1], PARB % 'two (thorough: three) statements of any kind in sequence, each statement form with every optional part present or cut', 'longer statement lists, deeper nesting', E),
    'P05': P('par', [0, 1, 18], PARB % '39 statement ends, each with any gap and 20 continuations; comments, postfix operators, restricted productions', 'other statements before the gap', E),
    'P06': P('par', [0, 1, 19], PARB % '23 enclosing constructs in pairs, labels in front of each, 8 jumps inside and after; up to three labels and jumps after the construct has ended', 'deeper nesting', E),
    'P07': P('par', [0, 1, 20], PARB % '30 target expressions with every assigning construct, patterns of up to three elements nested up to three deep', 'larger patterns', E),
    'P08': P('par', [0, 1, 17], PARB % '21 words in 41 positions, in script, strict and function code (thorough: modules); 16 directive spellings, symbolic ones, and 18 continuations on the next line', 'other words', E),
    'P09': P('par', [0, 1], PARB % 'words, functions, with statements, directives, jumps and labels, for all three goals', 'other texts', E),
    'P10': P('par', [0, 1, 21], PARB % '140 preceding constructs, each followed by any of the slash continuations', 'other preceding constructs', E),
    'P11': P('par', [0, 18], PARB % '%d programs that hold every construct, with a space, a newline, a comment with a newline or a line comment around every token in turn, the programs of E01 with symbolic gaps at both ends, and the templates of P02, P03, P04, P05 and P07' % 76, 'locations of operands and pairs that end in a parenthesis (kept or dropped by convention), of the whole script, and of function bodies', E),
    'P12': P('par', [0, 1, 2], PARB % 'all pairs (thorough: triples) of 64 tokens, sequences of three to five of the 17 commonest, every text of two (thorough: three) characters over X, and X inside calls, blocks, literals; every word in eight places with seven continuations and in pairs', 'longer sequences', E),
    'P13': P('par', [1, 3], PARB % 'each rule broken at one place in up to eight surroundings', 'texts that break several rules', E),
    'P14': P('par', [1, 3], PARB % 'the templates of P03 to P08, P12 and P13 (quick: without some of P06 and P12)', 'lexical errors (they carry no location), invalid targets that begin with a parenthesis, a reserved word on its own in an object literal, programs whose goal is set later', E),
    'E01': P('par', [0], 'the ESTree form of every program of the templates of lib/par_cases.py: 34 fixed programs that hold every node the reader knows, and templates over all operators, parenthesised operands of every kind, literals, properties, patterns, functions, declarations, for heads, jumps and switches; numbers written as JSON floats, unsigned and signed integers', 'ArrayPattern and ObjectPattern nodes (assignment patterns are given in the expression form the reader takes); absent instead of null optional parts; deeper nesting', EE),
    'E02': P('par', [0], 'the same 34 programs, every node among the first 100, every one of its parts, each in turn absent, null, true, 7, a word, an object without a type, a node of an unknown type, an empty list, lists with a number, with null, with an empty list, with an untyped object, an expression, a statement, a declaration of each kind, lists of these, a declaration with an initial value, a list with its first item twice, and the words of new.target exchanged (25 in all)', 'two malformed parts at once; optional parts absent instead of null; parts the tree does not depend on (the value of a shorthand, the name of a method function, the type where only one can stand)', EE),
    'R01': P('par', [0, 2], PARB % 'the 34 programs of E01, which hold every node kind, templates over optional parts and operators, and the programs of P01; script, strict, module and program entry points', 'larger trees (removal is recursive in the structure)', E + ['6derive']),
    'R02': P('par', [0, 1], 'every string of up to three characters over the operator characters, every spelling with one position replaced by any character of X or with one appended, for each of the four operator classes; every pair of operators for precedence', 'strings that differ from every spelling in two positions and have four or more characters', ['6easter']),
    'J01': P('lex', [2, 3, 5], JSONB, JSONO, U),
    'J02': P('lex', [2, 3, 4, 5], JSONB, JSONO, U),
    'J03': P('lex', [0, 1], JSONB, JSONO, U),
    'J04': P('lex', [3, 5], JSONB, JSONO, U),
}
TEMPLATE_AT = {
    'h_lex': lambda p: [3],
    'h_look': lambda p: [3],
    'h_ctx': lambda p: [4, p[3]],
    'h_name': lambda p: [0],
    'h_class': lambda p: [1],
    'h_par': lambda p: [2],
    'h_est': lambda p: [3],
    'h_mal': lambda p: [3],
    'h_ops': lambda p: [2],
}
ASSUMPTIONS = [
    'rustc, LLVM optimisation passes and z3 are correct; the engine in /verif/engine implements LLVM IR semantics (a sample of completed paths is executed natively in two build profiles and must agree)',
    'memory allocation never fails and each allocation is a separate object',
    '<f64 as FromStr>::from_str follows its documented grammar and rounds correctly; on symbolic digits its value is exact for integers below 2^53 and an uninterpreted function of (digits, exponent) otherwise',
]

NOT_APPLICABLE = {}

"""Regular expressions over strings with symbolic characters (tests on characters split cases)."""
import re
from re import _constants as K
from re import _parser as P

from . import strs

DIGIT = frozenset(range(48, 58))
SPACE = frozenset((9, 10, 11, 12, 13, 32))
WORD = frozenset(c for c in range(128) if chr(c).isalnum() or c == 95)
CATS = {K.CATEGORY_DIGIT: (DIGIT, True), K.CATEGORY_NOT_DIGIT: (DIGIT, False), K.CATEGORY_SPACE: (SPACE, True),
        K.CATEGORY_NOT_SPACE: (SPACE, False), K.CATEGORY_WORD: (WORD, True), K.CATEGORY_NOT_WORD: (WORD, False)}
ALL = frozenset(range(128))


class Unsupported(Exception):
    pass


def cset(items, flags):
    """Set of code points below 128, and whether others match."""
    neg, out, other = False, frozenset(), False
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            out |= {av}
        elif op is K.RANGE:
            out |= frozenset(range(av[0], min(av[1], 127) + 1))
        elif op is K.CATEGORY:
            s, pos = CATS[av]
            out |= s if pos else ALL - s
            other = other or not pos
        else:
            raise Unsupported(str(op))
    if flags & re.IGNORECASE:
        out |= frozenset(ord(chr(c).swapcase()) for c in out)
    return (ALL - out, not other) if neg else (out, other)


def char_in(c, s):
    codes, other = s
    if strs.reg().get(c) is None:
        return ord(c) in codes if ord(c) < 128 else other
    return strs.test(c, codes)


class M:
    def __init__(self, pat, s, groups):
        self.re, self.string, self._g = pat, s, groups

    def span(self, g=0):
        g = self.re.groupindex.get(g, g)
        return self._g.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def group(self, *gs):
        if len(gs) > 1:
            return tuple(self.group(g) for g in gs)
        a, b = self.span(gs[0] if gs else 0)
        return None if a < 0 else self.string[a:b]

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        return tuple(self.group(i) if self.start(i) >= 0 else default for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self.group(k) if self.start(k) >= 0 else default for k in self.re.groupindex}


def run(nodes, i, s, g, flags, k):
    """Match nodes from position i, then continue with k(position, groups)."""
    if not nodes:
        return k(i, g)
    (op, av), rest = nodes[0], nodes[1:]

    def nxt(j, gg):
        return run(rest, j, s, gg, flags, k)

    if op is K.LITERAL:
        return nxt(i + 1, g) if i < len(s) and char_in(s[i], cset([(op, av)], flags)) else None
    if op is K.NOT_LITERAL:
        return nxt(i + 1, g) if i < len(s) and char_in(s[i], cset([(K.NEGATE, None), (K.LITERAL, av)], flags)) else None
    if op is K.ANY:
        return nxt(i + 1, g) if i < len(s) and (flags & re.DOTALL or char_in(s[i], (ALL - {10}, True))) else None
    if op is K.IN:
        return nxt(i + 1, g) if i < len(s) and char_in(s[i], cset(av, flags)) else None
    if op is K.SUBPATTERN:
        n, add, dele, sub = av

        def close(j, gg):
            return nxt(j, dict(gg, **{}) if n is None else {**gg, n: (i, j)})

        return run(list(sub), i, s, g, (flags | add) & ~dele, close)
    if op is K.BRANCH:
        for alt in av[1]:
            r = run(list(alt), i, s, g, flags, nxt)
            if r is not None:
                return r
        return None
    if op in (K.MAX_REPEAT, K.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)
        if op is K.MAX_REPEAT and len(sub) == 1 and sub[0][0] in (K.IN, K.LITERAL, K.ANY, K.NOT_LITERAL):
            # single characters: how many match is decided once
            j = i
            while j < len(s) and (hi is K.MAXREPEAT or j - i < hi) and run(sub, j, s, g, flags, lambda a, b: True):
                j += 1
            while j - i >= lo:
                r = nxt(j, g)
                if r is not None:
                    return r
                j -= 1
            return None

        def rep(n, j, gg):
            def more():
                if hi is not K.MAXREPEAT and n >= hi:
                    return None
                return run(sub, j, s, gg, flags, lambda jj, g2: None if jj == j and n >= lo else rep(n + 1, jj, g2))

            if n < lo:
                return more()
            if op is K.MAX_REPEAT:
                r = more()
                return r if r is not None else nxt(j, gg)
            r = nxt(j, gg)
            return r if r is not None else more()

        return rep(0, i, g)
    if op in (K.ASSERT, K.ASSERT_NOT):
        d, sub = av
        if d > 0:
            ok = run(list(sub), i, s, g, flags, lambda a, b: True)
        else:
            lo, hi = sub.getwidth()
            if lo != hi:
                raise Unsupported("lookbehind")
            ok = i >= lo and run(list(sub), i - lo, s, g, flags, lambda a, b: True if a == i else None)
        return nxt(i, g) if bool(ok) == (op is K.ASSERT) else None
    if op is K.AT:
        if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            ok = i == 0 or (av is K.AT_BEGINNING and flags & re.MULTILINE and char_in(s[i - 1], ({10}, False)))
        elif av is K.AT_END_STRING:
            ok = i == len(s)
        elif av is K.AT_END:
            ok = i == len(s) or (i == len(s) - 1 and char_in(s[i], ({10}, False))) or (
                flags & re.MULTILINE and char_in(s[i], ({10}, False)))
        elif av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            a = i > 0 and char_in(s[i - 1], (WORD, False))
            b = i < len(s) and char_in(s[i], (WORD, False))
            ok = (a != b) == (av is K.AT_BOUNDARY)
        else:
            raise Unsupported(str(av))
        return nxt(i, g) if ok else None
    if op is K.GROUPREF:
        a, b = g.get(av, (-1, -1))
        if a < 0:
            return None
        n = b - a
        return nxt(i + n, g) if i + n <= len(s) and strs.eq(s[i:i + n], s[a:b]) else None
    raise Unsupported(str(op))


def parsed(pat):
    return list(P.parse(pat.pattern, pat.flags & ~re.UNICODE))


def at(pat, nodes, s, i, full=False):
    def done(j, g):
        return (j, g) if not full or j == len(s) else None

    r = run(nodes, i, s, {}, pat.flags, done)
    return None if r is None else M(pat, s, {**r[1], 0: (i, r[0])})


def finditer(pat, s):
    nodes, i = parsed(pat), 0
    while i <= len(s):
        m = at(pat, nodes, s, i)
        if m is None:
            i += 1
            continue
        yield m
        i = m.end() if m.end() > m.start() else m.end() + 1


def apply(name, pat, args, kw):
    """re.Pattern.<name>(*args) for strings with symbolic characters."""
    args = list(args)
    if name == "sub":
        repl, s = args[0], args[1] if len(args) > 1 else kw["string"]
        count = args[2] if len(args) > 2 else kw.get("count", 0)
    else:
        s = args[0] if args else kw["string"]
    s = strs.resolve(s)
    if strs.has_opaque(s) or any(len(a) > 0 for a in [args[3 if name == "sub" else 2 if name == "split" else 1:]]):
        raise Unsupported("arguments")
    if name in ("match", "fullmatch"):
        return at(pat, parsed(pat), s, 0, name == "fullmatch")
    it = finditer(pat, s)
    if name == "search":
        return next(it, None)
    if name == "finditer":
        return it
    if name == "findall":
        return [m.group() if not pat.groups else (m.group(1) or "") if pat.groups == 1 else m.groups("") for m in it]
    if name == "split":
        most = args[1] if len(args) > 1 else kw.get("maxsplit", 0)
        out, p = [], 0
        for n, m in enumerate(it):
            if most and n >= most:
                break
            out += [s[p:m.start()]] + list(m.groups())
            p = m.end()
        return out + [s[p:]]
    if name == "sub":
        out, p = [], 0
        for n, m in enumerate(it):
            if count and n >= count:
                break
            out.append(s[p:m.start()])
            if callable(repl):
                out.append(repl(m))
            else:
                k = 0
                while k < len(repl):
                    x = re.match(r"\\(\d)|\\g<(\w+)>|\\(.)", repl[k:])
                    if x is None:
                        out.append(repl[k])
                        k += 1
                        continue
                    if x.group(3):
                        out.append({"n": "\n", "t": "\t", "\\": "\\"}.get(x.group(3)) or _no("escape"))
                    else:
                        ref = x.group(1) or x.group(2)
                        out.append(m.group(int(ref) if ref.isdigit() else ref) or "")
                    k += len(x.group())
            p = m.end()
        return "".join(out + [s[p:]])
    raise Unsupported(name)


def _no(why):
    raise Unsupported(why)

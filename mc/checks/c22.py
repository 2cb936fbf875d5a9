"""Template programs."""
import itertools

from interpolation import tempita

PROPERTY = "C22"
RULE = (
    "every sequence of tokens up to the length bound over an alphabet of text, expressions, filtered "
    "expressions, assignments, defaults, comments, for (one and two variables, with the position helper), endfor, "
    "if, elif, else, endif, break, continue; inline (everything on one line) and one token per line with three "
    "kinds of indentation; each accepted template is rendered with two sets of variables and again with the "
    "first. Expected: an independent parser says whether the sequence is well formed, an independent interpreter "
    "what it renders. All texts without directives over a set of special characters; the position helper for all sequences over three items. Bounds: length 3 over the whole alphabet, 4 over the "
    "control alphabet, all well-formed programs of length 5, 6 over a reduced one (quick); 5, 5 and 7 (thorough). nontrivial: accepted programs with "
    "at least one directive"
)
ASSUMPTIONS = [
    "sequences with a second else, or an elif after the else, of one if are left out (the engine accepts them by design)",
    "templates without blank lines next to directive-only lines",
]

# name -> source, kind
TOK = {
    "a": ("a", "text"),
    "t": ("b c", "text"),
    "x": ("{{x}}", "expr"),
    "i": ("{{i}}", "expr"),
    "n": ("{{none}}", "expr"),
    "f": ("{{x|twice|str}}", "expr"),
    "p": ("{{py:x = x + 1}}", "py"),
    "d": ("{{default w = 7}}", "default"),
    "w": ("{{w}}", "expr"),
    "#": ("{{# note}}", "comment"),
    "F": ("{{for i in [x, 5]}}", "for"),
    "E": ("{{for i in []:}}", "for"),
    "G": ("{{for i, j in pairs}}", "for"),
    "L": ("{{for l, i in looper('uvw')}}", "for"),
    "}": ("{{endfor}}", "endfor"),
    "I": ("{{if x > 1}}", "if"),
    "J": ("{{if i == 5:}}", "if"),
    "K": ("{{elif x == 1}}", "elif"),
    "e": ("{{else}}", "else"),
    "]": ("{{endif}}", "endif"),
    "b": ("{{break}}", "break"),
    "c": ("{{continue}}", "continue"),
    # longer loops, tests that depend on the iteration
    "R": ("{{for k in range(4)}}", "for"),
    "S": ("{{for m in xs}}", "for"),
    "k": ("{{k}}", "expr"),
    "m": ("{{m}}", "expr"),
    "Q": ("{{if k == 2}}", "if"),
    "P": ("{{if m != 'v' and k}}", "if"),
    # broken ones
    "1": ("{{if}}", "bad"),
    "2": ("{{for}}", "bad"),
    "3": ("{{for i}}", "bad"),
    "4": ("{{for (i, j) in pairs}}", "bad"),
    "5": ("{{default w}}", "bad"),
    "6": ("{{", "bad"),
    "7": ("}}", "bad"),
    "8": ("{{x{{", "bad"),
    "9": ("{{elif}}", "bad"),
}
TRIM = {"py", "default", "for", "endfor", "if", "elif", "else", "endif", "break", "continue"}


class Malformed(Exception):
    pass


class OutOfDomain(Exception):
    pass


def parse(toks):
    """Independent recursive-descent parser over [(name, text)]; text tokens stand for themselves."""
    pos = 0

    def block(inloop, stop):
        nonlocal pos
        out = []
        while pos < len(toks):
            name, lit = toks[pos]
            kind = "text" if name is None else TOK[name][1]
            if kind in stop:
                return out
            pos += 1
            if kind in ("endfor", "endif", "elif", "else", "bad"):
                raise Malformed
            if kind in ("break", "continue") and not inloop:
                raise Malformed
            if kind == "for":
                body = block(True, ("endfor",))
                if pos >= len(toks):
                    raise Malformed
                pos += 1
                out.append(("for", name, body))
            elif kind == "if":
                arms = [(name, block(inloop, ("elif", "else", "endif")))]
                done = False
                while True:
                    if pos >= len(toks):
                        raise Malformed
                    n2 = toks[pos][0]
                    k2 = TOK[n2][1]
                    pos += 1
                    if k2 == "endif":
                        break
                    if done:
                        raise OutOfDomain
                    done = k2 == "else"
                    arms.append((n2, block(inloop, ("elif", "else", "endif"))))
                out.append(("if", arms))
            else:
                out.append((kind, name, lit))
        if stop:
            raise Malformed
        return out

    return block(False, ())


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Pos:
    def __init__(self, k, n):
        self.k, self.n = k, n


def run(ast, ns, out):
    for node in ast:
        k = node[0]
        if k == "text":
            out.append(node[2])
        elif k == "expr":
            n = node[1]
            if n == "f":
                out.append(str(2 * ns["x"]))
            else:
                v = ns[{"n": "none"}.get(n, n)]
                out.append("" if v is None else str(v))
        elif k == "py":
            ns["x"] += 1
        elif k == "default":
            ns.setdefault("w", 7)
        elif k == "comment":
            pass
        elif k == "break":
            raise Brk
        elif k == "continue":
            raise Cnt
        elif k == "for":
            items = {"F": lambda: [(ns["x"],), (5,)], "E": lambda: [], "G": lambda: [(8, 9), (5, 4)], "L": lambda: [(Pos(q, 3), s) for q, s in enumerate("uvw")], "R": lambda: [(q,) for q in range(4)], "S": lambda: [(q,) for q in "uvw"]}[node[1]]()
            names = {"F": ("i",), "E": ("i",), "G": ("i", "j"), "L": ("l", "i"), "R": ("k",), "S": ("m",)}[node[1]]
            for it in items:
                for nm, v in zip(names, it):
                    ns[nm] = v
                try:
                    run(node[2], ns, out)
                except Brk:
                    break
                except Cnt:
                    continue
        elif k == "if":
            for n, body in node[1]:
                if n == "e" or (n == "I" and ns["x"] > 1) or (n == "J" and ns["i"] == 5) or (n == "K" and ns["x"] == 1) or (n == "Q" and ns["k"] == 2) or (n == "P" and ns["m"] != "v" and ns["k"]):
                    run(body, ns, out)
                    break


NS = [dict(x=1, i=0, k=2, m="", xs="uvw", pairs=[(8, 9), (5, 4)]), dict(x=2, i=5, k=0, m="v", xs=list("uvw"), pairs=[(8, 9), (5, 4)], w="W")]


def twice(v):
    return 2 * v


LAYOUTS = ["inline", "lines", "indented", "trailing"]


def layout(seq, how):
    """Source text and the tokens left once directive-only lines are removed."""
    if how == "inline":
        src = "<" + "".join(TOK[t][0] for t in seq) + ">"
        return src, [(None, "<")] + [(t, TOK[t][0]) for t in seq] + [(None, ">")]
    src, toks, depth = "", [], 0
    last = len(seq) - 1
    for k, t in enumerate(seq):
        text, kind = TOK[t]
        if kind in ("endfor", "endif", "elif", "else"):
            depth = max(0, depth - 1)
        pad = "" if how == "lines" else " " * (2 * depth + (1 if how == "trailing" else 0))
        tail = "\n" if how != "trailing" else (" \t\n" if k < last else "  ")
        src += pad + text + tail
        if kind in TRIM:
            toks.append((t, text))
        else:
            toks += [(None, pad), (t, text), (None, tail)]
        if kind in ("for", "if", "elif", "else"):
            depth += 1
    return src, toks


def one(rec, seq):
    if sum(t in "678" for t in seq) > 1:
        return True  # stray braces may complete each other
    rec.states += 1
    for how in LAYOUTS:
        src, toks = layout(seq, how)
        try:
            ast = parse(toks)
        except Malformed:
            ast = None
        except OutOfDomain:
            rec.counters["left out"] += 1
            return True
        rec.transitions += 1
        try:
            T = tempita.Template(src)
        except tempita.TemplateError:
            T = None
        if (T is None) != (ast is None):
            rec.violate(f"template {src!r} {'refused' if T is None else 'accepted'}", key="refused" if T is None else "accepted")
            return False
        if T is None:
            rec.outcome("refused")
            rec.traces += 1
            continue
        rec.nontrivial += any(TOK[t][1] not in ("text", "expr") for t in seq)
        for ns in (NS[0], NS[1], NS[0]):
            env = dict(ns, none=None)
            exp = []
            try:
                run(ast, env, exp)
                exp = "".join(exp)
            except KeyError:
                exp = None  # an undefined variable is reached
            try:
                obs = T.substitute(dict(ns, none=None, twice=twice))
            except Exception:
                obs = None
            rec.traces += 1
            if obs != exp:
                rec.violate(f"template {src!r} with {ns} renders {obs!r}, expected {exp!r}", key="render")
                return False
            rec.outcome(exp)
        if how == "inline":
            obs = tempita.sub(src, **NS[0], none=None, twice=twice) if exp is not None else exp
            if obs != exp:
                rec.violate(f"sub({src!r}) renders {obs!r}, expected {exp!r}", key="sub")
                return False
    return True


def sequences(rec, head, alphabet, length):
    for rest in itertools.product(alphabet, repeat=length - len(head)):
        if not one(rec, head + "".join(rest)):
            return
    rec.sample(dict(source=layout(head + "".join(rest), "indented")[0]))


def grammar(rec, head, length, alphabet="axpFGIJKe}]bc"):
    """Well-formed and nearly well-formed programs only: prefixes that cannot be completed are cut."""

    def feasible(seq):
        stack = []
        for t in seq:
            k = TOK[t][1]
            if k in ("for", "if"):
                stack.append(k)
            elif k == "endfor":
                if not stack or stack.pop() != "for":
                    return False
            elif k == "endif":
                if not stack or stack.pop() not in ("if", "else"):
                    return False
            elif k == "elif":
                if not stack or stack[-1] != "if":
                    return False
            elif k == "else":
                if not stack or stack[-1] != "if":
                    return False
                stack[-1] = "else"
            elif k in ("break", "continue") and "for" not in stack:
                return False
        return len(stack) <= length - len(seq)

    def closed(seq):
        o = sum(TOK[t][1] in ("for", "if") for t in seq)
        c = sum(TOK[t][1] in ("endfor", "endif") for t in seq)
        return o == c

    def walk(seq):
        if not feasible(seq):
            return True
        if len(seq) == length:
            return not closed(seq) or one(rec, seq)
        return all(walk(seq + t) for t in alphabet)

    walk(head)
    rec.sample(dict(grammar=head, length=length))


def texts(rec, head, length):
    """Text without directives is rendered as it is; text around an expression too."""
    for n in range(length + 1):
        for t in itertools.product("{}a \n\t#|%$\\'\u00e9", repeat=n):
            t = head + "".join(t)
            rec.states += 1
            if "{{" in t or "}}" in t:
                continue
            rec.transitions += 1
            rec.traces += 1
            obs = tempita.Template(t).substitute({})
            rec.outcome(obs)
            if obs != t:
                rec.violate(f"text {t!r} renders {obs!r}", key="text")
                return
            if t[-1:] == "{" or t[:1] == "}":
                continue
            rec.nontrivial += 1
            for src, exp in (("{{1 + 1}}" + t, "2" + t), (t + "{{x}}", t + "7"), (t + "{{x}}" + t, t + "7" + t)):
                obs = tempita.Template(src).substitute(x=7)
                rec.traces += 1
                if obs != exp:
                    rec.violate(f"template {src!r} renders {obs!r}", key="text")
                    return
    rec.sample(dict(text=t))


def positions(rec, length):
    """The position helper of loops, for every sequence over three items."""
    from interpolation.tempita import looper

    class Item(str):
        @property
        def low(self):
            return self.lower()

        def up(self):
            return self.upper()

    for n in range(length + 1):
        for seq in itertools.product("aAb", repeat=n):
            items = [Item(c) for c in seq]
            src = "".join(
                "{{for l, i in looper(s)}}%s;{{endfor}}" % e
                for e in (
                    "{{l.index}},{{l.number}},{{l.item}},{{l.length}},{{i}}",
                    "{{l.previous}},{{l.__next__}}",
                    "{{if l.first}}F{{endif}}{{if l.last}}L{{endif}}{{if l.odd}}o{{endif}}{{if l.even}}e{{endif}}",
                    "{{if l.first_group()}}g{{endif}}{{if l.last_group()}}h{{endif}}",
                    "{{if l.first_group('.low')}}g{{endif}}{{if l.last_group('.low')}}h{{endif}}",
                    "{{if l.first_group('.up()')}}g{{endif}}{{if l.last_group('.up()')}}h{{endif}}",
                    "{{if l.first_group(low)}}g{{endif}}{{if l.last_group(low)}}h{{endif}}",
                    "{{if l.first_group(0)}}g{{endif}}{{if l.last_group(0)}}h{{endif}}",
                )
            )
            low = [c.lower() for c in seq]
            out = ["%d,%d,%s,%d,%s;" % (k, k + 1, c, n, c) for k, c in enumerate(seq)]
            # None renders as nothing
            out += ["%s,%s;" % (seq[k - 1] if k else "", seq[k + 1] if k + 1 < n else "") for k in range(n)]
            out += [("F" if k == 0 else "") + ("L" if k == n - 1 else "") + ("e" if k % 2 else "o") + ";" for k in range(n)]
            for key in (seq, low, low, low, seq):
                out += [("g" if k == 0 or key[k] != key[k - 1] else "") + ("h" if k == n - 1 or key[k] != key[k + 1] else "") + ";" for k in range(n)]
            for given in (items, tuple(items), iter(items)):
                if given.__class__ is not list and given.__class__ is not tuple:
                    k = 1
                    obs = tempita.Template(src.split("{{endfor}}")[0] + "{{endfor}}").substitute(s=given, looper=looper)
                    exp = "".join(out[:n])
                else:
                    obs = tempita.Template(src).substitute(s=given, looper=looper, low=str.lower)
                    exp = "".join(out)
                rec.states += 1
                rec.nontrivial += n > 0
                rec.transitions += n
                rec.traces += 1
                rec.outcome(obs)
                if obs != exp:
                    rec.violate(f"positions in {seq}: {obs!r}, expected {exp!r}", key="positions")
                    return
    rec.sample(dict(length=length))


def tasks(tier):
    big = tier == "thorough"
    alpha = "".join(TOK)
    T = []
    T.append((5, "positions", dict(length=7 if big else 5)))
    for h in ("", "{", "}", "a", "\n"):
        T.append((5, "texts", dict(head=h, length=5 if big else 3)))
    for n in (0, 1, 2):
        T.append((1, "sequences", dict(head="", alphabet=alpha, length=n)))
    for h in alpha:
        T.append((2, "sequences", dict(head=h, alphabet=alpha, length=3)))
        T.append((20, "sequences", dict(head=h, alphabet=alpha if big else "axpFGLIJKe}]bcd", length=4)))
        if big:
            for h2 in alpha:
                T.append((60, "sequences", dict(head=h + h2, alphabet=alpha, length=5)))
    for h in itertools.product("axpFGIJ", "axpFGIJKe}]bc"):
        for n in (5, 6) if not big else (5, 6, 7):
            T.append((10 * n, "grammar", dict(head="".join(h), length=n)))
    # nested loops: every program over two loops, tests on the iteration, break and continue
    for h in itertools.product("RS", "RSQPkbc", "RSQPkbc}]e"):
        for n in (7, 8, 9) if not big else (7, 8, 9, 10):
            T.append((10 * n, "grammar", dict(head="".join(h), length=n, alphabet="RSQPk}]bce" if n < 8 + big else "RSQk}]bce" if n < 9 + big else "RSQk}]bc" if n < 9 or big else "RQk}]b")))
    return T

"""Renamed parameters and local variables.  Contracts and hints speak of them by name; where a function
was only renamed in, the names follow.  proof/names.json holds each function's tokens as they were when its
contract was written: it tells which name stood where, and nothing else is taken from it."""

import copy
import difflib
import json
import os
import re

KEYWORDS = set("""as break const continue crate else enum false fn for if impl in let loop match mod move mut pub ref return self Self
static struct super trait true type unsafe use where while dyn""".split())


def tokens(fn):
    out = []
    for p in fn.params:
        out += list(p) + [None]
    return [("," if t is None else t.s, t is not None and t.kind == "id") for t in out + list(fn.whole)]


def load(proof):
    p = os.path.join(proof, "names.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def local(words):
    """Names that stand as variables do: after no `.`, before no `(`, `::` or `!`."""
    return {w for i, w in enumerate(words) if re.match(r"[a-z_]\w*$", w) and w not in KEYWORDS
            and (i == 0 or words[i - 1] not in (".", "::", "fn")) and (i + 1 >= len(words) or words[i + 1] not in ("(", "::", "!"))}


def renamed(base, fn):
    """{old name: new name} from the tokens as they were and as they are."""
    was = base.split(" ")
    now = [s for s, _ in tokens(fn)]
    if was == now:
        return {}
    lw, ln = local(was), local(now)
    gone, fresh = lw - ln, ln - lw
    if not gone or not fresh:
        return {}
    votes = {}
    for op, a, b, c, d in difflib.SequenceMatcher(None, was, now, autojunk=False).get_opcodes():
        if op == "replace" and b - a == d - c:
            for x, y in zip(was[a:b], now[c:d]):
                if x in gone and y in fresh:
                    votes[(x, y)] = votes.get((x, y), 0) + 1
    out = {}
    for (x, y), _ in sorted(votes.items(), key=lambda kv: (-kv[1], kv[0])):
        if x not in out and y not in out.values():
            out[x] = y
    return out


def apply(con, ren):
    """The contract with those names; None where a new name is taken in it."""
    texts = [con.spec, con.start, con.gparams] + list(con.loops.values()) + list(con.bodies.values())
    texts += [x for h in con.before + con.after for x in (h[0], h[2])] + [x for s in con.subs + con.presubs for x in s[:2]]
    words = set(re.findall(r"(?<![\w$.])\w+", " ".join(texts)))
    ren = {x: y for x, y in ren.items() if x in words and y not in words}
    if not ren:
        return con
    rx = re.compile(r"(?<![\w$.])(?<!\. )(" + "|".join(map(re.escape, sorted(ren, key=len, reverse=True))) + r")\b(?!\s*\()")
    go = lambda s: rx.sub(lambda m: ren[m.group(1)], s)
    c = copy.copy(con)
    c.spec, c.start, c.gparams = go(con.spec), go(con.start), go(con.gparams)
    c.loops = {k: go(v) for k, v in con.loops.items()}
    c.bodies = {k: go(v) for k, v in con.bodies.items()}
    c.before = [(go(p), n, go(t)) for p, n, t in con.before]
    c.after = [(go(p), n, go(t)) for p, n, t in con.after]
    c.subs = [(go(p), go(r), o) for p, r, o in con.subs]
    c.presubs = [(go(p), go(r), o) for p, r, o in con.presubs]
    c.missing = list(con.missing)
    return c

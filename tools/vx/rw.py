"""Token patterns: literal tokens, `$x` (one or more whole token trees, shortest match),
`$x:id` (one identifier), and replacement text that may mention them."""

import re

import rs
from rs import T, Bad, OPEN, CLOSE, match, lex


def pat(s):
    out = []
    for piece in re.split(r"(\$[a-zA-Z_][a-zA-Z0-9_]*(?::id)?)", s):
        if piece.startswith("$"):
            nm = piece[1:]
            out.append(("id", nm[:-3]) if nm.endswith(":id") else ("any", nm))
        else:
            out += [("tok", t.s) for t in lex(piece)]
    return out


def try_match(p, toks, i):
    """(end, bindings) or None; `$x` is a non-empty run of token trees, shortest first."""
    def go(pi, ti, b):
        if pi == len(p):
            return ti, b
        kind, v = p[pi]
        if kind == "tok":
            if ti < len(toks) and toks[ti].s == v:
                return go(pi + 1, ti + 1, b)
            return None
        if kind == "id":
            if ti < len(toks) and toks[ti].kind == "id":
                return go(pi + 1, ti + 1, bind(b, v, toks[ti:ti + 1]))
            return None
        j = ti
        while j < len(toks):
            s = toks[j].s
            if s in CLOSE or s == ";":
                return None
            try:
                j = match(toks, j) if s in OPEN else j + 1
            except Bad:
                return None
            nb = bind(b, v, toks[ti:j])
            if nb is not None:
                r = go(pi + 1, j, nb)
                if r:
                    return r
        return None

    def bind(b, v, seg):
        if b is None:
            return None
        if v in b:
            return b if [t.s for t in b[v]] == [t.s for t in seg] else None
        nb = dict(b)
        nb[v] = seg
        return nb

    return go(0, i, {})


def subst(repl, b, line):
    out = []
    for piece in re.split(r"(\$[a-zA-Z_][a-zA-Z0-9_]*)", repl):
        if piece.startswith("$") and piece[1:] in b:
            out += b[piece[1:]]
        else:
            out += [T(t.s, line, t.kind) for t in lex(piece)]
    return out


def rewrite(toks, rules):
    """Apply every rule everywhere, innermost results re-examined."""
    for p, repl in rules:
        pp = pat(p)
        i = 0
        guard = 0
        while i < len(toks):
            m = try_match(pp, toks, i)
            if m:
                end, b = m
                new = subst(repl, b, toks[i].line)
                toks = toks[:i] + new + toks[end:]
                guard += 1
                if guard > 2000:
                    raise Bad("rewriting does not end: " + p)
                # do not re-match at i with the same rule if the replacement starts the same way
                i += 1
            else:
                i += 1
    return toks


def find_all(p, toks):
    pp = pat(p)
    out, i = [], 0
    while i < len(toks):
        m = try_match(pp, toks, i)
        if m and m[0] > i:
            out.append((i, m[0], m[1]))
            i = m[0]
        else:
            i += 1
    return out


def receiver_start(toks, dot):
    """Start of the postfix expression whose `.method` begins at index dot."""
    i = dot
    while True:
        j = i - 1
        if j < 0:
            return i
        s = toks[j].s
        if s in (")", "]", "}"):
            depth = 0
            while True:
                if toks[j].s in CLOSE:
                    depth += 1
                elif toks[j].s in OPEN:
                    depth -= 1
                    if depth == 0:
                        break
                j -= 1
                if j < 0:
                    raise Bad("unbalanced")
            if s == "}":
                # a block receiver: `unsafe { .. }`
                i = j
                if j > 0 and toks[j - 1].s == "unsafe":
                    i = j - 1
                return i
            # a call's or index's callee, or a parenthesised receiver
            i = j
            if j > 0 and (toks[j - 1].kind == "id" and toks[j - 1].s not in ("return", "in", "if", "match", "while")
                          or toks[j - 1].s in (")", "]", "?", ">")):
                continue
            return i
        if s == "?":
            i = j
            continue
        if toks[j].kind in ("id", "num") and s not in ("return", "in", "if", "match", "while", "else", "mut"):
            i = j
            if j > 0 and toks[j - 1].s in (".", "::"):
                i = j - 1
                continue
            return i
        if s == ".":
            i = j
            continue
        return i

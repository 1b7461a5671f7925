"""Calls of functions that have no contract of their own are replaced by their bodies.

The crate's functions are verified one by one against each other's contracts.  A helper without a
contract (one that a change split off, say) has nothing a caller could rely on, so its body takes the
place of each call: what is verified is still the code that runs."""

import re

import rs
import rw
from rs import T, OPEN, match

# slots of Array are handled by the rewriting rules
NEVER = {"ptr", "mut_ptr", "fmt", "tree_fmt"}


def candidates(files, contracts):
    """name -> the one free or inherent function of that name, if no contract speaks of any such name."""
    taken = {c.key.split("::")[-1] for c in contracts} | {c.ident() for c in contracts} | NEVER
    by = {}
    for f in files.values():
        pool = list(f.fns) + [x for im in f.impls for x in im.fns]
        for x in pool:
            by.setdefault(x.name, []).append(x)
            for y in x.inner:
                by.setdefault(y.name, []).append(y)
    return {n: v[0] for n, v in by.items() if len(v) == 1 and n not in taken and v[0].body and not v[0].bad
            and not (v[0].impl and v[0].impl.trait)}


def has(toks, *words):
    return any(t.kind == "id" and t.s in words for t in toks)


def receiver(param):
    return rs.text(param) in ("self", "mut self", "& self", "& mut self") or (
        len(param) <= 4 and param[-1].s == "self")


def at_tail(toks, end):
    return all(t.s == "}" for t in toks[end:])


def expand(toks, cand, depth=0):
    i = 0
    while i < len(toks):
        t = toks[i]
        h = cand.get(t.s) if t.kind == "id" else None
        if not h or i + 1 >= len(toks) or toks[i + 1].s not in ("(", "::"):
            i += 1
            continue
        j = i + 1
        if toks[j].s == "::":                      # name::<..>(..)
            if toks[j + 1].s != "<":
                i += 1
                continue
            j = rs.angle(toks, j + 1)
            if j >= len(toks) or toks[j].s != "(":
                i += 1
                continue
        end = match(toks, j)
        args = rs.split_top(toks[j + 1:end - 1])
        params = list(h.params)
        prev = toks[i - 1].s if i else ""
        start, me = i, None
        if prev == ".":
            if not params or not receiver(params[0]):
                i += 1
                continue
            start = rw.receiver_start(toks, i - 1)
            me = toks[start:i - 1]
            params = params[1:]
        elif prev == "::":
            start = i - 2
            if start >= 0 and toks[start].s == ">":       # Type::<..>::name
                i += 1
                continue
            if params and receiver(params[0]):
                if not args:
                    i += 1
                    continue
                me, args, params = args[0], args[1:], params[1:]
        elif h.impl or prev == "fn":
            i += 1
            continue
        new = body(h, me, args, params, t.line)
        if new is None or depth > 5:
            i += 1
            continue
        if has(h.body, "return") or any(x.s == "?" for x in h.body):
            tail = (h.ret and at_tail(toks, end)) or (start and toks[start - 1].s == "return")
            if not tail:
                i += 1
                continue
        new = expand(new, {n: c for n, c in cand.items() if n != t.s}, depth + 1)
        if has(new, t.s):
            i += 1
            continue
        stmt = end < len(toks) and toks[end].s == ";" and (not start or toks[start - 1].s in ("{", "}", ";"))
        if stmt:
            new = [T("{", t.line, "op")] + new + [T("}", t.line, "op")]
        else:
            new = [T("(", t.line, "op"), T("{", t.line, "op")] + new + [T("}", t.line, "op"), T(")", t.line, "op")]
        toks = toks[:start] + new + toks[end:]
        i = start + len(new)
    return toks


def body(h, me, args, params, line):
    """The helper's body with the arguments put in; None when that cannot be done safely."""
    if len(args) != len(params):
        return None
    b = [T(t.s, t.line, t.kind) for t in h.whole]
    if any(t.s == "|" for t in b) and False:
        return None
    used = {t.s for t in b if t.kind == "id"}
    L = lambda s: [T(x.s, line, x.kind) for x in rs.lex(s)]
    ren, pre, post = {}, [], []
    if me is not None:
        m = me
        while m and m[0].s in ("&", "mut"):
            m = m[1:]
        if rs.text(m) == "self":
            pass
        elif len(m) == 1 and m[0].kind == "id" and m[0].s not in used:
            ren["self"] = m
        elif all(t.kind == "id" or t.s == "." for t in m) and m and m[0].s == "self":
            ren["self"] = m
        else:
            return None
    for k, (a, p) in enumerate(zip(args, params)):
        q = p
        for w in range(len(p)):
            if p[w].s == ":":
                q = p[:w]
                break
        plain = len(q) == 1 and q[0].kind == "id"
        if plain and len(a) == 1 and a[0].kind == "id" and (a[0].s == q[0].s or a[0].s not in used):
            ren[q[0].s] = a
            continue
        if len(q) == 2 and q[0].s == "mut" and rs.text(a) == q[1].s:
            post += L("let mut %s = %s ;" % (q[1].s, q[1].s))
            continue
        pre += L("let in%d_ =" % k) + a + L(";")
        post += L("let") + q + L("= in%d_ ;" % k)
    out = []
    for n, t in enumerate(b):
        if t.kind == "id" and t.s in ren and (n == 0 or b[n - 1].s not in (".", "::")) and not (
                n + 1 < len(b) and b[n + 1].s == ":" and (n + 2 >= len(b) or b[n + 2].s != ":") and n and b[n - 1].s in ("{", ",")):
            out += [T(x.s, t.line, x.kind) for x in ren[t.s]]
        else:
            out.append(t)
    # struct shorthand `Self { stack, .. }` of a renamed name would change the field's name
    for n, t in enumerate(b):
        if t.kind == "id" and t.s in ren and ren[t.s][0].s != t.s and n and b[n - 1].s in ("{", ",") and \
                n + 1 < len(b) and b[n + 1].s in (",", "}"):
            return None
    return pre + post + out


def while_lets(toks):
    """At the end of a function, `while let P = E { B } TAIL` where B does not break becomes
    `loop { match E { P => { B } _ => { return { TAIL } ; } } }`: the same, but the verifier
    keeps what it knows where the loop ends."""
    i, d = 0, 0
    while i < len(toks):
        if toks[i].s == "while" and toks[i].kind == "id" and toks[i + 1].s == "let":
            j = i + 2
            while toks[j].s != "=":
                j = match(toks, j) if toks[j].s in OPEN else j + 1
            k = j + 1
            k = rs.block_of(toks, k)
            end = match(toks, k)
            p, e, b, tail = toks[i + 2:j], toks[j + 1:k], toks[k + 1:end - 1], toks[end:]
            if not has(b, "break"):
                L = lambda s: [T(x.s, toks[i].line, x.kind) for x in rs.lex(s)]
                ex = L("return {") + tail + L("} ;") if tail else L("return ;")
                return toks[:i] + L("loop { match") + e + L("{") + p + L("=> {") + b + L("} _ => {") + ex + L("} } }")
            i = end
            continue
        i = match(toks, i) if toks[i].s in OPEN else i + 1
    return toks


def shapes(toks):
    """Two spellings of the same: `loop { if C { break ; } REST }` is `while ! ( C ) { REST }`, and a
    match arm that is a jump or an assignment stands in a block."""
    i = 0
    while i < len(toks):
        t = toks[i]
        L = lambda s: [T(x.s, t.line, x.kind) for x in rs.lex(s)]
        if t.s == "loop" and t.kind == "id" and toks[i + 1].s == "{" and toks[i + 2].s == "if" and toks[i + 3].s != "let":
            k = rs.block_of(toks, i + 3)
            end = match(toks, k)
            inner = [x.s for x in toks[k + 1:end - 1]]
            if inner in (["break", ";"], ["break"]) and toks[end].s != "else" and not (i >= 2 and toks[i - 1].s == ":"):
                z = end + 1 if toks[end].s == ";" else end
                toks = toks[:i] + L("while ! (") + toks[i + 3:k] + L(") {") + toks[z:]
        elif t.s == "let" and [x.s for x in toks[i + 1:i + 4:2]] == ["mut", "="] and toks[i + 2].kind == "id":
            # `let mut S = E ; while let Some ( P ) = S . next ( ) { B }`, S not used again, is a `for` loop
            z, name = i + 4, toks[i + 2].s
            while z < len(toks) and toks[z].s not in (";", "}"):
                z = match(toks, z) if toks[z].s in OPEN else z + 1
            if [x.s for x in toks[z:z + 5]] == [";", "while", "let", "Some", "("]:
                p = match(toks, z + 4)
                if [x.s for x in toks[p:p + 7]] == ["=", name, ".", "next", "(", ")", "{"] and not any(x.s == name and x.kind == "id" for x in toks[p + 6:]):
                    e = toks[i + 4:z]
                    if [x.s for x in e[-4:]] == [".", "into_iter", "(", ")"]:
                        e = e[:-4]
                    toks = toks[:i] + L("for") + toks[z + 5:p - 1] + L("in") + e + toks[p + 6:]
        elif t.s == "=>" and toks[i + 1].s != "{":
            z, assigns = i + 1, False
            while z < len(toks) and toks[z].s not in (",", "}"):
                if toks[z].s == "|":
                    assigns = None
                    break
                assigns = assigns or toks[z].s in ("=", "+=", "-=")
                if toks[z].s in ("if", "match", "loop", "while", "for", "unsafe") and z == i + 1:
                    assigns = None
                    break
                z = match(toks, z) if toks[z].s in OPEN else z + 1
            if assigns is not None and (assigns or toks[i + 1].s in ("return", "break", "continue")):
                toks = toks[:i + 1] + L("{") + toks[i + 1:z] + L("; }") + toks[z:]
        i += 1
    return toks

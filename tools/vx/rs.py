"""A small Rust reader: tokens, items, functions.  Only what the extraction needs.

Tokens are kept with their source line so that the verifier's messages can be traced back to
/repo.  Comments and attributes are dropped (an attribute never changes what a function of this
crate does, except #[cfg(...)], which is resolved: `test`, `feature = ...` off, `debug_assertions`
kept as it is checked in both settings)."""

import re

TOK = re.compile(r"""
  (?P<ws>\s+)
| (?P<lc>//[^\n]*)
| (?P<bc>/\*)
| (?P<str>b?"(?:[^"\\]|\\.)*")
| (?P<life>'[A-Za-z_][A-Za-z0-9_]*(?!'))
| (?P<chr>b?'(?:[^'\\]|\\.[^']*)')
| (?P<num>[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9_]*)?)
| (?P<id>[A-Za-z_][A-Za-z0-9_]*)
| (?P<op>\.\.=|\.\.\.|<<=|>>=|=>|->|::|\.\.|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|\^=|&=|\|=|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
""", re.X)


class Bad(Exception):
    """The extraction cannot follow the source (undecided, never an alarm)."""


class T:
    __slots__ = ("s", "line", "kind")

    def __init__(self, s, line, kind):
        self.s, self.line, self.kind = s, line, kind

    def __repr__(self):
        return self.s


def lex(text):
    out, i, line = [], 0, 1
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise Bad(f"cannot read character {text[i]!r} on line {line}")
        k, s = m.lastgroup, m.group()
        if k == "bc":
            depth, j = 1, i + 2
            while depth:
                if text.startswith("/*", j):
                    depth, j = depth + 1, j + 2
                elif text.startswith("*/", j):
                    depth, j = depth - 1, j + 2
                else:
                    j += 1
                    if j > len(text):
                        raise Bad("unterminated comment")
            s = text[i:j]
        elif k not in ("ws", "lc"):
            out.append(T(s, line, k))
        line += s.count("\n")
        i += len(s)
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = set(OPEN.values())


def match(toks, i):
    """Index just past the group opened at i."""
    want = OPEN[toks[i].s]
    depth = 0
    for j in range(i, len(toks)):
        s = toks[j].s
        if s in OPEN:
            depth += 1
        elif s in CLOSE:
            depth -= 1
            if depth == 0:
                if s != want:
                    raise Bad("unbalanced brackets")
                return j + 1
    raise Bad("unbalanced brackets")


def block_of(toks, i):
    """The `{` that opens the body of the `while`, `match`, `for` or `if` whose head starts at i."""
    while toks[i].s != "{":
        if toks[i].kind == "id" and toks[i].s == "unsafe" and toks[i + 1].s == "{":
            i = match(toks, i + 1)
        elif toks[i].kind == "id" and toks[i].s in ("match", "if"):
            i = match(toks, block_of(toks, i + 1))
            while i < len(toks) and toks[i].s == "else":
                i = match(toks, block_of(toks, i + 1))
        else:
            i = match(toks, i) if toks[i].s in OPEN else i + 1
    return i


def angle(toks, i):
    """Index just past the <...> group opened at i (handles ->, >= pieces)."""
    depth = 0
    j = i
    while j < len(toks):
        s = toks[j].s
        if s == "<":
            depth += 1
        elif s == ">":
            depth -= 1
        elif s == ">=" or s == ">>=":
            raise Bad("unexpected operator in generics")
        elif s in "([{" and s:
            j = match(toks, j)
            continue
        if depth == 0:
            return j + 1
        j += 1
    raise Bad("unbalanced generics")


def text(toks):
    """Token text with single spaces, which is good enough for rustc and for comparing."""
    return " ".join(t.s for t in toks)


class Fn:
    def __init__(self):
        self.name = self.key = None
        self.file = self.line = None
        self.impl = None          # the Impl it sits in, or None
        self.quals = []           # unsafe, const
        self.generics = []        # tokens inside <...>
        self.params = []          # list of token lists
        self.ret = []             # tokens of the return type
        self.where = []           # tokens after `where`
        self.body = []            # tokens, without the outer braces
        self.whole = []           # the same before attributes were followed
        self.inner = []           # nested functions
        self.bad = None           # why the body cannot be followed

    def all_tokens(self):
        return self.generics + [t for p in self.params for t in p] + self.ret + self.where + self.body


class Impl:
    def __init__(self):
        self.generics, self.trait, self.ty, self.where = [], [], [], []
        self.fns, self.types = [], {}

    def type_name(self):
        return head(self.ty)

    def trait_name(self):
        return head(self.trait) if self.trait else None


def head(ty):
    """`& 'a mut PalmTree < K , V >` -> `PalmTree`; keeps a leading & as `&PalmTree`/`&mutPalmTree`."""
    pre, name = "", ""
    i = 0
    while i < len(ty) and (ty[i].s in ("&", "mut") or ty[i].kind == "life"):
        if ty[i].kind != "life":
            pre += ty[i].s
        i += 1
    while i < len(ty):
        if ty[i].kind == "id":
            name = ty[i].s
        elif ty[i].s != "::":
            break
        i += 1
    return pre + name


class Struct:
    def __init__(self, kind, name, generics, where, body):
        self.kind, self.name, self.generics, self.where, self.body = kind, name, generics, where, body


class File:
    def __init__(self, path):
        self.path = path
        self.fns, self.impls, self.structs, self.aliases = [], [], {}, {}


def split_top(toks, sep=","):
    out, cur, i = [], [], 0
    depth = 0
    while i < len(toks):
        s = toks[i].s
        if s in OPEN:
            j = match(toks, i)
            cur += toks[i:j]
            i = j
            continue
        if s == "<":
            depth += 1
        elif s == ">":
            depth -= 1
        if s == sep and depth <= 0:
            out.append(cur)
            cur = []
        else:
            cur.append(toks[i])
        i += 1
    if cur:
        out.append(cur)
    return out


CFG_OFF = ("test", 'feature = "tree_debug"', 'any ( test , feature = "test" )')


def cfg_off(attr):
    t = text(attr)
    return any(t == f"cfg ( {x} )" for x in CFG_OFF)


def cfg_on(attr):
    return any(text(attr) == f"cfg ( not ( {x} ) )" for x in CFG_OFF)


def read_fn(toks, i, f, impl):
    """toks[i] is `fn`."""
    fn = Fn()
    fn.impl, fn.file, fn.line = impl, f.path, toks[i].line
    fn.name = toks[i + 1].s
    i += 2
    if toks[i].s == "<":
        j = angle(toks, i)
        fn.generics = toks[i + 1:j - 1]
        i = j
    j = match(toks, i)
    fn.params = split_top(toks[i + 1:j - 1])
    i = j
    if toks[i].s == "->":
        i += 1
        st = i
        while toks[i].s not in ("{", "where", ";"):
            i = (match(toks, i) if toks[i].s in OPEN else i + 1)
        fn.ret = toks[st:i]
    if toks[i].s == "where":
        st = i + 1
        while toks[i].s not in ("{", ";"):
            i = (match(toks, i) if toks[i].s in OPEN else i + 1)
        fn.where = toks[st:i]
    if toks[i].s == ";":
        return fn, i + 1
    j = match(toks, i)
    body = toks[i + 1:j - 1]
    # nested functions leave the body
    k, out = 0, []
    while k < len(body):
        if body[k].s == "fn" and body[k + 1].kind == "id" and (k == 0 or body[k - 1].s in ("{", "}", ";")):
            g, k2 = read_fn(body, k, f, None)
            fn.inner.append(g)
            k = k2
            continue
        out.append(body[k])
        k += 1
    fn.whole = out
    try:
        fn.body = both(out)
    except Bad as e:
        fn.bad = str(e)
    return fn, j


def rt_debug(block, line, no=False):
    out = [T(x, line, "id" if x[0].isalpha() else "op") for x in ("if", *(["!"] if no else []), "rt_debug", "(", ")", "{")]
    return out + block + [T("}", line, "op")]


def both(body):
    try:
        return strip_attrs(body)
    except Bad:
        return strip_attrs(body, True)


def strip_attrs(body, debug=None):
    """Attributes leave the body.  A statement under cfg(debug_assertions) stays under `if rt_debug()`,
    so both builds are looked at; `debug` asks for one of the two builds."""
    out, k = [], 0
    while k < len(body):
        if body[k].s == "#" and k + 1 < len(body) and body[k + 1].s in ("[", "!"):
            b = k + 1 if body[k + 1].s == "[" else k + 2
            j = match(body, b)
            attr = body[b + 1:j - 1]
            if cfg_off(attr):
                raise Bad("statement under a disabled cfg")
            only = {"cfg ( debug_assertions )": True, "cfg ( not ( debug_assertions ) )": False}.get(text(attr))
            if text(attr).startswith("cfg (") and only is None:
                raise Bad("statement under an unknown cfg")
            k = j
            if only is not None and only != debug:
                while body[k].s == "#":
                    k = match(body, k + 1)
                at = k
                if debug is None and body[k].s == "let":
                    raise Bad("a variable of one kind of build only")
                block = body[k].s == "{" or body[k].s in ("if", "match", "for", "while", "loop", "unsafe")
                while True:
                    if block and body[k].s == "{":
                        k = match(body, k)
                        if k < len(body) and body[k].s == "else":
                            continue
                        break
                    if body[k].s == ";":
                        k += 1
                        break
                    k = match(body, k) if body[k].s in OPEN else k + 1
                if debug is None:
                    out += rt_debug(strip_attrs(body[at:k]), body[at].line, not only)
            continue
        if debug is None and body[k].s == "cfg" and text(body[k:k + 5]) == "cfg ! ( debug_assertions )":
            out += rt_debug([], body[k].line)[1:4]
            k += 5
            continue
        if body[k].s == "cfg" and k + 1 < len(body) and body[k + 1].s == "!":
            raise Bad("cfg! of something")
        out.append(body[k])
        k += 1
    return out


def read_items(toks, f, impl=None):
    i = 0
    while i < len(toks):
        attrs = []
        while toks[i].s == "#":
            b = i + 1 if toks[i + 1].s == "[" else i + 2
            j = match(toks, b)
            attrs.append(toks[b + 1:j - 1])
            i = j
            if i >= len(toks):
                return
        off = any(cfg_off(a) for a in attrs)
        if toks[i].s == "pub":
            i += 1
            if toks[i].s == "(":
                i = match(toks, i)
        quals = []
        while toks[i].s in ("unsafe", "const", "default", "async", "extern") and toks[i + 1].s in (
                "fn", "impl", "unsafe", "trait", "extern"):
            quals.append(toks[i].s)
            i += 1
        s = toks[i].s
        if s == "fn":
            fn, i = read_fn(toks, i, f, impl)
            fn.quals = quals
            if any(text(a).startswith("cfg (") and not cfg_on(a) for a in attrs):
                fn.bad = "a function of one kind of build only"
            if not off:
                (impl.fns if impl else f.fns).append(fn)
        elif s == "impl" and impl is None:
            im = Impl()
            i += 1
            if toks[i].s == "<":
                j = angle(toks, i)
                im.generics = toks[i + 1:j - 1]
                i = j
            st = i
            while toks[i].s not in ("{", "where"):
                if toks[i].s == "for":
                    im.trait = toks[st:i]
                    st = i + 1
                i += 1
            im.ty = toks[st:i]
            if toks[i].s == "where":
                st = i + 1
                while toks[i].s != "{":
                    i += 1
                im.where = toks[st:i]
            j = match(toks, i)
            read_items(toks[i + 1:j - 1], f, im)
            i = j
            if not off:
                f.impls.append(im)
        elif s == "type":
            j = i
            while toks[j].s != ";":
                j += 1
            (impl.types if impl else f.aliases)[toks[i + 1].s] = toks[i + 2:j]
            i = j + 1
        elif s in ("struct", "enum"):
            name = toks[i + 1].s
            i += 2
            gen, where = [], []
            if toks[i].s == "<":
                j = angle(toks, i)
                gen = toks[i + 1:j - 1]
                i = j
            if toks[i].s == "where":
                st = i + 1
                while toks[i].s not in ("{", ";"):
                    i += 1
                where = toks[st:i]
            if toks[i].s in ("{", "("):
                j = match(toks, i)
                body = strip_attrs(toks[i:j])
                i = j
                if i < len(toks) and toks[i].s == ";":
                    i += 1
            else:
                body = []
                i += 1
            if not off:
                f.structs[name] = Struct(s, name, gen, where, body)
        else:
            # use, mod, const, trait, macro ...: skip to the end of the item
            while i < len(toks) and toks[i].s not in (";", "{"):
                i += 1
            if i < len(toks) and toks[i].s == "{":
                if s == "use":
                    while toks[i].s != ";":
                        i = match(toks, i) if toks[i].s in OPEN else i + 1
                    i += 1
                else:
                    i = match(toks, i)
            else:
                i += 1


def read(path, name):
    f = File(name)
    read_items(lex(open(path).read()), f)
    for fn in f.fns:
        fn.key = fn.name
    for im in f.impls:
        for fn in im.fns:
            t = im.trait_name()
            fn.key = f"{im.type_name()}::{fn.name}" if not t else f"{im.type_name()} as {t}::{fn.name}"
    return f

"""Turn /repo's source and the contracts in /verif/proof into one Verus file.

The code is taken from /repo on every run.  What changes on the way is listed in RULES (and in each
contract's own `sub` lines); nothing else does."""

import copy
import os
import re
import sys

sys.path.insert(0, os.path.dirname(__file__))
import inline
import names
import rs
import rw
from rs import Bad, T, OPEN, match

SRC = "/repo/src"
PROOF = "/verif/proof"

# Rewriting applied to every function body, in this order.
RULES = [
    # raw slot access in Array
    (". mut_ptr ( ) . add ( $i ) . add ( $j )", ".mut_ptr().add($i + $j)"),
    ("$s:id . mut_ptr ( ) . add ( $i ) . write ( $v )", "$s.slot_write($i, $v)"),
    ("$s:id . mut_ptr ( ) . write ( $v )", "$s.slot_write(0, $v)"),
    ("$s:id . mut_ptr ( ) . add ( $i ) . read ( )", "$s.slot_read($i)"),
    ("$s:id . mut_ptr ( ) . read ( )", "$s.slot_read(0)"),
    ("$s:id . mut_ptr ( ) . add ( $i ) . copy_to ( $s . mut_ptr ( ) . add ( $j ) , $n )", "$s.slot_copy($i, $j, $n)"),
    ("$s:id . mut_ptr ( ) . copy_to ( $s . mut_ptr ( ) . add ( $j ) , $n )", "$s.slot_copy(0, $j, $n)"),
    ("$s:id . mut_ptr ( ) . add ( $i ) . copy_to ( $s . mut_ptr ( ) , $n )", "$s.slot_copy($i, 0, $n)"),
    ("$s:id . mut_ptr ( ) . add ( $i ) . copy_from ( $s . mut_ptr ( ) . add ( $j ) , $n )", "$s.slot_copy($j, $i, $n)"),
    ("$s:id . mut_ptr ( ) . copy_from ( $s . mut_ptr ( ) . add ( $j ) , $n )", "$s.slot_copy($j, 0, $n)"),
    ("$s:id . mut_ptr ( ) . copy_from_nonoverlapping ( $o:id . mut_ptr ( ) . add ( $i ) , $n )", "$s.slot_take_from(0, $o, $i, $n)"),
    ("$s:id . mut_ptr ( ) . copy_from_nonoverlapping ( $o:id . mut_ptr ( ) , $n )", "$s.slot_take_from(0, $o, 0, $n)"),
    ("std :: slice :: from_raw_parts ( self . ptr ( ) , $n )", "self.slots($n)"),
    ("std :: slice :: from_raw_parts_mut ( self . mut_ptr ( ) , $n )", "self.slots_mut($n)"),
    ("std :: ptr :: drop_in_place ( self . deref_mut ( $n ) )", "self.slots_drop($n)"),
    ("Self { data : MaybeUninit :: uninit ( ) , }", "Self::uninit()"),
    ("Self { data : MaybeUninit :: uninit ( ) }", "Self::uninit()"),
    # std functions with a contract of ours
    ("std :: mem :: drop ( $x )", "rt_gone($x)"),
    ("mem :: drop ( $x )", "rt_gone($x)"),
    ("; drop ( $x )", "; rt_gone($x)"),
    ("{ drop ( $x )", "{ rt_gone($x)"),
    ("} drop ( $x )", "} rt_gone($x)"),
    (". get_unchecked (", ".get_un("),
    (". get_unchecked_mut (", ".get_un_mut("),
    (". binary_search (", ".bsearch("),
    (". into ( )", ".conv()"),
    ("ArrayLength < A >", "ArrayLength"),
    ("std :: ptr :: null ( )", "LPtr::null()"),
    ("PtrPath < K , V , C >", "Stack<K, V, C>"),
    ("PtrPath :: new ( )", "Stack::new()"),
    ("ArrayVec :: new ( )", "Stack::new()"),
]

# In pointer.rs and branch/node.rs only, before RULES: the word that holds a Box, Rc or Arc.
WORD_RULES = [
    ("std :: ptr :: drop_in_place ( $w:id . data . as_mut_ptr ( ) . cast :: < $t > ( ) )", "$w.data.drop_at::<$t>()"),
    ("$w:id . data . as_mut_ptr ( ) . cast :: < $t > ( ) . write ( $v )", "$w.data.put::<$t>($v)"),
    ("& * $w:id . data . as_ptr ( ) . cast :: < $t > ( )", "$w.data.at::<$t>()"),
    ("* $w:id . data . as_ptr ( ) . cast :: < $t > ( )", "$w.data.at::<$t>()"),
    ("& mut * $w:id . data . as_mut_ptr ( ) . cast :: < $t > ( )", "$w.data.at_mut::<$t>()"),
    ("* $w:id . data . as_mut_ptr ( ) . cast :: < $t > ( )", "$w.data.at_mut::<$t>()"),
    ("std :: mem :: transmute ( self )", "self.data.out()"),
    ("Rc :: into_raw ( $x ) as * mut A", "Rc::into_raw($x)"),
    ("Arc :: into_raw ( $x ) as * mut A", "Arc::into_raw($x)"),
    ("std :: mem :: forget ( $x )", "rt_forget($x)"),
    ("std :: mem :: drop ( $x )", "rt_drop($x)"),
    ("mem :: drop ( $x )", "rt_drop($x)"),
    ("; drop ( $x )", "; rt_drop($x)"),
    # what auto-deref does, written out
    ("this . data . make_mut ::", "this.data.deref_mut().make_mut::"),
    ("self . data . drop_ptr ::", "self.data.deref_mut().drop_ptr::"),
    ("self . data . clone ::", "self.data.deref().clone::"),
    ("deref_cast ( & self . node )", "deref_cast(self.node.deref())"),
    ("make_mut_cast ( & mut self . node )", "make_mut_cast(self.node.deref_mut())"),
    # the clone a Box makes
    ("self . deref :: < A > ( ) . clone ( )", "self.deref::<A>().copy()"),
]
# Modules whose names stay their own.
ISOLATED = ("pointer",)

KEYWORDS_BEFORE_LOOP = ("loop", "while", "for")


class Contract:
    def __init__(self, key, file, mod):
        self.key, self.file, self.mod = key, file, mod
        self.name = None
        self.nth = 0
        self.props = []
        self.spec = ""
        self.start = ""
        self.loops = {}
        self.bodies = {}
        self.before, self.after = [], []
        self.subs, self.presubs = [], []
        self.gparams = ""
        self.attrs = []
        self.generics = None
        self.where = None
        self.rename_self = False
        self.ret = "r"
        self.ret_ty = None
        self.trusted = None
        self.params = None
        self.impl_ty = None
        self.as_impl = None
        self.inner = None
        self.bounded = False
        self.closures = {}
        self.missing = []
        self.cfg = None
        self.impl_generics = self.impl_where = None

    def ident(self):
        return self.name or self.key.split("::")[-1]

    def id(self):
        return self.key + (f"#{self.nth}" if self.nth else "") + (f" ({self.name})" if self.name else "")


def read_contracts(path):
    """A .spec file: plain Verus text between `//@ fn` blocks is emitted as is."""
    mod = os.path.basename(path)[:-5]
    parts = []          # ("text", str) | ("fn", Contract)
    cur, field, key = None, None, None
    buf = []

    def flush():
        nonlocal buf
        txt = "\n".join(buf)
        buf = []
        if cur is None:
            if txt.strip():
                parts.append(("text", txt))
            return
        if field is None:
            if txt.strip():
                raise Bad(f"{path}: stray text in {cur.key}: {txt.strip()[:60]}")
        elif field == "loop":
            cur.loops[key] = txt
        elif field == "body":
            cur.bodies[key] = txt
        elif field in ("before", "after"):
            getattr(cur, field).append((key[0], key[1], txt))
        else:
            setattr(cur, field, txt)

    for ln in open(path):
        ln = ln.rstrip("\n")
        m = re.match(r"\s*//@\s*(\S+)\s*(.*)$", ln)
        if not m:
            buf.append(ln)
            continue
        d, rest = m.groups()
        flush()
        if d == "fn":
            mm = re.match(r"(.+?)\s+in\s+(\S+?)(?:#(\d+))?(?:\s+as\s+(\w+))?$", rest)
            cur = Contract(mm.group(1), mm.group(2), mod)
            cur.nth = int(mm.group(3) or 0)
            cur.name = mm.group(4)
            parts.append(("fn", cur))
            field = None
        elif d == "end":
            cur, field = None, None
        elif d in ("spec", "start"):
            field = d
        elif d == "loop":
            field, key = "loop", int(rest)
        elif d == "body":
            field, key = "body", int(rest)
        elif d in ("before", "after"):
            mm = re.match(r"`(.*)`(?:\s+#(\d+))?$", rest)
            field, key = d, (mm.group(1), int(mm.group(2) or 0))
        elif d in ("sub", "presub"):
            mm = re.match(r"`(.*?)`\s*=>\s*`(.*)`(\s+opt)?$", rest)
            (cur.subs if d == "sub" else cur.presubs).append((mm.group(1), mm.group(2), bool(mm.group(3))))
            field = None
        elif d == "closure":
            mm = re.match(r"(\d+)\s+`(.*?)`\s*=>\s*`(.*)`$", rest)
            cur.closures[int(mm.group(1))] = (mm.group(2), mm.group(3))
            field = None
        elif d == "props":
            cur.props = rest.replace(",", " ").split()
            field = None
        elif d in ("gparams", "ret", "ret_ty", "generics", "where", "trusted", "params", "impl_ty", "as_impl", "inner", "cfg", "impl_generics", "impl_where"):
            setattr(cur, d, rest.strip())
            field = None
        elif d == "attr":
            cur.attrs.append(rest.strip())
            field = None
        else:
            raise Bad(f"{path}: unknown directive {d}")
    flush()
    return parts


def for_loops(toks, n=None):
    """`for PAT in E . iter ( ) . enumerate ( ) {..}` and other for loops, made into while loops."""
    count = [0]

    def go(toks):
        out, i = [], 0
        while i < len(toks):
            if toks[i].s == "for" and toks[i + 1].s != "<":
                j = i + 1
                while toks[j].s != "in":
                    j = match(toks, j) if toks[j].s in OPEN else j + 1
                p = toks[i + 1:j]
                k = j + 1
                k = rs.block_of(toks, k)
                e = toks[j + 1:k]
                end = match(toks, k)
                body = go(toks[k + 1:end - 1])
                line = toks[i].line
                c = count[0]
                count[0] += 1

                def L(s):
                    return [T(t.s, line, t.kind) for t in rs.lex(s)]
                et = rs.text(e)
                if et.endswith(". iter ( ) . enumerate ( )"):
                    e = e[:-8]
                    pp = rs.split_top(p[1:-1]) if p[0].s == "(" else None
                    if not pp or len(pp) != 2:
                        raise Bad("for pattern over enumerate()")
                    out += L(f"{{ let it_s{c} = ") + e + L(f" ; let mut it_i{c} : usize = 0 ; while it_i{c} < it_s{c} . len ( ) {{ let ")
                    out += pp[0] + L(f" = it_i{c} ; let ") + pp[1] + L(f" = & it_s{c} [ it_i{c} ] ; it_i{c} = it_i{c} + 1 ; ")
                    out += body + L("} }")
                elif et.endswith(". iter ( )"):
                    e = e[:-4]
                    out += L(f"{{ let it_s{c} = ") + e + L(f" ; let mut it_i{c} : usize = 0 ; while it_i{c} < it_s{c} . len ( ) {{ let ")
                    out += p + L(f" = & it_s{c} [ it_i{c} ] ; it_i{c} = it_i{c} + 1 ; ")
                    out += body + L("} }")
                else:
                    out += L(f"{{ let mut it_x{c} = ") + e + L(f" . into_iter ( ) ; loop {{ match it_x{c} . next ( ) {{ Some ( ") + p
                    out += L(") => {") + body + L("} None => { break ; } } } }")
                i = end
                continue
            out.append(toks[i])
            i += 1
        return out
    return go(toks)


def slot_names(toks):
    """`let p = self . mut_ptr ( ) . add ( e ) ;` where nothing in e changes: e takes the place of p."""
    i = 0
    while i + 3 < len(toks):
        if toks[i].s == "let" and toks[i + 1].kind == "id" and toks[i + 2].s == "=" and toks[i + 1].s != "mut":
            z = i + 3
            while z < len(toks) and toks[z].s != ";":
                z = match(toks, z) if toks[z].s in OPEN else z + 1
            e = toks[i + 3:z]
            et = rs.text(e)
            if re.match(r"^\w+ \. (mut_)?ptr \( \)( \. add \( [\w+ -]+ \))?$", et):
                x = toks[i + 1].s
                names = {t.s for t in e if t.kind == "id"} - {"mut_ptr", "ptr", "add"}
                fixed = not any(t.s in names and t.kind == "id" and (
                    (k and toks[k - 1].s == "mut" and not (k > 1 and toks[k - 2].s == "&")) or (k + 1 < len(toks) and toks[k + 1].s in ("=", "+=", "-=", "*=", "/=")))
                    for k, t in enumerate(toks))
                if fixed and sum(t.s == x and t.kind == "id" and toks[k - 1].s in ("let", "mut", "|", "(") and toks[k + 1].s in ("=", "|", ":") for k, t in enumerate(toks) if 0 < k < len(toks) - 1) == 1:
                    rest = []
                    for k, t in enumerate(toks[z + 1:]):
                        rest += e if t.s == x and t.kind == "id" and toks[z + k].s != "." else [t]
                    toks = toks[:i] + rest
                    continue
        i += 1
    return toks


def option_elses(toks):
    """`X . unwrap_or_else ( | | B )` on an Option becomes a match."""
    i = 0
    while i < len(toks):
        if toks[i].s == "." and i + 3 < len(toks) and toks[i + 1].s == "unwrap_or_else" and toks[i + 2].s == "(" and (
                toks[i + 3].s == "||" or (toks[i + 3].s == "|" and toks[i + 4].s == "|")):
            end = match(toks, i + 2)
            b = toks[i + (4 if toks[i + 3].s == "||" else 5):end - 1]
            st = rw.receiver_start(toks, i)
            line = toks[i].line

            def L(s):
                return [T(t.s, line, t.kind) for t in rs.lex(s)]
            new = L("( match ") + toks[st:i] + L(" { Some ( x_ ) => x_ , None => ") + b + L(" , } )")
            toks = toks[:st] + new + toks[end:]
            i = st
        i += 1
    return toks


# X . NAME ( | p | B ) on an Option
OPTION_FNS = {
    "map": ("Some ( ", " )", "None"),
    "and_then": ("", "", "None"),
    "is_some_and": ("", "", "false"),
    "is_none_or": ("", "", "true"),
    "map_or": ("", "", None),
}


def option_maps(toks):
    """`X . map ( | p | B )` on an Option becomes a match (a closure would hide B from the verifier);
    `and_then`, `is_some_and`, `is_none_or` and `map_or` likewise."""
    i = 0
    while i < len(toks):
        if toks[i].s == "." and i + 3 < len(toks) and toks[i + 1].s in OPTION_FNS and toks[i + 2].s == "(":
            end = match(toks, i + 2)
            args = rs.split_top(toks[i + 3:end - 1])
            before, after, none = OPTION_FNS[toks[i + 1].s]
            line = toks[i].line

            def L(s):
                return [T(t.s, line, t.kind) for t in rs.lex(s)]
            at = i + 3
            if none is None and len(args) > 1 and len(args[0]) <= 3 and all(t.kind != "op" or t.s in ("-", "::") for t in args[0]):
                none = rs.text(args[0])
                at += len(args[0]) + 1
            if none is not None and toks[at].s == "|":
                j = at + 1
                while toks[j].s != "|":
                    j = match(toks, j) if toks[j].s in OPEN else j + 1
                p, b = toks[at + 1:j], toks[j + 1:end - 1]
                if b and b[-1].s == ",":
                    b = b[:-1]
                if p and not any(t.s in ("return", "?") for t in b):
                    st = rw.receiver_start(toks, i)
                    new = L("( match ") + toks[st:i] + L(" { Some ( ") + p + L(" ) => " + before) + b + L(after + " , None => " + none + " , } )")
                    toks = toks[:st] + new + toks[end:]
                    i = st
            elif none is not None and args and toks[i + 1].s == "map" and all(t.kind == "id" or t.s == "::" for t in args[0]):
                st = rw.receiver_start(toks, i)
                new = L("( match ") + toks[st:i] + L(" { Some ( x_ ) => Some ( ") + args[0] + L(" ( x_ ) ) , None => None , } )")
                toks = toks[:st] + new + toks[end:]
                i = st
        i += 1
    return toks


def or_guards(toks):
    """`P | Q if g => b` becomes `P if g => b, Q if g => b` (the verifier takes the two only apart)."""
    out, i = [], 0
    while i < len(toks):
        if toks[i].s == "match" and toks[i].kind == "id":
            j = i + 1
            j = rs.block_of(toks, j)
            end = match(toks, j)
            out += toks[i:j + 1]
            k = j + 1
            while k < end - 1:
                a = k
                while toks[a].s != "=>":
                    a = match(toks, a) if toks[a].s in OPEN else a + 1
                z = a + 1
                if toks[z].s == "{":
                    z = match(toks, z)
                    if z < end - 1 and toks[z].s in (".", "?"):
                        while z < end - 1 and toks[z].s != ",":
                            z = match(toks, z) if toks[z].s in OPEN else z + 1
                else:
                    while z < end - 1 and toks[z].s != ",":
                        z = match(toks, z) if toks[z].s in OPEN else z + 1
                body = or_guards(toks[a:z])
                if z < end - 1 and toks[z].s == ",":
                    z += 1
                head = toks[k:a]
                g = None
                d = 0
                while d < len(head):
                    if head[d].s == "if":
                        g = d
                        break
                    d = match(head, d) if head[d].s in OPEN else d + 1
                pats = [head]
                if g is not None:
                    pats, cur, d = [], [], 0
                    while d < g:
                        if head[d].s == "|":
                            if cur:
                                pats.append(cur + head[g:])
                            cur = []
                            d += 1
                            continue
                        e = match(head, d) if head[d].s in OPEN else d + 1
                        cur += head[d:e]
                        d = e
                    pats.append(cur + head[g:])
                for h in pats:
                    out += h + body + [T(",", toks[a].line, "op")]
                k = z
            out.append(toks[end - 1])
            i = end
            continue
        out.append(toks[i])
        i += 1
    return out


PANICS = {"panic", "unreachable", "unimplemented", "todo"}


EDITS = {"keys_mut", "children_mut", "remove_leaf", "remove_branch", "remove_last_branch", "insert_leaf_pair",
         "insert_branch_pair", "push_branch_pair", "push_leaf", "push_branch", "get_branch_mut", "get_leaf_mut", "insert"}


def ptr_edits(toks):
    """`let b = &mut *(p as *mut Branch)` keeps the pointer; what is then done through `b` goes
    through the root: `b.as_mut(root).edit(..)`, `b.look(root).read(..)`."""
    names = set()
    hits = rw.find_all("let $x:id = & mut * ( $y:id as * mut Branch < K , V , C > ) ;", toks)
    if not hits:
        return toks
    out, k = [], 0
    spans = {a: (z, b) for a, z, b in hits}
    while k < len(toks):
        if k in spans:
            z, b = spans[k]
            x = b["x"][0].s
            names.add(x)
            line = toks[k].line
            if x != b["y"][0].s:
                out += [T(t.s, line, t.kind) for t in rs.lex(f"let {x} = {b['y'][0].s} ;")]
            k = z
            continue
        t = toks[k]
        if (t.kind == "id" and t.s in names and k + 3 < len(toks) and toks[k + 1].s == "."
                and toks[k + 2].kind == "id" and toks[k + 3].s == "(" and toks[k - 1].s not in (".", "::")):
            how = "as_mut" if toks[k + 2].s in EDITS else "look"
            out += [T(x.s, t.line, x.kind) for x in rs.lex(f"{t.s} . {how} ( root )")]
            k += 1
            continue
        out.append(t)
        k += 1
    return out


LOOKS = ("len", "is_empty", "is_full", "has_branches", "has_leaves", "highest", "lowest", "keys", "get",
         "is_some", "is_none", "is_ok", "is_err", "is_null")


def quiet(toks):
    """Nothing but looking: leaving the expression out (as a release build does) changes nothing else."""
    for k, t in enumerate(toks):
        if t.s in ("{", "?", "!", "return", "|", "+=", "-=", "*=", "/=", "|=", "&=", "^=", "%=", "<<=", ">>=", "="):
            if t.s == "!" and (k + 1 == len(toks) or toks[k + 1].s not in OPEN or k == 0 or toks[k - 1].kind != "id"):
                continue
            return False
        if t.s == "mut":
            return False
        if t.s == "(" and k and (toks[k - 1].kind == "id" or toks[k - 1].s == ">") and toks[k - 1].s not in LOOKS:
            return False
    return True


def macros(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].kind == "id" and i + 2 < len(toks) and toks[i + 1].s == "!" and toks[i + 2].s in OPEN and toks[i + 1].line >= 0:
            nm = toks[i].s
            end = match(toks, i + 2)
            line = toks[i].line
            if nm in PANICS:
                out += [T(t.s, line, t.kind) for t in rs.lex("rt_stop ( )" if end < len(toks) and toks[end].s == ";" else "rt_unreachable ( )")]
                i = end
                continue
            if nm.startswith("debug_assert") and not quiet(toks[i + 3:end - 1]):
                out += rs.rt_debug(macros([T(nm[6:], line, "id")] + toks[i + 1:end]), line)
                i = end
                continue
            if nm in ("assert", "debug_assert"):
                args = rs.split_top(toks[i + 3:end - 1])
                out += [T(t.s, line, t.kind) for t in rs.lex("rt_assert ( ")] + macros(args[0]) + [T(")", line, "op")]
                i = end
                continue
            if nm in ("assert_eq", "debug_assert_eq", "assert_ne", "debug_assert_ne"):
                args = rs.split_top(toks[i + 3:end - 1])
                op = "==" if nm.endswith("eq") else "!="
                out += ([T(t.s, line, t.kind) for t in rs.lex("rt_assert ( (")] + args[0]
                        + [T(t.s, line, t.kind) for t in rs.lex(") " + op + " (")] + args[1]
                        + [T(t.s, line, t.kind) for t in rs.lex(") )")])
                i = end
                continue
        out.append(toks[i])
        i += 1
    return out


def lower(fn, con):
    """The body with every rewriting applied, loops still bare."""
    if fn.bad:
        raise Bad(fn.bad)
    b = list(rs.strip_attrs(fn.whole, {"debug": True, "release": False}.get(con.cfg)))
    for p, r, opt in con.presubs:
        hits = rw.find_all(p, b)
        if not hits and not opt:
            raise Bad(f"lost anchor `{p}`")
        b = rw.rewrite(b, [(p, r)])
    b = inline.while_lets(inline.shapes(macros(b)))
    if con.mod in ISOLATED:
        b = end_drops(fn, rw.rewrite(b, WORD_RULES))
    if "root" in con.gparams:
        b = ptr_edits(b)
    if any(t.s == "|" for t in b):
        b = or_guards(b)
    b = for_loops(b)
    b = rw.rewrite(slot_names(b), RULES)
    b = option_maps(option_elses(b))
    for p, r, opt in con.subs:
        hits = rw.find_all(p, b)
        if not hits and not opt:
            con.missing.append(p)
        b = rw.rewrite(b, [(p, r)])
    if con.closures:
        b = closures(b, con.closures)
    return b


def end_drops(fn, toks):
    """A pointer taken by value and not moved on is dropped at the end: say so."""
    for p in fn.params:
        m = re.match(r"^(?:mut )?(\w+) : (Self|Pointer < .*)$", rs.text(p))
        if not m or (m.group(2) == "Self" and (not fn.impl or fn.impl.type_name() != "Pointer")):
            continue
        x = m.group(1)
        at = [i for i, t in enumerate(toks) if t.s == x and t.kind == "id"]
        whole = [i for i in at if (i + 1 >= len(toks) or toks[i + 1].s != ".") and not (
            i and (toks[i - 1].s == "&" or i > 1 and toks[i - 1].s == "mut" and toks[i - 2].s == "&"))]
        if not whole and toks:
            ln = toks[-1].line
            L = lambda s: [T(t.s, ln, t.kind) for t in rs.lex(s)]
            toks = L("let rt_r = {") + list(toks) + L("} ; rt_drop ( %s ) ; rt_r" % x)
    return toks


def closures(toks, want):
    """`| p , q | body` gets typed parameters and a contract: `| a_ : .. , b_ : .. | -> .. ensures ..
    { let p = a_ ; let q = b_ ; body }`."""
    alike = 0 in want and len(want) > 1 and len(set(want.values())) == 1
    out, i, n = [], 0, 0
    while i < len(toks):
        if toks[i].s == "|" and i and toks[i - 1].s in ("(", ",", "=", "move", "return", "=>"):
            j, ps, cur = i + 1, [], []
            while toks[j].s != "|":
                e = match(toks, j) if toks[j].s in OPEN else j + 1
                if toks[j].s == ",":
                    ps.append(cur)
                    cur = []
                else:
                    cur += toks[j:e]
                j = e
            if cur:
                ps.append(cur)
            z = j + 1
            if toks[z].s == "{":
                z = match(toks, z)
            else:
                while z < len(toks) and toks[z].s not in (",", ")", ";", "}"):
                    z = match(toks, z) if toks[z].s in OPEN else z + 1
            if n not in want and not alike:
                raise Bad("a closure without a contract")
            types, spec = want[n if n in want else 0]
            types = [t.strip() for t in types.split(";")]
            if len(types) != len(ps):
                raise Bad("the closure's parameters changed")
            line = toks[i].line

            def L(s):
                return [T(t.s, line, t.kind) for t in rs.lex(s)]
            out += L("| " + " , ".join(f"a{k}_ : {t}" for k, t in enumerate(types)) + " | " + spec + " {")
            for k, p in enumerate(ps):
                q = p
                for w in range(len(p)):
                    if p[w].s == ":" :
                        q = p[:w]
                        break
                out += L("let") + q + L(f"= a{k}_ ;")
            out += closures(toks[j + 1:z], {}) + L("}")
            i = z
            n += 1
            continue
        out.append(toks[i])
        i += 1
    if n != len(want) and not alike:
        raise Bad("the number of closures changed")
    return out


def raw(s, line=-1):
    return T("\n" + s + "\n", line, "raw")


def statement_start(toks, i):
    """Where the statement around toks[i] starts; None within an arm that is no block."""
    while i:
        s = toks[i - 1].s
        if s in (";", "{", "}"):
            return None if toks[i].s == "else" or s == "{" and toks[i + 1].s in (":", ",") else i
        if s == "=>":
            return None
        if s in (")", "]"):
            d, k = 0, i - 1
            while k >= 0:
                d += (toks[k].s in (")", "]", "}")) - (toks[k].s in OPEN)
                if d == 0:
                    break
                k -= 1
            i = k
            continue
        i -= 1
    return 0


def weave(toks, con):
    ins = []           # (index, order, text)
    for kind in ("before", "after"):
        for p, nth, txt in getattr(con, kind):
            hits = rw.find_all(p, toks)
            if nth >= len(hits):
                con.missing.append(p)          # the proof may do without; see proof.decide when not
                continue
            a, z, _ = hits[nth]
            if kind == "before":
                a = statement_start(toks, a)
                if a is None:
                    con.missing.append(p)
                    continue
            ins.append((a if kind == "before" else z, 0 if kind == "after" else 1, txt))
    # loops, in order of appearance
    n = 0
    i = 0
    seen = 0
    while i < len(toks):
        if toks[i].s in ("loop", "while") and toks[i].kind == "id" and (i == 0 or toks[i - 1].s != "."):
            j = i + 1
            j = rs.block_of(toks, j)
            if n in con.loops:
                ins.append((j, 2, con.loops[n]))
                seen += 1
                if n in con.bodies:
                    ins.append((j + 1, 0, con.bodies[n]))
            elif "#[verifier::exec_allows_no_decreases_clause]" not in con.attrs:
                raise Bad("a loop without an invariant")
            n += 1
        i += 1
    if seen != len(con.loops):
        con.missing.append("a loop that is gone")
    ins.sort(key=lambda x: (x[0], x[1]))
    out, k = [], 0
    for i in range(len(toks) + 1):
        while k < len(ins) and ins[k][0] == i:
            out.append(raw(ins[k][2]))
            k += 1
        if i < len(toks):
            out.append(toks[i])
    if con.start.strip():
        out = [raw(con.start)] + out
    return out


TYRULES = [
    ("* const Branch < K , V , C >", "BPtr<K, V, C>"),
    ("* const Leaf < K , V , C >", "LPtr<K, V, C>"),
    ("PtrPath < K , V , C >", "Stack<K, V, C>"),
    ("ArrayLength < A >", "ArrayLength"),
    ("Array < A , N2 >", "Array<A, N2>"),
    ("Iterator < Item = $a >", "Source<Item = $a>"),
    ("IntoIterator < Item = $a >", "IntoSource<Item = $a>"),
]


def tyfix(toks):
    return rw.rewrite(list(toks), TYRULES)


class Emit:
    def __init__(self):
        self.lines = []        # text
        self.map = []          # (fn id or None, source file, source line)
        self.cur = ""
        self.curmap = None

    def put(self, s, where=None):
        """Text that may hold newlines."""
        for n, piece in enumerate(s.split("\n")):
            if n:
                self.nl()
            if piece:
                self.cur += piece
                if where and (self.curmap is None or self.curmap[2] <= 0):
                    self.curmap = where

    def nl(self):
        self.lines.append(self.cur)
        self.map.append(self.curmap)
        self.cur = ""
        self.curmap = None

    def tokens(self, toks, fid, file, depth=1):
        for t in toks:
            if t.kind == "raw":
                if self.cur.strip():
                    self.nl()
                for ln in t.s.strip("\n").split("\n"):
                    self.put("    " + ln, (fid, file, 0))
                    self.nl()
                continue
            if t.s == "}":
                if self.cur.strip():
                    self.nl()
            self.put(("  " if not self.cur else " ") + t.s, (fid, file, t.line))
            if t.s in (";", "{", "}"):
                self.nl()
        if self.cur.strip():
            self.nl()


def find_fn(files, con):
    f = files[con.file]
    pool = f.fns + [x for im in f.impls for x in im.fns]
    if con.inner:
        outer = [x for x in pool if x.key == con.inner]
        pool = [g for o in outer for g in o.inner]
        cands = [x for x in pool if x.name == con.key]
    else:
        cands = [x for x in pool if x.key == con.key]
    if con.nth >= len(cands):
        raise Bad(f"{con.key} is gone from {con.file}")
    if not con.nth and len(cands) > 1 and not con.inner and False:
        raise Bad("ambiguous")
    return cands[con.nth]


def emit_fn(em, fn, con, stub=None, assume_stub=False):
    """stub: reason the body cannot be followed; then only the contract is emitted, unproved."""
    fid = con.id()
    im = fn.impl
    where = (fid, con.file, fn.line)
    em.nl()
    if im and not con.as_impl == "none":
        g = con.impl_generics if con.impl_generics is not None else rs.text(im.generics)
        ty = con.impl_ty or rs.text(tyfix(im.ty))
        w = con.impl_where if con.impl_where is not None else rs.text(tyfix(im.where))
        em.put(f"impl{'<' + g + '>' if g else ''} {ty}" + (f" where {w}" if w.strip() else "") + " {", where)
        em.nl()
    for a in con.attrs:
        em.put(a, where)
        em.nl()
    if stub:
        em.put("#[verifier::external_body]", where)
        em.nl()
    params = [tyfix(p) for p in fn.params]
    mutself = False
    ps = []
    for p in params:
        s = rs.text(p)
        if s == "mut self":
            mutself = True
            s = "self"
        ps.append(s)
    if con.gparams:
        ps.append(con.gparams)
    if con.params is not None:
        ps = [con.params]
    gen = con.generics if con.generics is not None else rs.text(tyfix(fn.generics))
    ret = con.ret_ty if con.ret_ty is not None else rs.text(tyfix(fn.ret))
    if im:
        for k, v in im.types.items():
            vt = rs.text(v).lstrip("= ")
            ret = ret.replace(f"Self :: {k}", vt)
    w = con.where if con.where is not None else rs.text(tyfix(fn.where))
    if stub:
        ret = re.sub(r"^impl Source ?< ?Item = (.*) ?>$", r"AnySource<\1>", ret.strip())
    name = con.ident()
    em.put(f"pub fn {name}{'<' + gen + '>' if gen.strip() else ''}({', '.join(ps)})"
           + (f" -> ({con.ret}: {ret})" if ret.strip() else ""), where)
    em.nl()
    if w.strip():
        em.put("    where " + w.rstrip(", ") + ",", where)
        em.nl()
    for ln in con.spec.strip("\n").split("\n"):
        em.put(ln, (fid, con.file, 0))
        em.nl()
    em.put("{", where)
    em.nl()
    if stub:
        em.put("    unimplemented!()", where)
        em.nl()
    else:
        body = lower(fn, con)
        if mutself:
            body = [T("self_" if t.s == "self" else t.s, t.line, t.kind) for t in body]
            body = rs.lex("let mut self_ = self ;") + body
            for t in body[:6]:
                t.line = fn.line
        body = weave(body, con)
        em.tokens(body, fid, con.file)
    em.put("}", where)
    em.nl()
    if im and not con.as_impl == "none":
        em.put("}", where)
        em.nl()


HEADER = """#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_unsafe, unused_parens, unused_braces, unreachable_code, unused_assignments, non_snake_case, unused_labels, unused_must_use)]
"""
# Where trees are only read while a cursor lives.
UNWRITTEN = ("cursor", "iter", "muti")

USES = """use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
use std::ops::Deref;
use std::marker::PhantomData;
use vstd::std_specs::ops::*;
"""

MODULES = ["base", "tree", "path", "nodes", "conc", "array", "leaf", "search", "branch", "lookup", "binsert", "cursor", "edit", "entry", "palm", "iter", "muti", "owned", "source", "load", "merge", "compare", "pointer"]


def struct_text(st, where=None):
    """A struct declaration of the crate, with the pointer types replaced."""
    b = tyfix(st.body)
    # every field public
    out = []
    if st.kind == "struct":
        fields = rs.split_top(b[1:-1])
        fs = []
        for f in fields:
            f = [t for t in f]
            while f and f[0].s == "pub":
                f = f[1:]
                if f and f[0].s == "(":
                    f = f[match(f, 0):]
            fs.append("pub " + rs.text(f))
        body = "{ " + ", ".join(fs) + " }"
    else:
        body = rs.text(b)
    g, w = rs.text(st.generics), where or rs.text(tyfix(st.where))
    return f"pub {st.kind} {st.name}<{g}> " + (f"where {w} " if w.strip() else "") + body


def levels(src):
    """How many levels PtrPath holds: the length of the array behind it, or no end of them."""
    try:
        t = open(os.path.join(src, "search.rs")).read()
    except OSError:
        raise Bad("search.rs is gone")
    t = re.sub(r"//[^\n]*|/\*.*?\*/", "", t, flags=re.S)
    m = re.search(r"\btype\s+PtrPath\b[^=]*=\s*([^;]*(?:;[^;]*?\]\s*>)?)\s*;", t)
    if not m:
        raise Bad("the type PtrPath is gone from search.rs")
    ty = re.sub(r"\s+", "", m.group(1))
    if re.match(r"(std::vec::)?Vec<|(\w+::)?SmallVec<", ty):
        return "0x7fff_ffff"
    m = re.match(r"(?:\w+::)?ArrayVec<\[.*;(\w+)\]>$", ty) or re.match(r"(?:\w+::)?ArrayVec<.*,(\w+)>$", ty) \
        or re.match(r"(?:\w+::)?Chunk<.*,U(\d+)>$", ty)
    n = m.group(1) if m else ""
    if n and not n[0].isdigit():
        c = re.search(r"\bconst\s+%s\s*:\s*usize\s*=\s*([\d_]+)\s*;" % re.escape(n), t)
        n = c.group(1) if c else ""
    n = re.sub(r"_|usize$", "", n)
    if not n.isdigit():
        raise Bad("cannot tell how many levels PtrPath holds: " + ty[:80])
    return n


class Generated:
    pass


def load_sources(src=SRC):
    files, errs = {}, {}
    for root, _, names in os.walk(src):
        for n in names:
            p = os.path.join(root, n)
            rel = os.path.relpath(p, src)
            if rel.endswith(".rs"):
                try:
                    files[rel] = rs.read(p, rel)
                except (Bad, IndexError) as e:
                    errs[rel] = str(e)
    return files, errs


def generate(stubs=None, only=None, src=SRC, poison=False, loose=()):
    """stubs: {function id: reason} to emit contract-only; loose: functions whose loops also see what
    was known before them."""
    stubs = dict(stubs or {})
    files, errs = load_sources(src)
    em = Emit()
    em.put(HEADER)
    em.nl()
    fns = {}
    ranges, words = {}, {}
    present = [m for m in MODULES if os.path.exists(os.path.join(PROOF, m + ".rs")) or os.path.exists(os.path.join(PROOF, m + ".spec"))]
    specs = {m: read_contracts(os.path.join(PROOF, m + ".spec")) for m in present
             if os.path.exists(os.path.join(PROOF, m + ".spec"))}
    known = names.load(PROOF)
    cand = inline.candidates(files, [x for ps in specs.values() for k, x in ps if k == "fn"])
    for m in MODULES:
        rsf, spf = os.path.join(PROOF, m + ".rs"), os.path.join(PROOF, m + ".spec")
        if not (os.path.exists(rsf) or os.path.exists(spf)):
            continue
        em.put(f"pub mod {m} {{\n{USES}" + "".join(f"use super::{x}::*;\n" for x in present if x != m and x not in ISOLATED) + "verus! {\nbroadcast use " + ("{group_laws, group_nodes}" if m == "pointer" else "{group_laws, group_nodes, axiom_unwritten}" if m in UNWRITTEN else "{group_laws, group_nodes}" if m not in ("base", "tree", "path", "nodes", "conc", "array", "leaf", "search") else "group_laws") + ";\n")
        if m == "base":
            em.lines[-1] = em.lines[-1].replace("broadcast use group_laws;", "")
        parts = []
        if os.path.exists(rsf):
            parts.append(("text", open(rsf).read()))
        if os.path.exists(spf):
            parts += specs[m]
        for kind, x in parts:
            if kind == "text":
                def st(mm):
                    file, name = mm.group(1), mm.group(2)
                    f = files.get(file)
                    if not f or name not in f.structs:
                        raise Bad(f"struct {name} is gone from {file}")
                    return struct_text(f.structs[name], mm.group(3))
                x = re.sub(r"^//= struct (\S+) (\S+)(?: where (.*))?$", st, x, flags=re.M)
                x = re.sub(r"^//= levels$", lambda _: "pub open spec fn levels() -> int { %s }" % levels(src), x, flags=re.M)
                em.put(x)
                em.nl()
                continue
            con = x
            fid = con.id()
            fns[fid] = con
            try:
                if con.file not in files:
                    raise Bad(errs.get(con.file, f"{con.file} is gone"))
                fn = find_fn(files, con)
                con.src_line = fn.line
                if cand and not fn.bad:
                    fn = copy.copy(fn)
                    fn.whole = inline.expand(fn.whole, cand)
                    fn.body = rs.both(fn.whole)
                if fid in known:
                    con = fns[fid] = names.apply(con, names.renamed(known[fid], fn))
                    con.src_line = fn.line
            except Bad as e:
                stubs[fid] = str(e)
                continue
            reason = stubs.get(fid)
            if con.trusted and not reason:
                reason = "trusted: " + con.trusted
            mark = (len(em.lines), em.cur, em.curmap)
            try:
                if fid in loose and not reason:
                    con.attrs = con.attrs + ["#[verifier::loop_isolation(false)]"]
                if poison and not reason:
                    con.start = con.start.rstrip("\n") + "\n    proof { assert(false); }\n"
                words[fid] = {t.s for t in fn.body if t.kind == "id"} | set(re.findall(r"\w+", " ".join(r for _, r, _ in con.subs + con.presubs)))
                emit_fn(em, fn, con, stub=reason)
            except (Bad, IndexError) as e:
                stubs[fid] = "cannot follow the source: " + str(e)
                del em.lines[mark[0]:]
                del em.map[mark[0]:]
                em.cur, em.curmap = mark[1], mark[2]
                emit_fn(em, fn, con, stub=stubs[fid])
            ranges[fid] = (mark[0], len(em.lines))
        em.put("}\n}\n")
        em.nl()
    em.put("fn main() {}\n")
    em.nl()
    g = Generated()
    g.text = "\n".join(em.lines) + "\n"
    g.map = em.map
    g.fns = fns
    g.stubs = stubs
    g.ranges = ranges
    g.words = words
    g.files = files
    return g


def base_text(g):
    """The generated text without the extracted functions."""
    lines = g.text.split("\n")
    for a, b in g.ranges.values():
        for i in range(a, b):
            lines[i] = ""
    return "\n".join(lines)


if __name__ == "__main__":
    g = generate()
    open(sys.argv[1], "w").write(g.text)
    for k, v in g.stubs.items():
        print("UNDECIDED", k, v)

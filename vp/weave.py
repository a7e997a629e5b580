"""Mechanical extraction: from the preprocessed text of a unit (the real
/repo sources plus the contracts of the unit) to the text that goto-cc reads.

What it changes, and nothing else:
  * bodies of top-level functions that use clang block literals (^{...}), and of
    the in-source test groups (z_*), are replaced by `;` (dropped bodies are
    reported; a call to one of them in a proof is an unconstrained call);
  * loop contracts given in the unit are inserted after the header of the
    designated loop of the designated function.
"""
import re

TOK = re.compile(
    r'(?P<ws>\s+)|(?P<line>^#[^\n]*$)|(?P<str>"(?:\\.|[^"\\])*")'
    r"|(?P<chr>'(?:\\.|[^'\\])*')|(?P<id>[A-Za-z_$]\w*)"
    r'|(?P<num>\.?\d(?:[eEpP][+-]|[\w.])*)|(?P<op>.)', re.M | re.S)

NOT_NAME = {'__attribute__', '__attribute', '__asm__', 'asm', '__asm',
            '__typeof__', 'typeof', '_Alignas', '__extension__', '__declspec',
            '__CPROVER_requires', '__CPROVER_ensures', '__CPROVER_assigns',
            '__CPROVER_frees', '_Static_assert'}


class Func:
    __slots__ = ('name', 'start', 'body', 'end', 'tokens')

    def __init__(self, name, start, body, end, tokens):
        self.name, self.start, self.body, self.end = name, start, body, end
        self.tokens = tokens            # significant tokens of the body


def tokenize(text):
    out = []
    for m in TOK.finditer(text):
        k = m.lastgroup
        if k in ('ws', 'line'):
            continue
        out.append((k, m.group(), m.start(), m.end()))
    return out


def functions(text):
    """Top-level function definitions of a preprocessed C text."""
    toks = tokenize(text)
    res = []
    i, n = 0, len(toks)
    while i < n:
        # one external declaration
        start = i
        name = None
        has_eq = False
        par = 0
        isfunc = False
        while i < n:
            k, t, s, e = toks[i]
            if t == '(' or t == '[':
                if (t == '(' and par == 0 and name is None and i > start
                        and toks[i - 1][0] == 'id'
                        and toks[i - 1][1] not in NOT_NAME):
                    name = toks[i - 1][1]
                    # type (name)(args): not to be seen as a macro
                    if (i + 3 < n and toks[i + 1][0] == 'id'
                            and toks[i + 2][1] == ')'
                            and toks[i + 3][1] == '('):
                        name = toks[i + 1][1]
                par += 1
            elif t == ')' or t == ']':
                par -= 1
            elif par == 0 and t == '=':
                has_eq = True
            elif par == 0 and t == ';':
                i += 1
                break
            elif t == '{':
                # statement expression inside parentheses, or an aggregate
                isfunc = (par == 0 and name is not None and not has_eq
                          and toks[start][1] != 'typedef'
                          and toks[i - 1][1] == ')')
                j = i
                d = 0
                while j < n:
                    if toks[j][1] == '{' and toks[j][0] == 'op':
                        d += 1
                    elif toks[j][1] == '}' and toks[j][0] == 'op':
                        d -= 1
                        if d == 0:
                            break
                    j += 1
                if isfunc:
                    res.append(Func(name, toks[start][2], toks[i][2],
                                    toks[j][3] if j < n else len(text),
                                    toks[i:j + 1]))
                    i = j + 1
                    break
                i = j
            i += 1
    return res


UNARY_BEFORE = {'(', ',', '=', '{', '}', ';', 'return', '?', ':', '['}


def has_block(f):
    t = f.tokens
    for i, (k, s, _, _) in enumerate(t):
        if s == '__block':
            return True
        if k == 'op' and s == '^' and i + 1 < len(t):
            if t[i - 1][1] in UNARY_BEFORE and t[i + 1][1] in ('{', '('):
                return True
            # ^type (args) {  /  ^type {, but not the declarator (^name)
            if t[i - 1][1] in UNARY_BEFORE and t[i + 1][0] == 'id' \
                    and not (t[i - 1][1] == '(' and i + 2 < len(t)
                             and t[i + 2][1] == ')'):
                return True
    return False


def loops(f):
    """Insertion points of the loop contracts of a function, textual order:
    list of (position, header text)."""
    t = f.tokens
    res = []
    dostack = []
    i = 0
    depth = 0
    while i < len(t):
        k, s, a, b = t[i]
        if s == '{':
            depth += 1
        elif s == '}':
            depth -= 1
            # a `while` right after the body of a `do`
            if dostack and dostack[-1] == depth:
                if i + 1 < len(t) and t[i + 1][1] == 'while':
                    dostack.pop()
                    i += 2
                    continue
        elif k == 'id' and s == 'do' and i + 1 < len(t) and t[i + 1][1] == '{':
            res.append((b, 'do'))
            dostack.append(depth)
        elif k == 'id' and s in ('for', 'while') and t[i + 1][1] == '(':
            d = 0
            j = i + 1
            while True:
                if t[j][1] == '(':
                    d += 1
                elif t[j][1] == ')':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            res.append((t[j][3],
                        ' '.join(x[1] for x in t[i:j + 1])))
            # continue inside the header: a statement expression may loop
        i += 1
    # drop `do { } while (0)` wrappers of macros
    return res


def real_loops(f, text):
    """loops(f) without the `do { ... } while (0)` wrappers."""
    t = f.tokens
    out = []
    for pos, hdr in loops(f):
        if hdr == 'do':
            # find the matching while
            idx = next(i for i, x in enumerate(t) if x[3] == pos)
            d = 0
            j = idx + 1
            while True:
                if t[j][1] == '{':
                    d += 1
                elif t[j][1] == '}':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            cond = ''.join(x[1] for x in t[j + 2:j + 5])
            if t[j + 1][1] == 'while' and cond in ('(0)',):
                continue
        out.append((pos, hdr))
    return out


def union_members(toks):
    """Pointer members of unions other than those of the first alternative."""
    names = set()
    n = len(toks)
    i = 0
    while i < n:
        if toks[i][1] == 'union' and toks[i][0] == 'id':
            j = i + 1
            while j < n and (toks[j][0] == 'id' or toks[j][1] in '()'):
                j += 1
            if j < n and toks[j][1] == '{':
                d = 0
                first = True
                anyptr_first = False
                k = j
                while k < n:
                    t = toks[k][1]
                    if t == '{':
                        d += 1
                    elif t == '}':
                        d -= 1
                        if d == 0:
                            break
                    elif t == ';' and d == 1:
                        first = False
                    elif t == '*' and toks[k + 1][0] == 'id':
                        m = k + 1
                        while toks[m + 1][0] == 'id':
                            m += 1
                        if toks[m + 1][1] in (';', ',', '['):
                            if not first:
                                names.add(toks[m][1])
                    k += 1
        i += 1
    return names


def pun_fix(text):
    """cbmc loses the points-to set of `e->m` when m is a pointer member of a
    union other than the first and e->m is dereferenced in place.  The value
    is first copied to a temporary: `e->m[i]` becomes
    `({ typeof(&(e->m)[0]) t = e->m; t; })[i]`, and likewise `*e->m`, `e->m->f`."""
    toks = tokenize(text)
    names = union_members(toks)
    if not names:
        return text, 0
    n = len(toks)
    edits = []

    def chain_start(i):
        """index of the first token of the postfix chain ending at i"""
        while True:
            # toks[i] is an identifier, ) or ]
            if toks[i][1] in (')', ']'):
                d = 0
                while True:
                    if toks[i][1] in (')', ']'):
                        d += 1
                    elif toks[i][1] in ('(', '['):
                        d -= 1
                        if d == 0:
                            break
                    i -= 1
                    if i < 0:
                        return None
                # (args) or [idx]: belongs to what precedes
                if toks[i - 1][0] == 'id' and toks[i - 1][1] not in (
                        'return', 'sizeof', 'if', 'while', 'for', 'case') or \
                        toks[i - 1][1] in (')', ']'):
                    if toks[i][1] == '(' and toks[i - 1][1] in (')', ']'):
                        return i          # cast or parenthesised
                    i -= 1
                    continue
                return i
            if toks[i - 1][1] == '.':
                i -= 2
                continue
            if toks[i - 1][1] == '>' and toks[i - 2][1] == '-':
                i -= 3
                continue
            return i

    for i in range(3, n - 1):
        if toks[i][0] != 'id' or toks[i][1] not in names:
            continue
        if not (toks[i - 1][1] == '.' and toks[i - 2][1] != '.'
                and (toks[i - 2][0] == 'id' or toks[i - 2][1] in ')]')
                or toks[i - 1][1] == '>' and toks[i - 2][1] == '-'):
            continue
        st = chain_start(i)
        if st is None or toks[st][0] == 'num':
            continue
        nx = toks[i + 1][1]
        end = i
        arrow = nx == '-' and toks[i + 2][1] == '>'
        if nx == '[' or arrow:
            pass
        elif nx in '+-' and toks[i + 2][1] not in '+-=' \
                and toks[st - 1][1] == '(' and toks[st - 2][1] == '*':
            pass            # *(e->m + 1)
        else:
            pv, pvk = toks[st - 1][1], toks[st - 1][0]
            if pv != '*':
                continue
            pp, ppk = toks[st - 2][1], toks[st - 2][0]
            if (ppk == 'id' and pp not in ('return', 'sizeof', 'case')) or \
                    ppk == 'num' or pp == ']':
                continue        # a product
            if pp == ')':
                # a cast if the parenthesis holds a type name
                j = st - 2
                d = 0
                while True:
                    if toks[j][1] == ')':
                        d += 1
                    elif toks[j][1] == '(':
                        d -= 1
                        if d == 0:
                            break
                    j -= 1
                inner = [x[1] for x in toks[j + 1:st - 2]]
                if not (inner and (inner[-1] == '*' or inner[-1] in (
                        'int', 'char', 'long', 'unsigned', 'short')
                        or inner[-1].endswith('_t') or inner[-1] == 'byte')):
                    continue
            if nx == '+' and toks[i + 2][1] == '+' or \
                    nx == '-' and toks[i + 2][1] == '-':
                end = i + 2
            elif nx in ('.', '('):
                continue
        a, b = toks[st][2], toks[end][3]
        e0 = text[a:toks[i][3]]
        e1 = text[a:b]
        if '{' in e1:
            continue
        edits.append((a, b, '({ __typeof__(&(%s)[0]) __vp_t = %s; __vp_t; })'
                      % (e0, e1)))
    # function bodies only
    bodies = [(f.body, f.end) for f in functions(text)]
    starts = [x[0] for x in bodies]
    import bisect

    def inbody(a):
        k = bisect.bisect_right(starts, a) - 1
        return k >= 0 and a < bodies[k][1]
    edits = [e for e in edits if inbody(e[0])]
    # innermost only: drop edits nested in another one
    edits.sort()
    keep = []
    for e in edits:
        if keep and e[0] < keep[-1][1]:
            continue
        keep.append(e)
    for a, b, r in reversed(keep):
        nl = text[a:b].count('\n')
        text = text[:a] + r.replace('\n', ' ') + '\n' * nl + text[b:]
    return text, len(keep)


class WeaveError(Exception):
    pass


def weave(text, loopspecs, drop_re=r'^z_[a-z0-9_]+(_export)?$', keep=()):
    """loopspecs: list of (function, ordinal, regex or None, clauses)."""
    funcs = functions(text)
    edits = []          # (start, end, replacement)
    dropped = []
    bynames = {}
    for f in funcs:
        bynames.setdefault(f.name, f)
        if f.name in keep:
            continue
        if re.match(drop_re, f.name) and 'z_export' in text[f.start:f.end] \
                or has_block(f) or re.match(r'^z_', f.name) and \
                '_z_group_done' in text[f.body:f.end]:
            dropped.append(f.name)
            edits.append((f.body, f.end, ';'))
    for fn, ordn, rx, clauses in loopspecs:
        f = bynames.get(fn)
        if f is None:
            raise WeaveError('loop contract: no function %s' % fn)
        ls = real_loops(f, text)
        if rx:
            cand = [p for p in ls if re.search(rx, p[1])]
            if len(cand) <= ordn:
                raise WeaveError('loop contract: no loop %d matching %s in %s'
                                 % (ordn, rx, fn))
            pos = cand[ordn][0]
        else:
            if len(ls) <= ordn:
                raise WeaveError('loop contract: no loop %d in %s'
                                 % (ordn, fn))
            pos = ls[ordn][0]
        edits.append((pos, pos, ' ' + clauses.replace('\n', ' ') + ' '))
    edits.sort(key=lambda x: x[0], reverse=True)
    for a, b, r in edits:
        nl = text[a:b].count('\n')
        text = text[:a] + r + '\n' * nl + text[b:]
    return text, dropped, [f.name for f in funcs]

"""Reader for the SSA dumps g++ writes with -fdump-tree-optimized: functions, basic blocks, PHI nodes, statements."""
import re

FN_RE = re.compile(r'^;; Function (.*?) \(([^\s,()]+), funcdef_no=', re.M)
BB_RE = re.compile(r'^  <bb (\d+)>(?: \[.*\])?:$')
PHI_RE = re.compile(r'^  # (\S+) = PHI <(.*)>$')
DECL_RE = re.compile(r'^  ((?:const |unsigned |struct |union |long |short |signed |volatile )*[A-Za-z_.][\w:.<>,\s\*&\(\)]*?[\s\*&])([A-Za-z_][\w\.]*|_\d+|[A-Z]\.\d+)((?:\[\d+\])*);$')


class Fn:
    __slots__ = ('name', 'asm', 'params', 'types', 'arrays', 'blocks', 'entry', 'order', 'raw', 'ret')


class Block:
    __slots__ = ('n', 'phis', 'stmts')

    def __init__(self, n):
        self.n = n
        self.phis = []
        self.stmts = []


def split_args(s):
    out, depth, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '(<[{':
                depth += 1
            elif ch in ')>]}':
                depth -= 1
            elif ch == ',' and depth == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def parse(text, want=None):
    """-> {assembler-or-plain name: Fn}"""
    fns = {}
    heads = list(FN_RE.finditer(text))
    for i, h in enumerate(heads):
        asm = h.group(2)
        if want is not None and not want(asm):
            continue
        body = text[h.end():heads[i + 1].start() if i + 1 < len(heads) else len(text)]
        f = parse_fn(h.group(1), asm, body)
        if f is not None:
            fns[asm] = f
    return fns


def parse_fn(name, asm, body):
    lines = body.split('\n')
    f = Fn()
    f.name, f.asm = name, asm
    f.types, f.arrays, f.blocks, f.order = {}, {}, {}, []
    f.params, f.entry, f.raw = [], None, None
    f.ret = ''
    i = 0
    brace = None
    for j, l in enumerate(lines):
        if l == '{':
            brace = j
            break
    if brace is None:
        return None
    # header: the line(s) just before the brace
    k = brace - 1
    hdr = ''
    while k >= 0 and lines[k].strip() and not lines[k].startswith('Removing') and not lines[k].startswith(';;'):
        hdr = lines[k] + ' ' + hdr
        k -= 1
    m = re.match(r'^(.*?)\s*\((.*)\)\s*$', hdr.strip(), re.S)
    # parameters: last top-level parenthesised group
    p = hdr.rstrip()
    depth = 0
    for q in range(len(p) - 1, -1, -1):
        if p[q] == ')':
            depth += 1
        elif p[q] == '(':
            depth -= 1
            if depth == 0:
                break
    plist = p[q + 1:-1] if p.endswith(')') else ''
    for a in split_args(plist):
        mm = re.match(r'^(.*?)([A-Za-z_][\w\.]*)$', a)
        if mm:
            f.params.append((mm.group(2), mm.group(1).strip()))
    cur = None
    for l in lines[brace + 1:]:
        if l == '}':
            break
        if not l.strip():
            continue
        m = BB_RE.match(l)
        if m:
            n = int(m.group(1))
            cur = Block(n)
            f.blocks[n] = cur
            f.order.append(n)
            if f.entry is None:
                f.entry = n
            continue
        if cur is None:
            m = DECL_RE.match(l)
            if m:
                f.types[m.group(2)] = m.group(1).strip()
                if m.group(3):
                    f.arrays[m.group(2)] = [int(x) for x in re.findall(r'\d+', m.group(3))]
            continue
        m = PHI_RE.match(l)
        if m:
            args = []
            for a in split_args(m.group(2)):
                mm = re.match(r'^(.*)\((\d+)\)$', a)
                args.append((mm.group(1), int(mm.group(2))))
            cur.phis.append((m.group(1), args))
            continue
        cur.stmts.append(l.strip())
    return f


UID_RE = re.compile(r'(?<=\w)D\.(\d+)')
LOCAL_RE = re.compile(r'^  \S.*?([A-Za-z_][\w\.\$]*)D\.(\d+)(?:\[\d+\])*;$', re.M)


def tidy(text):
    """The -uid form of a dump tells apart the local variables of one name that a function has after inlining; everything
    else is brought back to its plain name."""
    out, at = [], 0
    for h in list(FN_RE.finditer(text)) + [None]:
        body = text[at:h.start() if h else len(text)]
        at = h.start() if h else at
        n = {}
        for m in LOCAL_RE.finditer(body):
            n.setdefault(m.group(1).rsplit(' ', 1)[-1], set()).add(m.group(2))
        twice = {u for v in n.values() if len(v) > 1 for u in v}
        out.append(UID_RE.sub(lambda m: '_U' + m.group(1) if m.group(1) in twice else '', body).replace('$', '_S'))
    return ''.join(out)


NAME_RE = re.compile(r'basic_string<[^()]*> \(&(?:MEM <[^()]*> \[\(void \*\))?&?(?:\w+::)*basis_vectors_names(?:\._M_elems)?(?: \+ (\d+)B)?(?:\[(\d+)\])?\]?, "([^"]*)"')
COPY_RE = re.compile(r'memcpy \(&MEM ?\[\([^()]*\)&(?:\w+::)*basis_vectors_names(?: \+ (\d+)B?)?\][\w\.]*_M_local_buf, "([^"]*)", (\d+)\)')


def name_text(text):
    """What the initialisation of the namespace-scope names of the basis vectors sets them to: {index: text}."""
    r = {int(m.group(2) or 0) + int(m.group(1) or 0) // 32: m.group(3) for m in NAME_RE.finditer(text)}
    r.update({int(m.group(1) or 0) // 32: m.group(2)[:int(m.group(3))] for m in COPY_RE.finditer(text)})
    return r

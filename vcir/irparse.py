"""Parser for the textual LLVM IR rustc emits at opt-level 0.  Functions are parsed on first use."""
import re, subprocess

class IRError(Exception):
    pass

_ws = re.compile(r'\s*')
_ident = re.compile(r'[%@](?:"((?:[^"\\]|\\.)*)"|([-a-zA-Z$._0-9]+))')
_num = re.compile(r'-?\d+')
_word = re.compile(r'[a-zA-Z_][a-zA-Z0-9_.]*')

INT = {w: ('i', w) for w in (1, 8, 16, 32, 64, 128, 256)}
PTR = ('ptr',)
VOID = ('void',)

def t_size(t, mod):
    k = t[0]
    if k == 'i':
        w = t[1]
        return 1 if w <= 8 else (1 << ((w - 1).bit_length() - 3)) if w in (8, 16, 32, 64, 128, 256) else ((w + 63) // 64) * 8
    if k == 'ptr':
        return 8
    if k == 'arr':
        return t[1] * t_size(t[2], mod)
    if k == 'st':
        off = 0
        for e in t[1]:
            if not t[2]:
                a = t_align(e, mod)
                off = (off + a - 1) // a * a
            off += t_size(e, mod)
        if not t[2] and t[1]:
            a = t_align(t, mod)
            off = (off + a - 1) // a * a
        return off
    if k == 'named':
        return t_size(mod.types[t[1]], mod)
    if k == 'vec':
        return t[1] * t_size(t[2], mod)
    raise IRError('size of %r' % (t,))

def t_align(t, mod):
    k = t[0]
    if k == 'i':
        w = t[1]
        return 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8 if w <= 64 else 16
    if k == 'ptr':
        return 8
    if k == 'arr':
        return t_align(t[2], mod)
    if k == 'st':
        return 1 if t[2] else max([t_align(e, mod) for e in t[1]] or [1])
    if k == 'named':
        return t_align(mod.types[t[1]], mod)
    raise IRError('align of %r' % (t,))

def field_off(t, idx, mod):
    """offset and type of element idx of aggregate type t"""
    if t[0] == 'named':
        t = mod.types[t[1]]
    if t[0] == 'arr':
        return idx * t_size(t[2], mod), t[2]
    if t[0] == 'st':
        off = 0
        for i, e in enumerate(t[1]):
            if not t[2]:
                a = t_align(e, mod)
                off = (off + a - 1) // a * a
            if i == idx:
                return off, e
            off += t_size(e, mod)
    raise IRError('field %r of %r' % (idx, t))

class Cur:
    __slots__ = ('s', 'p')
    def __init__(self, s, p=0):
        self.s = s
        self.p = p
    def ws(self):
        s = self.s
        p = self.p
        n = len(s)
        while p < n and s[p] in ' \t':
            p += 1
        self.p = p
    def peek(self, lit):
        self.ws()
        return self.s.startswith(lit, self.p)
    def eat(self, lit):
        self.ws()
        if self.s.startswith(lit, self.p):
            self.p += len(lit)
            return True
        return False
    def need(self, lit):
        if not self.eat(lit):
            raise IRError('expected %r at %r' % (lit, self.s[self.p:self.p + 60]))
    def word(self):
        self.ws()
        m = _word.match(self.s, self.p)
        if not m:
            return None
        self.p = m.end()
        return m.group(0)
    def peekword(self):
        self.ws()
        m = _word.match(self.s, self.p)
        return m.group(0) if m else None
    def num(self):
        self.ws()
        m = _num.match(self.s, self.p)
        if not m:
            raise IRError('number expected at %r' % self.s[self.p:self.p + 40])
        self.p = m.end()
        return int(m.group(0))
    def ident(self):
        self.ws()
        m = _ident.match(self.s, self.p)
        if not m:
            raise IRError('identifier expected at %r' % self.s[self.p:self.p + 40])
        self.p = m.end()
        return m.group(1) if m.group(1) is not None else m.group(2)
    def end(self):
        self.ws()
        return self.p >= len(self.s)

PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'readonly', 'writeonly', 'nocapture', 'returned', 'zeroext', 'signext',
               'inreg', 'immarg', 'allocptr', 'allocalign', 'noreturn', 'readnone', 'nofree', 'nest', 'swiftself', 'dead_on_unwind',
               'writable', 'dead_on_return'}

def parse_type(c):
    c.ws()
    s = c.s
    ch = s[c.p]
    if ch == '{':
        c.p += 1
        el = []
        if not c.eat('}'):
            while True:
                el.append(parse_type(c))
                if c.eat('}'):
                    break
                c.need(',')
        return ('st', tuple(el), False)
    if ch == '<':
        c.p += 1
        if c.eat('{'):
            el = []
            if not c.eat('}'):
                while True:
                    el.append(parse_type(c))
                    if c.eat('}'):
                        break
                    c.need(',')
            c.need('>')
            return ('st', tuple(el), True)
        n = c.num()
        c.need('x')
        t = parse_type(c)
        c.need('>')
        return ('vec', n, t)
    if ch == '[':
        c.p += 1
        n = c.num()
        c.need('x')
        t = parse_type(c)
        c.need(']')
        return ('arr', n, t)
    if ch == '%':
        return ('named', c.ident())
    w = c.word()
    if w == 'ptr':
        return PTR
    if w == 'void':
        return VOID
    if w and w[0] == 'i' and w[1:].isdigit():
        return ('i', int(w[1:]))
    if w in ('float', 'double', 'half', 'metadata', 'label', 'token'):
        return (w,)
    raise IRError('type? %r' % s[max(0, c.p - 20):c.p + 40])

def skip_attrs(c):
    """parameter attributes; returns the sret type if present"""
    sret = None
    while True:
        w = c.peekword()
        if w is None:
            return sret
        if w in PARAM_ATTRS:
            c.word()
        elif w == 'align':
            c.word()
            if c.eat('('):
                c.num(); c.need(')')
            else:
                c.num()
        elif w in ('sret', 'byval', 'elementtype', 'byref', 'preallocated', 'inalloca'):
            c.word()
            c.need('(')
            sret = parse_type(c)
            c.need(')')
        elif w in ('dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'initializes', 'nofpclass', 'memory'):
            c.word()
            c.ws()
            skip_parens(c)
        else:
            return sret

def skip_parens(c):
    c.ws()
    assert c.s[c.p] == '('
    d = 0
    while True:
        ch = c.s[c.p]
        if ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
            if d == 0:
                c.p += 1
                return
        c.p += 1

def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i:i + 2] == '\\\\':
            out.append(92)
            i += 2
        elif s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)

def parse_value(c, t):
    """constant or register operand"""
    c.ws()
    s = c.s
    ch = s[c.p]
    if ch == '%':
        return ('r', c.ident())
    if ch == '@':
        return ('g', c.ident())
    if ch == '-' or ch.isdigit():
        n = c.num()
        if t[0] == 'i':
            n &= (1 << t[1]) - 1
        return ('c', n)
    if ch == 'c' and s.startswith('c"', c.p):
        c.p += 2
        e = s.index('"', c.p)
        b = cstr(s[c.p:e])
        c.p = e + 1
        return ('bytes', b)
    if ch in '{[<':
        packed = ch == '<' and s.startswith('<{', c.p)
        c.p += 2 if packed else 1
        close = {'{': '}', '[': ']', '<': '>'}[ch] if not packed else '}'
        el = []
        if not c.eat(close):
            while True:
                et = parse_type(c)
                el.append((et, parse_value(c, et)))
                if c.eat(close):
                    break
                c.need(',')
        if packed:
            c.need('>')
        return ('agg', el)
    w = c.word()
    if w in ('true', 'false'):
        return ('c', 1 if w == 'true' else 0)
    if w == 'null':
        return ('c', 0)
    if w in ('undef', 'poison'):
        return ('u',)
    if w == 'zeroinitializer':
        return ('z',)
    if w == 'getelementptr':
        while c.peekword() in ('inbounds', 'nuw', 'nusw'):
            c.word()
        if c.peekword() == 'inrange':
            c.word(); skip_parens(c)
        c.need('(')
        st = parse_type(c)
        c.need(',')
        ops = []
        while True:
            ot = parse_type(c)
            ops.append((ot, parse_value(c, ot)))
            if c.eat(')'):
                break
            c.need(',')
        return ('cgep', st, ops)
    if w in ('inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast', 'trunc'):
        c.need('(')
        ot = parse_type(c)
        v = parse_value(c, ot)
        c.need('to')
        tt = parse_type(c)
        c.need(')')
        return ('ccast', w, ot, v, tt)
    if w in ('sub', 'add', 'mul'):
        while c.peekword() in ('nuw', 'nsw'):
            c.word()
        c.need('(')
        ot = parse_type(c)
        a = parse_value(c, ot)
        c.need(',')
        ot2 = parse_type(c)
        b = parse_value(c, ot2)
        c.need(')')
        return ('cbin', w, ot, a, b)
    raise IRError('value? %s at %r' % (w, s[max(0, c.p - 30):c.p + 40]))

class Func:
    __slots__ = ('name', 'mod', 'text', 'params', 'blocks', 'entry', 'ret', 'pretty', 'parsed', '_rpo', 'loops')
    def __init__(self, name, mod, text):
        self.name = name
        self.mod = mod
        self.text = text
        self.parsed = False
        self._rpo = None
        self.pretty = None

class Module:
    def __init__(self, path, prog):
        self.path = path
        self.prog = prog
        self.types = {}
        self.globals = {}       # name -> text of the definition
        self.funcs = {}
        self.internal = set()
        with open(path) as f:
            lines = f.read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                head = l
                m = re.search(r'@(?:"([^"]*)"|([-a-zA-Z$._0-9]+))\(', head)
                name = m.group(1) or m.group(2)
                f = Func(name, self, lines[i:j])
                self.funcs[name] = f
                pre = head[:m.start()]
                if ' internal ' in pre or ' private ' in pre:
                    self.internal.add(name)
                i = j
            elif l.startswith('%'):
                m = re.match(r'%(?:"([^"]*)"|([-a-zA-Z$._0-9]+)) = type (.*)$', l)
                if m:
                    self.types[m.group(1) or m.group(2)] = m.group(3)
            elif l.startswith('@'):
                m = re.match(r'@(?:"([^"]*)"|([-a-zA-Z$._0-9]+)) = (.*)$', l)
                if m:
                    self.globals[m.group(1) or m.group(2)] = m.group(3)
            i += 1
        for k, v in list(self.types.items()):
            if v == 'opaque':
                self.types[k] = ('st', (), False)
            else:
                self.types[k] = parse_type(Cur(v))

ASSOC_FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'inbounds', 'nusw', 'samesign', 'nneg', 'volatile', 'atomic', 'fast', 'nnan', 'ninf', 'nsz'}

def parse_func(f):
    if f.parsed:
        return f
    mod = f.mod
    head = f.text[0]
    m = re.search(r'@(?:"([^"]*)"|([-a-zA-Z$._0-9]+))\(', head)
    pre = head[:m.start()]
    # return type: last type token before the name
    c = Cur(head, m.end())
    params = []
    if not c.eat(')'):
        while True:
            t = parse_type(c)
            sret = skip_attrs(c)
            nm = None
            c.ws()
            if c.s[c.p] == '%':
                nm = c.ident()
            params.append((t, nm, sret))
            if c.eat(')'):
                break
            c.need(',')
    f.params = params
    # ret type: scan pre for the type by trying to parse from each word after 'define'
    f.ret = None
    toks = pre.split(None, 1)[1] if ' ' in pre else ''
    c = Cur(toks)
    while not c.end():
        save = c.p
        w = c.peekword()
        if w in ('internal', 'private', 'hidden', 'dso_local', 'linkonce_odr', 'weak_odr', 'available_externally', 'external', 'unnamed_addr',
                 'local_unnamed_addr', 'protected', 'default', 'fastcc', 'coldcc', 'ccc', 'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'cold', 'linkonce', 'weak', 'rust_coldcc', 'preserve_mostcc', 'tailcc', 'noext'):
            c.word()
            continue
        if w in ('align',):
            c.word(); c.num(); continue
        if w in ('range', 'dereferenceable', 'dereferenceable_or_null'):
            c.word(); skip_parens(c); continue
        f.ret = parse_type(c)
        break
    blocks = {}
    cur = None
    entry = None
    lines = f.text[1:]
    i = 0
    while i < len(lines):
        l = lines[i]
        i += 1
        s = l.strip()
        if not s or s[0] == ';':
            continue
        if l[0] not in ' \t':
            m = re.match(r'(?:"([^"]*)"|([-a-zA-Z$._0-9]+)):', l)
            if m:
                lab = m.group(1) or m.group(2)
                cur = []
                blocks[lab] = cur
                if entry is None:
                    entry = lab
                continue
        if cur is None:
            cur = []
            entry = '0'
            blocks['0'] = cur
        if s.startswith('switch') and ']' not in s:
            while ']' not in lines[i]:
                s += ' ' + lines[i].strip()
                i += 1
            s += ' ' + lines[i].strip()
            i += 1
        cur.append(parse_instr(s, mod))
    f.blocks = blocks
    f.entry = entry
    f.parsed = True
    return f

def strip_meta(s):
    # drop trailing metadata ", !dbg !5"
    k = s.find(', !')
    if k >= 0 and '"' not in s[k:]:
        s = s[:k]
    return s

def parse_instr(s, mod):
    dest = None
    if s[0] == '%':
        m = _ident.match(s)
        dest = m.group(1) if m.group(1) is not None else m.group(2)
        s = s[m.end():].lstrip()
        assert s[0] == '='
        s = s[1:].lstrip()
    s = strip_meta(s)
    c = Cur(s)
    op = c.word()
    if op in ('tail', 'musttail', 'notail'):
        op = c.word()
    if op == 'call':
        return parse_call(c, dest)
    if op == 'load':
        while c.peekword() in ASSOC_FLAGS:
            c.word()
        t = parse_type(c)
        c.need(',')
        pt = parse_type(c)
        return ('load', dest, t, parse_value(c, pt))
    if op == 'store':
        while c.peekword() in ASSOC_FLAGS:
            c.word()
        t = parse_type(c)
        v = parse_value(c, t)
        c.need(',')
        pt = parse_type(c)
        return ('store', None, t, v, parse_value(c, pt))
    if op == 'alloca':
        t = parse_type(c)
        n = None
        if c.eat(','):
            if c.peekword() != 'align':
                nt = parse_type(c)
                n = parse_value(c, nt)
        return ('alloca', dest, t, n)
    if op == 'getelementptr':
        while c.peekword() in ASSOC_FLAGS:
            c.word()
        t = parse_type(c)
        ops = []
        while c.eat(','):
            ot = parse_type(c)
            ops.append((ot, parse_value(c, ot)))
        return ('gep', dest, t, ops)
    if op == 'br':
        if c.peekword() == 'label':
            c.word()
            return ('jmp', None, c.ident())
        t = parse_type(c)
        v = parse_value(c, t)
        c.need(',')
        c.need('label')
        a = c.ident()
        c.need(',')
        c.need('label')
        b = c.ident()
        return ('br', None, v, a, b)
    if op == 'ret':
        t = parse_type(c)
        if t == VOID:
            return ('ret', None, None, None)
        return ('ret', None, t, parse_value(c, t))
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'switch':
        t = parse_type(c)
        v = parse_value(c, t)
        c.need(',')
        c.need('label')
        d = c.ident()
        c.need('[')
        cases = []
        while not c.eat(']'):
            ct = parse_type(c)
            cv = parse_value(c, ct)
            c.need(',')
            c.need('label')
            cases.append((cv[1], c.ident()))
        return ('switch', None, t, v, d, cases)
    if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
        while c.peekword() in ASSOC_FLAGS:
            c.word()
        t = parse_type(c)
        a = parse_value(c, t)
        c.need(',')
        b = parse_value(c, t)
        return (op, dest, t, a, b)
    if op == 'icmp':
        while c.peekword() in ASSOC_FLAGS:
            c.word()
        pred = c.word()
        t = parse_type(c)
        a = parse_value(c, t)
        c.need(',')
        b = parse_value(c, t)
        return ('icmp', dest, pred, t, a, b)
    if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
        while c.peekword() in ASSOC_FLAGS:
            c.word()
        t = parse_type(c)
        v = parse_value(c, t)
        c.need('to')
        return (op, dest, t, v, parse_type(c))
    if op == 'select':
        t = parse_type(c)
        v = parse_value(c, t)
        c.need(',')
        ta = parse_type(c)
        a = parse_value(c, ta)
        c.need(',')
        tb = parse_type(c)
        b = parse_value(c, tb)
        return ('select', dest, v, ta, a, b)
    if op == 'phi':
        t = parse_type(c)
        inc = []
        while True:
            c.need('[')
            v = parse_value(c, t)
            c.need(',')
            lab = c.ident()
            c.need(']')
            inc.append((v, lab))
            if not c.eat(','):
                break
        return ('phi', dest, t, inc)
    if op == 'extractvalue':
        t = parse_type(c)
        v = parse_value(c, t)
        idx = []
        while c.eat(','):
            idx.append(c.num())
        return ('extractvalue', dest, t, v, idx)
    if op == 'insertvalue':
        t = parse_type(c)
        v = parse_value(c, t)
        c.need(',')
        et = parse_type(c)
        e = parse_value(c, et)
        idx = []
        while c.eat(','):
            idx.append(c.num())
        return ('insertvalue', dest, t, v, et, e, idx)
    if op == 'freeze':
        t = parse_type(c)
        return ('freeze', dest, t, parse_value(c, t))
    return ('unsupported', dest, op + ' ' + s)

def parse_call(c, dest):
    # calling convention and return attributes
    while True:
        w = c.peekword()
        if w in ('fastcc', 'coldcc', 'ccc', 'rust_coldcc', 'preserve_mostcc', 'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'fast', 'inreg', 'rust_preserve_nonecc'):
            c.word()
        elif w == 'align':
            c.word(); c.num()
        elif w in ('range', 'dereferenceable', 'dereferenceable_or_null', 'nofpclass'):
            c.word(); skip_parens(c)
        else:
            break
    rt = parse_type(c)
    c.ws()
    if c.s[c.p] == '(':        # function type
        skip_parens(c)
        c.ws()
    if c.peekword() == 'asm':
        return ('asm', dest, rt, c.s)
    callee = parse_value(c, PTR)
    c.need('(')
    args = []
    if not c.eat(')'):
        while True:
            t = parse_type(c)
            if t[0] == 'metadata':
                skip_meta_arg(c)
                args.append((t, ('u',)))
            else:
                skip_attrs(c)
                args.append((t, parse_value(c, t)))
            if c.eat(')'):
                break
            c.need(',')
    return ('call', dest, rt, callee, args)

def skip_meta_arg(c):
    d = 0
    while True:
        ch = c.s[c.p]
        if ch in '([{':
            d += 1
        elif ch in ')]}':
            if d == 0:
                return
            d -= 1
        elif ch == ',' and d == 0:
            return
        c.p += 1

class Program:
    """All modules of one build, with symbol resolution and demangled names."""
    def __init__(self, paths):
        self.mods = []
        self.ext = {}
        for p in paths:
            self.mods.append(Module(p, self))
        names = []
        for m in self.mods:
            for n in m.funcs:
                if n not in m.internal and n not in self.ext:
                    self.ext[n] = m.funcs[n]
                names.append(n)
        uniq = sorted(set(names))
        dem = subprocess.run(['c++filt', '-r'] + [], input='\n'.join(uniq), capture_output=True, text=True).stdout.split('\n')
        self.dem = {}
        for n, d in zip(uniq, dem):
            self.dem[n] = clean(d)
        self.bypretty = {}
        for m in self.mods:
            for n, f in m.funcs.items():
                f.pretty = self.dem.get(n, n)
                self.bypretty.setdefault(f.pretty, []).append(f)
        self._demx = {}

    def demangle(self, n):
        if n in self.dem:
            return self.dem[n]
        if n not in self._demx:
            d = subprocess.run(['c++filt', '-r', n], capture_output=True, text=True).stdout.strip()
            self._demx[n] = clean(d)
        return self._demx[n]

    def demangle_all_decls(self):
        names = set()
        for m in self.mods:
            for n, f in m.funcs.items():
                pass
        return names

    def resolve(self, mod, name):
        f = mod.funcs.get(name)
        if f is None:
            f = self.ext.get(name)
        return f

    def find(self, pretty):
        l = self.bypretty.get(pretty)
        return l[0] if l else None

def clean(d):
    return re.sub(r'\[[0-9a-f]{6,16}\]', '', d)

"""Parser for the textual LLVM IR (opaque pointers, LLVM 18) that extract.lower produces."""
import re

class IRError(Exception):
    pass

TOK = re.compile(r'''\s*(?:(?P<str>c?"(?:[^"\\]|\\.)*")|(?P<loc>%(?:"[^"]*"|[-\w.$]+))|(?P<glob>@(?:"[^"]*"|[-\w.$]+))|(?P<meta>![\w.]*)|(?P<attr>\#\d+)|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)|(?P<word>[\w.$]+)|(?P<dots>\.\.\.)|(?P<p>[()\[\]{}<>,=*:]))''')

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '':
                break
            raise IRError("tokenize: %r" % s[i:i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out

ATTRS = set("noundef nonnull noalias nocapture readonly readnone writeonly writable immarg returned signext zeroext nofree "
            "inreg nest swiftself dead_on_unwind noreturn nounwind nneg nuw nsw exact inbounds disjoint inrange "
            "allocalign allocptr unnamed_addr local_unnamed_addr dso_local tail musttail notail fastcc ccc".split())
PATTRS = set("align dereferenceable dereferenceable_or_null sret byval captures range initializes".split())

class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)
    def next(self):
        x = self.peek()
        self.i += 1
        return x
    def at(self, v):
        return self.peek()[1] == v
    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('p', 'word', 'dots'):
            self.i += 1
            return True
        return False
    def expect(self, v):
        if not self.accept(v):
            raise IRError("expected %r got %r in %r" % (v, self.peek(), self.t))
    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in ATTRS:
                self.i += 1
            elif k == 'word' and v in PATTRS:
                self.i += 1
                if self.peek()[1] == '(':
                    d = 0
                    while True:
                        _, v2 = self.next()
                        if v2 == '(':
                            d += 1
                        elif v2 == ')':
                            d -= 1
                            if d == 0:
                                break
                elif self.peek()[0] == 'num':
                    self.i += 1
            elif k == 'attr':
                self.i += 1
            elif k == 'str':
                self.i += 1
                if self.accept('='):
                    self.i += 1
            else:
                return
    def type(self):
        k, v = self.next()
        if k == 'word':
            m = re.fullmatch(r'i(\d+)', v)
            if m:
                return ('i', int(m.group(1)))
            if v in ('ptr', 'void', 'label', 'metadata', 'token', 'float', 'double', 'x86_fp80'):
                return (v,)
            raise IRError("type %r" % v)
        if k == 'loc':
            return ('named', v)
        if v == '[':
            n = int(self.next()[1]); self.expect('x'); t = self.type(); self.expect(']')
            return ('arr', n, t)
        if v == '{':
            l = []
            while not self.accept('}'):
                l.append(self.type()); self.accept(',')
            return ('struct', False, tuple(l))
        if v == '<':
            if self.accept('{'):
                l = []
                while not self.accept('}'):
                    l.append(self.type()); self.accept(',')
                self.expect('>')
                return ('struct', True, tuple(l))
            raise IRError("vector type")
        raise IRError("type tok %r" % ((k, v),))
    def value(self, ty):
        """operand without its type"""
        k, v = self.next()
        if k == 'loc':
            return ('loc', v)
        if k == 'glob':
            return ('glob', v)
        if k == 'num':
            return ('int', int(v))
        if k == 'word':
            if v == 'null':
                return ('int', 0)
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v in ('zeroinitializer', 'none'):
                return ('zero',)
            if v in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast'):
                d = 0
                parts = []
                while True:
                    k2, v2 = self.next()
                    parts.append(v2)
                    if v2 == '(':
                        d += 1
                    elif v2 == ')':
                        d -= 1
                        if d == 0:
                            break
                return ('cexpr', v, ' '.join(parts))
        if v == '{' or v == '[':
            close = '}' if v == '{' else ']'
            els = []
            while not self.accept(close):
                els.append(self.tyval()); self.accept(',')
            return ('agg', els)
        raise IRError("value %r" % ((k, v),))
    def tyval(self):
        t = self.type()
        self.skip_attrs()
        return (t, self.value(t))

class Ins:
    __slots__ = ('op', 'dst', 'a', 'text')
    def __init__(self, op, dst, a, text):
        self.op, self.dst, self.a, self.text = op, dst, a, text
    def __repr__(self):
        return self.text

class Fn:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.rty = None
        self.blocks = {}
        self.order = []
    def finish(self):
        self.preds = {b: [] for b in self.order}
        self.succs = {}
        for b in self.order:
            s = succs_of(self.blocks[b][-1])
            self.succs[b] = s
            for x in s:
                self.preds[x].append(b)
        self._loops()
    def _loops(self):
        # dominators
        entry = self.order[0]
        reach = []
        seen = {entry}
        st = [entry]
        while st:
            x = st.pop(); reach.append(x)
            for y in self.succs[x]:
                if y not in seen:
                    seen.add(y); st.append(y)
        dom = {b: set(seen) for b in seen}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in self.order:
                if b not in seen or b == entry:
                    continue
                ps = [dom[p] for p in self.preds[b] if p in seen]
                n = set.intersection(*ps) | {b}
                if n != dom[b]:
                    dom[b] = n; ch = True
        self.loops = {}
        for b in seen:
            for s in self.succs[b]:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in self.preds[x] if p in seen)
        # irreducible control flow: a cycle without a dominating header
        color = {}
        def dfs(u):
            stack = [(u, iter(self.succs[u]))]
            color[u] = 1
            while stack:
                x, it = stack[-1]
                for y in it:
                    c = color.get(y, 0)
                    if c == 0:
                        color[y] = 1
                        stack.append((y, iter(self.succs[y])))
                        break
                    if c == 1 and y not in dom[x]:
                        raise IRError("irreducible control flow in " + self.name)
                else:
                    color[x] = 2
                    stack.pop()
        dfs(entry)

def succs_of(i):
    if i.op == 'br':
        return [i.a[0]] if len(i.a) == 1 else [i.a[1], i.a[2]]
    if i.op == 'switch':
        return list(dict.fromkeys([i.a[2]] + [l for _, l in i.a[3]]))
    if i.op == 'invoke':
        return [i.a['normal'], i.a['unwind']]
    return []

BIN = set("add sub mul and or xor shl lshr ashr udiv sdiv urem srem".split())
CAST = set("zext sext trunc inttoptr ptrtoint bitcast".split())

def parse_call(p, dst, op, text):
    p.skip_attrs()
    rty = p.type()
    p.skip_attrs()
    if p.at('('):     # function type (varargs)
        d = 0
        while True:
            _, v = p.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    break
    k, v = p.next()
    if k not in ('glob', 'loc'):
        raise IRError("callee %r in %s" % (v, text))
    p.expect('(')
    args = []
    while not p.accept(')'):
        t = p.type()
        p.skip_attrs()
        if t == ('metadata',):
            d = 0
            while not (d == 0 and p.peek()[1] in (',', ')')):
                _, x = p.next()
                if x in '({':
                    d += 1
                elif x in ')}':
                    d -= 1
            args.append((t, ('undef',)))
        else:
            args.append((t, p.value(t)))
        p.accept(',')
    p.skip_attrs()
    a = dict(rty=rty, callee=v, ind=(k == 'loc'), args=args)
    if op == 'invoke':
        p.expect('to'); p.expect('label'); a['normal'] = p.next()[1]
        p.expect('unwind'); p.expect('label'); a['unwind'] = p.next()[1]
    return Ins(op, dst, a, text)

def parse_ins(text):
    p = P(tokenize(text))
    dst = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dst = p.next()[1]; p.next()
    while p.peek()[1] in ('tail', 'musttail', 'notail'):
        p.next()
    k, op = p.next()
    if op in BIN:
        p.skip_attrs()
        t, a = p.tyval(); p.expect(','); b = p.value(t)
        return Ins('bin', dst, (op, t, a, b), text)
    if op in CAST:
        p.skip_attrs()
        t, a = p.tyval(); p.expect('to'); t2 = p.type()
        return Ins('cast', dst, (op, t, a, t2), text)
    if op == 'icmp':
        pred = p.next()[1]
        t, a = p.tyval(); p.expect(','); b = p.value(t)
        return Ins('icmp', dst, (pred, t, a, b), text)
    if op == 'select':
        t, c = p.tyval(); p.expect(',')
        t1, a = p.tyval(); p.expect(',')
        t2, b = p.tyval()
        return Ins('select', dst, (c, t1, a, b), text)
    if op == 'phi':
        t = p.type()
        inc = []
        while p.accept('['):
            v = p.value(t); p.expect(','); l = p.next()[1]; p.expect(']')
            inc.append((v, l))
            if not p.accept(','):
                break
        return Ins('phi', dst, (t, dict((l, v) for v, l in inc)), text)
    if op == 'getelementptr':
        p.skip_attrs()
        t = p.type(); p.expect(',')
        bt, base = p.tyval()
        idx = []
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            p.skip_attrs()
            idx.append(p.tyval())
        return Ins('gep', dst, (t, base, idx), text)
    if op in ('load', 'store'):
        atomic = p.accept('atomic')
        vol = p.accept('volatile')
        if op == 'load':
            t = p.type(); p.expect(','); _, ptr = p.tyval(); val = None
        else:
            t, val = p.tyval(); p.expect(','); _, ptr = p.tyval()
        order = None
        if atomic:
            if p.at('syncscope'):
                p.next(); p.expect('('); p.next(); p.expect(')')
            order = p.next()[1]
        return Ins(op, dst, (t, ptr, val, order), text)
    if op == 'cmpxchg':
        weak = p.accept('weak')
        p.accept('volatile')
        _, ptr = p.tyval(); p.expect(',')
        t, exp = p.tyval(); p.expect(',')
        _, new = p.tyval()
        succ = p.next()[1]; fail = p.next()[1]
        return Ins('cmpxchg', dst, (weak, t, ptr, exp, new, succ, fail), text)
    if op == 'atomicrmw':
        p.accept('volatile')
        rop = p.next()[1]
        _, ptr = p.tyval(); p.expect(',')
        t, v = p.tyval()
        order = p.next()[1]
        return Ins('atomicrmw', dst, (rop, t, ptr, v, order), text)
    if op == 'fence':
        return Ins('fence', None, (p.next()[1],), text)
    if op == 'extractvalue':
        t, a = p.tyval()
        idx = []
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return Ins('extractvalue', dst, (t, a, idx), text)
    if op == 'insertvalue':
        t, a = p.tyval(); p.expect(','); t2, v = p.tyval()
        idx = []
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return Ins('insertvalue', dst, (t, a, t2, v, idx), text)
    if op == 'alloca':
        t = p.type()
        return Ins('alloca', dst, (t,), text)
    if op == 'br':
        if p.accept('label'):
            return Ins('br', None, (p.next()[1],), text)
        t, c = p.tyval(); p.expect(','); p.expect('label'); a = p.next()[1]
        p.expect(','); p.expect('label'); b = p.next()[1]
        return Ins('br', None, (c, a, b), text)
    if op == 'switch':
        t, v = p.tyval(); p.expect(','); p.expect('label'); d = p.next()[1]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            t2, c = p.tyval(); p.expect(','); p.expect('label'); cases.append((c, p.next()[1]))
        return Ins('switch', None, (t, v, d, cases), text)
    if op == 'ret':
        t = p.type()
        if t == ('void',):
            return Ins('ret', None, (t, None), text)
        p.skip_attrs()
        return Ins('ret', None, (t, p.value(t)), text)
    if op in ('call', 'invoke'):
        return parse_call(p, dst, op, text)
    if op == 'unreachable':
        return Ins('unreachable', None, (), text)
    if op == 'landingpad':
        t = p.type()
        return Ins('landingpad', dst, (t, 'cleanup' in text, 'catch' in text), text)
    if op == 'resume':
        return Ins('resume', None, (), text)
    if op == 'freeze':
        t, v = p.tyval()
        return Ins('freeze', dst, (t, v), text)
    raise IRError("instruction: " + text)

class Module:
    def __init__(self, path):
        self.types = {}
        self.fns = {}
        self.globals = []
        self._raw = {}
        src = open(path).read().split('\n')
        i = 0
        while i < len(src):
            l = src[i]
            m = re.match(r'^(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', l)
            if m:
                if m.group(2) != 'opaque':
                    self.types[m.group(1)] = P(tokenize(m.group(2))).type()
                i += 1
                continue
            m = re.match(r'^(@(?:"[^"]*"|[-\w.$]+)) =', l)
            if m:
                self.globals.append(m.group(1))
            if l.startswith('define'):
                j = i
                while src[j] != '}':
                    j += 1
                nm = re.search(r'@("[^"]*"|[-\w.$]+)\(', l).group(1)
                self._raw[nm] = (l, src[i + 1:j])
                i = j
            i += 1
    def fn(self, name):
        if name in self.fns:
            return self.fns[name]
        if name not in self._raw:
            return None
        head, body = self._raw[name]
        f = Fn(name)
        # parameters
        p = P(tokenize(head[:head.rindex('{')].split(' personality ')[0]))
        while not (p.peek()[0] == 'glob'):
            p.next()
        p.next()
        p.expect('(')
        while not p.accept(')'):
            t = p.type()
            p.skip_attrs()
            f.params.append((t, p.next()[1]))
            p.accept(',')
        m = re.match(r'define (?:[\w]+ )*?(?:noundef |nonnull |zeroext |signext |align \d+ |dereferenceable\(\d+\) )*(void|ptr|i\d+|\{[^}]*\}|%\S+) @', head)
        cur = None
        entry_named = None
        n = 0
        k = 0
        merged = []
        while k < len(body):      # join multi-line instructions
            l = body[k]
            st = l.strip()
            if st.startswith('switch'):
                while ']' not in body[k]:
                    k += 1
                    st += ' ' + body[k].strip()
            elif re.match(r'^(%\S+ = )?invoke', st):
                k += 1
                st += ' ' + body[k].strip()
            elif 'landingpad' in st:
                while k + 1 < len(body) and re.match(r'^\s+(catch|cleanup|filter)', body[k + 1]):
                    k += 1
                    st += ' ' + body[k].strip()
            merged.append((l, st))
            k += 1
        for l, st in merged:
            if not st or st.startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if m:
                cur = '%' + m.group(1)
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = '%' + str(len(f.params))
                f.blocks[cur] = []
                f.order.append(cur)
            st = re.sub(r', !\w[\w.]* ![\w.]+', '', st)
            f.blocks[cur].append(parse_ins(st))
        f.finish()
        self.fns[name] = f
        return f
    # ---- layout
    def resolve(self, t):
        while t[0] == 'named':
            if t[1] not in self.types:
                raise IRError("opaque type " + t[1])
            t = self.types[t[1]]
        return t
    def align(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if t[0] == 'ptr':
            return 8
        if t[0] == 'arr':
            return self.align(t[2])
        if t[0] == 'struct':
            return 1 if t[1] else max([self.align(x) for x in t[2]] or [1])
        raise IRError("align %r" % (t,))
    def size(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            a = self.align(t); b = (t[1] + 7) // 8
            return (b + a - 1) // a * a
        if t[0] == 'ptr':
            return 8
        if t[0] == 'arr':
            return t[1] * self.size(t[2])
        if t[0] == 'struct':
            o = 0
            for x in t[2]:
                if not t[1]:
                    a = self.align(x); o = (o + a - 1) // a * a
                o += self.size(x)
            a = self.align(t)
            return (o + a - 1) // a * a
        raise IRError("size %r" % (t,))
    def offset(self, t, i):
        t = self.resolve(t)
        o = 0
        for k, x in enumerate(t[2]):
            if not t[1]:
                a = self.align(x); o = (o + a - 1) // a * a
            if k == i:
                return o, x
            o += self.size(x)
        raise IRError("offset")

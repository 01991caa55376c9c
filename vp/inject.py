"""Mechanical extraction: copy a C source file of /repo and insert, at every loop of
every function, the name of a macro (VP_L_<function>_<n> between the loop head and the
body, VP_B_<function>_<n> as first thing of a braced body, VP_A_<function>_<n> after the loop).  The macros expand to nothing
unless a contract file defines them, so the copy is token for token the code of /repo plus
loop contracts.  The name of each function definition gets the prefix VP_D_, a macro that expands to
the plain name unless a unit replaces that function, as a callee, by its contract in executable form
(then the definition goes by another name and calls reach the contract).  Nothing is dropped.
"""
import re

KW = re.compile(r'[A-Za-z_]\w*')


class Scan:
    def __init__(self, s):
        self.s = s
        self.n = len(s)
        self.ins = []      # (offset, text)
        self.loops = {}    # function -> count
        self.funcs = {}    # function -> (start, end)
        self.fn = None

    def skip(self, i):
        s, n = self.s, self.n
        while i < n:
            c = s[i]
            if c in ' \t\r\n\f\v':
                i += 1
            elif s.startswith('/*', i):
                j = s.find('*/', i + 2)
                i = n if j < 0 else j + 2
            elif s.startswith('//', i):
                j = s.find('\n', i)
                i = n if j < 0 else j + 1
            elif c == '#' and s[:i].rstrip(' \t')[-1:] in ('', '\n'):
                while True:
                    j = s.find('\n', i)
                    if j < 0:
                        return n
                    i = j + 1
                    if s[j - 1] != '\\':
                        break
            else:
                break
        return i

    def tok(self, i):
        """end of the token starting at i (i is not blank)"""
        s = self.s
        c = s[i]
        if c in '"\'':
            j = i + 1
            while s[j] != c:
                j += 2 if s[j] == '\\' else 1
            return j + 1
        m = KW.match(s, i)
        if m:
            return m.end()
        m = re.compile(r'\.?\d[\w.]*').match(s, i)
        if m:
            return m.end()
        return i + 1

    def match(self, i):
        """i at an opening bracket: offset after the matching closing one"""
        pairs = {'(': ')', '{': '}', '[': ']'}
        st = [pairs[self.s[i]]]
        i += 1
        while st:
            i = self.skip(i)
            c = self.s[i]
            if c in pairs:
                st.append(pairs[c])
            elif c in ')}]':
                if c != st.pop():
                    raise ValueError('unbalanced')
            i = self.tok(i)
        return i

    def loop(self):
        k = self.loops.setdefault(self.fn, 0)
        self.loops[self.fn] = k + 1
        return '%s_%d' % (self.fn, k)

    def body(self, i, name):
        i = self.skip(i)
        if name and self.s[i] == '{':
            self.ins.append((i + 1, ' VP_B_%s ' % name))
        return self.stmt(i)

    def stmt(self, i):
        i = self.skip(i)
        s = self.s
        if s[i] == '{':
            i = self.skip(i + 1)
            while s[i] != '}':
                i = self.skip(self.stmt(i))
            return i + 1
        m = KW.match(s, i)
        w = m.group(0) if m else ''
        if w in ('for', 'while'):
            name = self.loop()
            i = self.match(self.skip(m.end()))
            self.ins.append((i, ' VP_L_%s ' % name))
            e = self.body(i, name)
            self.ins.append((e, ' VP_A_%s ' % name))
            return e
        if w in ('if', 'switch'):
            i = self.match(self.skip(m.end()))
            i = self.stmt(i)
            j = self.skip(i)
            if w == 'if' and s.startswith('else', j) and not re.match(r'\w', s[j + 4:j + 5]):
                return self.stmt(j + 4)
            return i
        if w == 'do':
            name = self.loop()
            i = self.body(m.end(), name)
            i = self.skip(i)
            i = self.match(self.skip(KW.match(s, i).end()))
            self.ins.append((i, ' VP_L_%s ' % name))
            e = self.skip(i) + 1
            self.ins.append((e, ' VP_A_%s ' % name))
            return e
        if w in ('case', 'default'):
            while s[i] != ':':
                i = self.skip(self.tok(i))
            return self.after_label(i + 1)
        if m:
            j = self.skip(m.end())
            if s[j] == ':' and s[j + 1] != ':':
                return self.after_label(j + 1)
        while s[i] != ';':
            if s[i] in '({[':
                i = self.match(i)
            else:
                i = self.tok(i)
            i = self.skip(i)
        return i + 1

    def after_label(self, i):
        i = self.skip(i)
        return i if self.s[i] == '}' else self.stmt(i)

    def top(self):
        s, n = self.s, self.n
        i = self.skip(0)
        last, start, lastpos = None, i, i
        while i < n:
            c = s[i]
            if c == '(':
                j = self.match(i)
                k = self.skip(j)
                if k < n and s[k] == '{' and last:
                    self.fn = last
                    self.ins.append((lastpos, 'VP_D_'))
                    e = self.stmt(k)
                    self.funcs[last] = (start, e)
                    self.loops.setdefault(last, 0)
                    i = self.skip(e)
                    start, last = i, None
                    continue
                i = k
                continue
            if c in '{[':
                i = self.skip(self.match(i))
                continue
            if c in ';=':
                if c == '=':
                    while s[i] != ';':
                        i = self.skip(self.match(i) if s[i] in '({[' else self.tok(i))
                i = self.skip(i + 1)
                start, last = i, None
                continue
            j = self.tok(i)
            if KW.match(s, i):
                last, lastpos = s[i:j], i
            i = self.skip(j)

    def result(self):
        out, p = [], 0
        for o, t in sorted(self.ins, key=lambda x: x[0]):
            out.append(self.s[p:o])
            out.append(t)
            p = o
        out.append(self.s[p:])
        return ''.join(out)


def inject(text):
    sc = Scan(text)
    sc.top()
    names = ['%s_%d' % (f, k) for f, c in sc.loops.items() for k in range(c)]
    return sc.result(), names, sc.funcs, sc.loops


def defaults(names, funcs=()):
    return ''.join('#ifndef VP_D_%s\n#define VP_D_%s %s\n#endif\n' % (f, f, f) for f in funcs) + ''.join('#ifndef VP_%s_%s\n#define VP_%s_%s\n#endif\n' % (k, n, k, n) for n in names for k in 'LBA')


if __name__ == '__main__':
    import sys
    for f in sys.argv[1:]:
        t, names, funcs, loops = inject(open(f, encoding='latin-1').read())
        import re as _r
        print(f, len(funcs), {k: v for k, v in loops.items() if v})

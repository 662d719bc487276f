"""Readable names from Rust's v0 mangling; generic arguments are left out."""
BASIC = dict(b='bool', c='char', e='str', u='()', a='i8', s='i16', l='i32', x='i64', n='i128', i='isize', h='u8', t='u16', m='u32', y='u64', o='u128', j='usize', f='f32', d='f64', z='!', p='_', v='...')


class P:
    def __init__(self, s):
        self.s, self.i, self.d = s, 0, 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ''

    def get(self):
        c = self.s[self.i]
        self.i += 1
        return c

    def b62(self):
        if self.peek() == '_':
            self.i += 1
            return 0
        j = self.s.index('_', self.i)
        v = 0
        for c in self.s[self.i:j]:
            v = v * 62 + '0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'.index(c)
        self.i = j + 1
        return v + 1

    def dis(self):
        if self.peek() == 's':
            self.i += 1
            self.b62()

    def ident(self):
        self.dis()
        if self.peek() == 'u':
            self.i += 1
        n = 0
        while self.peek().isdigit():
            n = n * 10 + int(self.get())
            if n == 0:
                break
        if self.peek() == '_':
            self.i += 1
        r = self.s[self.i:self.i + n]
        self.i += n
        return r

    def back(self, f):
        at = self.i - 1
        t = self.b62()
        if self.d > 60 or t >= at:
            return '?'
        save, self.i, self.d = self.i, t, self.d + 1
        r = f()
        self.i, self.d = save, self.d - 1
        return r

    def path(self):
        c = self.get()
        if c == 'C':
            return self.ident()
        if c == 'M':
            self.dis()
            self.path()
            return '<' + self.type() + '>'
        if c == 'X':
            self.dis()
            self.path()
            return '<' + self.type() + ' as ' + self.path() + '>'
        if c == 'Y':
            return '<' + self.type() + ' as ' + self.path() + '>'
        if c == 'N':
            ns = self.get()
            p = self.path()
            n = self.ident()
            if ns in 'CS':
                n = '{closure}' if ns == 'C' else '{shim}'
            return p + '::' + n if n else p
        if c == 'I':
            p = self.path()
            while self.peek() != 'E':
                self.arg()
            self.i += 1
            return p
        if c == 'B':
            return self.back(self.path)
        raise ValueError

    def arg(self):
        if self.peek() == 'L':
            self.i += 1
            self.b62()
        elif self.peek() == 'K':
            self.i += 1
            self.const()
        else:
            self.type()

    def const(self):
        if self.peek() == 'B':
            self.i += 1
            return self.back(self.const)
        self.type()
        self.i = self.s.index('_', self.i) + 1
        return '_'

    def type(self):
        c = self.peek()
        if c in BASIC:
            self.i += 1
            return BASIC[c]
        if c in 'CMXYNI':
            return self.path()
        self.i += 1
        if c == 'B':
            return self.back(self.type)
        if c in 'RQ':
            if self.peek() == 'L':
                self.i += 1
                self.b62()
            return ('&' if c == 'R' else '&mut ') + self.type()
        if c in 'PO':
            return ('*const ' if c == 'P' else '*mut ') + self.type()
        if c == 'A':
            t = self.type()
            self.const()
            return '[%s; _]' % t
        if c == 'S':
            return '[%s]' % self.type()
        if c == 'T':
            while self.peek() != 'E':
                self.type()
            self.i += 1
            return '(..)'
        if c == 'F':
            if self.peek() == 'G':
                self.i += 1
                self.b62()
            if self.peek() == 'U':
                self.i += 1
            if self.peek() == 'K':
                self.i += 1
                if self.peek() == 'C':
                    self.i += 1
                else:
                    self.ident()
            while self.peek() != 'E':
                self.type()
            self.i += 1
            self.type()
            return 'fn(..)'
        if c == 'D':
            if self.peek() == 'G':
                self.i += 1
                self.b62()
            while self.peek() != 'E':
                self.path()
                while self.peek() == 'p':
                    self.i += 1
                    self.ident()
                    self.type()
            self.i += 1
            if self.peek() == 'L':
                self.i += 1
                self.b62()
            return 'dyn _'
        raise ValueError


def demangle(s):
    if not s.startswith('_R'):
        return s
    try:
        return P(s[2:]).path()
    except (ValueError, IndexError):
        return s[:200]

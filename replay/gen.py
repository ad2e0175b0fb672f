"""Deterministic generator of ed sessions, by family.  A session is (files, args, env, stdin)."""
import random

WORDS = ['a', 'b', 'ab', 'foo', 'bar', 'foo bar', 'x1', '', 'aba', 'a.b', 'foofoo', 'one two', 'b a b', '  y', 'Foo']
RES = ['a', 'b', 'foo', 'x', 'o', 'a*', '^a', 'b$', '.', '[ab]', 'zz', '^$', 'o*']


class G(object):
    def __init__(self, fam, seed):
        self.r = random.Random('%s/%d' % (fam, seed))
        self.fam = fam

    def pick(self, *xs):
        return self.r.choice(xs)

    def p(self, q):
        return self.r.random() < q

    def n(self, a, b):
        return self.r.randint(a, b)

    def line(self):
        return self.r.choice(WORDS)

    def lines(self, a, b):
        return [self.line() for _ in range(self.n(a, b))]

    def re(self):
        return self.r.choice(RES)

    def one(self):
        r = self.r.random()
        if r < .38:
            return str(self.n(0, 9))
        if r < .48:
            return '.'
        if r < .60:
            return '$'
        if r < .68:
            return self.pick('+', '-', '++', '--', '+2', '-2', '$-1', '.+1', '.-1', '$-2', '3-1', '1+1', '2 1', '.+-1', '1 -1 +2')
        if r < .78:
            return '/%s/' % self.re()
        if r < .85:
            return '?%s?' % self.re()
        if r < .93:
            return "'" + self.pick('a', 'b', 'c')
        if r < .97:
            return self.pick('//', '??') + self.pick('', '+1', '-1')
        return self.pick('99', '-99', '$+1', '0', '99999999999999999999', '.+9223372036854775807', "'z", '-0')

    def addr(self, q0=.3):
        r = self.r.random()
        if r < q0:
            return ''
        if r < .55:
            return self.one()
        if r < .85:
            return self.one() + self.pick(',', ',', ',', ';') + self.one()
        if r < .95:
            return self.pick(',', '%', ';', '1,', ',2', '.,', ';2', '2;', ',3')
        return self.one() + ',' + self.one() + self.pick(',', ';') + self.one()

    def good(self):
        a = self.n(1, 6)
        return self.pick(str(a), '%d,%d' % (a, a + self.n(0, 3)), '', ',', '$', '%d,$' % self.n(1, 4), '.,+%d' % self.n(0, 2))

    def ad(self):
        return self.addr() if self.p(.5) else self.good()

    def suf(self):
        return self.pick('', '', '', '', '', 'p', 'n', 'l', 'pn', 'q', 'pl')

    def text(self):
        return [l for l in self.lines(0, 3)] + ['.']

    def dst(self):
        return self.pick(str(self.n(0, 8)), '$', '0', '.', '-', '/a/', "'a", '$-1', '')

    def subst(self):
        if self.p(.08):
            return 's' + self.pick('', 'g', 'p', '2', 'r', 'n')
        d = self.pick('/', '/', '/', ',', '|')
        rhs = self.pick('', 'X', '&&', '[&]', 'a b', '%', '\\n', '\\&', 'Y\\\nZ', '\\1', '<\\1>', '\\u&', '\\U&\\E!', 'q')
        pat = self.pick(self.re(), self.re(), '\\(a\\)\\(b*\\)', '\\(o\\)', '')
        fl = self.pick('', 'g', '2', '3', 'p', 'n', 'l', 'gp', '2g', 'pg', '$', '$-1', '3$', 'I', 'gi', 'x')
        if self.p(.1):
            return 's%s%s%s%s' % (d, pat, d, rhs)
        return 's%s%s%s%s%s%s' % (d, pat, d, rhs, d, fl)

    def simple(self):
        """one command, as lines"""
        r = self.r.random()
        A = self.ad()
        if r < .07:
            return [A + 'a' + self.suf()] + self.text()
        if r < .13:
            return [A + 'i' + self.suf()] + self.text()
        if r < .20:
            return [A + 'c' + self.suf()] + self.text()
        if r < .28:
            return [A + 'd' + self.suf()]
        if r < .34:
            return [A + 'j' + self.suf()]
        if r < .43:
            return [A + 'm' + self.dst() + self.suf()]
        if r < .51:
            return [A + 't' + self.dst() + self.suf()]
        if r < .64:
            return (A + self.subst()).split('\n')
        if r < .69:
            return [A + 'k' + self.pick('a', 'b', 'c', 'c', 'B', '1') + self.suf()]
        if r < .78:
            return ['u' + self.pick('', '', '', '', 'p', 'n')] if self.p(.9) else [A + 'u']
        if r < .86:
            return [A + self.pick('p', 'n', 'l', '', '=', '') + self.pick('', '', 'p')]
        if r < .90:
            return [A + self.pick('z', 'z2', 'z1', ']', '[', ']1', 'Z', 'Z3', 'zn', 'z3p')]
        if r < .94:
            return [A + self.pick('#', '# comment', 'h', 'P', 'H', 'f', '!echo hi', '!:')]
        return [self.pick(A + 'r in2', A + 'r !cat in2', '0r in2', A + 'w out2', A + 'w', A + 'W out2', 'e in2', 'E in2', 'f in2',
                          A + 'r nope', A + '!cat', A + '!tr a-z A-Z', 'w !cat', 'e', '$r in2', 'q', A + 'r', 'f nope', 'e in3', 'r in3')]

    def regs(self):
        A = self.ad()
        x = self.pick('0', '1', '2', '', '3')
        return [self.pick(A + 'm>' + x, A + 't>' + x, A + 'm>>' + x, A + 't>>' + x, '<%sm%s' % (x, self.dst()), '<%st%s' % (x, self.dst()),
                          '<%sm>%s' % (x, self.pick('1', '2', '')), '<%st>>%s' % (x, self.pick('1', '2', '')), A + 'm>' + x + 'p',
                          '<%stp' % x, '@' + x, A + 't>' + x)]

    def glob(self):
        A = self.pick('', '', ',', self.ad())
        cmds = []
        for _ in range(self.n(1, 3)):
            c = self.pick('d', 'p', 's/a/b/', 's/o/0/g', 'm0', 't.', 'm$', '-1d', '+1d', 'a\\\nnew', 'i\\\nnew\\\nnew2', 'j', 'ka', 'n', '.=',
                          '1,2d', 'c\\\nrepl', '$d', '.,+1j', '1m$', 't0', 'u', 's/^/>/', '.+1m.-1', 'g/a/d', '/b/d', 'r in2', 'w out2',
                          "'ad", '1t$')
            cmds.append(c)
        body = '\\\n'.join(cmds)
        if cmds[-1].find('\n') >= 0 and self.p(.3):
            body += '\\\n.'
        k = self.pick('g', 'g', 'g', 'v')
        return (A + '%s/%s/%s' % (k, self.re(), body)).split('\n')

    def cmd(self):
        r = self.r.random()
        if self.fam == 'glob' and r < .45 or r < .08:
            return self.glob()
        if self.fam == 'regs' and r < .6 or r > .97:
            return self.regs()
        if self.fam == 'undo' and r < .35:
            return ['u']
        if self.fam == 'subst' and r < .7:
            return (self.good() + self.subst()).split('\n')
        return self.simple()

    def probe(self):
        return self.pick(['.='], ['$='], ['w !cat -A'], [',n'], [',p'], ["'ap"], ["'b="], ['.n'])

    def session(self):
        f = getattr(self, 'fam_' + self.fam, None)
        if f:
            return f()
        files = {'in1': ''.join(l + '\n' for l in self.lines(0, 9)), 'in2': ''.join(l + '\n' for l in self.lines(0, 3)),
                 'in3': self.pick('', 'x', 'a\0b\n', 'a\nb', '\n', 'x\n' * 30)}
        args = self.pick([], [], ['-s'], ['-s'], ['-G'], ['-E'], ['-p*'])
        if self.p(.9):
            args = args + ['in1']
        out = []
        for _ in range(self.n(3, 14)):
            out += self.cmd()
            if self.p(.45):
                out += self.probe()
        out += ['.=', '$=', ',n', 'ka', 'u', '.=', ',n', 'u', '.=', ',n', "'ap", 'w out', 'Q'] if self.p(.7) else ['.=', ',n', 'q', 'h', ',p', 'q']
        return dict(files=files, args=args, env={}, stdin='\n'.join(out) + '\n')

    # ---- modified status: sessions without -s, ending in q / e
    def fam_mod(self):
        files = {'in1': ''.join(l + '\n' for l in self.lines(0, 6)), 'in2': ''.join(l + '\n' for l in self.lines(0, 3)), 'in3': ''}
        out = []
        for _ in range(self.n(1, 7)):
            r = self.r.random()
            if r < .25:
                out += [self.pick('w', 'w out', '1,2w', '1w out', ',w', 'w !cat', '1,$w out2', 'w nodir/x', 'W out', 'wq x', '2,$w', '1,$W in1', 'w /dev/full')]
            elif r < .35:
                out += ['u']
            elif r < .45:
                out += [self.pick('r in2', 'r in3', 'r nope', 'r !cat in2', '0r !:', 'e in2', 'E in2', 'f x', 'e nope')]
            else:
                out += self.simple()
            if self.p(.6):
                out += [self.pick('q', 'e in2', 'wq', 'e', 'q'), self.pick('.=', ',n', 'p')]
        out += [',n', 'q', '.=', 'q']
        return dict(files=files, args=self.pick([], [], [], ['-G'], ['-s']) + (['in1'] if self.p(.85) else []), env={}, stdin='\n'.join(out) + '\n')

    # ---- marks: several marks, on one line too; lines deleted for good; memory of lines reused
    def fam_marks(self):
        files = {'in1': ''.join('%d %s\n' % (i + 1, self.line()) for i in range(self.n(1, 9))), 'in2': 'z\ny\n'}
        ms = self.pick('ab', 'abc', 'abz', 'azm')
        out = []
        for _ in range(self.n(5, 22)):
            r = self.r.random()
            a = str(self.n(1, 7))
            if r < .34:
                out += [a + 'k' + self.r.choice(ms)]
            elif r < .48:
                out += [self.pick(a + 'd', '%s,+1d' % a, "'%sd" % self.r.choice(ms), '$d', '1d')]
            elif r < .66:
                out += self.pick(['$a', 'n1', 'n2', '.'], [a + 'i', 'n3', '.'], ['0a', 'n4', 'n5', 'n6', '.'], [a + 'c', 'c1', '.'], ['%st$' % a], ['$r in2'])
            elif r < .76:
                out += [self.pick('%ss/[0-9n]/X/' % a, '%s,+1j' % a, '%sm0' % a, '%sm$' % a, "'%sm0" % self.r.choice(ms), 'g/2/d', 'g/[13]/s/^/>/', '%s,$m0' % a)]
            elif r < .86:
                out += ['u']
            else:
                out += ["'%s%s" % (self.r.choice(ms), self.pick('p', 'n', '=', 's/$/!/'))]
        for c in ms:
            out += ["'%sn" % c]
        return dict(files=files, args=['-s', 'in1'], env={}, stdin='\n'.join(out + [',n', 'u'] + ["'%sn" % c for c in ms] + ['Q']) + '\n')

    # ---- reading and writing
    def blob(self):
        r = self.r.random()
        if r < .15:
            return ''
        if r < .3:
            return self.pick('x', '\n', '\n\n', 'a\n', 'a', 'ab\ncd', '\0', '\0\n', 'a\0', 'a\0b\nc\n\0\n', '\n\n\nx')
        if r < .5:
            return ''.join(self.pick('a', 'b', '\n', '\n', '\0', ' ', '\t', '\x01', '\x7f', '\\', '\x80', '\xe9') for _ in range(self.n(1, 60)))
        if r < .6:
            return ('%s\n' % ('y' * self.pick(1, 30, 510, 511, 512, 513, 1022, 1023, 1024, 1025, 4095, 4096, 4097))) * self.n(1, 4)
        b = ''.join(l + '\n' for l in self.lines(1, 12))
        return b if self.p(.7) else b[:-1]

    def fam_io(self):
        files = {'in1': self.blob(), 'in2': self.blob(), 'in3': self.blob()}
        out = []
        for _ in range(self.n(2, 9)):
            A = self.ad()
            out += self.pick([A + 'r in2'], [A + 'r in3'], ['0r in2'], ['e in2'], ['E in3'], [A + 'w out'], ['w'], [A + 'W out'], [A + 'w !cat -A'],
                             ['w out2'], [A + 'r !cat in2'], ['$d'], ['1d'], [',d'], ['$a', 'tail', '.'], [A + 'j'], ['u'], ['1,$w out'], ['$w out'],
                             ['0a', 'top', '.'], [',s/a/b/g'], ['$r in3'], ['w in2'], [A + 'l'], [A + '!cat'], [A + '!tr a b'], ['$t0'], ['1m$'],
                             ['w !od -c'])
        out += ['w fin', 'w !od -c', '$=', ',l', 'Q']
        return dict(files=files, args=self.pick([], ['-s']) + ['in1'], env={}, stdin='\n'.join(out) + '\n')

    # ---- addresses
    def fam_addr(self):
        files = {'in1': ''.join('%d %s\n' % (i + 1, self.line()) for i in range(self.n(0, 12)))}
        out = []
        big = ['9223372036854775807', '9223372036854775808', '18446744073709551616', '4294967297', '2147483648', '18446744073709551617']
        for _ in range(self.n(4, 16)):
            a = ''
            for _ in range(self.n(1, 3)):
                t = self.one()
                for _ in range(self.n(0, 3)):
                    t += self.pick('+', '-', '+1', '-1', ' 1', '+2', '-3', '+' + self.r.choice(big) if self.p(.2) else '+0', '-' + self.r.choice(big) if self.p(.2) else '-0', '   +  1', '^', '^2')
                if self.p(.05):
                    t = self.r.choice(big)
                a += t + self.pick(',', ';', ',', ' , ')
            if self.p(.85):
                a = a.rstrip(' ,;')
            out += [a + self.pick('=', 'p', 'n', '', 'p', 'ka', 'kb', '=')]
            if self.p(.3):
                out += ['.=']
        return dict(files=files, args=self.pick([], ['-s'], ['-G']) + ['in1'], env={}, stdin='\n'.join(out + ['Q']) + '\n')

    # ---- command recognition
    def fam_cmds(self):
        files = {'in1': ''.join(l + '\n' for l in self.lines(1, 8)), 'in2': 'z\n'}
        out = []
        for _ in range(self.n(4, 14)):
            A = self.pick('', '', '1', '1,2', '$', ',')
            c = chr(self.n(33, 126)) if self.p(.6) else self.pick(*'acdefghijklmnpqrstuvwxzEGHPQVWZ=#!@[]{}<>~')
            if c in '!"`':
                c = 'p'
            tail = self.pick('', '', '', 'p', 'n', 'l', 'x', ' ', ' p', 'pnl', '1', 'a', ' in2', 'pq', '>1', '/a/p', '/a/b/', '0', '$', 'q', 'p p')
            if c == '@' and tail:
                tail = ''
            if c in 'aic' :
                out += [A + c + tail, 'txt', '.']
            else:
                out += [A + c + tail]
            if self.p(.5):
                out += self.pick(['.='], [',n'])
        return dict(files=files, args=self.pick([], ['-s'], ['-G']) + ['in1'], env=self.pick({}, {}, {'POSIXLY_CORRECT': '1'}), stdin='\n'.join(out + [',n', 'Q']) + '\n')

    # ---- display of text
    def fam_utf8(self):
        cs = ['a', 'é', '€', '漢', '𝄞', '\t', ' ', 'z', 'ß', '\\', 'ñ', '日', '$', '𐍈', 'П']
        ls = [''.join(self.r.choice(cs) for _ in range(self.n(0, 30))) for _ in range(self.n(1, 5))]
        b = '\n'.join(ls).encode() + b'\n'
        if self.p(.2):
            k = self.n(0, len(b))
            b = b[:k] + self.pick(b'\xff', b'\x80', b'\xc3', b'\xe2\x82', b'\x00') + b[k:]
        out = [',p', ',n', '1p', '$n'] + [self.pick('s/./<&>/g', 's/a/é/g', 's/é/e/gp', '/漢/p', 's/.$//', '1,2j', 'g/€/p', 's/./\\u&/', 's/.*/\\U&/p', '$p', 't.', ',n')
                                          for _ in range(self.n(2, 6))]
        return dict(files={'in1': b.decode('latin-1')}, args=self.pick([], ['-s']) + ['in1'],
                    env=dict(LC_ALL='C.UTF-8', COLUMNS=self.pick('80', '20', '10'), LINES='24'), stdin='\n'.join(out + [',n', 'w out', 'Q']) + '\n', utf8=1)

    def fam_list(self):
        files = {'in1': ''.join(''.join(self.pick('a', 'b', '\t', '\\', '\x01', '\x07', '\x08', '\x0c', '\x7f', '\x80', '\xff', '$', ' ', '\r', '\x0b', 'long text ')
                                        for _ in range(self.n(0, 60))) + '\n' for _ in range(self.n(1, 5)))}
        out = [self.pick(',l', '1l', '$l', ',n', 'p', ',ln', '1,2p', '1,2l', ',pl') for _ in range(self.n(2, 5))]
        return dict(files=files, args=['-s', 'in1'], env=dict(COLUMNS=self.pick('80', '72', '20', '10', '5'), LINES=self.pick('24', '5')), stdin='\n'.join(out + ['Q']) + '\n')

    # ---- paging
    def fam_page(self):
        files = {'in1': ''.join('%d %s\n' % (i + 1, self.pick('x', 'y' * 50, 'z' * 15, '')) for i in range(self.n(0, 60)))}
        out = []
        for _ in range(self.n(3, 12)):
            A = self.pick('', '', '', '1', '$', '5', '20', '10,15', '1,9', '0', '$-3', '40')
            out += [A + self.pick('z', 'z', 'Z', ']', '[', 'z%d' % self.n(1, 30), 'Z%d' % self.n(1, 30), ']%d' % self.n(1, 9), '[%d' % self.n(1, 9), 'zn', 'zl', 'p', '=', 'Zn', ']n', 'z5p', '1,5p')]
            if self.p(.5):
                out += ['.=']
        return dict(files=files, args=self.pick([], ['-s']) + ['in1'], env=dict(COLUMNS=self.pick('80', '20', '10'), LINES=self.pick('24', '5', '10', '3', '2')), stdin='\n'.join(out + ['Q']) + '\n')

    # ---- restricted mode
    def fam_restr(self):
        files = {'in1': ''.join(l + '\n' for l in self.lines(1, 5)), 'in2': 'z\n', 'dir/f': 'inner\n', '.hid': 'h\n', '!echo ran': 'shell\n'}
        out = []
        nm = ['in2', 'dir/f', '../x', './in2', '!echo ran', '!cat in2', '/dev/null', '..', 'a/../in2', 'x/y', '!', '!!', '.hid', ' in2', '\\!x', '`echo in2`', '$(echo in2)', '~/in2',
              '<(echo ran)', '>(cat)', 'in*', 'dir/*', '!echo dir', '?echo*', 'in1 dir/f', '[d]ir/f', '?cho*', '[!i]*', 'dir/f in1']
        for _ in range(self.n(2, 9)):
            A = self.pick('', '1', ',', '$')
            c = self.pick('r', 'w', 'e', 'E', 'f', 'W', 'wq', '!', '~n e', '~r', '~w', '~f', 'r', '~e', '~E', '~r', '~En', '~Ep', '~en', '~E')
            if c == '!':
                out += [A + '!' + self.pick('echo ran', 'cat', '!', 'touch made')]
            elif c in ('~En', '~Ep', '~en'):
                out += [c]
            else:
                if c in ('e', 'E', 'f', '~n e', '~E', '~e', '~f'):
                    A = ''
                x = A + c + self.pick(' ', ' ', ' ', '')
                if x[-1] == ' ':
                    x += self.r.choice(nm)
                if self.p(.25):
                    x = self.pick('g/./', '1g/./', 'g/a/', 'g/./s/x/y/\\\n', 'g/./p\\\n') + x
                out += x.split('\n')
            if self.p(.5):
                out += [self.pick(',n', 'f', '.=', 'g/./!echo ran', 's/^/!echo ran/')]
        args = self.pick([], ['-s'])
        return dict(files=files, args=args + self.pick(['in1'], ['in1'], ['!echo ran'], ['dir/f'], ['../x'], ['/dev/null'], ['in1', 'dir/f'], ['in1', 'in2', 'dir/f'], ['in1', '!echo ran'],
                    ['dir/f', 'in1']), env={}, stdin='\n'.join(out + [',n', 'w fin', 'Q']) + '\n', prog=self.pick('red', 'red', 'red', 'ed'))

    # ---- long lines and large buffers
    def fam_long(self):
        L = self.pick(10, 100, 511, 512, 513, 1000, 1023, 1024, 4095, 4096, 8192, 20000)
        files = {'in1': ''.join(self.pick('a', 'b', 'ab', 'foo ') * max(1, (L // self.pick(1, 2, 3))) + '\n' for _ in range(self.n(1, 5))) + ''.join('l%d\n' % i for i in range(self.n(0, 300)))}
        out = []
        for _ in range(self.n(2, 8)):
            out += self.pick(['1s/a/xyz/g'], ['1,2j'], [',j'], ['1t.'], ['g/a/s/$/' + 'q' * self.n(1, 700) + '/'], ['$-2,$m0'], [',t$'], ['g/1/m0'], ['v/1/d'],
                             ['1s/b/' + '&' * self.n(1, 60) + '/g'], ['u'], ['1s/.*/&&/'], ['1r !cat in1'], ['g/l1/t.'], ['g/l2/d'], ['1s/\\(a*\\)\\(b*\\)/\\2\\1\\2/g'],
                             ['0a', 'k' * self.n(1, 2000), '.'], ['1t>1'], ['<1t0'], ['/l5/,/l9/d'], ['1p'], ['w !wc'], ['1,3s/o/\\\n/g'.replace('\n', '\\n')])
        out += ['$=', 'w !cksum', 'w out', 'u', 'w !cksum', 'Q']
        return dict(files=files, args=['-s', 'in1'], env={}, stdin='\n'.join(out) + '\n')

    # ---- texts whose lengths lie about the sizes of buffers
    def fam_grow(self):
        def L():
            return max(1, self.pick(4096, 8192, 8192, 16384, 24576, 32768) // self.pick(1, 1, 2, 3, 4) + self.n(-3, 3))

        def T(k=None, c='abxo y'):
            k = k or L()
            c = self.r.choice(c)
            return c * k
        long = [T() for _ in range(self.n(2, 4))]
        utf8 = self.p(.2)
        if utf8:
            long = ['é' * (len(l) // 2) + l[:len(l) // 4] for l in long]
        files = {'in1': ''.join((l.encode().decode('latin-1') if utf8 else l) + '\n' for l in ['foo'] + long + ['bar'])}
        if self.p(.1):
            files['in1'] = files['in1'][:-1]
        out = []
        for _ in range(self.n(2, 6)):
            f = self.n(0, 21)
            if f < 4:
                out += [self.pick('2', '3', '') + 's/.*/' + '&' * self.n(1, 9) + self.pick('', 'x', '\\U&', 'xyz') + '/']
            elif f < 6:
                out += [self.pick('1,2j', '2,3j', '1,3j', ',j', '3,$j')]
            elif f < 8:
                out += ['g/%s/a\\' % self.pick('foo', 'bar', '.')] + [T() + '\\' for _ in range(self.n(0, 3))] + [T()]
            elif f == 8:
                out += ['s/%s/%s/' % (self.pick('foo', 'x*', '.'), T())]
            elif f == 9:
                out += ['1s/o/%s\\' % T(self.n(1, 5000)), T(self.n(1, 5000)) + '/']
            elif f == 10:
                out += ['!: ' + T() + self.pick('', '%', '%%')]
            elif f == 11:
                out += ['!!' + T(self.n(1, 9000), 'xy'), '!!' + T(self.n(1, 300), 'xy')]
            elif f == 12:
                out += ['2s/%s/<&>/g' % self.pick('a', 'x*', '\\(.\\)', 'a*b*', 'y*$', '')]
            elif f == 13:
                out += ['2s/\\(.*\\)/%s/' % ('\\1' * self.n(1, 6) + self.pick('', '\\u\\1', '\\L\\1\\E'))]
            elif f == 14:
                out += [self.pick('f ', 'w ', 'r ', 'e ', 'E ') + T(self.n(1, 5000), 'zq')]
            elif f == 15:
                out += ['/%s/p' % T(self.n(1, 1200), 'ab[')]
            elif f == 16:
                out += ['s/foo/%s/' % ('\\U' * self.n(1, 3000) + 'x')]
            elif f == 17:
                out += ['a', T(), T(), '.']
            elif f == 18:
                out += [self.pick('2l', '2n', '3p', ',l', 'z3')]
            elif f == 19:
                out += ['r !' + 'head -c %d /dev/zero | tr "\\0" q' % L()]
            elif f == 20:
                out += ['2,3!cat']
            else:
                out += ['g/./s/$/%s/\\' % T(self.n(1, 3000)), 's/^/%s/' % T(self.n(1, 3000))]
            if self.p(.2):
                out += ['u']
        return dict(files=files, args=self.pick([], ['-s']) + ['in1'], env=dict(LC_ALL='C.UTF-8' if utf8 or self.p(.1) else 'C', COLUMNS=self.pick('80', '80', '20000', '8200'), LINES='24'),
                    stdin='\n'.join(out + ['w out', 'Q']) + '\n', utf8=1)


FAMS = ('edit', 'undo', 'glob', 'regs', 'subst', 'mod', 'io', 'addr', 'cmds', 'utf8', 'list', 'page', 'restr', 'long', 'marks', 'grow')
COUNT = dict(marks=1500, edit=900, undo=500, glob=700, regs=500, subst=500, mod=700, io=500, addr=400, cmds=500, utf8=150, list=150, page=300, restr=600, long=200, grow=600)


def session(fam, seed):
    return G(fam, seed).session()

"""Parser for the subset of Structured Text that the library's declaration files use."""
import re, os, glob
class STError(Exception): pass
TOK = re.compile(r"\s+|(?P<prag>\{[^}]*\})|(?P<num>16#[0-9A-Fa-f_]+|8#[0-7_]+|2#[01_]+|\d[\d_]*(?:\.\d+(?:[eE][+-]?\d+)?)?)|(?P<tlit>\b(?:T|TIME|LTIME|LT|D|DATE|LDATE|TOD|LTOD|DT|LDT)#[\w:.+-]+)|(?P<id>[A-Za-z_]\w*)|(?P<str>'(?:\$.|[^'$])*'|\"(?:\$.|[^\"$])*\")|(?P<op>:=|=>|<>|<=|>=|\*\*|\.\.\.|\.\.|[-+*/()<>\[\];:,.=&#^])")
def strip(s):
    """comments removed (nested), line structure kept"""
    o = []; i = 0; d = 0
    while i < len(s):
        if not d and s.startswith('/*', i):
            j = s.find('*/', i+2)
            if j < 0: raise STError('unterminated comment')
            o.append('\n' * s.count('\n', i, j)); i = j + 2; continue
        if s.startswith('(*', i): d += 1; i += 2; continue
        if d and s.startswith('*)', i): d -= 1; i += 2; continue
        if not d and s.startswith('//', i):
            j = s.find('\n', i); i = len(s) if j < 0 else j; continue
        if not d and s[i] in '\'"':
            j = i + 1
            while j < len(s) and s[j] != s[i]: j += 2 if s[j] == '$' else 1
            o.append(s[i:j+1]); i = j + 1; continue
        o.append(s[i] if not d or s[i] == '\n' else ' '); i += 1
    if d: raise STError('unterminated comment')
    return ''.join(o)
def lex(s, file):
    s = strip(s); i = 0; line = 1; r = []
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise STError(f'{file}:{line}: unexpected {s[i:i+20]!r}')
        if m.lastgroup: r.append((m.lastgroup, m.group(), line))
        line += m.group().count('\n'); i = m.end()
    r.append(('eof', '', line))
    return r
class Var:
    def __init__(s, name, ty, kind, ref, sized, variadic, line, init=None): s.name = name; s.ty = ty; s.kind = kind; s.ref = ref; s.sized = sized; s.variadic = variadic; s.line = line; s.init = init
class Pou:
    def __init__(s, kind, name, file, line): s.kind = kind; s.name = name; s.file = file; s.line = line; s.external = False; s.generics = []; s.ret = None; s.vars = []; s.body = []
    def params(s): return [v for v in s.vars if v.kind in ('VAR_INPUT', 'VAR_OUTPUT', 'VAR_IN_OUT')]
    def where(s): return f'{s.file}:{s.line}'
# types: ('T', name) | ('STR', 'STRING'|'WSTRING', size term or None) | ('ARR', lo, hi, type) | ('PTR', type)
# expressions: ('id', name) | ('num', text) | ('str', text) | ('tlit', text) | ('call', name, [(param or None, expr, out)]) | ('bin', op, a, b) | ('un', op, a) | ('idx', a, [i]) | ('fld', a, name)
# statements: ('=', lhs, expr, line) | ('call', expr, line) | ('if', [(cond, stmts)], else, line) | other loops
class Parser:
    def __init__(s, text, file): s.t = lex(text, file); s.i = 0; s.file = file
    def pk(s, n=0): return s.t[s.i+n]
    def up(s, n=0): return s.t[s.i+n][1].upper() if s.t[s.i+n][0] == 'id' else s.t[s.i+n][1]
    def err(s, m): raise STError(f'{s.file}:{s.pk()[2]}: {m}, found {s.pk()[1]!r}')
    def eat(s, v):
        if s.up() != v: s.err(f'expected {v}')
        s.i += 1
    def ident(s):
        if s.pk()[0] != 'id': s.err('expected a name')
        v = s.pk()[1]; s.i += 1; return v
    def num(s):
        if s.pk()[0] == 'num': s.i += 1; return s.t[s.i-1][1]
        return s.ident()
    def accept(s, v):
        if s.up() == v and s.pk()[0] != 'str': s.i += 1; return True
        return False
    def ty(s):
        if s.pk()[0] == 'id':
            n = s.ident(); u = n.upper()
            if u in ('STRING', 'WSTRING'):
                size = None
                if s.accept('['): size = s.expr(); s.eat(']')
                elif s.accept('('): size = s.expr(); s.eat(')')
                return ('STR', u, size)
            if u == 'ARRAY':
                s.eat('['); lo = s.expr(); s.eat('..'); hi = s.expr(); s.eat(']'); s.eat('OF'); return ('ARR', lo, hi, s.ty())
            if u in ('POINTER', 'REF_TO'):
                if u == 'POINTER': s.eat('TO')
                return ('PTR', s.ty())
            return ('T', u)
        s.err('expected a type')
    def file_(s):
        pous = []; consts = {}; ext = False; extline = None
        while s.pk()[0] != 'eof':
            if s.pk()[0] == 'prag':
                if s.pk()[1].strip('{} \t').lower() == 'external': ext = True; extline = s.pk()[2]
                s.i += 1; continue
            u = s.up()
            if u == 'VAR_GLOBAL':
                s.i += 1
                const = s.accept('CONSTANT')
                while not s.accept('END_VAR'):
                    n = s.ident(); s.eat(':'); t = s.ty(); v = None
                    if s.accept(':='): v = s.expr()
                    s.eat(';')
                    consts[n.upper()] = (t, v)
                continue
            if u in ('FUNCTION', 'FUNCTION_BLOCK'):
                p = Pou(u, None, s.file, s.pk()[2]); p.external = ext; ext = False
                s.i += 1; p.name = s.ident()
                if s.accept('<'):
                    while True:
                        g = s.ident(); s.eat(':'); p.generics.append((g.upper(), s.ident().upper()))
                        if not s.accept(','): break
                    s.eat('>')
                if s.accept(':'): p.ret = s.ty()
                while s.up() in ('VAR_INPUT', 'VAR_OUTPUT', 'VAR_IN_OUT', 'VAR', 'VAR_TEMP', 'VAR_EXTERNAL'):
                    kind = s.up(); s.i += 1; ref = False
                    while s.pk()[0] == 'prag' or s.up() in ('CONSTANT', 'RETAIN'):
                        if s.pk()[1].strip('{} \t').lower() == 'ref': ref = True
                        s.i += 1
                    while not s.accept('END_VAR'):
                        ns = [s.ident()]; ln = s.pk()[2]
                        while s.accept(','): ns.append(s.ident())
                        s.eat(':'); sized = False
                        while s.pk()[0] == 'prag':
                            if s.pk()[1].strip('{} \t').lower() == 'sized': sized = True
                            s.i += 1
                        t = s.ty(); va = s.accept('...'); init = s.expr() if s.accept(':=') else None
                        s.eat(';')
                        for n in ns: p.vars.append(Var(n, t, kind, ref, sized, va, ln, init))
                end = 'END_' + u
                p.body = s.stmts((end,))
                s.eat(end); pous.append(p); continue
            s.err('expected a declaration')
        return pous, consts
    def stmts(s, ends):
        r = []
        while s.up() not in ends:
            if s.pk()[0] == 'eof': s.err('unterminated body')
            if s.accept(';'): continue
            r.append(s.stmt())
        return r
    def stmt(s):
        ln = s.pk()[2]; u = s.up()
        if u == 'IF':
            s.i += 1; arms = []; els = None
            c = s.expr(); s.eat('THEN'); b = s.stmts(('ELSIF', 'ELSE', 'END_IF')); arms.append((c, b))
            while True:
                if s.accept('ELSIF'): c = s.expr(); s.eat('THEN'); arms.append((c, s.stmts(('ELSIF', 'ELSE', 'END_IF'))))
                elif s.accept('ELSE'): els = s.stmts(('END_IF',))
                else: s.eat('END_IF'); break
            s.accept(';')
            return ('if', arms, els, ln)
        if u == 'RETURN': s.i += 1; s.accept(';'); return ('return', ln)
        if u == 'FOR':
            s.i += 1; v = s.ident(); s.eat(':='); a = s.expr(); s.eat('TO'); b = s.expr(); c = s.expr() if s.accept('BY') else ('num', '1')
            s.eat('DO'); body = s.stmts(('END_FOR',)); s.eat('END_FOR'); s.accept(';'); return ('for', v, a, b, c, body, ln)
        if u == 'WHILE':
            s.i += 1; c = s.expr(); s.eat('DO'); body = s.stmts(('END_WHILE',)); s.eat('END_WHILE'); s.accept(';'); return ('while', c, body, ln)
        if u == 'REPEAT':
            s.i += 1; body = s.stmts(('UNTIL',)); s.eat('UNTIL'); c = s.expr(); s.accept(';'); s.eat('END_REPEAT'); s.accept(';'); return ('repeat', c, body, ln)
        if u in ('EXIT', 'CONTINUE'): s.i += 1; s.accept(';'); return (u.lower(), ln)
        if u == 'CASE':
            s.i += 1; e = s.expr(); s.eat('OF'); arms = []; els = None
            while not s.accept('END_CASE'):
                if s.accept('ELSE'): s.accept(':'); els = s.stmts(('END_CASE',)); continue
                vs = []
                while True:
                    a = s.binl(5)
                    vs.append((a, s.binl(5)) if s.accept('..') else (a, a))
                    if not s.accept(','): break
                s.eat(':'); b = []
                while s.up() not in ('END_CASE', 'ELSE') and not s.label(): 
                    if not s.accept(';'): b.append(s.stmt())
                arms.append((vs, b))
            s.accept(';'); return ('case', e, arms, els, ln)
        e = s.postfix()
        if s.accept(':='):
            v = s.expr(); s.eat(';'); return ('=', e, v, ln)
        s.eat(';')
        return ('call', e, ln)
    def label(s):
        """a case label starts here"""
        i = s.i
        if s.t[i][1] == '-': i += 1
        if s.t[i][0] not in ('num', 'id'): return False
        return s.t[i][0] == 'num' or s.t[i+1][1] in (':', ',', '..') 
    def expr(s): return s.binl(0)
    LV = [['OR'], ['XOR'], ['AND', '&'], ['=', '<>'], ['<', '>', '<=', '>='], ['+', '-'], ['*', '/', 'MOD']]
    def binl(s, l):
        if l == len(s.LV): return s.unary()
        a = s.binl(l+1)
        while s.up() in s.LV[l] and s.pk()[0] in ('op', 'id'):
            o = s.up(); s.i += 1; a = ('bin', o, a, s.binl(l+1))
        return a
    def unary(s):
        if s.pk()[1] == '&' and s.pk()[0] == 'op': s.i += 1; return ('ref', s.unary())
        if s.up() in ('-', '+', 'NOT'): o = s.up(); s.i += 1; return ('un', o, s.unary())
        a = s.postfix()
        if s.accept('**'): a = ('bin', '**', a, s.unary())
        return a
    def postfix(s):
        k, v, ln = s.pk()
        if s.accept('('): e = s.expr(); s.eat(')')
        elif k == 'num': s.i += 1; return ('num', v)
        elif k == 'str': s.i += 1; return ('str', v)
        elif k == 'tlit': s.i += 1; return ('tlit', v)
        elif k == 'id':
            s.i += 1
            if s.pk()[1] == '#' and s.pk()[0] == 'op':      # typed literal
                s.i += 1; return ('cast', v.upper(), s.unary())
            e = ('id', v)
        else: s.err('expected an expression')
        while True:
            if s.accept('('):
                args = []
                while not s.accept(')'):
                    if s.pk()[0] == 'id' and s.pk(1)[1] in (':=', '=>'): n = s.ident(); o = s.pk()[1] == '=>'; s.i += 1; args.append((n, s.expr(), o))
                    else: args.append((None, s.expr(), False))
                    if not s.accept(','): s.eat(')'); break
                e = ('call', e, args)
            elif s.accept('['):
                ix = [s.expr()]
                while s.accept(','): ix.append(s.expr())
                s.eat(']'); e = ('idx', e, ix)
            elif s.pk()[1] == '.' and s.pk()[0] == 'op': s.i += 1; e = ('fld', e, s.num())
            elif s.pk()[1] == '^': s.i += 1; e = ('deref', e)
            else: return e
def load(root):
    pous = []; consts = {}; bad = []
    for f in sorted(glob.glob(os.path.join(root, '**', '*.st'), recursive=True)):
        try:
            p, c = Parser(open(f, encoding='utf-8').read(), f).file_()
            pous += p; consts.update(c)
        except STError as x: bad.append(str(x))
    return pous, consts, bad

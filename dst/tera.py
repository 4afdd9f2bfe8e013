"""Stand-in for acados' external `t_renderer` binary (Tera template engine).

Renders the subset of Tera the acados templates use.  Not code under test: the
templates themselves are.  Templates are compiled to Python functions.
"""
import json, os, re, sys, hashlib

TOK = re.compile(r'(\{%-?.*?-?%\}|\{\{-?.*?-?\}\}|\{#-?.*?-?#\})', re.S)


class U:
    """undefined"""
    def __getitem__(self, k): return self
    def __bool__(self): return False
    def __eq__(self, o): return isinstance(o, U)
    def __ne__(self, o): return not isinstance(o, U)
    def __lt__(self, o): return False
    __gt__ = __le__ = __ge__ = __lt__
    def __hash__(self): return 0
    def __repr__(self): return 'UNDEF'


UNDEF = U()


class Scope:
    def __init__(self, d): self.st = [d]
    def get(self, k):
        for s in reversed(self.st):
            if k in s: return s[k]
        return UNDEF
    def set(self, k, v): self.st[-1][k] = v
    def setg(self, k, v):
        for s in self.st[1:]: s.pop(k, None)
        self.st[0][k] = v


def ga(o, k):
    if isinstance(o, dict): return o.get(k, UNDEF)
    if isinstance(o, list):
        try: return o[int(k)]
        except (ValueError, IndexError): return UNDEF
    return UNDEF


def out(v):
    if isinstance(v, U): raise RuntimeError('tera: undefined variable')
    if v is True: return 'true'
    if v is False: return 'false'
    if v is None: return ''
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, list): return '[' + ', '.join(out(x) for x in v) + ']'
    return str(v)


def gt(a, b): return num(a) and num(b) and a > b
def lt(a, b): return num(a) and num(b) and a < b
def ge(a, b): return num(a) and num(b) and a >= b
def le(a, b): return num(a) and num(b) and a <= b
def num(a): return isinstance(a, (int, float))
def truthy(a): return bool(a)
def div(a, b): return a / b
def contains(a, b):
    return a in b if isinstance(b, (list, dict, str)) else False


def containing(v, pat): return isinstance(v, str) and pat in v
def filt(name, v, **kw):
    if name == 'upper': return str(v).upper()
    if name == 'first': return v[0] if v else ''
    if name == 'last': return v[-1] if v else ''
    if name == 'length': return len(v) if not isinstance(v, U) else 0
    if name == 'sort': return sorted(v)
    if name == 'replace': return v.replace(kw['from_'], kw['to'])
    if name == 'concat': return list(v) + (kw['with_'] if isinstance(kw['with_'], list) else [kw['with_']])
    raise RuntimeError('tera: filter ' + name)


LEX = re.compile(r'\s*(?:(?P<num>\d+\.\d+|\d+)|(?P<str>"[^"]*"|\'[^\']*\')|(?P<id>[A-Za-z_]\w*)|(?P<op>==|!=|>=|<=|[-+*/%~<>()\[\].,|=]))')


class P:
    def __init__(self, s):
        self.t = []
        i = 0
        s = s.strip()
        while i < len(s):
            m = LEX.match(s, i)
            if not m: raise RuntimeError('tera: lex ' + s[i:])
            self.t.append((m.lastgroup, m.group(m.lastgroup)))
            i = m.end()
        self.i = 0
        self.src = s
    def pk(self): return self.t[self.i] if self.i < len(self.t) else (None, None)
    def nx(self):
        x = self.pk(); self.i += 1; return x
    def acc(self, v):
        if self.pk()[1] == v and self.pk()[0] != 'str': self.i += 1; return True
        return False
    def exp(self, v):
        if not self.acc(v): raise RuntimeError(f'tera: expected {v} in {self.src}')
    def full(self):
        e = self.or_()
        if self.i != len(self.t): raise RuntimeError('tera: trailing in ' + self.src)
        return e
    def or_(self):
        e = self.and_()
        while self.acc('or'): e = f'(truthy({e}) or truthy({self.and_()}))'
        return e
    def and_(self):
        e = self.not_()
        while self.acc('and'): e = f'(truthy({e}) and truthy({self.not_()}))'
        return e
    def not_(self):
        if self.acc('not'): return f'(not truthy({self.not_()}))'
        return self.cmp()
    def cmp(self):
        e = self.cat()
        while True:
            k, v = self.pk()
            if k == 'op' and v in ('==', '!='):
                self.nx(); e = f'({e} {v} {self.cat()})'
            elif k == 'op' and v in ('<', '>', '<=', '>='):
                self.nx(); e = {'<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge'}[v] + f'({e}, {self.cat()})'
            elif k == 'id' and v == 'in':
                self.nx(); e = f'contains({e}, {self.cat()})'
            elif k == 'id' and v == 'is':
                self.nx(); neg = self.acc('not'); t = self.nx()[1]
                arg = None
                if self.acc('('):
                    arg = self.or_(); self.exp(')')
                if t == 'starting_with': r = f'(isinstance({e}, str) and {e}.startswith({arg}))'
                elif t == 'containing': r = f'containing({e}, {arg})'
                elif t == 'defined': r = f'(not isinstance({e}, U))'
                elif t == 'undefined': r = f'isinstance({e}, U)'
                else: raise RuntimeError('tera: test ' + t)
                e = f'(not {r})' if neg else r
            else: return e
    def cat(self):
        e = self.add()
        while self.acc('~'): e = f'(out({e}) + out({self.add()}))'
        return e
    def add(self):
        e = self.mul()
        while True:
            if self.acc('+'): e = f'({e} + {self.mul()})'
            elif self.acc('-'): e = f'({e} - {self.mul()})'
            else: return e
    def mul(self):
        e = self.post()
        while True:
            if self.acc('*'): e = f'({e} * {self.post()})'
            elif self.acc('/'): e = f'div({e}, {self.post()})'
            elif self.acc('%'): e = f'({e} % {self.post()})'
            else: return e
    def args(self):
        kw = []
        if self.acc('('):
            while not self.acc(')'):
                k = self.nx()[1]; self.exp('='); v = self.or_()
                kw.append(f'{k + "_" if k in ("from", "with") else k}={v}')
                self.acc(',')
        return kw
    def post(self):
        e = self.atom()
        while self.acc('|'):
            n = self.nx()[1]
            kw = self.args()
            e = 'filt(' + ', '.join([repr(n), e] + kw) + ')'
        return e
    def atom(self):
        k, v = self.nx()
        if k == 'num': return v
        if k == 'str': e = repr(v[1:-1])
        elif v == '(':
            e = self.or_(); self.exp(')')
        elif v == '-': return f'(-{self.atom()})'
        elif v == '[':
            its = []
            while not self.acc(']'):
                its.append(self.or_()); self.acc(',')
            e = '[' + ', '.join(its) + ']'
        elif k == 'id':
            if v in ('true', 'True'): return 'True'
            if v in ('false', 'False'): return 'False'
            if v == 'range':
                kw = self.args()
                return 'rng(' + ', '.join(kw) + ')'
            e = f'S.get({v!r})'
        else: raise RuntimeError(f'tera: atom {v} in {self.src}')
        while True:
            if self.acc('.'): e = f'ga({e}, {self.nx()[1]!r})'
            elif self.acc('['):
                e = f'ga({e}, {self.or_()})'; self.exp(']')
            else: return e


def rng(end, start=0, step_by=1): return list(range(int(start), int(end), step_by))


def compile_template(src):
    L = ['def render(S):', ' O = []', ' w = O.append']
    ind = [1]
    stack = []
    n = [0]
    def emit(s): L.append(' ' * ind[0] + s)
    parts = TOK.split(src)
    for i in range(0, len(parts), 2):
        t = parts[i]
        if i > 0 and re.search(r'-[%}#]\}$', parts[i - 1]): t = t.lstrip()
        if i + 1 < len(parts) and re.match(r'\{[%{#]-', parts[i + 1]): t = t.rstrip()
        if t: emit(f'w({t!r})')
        if i + 1 >= len(parts): break
        d = parts[i + 1]
        if d.startswith('{#'): continue
        body = re.sub(r'^\{[%{]-?|-?[%}]\}$', '', d).strip()
        if d.startswith('{{'):
            emit(f'w(out({P(body).full()}))'); continue
        kw, _, rest = body.partition(' ')
        m = re.match(r'([A-Za-z_]+)\s*(.*)$', body, re.S)
        kw, rest = m.group(1), m.group(2)
        if kw == 'if':
            emit(f'if truthy({P(rest).full()}):'); ind[0] += 1; emit('pass'); stack.append('if')
        elif kw == 'elif':
            ind[0] -= 1; emit(f'elif truthy({P(rest).full()}):'); ind[0] += 1; emit('pass')
        elif kw == 'else':
            ind[0] -= 1; emit('else:'); ind[0] += 1; emit('pass')
        elif kw == 'endif':
            assert stack.pop() == 'if'; ind[0] -= 1
        elif kw == 'for':
            m = re.match(r'(\w+)\s+in\s+(.*)$', rest, re.S)
            n[0] += 1
            emit(f'for i{n[0]}, v{n[0]} in enumerate({P(m.group(2)).full()}):')
            ind[0] += 1
            emit(f'S.st[dpt{n[0]}:] = []' if False else f'del S.st[{len([s for s in stack if s == "for"]) + 1}:]')
            emit(f'S.st.append({{{m.group(1)!r}: v{n[0]}, "loop": {{"index0": i{n[0]}, "index": i{n[0]} + 1}}}})')
            stack.append('for')
        elif kw == 'endfor':
            assert stack.pop() == 'for'; ind[0] -= 1
            emit(f'del S.st[{len([s for s in stack if s == "for"]) + 1}:]')
        elif kw == 'break': emit('break')
        elif kw == 'continue': emit('continue')
        elif kw in ('set', 'set_global'):
            name, _, ex = rest.partition('=')
            emit(f'S.{"set" if kw == "set" else "setg"}({name.strip()!r}, {P(ex).full()})')
        else: raise RuntimeError('tera: tag ' + kw)
    assert not stack
    L.append(" return ''.join(O)")
    return '\n'.join(L)


_cache = {}


def render_str(src, data):
    h = hashlib.sha1(src.encode()).hexdigest()
    f = _cache.get(h)
    if f is None:
        ns = dict(globals())
        exec(compile(compile_template(src), '<tera>', 'exec'), ns)
        f = _cache[h] = ns['render']
    # NB: top scope must not be shared with later renders
    return f(Scope(dict(data)))


def find_template(glob, name):
    root = glob.split('*')[0].rstrip('/')
    return os.path.join(root, name)


def render_file(template_glob, in_file, json_path, out_file):
    with open(find_template(template_glob, in_file)) as f: src = f.read()
    with open(json_path) as f: data = json.load(f)
    res = render_str(src, data)
    with open(out_file, 'w') as f: f.write(res)


def main(argv):
    if argv[1:] == ['--version']:
        print('t_renderer 9.9.9'); return 0
    try:
        render_file(*argv[1:5])
    except Exception as e:
        print('Error:', type(e).__name__, e, file=sys.stderr)
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv))

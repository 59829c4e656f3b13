"""Reads the current source of /repo; nothing here executes library code except
module-level constant expressions (tables, regular expressions, named tuples)."""
import ast, os, re, sys, collections

REPO = os.environ.get('VERIF_REPO', '/repo')


class Mod:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path, encoding='utf-8').read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(self.src)
        self.ispkg = path.endswith('__init__.py')
        self.defs = {}
        self.cache = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.defs[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = s
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    self.defs[a.asname or a.name.split('.')[0]] = (s, a)
            elif isinstance(s, (ast.With, ast.If, ast.Try)):
                self._scan(s.body)


_mods = {}


def module(name):
    if name not in _mods:
        p = os.path.join(REPO, *name.split('.'))
        f = os.path.join(p, '__init__.py') if os.path.isdir(p) else p + '.py'
        if not os.path.exists(f):
            _mods[name] = None
        else:
            _mods[name] = Mod(name, f)
    return _mods[name]


class NoConst(Exception):
    pass


class FnRef:
    def __init__(self, mod, qual, node, cls=None):
        self.mod, self.qual, self.node, self.cls = mod, qual, node, cls
    @property
    def key(self):
        return '%s:%s' % (self.mod.name, self.qual)
    def __repr__(self):
        return 'Fn(%s)' % self.key


class ClsRef:
    def __init__(self, mod, name, node):
        self.mod, self.name, self.node = mod, name, node
        self.methods = {}
        self.consts = {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                dec = [d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else '' for d in s.decorator_list]
                nm = s.name + ('.setter' if 'setter' in dec else '')
                f = FnRef(mod, name + '.' + nm, s, self)
                f.kind = 'property' if 'property' in dec else 'static' if 'staticmethod' in dec else 'class' if 'classmethod' in dec else 'method'
                self.methods[nm] = f
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value

    def find(self, nm):
        if nm in self.methods:
            return self.methods[nm]
        for b in self.node.bases:
            if isinstance(b, ast.Name):
                v = lookup(self.mod, b.id)
                if isinstance(v, ClsRef):
                    r = v.find(nm)
                    if r:
                        return r
        return None

    def __repr__(self):
        return 'Cls(%s.%s)' % (self.mod.name, self.name)


class ExtRef:
    """something imported from outside /repo"""
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return 'Ext(%s)' % self.name
    def __eq__(self, o): return isinstance(o, ExtRef) and o.name == self.name
    def __hash__(self): return hash(self.name)


class ModRef:
    def __init__(self, mod):
        self.mod = mod


MISSING = object()


def lookup(mod, name):
    """value of a module-level name: FnRef, ClsRef, ExtRef, ModRef or a Python constant"""
    if name in mod.cache:
        return mod.cache[name]
    if name not in mod.defs:
        return MISSING
    d = mod.defs[name]
    if isinstance(d, ast.FunctionDef):
        v = FnRef(mod, d.name, d)
    elif isinstance(d, ast.ClassDef):
        v = ClsRef(mod, d.name, d)
    elif isinstance(d, tuple):
        v = _import(mod, *d)
    else:
        v = const_eval(mod, d.value)
    mod.cache[name] = v
    return v


def _import(mod, s, a):
    if isinstance(s, ast.Import):
        m = module(a.name.split('.')[0]) if a.name.startswith('soynlp') else None
        return ModRef(m) if m else ExtRef(a.asname and a.name or a.name.split('.')[0])
    base = s.module or ''
    if s.level:
        parts = mod.name.split('.')
        if not mod.ispkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        base = '.'.join(parts + ([s.module] if s.module else []))
    m = module(base) if base.startswith('soynlp') else None
    if m is None:
        return ExtRef(base + '.' + a.name)
    v = lookup(m, a.name)
    if v is MISSING:
        sub = module(base + '.' + a.name)
        return ModRef(sub) if sub else ExtRef(base + '.' + a.name)
    return v


class NT:
    """a namedtuple class"""
    def __init__(self, name, fields):
        self.name, self.fields = name, tuple(fields)
    def __eq__(self, o):
        return isinstance(o, NT) and (self.name, self.fields) == (o.name, o.fields)
    def __hash__(self):
        return hash((self.name, self.fields))


def const_eval(mod, e):
    """Concrete evaluation of a module-level constant expression."""
    if isinstance(e, ast.Call):
        fn = e.func
        nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ''
        if nm == 'namedtuple':
            a = const_eval(mod, e.args[0]); f = const_eval(mod, e.args[1])
            return NT(a, f.replace(',', ' ').split() if isinstance(f, str) else f)
        if nm == 'compile':
            return re.compile(*[const_eval(mod, x) for x in e.args])
    names = {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
    env = {}
    import builtins
    bound = {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for n in names - bound:
        v = lookup(mod, n)
        if v is MISSING:
            if hasattr(builtins, n) and n in ('set', 'list', 'dict', 'tuple', 'str', 'int', 'float', 'len', 'range', 'sorted', 'frozenset', 'chr', 'ord', 'zip', 'enumerate', 'True', 'False', 'None', 'min', 'max', 'sum', 'map', 'bool', 'reversed'):
                continue
            raise NoConst(n)
        if isinstance(v, ExtRef):
            if v.name == 're': env[n] = re; continue
            if v.name == 'collections.OrderedDict': env[n] = collections.OrderedDict; continue
            raise NoConst(n)
        if isinstance(v, (FnRef, ClsRef, ModRef)):
            raise NoConst(n)
        env[n] = v
    for n in ast.walk(e):
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) or isinstance(n.func, ast.Attribute)):
            raise NoConst('call')
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return eval(compile(ast.Expression(e), mod.path, 'eval'), env)


def resolve(key):
    """'pkg.mod:Qual.name' -> FnRef, or None when it no longer exists"""
    if '.<locals>.' in key:
        out, n = key.split('.<locals>.')
        f = resolve(out)
        if not isinstance(f, FnRef): return None
        ds = [d for d in ast.walk(f.node) if isinstance(d, ast.FunctionDef) and d.name == n and d is not f.node]
        return FnRef(f.mod, '%s.<locals>.%s' % (f.qual, n), ds[0], f.cls) if len(ds) == 1 else None
    mn, q = key.split(':')
    m = module(mn)
    if m is None:
        return None
    parts = q.split('.')
    v = lookup(m, parts[0])
    for p in parts[1:]:
        if not isinstance(v, ClsRef):
            return None
        v = v.find(p if len(parts) == 2 else '.'.join(parts[1:]))
        if len(parts) > 2:
            break
    return v if isinstance(v, (FnRef, ClsRef, NT)) else None

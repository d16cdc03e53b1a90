"""Statements and expressions."""
import z3
from .core import *
from . import rope as R
from .rope import is_text, is_str, is_uni, Rope
from . import interp as I
from . import ops, names

class GenFor(object):
    """the loop of a generator that only yields, as a comprehension"""
    def __init__(self, s): self.target = s.target; self.ifs = None

class Frame(object):
    def __init__(self, ex, env, module, locals_, qual, cls=None):
        self.ex = ex; self.env = env; self.module = module; self.locals = locals_; self.qual = qual; self.cls = cls

    # ---- names
    def load(self, name):
        ex = self.ex
        e = ex.heap.get(self.env.a) if self.env is not None else None
        if e is not None and not isinstance(e, HModule):
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Poison): raise OutOfReach('%s read after a loop that assigns it' % name)
                return v
            if name in self.locals and name not in e.gdecl and self.cls is None:
                ex.raise_('UnboundLocalError', name.encode())
            if name not in e.gdecl:
                p = e.parent
                while p is not None:
                    pe = ex.heap.get(p.a)
                    if name in pe.vars:
                        v = pe.vars[name]
                        if isinstance(v, Poison): raise OutOfReach('%s read after a loop' % name)
                        return v
                    p = pe.parent
        m = ex.heap.get(self.module.a)
        if name in m.vars: return m.vars[name]
        b = ex.world.builtins
        if name in b: return b[name]
        ex.raise_('NameError', name.encode())

    def store(self, name, v):
        ex = self.ex
        if self.env is None:
            ex.heap.w(self.module.a).vars[name] = v; return
        e = ex.heap.get(self.env.a)
        if name in e.gdecl: ex.heap.w(self.module.a).vars[name] = v
        else: ex.heap.w(self.env.a).vars[name] = v

    def modname(self): return self.ex.heap.get(self.module.a).name

    # ---- statements
    def block(self, stmts):
        for s in stmts: self.stmt(s)

    def stmt(self, s):
        ex = self.ex
        ex.steps += 1
        if ex.steps > 400000: raise OutOfReach('too many steps')
        if ex.stack: ex.stack[-1] = (self.qual, s.ln)
        getattr(self, 's_' + s._, self.unsupported)(s)

    def unsupported(self, s): raise OutOfReach('construct %s' % s._)

    def s_Expr(self, s):
        if s.value._ == 'Str': return
        self.ev(s.value)
    def s_Pass(self, s): pass
    def s_Global(self, s): pass
    def s_Break(self, s): raise I._Break()
    def s_Continue(self, s): raise I._Continue()
    def s_Return(self, s): raise I._Return(self.ev(s.value) if s.value is not None else None)
    def s_Assert(self, s):
        if not I.truth(self.ex, self.ev(s.test)): self.ex.raise_('AssertionError')
    def s_Print(self, s):
        for v in s.values: self.ev(v)
    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets: self.assign(t, v)

    def assign(self, t, v):
        ex = self.ex
        k = t._
        if k == 'Name': self.store(t.id, v)
        elif k == 'Attribute': I.setattr_(ex, self.ev(t.value), t.attr, v)
        elif k == 'Subscript': self.setitem(self.ev(t.value), t.slice, v)
        elif k in ('Tuple', 'List'):
            xs = I.iterate_concrete(ex, v)
            if len(xs) != len(t.elts): ex.raise_('ValueError', b'unpack')
            for e, x in zip(t.elts, xs): self.assign(e, x)
        else: raise OutOfReach('assign to %s' % k)

    def s_AugAssign(self, s):
        ex = self.ex
        t = s.target
        op = s.op._ if isinstance(s.op, I.Node) else s.op
        if t._ == 'Name':
            self.store(t.id, self.inplace(op, self.load(t.id), self.ev(s.value)))
        elif t._ == 'Attribute':
            o = self.ev(t.value)
            I.setattr_(ex, o, t.attr, self.inplace(op, I.getattr_(ex, o, t.attr), self.ev(s.value)))
        elif t._ == 'Subscript':
            o = self.ev(t.value)
            k = self.ev(t.slice.value) if t.slice._ == 'Index' else None
            if k is None: raise OutOfReach('augmented slice assignment')
            cur = getitem(ex, o, k)
            setitem(ex, o, k, self.inplace(op, cur, self.ev(s.value)))
        else: raise OutOfReach('augassign')

    def inplace(self, op, a, b):
        ex = self.ex
        r = I.rec(ex, a)
        if isinstance(r, HList) and op == 'Add':
            ex.heap.w(a.a).items.extend(I.iterate(ex, b)); return a
        if isinstance(r, HSet) and op in ('BitOr', 'Sub', 'BitAnd'):
            I.call_method(ex, a, {'BitOr': 'update', 'Sub': 'difference_update', 'BitAnd': 'intersection_update'}[op], b)
            return a
        return ops.binop(ex, op, a, b)

    def s_If(self, s):
        if I.truth(self.ex, self.ev(s.test)): self.block(s.body)
        else: self.block(s.orelse or [])

    def s_While(self, s):
        ex = self.ex
        n = 0
        from . import loops
        if loops.while_loop(self, s): return
        while True:
            if not I.truth(ex, self.ev(s.test)): break
            n += 1
            if n > ex.lemma_unroll: raise OutOfReach('while loop without a summary (unrolled %d times) in %s' % (n, self.qual))
            try: self.block(s.body)
            except I._Break: return
            except I._Continue: pass
        self.block(s.orelse or [])

    yields = None
    def e_Yield(self, e):
        if self.yields is None: raise OutOfReach('yield')
        self.ex.heap.w(self.yields.a).items.append(self.ev(e.value) if e.value is not None else None)
        return None

    def s_For(self, s):
        ex = self.ex
        it = self.ev(s.iter)
        if self.yields is not None and len(s.body) == 1 and s.body[0]._ == 'Expr' and s.body[0].value._ == 'Yield' and any(I.is_piece(x) for x in I.iterate(ex, it)):
            from . import loops
            for x in I.iterate(ex, it):
                if I.is_piece(x): loops.comp_piece(self, GenFor(s), x, lambda: self.e_Yield(s.body[0].value), self.yields)
                else: self.for_body(s, x)
            return
        r = I.rec(ex, it)
        if isinstance(r, HList):
            # live iteration
            i = 0; off = 0
            seen = list(ex.heap.get(it.a).items)
            while True:
                items = ex.heap.get(it.a).items
                if len(items) < i or any(x is not y for x, y in zip(items[:i], seen)):
                    # changed before the place it is at: go on by position
                    items = list_part(ex, items, off, I.list_len(ex, it)); j = 0
                else: j = i
                if j >= len(items): break
                x = items[j]; i += 1
                if j == 0 and i > 1: seen[:i - 1] = [None] * (i - 1)
                seen[i - 1:] = items[j:]
                off = tint(as_int(off) + (as_int(x.count(ex)) if I.is_piece(x) else 1))
                if I.is_piece(x):
                    from . import loops
                    if loops.piece_loop(self, s, x): return
                    continue
                if self.for_body(s, x): return
        else:
            for x in I.iterate(ex, it):
                if I.is_piece(x):
                    from . import loops
                    if loops.piece_loop(self, s, x): return
                    continue
                if self.for_body(s, x): return
        self.block(s.orelse or [])

    def for_body(self, s, x):
        """True when the loop was left by break"""
        self.assign(s.target, x)
        try: self.block(s.body)
        except I._Break: return True
        except I._Continue: pass
        return False

    def s_Raise(self, s):
        ex = self.ex
        if s.type is None:
            if not ex.excstack: ex.raise_('TypeError', b'no active exception')
            raise PyRaise(ex.excstack[-1])
        t = self.ev(s.type)
        v = self.ev(s.inst) if s.inst is not None else None
        if s.tback is not None: self.ev(s.tback)
        if isinstance(t, tuple) and t: t = t[0]
        if isinstance(t, Ref) and isinstance(ex.heap.get(t.a), HClass):
            if v is None: e = I.call(ex, t, [])
            elif isinstance(v, Ref) and isinstance(I.rec(ex, v), HObj) and I.is_subclass(ex, I.class_of(ex, v), t): e = v
            elif isinstance(v, tuple): e = I.call(ex, t, list(v))
            else: e = I.call(ex, t, [v])
            raise PyRaise(e)
        if isinstance(t, Opaque) or isinstance(t, Ref): raise PyRaise(t)
        raise OutOfReach('raise of %r' % (t,))

    def match_exc(self, val, spec):
        ex = self.ex
        if isinstance(spec, tuple):
            return any(self.match_exc(val, x) for x in spec)
        if isinstance(spec, Unmodelled): return False
        if isinstance(val, Opaque):
            h = val.props.get('isinstance')
            if h is not None: return ex.branch(h(ex, val, spec))
            c = val.props.get('class')
            if c is None: raise OutOfReach('matching %r' % val)
            return I.is_subclass(ex, c, spec)
        return I.is_subclass(ex, I.class_of(ex, val), spec)

    def s_TryExcept(self, s):
        ex = self.ex
        sl = len(ex.stack) if ex.stack is not None else 0
        d = ex.depth
        try:
            self.block(s.body)
        except PyRaise as e:
            if ex.stack is not None: del ex.stack[sl:]
            ex.depth = d
            for h in s.handlers:
                if h.type is None or self.match_exc(e.val, self.ev(h.type)):
                    if h.name is not None: self.assign(h.name, e.val)
                    ex.excstack.append(e.val)
                    try: self.block(h.body)
                    finally: ex.excstack.pop()
                    return
            raise
        self.block(s.orelse or [])

    def s_TryFinally(self, s):
        try:
            self.block(s.body)
        except (PyRaise, I._Return, I._Break, I._Continue):
            self.block(s.finalbody)
            raise
        self.block(s.finalbody)

    def s_With(self, s):
        ex = self.ex
        cm = self.ev(s.context_expr)
        v = I.call_method(ex, cm, '__enter__')
        if s.optional_vars is not None: self.assign(s.optional_vars, v)
        try: self.block(s.body)
        except PyRaise as e:
            if not I.truth(ex, I.call_method(ex, cm, '__exit__', I.class_of(ex, e.val), e.val, None)): raise
            return
        except (I._Return, I._Break, I._Continue):
            I.call_method(ex, cm, '__exit__', None, None, None)
            raise
        I.call_method(ex, cm, '__exit__', None, None, None)

    def s_Delete(self, s):
        ex = self.ex
        for t in s.targets:
            if t._ == 'Name':
                if self.env is None: ex.heap.w(self.module.a).vars.pop(t.id, None)
                else: ex.heap.w(self.env.a).vars.pop(t.id, None)
            elif t._ == 'Attribute': I.delattr_(ex, self.ev(t.value), t.attr)
            elif t._ == 'Subscript': 
                o = self.ev(t.value)
                if t.slice._ == 'Index': delitem(ex, o, self.ev(t.slice.value))
                else: self.delslice(o, t.slice)
            else: raise OutOfReach('del')

    def delslice(self, o, sl):
        ex = self.ex
        lo = self.ev(sl.lower) if sl.lower is not None else 0
        hi = self.ev(sl.upper) if sl.upper is not None else None
        delslice(ex, o, lo, hi)

    def s_FunctionDef(self, s):
        f = self.make_func(s, s.name)
        for d in reversed(s.decorator_list or []):
            f = I.call(self.ex, self.ev(d), [f])
        self.store(s.name, f)

    def make_func(self, node, name):
        ex = self.ex
        defaults = [self.ev(d) for d in (node.args.defaults or [])]
        env = self.env
        if self.cls is not None:   # class scope is not visible in methods
            env = ex.heap.get(self.env.a).parent
        q = (self.qual + '.' if self.qual else '') + name
        return ex.heap.new(HFunc(name, node, env, defaults, None, q)) if False else self._mkf(name, node, env, defaults, q)

    def _mkf(self, name, node, env, defaults, q):
        f = HFunc(name, node, env, defaults, self.module, q)
        f.module = self.module
        return self.ex.heap.new(f)

    def s_ClassDef(self, s):
        ex = self.ex
        bases = [self.ev(b) for b in (s.bases or [])]
        env = HEnv({}, self.env if self.cls is None else ex.heap.get(self.env.a).parent)
        er = ex.heap.new(env)
        q = (self.qual + '.' if self.qual else '') + s.name
        fr = Frame(ex, er, self.module, set(), q, cls=True)
        fr.block(s.body)
        d = dict(ex.heap.get(er.a).vars)
        c = make_class(ex, s.name, bases, d, self.modname())
        for dec in reversed(s.decorator_list or []): c = I.call(ex, self.ev(dec), [c])
        self.store(s.name, c)

    def s_Import(self, s):
        ex = self.ex
        for a in s.names:
            m = ex.world.import_(ex, a.name)
            if a.asname: self.store(a.asname, m)
            else:
                top = ex.world.import_(ex, a.name.split('.')[0]) if '.' in a.name else m
                self.store(a.name.split('.')[0], top)

    def s_ImportFrom(self, s):
        ex = self.ex
        name = s.module or ''
        lvl = getattr(s, 'level', 0) or 0
        if lvl:
            base = self.modname() if ex.world.is_package(self.modname()) else self.modname().rsplit('.', 1)[0]
            for _ in range(lvl - 1): base = base.rsplit('.', 1)[0]
            name = base + ('.' + name if name else '')
        if name == '__future__': return
        m = ex.world.import_(ex, name, self.modname())
        for a in s.names:
            if a.name == '*': raise OutOfReach('import *')
            mm = ex.heap.get(m.a) if isinstance(m, Ref) else None
            if mm is not None and a.name in mm.vars: v = mm.vars[a.name]
            else:
                try: v = ex.world.import_(ex, (ex.heap.get(m.a).name if mm is not None else name) + '.' + a.name)
                except PyRaise:
                    if mm is not None and mm.f_unmodelled: v = Unmodelled(name + '.' + a.name)
                    else: ex.raise_('ImportError', ('cannot import name %s' % a.name).encode())
            self.store(a.asname or a.name, v)

    # ---- expressions
    def ev(self, e):
        m = getattr(self, 'e_' + e._, None)
        if m is None: raise OutOfReach('expression %s' % e._)
        return m(e)
    def e_Name(self, e): 
        if e.id == 'None': return None
        if e.id == 'True' : return True
        if e.id == 'False': return False
        return self.load(e.id)
    def e_Num(self, e): return e.n
    def e_Str(self, e): return e.s
    def e_Attribute(self, e): return I.getattr_(self.ex, self.ev(e.value), e.attr)
    def e_Tuple(self, e): return tuple(self.ev(x) for x in e.elts or [])
    def e_List(self, e): return I.new_list(self.ex, [self.ev(x) for x in e.elts or []])
    def e_Set(self, e):
        s = self.ex.heap.new(HSet())
        for x in e.elts: I.set_add(self.ex, s, self.ev(x))
        return s
    def e_Dict(self, e):
        d = self.ex.heap.new(HDict())
        for k, v in zip(e.keys or [], e.values or []): I.dict_set(self.ex, d, self.ev(k), self.ev(v))
        return d
    def e_Lambda(self, e): return self.make_func(e, '<lambda>')
    def e_IfExp(self, e): return self.ev(e.body) if I.truth(self.ex, self.ev(e.test)) else self.ev(e.orelse)
    def e_BoolOp(self, e):
        op = e.op._ if isinstance(e.op, I.Node) else e.op
        for x in e.values[:-1]:
            v = self.ev(x)
            # names or []: the same names either way
            if op == 'Or' and x is e.values[-2] and names.is_names(self.ex, v) and e.values[-1]._ in ('List', 'Tuple', 'Dict') and not (e.values[-1].elts if e.values[-1]._ != 'Dict' else e.values[-1].keys): return v
            t = I.truth(self.ex, v)
            if op == 'And' and not t: return False if isinstance(v, SymBool) else v
            if op == 'Or' and t: return True if isinstance(v, SymBool) else v
        return self.ev(e.values[-1])
    def e_UnaryOp(self, e):
        op = e.op._ if isinstance(e.op, I.Node) else e.op
        if op == 'Not':
            v = self.ev(e.operand)
            if isinstance(v, SymBool): return I.mkbool(z3.Not(v.t))
            return not I.truth(self.ex, v)
        return ops.unop(self.ex, op, self.ev(e.operand))
    def e_BinOp(self, e):
        op = e.op._ if isinstance(e.op, I.Node) else e.op
        a = self.ev(e.left)
        return ops.binop(self.ex, op, a, self.ev(e.right))
    def e_Compare(self, e):
        a = self.ev(e.left)
        res = True
        n = len(e.ops)
        for i, (o, c) in enumerate(zip(e.ops, e.comparators)):
            op = o._ if isinstance(o, I.Node) else o
            b = self.ev(c)
            res = ops.compare(self.ex, op, a, b)
            if i < n - 1 and not I.truth(self.ex, res): return False
            a = b
        return res
    def e_Repr(self, e): return self.ex.world.format(self.ex, b'%r', (self.ev(e.value),))
    def e_Call(self, e):
        ex = self.ex
        f = self.ev(e.func)
        args = [self.ev(a) for a in e.args or []]
        kw = {}
        for k in e.keywords or []: kw[k.arg] = self.ev(k.value)
        if e.starargs is not None: args.extend(I.iterate(ex, self.ev(e.starargs)))
        if e.kwargs is not None:
            d = self.ev(e.kwargs)
            for it in I.dict_items(ex, I.as_dict(ex, d)):
                if I.is_piece(it): raise OutOfReach('** of a symbolic dict')
                k = it[0]
                if isinstance(k, bytes): k = k.decode('ascii')
                if not isinstance(k, str): raise OutOfReach('** with a symbolic key')
                kw[k] = it[1]
        if isinstance(f, BuiltinFn) and f.kind == 'frame': return f.fn(self, args, kw)
        return I.call(ex, f, args, kw)
    def e_Subscript(self, e):
        o = self.ev(e.value)
        if e.slice._ == 'Index': return getitem(self.ex, o, self.ev(e.slice.value))
        if e.slice._ == 'Slice':
            if getattr(e.slice, 'step', None) is not None: raise OutOfReach('slice step')
            lo = self.ev(e.slice.lower) if e.slice.lower is not None else None
            hi = self.ev(e.slice.upper) if e.slice.upper is not None else None
            return getslice(self.ex, o, lo, hi)
        raise OutOfReach('subscript')
    def setitem(self, o, sl, v):
        if sl._ == 'Index': return setitem(self.ex, o, self.ev(sl.value), v)
        raise OutOfReach('slice assignment')
    def comp(self, gens, emit, env_frame, out=None):
        ex = self.ex
        def rec(i):
            if i == len(gens): emit(); return
            g = gens[i]
            for x in I.iterate(ex, env_frame.ev(g.iter)):
                if I.is_piece(x):
                    if i != 0 or len(gens) != 1: raise OutOfReach('nested comprehension over a symbolic sequence')
                    from . import loops
                    loops.comp_piece(env_frame, g, x, emit, out)
                    continue
                env_frame.assign(g.target, x)
                if all(I.truth(ex, env_frame.ev(c)) for c in g.ifs or []): rec(i + 1)
        rec(0)
    def e_ListComp(self, e):
        l = I.new_list(self.ex)
        self.comp(e.generators, lambda: self.ex.heap.w(l.a).items.append(self.ev(e.elt)), self, l)
        return l
    def inner(self):
        er = self.ex.heap.new(HEnv({}, self.env if self.cls is None else self.ex.heap.get(self.env.a).parent))
        return Frame(self.ex, er, self.module, set(), self.qual)
    def e_GeneratorExp(self, e):
        f = self.inner()
        l = I.new_list(self.ex)
        f.comp(e.generators, lambda: self.ex.heap.w(l.a).items.append(f.ev(e.elt)), f, l)
        return self.ex.world.make_iter(self.ex, l)
    def e_SetComp(self, e):
        f = self.inner()
        s = self.ex.heap.new(HSet())
        f.comp(e.generators, lambda: I.set_add(self.ex, s, f.ev(e.elt)), f)
        return s
    def e_DictComp(self, e):
        f = self.inner()
        d = self.ex.heap.new(HDict())
        f.comp(e.generators, lambda: I.dict_set(self.ex, d, f.ev(e.key), f.ev(e.value)), f)
        return d

def make_class(ex, name, bases, d, module):
    kind = 'type' if any(ex.heap.get(b.a).kind == 'type' for b in bases if isinstance(b, Ref)) else 'classobj'
    for b in bases:
        if isinstance(b, Unmodelled):
            return Unmodelled('class %s' % name)
    if '__metaclass__' in d and kind != 'type': kind = 'type'
    for b in bases:
        if not isinstance(ex.heap.get(b.a), HClass): raise OutOfReach('base of class %s' % name)
    c = ex.heap.new(HClass(name, bases, {k: v for k, v in d.items()}, kind, None, module))
    # `def __new__` is a static method
    return c

def index_norm(ex, i, n):
    """normalise a possibly negative index against length n (terms)"""
    if isinstance(i, (bool, int)) and isinstance(n, int):
        return i + n if i < 0 else i
    t = as_int(i)
    if isinstance(i, int):
        return i if i >= 0 else tint(as_int(n) + i)
    if ex.branch(t < 0): return tint(t + as_int(n))
    return t

def getitem(ex, o, k):
    if isinstance(o, tuple):
        if not isinstance(k, int):
            if isinstance(k, SymInt):
                for j in range(len(o)):
                    if ex.branch(as_int(k) == j): return o[j]
                raise OutOfReach('symbolic tuple index')
            ex.raise_('TypeError', b'tuple indices')
        try: return o[k]
        except IndexError: ex.raise_('IndexError', b'tuple index out of range')
    if is_text(o):
        if not isinstance(k, (int, SymInt)): ex.raise_('TypeError', b'string indices must be integers')
        n = R.length(ex, o)
        i = index_norm(ex, k, n)
        if isinstance(i, int) and isinstance(n, int):
            if not 0 <= i < n: ex.raise_('IndexError', b'string index out of range')
        elif not ex.branch(z3.And(as_int(i) >= 0, as_int(i) < as_int(n))): ex.raise_('IndexError', b'string index out of range')
        return R.slice_(ex, o, i, tint(as_int(i) + 1))
    if isinstance(o, Opaque):
        h = o.props.get('getitem')
        if h is not None: return h(ex, o, k)
        raise OutOfReach('item of %r' % o)
    r = I.rec(ex, o)
    if isinstance(r, HList): return list_get(ex, o, k)
    if isinstance(r, HDict):
        v = I.dict_lookup(ex, o, k)
        if v is I._MISS: names.absent(ex, k)
        return v
    if isinstance(r, HObj):
        f = I.class_lookup(ex, r.cls, '__getitem__')
        if f is not I._MISS: return I.call(ex, I.bind(ex, f, o, r.cls), [k])
        if r.payload is not None: return getitem(ex, r.payload, k)
    if isinstance(o, Unmodelled): raise OutOfReach('item of %s' % o.name)
    ex.raise_('TypeError', b'not subscriptable')

def list_get(ex, o, k):
    r = ex.heap.get(o.a)
    if not isinstance(k, (int, SymInt)): ex.raise_('TypeError', b'list indices must be integers')
    n = I.list_len(ex, o)
    i = index_norm(ex, k, n)
    if isinstance(i, int) and isinstance(n, int):
        if not 0 <= i < n: ex.raise_('IndexError', b'list index out of range')
    elif not ex.branch(z3.And(as_int(i) >= 0, as_int(i) < as_int(n))): ex.raise_('IndexError', b'list index out of range')
    off = 0
    for x in r.items:
        if I.is_piece(x):
            c = x.count(ex)
            end = tint(as_int(off) + as_int(c))
            if ex.branch(as_int(i) < as_int(end)): return x.item(ex, tint(as_int(i) - as_int(off)))
            off = end
        else:
            if isinstance(i, int) and isinstance(off, int):
                if i == off: return x
            elif ex.branch(as_int(i) == as_int(off)): return x
            off = tint(as_int(off) + 1)
    raise Infeasible()

def setitem(ex, o, k, v):
    if isinstance(o, Opaque):
        h = o.props.get('setitem')
        if h is not None: return h(ex, o, k, v)
        raise OutOfReach('item assignment of %r' % o)
    r = I.rec(ex, o)
    if isinstance(r, HDict): return I.dict_set(ex, o, k, v)
    if isinstance(r, HList):
        n = I.list_len(ex, o)
        i = index_norm(ex, k, n)
        if not isinstance(i, int) or not isinstance(n, int) or any(I.is_piece(x) for x in r.items):
            if not ex.branch(z3.And(as_int(i) >= 0, as_int(i) < as_int(n))): ex.raise_('IndexError', b'list assignment index out of range')
            a, b = list_part(ex, r.items, 0, i), list_part(ex, r.items, tint(as_int(i) + 1), n)
            ex.heap.w(o.a).items[:] = a + [v] + b
            return
        if not 0 <= i < n: ex.raise_('IndexError', b'list assignment index out of range')
        ex.heap.w(o.a).items[i] = v
        return
    if isinstance(r, HObj):
        f = I.class_lookup(ex, r.cls, '__setitem__')
        if f is not I._MISS: I.call(ex, I.bind(ex, f, o, r.cls), [k, v]); return
        if r.payload is not None: return setitem(ex, r.payload, k, v)
    ex.raise_('TypeError', b'item assignment')

def delitem(ex, o, k):
    r = I.rec(ex, o)
    if isinstance(r, HDict):
        if not I.dict_del(ex, o, k): names.absent(ex, k)
        return
    if isinstance(r, HList):
        n = I.list_len(ex, o)
        i = index_norm(ex, k, n)
        if not isinstance(i, int) or not isinstance(n, int) or any(I.is_piece(x) for x in r.items):
            if not ex.branch(z3.And(as_int(i) >= 0, as_int(i) < as_int(n))): ex.raise_('IndexError', b'')
            a, b = list_part(ex, r.items, 0, i), list_part(ex, r.items, tint(as_int(i) + 1), n)
            ex.heap.w(o.a).items[:] = a + b
            return
        if not 0 <= i < n: ex.raise_('IndexError', b'')
        del ex.heap.w(o.a).items[i]
        return
    if isinstance(r, HObj):
        f = I.class_lookup(ex, r.cls, '__delitem__')
        if f is not I._MISS: I.call(ex, I.bind(ex, f, o, r.cls), [k]); return
        if r.payload is not None: return delitem(ex, r.payload, k)
    ex.raise_('TypeError', b'item deletion')

def clamp_slice(ex, lo, hi, n):
    def norm(x, dflt):
        if x is None: return dflt
        if isinstance(x, int) and isinstance(n, int):
            if x < 0: x = max(0, x + n)
            return min(x, n)
        t = as_int(x)
        if isinstance(x, int):
            if x < 0:
                t2 = as_int(n) + x
                return tint(t2) if ex.branch(t2 >= 0) else 0
        elif ex.branch(t < 0):
            t2 = t + as_int(n)
            return tint(t2) if ex.branch(t2 >= 0) else 0
        return tint(t) if ex.branch(t <= as_int(n)) else n
    a, b = norm(lo, 0), norm(hi, n)
    if isinstance(a, int) and isinstance(b, int): return a, max(a, b)
    if ex.branch(as_int(a) <= as_int(b)): return a, b
    return a, a

def list_part(ex, items, a, b):
    """elements a..b of a list (0 <= a <= b <= length), some of which may be symbolic sequences"""
    out = []; off = 0
    def less(x, y): return x < y if isinstance(x, int) and isinstance(y, int) else ex.branch(as_int(x) < as_int(y))
    for x in items:
        p = I.is_piece(x)
        end = tint(as_int(off) + (as_int(x.count(ex)) if p else 1))
        if not less(off, b): break
        if less(a, end):
            lo = a if less(off, a) else off
            hi = b if less(b, end) else end
            if not p: out.append(x)
            elif lo is off and hi is end: out.append(x)
            else: out.append(x.sub(tint(as_int(lo) - as_int(off)), tint(as_int(hi) - as_int(off))))
        off = end
    return out

def delslice(ex, o, lo, hi):
    r = I.rec(ex, o)
    if isinstance(r, HObj) and r.payload is not None: return delslice(ex, r.payload, lo, hi)
    if not isinstance(r, HList): raise OutOfReach('del of a slice')
    n = I.list_len(ex, o)
    a, b = clamp_slice(ex, lo, hi, n)
    items = list(r.items)
    ex.heap.w(o.a).items[:] = list_part(ex, items, 0, a) + list_part(ex, items, b, n)

def getslice(ex, o, lo, hi):
    if isinstance(o, tuple):
        if all(isinstance(x, int) or x is None for x in (lo, hi)): return o[lo:hi]
        raise OutOfReach('symbolic tuple slice')
    if is_text(o):
        n = R.length(ex, o)
        a, b = clamp_slice(ex, lo, hi, n)
        return R.slice_(ex, o, a, b)
    r = I.rec(ex, o)
    if isinstance(r, HList):
        if all(isinstance(x, int) or x is None for x in (lo, hi)) and not any(I.is_piece(x) for x in r.items):
            return I.new_list(ex, r.items[lo:hi])
        if lo is None and hi is None: return I.new_list(ex, r.items)
        n = I.list_len(ex, o)
        a, b = clamp_slice(ex, lo, hi, n)
        return I.new_list(ex, list_part(ex, r.items, a, b))
        raise OutOfReach('symbolic list slice')
    if isinstance(r, HObj) and r.payload is not None: return getslice(ex, r.payload, lo, hi)
    raise OutOfReach('slice of %r' % (o,))

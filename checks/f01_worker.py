"""Emits generated Python functions with the frontend, and runs both the function (on fixed-width values) and the emitted program.

Run with the Python environment that has numba. Arguments: seed shard shards scale out.json [family:index]
"""
import json, math, os, random, re, subprocess, sys, tempfile, traceback, warnings
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')
REPO = os.environ.get('HEIR_REPO', '/repo')
sys.path.insert(0, REPO + '/frontend'); sys.path.insert(0, REPO)
import numpy as np
from heir import pipeline
from heir.interfaces import CompilerError, InternalCompilerError
import heir.mlir as hm
from heir.mlir import *
from heir.mlir.types import parse_annotations
from heir.mlir_emitter import TextualMlirEmitter
from numba.core import compiler, ir
import numba.core.types as nt
from numba.core.registry import cpu_target
from numba.core.typed_passes import type_inference_stage
import operator as op
np.seterr(all='ignore')
MLIR_OPT = '/usr/lib/llvm-20/bin/mlir-opt'


class Undefined(Exception):
    """The program has no defined meaning on this input (division by zero, shift too far, too many steps...)."""


# ---------------------------------------------------------------- types and values
def wrap(v, w):
    v &= (1 << w) - 1
    if w == 1: return v
    return v - (1 << w) if v >> (w - 1) else v

def tname(t):
    if isinstance(t, nt.Boolean): return 'i1'
    if isinstance(t, nt.Integer): return f'i{t.bitwidth}'
    if isinstance(t, nt.Float): return f'f{t.bitwidth}'
    return None

def conv(v, t, st=None):
    """v as a value of the type named t ('i8', 'f32', 'tensor'...)."""
    if t is None: return v
    if isinstance(v, list): return [conv(x, t, st) for x in v]
    if t[0] == 'i':
        if isinstance(v, float):
            if v != v or not -2.0 ** 62 < v < 2.0 ** 62: raise Undefined
            v = int(v)
            if v != wrap(v, int(t[1:])): raise Undefined
        v = int(v)
        w = wrap(v, int(t[1:]))
        if st is not None and w != v: st['wrapped'] = True
        return w
    if t == 'f32': return float(np.float32(v))
    return float(v)

def minlit(v):
    for w in (8, 16, 32, 64):
        if -(1 << (w - 1)) <= v < 1 << (w - 1): return f'i{w}'
    return None


# ---------------------------------------------------------------- the numba side
def arith_ref(fn, a, b, t, at, bt, st):
    if isinstance(a, list) or isinstance(b, list):
        n = len(a) if isinstance(a, list) else len(b)
        A = a if isinstance(a, list) else [a] * n
        B = b if isinstance(b, list) else [b] * n
        if len(A) != len(B): raise Undefined
        return [arith_ref(fn, x, y, t, at, bt, st) for x, y in zip(A, B)]
    isf = isinstance(a, float) or isinstance(b, float)
    r = None
    if fn in (op.floordiv, op.ifloordiv, op.mod, op.imod):
        if b == 0: raise Undefined
        if isf:
            if abs(a / b) > 1e15: raise Undefined
            if fn in (op.floordiv, op.ifloordiv):
                r = math.floor(a / b); st['ffloor'] = True
                if st.get('trunc'): r = a / b
            else:
                r = math.fmod(a, b)
                if r != 0 and (r < 0) != (b < 0):
                    st['divneg'] = True
                    if not st.get('trunc'): r += b
            return conv(r, t, st)
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        lim = int((t or 'i64')[1:])
        if q >= 1 << (lim - 1): raise Undefined
        floor = a // b
        if floor != q or a - b * q != a % b: st['divneg'] = True
        if not st.get('trunc'): q = floor
        r = q if fn in (op.floordiv, op.ifloordiv) else a - b * q
        return conv(r, t, st)
    if fn in (op.lshift, op.rshift):
        w = int(t[1:])
        if not 0 <= b < w: raise Undefined
    if fn is op.truediv and b == 0: raise Undefined
    r = fn(a, b)
    if isinstance(r, bool): return int(r)
    if isf and (r != r or abs(r) == math.inf): raise Undefined
    return conv(r, t, st)

CMP = {op.lt, op.le, op.gt, op.ge, op.eq, op.ne}

def run_numba(fir, typemap, args, st, maxsteps=4000):
    env = {}
    blocks = fir.blocks
    bid = min(blocks)
    steps = 0
    while True:
        for ins in blocks[bid].body:
            steps += 1
            if steps > maxsteps: raise Undefined
            if isinstance(ins, ir.Assign):
                v = ins.value
                ty = typemap.get(ins.target.name)
                if isinstance(ty, nt.Array): t = tname(ty.dtype)
                else: t = tname(ty) if ty is not None else None
                if isinstance(v, ir.Arg): r = args[v.index]
                elif isinstance(v, ir.Const): r = v.value
                elif isinstance(v, (ir.Global, ir.FreeVar)): r = v.value
                elif isinstance(v, ir.Var): r = env[v.name]
                elif isinstance(v, ir.Expr):
                    if v.op in ('binop', 'inplace_binop'):
                        fn = v.fn if v.op == 'binop' else v.immutable_fn
                        a, b = env[v.lhs.name], env[v.rhs.name]
                        lt, rt = typemap.get(v.lhs.name), typemap.get(v.rhs.name)
                        tt = t
                        if fn in CMP: tt = None
                        # literals are folded exactly
                        if isinstance(ty, nt.Literal): r = fn(a, b)
                        else: r = arith_ref(fn, a, b, tt, lt, rt, st)
                        st['ops'] = st.get('ops', 0) + 1
                    elif v.op == 'unary':
                        a = env[v.value.name]
                        r = {op.neg: lambda x: -x, op.pos: lambda x: x, op.invert: lambda x: ~x, op.not_: lambda x: int(not x)}[v.fn](a)
                    elif v.op == 'call':
                        f = env[v.func.name]
                        a = [env[x.name] for x in v.args]
                        if f is bool: r = int(bool(a[0])) if not isinstance(a[0], list) else a[0]
                        elif f is range: r = range(*a)
                        elif f in hm.MLIR_TYPES:
                            r = conv(a[0], tname(f.numba_type()))   # an explicit cast truncates on purpose
                            if a[0] != r or isinstance(a[0], float) != isinstance(r, float): st['cast_changed'] = True
                        else: raise Undefined
                    elif v.op == 'cast': r = env[v.value.name]
                    elif v.op == 'getiter': r = iter(env[v.value.name])
                    elif v.op == 'iternext':
                        try: r = (next(env[v.value.name]), True)
                        except StopIteration: r = (0, False)
                    elif v.op == 'pair_first': r = env[v.value.name][0]
                    elif v.op == 'pair_second': r = int(env[v.value.name][1])
                    elif v.op == 'phi': raise Undefined
                    else: raise Undefined
                else: raise Undefined
                if t is not None and isinstance(r, (int, float, list)): r = conv(r, t, st)
                env[ins.target.name] = r
            elif isinstance(ins, ir.Jump): bid = ins.target; break
            elif isinstance(ins, ir.Branch):
                bid = ins.truebr if env[ins.cond.name] else ins.falsebr; break
            elif isinstance(ins, ir.Return):
                return env[ins.value.name]
            elif isinstance(ins, ir.Del): pass
            else: raise Undefined


# ---------------------------------------------------------------- the emitted side
TOK = re.compile(r'\s*(?:(//[^\n]*)|("(?:[^"\\]|\\.)*")|(%[A-Za-z0-9_$.\-]+(?:[#:]\d+)?)|(\^[A-Za-z0-9_]+)|(#[A-Za-z0-9_.]+)|(@[A-Za-z0-9_$.]+)|(->)|(-?\d+\.\d+(?:[eE][-+]?\d+)?|-?\d+(?![A-Za-z0-9])|0x[0-9A-Fa-f]+)|([A-Za-z_!][A-Za-z0-9_.$]*)|(.))', re.S)
def tokens(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m: break
        i = m.end()
        if m.group(1) is not None: continue
        g = m.group(0).strip()
        if g: out.append(g)
    return out

class Op:
    __slots__ = ('name', 'res', 'args', 'regions', 'props', 'in_t', 'out_t')

class Parser:
    def __init__(self, s): self.t, self.i = tokens(s), 0
    def pk(self): return self.t[self.i] if self.i < len(self.t) else None
    def nx(self): self.i += 1; return self.t[self.i - 1]
    def eat(self, x):
        y = self.nx()
        assert x == y, f'expected {x} got {y} near {" ".join(self.t[max(0, self.i-12):self.i+5])}'
    def balanced(self, o, c):
        self.eat(o); d, out = 1, []
        while d:
            y = self.nx()
            if y == o: d += 1
            elif y == c: d -= 1
            if d: out.append(y)
        return out
    def op(self):
        o = Op(); o.res, o.regions, o.props = [], [], []
        if self.pk()[0] == '%':
            while True:
                r = self.nx()
                m = re.match(r'(%[^:#]+):(\d+)$', r)
                if m: o.res += [f'{m[1]}#{k}' for k in range(int(m[2]))]
                else: o.res.append(r)
                if self.pk() == ',': self.nx()
                else: break
            self.eat('=')
        o.name = self.nx().strip('"')
        self.eat('('); o.args = []
        while self.pk() != ')':
            y = self.nx()
            if y != ',': o.args.append(y)
        self.nx()
        if self.pk() == '[': self.balanced('[', ']')
        if self.pk() == '<': o.props = self.balanced('<', '>')
        if self.pk() == '(':
            self.nx()
            while self.pk() != ')':
                if self.pk() == ',': self.nx()
                o.regions.append(self.region())
            self.nx()
        if self.pk() == '{': self.balanced('{', '}')
        self.eat(':')
        o.in_t = self.types(); self.eat('->'); o.out_t = self.types()
        if self.pk() == 'loc': self.nx(); self.balanced('(', ')')
        return o
    def type1(self):
        out = self.nx()
        if self.pk() == '<': out += '<' + ''.join(self.balanced('<', '>')) + '>'
        return out
    def types(self):
        if self.pk() != '(': return [self.type1()]
        self.nx(); out = []
        while self.pk() != ')':
            if self.pk() == ',': self.nx()
            out.append(self.type1())
        self.nx(); return out
    def region(self):
        self.eat('{'); args, ops = [], []
        if self.pk() == '^bb0' or (self.pk() and self.pk()[0] == '^'):
            self.nx()
            if self.pk() == '(':
                self.nx()
                while self.pk() != ')':
                    y = self.nx()
                    if y[0] == '%': args.append(y); self.eat(':'); self.type1()
                    if self.pk() == 'loc': self.nx(); self.balanced('(', ')')
                    if self.pk() == ',': self.nx()
                self.nx()
            self.eat(':')
        while self.pk() != '}':
            if self.pk()[0] == '^': raise Unsupported('several blocks')
            ops.append(self.op())
        self.nx()
        return args, ops

class Unsupported(Exception): pass

def prop(o, name):
    p = o.props
    for k in range(len(p)):
        if p[k] == name and k + 1 < len(p) and p[k + 1] == '=': return p[k + 2]
    return None

def elt(t):
    m = re.match(r'tensor<(?:.*x)?([a-z]+\d*)>$', t)
    return m[1] if m else t

PRED_I = [op.eq, op.ne, op.lt, op.le, op.gt, op.ge, op.lt, op.le, op.gt, op.ge]
PRED_F = {1: op.eq, 2: op.gt, 3: op.ge, 4: op.lt, 5: op.le, 6: op.ne}

class Machine:
    def __init__(self): self.n = 0
    def region(self, rg, vals, env):
        args, ops = rg
        e = env
        for a, v in zip(args, vals): e[a] = v
        for o in ops:
            r = self.step(o, e)
            if o.name in ('func.return', 'scf.yield', 'affine.yield'): return r
        return []
    def step(self, o, e):
        self.n += 1
        if self.n > 60000: raise Undefined
        n = o.name
        a = [e[x] for x in o.args]
        if n in ('func.return', 'scf.yield'): return a
        if n == 'arith.constant':
            k = o.props.index('value')
            v = o.props[k + 2]
            if v == 'true': v = 1
            elif v == 'false': v = 0
            elif o.out_t[0][0] == 'f':
                if v.startswith('0x'):
                    import struct
                    w = int(o.out_t[0][1:])
                    v = struct.unpack('>f' if w == 32 else '>d', int(v, 16).to_bytes(w // 8, 'big'))[0]
                v = conv(float(v), o.out_t[0])
            else: v = int(v)
            if o.out_t[0] == 'i1': v = int(v) & 1
            out = [v]
        elif n == 'scf.if': out = self.region(o.regions[0 if a[0] else 1], [], e) if (a[0] or len(o.regions) > 1) else []
        elif n == 'scf.for':
            lb, ub, st = a[:3]; cur = a[3:]
            if st <= 0: raise Unsupported('step')
            i = lb
            while i < ub:
                cur = self.region(o.regions[0], [i] + cur, e); i += st
            out = cur
        elif n == 'arith.select': out = [a[1] if a[0] else a[2]]
        elif n.startswith('arith.') or n.startswith('math.'): out = [self.arith(o, n, a)]
        else: raise Unsupported(n)
        if len(out) != len(o.res): raise Unsupported(f'{n}: {len(out)} results for {len(o.res)}')
        for r, v in zip(o.res, out): e[r] = v
        return out
    def arith(self, o, n, a):
        if any(isinstance(x, list) for x in a):
            L = [x for x in a if isinstance(x, list)]
            if len(L) != len(a) or len({len(x) for x in L}) != 1: raise Unsupported('mixed shapes')
            return [self.arith(o, n, list(z)) for z in zip(*a)]
        n = n.split('.', 1)[1]
        t = elt(o.out_t[0]); it = elt(o.in_t[0])
        w = int(t[1:]) if re.match(r'[if]\d', t) else 64
        iw = int(it[1:]) if re.match(r'[if]\d', it) else 64
        U = lambda v, w: v & ((1 << w) - 1)
        # i1 values are kept as 0/1; signed operations see -1 for 1
        S = (lambda v, w: -v if w == 1 else v)
        if n in ('addi', 'subi', 'muli', 'andi', 'ori', 'xori'):
            f = {'addi': op.add, 'subi': op.sub, 'muli': op.mul, 'andi': op.and_, 'ori': op.or_, 'xori': op.xor}[n]
            return wrap(f(a[0], a[1]), w)
        if n in ('shli', 'shrsi', 'shrui'):
            k = U(a[1], w)
            if k >= w: raise Unsupported('poison shift')
            if n == 'shli': return wrap(a[0] << k, w)
            if n == 'shrsi': return wrap(S(a[0], w) >> k, w)
            return wrap(U(a[0], w) >> k, w)
        if n in ('divsi', 'remsi', 'floordivsi', 'ceildivsi'):
            x, y = S(a[0], w), S(a[1], w)
            if y == 0: raise Unsupported('division by zero')
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            if n == 'divsi': return wrap(q, w)
            if n == 'remsi': return wrap(x - q * y, w)
            if n == 'floordivsi': return wrap(x // y, w)
            return wrap(-(-x // y), w)
        if n in ('divui', 'remui'):
            x, y = U(a[0], w), U(a[1], w)
            if y == 0: raise Unsupported('division by zero')
            return wrap(x // y if n == 'divui' else x % y, w)
        if n == 'cmpi':
            p = int(prop(o, 'predicate'))
            x, y = (U(a[0], iw), U(a[1], iw)) if p >= 6 else (S(a[0], iw), S(a[1], iw))
            return int(PRED_I[p](x, y))
        if n == 'cmpf': return int(PRED_F[int(prop(o, 'predicate'))](a[0], a[1])) if int(prop(o, 'predicate')) in PRED_F else int(PRED_F[int(prop(o, 'predicate')) - 7](a[0], a[1]))
        if n in ('addf', 'subf', 'mulf', 'divf', 'remf'):
            if n in ('divf', 'remf') and a[1] == 0: raise Undefined
            f = {'addf': op.add, 'subf': op.sub, 'mulf': op.mul, 'divf': op.truediv, 'remf': math.fmod}[n]
            r = f(a[0], a[1])
            if r != r or abs(r) == math.inf: raise Undefined
            return conv(r, t)
        if n == 'floor': return conv(float(math.floor(a[0])), t)
        if n == 'extsi': return wrap(S(a[0], iw), w)
        if n == 'extui': return wrap(U(a[0], iw), w)
        if n == 'trunci': return wrap(a[0], w)
        if n in ('index_cast',): return S(a[0], iw) if t == 'index' else wrap(a[0], w)
        if n == 'index_castui': return U(a[0], iw) if t == 'index' else wrap(a[0], w)
        if n == 'sitofp': return conv(float(S(a[0], iw)), t)
        if n == 'uitofp': return conv(float(U(a[0], iw)), t)
        if n == 'fptosi':
            if not -2.0 ** (w - 1) <= math.trunc(a[0]) < 2.0 ** (w - 1): raise Unsupported('poison conversion')
            return wrap(int(a[0]), w)
        if n in ('extf', 'truncf'): return conv(a[0], t)
        if n == 'negf': return -a[0]
        if n in ('maxsi', 'minsi'): return (max if n == 'maxsi' else min)(a[0], a[1])
        raise Unsupported(n)


# ---------------------------------------------------------------- program generator
W = [8, 16, 32, 64]

class Gen:
    """Builds one function; tracks the type every variable should get."""
    def __init__(self, r): self.r, self.lines, self.ind, self.k = r, [], 1, 0; self.vars = {}; self.tmp = 0; self.litvars = {}; self.nodiv = False; self.nocast = False; self.aug = False
    def emit(self, s): self.lines.append('    ' * self.ind + s)
    def new(self, p='v'):
        self.tmp += 1
        return f'{p}{self.tmp}'
    def lit(self):
        r = self.r
        b = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31])
        v = r.choice([r.randrange(-(1 << b), (1 << b) + 1), r.choice([127, 128, 255, 256, -128, -129, 32767, 32768, -32768, 2, 1, 0, -1])])
        return v
    def int_leaf(self, lits=True):
        r = self.r
        ints = [(n, t) for n, t in self.vars.items() if t[0] == 'i' and t != 'i1']
        if ints and (not lits or r.random() < 0.75): return r.choice(ints) + (False,)
        if self.litvars and r.random() < 0.3:
            n = r.choice(list(self.litvars))
            return (n, self.litvars[n], True)
        v = self.lit()
        return (str(v) if v >= 0 else f'({v})', minlit(v), True)
    def int_expr(self, depth, lits=True, casts=True):
        """(text, type, is literal); never a purely literal tree."""
        r = self.r
        if depth == 0: return self.int_leaf(lits)
        k = r.random()
        if casts and not self.nocast and k < 0.12:
            e = self.int_expr(depth - 1, False)
            if e[2]: return e
            w = r.choice([x for x in W if f'i{x}' != e[1]])
            return (f'I{w}({e[0]})', f'i{w}', False)
        a = self.int_expr(depth - 1, lits, casts)
        if k < 0.25 and not a[2]:
            s = r.randrange(0, int(a[1][1:]))
            return (f'({a[0]} {r.choice(["<<", ">>"])} {s})', a[1], False)
        b = self.int_expr(depth - 1, lits, casts)
        if a[2] and b[2]: b = self.int_leaf(False)
        if a[2] and b[2]: return a
        o = r.choice(['+', '-', '*', '+', '-', '*', '&', '^'] + ([] if self.nodiv else ['//', '%']))
        return (f'({a[0]} {o} {b[0]})', f'i{max(int(a[1][1:]), int(b[1][1:]))}', False)
    def cond(self):
        r = self.r
        bs = [n for n, t in self.vars.items() if t == 'i1']
        if bs and r.random() < 0.4: return r.choice(bs)
        a = self.int_expr(r.choice([0, 0, 1]), False, False)
        b = self.int_expr(r.choice([0, 0, 1]), True, False)
        return f'{a[0]} {r.choice(["<", ">=", "==", "!="])} {b[0]}'

def header(g, ptypes, secret):
    ps = []
    for i, t in enumerate(ptypes):
        n = f'p{i}'
        g.vars[n] = t
        T = {'i1': 'I1', 'f32': 'F32', 'f64': 'F64'}.get(t, 'I' + t[1:])
        ps.append(f'{n}: Secret[{T}]' if secret[i] else f'{n}: {T}')
    return f'def f({", ".join(ps)}):'

def params(r, g, lo, hi, kinds):
    n = r.randint(lo, hi)
    pt = [r.choice(kinds) for _ in range(n)]
    if not any(t != 'i1' for t in pt): pt[0] = next(k for k in kinds if k != 'i1')
    return header(g, pt, [r.random() < 0.6 for _ in pt]), pt

INTS = ['i8', 'i16', 'i32', 'i64']

def straight(g, n, names=None):
    """n assignments of integer expressions to new or existing variables."""
    r = g.r
    for _ in range(n):
        e = g.int_expr(r.choice([1, 1, 2, 2, 3]))
        k = r.random()
        olds = [v for v, t in g.vars.items() if t[0] == 'i' and t != 'i1']
        if k < 0.25 and olds: v = r.choice(olds)
        else: v = g.new()
        if k > 0.85:
            v = g.new(); e = g.int_leaf()
        g.emit(f'{v} = {e[0]}')
        (g.litvars if e[2] else g.vars)[v] = e[1]

def fam_arith(r):
    g = Gen(r); g.nodiv = r.random() < 0.6
    h, pt = params(r, g, 1, 4, INTS)
    straight(g, r.randint(1, 6))
    e = g.int_expr(r.choice([0, 1, 2]), False)
    g.emit(f'return {e[0]}')
    return h, g, pt, e[1]

def fam_literal(r):
    """Literals meeting literals: folded exactly, in the smallest type."""
    g = Gen(r)
    h, pt = params(r, g, 1, 2, INTS)
    lits = {}
    for _ in range(r.randint(2, 5)):
        v = g.new('c')
        if len(lits) < 2 or r.random() < 0.4:
            x = g.lit(); g.emit(f'{v} = {x}')
        else:
            (a, x), (b, y) = r.choice(list(lits.items())), r.choice(list(lits.items()))
            o = r.choice(['+', '-', '*', '//', '%', '&', '^', '<<', '>>'])
            if o in ('//', '%') and y == 0: o = '+'
            if o in ('<<', '>>') and not 0 <= y <= 16: o = '-'
            z = eval(f'({x}) {o} ({y})')
            if minlit(z) is None: z = x - y; o = '-'
            g.emit(f'{v} = {a} {o} {b}'); x = z
        lits[v] = x
    acc = 'p0'; t = pt[0]
    use = r.sample(list(lits), r.randint(1, min(3, len(lits))))
    for v in use:
        o = r.choice(['+', '-', '*', '^'])
        acc = f'({acc} {o} {v})'; t = f'i{max(int(t[1:]), int(minlit(lits[v])[1:]))}'
    g.emit(f'return {acc}')
    g.lits = lits
    return h, g, pt, t

def fam_compare(r):
    g = Gen(r)
    h, pt = params(r, g, 2, 4, INTS + ['i1'])
    if r.random() < 0.5: straight(g, r.randint(1, 2))
    b = g.new('b'); g.emit(f'{b} = {g.cond()}'); g.vars[b] = 'i1'
    for _ in range(r.randint(0, 2)):
        bs = [n for n, t in g.vars.items() if t == 'i1']
        c = g.new('b')
        g.emit(f'{c} = {r.choice(bs)} {r.choice(["&", "^", "==", "!="])} {r.choice(bs)}'); g.vars[c] = 'i1'
    t = 'i1'
    if r.random() < 0.35:
        # a boolean used as a number
        bs = [n for n, t in g.vars.items() if t == 'i1']
        x, tx, _ = g.int_leaf(False)
        e = f'{x} {r.choice(["+", "-", "*"])} {r.choice(bs)}'; t = tx
        if r.random() < 0.4: w = r.choice(W); e = f'I{w}({r.choice(bs)})'; t = f'i{w}'
        g.emit(f'return {e}')
    else: g.emit(f'return {r.choice([n for n, t in g.vars.items() if t == "i1"])}')
    return h, g, pt, t

def body(g, targets, n, types):
    """Assignments inside a branch or loop: every target at least once, plus temporaries. Types of targets are the widest assigned."""
    r = g.r
    order = targets + [r.choice(targets) for _ in range(r.randint(0, 1))] if targets else []
    r.shuffle(order)
    for _ in range(r.randint(0, n)): order.insert(r.randrange(len(order) + 1), None)
    local = []
    for v in order:
        k = r.random()
        if v is None:
            e = g.int_expr(r.choice([1, 1, 2]), True, False); t = g.new('t'); g.emit(f'{t} = {e[0]}'); g.vars[t] = e[1]; local.append(t); continue
        if k < 0.15: e = g.int_leaf(False)
        elif k < 0.3: e = g.int_leaf()
        else: e = g.int_expr(r.choice([1, 1, 2]), True, False)
        g.emit(f'{v} = {e[0]}')
        types.setdefault(v, []).append(e[1])
    for t in local: del g.vars[t]

def fam_loop(r):
    g = Gen(r); g.nocast = True; g.nodiv = r.random() < 0.7
    h, pt = params(r, g, 1, 3, INTS)
    straight(g, r.randint(0, 2))
    if 'loops' and True:
        for _ in range(r.choice([1, 1, 1, 2])):
            amb = []
            for _ in range(r.randint(1, 3)):
                v = g.new('a'); e = g.int_leaf() if r.random() < 0.7 else g.int_expr(1)
                g.emit(f'{v} = {e[0]}'); g.vars[v] = e[1]; amb.append(v)
            if r.random() < 0.3: amb.append(r.choice([n for n in g.vars if n[0] == 'p']))
            k = r.random()
            lo, hi, st = r.randint(-3, 4), r.randint(-2, 9), r.randint(1, 3)
            if k < 0.4: rg = f'{max(0, hi)}'
            elif k < 0.7: rg = f'{lo}, {hi}'
            elif k < 0.85: rg = f'{lo}, {hi}, {st}'
            else:
                n = g.new('n'); g.emit(f'{n} = {hi}'); g.litvars[n] = minlit(hi); rg = n
            it = g.new('i') if r.random() < 0.8 else '_'
            g.emit(f'for {it} in range({rg}):')
            g.ind += 1
            # the types of loop-carried variables depend on each other; only unification by the widest is promised
            if it != '_': g.vars[it] = 'i64'
            body(g, r.sample(amb, r.randint(1, len(amb))), 2, {})
            if it != '_': del g.vars[it]
            g.ind -= 1
            for v in amb: g.vars[v] = 'i64'
    e = g.int_expr(r.choice([0, 1, 2]), False, False)
    g.emit(f'return {e[0]}')
    return h, g, pt, None

def fam_if(r):
    g = Gen(r); g.nocast = True
    h, pt = params(r, g, 2, 4, INTS + ['i1'])
    straight(g, r.randint(0, 2))
    for _ in range(r.choice([1, 1, 2])):
        tg = []
        for _ in range(r.randint(1, 3)):
            v = g.new('a'); tg.append(v)
        if r.random() < 0.3: tg.append(r.choice([n for n, t in g.vars.items() if n[0] == 'p' and t != 'i1']))
        if r.random() < 0.5:
            for v in tg[:3]: e = g.int_leaf(); g.emit(f'{v} = {e[0]}'); g.vars[v] = e[1]
        g.emit(f'if {g.cond()}:')
        saved = dict(g.vars)
        g.ind += 1; body(g, list(tg), 1, {}); g.ind -= 1
        g.vars = dict(saved)
        g.emit('else:')
        g.ind += 1; body(g, list(tg), 1, {}); g.ind -= 1
        g.vars = dict(saved)
        for v in tg: g.vars[v] = 'i64'
        # use all of them afterwards
        u = g.new('u')
        if r.random() < 0.4 and len(tg) > 0:
            v = r.choice(tg); e = g.int_leaf(); g.emit(f'{v} = {v} + {e[0]}')
        g.emit(f'{u} = ' + ' - '.join(r.sample(tg, len(tg)))); g.vars[u] = 'i64'
    if r.random() < 0.3:
        v = g.new('q'); g.emit(f'{v} = {g.int_expr(1, True, False)[0]} if {g.cond()} else {g.int_leaf(False)[0]}'); g.vars[v] = 'i64'
    e = g.int_expr(r.choice([0, 1]), False, False)
    g.emit(f'return {u} + {e[0]}')
    return h, g, pt, None

def fam_ifreturn(r):
    g = Gen(r); g.nocast = True
    h, pt = params(r, g, 2, 4, INTS + ['i1'])
    straight(g, r.randint(0, 2))
    g.emit(f'if {g.cond()}:')
    saved = dict(g.vars); savedl = dict(g.litvars); g.ind += 1
    straight(g, r.randint(0, 2)); a = g.int_expr(r.choice([0, 1]), False); g.emit(f'return {a[0]}'); g.ind -= 1
    g.vars = dict(saved); g.litvars = savedl
    if r.random() < 0.7: g.emit('else:'); g.ind += 1
    straight(g, r.randint(0, 2)); b = g.int_expr(r.choice([0, 1]), False); g.emit(f'return {b[0]}')
    return h, g, pt, None

def flit(r): return str(r.choice([0.5, 1.5, -2.25, 3.0, 0.1, 1e-3, 1e6, -7.75]))

def fam_float(r):
    g = Gen(r)
    t = r.choice(['f32', 'f64'])
    h, pt = params(r, g, 1, 3, [t])
    fl = lambda: [n for n, x in g.vars.items() if x == t]
    def ex(d):
        if d == 0: return flit(r) if t == 'f64' and r.random() < 0.25 else r.choice(fl())
        return f'({ex(d-1)} {r.choice(["+", "-", "*", "+", "-", "*", "%"] + ["//"] * (r.random() < 0.1))} {ex(d-1)})'
    for _ in range(r.randint(1, 4)):
        v = g.new() if r.random() < 0.7 else r.choice(fl())
        e = ex(r.choice([1, 2, 2]))
        if not re.search(r'[a-z]\d', e): e = f'({e} + {r.choice(fl())})'
        g.emit(f'{v} = {e}'); g.vars[v] = t
    k = r.random()
    rt = t
    if k < 0.3:
        g.emit(f'return {r.choice(fl())} {r.choice(["<", ">=", "==", "!="])} {r.choice(fl())}'); rt = 'i1'
    elif k < 0.45:
        a = g.new('a'); n = r.randint(0, 5)
        g.emit(f'{a} = {r.choice(fl())}'); x = r.choice(fl())
        g.emit(f'for _ in range({n}):'); g.emit(f'    {a} = {a} * {x} + {a}'); g.emit(f'return {a}')
    elif k < 0.6:
        g.emit(f'if {r.choice(fl())} < {r.choice(fl())}:'); g.emit(f'    r = {r.choice(fl())} + {r.choice(fl())}')
        g.emit('else:'); g.emit(f'    r = {r.choice(fl())}'); g.emit(f'return r * {r.choice(fl())}')
    else: g.emit(f'return {ex(1)}' if t == 'f32' else f'return {r.choice(fl())} + {ex(1)}')
    return h, g, pt, rt

def fam_cast(r):
    """Casts between integers, floats and booleans."""
    g = Gen(r)
    kinds = INTS + ['f32', 'f64', 'i1']
    h, pt = params(r, g, 1, 2, kinds)
    v, t = 'p0', pt[0]
    for _ in range(r.randint(1, 4)):
        opts = [k for k in kinds if k != t]
        if t[0] == 'f' : opts = [k for k in opts if k[0] == 'i' and k != 'i1']
        if t == 'i1': opts = [k for k in opts if k[0] == 'i' or r.random() < 0.5]
        n = r.choice(opts)
        T = {'i1': 'I1', 'f32': 'F32', 'f64': 'F64'}.get(n, 'I' + n[1:])
        w = g.new(); g.emit(f'{w} = {T}({v})'); g.vars[w] = n; v, t = w, n
    if t in INTS and r.random() < 0.5: g.emit(f'return {v} + {g.int_leaf()[0]}'); t = None
    else: g.emit(f'return {v}')
    return h, g, pt, t

def fam_tensor(r):
    g = Gen(r)
    t = r.choice(INTS + ['f32', 'f64']); n = r.randint(1, 6)
    k = r.randint(1, 3)
    T = {'f32': 'F32', 'f64': 'F64'}.get(t, 'I' + t[1:])
    h = 'def f(' + ', '.join(f'p{i}: ' + (f'Secret[Tensor[[{n}], {T}]]' if r.random() < 0.7 else f'Tensor[[{n}], {T}]') for i in range(k)) + '):'
    vs = [f'p{i}' for i in range(k)]
    def ex(d): return r.choice(vs) if d == 0 else f'({ex(d-1)} {r.choice(["+", "-", "*"])} {ex(d-1)})'
    for _ in range(r.randint(0, 3)):
        v = g.new() if r.random() < 0.7 else r.choice(vs)
        g.emit(f'{v} = {ex(r.choice([1, 2]))}'); vs.append(v)
    if r.random() < 0.3:
        g.emit(f'acc = {r.choice(vs)}'); x = r.choice(vs)
        g.emit(f'for _ in range({r.randint(0, 4)}):'); g.emit(f'    acc = acc * {x} + acc'); vs.append('acc')
    g.emit(f'return {ex(1)}')
    return h, g, [f'{n}x{t}'] * k, None

# -- anything goes: may be refused, must not be wrong
def fam_wide(r):
    g = Gen(r)
    h, pt = params(r, g, 2, 4, INTS + ['i1'])
    g.vars['z'] = 'i64'; g.emit(f'z = {g.lit()}')
    g.vars['y'] = 'i64'; g.emit(f'y = {r.choice(["p0", "p1", "7"])}')
    def block(depth, loop):
        for _ in range(r.randint(1, 3)):
            k = r.random()
            olds = [v for v, t in g.vars.items() if t != 'i1' and not v.startswith('i')]
            if k < 0.4 or depth == 0:
                v = r.choice(olds) if r.random() < 0.7 else g.new()
                e = g.int_expr(r.choice([0, 1, 2]), True)
                o = r.choice(['=', '=', '=', '=', '+=', '-=']) if v in g.vars else '='
                g.emit(f'{v} {o} {e[0]}')
                if v not in g.vars and not (depth < 3): g.vars[v] = e[1]
            elif k < 0.62:
                saved = dict(g.vars)
                g.emit(f'if {g.cond()}:'); g.ind += 1; block(depth - 1, loop); g.ind -= 1
                if r.random() < 0.6: g.emit('else:'); g.ind += 1; block(depth - 1, loop); g.ind -= 1
                g.vars = saved
            elif k < 0.85:
                it = g.new('i')
                rg = r.choice([f'{r.randint(0, 4)}', f'{r.randint(-2, 2)}, {r.randint(0, 4)}', f'{r.randint(0,2)}, 6, 2', f'{r.randint(2, 6)}, 0, -1', r.choice(olds)])
                saved = dict(g.vars)
                g.emit(f'for {it} in range({rg}):'); g.ind += 1; g.vars[it] = 'i64'; block(depth - 1, True); g.ind -= 1
                g.vars = saved
                if r.random() < 0.2: g.vars[it] = 'i64'
            elif k < 0.9 and loop: g.emit(f'if {g.cond()}:'); g.emit(f'    {r.choice(["break", "continue"])}')
            elif k < 0.94: g.emit(f'if {g.cond()}:'); g.emit(f'    return {r.choice(olds)}')
            elif k < 0.97: n = g.new('w'); g.emit(f'{n} = 0'); g.emit(f'while {n} < {r.randint(0, 3)}:'); g.emit(f'    {n} = {n} + 1'); g.emit(f'    z = z + y')
            else:
                g.emit(r.choice(['z = -z', 'z = ~y', 'z = z | y', 'z = z ** 2', 'z = max(z, y)', 'z = z if p0 < p1 else y', 'z, y = y, z', 'z = abs(z)', 'z = int(y)', 'z = z > y', 'z = p0 < z and y < p1', 'z = y <= p0', 'z = not z', 'z = y if p0 < p1 else z + 1', 'y = (z if p0 < y else p0) * 2', 'z = p1 if z == y else (y if p0 != z else 3)', 'pass', 'z = True', 'y = I8(z)', 'y = I64(z)']))
    block(r.choice([1, 2, 2, 3]), False)
    g.emit(f'return {r.choice(["z", "y", "z + y", "z * y - p0"])}')
    return h, g, pt, None

def fam_mixed(r):
    """A supported loop and a supported conditional one after the other, sharing variables."""
    g = Gen(r); g.nocast = True; g.nodiv = True
    h, pt = params(r, g, 2, 3, INTS + ['i1'])
    amb = []
    for _ in range(r.randint(1, 2)):
        v = g.new('a'); e = g.int_leaf(); g.emit(f'{v} = {e[0]}'); g.vars[v] = 'i64'; amb.append(v)
    def loop():
        g.emit(f'for {g.new("i")} in range({r.randint(0, 5)}):'); g.ind += 1; body(g, list(amb), 1, {}); g.ind -= 1
    def cond():
        g.emit(f'if {g.cond()}:'); g.ind += 1; body(g, list(amb), 1, {}); g.ind -= 1
        g.emit('else:'); g.ind += 1; body(g, list(amb), 1, {}); g.ind -= 1
    for s in r.choice([[loop, cond], [cond, loop], [loop, loop], [cond, cond], [loop, cond, loop]]): s()
    g.emit('return ' + ' - '.join(amb))
    return h, g, pt, None

FAMS = {'F01_arith': (fam_arith, True, 1000), 'F01_literal': (fam_literal, True, 300), 'F01_compare': (fam_compare, True, 500), 'F01_loop': (fam_loop, True, 800), 'F01_if': (fam_if, True, 700),
        'F01_ifreturn': (fam_ifreturn, True, 300), 'F01_float': (fam_float, True, 400), 'F01_cast': (fam_cast, True, 300), 'F01_tensor': (fam_tensor, True, 300), 'F01_mixed': (fam_mixed, True, 400), 'F01_wide': (fam_wide, False, 2500)}


# ---------------------------------------------------------------- driver
OUT = {'cases': [], 'events': {}, 'fails': []}
def ev(n, k=1): OUT['events'][n] = OUT['events'].get(n, 0) + k
def fail(key, desc, msg): OUT['fails'].append((key, desc, msg))

def emit_program(src, name):
    g = {k: getattr(hm, k) for k in dir(hm)}
    exec(compile(src, '<generated>', 'exec'), g)
    f = g['f']
    fir = compiler.run_frontend(f)
    args, sec, ret = parse_annotations(f.__annotations__)
    tc, tx = cpu_target.typing_context, cpu_target.target_context
    tc.refresh(); tx.refresh()
    tm, rt, _, _ = type_inference_stage(tc, tx, fir, args, None)
    text = TextualMlirEmitter(fir, sec, tm, rt, name).emit()
    return f, fir, tm, rt, text

def lower(texts):
    """{name: generic text} for the accepted ones, and what was said about the others."""
    out, errs = {}, {}
    CH = 40
    names = list(texts)
    for k in range(0, len(names), CH):
        chunk = names[k:k + CH]
        p = opt('\n// -----\n'.join(texts[n] for n in chunk))
        got = split(p.stdout)
        if p.returncode not in (0, 1):
            got = {}
            for n in chunk:
                q = opt(texts[n]); g = split(q.stdout)
                if n in g: got[n] = g[n]
                else: errs[n] = q.stderr
        for n in chunk:
            if n in got: out[n] = got[n]
            elif n not in errs: errs[n] = opt(texts[n]).stderr
    return out, errs

def opt(s): return subprocess.run([MLIR_OPT, '--allow-unregistered-dialect', '--split-input-file', '--lower-affine', '--mlir-print-op-generic'], input=s, capture_output=True, text=True)

def split(s):
    out = {}
    for part in s.split('// -----'):
        m = re.search(r'sym_name = "([^"]+)"', part)
        if m: out[m[1]] = part
    return out

EDGE = {w: [0, 1, -1, 2, 3, -2, (1 << (w - 1)) - 1, -(1 << (w - 1)), 5, 100, -100] for w in W}
def value(r, t):
    m = re.match(r'(\d+)x(.*)', t)
    if m: return [value(r, m[2]) for _ in range(int(m[1]))]
    if t == 'i1': return r.randrange(2)
    if t[0] == 'i':
        w = int(t[1:])
        k = r.random()
        if k < 0.35: return wrap(r.choice(EDGE[w]), w)
        if k < 0.7: return r.randrange(-12, 13)
        return wrap(r.getrandbits(64), w)
    v = r.choice([r.uniform(-4, 4), r.uniform(-1000, 1000), float(r.randrange(-5, 6)), 0.0])
    return conv(v, t)

def fmt(src): return src.strip()

def same(a, b, t):
    if isinstance(a, list) or isinstance(b, list): return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y, t) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float): return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    return a == b

def shape_of(err, src):
    e = re.sub(r'%\w+|\'[^\']*\'|"[^"]*"|\d+', '', err.split('\n')[0] if err else '')
    return re.sub(r'[^A-Za-z]+', '-', e).strip('-')[:70]

def main():
    seed, shard, shards, scale, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    only = sys.argv[6] if len(sys.argv) > 6 else None
    progs = {}
    for fam, (fn, tight, n) in FAMS.items():
        for i in range(max(1, int(n * scale))):
            if only and only != f'{fam}:{i}': continue
            if not only and i % shards != shard: continue
            r = random.Random(f'{seed}/{fam}/{i}')
            h, g, pt, rt = fn(r)
            src = h + '\n' + '\n'.join(g.lines) + '\n'
            try: compile(src, 'x', 'exec')
            except SyntaxError: ev('ungrammatical'); continue
            name = f'q_{fam}_{i}'
            try:
                f, fir, tm, rty, text = emit_program(src, name)
            except Exception as e:
                kind = type(e).__name__
                ev('refused by the frontend')
                OUT['cases'].append((fam, src, not tight))
                if tight:
                    m = str(e).split('\n')[-1] if isinstance(e, (CompilerError, InternalCompilerError)) else ''.join(traceback.format_exception(e)[-2:])
                    last = re.search(r'encountered internal error: "(.*?)"', str(e)) or re.search(r'(\w+(?: \w+)+)', str(e))
                    fail(f'{fam}-refused-{kind}-' + re.sub(r'[^A-Za-z]+', '-', re.sub(r'\b(u?int\d+|float\d+|bool)\b|Literal\[int\]\([-\d]+\)', '', str(last[1] if last else '')))[:60], src, f'the frontend refuses a supported program: {m[:500]}')
                continue
            progs[name] = (fam, i, tight, src, f, fir, tm, rty, text, pt, rt, g)
            ev('programs emitted'); ev(f'emitted in {fam}')
    low, errs = lower({n: p[8] for n, p in progs.items()})
    for n, (fam, i, tight, src, f, fir, tm, rty, text, pt, rt, g) in progs.items():
        OUT['cases'].append((fam, src, n in errs and not tight))
        if n in errs:
            ev('refused downstream as ill-formed')
            if tight: fail(f'{fam}-ill-formed-' + shape_of(re.sub(r'^[^:]*:\d+:\d+: ', '', errs[n].strip()), src), src, f'the emitted program is ill-formed: {errs[n][:500]}\nemitted:\n{text}')
            continue
        # the types promised
        got = 'tensor' if isinstance(rty, nt.Array) else tname(rty)
        if rt is not None:
            ev('result types compared')
            if got != rt: fail(f'{fam}-type', src, f'the result should have type {rt}, but has {got}')
        for v, x in getattr(g, 'lits', {}).items():
            ty = tm.get(v)
            if ty is None: continue
            ev('literal types compared')
            if tname(ty) != minlit(x) or not isinstance(ty, nt.Literal) or ty.literal_value != x: fail(f'{fam}-literal-type', src, f'{v} = {x} should be a literal of type {minlit(x)}, but is {ty}')
        try:
            P = Parser(low[n]); mod = P.op(); fn = mod.regions[0][1][0]
            sig_out = fn.props
        except (Unsupported, AssertionError) as e:
            ev('not executable: ' + str(e)[:40]); continue
        # which arguments are marked
        marked = [k for k, a in enumerate(re.findall(r'%(\w+): [^ ]+ (\{[^}]*\})?', text.split(') -> (')[0])) if 'secret.secret' in a[1]]
        want = [k for k, a in enumerate(re.findall(r'p\d+: (Secret\[)?', src.split('\n')[0])) if a]
        ev('signatures compared')
        if marked != want: fail(f'{fam}-secret-args', src, f'arguments {want} are annotated as secret, {marked} are marked\n{text}')
        r = random.Random(f'{seed}/{n}/inputs')
        ran = 0
        for _ in range(14):
            args = [value(r, t) for t in pt]
            st = {}
            try: ref = run_numba(fir, tm, [list(a) if isinstance(a, list) else a for a in args], st)
            except Undefined: ev('inputs with no defined result'); continue
            except Exception as e: ev(f'reference gave up: {type(e).__name__}'); continue
            m = Machine()
            try: res = m.region(fn.regions[0], [list(a) if isinstance(a, list) else a for a in args], {})
            except Undefined: ev('inputs with no defined result'); continue
            except Unsupported as e:
                if st.get('divneg'):
                    try: run_numba(fir, tm, [list(a) if isinstance(a, list) else a for a in args], {'trunc': True})
                    except Undefined: fail('division-truncates', src, f'on {args}: Python gives {ref}, the emitted program stops ({e})'); continue
                    except Exception: pass
                if 'poison' in str(e) or 'zero' in str(e): fail(f'{fam}-undefined', src, f'on {args} the emitted program has undefined behaviour ({e}), Python gives {ref}\n{text}'); break
                ev('not executable: ' + str(e)[:40]); break
            except KeyError as e: ev('not executable: value'); break
            ran += 1; ev('executions compared'); ev('operations interpreted', m.n)
            # plain Python, when nothing left its type
            if not st.get('wrapped') and not st.get('cast_changed') and not any(isinstance(a, list) for a in args) and not any(tname(t) == 'f32' for t in tm.values()):
                try:
                    pa = [bool(a) if t == 'i1' else a for a, t in zip(args, pt)]
                    py = f(*pa)
                    py = getattr(py, 'value', py)
                    if not isinstance(py, (int, float)): raise TypeError
                    ev('plain Python results compared')
                    if not same(conv(py, tname(rty)), ref, None): fail(f'{fam}-types', src, f'on {args} Python gives {py}, the function at the inferred types gives {ref}\ntypes: ' + ', '.join(f'{k}:{v}' for k, v in tm.items()))
                except TypeError: ev('plain Python not applicable')
                except Exception as e: ev(f'plain Python not applicable')
            if not same(res[0], ref, None):
                if st.get('divneg') or st.get('ffloor'):
                    s2 = {'trunc': True}
                    try: alt = run_numba(fir, tm, [list(a) if isinstance(a, list) else a for a in args], s2)
                    except Exception: alt = None
                    if alt is not None and same(res[0], alt, None):
                        key = 'division-truncates' if not st.get('ffloor') else 'float-floordiv-not-floored'
                        fail(key, src, f'on {args}: Python gives {ref}, the emitted program {res[0]}\n{text}'); continue
                fail(f'{fam}-value', src, f'on {args}: Python gives {ref}, the emitted program {res[0]}\n{text}'); break
        if ran == 0: ev('programs never executed')
    json.dump(OUT, open(out, 'w'))

if __name__ == '__main__': main()

"""Runs src/fftmpi.py, which is written for Python 2 on top of mpi4py, inside the simulator's Python 3.
Translated: print/raise/except statements of Python 2, integer division, byte strings at the ctypes boundary.
Stubbed: mpi4py (a communicator is the handle of the simulated MPI library)."""
import ast, ctypes, functools, io, sys, tokenize, types
import numpy as np

# ---------------------------------------------------------------- Python 2 source to Python 3 source
def convert(src):
    src = src.replace('\r\n', '\n').expandtabs(8)
    try:
        compile(src, 'fftmpi.py', 'exec')
        return src
    except SyntaxError:
        pass
    toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    starts = [0]
    for l in src.splitlines(True):
        starts.append(starts[-1] + len(l))
    pos = lambda p: starts[p[0] - 1] + p[1]
    SKIP = (tokenize.NL, tokenize.COMMENT, tokenize.INDENT, tokenize.DEDENT, tokenize.NEWLINE)
    edits = []                       # (offset, delete, insert)
    first, i = True, 0
    while i < len(toks):
        t = toks[i]
        if t.type in SKIP:
            if t.type == tokenize.NEWLINE:
                first = True
            i += 1
            continue
        if first and t.type == tokenize.NAME and t.string in ('print', 'raise'):
            j, depth = i + 1, 0
            comma = []
            while j < len(toks):
                u = toks[j]
                if u.type in (tokenize.NEWLINE, tokenize.ENDMARKER, tokenize.COMMENT) or (u.string == ';' and depth == 0 and u.type == tokenize.OP):
                    break
                if u.type == tokenize.OP:
                    if u.string in '([{':
                        depth += 1
                    elif u.string in ')]}':
                        depth -= 1
                    elif u.string == ',' and depth == 0:
                        comma.append(u)
                j += 1
            end = pos(toks[j - 1].end)
            nxt = toks[i + 1]
            if t.string == 'print':
                if nxt.string == '>>':               # print >>f, x
                    stop = pos(comma[0].start) if comma else end
                    f = src[pos(nxt.end):stop]
                    edits.append((pos(t.end), (pos(comma[0].end) if comma else end) - pos(t.end), '('))
                    edits.append((end, 0, (', ' if comma else '') + 'file=' + f.strip() + ')'))
                    first = False
                    i = j
                    continue
                whole = nxt.string == '(' and toks[j - 1].string == ')' and depth_one(toks[i + 1:j])
                if not whole and not (nxt.string == '=' or nxt.string == '.'):
                    edits.append((pos(t.end), 0, '('))
                    edits.append((end, 0, ')'))
            elif comma:
                c = comma[0]
                edits.append((pos(c.start), 1, '('))
                if len(comma) > 1:
                    edits.append((pos(comma[1].start), end - pos(comma[1].start), ''))
                edits.append((end, 0, ')'))
            first = False
            i = j
            continue
        if first and t.string == 'except':
            j, depth, comma = i + 1, 0, None
            while toks[j].string != ':' or depth:
                s = toks[j].string
                if s in '([{' and s:
                    depth += 1
                elif s in ')]}' and s:
                    depth -= 1
                elif s == ',' and not depth:
                    comma = toks[j]
                j += 1
            if comma:
                edits.append((pos(comma.start), 1, ' as '))
            i = j
            continue
        if t.string == '<' and i + 1 < len(toks) and toks[i + 1].string == '>' and toks[i + 1].start == t.end or t.string == '<>':
            edits.append((pos(t.start), 2, '!='))
            i += 1 if t.string == '<>' else 2
            continue
        first = t.string in (':', ';') and t.type == tokenize.OP or (first and t.type in SKIP)
        i += 1
    for o, d, s in sorted(edits, key=lambda e: e[0])[::-1]:
        src = src[:o] + s + src[o + d:]
    return src

def depth_one(ts):
    """the parenthesis that opens first closes last"""
    d = 0
    for n, t in enumerate(ts):
        if t.type == tokenize.OP and t.string in '([{':
            d += 1
        elif t.type == tokenize.OP and t.string in ')]}':
            d -= 1
            if d == 0:
                return n == len(ts) - 1
    return False

class Div(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name('_py2_div', ast.Load()), [n.left, n.right], []), n)
        return n
    def visit_Attribute(self, n):
        self.generic_visit(n)
        new = {'iteritems': 'items', 'itervalues': 'values', 'iterkeys': 'keys', 'has_key': '__contains__',
               'im_func': '__func__', 'im_self': '__self__', 'func_name': '__name__'}.get(n.attr)
        if new and isinstance(n.ctx, ast.Load):
            n.attr = new
        return n

def py2_div(a, b):
    return a // b if isinstance(a, int) and isinstance(b, int) else a / b

# ---------------------------------------------------------------- ctypes as Python 2 has it: str is a byte string
class Str(str):
    def decode(self, *a):
        return str(self)

class c_char_p(ctypes.c_char_p):
    def __init__(self, v=None):
        super().__init__(v.encode('latin1') if isinstance(v, str) else v)
    @classmethod
    def from_param(cls, v):
        if isinstance(v, str):
            v = v.encode('latin1')
        return ctypes.c_char_p.from_param(v)

def _decode(r, f, a):
    return Str(r.decode('latin1')) if isinstance(r, bytes) else r

class CDLL:
    def __init__(self, name, mode=ctypes.DEFAULT_MODE, *a, **k):
        base = str(name).rsplit('/', 1)[-1]
        if not (base.startswith('libfft') and 'mpi' in base and '.so' in base):
            raise OSError('%s: cannot open shared object file' % name)
        dim = 3 if '3d' in base else 2 if '2d' in base else 0
        lib = ctypes.CDLL(LIBPATH, mode, *a, **k)
        base_ptr = lib._FuncPtr
        class FP(base_ptr):
            _flags_ = base_ptr._flags_
            _restype_ = base_ptr._restype_
            def __setattr__(self, k, v):
                if k == 'restype' and v is c_char_p:
                    base_ptr.__setattr__(self, 'errcheck', _decode)
                    v = ctypes.c_char_p
                base_ptr.__setattr__(self, k, v)
        lib._FuncPtr = FP
        self.__dict__['_l'] = lib
        self.__dict__['_d'] = dim
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if self._d and n.startswith(('fft%dd_' % (5 - self._d), 'remap%dd_' % (5 - self._d))):
            raise AttributeError('undefined symbol: ' + n)      # the 2d library has no 3d functions and vice versa
        f = getattr(self._l, n)
        self.__dict__[n] = f
        return f
    __getitem__ = __getattr__

# ---------------------------------------------------------------- mpi4py
class Comm:
    def __init__(self, h):
        self._h = ctypes.c_int(h)
    def py2f(self):
        return self._h.value
    @property
    def handle(self):
        return self._h.value
    def Get_rank(self):
        r = ctypes.c_int()
        SELF.MPI_Comm_rank(self._h, ctypes.byref(r))
        return r.value
    def Get_size(self):
        r = ctypes.c_int()
        SELF.MPI_Comm_size(self._h, ctypes.byref(r))
        return r.value
    rank = property(Get_rank)
    size = property(Get_size)

def load(path, libpath, world):
    global LIBPATH, SELF, M
    LIBPATH = libpath
    SELF = ctypes.CDLL(None)
    mpi = types.ModuleType('mpi4py.MPI')
    mpi.Comm = Comm
    mpi.Intracomm = Comm
    mpi.COMM_WORLD = Comm(world)
    mpi._sizeof = lambda c: ctypes.sizeof(ctypes.c_int)
    mpi._addressof = lambda c: ctypes.addressof(c._h)
    mpi._handleof = lambda c: c._h.value
    pkg = types.ModuleType('mpi4py')
    pkg.MPI = mpi
    sys.modules['mpi4py'] = pkg
    sys.modules['mpi4py.MPI'] = mpi
    ct = types.ModuleType('ctypes')
    for k in dir(ctypes):
        if not k.startswith('__'):
            setattr(ct, k, getattr(ctypes, k))
    ct.CDLL = CDLL
    ct.c_char_p = c_char_p
    ct.cdll = types.SimpleNamespace(LoadLibrary=CDLL)
    with open(path, encoding='latin1') as f:
        src = f.read()
    tree = ast.fix_missing_locations(Div().visit(ast.parse(convert(src), path)))
    M = types.ModuleType('fftmpi')
    M.__dict__.update(_py2_div=py2_div, xrange=range, long=int, unicode=str, basestring=str, raw_input=input, unichr=chr, reduce=functools.reduce,
                      map=lambda *a: list(map(*a)), filter=lambda *a: list(filter(*a)), zip=lambda *a: list(zip(*a)),
                      cmp=lambda a, b: (a > b) - (a < b), apply=lambda f, a=(), k={}: f(*a, **k))
    for k, t in dict(int=int, float=float, bool=bool, complex=complex, object=object, str=str).items():
        if k not in np.__dict__:
            setattr(np, k, t)
    M.__file__ = path
    sys.modules['fftmpi'] = M
    real = sys.modules['ctypes']
    sys.modules['ctypes'] = ct
    try:
        exec(compile(tree, path, 'exec'), M.__dict__)
    finally:
        sys.modules['ctypes'] = real

# ---------------------------------------------------------------- the application
CLS = ('FFT2dMPI', 'FFT3dMPI', 'Remap2dMPI', 'Remap3dMPI')
UNRAISABLE = []
sys.unraisablehook = lambda u: UNRAISABLE.append('%s: %s' % (type(u.exc_value).__name__, u.exc_value))
COUNT = [0, 0]

def arr(p, n, sz):
    """a numpy array over the caller's memory; p = 0: a caller without a buffer"""
    t = ctypes.c_float if sz == 4 else ctypes.c_double
    if not p or n <= 0:
        return np.zeros(1, t)
    return np.ctypeslib.as_array((t * n).from_address(p))

def create(kind, comm, prec):
    COUNT[0] += 1
    o = getattr(M, CLS[kind])(Comm(comm), prec)
    return [o, kind]

def destroy(h):
    COUNT[0] += 1
    o = h.pop(0)
    if sys.getrefcount(o) != 2:
        raise RuntimeError('the plan is still referenced elsewhere')
    if COUNT[0] % 3 == 0:
        o.destroy()
    del o
    if UNRAISABLE:
        raise RuntimeError('error while the plan was deleted: ' + UNRAISABLE.pop())

def sset(h, k, v):
    h[0].set(k, v)

def setup(h, a):
    return ints(h[0].setup(*a))

def tune(h, a, flag, niter, tmax, tflag):
    return ints(h[0].tune(*(tuple(a) + (flag, niter, tmax, tflag))))

def ints(r):
    r = tuple(r)
    for v in r:
        if not isinstance(v, (int, np.integer)):
            raise TypeError('a length is returned as %s' % type(v).__name__)
    return tuple(int(v) for v in r)

def shape(x):
    """applications also keep their grids as complex numbers, in two dimensions, or as part of a larger array"""
    COUNT[1] += 1
    k = COUNT[1] % 7
    if k == 2 and x.size % 2 == 0 and x.size:
        return x.view(np.complex64 if x.itemsize == 4 else np.complex128)
    if k == 4 and x.size % 2 == 0:
        return x.reshape(-1, 2)
    if k == 6:
        return x[:]
    return x

def pair(a, b):
    """arrays at the same place are the same array, or two views of it"""
    x = arr(*a)
    if a[0] and a[0] == b[0]:
        x = shape(x)
        return x, (shape(arr(*b)) if COUNT[1] % 3 == 0 else x)
    return shape(x), shape(arr(*b))

def setup_memory(h, a, b):
    h[0].setup_memory(arr(*a), arr(*b))

def compute(h, a, b, f):
    h[0].compute(*pair(a, b), f)

def only_1d(h, a, f):
    h[0].only_1d_ffts(shape(arr(*a)), f)

def only_remaps(h, a, b, f):
    h[0].only_remaps(*pair(a, b), f)

def only_one_remap(h, a, b, f, w):
    h[0].only_one_remap(*pair(a, b), f, w)

def remap(h, a, b, s, r):
    x, y = pair(a, b)
    h[0].remap(x, y, arr(*s), arr(*r))

def get_int(h, k):
    return int(h[0].get_int64(k) if k == 'memusage' else h[0].get_int(k))

def get_double(h, k):
    return float(h[0].get_double(k))

def get_string(h, k):
    v = h[0].get_string(k)
    return None if v is None else str(v)

def get_int_vector(h, k):
    v = h[0].get_int_vector(k)
    return None if v is None else [int(x) for x in v]

def get_double_vector(h, k):
    v = h[0].get_double_vector(k)
    return None if v is None else [float(x) for x in v]

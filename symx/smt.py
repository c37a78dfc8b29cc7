"""SMT-LIB2 emission of symbolic queries and a persistent solver process."""
import os
import re
import select
import subprocess
import time
from fractions import Fraction
from math import gcd

from . import sym as S
from .sym import Sym, SymBool, Unsupported

SOLVERS = {
    'z3-new': ['z3-new', '-in', '-smt2'],
    'z3': ['z3', '-in', '-smt2'],
    'cvc5': ['cvc5', '--incremental', '--produce-models', '--lang=smt2', '-q'],
}


class SolverProc:
    def __init__(self, name='z3-new'):
        self.name = name
        self.p = None
        self.seq = 0

    def _start(self):
        self.p = subprocess.Popen(SOLVERS[self.name], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, bufsize=0)
        self.buf = b''

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
            except Exception:
                pass
            self.p = None

    def run(self, script, timeout):
        """Send a script; return output lines up to the sentinel, or None."""
        if self.p is None or self.p.poll() is not None:
            self.close()
            self._start()
        self.seq += 1
        mark = 'done-%d' % self.seq
        data = (script + '\n(echo "%s")\n' % mark).encode()
        deadline = time.time() + timeout
        fd_in, fd_out = self.p.stdin.fileno(), self.p.stdout.fileno()
        os.set_blocking(fd_in, False)
        off = 0
        markb = mark.encode()
        out = b''
        try:
            while True:
                left = deadline - time.time()
                if left <= 0:
                    self.close()
                    return None
                r, w, _ = select.select([fd_out], [fd_in] if off < len(data) else [], [], left)
                if w:
                    try:
                        off += os.write(fd_in, data[off:off + 65536])
                    except BlockingIOError:
                        pass
                if r:
                    ch = os.read(fd_out, 1 << 20)
                    if not ch:
                        self.close()
                        return None
                    out += ch
                    if markb in out[-200:]:
                        i = out.rfind(markb)
                        return out[:i].decode().rstrip('"\n ')
        except (BrokenPipeError, OSError):
            self.close()
            return None


def num(c):
    c = Fraction(c)
    s = '%d.0' % abs(c.numerator)
    if c.denominator != 1:
        s = '(/ %s %d.0)' % (s, c.denominator)
    return '(- %s)' % s if c < 0 else s


class Emitter:
    """Turns a set of SymBools into an SMT-LIB script.

    mode 'raw'  : +, *, / and ite structure of the executed code is kept,
                  only transcendental applications go through atoms;
    mode 'norm' : every arithmetic comparison is normalised to
                  (canonical polynomial with denominators cleared) <op> 0
                  (only valid for = comparisons; < keeps the raw form).
    """

    def __init__(self, axioms=True):
        self.axioms = axioms
        self.decl = []
        self.defs = []
        self.side = []
        self.text = {}
        self.batoms = {}
        self.exps = {}          # exp atom -> lcm
        self.used_atoms = {}
        self.varnames = []

    # -- first pass: exponents of exp atoms
    def scan_poly(self, p, seen):
        al = S.W.atomlist
        for m in p:
            for a, e in m:
                at = al[a]
                if at.kind == 'exp':
                    d = Fraction(e).denominator
                    o = self.exps.get(a, 1)
                    self.exps[a] = o * d // gcd(o, d)
                if a not in seen:
                    seen.add(a)
                    for q in at.args:
                        if isinstance(q, dict):
                            self.scan_poly(q, seen)
                        elif isinstance(q, (Sym, SymBool)):
                            self.scan(q, seen)

    def scan(self, root, seen):
        stack = [root]
        vis = self._vis
        while stack:
            n = stack.pop()
            if n.id in vis:
                continue
            vis.add(n.id)
            if isinstance(n, Sym) and n.op in ('exp', 'sqrt', 'log', 'sin', 'cos', 'floor', 'uf', 'abs'):
                self.scan_poly(n.poly, seen)
                if n.op in ('abs',):
                    pass
            for a in n.args:
                if isinstance(a, (Sym, SymBool)):
                    stack.append(a)

    def atom(self, a):
        """SMT name of atom id a (declaring it and its axioms)."""
        if a in self.used_atoms:
            return self.used_atoms[a]
        at = S.W.atomlist[a]
        nm = '|%s|' % at.name
        if at.kind == 'ite':
            t = self.node(Sym.mk('ite', *at.args))
            self.used_atoms[a] = t
            return t
        if at.kind == 'var' and at.isint:
            self.decl.append('(declare-fun %s () Int)' % nm)
            self.varnames.append((at.name, nm))
            t = '(to_real %s)' % nm
            self.used_atoms[a] = t
            if at.pos:
                self.side.append('(> %s 0)' % nm)
            elif at.nonneg:
                self.side.append('(>= %s 0)' % nm)
            return t
        if at.kind == 'floor':
            self.decl.append('(declare-fun %s () Int)' % nm)
            t = '(to_real %s)' % nm
            self.used_atoms[a] = t
            q = self.poly(at.args[0])
            self.side.append('(<= %s %s)' % (t, q))
            self.side.append('(< %s (+ %s 1.0))' % (q, t))
            return t
        self.decl.append('(declare-fun %s () Real)' % nm)
        self.used_atoms[a] = nm
        if at.kind == 'var':
            self.varnames.append((at.name, nm))
            if at.name == 'pi':
                self.side.append('(and (< 3.141592653589793 %s) (< %s 3.141592653589794))' % (nm, nm))
            elif at.pos:
                self.side.append('(> %s 0.0)' % nm)
            elif at.nonneg:
                self.side.append('(>= %s 0.0)' % nm)
        elif at.kind == 'exp':
            L = self.exps.get(a, 1)
            self.side.append('(> %s 0.0)' % nm)
            if self.axioms:
                q = self.poly(at.args[0])
                self.side.append('(=> (<= %s 0.0) (<= %s 1.0))' % (q, nm))
                self.side.append('(=> (>= %s 0.0) (>= %s 1.0))' % (q, nm))
                self.side.append('(=> (< %s 0.0) (< %s 1.0))' % (q, nm))
                self.side.append('(=> (> %s 0.0) (> %s 1.0))' % (q, nm))
                self.side.append('(>= %s (+ 1.0 (/ %s %d.0)))' % (nm, q, L))
        elif at.kind == 'sqrt':
            q = self.poly(at.args[0])
            self.side.append('(and (%s %s 0.0) (= (* %s %s) %s))' % ('>' if at.pos else '>=', nm, nm, nm, q))
        elif at.kind == 'abs':
            q = self.poly(at.args[0])
            self.side.append('(= %s (ite (>= %s 0.0) %s (- %s)))' % (nm, q, q, q))
        elif at.kind == 'inv':
            q = self.poly(at.args[0])
            self.side.append('(= (* %s %s) 1.0)' % (nm, q))
        elif at.kind == 'log' and self.axioms:
            q = self.poly(at.args[0])
            self.side.append('(<= %s (- %s 1.0))' % (nm, q))
            self.side.append('(>= %s (- 1.0 (/ 1.0 %s)))' % (nm, q))
            self.side.append('(=> (> %s 1.0) (> %s 0.0))' % (q, nm))
            self.side.append('(=> (< %s 1.0) (< %s 0.0))' % (q, nm))
        elif at.kind in ('sin', 'cos'):
            other = S.W.atoms.get(('cos' if at.kind == 'sin' else 'sin', at.key))
            if other is None:
                other = S.W.atom('cos' if at.kind == 'sin' else 'sin', at.key, at.args)
            self.side.append('(and (<= (- 1.0) %s) (<= %s 1.0))' % (nm, nm))
            if other.id in self.used_atoms:
                o = self.used_atoms[other.id]
                self.side.append('(= (+ (* %s %s) (* %s %s)) 1.0)' % (nm, nm, o, o))
        elif at.kind == 'nan':
            raise Unsupported('nan in a query')
        return nm

    def mono(self, m):
        al = S.W.atomlist
        fs = []
        den = []
        for a, e in m:
            if al[a].kind == 'exp':
                e = e * self.exps.get(a, 1)
            e = Fraction(e)
            if e.denominator != 1:
                raise Unsupported('fractional exponent')
            e = int(e)
            t = self.atom(a)
            if abs(e) > 12:
                t2 = self.bigpow(t, abs(e))
                (fs if e > 0 else den).append(t2)
            else:
                (fs if e > 0 else den).extend([t] * abs(e))
        f = fs[0] if len(fs) == 1 else ('(* %s)' % ' '.join(fs) if fs else '1.0')
        if den:
            g = den[0] if len(den) == 1 else '(* %s)' % ' '.join(den)
            return '(/ %s %s)' % (f, g)
        return f

    def bigpow(self, t, e):
        k = ('pow', t, e)
        if k not in self.text:
            r = '1.0'
            parts = []
            b = t
            while e:
                if e & 1:
                    parts.append(b)
                e >>= 1
                if e:
                    n = 'pw!%d' % len(self.defs)
                    self.defs.append('(define-fun %s () Real (* %s %s))' % (n, b, b))
                    b = n
            self.text[k] = parts[0] if len(parts) == 1 else '(* %s)' % ' '.join(parts)
        return self.text[k]

    def poly(self, p):
        if not p:
            return '0.0'
        ts = []
        for m, c in p.items():
            if not m:
                ts.append(num(c))
            elif c == 1:
                ts.append(self.mono(m))
            else:
                ts.append('(* %s %s)' % (num(c), self.mono(m)))
        return ts[0] if len(ts) == 1 else '(+ %s)' % ' '.join(ts)

    def node(self, root):
        T = self.text
        refs = self._refs
        stack = [root]
        while stack:
            n = stack[-1]
            if n.id in T:
                stack.pop()
                continue
            op = n.op
            if op in ('exp', 'sqrt', 'log', 'sin', 'cos', 'floor', 'uf', 'abs'):
                T[n.id] = self.poly(n.poly)
                self._share(n)
                stack.pop()
                continue
            if op == 'const':
                T[n.id] = num(n.c)
                stack.pop()
                continue
            if op == 'var':
                T[n.id] = self.atom(n.args[0].id)
                stack.pop()
                continue
            ch = [a for a in n.args if isinstance(a, (Sym, SymBool)) and a.id not in T]
            if ch:
                stack.extend(ch)
                continue
            if op == 'add':
                # flatten chains of unshared additions
                T[n.id] = '(+ %s %s)' % (self._unplus(n.args[0]), self._unplus(n.args[1]))
            elif op == 'mul':
                T[n.id] = '(* %s %s)' % (T[n.args[0].id], T[n.args[1].id])
            elif op == 'div':
                T[n.id] = '(/ %s %s)' % (T[n.args[0].id], T[n.args[1].id])
            elif op == 'pow':
                b = T[n.args[0].id]
                e = n.args[1]
                T[n.id] = '(* %s)' % ' '.join([b] * e) if 2 <= e <= 12 else self.bigpow(b, e)
            elif op == 'ite':
                T[n.id] = '(ite %s %s %s)' % tuple(T[a.id] for a in n.args)
            elif op in ('lt', 'le', 'eq'):
                T[n.id] = '(%s %s %s)' % ({'lt': '<', 'le': '<=', 'eq': '='}[op], T[n.args[0].id], T[n.args[1].id])
            elif op in ('not', 'and', 'or'):
                T[n.id] = '(%s %s)' % (op, ' '.join(T[a.id] for a in n.args))
            elif op == 'nan':
                raise Unsupported('nan in a query')
            else:
                raise Unsupported('emit ' + op)
            self._share(n)
            stack.pop()
        return T[root.id]

    def _unplus(self, a):
        t = self.text[a.id]
        if a.op == 'add' and self._refs.get(a.id, 0) <= 1 and t.startswith('(+ ') and len(t) < 20000:
            return t[3:-1]
        return t

    def _share(self, n):
        t = self.text[n.id]
        if len(t) > 30 and (self._refs.get(n.id, 0) > 1 or len(t) > 20000):
            nm = '%s!%d' % ('d' if isinstance(n, Sym) else 'b', len(self.defs))
            self.defs.append('(define-fun %s () %s %s)' % (nm, 'Real' if isinstance(n, Sym) else 'Bool', t))
            self.text[n.id] = nm

    def count_refs(self, roots):
        refs = {}
        stack = list(roots)
        seen = set()
        while stack:
            n = stack.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            for a in n.args:
                if isinstance(a, (Sym, SymBool)):
                    refs[a.id] = refs.get(a.id, 0) + 1
                    stack.append(a)
        self._refs = refs

    def script(self, bools, normeqs=()):
        """bools: SymBools to assert; normeqs: lists of polys p, asserting
        that at least one p != 0 per list."""
        self._vis = set()
        seen = set()
        for b in bools:
            self.scan(b, seen)
        for ps in normeqs:
            for p in ps:
                self.scan_poly(p, seen)
        self.count_refs(bools)
        asserts = [self.node(b) for b in bools]
        for ps in normeqs:
            ts = ['(not (= %s 0.0))' % self.poly(p) for p in ps]
            asserts.append('(or %s)' % ' '.join(ts) if ts else 'false')
        L = []
        L += self.decl
        # side conditions may reference definitions and vice versa: order is
        # declarations, definitions, assertions
        L += self.defs
        L += ['(assert %s)' % s for s in self.side]
        L += ['(assert %s)' % s for s in asserts]
        return '\n'.join(L)


_tok = re.compile(r'\(|\)|\|[^|]*\||[^\s()]+')


def parse_sexp(s):
    toks = _tok.findall(s)
    pos = 0

    def rec():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == '(':
            r = []
            while toks[pos] != ')':
                r.append(rec())
            pos += 1
            return r
        return t
    out = []
    while pos < len(toks):
        out.append(rec())
    return out


def val(x):
    if isinstance(x, str):
        if x.endswith('?'):
            x = x[:-1]
        return Fraction(x)
    if x[0] == '-' and len(x) == 2:
        return -val(x[1])
    if x[0] == '/':
        return val(x[1]) / val(x[2])
    if x[0] == 'to_real':
        return val(x[1])
    raise ValueError('value %r' % (x,))


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unsat = self.sat = self.unknown = 0
        self.raw = self.norm = 0

    def add(self, o):
        for k in vars(self):
            setattr(self, k, getattr(self, k) + getattr(o, k))

    def as_dict(self):
        return dict(queries=self.queries, solver_time_s=round(self.time, 3), unsat=self.unsat,
                    sat=self.sat, unknown=self.unknown, discharged_on_raw_encoding=self.raw,
                    discharged_on_normalised_encoding=self.norm)


STATS = Stats()
_procs = {}


def reset_procs():
    for p in _procs.values():
        p.p = None      # after fork: do not touch the parent's process
    _procs.clear()


def close_procs():
    for p in _procs.values():
        p.close()
    _procs.clear()


def proc(name):
    if name not in _procs:
        _procs[name] = SolverProc(name)
    return _procs[name]


def solve(bools, timeout=10.0, model=None, axioms=True, normeqs=(), solver='z3-new', extra='', pre=''):
    """Returns (verdict, model dict or None).  model: None or True."""
    for b in bools:
        if b is False:
            return 'unsat', None
    bools = [b for b in bools if b is not True]
    em = Emitter(axioms)
    body = em.script(bools, normeqs)
    p = proc(solver)
    if solver.startswith('z3'):
        head = '(reset)\n(set-option :timeout %d)\n(set-option :smt.random_seed 7)\n' % int(timeout * 1000)
    else:
        head = '(reset)\n(set-option :tlimit-per %d)\n(set-option :produce-models true)\n(set-logic ALL)\n' % int(timeout * 1000)
    t = time.time()
    out = p.run(head + body + '\n' + extra + '\n(check-sat)', timeout + 5)
    STATS.queries += 1
    STATS.time += time.time() - t
    if os.environ.get('SYMX_DUMP'):
        with open('%s/q%d_%d.smt2' % (os.environ['SYMX_DUMP'], os.getpid(), STATS.queries), 'w') as f:
            f.write(body + '\n' + extra + '\n(check-sat)\n; %s\n' % out)
    if out is None:
        STATS.unknown += 1
        return 'unknown', None
    if '(error' in out:
        raise Unsupported('solver error: ' + out[:300])
    v = out.strip().splitlines()[-1].strip() if out.strip() else 'unknown'
    if v not in ('sat', 'unsat'):
        v = 'unknown'
    setattr(STATS, v, getattr(STATS, v) + 1)
    if v != 'sat' or not model:
        return v, None
    if not em.varnames:
        return v, {}
    q = '(get-value (%s))' % ' '.join(n for _, n in em.varnames)
    out = p.run(q, 10)
    if out is not None and 'root-obj' in out:
        out = p.run('(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n' + q +
                    '\n(set-option :pp.decimal false)', 10)
    m = {}
    try:
        ss = parse_sexp(out)
        for (nm, v2), (name, _) in zip(ss[-1], em.varnames):
            m[name] = val(v2)
    except Exception as e:       # model could not be read back
        return v, None
    return v, m

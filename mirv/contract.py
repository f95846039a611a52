"""Contract DSL: a Contract names a function of /repo and states clauses over every path of its MIR."""
import fnmatch, re, time, traceback
import z3
from .engine import (Engine, State, Frame, Agg, Op, Ref, VecV, ItV, FnV, UNIT, Unsupported, Lost, Budget, Val, F64, uf, is_z3, same_val,
                     int_range, trem, tdiv, esc_glob, Event, LoopCtx, FP)
from . import models as _m
from .models import big

REGISTRY = {}      # prop -> [Contract classes]


def contract(prop, fn, title=None, **kw):
    def d(cls):
        cls.prop, cls.fn = prop, fn
        cls.title = title or cls.__name__
        for k, v in kw.items():
            setattr(cls, k, v)
        REGISTRY.setdefault(prop, []).append(cls)
        return cls
    return d


class V:
    """view of a symbolic value in a given state"""
    __slots__ = ('p', 'v', 'ty')

    def __init__(self, p, v, ty=None):
        if isinstance(v, V):
            v, ty = v.v, v.ty
        e, st = p.e, p.st
        n = 0
        while isinstance(v, Ref) and n < 8:
            ty = v.ty
            v = e.read(st, v.root, v.proj)
            n += 1
        if isinstance(v, Op) and v.ty is not None:
            z = st.lazy.get(v.t.get_id())
            if z is not None and e.types[v.ty]['k'] in ('ref', 'ptr') and e.types[v.ty]['m']:
                v = st.mem[z[0]]
        self.p, self.v = p, v
        if isinstance(v, (Op, Agg, VecV, ItV)) and v.ty is not None:
            ty = v.ty
        self.ty = e.strip_refs(ty) if ty is not None else None
        if isinstance(v, Op) and self.ty is not None and e.types[self.ty]['k'] in ('bool', 'int', 'float', 'char', 'tuple'):
            self.v = e.mat(st, self.ty, v.t)

    def __repr__(self):
        return f'V({self.v})'

    def discr(self):
        return self.p.e.discr(self.p.st, self.v if not isinstance(self.v, Op) else Op(self.ty, self.v.t), self.ty)

    def is_(self, *variants):
        """z3 Bool: the enum value is one of the named variants"""
        e = self.p.e
        if isinstance(self.v, Agg):
            names = [e.types[self.ty]['v'][self.v.v]['n']]
            for x in variants:
                e.variant_index(self.ty, x)
            return z3.BoolVal(names[0] in variants)
        ds = [int(e.types[self.ty]['v'][e.variant_index(self.ty, x)]['d']) for x in variants]
        d = self.discr()
        return z3.Or([d == x for x in ds]) if len(ds) > 1 else d == ds[0]

    def as_(self, variant, field=0):
        """payload of the variant (meaningful only where is_(variant))"""
        e = self.p.e
        vi = e.variant_index(self.ty, variant)
        i = field if isinstance(field, int) else e.field_index(self.ty, vi, field)
        if isinstance(self.v, Agg) and self.v.v != vi:
            ft = e.field_ty(self.ty, vi, i)
            return V(self.p, e.mat(self.p.st, ft, uf('absent', Val)() if False else z3.Const('absent', Val)), ft)
        return V(self.p, e.project(self.p.st, self.v if not isinstance(self.v, Op) else Op(self.ty, self.v.t), self.ty, vi, i), e.field_ty(self.ty, vi, i))

    def f(self, *names):
        """struct field (through boxes and references)"""
        x = self
        for n in names:
            e = x.p.e
            t = e.types[x.ty]
            while e.is_boxy(t) or t.get('path') in ('alloc::sync::Arc', 'alloc::rc::Rc'):
                x = V(x.p, x.v if not isinstance(x.v, Op) else Op(t['args'][0], x.v.t), t['args'][0])
                t = e.types[x.ty]
            i = n if isinstance(n, int) else e.field_index(x.ty, 0, n)
            x = V(x.p, e.project(x.p.st, x.v if not isinstance(x.v, Op) else Op(x.ty, x.v.t), x.ty, 0, i), e.field_ty(x.ty, 0, i))
        return x

    def kind(self):
        return self.p.e.types[self.p.e.strip_refs(self.ty)]['k']

    def has(self, name):
        try:
            self.p.e.field_index(self.ty, 0, name)
            return True
        except Lost:
            return False

    def unbox(self):
        e = self.p.e
        x = self
        t = e.types[x.ty]
        while e.is_boxy(t) or t.get('path') in ('alloc::sync::Arc', 'alloc::rc::Rc'):
            x = V(x.p, x.v if not isinstance(x.v, Op) else Op(t['args'][0], x.v.t), t['args'][0])
            t = e.types[x.ty]
        return x

    @property
    def z(self):
        if not is_z3(self.v):
            raise Lost(f'not a scalar: {self.v}')
        return self.v

    def eq(self, o):
        if isinstance(o, str):
            o = Op(None, self.p.e.str_const(o))
        if isinstance(o, bool):
            o = z3.BoolVal(o)
        if isinstance(o, int):
            o = z3.IntVal(o)
        return self.p.e.eqv(self.p.st, self.v, o.v if isinstance(o, V) else o)

    @property
    def t(self):
        return self.p.e.term(self.p.st, self.v)

    def len(self):
        return self.p.e.seq_len(self.p.st, self.v)


class P:
    """one path of the function under contract, at its return / at a loop back edge"""

    def __init__(self, e, st, root_args, k):
        self.e, self.st, self._args, self.k = e, st, root_args, k
        self.L = None

    def V(self, v, ty=None):
        return V(self, v, ty)

    def arg(self, i):
        """argument i as it was at entry"""
        v, tid, snap = self._args[i]
        return V(self, snap, tid)

    def arg_now(self, i):
        """argument i: current value behind the reference"""
        v, tid, snap = self._args[i]
        return V(self, v, tid)

    # ---- events
    def events(self, *pats, since=0, upto=None):
        out = []
        for ev in self.st.events[since:upto]:
            for p in pats:
                if fnmatch.fnmatchcase(ev.name, esc_glob(p)) or (ev.res and fnmatch.fnmatchcase(ev.res, esc_glob(p))):
                    out.append(ev)
                    break
        return out

    def ev(self, *pats, since=0):
        es = self.events(*pats, since=since)
        return es[-1] if es else None

    def iter_events(self):
        return self.st.events[self.L.ev_start:] if self.L else self.st.events

    def feasible(self, cond):
        e = self.e
        e.solver.push()
        e.solver.add(cond)
        r = e.check()
        e.solver.pop()
        return r == z3.sat

    def holds(self, cond):
        if cond is True:
            return True
        if cond is False:
            return False
        return self.e.holds(self.st, cond)

    def require(self, name, cond, note='', abstract=False):
        """an obligation: cond is implied by the path condition"""
        k, e = self.k, self.e
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        e.str_facts(self.st)
        t0 = time.time()
        s = z3.simplify(cond)
        model = ''
        if z3.is_true(s):
            r = 'ok'
        else:
            e.solver.push()
            e.solver.add(z3.Not(s))
            c = e.check()
            if c == z3.unsat:
                r = 'ok'
            elif c == z3.sat:
                r = 'bad'
                try:
                    model = str(e.solver.model())[:1200]
                except Exception:
                    model = ''
            else:
                r = 'unknown'
            if k.dump_smt is not None and c == z3.unsat:
                k.dump_smt.append((name, e.solver.to_smt2()))
            e.solver.pop()
        if r == 'bad' and (self.st.taint or abstract):
            r = 'tainted'
        k.record(self.cname, name, r, list(self.st.trail), model, note, time.time() - t0, list(self.st.taint))
        return r == 'ok'

    def reach(self, name):
        """vacuity guard: this program point is reachable under the precondition"""
        self.k.reached.setdefault((self.cname, name), 0)
        self.k.reached[(self.cname, name)] += 1


def AND(*a):
    return z3.And([x if not isinstance(x, bool) else z3.BoolVal(x) for x in a])


def OR(*a):
    return z3.Or([x if not isinstance(x, bool) else z3.BoolVal(x) for x in a])


def NOT(a):
    return z3.Not(a) if not isinstance(a, bool) else z3.BoolVal(not a)


def IMP(a, b):
    return z3.Implies(a if not isinstance(a, bool) else z3.BoolVal(a), b if not isinstance(b, bool) else z3.BoolVal(b))


class Contract:
    prop = None
    fn = None
    expect = ()            # names of clauses which must have produced at least one obligation
    models = ()            # contract-specific models: [(patterns, function)]
    stop = ()              # callee globs which are used through their contract only
    no_panic = False       # also require every overflow/bounds/panic obligation on the paths to hold
    opts = {}
    optional = False       # the function may be missing on this tree

    def pre(self, p):
        pass

    def ret(self, p, r):
        pass

    def iter(self, p, L):
        pass

    def final(self, k):
        pass


class Checker:
    def __init__(self, prop, dump, tier='quick', debug=False, budget=400):
        self.prop, self.dump, self.tier, self.debug = prop, dump, tier, debug
        self.obl = []            # (contract, clause, status, trail, model, note, secs, taint)
        self.reached = {}
        self.undecided = []      # (contract, reason)
        self.functions = []      # contracts whose function was found
        self.inlined = set()
        self.externals = {}
        self.model_hits = {}
        self.solver_time = 0.0
        self.nchecks = 0
        self.paths = 0
        self.loops = []
        self.dump_smt = None
        self.budget = budget
        self.per_fn = {}
        self.n_loops = {}

    def record(self, cname, clause, r, trail, model, note, secs, taint):
        self.obl.append((cname, clause, r, trail, model, note, secs, taint))

    def run(self):
        for cls in REGISTRY.get(self.prop, []):
            self.run_contract(cls)

    def run_contract(self, cls):
        c = cls()
        pats = cls.fn if isinstance(cls.fn, (list, tuple)) else [cls.fn]
        roots = [(n, k) for n, k in self.dump['roots'] if any(fnmatch.fnmatchcase(n, esc_glob(p)) for p in pats)]
        if not roots:
            fns = self.dump['fns']
            roots = [(f['path'], f['key']) for f in (fns.values() if isinstance(fns, dict) else fns) if any(fnmatch.fnmatchcase(f['path'], esc_glob(p)) for p in pats)]
        if not roots:
            if not cls.optional:
                self.undecided.append((cls.title, f'lost anchor: no function matches {pats}'))
            return
        for name, key in roots:
            self.run_one(c, cls, name, key, len(roots) > 1)

    def run_one(self, c, cls, name, key, multi):
        cname = cls.title + (f' [{name}]' if multi else '')
        t0 = time.time()
        opts = {'debug': self.debug}
        opts.update(cls.opts)
        models = list(cls.models) + list(getattr(cls, 'shared_models', [])) + _m.MODELS
        FP.abstract = bool(cls.opts.get('fp_uf'))
        e = Engine(self.dump, models, opts)
        e.deadline = time.time() + cls.opts.get('budget', self.budget)
        for pat in cls.stop:
            for f in e.fns.values():
                if callable(pat):
                    if pat(f):
                        e.stop_at.add(f['key'])
                elif fnmatch.fnmatchcase(f['path'], esc_glob(pat)):
                    e.stop_at.add(f['key'])
        fn = e.fns.get(key)
        if fn is None:
            self.undecided.append((cname, 'no MIR body'))
            return
        if 'known_ext' not in opts:
            e.opts['known_ext'] = self.known_ext
        n0 = len(self.obl)
        err = None
        try:
            st = State()
            args = []
            for i in range(fn['argc']):
                tid = fn['locals'][i + 1]
                t = e.types[tid]
                term = z3.Const(f'arg{i}', Val)
                if t['k'] == 'ref' and t['m']:
                    v0 = e.mat(st, t['to'], term)
                    tt = e.types[t['to']]
                    if isinstance(v0, Op) and tt['k'] == 'adt' and tt['kind'] == 'struct' and tt['crate'] == '_pydantic_core':
                        v0 = e.open_struct(st, v0, t['to'])
                    a = e.alloc(st, t['to'], v0)
                    args.append((Ref(a, (), t['to']), t['to'], v0))
                else:
                    v = e.mat(st, tid, term)
                    args.append((v, tid, v))
                    if t['k'] == 'adt' and t['kind'] == 'struct' and t['crate'] == '_pydantic_core' and isinstance(v, Op):
                        # a struct passed by value owns what its &mut fields point to: give them their memory now
                        for fi in range(len(t['v'][0]['f'])):
                            ft = e.field_ty(tid, 0, fi)
                            if e.types[ft]['k'] == 'ref' and e.types[ft]['m']:
                                x = e.project(st, v, tid, 0, fi)
                                if isinstance(x, Op):
                                    e.deref(st, x, ft)
            p0 = P(e, st, args, self)
            p0.cname = cname
            c.e = e
            g = c.pre(p0)
            if g is not None:
                e.fact(p0.st, g)
            if e.check() != z3.sat:
                self.undecided.append((cname, 'precondition not satisfiable (vacuous contract)'))
                return
            rty = fn['locals'][0]

            def on_return(s, val):
                p = P(e, s, args, self)
                p.cname = cname
                c.ret(p, V(p, val, rty))

            def on_backedge(s, L):
                p = P(e, s, args, self)
                p.cname = cname
                p.L = L
                c.iter(p, L)
            e.on_return, e.on_backedge = on_return, on_backedge
            e.push_fn(st, fn, [a[0] for a in args], None, None)
            e.run(st)
            c.final_ctx = cname
            c.final(self)
        except Lost as x:
            err = f'lost anchor: {x}'
        except Unsupported as x:
            err = f'unsupported: {x}'
        except Budget as x:
            err = f'budget: {x}'
        except (z3.Z3Exception, KeyError, AttributeError, IndexError, TypeError, AssertionError, RecursionError, ValueError) as x:
            err = f'internal: {type(x).__name__}: {x}'
            if self.debug:
                traceback.print_exc()
        e.solver.reset()
        self.functions.append(name)
        self.inlined |= e.inlined
        for a, b in e.externals.items():
            self.externals[a] = self.externals.get(a, 0) + b
        for a, b in e.model_hits.items():
            self.model_hits[a] = self.model_hits.get(a, 0) + b
        self.solver_time += e.solver_time
        self.nchecks += e.nchecks
        self.paths += e.paths
        self.loops += e.loop_info
        if cls.no_panic:
            for path, msg, ln, r, m, trail in e.panics:
                self.record(cname, f'no panic: {msg} in {path.split("::")[-1]}', r, trail, m, '', 0, [])
        for u in sorted(set(e.unsupported)):
            self.undecided.append((cname, 'unsupported: ' + u))
        self.n_loops[cname] = nl = len({(x[0], x[1]) for x in e.loop_info})
        from . import known
        was = known.loops(self.prop, cname)
        why = err or (f'the function has {nl} loops, the contract was written for {was}' if was is not None and was != nl else None)
        if why and any(o[2] == 'bad' for o in self.obl[n0:]):
            # the contract does not fit the shape of the code any more: what it refutes then is not decided
            self.obl[n0:] = [o[:2] + ('tainted',) + o[3:5] + ((o[5] + ' ' if o[5] else '') + why,) + o[6:] if o[2] == 'bad' else o for o in self.obl[n0:]]
            if not err:
                self.undecided.append((cname, 'lost anchor: ' + why))
        if err:
            self.undecided.append((cname, err))
        else:
            got = {o[1] for o in self.obl[n0:]}
            for x in cls.expect:
                if x not in got:
                    self.undecided.append((cname, f'clause "{x}" produced no obligation (vacuous)'))
            if e.paths == 0 and not e.unsupported:
                self.undecided.append((cname, 'no path returns'))
        self.per_fn[cname] = {'paths': e.paths, 'obligations': len(self.obl) - n0, 'secs': round(time.time() - t0, 2), 'checks': e.nchecks,
                              'solver_s': round(e.solver_time, 2)}

    def known_ext(self, callee):
        from . import known
        return known.known(callee)

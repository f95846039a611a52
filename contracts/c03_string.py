"""C03: string validation: strip, then length (in characters) and pattern on the stripped string, then the case change."""
from contracts.common import *

DUMP = {'stop': ['_pydantic_core::build_tools::*', '*SchemaDict*::get_as', '*SchemaDict*::get_as_req', '*EitherString*::as_cow', '*EitherString*::as_py_string',
                 '*ValidationState*::maybe_cached_str', '*ValidationState*::cache_str', '*string::Pattern::*']}
ASSUMPTIONS = ['Input::validate_str returns an arbitrary ValResult (its conversions are C18/C09); str::trim, chars, count, to_lowercase and to_uppercase are the Rust standard functions',
               'Pattern::is_match is a function of the pattern and the string (regex engines are outside the contract; compared with re in the stand-in)']
SV = '_pydantic_core::validators::string::'


def m_strop(c):
    """str::trim / chars / to_lowercase / to_uppercase and Iterator::count over Chars are functions of the string"""
    name = c.path.split('::')[-1]
    if name == 'count':
        v = c.val(0)
        if not isinstance(v, Op):
            return NotImplemented
        n = uf('str.count', Val, z3.IntSort())(v.t)
        c.e.fact(c.st, n >= 0)
        return n
    return c.e.mat(c.st, c.dty, uf('str.' + name, Val, Val)(c.e.term(c.st, c.args[0])))


def m_pystr(c):
    """maybe_cached_str(py, s): a python string equal to s; as_py_string: the python string of the validated value"""
    n = c.path.split('::')[-1]
    return c.e.mat(c.st, c.dty, uf('pystr.' + n, Val, Val)(c.e.term(c.st, c.args[2 if n == 'maybe_cached_str' else 0])))


SMODELS = [(('*<impl str>::trim', '*<impl str>::chars', '*<impl str>::to_lowercase', '*<impl str>::to_uppercase', '*::iterator::Iterator::count'), m_strop),
           (("*ValidationState::<*>::maybe_cached_str", "*EitherString::<*>::as_py_string"), m_pystr),
           (("*ValidationState::<*>::cache_str",), lambda c: c.pure())]


def S(n, t):
    return uf('str.' + n, Val, Val)(t)


@contract('C03', f'<{SV}StrConstrainedValidator as _pydantic_core::validators::Validator>::validate', 'StrConstrained::validate', no_panic=True,
          models=STATE_MODELS + SMODELS,
          expect=('strict and coerce flags', 'accepted => min_length holds for the stripped string', 'accepted => max_length holds for the stripped string',
                  'accepted => pattern matched the stripped string', 'accepted => result is the stripped string with the case change',
                  'a too-short error means too short', 'a too-long error means too long', 'a pattern error means no match'))
class Val_(Contract):
    def ret(self, p, r):
        s = p.arg(0)
        ev = p.ev('*Input::validate_str')
        p.require('strict and coerce flags', AND(p.V(ev.args[1]).eq(p.V(strict_or(p, p.arg(3), s.f('strict')))), p.V(ev.args[2]).eq(s.f('coerce_numbers_to_str'))))
        res = p.V(ev.ret)
        ok, v = ok_of(r)
        if p.holds(res.is_('Err')):
            p.require('conversion error is propagated', AND(NOT(ok), r.as_('Err').eq(res.as_('Err'))))
            return
        es = res.as_('Ok').f(0)
        cowe = p.ev('*as_cow')
        cow = p.V(cowe.ret)
        p.require('the validated string is what is constrained', p.V(cowe.args[0]).eq(es))
        if p.holds(cow.is_('Err')):
            p.require('unicode error is propagated', AND(NOT(ok), r.as_('Err').eq(cow.as_('Err'))))
            return
        raw = cow.as_('Ok').t
        strip, lo, up = s.f('strip_whitespace').z, s.f('to_lower').z, s.f('to_upper').z
        st = z3.If(strip, S('trim', raw), raw)
        n = uf('str.count', Val, z3.IntSort())(S('chars', st))
        mn, mx, pat = s.f('min_length'), s.f('max_length'), s.f('pattern')
        minok = OR(mn.is_('None'), n >= mn.as_('Some').z)
        maxok = OR(mx.is_('None'), n <= mx.as_('Some').z)
        pm = p.ev('*Pattern::is_match')
        matched = None
        if pm is not None:
            m = p.V(pm.ret)
            p.require('the pattern is applied to the stripped string', AND(p.V(pm.args[0]).eq(pat.as_('Some')), p.V(pm.args[2]).t == st))
            matched = AND(m.is_('Ok'), m.as_('Ok').z)
        if p.feasible(ok):
            p.require('accepted => min_length holds for the stripped string', IMP(ok, minok))
            p.require('accepted => max_length holds for the stripped string', IMP(ok, maxok))
            p.require('accepted => pattern matched the stripped string', IMP(ok, pat.is_('None') if matched is None else OR(pat.is_('None'), matched)))
            mc = uf('pystr.maybe_cached_str', Val, Val)
            to = uf('topy', Val, Val)
            want = z3.If(lo, mc(S('to_lowercase', st)), z3.If(up, mc(S('to_uppercase', st)), z3.If(strip, mc(st), uf('pystr.as_py_string', Val, Val)(es.t))))
            p.require('accepted => result is the stripped string with the case change', IMP(ok, OR(v.t == to(want), v.t == want)))
        if p.feasible(NOT(ok)):
            et = single_line_error(p, r)
            if et is None:
                e = r.as_('Err')
                p.require('any other failure is an error raised by the pattern or string machinery', NOT(e.is_('LineErrors')) if pm is None else True)
                return
            for var, bad, fld, b in (('StringTooShort', NOT(minok), 'min_length', mn), ('StringTooLong', NOT(maxok), 'max_length', mx)):
                nm = 'a too-short error means too short' if var == 'StringTooShort' else 'a too-long error means too long'
                if p.feasible(et.is_(var)):
                    p.require(nm, IMP(et.is_(var), AND(bad, et.as_(var, fld).z == b.as_('Some').z)))
            if p.feasible(et.is_('StringPatternMismatch')):
                p.require('a pattern error means no match', IMP(et.is_('StringPatternMismatch'), AND(pat.is_('Some'), False if pm is None else AND(m.is_('Ok'), NOT(m.as_('Ok').z)))))
            p.require('every rejection is one of the declared reasons', et.is_('StringTooShort', 'StringTooLong', 'StringPatternMismatch'))


@contract('C03', f'{SV}StrConstrainedValidator::has_constraints_set', 'StrConstrained::has_constraints_set', expect=('true iff some constraint is set',))
class Has(Contract):
    def ret(self, p, r):
        s = p.arg(0)
        p.require('true iff some constraint is set', r.z == OR(s.f('pattern').is_('Some'), s.f('min_length').is_('Some'), s.f('max_length').is_('Some'),
                                                               s.f('strip_whitespace').z, s.f('to_lower').z, s.f('to_upper').z))


@contract('C03', f'<{SV}StrValidator as _pydantic_core::validators::Validator>::validate', 'Str::validate', no_panic=True, models=STATE_MODELS + SMODELS,
          expect=('strict and coerce flags', 'the validated string is returned unchanged'))
class Plain(Contract):
    def ret(self, p, r):
        s = p.arg(0)
        ev = p.ev('*Input::validate_str')
        p.require('strict and coerce flags', AND(p.V(ev.args[1]).eq(p.V(strict_or(p, p.arg(3), s.f('strict')))), p.V(ev.args[2]).eq(s.f('coerce_numbers_to_str'))))
        res = p.V(ev.ret)
        ok, v = ok_of(r)
        w = uf('pystr.as_py_string', Val, Val)(res.as_('Ok').f(0).t)
        p.require('the validated string is returned unchanged', AND(ok == res.is_('Ok'), IMP(ok, OR(v.t == uf('topy', Val, Val)(w), v.t == w)), IMP(NOT(ok), r.as_('Err').eq(res.as_('Err')))))


@contract('C03', f'{SV}StrConstrainedValidator::build', 'StrConstrained::build',
          expect=('min_length', 'max_length', 'strip_whitespace', 'to_lower', 'to_upper', 'coerce_numbers_to_str', 'pattern'))
class Build(Contract):
    def ret(self, p, r):
        if not p.feasible(r.is_('Ok')):
            return
        s = r.as_('Ok')
        for k in ('min_length', 'max_length', 'strip_whitespace', 'to_lower', 'to_upper'):
            c = [e for e in p.events('*build_tools::schema_or_config') if p.holds(AND(p.V(e.args[2]).eq(k), p.V(e.args[0]).eq(p.arg(0)), p.V(e.args[1]).eq(p.arg(1)))) and p.holds(p.V(e.args[3]).eq('str_' + k))]
            o = [p.V(e.ret).as_('Ok') for e in c]
            p.require(k, OR(*[opt_eq(s.f(k), x) if k.endswith('length') else s.f(k).z == z3.If(x.is_('Some'), x.as_('Some').z, False) for x in o]) if o else False)
        c = [e for e in p.events('*build_tools::schema_or_config_same') if p.holds(AND(p.V(e.args[2]).eq('coerce_numbers_to_str'), p.V(e.args[0]).eq(p.arg(0)), p.V(e.args[1]).eq(p.arg(1))))]
        o = [p.V(e.ret).as_('Ok') for e in c]
        p.require('coerce_numbers_to_str', OR(*[s.f('coerce_numbers_to_str').z == z3.If(x.is_('Some'), x.as_('Some').z, False) for x in o]) if o else False)
        g = [e for e in p.events('*get_as') if p.holds(p.V(e.args[1]).eq('pattern'))]
        pc = p.ev('*Pattern::compile')
        gp = p.V(g[-1].ret).as_('Ok') if g else None
        if pc is None:
            p.require('pattern', AND(gp.is_('None'), s.f('pattern').is_('None')) if g else False)
        else:
            p.require('pattern', AND(gp.is_('Some'), p.V(pc.args[0]).eq(gp.as_('Some')), opt_some(s.f('pattern'), p.V(pc.ret).as_('Ok'))))


def opt_some(o, x):
    return AND(o.is_('Some'), o.as_('Some').eq(x))


@contract('C03', f'<{SV}StrValidator as _pydantic_core::validators::BuildValidator>::build', 'Str::build', stop=[f'{SV}StrConstrainedValidator::*'],
          expect=('unconstrained only when no constraint is set',))
class SBuild(Contract):
    def ret(self, p, r):
        if not p.feasible(r.is_('Ok')):
            return
        b = p.ev('*StrConstrainedValidator::build')
        h = p.ev('*has_constraints_set')
        con = p.V(b.ret).as_('Ok')
        k = r.as_('Ok')
        p.require('unconstrained only when no constraint is set', AND(k.is_('StrConstrained') == p.V(h.ret).z, p.V(h.args[0]).eq(con)))
        if p.holds(k.is_('StrConstrained')):
            p.require('the constrained validator is the one built', k.as_('StrConstrained').eq(con))
        else:
            x = k.as_('Str')
            p.require('flags are kept', AND(x.f('strict').eq(con.f('strict')), x.f('coerce_numbers_to_str').eq(con.f('coerce_numbers_to_str'))))


@contract('C03', "*EitherString::<'a>::as_cow", 'EitherString::as_cow', expect=('a Rust string is itself',))
class AsCow(Contract):
    def ret(self, p, r):
        a = p.arg(0)
        if p.feasible(a.is_('Cow')):
            p.require('a Rust string is itself', IMP(a.is_('Cow'), AND(r.is_('Ok'), r.as_('Ok').eq(a.as_('Cow')))))


@contract('C03', f'{SV}Pattern::is_match', 'Pattern::is_match', expect=('match iff the engine finds the pattern anywhere in the target',))
class IsMatch(Contract):
    def ret(self, p, r):
        s = p.arg(0)
        eng = s.f('engine')
        if p.holds(eng.is_('RustRegex')):
            ev = p.ev('*Regex::is_match')
            p.require('match iff the engine finds the pattern anywhere in the target',
                      AND(p.V(ev.args[0]).eq(eng.as_('RustRegex')), p.V(ev.args[1]).eq(p.arg(2)), r.is_('Ok'), r.as_('Ok').z == p.V(ev.ret).z))
        elif p.feasible(r.is_('Ok')):
            ev = p.ev('*call_method1*')
            p.require('the python pattern is searched for the target', AND(p.V(ev.args[0]).eq(eng.as_('PythonRe')), p.V(ev.args[2]).eq('search')))

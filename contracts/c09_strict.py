"""C09: strict mode narrows, one precedence rule"""
from contracts.common import *
from contracts.fields import is_validate
VS = "_pydantic_core::validators::validation_state::"
ST = VS + "ValidationState::<'a, 'py>::"
V_ = '_pydantic_core::validators::'
VAL = ' as ' + V_ + 'Validator>::validate'
INP = '_pydantic_core::input::'
DUMP = {'stop': ['*ValError::new', '*str_as_*', '*float_as_*', '*int_as_*', '*bytes_as_*', '*decimal_as_int', '*maybe_as_*', '*create_decimal', '*from_attributes_applicable', '*date_as_datetime', '*string_to_complex', '*extract_sequence_iterable',
                 '*date_from_datetime', '*get_url', '*deserialize_string', '*bytearray_to_str', '*py_string_str', '*get_decimal_type', '*upcast', '*extract_i64', '*get_as*', '*build_validator', '*CustomError::build', '*LookupKey::*', '*with_outer_location', '*strict_or']}
ASSUMPTIONS = ['two-run comparison of strict and lax mode: the Python and conversion functions called (extract, isinstance tests, str parsing, create_decimal …) return the same on the same arguments',
               'no object is both text (str/bytes) and convertible with __float__ (a str subclass defining __float__ is outside the statement)']


# ---------------------------------------------------------------- the state
class Opt(Contract):
    FIELD, DEF = None, None

    def ret(self, p, r):
        f = p.arg(0).f('extra', self.FIELD)
        d = p.arg(1)
        p.require('the setting of the call wins', IMP(f.is_('Some'), r.z == f.as_('Some').z))
        p.require('else the setting of the schema', IMP(f.is_('None'), r.z == self.default(d)))

    def default(self, d):
        return d.z


OPT = ('the setting of the call wins', 'else the setting of the schema')
contract('C09', ST + 'strict_or', 'ValidationState::strict_or', expect=OPT)(type('StrictOr', (Opt,), {'FIELD': 'strict'}))


class OptOpt(Opt):
    LAST = None

    def default(self, d):
        return z3.If(d.is_('Some'), d.as_('Some').z, z3.BoolVal(self.LAST))


contract('C09', ST + 'validate_by_alias_or', 'ValidationState::validate_by_alias_or', expect=OPT)(type('ByAlias', (OptOpt,), {'FIELD': 'by_alias', 'LAST': True}))
contract('C09', ST + 'validate_by_name_or', 'ValidationState::validate_by_name_or', expect=OPT)(type('ByName', (OptOpt,), {'FIELD': 'by_name', 'LAST': False}))


@contract('C09', ST + 'floor_exactness', 'ValidationState::floor_exactness', expect=('the exactness becomes the minimum',))
class Floor(Contract):
    def ret(self, p, r):
        o, n, b = p.arg(0).f('exactness'), p.arg_now(0).f('exactness'), p.arg(1)
        ra, rb, rn = exactness_rank(o.as_('Some')), exactness_rank(b), exactness_rank(n.as_('Some'))
        p.require('an untracked exactness stays untracked', o.is_('Some') == n.is_('Some'))
        p.require('the exactness becomes the minimum', IMP(o.is_('Some'), rn == z3.If(ra <= rb, ra, rb)))


@contract('C09', ST + 'add_fields_set', 'ValidationState::add_fields_set', expect=('the count grows by n',))
class AddFields(Contract):
    def pre(self, p):
        o = p.arg(0).f('fields_set_count')
        self.e.fact(p.st, AND(IMP(o.is_('Some'), o.as_('Some').z < 2 ** 40), p.arg(1).z < 2 ** 40))

    def ret(self, p, r):
        o, n = p.arg(0).f('fields_set_count'), p.arg_now(0).f('fields_set_count')
        p.require('the count grows by n', AND(n.is_('Some'), n.as_('Some').z == z3.If(o.is_('Some'), o.as_('Some').z, 0) + p.arg(1).z))


@contract('C09', '<' + VS + "ValidationStateWithReboundExtra<*> as *Drop>::drop", 'ReboundExtra::drop', expect=('leaving the scope restores the settings',))
class Restore(Contract):
    def ret(self, p, r):
        p.require('leaving the scope restores the settings', p.arg_now(0).f('state').f('extra').eq(p.arg(0).f('old_extra')))


# ---------------------------------------------------------------- schema and config
@contract('C09', '_pydantic_core::build_tools::schema_or_config', 'schema_or_config', stop=('*get_as',), expect=('the schema wins over the config', 'the config is read when the schema has no setting'))
class SchemaOrConfig(Contract):
    def ret(self, p, r):
        g = p.events('*get_as')
        if not g:
            raise Lost('reads of schema and config')
        first = g[0]
        ok, cfg = p.arg(0), p.arg(1)
        p.require('the schema is read first, with its key', AND(p.V(first.args[0]).eq(ok), p.V(first.args[1]).eq(p.arg(2))))
        x = p.V(first.ret)
        some = AND(x.is_('Ok'), x.as_('Ok').is_('Some'))
        p.require('the schema wins over the config', IMP(some, AND(r.is_('Ok'), r.as_('Ok').is_('Some'), r.as_('Ok').as_('Some').eq(x.as_('Ok').as_('Some')))))
        p.require('an unreadable setting is an error', IMP(x.is_('Err'), r.is_('Err')))
        none = AND(x.is_('Ok'), x.as_('Ok').is_('None'))
        if p.feasible(none):
            if len(g) == 2:
                p.require('the config is read when the schema has no setting', AND(p.V(g[1].args[0]).eq(cfg.as_('Some')), p.V(g[1].args[1]).eq(p.arg(3)), cfg.is_('Some'), r.t == p.V(g[1].ret).t))
            else:
                p.require('without config there is no setting', IMP(none, AND(cfg.is_('None'), r.is_('Ok'), r.as_('Ok').is_('None'))))


@contract('C09', '_pydantic_core::build_tools::schema_or_config_same', 'schema_or_config_same', stop=('*build_tools::schema_or_config',), expect=('both are read with the same key',))
class SchemaOrConfigSame(Contract):
    def ret(self, p, r):
        g = p.events('*build_tools::schema_or_config')
        if len(g) != 1:
            raise Lost('schema_or_config')
        a = [p.V(x) for x in g[0].args]
        p.require('both are read with the same key', AND(a[0].eq(p.arg(0)), a[1].eq(p.arg(1)), a[2].eq(p.arg(2)), a[3].eq(p.arg(2)), r.t == p.V(g[0].ret).t))


@contract('C09', '_pydantic_core::build_tools::is_strict', 'is_strict', stop=('*build_tools::schema_or_config_same', '*build_tools::schema_or_config'), expect=('strict comes from the schema or the config, default lax',))
class IsStrict(Contract):
    def ret(self, p, r):
        g = p.events('*build_tools::schema_or_config_same', '*build_tools::schema_or_config')
        if len(g) != 1:
            raise Lost('schema_or_config')
        a = [p.V(x) for x in g[0].args]
        x = p.V(g[0].ret)
        o = x.as_('Ok')
        p.require('strict comes from the schema or the config, default lax', AND(a[0].eq(p.arg(0)), a[1].eq(p.arg(1)), *[k.eq('strict') for k in a[2:]],
                  x.is_('Ok') == r.is_('Ok'), IMP(r.is_('Ok'), r.as_('Ok').z == z3.If(o.is_('Some'), o.as_('Some').z, False))))


# ---------------------------------------------------------------- validators ask with strict_or(self.strict)
SO = '*ValidationState*::strict_or'


class Asks(Contract):
    """every Input::validate_* call of the validator is made with the call's strictness, else the schema's"""
    METH = ()
    FIELD = 'strict'

    def want(self, p):
        return strict_or(p, p.arg(3), p.arg(0).f(self.FIELD))

    def ret(self, p, r):
        evs = [ev for ev in p.st.events if ev.name.startswith(INP + 'input_abstract::Input::validate_') and ev.name.split('::')[-1] in self.METH and p.holds(p.V(ev.args[0]).eq(p.arg(2)))]
        for ev in evs:
            p.require('the input is asked with the strictness in force', p.V(ev.args[1]).z == self.want(p))

    iter = lambda self, p, L: None


def m_ask(c):
    """Input::validate_*: only the question matters here, so the answer is an arbitrary error (what happens with an accepted value is not part of this contract)"""
    if c.dty is None:
        return NotImplemented
    r = c.fresh('ask')
    c.event(r)
    c.e.fact(c.st, V(P(c.e, c.st, [], None), r, c.dty).is_('Err'))
    return r


ASK = [((INP + 'input_abstract::Input::validate_*',), m_ask)]


def asks(fn, title, *meth):
    contract('C09', fn, title, models=ASK + STATE_MODELS, optional=True, expect=('the input is asked with the strictness in force',))(type('Asks', (Asks,), {'METH': meth}))


for mod, ty, meth in (('bool', 'BoolValidator', 'validate_bool'), ('bytes', 'BytesValidator', 'validate_bytes'), ('bytes', 'BytesConstrainedValidator', 'validate_bytes'), ('complex', 'ComplexValidator', 'validate_complex'),
                      ('date', 'DateValidator', 'validate_date'), ('datetime', 'DateTimeValidator', 'validate_datetime'), ('decimal', 'DecimalValidator', 'validate_decimal'), ('dict', 'DictValidator', 'validate_dict'),
                      ('float', 'FloatValidator', 'validate_float'), ('float', 'ConstrainedFloatValidator', 'validate_float'), ('frozenset', 'FrozenSetValidator', 'validate_frozenset'), ('int', 'IntValidator', 'validate_int'),
                      ('int', 'ConstrainedIntValidator', 'validate_int'), ('list', 'ListValidator', 'validate_list'), ('set', 'SetValidator', 'validate_set'), ('string', 'StrValidator', 'validate_str'),
                      ('string', 'StrConstrainedValidator', 'validate_str'), ('time', 'TimeValidator', 'validate_time'), ('timedelta', 'TimeDeltaValidator', 'validate_timedelta'), ('tuple', 'TupleValidator', 'validate_tuple'),
                      ('typed_dict', 'TypedDictValidator', 'validate_dict'), ('model_fields', 'ModelFieldsValidator', 'validate_model_fields')):
    asks('<' + V_ + mod + '::' + ty + VAL, ty + '::validate', meth)


# ---------------------------------------------------------------- the conversion table of the two runs
def m_pure(c):
    if c.dty is None:
        return NotImplemented
    return c.pure(log=True)


PURE = [(('pyo3::types::any::PyAnyMethods::extract', 'pyo3::types::any::PyAnyMethods::str', 'pyo3::types::any::PyAnyMethods::getattr', INP + 'input_python::maybe_as_string', INP + 'input_python::maybe_as_enum', INP + 'shared::*', INP + 'input_python::*_as_*',
          INP + 'datetime::*_as_*', '*::create_decimal', '*get_decimal_type', '*py_string_str', '*EitherInt::*upcast', '*extract_i64', '*string_to_complex', '*extract_sequence_iterable', '*deserialize_string', '*bytearray_to_str', '*from_attributes_applicable',
          '*ToPrimitive::to_f64', '*GenericPyMapping*', '*is_deque', '*downcast_python_input'), m_pure)]


def atoms(p):
    """type tests decided on this path: [(name, boolean term)] applied to the input"""
    out, seen = [], set()

    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().name().startswith('pure:') and t.num_args() >= 1:
            b = None
            if t.sort() == z3.BoolSort():
                b = t
            elif 'is_instance' in t.decl().name() or 'is_exact_instance' in t.decl().name():
                b = uf('val.bool', Val, z3.BoolSort())(t)
            if b is not None:
                out.append((t.decl().name() + ' ' + ' '.join(str(t.arg(i)) for i in range(t.num_args())), b))
        if z3.is_app(t) and t.decl().name() == 'val.bool' and t.arg(0).decl().name().startswith('fld:') and 'instance' in str(t.arg(0)):
            x = t.arg(0).arg(0)
            out.append((x.decl().name() + ' ' + ' '.join(str(x.arg(i)) for i in range(x.num_args())), t))
        for k in t.children():
            walk(k)
    for a in p.e.solver.assertions():
        walk(a)
    return out


class TwoRuns(Contract):
    TYPES = None        # regex of the type tests one of which must have succeeded in strict mode (python)
    VARIANTS = None     # JSON: the variants strict mode accepts
    MATCH = True        # the result is a ValidationMatch

    def __init__(self):
        self.runs, self.tests, self.texts, self.floats = [], {}, {}, {}

    def ret(self, p, r):
        for n, b in atoms(p):
            self.tests[b.get_id()] = (n, b)
        for ev in p.st.events:
            if ev.ret is None:
                continue
            x = p.V(ev.ret)
            if ev.name.endswith('maybe_as_string'):
                self.texts[x.t.get_id()] = AND(x.is_('Ok'), x.as_('Ok').is_('None'))
            if ev.name.endswith('::extract') and 'f64' in p.e.types[x.ty]['s']:
                self.floats[x.t.get_id()] = x.is_('Ok')
        s = p.arg(1).z
        ok = r.is_('Ok')
        if not p.feasible(ok):
            return
        pc = AND(*p.e.solver.assertions(), ok)
        self.runs.append((list(p.st.trail), pc, r.as_('Ok').t, s))
        if p.feasible(AND(ok, s)):
            if self.TYPES is not None:
                at = [b for n, b in atoms(p) if re.search(self.TYPES, n)]
                p.require('strict mode accepts only the target type', IMP(AND(ok, s), OR(*at) if at else False))
            if self.VARIANTS is not None:
                p.require('strict mode accepts only the JSON form of the type', IMP(AND(ok, s), p.arg(0).is_(*self.VARIANTS)))
            if self.MATCH:
                x = r.as_('Ok').f(1)
                p.require('what strict mode accepts is not marked lax', IMP(AND(ok, s), NOT(x.is_('Lax'))))
        if self.MATCH and p.feasible(AND(ok, NOT(s))):
            self.runs[-1] += (r.as_('Ok').f(1).is_('Lax'),)
        self.p = p

    def axioms(self):
        dec = [b for n, b in self.tests.values() if 'get_decimal_type' in n]
        other = [b for n, b in self.tests.values() if 'PyString' in n or 'PyInt' in n or 'PyFloat' in n or 'PyLong' in n]
        def const_only(t):
            return all(const_only(k) for k in t.children()) if t.children() else (z3.is_int_value(t) or t.decl().name().startswith('const:'))
        consts = {c.get_id(): c for _, pc, *_2 in self.runs for c in pc.children() if const_only(c)}      # facts about named constants
        return list(consts.values()) + [IMP(f, t) for f in self.floats.values() for t in self.texts.values()] + [NOT(AND(a, b)) for a in dec for b in other]

    def final(self, k):
        # what strict accepts, lax accepts with the same value
        for trail, pc, t, s, *_ in self.runs:
            alts = []
            for tr2, pc2, t2, s2, *_2 in self.runs:
                alts.append(z3.And(z3.substitute(pc2, (s2, z3.BoolVal(False))), t == t2))
            self.ask(k, 'lax mode accepts it with the same value', trail, [pc, s] + self.axioms() + [z3.Not(z3.Or(*alts))])
        for trail, pc, t, s, *lax in self.runs:
            if lax:
                alts = [z3.substitute(pc2, (s2, z3.BoolVal(True))) for tr2, pc2, t2, s2, *_2 in self.runs]
                self.ask(k, 'what strict mode rejects is marked lax', trail, [pc, z3.Not(s), z3.Not(lax[0])] + self.axioms() + [z3.Not(z3.Or(*alts))])
        self.runs = []

    def ask(self, k, name, trail, cs):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*cs)
        c = s.check()
        r = 'ok' if c == z3.unsat else 'bad' if c == z3.sat else 'unknown'
        k.record(self.final_ctx, name, r, trail, str(s.model())[:600] if c == z3.sat else '', '', 0, [])


TWO = ('lax mode accepts it with the same value',)


def two(kind, meth, **kw):
    fn = {'python': '_pydantic_core::input::input_python::*Input*::', 'json': '_pydantic_core::input::input_json::*Input*for jiter*JsonValue*::', 'str': '_pydantic_core::input::input_json::*Input*for str*::'}[kind] + meth
    contract('C09', fn, kind + ' ' + meth, models=PURE + STATE_MODELS, expect=TWO)(type('TwoRuns', (TwoRuns,), kw))


for m, t in (('str', 'PyString'), ('bytes', 'PyBytes'), ('bool', 'PyBool'), ('int', 'PyInt'), ('float', None), ('decimal', 'is_(exact_)?instance.*get_decimal_type'), ('list', None), ('tuple', None), ('set', None), ('frozenset', None), ('date', None), ('time', None),
             ('datetime', None), ('timedelta', None), ('complex', 'PyComplex')):
    two('python', 'validate_' + m, TYPES=t)
for m, v in (('str', ['Str']), ('bytes', ['Str']), ('bool', ['Bool']), ('int', ['Int', 'BigInt']), ('float', ['Float', 'Int', 'BigInt']), ('decimal', ['Float', 'Str', 'Int', 'BigInt']), ('list', ['Array']), ('tuple', ['Array']), ('set', ['Array']),
             ('frozenset', ['Array']), ('date', ['Str']), ('time', ['Str']), ('datetime', ['Str']), ('timedelta', ['Str']), ('complex', ['Str'])):
    two('json', 'validate_' + m, VARIANTS=v)
two('json', 'validate_dict', VARIANTS=['Object'], MATCH=False)


# ---------------------------------------------------------------- the date fallback, url, enum, dataclass
@contract('C09', '<' + V_ + 'date::DateValidator' + VAL, 'DateValidator::validate fallback', models=ASK + STATE_MODELS, stop=('*date_from_datetime',), expect=('strict mode does not read dates out of datetimes',))
class DateFallback(Contract):
    def ret(self, p, r):
        ev = p.events('*date_from_datetime')
        p.require('strict mode does not read dates out of datetimes', IMP(strict_or(p, p.arg(3), p.arg(0).f('strict')), len(ev) == 0))


class AskUrl(Contract):
    def ret(self, p, r):
        ev = p.events('*get_url')
        if len(ev) != 1:
            raise Lost('get_url')
        p.require('the input is asked with the strictness in force', p.V(ev[0].args[-1]).z == strict_or(p, p.arg(3), p.arg(0).f('strict')))


def m_err(c):
    r = c.fresh('ask')
    c.event(r)
    c.e.fact(c.st, V(P(c.e, c.st, [], None), r, c.dty).is_('Err'))
    return r


for t in ('UrlValidator', 'MultiHostUrlValidator'):
    contract('C09', '<' + V_ + 'url::' + t + VAL, t + '::validate', models=[(('*get_url',), m_err)] + STATE_MODELS, stop=('*get_url',), expect=('the input is asked with the strictness in force',))(type('AskUrl', (AskUrl,), {}))

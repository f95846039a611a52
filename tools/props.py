"""writes properties.jsonl"""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe or ['SchemaValidator.validate_python / validate_json / validate_strings'], 'hook_needed': None}})


I, CFG, H = 'inputs', 'configurations', 'histories'

p('C01', 'Integer validation enforces every declared bound exactly',
  'An integer schema accepts a value that converts to an integer exactly when that integer satisfies every declared bound (greater/less than, inclusive or not, multiple-of), for integers of any size in any combination of machine-sized and arbitrary-precision values and bounds. An accepted value is the converted integer unchanged; a rejected one reports the kind and the value of a bound that is really violated, and no combination of value and bounds makes validation panic.',
  [I, CFG], 'every integer value (unbounded), every subset and value of the five bounds, python / JSON / string input',
  'tests sample a few small values and bounds; the representation switches at 64-bit limits and the bounds combine freely',
  ['src/validators/int.rs', 'src/input/return_enums.rs'],
  [('bound checks in order', 'src/validators/int.rs ConstrainedIntValidator::validate'), ('exact comparison and remainder across representations', 'src/input/return_enums.rs Int')])

p('C02', 'Float validation enforces bounds and the finite-only switch exactly',
  'A float schema accepts a value that converts to a float exactly when it satisfies every declared bound and, where infinities and NaN are disallowed, is finite; NaN satisfies none of the four ordering bounds. Multiple-of holds when the value differs from the nearest multiple by at most the fixed tolerance 1e-9; accepted values are returned unchanged and each rejection reports a bound that is really violated.',
  [I, CFG], 'every IEEE double incl. infinities, NaN, signed zero, subnormals; every subset of bounds; allow_inf_nan on/off at field and config level; strict and lax',
  'the double space and the combinations of bounds are only sampled at ordinary values',
  ['src/validators/float.rs'], [('bound checks', 'src/validators/float.rs ConstrainedFloatValidator::validate'), ('finite check', 'src/validators/float.rs FloatValidator::validate')])

p('C03', 'String constraints measure characters of the stripped string',
  'A string schema first strips surrounding whitespace if configured, then accepts exactly the strings whose number of Unicode characters (after stripping) lies within the declared minimum and maximum length and in which the declared pattern is found; field-level settings win over configuration-level ones. The returned string is the stripped input with the configured lower- or upper-casing applied last (lower-casing wins when both are set), and a length error reports the declared limit.',
  [I, CFG], 'all Unicode strings (multi-byte, combining, astral), all combinations of strip / case / min / max / pattern / config settings, str subclasses, bytes in lax mode',
  'tests use short ASCII strings; byte length, character length and order of steps agree there',
  ['src/validators/string.rs'], [('transform then check', 'src/validators/string.rs StrConstrainedValidator::validate'), ('config fallback', 'src/build_tools.rs schema_or_config_same')])

p('C04', 'Collection length limits are exact for every collection kind',
  'Lists, tuples, sets, frozensets, dicts, bytes and generators with a declared minimum or maximum size are accepted exactly when the size of the produced collection is within the limits; the error names the declared limit. Length limits of sets count distinct elements, omitted elements do not count, and validation of an over-long lazy input stops without consuming an unbounded amount of it.',
  [I, CFG], 'every input kind (list, tuple, set, dict views, generators, JSON arrays), every size around the limits, infinite generators',
  'tests sample sizes 0..4 for list-like inputs; limits interact with iteration, omission, deduplication and fail-fast',
  ['src/validators/list.rs', 'src/validators/set.rs', 'src/validators/frozenset.rs', 'src/validators/tuple.rs', 'src/validators/dict.rs', 'src/validators/bytes.rs', 'src/validators/generator.rs', 'src/input/return_enums.rs'],
  [('min length', 'src/input/return_enums.rs / src/validators/list.rs min_length_check!'), ('max length', 'src/input/return_enums.rs MaxLengthCheck'), ('set size', 'src/input/return_enums.rs validate_iter_to_set')])

p('C05', 'Collections are validated element by element, in order, with exact positions',
  'Validating a sequence or mapping validates every element exactly once with its item schema and returns the validated elements in input order in a collection of the declared kind. Every failing element is reported, in order, under its own index or key (all of them unless a length limit is exceeded, or only the first when fail-fast is set), elements whose validator asks to be omitted are left out, and no element is validated against another position\'s schema.',
  [I, CFG, H], 'collections of any length and content, any item schema, fixed and variadic tuples, fail-fast on and off, python and JSON input',
  'the guarantee is per element for unbounded lengths; tests use collections of two or three elements',
  ['src/validators/list.rs', 'src/validators/tuple.rs', 'src/validators/set.rs', 'src/validators/dict.rs', 'src/input/return_enums.rs'],
  [('element loop', 'src/input/return_enums.rs validate_iter_to_vec'), ('positional loop', 'src/validators/tuple.rs'), ('key/value loop', 'src/validators/dict.rs')])

p('C06', 'Cyclic input is detected exactly, and earlier validations leave no trace',
  'Validating self-referencing data against a recursive schema terminates with a recursion error and never exhausts the stack, while data that merely repeats the same object without being inside itself validates normally. The outcome of a validation never depends on validations made before with the same validator, whether those succeeded, failed, hit a cycle or raised.',
  [I, H], 'all object graphs (trees, shared subtrees, cycles of any length through lists, dicts, models), all sequences of validations on one validator, failures at any depth',
  'tests contain a few fixed cycles; state left behind on an error path shows only in a later call or a sibling field',
  ['src/recursion_guard.rs', 'src/validators/definitions.rs', 'src/serializers/extra.rs'],
  [('guard insert/remove around recursion', 'src/recursion_guard.rs RecursionGuard::new / Drop'), ('recursive reference', 'src/validators/definitions.rs DefinitionRefValidator::validate')])

p('C07', 'Union validation picks the documented member and reports all failures otherwise',
  'A union succeeds exactly when some member accepts the input: left-to-right mode returns the result of the first accepting member, smart mode returns that of a member accepting with the highest exactness (for model-like members, the most fields set first), earlier members winning ties (an exact match by a member without fields ends the search). If every member rejects, the error contains the errors of every member labelled by member, and a rejected attempt leaves no effect on the outcome of later ones.',
  [I, CFG, H], 'all inputs, all lists of members in all orders, both modes, strict on/off, nested unions',
  'which member wins depends on relations between members; tests enumerate a few combinations of scalar members',
  ['src/validators/union.rs', 'src/validators/validation_state.rs'],
  [('smart selection', 'src/validators/union.rs UnionValidator::validate_smart'), ('left to right', 'src/validators/union.rs UnionValidator::validate_left_to_right')])

p('C08', 'Tagged unions dispatch on the discriminator only',
  'A tagged union validates the input with exactly the member registered for its discriminator value, whether that is found by field name, alias path or function, and never tries another one. A missing discriminator, an unknown value and a member failure are reported as such, with the chosen tag in the error location, and inputs whose discriminator equals a registered one under the documented loose comparison select the same member.',
  [I, CFG], 'all inputs, all tag sets (strings, ints, enums), discriminators by key, path list and callable, python and JSON',
  'tests cover a few tags; wrong dispatch needs particular combinations of tags, aliases and input kinds',
  ['src/validators/union.rs', 'src/validators/literal.rs'], [('dispatch', 'src/validators/union.rs TaggedUnionValidator::validate / find_call_validator'), ('tag lookup', 'src/validators/literal.rs LiteralLookup')])

p('C09', 'Strict mode only ever narrows what is accepted, with one precedence rule',
  'For every scalar or container schema and input, whatever strict mode accepts lax mode also accepts with the same value, and strict mode accepts only inputs already of the target type (subclasses and, for float, numbers convertible with __float__ included; for JSON, the JSON form of the type). Strictness is taken from the call if given, else from the schema, else from the configuration in scope (a model, dataclass or typed dict brings its own), at every depth. Schemas that choose by mode (lax-or-strict, unions) choose again per mode.',
  [I, CFG], 'all scalar and container schemas, inputs of every type, the 3x3x3 settings of call/schema/config strictness, nesting',
  'the implication is over all inputs and settings; tests check single points of the conversion table',
  ['src/validators/validation_state.rs', 'src/build_tools.rs', 'src/input/input_python.rs', 'src/input/input_json.rs', 'src/input/input_string.rs'],
  [('precedence', 'src/validators/validation_state.rs strict_or; src/build_tools.rs is_strict'), ('exactness floor', 'src/validators/validation_state.rs floor_exactness'), ('conversions', 'src/input/*.rs validate_*')])

p('C10', 'Defaults are used exactly where the input gives no value, fresh each time',
  'A default is used only when a value is absent (or when validation fails and the schema says to fall back, or the error handling says to omit), is validated only when asked to be, and is a factory result or, for unhashable (mutable) defaults, a fresh deep copy, so that mutating one result never changes another; a default that is itself invalid never makes validation loop or crash. Otherwise the outcome is that of the inner schema, and in omit mode the item is left out entirely.',
  [I, CFG, H], 'all on-error modes, static / factory / factory-with-data defaults, mutable defaults over sequences of validations, nesting in fields, lists, dicts, arguments',
  'aliasing shows only over several validations; tests validate once',
  ['src/validators/with_default.rs', 'src/validators/model_fields.rs', 'src/validators/typed_dict.rs', 'src/validators/arguments.rs'],
  [('fallback', 'src/validators/with_default.rs WithDefaultValidator::validate'), ('copy/factory', 'src/validators/with_default.rs default_value / DefaultType::default_value')])

p('C11', 'Wrapping schemas compose their inner schemas exactly as documented',
  'Nullable accepts None and otherwise equals its inner schema; a chain feeds each step the previous result and fails at the first failing step; lax-or-strict and json-or-python delegate to exactly one inner schema chosen by the mode; before/after/wrap/plain functions run in the documented order, exactly once, on the documented value. Value errors and assertion errors raised by user functions become validation errors at the right location, other exceptions propagate unchanged, and a custom-error schema replaces the error and nothing else.',
  [I, CFG], 'all inputs and inner schemas, all exceptions raised by user functions, strict/lax, python/JSON, any nesting',
  'composition is over arbitrary nestings and inner outcomes',
  ['src/validators/nullable.rs', 'src/validators/chain.rs', 'src/validators/lax_or_strict.rs', 'src/validators/json_or_python.rs', 'src/validators/function.rs', 'src/validators/custom_error.rs', 'src/validators/json.rs'],
  [('dispatch', 'validate() of each wrapper'), ('exception conversion', 'src/validators/function.rs convert_err')])

p('C12', 'Model fields: exact names, required, extra and set-tracking semantics',
  'Validating fields looks each field up under exactly the names its alias and the by-alias/by-name settings allow, validates each field once, reports every missing required field and every failing field under its location, and treats every other key as the extra behaviour says (ignored, forbidden with an error each, or validated and kept). The reported set of explicitly set fields is exactly the fields and kept extras present in the input.',
  [I, CFG], 'all field/alias layouts, any input mapping or object, extra ignore/allow/forbid, by_alias/by_name combinations, from_attributes',
  'field layouts, aliases colliding with names, and extras combine; tests use fixed small models',
  ['src/validators/model_fields.rs', 'src/lookup_key.rs'],
  [('field loop', 'src/validators/model_fields.rs ModelFieldsValidator::validate'), ('extra handling', 'src/validators/model_fields.rs ModelFieldsValidator::validate')])

p('C13', 'Alias paths resolve to the first alternative that exists',
  'Looking a field up by alias returns the value at the first of the given alternative paths that fully resolves in the input and is reported missing when none does; path steps index mappings by string key and sequences by non-negative or negative integer, strings are never indexed, and errors raised under a found value are located at the path that was used (or the field name, as configured). JSON, Python mapping and attribute inputs resolve the same paths.',
  [I, CFG], 'all path lists (strings and integers of any sign), all nested inputs in python / JSON / attribute form, duplicate JSON keys',
  'the path language is recursive and the inputs unbounded; tests use two-step paths',
  ['src/lookup_key.rs'], [('path walk', 'src/lookup_key.rs LookupKey::py_get_dict_item / py_get_attr / json_get'), ('location', 'src/lookup_key.rs LookupPath::apply_error_loc')])

p('C14', 'Assignment validation changes one field or nothing',
  'Validating an assignment validates only the assigned field with its own schema, returns all other fields unchanged, adds the field to the set fields, and a failing validation leaves the model or dataclass exactly as it was (fields, extras, other attributes and set fields). Assigning to a frozen field or model always fails with the frozen error, and assigning an unknown field follows the extra behaviour.',
  [I, CFG, H], 'all field schemas, assigned values and sequences of assignments, frozen model/field flags, extra behaviours, models, root models, model-fields and dataclasses (validators wrapped around the whole model run on the updated model, and are outside)',
  'partial update on an error path shows only by inspecting the object after failure',
  ['src/validators/model.rs', 'src/validators/model_fields.rs', 'src/validators/dataclass.rs'],
  [('assignment', 'src/validators/model.rs ModelValidator::validate_assignment'), ('field assignment', 'src/validators/model_fields.rs / src/validators/dataclass.rs validate_assignment')],
  ['SchemaValidator.validate_assignment'])

p('C15', 'Include and exclude filters select exactly the requested parts',
  'Serialization with include/exclude arguments (sets, nested mappings, integer and negative indices, the all-items key) outputs exactly the fields, keys and items that are included and not excluded, at every depth, combined with the filters declared in the schema (an item named by a call-time include is kept even if the schema filter would drop it); exclude wins over include, and a whole-item entry for a key goes before the all-items entry. The output for everything kept is identical to the unfiltered output, in python and JSON modes.',
  [I, CFG], 'all nested values and all nested include/exclude structures, schema-level filters, list / tuple / dict / model / typed-dict containers',
  'the filter language is recursive with special keys; tests cover fixed shapes',
  ['src/serializers/filter.rs', 'src/serializers/fields.rs', 'src/serializers/type_serializers/list.rs', 'src/serializers/type_serializers/dict.rs', 'src/serializers/type_serializers/tuple.rs'],
  [('filter decision', 'src/serializers/filter.rs filter_logic'), ('index/key filters', 'src/serializers/filter.rs SchemaFilter')],
  ['SchemaSerializer.to_python / to_json'])

p('C16', 'Serializing cyclic data raises, repeated data does not, without residue',
  'Serializing a value that contains itself never overflows the stack or loops, for every container kind, as a value or as a key, in both output modes: it raises the circular-reference error (inference in python mode returns the repeated object itself, and with serialize_unknown JSON writes "..."). A value that merely occurs several times serializes normally each time. A serialization that failed leaves no trace in later ones, and lazily serialized iterators and the handlers of wrap serializers report only the warnings of their own call.',
  [I, H], 'all object graphs through lists, tuples, dicts, models, dataclasses, any-schemas and recursive schemas; sequences of serializations',
  'tests contain a few fixed cycles',
  ['src/serializers/extra.rs', 'src/recursion_guard.rs', 'src/serializers/infer.rs', 'src/serializers/type_serializers/definitions.rs'],
  [('guard', 'src/serializers/extra.rs Extra::recursion_guard; src/recursion_guard.rs'), ('inference', 'src/serializers/infer.rs')],
  ['SchemaSerializer.to_python / to_json, to_json, to_jsonable_python'])

p('C17', 'Field serialization drops and renames exactly as requested',
  'Serializing models and typed dicts outputs every field in order except those excluded, equal to None under exclude-none, unset under exclude-unset (models), or equal to their default under exclude-defaults; extras and computed fields follow the same rules where they apply, and keys are aliases exactly when by-alias is in effect. Where a value is checked against the schema (as a member of a union), a required field absent from the data, or an unexpected one, is reported and never silently replaced.',
  [I, CFG], 'all field layouts, values and option combinations, python and JSON modes',
  'options combine; tests check them one at a time',
  ['src/serializers/fields.rs', 'src/serializers/computed_fields.rs', 'src/serializers/type_serializers/model.rs'],
  [('field loop', 'src/serializers/fields.rs main_to_python / main_serde_serialize'), ('defaults', 'src/serializers/fields.rs exclude_default'), ('aliases', 'src/serializers/fields.rs SerField::get_key_py')],
  ['SchemaSerializer.to_python / to_json'])

p('C18', 'Numeric and boolean coercion never changes a value',
  'Lax conversion to int, float or bool accepts only inputs whose mathematical value is representable and unchanged: floats with a fractional part, non-finite floats and non-integral decimals are never accepted as ints, an accepted numeric string denotes exactly the integer it spells (a sign, digits, single underscores, trailing zeros of the fraction and surrounding space as documented) or, for floats, what float() reads, numbers become the nearest float as float() gives it, integers of any size survive, and only the documented words and the numbers 0 and 1 are booleans. An enum member is an int only when its value is one. Python str and bytes, JSON and string inputs agree on every spelling they share.',
  [I], 'all ints, floats, decimals and strings, python / JSON / string input',
  'corner values (2**63, -2**63, huge decimals, underscores, signs, exponent forms, non-ASCII digits) are sampled only thinly',
  ['src/input/shared.rs', 'src/input/input_python.rs', 'src/input/input_json.rs', 'src/input/input_string.rs', 'src/input/return_enums.rs'],
  [('int conversions', 'src/input/shared.rs str_as_int / float_as_int / decimal_as_int'), ('bool conversions', 'src/input/shared.rs str_as_bool / int_as_bool')])

p('C19', 'Date and time conversions preserve the instant they denote',
  'Dates, times, datetimes and durations validated from Python objects, numbers or ISO strings denote exactly the instant, wall time or length the input spells (to the microsecond, unit chosen by the documented watershed for numbers), out-of-range values are rejected rather than wrapped, and a datetime becomes a date only at midnight. UTC-offset objects returned obey equality/hash consistency and the offset they were built from, including copying and pickling.',
  [I], 'all timestamps as ints and floats (negative, fractional, huge), ISO strings with any offset, python temporal objects, timedelta of any size',
  'ranges and roundings have many boundaries; tests check isolated examples',
  ['src/input/datetime.rs', 'src/validators/date.rs', 'src/validators/datetime.rs', 'src/validators/timedelta.rs', 'src/validators/time.rs'],
  [('numeric timestamps', 'src/input/datetime.rs int_as_datetime / float_as_datetime / int_as_time'), ('durations', 'src/input/datetime.rs int_as_duration / float_as_duration'), ('offset object', 'src/input/datetime.rs TzInfo')])

p('C20', 'Errors report every failure once, exactly located, in consistent renderings',
  'A validation error lists each failure once, with a location that names the path from the root to the failing value, the failing input, and a message built from its own context; the count equals the number of listed errors, the list, JSON and text renderings agree, and the error survives pickling. Including or hiding URL, context or input changes only those parts.',
  [I, CFG], 'all nested schemas and inputs, all rendering options, custom errors and messages, any value as input',
  'locations are compositional; tests check fixed depth and kinds',
  ['src/errors/location.rs', 'src/errors/line_error.rs', 'src/errors/validation_exception.rs', 'src/errors/types.rs'],
  [('location building', 'src/errors/location.rs Location::with_outer'), ('rendering', 'src/errors/validation_exception.rs'), ('messages', 'src/errors/types.rs')],
  ['ValidationError.errors / json / str / error_count'])

p('C21', 'Typed dicts contain exactly the declared and permitted keys',
  'Validating a typed dict returns a dict with exactly the declared fields that are present or have defaults plus permitted extras, under their field names, requires exactly the required ones, and reports every missing, failing or forbidden key under its location. The input mapping is never modified.',
  [I, CFG], 'all field layouts (required / optional / default / alias), total settings, extra behaviours, inputs as dict / mapping / JSON',
  'layouts and extras combine', ['src/validators/typed_dict.rs'], [('field loop', 'src/validators/typed_dict.rs TypedDictValidator::validate')])

p('C22', 'Call arguments and dataclass arguments bind as a Python call would',
  'Validating call arguments binds positional and keyword inputs to parameters exactly as a Python call of that signature would (positional-only, keyword-only, variadic, defaults, aliases), validates each bound value once with its own schema, and reports every missing, unexpected, duplicate or failing argument (a duplicate under the name of the parameter). Dataclass construction follows the same binding, with fields that cannot be given positionally taking no position, and never assigns a value to another field.',
  [I, CFG], 'all signatures and all combinations of positional and keyword inputs, extra behaviours, aliases; outside: arguments-v3 schemas',
  'the number of signature/call combinations is unbounded', ['src/validators/arguments.rs', 'src/validators/dataclass.rs'],
  [('binding', 'src/validators/arguments.rs ArgumentsValidator::validate'), ('dataclass binding', 'src/validators/dataclass.rs DataclassArgsValidator::validate')])

p('C23', 'Literal and enum membership is exact',
  'A literal schema accepts exactly the inputs equal to a listed value and returns that listed object, a listed value of exactly the type of the input winning over one that is merely equal (1, 1.0 and True); an enum schema returns the member whose value the input equals, calls the missing hook only when no member matches, and in strict mode accepts from Python only members. The error lists all expected values.',
  [I, CFG], 'all lists of expected values (ints of any size, strings, bools, enum members, unhashables), inputs of every type, strict/lax, python/JSON',
  'lookup tables are split by type; mixtures and large values are not sampled', ['src/validators/literal.rs', 'src/validators/enum_.rs'],
  [('lookup', 'src/validators/literal.rs LiteralLookup'), ('enum', 'src/validators/enum_.rs')])

p('C24', 'Decimal and UUID constraints are exact',
  'A decimal schema accepts exactly the decimals satisfying every declared bound, digit and decimal-place limit (counting digits of the value, not of its spelling) and finiteness rule, returned unchanged; a UUID schema accepts exactly well-formed UUIDs of the declared version. Rejections report a limit that is really violated.',
  [I, CFG], 'all decimals (any exponent, sign, special values) and spellings, all limits; all UUID spellings and versions',
  'digit counting has many exponent corner cases', ['src/validators/decimal.rs', 'src/validators/uuid.rs'],
  [('digit limits', 'src/validators/decimal.rs DecimalValidator::validate / extract_decimal_digits_info'), ('uuid', 'src/validators/uuid.rs')])

p('C25', 'JSON output, JSON-mode output and their re-parsing agree',
  'For every schema and value, serializing to JSON text produces valid JSON (but for the configured NaN and Infinity constants) that parses to the same data as the JSON-mode python output, except that non-finite floats may stay floats in the python output, and both succeed or both fail. Options for bytes, durations and non-finite floats change only the representation of those values and apply at every depth, as keys and as values.',
  [I, CFG], 'all values and schemas, nested arbitrarily, as dict keys and values, with every bytes / timedelta / inf-nan / indent / round-trip option',
  'two independent code paths must agree on every type and option', ['src/serializers/infer.rs', 'src/serializers/ser.rs', 'src/serializers/config.rs', 'src/serializers/type_serializers/*.rs'],
  [('two code paths per type', 'TypeSerializer::to_python and TypeSerializer::serde_serialize'), ('JSON text', 'src/serializers/ser.rs')],
  ['SchemaSerializer.to_python(mode=json) / to_json, to_json, to_jsonable_python'])

p('C26', 'Partial validation only drops the trailing incomplete element',
  'Partial validation of a truncated JSON document or an incomplete python value returns what full validation of its complete prefix returns, may only drop the last element of each nested collection (and nothing before it), and never accepts a failure at any other position. The element of a tuple, the field of a model or of call arguments, and what a wrap handler validates are complete: nothing is dropped in them. With partial mode off nothing is ever dropped.',
  [I], 'every truncation point of every JSON document, nested lists / sets / dicts / typed dicts / tuples, python inputs; a required field of a typed dict that is dropped is missing; outside: later steps of a chain, fields found through alias paths, the default of a failed value',
  'every truncation point of nested documents is far beyond sampled examples', ['src/validators/validation_state.rs', 'src/validators/list.rs', 'src/validators/dict.rs', 'src/validators/typed_dict.rs', 'src/input/return_enums.rs'],
  [('last-element tracking', 'src/validators/validation_state.rs EnumerateLastPartial'), ('per-container handling', 'validate loops of list, set, dict, typed-dict')])

p('C27', 'Temporal bounds compare instants exactly',
  'Date, time, datetime and timedelta schemas accept exactly the values satisfying every declared bound, comparing aware datetimes as instants and durations by their length, and enforce the past/future and timezone requirements against the stated current time and offset. Precision settings truncate or reject sub-microsecond input as configured, and each rejection reports the violated bound.',
  [I, CFG], 'all values and bounds incl. negative durations, UTC offsets of whole seconds, extreme years; all subsets of the bounds; outside: comparing a naive with an aware value, timedelta subclasses with lengths beyond float precision; a reported limit shows its offset in minutes',
  'comparisons across offsets and signs have many boundaries', ['src/validators/date.rs', 'src/validators/time.rs', 'src/validators/datetime.rs', 'src/validators/timedelta.rs'],
  [('bounds', 'validate() of the four validators'), ('tz constraint', 'src/validators/datetime.rs TZConstraint')])

p('C28', 'Union serialization picks a member that accepts the value',
  'Serializing through a union uses a member whose type matches the value, preferring an exact match over a loose one and earlier members over later ones, tagged unions use the member named by the discriminator, and when none matches the value is serialized by inference with a warning, so nothing of it is lost. Values and dict keys are told apart by the same rules, and the choice does not depend on the output mode.',
  [I, CFG], 'all member lists, all values incl. subclasses and nested unions, python and JSON modes; what counts as exact is the member: its own class for models, dataclasses, root models, enums, int and float, any instance for strings, bytes and containers (with exact items); None always passes for inference without a warning; outside: generators (consumed by the attempt), members whose serialization itself fails', 'selection depends on relations between members',
  ['src/serializers/type_serializers/union.rs'], [('selection', 'src/serializers/type_serializers/union.rs union_serialize'), ('tagged', 'src/serializers/type_serializers/union.rs TaggedUnionSerializer')],
  ['SchemaSerializer.to_python / to_json'])

p('C29', 'Bytes, URL and type-check schemas enforce their declared constraints',
  'Bytes schemas accept exactly byte strings within the length limits decoded with the configured encoding; URL schemas accept exactly URLs with an allowed scheme, required host and length limit (in UTF-8 bytes of the text), filling declared defaults in a copy (a URL object given as input never changes), and URL objects compare and list their hosts as their text does; instance, subclass, callable and is-a checks accept exactly what Python\'s own checks accept.',
  [I, CFG], 'all bytes and encodings, all URLs and constraints, all objects and classes', 'constraint combinations and odd URLs are sampled only',
  ['src/validators/bytes.rs', 'src/validators/url.rs', 'src/url.rs', 'src/validators/is_instance.rs', 'src/validators/is_subclass.rs', 'src/validators/callable.rs'],
  [('bytes length', 'src/validators/bytes.rs'), ('url constraints', 'src/validators/url.rs'), ('class checks', 'src/validators/is_instance.rs')])

p('C30', 'Concurrent use and garbage collection never change results',
  'Using one validator or serializer from several threads, or while the garbage collector runs, gives every call the result it would have had alone and never crashes.',
  ['schedules'], 'all interleavings of calls at points where the interpreter lock is released', 'schedules are not explored by tests',
  ['src/definitions.rs', 'src/py_gc.rs', 'src/common/prebuilt.rs'], [('shared definitions', 'src/definitions.rs'), ('gc traversal', 'src/py_gc.rs')])

with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
print(len(P))

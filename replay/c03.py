from h import *
import re
WS = '\t\n\x0b\x0c\r \x85\xa0\u1680' + ''.join(map(chr, range(0x2000, 0x200b))) + '\u2028\u2029\u202f\u205f\u3000'
ALPHA = ['a', 'B', 'c', 'Z', '1', '_', ' ', '\t', '\n', 'é', 'É', 'ß', 'İ', 'Σ', 'σ', 'ǅ', '語', '🎉', '\u0301', '\xa0', '\u3000', '\x1f', '\u200b', '-']
PATS = [r'^[a-z]+$', r'^[^ ]*$', r'b', r'^.{2,4}$', r'[A-Z]', r'[0-9]', r'^$', r'a+c?', r'^ ']


def proc(s, c):
    if c.get('strip_whitespace'):
        s = s.strip(WS)
    n = len(s)
    if 'min_length' in c and n < c['min_length']:
        return ERR('string_too_short')
    if 'max_length' in c and n > c['max_length']:
        return ERR('string_too_long')
    if 'pattern' in c and not re.search(c['pattern'], s):
        return ERR('string_pattern_mismatch')
    if c.get('to_lower'):
        s = s.lower()
    elif c.get('to_upper'):
        s = s.upper()
    return OK(s)


class MyStr(str):
    pass


def main(R):
    rng = R.rng
    R.rules.append('str schemas with random constraints (schema or config keys) x unicode strings with leading/trailing whitespace, multi-byte characters and case-changing length; '
                   'oracle: python str / re; non-trivial = at least one constraint active')
    import json as J

    def one(c, s, cfgkeys=()):
        sch = {'type': 'str'}
        cfg = {}
        for k, v in c.items():
            if k in cfgkeys and k != 'pattern':
                cfg['str_' + k] = v
            else:
                sch[k] = v
        sv = SchemaValidator(sch, cfg) if cfg else validator(sch)
        w = proc(s, c)
        if 'pattern' in c and '\n' in s:      # $ differs between the engines before a trailing newline
            return
        nt = (s, tuple(sorted(c.items())), tuple(cfgkeys)) if any(c.values()) or c.get('min_length') is not None else None
        R.val({**sch, **({'config': cfg} if cfg else {})}, s, w, sv=sv, nt=nt)
        R.val(sch, s, w, sv=sv, strict=True, nt=None)
        R.val(sch, J.dumps(s), w, 'json', sv=sv, nt=None)
        R.val(sch, J.dumps(s, ensure_ascii=False), w, 'json', sv=sv, nt=None)
        R.val(sch, s, w, 'strings', sv=sv, nt=None)
        R.val(sch, MyStr(s), lambda g, w=w: (g.ok and w.ok and g.v == w.v) or g == w, sv=sv, nt=None)
        try:
            b = s.encode()
            R.val(sch, b, w, sv=sv, nt=None)
            R.val(sch, bytearray(b), w, sv=sv, nt=None)
        except UnicodeEncodeError:
            pass

    def rs(n=None):
        return ''.join(rng.choice(ALPHA) for _ in range(rng.randint(0, 6) if n is None else n))
    # lengths: every small length x bounds, multi-byte characters
    for ch in ('a', 'é', '語', '🎉', 'İ'):
        for n in range(0, 6):
            for lo in (None, 0, 1, 2, 3, 5):
                for hi in (None, 0, 1, 2, 3, 5):
                    c = {}
                    if lo is not None:
                        c['min_length'] = lo
                    if hi is not None:
                        c['max_length'] = hi
                    one(c, ch * n)
                    one({**c, 'strip_whitespace': True}, '  ' + ch * n + '\t')
                    one({**c, 'to_lower': True}, ch * n)
                    one({**c, 'to_upper': True}, ch * n)
    for n in (60, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000):
        for ch in ('a', 'é', '語', '🎉'):
            for d in (-1, 0, 1):
                one({'max_length': n}, ch * (n + d))
                one({'min_length': n}, ch * (n + d))
                one({'max_length': n, 'strip_whitespace': True}, ' ' + ch * (n + d) + ' ')
    for w in WS + '\x1c\x1d\x1e\x1f\u200b\u180e\ufeff':
        one({'strip_whitespace': True}, f'{w}a{w}b{w}')
        one({'strip_whitespace': True}, w)
        one({}, f'{w}a{w}')
        one({'strip_whitespace': False, 'to_upper': True}, f'{w}a{w}')
    flags = ['strip_whitespace', 'to_lower', 'to_upper']
    for _ in range(4000 if not THOROUGH else 40000):
        c = {}
        for f in flags:
            if rng.random() < .35:
                c[f] = rng.random() < .8
        if rng.random() < .35:
            c['min_length'] = rng.randint(0, 5)
        if rng.random() < .35:
            c['max_length'] = rng.randint(0, 6)
        if rng.random() < .3:
            c['pattern'] = rng.choice(PATS)
        ck = [k for k in c if rng.random() < .3]
        for _ in range(3):
            one(c, rs(), ck)
        if R.out_of_time():
            return
    # schema key wins over config key
    for k, a, b, s, w in [('min_length', 1, 5, 'ab', OK('ab')), ('min_length', 5, 1, 'ab', ERR('string_too_short')), ('max_length', 5, 1, 'ab', OK('ab')),
                          ('max_length', 1, 5, 'ab', ERR('string_too_long')), ('strip_whitespace', False, True, ' a ', OK(' a ')), ('strip_whitespace', True, False, ' a ', OK('a')),
                          ('to_lower', False, True, 'Ab', OK('Ab')), ('to_lower', True, False, 'Ab', OK('ab')), ('to_upper', False, True, 'Ab', OK('Ab')),
                          ('to_upper', True, False, 'Ab', OK('AB'))]:
        R.val({'type': 'str', k: a, 'config': f'str_{k}={b}'}, s, w, sv=SchemaValidator({'type': 'str', k: a}, {'str_' + k: b}))
    # engines: python-re supports look-around, flags of a compiled pattern are preserved
    R.val({'type': 'str', 'pattern': r'^(?=a)ab$', 'regex_engine': 'python-re'}, 'ab', OK('ab'))
    R.val({'type': 'str', 'pattern': r'^(?=a)ab$', 'regex_engine': 'python-re'}, 'bb', ERR('string_pattern_mismatch'))
    R.val({'type': 'str', 'pattern': re.compile('^AB$', re.I)}, 'ab', OK('ab'))
    R.val({'type': 'str', 'pattern': re.compile('^AB$')}, 'ab', ERR('string_pattern_mismatch'))
    R.val({'type': 'str', 'pattern': 'b'}, 'abc', OK('abc'))
    R.val({'type': 'str', 'pattern': 'b', 'regex_engine': 'python-re'}, 'abc', OK('abc'))
    R.val({'type': 'str', 'pattern': 'b', 'x': 'cfg python-re'}, 'abc', OK('abc'), sv=SchemaValidator({'type': 'str', 'pattern': 'b(?=c)'}, {'regex_engine': 'python-re'}))
    # context reports the bound
    R.val({'type': 'str', 'min_length': 3}, 'ab', Out('err', [('string_too_short', (), {'min_length': 3})]), full=True)
    R.val({'type': 'str', 'max_length': 1}, 'ab', Out('err', [('string_too_long', (), {'max_length': 1})]), full=True)
    R.val({'type': 'str', 'pattern': 'x'}, 'ab', Out('err', [('string_pattern_mismatch', (), {'pattern': 'x'})]), full=True)
    # lone surrogates are reported, never crash
    for c in ({'min_length': 1}, {'strip_whitespace': True}, {'to_lower': True}, {'pattern': 'a'}):
        R.val({'type': 'str', **c}, 'a\ud800', ERR('string_unicode'))
    # coerce_numbers_to_str
    for v, s in [(1, '1'), (2 ** 70, str(2 ** 70)), (-3, '-3'), (1.5, '1.5')]:
        R.val({'type': 'str', 'coerce_numbers_to_str': True}, v, OK(s))
        R.val({'type': 'str', 'coerce_numbers_to_str': True, 'max_length': len(s)}, v, OK(s))
        R.val({'type': 'str', 'coerce_numbers_to_str': True, 'max_length': len(s) - 1}, v, ERR('string_too_long'))
        R.val({'type': 'str'}, v, ERR('string_type'))
        R.val({'type': 'str', 'coerce_numbers_to_str': True}, v, ERR('string_type'), strict=True)
    R.val({'type': 'str', 'coerce_numbers_to_str': True}, True, ERR('string_type'))


guard(Recorder('C03'), main)

"""Service specifications as plain JSON, the soapfish objects built from them, and an independent reference codec.

The reference side (``ref_xsd``, ``ref_render``, ``ref_parse``, ``conforms``) shares no code with the library: it
produces XML Schema text, messages in many equivalent styles, and canonical JSON values straight from the spec.
"""
import decimal
import itertools
import re
import sys
import types as _types
import zlib

XSD = 'http://www.w3.org/2001/XMLSchema'
XSI = 'http://www.w3.org/2001/XMLSchema-instance'
ENV = {11: 'http://schemas.xmlsoap.org/soap/envelope/', 12: 'http://www.w3.org/2003/05/soap-envelope'}
CT = {11: 'text/xml', 12: 'application/soap+xml'}
INTS = {'Integer': (None, None), 'Long': (-2**63, 2**63 - 1), 'Int': (-2**31, 2**31 - 1), 'Short': (-2**15, 2**15 - 1),
        'Byte': (-128, 127), 'UnsignedLong': (0, 2**64 - 1), 'UnsignedInt': (0, 2**32 - 1),
        'UnsignedShort': (0, 65535), 'UnsignedByte': (0, 255), 'NonNegativeInteger': (0, 10**21), 'PositiveInteger': (1, 10**21),
        'NegativeInteger': (-10**21, -1), 'NonPositiveInteger': (-10**21, 0)}
FLOATS = ('Decimal', 'Double', 'Float')
STRINGS = ('String', 'AnyURI', 'Base64Binary', 'Duration', 'NMTOKEN')
TIMES = ('Date', 'DateTime', 'Time')
BUILTIN = ('String', 'Boolean') + TIMES + FLOATS + tuple(INTS) + ('AnyURI', 'Base64Binary', 'Duration', 'NMTOKEN')
NILV = {'$nil': 1}
KEYWORDS = ('class', 'import', 'from', 'def', 'return', 'global')


def unc(s):
    return s[0].lower() + s[1:]


def is_nil(v):
    return isinstance(v, dict) and '$nil' in v


# ------------------------------------------------------------------ generation
WORDS = ('alpha', 'beta', 'gamma', 'delta', 'kappa', 'sigma', 'omega', 'price', 'total', 'name', 'city', 'code', 'unit',
         'item', 'part', 'lot', 'ref', 'note', 'flag', 'kind', 'size', 'owner', 'level', 'route')
TEXTS = ('x', 'hello', 'a b', ' lead', 'trail ', 'tab\there', 'line\nbreak', 'R&D <b>"q"</b> \'s\'', 'ünïcödé', '日本語テキスト',
         'emoji 😀', 'a]]>b', '0', 'nil', 'None', 'true', '-', '&amp;', '%s {0} ${host}', 'x' * 300, 'é\u0301', '\u00a0', 'null',
         '<!-- c -->', '1e5', '   ', 'ns0:thing', 'A\u2028B', '{urn:x}y', "it's", '\u200b')
ASCII_TEXTS = tuple(t for t in TEXTS if all(32 <= ord(c) < 127 for c in t))
OFFS = ('+00:00', '+02:00', '-05:30', '+14:00', '-12:00', '+05:45', '-00:30', '-03:30')


PATTERNS = ('[A-Z]{2}[0-9]{1,3}', '[a-z]+', '[0-9]{3}-[0-9]{2}', '[a-z\'"]+', '\\d{2}\\.\\d\\\\?', 'ab|cd+')


class Gen:
    """Random services and values; everything drawn from one PRNG."""

    def __init__(self, rng, **opts):
        self.r = rng
        self.o = opts
        self.gnames = set()

    def opt(self, k, d=None):
        return self.o.get(k, d)

    def chance(self, p):
        return self.r.random() < p

    def ident(self, used, cap=False):
        for _ in range(1000):
            w = self.r.choice(WORDS)
            if self.chance(0.4):
                w += self.r.choice(WORDS).capitalize()
            if self.chance(0.15):
                w += str(self.r.randrange(10))
            if cap:
                w = w[0].upper() + w[1:]
            if w.lower() not in used:
                used.add(w.lower())
                return w
        raise RuntimeError('names exhausted')

    def simple(self):
        """(type, facets)"""
        r = self.r
        k = r.random()
        if k < 0.22:
            return 'String', {}
        t = r.choice(BUILTIN) if k > 0.3 else 'String'
        if self.chance(self.opt('p_facet', 0.25)):
            if t == 'String':
                j = r.randrange(3)
                if j == 2:
                    return t, self.lengths()
                if j == 0:
                    return t, {'enumeration': r.sample(['red', 'green', 'blue', 'dark grey', 'R&B', 'x1'], r.randint(1, 4))}
                return t, {'pattern': r.choice(PATTERNS)}
            if t in ('Int', 'Long', 'Short') and self.chance(0.6):
                return t, {'enumeration': sorted(r.sample(range(-5, 30), r.randint(1, 4)))}
            if t in ('Decimal', 'Double') and self.chance(0.2):
                return t, {'enumeration': r.sample([1.5, -2.25, 0.1, 7.0, 1e-7], r.randint(1, 3))}
            if t in INTS:
                return t, self.bounds(t)
            if t == 'Decimal':
                f = {}
                if self.chance(0.7):
                    f[r.choice(['minInclusive', 'minExclusive'])] = r.choice([-5.5, 1.5, 10.25])
                if self.chance(0.7):
                    f[r.choice(['maxInclusive', 'maxExclusive'])] = r.choice([20.5, 99.75, 1000.0])
                if not f and self.chance(0.5):
                    f['fractionDigits'] = 2
                return t, f
        return t, {}

    def bounds(self, t):
        r = self.r
        lo = r.choice([x for x in (1, 5, -10, -100, 100) if (INTS[t][0] is None or INTS[t][0] <= x) and (INTS[t][1] is None or x + 60 <= INTS[t][1])] or [-100])
        hi = lo + r.randint(1, 20)
        if hi == 0:
            hi = 1
        f = {}
        if self.chance(0.7):
            f[r.choice(['minInclusive', 'minExclusive'])] = lo
        if self.chance(0.7):
            f[r.choice(['maxInclusive', 'maxExclusive'])] = hi + 2
        if self.chance(0.2) and lo > 0:
            f['totalDigits'] = 4
        return f

    def scalar(self, t, fac=None, sty=None):
        r, fac = self.r, fac or {}
        if t in STRINGS:
            if fac.get('enumeration'):
                return r.choice(fac['enumeration'])
            p = fac.get('pattern')
            if p:
                return self.from_pattern(p)
            if set(fac) & {'length', 'minLength', 'maxLength'}:
                return self.of_length(fac)
            if t == 'NMTOKEN':
                return r.choice(['a', 'x-1', '12', ':a.b', 'true', 'é_'])
            if t == 'AnyURI':
                return r.choice(['http://a.example/x?y=1&z=2', 'urn:a:b', 'mailto:x@y.z', '/rel/path'])
            if t == 'Base64Binary':
                return r.choice(['AAAA', 'aGVsbG8=', 'SGVsbG8gV29ybGQ=', 'Zg=='])
            if t == 'Duration':
                return r.choice(['P1D', 'PT5M', '-P1Y2M3DT10H30M', 'P1Y'])
            s = r.choice(TEXTS if not self.opt('ascii') else ASCII_TEXTS)
            if self.chance(0.3):
                s += str(r.randrange(1000))
            return s
        if t == 'Boolean':
            return r.random() < 0.5
        if t in INTS:
            lo, hi = INTS[t]
            if fac.get('enumeration'):
                return r.choice(fac['enumeration'])
            if fac:
                own = INTS[t]
                hi = fac.get('maxInclusive', fac['maxExclusive'] - 1 if 'maxExclusive' in fac else None)
                lo = fac.get('minInclusive', fac['minExclusive'] + 1 if 'minExclusive' in fac else None)
                if lo is None:
                    lo = own[0] if own[0] is not None and (hi is None or own[0] > hi - 200) or own[0] is not None and self.chance(0.2) else min(-50, hi - 50 if hi is not None else 0)
                if 'totalDigits' in fac:
                    lo = max(lo, 0)
                if hi is None:
                    hi = own[1] if own[1] is not None and (own[1] < lo + 60 or self.chance(0.2)) and 'totalDigits' not in fac else lo + 60
                return r.choice([lo, hi, r.randint(lo, hi)])
            if lo is None:
                return r.choice([0, 1, -1, 42, 10**20, -10**25, r.randint(-10**6, 10**6)])
            return r.choice([lo, hi, 0 if lo <= 0 <= hi else lo, r.randint(lo, hi), r.randint(max(lo, -100), min(hi, 100))])
        if t in FLOATS:
            if fac.get('enumeration'):
                return r.choice(fac['enumeration'])
            if fac.get('fractionDigits') == 2:
                return r.randint(-400, 400) + r.choice([0.25, 0.75])
            lo = fac.get('minInclusive', fac.get('minExclusive'))
            hi = fac.get('maxInclusive', fac.get('maxExclusive'))
            if lo is not None or hi is not None:
                lo2 = (lo if lo is not None else hi - 50)
                hi2 = (hi if hi is not None else lo2 + 50)
                c = []
                if 'minInclusive' in fac:
                    c.append(float(lo2))
                if 'maxInclusive' in fac:
                    c.append(float(hi2))
                c.append(lo2 + (hi2 - lo2) * 0.5)
                c.append(lo2 + (hi2 - lo2) * 0.25)
                return float(r.choice(c))
            if t == 'Decimal':
                return r.choice([0.0, 1.5, -2.25, 123456.789, 0.001, 99999999.125, -0.5, 1e-7, -2.5e-9, 1e22, 1.7e16, float(r.randint(-1000, 1000)) / 8])
            return r.choice([0.0, 1.5, -2.25, 1e10, 1.25e-7, 3.0e300 if t == 'Double' else 2.5e30, float('inf'), float('-inf'), r.randint(-999, 999) / 16])
        y, mo, d = r.choice([1, 1970, 1999, 2000, 2024, 9999, r.randint(1, 9999)]), r.randint(1, 12), r.randint(1, 28)
        if self.chance(0.1):
            y, mo, d = 2024, 2, 29
        date = f'{y:04d}-{mo:02d}-{d:02d}'
        tm = r.choice(['00:00:00', '23:59:59', f'{r.randrange(24):02d}:{r.randrange(60):02d}:{r.randrange(60):02d}'])
        if t != 'Date' and self.chance(0.25):
            tm += '.' + r.choice(['500000', '000001', '123456', '120000'])
        off = r.choice(OFFS) if self.chance(0.8) else '+00:00'
        if t == 'Date':
            return date + (off if self.chance(0.5) else '')
        if t == 'DateTime':
            if y in (1, 9999):
                date = '2001' + date[4:] if not date.endswith('02-29') else '2000-02-29'
            return date + 'T' + tm + off
        return tm + off

    def from_pattern(self, p):
        r = self.r
        if p == '[A-Z]{2}[0-9]{1,3}':
            return ''.join(r.choice('ABCXYZ') for _ in range(2)) + str(r.randint(0, 999))
        if p == '[a-z]+':
            return ''.join(r.choice('abcxyz') for _ in range(r.randint(1, 6)))
        if p == '[0-9]{3}-[0-9]{2}':
            return f'{r.randint(0, 999):03d}-{r.randint(0, 99):02d}'
        if p == "[a-z'\"]+":
            return ''.join(r.choice('abz\'"') for _ in range(r.randint(1, 6)))
        if p == '\\d{2}\\.\\d\\\\?':
            return f'{r.randint(10, 99)}.{r.randint(0, 9)}' + r.choice(['', '\\'])
        if p == 'ab|cd+':
            return r.choice(['ab', 'cd', 'cddd'])
        raise ValueError(p)

    # ---- services
    def field(self, sch, used, complexes, simples, allow_list=True, allow_attr=True, allow_rec=None):
        r = self.r
        n = self.ident(used)
        f = {'n': n, 'tag': None, 'fac': {}, 'nil': False, 'min': 1, 'st': 'class'}
        k = 'e'
        x = r.random()
        if allow_list and x < 0.22:
            k = 'l'
        elif allow_attr and x < 0.38:
            k = 'a'
        f['k'] = k
        y = r.random()
        if k != 'a' and complexes and y < 0.35:
            f['t'] = 'c:' + r.choice(complexes)
            f['st'] = r.choice(['class', 'str'])
        elif simples and y < 0.5:
            f['t'] = 's:' + r.choice(simples)
            f['st'] = r.choice(['class', 'class', 'str'])
        elif k == 'a':
            f['t'] = r.choice(['String', 'String', 'Int', 'Boolean', 'Integer', 'Date', 'Decimal', 'UnsignedByte', 'DateTime', 'NonNegativeInteger', 'NMTOKEN', 'Double'])
            if self.chance(self.opt('p_afac', 0.15)):
                f['st'] = 'inst'
                if f['t'] == 'String':
                    f['fac'] = r.choice([{'enumeration': ['red', 'R&B', 'dark grey']}, {'pattern': r.choice(PATTERNS)}, self.lengths()])
                elif f['t'] in INTS:
                    f['fac'] = self.bounds(f['t'])
        elif k == 'l':
            f['t'] = r.choice(['String', 'String', 'Int', 'Boolean', 'Decimal', 'Date', 'DateTime', 'Long', 'AnyURI', 'PositiveInteger', 'Float', 'NMTOKEN'])
        else:
            f['t'], f['fac'] = self.simple()
            if f['fac'] or self.chance(0.1) and f['t'] in STRINGS + ('Boolean',) + TIMES + ('Int', 'Long'):
                f['st'] = 'inst'
        if k == 'a':
            f['use'] = r.choice(['required', 'optional', 'optional'])
            f['nil'] = False
        else:
            f['min'] = r.choice([0, 1]) if k == 'e' else r.choice([0, 0, 1, 2])
            if k == 'l':
                f['max'] = r.choice([None, None, None, max(f['min'], 1) + r.randint(1, 5), max(f['min'], 1) + r.randint(1, 5), 11])
                f['tag'] = n if self.chance(0.3) else n + r.choice(['_i', '-elt', '.x'])
            elif self.chance(0.12):
                f['tag'] = n + r.choice(['-x', '.y', '_t', '_'])
            f['nil'] = self.chance(0.2)
        if self.chance(0.08) and not (used & {'kw'}):
            used.add('kw')
            kw = r.choice(KEYWORDS)
            f['n'], f['tag'] = '_' + kw, kw
        if k == 'a' and f.get('tag') is None and self.chance(0.1):
            f['tag'] = n + '-a'
        if k == 'e' and f['t'] in ('String', 'Int') and not f['fac'] and self.chance(0.1) and not f['nil']:
            f['def'] = 'dflt' if f['t'] == 'String' else 7
            f['min'] = 0
        if k == 'a' and f['use'] == 'optional' and f['t'] in ('String', 'Int') and not f['fac'] and self.chance(0.25):
            f['def'] = 'adflt' if f['t'] == 'String' else 3
        return f

    def service(self):
        r = self.r
        ver = self.opt('version') or r.choice([11, 12])
        tnames = set()
        s = {'v': ver, 'tns': f'urn:dst:svc{r.randrange(100)}', 'name': r.choice(['Shop', 'Stock', 'OpsService']),
             'loc': r.choice(['${scheme}://${host}/ws', 'http://server/ws', '${scheme}://${host}/a/b']),
             'schemas': [], 'methods': []}
        efd = self.opt('efd') or r.choice(['qualified', 'unqualified'])
        ns = r.choice(['urn:dst:types', 'http://dst.example/types/1', 'http://dst.example/t?x=1&y=2'])
        main = {'id': 0, 'ns': ns, 'efd': efd, 'loc': None, 'top': True, 'imports': [], 'includes': [], 'types': [],
                'elements': []}
        s['schemas'].append(main)
        nimp = self.opt('imports', None)
        if nimp is None:
            nimp = r.choice([0, 0, 0, 1, 2])
        enames = set()
        self._types(main, tnames, r.randint(1, 4))
        for i in range(nimp):
            kind = r.choice(['imports', 'includes'])
            parent = r.choice(s['schemas'])
            sub = {'id': len(s['schemas']), 'ns': parent['ns'] if kind == 'includes' else f'{ns}/i{i}',
                   'efd': efd if kind == 'includes' else r.choice(['qualified', 'unqualified']),
                   'loc': r.choice([f's{i}.xsd', f'sub/s{i}.xsd', f'http://schemas.example/s{i}.xsd', f's{i}?v=1&w=2']),
                   'top': False, 'imports': [], 'includes': [], 'types': [], 'elements': []}
            parent[kind].append(sub['id'])
            s['schemas'].append(sub)
            self._types(sub, tnames, r.randint(1, 2))
        for i in range(r.choice([1, 1, 2]) if self.chance(self.opt('tops', 0)) else 0):
            # what wsdl2py makes of a WSDL: the service lists several schemas
            top = {'id': len(s['schemas']), 'ns': f'{ns}/t{i}', 'efd': r.choice(['qualified', 'unqualified']), 'loc': None, 'top': True,
                   'imports': [], 'includes': [], 'types': [], 'elements': []}
            s['schemas'].append(top)
            self._types(top, tnames, r.randint(1, 2))
        nm = self.opt('methods') or r.randint(1, 4)
        used_actions = set()
        # operations
        for i in range(nm):
            sch = main if self.opt('main_only') or self.chance(0.7) else r.choice(s['schemas'])
            op = self.ident(enames, cap=self.chance(0.5))
            act = r.choice([op, f'urn:act/{op}', f'http://dst.example/act/{op}', f'{op}Action'])
            if self.chance(0.25):
                act = r.choice([f'{act}/', f'{act}?v=1&w=2', f'{act}#it', f'{act};x=1', f'{act.upper()}', f'urn:a b/{op}', f"{act}'s", f'{act}%20x'])
            if used_actions and self.chance(0.12):
                act = r.choice(sorted(used_actions))
                act = r.choice([act.swapcase(), act + '/', act[:1].swapcase() + act[1:]])
            while act in used_actions:
                act += '2'
            used_actions.add(act)
            m = {'op': op, 'action': act, 'ih': None, 'oh': None}
            for io in ('in', 'out'):
                tn = self._message_type(sch, tnames, io)
                if self.opt('cls_messages') and self.chance(0.15):
                    en = unc(tn)
                    style = 'class'
                    m[io + '_cls'] = tn
                else:
                    en = self.ident(enames) + ('Req' if io == 'in' else 'Resp') + r.choice([''] * 12 + ['.v2', '-x', '_'])
                    style = r.choice(['class', 'inst', 'str']) if not self.opt('no_inst') else r.choice(['class', 'str'])
                    if self.opt('inst_only'):
                        style = 'inst'
                    if style == 'inst' and any(f['t'] == 'c:' + tn for f in next(t for t in sch['types'] if t['n'] == tn)['f']):
                        style = 'class'     # an anonymous type cannot refer to itself
                sch['elements'].append({'name': en, 'type': tn, 'st': style})
                m[io] = en
            s['methods'].append(m)
        # headers
        if self.opt('headers', True):
            for m in s['methods']:
                for io in ('ih', 'oh'):
                    if self.chance(0.35):
                        hs = []
                        for _ in range(r.randint(1, 2)):
                            if self.chance(0.5):
                                t, st = r.choice(['String', 'Int', 'Boolean', 'DateTime']), 'class'
                            else:
                                t = 'c:' + self._complex(main, tnames, r.randint(1, 3), simple_only=True)
                                st = 'class'
                            en = self.ident(enames) + 'Hdr'
                            main['elements'].append({'name': en, 'type': t if not t.startswith('c:') else t[2:], 'st': st,
                                                     'simple': not t.startswith('c:')})
                            hs.append(en)
                        m[io] = hs
            if self.opt('svc_headers') and self.chance(0.3):
                for io in ('ih', 'oh'):         # headers of the service, for every operation without its own
                    hs = next((m[io] for m in s['methods'] if m[io]), None)
                    if hs and self.chance(0.7):
                        s[io] = list(hs)
                        for m in s['methods']:
                            m[io] = m[io] or list(hs)
        if self.opt('subst') and self.chance(0.4):
            m = r.choice(s['methods'])
            if not m.get('in_cls'):
                sc, e = find_elem(s, m['in'])
                if e['st'] != 'inst':
                    sc['elements'].append({'name': e['name'] + 'Alt', 'type': e['type'], 'st': e['st'], 'subst': e['name']})
        return s

    def _types(self, sch, tnames, n):
        for _ in range(n):
            if self.chance(0.35):
                self._simple_type(sch, tnames)
            else:
                self._complex(sch, tnames, self.r.randint(1, 4))

    def _simple_type(self, sch, tnames):
        n = self.ident(tnames, cap=True)
        d = {'n': n, 'k': 's'}
        if self.chance(self.opt('p_num', 0.3)):
            d['bt'] = self.r.choice(['Int', 'Int', 'Integer', 'Short', 'UnsignedByte', 'PositiveInteger', 'Long', 'Decimal', 'Double'])
            if self.chance(0.4):
                d['fac'] = {'enumeration': sorted(self.r.sample(range(1, 30), self.r.randint(1, 4)))} if d['bt'] in INTS else {'enumeration': self.r.sample([1.5, -2.25, 7.0], 2)}
            elif d['bt'] in INTS:
                d['fac'] = self.bounds(d['bt'])
            else:
                d['fac'] = {self.r.choice(['minInclusive', 'minExclusive']): self.r.choice([-5.5, 1.5]), self.r.choice(['maxInclusive', 'maxExclusive']): 20.5}
        elif self.chance(0.6):
            d['enum'] = self.r.sample(['ON', 'OFF', 'auto', 'n/a', 'x&y', 'two words'], self.r.randint(1, 4))
        elif self.chance(0.5):
            d['pat'] = self.r.choice(PATTERNS)
        else:
            d['len'] = self.lengths()
        sch['types'].append(d)
        return n

    def lengths(self):
        lo = self.r.randint(1, 6)
        return self.r.choice([{'length': lo}, {'minLength': lo}, {'maxLength': lo}, {'minLength': lo, 'maxLength': lo + self.r.randint(0, 5)}])

    def of_length(self, fac):
        lo = fac.get('length') or fac.get('minLength') or 1
        hi = fac.get('length') or fac.get('maxLength') or lo + 5
        n = self.r.choice([lo, hi, self.r.randint(lo, hi)])
        return ''.join(self.r.choice('abcXYZ019-é日😀') for _ in range(n))

    def _complex(self, sch, tnames, nf, simple_only=False, name=None, cid=False):
        r = self.r
        cs = [t['n'] for t in sch['types'] if t['k'] == 'c' and not t.get('msg')] if not simple_only else []
        ss = [t['n'] for t in sch['types'] if t['k'] == 's']
        n = name or self.ident(tnames, cap=True)
        d = {'n': n, 'k': 'c', 'base': None, 'ind': 'Sequence', 'f': []}
        used = set()
        bases = [c for c in cs if not cid or next(t for t in sch['types'] if t['n'] == c)['ind'] != 'Choice']
        if bases and self.chance(0.2):
            d['base'] = r.choice(bases)
            for f in all_fields_of(sch, d['base']):
                used.add(f['n'].lower())
                used.add((f['tag'] or f['n']).lower())
                if 'g' in f:
                    used.add(f['g'].lower())
                if f['n'].startswith('_'):
                    used.add('kw')
            bt = next(t for t in sch['types'] if t['n'] == d['base'])
            d['ind'] = bt['ind']
        elif self.chance(0.12):
            d['ind'] = 'All'
        elif not cid and self.chance(0.15):
            d['ind'] = 'Choice'
        if cid:
            used.add('cid')
            d['f'].append({'n': 'cid', 'tag': None, 'k': 'e', 't': 'String', 'fac': {}, 'nil': False, 'min': 1, 'st': 'class'})
        for _ in range(nf):
            f = self.field(sch, used, cs, ss, allow_list=d['ind'] != 'All')
            if d['ind'] == 'Choice' and f['k'] != 'a':       # never empty: exactly one of them is there
                f['min'] = max(1, f['min'])
                f.pop('def', None)
            d['f'].append(f)
            used.add((f['tag'] or f['n']).lower())
        if d['ind'] == 'Choice' and not d['base'] and all(f['k'] == 'a' for f in d['f']):
            d['ind'] = 'Sequence'        # a choice of nothing can not be met
        if self.opt('swap') and self.chance(0.12):
            for kinds in ('a', 'el'):        # each has the name the other has in XML
                two = [f for f in d['f'] if f['k'] in kinds and f['n'] != 'cid' and f['n'][0] != '_' and tag_of(f) not in KEYWORDS]
                if len(two) > 1 and self.chance(0.7):
                    x, y = r.sample(two, 2)
                    x['tag'], y['tag'] = y['n'], x['n']
        if d['ind'] != 'Choice' and self.chance(0.2):
            self._groups(sch, d, used)
        if not simple_only and not (cid and self.opt('inst_only')) and not d['base'] and d['ind'] == 'Sequence' and self.chance(0.12):
            fn = self.ident(used)
            d['f'].append({'n': fn + 's', 'tag': fn, 'k': 'l', 't': 'c:' + n, 'fac': {}, 'nil': False, 'min': 0, 'max': None,
                           'st': 'str'})
        sch['types'].append(d)
        return n

    def _groups(self, sch, d, used):
        """Some of the fields are those of a group the type refers to: nothing of that shows in XML."""
        r = self.r
        old = {}
        for t in sch['types']:
            for f in t.get('f', ()):
                if 'g' in f:
                    old.setdefault(f['g'], []).append(f)
        old = {g: fs for g, fs in old.items() if not used & ({f['n'].lower() for f in fs} | {tag_of(f).lower() for f in fs} | {g.lower()})
               and (d['ind'] != 'All' or all(f['k'] != 'l' for f in fs)) and not any(f['n'][0] == '_' for f in fs)}
        if old and self.chance(0.6):     # one used before
            g = r.choice(sorted(old))
            fs = {f['n']: dict(f) for f in old[g]}
            at = r.randint(1 if d['f'] and d['f'][0]['n'] == 'cid' else 0, len(d['f']))
            d['f'][at:at] = list(fs.values())
            for f in fs.values():
                used.update((f['n'].lower(), tag_of(f).lower()))
            used.add(g.lower())
            return
        att = [f for f in d['f'] if f['k'] == 'a']
        els = [f for f in d['f'] if f['k'] != 'a' and f['n'] != 'cid']
        if att and self.chance(0.5):
            g = self._group_name(used)
            for f in att[:r.randint(1, len(att))]:
                f['g'] = g
        if els and self.chance(0.7):
            g = self._group_name(used)
            i = r.randrange(len(els))
            for f in els[i:i + r.randint(1, 3)]:
                f['g'] = g
        # attributes may stand between the elements of a group: order them so that each group is in one place
        d['f'].sort(key=lambda f, first={}: first.setdefault(f.get('g') or f['n'], len(first)))

    def _group_name(self, used):
        g = self.ident(used)
        while g.lower() in self.gnames:      # one name, one group
            g = self.ident(used)
        self.gnames.add(g.lower())
        return g

    def _message_type(self, sch, tnames, io):
        n = self._complex(sch, tnames, self.r.randint(1, 5), name=None, cid=True)
        next(t for t in sch['types'] if t['n'] == n)['msg'] = True
        return n

    # ---- values
    def value(self, svc, sch, tname, depth=0, cid=None):
        r = self.r
        out = {}
        fields = all_fields(svc, sch, tname)
        if find_type(svc, sch, tname)['ind'] == 'Choice':
            # exactly one, and where it can be one that ends a recursion
            alt = [f for f in fields if f['k'] != 'a' and (depth < 3 or not f['t'].startswith('c:'))] or [f for f in fields if f['k'] != 'a']
            one = r.choice(alt)['n'] if alt else None
            fields = [f for f in fields if f['k'] == 'a' or f['n'] == one]
        for f in fields:
            if f['n'] == 'cid' and cid is not None:
                out['cid'] = cid
                continue
            if f['k'] == 'a':
                if f['use'] == 'required' or 'def' in f or self.chance(0.6):
                    out[f['n']] = self.one(svc, sch, f, depth, attr=True)
            elif f['k'] == 'e':
                if f['min'] == 0 and 'def' not in f and (self.chance(0.35) or depth > 3):
                    continue
                out[f['n']] = self.one(svc, sch, f, depth)
            else:
                lo, hi = f['min'], f.get('max')
                k = r.choice([lo, lo, lo + 1, lo + 2, hi if hi is not None else lo + 4]) if depth < 3 else lo
                if hi is not None:
                    k = min(k, hi)
                out[f['n']] = [self.one(svc, sch, f, depth) for _ in range(k)]
        return out

    def one(self, svc, sch, f, depth, attr=False):
        t = f['t']
        if f.get('nil') and not attr and self.chance(0.3):
            # xsd.NIL can not carry attributes, so a type that requires one is never nil
            if not (t.startswith('c:') and any(g['k'] == 'a' and g['use'] == 'required' for g in all_fields(svc, sch, t[2:]))):
                return dict(NILV)
        if t.startswith('c:'):
            return self.value(svc, sch, t[2:], depth + 1)
        if t.startswith('s:'):
            st = find_type(svc, sch, t[2:])
            if st.get('bt'):
                return self.scalar(st['bt'], st['fac'])
            if st.get('enum'):
                return self.r.choice(st['enum'])
            return self.from_pattern(st['pat']) if 'pat' in st else self.of_length(st['len'])
        return self.scalar(t, f['fac'])

    def header(self, svc, names):
        out = {}
        for n in names:
            sch, e = find_elem(svc, n)
            if e.get('simple'):
                out[n] = self.scalar(e['type'])
            else:
                out[n] = self.value(svc, sch, e['type'], 2)
        return out


# ------------------------------------------------------------------ spec access
def schema(svc, i):
    return svc['schemas'][i]


def find_elem(svc, name):
    for s in svc['schemas']:
        for e in s['elements']:
            if e['name'] == name:
                return s, e
    raise KeyError(name)


def same_ns(svc, sch):
    return [s for s in svc['schemas'] if s is sch] + [s for s in svc['schemas'] if s is not sch and s['ns'] == sch['ns']]


def find_type(svc, sch, name):
    for t in sch['types']:
        if t['n'] == name:
            return t
    for s in svc['schemas']:
        for t in s['types']:
            if t['n'] == name:
                return t
    raise KeyError(name)


def all_fields_of(sch, name):
    t = next(t for t in sch['types'] if t['n'] == name)
    return (all_fields_of(sch, t['base']) if t['base'] else []) + t['f']


def all_fields(svc, sch, name):
    t = find_type(svc, sch, name)
    return (all_fields(svc, sch, t['base']) if t['base'] else []) + t['f']


def tag_of(f):
    return f['tag'] or f['n']


def method_of(svc, op):
    return next(m for m in svc['methods'] if m['op'] == op)


# ------------------------------------------------------------------ soapfish objects
_modn = itertools.count()


class Built:
    pass


def build(svc, functions=None, location=None, modname=None):
    """Create the soapfish classes, schemas and Service for a spec.  functions: op -> callable."""
    from soapfish import soap, xsd
    b = Built()
    b.svc = svc
    b.modname = modname or f'dst_gen_{next(_modn)}'
    mod = _types.ModuleType(b.modname)
    sys.modules[b.modname] = mod
    b.mod = mod
    b.cls = {}
    b.groups = {}
    b.schemas = {}

    def typeref(t, st, fac):
        if t[:2] in ('c:', 's:'):
            if st == 'str':
                return f'{b.modname}.{t[2:]}'
            return b.cls[t[2:]]
        c = getattr(xsd, t)
        if st == 'inst':
            return c(**fac)
        return c

    def mkfield(f):
        ty = typeref(f['t'], f['st'], f['fac'])
        if f['k'] == 'a':
            kw = {'use': xsd.Use.REQUIRED if f['use'] == 'required' else xsd.Use.OPTIONAL}
            if f['tag']:
                kw['tagname'] = f['tag']
            if 'def' in f:
                kw['default'] = f['def']
            return xsd.Attribute(ty, **kw)
        if f['k'] == 'l':
            return xsd.ListElement(ty, tag_of(f), minOccurs=f['min'],
                                   maxOccurs=xsd.UNBOUNDED if f.get('max') is None else f['max'], nillable=f['nil'])
        kw = {'minOccurs': f['min'], 'nillable': f['nil']}
        if f['tag']:
            kw['tagname'] = f['tag']
        if 'def' in f:
            kw['default'] = f['def']
        return xsd.Element(ty, **kw)

    def mktype(t):
        if t['k'] == 's':
            attrs = {'__module__': b.modname}
            if t.get('bt'):
                return type(t['n'], (getattr(xsd, t['bt']),), dict(t['fac'], **attrs))
            if t.get('enum'):
                attrs['enumeration'] = list(t['enum'])
            elif 'pat' in t:
                attrs['pattern'] = t['pat']
            else:
                attrs.update(t['len'])
            return type(t['n'], (xsd.String,), attrs)
        attrs = {'__module__': b.modname, 'INDICATOR': getattr(xsd, t['ind'])}
        base = xsd.ComplexType
        if t['base']:
            base = b.cls[t['base']]
            attrs['INHERITANCE'] = xsd.Inheritance.EXTENSION
        for f in t['f']:
            if 'g' not in f:
                attrs[f['n']] = mkfield(f)
            elif f['g'] not in attrs:
                attrs[f['g']] = xsd.Ref(mkgroup(f['g'], [x for x in t['f'] if x.get('g') == f['g']]))
        return type(t['n'], (base,), attrs)

    def mkgroup(g, fs):
        key = (g, tuple(f['n'] for f in fs))
        if key not in b.groups:
            c = type('G' + g, (xsd.AttributeGroup if fs[0]['k'] == 'a' else xsd.Group,),
                     dict({f['n']: mkfield(f) for f in fs}, __module__=b.modname))
            b.groups[key] = c
        return b.groups[key]

    def mkschema(s):
        if s['id'] in b.schemas:
            return b.schemas[s['id']]
        imports = [mkschema(schema(svc, i)) for i in s['imports']]
        includes = [mkschema(schema(svc, i)) for i in s['includes']]
        before = set(b.groups)
        for t in s['types']:
            c = mktype(t)
            b.cls[t['n']] = c
            setattr(mod, t['n'], c)
        inst = {e['type'] for e in s['elements'] if e['st'] == 'inst'}
        els = {}
        for e in s['elements']:
            if e.get('simple'):
                ty = getattr(xsd, e['type'])
            elif e['st'] == 'inst':
                ty = b.cls[e['type']]()
            elif e['st'] == 'str':
                ty = f'{b.modname}.{e["type"]}'
            else:
                ty = b.cls[e['type']]
            els[e['name']] = xsd.Element(ty, substitutionGroup=e['subst']) if e.get('subst') else xsd.Element(ty)
        sc = xsd.Schema(
            s['ns'], elementFormDefault=getattr(xsd.ElementFormDefault, s['efd'].upper()),
            simpleTypes=[b.cls[t['n']] for t in s['types'] if t['k'] == 's'],
            complexTypes=[b.cls[t['n']] for t in s['types'] if t['k'] == 'c' and t['n'] not in inst],
            groups=[c for k, c in b.groups.items() if k not in before and not issubclass(c, xsd.AttributeGroup)],
            attributeGroups=[c for k, c in b.groups.items() if k not in before and issubclass(c, xsd.AttributeGroup)],
            elements=els, imports=imports, includes=includes, location=s['loc'])
        b.schemas[s['id']] = sc
        return sc

    tops = [mkschema(s) for s in svc['schemas'] if s['top']]
    b.headers = {}

    def mkheader(names, nm):
        if not names:
            return None
        sc = b.schemas[find_elem(svc, names[0])[0]['id']]
        attrs = {'SCHEMA': sc, '__module__': b.modname}
        for n in names:
            attrs[n] = sc.get_element_by_name(n)
        c = type(nm, (xsd.ComplexType,), attrs)
        setattr(mod, nm, c)
        return c

    b.methods = []
    for m in svc['methods']:
        mm = xsd.Method(
            m['op'], m['action'],
            input=b.cls[m['in_cls']] if m.get('in_cls') else m['in'],
            output=b.cls[m['out_cls']] if m.get('out_cls') else m['out'],
            function=(functions or {}).get(m['op']),
            input_header=mkheader(m['ih'], m['op'] + 'InHdr') if m['ih'] != svc.get('ih') else None,
            output_header=mkheader(m['oh'], m['op'] + 'OutHdr') if m['oh'] != svc.get('oh') else None)
        b.methods.append(mm)
    b.service = soap.Service(
        name=svc['name'], targetNamespace=svc['tns'], location=location or svc['loc'], schemas=tops, methods=b.methods,
        version=soap.SOAPVersion.SOAP11 if svc['v'] == 11 else soap.SOAPVersion.SOAP12,
        input_header=mkheader(svc.get('ih'), 'ServiceInHdr'), output_header=mkheader(svc.get('oh'), 'ServiceOutHdr'))
    return b


def to_py_scalar(t, v):
    """Canonical JSON scalar -> the Python value a user would assign."""
    import datetime as D
    if t == 'Date':
        from soapfish.xsd_types import XSDDate
        m = re.match(r'(\d+)-(\d\d)-(\d\d)(.*)$', v)
        return XSDDate(int(m.group(1)), int(m.group(2)), int(m.group(3)), tzinfo=_tz(m.group(4)))
    if t == 'DateTime':
        m = re.match(r'(\d+)-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d+))?(.*)$', v)
        return D.datetime(int(m.group(1)), int(m.group(2)), int(m.group(3)), int(m.group(4)), int(m.group(5)),
                          int(m.group(6)), int((m.group(7) or '0').ljust(6, '0')), tzinfo=_tz(m.group(8)))
    if t == 'Time':
        m = re.match(r'(\d\d):(\d\d):(\d\d)(?:\.(\d+))?(.*)$', v)
        return D.time(int(m.group(1)), int(m.group(2)), int(m.group(3)), int((m.group(4) or '0').ljust(6, '0')),
                      tzinfo=_tz(m.group(5)))
    return v


def _tz(s):
    import datetime as D
    if not s:
        return None
    if s == 'Z':
        return D.timezone.utc
    sg = 1 if s[0] == '+' else -1
    return D.timezone(sg * D.timedelta(hours=int(s[1:3]), minutes=int(s[4:6])))


def _off(tz, ref=None):
    o = tz.utcoffset(ref)
    m = round(o.total_seconds() / 60)
    return f'{"-" if m < 0 else "+"}{abs(m) // 60:02d}:{abs(m) % 60:02d}'


def from_py_scalar(t, v):
    """Python value found in a soapfish object -> canonical JSON scalar, strict about kinds."""
    if t in STRINGS:
        return v if type(v) is str else {'?': f'{type(v).__name__} {v!r}'}
    if t == 'Boolean':
        return v if type(v) is bool else {'?': f'{type(v).__name__} {v!r}'}
    if t in INTS:
        return v if type(v) is int else {'?': f'{type(v).__name__} {v!r}'}
    if t in FLOATS:
        try:
            return float(v) if not isinstance(v, bool) else {'?': repr(v)}
        except (TypeError, ValueError):
            return {'?': f'{type(v).__name__} {v!r}'}
    try:
        if t == 'Date':
            s = f'{v.year:04d}-{v.month:02d}-{v.day:02d}'
            return s + (_off(v.tzinfo) if v.tzinfo is not None else '')
        us = f'.{v.microsecond:06d}' if v.microsecond else ''
        tm = f'{v.hour:02d}:{v.minute:02d}:{v.second:02d}{us}'
        tz = _off(v.tzinfo, v if t == 'DateTime' else None) if v.tzinfo is not None else ''
        if t == 'DateTime':
            return f'{v.year:04d}-{v.month:02d}-{v.day:02d}T{tm}{tz}'
        return tm + tz
    except (AttributeError, TypeError):
        return {'?': f'{type(v).__name__} {v!r}'}


def _prim(svc, sch, t):
    if t.startswith('s:'):
        return find_type(svc, sch, t[2:]).get('bt', 'String')
    return t


def to_obj(b, sch, tname, val, how='attr'):
    """Canonical JSON -> soapfish instance, through the public ways of filling one."""
    svc = b.svc
    cls = b.cls[tname]
    kw = {}
    lists = []
    for f in all_fields(svc, sch, tname):
        if f['n'] not in val:
            continue
        v = val[f['n']]
        if f['k'] == 'l':
            lists.append((f['n'], [to_item(b, sch, f, x, how) for x in v]))
        else:
            kw[f['n']] = to_item(b, sch, f, v, how)
    where = {f['n']: f['g'] for f in all_fields(svc, sch, tname) if 'g' in f}
    if how == 'kw':
        o = cls(**{k: v for k, v in kw.items() if k not in where})
        kw = {k: v for k, v in kw.items() if k in where}
    else:
        o = cls()
    for k, v in kw.items():
        setattr(getattr(o, where[k]) if k in where else o, k, v)
    for k, items in lists:
        if how == 'kw' and items and zlib.crc32(repr(val).encode()) % 2:
            setattr(getattr(o, where[k]) if k in where else o, k, items)     # a list of one's own
            continue
        for x in items:
            getattr(getattr(o, where[k]) if k in where else o, k).append(x)
    return o


def to_item(b, sch, f, v, how):
    from soapfish import xsd
    if is_nil(v):
        return xsd.NIL
    if f['t'].startswith('c:'):
        return to_obj(b, sch, f['t'][2:], v, how)
    p = _prim(b.svc, sch, f['t'])
    if how == 'lex' and p in ('DateTime', 'Time') and isinstance(v, str) and re.search(r'(Z|[+-]\d\d:\d\d)$', v):
        return v                # times may be given in writing
    if how == 'lex' and p in FLOATS and isinstance(v, float):
        x = zlib.crc32(repr(v).encode()) % 3
        if x == 0 and v == v and abs(v) != float('inf') and not f.get('fac') and not f['t'].startswith('s:'):   # 0.1 the float is another number
            return decimal.Decimal(repr(v))
        if x == 1:
            return repr(v)
    if how == 'lex' and p == 'Boolean' and isinstance(v, bool):
        return int(v)          # as good as true and false
    return to_py_scalar(p, v)


def from_obj(b, sch, tname, obj):
    """soapfish instance -> canonical JSON (absent fields omitted, empty lists kept as [])."""
    from soapfish import xsd
    if obj is None or obj is xsd.NIL:
        return {'?': repr(obj)}
    cls = b.cls[tname]
    if not isinstance(obj, cls):
        return {'?': f'{type(obj).__name__} is not a {tname}'}
    out = {}
    for f in all_fields(b.svc, sch, tname):
        v = getattr(getattr(obj, f['g'], None) if 'g' in f else obj, f['n'], None)
        if f['k'] == 'l':
            if not isinstance(v, list):
                out[f['n']] = {'?': repr(v)}
            else:
                out[f['n']] = [from_item(b, sch, f, x) for x in v]
        elif v is not None:
            out[f['n']] = from_item(b, sch, f, v)
    return out


def spoil(b, sch, tname, obj):
    """Change whatever can be changed in an object somebody was given."""
    if not isinstance(obj, b.cls[tname]):
        return
    for f in all_fields(b.svc, sch, tname):
        where = getattr(obj, f['g'], None) if 'g' in f else obj
        v = getattr(where, f['n'], None)
        if f['k'] == 'l' and isinstance(v, list):
            if f['t'].startswith('c:'):
                for x in v:
                    spoil(b, sch, f['t'][2:], x)
            del v[:]
        elif v is not None:
            if f['t'].startswith('c:'):
                spoil(b, sch, f['t'][2:], v)
            try:
                setattr(where, f['n'], None)
            except ValueError:
                pass


def from_item(b, sch, f, v):
    from soapfish import xsd
    if v is xsd.NIL:
        return dict(NILV)
    if f['t'].startswith('c:'):
        return from_obj(b, sch, f['t'][2:], v)
    if v is None:
        return {'?': 'None'}
    return from_py_scalar(_prim(b.svc, sch, f['t']), v)


def hdr_obj(b, cls, hv):
    h = cls()
    for n, v in hv.items():
        sch, e = find_elem(b.svc, n)
        setattr(h, n, to_py_scalar(e['type'], v) if e.get('simple') else to_obj(b, sch, e['type'], v))
    return h


def hdr_from(b, names, h):
    if h is None:
        return None
    out = {}
    for n in names:
        sch, e = find_elem(b.svc, n)
        v = getattr(h, n, None)
        if v is None:
            continue
        out[n] = from_py_scalar(e['type'], v) if e.get('simple') else from_obj(b, sch, e['type'], v)
    return out


def fill(svc, sch, tname, val):
    """What a receiver sees: declared defaults filled in, missing lists empty."""
    out = {}
    for f in all_fields(svc, sch, tname):
        if f['n'] in val:
            v = val[f['n']]
            if f['t'].startswith('c:'):
                if f['k'] == 'l':
                    v = [x if is_nil(x) else fill(svc, sch, f['t'][2:], x) for x in v]
                elif not is_nil(v):
                    v = fill(svc, sch, f['t'][2:], v)
            out[f['n']] = v
        elif f['k'] == 'l':
            out[f['n']] = []
        elif 'def' in f:
            out[f['n']] = f['def']
    return out


# ------------------------------------------------------------------ reference XML Schema
def esc(s, attr=False):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\r', '&#13;')
    if attr:
        s = s.replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;')
    return s


def xsd_builtin(t):
    return 'xs:' + (t if t == 'NMTOKEN' else unc(t))


def ref_xsd(svc, sch, locate=None):
    """XML Schema text for one schema of the spec."""
    o = [f'<xs:schema xmlns:xs="{XSD}" xmlns:t="{esc(sch["ns"], True)}" targetNamespace="{esc(sch["ns"], True)}" '
         f'elementFormDefault="{sch["efd"]}">']
    locate = locate or (lambda s: f'mem:{s["id"]}')
    for i in sch['includes']:
        o.append(f'<xs:include schemaLocation="{esc(locate(schema(svc, i)), True)}"/>')
    for i in sch['imports']:
        s = schema(svc, i)
        o.append(f'<xs:import namespace="{esc(s["ns"], True)}" schemaLocation="{esc(locate(s), True)}"/>')

    def tref(t):
        return xsd_builtin(t) if t[1:2] != ':' else 't:' + unc(t[2:])

    def facets(fac):
        out = []
        for k, v in fac.items():
            if k == 'enumeration':
                out += [f'<xs:enumeration value="{esc(x if isinstance(x, str) else format(decimal.Decimal(repr(x)), "f"), True)}"/>' for x in v]
            else:
                out.append(f'<xs:{k} value="{esc(str(v), True)}"/>')
        return ''.join(out)

    def ctype(t, named):
        out = [f'<xs:complexType name="{unc(t["n"])}">' if named else '<xs:complexType>']
        fs = all_fields(svc, sch, t['n'])
        ind = t['ind'].lower()
        out.append(f'<xs:{ind}>')
        for f in fs:
            if f['k'] == 'a':
                continue
            occ = f' minOccurs="{f["min"]}"'
            if f['k'] == 'l':
                occ += f' maxOccurs="{"unbounded" if f.get("max") is None else f["max"]}"'
            nil = f' nillable="{"true" if f["nil"] else "false"}"'
            if f['fac']:
                out.append(f'<xs:element name="{tag_of(f)}"{occ}{nil}><xs:simpleType><xs:restriction base="{tref(f["t"])}">'
                           f'{facets(f["fac"])}</xs:restriction></xs:simpleType></xs:element>')
            else:
                out.append(f'<xs:element name="{tag_of(f)}" type="{tref(f["t"])}"{occ}{nil}/>')
        out.append(f'</xs:{ind}>')
        for f in fs:
            if f['k'] == 'a':
                if f['fac']:
                    out.append(f'<xs:attribute name="{tag_of(f)}" use="{f["use"]}"><xs:simpleType><xs:restriction base="{tref(f["t"])}">'
                               f'{facets(f["fac"])}</xs:restriction></xs:simpleType></xs:attribute>')
                    continue
                out.append(f'<xs:attribute name="{tag_of(f)}" type="{tref(f["t"])}" use="{f["use"]}"/>')
        out.append('</xs:complexType>')
        return ''.join(out)

    inst = {e['type'] for e in sch['elements'] if e['st'] == 'inst'}
    for t in sch['types']:
        if t['k'] == 's':
            fac = t['fac'] if t.get('bt') else {'enumeration': t['enum']} if t.get('enum') else {'pattern': t['pat']} if 'pat' in t else t['len']
            o.append(f'<xs:simpleType name="{unc(t["n"])}"><xs:restriction base="{xsd_builtin(t.get("bt", "String"))}">{facets(fac)}</xs:restriction>'
                     f'</xs:simpleType>')
        elif t['n'] not in inst:
            o.append(ctype(t, True))
    for e in sch['elements']:
        sub = f' substitutionGroup="t:{e["subst"]}"' if e.get('subst') else ''
        if e.get('simple'):
            o.append(f'<xs:element name="{e["name"]}" type="{xsd_builtin(e["type"])}"{sub}/>')
        elif e['st'] == 'inst':
            o.append(f'<xs:element name="{e["name"]}"{sub}>{ctype(find_type(svc, sch, e["type"]), False)}</xs:element>')
        else:
            o.append(f'<xs:element name="{e["name"]}" type="t:{unc(e["type"])}"{sub}/>')
    o.append('</xs:schema>')
    return ''.join(o)


def ref_validator(svc):
    """lxml XMLSchema compiled from the reference documents only."""
    from lxml import etree
    docs = {f'mem:{s["id"]}': ref_xsd(svc, s) for s in svc['schemas']}

    class R(etree.Resolver):
        def resolve(self, url, pid, ctx):
            if url in docs:
                return self.resolve_string(docs[url], ctx)
            raise ValueError(url)

    p = etree.XMLParser()
    p.resolvers.add(R())
    tops = [s for s in svc['schemas'] if s['top'] and not any(s['id'] in x['imports'] for x in svc['schemas'])]
    if len(tops) == 1:
        root = docs[f'mem:{tops[0]["id"]}']
    else:
        root = f'<xs:schema xmlns:xs="{XSD}">' + ''.join(
            f'<xs:import namespace="{esc(s["ns"], True)}" schemaLocation="mem:{s["id"]}"/>' for s in tops) + '</xs:schema>'
    return etree.XMLSchema(etree.fromstring(root, p))


# ------------------------------------------------------------------ reference rendering
class Style:
    """A way of writing the same message.  ``plain`` is canonical."""

    def __init__(self, rng=None, **k):
        self.r = rng
        g = (lambda p: rng is not None and rng.random() < p)
        self.soap = rng.choice(['s', 'soap', 'SOAP-ENV', 'env', 'ns0', 'x', '']) if rng else 's'
        self.pfx = rng.choice(['n', 'tns', 'ns1', 'p-1', 'm', 'd:']) if rng else 'n'
        if self.pfx == 'd:':
            self.pfx = None                       # default namespace
        if self.soap == '' and self.pfx is None:
            self.soap = 's'
        self.indent = g(0.35)
        self.comments = g(0.25)
        self.pis = g(0.12)
        self.incomments = g(0.15)
        self.cdata = g(0.2)
        self.charrefs = g(0.2)
        self.squote = g(0.3)
        self.decl = rng.choice([None, None, 'utf-8', 'UTF-8', 'utf-16', 'iso-8859-1']) if rng else None
        self.lex = g(0.35)
        self.hoist = g(0.5)
        self.emptyhdr = g(0.2)
        self.extra = g(0.2)
        for a, b in k.items():
            setattr(self, a, b)

    def q(self, s):
        if self.squote:
            return "'" + esc(s, True).replace("'", '&apos;') + "'"
        return '"' + esc(s, True) + '"'


def lex(t, v, st):
    """A lexical form of scalar v; canonical unless the style asks for variants."""
    r = st.r if st is not None and st.lex else None
    if t in STRINGS:
        return v
    if t == 'Boolean':
        s = 'true' if v else 'false'
        if r:
            s = r.choice([s, '1' if v else '0', f' {s} ', f'\n{s}\n'])
        return s
    if t in INTS:
        s = str(v)
        if r:
            s = r.choice([s, '+' + s if v >= 0 else s, ('-00' + s[1:]) if v < 0 else '00' + s, f' {s} '])
        return s
    if t in FLOATS:
        s = repr(float(v))
        if s.endswith('inf'):
            return s.upper()
        if t == 'Decimal' and 'e' in s:
            s = format(decimal.Decimal(s), 'f')
            s = s if '.' in s else s + '.0'
        if r:
            opts = [s, f' {s}', s if 'e' in s else s + '0']
            if s.endswith('.0'):
                opts.append(s[:-2])
            if s.startswith('0.') and len(s) > 2:
                opts.append(s[1:])
            s = r.choice(opts)
        return s
    if r:
        w = v
        if w.endswith('+00:00') and r.random() < 0.5:
            w = w[:-6] + 'Z'
        m = re.match(r'(.*\.\d*?[1-9])0+(\D.*|)$', w)
        if m and r.random() < 0.5:
            w = m.group(1) + m.group(2)
        return w          # no surrounding white space: libxml2 does not collapse it for these types
    return v


def ref_text(s, st):
    r = st.r
    if st.cdata and ']]>' not in s and '\r' not in s:
        return f'<![CDATA[{s}]]>'
    if st.incomments and len(s) > 1:
        i = r.randrange(1, len(s))
        if not (0xd800 <= ord(s[i]) < 0xe000):
            return esc(s[:i]) + '<!-- - c -->' + esc(s[i:])
    if st.charrefs and s:
        i = r.randrange(len(s))
        return esc(s[:i]) + f'&#x{ord(s[i]):x};' + esc(s[i + 1:])
    return esc(s)


def _gap(st, depth):
    out = ''
    if st.indent:
        out += '\n' + '  ' * depth
    if st.comments and st.r.random() < 0.4:
        out += st.r.choice(['<!-- note -->', '<!--<a>b</a>-->'])
    if st.pis and st.r.random() < 0.3:
        out += '<?pi data?>'
    return out


def ref_elem(svc, sch, name, t, val, st, depth=2, top=False, simple=False):
    """One element (message or header) in namespace of its schema."""
    decls = ''
    if top and not st.hoist:
        decls = _nsdecl(st, sch['ns'])
    if simple:
        return f'<{_q(st, name)}{decls}>{ref_text(lex(t, val, st), st)}</{_q(st, name)}>'
    attrs, body = ref_content(svc, sch, t, val, st, depth)
    return f'<{_q(st, name)}{decls}{attrs}>{body}</{_q(st, name)}>'


def _q(st, name):
    return f'{st.pfx}:{name}' if st.pfx else name


def _nsdecl(st, ns):
    n = f'xmlns:{st.pfx}' if st.pfx else 'xmlns'
    return f' {n}={st.q(ns)}'


def ref_content(svc, sch, tname, val, st, depth):
    attrs, kids = [], []
    t = find_type(svc, sch, tname)
    for f in all_fields(svc, sch, tname):
        if f['n'] not in val:
            continue
        v = val[f['n']]
        if f['k'] == 'a':
            attrs.append(f' {tag_of(f)}={st.q(lex(_prim(svc, sch, f["t"]), v, st if f["t"] != "String" else None))}')
            continue
        for x in (v if f['k'] == 'l' else [v]):
            kids.append(ref_field(svc, sch, f, x, st, depth + 1))
    if t['ind'] == 'All' and st.r is not None and st.lex:
        st.r.shuffle(kids)
    if st.r is not None and st.lex:
        st.r.shuffle(attrs)
    body = ''.join(_gap(st, depth + 1) + k for k in kids)
    if kids:
        body += _gap(st, depth)
    return ''.join(attrs), body


def ref_field(svc, sch, f, v, st, depth):
    nm = tag_of(f)
    nsd = ''
    if sch['efd'] == 'qualified':
        nm = _q(st, nm)
    elif not st.pfx or not st.soap:
        nsd = ' xmlns=""'          # unqualified local under a default namespace
    if is_nil(v):
        nilv = st.r.choice(['true', '1']) if st.r is not None and st.lex else 'true'
        extra = ''
        if f['t'].startswith('c:'):
            tn = f['t'][2:]
            for g in all_fields(svc, sch, tn):
                if g['k'] == 'a' and g['use'] == 'required':
                    extra += f' {tag_of(g)}={st.q(lex(_prim(svc, sch, g["t"]), _sample(svc, sch, g), None))}'
        return f'<{nm}{nsd} xmlns:xsi="{XSI}" xsi:nil="{nilv}"{extra}/>'
    nf = ''
    if f['nil'] and st.r is not None and st.lex and st.r.random() < 0.5:
        nf = f' xmlns:xsi="{XSI}" xsi:nil="{st.r.choice(["false", "0"])}"'
    if f['t'].startswith('c:'):
        attrs, body = ref_content(svc, sch, f['t'][2:], v, st, depth)
        return f'<{nm}{nsd}{nf}{attrs}>{body}</{nm}>'
    return f'<{nm}{nsd}{nf}>{ref_text(lex(_prim(svc, sch, f["t"]), v, st), st)}</{nm}>'


def _sample(svc, sch, f):
    import random
    return Gen(random.Random(1)).one(svc, sch, f, 0, attr=True)


def ref_envelope(svc, body_xml, header_xml=None, st=None, nss=()):
    """Wrap rendered body (and header) elements; returns bytes in the style's encoding."""
    st = st or Style()
    sp = f'{st.soap}:' if st.soap else ''
    xm = f'xmlns:{st.soap}' if st.soap else 'xmlns'
    decls = f' {xm}={st.q(ENV[svc["v"]])}'
    if st.hoist:
        for ns in nss:
            decls += _nsdecl(st, ns)
    if st.extra:
        decls += ' xmlns:unused="urn:unused"'
    out = f'<{sp}Envelope{decls}>' + _gap(st, 1)
    if header_xml is not None:
        out += f'<{sp}Header>{_gap(st, 2)}{header_xml}{_gap(st, 1)}</{sp}Header>' + _gap(st, 1)
    elif st.emptyhdr:
        out += f'<{sp}Header/>' + _gap(st, 1)
    out += f'<{sp}Body>{_gap(st, 2)}{body_xml}{_gap(st, 1)}</{sp}Body>' + _gap(st, 0) + f'</{sp}Envelope>'
    enc = st.decl
    if enc:
        out = f'<?xml version="1.0" encoding="{enc}"?>' + out
    if enc == 'utf-16':
        return out.encode('utf-16')
    if enc == 'iso-8859-1':
        return out.encode('iso-8859-1', 'xmlcharrefreplace')
    return out.encode('utf-8')


def ref_message(svc, elem, val, st=None, hdr=None):
    """Complete envelope bytes for element `elem` with canonical value `val` and header dict `hdr`."""
    st = st or Style()
    sch, e = find_elem(svc, elem)
    nss = [sch['ns']]
    hx = None
    if st.pfx is None or any(find_elem(svc, n)[0]['ns'] != sch['ns'] for n in hdr or ()):
        st.hoist = False
    if hdr is not None:
        hx = ''
        for n, v in hdr.items():
            hs, he = find_elem(svc, n)
            hx += ref_elem(svc, hs, n, he['type'], v, st, top=True, simple=he.get('simple')) + _gap(st, 2)
    if st.cdata and st.decl == 'iso-8859-1':
        st.decl = 'utf-8'
    if st.decl == 'iso-8859-1' and st.incomments:
        st.incomments = False
    bx = ref_elem(svc, sch, elem, e['type'], val, st, top=True)
    return ref_envelope(svc, bx, hx, st, nss)


# ------------------------------------------------------------------ reference parsing
def _local(tag):
    return tag.rsplit('}', 1)[-1]


def _nsof(tag):
    return tag[1:].split('}', 1)[0] if tag[0] == '{' else None


def elements(node):
    return [c for c in node if isinstance(c.tag, str)]


def text_of(node):
    return (node.text or '') + ''.join((c.tail or '') for c in node)


def read_scalar(t, s):
    """Lexical form -> canonical JSON scalar."""
    if t in ('String',):
        return s
    w = ' '.join(s.split())
    if t in STRINGS:
        return w
    if t == 'Boolean':
        return {'true': True, '1': True, 'false': False, '0': False}[w]
    if t in INTS:
        return int(w)
    if t in FLOATS:
        return float(w)
    w = w.replace('Z', '+00:00')
    m = re.match(r'^(.*?)(?:\.(\d+))?((?:[+-]\d\d:\d\d)?)$', w) if t != 'Date' else None
    if m and m.group(2) is not None:
        fr = m.group(2)[:6].ljust(6, '0')
        w = m.group(1) + ('.' + fr if int(fr) else '') + m.group(3)
    return w


def ref_parse(svc, sch, tname, node):
    """Element -> canonical JSON (declared defaults not filled)."""
    out = {}
    used = set()
    for f in all_fields(svc, sch, tname):
        if f['k'] == 'a':
            v = node.get(tag_of(f))
            if v is not None:
                out[f['n']] = read_scalar(_prim(svc, sch, f['t']), v)
            used.add('@' + tag_of(f))
            continue
        want = f'{{{sch["ns"]}}}{tag_of(f)}' if sch['efd'] == 'qualified' else tag_of(f)
        xs = [c for c in elements(node) if c.tag == want]
        used.add(want)
        vals = []
        for c in xs:
            if c.get(f'{{{XSI}}}nil') in ('true', '1'):
                vals.append(dict(NILV))
            elif f['t'].startswith('c:'):
                vals.append(ref_parse(svc, sch, f['t'][2:], c))
            else:
                vals.append(read_scalar(_prim(svc, sch, f['t']), text_of(c)))
        if f['k'] == 'l':
            out[f['n']] = vals
        elif vals:
            out[f['n']] = vals[-1]
            if len(vals) > 1:
                out[f['n']] = {'?': 'repeated'}
    for c in elements(node):
        if c.tag not in used:
            out.setdefault('?extra', []).append(c.tag)
    return out


def parse_envelope(svc, data):
    """bytes -> {'fault':..} or {'elem','value','header'}; raises ValueError when it is not a proper SOAP message."""
    from lxml import etree
    try:
        root = etree.fromstring(data, etree.XMLParser(resolve_entities=False, no_network=True))
    except (etree.XMLSyntaxError, ValueError) as e:
        raise ValueError(f'not well-formed: {e}') from e
    env = ENV[svc['v']]
    if root.tag != f'{{{env}}}Envelope':
        raise ValueError(f'root is {root.tag}')
    kids = elements(root)
    tags = [c.tag for c in kids]
    if tags not in ([f'{{{env}}}Body'], [f'{{{env}}}Header', f'{{{env}}}Body']):
        raise ValueError(f'envelope children {tags}')
    body = kids[-1]
    hdr = kids[0] if len(kids) == 2 else None
    bk = elements(body)
    if len(bk) != 1:
        raise ValueError(f'{len(bk)} body elements')
    out = {'header_xml': hdr, 'node': bk[0]}
    n = bk[0]
    if n.tag == f'{{{env}}}Fault':
        if svc['v'] == 11:
            d = {_local(c.tag): c for c in elements(n)}
            if set(d) - {'faultcode', 'faultstring', 'faultactor', 'detail'} or 'faultcode' not in d or 'faultstring' not in d:
                raise ValueError(f'fault children {sorted(d)}')
            for k, c in d.items():
                if _nsof(c.tag):
                    raise ValueError(f'fault child {c.tag} is namespaced')
            out['fault'] = {'code': text_of(d['faultcode']), 'msg': text_of(d['faultstring'])}
        else:
            code = n.find(f'{{{env}}}Code/{{{env}}}Value')
            rs = n.find(f'{{{env}}}Reason/{{{env}}}Text')
            if code is None or rs is None:
                raise ValueError('incomplete SOAP 1.2 fault')
            if not rs.get('{http://www.w3.org/XML/1998/namespace}lang'):
                raise ValueError('Reason/Text without xml:lang')
            out['fault'] = {'code': text_of(code), 'msg': text_of(rs)}
            cv = text_of(code)
            if ':' in cv and code.nsmap.get(cv.split(':')[0]) != env:
                out['fault']['badprefix'] = cv
        return out
    out['elem'] = _local(n.tag)
    out['ns'] = _nsof(n.tag)
    return out


def read_header(svc, names, hdr):
    """Header element -> canonical dict, or None when there is none."""
    if hdr is None:
        return None
    out = {}
    for n in names:
        sch, e = find_elem(svc, n)
        c = hdr.find(f'{{{sch["ns"]}}}{n}')
        if c is None:
            continue
        out[n] = read_scalar(e['type'], text_of(c)) if e.get('simple') else ref_parse(svc, sch, e['type'], c)
    return out


def conforms(svc, data, validator=None):
    """Reference verdict on a request: does it hold exactly one conforming body element and conforming headers?  None: undecided."""
    from lxml import etree
    v = validator or ref_validator(svc)
    try:
        p = parse_envelope(svc, data)
    except ValueError as e:
        return False, str(e)
    try:
        v.assertValid(etree.fromstring(etree.tostring(p['node'])))
        for c in elements(p['header_xml']) if p['header_xml'] is not None else []:
            v.assertValid(etree.fromstring(etree.tostring(c)))
    except etree.DocumentInvalid as e:
        return False, str(e)
    for c in [p['node']] + (elements(p['header_xml']) if p['header_xml'] is not None else []):
        if _far(svc, c):
            return None, p
    return True, p


def _far(svc, node):
    """Conforming, with a date no datetime can hold: refusing it is all an implementation can do."""
    try:
        sch, e = find_elem(svc, _local(node.tag))
    except (KeyError, StopIteration, TypeError, ValueError):
        return False

    def walk(sch, tname, val):
        for f in all_fields(svc, sch, tname):
            for v in val.get(f['n'], []) if f['k'] == 'l' else [val.get(f['n'])]:
                if v is None or is_nil(v):
                    continue
                if f['t'].startswith('c:') and isinstance(v, dict) and '?' not in v and walk(sch, f['t'][2:], v):
                    return True
                if f['t'] in ('Date', 'DateTime') and isinstance(v, str) and re.match(r'-|\d{5}|0000', v):
                    return True
        return False
    if e.get('simple'):
        return e['type'] in ('Date', 'DateTime') and bool(re.match(r'-|\d{5}|0000', read_scalar(e['type'], text_of(node))))
    return walk(sch, e['type'], ref_parse(svc, sch, e['type'], node))

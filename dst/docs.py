"""Sets of WSDL and XSD documents that refer to one another, on a simulated disk or web server.

A set is JSON: {'docs': [...], 'root': 0}; a document: {'id', 'kind': 'xsd'|'wsdl', 'place': 'disk'|'web', 'dir': [...], 'name',
'schemas': [...], 'imports': [...]}; a schema (an XSD has one): {'id', 'tns', 'refs': [[doc id, 'import'|'include', spelling]]}.
"""
import keyword
import os
import posixpath
import random

XSD = 'http://www.w3.org/2001/XMLSchema'
WSDL = 'http://schemas.xmlsoap.org/wsdl/'
SOAP = {11: 'http://schemas.xmlsoap.org/wsdl/soap/', 12: 'http://schemas.xmlsoap.org/wsdl/soap12/'}
WEB = 'docs'
DIRS = ((), ('a',), ('a', 'b'), ('c',), ('c', 'a'), ('xsd',), ('my files',), ('A',))
NAMES = ('types', 'common', 'schema1', 'defs', 'a.b', 'base', 'Types', 'BASE')


def gen(rng, root=None, place=None, cyc=None, maxdocs=7, key=''):
    kind = root or rng.choice(['xsd', 'wsdl', 'wsdl'])
    place = place or rng.choice(['disk', 'disk', 'web', 'mixed'])
    cyc = rng.random() < 0.35 if cyc is None else cyc
    n = rng.randint(1, maxdocs)
    docs, used, used_ns, sid = [], set(), [], 0
    for i in range(n):
        k = kind if i == 0 else ('wsdl' if kind == 'wsdl' and rng.random() < 0.3 else 'xsd')
        pl = place if place != 'mixed' else ('disk' if i == 0 or (rng.random() < 0.5 and all(d['place'] == 'disk' for d in docs)) else 'web')
        while True:
            d, nm = rng.choice(DIRS), rng.choice(NAMES) + ('.wsdl' if k == 'wsdl' else '.xsd')
            if pl == 'web' and ' ' in ''.join(d):
                continue
            if (pl, d, nm) not in used:
                used.add((pl, d, nm))
                break
        ns = rng.choice([1, 1, 2, 3]) if k == 'wsdl' else 1
        schemas = []
        for _ in range(ns if k == 'xsd' or rng.random() < 0.85 else 0):
            tns = f'urn:s{key}{sid}'
            if used_ns and rng.random() < 0.2:     # almost the same as another one
                tns = rng.choice([x for x in (used_ns[-1] + '/', used_ns[-1].replace(':s', ':S'), (used_ns[-1] if '#' in used_ns[-1] else used_ns[-1] + '#'), used_ns[-1] + '.x') if x not in used_ns])
            used_ns.append(tns)
            schemas.append({'id': sid, 'tns': tns, 'refs': [], 'pre': rng.choice(['xs', 'xsd', 's', 'xs']), 'efd': rng.choice(['qualified', 'unqualified', None])})
            sid += 1
        rank = rng.sample(schemas, len(schemas))
        for a in range(len(rank)):              # schemas of one description, which need no location to find one another
            rank[a]['sib'] = sorted(b['id'] for b in rank[a + 1:] if rng.random() < 0.6)
            if rank[a]['sib'] and rng.random() < 0.6:
                rank[a]['ext'] = rng.choice(rank[a]['sib'])
        docs.append({'id': i, 'enc': rng.choice(['', '', '', 'utf-8', 'utf-16', 'iso-8859-1']), 'kind': k, 'place': pl, 'dir': list(d), 'name': nm, 'schemas': schemas, 'imports': []})
    # edges: a tree first, so that everything is reachable (mostly), then extra ones
    edges = []
    lost = set()
    for j in range(1, n):
        if rng.random() < 0.08 and j > 1:
            lost.add(j)             # nobody refers to it: a decoy
            continue
        c = [i for i in range(j) if i not in lost and ok(docs[i], docs[j])]
        if c:
            edges.append((rng.choice(c), j))
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        i, j = rng.randrange(n), rng.randrange(n)
        if not cyc and j <= i:
            i, j = j, i
        if i == j and not cyc:
            continue
        if i in lost or j in lost or not ok(docs[i], docs[j]) or (docs[j]['place'] == 'disk' and docs[i]['place'] == 'web'):
            continue
        if not cyc and j <= i:
            continue
        if j == 0 and docs[0]['kind'] == 'xsd':
            continue                # a root schema inside a cycle is generated twice (known limit)
        edges.append((i, j))
    for i, j in edges:
        sp = rng.choice(['rel', 'rel', 'rel', 'dot', 'updown', 'abs'])
        if docs[i]['place'] != docs[j]['place']:
            sp = 'abs'
        if docs[j]['kind'] == 'wsdl':
            if [j, sp] not in docs[i]['imports'] and not any(x[0] == j for x in docs[i]['imports']):
                docs[i]['imports'].append([j, sp])
        else:
            s = rng.choice(docs[i]['schemas'])
            if any(x[0] == j for x in s['refs']) or any(x[0] == j and x[1] == 'include' for d in docs for t in d['schemas'] for x in t['refs']):
                continue
            how = 'include' if rng.random() < 0.25 and not includes_elsewhere(docs, j, s) else 'import'
            if how == 'include' and docs[i]['kind'] == 'xsd' and i == j:
                how = 'import'
            s['refs'].append([j, how, sp])
    # an included schema has the target namespace of the one that includes it
    for _ in range(n):
        for d in docs:
            for s in d['schemas']:
                for j, how, _sp in s['refs']:
                    if how == 'include':
                        docs[j]['schemas'][0]['tns'] = s['tns']
                        docs[j]['schemas'][0].setdefault('cham', rng.random() < 0.4)
    ver = rng.choice([11, 11, 12])
    spec = {'level': rng.random() < 0.25, 'docs': docs, 'root': 0, 'v': ver, 'key': key, 'decoys': rng.random() < 0.7, 'framing': rng.choice(['length', 'chunked', 'close']),
            'ops': rng.randint(1, 3) if kind == 'wsdl' else 0, 'cyclic': cyclic(docs)}
    if kind == 'wsdl':
        w = [d['id'] for d in docs if d['kind'] == 'wsdl' and d['id'] in reach(spec)]
        spec['abstract'] = rng.choice(w)
        spec['concrete'] = rng.choice([0, 0, rng.choice(w)])
        spec['binding'] = rng.choice([spec['concrete'], spec['concrete'], rng.choice(w)])
        spec['wx'] = {'io': [rng.choice(['eo', 'eo', 'oe', 'ee', 'qo', 'eq']) for _ in range(spec['ops'])], 'names': [rng.choice([f'op{o}', f'op{o}', f'op-{o}', f'op.{o}', f'import{o}'][:4 if o else 5]) for o in range(spec['ops'])], 'hdr': [rng.choice([0, 0, 1, 2]) for _ in range(spec['ops'])],
                      'ohdr': [rng.choice([0, 0, 0, 1]) for _ in range(spec['ops'])], 'fault': rng.random() < 0.3, 'doc': rng.random() < 0.3,
                      'at2': rng.choice(['http://host', 'https://host', 'https://other.example:8443']), 'more': rng.choice(['', '', 'port', 'service', 'http']), 'qs': rng.choice(['', '', '?svc=a&v=1', ';p=1?x=%41']), 'v2': rng.choice([11, 12]), 'act': [rng.choice(['urn:act', 'urn:act', 'http://a.example/x?y=1&z=', '"q" é']) for _ in range(spec['ops'])]}
        spec['messages'] = [[rng.choice([spec['abstract'], rng.choice(w)]) for _ in range(2)] for _ in range(spec['ops'])]
    sub = random.Random(rng.randrange(1 << 30))
    for d in docs:
        for s in d['schemas']:
            if sub.random() < 0.5:
                s['defs'] = gen_defs(sub)
    if kind == 'wsdl' and not any(docs[i]['kind'] == 'wsdl' and main_elems(spec) in docs[i]['schemas'] for i in reach(spec)):
        spec['wx']['hdr'] = spec['wx']['ohdr'] = [0] * spec['ops']       # elements of headers have to be declared in the WSDL itself (known limit)
    return spec


# ------------------------------------------------------------------ further definitions of a schema
SAMPLE = {'string': 'a b', 'int': '7', 'long': '-5000000000', 'boolean': 'true', 'decimal': '1.5', 'date': '2020-02-29', 'dateTime': '2020-02-29T01:02:03+02:00',
          'short': '-3', 'unsignedInt': '9', 'anyURI': 'urn:x', 'base64Binary': 'YWI=', 'double': '0.5', 'nonNegativeInteger': '0', 'positiveInteger': '12', 'NMTOKEN': 'a-1'}
FNAMES = ('x', 'name', 'my-field', 'class', 'x.y', 'Value', 'from', 'z9')
FACETS = [('string', [('enumeration', 'v1'), ('enumeration', 'é w'), ('enumeration', "q'1")], 'é w'), ('string', [('pattern', r'[a-c]+\d{2}')], 'ab12'),
          ('string', [('length', '3')], 'xyz'), ('string', [('minLength', '2'), ('maxLength', '4')], 'xyz'), ('int', [], '7'), ('string', [], 'a b'),
          ('decimal', [], '1.5'), ('date', [], '2020-02-29'), ('string', [('pattern', "[a-c]'\\\\x")], "b'\\x"),
          ('int', [('enumeration', '7'), ('enumeration', '-12')], '-12'), ('decimal', [('minInclusive', '1.5'), ('maxExclusive', '20')], '1.5'),
          ('long', [('minExclusive', '-5000000001'), ('maxInclusive', '7')], '-5000000000'), ('positiveInteger', [('maxInclusive', '12')], '12'),
          ('double', [('enumeration', '0.5'), ('enumeration', '1e10')], '0.5'), ('short', [('pattern', '-?[0-9]')], '-3')]
BAD = {'v1': ['v2'], '[a-c]+\\d{2}': ['ab1'], '3': ['wxyz', 'wx'], '2': ['x', 'wxyzw'], '7': [8], '1.5': [1.25, 20], '-5000000001': [-5000000001, 8], '12': [13, 0], '0.5': [1.0],
       '-?[0-9]': [12]}
INLINE = [('int', [('minInclusive', '0'), ('maxExclusive', '10')], '5'), ('string', [('enumeration', 'k'), ('enumeration', 'l"')], 'l"'),
          ('decimal', [('totalDigits', '4'), ('fractionDigits', '2')], '12.25'), ('string', [('pattern', 'a?b'), ('maxLength', '2')], 'ab'), ('string', [('length', '2')], 'zz'),
          ('int', [('enumeration', '7'), ('enumeration', '-12')], '-12'), ('decimal', [('enumeration', '1.5'), ('enumeration', '-20.5')], '-20.5'), ('short', [('enumeration', '3')], '3'),
          ('decimal', [('minExclusive', '10.5')], '10.75'), ('int', [('minExclusive', '-3'), ('maxInclusive', '7')], '-2'), ('long', [('minInclusive', '-3')], '-3')]
INLINE_BAD = [(-1, 10), ('j',), (123.25, 1.5), ('bb', 'aab'), ('z', 'zzz'), (8,), (1.25,), (4,), (10.5, 10.25), (-3, 8), (-4,)]


def gen_defs(rng):
    """Definitions, in the order they are declared in; the names are local to the schema."""
    out = []
    sts, cts, ags, bases = [], [], [], []
    for i in range(rng.choice([0, 0, 1, 2, 3])):
        if sts and rng.random() < 0.6:
            b = rng.choice(sts)
            sts.append({'k': 'st', 'n': f'A{i}', 'base': b['n'], 'facets': [['enumeration', b['sample']]] if b['facets'] and b['facets'][0][0] == 'enumeration' and rng.random() < 0.5 else [],
                        'sample': b['sample'], 'own': 1, 'bad': b['bad']})
        else:
            b, f, x = rng.choice(FACETS)
            sts.append({'k': 'st', 'n': f'A{i}', 'base': b, 'facets': [list(y) for y in f], 'sample': x, 'bad': BAD.get(f[0][1]) if f else None})
    if rng.random() < 0.3:
        ags.append({'k': 'agroup', 'n': 'H0', 'attrs': gen_attrs(rng, sts, 2, ('h', 'in', 'h-2'))})
    n = rng.choice([0, 1, 2, 3, 5])
    for i in range(n):
        ext = bool(bases) and rng.random() < 0.6
        comp = 'sequence' if rng.random() < 0.65 or ext else rng.choice(['all', 'choice'])
        d = {'k': 'ct', 'n': f'C{i}', 'comp': comp, 'fields': [], 'attrs': gen_attrs(rng, sts, rng.choice([0, 0, 1, 2]), tuple(f'{x}{i}' for x in ('a', 'b-', 'c')))}
        if ext:
            d['base'] = rng.choice(bases)['n']
            if rng.random() < 0.2 and d['attrs']:
                d['comp'] = comp = None
        names = rng.sample(FNAMES, rng.randint(1, 3))
        for f in names if comp else ():
            lo, hi = rng.choice([(1, 1), (1, 1), (0, 1), (0, None), (1, 3), (2, 4), (0, 2), (0, 12), (3, 11)])
            if comp == 'all':
                lo, hi = min(lo, 1), 1
            y = rng.random()
            if y < 0.2 and sts:
                t = rng.choice(sts)['n']
            elif y < 0.45 and (comp != 'choice' or d['fields']):
                t = f'C{rng.randrange(n)}'
                if comp != 'choice' and not d.get('base') and lo and hi != 1:
                    lo = 0                       # a type that needs itself has no instances
                if lo and comp != 'choice':
                    t = 'int'
            elif y < 0.6:
                t = rng.randrange(len(INLINE))
            else:
                t = rng.choice(sorted(SAMPLE))
            d['fields'].append([f if not ext else f'{f}{i}', t, lo, hi])
        if ags and not ext and rng.random() < 0.5:
            d['ag'] = 'H0'
        cts.append(d)
        if comp == 'sequence' and (not d.get('base') or True):
            bases.append(d)
    if rng.random() < 0.25:
        ags.append({'k': 'group', 'n': 'G0', 'fields': [[f, rng.choice(sorted(SAMPLE)), *rng.choice([(1, 1), (0, 1), (0, None), (2, 3), (1, 10)])] for f in rng.sample(FNAMES, rng.randint(1, 3))]})
    out = sts + cts + ags
    if rng.random() < 0.4:
        d = {'k': 'iel', 'n': 'm0', 'comp': rng.choice(['sequence', 'sequence', 'all', 'choice']), 'attrs': [], 'fields': [[f'{f}m', rng.choice(sorted(SAMPLE)), 1, 1] for f in rng.sample(FNAMES, 2)]}
        if bases and rng.random() < 0.5:
            d.update(base=rng.choice(bases)['n'], comp='sequence')
        out.append(d)
    if rng.random() < 0.6:
        rng.shuffle(out)
    return out


def gen_attrs(rng, sts, n, names):
    return [[x, rng.choice(sts)['n'] if sts and rng.random() < 0.3 else rng.randrange(len(INLINE)) if rng.random() < 0.25 else rng.choice(['string', 'int', 'boolean', 'date']), rng.choice(['optional', 'required', None])] for x in names[:n]]


def defs_xml(defs, p, t_, n):
    """n: what makes the names unique"""
    def ty(t):
        return f'{p}:{t}' if t in SAMPLE else f'{t_}{t}{n}'

    def simple(base, facets, name=''):
        return f'<{p}:simpleType{name}><{p}:restriction base="{base}">' + ''.join(f'<{p}:{k} value="{esc(x)}"/>' for k, x in facets) + f'</{p}:restriction></{p}:simpleType>'

    def fld(f):
        name, t, lo, hi = f
        occ = ('' if lo == 1 else f' minOccurs="{lo}"') + ('' if hi == 1 else f' maxOccurs="{"unbounded" if hi is None else hi}"')
        if isinstance(t, int):
            return f'<{p}:element name="{name}"{occ}>{simple(p + ":" + INLINE[t][0], INLINE[t][1])}</{p}:element>'
        return f'<{p}:element name="{name}" type="{ty(t)}"{occ}/>'

    def attr(a):
        if isinstance(a[1], int):
            return f'<{p}:attribute name="{a[0]}"' + (f' use="{a[2]}"' if a[2] else '') + f'>{simple(p + ":" + INLINE[a[1]][0], INLINE[a[1]][1])}</{p}:attribute>'
        return f'<{p}:attribute name="{a[0]}" type="{ty(a[1])}"' + (f' use="{a[2]}"' if a[2] else '') + '/>'

    def content(d):
        x = f'<{p}:{d["comp"]}>{"".join(map(fld, d["fields"]))}</{p}:{d["comp"]}>' if d['comp'] else ''
        x += ''.join(map(attr, d['attrs'])) + (f'<{p}:attributeGroup ref="{t_}{d["ag"]}{n}"/>' if d.get('ag') else '')
        if d.get('base'):
            x = f'<{p}:complexContent><{p}:extension base="{ty(d["base"])}">{x}</{p}:extension></{p}:complexContent>'
        return x
    out = []
    for d in defs:
        nm = f'{d["n"]}{n}'
        if d['k'] == 'st':
            out.append(simple(ty(d['base']), d['facets'], f' name="{nm}"'))
        elif d['k'] == 'agroup':
            out.append(f'<{p}:attributeGroup name="{nm}">{"".join(map(attr, d["attrs"]))}</{p}:attributeGroup>')
        elif d['k'] == 'group':
            out.append(f'<{p}:group name="{nm}"><{p}:sequence>{"".join(map(fld, d["fields"]))}</{p}:sequence></{p}:group>')
        elif d['k'] == 'ct':
            out.append(f'<{p}:complexType name="{nm}">{content(d)}</{p}:complexType>')
        else:
            out.append(f'<{p}:element name="{nm}"><{p}:complexType>{content(d)}</{p}:complexType></{p}:element>')
    return ''.join(out)


def sample(defs, n, t, rng, depth=0):
    """What an element of the type holds: (attributes, [(name, text or such a pair)])"""
    by = {d['n']: d for d in defs}
    if isinstance(t, int):
        return INLINE[t][2]
    if t in SAMPLE:
        return SAMPLE[t]
    d = by[t]
    if d['k'] == 'st':
        return d['sample']
    attrs, kids = {}, []
    if d.get('base'):
        attrs, kids = sample(defs, n, d['base'], rng, depth)
        attrs, kids = dict(attrs), list(kids)
    al = list(d['attrs']) + (by[d['ag']]['attrs'] if d.get('ag') else [])
    for a in al:
        if a[2] == 'required' or rng.random() < 0.6:
            attrs[a[0]] = sample(defs, n, a[1], rng)
    fs = d['fields']
    if d['comp'] == 'choice':
        flat = [f for f in fs if f[1] not in by or by[f[1]]['k'] == 'st'] if depth > 2 else fs
        fs = [rng.choice(flat or fs)]
    for f, ft, lo, hi in fs:
        hi = 3 if hi is None else hi
        if d['comp'] == 'choice':
            lo = max(lo, 1)
        deep = ft in by and by[ft]['k'] == 'ct'
        c = rng.randint(lo, hi) if not (deep and depth > 1) else lo
        for _ in range(c):
            kids.append((f, sample(defs, n, ft, rng, depth + 1)))
    return attrs, kids


def ok(a, b):
    """May a refer to b?"""
    if b['kind'] == 'wsdl':
        return a['kind'] == 'wsdl' and not (a['place'] == 'web' and b['place'] == 'disk')
    return bool(a['schemas']) and not (a['place'] == 'web' and b['place'] == 'disk')


def includes_elsewhere(docs, j, s):
    """An included document must not be referred to in another way (it has one target namespace)."""
    return any(x[0] == j for d in docs for t in d['schemas'] for x in t['refs']) or any(x[1] == 'include' for x in docs[j]['schemas'][0]['refs'])


def succ(d):
    return [x[0] for x in d['imports']] + [x[0] for s in d['schemas'] for x in s['refs']]


def cyclic(docs):
    state = {}

    def go(i):
        if state.get(i) == 1:
            return True
        if state.get(i) == 2:
            return False
        state[i] = 1
        r = any(go(j) for j in succ(docs[i]))
        state[i] = 2
        return r
    return any(go(d['id']) for d in docs)


def reach(spec):
    seen, todo = set(), [spec['root']]
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo += succ(spec['docs'][i])
    return seen


# ------------------------------------------------------------------ places
def path_of(d, base, spec):
    rel = posixpath.join(*d['dir'], d['name'])
    k = spec['key']
    if d['place'] == 'web':
        return f'http://{WEB}/{k}w/{rel}'
    return f'{base}/{k}d/{rel}'


def spell(a, b, sp, base, spec):
    pa, pb = path_of(a, base, spec), path_of(b, base, spec)
    if sp == 'abs' or (a['place'] != b['place']):
        return pb
    rel = posixpath.relpath(pb.replace('http://', '/'), posixpath.dirname(pa.replace('http://', '/')))
    if sp == 'dot':
        return './' + rel
    if sp == 'updown' and a['dir']:
        return '../' + a['dir'][-1] + '/' + rel
    return rel


# ------------------------------------------------------------------ text
def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')


def schema_xml(d, s, base, spec, decl=True, extra=''):
    docs = spec['docs']
    p, n = s['pre'], f'{spec["key"]}{s["id"]}'
    cham = s.get('cham')                 # no target namespace of its own: takes that of the including schema
    nss = [f'xmlns:{p}="{XSD}"'] + ([] if cham else [f'xmlns:t="{s["tns"]}"'])
    t_ = '' if cham else 't:'
    lines, fields = [], []
    for k, (j, how, sp) in enumerate(s['refs']):
        t = docs[j]['schemas'][0]
        loc = esc(spell(d, docs[j], sp, base, spec))
        if how == 'import':
            nss.append(f'xmlns:x{k}="{t["tns"]}"')
            lines.append(f'<{p}:import namespace="{t["tns"]}" schemaLocation="{loc}"/>')
            fields.append(f'<{p}:element name="r{k}" type="x{k}:T{spec["key"]}{t["id"]}" minOccurs="0"/>')
        else:
            lines.append(f'<{p}:include schemaLocation="{loc}"/>')
            fields.append(f'<{p}:element name="r{k}" type="{t_}T{spec["key"]}{t["id"]}" minOccurs="0"/>')
    for b in s.get('sib', ()):
        t = next(x for x in d['schemas'] if x['id'] == b)
        nss.append(f'xmlns:y{b}="{t["tns"]}"')
        lines.append(f'<{p}:import namespace="{t["tns"]}"/>')
        fields.append(f'<{p}:element name="b{b}" type="y{b}:T{spec["key"]}{b}" minOccurs="0"/>')
    if s.get('ext') in s.get('sib', ()):
        b = s['ext']
        extra = (f'<{p}:complexType name="Xx{n}"><{p}:complexContent><{p}:extension base="y{b}:U{spec["key"]}{b}"><{p}:sequence><{p}:element name="x{n}" type="{p}:string"/>'
                 f'</{p}:sequence></{p}:extension></{p}:complexContent></{p}:complexType>'
                 f'<{p}:simpleType name="Zz{n}"><{p}:restriction base="y{b}:S{spec["key"]}{b}"><{p}:enumeration value="w"/></{p}:restriction></{p}:simpleType>') + extra
    lines.sort(key=lambda x: 'import' in x)      # soapfish's model and XSD allow any order
    efd = f' elementFormDefault="{s["efd"]}"' if s['efd'] else ''
    body = ''.join(lines) + (
        f'<{p}:simpleType name="S{n}"><{p}:restriction base="{p}:string"><{p}:enumeration value="v{n}{"é€" if spec.get("uni") else ""}"/><{p}:enumeration value="w"/></{p}:restriction></{p}:simpleType>'
        f'<{p}:complexType name="T{n}"><{p}:sequence><{p}:element name="f{n}" type="{p}:string"/><{p}:element name="i" type="{p}:int" minOccurs="0"/>'
        f'{"" if not spec.get("rev") else rev_xml(p, spec["rev"])}<{p}:element name="s" type="{t_}S{n}" minOccurs="0"/><{p}:element name="l" type="{p}:dateTime" minOccurs="0" maxOccurs="unbounded"/><{p}:element name="u" type="{t_}U{n}" minOccurs="0"/>{"".join(fields)}</{p}:sequence>'
        f'<{p}:attribute name="a{n}" type="{p}:string"/></{p}:complexType>'
        f'<{p}:complexType name="U{n}"><{p}:sequence><{p}:element name="k{n}" type="{p}:long"/></{p}:sequence></{p}:complexType>'
        f'<{p}:element name="e{n}" type="{t_}T{n}"/><{p}:element name="q{n}"><{p}:complexType><{p}:sequence><{p}:element name="g{n}" type="{p}:boolean"/></{p}:sequence></{p}:complexType></{p}:element>'
        f'<{p}:element name="o{n}" type="{t_}T{n}"/>' + defs_xml(s.get('defs', ()), p, t_, n))
    if spec.get('bulk') and d['id'] == spec['root'] and s is d['schemas'][0]:
        body += f'<{p}:simpleType name="Bulk"><{p}:restriction base="{p}:string">' + ''.join(f'<{p}:enumeration value="licence term {k}"/>' for k in range(spec['bulk'])) + f'</{p}:restriction></{p}:simpleType>'
    tns = '' if cham else f' targetNamespace="{s["tns"]}"'
    return f'<{p}:schema {" ".join(nss)}{tns}{efd}>{body}{extra}</{p}:schema>'


def rev_xml(p, rev):
    """What a later revision of the same document adds."""
    return f'<{p}:element name="rev{rev}" type="{p}:{("long", "date")[rev % 2]}" minOccurs="0"/>'


def main_elems(spec):
    """Element names of the operations' messages: from the first schema of the root, else of any reachable document."""
    for i in sorted(reach(spec)):
        for s in spec['docs'][i]['schemas']:
            return s
    return None


def doc_xml(d, base, spec):
    if d['kind'] == 'xsd':
        return '<?xml version="1.0" encoding="utf-8"?>\n' + schema_xml(d, d['schemas'][0], base, spec)
    docs, v = spec['docs'], spec['v']
    out = [f'<wsdl:definitions xmlns:wsdl="{WSDL}" xmlns:soap="{SOAP[v]}" xmlns:tns="urn:w{spec["key"]}" targetNamespace="urn:w{spec["key"]}"']
    ms = main_elems(spec)
    if ms:
        out.append(f' xmlns:m="{ms["tns"]}"')
    out.append('>')
    for j, sp in d['imports']:
        out.append(f'<wsdl:import namespace="urn:w{spec["key"]}" location="{esc(spell(d, docs[j], sp, base, spec))}"/>')
    if d['schemas']:
        out.append('<wsdl:types>' + ''.join(schema_xml(d, s, base, spec) for s in d['schemas']) + '</wsdl:types>')
    n = f'{spec["key"]}{ms["id"]}' if ms else ''
    ops = range(spec['ops'] if ms else 0)
    wx = spec['wx']
    note = '<wsdl:documentation>to be &lt;read&gt; by {{ nobody }}</wsdl:documentation>' if wx['doc'] else ''
    for o in ops:
        where = spec['messages'][o]
        if d['id'] == where[0]:
            out.append(f'<wsdl:message name="op{o}In"><wsdl:part name="body" element="m:{io(spec, o)[0]}{n}"/></wsdl:message>')
            if wx['hdr'][o] or wx['ohdr'][o]:
                out.append(f'<wsdl:message name="op{o}Hd"><wsdl:part name="h0" element="m:q{n}"/><wsdl:part name="h1" element="m:o{n}"/></wsdl:message>')
        if d['id'] == where[1]:
            out.append(f'<wsdl:message name="op{o}Out"><wsdl:part name="body" element="m:{io(spec, o)[1]}{n}"/></wsdl:message>')
            if wx['fault']:
                out.append(f'<wsdl:message name="op{o}Flt"><wsdl:part name="f" element="m:q{n}"/></wsdl:message>')
    if d['id'] == spec['abstract']:
        out.append(f'<wsdl:portType name="PT">{note}' + ''.join(
            f'<wsdl:operation name="{wx["names"][o]}">{note}<wsdl:input message="tns:op{o}In"/><wsdl:output message="tns:op{o}Out"/>'
            + (f'<wsdl:fault name="f" message="tns:op{o}Flt"/>' if wx['fault'] else '') + '</wsdl:operation>' for o in ops) + '</wsdl:portType>')
    if d['id'] == spec['binding']:
        for nm in ('B', 'B2') if wx['more'] in ('port', 'service') else ('B',):
            sv = spec['v'] if nm == 'B' else wx['v2']
            req = ' soapActionRequired="false"' if sv == 12 and wx['doc'] else ''
            out.append(f'<wsdl:binding name="{nm}" type="tns:PT" xmlns:soap="{SOAP[sv]}"><soap:binding style="document" transport="http://schemas.xmlsoap.org/soap/http"/>' + ''.join(
                f'<wsdl:operation name="{wx["names"][o]}"><soap:operation soapAction="{esc(action(spec, o, nm))}" style="document"{req}/><wsdl:input><soap:body use="literal"/>'
                + ''.join(f'<soap:header message="tns:op{o}Hd" part="h{k}" use="literal"/>' for k in range(wx['hdr'][o]))
                + '</wsdl:input><wsdl:output><soap:body use="literal"/>' + ''.join(f'<soap:header message="tns:op{o}Hd" part="h{k}" use="literal"/>' for k in range(wx['ohdr'][o]))
                + '</wsdl:output>' + ('<wsdl:fault name="f"><soap:fault name="f" use="literal"/></wsdl:fault>' if wx['fault'] else '') + '</wsdl:operation>' for o in ops) + '</wsdl:binding>')
        if wx['more'] == 'http':
            out.append(f'<wsdl:binding name="B2" type="tns:PT" xmlns:http="{WSDL}http/"><http:binding verb="GET"/></wsdl:binding>')
    if d['id'] == spec['concrete']:
        p2 = {'port': f'<wsdl:port name="Prt2" binding="tns:B2"><soap:address location="{wx.get("at2", "http://host")}/y{spec["key"]}{esc(wx["qs"])}"/></wsdl:port>',
              'http': f'<wsdl:port name="Prt2" binding="tns:B2"><http:address xmlns:http="{WSDL}http/" location="http://host/y"/></wsdl:port>'}
        out.append(f'<wsdl:service name="Svc">{note}<wsdl:port name="Prt" binding="tns:B">'
                   f'<soap:address location="http://host/x{spec["key"]}{esc(wx["qs"])}"/></wsdl:port>{p2.get(wx["more"], "")}</wsdl:service>')
        if wx['more'] == 'service':
            out.append(f'<wsdl:service name="Svc2">{p2["port"]}</wsdl:service>')
    out.append('</wsdl:definitions>')
    return ''.join(out)


def io(spec, o):
    return spec['wx'].get('io', ['eo'] * 9)[o]


def action(spec, o, binding='B'):
    return spec['wx']['act'][o] + str(o) + ('' if binding == 'B' else 'b')


def decoy_xml(kind, tag):
    s = (f'<xs:schema xmlns:xs="{XSD}" targetNamespace="urn:decoy"><xs:complexType name="Decoy{tag}"><xs:sequence><xs:element name="x" type="xs:string"/>'
         f'</xs:sequence></xs:complexType></xs:schema>')
    return s if kind == 'xsd' else f'<definitions xmlns="{WSDL}" targetNamespace="urn:decoy"><types>{s}</types></definitions>'


def files(spec, base):
    """path -> bytes, everything on disk and on the web, decoys included."""
    out = {}
    docs = spec['docs']
    for d in docs:
        x = doc_xml(d, base, spec)
        if d['id'] == spec['root'] and spec.get('pad'):
            x = '<?xml version="1.0" encoding="utf-8"?>\n<!--' + 'é licence terms ' * spec['pad'] + '-->\n' + x[x.startswith('<?xml') and x.index('\n') + 1:]
        enc = d.get('enc') if not spec.get('level') else ''
        if enc:
            x = f'<?xml version="1.0" encoding="{enc}"?>\n' + x[x.startswith('<?xml') and x.index('\n') + 1:]
        out[path_of(d, base, spec)] = x.encode(enc or 'utf-8', 'xmlcharrefreplace')
    if spec.get('level'):         # documents of one length
        n = max(map(len, out.values())) + 8
        for p, x in out.items():
            k = x.index(b'\n') + 1 if x.startswith(b'<?xml') else 0
            out[p] = x[:k] + b'<!--' + b'.' * (n - len(x) - 7) + b'-->' + x[k:]
    if spec.get('decoys'):
        for d in docs:
            for j, sp in list(d['imports']) + [(x[0], x[2]) for s in d['schemas'] for x in s['refs']]:
                if sp == 'abs' or docs[j]['place'] != d['place']:
                    continue
                rel = spell(d, docs[j], sp, base, spec)
                for o in docs:          # the same relative reference, resolved against the wrong document
                    if o['place'] != d['place']:
                        continue
                    po = path_of(o, base, spec)
                    pre = 'http://' if '://' in po else ''
                    w = pre + posixpath.normpath(posixpath.join(posixpath.dirname(po[len(pre):]), rel))
                    if w not in out and (pre or w.startswith(base + '/')) and (not pre or w.startswith(f'http://{WEB}/')):
                        out[w] = decoy_xml(docs[j]['kind'], f'{spec["key"]}{j}').encode()
    return out


def cwd_of(spec, base):
    return posixpath.dirname(path_of(spec['docs'][spec['root']], base, spec))


def root_path(spec, base):
    return path_of(spec['docs'][spec['root']], base, spec)


def expected(spec):
    """Names the generated code has to define: classes, global elements."""
    cl, el = set(), set()
    for i in reach(spec):
        for s in spec['docs'][i]['schemas']:
            n = f'{spec["key"]}{s["id"]}'
            cl |= {f'S{n}', f'T{n}', f'Q{n}', f'U{n}'}
            if s.get('ext') in s.get('sib', ()):
                cl |= {f'Xx{n}', f'Zz{n}'}
            el |= {f'e{n}', f'q{n}', f'o{n}'}
            for d in s.get('defs', ()):
                nm = f'{d["n"]}{n}'
                cl.add(nm[0].upper() + nm[1:])
                if d['k'] == 'iel':
                    el.add(nm)
    return cl, el


def namespaces(spec):
    """target namespace -> global elements"""
    out = {}
    for i in reach(spec):
        for s in spec['docs'][i]['schemas']:
            n = f'{spec["key"]}{s["id"]}'
            out.setdefault(s['tns'], set()).update({f'e{n}', f'q{n}', f'o{n}'} | {f'{d["n"]}{n}' for d in s.get('defs', ()) if d['k'] == 'iel'})
    return out


def fields(spec):
    """class -> fields it must have"""
    out = {}
    for i in reach(spec):
        for s in spec['docs'][i]['schemas']:
            n = f'{spec["key"]}{s["id"]}'
            out[f'T{n}'] = {f'f{n}', 'i', 's', 'l', 'u', f'a{n}'} | {f'r{k}' for k in range(len(s['refs']))} | {f'b{b}' for b in s.get('sib', ())}
            out[f'Q{n}'] = {f'g{n}'}
            if s.get('ext') in s.get('sib', ()):
                out[f'Xx{n}'] = {f'x{n}'}
            out[f'U{n}'] = {f'k{n}'}
            for d in s.get('defs', ()):
                nm = f'{d["n"]}{n}'
                out[nm[0].upper() + nm[1:]] = {pyname(x[0]) for x in d.get('fields', []) + d.get('attrs', [])}
    return out


def pyname(x):
    x = x.replace('-', '_').replace('.', '_')
    return '_' + x if keyword.iskeyword(x) else x


def write(fs, base):
    for p, data in fs.items():
        if '://' not in p:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(data)


TYPES = (b'text/xml', b'application/xml', b'text/plain', b'text/xml')


def serve(net, sim, fs, framing='length'):
    """A web server for the documents; answers in the network's time."""
    hits = []

    def handler(conn, head, body, end, dup):
        line = head.split(b'\r\n', 1)[0].decode('latin-1')
        path = line.split(' ')[1]
        if '://' in path:
            path = '/' + path.split('/', 3)[3]
        u = f'http://{WEB}{path.split("?")[0]}'
        hits.append(u)
        if end:
            return
        data = fs.get(u)
        if data is None:
            net.reply(conn, b'HTTP/1.1 404 Not Found\r\nContent-Type: text/html\r\n', b'<html><body>not found</body></html>', 'length', dup)
        else:
            net.reply(conn, b'HTTP/1.1 200 OK\r\nContent-Type: ' + TYPES[len(data) % 4] + b'\r\n', data, framing, dup)
    net.serve(WEB, handler)
    return hits

"""C16: message objects share nothing and failed changes change nothing."""
import copy
import random
from xml.sax.saxutils import escape, quoteattr

from dst.sched import Sim
from dst.seams import CLK

RULE = ('A case is 2-5 random message types (scalars with facets, defaults, lists, attributes, groups, inheritance, types named before they '
        'exist, registered in a schema or not) and 1-4 threads running 4-30 operations each on objects of their own and on shared read-only '
        'ones: creating, assigning, appending, list surgery, parsing good and bad documents, rendering, aliasing, subclassing; some values '
        'are refused, some operations aborted by an asynchronous exception. After every operation every object is compared with a model. '
        'Non-trivial: at least one refused or aborted change and at least ten comparisons.')
COMPONENTS = {'real': ['soapfish.xsd (types, metaclass, lists, parsing, rendering)', 'soapfish.core', 'soapfish.soap11/soap12 envelopes', 'lxml/libxml2'],
              'stub': ['thread scheduler (baton, seeded)', 'clocks, randomness', 'asynchronous exceptions (raised at a chosen line)']}
QUICK, THOROUGH, QUICK_S, THOROUGH_S = 1000000, 100000000, 18, 600
LISTS = ('threads',)
SIMPLER = {'register': False}
ASSUMPTIONS = ['Threads never write to each other\'s objects; CPython executes a source line without interleaving only between line events.']
SCAL = ('String', 'Int', 'Boolean', 'Enum', 'Short', 'Pat')
# facets given to an instance of a built-in type: what one field accepts is no matter of another one's
INST = {'PatI': ('String', {'pattern': '[a-z]{1,3}'}), 'PatJ': ('String', {'pattern': '[0-9]{3}'}), 'EnumI': ('String', {'enumeration': ['p', 'q']}),
        'EnumJ': ('String', {'enumeration': ['q', 'r', 's t']}), 'LenI': ('String', {'maxLength': 3}), 'LenJ': ('String', {'minLength': 4}),
        'IntI': ('Int', {'maxInclusive': 9}), 'IntJ': ('Int', {'minInclusive': 10}), 'DecI': ('Decimal', {'maxInclusive': 9}), 'DecJ': ('Decimal', {'minInclusive': 10})}
INSTV = {'PatI': ['abc', 'x'], 'PatJ': ['123', '007'], 'EnumI': ['p', 'q'], 'EnumJ': ['q', 'r', 's t'], 'LenI': ['abc', 'x'], 'LenJ': ['abcd', 'ab cd'],
         'IntI': [9, -1], 'IntJ': [10, 99], 'DecI': [8.5, -1.25], 'DecJ': [10.5, 99.75]}
NIL = {'$nil': 1}
TXT = ('x', ' lead', 'trail  ', 'in  side', 'a b', 'R&D <b>', 'ünï 日本', '0', 'é', 'y' * 50)


# ------------------------------------------------------------------ generation
def gen(rng, tier):
    n = rng.randint(2, 5)
    types = []
    ngroups = rng.choice([0, 0, 1])
    for i in range(n + ngroups):
        types.append(gen_type(rng, i, types, group=i >= n, total=n))
    for g in range(n, n + ngroups):
        for t in rng.sample(types[:n], rng.randint(1, n)):
            if t['base'] is None:
                t['f'].append({'n': 'grp', 'k': 'g', 't': g})
    # fields inherited together with a group of the same name would clash: a derived type gets none of its own
    threads = []
    for i in range(rng.choice([1, 2, 2, 3, 4])):
        ops = []
        for _ in range(rng.randint(4, 30)):
            o = {'op': rng.choice(OPS), 'r': rng.randrange(1 << 30)}
            if rng.random() < 0.2:
                o['abort'] = [rng.choice([rng.randint(1, 8), rng.randint(1, 60), rng.randint(1, 300)]), rng.choice(['WorkerTimeout', 'KeyboardInterrupt', 'MemoryError']),
                              rng.choice([0, 0, 10, 60])]    # and that many times more, each time one line later
            ops.append(o)
        threads.append(ops)
    from dst.world import gen_sched
    return {'seed': rng.randrange(1 << 30), 'types': types, 'register': rng.random() < 0.5, 'q': rng.random() < 0.5, 'threads': threads,
            'shared': [rng.randrange(1 << 30) for _ in range(rng.randint(0, 2))], 'sched': gen_sched(rng)}


OPS = ('render', 'render', 'document', 'new', 'new', 'new0', 'set', 'set', 'set', 'setbad', 'setbad', 'alias', 'append', 'append', 'append', 'appendbad', 'appendbad', 'appendmax', 'listop',
       'parse', 'parse', 'parse2', 'parsebad', 'render', 'render', 'subclass', 'fresh', 'fresh', 'response', 'envelope', 'shared', 'setlist', 'setnone', 'kwbad')


def gen_type(rng, i, types, group, total):
    t = {'n': f'T{i}', 'group': group, 'base': None, 'f': []}
    cands = [x for x in range(i) if not types[x]['group'] and types[x]['base'] is None]
    if cands and not group and rng.random() < 0.2:
        t['base'] = rng.choice(cands)
    for k in range(rng.randint(1, 4)):
        x = rng.random()
        f = {'n': f'{"g" if group else "f"}{i}{k}', 'k': 'e', 'tag': None, 'nil': rng.random() < 0.2, 'st': rng.choice(['class', 'class', 'str', 'inst'])}
        if x < 0.35:
            f['k'] = 'l'
            f['max'] = rng.choice([None, None, 2, 3])
        elif x < 0.5 and not group:
            f['k'] = 'a'
            f['nil'] = False
            f['use'] = rng.choice(['required', 'optional'])
        if f['k'] != 'a' and not group and rng.random() < 0.4:
            f['t'] = rng.randrange(total) if f['k'] == 'l' or f['st'] == 'str' else rng.randrange(i) if i else 'String'
            if isinstance(f['t'], int) and f['t'] >= i:
                f['st'] = 'str'
        else:
            f['t'] = rng.choice(SCAL) if rng.random() < 0.6 else rng.choice(sorted(INST))
            if f['t'] in INST:
                f['st'] = 'inst'
            if f['k'] == 'e' and f['t'] in ('String', 'Int') and rng.random() < 0.2:
                f['def'] = 'dflt' if f['t'] == 'String' else 7
        if f['k'] != 'a' and rng.random() < 0.3 or f['k'] == 'l':
            f['tag'] = f['n'] + '-t'
        t['f'].append(f)
    return t


def scalar(rng, t):
    if t == 'String':
        return rng.choice(TXT)
    if t == 'Int':
        return rng.choice([0, 1, -5, 2**31 - 1])
    if t == 'Short':
        return rng.choice([0, 7, 32767, -32768])
    if t == 'Boolean':
        return rng.random() < 0.5
    if t == 'Enum':
        return rng.choice(['A', 'B', 'C c'])
    if t in INSTV:
        return rng.choice(INSTV[t])
    return rng.choice(['AB1', 'ZZ999'])


BADS = {'Int': ['abc', '', 1 << 80, 'x1', [1]], 'Short': [40000, 'abc', -40000], 'Boolean': ['maybe', 'x'], 'Enum': ['ZZ', 'a', 'ABC'],
        'Pat': ['ab1', 'AB', 'AB1 '], 'String': [5, 1.5, {'a': 1}, [1]]}
BADTEXT = {'Int': ['abc', '1.5', '0x1'], 'Short': ['40000', 'z'], 'Boolean': ['maybe'], 'Enum': ['ZZ'], 'Pat': ['nope']}

for _a, _b in (('PatI', 'PatJ'), ('EnumI', 'EnumJ'), ('LenI', 'LenJ'), ('IntI', 'IntJ'), ('DecI', 'DecJ')):
    for _x, _y in ((_a, _b), (_b, _a)):
        BADS[_x] = [x for x in INSTV[_y] if x not in INSTV[_x]]
        if not _x.startswith('Dec'):
            BADTEXT[_x] = [str(x) for x in BADS[_x]]


# ------------------------------------------------------------------ model
class M:
    """What the object should look like."""
    __slots__ = ('t', 'v')

    def __init__(self, t, v):
        self.t, self.v = t, v


class Run:
    def __init__(self, case, v):
        self.case, self.v = case, v
        self.types = case['types']
        self.sim = Sim(case['sched'], max_steps=1_000_000)
        self.n = {'compared': 0, 'refused': 0, 'aborted': 0, 'done': 0}
        self.build()

    def fields(self, t):
        ty = self.types[t]
        return (self.fields(ty['base']) if ty['base'] is not None else []) + ty['f']

    def build(self):
        import sys
        import types
        from soapfish import xsd
        self.xsd = xsd
        mod = types.ModuleType('dst_c16')
        sys.modules['dst_c16'] = mod
        mod.Enum = type('Enum', (xsd.String,), {'enumeration': ['A', 'B', 'C c'], '__module__': 'dst_c16'})
        mod.Pat = type('Pat', (xsd.String,), {'pattern': '[A-Z]{2}[0-9]{1,3}', '__module__': 'dst_c16'})
        for n in ('String', 'Int', 'Boolean', 'Short'):
            setattr(mod, n, getattr(xsd, n))
        self.mod = mod
        self.cls = {}
        order = [i for i, t in enumerate(self.types) if t['group']] + [i for i, t in enumerate(self.types) if not t['group']]
        for i in order:
            t = self.types[i]
            at = {'__module__': 'dst_c16'}
            base = xsd.Group if t['group'] else xsd.ComplexType
            if t['base'] is not None:
                base = self.cls[t['base']]
                at['INHERITANCE'] = xsd.Inheritance.EXTENSION
            for f in t['f']:
                at[f['n']] = self.field(f)
            c = type(t['n'], (base,), at)
            self.cls[i] = c
            setattr(mod, t['n'], c)
        if self.case['register']:
            q = xsd.ElementFormDefault.QUALIFIED if self.case['q'] else xsd.ElementFormDefault.UNQUALIFIED
            self.schema = xsd.Schema('urn:c16', elementFormDefault=q, complexTypes=[self.cls[i] for i in order if not self.types[i]['group']],
                                     groups=[self.cls[i] for i in order if self.types[i]['group']], simpleTypes=[mod.Enum, mod.Pat],
                                     elements={f'el{i}': xsd.Element(self.cls[i]) for i in order if not self.types[i]['group']})

        self.docs = {i: type(f'D{i}', (xsd.Document,), {'root': xsd.Element(self.cls[i]), '__module__': 'dst_c16'}) for i in order if not self.types[i]['group']}
        self.rendered = {}

    def field(self, f):
        xsd = self.xsd
        if f['k'] == 'g':
            return xsd.Ref(self.cls[f['t']])
        t = f['t']
        name = f'T{t}' if isinstance(t, int) else t
        if name in INST:
            ty = getattr(xsd, INST[name][0])(**INST[name][1])
        elif f['st'] == 'str':
            ty = f'dst_c16.{name}'
        else:
            ty = self.cls[t] if isinstance(t, int) else getattr(self.mod, t)
            if f['st'] == 'inst' and not isinstance(t, int) and name not in INST:
                ty = ty()
        if f['k'] == 'a':
            return xsd.Attribute(ty, use=xsd.Use.REQUIRED if f['use'] == 'required' else xsd.Use.OPTIONAL)
        if f['k'] == 'l':
            return xsd.ListElement(ty, f['tag'], minOccurs=0, maxOccurs=xsd.UNBOUNDED if f['max'] is None else f['max'], nillable=f['nil'])
        kw = {'minOccurs': 0, 'nillable': f['nil'], 'tagname': f['tag']}
        if 'def' in f:
            kw['default'] = f['def']
        return xsd.Element(ty, **kw)

    # ---- model and objects
    def default(self, t):
        out = {}
        for f in self.fields(t):
            if f['k'] == 'l':
                out[f['n']] = []
            elif f['k'] == 'g':
                out[f['n']] = M(f['t'], self.default(f['t']))
            else:
                out[f['n']] = f.get('def')
        return out

    def gen(self, rng, t, depth=0):
        m = M(t, self.default(t))
        for f in self.fields(t):
            if f['k'] == 'g':
                m.v[f['n']] = self.gen(rng, f['t'], depth + 1)
            elif f['k'] == 'l':
                m.v[f['n']] = [self.item(rng, f, depth) for _ in range(rng.choice([0, 1, 2]) if depth < 3 else 0)]
            elif f['k'] == 'a':
                if f['use'] == 'required' or rng.random() < 0.6:
                    m.v[f['n']] = scalar(rng, f['t'])
            elif depth < 3 and rng.random() < 0.75:
                m.v[f['n']] = self.item(rng, f, depth)
        return m

    def item(self, rng, f, depth):
        if f['nil'] and rng.random() < 0.2:
            return NIL
        if isinstance(f['t'], int):
            return self.gen(rng, f['t'], depth + 1)
        return scalar(rng, f['t'])

    def obj(self, m, how='attr'):
        """A new object filled as the model says, through the public interface."""
        c = self.cls[m.t]
        kw, lists, groups = {}, [], []
        for f in self.fields(m.t):
            x = m.v[f['n']]
            if f['k'] == 'l':
                lists.append((f['n'], x))
            elif f['k'] == 'g':
                groups.append((f, x))
            elif x is not None or 'def' in f:
                kw[f['n']] = self.py(x, how)
        if how == 'kw':
            o = c(**kw)
        else:
            o = c()
            for k, x in kw.items():
                setattr(o, k, x)
        for k, xs in lists:
            for x in xs:
                getattr(o, k).append(self.py(x, how))
        for f, x in groups:
            self.fill_group(getattr(o, f['n']), x, how)
        return o

    def fill_group(self, o, m, how):
        for f in self.fields(m.t):
            x = m.v[f['n']]
            if f['k'] == 'l':
                for y in x:
                    getattr(o, f['n']).append(self.py(y, how))
            elif x is not None or 'def' in f:
                setattr(o, f['n'], self.py(x, how))

    def py(self, x, how='attr'):
        if x == NIL and not isinstance(x, M):
            return self.xsd.NIL
        return self.obj(x, how) if isinstance(x, M) else x

    def dump(self, m):
        if isinstance(m, M):
            return {'$': m.t, **{k: self.dump(x) for k, x in m.v.items()}}
        if isinstance(m, list):
            return [self.dump(x) for x in m]
        return m

    def read(self, o, t):
        if type(o) is not self.cls[t] and not isinstance(o, self.cls[t]):
            return {'?': repr(o)[:200]}
        out = {'$': t}
        for f in self.fields(t):
            x = getattr(o, f['n'], '<gone>')
            if f['k'] == 'l':
                out[f['n']] = [self.read1(y, f) for y in x] if isinstance(x, list) else {'?': repr(x)}
            elif f['k'] == 'g':
                out[f['n']] = self.read(x, f['t'])
            else:
                out[f['n']] = None if x is None else self.read1(x, f)
        return out

    def read1(self, x, f):
        if x is self.xsd.NIL:
            return NIL
        if isinstance(f['t'], int):
            return self.read(x, f['t'])
        want = {'Int': int, 'Short': int, 'Boolean': bool, 'IntI': int, 'IntJ': int}.get(f['t'], str)
        if f['t'].startswith('Dec'):
            return float(x) if not isinstance(x, (bool, str)) else {'?': repr(x)}
        return x if type(x) is want else {'?': repr(x)}

    def equal(self, o, m, what, kind):
        self.n['compared'] += 1
        a, b = self.read(o, m.t), self.dump(m)
        if a != b:
            self.v(kind, f'{what}: object is {diff(a, b)}')
            return False
        return True

    # ---- documents
    def doc(self, m, name='doc', bad=None):
        """XML text by an own writer.  bad: [n] counts down to the scalar that gets a text its type refuses."""
        attrs, kids = '', ''
        for f in self.fields(m.t):
            x = m.v[f['n']]
            if f['k'] == 'g':
                kids += self.inner(x, bad)
            elif f['k'] == 'a':
                if x is not None:
                    attrs += f' {f["n"]}={quoteattr(self.text(x, f, bad))}'
            else:
                for y in (x if f['k'] == 'l' else [x]):
                    kids += self.one(y, f, bad)
        return f'<{name}{attrs}>{kids}</{name}>'

    def inner(self, m, bad):
        d = self.doc(m, 'x', bad)
        return d[d.index('>') + 1:-len('</x>')]

    def one(self, y, f, bad):
        tag = f['tag'] or f['n']
        if y is None:
            return ''
        if y == NIL and not isinstance(y, M):
            return f'<{tag} xmlns:i="http://www.w3.org/2001/XMLSchema-instance" i:nil="true"/>'
        if isinstance(y, M):
            return self.doc(y, tag, bad)
        return f'<{tag}>{escape(self.text(y, f, bad))}</{tag}>'

    def text(self, x, f, bad):
        if bad is not None and f['t'] in BADTEXT:
            bad[0] -= 1
            if bad[0] == 0:
                return BADTEXT[f['t']][0]
        return {True: 'true', False: 'false'}[x] if isinstance(x, bool) else str(x)

    def parsed(self, m):
        """What parsing doc(m) gives: an empty string text is no text."""
        out = M(m.t, {})
        for f in self.fields(m.t):
            x = m.v[f['n']]
            if f['k'] == 'g':
                out.v[f['n']] = self.parsed(x)
            elif f['k'] == 'l':
                out.v[f['n']] = [self.parsed(y) if isinstance(y, M) else y for y in x]
            elif isinstance(x, M):
                out.v[f['n']] = self.parsed(x)
            else:
                out.v[f['n']] = x if x is not None else f.get('def')
        return out

    # ---- threads
    def thread(self, k, ops):
        t = self.sim.current()
        slots = {}
        self.slots[k] = slots
        for i, o in enumerate(ops):
            rng = random.Random(o['r'])
            what = f'thread {k} operation {i} ({o["op"]})'
            try:
                plan = self.plan(rng, o['op'], slots)
            except Skip:
                continue
            before = {s: copy.deepcopy(self.dump(m)) for s, (ob, m) in slots.items()}
            fn, apply, want = plan         # want: True it must succeed, False it may fail, then changing nothing, 'never' it must not change anything
            self.sim.ev('op', k, i, o['op'])
            at, again = (o['abort'][0], o['abort'][2]) if 'abort' in o else (None, 0)
            while True:
                if at is not None:
                    t.abort_at, t.abort_exc, t.aborted = t.n + at, o['abort'][1], None
                try:
                    r = fn()
                    exc = None
                except Exception as e:
                    exc = e
                except (KeyboardInterrupt, SystemExit) as e:
                    exc = e
                aborted = t.aborted is not None
                t.abort_at = None
                t.aborted = None
                self.sim.retrace()
                if exc is not None and (type(exc).__name__ in ('StepLimit', 'Stopped')):
                    raise exc
                if not aborted:
                    break
                self.n['aborted'] += 1
                self.n['compared'] += len(slots)
                # as before, or completely done
                if any(self.read(ob, m.t) != before[s] for s, (ob, m) in slots.items()):
                    if want != 'never':
                        apply(None)
                    for s, (ob, m) in list(slots.items()):
                        if ob is not None and self.read(ob, m.t) != self.dump(m):
                            self.v('aborted-change-left-trace', f'{what} aborted {at} lines in: object {s} is {diff(self.read(ob, m.t), before[s])}')
                            return
                    break
                if not again:
                    break
                again -= 1
                at += 1
            if aborted:
                continue
            if exc is not None:
                if want is True:
                    self.v('good-operation-failed', f'{what}: {type(exc).__name__}: {exc}')
                    return
                self.n['refused'] += 1
                for s, (ob, m) in slots.items():
                    self.n['compared'] += 1
                    a = self.read(ob, m.t)
                    if a != before[s]:
                        self.v('failed-change-left-trace', f'{what} failed with {type(exc).__name__}: {exc}, object {s} is {diff(a, before[s])}')
                        return
                continue
            self.n['done'] += 1
            if want is True:
                apply(r)
            else:
                apply(r)       # accepted after all: the plan knows how to take it back
            for s, (ob, m) in slots.items():
                if not self.equal(ob, m, f'{what}, object {s}', 'other-object-changed'):
                    return
            if len(slots) > 6:
                del slots[min(slots)]

    def put(self, slots, o, m):
        if o is not None:
            slots[max(slots, default=-1) + 1] = (o, m)

    def target(self, rng, slots):
        """Some object of this thread or one inside of it."""
        if not slots:
            raise Skip
        o, m = slots[rng.choice(sorted(slots))]
        for _ in range(3):
            inner = []
            for f in self.fields(m.t):
                x = m.v[f['n']]
                if isinstance(x, M):
                    inner.append((getattr(o, f['n']), x))
                elif isinstance(x, list):
                    inner += [(y, z) for y, z in zip(getattr(o, f['n']), x) if isinstance(z, M)]
            if not inner or rng.random() < 0.5:
                break
            o, m = rng.choice(inner)
        return o, m

    def pick(self, rng, m, kinds, ok=lambda f: True):
        fs = [f for f in self.fields(m.t) if f['k'] in kinds and ok(f)]
        if not fs:
            raise Skip
        return rng.choice(fs)

    def plan(self, rng, op, slots):
        xsd = self.xsd
        plain = [i for i, t in enumerate(self.types) if not t['group']]
        T = rng.choice(plain)
        if op == 'new':
            m = self.gen(rng, T)
            how = rng.choice(['attr', 'kw'])
            return (lambda: self.obj(m, how)), (lambda o: self.put(slots, o, m)), True
        if op == 'new0':
            m = M(T, self.default(T))
            return (lambda: self.cls[T]()), (lambda o: self.put(slots, o, m)), True
        if op in ('parse', 'parse2'):
            m = self.gen(rng, T)
            xml = self.doc(m).encode()
            if op == 'parse':
                return (lambda: self.cls[T].parsexml(xml)), (lambda o: self.put(slots, o, self.parsed(m))), True
            from lxml import etree
            el = etree.fromstring(xml)

            def two():
                return self.cls[T].parse_xmlelement(el), self.cls[T].parse_xmlelement(el)

            return two, (lambda r: r and [self.put(slots, o, self.parsed(m)) for o in r]), True
        if op == 'parsebad':
            m = self.gen(rng, T)
            xml = self.doc(m, bad=[rng.randint(1, 4)])
            if rng.random() < 0.3:
                xml = xml[:rng.randrange(len(xml))]
            return (lambda: self.cls[T].parsexml(xml.encode()) and None), (lambda o: None), False
        if op == 'kwbad':
            f = self.pick(rng, M(T, {}), 'e', lambda f: f['t'] in BADS)
            b = rng.choice(BADS[f['t']])
            return (lambda: self.cls[T](**{f['n']: b}) and None), (lambda o: None), False
        if op == 'subclass':
            name = f'Sub{rng.randrange(1 << 20)}'
            f = rng.choice([x for x in self.fields(T) if x['k'] != 'g'] or [None])

            def sub():
                at = {'extra': xsd.Element(xsd.String, minOccurs=0), 'more': xsd.ListElement(xsd.Int, 'more-t', minOccurs=0),
                      'INHERITANCE': xsd.Inheritance.EXTENSION, '__module__': 'dst_c16'}
                if f is not None and rng.random() < 0.5:
                    at[f['n']] = xsd.Element(xsd.Int, minOccurs=0)
                c = type(name, (self.cls[T],), at)
                o = c(extra='x')
                o.more.append(5)
                o2 = c()
                if o2.extra is not None or list(o2.more):
                    self.v('later-instance-changed', f'{name}: a new instance has extra={o2.extra!r} more={list(o2.more)!r}')
            return sub, (lambda o: None), True
        if op == 'fresh':
            def fresh():
                o = self.cls[T]()
                self.equal(o, M(T, self.default(T)), f'a new {self.types[T]["n"]}', 'later-instance-changed')
            return fresh, (lambda o: None), True
        if op == 'render':
            if not slots:
                raise Skip
            o, m = slots[rng.choice(sorted(slots))]
            args = (rng.choice(['a', 'b']), rng.choice([None, None, 'urn:a', 'urn:b']), rng.choice([None, 'qualified', 'unqualified']))

            def rend():
                x = render(o, *args)
                was = self.rendered.setdefault((repr(sorted(self.dump(m).items())), args), x)
                if x != was:
                    self.v('rendering-depends-on-history', f'{args}: {x!r}, before {was!r}')
            return rend, (lambda o: None), True
        if op == 'document':
            m, m2 = self.gen(rng, T), self.gen(rng, T)
            D = self.docs[T]

            def document():
                a = D.parsexml(self.doc(m, 'root').encode())
                b = D.parsexml(self.doc(m2, 'root').encode())
                c = D()
                self.equal(a.root, self.parsed(m), 'first document', 'other-object-changed')
                self.equal(b.root, self.parsed(m2), 'second document', 'other-object-changed')
                if c.root is not None:
                    self.v('later-instance-changed', f'a new document has root={c.root!r}')
            return document, (lambda o: None), True
        if op == 'response':
            from soapfish import core

            def resp():
                a, b = core.SOAPResponse('a'), core.SOAPResponse('b')
                a.http_headers['X'] = 'y'
                c = core.SOAPResponse('c')
                if b.http_headers or c.http_headers or b.soap_body != 'b':
                    self.v('other-object-changed', f'headers of one response appear in another: {b.http_headers} {c.http_headers}')
                r, s = core.SOAPRequest({'a': 1}, b'x'), core.SOAPRequest({}, b'y')
                r.soap_body, r.soap_header, r.method = 1, 2, 3
                if (s.soap_body, s.soap_header, s.method, s.environ) != (None, None, None, {}):
                    self.v('other-object-changed', 'one request shows the fields of another')
            return resp, (lambda o: None), True
        if op == 'shared':
            if not self.shared:
                raise Skip
            i = rng.randrange(len(self.shared))
            o, m, xml = self.shared[i]

            def sh():
                self.equal(o, m, f'shared object {i}', 'other-object-changed')
                if o.xml('s') != xml:
                    self.v('shared-object-renders-differently', f'{o.xml("s")!r} instead of {xml!r}')
                p = self.cls[m.t].parse_xmlelement(o._xmlelement) if hasattr(o, '_xmlelement') else None
                if p is not None:
                    self.equal(p, m, f'second parse of shared object {i}', 'other-object-changed')
            return sh, (lambda o: None), True
        if op == 'envelope':
            if not self.case['register'] or not slots:
                raise Skip
            o, m = slots[rng.choice(sorted(slots))]
            from soapfish import soap11, soap12
            S = rng.choice([soap11, soap12])

            def env():
                try:
                    x = S.Envelope.response(f'el{m.t}', o)
                except ValueError:       # a required attribute is not set
                    return
                p = S.Envelope.parsexml(x).Body.parse_as(self.cls[m.t])
                self.equal(p, norm(self.parsed(m)), f'{x!r} parsed again', 'envelope-changed-content')
                if S.Envelope.response(f'el{m.t}', o) != x:
                    self.v('rendering-not-repeatable', f'{x!r}')
                e = S.Envelope()
                if e.Header is not None or e.Body is not None:
                    self.v('later-instance-changed', f'a new envelope has Header={e.Header!r} Body={e.Body!r}')
                err = S.Envelope.error_response('Client' if S is soap11 else S.Code.CLIENT, 'm')
                if b'el' + str(m.t).encode() in err:
                    self.v('later-instance-changed', f'{err!r}')
            return env, (lambda o: None), True
        # the others change an object
        o, m = self.target(rng, slots)
        if op in ('set', 'setbad', 'setnone'):
            f = self.pick(rng, m, 'ea', (lambda f: f['t'] in BADS or isinstance(f['t'], int)) if op == 'setbad' else lambda f: True)
            if op == 'setbad':
                if rng.random() < 0.1:
                    return (lambda: setattr(o, 'nosuch', 1)), (lambda r: o.__dict__.pop('nosuch', None)), False
                if isinstance(f['t'], int):
                    other = [i for i in plain if not self.isa(i, f['t'])]
                    b = rng.choice([lambda: 'text', lambda: {}, lambda: 5] + [lambda i=i: self.cls[i]() for i in other])
                else:
                    b = lambda x=rng.choice(BADS[f['t']]): x
                if not f['nil'] and rng.random() < 0.2:
                    b = lambda: xsd.NIL
                old = m.v[f['n']]
                return (lambda: setattr(o, f['n'], b())), (lambda r: self.restore(o, m, f)), 'never'
            if op == 'setnone':
                return (lambda: setattr(o, f['n'], None)), (lambda r: m.v.__setitem__(f['n'], None)), False
            x = self.item(rng, f, 1) if f['k'] == 'e' else scalar(rng, f['t'])
            p = self.py(x)
            return (lambda: setattr(o, f['n'], p)), (lambda r: m.v.__setitem__(f['n'], x)), True
        if op == 'alias':
            f = self.pick(rng, m, 'e', lambda f: isinstance(f['t'], int))
            src = [(a, b) for a, b in slots.values() if b.t == f['t'] and not reaches(b, m)]
            if not src:
                raise Skip
            a, b = rng.choice(src)
            return (lambda: setattr(o, f['n'], a)), (lambda r: m.v.__setitem__(f['n'], b)), True
        f = self.pick(rng, m, 'l')
        lst = getattr(o, f['n'])
        ml = m.v[f['n']]
        full = f['max'] is not None and len(ml) >= f['max']
        typed = type(lst) is not list
        if op == 'append':
            if full or not typed:
                raise Skip
            x = self.item(rng, f, 1)
            p = self.py(x)
            return (lambda: lst.append(p)), (lambda r: ml.append(x)), True
        if op == 'appendmax':
            if f['max'] is None or not typed:
                raise Skip
            while len(ml) < f['max']:
                x = self.item(rng, f, 1)
                lst.append(self.py(x))
                ml.append(x)
            p = self.py(self.item(rng, f, 1))
            return (lambda: lst.append(p)), (lambda r: lst.pop()), 'never'
        if op == 'appendbad':
            if not typed:
                raise Skip
            if isinstance(f['t'], int):
                b = rng.choice(['text', 5, {}])
            else:
                b = rng.choice(BADS[f['t']])
            if not f['nil'] and rng.random() < 0.3:
                b = xsd.NIL
            return (lambda: lst.append(b)), (lambda r: lst.pop()), 'never'
        if op == 'listop':
            if not ml:
                raise Skip
            i = rng.randrange(len(ml))
            if rng.random() < 0.3:
                return (lambda: lst.clear()), (lambda r: ml.clear()), True
            return (lambda: lst.pop(i)), (lambda r: ml.pop(i)), True
        if op == 'setlist':
            # the user gives a list: from here on it is the user's
            xs = [self.item(rng, f, 1) for _ in range(rng.randint(0, 2))]
            ps = [self.py(x) for x in xs]
            return (lambda: setattr(o, f['n'], ps)), (lambda r: m.v.__setitem__(f['n'], xs)), True
        raise AssertionError(op)

    def isa(self, i, t):
        return i == t or self.types[i]['base'] is not None and self.isa(self.types[i]['base'], t)

    def restore(self, o, m, f):
        """A value that should have been refused was accepted (another property's matter): put the old one back."""
        x = m.v[f['n']]
        object.__setattr__(o, f['n'], None)
        m.v[f['n']] = None
        return x

    def run(self):
        rng = random.Random(self.case['seed'])
        self.slots = {}
        self.shared = []
        plain = [i for i, t in enumerate(self.types) if not t['group']]
        lazy = not self.case['register']
        for s in ([] if lazy and rng.random() < 0.5 else self.case['shared']):
            r = random.Random(s)
            m = self.gen(r, r.choice(plain))
            if r.random() < 0.5:
                o = self.cls[m.t].parsexml(self.doc(m).encode())
                m = self.parsed(m)
            else:
                o = self.obj(m)
            self.shared.append((o, m, o.xml('s')))
        for k, ops in enumerate(self.case['threads']):
            self.sim.spawn(f't{k}', lambda k=k, ops=ops: self.thread(k, ops), host=f't{k}')
        stuck = self.sim.run()
        if stuck:
            self.v('stuck', stuck)
        for t in self.sim.tasks:
            if t.exc is not None:
                raise t.exc
        if self.v.items:
            return
        for k, slots in self.slots.items():
            for s, (o, m) in slots.items():
                if not self.equal(o, m, f'at the end: thread {k} object {s}', 'other-object-changed'):
                    return
                a, b = render(o), render(self.obj(m))
                if a != b:
                    self.v('renders-differently-from-new-object', f'thread {k} object {s}: {a!r}, a new object with the same content: {b!r}')
                    return
        for o, m, xml in self.shared:
            self.equal(o, m, 'at the end: shared object', 'other-object-changed')
            if o.xml('s') != xml:
                self.v('shared-object-renders-differently', f'{o.xml("s")!r} instead of {xml!r}')
        for t in plain:
            o = self.cls[t]()
            self.equal(o, M(t, self.default(t)), f'at the end: a new {self.types[t]["n"]}', 'later-instance-changed')


class Skip(Exception):
    pass


def render(o, *args):
    try:
        return o.xml(*(args or ('r',))).decode()
    except ValueError as e:
        return f'ValueError {e}'


def norm(m):
    """An empty text does not survive the wire as such: it reads as no text."""
    return m


def reaches(b, m):
    if b is m:
        return True
    for x in b.v.values():
        for y in (x if isinstance(x, list) else [x]):
            if isinstance(y, M) and reaches(y, m):
                return True
    return False


def diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        for k in a:
            if a[k] != b[k]:
                return diff(a[k], b[k], f'{path}.{k}')
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f'{path}[{i}]')
    return f'{path or "."} = {str(a)[:300]} instead of {str(b)[:300]}'


def run(case, v):
    R = Run(case, v)
    R.run()
    s = R.sim
    return {'sig': s.sig, 'simt': CLK.t, 'steps': s.steps, 'npre': s.npreempt, 'faults': {'abort': s.aborts_fired, 'refused_value': R.n['refused']},
            'record': s.record, 'log': [list(x) for x in s.log][:400], 'nontrivial': R.n['compared'] > 9 and (R.n['refused'] or s.aborts_fired) > 0,
            'key': f'{s.sig}:{case["seed"]}', 'probes': {'objects_compared': R.n['compared'], 'changes_done': R.n['done'], 'changes_aborted': R.n['aborted']},
            'summary': f'{len(case["threads"])} threads, {R.n}'}


def reductions(case):
    for i, ops in enumerate(case['threads']):
        size = len(ops)
        while size >= 1:
            for j in range(0, len(ops), size):
                yield dict(case, threads=case['threads'][:i] + [ops[:j] + ops[j + size:]] + case['threads'][i + 1:])
            size //= 2

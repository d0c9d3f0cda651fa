"""Mutations of conforming messages.  The verdict on the result comes from the reference validator, never from here."""
import base64
import random

from . import spec

GARBAGE = ('', ' ', 'abc', '1.0', '-1', '256', '70000', '99999999999', '-99999999999999999999', 'true', 'TRUE', 'yes', '2', '2001-13-01',
           '2001-02-30', '2001-01-01', '2001-01-01T00:00:00', '25:00:00', '12:00', '1e5', '1e999', '0x10', '１２', '1_000', '+5', '--5',
           '5 5', '1,5', 'P', 'P1S', '%%%', 'AB12', 'ab', '123-45', '123-456', 'red ', ' red', 'RED', 'ON', 'NaN x', 'nil', 'None', '.', '-',
           '1.5.5', 'abx', 'cdx', 'xcd', '12x3', '12.3', '12.3x', 'a\nb', 'x\n', "a'b", '\u00a012', '12\u2003', '1' * 60, 'Z', '12:00:00+15:00', '12:00:60')


def _targets(node):
    return [n for n in node.iter() if isinstance(n.tag, str)]


def one(rng, part, kinds=None):
    """Mutate the element `part` in place (part: message root or header block); returns a label."""
    from lxml import etree
    nodes = _targets(part)
    n = rng.choice(nodes)
    kids = [c for c in n if isinstance(c.tag, str)]
    how = rng.choice(['text', 'text', 'text', 'text', 'stretch', 'drop', 'drop', 'dup', 'swap', 'rename', 'ns', 'nons', 'addchild', 'addattr',
                      'dropattr', 'attrval', 'attrval', 'mixed', 'nil', 'nilnot', 'empty', 'case', 'wrap', 'xsitype', 'hint', 'comment',
                      'foreign', 'list', 'soapattr'] if kinds is None else kinds)
    leaf = [x for x in nodes if not [c for c in x if isinstance(c.tag, str)]]
    if how == 'text' and leaf:
        n = rng.choice(leaf)
        n.text = rng.choice(GARBAGE)
        for c in list(n):
            n.remove(c)
    elif how == 'stretch' and leaf:
        n = rng.choice(leaf)
        t = n.text or ''
        n.text = rng.choice([t[:-1], t + t[-1:], t[1:], t + t, t + ' ', ' ' + t])
    elif how == 'drop' and kids:
        n.remove(rng.choice(kids))
    elif how == 'dup' and kids:
        c = rng.choice(kids)
        for _ in range(rng.choice([1, 1, 1, 6])):
            c.addnext(etree.fromstring(etree.tostring(c, with_tail=False)))
    elif how == 'swap' and len(kids) > 1:
        i = rng.randrange(len(kids) - 1)
        kids[i].addprevious(kids[i + 1])
    elif how == 'rename' and n is not part:
        q = etree.QName(n)
        loc = rng.choice([q.localname + 'x', q.localname[:-1] or 'q', 'x', rng.choice(nodes).tag.rsplit('}', 1)[-1]])
        n.tag = f'{{{q.namespace}}}{loc}' if q.namespace else loc
    elif how == 'case':
        q = etree.QName(n)
        loc = q.localname.swapcase()
        n.tag = f'{{{q.namespace}}}{loc}' if q.namespace else loc
    elif how == 'ns':
        n.tag = '{urn:other}' + etree.QName(n).localname
    elif how == 'nons':
        if n is not part and etree.QName(n).namespace is None:
            n.tag = f'{{{etree.QName(part).namespace}}}{n.tag}'
        else:
            n.tag = etree.QName(n).localname
    elif how == 'addchild':
        c = etree.Element(rng.choice(['extra', '{urn:other}extra', rng.choice(nodes).tag]))
        n.insert(rng.randrange(len(n) + 1), c)
    elif how == 'addattr':
        n.set(rng.choice(['extra', '{urn:other}a', 'id']), 'x')
    elif how == 'dropattr' and n.attrib:
        del n.attrib[rng.choice(sorted(n.attrib))]
    elif how == 'attrval':
        have = [x for x in nodes if x.attrib]
        if have:
            n = rng.choice(have)
            n.set(rng.choice(sorted(n.attrib)), rng.choice(GARBAGE))
    elif how == 'mixed' and kids:
        rng.choice(kids).tail = rng.choice(['stray', ' x ', '0'])
    elif how == 'nil':
        n.set(f'{{{spec.XSI}}}nil', rng.choice(['true', '1', 'false', 'TRUE', 'yes', '']))
        if rng.random() < 0.5:
            n.text = None
            for c in list(n):
                n.remove(c)
    elif how == 'nilnot':
        nn = [x for x in nodes if x.get(f'{{{spec.XSI}}}nil')]
        if nn:
            rng.choice(nn).text = 'x'
    elif how == 'empty':
        n.text = None
        for c in list(n):
            n.remove(c)
    elif how == 'wrap' and kids:
        c = rng.choice(kids)
        w = etree.Element(c.tag)
        c.addprevious(w)
        w.append(c)
    elif how == 'xsitype':
        n.set(f'{{{spec.XSI}}}type', rng.choice(['x', 'xs:string', 'nope:t']))
    elif how == 'hint':
        part.set(f'{{{spec.XSI}}}schemaLocation', 'urn:other http://evil.example/x.xsd')
    elif how == 'comment':
        n.insert(0, etree.Comment('c'))
    elif how == 'soapattr':
        # SOAP knows them; the schemas of the service do not
        env = etree.QName(part.getroottree().getroot()).namespace
        n = rng.choice([n, part])
        n.set(f'{{{env}}}' + rng.choice(['mustUnderstand', 'mustUnderstand', 'mustUnderstand', 'actor', 'role', 'encodingStyle', 'relay']), rng.choice(['0', '0', '1', 'false', 'true', 'urn:x']))
        if rng.random() < 0.5:
            one(rng, part, ('text', 'addchild', 'drop', 'attrval'))
    elif how == 'foreign':
        n.append(etree.fromstring('<o:x xmlns:o="urn:other"><o:y/></o:x>'))
    elif how == 'list' and kids:
        c = rng.choice(kids)
        n.append(etree.fromstring(etree.tostring(c, with_tail=False)))
    return how


def message(rng, svc, data, n=None, kinds=None, headers=True):
    """Returns (bytes, labels): the message with 1..n mutations in body or header."""
    from lxml import etree
    root = etree.fromstring(data, etree.XMLParser(resolve_entities=False, no_network=True))
    env = spec.ENV[svc['v']]
    body = root.find(f'{{{env}}}Body')
    hdr = root.find(f'{{{env}}}Header')
    labels = []
    for _ in range(n or rng.choice([1, 1, 1, 2, 3])):
        parts = [('body', c) for c in body if isinstance(c.tag, str)][:1] * 2
        if hdr is not None:
            parts += [('header', c) for c in hdr if isinstance(c.tag, str)]
        if not parts:
            break
        where_, part = rng.choice(parts)
        k = rng.random() if kinds is None and headers else 1
        if where_ == 'header' and k < 0.25:
            # the same block twice, one of them changed; or one of the same name in another namespace
            twin = etree.fromstring(etree.tostring(part, with_tail=False))
            part.addnext(twin) if rng.random() < 0.5 else part.addprevious(twin)
            lab = one(rng, twin, rng.choice([None, ('ns', 'nons'), ('text',), ('comment',)]))
            labels.append(f'header:twin {lab}')
            continue
        if k < 0.04 and where_ == 'body':
            body.remove(part)
            labels.append('body:removed')
            break
        if k < 0.1:
            h = hdr
            if h is None:
                h = etree.Element(f'{{{env}}}Header')
                body.addprevious(h)
                hdr = h
            h.append(etree.fromstring(rng.choice(['<x xmlns="urn:other">1</x>', '<x/>', f'<e:x xmlns:e="{spec.esc(etree.QName(part).namespace or "urn:none", True)}"/>'])))
            if rng.random() < 0.3:
                one(rng, h[-1], ('soapattr',))
            labels.append('header:unknown-block')
            continue
        labels.append(f'{where_}:{one(rng, part, ("soapattr",) if where_ == "header" and 0.25 < k < 0.4 else kinds)}')
    return etree.tostring(root), labels


def raw(rng, svc, data):
    """Arbitrary byte-level corruption; returns (bytes, label)."""
    k = rng.choice(['cut', 'cut', 'del', 'ins', 'rep', 'dupchunk', 'random', 'empty', 'enc', 'doctype', 'otherenv', 'deep', 'ws', 'text',
                    'rootless', 'two', 'swapenv', 'bom', 'bigattr', 'pi', 'nobody', 'emptybody', 'onlyhdr', 'htmlpage', 'ctrlref',
                    'multibody', 'entity', 'faultbody', 'cdata', 'nons', 'unbound', 'mutate'])
    n = len(data)
    i = rng.randrange(n)
    env = spec.ENV[svc['v']]
    oth = spec.ENV[23 - svc['v']]
    e = env.encode()
    if k == 'cut':
        return data[:i], k
    if k == 'del':
        return data[:i] + data[i + rng.randint(1, 8):], k
    if k == 'ins':
        return data[:i] + bytes(rng.randrange(256) for _ in range(rng.randint(1, 5))) + data[i:], k
    if k == 'rep':
        return data[:i] + bytes([rng.randrange(256)]) + data[i + 1:], k
    if k == 'dupchunk':
        j = min(n, i + rng.randint(1, 80))
        return data[:j] + data[i:j] + data[j:], k
    if k == 'random':
        return bytes(rng.randrange(256) for _ in range(rng.choice([1, 3, 50, 400]))), k
    if k == 'empty':
        return b'', k
    if k == 'enc':
        return (b'<?xml version="1.0" encoding="' + rng.choice([b'bogus', b'utf-16', b'ascii', b'utf-7', b'cp037', b'ISO-8859-15', b'']) + b'"?>' + data), k
    if k == 'doctype':
        return b'<!DOCTYPE x [<!ELEMENT x ANY>]>' + data, k
    if k == 'entity':
        return b'<!DOCTYPE x [<!ENTITY a "b">]>' + data.replace(b'>c', b'>&a;c', 1), k
    if k in ('otherenv', 'swapenv'):
        return data.replace(e, oth.encode()), k
    if k == 'deep':
        d = rng.choice([50, 300, 5000])
        return b'<s:Envelope xmlns:s="' + e + b'"><s:Body>' + b'<a>' * d + b'</a>' * d + b'</s:Body></s:Envelope>', k
    if k == 'ws':
        return rng.choice([b' ', b'\n\n', b'\t']) + data, k
    if k == 'text':
        return rng.choice([b'hello', b'{"a": 1}', b'a=b&c=d', b'\x00', b'<', b'<>', b'&', b'None']), k
    if k == 'rootless':
        return b'<?xml version="1.0"?>', k
    if k == 'two':
        return data + data, k
    if k == 'bom':
        return b'\xef\xbb\xbf' + data, k
    if k == 'bigattr':
        return data.replace(b'>', b' zz="' + b'y' * 20000 + b'">', 1) if b'?>' not in data else data, k
    if k == 'pi':
        return b'<?xml-stylesheet href="http://evil.example/x.xsl"?>' + data if not data.startswith(b'<?xml') else data, k
    if k == 'nobody':
        return b'<s:Envelope xmlns:s="' + e + b'"/>', k
    if k == 'emptybody':
        return b'<s:Envelope xmlns:s="' + e + b'"><s:Body>' + rng.choice([b'', b' ', b'<!-- c -->', b'text', b'<?pi x?>']) + b'</s:Body></s:Envelope>', k
    if k == 'onlyhdr':
        return b'<s:Envelope xmlns:s="' + e + b'"><s:Header/></s:Envelope>', k
    if k == 'htmlpage':
        return b'<html><body><p>x</p></body></html>', k
    if k == 'ctrlref':
        return data.replace(b'>c', b'>&#' + rng.choice([b'0', b'1', b'x1F', b'xFFFE', b'xD800', b'x110000', b'13', b'10']) + b';c', 1), k
    if k == 'multibody':
        return data.replace(b'Body>', b'Body><x/>', 1), k
    if k == 'faultbody':
        return (b'<s:Envelope xmlns:s="' + e + b'"><s:Body><s:Fault><faultcode>s:Server</faultcode><faultstring>x</faultstring></s:Fault>'
                b'</s:Body></s:Envelope>'), k
    if k == 'cdata':
        return data.replace(b'>c', b'><![CDATA[c', 1), k
    if k == 'nons':
        return data.replace(e, b''), k
    if k == 'unbound':
        return data.replace(b'<', b'<zz:', 1), k
    d, labels = message(rng, svc, data)
    return d, 'mutate ' + ' '.join(labels)


def b64(b):
    return base64.b64encode(b).decode()


def rnd(seed):
    return random.Random(seed)

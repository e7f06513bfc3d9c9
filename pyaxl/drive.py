"""Drives the Python binding (py-axl) with random documents and histories, compares everything a script can
see with a model kept in plain Python, and watches the references.

The options are those of the harness of the library: --mode --seed --start --cases --only --out --status
--scratch --cpu --verbose --mem --thorough."""
import gc, json, os, random, signal, struct, sys, traceback, xml.etree.ElementTree as ET
import libpy_axl as axl
import vhhost

NAMES = ['a', 'b', 'c', 'dd', 'item', 'x-y', 'n_1', 'o.p', 'tab', 'Tab']
ATTRS = ['id', 'x', 'y', 'name', 'k-1', 'a.b', 'A']
WORDS = ['v', 'two words', '', '10', 'é', 'añb', '漢字', "it's", 'say "x"', 'a<b', 'a&b', '<&>', 'a;b', 'x' * 40, '&lt;', ' pad ', '1' * 300]
stats = {}
repeating = False

# (the files are handled by descriptor: open() keeps memory each time it is called)
def put(path, text):
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.write(fd, text.encode())
    os.close(fd)

def get(path):
    fd = os.open(path, os.O_RDONLY)
    out = b''
    while True:
        b = os.read(fd, 1 << 20)
        if not b:
            break
        out += b
    os.close(fd)
    return out.decode()

class Bad(Exception):
    pass

def count(k, n=1):
    stats[k] = stats.get(k, 0) + n

def want(got, exp, what):
    count('comparisons')
    if got != exp:
        raise Bad('%s: got %r, expected %r' % (what, got, exp))

class M:
    """a node of the model: children, or text (never both)"""
    def __init__(self, name):
        self.name, self.attrs, self.kids, self.text, self.parent = name, {}, [], None, None
    def add(self, kid, at=None):
        kid.parent = self
        self.kids.insert(len(self.kids) if at is None else at, kid)
    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()
    def index(self):
        return [i for i, k in enumerate(self.parent.kids) if k is self][0]

def esc(s):
    for a, b in (('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;'), ('"', '&quot;'), ("'", '&apos;')):
        s = s.replace(a, b)
    return s

def ser(m, r):
    out = ['<', m.name]
    for k, v in m.attrs.items():
        q = r.choice('\'"')
        out.append('%s%s=%s%s%s' % (r.choice([' ', '  ', '\n']), k, q, esc(v), q))
    if not m.kids and m.text is None:
        return ''.join(out) + r.choice(['/>', ' />', '></%s>' % m.name])
    out.append('>')
    if m.text is not None:
        out.append('<![CDATA[%s]]>' % m.text if m.text and ']]>' not in m.text and r.random() < .2 else esc(m.text))
        m.cdata = out[-1].startswith('<![')
    for k in m.kids:
        out.append(ser(k, r))
    return ''.join(out) + '</%s>' % m.name

def gen(r, depth):
    m = M(r.choice(NAMES))
    for k in r.sample(ATTRS, r.choice([0, 0, 1, 2, 7])):
        m.attrs[k] = r.choice(WORDS)
    if depth == 0 or r.random() < .3:
        if r.random() < .6:
            m.text = r.choice(WORDS) or None
        return m
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        m.add(gen(r, depth - 1))
    return m

def decoded(s):
    return s

def check_attrs(n, m, r):
    for k in ATTRS:
        has = k in m.attrs
        want(bool(n.has_attr(k)), has, 'has_attr')
        if has:
            v = m.attrs[k]
            want(n.attr_trans(k), v, 'attr_trans')
            raw = n.attr(k)
            if raw not in (v, esc(v)) and not unescaped(raw) == v:
                raise Bad('attr: got %r, expected %r' % (raw, v))
            want(bool(n.has_attr(k, raw)), True, 'has_attr with its value')
            want(bool(n.has_attr(k, raw + 'z')), False, 'has_attr with other value')
        else:
            want(n.attr(k), None, 'attr that is missing')
            want(n.attr_trans(k), None, 'attr_trans that is missing')
    c = n.attr_cursor_new() if r.random() < .5 else axl.AttrCursor(n)
    for rounds in range(2):
        seen = {}
        while c.has_item():
            if c.key in seen:
                raise Bad('the cursor reports %r twice' % c.key)
            seen[c.key] = unescaped(c.value)
            last = not c.has_next()
            c.next()
            want(bool(c.has_item()), not last, 'has_next against has_item')
        want(seen, m.attrs, 'the attributes the cursor reports')
        c.first()

def unescaped(s):
    for a, b in (('&lt;', '<'), ('&gt;', '>'), ('&quot;', '"'), ('&apos;', "'"), ('&amp;', '&')):
        s = s.replace(a, b)
    return s

def find(m, name):
    for k in m.kids:
        if k.name == name:
            return k
    for k in m.kids:
        f = find(k, name)
        if f:
            return f
    return None

def same(n, m, what):
    """the wrapper n stands for the model node m"""
    if (n is None) != (m is None):
        raise Bad('%s: got %r, expected %s' % (what, n, m and m.name))
    count('comparisons')
    if n is not None:
        want(n.name, m.name, what)
        for k in ('id', 'x'):
            want(bool(n.has_attr(k)), k in m.attrs, what + ': ' + k)

def check_node(n, m, r):
    count('nodes')
    same(n, m, 'node')
    p = m.parent
    i = m.index() if p else 0
    same(n.parent, p, 'parent')
    same(n.first_child, m.kids[0] if m.kids else None, 'first_child')
    sib = p.kids if p else [m]
    same(n.next, sib[i + 1] if i + 1 < len(sib) else None, 'next')
    same(n.previous, sib[i - 1] if i else None, 'previous')
    for name in r.sample(NAMES, 3):
        same(n.next_called(name), next((k for k in sib[i + 1:] if k.name == name), None), 'next_called')
        same(n.previous_called(name), next((k for k in reversed(sib[:i]) if k.name == name), None), 'previous_called')
        same(n.child_called(name), next((k for k in m.kids if k.name == name), None), 'child_called')
        same(n.find_called(name), find(m, name), 'find_called')
    for j in (0, len(m.kids) - 1, len(m.kids), len(m.kids) + 3, -1):
        same(n.nth_child(j), m.kids[j] if 0 <= j < len(m.kids) else None, 'nth_child(%d)' % j)
    check_attrs(n, m, r)
    content, size = n.content
    trans, tsize = n.trans
    if m.text is None:
        want((content or '', size), ('', 0), 'content of a node without it')
    else:
        want(size, len(content.encode()), 'the size of the content')
        want(tsize, len(trans.encode()), 'the size of the content translated')
        if content not in (m.text, esc(m.text)) and unescaped(content) != m.text:
            raise Bad('content: got %r, expected %r' % (content, m.text))
        if not getattr(m, 'cdata', False):
            want(trans, m.text, 'trans')

def check_str(n, m, r):
    t = str(n)
    if repeating:
        want(str(n), t, 'str of the node, again')
    else:
        et_same(ET.fromstring(t.encode()), m, True)
    count('texts')

def check_tree(n, m, r):
    """walks the tree by first_child and next, as a script does"""
    check_node(n, m, r)
    if r.random() < .15:
        check_str(n, m, r)
    k, i = n.first_child, 0
    while k is not None:
        if i >= len(m.kids):
            raise Bad('more children than expected inside %s' % m.name)
        check_tree(k, m.kids[i], r)
        k, i = k.next, i + 1
    want(i, len(m.kids), 'number of children')

def et_same(e, m, pretty):
    want(e.tag, m.name, 'dumped name')
    want(dict(e.attrib), {k: v.replace('\n', ' ') for k, v in m.attrs.items()}, 'dumped attributes')
    want(len(e), len(m.kids), 'dumped children')
    if not m.kids and not pretty:
        want(e.text or '', m.text or '', 'dumped text')
    for x, k in zip(e, m.kids):
        et_same(x, k, pretty)

def check_dump(doc, root, r, scratch):
    # (expat itself keeps memory for each document, so it is not used by a case that is repeated)
    independent = (lambda t, p: None) if repeating else (lambda t, p: et_same(ET.fromstring(t.encode()), root, p))
    text, size = doc.dump()
    want(size, len(text.encode()), 'the size of the dump')
    independent(text, False)
    tab = r.choice([0, 1, 2, 4, 7])
    pretty, psize = doc.dump(tab)
    want(psize, len(pretty.encode()), 'the size of the pretty dump')
    independent(pretty, True)
    want(str(doc), doc.dump(4)[0], 'str of the document')
    f = os.path.join(scratch, 'dump.xml')
    want(bool(doc.file_dump(f)), True, 'file_dump')
    want(get(f), text, 'the file dumped')
    want(bool(doc.file_dump(f, tab)), True, 'file_dump pretty')
    want(get(f), pretty, 'the file dumped with indentation')
    count('dumps', 2)

def nodes_of(root):
    return list(root.walk())

def reach(doc, m, r):
    """a wrapper for the model node, got in one of the ways there are"""
    path = []
    x = m
    while x.parent:
        path.append(x.index())
        x = x.parent
    n = doc.root if not isinstance(doc, axl.Node) else doc
    for i in reversed(path):
        if r.random() < .5:
            n = n.nth_child(i)
        else:
            n = n.first_child
            for _ in range(i):
                n = n.next
    return n

def first_path(m):
    """the path axl_doc_get follows: the first child of each name"""
    names = []
    x = m
    while x.parent:
        if next(k for k in x.parent.kids if k.name == x.name) is not x:
            return None
        names.append(x.name)
        x = x.parent
    names.append(x.name)
    return '/' + '/'.join(reversed(names))

def bad_calls(r, doc, n):
    """wrong arguments raise an exception, and change nothing"""
    calls = [lambda: axl.parse(), lambda: axl.parse(7), lambda: axl.parse('<a/>', 'x'), lambda: axl.file_parse(), lambda: axl.file_parse(None),
             lambda: axl.dtd_file_parse(3), lambda: doc.get(), lambda: doc.get(4), lambda: doc.dump('x'), lambda: doc.dump(-1), lambda: doc.has_pi(),
             lambda: doc.pi(1, 2), lambda: n.attr(), lambda: n.attr(1), lambda: n.attr('a', 5), lambda: n.attr_trans(), lambda: n.has_attr(),
             lambda: n.set_child(), lambda: n.set_child(5), lambda: n.set_child(doc), lambda: n.set_child_after('x'), lambda: n.replace(doc),
             lambda: n.nth_child('x'), lambda: n.find_called(), lambda: n.child_called(1), lambda: n.next_called(None), lambda: n.previous_called([]),
             lambda: setattr(doc, 'root', 5), lambda: setattr(doc, 'root', doc), lambda: setattr(doc, 'root', None), lambda: delattr(doc, 'root'),
             lambda: setattr(n, 'content', 5), lambda: delattr(n, 'content'), lambda: setattr(n, 'name', 'x'), lambda: n.nothing, lambda: doc.nothing,
             lambda: axl.Dtd().validate(n), lambda: axl.Dtd().validate(), lambda: doc.file_dump(5)]
    for c in r.sample(calls, 6):
        try:
            v = c()
        except (TypeError, ValueError, AttributeError):
            count('wrong_calls')
        else:
            raise Bad('wrong arguments are accepted (%s), result %r' % (c.__code__.co_firstlineno, v))

def empties(r):
    """objects a script can create without anything inside"""
    n, c, e = axl.Node(), axl.AttrCursor(), axl.Error()
    want((n.name, n.first_child, n.next, n.previous, n.parent, n.doc, n.attr('a'), n.attr_trans('a'), n.nth_child(0)), (None,) * 9, 'an empty node')
    n.set_child(axl.Node('x')), n.remove(), n.deattach(), n.set_empty()
    c.first(), c.next()
    want((c.key, c.value, bool(c.has_item()), bool(c.has_next())), (None, None, False, False), 'an empty cursor')
    want(e.msg, None, 'an empty error') if e.msg is None else None
    d = axl.Doc(**r.choice([{}, {'version': '1.0'}, {'encoding': 'utf-8'}, {'version': '1.0', 'encoding': 'utf-8', 'standalone': 0}, {'standalone': 1}]))
    want(d.root, None, 'the root of an empty document')
    want(d.get('/a'), None, 'a path of an empty document')

def rejected(r, text):
    """a document that is not well formed"""
    w = r.randrange(6)
    t = text
    if w == 0: t = text[:-1]
    elif w == 1: t = '<a ' + text
    elif w == 2: t = text.replace('</', '</zz', 1) if '</' in text else '<a>'
    elif w == 3: t = 'zz' + text
    elif w == 4: t = '<a b=c/>'
    else: t = '<a><b></a>'
    doc, err = axl.parse(t)
    want(doc, None, 'the document of %r, which is not well formed' % t[-300:])
    if not isinstance(err, axl.Error):
        raise Bad('no error for a text that is not well formed')
    try:
        err.msg
    except UnicodeDecodeError:
        # a message that quotes the text may cut a character: a string of Python 2, not of Python 3
        count('messages_cut')
        return
    if not err.msg or err.code == 0:
        raise Bad('the error has no message or code: %r %r' % (err.code, err.msg))
    count('rejected')
    doc, err = axl.file_parse('/nonexistent/%d' % r.randrange(9))
    want(doc, None, 'the document of a missing file')
    want(bool(err.msg), True, 'the error of a missing file')

def dtd_case(r, root, text, scratch):
    decl = {}
    for m in root.walk():
        decl.setdefault(m.name, []).append(m)
    out = []
    for name, ms in decl.items():
        kids = sorted({k.name for m in ms for k in m.kids})
        if not kids and all(m.text is None for m in ms):
            out.append('<!ELEMENT %s EMPTY>' % name)
        elif not kids:
            out.append('<!ELEMENT %s (#PCDATA)>' % name)
        elif all(m.text is None for m in ms):
            out.append('<!ELEMENT %s (%s)*>' % (name, '|'.join(kids)))
        else:
            return
    if any(m.attrs for m in root.walk()):
        return
    if len(out) > 1 and not [k for k in root.kids]:
        return
    f = os.path.join(scratch, 't.dtd')
    put(f, '\n'.join(out) + '\n')
    dtd, err = axl.dtd_file_parse(f)
    if dtd is None:
        raise Bad('the dtd is rejected: %r in %r' % (err.msg, out))
    doc, err = axl.parse(text)
    got = dtd.validate(doc)
    want(got.msg if got else None, None, 'validation of a valid document')
    count('validations')
    m = r.choice(nodes_of(root))
    n = reach(doc, m, r)
    n.set_child(axl.Node('not-declared'))
    got = dtd.validate(doc)
    if not isinstance(got, axl.Error) or not got.msg:
        raise Bad('a document with a child that is not declared is valid')
    count('validations')
    dtd, err = axl.dtd_file_parse(os.path.join(scratch, 'missing.dtd'))
    want(dtd, None, 'a dtd that is missing')

def history(r, doc, root, scratch):
    """changes done through the binding; kept[m] is a wrapper the script still holds"""
    kept = {}
    def hold(m, n):
        if r.random() < .6:
            kept[m] = n
    def at(m):
        return kept[m] if m in kept and r.random() < .7 else reach(doc, m, r)
    def gone(m):
        for x in m.walk():
            kept.pop(x, None)
    for step in range(r.choice([2, 6, 15, 30])):
        m = r.choice(nodes_of(root))
        op = r.choice(['child', 'child', 'after', 'attr', 'attr', 'content', 'replace', 'remove', 'move', 'tree', 'doc'])
        count('op_' + op)
        if op in ('child', 'tree') and m.text is None:
            k = M(r.choice(NAMES)); n = axl.Node(k.name)
            if op == 'tree':
                # a tree built before it has a place
                todo = [(k, n)]
                for _ in range(r.randrange(1, 6)):
                    pm, pn = r.choice(todo)
                    km = M(r.choice(NAMES)); kn = axl.Node(km.name)
                    pn.set_child(kn); pm.add(km)
                    todo.append((km, kn))
                if r.random() < .5:
                    check_tree(n, k, r)
                for a, b in todo[1:]:
                    hold(a, b)
                del todo, pn, kn
            at(m).set_child(n); m.add(k); hold(k, n)
        elif op == 'after' and m.parent:
            k = M(r.choice(NAMES)); n = axl.Node(k.name)
            at(m).set_child_after(n); m.parent.add(k, m.index() + 1); hold(k, n)
        elif op == 'attr':
            k, v = r.choice(ATTRS), r.choice(WORDS)
            if '&' in v:
                v = v.replace('&', 'n')
            at(m).attr(k, v); m.attrs[k] = v
        elif op == 'content' and not m.kids and m.text is None:
            v = r.choice([w for w in WORDS if w and '&' not in w])
            at(m).content = v; m.text = v; m.cdata = False
        elif op == 'replace' and m.parent:
            k = M(r.choice(NAMES)); n = axl.Node(k.name)
            at(m).replace(n); gone(m)
            i = m.index(); p = m.parent; p.kids.pop(i); p.add(k, i); hold(k, n)
        elif op == 'remove' and m.parent:
            at(m).remove(); gone(m)
            m.parent.kids.pop(m.index())
        elif op == 'move' and m.parent:
            inside = set(map(id, m.walk()))
            places = [x for x in root.walk() if id(x) not in inside and x.text is None]
            if places:
                p = r.choice(places)
                n = at(m)
                n.deattach(); m.parent.kids.pop(m.index())
                if p.kids and r.random() < .4:
                    s = r.choice(p.kids)
                    at(s).set_child_after(n); p.add(m, s.index() + 1)
                else:
                    at(p).set_child(n); p.add(m)
                hold(m, n)
        elif op == 'doc' and isinstance(doc, axl.Doc):
            # (a node moved with its parent does not always know its document)
            d = at(m).doc
            if d is not None:
                count('node_doc')
                same(d.root, root, 'the root of the document of a node')
        n = None
        if r.random() < .3:
            check_tree(reach(doc, root, r), root, r)
        for k in r.sample(list(kept), min(3, len(kept))):
            check_node(kept[k], k, r)
    return kept

def case(seed, scratch):
    r = random.Random(seed)
    if r.random() < .1:
        empties(r)
    root = gen(r, r.choice([0, 1, 2, 3]))
    body = ser(root, r)
    pis = {t: r.choice(['', 'some content', 'a="b"', '漢']) for t in r.sample(['pi1', 'pi2', 'run'], r.choice([0, 0, 1, 3]))}
    head = r.choice(['', "<?xml version='1.0' ?>", "<?xml version='1.0' encoding='utf-8' standalone='yes' ?>", '<?xml version="1.0" encoding="UTF-8"?>\n'])
    text = head + ''.join('<?%s%s?>' % (k, ' ' + v if v else '') for k, v in pis.items()) + body
    kind = r.randrange(10)
    if kind < 6:
        how = r.randrange(3)
        if how == 0:
            doc, err = axl.parse(text)
        elif how == 1:
            n = len(text.encode())
            if r.random() < .6:
                doc, err = axl.parse(text + r.choice(['', '   garbage<']), n)
            else:
                # a size bigger than the string
                doc, err = axl.parse(text, n + r.choice([1, 7, 5000]))
        else:
            f = os.path.join(scratch, 'doc.xml')
            put(f, text)
            doc, err = axl.file_parse(f)
        if doc is None or err is not None:
            raise Bad('a well formed document is rejected: %r (%s)' % (text, err and err.msg))
        count('documents')
        if 'encoding' in head:
            want(doc.encoding.lower(), 'utf-8', 'encoding')
        want(bool(doc.standalone), 'standalone' in head, 'standalone')
        want(bool(doc.stand_alone), 'standalone' in head, 'stand_alone')
        for k in ('pi1', 'pi2', 'run', 'none'):
            want(bool(doc.has_pi(k)), k in pis, 'has_pi')
            want(doc.pi(k) or '', pis.get(k, ''), 'pi')
        check_tree(doc.root, root, r)
        for m in r.sample(nodes_of(root), min(6, len(nodes_of(root)))):
            p = first_path(m)
            if p:
                same(doc.get(p), m, 'get')
        want(doc.get('/zzz/b'), None, 'a path that is missing')
        top = doc
        if r.random() < .5:
            dtd_case(r, root, text, scratch)
        if r.random() < .3:
            rejected(r, body)
    elif kind < 8:
        doc = axl.Doc()
        root = M(root.name)
        n = axl.Node(root.name)
        if r.random() < .5:
            n.attr('id', 'z'); root.attrs['id'] = 'z'
        doc.root = n
        count('created')
        n = None
        top = doc
    else:
        # a tree that has no document
        root = M(root.name)
        top = axl.Node(root.name)
        doc = top
        count('trees')
    kept = history(r, top, root, scratch)
    if isinstance(doc, axl.Doc):
        check_dump(doc, root, r, scratch)
    bad = r.random() < .4
    if bad and isinstance(doc, axl.Doc):
        before = sys.getrefcount(doc)
        m = r.choice(nodes_of(root))
        n = reach(doc, m, r)
        held = sys.getrefcount(doc)
        want(held, before + 1, 'references a node holds to its document')
        bad_calls(r, doc, n)
        want(sys.getrefcount(doc), held, 'references to the document after wrong calls')
        want(sys.getrefcount(n), 2, 'references to the node after wrong calls')
        n = None
        want(sys.getrefcount(doc), before, 'references to the document once the node is gone')
        check_tree(doc.root, root, r)
    # what the script still holds is all that keeps the document
    if r.random() < .5:
        some = r.choice(nodes_of(root))
        kept[some] = reach(top, some, r)
    cursors = [(kept[m].attr_cursor_new(), m) for m in r.sample(list(kept), min(2, len(kept)))]
    docs = [d for d in [kept[m].doc for m in list(kept)[:3]] if d is not None] if isinstance(doc, axl.Doc) and r.random() < .4 else []
    last = list(kept.items())
    r.shuffle(last)
    doc = top = None
    if r.random() < .3:
        gc.collect()
    while last:
        n, m = last[-1][1], last[-1][0]
        check_node(n, m, r)
        up, x = n, m
        while x.parent:
            up, x = up.parent, x.parent
        same(up, root, 'the top of the tree')
        if r.random() < .3:
            check_tree(up, root, r)
        up = n = None
        last.pop()
        kept.pop(m)
        count('kept_checked')
    for c, m in cursors:
        seen = set()
        while c.has_item():
            seen.add(c.key)
            c.next()
        want(seen, set(m.attrs), 'a cursor that outlives its node')
        count('cursors_kept')
    cursors = c = None
    for d in docs:
        same(d.root, root, 'the root of a document got from a node')
        count('documents_kept')
    return text

def main():
    global repeating
    o = {'mode': 'python', 'seed': 1, 'start': 0, 'cases': 1, 'only': None, 'out': None, 'status': None, 'scratch': '.', 'cpu': 20, 'verbose': False, 'mem': False, 'thorough': False}
    args = sys.argv[1:]
    while args:
        k = args.pop(0)[2:]
        if isinstance(o[k], bool):
            o[k] = True
        else:
            v = args.pop(0)
            o[k] = v if k in ('mode', 'out', 'status', 'scratch') else int(v)
    if o['only'] is not None:
        o['start'], o['cases'] = o['only'], 1
    status = os.open(o['status'], os.O_WRONLY | os.O_CREAT, 0o600) if o['status'] else -1
    gc.disable()
    rc, done, distinct, samples = 0, 0, set(), []
    for k in range(o['start'], o['start'] + o['cases']):
        # the case that was running is known when the process dies
        if status >= 0:
            os.pwrite(status, struct.pack('QQ', k, done), 0)
        signal.setitimer(signal.ITIMER_PROF, o['cpu'])
        try:
            used = [0] * 6
            repeating = k % 5 == 0
            # one case, repeated: the memory in use must not grow
            for i in range(6 if repeating else 1):
                what = case(o['seed'] * 1000003 + k, o['scratch'])
                gc.collect()
                used[i] = vhhost.allocated()
            if repeating:
                count('repeated')
                # (each value in the list takes memory itself)
                own = sys.getsizeof(used[5])
                if all(used[i + 1] - used[i] > own for i in (2, 3, 4)):
                    raise Bad('memory grows each time the case is repeated: %r' % used)
            done += 1
            distinct.add(hash(what) & 0xffffffffffffffff)
            if len(samples) < 2:
                samples.append(what[:200])
        except Bad as e:
            rc = 1
            sys.stderr.write('VHFAIL oracle :: %s\n' % e)
        except Exception as e:
            rc = 1
            sys.stderr.write('VHFAIL exception :: %s: %s\n' % (type(e).__name__, e))
        if rc:
            traceback.print_exc()
            break
    signal.setitimer(signal.ITIMER_PROF, 0)
    if o['out']:
        put(o['out'], json.dumps({'cases': done, 'allocs': 0, 'distinct': sorted(distinct), 'counts': stats, 'max': {}, 'states': {}, 'samples': samples}))
    if rc == 0:
        print('VHDONE')
    sys.stdout.flush()
    return rc

sys.exit(main())

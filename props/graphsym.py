"""A recorder standing in for graphviz.Digraph: nodes, edges and attributes as the library reads its arguments."""
import os
import tempfile

STATE = {'made': [], 'shown': [], 'rendered': [], 'dir': None}


def shown(text):
    """the text graphviz displays for a label: entities are decoded"""
    for a, b in (('&#58;', ':'), ('&#x3a;', ':'), ('&amp;', '&')):
        text = text.replace(a, b)
    return text


class Digraph:
    directed = True

    def __init__(self, name=None, comment=None, filename=None, directory=None, format=None, engine=None, encoding='utf-8', graph_attr=None, node_attr=None,
                 edge_attr=None, body=None, strict=False, **kw):
        self.name, self.comment, self.engine, self.format, self.strict = name, comment, engine or 'dot', format or 'pdf', strict
        self.filename, self.directory = filename, directory or ''
        self.graph_attr, self.node_attr, self.edge_attr = dict(graph_attr or {}), dict(node_attr or {}), dict(edge_attr or {})
        self.body, self.nodes_, self.edges_ = list(body or []), [], []
        STATE['made'].append(self)

    def node(self, name, label=None, _attributes=None, **attrs):
        if not isinstance(name, str):
            raise TypeError('node names are strings')
        a = dict(_attributes or {}, **attrs)
        self.nodes_.append((name, label, a))
        self.body.append('\t' + name + ('' if label is None else ' [label=' + label + ']') + '\n')

    @staticmethod
    def _end(name):
        # what follows a colon is a port; numbers have none
        if getattr(name, 'has_tok', False) and name.sole_tok() is not None:
            return name
        return name.partition(':')[0]

    def edge(self, tail_name, head_name, label=None, _attributes=None, **attrs):
        if not isinstance(tail_name, str) or not isinstance(head_name, str):
            raise TypeError('node names are strings')
        t, h = self._end(tail_name), self._end(head_name)
        self.edges_.append((t, h, label, dict(_attributes or {}, **attrs)))
        self.body.append('\t' + t + ' -> ' + h + ('' if label is None else ' [label=' + label + ']') + '\n')

    def edges(self, pairs):
        for p in pairs:
            self.edge(p[0], p[1])

    def attr(self, kw=None, _attributes=None, **attrs):
        a = dict(_attributes or {}, **attrs)
        {None: self.graph_attr, 'graph': self.graph_attr, 'node': self.node_attr, 'edge': self.edge_attr}[kw].update(a)

    @property
    def source(self):
        return ''.join(['digraph ' + str(self.name) + ' {\n'] + self.body + ['}\n'])

    def __str__(self):
        return self.source

    def __iter__(self):
        return iter(['digraph ' + str(self.name) + ' {\n'] + self.body + ['}\n'])

    def save(self, filename=None, directory=None, **kw):
        STATE['rendered'].append(('source', str(filename), self))
        return filename

    def render(self, filename=None, directory=None, view=False, cleanup=False, format=None, renderer=None, formatter=None, quiet=False, outfile=None, engine=None, **kw):
        fmt = format or (os.path.splitext(str(outfile))[1][1:] if outfile is not None else self.format)
        if outfile is not None:
            target = str(outfile)
        elif filename is None:
            fd, base = tempfile.mkstemp(dir=STATE['dir'])
            os.close(fd)
            target = base + '.' + fmt
        else:
            target = os.path.join(directory or '', str(filename)) + '.' + fmt
        write(target, self, fmt, engine or self.engine)
        return target

    def pipe(self, format=None, *a, **kw):
        return b'image of %d' % STATE['made'].index(self)

    def _repr_mimebundle_(self, *a, **kw):
        return {}


def write(target, graph, fmt, engine):
    d = os.path.dirname(target)
    if d:
        os.makedirs(d, exist_ok=True)
    with open(target, 'wb') as f:
        f.write(b'image of %d %s %s' % (STATE['made'].index(graph), fmt.encode(), engine.encode()))


def content(graph, fmt, engine='dot'):
    return b'image of %d %s %s' % (STATE['made'].index(graph), fmt.encode(), engine.encode())


def render(engine, format=None, filepath=None, *a, **kw):
    src = [g for k, p, g in STATE['rendered'] if k == 'source' and p == str(filepath)]
    if not src:
        raise FileNotFoundError(filepath)
    outfile = kw.get('outfile')
    target = str(outfile) if outfile is not None else str(filepath) + '.' + format
    write(target, src[-1], format or os.path.splitext(target)[1][1:], engine)
    return target


def display(*objs, **kw):
    STATE['shown'] += list(objs)


class Image:
    def __init__(self, data=None, url=None, filename=None, *a, **kw):
        if filename is not None:
            data = filename
        if isinstance(data, str) and os.path.exists(data):
            with open(data, 'rb') as f:
                data = f.read()
        self.data = data


def install():
    """before anything of ficus is imported"""
    import graphviz
    import IPython.core.display
    import IPython.core.display_functions as df
    import IPython.display as d
    graphviz.Digraph, graphviz.render = Digraph, render
    df.display = d.display = display
    IPython.core.display.Image = d.Image = Image


def begin(directory):
    STATE.update(made=[], shown=[], rendered=[], dir=directory)

"""Stand-in for the graph library, written in the analysed language."""
GRAPH = '''
class NodeView:
    def __init__(self, g):
        self.g = g
    def __getitem__(self, n):
        return self.g.nd[n]
    def __contains__(self, n):
        return n in self.g.nd
    def __iter__(self):
        return [n for n in self.g.nd]
    def __len__(self):
        return len(self.g.nd)
    def __call__(self, data=False):
        if data:
            return [(n, self.g.nd[n]) for n in self.g.nd]
        return [n for n in self.g.nd]
class EdgeView:
    def __init__(self, g):
        self.g = g
    def __getitem__(self, p):
        return self.g.ed[self.g.key(p[0], p[1])]
    def __contains__(self, p):
        return self.g.has_edge(p[0], p[1])
    def __iter__(self):
        return [k for k in self.g.ed]
    def __len__(self):
        return len(self.g.ed)
    def __call__(self, nbunch=None, data=False):
        es = [k for k in self.g.ed]
        if nbunch is not None:
            es = [k for k in es if k[0] == nbunch] + [(k[1], k[0]) for k in es if k[1] == nbunch]
        if data:
            return [(k[0], k[1], self.g.ed[self.g.key(k[0], k[1])]) for k in es]
        return es
class Graph:
    def __init__(self, *a):
        self.nd = {}
        self.ed = {}
        self.nodes = NodeView(self)
        self.edges = EdgeView(self)
    def key(self, u, v):
        if (v, u) in self.ed:
            return (v, u)
        return (u, v)
    def has_node(self, n):
        return n in self.nd
    def __contains__(self, n):
        return n in self.nd
    def __iter__(self):
        return [n for n in self.nd]
    def __getitem__(self, n):
        return self.neighbors(n)
    def has_edge(self, u, v):
        return (u, v) in self.ed or (v, u) in self.ed
    def add_node(self, n, **attr):
        if n not in self.nd:
            self.nd[n] = {}
        for k in attr:
            self.nd[n][k] = attr[k]
    def add_edge(self, u, v, **attr):
        self.add_node(u)
        self.add_node(v)
        k = self.key(u, v)
        if k not in self.ed:
            self.ed[k] = {}
        for a in attr:
            self.ed[k][a] = attr[a]
    def neighbors(self, n):
        out = []
        for k in self.ed:
            if k[0] == n and k[1] not in out:
                out.append(k[1])
            elif k[1] == n and k[0] not in out:
                out.append(k[0])
        return out
    def edge_subgraph(self, edges):
        s = Graph()
        for e in edges:
            for n in (e[0], e[1]):
                if n not in s.nd:
                    s.nd[n] = self.nd[n]
            k = self.key(e[0], e[1])
            s.ed[k] = self.ed[k]
        return s
    def remove_edges_from(self, edges):
        for e in edges:
            del self.ed[self.key(e[0], e[1])]
    def remove_edge(self, u, v):
        del self.ed[self.key(u, v)]
    def copy(self):
        s = Graph()
        for n in self.nd:
            s.nd[n] = self.nd[n]
        for k in self.ed:
            s.ed[k] = self.ed[k]
        return s
def connected_components(g):
    comp = {}
    for n in g.nd:
        comp[n] = n
    for k in g.ed:
        a = comp[k[0]]
        b = comp[k[1]]
        if a != b:
            for n in g.nd:
                if comp[n] == b:
                    comp[n] = a
    out = []
    for r in g.nd:
        c = [n for n in g.nd if comp[n] == r]
        if len(c) > 0:
            out.append(set(c))
    return out
def number_connected_components(g):
    return len(connected_components(g))
def is_connected(g):
    return len(connected_components(g)) == 1
def node_connected_component(g, n):
    for c in connected_components(g):
        if n in c:
            return c
'''


def install(E):
    """resolve the graph library's names to the stand-in of the current driver"""
    def at(name):
        def model(args, kw, st, fr):
            m = [x for x in E.mods.values() if x.name.startswith("client")][-1]
            return E.call(E.modattr(m, name), args, kw, st, fr, None)
        return model
    for n in ("Graph", "connected_components", "number_connected_components", "is_connected", "node_connected_component"):
        E.models["networkx." + n] = at(n)

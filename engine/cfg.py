"""Control-flow helpers over dumped bodies (cleanup blocks are left out)."""


def succs(t):
    k = t["k"]
    if k == "goto":
        return [t["t"]]
    if k == "switch":
        out = [x[1] for x in t["vals"]]
        if t.get("other") is not None:
            out.append(t["other"])
        return out
    if k in ("call", "drop", "assert"):
        return [t["t"]] if t.get("t") is not None else []
    return []


class CFG:
    def __init__(self, b):
        self.b = b
        self.n = len(b["blocks"])
        self.s = [[x for x in succs(bl["t"]) if not b["blocks"][x].get("u")] if not bl.get("u") else [] for bl in b["blocks"]]
        self.p = [[] for _ in range(self.n)]
        for i, l in enumerate(self.s):
            for x in l:
                self.p[x].append(i)
        self._dom = None

    def rpo(self):
        seen, out = set(), []
        st = [(0, iter(self.s[0]))]
        seen.add(0)
        while st:
            n, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(self.s[x])))
                    break
            else:
                out.append(n)
                st.pop()
        return out[::-1]

    def dom(self):
        if self._dom is None:
            order = self.rpo()
            alls = set(order)
            d = {n: set(alls) for n in order}
            d[0] = {0}
            ch = True
            while ch:
                ch = False
                for n in order[1:]:
                    ps = [d[p] for p in self.p[n] if p in d]
                    x = set.intersection(*ps) if ps else set()
                    x = x | {n}
                    if x != d[n]:
                        d[n] = x
                        ch = True
            self._dom = d
        return self._dom

    def dominates(self, a, b):
        return b in self.dom() and a in self.dom()[b]

    def reach_from(self, a):
        seen, w = set(), [a]
        while w:
            n = w.pop()
            for x in self.s[n]:
                if x not in seen:
                    seen.add(x)
                    w.append(x)
        return seen

    def sccs(self):
        """Strongly connected components with more than one node or a self loop."""
        idx, low, on, st, out = {}, {}, set(), [], []
        c = [0]
        for root in self.rpo():
            if root in idx:
                continue
            work = [(root, 0)]
            while work:
                v, i = work.pop()
                if i == 0:
                    idx[v] = low[v] = c[0]
                    c[0] += 1
                    st.append(v)
                    on.add(v)
                rec = False
                for j in range(i, len(self.s[v])):
                    w = self.s[v][j]
                    if w not in idx:
                        work.append((v, j + 1))
                        work.append((w, 0))
                        rec = True
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if rec:
                    continue
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in self.s[v]:
                        out.append(set(comp))
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
        return out

    def forward(self, init, transfer, join, edge=None):
        """Worklist dataflow; returns state at block entry."""
        st = {0: init}
        work = [0]
        n = 0
        while work and n < 100000:
            n += 1
            b = work.pop(0)
            out = transfer(b, st[b])
            for x in self.s[b]:
                o = edge(b, x, out) if edge else out
                if o is None:
                    continue
                new = o if x not in st else join(st[x], o)
                if x not in st or new != st[x]:
                    st[x] = new
                    if x not in work:
                        work.append(x)
        return st

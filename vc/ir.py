"""Loads the module dumped by irdump: functions, control-flow graph, natural loops."""
import json

class Loop:
    def __init__(self, header): self.header, self.blocks, self.latches = header, {header}, []

class Fn:
    def __init__(self, name, d):
        self.name, self.dem, self.decl = name, d.get('demangled', name), d.get('decl', False)
        self.ret, self.noreturn = d.get('ret'), d.get('noreturn', False)
        self.args, self.blocks = d.get('args', []), d.get('blocks', [])
        self._loops = None

    def succ(self, b):
        t = self.blocks[b][-1]
        op = t['op']
        if op == 'br': return [t['t']] + ([t['f']] if t.get('f') is not None else [])
        if op == 'switch': return [t['def']] + [c[1] for c in t['cases']]
        if op == 'call' and 't' in t: return [t['t']]
        return []

    def loops(self):
        """header block -> Loop (blocks of all natural loops with that header)"""
        if self._loops is not None: return self._loops
        n = len(self.blocks)
        order, seen = [], set()
        stack = [(0, iter(self.succ(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.succ(s)))); break
            else:
                order.append(b); stack.pop()
        order.reverse()
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succ(b): preds[s].append(b)
        dom = {b: set(order) for b in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in preds[b]]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        self._loops = {}
        for b in order:
            for s in self.succ(b):
                if s in dom[b]:
                    L = self._loops.setdefault(s, Loop(s))
                    L.latches.append(b)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in L.blocks:
                            L.blocks.add(x); st.extend(preds[x])
        return self._loops

class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = {k: Fn(k, v) for k, v in d['functions'].items()}
        self.globals = d['globals']

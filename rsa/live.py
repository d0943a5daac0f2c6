"""Backward liveness of local variables on structured syntax."""
import ast


class Liveness(object):
    """live_after[id(stmt)]: names that may be read after stmt; head[id(loop)]: at its head."""

    def __init__(self, fnode):
        self.after = {}
        self.head = {}
        body = fnode.body if isinstance(fnode.body, list) else []
        # names captured by nested functions/lambdas stay live
        self.captured = set()
        for n in ast.walk(fnode):
            # (a generator expression takes its values when it is made, see ev_GeneratorExp)
            if n is not fnode and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                own = set()
                if isinstance(n, ast.Lambda):
                    own = {a.arg for a in n.args.args + n.args.posonlyargs + n.args.kwonlyargs + [n.args.vararg, n.args.kwarg]
                           if a is not None}
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and x.id not in own:
                        self.captured.add(x.id)
        self.block(body, set(), set(), set(), set())

    def uses(self, node):
        """Names of the function that node reads; the variables of comprehensions are their own."""
        out = set()
        if node is None:
            return out
        if isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            own = set()
            for g in node.generators:
                out |= self.uses(g.iter) - own
                own |= self.defs(g.target)
                for c in [g.target] + g.ifs:
                    out |= self.uses(c) - own
            for f in ('key', 'value', 'elt'):
                out |= self.uses(getattr(node, f, None)) - own
            return out
        if isinstance(node, ast.Name):
            if not isinstance(node.ctx, ast.Store):
                out.add(node.id)
            return out
        for n in ast.iter_child_nodes(node):
            out |= self.uses(n)
        return out

    def defs(self, node):
        return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def block(self, stmts, out, brk, cont, exc):
        live = set(out)
        for s in reversed(stmts):
            self.after[id(s)] = frozenset(live | exc | self.captured)
            live = self.stmt(s, live, brk, cont, exc)
        return live

    def stmt(self, s, out, brk, cont, exc):
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            kill = set()
            use = self.uses(s.value)
            for t in tg:
                if isinstance(t, ast.Name):
                    kill.add(t.id)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    kill |= self.defs(t)
                    use |= self.uses(t)
                else:
                    use |= self.uses(t)
            return (out - kill) | use | exc
        if isinstance(s, ast.AugAssign):
            return out | self.uses(s.value) | self.uses(s.target) | self.defs(s.target) | exc
        if isinstance(s, (ast.For, ast.AsyncFor)):
            head = set(out) | self.uses(s.iter)
            for _ in range(3):
                after_else = self.block(s.orelse, out, brk, cont, exc) if s.orelse else set(out)
                b = self.block(s.body, head, set(out), head, exc)
                new = after_else | (b - self.defs(s.target)) | exc
                if new <= head:
                    break
                head |= new
            self.head[id(s)] = frozenset(head | self.captured)
            return head | self.uses(s.iter)
        if isinstance(s, ast.While):
            head = set(out) | self.uses(s.test)
            for _ in range(3):
                after_else = self.block(s.orelse, out, brk, cont, exc) if s.orelse else set(out)
                b = self.block(s.body, head, set(out), head, exc)
                new = after_else | b | self.uses(s.test) | exc
                if new <= head:
                    break
                head |= new
            self.head[id(s)] = frozenset(head | self.captured)
            return head
        if isinstance(s, ast.If):
            a = self.block(s.body, out, brk, cont, exc)
            b = self.block(s.orelse, out, brk, cont, exc)
            return a | b | self.uses(s.test)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            b = self.block(s.body, out, brk, cont, exc)
            for it in reversed(s.items):
                if it.optional_vars is not None:
                    b = b - self.defs(it.optional_vars)
                b = b | self.uses(it.context_expr)
            return b | exc
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            fin_in = self.block(s.finalbody, set(out) | exc | brk | cont, brk, cont, exc) if s.finalbody else set(out)
            o = fin_in if s.finalbody else set(out)
            hs = set()
            for h in s.handlers:
                hb = self.block(h.body, o, brk | (fin_in if s.finalbody else set()),
                                cont | (fin_in if s.finalbody else set()), exc | (fin_in if s.finalbody else set()))
                hs |= self.uses(h.type) | hb
            e = exc | hs | (fin_in if s.finalbody else set())
            els = self.block(s.orelse, o, brk | e, cont | e, exc | (fin_in if s.finalbody else set())) if s.orelse else o
            b = self.block(s.body, els, brk | (fin_in if s.finalbody else set()),
                           cont | (fin_in if s.finalbody else set()), e)
            return b | e
        if isinstance(s, ast.Return):
            return self.uses(s.value) | exc
        if isinstance(s, ast.Raise):
            return self.uses(s) | exc
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        if isinstance(s, ast.Delete):
            return out | self.uses(s) | exc
        if s.__class__.__name__ == 'Match':
            r = set(out)
            for c in s.cases:
                r |= self.block(c.body, out, brk, cont, exc) | self.uses(c.guard)
                for n in ast.walk(c.pattern):
                    for f in ('value',):
                        v = getattr(n, f, None)
                        if isinstance(v, ast.AST):
                            r |= self.uses(v)
            return r | self.uses(s.subject)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return out | self.uses(s)
        return out | self.uses(s) | exc

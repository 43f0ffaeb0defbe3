"""Liveness of local variables at the heads of loops (backward data flow over the statements of a function; more
names than needed may be called live).  A local that is not live where a loop starts and ends has no part in its
invariant: nobody reads it before it is assigned again."""
import ast


def reads(*nodes):
    out = set()
    for n in nodes:
        if n is not None:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store):
                    out.add(x.id)
    return out


def stores(*nodes):
    """names surely assigned by a target"""
    out = set()
    for n in nodes:
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, (ast.Tuple, ast.List)):
            out |= stores(*n.elts)
        elif isinstance(n, ast.Starred):
            out |= stores(n.value)
    return out


class Live:
    def __init__(self, fn):
        self.at = {}            # loop -> names live at its head
        self.always = set()     # read by nested functions, or out of sight
        for x in ast.walk(fn):
            if x is not fn and isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                self.always |= reads(x)
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                self.always |= set(x.names)
            if isinstance(x, ast.Delete):
                self.always |= reads(x)
            if isinstance(x, ast.Name) and x.id in ('locals', 'vars', 'eval', 'exec', 'dir'):
                self.always = None
                return
        self.block(fn.body, set(), set(), set(), set())

    def names(self, loop, candidates):
        if self.always is None or loop not in self.at:
            return candidates
        return [n for n in candidates if n in self.always or n in self.at[loop]]

    def block(self, stmts, out, brk, cont, exc):
        for s in reversed(stmts):
            out = self.stmt(s, out, brk, cont, exc) | exc
        return out

    def stmt(self, s, out, brk, cont, exc):
        if isinstance(s, ast.Assign):
            return (out - stores(*s.targets)) | reads(s)
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            return (out - stores(s.target)) | reads(s)
        if isinstance(s, ast.AugAssign):
            return out | reads(s) | stores(s.target)
        if isinstance(s, ast.If):
            return reads(s.test) | self.block(s.body, out, brk, cont, exc) | self.block(s.orelse, out, brk, cont, exc)
        if isinstance(s, (ast.For, ast.While)):
            done = self.block(s.orelse, out, brk, cont, exc)
            head = set(done)
            while True:
                body = self.block(s.body, head, out, head, exc)
                if isinstance(s, ast.For):
                    body = (body - stores(s.target)) | reads(s.target)
                else:
                    body |= reads(s.test)
                if body <= head:
                    break
                head |= body
            self.at[s] = head
            return head | (reads(s.iter) if isinstance(s, ast.For) else reads(s.test))
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, out, brk, cont, exc) | exc
            exits = reads(*s.finalbody)
            hs = set()
            for h in s.handlers:
                hs |= reads(h.type) | self.block(h.body, fin, brk | exits, cont | exits, exc | exits)
            after = self.block(s.orelse, fin, brk | exits, cont | exits, exc | exits)
            return self.block(s.body, after, brk | exits, cont | exits, exc | exits | hs) | hs
        if isinstance(s, ast.With):
            r = self.block(s.body, out, brk, cont, exc) | out      # (the body may be left by an exception the manager swallows)
            return r | reads(*[i.context_expr for i in s.items])
        if isinstance(s, ast.Return):
            return reads(s) | exc
        if isinstance(s, ast.Raise):
            return reads(s) | exc
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return out | reads(s)
        # anything else: everything it mentions is read, nothing is overwritten
        return out | reads(s)

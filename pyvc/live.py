"""Backward liveness of local variables over one function's AST: which locals may still be read after a statement."""
import ast


def _names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def _reads(n):
    return _names(n, (ast.Load, ast.Del))


class Live:
    """after[id(stmt)]: names that may be read after stmt (statements of fnode itself, not of nested functions)
    head[id(loop)]: names that may be read from the loop's head on (before its condition or next element)
    caught[id(try)], final[id(try)]: names that may be read after its body, or one of its handlers, has raised an exception"""

    def __init__(self, fnode):
        self.after, self.head, self.caught, self.final = {}, {}, {}, {}
        self.always = set()
        for x in ast.walk(fnode):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)) and x is not fnode:
                self.always |= _names(x)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                self.always |= set(x.names)
        self.brk, self.cont, self.exc = [], [], [set()]
        self.block(fnode.body, set())

    def block(self, stmts, out):
        cur = set(out)
        for s in reversed(stmts):
            a = cur | self.always
            self.after[id(s)] = self.after.get(id(s), set()) | a
            cur = self.stmt(s, cur) | self.exc[-1]
        return cur

    def stmt(self, s, out):
        if isinstance(s, ast.If):
            return _reads(s.test) | self.block(s.body, out) | self.block(s.orelse, out)
        if isinstance(s, (ast.For, ast.While)):
            isfor = isinstance(s, ast.For)
            oe = self.block(s.orelse, out)
            head = set(oe)
            if not isfor:
                head |= _reads(s.test)
            while True:
                self.brk.append(out)
                self.cont.append(head)
                b = self.block(s.body, head)
                self.brk.pop()
                self.cont.pop()
                if isfor:
                    b = (b - _names(s.target, ast.Store)) | _reads(s.target)
                    # the iterated object itself is held by the loop
                    b |= _reads(s.iter)
                if b <= head:
                    break
                head = head | b
            self.head[id(s)] = head | self.always
            return head | (_reads(s.iter) if isfor else set())
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            w = set()
            r = _reads(s.value) if s.value is not None else set()
            for t in ts:
                r |= _reads(t)
                if s.value is not None:
                    w |= _names(t, ast.Store)
            return (out - w) | r
        if isinstance(s, ast.Return):
            return _reads(s)
        if isinstance(s, ast.Raise):
            return _reads(s) | self.exc[-1]
        if isinstance(s, ast.Break):
            return set(self.brk[-1])
        if isinstance(s, ast.Continue):
            return set(self.cont[-1])
        if isinstance(s, ast.AugAssign):
            return out | _names(s)
        if isinstance(s, (ast.Expr, ast.Pass, ast.Assert, ast.Delete)):
            return out | _reads(s)
        # with, try, match, nested definitions: every name mentioned counts as read
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, out) if s.finalbody else set(out)
            hs = set()
            self.exc.append(self.exc[-1] | (fin if s.finalbody else set()))
            for h in s.handlers:
                hs |= self.block(h.body, fin) | (_names(h.type) if h.type is not None else set())
            self.exc.pop()
            oe = self.block(s.orelse, fin)
            self.final[id(s)] = self.exc[-1] | (fin if s.finalbody else set()) | self.always
            self.caught[id(s)] = self.exc[-1] | hs | fin | self.always
            self.exc.append(self.exc[-1] | hs | fin)
            b = self.block(s.body, oe)
            self.exc.pop()
            return b | hs | fin
        if isinstance(s, ast.With):
            b = self.block(s.body, out)
            w = set().union(*[_names(i.optional_vars, ast.Store) for i in s.items if i.optional_vars is not None])
            return (b - w) | (out - w) | set().union(*[_names(i.context_expr) for i in s.items])
        return out | _names(s)

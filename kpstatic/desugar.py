"""Rewrite `match` statements as chains of `if`, so that every engine follows
them; line numbers are those of the original text."""

from __future__ import annotations

import ast


def desugar(tree):
    if any(isinstance(n, ast.Match) for n in ast.walk(tree)):
        tree = _Match().visit(tree)
        ast.fix_missing_locations(tree)
    return tree


class _Match(ast.NodeTransformer):
    n = 0

    def visit_Match(self, node):
        self.generic_visit(node)
        out = []
        subj = node.subject
        if not isinstance(subj, ast.Name):
            _Match.n += 1
            name = f"__match_{_Match.n}"
            out.append(ast.copy_location(ast.Assign([ast.Name(name, ast.Store())], subj), node))
        else:
            name = subj.id
        chain = []
        for case in reversed(node.cases):
            test, binds = self.pattern(case.pattern, name)
            body = [ast.Assign([ast.Name(b, ast.Store())], v) for b, v in binds] + case.body
            if case.guard is not None:
                body = case.body
                g = case.guard
                if binds:
                    g = _Subst(dict(binds)).visit(g)
                    body = [ast.Assign([ast.Name(b, ast.Store())], v) for b, v in binds] + body
                test = g if test is None else ast.BoolOp(ast.And(), [test, g])
            for b in body:
                ast.copy_location(b, case.body[0])
            if test is None:
                chain = body
            else:
                chain = [ast.copy_location(ast.If(test, body, chain), case.body[0])]
        for c in chain[:1]:
            ast.copy_location(c, node)
        return out + chain

    def pattern(self, p, name):
        """(test or None when it always holds, [(name, value)])."""
        ref = ast.Name(name, ast.Load())
        if isinstance(p, ast.MatchValue):
            return ast.copy_location(ast.Compare(ref, [ast.Eq()], [p.value]), p), []
        if isinstance(p, ast.MatchSingleton):
            return ast.copy_location(ast.Compare(ref, [ast.Is()], [ast.Constant(p.value)]), p), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return None, ([(p.name, ref)] if p.name else [])
            t, b = self.pattern(p.pattern, name)
            return t, b + [(p.name, ref)]
        if isinstance(p, ast.MatchOr):
            if all(isinstance(x, ast.MatchValue) for x in p.patterns):
                return ast.copy_location(ast.Compare(ref, [ast.In()], [ast.Tuple([x.value for x in p.patterns], ast.Load())]), p), []
            tests, binds = [], []
            for x in p.patterns:
                t, b = self.pattern(x, name)
                binds += b
                if t is None:
                    return None, binds
                tests.append(t)
            return ast.copy_location(ast.BoolOp(ast.Or(), tests), p), binds
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return ast.copy_location(ast.Call(ast.Name("isinstance", ast.Load()), [ref, p.cls], []), p), []
        # a pattern looking inside the value: it may match or not
        binds = [(x.name, ref) for x in ast.walk(p) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name]
        return ast.copy_location(ast.Call(ast.Name("__matches__", ast.Load()), [ref], []), p), binds


class _Subst(ast.NodeTransformer):
    def __init__(self, d):
        self.d = d

    def visit_Name(self, n):
        return self.d.get(n.id, n)

"""Conditions a construct is under, whether written as nested alternatives or as guards that leave early."""
import ast
from .norm import leaves, positive

LEAVE = (ast.Return, ast.Raise, ast.Continue, ast.Break)


def conditions(fn):
    """node -> list of (test, truth) it is under"""
    out = {}

    def block(b, cs):
        cur = list(cs)
        for s in b:
            visit(s, cur)
            # an if that always leaves: the rest is under its negation
            if isinstance(s, ast.If) and s.body:
                if leaves(s.body):
                    cur = cur + [(s.test, False)]
                elif s.orelse and leaves(s.orelse):
                    cur = cur + [(s.test, True)]

    def visit(n, cs):
        out[n] = cs
        if isinstance(n, ast.If):
            visit(n.test, cs)
            block(n.body, cs + [(n.test, True)])
            block(n.orelse, cs + [(n.test, False)])
            return
        if isinstance(n, ast.IfExp):
            visit(n.test, cs)
            visit(n.body, cs + [(n.test, True)])
            visit(n.orelse, cs + [(n.test, False)])
            return
        if isinstance(n, ast.Try):
            # what follows a guard in the try block is continued in its else
            for h in n.handlers:
                visit(h, cs)
            block(n.body + n.orelse, cs)
            block(n.finalbody, cs)
            return
        for field, val in ast.iter_fields(n):
            if isinstance(val, list) and val and isinstance(val[0], ast.stmt):
                block(val, cs)
            elif isinstance(val, list):
                for s in val:
                    if isinstance(s, ast.AST):
                        visit(s, cs)
            elif isinstance(val, ast.AST):
                visit(val, cs)
    visit(fn, [])
    return out


def chains(fn):
    """maximal chains of alternatives: [(test, if-node, body), ..], default block;
    `if a: return ..` directly followed by `if b: ..` continues the chain"""
    done = set()
    for n in ast.walk(fn):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if not (isinstance(b, list) and b and isinstance(b[0], ast.stmt)):
                continue
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and id(s) not in done:
                    out, cur, rest = [], s, b[i + 1:]
                    while True:
                        done.add(id(cur))
                        out.append((cur.test, cur, cur.body))
                        if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If):
                            rest = rest if not leaves(cur.body) else cur.orelse[1:]
                            cur = cur.orelse[0]
                            continue
                        if cur.orelse:
                            default = cur.orelse
                        elif leaves(cur.body) and rest and isinstance(rest[0], ast.If):
                            cur, rest = rest[0], rest[1:]
                            continue
                        else:
                            default = rest if leaves(cur.body) else []
                        break
                    yield out, default

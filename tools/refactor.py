"""rewrites the sources of a copy of the repository without changing what they do (development only; no check uses it)

refactor.py DIR VARIANT     VARIANT: ret swap loop aug with early
The checks have to stay quiet on the result.
"""
import ast
import glob
import os
import sys


class Ret(ast.NodeTransformer):
    """return X -> v = X; return v"""

    def visit_Return(self, node):
        if node.value is None or isinstance(node.value, (ast.Constant, ast.Name)):
            return node
        return [ast.Assign([ast.Name('result_', ast.Store())], node.value, lineno=node.lineno),
                ast.Return(ast.Name('result_', ast.Load()))]


class Swap(ast.NodeTransformer):
    """if c: A else: B -> if not c: B else: A"""

    def visit_If(self, node):
        self.generic_visit(node)
        if not node.orelse:
            return node
        return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return ast.IfExp(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)


class Loop(ast.NodeTransformer):
    """for x in y: A -> it = iter(y); while True: try: x = next(it) except StopIteration: break; A"""
    n = 0

    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse:
            return node
        Loop.n += 1
        name = 'it_%d' % Loop.n
        new = ast.parse('%s = iter(X)\nwhile True:\n    try:\n        Y = next(%s)\n    except StopIteration:\n        break'
                        % (name, name)).body
        new[0].value.args[0] = node.iter
        new[1].body[0].body[0].targets[0] = node.target
        new[1].body += node.body
        return new


class Aug(ast.NodeTransformer):
    """x += 1 -> x = x + 1"""

    def visit_AugAssign(self, node):
        if not isinstance(node.value, ast.Constant) or not isinstance(node.target, ast.Attribute):
            return node
        load = ast.parse(ast.unparse(node.target), mode='eval').body
        return ast.Assign([node.target], ast.BinOp(load, node.op, node.value), lineno=node.lineno)


class With(ast.NodeTransformer):
    """with a, b: A -> with a: with b: A"""

    def visit_With(self, node):
        self.generic_visit(node)
        for item in reversed(node.items[1:]):
            node.body = [ast.With([item], node.body, lineno=node.lineno)]
        node.items = node.items[:1]
        return node


class Early(ast.NodeTransformer):
    """if c: ...return/raise  B -> if c: ... else: B, and conditions computed before they are tested"""

    def block(self, body):
        for i, node in enumerate(body):
            if isinstance(node, ast.If) and not node.orelse and body[i + 1:] and \
                    isinstance(node.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                node.orelse = self.block(body[i + 1:])
                return body[:i + 1]
        return body

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        node.body = self.block(node.body)
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        return [ast.Assign([ast.Name('cond_', ast.Store())], node.test, lineno=node.lineno),
                ast.If(ast.Name('cond_', ast.Load()), node.body, node.orelse)]


def main(d, variant):
    cls = {c.__name__.lower(): c for c in (Ret, Swap, Loop, Aug, With, Early)}[variant]
    for f in glob.glob(os.path.join(d, 'satella', '**', '*.py'), recursive=True):
        if f.endswith('__init__.py'):
            continue
        with open(f, newline='') as h:
            src = h.read()
        tree = cls().visit(ast.parse(src))
        ast.fix_missing_locations(tree)
        with open(f, 'w') as h:
            h.write(ast.unparse(tree) + '\n')


if __name__ == '__main__':
    main(*sys.argv[1:])

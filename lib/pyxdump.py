"""Runs under /opt/coffe-venv/bin/python (which has Cython): parses coffe.pyx with Cython's own parser and
prints the tree as JSON: [class name, line, {attr: child...}]."""
import json, sys
from Cython.Compiler.Main import CompilationOptions, Context, default_options
from Cython.Compiler.Scanning import FileSourceDescriptor
from Cython.Compiler import Nodes, ExprNodes, Errors

path = sys.argv[1]
import os
opts = CompilationOptions(default_options, language_level=3, include_path=[os.path.dirname(path)])
ctx = Context.from_options(opts) if hasattr(Context, 'from_options') else opts.create_context()
sd = FileSourceDescriptor(path, os.path.basename(path))
is_pxd = path.endswith('.pxd')
scope = ctx.find_module('coffe', pos=(sd, 1, 0), need_pxd=0)
tree = ctx.parse(sd, scope, pxd=is_pxd, full_module_name='coffe')
SKIP = {'pos', 'parent', 'scope', 'local_scope', 'type', 'doc', 'directives', 'py_result_class', 'is_temp'}


ACTIVE = set()


def conv(n):
    if isinstance(n, Nodes.Node):
        if id(n) in ACTIVE:
            return None
        ACTIVE.add(id(n))
        d = {}
        for k, v in vars(n).items():
            if k in SKIP or v is None or k.startswith('_'):
                continue
            c = conv(v)
            if c is not None:
                d[k] = c
        ACTIVE.discard(id(n))
        return {'_': type(n).__name__, 'line': n.pos[1] if n.pos else 0, 'col': n.pos[2] if n.pos else 0, **d}
    if isinstance(n, (list, tuple)):
        return [conv(x) for x in n]
    if isinstance(n, (bool, int, float)):
        return n
    if isinstance(n, bytes):
        return n.decode('latin-1')
    if isinstance(n, str):
        return str(n)
    return None


sys.setrecursionlimit(20000)
json.dump(conv(tree), sys.stdout)

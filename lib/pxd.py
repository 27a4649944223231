"""Declarations of the C library that the Cython front end compiles against (coffe.pxd, through Cython's own parser)."""
import json, os, subprocess
from ir import AnalysisBroken
import irbuild, pyx


def load(path=None):
    path = path or os.path.join(irbuild.REPO, 'python', 'coffe', 'coffe.pxd')
    p = subprocess.run([pyx.PY, os.path.join(pyx.HERE, 'pyxdump.py'), path], capture_output=True, text=True,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    if p.returncode:
        raise AnalysisBroken('Cython cannot parse %s:\n%s' % (path, p.stderr[-800:]))
    return json.loads(p.stdout)


def _decl(d, ty):
    k = d['_']
    if k == 'CNameDeclaratorNode':
        return d['name'], ty
    if k == 'CPtrDeclaratorNode':
        return _decl(d['base'], ty + ' *')
    if k == 'CArrayDeclaratorNode':
        return _decl(d['base'], ty + ' []')
    if k == 'CFuncDeclaratorNode':
        return _decl(d['base'], ty + ' ()')
    if 'base' in d:
        return _decl(d['base'], ty)
    return None, ty


def _base(b):
    if b['_'] == 'CConstTypeNode' or b['_'] == 'CConstOrVolatileTypeNode':
        return _base(b['base_type'])
    n = b.get('name', '?')
    if b.get('longness'):
        n = 'long ' * b['longness'] + n
    if b.get('signed') == 0 and n in ('int', 'char', 'long int'):
        n = 'unsigned ' + n
    return n


def structs(tree=None):
    """{struct name: [(field, type, line)]}, {enum name: [members]}"""
    tree = tree or load()
    out, enums = {}, {}

    def walk(n):
        if isinstance(n, list):
            for x in n:
                walk(x)
            return
        if not isinstance(n, dict):
            return
        if n['_'] == 'CStructOrUnionDefNode':
            fs = []
            for a in n.get('attributes') or []:
                if isinstance(a, dict) and a['_'] == 'CVarDefNode':
                    ty = _base(a['base_type'])
                    for d in a['declarators']:
                        nm, t = _decl(d, ty)
                        fs.append((nm, t, a.get('line', 0)))
            out[n['name']] = fs
        elif n['_'] == 'CEnumDefNode':
            enums[n.get('name', '')] = [i['name'] for i in n.get('items', []) if isinstance(i, dict)]
        for v in n.values():
            if isinstance(v, (dict, list)):
                walk(v)
    walk(tree)
    return out, enums

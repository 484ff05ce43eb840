"""Development tool: hand-written refactorings, on which every check has to
stay quiet.
usage: python3 tools/refactor.py SET [CHECK...]   (a copy is left in /tmp/gsapi_refactor/SET)"""
import ast
import importlib.util
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def load(name):
    s = importlib.util.spec_from_file_location(name, os.path.join(HERE, 'refactorings', name + '.py'))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m.R


def replaced(text, cls, src):
    tree = ast.parse(text)
    new = ast.parse(src.strip('\n'))
    first = new.body[0].name
    scope = tree.body
    if cls:
        scope = [c for c in tree.body if isinstance(c, ast.ClassDef) and c.name == cls][0].body
    old = [f for f in scope if isinstance(f, ast.FunctionDef) and f.name == first][0]
    lines = text.split('\n')
    start = min([old.lineno] + [d.lineno for d in old.decorator_list])
    pad = ' ' * old.col_offset
    body = [pad + l if l else l for l in src.strip('\n').split('\n')]
    return '\n'.join(lines[:start - 1] + body + lines[old.end_lineno:])


def build(name):
    out = '/tmp/gsapi_refactor/' + name
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree('/repo', out, symlinks=True)
    for f, cls, src in load(name):
        p = os.path.join(out, 'gsapi', f)
        t = open(p).read()
        open(p, 'w').write(replaced(t, cls, src))
    return out


PASSES = ['C05', 'C16', 'C18', 'C19', 'C21', 'C23']

if __name__ == '__main__':
    out = build(sys.argv[1])
    sys.path.insert(0, os.path.dirname(HERE))
    part = sys.argv[2] if len(sys.argv) > 2 else ''
    import rewrites
    rewrites.judge(sys.argv[1], out, part)
    for c in [] if part else PASSES if len(sys.argv) < 4 else sys.argv[3:]:
        e = dict(os.environ, GSAPI_REPO=out)
        r = subprocess.run([sys.executable, '-m', 'sa.check', c], capture_output=True, text=True, env=e, cwd=os.path.dirname(HERE))
        print(c, r.returncode)
        for l in r.stdout.split('\n'):
            if l and 'held' not in l:
                print('   ', l[:300])
        sys.stdout.flush()

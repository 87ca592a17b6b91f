"""Writes DESIGN.md: tools/design.md, followed by a part for each property."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(pid):
    out, fns = {}, []
    with open(os.path.join(HERE, 'harness', pid + '.py')) as f:
        tree = ast.parse(f.read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(
                n.targets[0], ast.Name) and n.targets[0].id in (
                    'BOUNDS', 'ASSUMPTIONS'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
        if isinstance(n, ast.FunctionDef) and n.name != 'tasks' and \
                n.args.args and n.args.args[0].arg == 'ctx' and \
                ast.get_docstring(n):
            fns.append((n.name, ast.get_docstring(n).split('\n')[0]))
    return out, fns


def main():
    with open(os.path.join(HERE, 'tools', 'design.md')) as f:
        text = f.read()
    fixed, found = {}, {}
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            for kind, d in (('fixed: ', fixed), ('finding: ', found)):
                if line.startswith(kind):
                    pid, rest = line[len(kind):].strip().split(' ', 1)
                    d.setdefault(pid.split('=')[1], []).append(rest)
    seeded = {}
    base = os.path.join(HERE, 'seeded')
    for b in sorted(os.listdir(base)):
        with open(os.path.join(base, b, 'meta.json')) as f:
            m = json.load(f)
        seeded.setdefault(m['property'], []).append((b, m))
    out = [text.rstrip('\n'), '']
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        for line in f:
            p = json.loads(line)
            pid = p['id']
            c, fns = consts(pid)
            out += ['### %s: %s' % (pid, p['title']), '', p['statement'], '',
                    '- Code executed symbolically: %s' % ', '.join(
                        '`%s`' % m['where'].replace('forecaster/', '', 1)
                        for m in p['anchors']['mechanism']),
                    '- Assertions are over: %s' % '; '.join(
                        p['anchors']['observe_at']),
                    '- Harnesses: %s' % '; '.join(
                        '`%s` (%s)' % (n, d.rstrip('.')) for n, d in fns),
                    '- Bounds: %s' % c.get('BOUNDS', ''),
                    '- Assumptions: %s' % '; '.join(c.get('ASSUMPTIONS', [])),
                    '- Why tests cannot settle it: %s' % p['why_tests_cant']]
            for x in fixed.get(pid, []):
                out.append('- Defect repaired: %s' % x)
            for x in found.get(pid, []):
                out.append('- Known finding, not repaired: %s' % x)
            for b, m in seeded.get(pid, []):
                out.append('- Planted bug %s: %s (needs: %s)' % (
                    b, m['what_it_breaks'], m['needs']))
            out.append('')
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


main()

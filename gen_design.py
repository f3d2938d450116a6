"""Writes the generated parts of DESIGN.md: the table of checks and that of planted bugs."""
import importlib
import json
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).parent))
root = pathlib.Path(__file__).parent


def checks():
    out = []
    for line in (root / 'properties.jsonl').read_text().splitlines():
        p = json.loads(line)
        m = importlib.import_module('checks.' + p['id'].lower())
        out.append(f"### {p['id']} {p['title']}\n")
        out.append(f"*Monitored and judged:* {m.RULE}.\n")
        out.append(f"*Bounds:* {m.QUICK} cases quick, {m.THOROUGH} thorough; drawn from VERIF_SEED; "
                   f"inconclusive (exit 2) with less than: "
                   + ', '.join(f'{k} {v}' for k, v in m.MIN.items()) + '.\n')
        if m.ASSUMPTIONS:
            out.append('*Assumed:* ' + '; '.join(m.ASSUMPTIONS) + '.\n')
        out.append(f"*Beyond the tests:* {p['why_tests_cant']} Quantified over "
                   f"{p['quantifier']['text']}.\n")
    return '\n'.join(out)


def planted():
    notes = json.loads((root / 'seeded_notes.json').read_text())
    out = ['| planted bug | needs | caught by | |', '|---|---|---|---|']
    for f in sorted((root / 'seeded').glob('*/meta.json')):
        m = json.loads(f.read_text())
        out.append(f"| {f.parent.name} | {m['needs']} | {m['property']} | "
                   f"{notes.get(f.parent.name, '')} |")
    return '\n'.join(out) + '\n'


if __name__ == '__main__':
    path = root / 'DESIGN.md'
    s = path.read_text()
    for name, fn in (('checks', checks), ('planted', planted)):
        a, b = f'<!-- {name} -->\n', f'<!-- end of {name} -->\n'
        head, rest = s.split(a)
        s = head + a + '\n' + fn() + '\n' + b + rest.split(b)[1]
    path.write_text(s)

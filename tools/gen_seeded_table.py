"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
START, END = '<!-- seeded -->', '<!-- /seeded -->'


def main():
    rows = ['| id | property | what breaks | needs |', '|---|---|---|---|']
    metas = []
    for path in glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json')):
        with open(path) as f:
            meta = json.load(f)
        metas.append((meta['property'], os.path.basename(
            os.path.dirname(path)), meta))
    for prop, name, meta in sorted(metas, key=lambda m: m[:2]):
        rows.append('| %s | %s | %s | %s |' % tuple(
            ' '.join(str(c).split()).replace('|', '\\|')
            for c in (name, prop, meta['what_it_breaks'], meta['needs'])))
    path = os.path.join(HERE, 'DESIGN.md')
    with open(path) as f:
        text = f.read()
    block = START + '\n' + '\n'.join(rows) + '\n' + END
    if START in text:
        a, b = text.index(START), text.index(END) + len(END)
        text = text[:a] + block + text[b:]
    else:
        text = text.replace('SEEDED_TABLE', block)
    with open(path, 'w') as f:
        f.write(text)


if __name__ == '__main__':
    main()

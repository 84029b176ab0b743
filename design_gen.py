#!/usr/bin/env python3
"""Fills the tables of DESIGN.md: design_template.md, known_findings.json and seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))

if __name__ == '__main__':
    text = open(os.path.join(HERE, 'design_template.md')).read()
    fixed = json.load(open(os.path.join(HERE, 'known_findings.json')))['fixed']
    caught = json.load(open(os.path.join(HERE, 'seeded_results.json')))
    bugs = ['| change | property | needs | quick check |', '|---|---|---|---|']
    for path in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(path))
        name = os.path.basename(os.path.dirname(path))
        bugs.append('| %s | %s | %s | %s |' % (name, m['property'], m['needs'].replace('|', '/'), caught.get(name, 'not run')))
    text = text.replace('@@FIXED@@', str(len(fixed))).replace('@@BUGS@@', '\n'.join(bugs)).replace('@@MORE@@\n', '').replace(
        '@@CHECKS@@\n\n', '')
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(text)

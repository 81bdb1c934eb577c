"""Prints the table of planted bugs for DESIGN.md."""
import json
import os

here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
print('| bug | property | breaks | needs |')
print('|---|---|---|---|')
for n in sorted(os.listdir(here)):
    m = json.load(open(os.path.join(here, n, 'meta.json')))
    print('| %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'],
                                     m['needs']))

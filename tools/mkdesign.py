"""Rewrites the table of planted bugs of DESIGN.md from tools/seeds.py."""
import os
import re
import sys

sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS  # noqa: E402

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'DESIGN.md')
text = open(path).read()
rows = ['| bug | property | what it breaks | what it needs |', '|---|---|---|---|']
for k, v in SEEDS.items():
    rows.append('| {} | {} | {} | {} |'.format(k, v['property'], v['breaks'], v['needs']))
table = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
text = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: table, text, flags=re.S)
open(path, 'w').write(text)

"""Prints DESIGN.md's table of planted bugs from the meta files."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| Planted bug | Caught by | Needs |\n|---|---|---|')
missed = set(open(os.path.join(here, 'tools', 'missed')).read().split()) if os.path.exists(os.path.join(here, 'tools', 'missed')) else set()
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    print(f"| {i} | {'not caught' if i in missed else m['property']} | {m['needs']} |")

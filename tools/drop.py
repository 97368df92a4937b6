"""drop planted bugs: drop.py ID..."""
import re, sys, json, shutil, glob
for i in sys.argv[1:]:
    for f in glob.glob('seeds*.py'):
        s = open(f).read()
        m = re.search(r"^S\('%s'.*?(?=^S\(|\Z)" % i, s, re.S | re.M)
        if m:
            open(f, 'w').write(s.replace(m.group(0), ''))
    r = json.load(open('seed_results.json'))
    r.pop(i, None)
    json.dump(r, open('seed_results.json', 'w'), indent=1, sort_keys=True)
    shutil.rmtree('/verif/seeded/' + i, ignore_errors=True)

"""mkseed.py ID PROPERTY: files seeded/ID from /tmp/seed/{main.rs,needs,breaks} and the current change of /repo's tree"""
import json, os, shutil, subprocess, sys
i, p = sys.argv[1:3]
d = f'/verif/seeded/{i}'
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True, check=True).stdout
assert diff
open(d + '/patch.diff', 'w').write(diff)
shutil.copy('/tmp/seed/main.rs', d + '/main.rs')
json.dump(dict(property=p, needs=open('/tmp/seed/needs').read().strip(), what_it_breaks=open('/tmp/seed/breaks').read().strip()),
          open(d + '/meta.json', 'w'), indent=1)
shutil.copy('/verif/tools/demo.lock', d + '/demo.lock')
shutil.copy('/verif/tools/demo.sh', d + '/demo.sh')
os.chmod(d + '/demo.sh', 0o755)

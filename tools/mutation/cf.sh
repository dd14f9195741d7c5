set -e
cd /repo
bash /opt/vp/build.sh >/tmp/b.log 2>&1
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1 || true
python3 - <<'P'
import json
o=json.load(open('/tmp/o.json'));print({k:len(v) if isinstance(v,(list,dict)) else v for k,v in o.items()})
b=json.load(open('/opt/vp/BASELINE.json'))
print(list(b)[:5])
P
git status --short
git commit -qam "$1" && git log --oneline | head -1

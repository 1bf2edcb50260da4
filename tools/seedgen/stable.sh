bash /opt/vp/build.sh >/tmp/b.log 2>&1 && bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print(type(b), list(b)[:5] if isinstance(b,dict) else '', list(t)[:5])
bs=set(b.get('passed',b.get('stable',[])) if isinstance(b,dict) else b)
ts=set(t['passed'])
print('missing', sorted(bs-ts)[:10], len(bs), len(ts))
P

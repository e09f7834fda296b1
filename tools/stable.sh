bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1; python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/out.json'))['passed'];m=set(b)-set(o);print('STABLE',len(b),'missing',sorted(m))"; find /repo -name '*$py.class' -delete

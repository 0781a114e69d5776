#!/bin/bash
# build and run the repository's tests; prints the numbers
bash /opt/vp/build.sh > /tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; python3 -c "
import json;d=json.load(open('/tmp/o.json'));print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in d.items()})"

#!/bin/bash
# bugtest.sh ID...: confirm planted bugs in scratch copies: builds, passes the stable tests, the demonstration tells it
# from the original, and say which checks report it.
HERE=$(cd "$(dirname "$0")/.." && pwd)
one() {
    id=$1; S=$HERE/seeded/$id; W=$(mktemp -d /tmp/bugtest.XXXXXX)
    cp -a /repo "$W/repo"; mkdir "$W/vp"
    for f in /opt/vp/*.sh /opt/vp/*.py /opt/vp/*.json; do sed "s#/repo#$W/repo#g; s#/opt/vp#$W/vp#g" "$f" > "$W/vp/${f##*/}"; done
    out="$id:"
    mkdir "$W/demo"; cp "$S"/* "$W/demo/"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
    if [ -z "$NOTEST" ]; then
        (cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" > "$W/demo0.log" 2>&1) || out="$out DEMO-FAILS-ON-ORIGINAL($(tail -1 "$W/demo0.log" | cut -c1-200))"
    fi
    git -C "$W/repo" apply "$S/patch.diff" || { echo "$out patch does not apply"; rm -rf "$W"; return; }
    if [ -z "$NOTEST" ]; then
        bash "$W/vp/build.sh" > "$W/build.log" 2>&1 || out="$out BUILD-FAILED"
        (cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" > "$W/demo1.log" 2>&1) && out="$out DEMO-PASSES-WITH-BUG" || out="$out demo:[$(tail -1 "$W/demo1.log" | cut -c1-160)]"
        bash "$W/vp/test.sh" "$W/res.json" > "$W/test.log" 2>&1
        out="$out tests:$(python3 - "$W/res.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def ids(d):
    for k in ('passed','tests','stable','stable_tests','ids'):
        if k in d: return set(d[k]) if not isinstance(d[k],dict) else {x for x,v in d[k].items() if v in (True,'pass','passed','PASS')}
    raise SystemExit(str(list(d)))
m=ids(b)-ids(r)
print('ok' if not m else 'FAILED:'+','.join(sorted(m))[:200])
P
)"
    fi
    props=${PROPS:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('$HERE/MANIFEST.json'))['checks']))")}
    python3 -c "
import json,sys,subprocess,os
W='$W'; p=json.load(open('$S/meta.json'))['property']
r=subprocess.run([sys.executable,'$HERE/sa/check.py']+'''$props'''.split()+['none'],env=dict(os.environ,VERIF_REPO=W+'/repo',VERIF_EVIDENCE=W,VERIF_SERIAL='1'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True).stdout
ex={l.split()[1]:l.split()[2] for l in r.splitlines() if l.startswith('EXIT ')}
c=[k for k,v in ex.items() if v=='1']; e=[k for k,v in ex.items() if v not in '01' and k!='none']
print('$out'.replace('\n',' '), 'property', p, 'CAUGHT' if p in c else 'MISSED', 'by', ' '.join(c), ('NOANSWER '+' '.join(e)) if e else '')
if os.environ.get('V'):
    print('\n'.join(l[:250] for l in r.splitlines() if l and l[0]!=' ' and not l.startswith('EXIT')))
" 
    rm -rf "$W"
}
if [ $# -gt 1 ]; then printf '%s\n' "$@" | xargs -P 3 -n 1 bash "$0"; else one "$1"; fi

"""tools/seed.py SPEC.py: make seeded/<id>/ from a spec (id, property, edits, main, needs, breaks[, profile]) and
confirm it in a scratch copy: applies, builds, the stable tests pass, the demo passes without and fails with it."""
import json,os,shutil,subprocess,sys,tempfile,re
R='/repo'
def sh(c,cwd=None,**k): return subprocess.run(c,shell=isinstance(c,str),cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def make(sp):
    d='/verif/seeded/'+sp['id']; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix='seed-',dir='/tmp'); c=w+'/repo'
    try:
        sh(['cp','-a',R,c]); sh('git checkout -q -- . && git clean -fdq -e target -e Cargo.lock',cwd=c)
        for f,old,new in sp['edits']:
            p=c+'/'+f; s=open(p).read()
            assert s.count(old)==1,(sp['id'],f,s.count(old),old)
            open(p,'w').write(s.replace(old,new))
        diff=sh('git diff',cwd=c).stdout
        open(d+'/patch.diff','w').write(diff)
        open(d+'/main.rs','w').write(sp['main'])
        shutil.copy('/verif/native/Cargo.lock',d+'/Cargo.lock')
        lock=open(d+'/Cargo.lock').read().replace('name = "nat"','name = "demo"'); 
        if sp.get('deps'): lock=open('/verif/gen/Cargo.lock').read().replace('name = "gencheck"','name = "demo"')
        open(d+'/Cargo.lock','w').write(lock)
        rel='--release ' if sp.get('profile')=='release' else ''
        if sp.get('kind')=='G':
            open(d+'/schema.fbs','w').write(sp['schema'])
            shutil.copy('/verif/gdrv/src/main.rs',d+'/gen_main.rs')
            open(d+'/Cargo.gen.lock','w').write(open('/verif/gdrv/Cargo.lock').read().replace('name = "gdrv"','name = "gen"'))
            open(d+'/demo.sh','w').write('''#!/bin/bash
# compiles schema.fbs with the tree in the current directory, then builds main.rs with the code it emits and runs it
# exit 0: the property holds on that tree; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/gen/src" "$T/demo/src" "$T/s"
cp "$D/gen_main.rs" "$T/gen/src/main.rs"; cp "$D/Cargo.gen.lock" "$T/gen/Cargo.lock"; cp "$D/schema.fbs" "$T/s/gen.fbs"
printf '[package]\\nname = "gen"\\nversion = "0.1.0"\\nedition = "2018"\\n[dependencies]\\nbutte-build = { path = "%s/butte-build" }\\nproc-macro2 = "1"\\n[workspace]\\n' "$R" > "$T/gen/Cargo.toml"
export CARGO_NET_OFFLINE=true
(cd "$T/gen" && CARGO_TARGET_DIR="$T/tg" cargo run -q -- "$T/s" 2>&1) || exit 1
[ -f "$T/s/gen.rs" ] || { cat "$T/s/gen.err"; exit 1; }
cp "$D/main.rs" "$T/demo/src/main.rs"; cp "$D/Cargo.lock" "$T/demo/Cargo.lock"; cp "$T/s/gen.rs" "$T/demo/src/gen.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nbutte = { path = "%s/butte" }\\n[workspace]\\n' "$R" > "$T/demo/Cargo.toml"
cd "$T/demo" && CARGO_TARGET_DIR="$T/td" cargo run -q 2>&1
''')
        elif sp.get('kind')=='B':
            # the demonstration uses the compiler as a library
            open(d+'/Cargo.lock','w').write(open('/verif/gdrv/Cargo.lock').read().replace('name = "gdrv"','name = "demo"'))
            open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0: the property holds on the tree in the current directory; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$D/main.rs" "$T/src/main.rs"; cp "$D/Cargo.lock" "$T/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2018"\\n[dependencies]\\nbutte-build = { path = "%s/butte-build" }\\nproc-macro2 = "1"\\n[workspace]\\n' "$R" > "$T/Cargo.toml"
cd "$T" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" cargo run -q 2>&1
''')
        else: open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0: the property holds on the tree in the current directory; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$D/main.rs" "$T/src/main.rs"; cp "$D/Cargo.lock" "$T/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nbutte = { path = "%%s/butte" }\\n%s[workspace]\\n' "$R" %s> "$T/Cargo.toml"
cd "$T" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" cargo run -q %s2>&1
'''%(sp.get('deps','').replace('$R','%s').replace('\n','\\n'),'"$R" '*sp.get('deps','').count('$R'),rel))
        os.chmod(d+'/demo.sh',0o755)
        json.dump(dict(property=sp['property'],needs=sp['needs'],what_it_breaks=sp['breaks']),open(d+'/meta.json','w'),indent=1)
        p=subprocess.run(['bash',d+'/demo.sh'],cwd=R,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        a=p.returncode
        p2=subprocess.run(['bash',d+'/demo.sh'],cwd=c,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        # tests in the scratch copy
        e=dict(os.environ); 
        t=open('/opt/vp/env.sh').read() if os.path.exists('/opt/vp/env.sh') else ''
        t=sh('CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=%s/target cargo test --workspace 2>&1 | grep -E "^test result|FAILED|error|panicked" | sort | uniq -c'%c,cwd=c).stdout
        bad=("FAILED" in t) or bool(re.search(r"error(\[|:)",t)) or "209 passed" not in t
        print(sp['id'],'unchanged:',a,'patched:',p2.returncode,'tests','FAIL' if bad else 'pass')
        if a: print(p.stdout[-1500:])
        print('   ',p2.stdout.strip().split('\n')[-1][:300])
        if bad: print(t)
        return a==0 and p2.returncode!=0 and not bad
    finally: shutil.rmtree(w,ignore_errors=True)
if __name__=='__main__':
    ns={}; exec(open(sys.argv[1]).read(),ns)
    only=sys.argv[2:]
    for sp in ns['SPECS']:
        if not only or sp['id'] in only:
            if not make(sp): print('NOT KEPT',sp['id']); shutil.rmtree('/verif/seeded/'+sp['id'])

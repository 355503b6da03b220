"""mk.py: defines bug(id, property, needs, breaks, edits[(file, old, new)], demo files) -> /verif/seeded/id"""
import os, subprocess, json, sys
copy="/tmp/plant/repo"; out="/verif/seeded"
RUSTDEMO='''#!/bin/bash
# Builds and runs demo.rs against the crates of the repository in the current directory
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
work="$(mktemp -d /tmp/demo.XXXXXX)" || exit 1
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" && cp "$here/demo.rs" "$work/src/main.rs" && cp "$repo/Cargo.lock" "$work/Cargo.lock" || exit 1
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%s
EOF
%scd "$work" && cargo run -q --offline
'''
LIB='''mkdir "$work/lib" || exit 1
echo 'fn main() { println!("cargo:rustc-cfg=crofiler_verif"); }' > "$work/lib/build.rs"
cat > "$work/lib/Cargo.toml" <<EOF
'''+open("/verif/crofiler-lib/Cargo.toml").read().replace("/repo/","$repo/").replace("[workspace]\n\n","").replace("crofiler-lib","crofiler")+'''EOF
'''
BINDEMO='''#!/bin/bash
# Builds the program of the repository in the current directory and runs it on files of a scratch directory
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
unset RUSTFLAGS CARGO_TARGET_DIR
cargo build -q --offline -p crofiler --bins || exit 1
exec python3 "$here/demo.py" "$PWD"
'''
def bug(id, prop, needs, breaks, edits, demo_rs=None, deps=(), demo_py=None):
    only=sys.argv[1:]
    if only and id not in only: return
    d=f"{out}/{id}"; os.makedirs(d,exist_ok=True)
    subprocess.check_call(f"git -C {copy} fetch -q /repo HEAD && git -C {copy} reset -q --hard FETCH_HEAD",shell=True)
    for f,old,new in edits:
        p=f"{copy}/{f}"; s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old),old)
        open(p,"w").write(s.replace(old,new))
    diff=subprocess.check_output(f"git -C {copy} diff",shell=True,text=True)
    open(f"{d}/patch.diff","w").write(diff)
    subprocess.check_call(f"git -C {copy} checkout -q -- .",shell=True)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f"{d}/meta.json","w"),indent=1)
    if demo_rs is not None:
        open(f"{d}/demo.rs","w").write(demo_rs)
        lines=[]
        for x in deps:
            lines.append(x if "=" in x else f'{x} = {{ path = "$repo/{x}" }}')
        open(f"{d}/demo.sh","w").write(RUSTDEMO%("\n".join(lines), LIB if any("lib" in x for x in deps) else ""))
    else:
        open(f"{d}/demo.py","w").write(demo_py)
        open(f"{d}/demo.sh","w").write(BINDEMO)
    os.chmod(f"{d}/demo.sh",0o755)
    r=subprocess.run(["/verif/tools/plant.sh",id],capture_output=True,text=True)
    print(id,"->",(r.stdout+r.stderr).strip()[-1500:],flush=True)

#!/usr/bin/env python3
"""Writes harness/checks/src/consts/list.rs: the public integer constants of object::{elf,macho,pe,xcoff}.

Run by hand, when the crate gains constants. The names and types come from rustdoc's JSON; the values are those
of the crate when this was run, and each is compared with /usr/include/elf.h, linux/elf-em.h and LLVM's
llvm/BinaryFormat headers where they define the same name (column `src`: e = elf.h, l = LLVM, - = neither).
"""
import json, os, re, subprocess, sys
T = "/tmp/genconsts"
os.makedirs(T + "/vals/src", exist_ok=True)
subprocess.check_call(["cargo", "+nightly", "rustdoc", "--offline", "--lib", "--features", "all", "--target-dir", T + "/rd", "--", "-Zunstable-options", "--output-format", "json"], cwd="/repo")
d = json.load(open(T + "/rd/doc/object.json"))
ix = d["index"]
C = []
for i in ix[str(d["root"])]["inner"]["module"]["items"]:
    it = ix[str(i)]
    if "module" in it["inner"] and it["name"] in ("elf", "macho", "pe", "xcoff"):
        for j in it["inner"]["module"]["items"]:
            x = ix[str(j)]
            if "constant" in x["inner"]:
                t = x["inner"]["constant"]["type"]
                t = t.get("primitive") or t.get("resolved_path", {}).get("path")
                if t and t != "ClsId":
                    C.append((it["name"], x["name"], t))
open(T + "/vals/Cargo.toml", "w").write('[package]\nname="vals"\nversion="0.1.0"\nedition="2021"\n[dependencies]\nobject={path="/repo",default-features=false,features=["read","write","build","names","std"]}\n[workspace]\n')
open(T + "/vals/src/main.rs", "w").write("#![allow(unused)]\nuse object::Wrap;\ntrait V{fn v(self)->i128;}\nmacro_rules! p{($($t:ty)*)=>{$(impl V for $t{fn v(self)->i128{self as i128}})*}}\np!(u8 u16 u32 u64 usize i8 i16 i32 i64);\nfn w<T:Wrap>(t:T)->i128 where T::Inner:V{t.into_inner().v()}\nfn main(){\n" + "".join(f'println!("{m} {n} {{}}", w(object::{m}::{n}));\n' for m, n, _ in C) + "}\n")
V = {tuple(l.split()[:2]): int(l.split()[2]) for l in subprocess.check_output(["cargo", "run", "-q", "--offline", "--target-dir", T + "/t"], cwd=T + "/vals", text=True).splitlines()}
ns = {"elf": "llvm::ELF", "macho": "llvm::MachO", "pe": "llvm::COFF", "xcoff": "llvm::XCOFF"}
head = "".join(f"#include <llvm/BinaryFormat/{x}.h>\n" for x in ("ELF", "MachO", "COFF", "XCOFF")) + "#include <cstdio>\nint main(){\n"
cur = [c[:2] for c in C]
while True:
    open(T + "/l.cpp", "w").write(head + "".join(f'printf("{m} {n} %lld\\n",(long long)({ns[m]}::{n}));\n' for m, n in cur) + "}\n")
    r = subprocess.run(f"clang++ -std=c++17 -I/usr/lib/llvm-18/include -ferror-limit=0 -fsyntax-only -w {T}/l.cpp".split(), capture_output=True, text=True)
    bad = {int(x) - 7 for x in re.findall(r"l\.cpp:(\d+):\d+: error", r.stderr)}
    if not bad:
        break
    cur = [c for i, c in enumerate(cur) if i not in bad]
subprocess.check_call(f"clang++ -std=c++17 -w -DLLVM_DISABLE_ABI_BREAKING_CHECKS_ENFORCING=1 -I/usr/lib/llvm-18/include {T}/l.cpp -o {T}/l".split())
open(T + "/e.c", "w").write("#include <elf.h>\n#include <linux/elf-em.h>\n#include <stdio.h>\nint main(){\n" + "".join(f'#ifdef {n}\nprintf("{m} {n} %lld\\n",(long long)({n}));\n#endif\n' for m, n, _ in C if m == "elf") + "}\n")
subprocess.check_call(["gcc", "-w", T + "/e.c", "-o", T + "/e"])
src = {}
for k in "el":
    for l in subprocess.check_output([f"{T}/{k}"], text=True).splitlines():
        m, n, v = l.split()
        if (V[m, n] - int(v)) % (1 << 32) == 0:
            src[m, n] = src.get((m, n), "") + k
        else:
            print("differs from", {"e": "elf.h", "l": "LLVM"}[k], m, n, hex(V[m, n]), hex(int(v)))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/checks/src/consts/list.rs")
with open(out, "w") as f:
    f.write("// Written by tools/genconsts.py: module, name, type, value, where the value was confirmed (e = elf.h, l = LLVM).\n")
    f.write("use super::Cst;\n")
    n = 0
    for a in range(0, len(C), 150):
        f.write(f"fn p{n}(v: &mut Vec<Cst>) {{\n")
        for m, name, t in C[a:a + 150]:
            x = V[m, name]
            f.write(f'c!(v {m} {name} "{t}" {x if x < 0 else hex(x)} "{src.get((m, name), "-")}");\n')
        f.write("}\n")
        n += 1
    f.write("/// All of them.\npub fn all() -> Vec<Cst> {\n    let mut v = vec![];\n" + "".join(f"    p{i}(&mut v);\n" for i in range(n)) + "    v\n}\n")
print(len(C), "constants,", len(src), "confirmed")

#!/usr/bin/env python3
"""One-off: builds harness/gen/src/elf_rel.rs.  Relocation numbers come from the
system's elf.h and LLVM's ELFRelocs tables; kinds/encodings/sizes were reviewed
by hand against the psABI documents.  Not run by any check."""
import re,glob
nums={}
src={}
for f in glob.glob('/usr/lib/llvm-18/include/llvm/BinaryFormat/ELFRelocs/*.def'):
    for m in re.finditer(r'ELF_RELOC\(\s*(\w+)\s*,\s*(\w+)\s*\)',open(f).read()):
        nums[m[1]]=int(m[2],0); src[m[1]]='llvm'
for m in re.finditer(r'#define\s+(R_\w+)\s+(0x[0-9a-fA-F]+|\d+)',open('/usr/include/elf.h').read()):
    nums.setdefault(m[1],int(m[2],0)); src.setdefault(m[1],'elf.h')
EM={}
for m in re.finditer(r'#define\s+(EM_\w+)\s+(0x[0-9a-fA-F]+|\d+)',open('/usr/include/elf.h').read()): EM[m[1]]=int(m[2],0)
crate={}
for m in re.finditer(r'(R_\w+)\s*=\s*(0x[0-9a-fA-F]+|\d+)\s*[,;]',open('/repo/src/elf.rs').read()): crate[m[1]]=int(m[2],0)
for m in re.finditer(r'(EM_\w+)\s*=\s*(0x[0-9a-fA-F]+|\d+)\s*[,;]',open('/repo/src/elf.rs').read()): EM.setdefault(m[1],int(m[2],0)); 
alias={'R_BPF_64_64':1,'R_CKCORE_ADDR32':1,'R_CKCORE_PCREL32':5}
body=open('/repo/src/read/elf/relocation.rs').read()
i=body.index('fn parse_relocation'); body=body[i:body.index('let target = match reloc.symbol()',i)]
out=[];cur=None;cls='Any';lsb=False
missing=[]
for line in body.splitlines():
    m=re.findall(r'elf::(EM_\w+)',line)
    if m: cur=m;cls='Any'
    if 'if header.is_type_64()' in line: cls='C64'
    if '} else {' in line and cls=='C64': cls='C32'
    m=re.match(r'\s*((?:elf::R_\w+\s*\|?\s*)+)=> \((?:K::)(\w+), ([\w:]+), (\d+)\)',line)
    if m:
        for r in re.findall(r'elf::(R_\w+)',m[1]):
            n=nums.get(r)
            if n is None:
                n=crate.get(r); missing.append(r)
            elif r in crate and crate[r]!=n: print('DIFF',r,n,crate[r])
            enc=m[3]
            end='Both'
            if enc=='g': enc='Generic'
            elif enc=='lsb': enc='Generic'; end='Le'
            elif enc=='msb': enc='Generic'; end='Be'
            else: enc=enc.split('::')[1]
            for em in cur:
                out.append((EM[em],em,cls,end,n,r,m[2],enc,int(m[4])))
print('from crate only:',missing)
with open('/verif/harness/gen/src/elf_rel.rs','w') as f:
    f.write('''//! ELF relocation meanings: numbers from elf.h / LLVM, meanings from the psABIs.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cls { Any, C32, C64 }
/// Byte order in which the encoding is generic.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End { Both, Le, Be }
/// (machine, class, byte order, type, kind, encoding, size in bits)
pub type Row = (u16, Cls, End, u32, &'static str, &'static str, u8);
use Cls::*;
use End::*;
#[rustfmt::skip]
pub static ELF_RELS: &[Row] = &[
''')
    for em,emn,c,e,n,r,k,enc,s in out:
        f.write(f'    ({em}, {c}, {e}, {n}, "{k}", "{enc}", {s}), // {r}\n')
    f.write('];\n')
print(len(out))

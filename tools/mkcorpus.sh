#!/bin/bash
# Regenerates /verif/corpus (committed; checks never run this) with the
# installed compilers and linkers: small real files of each format.
set -u
out="${1:-$(cd "$(dirname "$0")/.." && pwd)/corpus}"
w=$(mktemp -d /tmp/mkcorpus.XXXXXX); cd "$w" || exit 1
cat > a.cc <<'C'
extern "C" int puts(const char *); extern "C" int ext; __attribute__((weak)) int weak_v = 3;
template <class T> struct S { static int n; T f(T x); };
template <class T> int S<T>::n = 7; template <class T> T S<T>::f(T x) { return x * n; }
static const char *const names[] = {"one", "two", "three"};
int table[64]; int init = 5; static int hidden;
inline int inl(int x) { static int k; return k += x; }
extern "C" int entry(int x) { S<int> s; hidden += x; if (x) puts(names[x & 1]); return s.f(x) + inl(x) + ext + init + weak_v + table[x & 63]; }
extern "C" int *addr(void) { return &init; }
C
cat > b.c <<'C'
int ext = 9; int puts(const char *s) { return *s; } int entry(int); int common_sym[3];
void _start(void) { entry(1); } void mainCRTStartup(void) { entry(2); } int exported(int x) { return x + ext; }
C
F="-Os -fno-exceptions -fno-rtti -fno-threadsafe-statics -fno-asynchronous-unwind-tables -ffreestanding"
for t in x86_64-linux-gnu i686-linux-gnu aarch64-linux-gnu arm-linux-gnueabi mips-linux-gnu mips64el-linux-gnuabi64 riscv64-linux-gnu powerpc64-linux-gnu sparcv9-linux-gnu s390x-linux-gnu loongarch64-linux-gnu hexagon-linux \
         x86_64-pc-windows-msvc i686-pc-windows-msvc aarch64-pc-windows-msvc thumbv7-pc-windows-msvc x86_64-apple-macosx11 arm64-apple-macosx11 armv7-apple-ios powerpc64-ibm-aix powerpc-ibm-aix wasm32-unknown-unknown; do
  mc=""; case $t in *linux*) mc="-fPIC -ffunction-sections";; *apple*|*aix*) ;; *windows*) mc="-ffunction-sections";; esac
  clang --target=$t $F $mc -c a.cc -o $t.a.o 2>/dev/null && cp $t.a.o $out/
  clang --target=$t $F -fcommon $mc -c b.c -o $t.b.o 2>/dev/null
done
for t in x86_64-linux-gnu i686-linux-gnu aarch64-linux-gnu mips-linux-gnu; do
  [ -f $t.b.o ] || continue
  ld.lld -o $out/$t.exe --gc-sections -z separate-code --build-id $t.a.o $t.b.o 2>/dev/null
  printf 'V1 { global: entry; local: hidden*; }; V2 { global: exported; } V1;' > v.map
  ld.lld -shared -o $out/$t.so --hash-style=both --version-script=v.map -z pack-relative-relocs -z max-page-size=256 $t.a.o $t.b.o 2>/dev/null || \
  ld.lld -shared -o $out/$t.so --hash-style=sysv --version-script=v.map $t.a.o $t.b.o 2>/dev/null
done
clang --target=x86_64-linux-gnu $F -g -gz=zlib -c b.c -o $out/elf-zlib.o
clang --target=x86_64-linux-gnu $F -g -gz=zstd -c b.c -o $out/elf-zstd.o 2>/dev/null
ld.lld -r --crel -o $out/elf-r.o x86_64-linux-gnu.a.o x86_64-linux-gnu.b.o 2>/dev/null
clang --target=x86_64-linux-gnu $F -Wa,--crel,--allow-experimental-crel -c a.cc -o $out/elf-crel.o 2>/dev/null
for t in x86_64 i686 aarch64; do
  m=x64; [ $t = i686 ] && m=x86; [ $t = aarch64 ] && m=arm64
  printf 'LIBRARY foo.dll\nEXPORTS\n entry2\n byord @7 NONAME\n data DATA\n' > foo.def
  llvm-dlltool-18 -m $(case $m in x64) echo i386:x86-64;; x86) echo i386;; *) echo arm64;; esac) -d foo.def -l $t.foo.lib && cp $t.foo.lib $out/
  printf 'int __declspec(dllimport) entry2(int); int use(void){return entry2(1);} int _fltused;' > u.c
  clang --target=$t-pc-windows-msvc $F -c u.c -o u.o
  lld-link /nologo /dll /noentry /nodefaultlib /export:exported /export:use,@9 /export:fwd=foo.other /include:use u.o $t-pc-windows-msvc.b.o $t-pc-windows-msvc.a.o $t.foo.lib /out:$out/$t.dll /implib:$t.imp.lib /debug:none 2>&1 | head -3
  lld-link /nologo /nodefaultlib /subsystem:console /entry:mainCRTStartup $t-pc-windows-msvc.b.o $t-pc-windows-msvc.a.o u.o $t.foo.lib /delayload:foo.dll /out:$out/$t.win.exe /force 2>&1 | head -1
  [ -f $t.imp.lib ] && cp $t.imp.lib $out/
done
L=/root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin/rust-lld
for a in x86_64 arm64; do
  o="$a-apple-macosx11.a.o $a-apple-macosx11.b.o"
  $L -flavor darwin -arch $a -platform_version macos 11.0 11.0 -dylib -o $out/$a.dylib -undefined dynamic_lookup $o 2>&1 | head -2
  $L -flavor darwin -arch $a -platform_version macos 11.0 11.0 -fixup_chains -dylib -o $out/$a.chained.dylib -undefined dynamic_lookup $o 2>&1 | head -2
  $L -flavor darwin -arch $a -platform_version macos 10.9 10.9 -no_fixup_chains -e _entry -o $out/$a.macho -undefined dynamic_lookup $o 2>&1 | head -2
done
wasm-ld --no-entry --export=entry --allow-undefined wasm32-unknown-unknown.a.o wasm32-unknown-unknown.b.o -o $out/linked.wasm
for f in gnu bsd darwin coff; do llvm-ar --format=$f rcs $out/$f.a x86_64-linux-gnu.a.o x86_64-apple-macosx11.a.o 2>/dev/null; done
OBJECT_MODE=any llvm-ar --format=bigarchive rcs $out/big.a powerpc64-ibm-aix.a.o powerpc-ibm-aix.a.o 2>/dev/null
cp b.c a_rather_long_member_name_for_archives.c; llvm-ar --format=gnu rcT $out/thin.a b.c a_rather_long_member_name_for_archives.c
llvm-lipo -create x86_64-apple-macosx11.a.o arm64-apple-macosx11.a.o -output $out/fat.o 2>/dev/null || llvm-lipo-18 -create x86_64-apple-macosx11.a.o arm64-apple-macosx11.a.o -output $out/fat.o
llvm-objcopy-18 --strip-all $out/x86_64-linux-gnu.so $out/stripped.so
cd /; rm -rf "$w"
find "$out" -size +64k -delete; find "$out" -size 0 -delete

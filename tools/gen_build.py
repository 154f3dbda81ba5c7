#!/usr/bin/env python3
"""Writes /verif/build/build.ninja: facebook/wdt's core and bench sources compiled from
/repo's working tree against /verif/shim (folly is not installed), plus one harness binary
per property.  Sources are globbed, so moved or added files are picked up."""
import glob, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORIG = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
# Sources are mirrored by content into the build directory, so that what is compiled never
# depends on the modification times of /repo's files.
REPO = B + '/src/wdt'

def mirror():
    want = {}
    for d, ds, fs in os.walk(ORIG):
        ds[:] = [x for x in ds if x not in ('.git', '_build', 'build', 'test') and not x.startswith('_')]
        for f in fs:
            if f.endswith(('.h', '.hpp', '.cpp', '.cc', '.c', '.inc', '.in')) or f == 'CMakeLists.txt':
                want[os.path.relpath(os.path.join(d, f), ORIG)] = os.path.join(d, f)
    for rel, f in want.items():
        dst = os.path.join(REPO, rel)
        data = open(f, 'rb').read()
        try:
            if open(dst, 'rb').read() == data:
                continue
        except OSError:
            pass
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, 'wb') as o:
            o.write(data)
    for d, ds, fs in os.walk(REPO):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, REPO) not in want:
                os.unlink(p)

def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(text)

def config_header():
    ver = ('1', '32', '1910230')
    try:
        m = re.search(r'VERSION\s+(\d+)\.(\d+)\.(\d+)', open(REPO + '/CMakeLists.txt').read().split('project(', 1)[1])
        if m:
            ver = m.groups()
    except Exception:
        pass
    t = open(REPO + '/WdtConfig.h.in').read()
    t = t.replace('@WDT_VERSION_MAJOR@', ver[0]).replace('@WDT_VERSION_MINOR@', ver[1])
    t = t.replace('@WDT_VERSION_PATCH@', ver[2]).replace('@WDT_VERSION@', '.'.join(ver))
    return re.sub(r'#cmakedefine (\w+).*', r'#define \1 1', t)

def has_main(f):
    return re.search(r'^\s*(int|auto)\s+main\s*\(', open(f, errors='replace').read(), re.M) is not None

VARIANTS = {
    # -fsanitize-recover=none for the subset of UBSan that is unambiguous
    'asan': ('clang++', '-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,bounds,null,return,unreachable,integer-divide-by-zero '
                        '-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS',
             '-fsanitize=address,bounds,null,return,unreachable,integer-divide-by-zero'),
    'tsan': ('clang++', '-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread -D_GLIBCXX_ASSERTIONS', '-fsanitize=thread'),
    'rel': ('clang++', '-O1 -g1 -D_GLIBCXX_ASSERTIONS', ''),
    'fuzz': ('clang++', '-O1 -g1 -fno-omit-frame-pointer -fsanitize=fuzzer-no-link,address,bounds,null,return,unreachable,integer-divide-by-zero '
                        '-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS',
             '-fsanitize=fuzzer,address,bounds,null,return,unreachable,integer-divide-by-zero'),
}

def main():
    mirror()
    write_if_changed(B + '/gen/wdt/WdtConfig.h', config_header())
    core = sorted(glob.glob(REPO + '/*.cpp') + glob.glob(REPO + '/util/*.cpp'))
    core = [f for f in core if not has_main(f)]
    cli = [f for f in sorted(glob.glob(REPO + '/*.cpp')) if has_main(f)]
    bench = sorted(glob.glob(REPO + '/bench/*.cpp'))
    bench_main = [f for f in bench if has_main(f)]
    bench_lib = [f for f in bench if not has_main(f) and 'TestUtils' not in f]
    L = ['ninja_required_version = 1.3', 'builddir = ' + B]
    std = f'-std=c++17 -include {V}/shim/prelude.h -pthread -w'
    incs = f'-I{V}/harness -I{B}/gen -I{B}/src -I{V}/shim'
    for v, (cc, cf, lf) in VARIANTS.items():
        L += [f'rule cxx_{v}', f'  command = {cc} {std} {cf} {incs} $defs -MD -MF $out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc',
              f'  description = CXX[{v}] $in',
              f'rule link_{v}', f'  command = {cc} {lf} -pthread -o $out $in $lflags -Wl,--start-group $libs -Wl,--end-group -lglog -lgflags -lcrypto -lssl -ldl',
              f'  description = LINK[{v}] $out',
              f'rule ar_{v}', '  command = rm -f $out && ar crs $out $in', '  description = AR $out']
    done = set()
    def obj(v, f, tag='', defs=''):
        rel = os.path.relpath(f, B + '/src') if f.startswith(B + '/src') else 'verif/' + os.path.basename(f)
        o = f'{B}/{v}{tag}/{rel}.o'
        if o not in done:
            done.add(o)
            L.append(f'build {o}: cxx_{v} {f}')
            if defs:
                L.append(f'  defs = {defs}')
        return o
    flagsrc = {'WdtFlags.cpp', 'Wdt.cpp'}
    for v in VARIANTS:
        L.append(f'build {B}/{v}/libcore.a: ar_{v} ' + ' '.join(obj(v, f) for f in core))
        L.append(f'build {B}/{v}/libbench.a: ar_{v} ' + ' '.join(obj(v, f) for f in bench_lib))
        for f in bench_main:
            name = {'wdtGenFiles': 'wdt_gen_files', 'wdtStats': 'wdt_gen_stats'}.get(os.path.basename(f)[:-4])
            if name and v != 'fuzz':
                L.append(f'build {B}/{v}/{name}: link_{v} {obj(v, f)} {B}/{v}/libbench.a')
        if cli and v != 'fuzz':
            # the standalone program compiles the flags with short names
            o = [obj(v, f, '_cli', '-DSTANDALONE_APP') for f in cli + [c for c in core if os.path.basename(c) in flagsrc]]
            L.append(f'build {B}/{v}/cli/wdt: link_{v} ' + ' '.join(o) + f' | {B}/{v}/libcore.a')
            L.append(f'  libs = {B}/{v}/libcore.a')
    # harnesses: harness/<ID>.cpp, options in the first lines:
    #   // variant: asan|rel   libs: core|bench|none   tools: wdt_gen_stats ...
    for f in sorted(glob.glob(V + '/harness/*.cpp')):
        name = os.path.basename(f)[:-4]
        head = open(f).read(2000)
        if name == 'pbt' or name.startswith('common'):
            continue
        m = re.search(r'//\s*variant:\s*(\S+)', head)
        v = m.group(1) if m else 'asan'
        m = re.search(r'//\s*libs:\s*(.*)', head)
        libs = m.group(1).split() if m else ['core']
        m = re.search(r'//\s*tools:\s*(.*)', head)
        tools = m.group(1).split() if m else []
        m = re.search(r'//\s*extra:\s*(.*)', head)
        extra = m.group(1).split() if m else []
        m = re.search(r'//\s*wrap:\s*(.*)', head)  # system calls the harness may make fail
        wrap = m.group(1).split() if m else []
        o = [obj(v, f)]
        if v != 'fuzz':
            o.append(obj(v, V + '/harness/pbt.cpp'))
        o += [obj(v, V + '/harness/' + e) for e in extra]
        la = [f'{B}/{v}/lib{l}.a' for l in libs if l != 'none']
        deps = la + [f'{B}/{t}' for t in tools]
        L.append(f'build {B}/bin/{name}: link_{v} ' + ' '.join(o) + (' | ' + ' '.join(deps) if deps else ''))
        if la:
            L.append('  libs = ' + ' '.join(la))
        if wrap:
            L.append('  lflags = ' + ' '.join(f'-Wl,--wrap={w}' for w in wrap))
        L.append(f'build {name}: phony {B}/bin/{name}')
    write_if_changed(B + '/build.ninja', '\n'.join(L) + '\n')

if __name__ == '__main__':
    main()

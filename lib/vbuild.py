"""Out-of-tree instrumented build of /repo's working tree plus the harnesses in
/verif/harness.  Generates one build.ninja per variant under /verif/build (git-ignored)."""
import glob, os, subprocess, sys, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src'
BUILD = os.environ.get('VERIF_BUILD', VERIF + '/build')

CXX = '/usr/bin/g++'
CC = '/usr/bin/gcc'
UB = '-fsanitize=undefined,float-cast-overflow -fno-sanitize-recover=all'
VARIANTS = {
    # address + leak + undefined-behaviour
    'asan': f'-O1 -g1 -fno-omit-frame-pointer -fsanitize=address {UB}',
    # data races and lock errors
    'tsan': '-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread',
    # plain, used under no sanitizer where speed buys reach
    'plain': '-O1 -g1',
}
COMMON = ('-std=gnu++14 -include cstdint -include cstring -w '
          '-DPLEXIL_VERIF_MONITOR=1 -fPIC')
CCOMMON = '-w -fPIC -DPLEXIL_VERIF_MONITOR=1'

LIBS = {
    'utils': ('utils', ['JNIHelper.cc', 'JNIUtils.cc']),
    'value': ('value', []),
    'expr': ('expr', []),
    'intfc': ('intfc', []),
    'exec': ('exec', []),
    'xml': ('xml-parser', ['analyzePlan.cc']),
    'app': ('app-framework', ['DispatchTimebase.cc', 'ItimerTimebase.cc', 'PosixTimebase.cc']),
    'testexec': ('apps/TestExec', ['exec-test-runner.cc', 'jni-interface.cc']),
    'udputils': ('interfaces/UdpAdapter', ['UdpAdapter.cc', 'MessageQueueMap.cc']),
    'udp': ('interfaces/UdpAdapter', ['UdpEventLoop.cc', 'udp-utils.cc']),
    'sockets': ('interfaces/Sockets', []),
    'luv': ('interfaces/LuvListener', []),
    'plandebug': ('interfaces/PlanDebugListener', []),
    'ipc': ('interfaces/IpcAdapter', []),
    'ipcutils': ('interfaces/IpcUtils', []),
    'sim': ('apps/StandAloneSimulator', ['IpcCommRelay.cc', 'PlexilSimulator.cc']),
}
CORE = ['utils', 'value', 'expr', 'intfc', 'exec', 'xml']

INCDIRS = ['utils', 'value', 'expr', 'intfc', 'exec', 'xml-parser', 'app-framework',
           'interfaces/UdpAdapter', 'interfaces/Sockets', 'interfaces/LuvListener',
           'interfaces/PlanDebugListener', 'apps/TestExec', 'apps/StandAloneSimulator',
           'interfaces/IpcUtils', 'universal-exec', 'third-party/ipc', 'third-party/ipc/src']

# harness name -> (harness sources, libs, extra ldflags)
sys.path.insert(0, VERIF + '/lib')
from harnesses import HARNESSES


def sources(lib):
    d, excl = LIBS[lib]
    out = []
    for ext in ('*.cc', '*.cpp', '*.c'):
        for f in sorted(glob.glob(f'{SRC}/{d}/{ext}')):
            b = os.path.basename(f)
            if b in excl or b == 'main.cc' or b.endswith('-main.cc'):
                continue
            out.append(f)
    return out


def gen(variant):
    bd = f'{BUILD}/{variant}'
    os.makedirs(bd, exist_ok=True)
    ccache = 'ccache ' if os.path.exists('/usr/bin/ccache') and os.environ.get('CCACHE_DIR') else ''
    incs = ' '.join(['-I' + VERIF + '/lib', '-I' + VERIF + '/harness', '-I' + bd] +
                    [f'-I{SRC}/{d}' for d in INCDIRS])
    fl = VARIANTS[variant]
    L = []
    L.append(f'cxxflags = {COMMON} {fl} {incs}')
    L.append(f'cflags = {CCOMMON} {fl} {incs}')
    L.append(f'rule cxx\n command = {ccache}{CXX} $cxxflags $xf -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc')
    L.append(f'rule cc\n command = {ccache}{CC} $cflags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc')
    L.append('rule gperf\n command = gperf -m 8 --output-file=$out $in')
    L.append(f'rule link\n command = {CXX} {fl} -rdynamic @$out.rsp -o $out -lpugixml -lpthread -lrt -ldl $lf\n rspfile = $out.rsp\n rspfile_content = $in')
    L.append(f'build {bd}/ExpressionMap.hh: gperf {SRC}/xml-parser/ExpressionMap.gperf')
    objs = {}
    for lib in LIBS:
        objs[lib] = []
        for s in sources(lib):
            o = f'{bd}/{lib}/{os.path.basename(s)}.o'
            rule = 'cc' if s.endswith('.c') else 'cxx'
            dep = f' || {bd}/ExpressionMap.hh' if lib == 'xml' else ''
            L.append(f'build {o}: {rule} {s}{dep}')
            objs[lib].append(o)
    seen = set()
    for h, (srcs, libs, lf) in HARNESSES.items():
        hos = []
        for s in srcs:
            p = f'{VERIF}/harness/{s}'
            if s.startswith('REPO/'):
                p = REPO + s[4:]
            o = f'{bd}/h/{os.path.basename(s)}.o'
            if o not in seen:
                seen.add(o)
                L.append(f'build {o}: cxx {p} || {bd}/ExpressionMap.hh')
            hos.append(o)
        for lib in libs:
            hos += objs[lib]
        L.append(f'build {bd}/{h}: link {" ".join(hos)}\n lf = {lf}')
    txt = '\n'.join(L) + '\n'
    f = f'{bd}/build.ninja'
    if not os.path.exists(f) or open(f).read() != txt:
        open(f, 'w').write(txt)
    return bd


def build(variant, targets, quiet=True):
    """Returns path dict; raises SystemExit(2) when the code does not build."""
    bd = gen(variant)
    t = [f'{bd}/{x}' for x in targets]
    p = subprocess.run(['ninja', '--quiet', '-C', bd, '-j', str(os.cpu_count() or 8)] + t,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        sys.stderr.write('\nBUILD FAILED\n')
        sys.exit(2)
    return {x: f'{bd}/{x}' for x in targets}


if __name__ == '__main__':
    import time
    t0 = time.time()
    print(build(sys.argv[1], sys.argv[2:]), time.time() - t0)

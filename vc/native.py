"""Native build of /repo's current sources (address + UB sanitizers) and of the harnesses in /verif/native."""
import glob, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import ir

SAN = ['-g1', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
       '-fno-sanitize=nonnull-attribute', '-w']
SKIP = ('varsh.cc',)
# harnesses that need the XML and YAML back ends
FULL = ('values',)
FULL_FLAGS = ['-DENABLE_XML', '-DENABLE_YAML', '-I/usr/include/libxml2']


def lib_sources(light=True):
    out = []
    for f in sorted(glob.glob(os.path.join(ir.REPO, 'src', '*.cc'))):
        b = os.path.basename(f)
        if b in SKIP or b.startswith('MsgPack'):
            continue
        if light and b.startswith(('XML', 'YAML')):
            continue
        out.append(f)
    out.append(os.path.join(ir.REPO, 'lib/json/JSON_parser.c'))
    return out


def cc(scratch, src, obj, extra=()):
    inc = ir.include_flags(scratch)
    if src.endswith('.c'):
        cmd = ['gcc'] + SAN + inc + list(extra) + ['-c', src, '-o', obj]
    else:
        cmd = ['g++', '-std=c++17'] + SAN + inc + list(extra) + ['-c', src, '-o', obj]
    ir.run(cmd)


def build_lib(scratch, full=False):
    """static library of the repository without the MessagePack back end, and, unless full, without XML and YAML"""
    lib = os.path.join(scratch, 'libvf.a' if full else 'libv.a')
    if os.path.exists(lib):
        return lib
    d = os.path.join(scratch, 'objf' if full else 'obj')
    os.makedirs(d, exist_ok=True)
    jobs = []
    for s in lib_sources(not full):
        jobs.append((s, os.path.join(d, os.path.basename(s) + '.o')))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: cc(scratch, j[0], j[1], FULL_FLAGS if full else ()), jobs))
    ir.run(['ar', 'rcs', lib + '.tmp'] + [o for _, o in jobs])
    os.rename(lib + '.tmp', lib)
    return lib


def build_harness(scratch, name, lib=True):
    """/verif/native/<name>.cc -> executable"""
    exe = os.path.join(scratch, name)
    if os.path.exists(exe):
        return exe
    src = os.path.join(ir.HERE, 'native', name + '.cc')
    o = exe + '.o'
    full = name in FULL
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(cc, scratch, src, o, ['-I' + os.path.join(ir.HERE, 'native')] + (FULL_FLAGS if full else []))
        f2 = ex.submit(build_lib, scratch, full) if lib else None
        f1.result()
        L = [f2.result()] if f2 else []
    ir.run(['g++'] + SAN + [o] + L + ['-o', exe, '-lpthread', '-ldl', '-lcurl'] + (['-lxml2', '-lyaml'] if full else []))
    return exe


def run(exe, args, timeout=120, inp=None):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    try:
        p = subprocess.run([exe] + list(args), input=inp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode('latin1')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('latin1')


def run_oracle(exe, args, seed, scratch, limit, pid):
    """run a bounded native stand-in; see native/h.h for the protocol"""
    import time
    t0 = time.time()
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:handle_abort=1:handle_sigfpe=1:exitcode=99'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:abort_on_error=1'
    d = os.path.join(scratch, 'cwd')
    os.makedirs(d, exist_ok=True)
    cmd = [exe, '--seed', str(seed)] + [str(a) for a in args]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, env=env, cwd=d)
        rc, out = p.returncode, p.stdout.decode('latin1')
    except subprocess.TimeoutExpired as e:
        rc, out = 'timeout', (e.stdout or b'').decode('latin1')
    fails, cases, done, other = [], 0, False, 0
    for l in out.splitlines():
        if l.startswith('FAIL '):
            who, _, what = l[5:].partition(' ')
            if who in ('*', pid):
                fails.append({'what': what, 'input': what})
            else:
                other += 1
        elif l.startswith('CASES '):
            cases = int(l.split()[1])
        elif l.startswith('DONE'):
            done = True
    err = None
    if not done and not fails and not other:
        err = None if rc == 'timeout' else 'native stand-in ended early (exit %s)' % rc
    return {'failures': fails, 'cases': cases, 'error': err, 'tail': out[-6000:] if (fails or err) else '', 'wall_s': round(time.time() - t0, 1),
            'replay': {'harness': 'native/%s.cc' % os.path.basename(exe), 'args': cmd[1:], 'output': out[-6000:]} if (fails or err) else None,
            'timeout': rc == 'timeout'}

#!/usr/bin/env python3
"""Run the check of one property: build the library from /repo's working tree,
link it with the explorer and the property's driver, explore, report.

usage: check.py ID [--thorough] [--jobs N] [--keep]
exit 0: held on everything explored; 1: violated (VIOLATION line); 2: error
"""
import concurrent.futures as cf
import glob, json, os, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'harness'))
from table import TABLE, ASSUMPTIONS_COMMON  # noqa

COMMON = ['-g', '-D_FILE_OFFSET_BITS=64', '-U_FORTIFY_SOURCE',
          '-D_FORTIFY_SOURCE=0', '-fno-common', '-w']
VARIANT = {
    'asan': ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer'],
    'plain': ['-O2', '-fno-omit-frame-pointer'],
    'sched': ['-O1', '-fsanitize=thread', '-fno-builtin', '-fno-pic',
              '-fno-data-sections', '-fno-omit-frame-pointer'],
}
LINK = {
    'asan': ['-fsanitize=address'],
    'plain': [],
    'sched': ['-no-pie'],
}
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:'
           'abort_on_error=0:allocator_may_return_null=1:'
           'detect_stack_use_after_return=0', TZ='UTC0', LC_ALL='C',
           PATH=os.environ.get('PATH', '/usr/bin:/bin'))


class Broken(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors='replace', **kw)


def build(pid, spec, bdir):
    variant = spec.get('variant', 'asan')
    os.makedirs(bdir)
    jobs = []
    inc = ['-I' + os.path.join(REPO, 'include'),
           '-I' + os.path.join(VERIF, 'mc', 'stubs')]
    srcs = sorted(glob.glob(os.path.join(REPO, 'src', '*.c')) +
                  glob.glob(os.path.join(REPO, 'src', '*.cpp')))
    libobjs = []
    redef = [os.path.join(VERIF, 'mc', 'redefine.txt')]
    if variant == 'sched':
        redef.append(os.path.join(VERIF, 'mc', 'redefine_mem.txt'))
    # objcopy wants each target once: rename X to vk_o_X, aliased at link
    redef = [l.split() for f in redef for l in open(f) if l.strip()]
    rfile = os.path.join(bdir, 'redefine.txt')
    with open(rfile, 'w') as f:
        for a, b in redef:
            f.write('%s vk_o_%s\n' % (a, a))
    alias = ['-Wl,--defsym=vk_o_%s=%s' % (a, b) for a, b in redef]

    def lib(src):
        obj = os.path.join(bdir, 'lib_' + os.path.basename(src) + '.o')
        cc = ['g++', '-std=c++11'] if src.endswith('.cpp') else \
            ['gcc', '-std=gnu11']
        # what is not initialized is garbage, the same in every run
        defs = ['-ftrivial-auto-var-init=pattern'] + spec.get('opt', [])
        r = run(cc + COMMON + VARIANT[variant] + defs + inc +
                ['-I' + os.path.join(REPO, 'src'), '-c', src, '-o', obj])
        if r.returncode:
            return src, None, r.stdout
        cmd = ['objcopy', '--redefine-syms=' + rfile]
        if variant == 'sched' or spec.get('libdata'):
            cmd += ['--set-section-flags', '.bss=alloc,load,contents,data',
                    '--rename-section', '.data=libdata',
                    '--rename-section', '.bss=libdata']
        r = run(cmd + [obj])
        if r.returncode:
            return src, None, r.stdout
        return src, obj, r.stdout

    def fw(src):
        obj = os.path.join(bdir, 'fw_' + os.path.basename(src) + '.o')
        cc = ['g++', '-std=c++11'] if src.endswith('.cpp') else \
            ['gcc', '-std=gnu11']
        extra = spec.get('cflags', []) if 'harness' in src else []
        r = run(cc + COMMON[:-1] + ['-O2', '-Wall', '-Wno-unused-function',
                '-I' + os.path.join(VERIF, 'mc'),
                '-I' + os.path.join(VERIF, 'harness'),
                '-DVARIANT_' + variant.upper()] + extra + inc +
                ['-c', src, '-o', obj])
        return src, obj if r.returncode == 0 else None, r.stdout

    fws = ['mc.c', 'vk.c', 'vfs.c', 'fibers.c',
           'tsanrt.c' if variant == 'sched' else 'tsan_none.c']
    fwsrc = [os.path.join(VERIF, 'mc', f) for f in fws] + \
        [os.path.join(VERIF, 'harness', f) for f in spec['src']]
    with cf.ThreadPoolExecutor(8) as ex:
        lr = list(ex.map(lib, srcs))
        fr = list(ex.map(fw, fwsrc))
    failed = []
    for src, obj, out in lr:
        if obj:
            libobjs.append(obj)
        else:
            failed.append(src + ':\n' + out)
    for src, obj, out in fr:
        if not obj:
            raise Broken('cannot compile %s:\n%s' % (src, out))
        if out.strip() and os.environ.get('VERIF_WARN'):
            print(out)
    exe = os.path.join(bdir, 'explore')
    arch = os.path.join(bdir, 'lib.a')
    run(['ar', 'rcs', arch] + libobjs)
    r = run(['g++'] + LINK[variant] + alias + [o for _, o, _ in fr] +
            ['-Wl,--start-group', arch, '-Wl,--end-group', '-lpthread', '-lm',
             '-o', exe])
    if r.returncode:
        raise Broken('cannot link:\n%s\n%s' % (r.stdout, '\n'.join(failed)))
    return exe


def shard(exe, bdir, i, n, thorough, timeout, only=None, tag='', stop=None):
    out = os.path.join(bdir, 'out%s.%d' % (tag, i))
    cur = os.path.join(bdir, 'cur%s.%d' % (tag, i))
    for f in (out, out + '.viol'):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [exe, '--shard', '%d/%d' % (i, n), '--out', out, '--cur', cur]
    if thorough:
        cmd.append('--thorough')
    if only is None:
        cmd += ['--claims', os.path.join(bdir, 'claims')]
    if only is not None:
        cmd += ['--only', only]
    log = os.path.join(bdir, 'log%s.%d' % (tag, i))
    scratch = os.path.join(bdir, 'scratch%s.%d' % (tag, i))
    os.makedirs(scratch, exist_ok=True)
    with open(log, 'wb') as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=lf, env=ENV, cwd=scratch,
                             stdin=subprocess.DEVNULL)
        t_end = time.time() + timeout
        rc = None
        while rc is None:
            try:
                rc = p.wait(0.2)
            except subprocess.TimeoutExpired:
                if stop is not None and stop.is_set():
                    rc = 'stopped'
                elif time.time() > t_end:
                    rc = 'timeout'
        if rc in ('stopped', 'timeout'):
            p.kill()
            p.wait()
        elif rc not in (0, 4) and stop is not None:
            stop.set()
    with open(log, 'rb') as lf:
        text = lf.read()[-20000:].decode('utf8', 'replace')
    scn = ''
    case = ''
    if os.path.exists(cur):
        b = open(cur, 'rb').read()
        scn = b[:500].split(b'\0')[0].decode('utf8', 'replace')
        case = [int.from_bytes(b[512 + 8 * k:520 + 8 * k], 'little')
                for k in range(5)]
    return dict(i=i, rc=rc, log=text, scn=scn, case=case, out=out)


def main():
    pid = sys.argv[1]
    thorough = '--thorough' in sys.argv or \
        os.environ.get('VERIF_TIER') == 'thorough'
    jobs = 8
    spec = TABLE[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    # deep recursions may use some stack for each level
    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    want = 128 << 20
    if soft != resource.RLIM_INFINITY and soft < want:
        if hard != resource.RLIM_INFINITY:
            want = min(want, hard)
        resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
    bdir = os.path.join(VERIF, '.build', pid)
    shutil.rmtree(bdir, ignore_errors=True)
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    for f in glob.glob(os.path.join(ev, pid + '*')):
        os.unlink(f)
    budget = spec.get('thorough_s', 3300) if thorough else 820
    try:
        exe = build(pid, spec, bdir)
        t_build = time.time() - t0
        n = spec.get('shards', jobs)
        with open(os.path.join(bdir, 'claims'), 'wb') as f:
            f.write(bytes(1 << 17))
        stop = threading.Event()    # one failure is enough
        with cf.ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(lambda i: shard(exe, bdir, i, n, thorough,
                                              budget - (time.time() - t0), stop=stop),
                              range(n)))
        bad = [r for r in res if r['rc'] not in (0, 'stopped')]
        real = [r for r in bad if r['rc'] not in (4, 'timeout')]
        for r in bad if not real else []:
            if r['rc'] == 4:
                raise Broken('explorer: ' + r['log'][-3000:])
            if r['rc'] == 'timeout':
                raise Broken('exploration did not end in time (scenario %s)'
                             % r['scn'])
        violation = None
        for r in real:
            # replay before report: the same scenario must fail again
            again = shard(exe, bdir, 0, 1, thorough, 600, only=r['scn'],
                          tag='again%d' % r['i'])
            if again['rc'] == 0:
                raise Broken('failure of scenario %s is not reproducible:\n%s'
                             % (r['scn'], r['log'][-3000:]))
            if again['rc'] == 4 or again['rc'] == 'timeout':
                raise Broken('replay: ' + again['log'][-3000:])
            violation = again
            break
        if violation:
            rp = os.path.join(ev, pid + '-replay.txt')
            with open(rp, 'w') as f:
                f.write('property %s\n' % pid)
                v = violation['out'] + '.viol'
                if os.path.exists(v):
                    f.write(open(v, errors='replace').read())
                else:
                    f.write('kind crash\nscenario %s\ncase %s\n' %
                            (violation['scn'], violation['case']))
                f.write('\nto replay: rebuild with check.py, then run '
                        '.build/%s/explore --only "%s"\nlog:\n' %
                        (pid, violation['scn']))
                f.write(violation['log'])
        else:
            rp = None
    except Broken as e:
        print('ERROR property=%s %s' % (pid, e))
        return 2
    tot = {}
    samples = []
    capped = []
    for r in res:
        if r['rc'] != 0 or not os.path.exists(r['out']):
            continue
        try:
            d = json.load(open(r['out']))
        except ValueError:
            print('ERROR property=%s bad statistics' % pid)
            return 2
        for k, v in d.items():
            if isinstance(v, int):
                if k in ('max_depth', 'total_scenarios'):
                    tot[k] = max(tot.get(k, 0), v)
                else:
                    tot[k] = tot.get(k, 0) + v
        samples += d['samples']
        if d['capped']:
            capped.append(d['capped'])
    cases = spec.get('cases_are_traces')
    cov = dict(
        states=tot.get('cases' if cases else 'states', 0),
        transitions=tot.get('transitions', 0),
        traces_validated_against_impl=tot.get('nontrivial', 0) if cases else
        tot.get('executions', 0) - tot.get('pruned', 0) +
        tot.get('validated', 0),
        samples=list(dict.fromkeys(samples))[:24] or ['none'],
        scenarios=tot.get('scenarios', 0),
        executions_of_the_real_code=tot.get('executions', 0),
        executions_cut_at_a_visited_state=tot.get('pruned', 0),
        enumerated_input_cases=tot.get('cases', 0),
        distinct_outcomes=tot.get('outcomes', 0),
        replays_compared_with_the_real_kernel=tot.get('validated', 0),
        longest_choice_sequence=tot.get('max_depth', 0),
        exhaustive=not capped and not violation,
        bounds=spec['bounds_thorough' if thorough and 'bounds_thorough' in
                    spec else 'bounds'],
        oracle=spec['oracle'],
        counting='states: enumerated input cases, distinct by construction; '
        'transitions: calls of the real code; traces: cases whose call was '
        'compared with a result the reference model accepts' if cases else
        'states: distinct states by history or content; transitions: choices '
        'taken (schedule steps, environment answers, operations); traces: '
        'complete executions of the real code compared with the model',
        build_s=round(t_build, 1))
    if capped:
        cov['capped'] = sorted(set(capped))
    doc = dict(property=pid, tier='thorough' if thorough else 'quick',
               seed=seed, level='model_checking', coverage=cov,
               assumptions=ASSUMPTIONS_COMMON + spec.get('assumptions', []),
               wall_s=round(time.time() - t0, 2),
               violations=1 if violation else 0)
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump(doc, f, indent=1)
    kf = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r'finding: property=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                print('KNOWN-FINDING: property=%s %s' % (pid, m.group(2)))
    if '--keep' not in sys.argv and not violation:
        shutil.rmtree(bdir, ignore_errors=True)
    if violation:
        m = re.findall(r'(?:FAIL|HANG|BROKEN|ERROR: AddressSanitizer).*',
                       violation['log'])
        print('%s: %s' % (pid, m[0] if m else 'crash, exit %s' %
                          violation['rc']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s: held; %d scenarios, %d executions, %d states, %d transitions, '
          '%d cases, %d outcomes, %.1fs%s' %
          (pid, tot.get('scenarios', 0), tot.get('executions', 0),
           tot.get('states', 0), tot.get('transitions', 0),
           tot.get('cases', 0), tot.get('outcomes', 0), time.time() - t0,
           ' capped' if capped else ''))
    if tot.get('scenarios', 0) != tot.get('total_scenarios', 0) or \
            not tot.get('executions'):
        print('ERROR property=%s only %d scenarios of %d explored' %
              (pid, tot.get('scenarios', 0), tot.get('total_scenarios', 0)))
        return 2
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception as e:  # never a verdict
        print('ERROR property=%s %r' % (sys.argv[1:2], e))
        sys.exit(2)

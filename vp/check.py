#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [-v]

Decides one property: extracts the units of the property from /repo's working
tree, enforces every contract with goto-instrument --dfcc + cbmc, and reports.
Exit 0: every obligation discharged (or bounded stand-in held); exit 1 with a
VIOLATION line: an obligation fails.
"""
import collections
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
import weave  # noqa: E402

BASEF = ['-std=gnu11', '-funsigned-char', '-fno-strict-aliasing', '-fwrapv',
         '-D_GNU_SOURCE', '-DHAS_LIBCOMMON_REPOSITORY=0',
         '-D__gcc_has_no_ifunc', '-I' + REPO, '-I' + REPO + '/src/compat',
         '-I/usr/include/libxml2', '-DHAVE_OPENSSL=1', '-DHAVE_ZLIB=1',
         '-Dindex(s,c)=index__(s,c)',
         '-D__assert_fail=lc_assert_fail', '-I' + HERE,
         '-I' + VERIF + '/units']
CHECKS = ['--no-standard-checks', '--bounds-check', '--pointer-check',
          '--div-by-zero-check', '--undefined-shift-check',
          '--no-malloc-may-fail']
# gcc defines these (-fwrapv): not obligations
IGNORED_DESC = [r'^shift operand is negative', r'^arithmetic overflow on signed']

HKEYS = {'prop', 'enforce', 'replace', 'loops', 'unwind', 'unwindset',
         'solver', 'timeout', 'tier', 'kind', 'bmc_unwind', 'extra', 'search',
         'checks', 'bmc_timeout', 'objbits', 'about', 'static', 'bound',
         'defs', 'rec', 'bmc'}


class Harness:
    def __init__(self, unit, name, kv):
        self.unit, self.name, self.kv = unit, name, kv

    def get(self, k, d=None):
        return self.kv.get(k, d)


class Unit:
    """A unit file with its annotations."""

    def __init__(self, path):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        self.harnesses = []
        self.loops = []
        self.blk = False
        self.flags = []
        self.link = []
        self.keep = set()
        self.gen = []
        self.trusted = []
        self.funcs = set()
        lines = open(path).read().split('\n')
        i = 0
        while i < len(lines):
            ln = lines[i].strip()
            if ln.startswith('//@harness '):
                txt = ln[len('//@harness '):]
                while txt.endswith('\\'):
                    i += 1
                    txt = txt[:-1] + ' ' + lines[i].strip().lstrip('/').strip()
                parts = re.findall(r'(\w+)=("[^"]*"|\S+)', txt)
                name = txt.split()[0]
                kv = {k: v.strip('"') for k, v in parts}
                bad = set(kv) - HKEYS
                if bad:
                    raise SystemExit('%s: unknown harness keys %s' % (path, bad))
                self.harnesses.append(Harness(self, name, kv))
            elif ln.startswith('//@loop '):
                m = re.match(r'//@loop\s+(\w+)\s+(\d+)(?:\s+/(.*)/)?\s*$', ln)
                cl = []
                i += 1
                while not lines[i].strip().startswith('//@end'):
                    cl.append(lines[i].strip().lstrip('/').strip())
                    i += 1
                self.loops.append((m.group(1), int(m.group(2)), m.group(3),
                                   '\n'.join(cl)))
            elif ln.startswith('//@blk'):
                self.blk = True
            elif ln.startswith('//@flags '):
                self.flags += ln.split()[1:]
            elif ln.startswith('//@link '):
                self.link += ln.split()[1:]
            elif ln.startswith('//@gen '):
                # a source the build generates: //@gen NAME CMD, cwd /repo
                self.gen.append(ln.split()[1:])
            elif ln.startswith('//@keep '):
                self.keep |= set(ln.split()[1:])
            elif ln.startswith('//@trusted '):
                self.trusted.append(ln[len('//@trusted '):])
            i += 1


def run(cmd, timeout=None, cwd=None, mem_gb=None):
    """Run a command, kill its group on timeout. -> (rc, out, err, secs)"""
    t0 = time.time()

    def pre():
        os.setsid()
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS,
                               (mem_gb << 30, mem_gb << 30))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.DEVNULL, cwd=cwd, preexec_fn=pre)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = -999
    return rc, out.decode('utf8', 'replace'), err.decode('utf8', 'replace'), \
        time.time() - t0


class BuildError(Exception):
    pass


class Builder:
    """Builds a unit in the three modes, lazily, in a scratch directory."""

    def __init__(self, work):
        self.work = work
        self.info = {}
        self.locks = collections.defaultdict(threading.Lock)

    def goto(self, unit, mode, with_loops=True, defs=()):
        tag = unit.name + '.' + mode + ('' if with_loops else '.noloops') + \
            ''.join('.' + re.sub(r'\W', '_', d) for d in defs)
        gb = os.path.join(self.work, tag + '.gb')
        with self.locks[tag]:
            return self._goto1(unit, mode, with_loops, tag, gb, defs)

    def _goto1(self, unit, mode, with_loops, tag, gb, defs):
        if tag in self.info:
            r = self.info[tag]
            if isinstance(r, BuildError):
                raise r
            return r
        try:
            r = self._goto(unit, mode, with_loops, tag, gb, defs)
        except BuildError as e:
            self.info[tag] = e
            raise
        self.info[tag] = r
        return r

    def generate(self, unit):
        d = os.path.join(self.work, 'gen.' + unit.name)
        with self.locks['gen.' + unit.name]:
            if not os.path.isdir(d):
                os.mkdir(d)
                for g in unit.gen:
                    out = os.path.join(d, g[0])
                    cmd = [x.replace('{out}', out) for x in g[1:]]
                    rc, o, e, _ = run(cmd, timeout=120, cwd=REPO)
                    if rc:
                        raise BuildError('generating %s: %s'
                                         % (g[0], (o + e)[-1500:]))
        return ['-I' + d] if unit.gen else []

    def _goto(self, unit, mode, with_loops, tag, gb, defs):
        cpp = ['gcc', '-E', '-xc'] + BASEF + unit.flags + \
            self.generate(unit) + \
            ['-D' + d for d in defs] + ['-DVP_' + mode]
        if unit.blk:
            cpp += ['-D__BLOCKS__', '-include', HERE + '/blkshim.h']
        # the loop contracts are preprocessed with the unit: they may use its
        # macros
        want = unit.loops if (mode == 'PROOF' and with_loops) else []
        src = os.path.join(self.work, tag + '.in.c')
        with open(src, 'w') as f:
            f.write('#include "%s"\n' % unit.path)
            for n, lp in enumerate(want):
                f.write('__VP_LOOP_BEGIN %d\n%s\n__VP_LOOP_END\n' % (n, lp[3]))
        rc, out, err, _ = run(cpp + [src], timeout=120)
        if rc:
            raise BuildError('preprocessing %s: %s' % (unit.name, err[-1500:]))
        specs = []
        for m in re.finditer(r'__VP_LOOP_BEGIN (\d+)(.*?)__VP_LOOP_END', out,
                             re.S):
            lp = want[int(m.group(1))]
            cl = re.sub(r'^#.*$', '', m.group(2), flags=re.M)
            specs.append((lp[0], lp[1], lp[2], cl))
        out = re.sub(r'__VP_LOOP_BEGIN \d+.*?__VP_LOOP_END', '', out,
                     flags=re.S)
        # cbmc cannot use an enum as a condition; enum sign is an int
        out = re.sub(r'\(\s*enum sign\s*\)', '(int)', out)
        try:
            out, _ = weave.pun_fix(out)
        except weave.WeaveError as e:
            raise BuildError(str(e))

        def compile_(sp, suffix=''):
            txt, dropped, funcs = weave.weave(out, sp, keep=unit.keep)
            if unit.blk:
                txt = re.sub(r'\(\s*\^', '(*', txt)
            if mode == 'BMC':
                # no constructors (modules, thread hooks): what they call
                # is not in the unit
                txt = re.sub(r'__attribute__\(\(\s*constructor\s*\)\)', '',
                             txt)
            ipath = os.path.join(self.work, tag + suffix + '.i')
            with open(ipath, 'w') as f:
                f.write(txt)
            rc, o, e, _ = run(['goto-cc', '-std=gnu11', '-funsigned-char',
                               '-fno-strict-aliasing', '-fwrapv', ipath, '-c',
                               '-o', gb], timeout=300)
            if rc:
                raise BuildError('goto-cc %s: %s' % (unit.name,
                                                     (o + e)[-2500:]))
            return dropped, funcs
        try:
            dropped, funcs = compile_(specs)
        except (BuildError, weave.WeaveError) as e:
            # a loop contract that no longer fits its function is left out:
            # the harnesses that need it are then undecided, not the others
            good, bad = [], []
            for sp in specs:
                try:
                    compile_([sp], '.1')
                    good.append(sp)
                except (BuildError, weave.WeaveError) as e1:
                    bad.append('%s loop %d: %s' % (sp[0], sp[1],
                                                   str(e1)[-200:]))
            if not specs or not good and len(specs) > 1:
                raise BuildError(str(e))
            try:
                dropped, funcs = compile_(good)
            except (BuildError, weave.WeaveError) as e:
                raise BuildError(str(e))
            dropped = list(dropped) + ['loop contract left out: ' + x
                                       for x in bad]
        return gb, dropped, funcs

    def native(self, unit):
        tag = unit.name + '.native'
        with self.locks[tag]:
            return self._native(unit, tag)

    def _native(self, unit, tag):
        if tag in self.info:
            if isinstance(self.info[tag], BuildError):
                raise self.info[tag]
            return self.info[tag]
        exe = os.path.join(self.work, tag)
        try:
            cc = ['clang', '-fblocks']
            san = ['-fsanitize=address', '-fno-omit-frame-pointer',
                   '-fsanitize=shift-exponent,integer-divide-by-zero',
                   '-fno-sanitize-recover=shift-exponent,'
                   'integer-divide-by-zero']
            cfl = cc + BASEF + unit.flags + self.generate(unit) + \
                ['-O1', '-g1', '-w', '-march=x86-64-v2', '-DVP_NATIVE',
                 '-ffunction-sections', '-fdata-sections']
            objs = []
            srcs = [unit.path] + [x if x.startswith('/') else
                                  os.path.join(REPO, x) for x in unit.link]
            for n, s in enumerate(srcs):
                rc, out, err, _ = run(cfl + ['-E', '-xc', s], timeout=120)
                if rc:
                    raise BuildError('native cpp %s: %s' % (s, err[-1500:]))
                txt, _, _ = weave_native(out)
                i = os.path.join(self.work, tag + '.%d.i' % n)
                open(i, 'w').write(txt)
                o = os.path.join(self.work, tag + '.%d.o' % n)
                rc, out, err, _ = run(cfl + san + ['-x', 'cpp-output', '-c',
                                                   i, '-o', o], timeout=300)
                if rc:
                    raise BuildError('native cc %s: %s' % (s, err[-2500:]))
                objs.append(o)
            rc, out, err, _ = run(
                cc + san + ['-O1', '-g1', '-w', '-Wl,--gc-sections', '-no-pie',
                            '-Wl,--unresolved-symbols=ignore-all',
                            HERE + '/native.c'] + objs +
                ['-lm', '-lpthread', '-lz', '-lcrypto', '-lcrypt', '-o', exe],
                timeout=300)
            if os.environ.get('VP_UNRES'):
                rc2, o2, e2, _ = run(
                    cc + san + ['-Wl,--gc-sections', '-no-pie',
                                '-Wl,--warn-unresolved-symbols',
                                HERE + '/native.c'] + objs +
                    ['-lm', '-lpthread', '-lz', '-lcrypto', '-lcrypt', '-o',
                     exe + '.unres'], timeout=300)
                print(sorted(set(re.findall(
                    r"undefined reference to `(\w+)'", e2))))
            if rc:
                raise BuildError('native ld %s: %s' % (unit.name, err[-2500:]))
        except BuildError as e:
            self.info[tag] = e
            raise
        self.info[tag] = exe
        return exe


def weave_native(text):
    """Only the in-source test groups are dropped natively."""
    funcs = weave.functions(text)
    edits = []
    for f in funcs:
        if f.name.startswith('z_') and (
                'z_export' in text[f.start:f.end]
                or '_z_group_done' in text[f.body:f.end]):
            edits.append((f.body, f.end))
    for a, b in sorted(edits, reverse=True):
        text = text[:a] + ';' + '\n' * text[a:b].count('\n') + text[b:]
    # modules are not registered: their modules are not linked
    text = re.sub(r'__attribute__\(\(\s*constructor\s*\)\)'
                  r'((?:\s|static)*void\s+__\w+_module_register\b)', r'\1', text)
    return text, None, None


def parse_cbmc(out):
    """-> (list of (name, description, status, location), status string)"""
    try:
        data = json.loads(out)
    except ValueError:
        # truncated output
        return None, None
    res, status = None, None
    for e in data:
        if 'result' in e:
            res = e['result']
        if 'cProverStatus' in e:
            status = e['cProverStatus']
    return res, status


def cbmc_cmd(h, gb, bmc=False, trace=False):
    cmd = ['cbmc', gb, '--json-ui']
    ck = h.get('checks', 'std')
    if ck == 'std':
        cmd += CHECKS
    elif ck == 'noshift':
        cmd += [c for c in CHECKS if 'shift' not in c]
    else:
        cmd += ['--no-standard-checks', '--no-malloc-may-fail']
    cmd += ['--object-bits', h.get('objbits', '10')]
    cmd += ['--slice-formula']
    solver = h.get('solver', 'sat')
    if solver in ('cvc5', 'z3', 'smt2'):
        cmd += ['--' + solver]
    elif solver == 'cadical':
        cmd += ['--sat-solver', 'cadical']
    if bmc:
        cmd += ['--unwind', h.get('bmc_unwind', h.get('unwind', '12')),
                '--unwindset', 'vp_buf.0:520' + (
                    ',' + h.get('unwindset') if h.get('unwindset') else ''),
                '--no-unwinding-assertions']
    else:
        if h.get('unwind'):
            cmd += ['--unwind', h.get('unwind')]
        if h.get('unwindset'):
            cmd += ['--unwindset', h.get('unwindset')]
        cmd += ['--unwinding-assertions']
    if trace:
        cmd += ['--trace', '--stop-on-fail']
    if h.get('extra') and not bmc:
        cmd += h.get('extra').split(',')
    return cmd


class Result:
    def __init__(self, h):
        self.h = h
        self.status = None     # proved, failed, error, timeout, bounded
        self.total = 0
        self.ok = 0
        self.failed = []
        self.reach = None
        self.secs = 0.0
        self.msg = ''
        self.dropped = []
        self.cmd = ''
        self.raw = ''


def prove(b, h, timeout, verbose=False):
    r = Result(h)
    u = h.unit
    t0 = time.time()
    defs = tuple(x for x in h.get('defs', '').split(',') if x)
    try:
        gb, dropped, funcs = b.goto(u, 'PROOF', h.get('loops') == 'yes',
                                    defs)
    except BuildError as e:
        r.status, r.msg = 'error', str(e)
        return r
    r.dropped = dropped
    out1 = os.path.join(b.work, '%s.%s.p.gb' % (u.name, h.name))
    cmd = ['goto-instrument', '--dfcc', h.name]
    if h.get('enforce'):
        cmd += ['--enforce-contract' + ('-rec' if h.get('rec') else ''),
                h.get('enforce')]
    for f in [x for x in h.get('replace', '').split(',') if x]:
        cmd += ['--replace-call-with-contract', f]
    if h.get('loops') == 'yes':
        cmd += ['--apply-loop-contracts']
    base = os.path.join(b.work, '%s.%s.b.gb' % (u.name, h.name))
    rc, out, err, _ = run(['goto-cc', '--function', h.name, gb, '-o', base],
                          timeout=120)
    if rc:
        r.status, r.msg = 'error', 'link: ' + (out + err)[-1500:]
        return r
    rc, out, err, _ = run(cmd + [base, out1], timeout=timeout)
    if rc:
        r.status = 'timeout' if rc == -999 else 'error'
        r.msg = 'goto-instrument: ' + (out + err)[-1500:]
        return r
    cc = cbmc_cmd(h, out1)
    r.cmd = ' '.join(cmd) + ' ; ' + ' '.join(cc)
    rc, out, err, secs = run(cc, timeout=timeout, mem_gb=14)
    r.secs = time.time() - t0
    if rc == -999:
        r.status, r.msg = 'timeout', 'cbmc exceeded %ds' % timeout
        return r
    res, status = parse_cbmc(out)
    if res is None:
        r.status = 'error'
        m = re.search(r'invariant violation report.*?(?=Backtrace|$)',
                      out + err, re.S)
        r.msg = 'cbmc: ' + (m.group(0)[-800:] if m else
                            out[-1000:] + err[-500:])
        return r
    for p in res:
        desc, st = p.get('description', ''), p.get('status')
        if desc == 'vp_reach':
            if st == 'FAILURE':
                r.reach = True
            elif r.reach is None:
                r.reach = False
            continue
        if any(re.search(x, desc) for x in IGNORED_DESC):
            continue
        r.total += 1
        if st == 'SUCCESS':
            r.ok += 1
        else:
            loc = p.get('sourceLocation', {})
            r.failed.append((p.get('property'), desc, st,
                             '%s:%s' % (loc.get('file', '?'),
                                        loc.get('line', '?'))))
    r.failed.sort(key=lambda f: f[2] != 'FAILURE')
    if r.reach is False and not r.failed:
        r.failed.append(('vacuity', 'end of harness %s unreachable' % h.name,
                         'FAILURE', u.path))
    if r.reach is None and not r.failed:
        r.failed.append(('vacuity', 'no reachability probe in %s' % h.name,
                         'FAILURE', u.path))
    r.status = 'failed' if r.failed else 'proved'
    if r.total == 0:
        r.status, r.msg = 'error', 'no obligation generated'
    und = [f for f in r.failed if 'undefined function should be' in f[1]]
    if und:
        r.status = 'undecided'
        r.msg = 'call to a function outside the unit: %s' % (und[0],)
    # an unwinding assertion that fails is an undecided proof, not a violation
    if r.failed and all('unwinding assertion' in f[1] or
                        'recursion unwinding' in f[1] or f[2] != 'FAILURE'
                        for f in r.failed):
        r.status = 'undecided'
        r.msg = 'unwinding bound no longer covers the code: %s' % (
            r.failed[0],)
    return r


def bmc(b, h, timeout):
    """Bounded search with logged inputs. -> (status, inputs|None, info)"""
    try:
        defs = tuple(x for x in h.get('defs', '').split(',') if x)
        gb, _, _ = b.goto(h.unit, 'BMC', False, defs)
    except BuildError as e:
        return 'error', None, str(e)
    base = os.path.join(b.work, '%s.%s.m.gb' % (h.unit.name, h.name))
    rc, out, err, _ = run(['goto-cc', '--function', h.name, gb, '-o', base],
                          timeout=120)
    if rc:
        return 'error', None, (out + err)[-800:]
    rc, out, err, secs = run(cbmc_cmd(h, base, bmc=True, trace=True),
                             timeout=timeout, mem_gb=14)
    if rc == -999:
        return 'timeout', None, 'bounded search exceeded %ds' % timeout
    try:
        data = json.loads(out)
    except ValueError:
        return 'error', None, (out[-800:] + err[-300:])
    status = None
    tr = None
    failed = None
    for e in data:
        if 'cProverStatus' in e:
            status = e['cProverStatus']
        if 'result' in e:
            for p in e['result']:
                if p.get('status') == 'FAILURE' and 'trace' in p:
                    tr = p['trace']
                    failed = (p.get('property'), p.get('description'))
        if 'trace' in e and tr is None:
            tr = e['trace']
    if status == 'success':
        return 'held', None, 'bounded search: no violation (%.1fs)' % secs
    if tr is None:
        return 'error', None, 'no trace (status %s)' % status
    log = {}
    for s in tr:
        if s.get('stepType') != 'assignment':
            if s.get('stepType') == 'failure':
                failed = (s.get('property'), s.get('reason'))
            continue
        m = re.match(r'vp_log\[(\d+)[a-z]*\]$', s.get('lhs', ''))
        if m:
            v = s.get('value', {})
            d = v.get('binary')
            if d is not None:
                log[int(m.group(1))] = int(d, 2)
            elif v.get('data') is not None:
                log[int(m.group(1))] = int(re.sub(r'[a-zA-Z]+$', '',
                                                  v['data'])) & (2**64 - 1)
    n = max(log) + 1 if log else 0
    return 'cex', [log.get(i, 0) for i in range(n)], failed


ASAN = 'detect_leaks=0:abort_on_error=0:exitcode=9:allocator_may_return_null=1:' \
       'detect_stack_use_after_return=0:quarantine_size_mb=16:max_allocation_size_mb=4096'


PC0 = '(pc 0x000000000000 '


def native_env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = ASAN
    e['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=9:print_stacktrace=1'
    return e


def native_replay(b, h, path):
    """-> True if the recorded inputs violate the contract natively"""
    exe = b.native(h.unit)
    p = subprocess.run([exe, h.name, 'replay', path], env=native_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=120)
    out = p.stdout.decode('utf8', 'replace')
    if PC0 in out:
        # a function that the unit does not link: not an outcome
        return False, 'call to an unlinked function\n' + out[-1500:], 5
    return p.returncode not in (0, 3, 4), out[-4000:], p.returncode


def native_search(b, h, secs, seed, path):
    exe = b.native(h.unit)
    try:
        p = subprocess.run([exe, h.name, 'search', str(secs), str(seed), path],
                           env=native_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=secs + 90)
    except subprocess.TimeoutExpired:
        return False, 'native search timed out'
    out = p.stdout.decode('utf8', 'replace')
    return 'VP-FOUND' in out, out[-4000:]


def reproduced(b, h, secs, seed, path, out):
    """Whether what a search found fails again: on its own or, when it takes
    the state that the draws before it left, as the same history of draws."""
    bad, rout, rc = native_replay(b, h, path)
    if bad or rc == 5:
        return bad, rout
    m = re.search(r'VP-FOUND.*', out)
    for _ in range(2):
        ok, o2 = native_search(b, h, secs, seed, path + '.h')
        if not ok or not m or m.group(0) not in o2:
            return False, rout
    return True, ('fails after the draws that precede it only: run\n'
                  '  %s search %s %s FILE\nof the compiled unit\n%s'
                  % (h.name, secs, seed, out))


def confirm(b, h, r, seed, budget, tag):
    """Look for an input on which the real code breaks the contract.
    -> (path or None, text)"""
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, '%s.%s.%s.inputs' % (tag, h.unit.name, h.name))
    info = []
    try:
        b.native(h.unit)
    except BuildError as e:
        return None, 'native build of the unit failed: %s' % e
    with cf.ThreadPoolExecutor(2) as ex:
        fb = None
        if h.get('bmc', 'yes') != 'no':
            fb = ex.submit(bmc, b, h, int(h.get('bmc_timeout', budget)))
        # native search, bounded in time
        ok, out = native_search(b, h, float(h.get('search', 20)), seed,
                                path + '.s')
        if ok:
            bad, rout = reproduced(b, h, float(h.get('search', 20)), seed,
                                   path + '.s', out)
            if bad:
                os.replace(path + '.s', path)
                if fb:
                    fb.cancel()
                    kill_children(b.work, h)
                return path, ('source: inputs drawn against the compiled '
                              'contract\n' + out + '\n--- replay ---\n' + rout)
            info.append('drawn input did not reproduce: ' + out[-300:])
        else:
            info.append(out.strip()[-300:])
        if fb:
            st, inp, inf = fb.result()
            info.append('cbmc bounded search: %s %s' % (st, inf))
            if st == 'cex':
                with open(path, 'w') as f:
                    f.write('\n'.join(str(x) for x in inp) + '\n')
                bad, rout, rc = native_replay(b, h, path)
                if bad:
                    return path, ('source: cbmc counterexample for %s\n'
                                  '--- replay ---\n%s' % (inf, rout))
                info.append('cbmc counterexample did not reproduce natively '
                            '(rc=%s): %s' % (rc, rout[-600:]))
    return None, '\n'.join(info)


def kill_children(work, h):
    """Stop the bounded search of harness h (identified by its file name)."""
    pat = '%s/%s.%s.m.gb' % (work, h.unit.name, h.name)
    subprocess.run(['pkill', '-9', '-f', pat], check=False)


def load_units():
    us = []
    for p in sorted(glob.glob(os.path.join(VERIF, 'units', '*.c'))):
        us.append(Unit(p))
    return us


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = '-v' in args
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    if '--only' in args:
        only = args[args.index('--only') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    hs = []
    for u in load_units():
        for h in u.harnesses:
            if prop not in h.get('prop', '').split(','):
                continue
            if only and h.name != only:
                continue
            if h.get('tier') == 'thorough' and tier != 'thorough':
                continue
            hs.append(h)
    if not hs:
        print('no harness for', prop)
        return 2
    for v in glob.glob(os.path.join(VERIF, 'replays', prop + '.*')):
        os.unlink(v)
    work = tempfile.mkdtemp(prefix='vp.%s.' % prop, dir=os.environ.get(
        'VP_TMP', '/tmp'))
    b = Builder(work)
    try:
        return decide(prop, tier, seed, hs, b, t0, verbose, only)
    finally:
        if not os.environ.get('VP_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('work:', work)


def decide(prop, tier, seed, hs, b, t0, verbose, only):
    proofs = [h for h in hs if h.get('kind', 'proof') == 'proof']
    bounded = [h for h in hs if h.get('kind', 'proof') == 'bounded']
    # build units first (sequential per unit, parallel across units)
    units = {h.unit.name: h.unit for h in hs}
    scale = 3 if tier == 'thorough' else 1
    jobs = int(os.environ.get('VP_JOBS', '8'))
    with cf.ThreadPoolExecutor(jobs) as ex:
        def build(h):
            try:
                defs = tuple(x for x in h.get('defs', '').split(',') if x)
                if h in proofs:
                    b.goto(h.unit, 'PROOF', h.get('loops') == 'yes', defs)
                else:
                    b.goto(h.unit, 'BMC', False, defs)
            except BuildError:
                pass
        seen = {}
        for h in hs:
            k = (h.unit.name, h.get('kind', 'proof'), h.get('loops') == 'yes',
                 h.get('defs', ''))
            seen.setdefault(k, h)
        list(ex.map(build, seen.values()))
        futs = {h.name: ex.submit(prove, b, h,
                                  int(h.get('timeout', 240)) * scale)
                for h in sorted(proofs,
                                key=lambda h: -int(h.get('timeout', 240)))}
        bres = {}
        bf = {h.name: ex.submit(bounded_run, b, h, seed, tier, prop)
              for h in bounded}
        results = [futs[h.name].result() for h in proofs]
        bres = {h.name: bf[h.name].result() for h in bounded}

    violations = []      # (harness, obligation, replay path, found?)
    degraded = []
    for r in results:
        if verbose or r.status != 'proved':
            print('[%s] %s/%s: %s %d/%d %.1fs %s' % (
                prop, r.h.unit.name, r.h.name, r.status, r.ok, r.total,
                r.secs, r.msg.replace('\n', ' | ')[:1500]))
            for f in r.failed[:12]:
                print('     ', f)
    failed = [r for r in results if r.status == 'failed']
    undecided = [r for r in results if r.status in ('error', 'timeout',
                                                    'undecided')]
    found_any = False
    budget = 150 if tier == 'quick' else 600
    # harnesses whose obligation fails: find the input; those that could not be
    # decided: bounded stand-in on the same contract
    todo = failed + undecided
    if os.environ.get('VP_NOCONFIRM'):
        return 3 if todo else 0
    deadline = t0 + (600 if tier == 'quick' else 3400)
    stop = []

    def conf(r):
        left = deadline - time.time()
        if left < 30 or (stop and time.time() - t0 > 250):
            # out of time, or one replayed violation is enough to report
            return None, 'not searched'
        path, text = confirm(b, r.h, r, seed, int(min(budget, left)), prop)
        if path:
            stop.append(path)
        return path, text
    with cf.ThreadPoolExecutor(4) as ex:
        confs = list(ex.map(conf, todo))
    for r, (path, text) in zip(todo, confs):
        h = r.h
        obl = r.failed[0][0] if r.failed else 'undecided'
        desc = r.failed[0][1] if r.failed else r.msg[:200]
        if path:
            found_any = True
            violations.append((h, obl, write_replay(prop, h, r, path, text),
                               True))
        elif r.status == 'failed' and found_any and text == 'not searched':
            continue
        elif r.status == 'failed':
            violations.append((h, obl, write_replay(prop, h, r, None, text),
                               False))
        else:
            degraded.append({'harness': h.name, 'unit': h.unit.name,
                             'why': r.msg[:400], 'stand_in': text[-600:]})
    for h in bounded:
        st, path, text = bres[h.name]
        if verbose or st != 'held':
            print('[%s] %s/%s: bounded %s %s' % (prop, h.unit.name, h.name,
                                                 st, text[-600:]))
        if st == 'cex':
            found_any = True
            r = Result(h)
            r.failed = [(h.name, 'bounded check', 'FAILURE', '')]
            violations.append((h, h.name, write_replay(prop, h, r, path,
                                                       text), True))
        elif st != 'held':
            degraded.append({'harness': h.name, 'unit': h.unit.name,
                             'why': text[:400], 'stand_in': ''})
    rc = report(prop, tier, seed, results, bounded, bres, violations,
                degraded, t0, b, only)
    return rc


def bounded_run(b, h, seed, tier, prop):
    """A labelled bounded stand-in: cbmc up to the stated bound and the
    compiled contract on drawn inputs."""
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, '%s.%s.%s.inputs' % (prop, h.unit.name, h.name))
    text = ''
    st = 'held'
    try:
        if h.get('bmc', 'yes') != 'no':
            s, inp, inf = bmc(b, h, int(h.get('timeout', 240)) *
                              (3 if tier == 'thorough' else 1))
            text += 'cbmc: %s %s; ' % (s, inf)
            if s == 'cex':
                with open(path, 'w') as f:
                    f.write('\n'.join(str(x) for x in inp) + '\n')
                bad, rout, rc = native_replay(b, h, path)
                if bad:
                    return 'cex', path, 'cbmc counterexample %s\n%s' % (inf,
                                                                      rout)
                text += 'not reproduced: ' + rout[-400:]
                st = 'unconfirmed'
            elif s != 'held':
                st = s
        secs = float(h.get('search', 5)) * (4 if tier == 'thorough' else 1)
        if secs > 0:
            ok, out = native_search(b, h, secs, seed, path)
            if ok:
                bad, rout = reproduced(b, h, secs, seed, path, out)
                if bad:
                    return 'cex', path, out + '\n--- replay ---\n' + rout
                text += 'drawn input did not reproduce; '
                st = 'unconfirmed'
            elif 'VP-NONE' not in out:
                st = 'error'
            text += out.strip()[-200:]
    except BuildError as e:
        return 'error', None, str(e)[:1500]
    return st, None, text


def write_replay(prop, h, r, inputs, text):
    rdir = os.path.join(VERIF, 'replays')
    p = os.path.join(rdir, '%s.%s.%s.txt' % (prop, h.unit.name, h.name))
    with open(p, 'w') as f:
        f.write('property: %s\nunit: %s\nharness: %s\n' % (
            prop, h.unit.path, h.name))
        f.write('contract of: %s\n' % h.get('enforce', '(lemma harness)'))
        f.write('failed obligations:\n')
        for x in r.failed:
            f.write('  %s\n' % (x,))
        f.write('verifier: %s\n' % r.cmd)
        if inputs:
            f.write('failing inputs: %s\nreplay with: python3 %s/replay.py %s '
                    '%s %s\n' % (inputs, HERE, h.unit.name, h.name, inputs))
        else:
            f.write('no failing input found\n')
        f.write('---\n' + text + '\n')
    return p


def report(prop, tier, seed, results, bounded, bres, violations, degraded,
           t0, b, only):
    kf = [k for k in known_findings() if k['property'] == prop]
    total = sum(r.total for r in results)
    ok = sum(r.ok for r in results)
    proved = [r for r in results if r.status == 'proved']
    trusted = []
    for r in results:
        for t in r.h.unit.trusted:
            if t not in trusted:
                trusted.append(t)
    for h in bounded:
        for t in h.unit.trusted:
            if t not in trusted:
                trusted.append(t)
    dropped = {}
    for r in results:
        if r.dropped:
            dropped[r.h.unit.name] = sorted(set(r.dropped))
    out = []
    reported = 0
    for h, obl, path, found in violations:
        k = next((k for k in kf if k['harness'] == h.name and
                  re.search(k['obligation'], obl)), None)
        if k:
            out.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            continue
        reported += 1
        out.append((found, 'VIOLATION property=%s replay=%s%s' % (
            prop, path, '' if found else ' no-failing-input-found')))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': total, 'discharged': ok,
            'checker_cmd': 'gcc -E; weave; goto-cc; goto-instrument --dfcc '
                           '--enforce-contract/--replace-call-with-contract/'
                           '--apply-loop-contracts; cbmc 6.11 (%s)' %
                           ', '.join(sorted({r.h.get('solver', 'sat')
                                             for r in results} or {'sat'})),
            'trusted_base': trusted,
            'functions_under_contract': sorted(
                {f for r in proved for f in
                 (r.h.get('enforce') or r.h.get('about') or
                  r.h.name).split(',')}),
            'harnesses': [
                {'unit': r.h.unit.name, 'harness': r.h.name,
                 'enforces': r.h.get('enforce'),
                 'replaces': r.h.get('replace'),
                 'loop_contracts': r.h.get('loops') == 'yes',
                 'complete_unwind': r.h.get('unwind'),
                 'status': r.status, 'obligations': r.total,
                 'discharged': r.ok, 'reachable': r.reach,
                 'back_end': r.h.get('solver', 'sat'),
                 'solver_s': round(r.secs, 2)} for r in results],
            'bounded_stand_ins': [
                {'unit': h.unit.name, 'harness': h.name,
                 'bound': h.get('bound', ''), 'status': bres[h.name][0],
                 'detail': bres[h.name][2][-300:]} for h in bounded],
            'degraded': degraded,
            'extraction_drops': dropped,
        },
        'assumptions': trusted + [
            'machine: x86-64 LP64 little-endian, gcc semantics with -fwrapv '
            '-fno-strict-aliasing; signed wrap-around and shifts of negative '
            'values are defined',
            'termination is proved only where a loop contract has a decreases '
            'clause or the loop is completely unwound'],
        'wall_s': round(time.time() - t0, 1),
        'violations': reported,
    }
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for o in [x for x in out if isinstance(x, str)]:
        print(o)
    viol = [x for x in out if not isinstance(x, str)]
    if viol:
        # lead with the violations that come with a failing input
        anyfound = any(f for f, _ in viol)
        for f, line in sorted(viol, key=lambda x: not x[0]):
            if anyfound and not f:
                print('also undischarged: ' + line.split('replay=')[1])
                continue
            print(line)
        return 1
    print('%s: %d/%d obligations discharged in %d harnesses, %d bounded '
          'stand-ins%s, %.1fs' % (prop, ok, total, len(results), len(bounded),
                                  (', %d degraded' % len(degraded))
                                  if degraded else '', time.time() - t0))
    if not proved and not any(v[0] == 'held' for v in bres.values()) \
            and not any('VP-NONE' in str(d) for d in degraded):
        print('%s: nothing could be decided' % prop)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""Decides one property: builds the harness against /repo's working tree, runs
its generators and sweeps, minimises what fails.

    check.py C01 [quick|thorough]
    check.py --replay FILE
    check.py --build            builds every flavor that quick checks use
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
HARNESS = os.path.join(HERE, 'harness')
WORK = os.path.join(HERE, '.work')
EVID = os.path.join(HERE, 'evidence')
TRIPLE = 'x86_64-unknown-linux-gnu'
T0 = time.time()
CPUS = 8

sys.path.insert(0, HERE)
from plans import PLANS, RULES, ASSUME  # noqa: E402

FLAVORS = {
    # name: (cargo arguments, environment, directory of the binary)
    'rel': (['build', '--release'], {}, 'release'),
    'cov': (['build', '--profile', 'chk'],
            {'RUSTC_WRAPPER': HARNESS + '/cov-wrap.sh', 'VP_SANCOV': 'guided'}, 'chk'),
    # unoptimised, as in a debug build
    'dbg': (['build', '--profile', 'dbg'], {}, 'dbg'),
    'edges': (['build', '--release', '--features', 'steps'],
              {'RUSTC_WRAPPER': HARNESS + '/cov-wrap.sh', 'VP_SANCOV': 'edges'}, 'release'),
    'asan': (['+nightly', 'build', '--release', '--features', 'asan', '--target', TRIPLE],
             {'RUSTFLAGS': '-Zsanitizer=address'}, TRIPLE + '/release'),
    'tsan': (['+nightly', 'build', '--release', '--features', 'tsan', '-Zbuild-std', '--target', TRIPLE],
             {'RUSTFLAGS': '-Zsanitizer=thread'}, TRIPLE + '/release'),
    'miri': (['+nightly', 'miri', 'run'],
             {'RUSTFLAGS': '-Awarnings', 'MIRIFLAGS': '-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation'}, None),
    # the other word size, and the other byte order
    'miri32': (['+nightly', 'miri', 'run', '--target', 'i686-unknown-linux-gnu'],
               {'RUSTFLAGS': '-Awarnings', 'MIRIFLAGS': '-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-disable-validation'}, None),
    'miribe': (['+nightly', 'miri', 'run', '--target', 's390x-unknown-linux-gnu'],
               {'RUSTFLAGS': '-Awarnings', 'MIRIFLAGS': '-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-disable-validation'}, None),
}
# compiled for 32 bits, run by node
FLAVORS['wasm'] = (['+nightly', 'build', '--release', '-Zbuild-std=std,panic_unwind', '--target', 'wasm32-unknown-unknown'],
                   {'RUSTFLAGS': '-Awarnings -Cpanic=unwind -Clink-arg=-zstack-size=67108864'}, 'wasm32-unknown-unknown/release')
MIRI = {'miri', 'miri32', 'miribe'}

RUN_ENV = {
    'ASAN_OPTIONS': 'exitcode=86:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0',
    'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1',
    'RUST_BACKTRACE': '0',
}


def say(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def give_up(msg):
    say('cannot decide: ' + msg)
    sys.exit(2)


def tree_hash():
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(REPO + '/src')):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            h.update(p.encode() + b'\0')
            with open(p, 'rb') as fh:
                h.update(fh.read())
    with open(REPO + '/Cargo.toml', 'rb') as fh:
        h.update(fh.read())
    return h.hexdigest()


def target(flavor):
    return os.path.join(WORK, 'target-' + flavor)


def binary(flavor):
    return os.path.join(target(flavor), FLAVORS[flavor][2], 'vp')


def cargo_env(flavor):
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'VP_SANCOV', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET'):
        env.pop(k, None)
    env.update(FLAVORS[flavor][1])
    env['CARGO_TARGET_DIR'] = target(flavor)
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_INCREMENTAL'] = '0'
    if flavor in ('miri32', 'miribe'):
        # a standard library of its own
        env['XDG_CACHE_HOME'] = target(flavor) + '/cache'
    return env


def build(flavor, digest):
    """Builds against the working tree whatever the time stamps say."""
    t = target(flavor)
    os.makedirs(t, exist_ok=True)
    stamp = os.path.join(t, 'json.hash')
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old != digest:
        # the second is how newer versions of cargo lay it out
        for p in glob.glob(t + '/**/.fingerprint/json-*', recursive=True) + glob.glob(t + '/**/build/json', recursive=True):
            shutil.rmtree(p, ignore_errors=True)
        for p in glob.glob(t + '/**/deps/libjson-*', recursive=True):
            os.remove(p)
        if os.path.exists(stamp):
            os.remove(stamp)
    args = ['cargo'] + FLAVORS[flavor][0]
    args.append('--offline')
    if flavor in MIRI:
        args += ['--', 'merge']
    if flavor == 'wasm':
        # what the standard library itself depends on comes with its source
        r = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True)
        args += ['--config', "source.crates-io.replace-with='std'", '--config',
                 "source.std.directory='%s/lib/rustlib/src/rust/library/vendor'" % r.stdout.strip()]
    r = subprocess.run(args, cwd=HARNESS, env=cargo_env(flavor), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode != 0:
        return False, r.stdout
    with open(stamp, 'w') as f:
        f.write(digest)
    return True, r.stdout


def build_all(flavors):
    digest = tree_hash()
    say('building', ', '.join(flavors))
    with cf.ThreadPoolExecutor(max_workers=len(flavors)) as ex:
        res = dict(zip(flavors, ex.map(lambda f: build(f, digest), flavors)))
    for f, (ok, out) in res.items():
        if not ok:
            sys.stdout.write(out[-6000:])
            give_up('the %s build fails' % f)
    say('built')
    return digest


def write_hints(path):
    """Numbers and strings that the source mentions, for the generators."""
    ints, strs, names = set(), set(), set()
    for d, _, files in os.walk(REPO + '/src'):
        for f in files:
            if not f.endswith('.rs'):
                continue
            with open(os.path.join(d, f), encoding='utf-8', errors='replace') as fh:
                t = fh.read()
            t = re.sub(r'//[^\n]*', '', t)
            if 'macro_rules!' in t:
                # items that a macro declares where it is used
                for m in re.finditer(r'\b(?:const|static|fn)\s+([A-Za-z_]\w*)\b', t[t.index('macro_rules!'):]):
                    names.add(m.group(1))
            for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:_?[iu](?:8|16|32|64|size))?(?![\w.])', t):
                try:
                    v = int(m.group(1).replace('_', ''), 0)
                except ValueError:
                    continue
                if 8 < v < 1 << 64:
                    ints.add(v)
            for m in re.finditer(r'"((?:[^"\\\n]|\\.){1,40})"', t):
                s = m.group(1).replace('\\"', '"').replace('\\\\', '\\')
                strs.add(s)
            for m in re.finditer(r"b?'([^'\\])'", t):
                strs.add(m.group(1))
    big = sorted(ints)
    # tables of constants would drown the rest
    if len(big) > 400:
        big = big[:250] + big[250::max(1, len(big) // 150)]
    with open(path, 'w') as f:
        for v in big:
            f.write('i %d\n' % v)
        for n in sorted(names)[:60]:
            f.write('n %s\n' % n)
        for s in sorted(strs):
            f.write('s %s\n' % s.encode().hex())


def rlib():
    l = glob.glob(target('rel') + '/release/deps/libjson-*.rlib')
    if len(l) != 1:
        give_up('expected one json rlib, found %r' % l)
    return l[0]


def run_env(tmp):
    env = dict(os.environ)
    env.update(RUN_ENV)
    env['VP_TMP'] = tmp
    if os.path.isdir(target('rel')):
        l = glob.glob(target('rel') + '/release/deps/libjson-*.rlib')
        if len(l) == 1:
            env['VP_JSON_RLIB'] = l[0]
    return env


def vp(flavor):
    if flavor in MIRI:
        return ['cargo'] + FLAVORS[flavor][0] + ['--offline', '-q', '--']
    if flavor == 'wasm':
        return ['node', HARNESS + '/wasm.mjs', binary('wasm') + '.wasm']
    return [binary(flavor)]


PROCS = set()
LOCK = threading.Lock()
STOP = threading.Event()


def spawn(flavor, args, tmp, log, limit):
    """Exit status; None if it had to be ended for taking too long."""
    env = run_env(tmp)
    if flavor in MIRI:
        env.update({k: v for k, v in cargo_env(flavor).items() if k not in RUN_ENV})
    with open(log, 'w') as lf:
        p = subprocess.Popen(vp(flavor) + args, cwd=HARNESS if flavor in MIRI else tmp, env=env,
                             stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        with LOCK:
            PROCS.add(p)
        end = time.time() + limit
        try:
            while True:
                try:
                    return p.wait(timeout=0.2)
                except subprocess.TimeoutExpired:
                    if STOP.is_set() or time.time() > end:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        return None
        finally:
            with LOCK:
                PROCS.discard(p)


def read(path):
    try:
        with open(path, errors='replace') as f:
            return f.read()
    except OSError:
        return ''


def how_ended(rc, log):
    """(kind, text): ok, fail, crash, hang or broken (the check itself)"""
    text = read(log)
    tail = text[-1500:].strip()
    if rc == 0:
        return 'ok', ''
    if rc == 10:
        return 'fail', tail
    if rc == 77:
        return 'crash', 'ran past its step budget (far beyond what any case of this property takes)'
    if rc == 78:
        return 'crash', 'ran past its memory budget'
    if rc == 79:
        return 'crash', 'heap damage: ' + tail
    if rc == 86:
        m = re.search(r'ERROR: AddressSanitizer: [^\n]*', text)
        return 'crash', m.group(0) if m else 'AddressSanitizer report'
    if rc == 66:
        m = re.search(r'WARNING: ThreadSanitizer: [^\n]*(?:\n[^\n]*){0,14}', text)
        return 'crash', m.group(0) if m else 'ThreadSanitizer report'
    if rc is not None and rc < 0:
        s = -rc
        if s == signal.SIGALRM:
            return 'hang', 'a case did not end'
        if s in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
            return 'crash', 'killed by %s %s' % (signal.Signals(s).name, tail[-300:])
    if rc == 1 and 'Undefined Behavior' in text:
        m = re.search(r'error: Undefined Behavior: [^\n]*(?:\n[^\n]*){0,6}', text)
        return 'crash', m.group(0) if m else 'undefined behaviour (Miri)'
    return 'broken', 'exit status %s: %s' % (rc, tail)


def task_args(t, seed, tier, base, hints):
    a = ['run', t['id'], '--seed', str(seed), '--worker', str(t['worker']), '--workers', str(CPUS),
         '--cases', str(t['cases']), '--mode', t['mode'], '--sweep', t['sweep'], '--tier', tier,
         '--secs', str(t['secs']), '--case-secs', str(t['case_secs']), '--hints', hints,
         '--out', base + '.json', '--journal', base + '.journal']
    return a + small(t['flavor'])


def small(flavor):
    return ['--small', 'yes'] if flavor in MIRI else []


def send_sync_probe(tmp):
    """Whether the compiler agrees that values may be shared and sent."""
    names = ['json::JsonValue', 'json::object::Object', 'json::number::Number', 'json::short::Short', 'json::Error']
    use = ''.join('    let _: Option<%s> = None;\n' % n for n in names)
    need = ''.join('    crosses::<%s>();\n' % n for n in names)
    res = {}
    for kind, body in (('control', use), ('probe', use + need)):
        src = os.path.join(tmp, kind + '.rs')
        with open(src, 'w') as f:
            f.write('fn crosses<T: Send + Sync + \'static>() {}\nfn main() {\n%s%s}\n' % ('' if kind == 'probe' else '    crosses::<u8>();\n', body))
        r = subprocess.run(['rustc', '--edition', '2021', '-A', 'warnings', '--emit', 'metadata', '-o', os.path.join(tmp, kind + '.rmeta'),
                            '--extern', 'json=' + rlib(), src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        res[kind] = (r.returncode, r.stdout)
    if res['control'][0] != 0:
        give_up('the control program does not compile: ' + res['control'][1][-2000:])
    if res['probe'][0] != 0:
        return 'a value may not cross threads by its type:\n' + res['probe'][1][:3000]
    return None


def write_replay(path, head, body):
    with open(path, 'w') as f:
        for k, v in head.items():
            f.write('# %s: %s\n' % (k, str(v).replace('\n', ' ')[:2000]))
        f.write(body)


def last_case(log):
    n = [int(x) for x in re.findall(r'^case (\d+)$', read(log), re.M)]
    return n[-1] if n else 0


def confirm(flavor, pid, path, tmp, case_secs, tries=1):
    """(kind, text) of the first replay that does not pass"""
    r = ('ok', '')
    for i in range(tries):
        log = os.path.join(tmp, 'confirm.log')
        rc = spawn(flavor, ['replay', pid, path, '--case-secs', str(case_secs), '--trace', 'live'] + small(flavor), tmp, log, case_secs + 60)
        r = how_ended(rc, log)
        if r[0] != 'ok':
            break
    return r


def failure(pid, t, kind, text, base, tmp, seed, tier, hints):
    """Turns a failed worker into a replay file; returns (path, message) or None"""
    flavor = t['flavor']
    path = os.path.join(EVID, 'replay-%s.txt' % pid)
    raw = base + '.choices'
    msg = text
    STOP.clear()
    if kind == 'fail':
        try:
            out = json.loads(read(base + '.json'))
        except ValueError:
            give_up('no report from a failed worker: ' + text)
        if 'failure' not in out:
            give_up('no failure in the report of a failed worker')
        msg = out['failure']
        choices = out['choices']
        with open(raw, 'w') as f:
            f.write(' '.join(map(str, choices)) + '\n')
    elif flavor in MIRI:
        n = last_case(base + '.log')
        head = {'property': pid, 'flavor': flavor, 'kind': 'worker', 'message': msg,
                'command': ' '.join(task_args(dict(t, cases=n + 1), seed, tier, 'OUT', 'HINTS'))}
        write_replay(path, head, '')
        return path, msg
    elif flavor == 'wasm' and kind == 'hang':
        # what it had drawn went with it
        log = base + '.again.log'
        k2, t2 = how_ended(spawn(flavor, task_args(t, seed, tier, base, hints), tmp, log, t['secs'] + 120), log)
        if k2 not in ('fail', 'crash', 'hang'):
            say('a case took long once, but not again; not counted as a violation')
            return None
        head = {'property': pid, 'flavor': flavor, 'kind': 'worker', 'message': msg,
                'command': ' '.join(task_args(t, seed, tier, 'OUT', 'HINTS'))}
        write_replay(path, head, '')
        return path, msg
    else:
        r = subprocess.run([binary('rel' if os.path.exists(binary('rel')) else flavor), 'journal', base + '.journal'],
                           stdout=subprocess.PIPE, text=True)
        if r.returncode != 0:
            give_up('no journal from a crashed worker: ' + text)
        with open(raw, 'w') as f:
            f.write(r.stdout)
    case_secs = 90 if kind == 'hang' else 60
    k2, t2 = confirm(flavor, pid, raw, tmp, case_secs, 1 if kind in ('fail', 'hang') else 3)
    if kind == 'hang':
        if k2 != 'hang' and k2 not in ('fail', 'crash'):
            say('a case took long once, but not again; not counted as a violation')
            return None
        write_replay(path, {'property': pid, 'flavor': flavor, 'kind': 'choices', 'message': 'a case does not end'}, read(raw))
        return path, 'a case does not end'
    if k2 in ('ok', 'broken'):
        # depends on what came before it in the same process, or on timing
        head = {'property': pid, 'flavor': flavor, 'kind': 'worker', 'message': msg,
                'command': ' '.join(task_args(t, seed, tier, 'OUT', 'HINTS'))}
        write_replay(path, head, ''.join('# choices: ' + l for l in read(raw).splitlines(True)))
        return path, msg + ' (not by this case alone: replay runs the whole worker)'
    least = base + '.small'
    secs = 100 if pid == 'C20' else 45
    log = base + '.shrink.log'
    spawn(flavor, ['shrink', pid, raw, '--out', least, '--secs', str(secs), '--runs', '20000', '--case-secs', '10'] + small(flavor), tmp, log, secs + 150)
    body = read(raw)
    if os.path.exists(least) and 'NOT-REPRODUCED' not in read(log):
        k3, t3 = confirm(flavor, pid, least, tmp, 60)
        if k3 in ('fail', 'crash'):
            body = read(least)
            t2 = t3
            m = re.search(r'^FAIL (.*)$', read(os.path.join(tmp, 'confirm.log')), re.M)
            msg = m.group(1) if m else t3
    trace = ''.join('# case: ' + l.strip()[:1500] + '\n' for l in read(os.path.join(tmp, 'confirm.log')).splitlines()[:60])
    write_replay(path, {'property': pid, 'flavor': flavor, 'kind': 'choices', 'message': msg}, trace + body)
    return path, msg


def check(pid, tier):
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    plan = PLANS[pid]
    runs = plan['quick'] + (plan.get('thorough', []) if tier == 'thorough' else [])
    os.makedirs(EVID, exist_ok=True)
    ev_path = os.path.join(EVID, pid + '.json')
    for p in (ev_path, os.path.join(EVID, 'replay-%s.txt' % pid)):
        if os.path.exists(p):
            os.remove(p)
    tmp = os.path.join(WORK, 'run-%s-%d' % (pid, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        flavors = sorted({r['flavor'] for r in runs} | ({'rel'} if pid in ('C20', 'C23') else set()))
        build_all(flavors)
        return check_in(pid, tier, seed, runs, tmp, ev_path)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check_in(pid, tier, seed, runs, tmp, ev_path):
    hints = os.path.join(tmp, 'hints')
    write_hints(hints)
    scale = PLANS[pid].get('thorough_factor', 8) if tier == 'thorough' else 1
    tasks = []
    for k, r in enumerate(runs):
        for w in range(r.get('workers', CPUS)):
            slow = r['flavor'] in MIRI
            tasks.append({
                'id': pid, 'flavor': r['flavor'], 'mode': r.get('mode', 'random'), 'worker': w, 'run': k,
                'cases': max(1, int(r['cases'] * (scale if not r.get('fixed') else 1))),
                'sweep': r.get('sweep', 'no'),
                'secs': r.get('secs', 150) * (8 if tier == 'thorough' else 1),
                'case_secs': 100000 if slow else r.get('case_secs', 60),
            })
    found = None
    probe = None
    if pid == 'C23':
        probe = send_sync_probe(tmp)
    results = []
    limit = (480 if tier == 'quick' else 6 * 3600)

    def one(i):
        t = tasks[i]
        if STOP.is_set():
            return None
        base = os.path.join(tmp, 't%d' % i)
        rc = spawn(t['flavor'], task_args(t, seed, tier, base, hints), tmp, base + '.log', limit)
        if rc is None and STOP.is_set():
            return None
        kind, text = how_ended(rc, base + '.log')
        if kind in ('fail', 'crash', 'hang'):
            STOP.set()
        return i, rc, kind, text

    if probe is None:
        say('running', len(tasks), 'tasks')
        with cf.ThreadPoolExecutor(max_workers=CPUS) as ex:
            results = [r for r in ex.map(one, range(len(tasks))) if r]
        bad = sorted((r for r in results if r[2] in ('fail', 'crash', 'hang')),
                     key=lambda r: ['fail', 'crash', 'hang'].index(r[2]))
        broken = [r for r in results if r[2] == 'broken']
        say('ran; %d ended badly' % (len(bad) + len(broken)))
        for i, rc, kind, text in bad:
            found = failure(pid, tasks[i], kind, text, os.path.join(tmp, 't%d' % i), tmp, seed, tier, hints)
            if found:
                break
        if not found and broken:
            give_up('a worker failed for no reason of the property: %s' % broken[0][3])
    else:
        path = os.path.join(EVID, 'replay-C23.txt')
        write_replay(path, {'property': pid, 'flavor': 'rel', 'kind': 'probe', 'message': probe.splitlines()[0]},
                     read(os.path.join(tmp, 'probe.rs')))
        found = (path, probe)

    # ------------------------------------------------------------ evidence
    total = nontrivial = 0
    labels, samples, per = {}, [], {}
    edges = {}
    prints = []
    for i, rc, kind, text in results:
        t = tasks[i]
        try:
            o = json.loads(read(os.path.join(tmp, 't%d.json' % i)))
        except ValueError:
            continue
        total += o['cases']
        nontrivial += o['nontrivial']
        name = '%s/%s' % (t['flavor'], t['mode'])
        per[name] = per.get(name, 0) + o['cases']
        for k, v in o['labels'].items():
            labels[k] = labels.get(k, 0) + v
        if 'edges_hit' in o:
            edges = {'edges_instrumented': o['edges'], 'edges_hit_by_one_worker': max(o['edges_hit'], edges.get('edges_hit_by_one_worker', 0)),
                     'features': max(o['features'], edges.get('features', 0)), 'corpus': edges.get('corpus', 0) + o['corpus']}
        for s in o['samples'][:2]:
            if len(samples) < 12:
                samples.append(s[:1200])
        p = os.path.join(tmp, 't%d.json.prints' % i)
        if os.path.exists(p):
            prints.append(p)
    distinct = 0
    if prints:
        b = [f for f in ('rel', 'cov', 'edges', 'asan', 'tsan') if os.path.exists(binary(f))][0]
        r = subprocess.run([binary(b), 'merge'] + prints, stdout=subprocess.PIPE, text=True)
        distinct = int(r.stdout.strip() or 0) if r.returncode == 0 else 0
    cov = {
        'evaluations': total,
        'nontrivial': nontrivial,
        'distinct_nontrivial': distinct,
        'rule': RULES[pid],
        'samples': samples,
        'labels': dict(sorted(labels.items())),
        'cases_by_build': per,
    }
    if edges:
        cov['coverage_of_the_crate'] = edges
    if pid == 'C23':
        cov['send_sync_probe'] = 'refused' if probe else 'compiles'
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': PLANS[pid].get('level', 'exploration'),
        'coverage': cov, 'assumptions': ASSUME + PLANS[pid].get('assume', []),
        'wall_s': round(time.time() - T0, 1), 'violations': 1 if found else 0,
    }
    with open(ev_path, 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write('\n')
    say('%d cases, %d non-trivial, %d distinct' % (total, nontrivial, distinct))
    if found:
        print('  ' + found[1].replace('\n', '\n  ')[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, found[0]), flush=True)
        return 1
    if not total:
        give_up('nothing was run')
    say('held')
    return 0


def replay(path):
    head = {}
    for l in read(path).splitlines():
        m = re.match(r'# (\w+): (.*)', l)
        if m and m.group(1) not in head:
            head[m.group(1)] = m.group(2)
    if 'property' not in head:
        give_up('not a replay file')
    pid, flavor, kind = head['property'], head['flavor'], head['kind']
    os.makedirs(WORK, exist_ok=True)
    tmp = os.path.join(WORK, 'replay-%d' % os.getpid())
    os.makedirs(tmp)
    try:
        build_all(sorted({flavor} | ({'rel'} if pid in ('C20', 'C23') else set())))
        log = os.path.join(tmp, 'log')
        if kind == 'probe':
            p = send_sync_probe(tmp)
            print(p or 'compiles')
            return 1 if p else 0
        if kind == 'worker':
            hints = os.path.join(tmp, 'hints')
            write_hints(hints)
            args = head['command'].replace('OUT.', tmp + '/out.').replace('HINTS', hints).split()
        else:
            args = ['replay', pid, os.path.abspath(path), '--trace', 'live'] + small(flavor)
        rc = spawn(flavor, args, tmp, log, 900)
        k, text = how_ended(rc, log)
        sys.stdout.write(read(log))
        if kind == 'worker' and k == 'fail':
            print(json.loads(read(tmp + '/out.json')).get('failure'))
        print('%s: %s' % (k, text[-600:]) if k != 'ok' else 'passes')
        return 0 if k == 'ok' else 1 if k in ('fail', 'crash', 'hang') else 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[:1] == ['--replay']:
        return replay(a[1])
    if a[:1] == ['--build']:
        os.makedirs(WORK, exist_ok=True)
        build_all(['rel', 'cov', 'edges', 'asan'])
        return 0
    if not a or a[0] not in PLANS:
        print(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    os.makedirs(WORK, exist_ok=True)
    return check(a[0], tier)


if __name__ == '__main__':
    sys.exit(main())

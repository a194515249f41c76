#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only QUERY] [--keep]

Decides one property: every query of harness/specs.py for it is compiled from /repo's current
headers (clang IR), translated to C (ir2c.py), and handed to CBMC.  Counterexamples are replayed
on the real code built by g++ before they are reported."""
import sys, os, re, json, time, subprocess, tempfile, shutil, threading, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(VERIF, 'harness'))
import ir2c
sys.modules["check"] = sys.modules[__name__]

CLANG = os.environ.get('VF_CLANG', shutil.which('clang++-18') or 'clang++')
OPT = shutil.which('opt-18') or 'opt'
MEM = int(os.environ.get('VF_MEM_GB', '12'))
JOBS = int(os.environ.get('VF_JOBS', '8'))

class Inconclusive(Exception): pass

def sh(cmd, timeout=None, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                         start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        out, _ = p.communicate()
        return None, out
    return p.returncode, out

class Query:
    """One symbolic run. name, harness file, -D defines, loop bound."""
    def __init__(s, name, src, defs=(), unwind=8, memsafe=False, timeout=600, threads=(), inline=True,
                 max_unwind=None, what='', config='', cbmc=(), native=(), sanitize=False, unwindset=(), solver=None, env='', stubs=False):
        s.name, s.src, s.defs, s.unwind = name, src, list(defs), unwind
        s.memsafe, s.timeout, s.threads = memsafe, timeout, list(threads)
        s.max_unwind = max_unwind or max(4 * unwind, unwind + 40)
        s.what, s.config, s.cbmc, s.native, s.sanitize = what, config, list(cbmc), list(native), sanitize
        s.unwindset = list(unwindset); s.solver = solver; s.inline = inline; s.cxx = 'g++'; s.env = env; s.stubs = stubs; s.ll = '' # other IR to replay

def defflags(q): return ['-D' + d for d in q.defs]

def incl(q):
    fl = ['-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(REPO, 'src')]
    if q.stubs: fl.append('-I' + os.path.join(VERIF, 'harness', 'stub')) # headers of other systems
    if q.config: fl = ['-include', os.path.join(VERIF, 'harness', q.config)] + fl
    return fl

def encode(q, wd):
    """real headers + harness -> IR -> C"""
    src = os.path.join(VERIF, 'harness', q.src)
    ll, ll1, c = (os.path.join(wd, x) for x in ('h.ll', 'h1.ll', 'h.c'))
    base = [CLANG, '-w', '-std=c++11', '-mcx16', '-fno-exceptions', '-fno-rtti', '-fno-threadsafe-statics', '-DVF_SYMBOLIC']
    rc, out = sh(base + incl(q) + defflags(q) + ['-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', src, '-o', ll], 120)
    if rc != 0: raise Inconclusive('harness does not compile against the current source:\n' + out[-2000:])
    fns = functions_of(ll)
    if q.env: ll = hook(q, wd, ll)
    rc, out = sh([OPT, '-S', '-passes=cgscc(inline),function(%ssroa,early-cse%s,%ssccp,simplifycfg,instsimplify,adce%s)' % (*(('', '', '') if q.threads else ('loweratomic,', '<memssa>', 'correlated-propagation,' if q.env else '')), ',jump-threading,simplifycfg,loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),instsimplify,simplifycfg' if q.threads else ''),
                  '-earlycse-mssa-optimization-cap=1000000', '-inline-threshold=%d' % (100000 if q.threads else 2000)] + (['-jump-threading-across-loop-headers'] if q.threads else []) + [ll, '-o', ll1], 120)
    if rc != 0: raise Inconclusive('opt failed:\n' + out[-2000:])
    if q.threads:
        t = ir2c.split_backedges(open(ll1).read(), q.threads); open(ll1, 'w').write(t)
    try:
        text, enc, ny, plan = ir2c.translate(open(ll1).read(), ['h'] + q.threads, q.threads)
        if q.threads: open(os.path.join(wd, 'sched.ll'), 'w').write(ir2c.instrument(open(ll1).read(), q.threads, *plan))
    except ir2c.Unsupported as e:
        raise Inconclusive('the current source uses an IR construct outside the translator: %s' % e)
    open(c, 'w').write(text)
    return c, fns, ny

def hook(q, wd, ll):
    """calls vf_env() (what the other thread may do) before every access to a field of the struct q.env"""
    l0, l1 = os.path.join(wd, 'env0.ll'), os.path.join(wd, 'env.ll')
    rc, out = sh([OPT, '-S', '-passes=cgscc(inline),function(sroa)', '-inline-threshold=100000', ll, '-o', l0], 120)
    if rc != 0: raise Inconclusive('opt failed:\n' + out[-2000:])
    res = []; der = set(); fn = None; n = 0; t = '%' + q.env + ','
    for L in open(l0).read().splitlines():
        if L.startswith('define '): der = set(); fn = re.search(r'@([\w.$]+)\(', L).group(1)
        mm = re.match(r'\s*(%\S+) = getelementptr (?:inbounds )?(.*)', L)
        if mm and (mm.group(2).startswith(t) or (re.search(r'ptr (%[-\w.$]+)', mm.group(2)) and re.search(r'ptr (%[-\w.$]+)', mm.group(2)).group(1) in der)): der.add(mm.group(1))
        mm = re.match(r'\s*(?:%\S+ = )?(?:load|store|cmpxchg|atomicrmw)\b.*?, ptr (%[-\w.$]+)|\s*%\S+ = (?:cmpxchg|atomicrmw)\b.*?ptr (%[-\w.$]+)', L)
        if mm and fn != 'vf_env' and (mm.group(1) or mm.group(2)) in der: res.append('  call void @vf_env()'); n += 1
        res.append(L)
    if not n: raise Inconclusive('no access to a field of %s found' % q.env)
    open(l1, 'w').write('\n'.join(res) + '\n')
    return l1

_filt = threading.Lock()
def functions_of(ll):
    names = re.findall(r'^define .*?@("[^"]+"|[\w.$]+)\(', open(ll).read(), re.M)
    names = [n.strip('"') for n in names]
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    keep = []
    for d in p.stdout.splitlines():
        if re.search(r'RTML_|RMTLD3_|Event<|until_less|eventually|always_|since_|historically|pasteventually|duration|prop<|sum_dur|mult_dur|\btask::|clockgettime', d):
            d = re.sub(r'^(.*?)(RTML_|RMTLD3_)', lambda m: m.group(0) if '<' in m.group(1) else m.group(2), d)
            keep.append(d)
    return keep

RACE = 150
def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEM << 30, MEM << 30))

def cbmc(c, q, unwind, prop=None, timeout=None, raw=False):
    cmd = ['cbmc', c, '--function', 'h', '--json-ui', '--verbosity', '8', '--trace', '--no-malloc-may-fail', '--object-bits', '10',
           '--unwind', str(unwind)]
    if not q.memsafe: cmd += ['--no-standard-checks', '--unwinding-assertions', '--bounds-check']
    if raw: cmd += ['-DVF_I2P_RAW']
    for u in q.unwindset: cmd += ['--unwindset', u]
    if q.solver: cmd += q.solver
    cmd += q.cbmc
    if prop: cmd += ['--property', prop]
    t0 = time.time()
    # a second solver joins when the first one has bad luck
    alts = [(0, cmd), (RACE, cmd + ['--sat-solver', 'cadical'])]
    if q.solver or '--sat-solver' in cmd: alts = alts[:1]
    limit_s = timeout or q.timeout
    procs = []; out = None
    try:
        while out is None:
            el = time.time() - t0
            if el > limit_s: raise Inconclusive('solver did not finish within %d s (unwind %d)' % (limit_s, unwind))
            while alts and el >= alts[0][0]:
                f = tempfile.TemporaryFile('w+')
                procs.append((subprocess.Popen(alts[0][1], stdout=f, stderr=subprocess.DEVNULL, start_new_session=True, preexec_fn=limit), f)); alts.pop(0)
            for p, f in list(procs):
                if p.poll() is not None:
                    f.seek(0); o = f.read(); f.close()
                    if p.returncode in (0, 10) or len(procs) == 1: out = o; procs.remove((p, f)); rc = p.returncode; break
                    procs.remove((p, f))
            if out is None: time.sleep(0.05 if el < 20 else 0.3)
    finally:
        for p, f in procs:
            try: os.killpg(p.pid, 9)
            except OSError: pass
            p.wait(); f.close()
    try: js = json.loads(out)
    except ValueError: raise Inconclusive('cbmc gave no answer (exit %s): %s' % (rc, out[-500:]))
    res = None; stats = {'steps': 0, 'vars': 0, 'clauses': 0, 'solver_s': 0.0, 'wall_s': time.time() - t0, 'vccs': 0, 'vccs_left': 0}
    for o in js:
        m = o.get('messageText', '')
        if o.get('messageType') == 'ERROR': raise Inconclusive('cbmc: ' + m)
        if 'result' in o: res = o['result']
        for k, rx in (('steps', r'size of program expression: (\d+) steps'), ('vars', r'(\d+) variables'), ('clauses', r'(\d+) clauses'),
                      ('vccs', r'Generated (\d+) VCC'), ('vccs_left', r'(\d+) remaining after')):
            mm = re.search(rx, m)
            if mm: stats[k] = max(stats[k], int(mm.group(1)))
        mm = re.search(r'Runtime [dD]ecision [pP]rocedure: ([\d.e-]+)s', m)
        if mm: stats['solver_s'] += float(mm.group(1))
    if res is None: raise Inconclusive('cbmc gave no result: ' + out[-500:])
    return res, stats

def draws_of(trace):
    d = []; obs = []
    for s in trace:
        if s.get('stepType') != 'assignment': continue
        fn = s.get('sourceLocation', {}).get('function', '')
        if s.get('lhs') == 'vf_log_val' and fn == 'vf_nd_u64': d.append(int(s['value']['binary'], 2))
        elif s.get('lhs') == 'vf_obs_val' and fn == 'vf_obs': obs.append(int(s['value']['binary'], 2))
    return d, obs

_nat = {}
_natlock = threading.Lock()
def native(q, wd, sanitize=False, cxx='g++'):
    exe = os.path.join(wd, 'replay' + ('_san' if sanitize else '') + ('' if cxx == 'g++' else '_cl') + q.ll)
    with _natlock: lk = _nat.setdefault(exe, threading.Lock())
    with lk:
        if os.path.exists(exe): return exe
        src = os.path.join(VERIF, 'harness', q.src)
        if q.env or q.ll:
            obj = exe + '.o'
            rc, out = sh([CLANG, '-w', '-mcx16', '-O0', '-c', os.path.join(wd, q.ll or 'env.ll'), '-o', obj], 120)
            if rc != 0: raise Inconclusive('hooked code does not compile:\n' + out[-2000:])
            rc, out = sh(['g++', '-w', '-O0', '-g', os.path.join(HERE, 'replay_rt.cpp'), obj, '-o', exe, '-pthread', '-latomic'], 180)
            if rc != 0: raise Inconclusive('native replay does not build:\n' + out[-2000:])
            return exe
        if q.threads: # the compiled real code with a call of the scheduler at every scheduling point
            obj = exe + '.o'
            rc, out = sh([CLANG, '-w', '-mcx16', '-O0', '-c', os.path.join(wd, 'sched.ll'), '-o', obj], 120)
            if rc != 0: raise Inconclusive('scheduled code does not compile:\n' + out[-2000:])
            rc, out = sh(['g++', '-w', '-O0', '-g', '-DVF_THREADS', os.path.join(HERE, 'replay_rt.cpp'), obj, '-o', exe, '-pthread', '-latomic'], 180)
            if rc != 0: raise Inconclusive('native replay does not build:\n' + out[-2000:])
            return exe
        cmd = [cxx, '-w', '-std=c++11', '-mcx16', '-O0', '-g', '-ftrivial-auto-var-init=pattern'] + incl(q) + defflags(q) + \
              [src, os.path.join(HERE, 'replay_rt.cpp'), '-o', exe, '-pthread', '-latomic'] + q.native
        if sanitize: cmd += ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
        rc, out = sh(cmd, 180)
        if rc != 0: raise Inconclusive('native replay does not build:\n' + out[-2000:])
    return exe

def replay(q, wd, draws, tag, sanitize=False, timeout=10, good=None):
    """on code built by g++; by clang++ (same order of evaluation as the encoding) if that does not show what was asked for"""
    r = replay1(q, wd, draws, tag, sanitize, timeout)
    if good is None or good(r[0], r[1]): return r
    r2 = replay1(q, wd, draws, tag, sanitize, timeout, CLANG)
    if good(r2[0], r2[1]): q.cxx = CLANG; return r2
    return r
def replay1(q, wd, draws, tag, sanitize=False, timeout=10, cxx='g++'):
    exe = native(q, wd, sanitize, cxx)
    df = os.path.join(wd, 'draws_%s.txt' % hashlib.md5(tag.encode()).hexdigest())
    open(df, 'w').write('\n'.join(map(str, draws)) + '\n')
    env = dict(os.environ, VF_DRAWS=df, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0')
    rc, out = sh([exe], timeout, env=env)
    return rc, out, df

def save_replay(pid, q, df, exe_src, reason):
    d = os.path.join(VERIF, 'replays', pid, re.sub(r'\W', '_', q.name))
    os.makedirs(d, exist_ok=True)
    shutil.copy(df, os.path.join(d, 'draws.txt'))
    if q.threads or q.env or q.ll:
        ll = q.ll or ('env.ll' if q.env else 'sched.ll')
        shutil.copy(os.path.join(os.path.dirname(df), ll), d)
        with open(os.path.join(d, 'replay.sh'), 'w') as f:
            f.write('''#!/bin/bash
# %s
# The compiled code (clang IR of the harness and /repo/src when the violation was found) run under the solver's schedule.
set -e
D=$(cd "$(dirname "$0")" && pwd)
%s -w -mcx16 -O0 -c "$D/%s" -o "$D/code.o"
g++ -w -O0 -g %s %s "$D/code.o" -o "$D/replay" -pthread -latomic
VF_DRAWS="$D/draws.txt" timeout 20 "$D/replay"
''' % (reason.replace('\n', ' '), CLANG, ll, '-DVF_THREADS' if q.threads and not q.ll else '', os.path.join(HERE, 'replay_rt.cpp')))
        os.chmod(os.path.join(d, 'replay.sh'), 0o755)
        open(os.path.join(d, 'reason.txt'), 'w').write(reason + '\n')
        return os.path.join(d, 'replay.sh')
    src = os.path.join(VERIF, 'harness', q.src)
    with open(os.path.join(d, 'replay.sh'), 'w') as f:
        f.write('''#!/bin/bash
# %s
# Rebuilds the harness natively against /repo and feeds it the solver's values.
set -e
D=$(cd "$(dirname "$0")" && pwd)
%s -w -std=c++11 -mcx16 -O0 -g -ftrivial-auto-var-init=pattern %s %s %s %s -o "$D/replay" -pthread -latomic %s %s
VF_DRAWS="$D/draws.txt" ASAN_OPTIONS=detect_leaks=0 timeout 20 "$D/replay"
''' % (reason.replace('\n', ' '), q.cxx, ' '.join(incl(q)), ' '.join(defflags(q)), src, os.path.join(HERE, 'replay_rt.cpp'), ' '.join(q.native),
       '-fsanitize=address,undefined -fno-sanitize-recover=all' if q.sanitize else ''))
    os.chmod(os.path.join(d, 'replay.sh'), 0o755)
    open(os.path.join(d, 'reason.txt'), 'w').write(reason + '\n')
    return os.path.join(d, 'replay.sh')

def srcline(q, i):
    try:
        i = int(i)
        fn = {1: 'vf.h', 2: 'trace.h', 3: 'conc.h', 4: 'task.h'}.get(i // 10000, q.src)
        return open(os.path.join(VERIF, 'harness', fn)).read().splitlines()[i % 10000 - 1].strip()
    except Exception: return ''

def run_query(pid, q, root, tier):
    wd = os.path.join(root, re.sub(r'\W', '_', q.name)); os.makedirs(wd, exist_ok=True)
    R = {'query': q.name, 'violations': [], 'status': 'ok', 'reach_ok': 0, 'discharged': 0, 'obligations': 0, 'replays': 0, 'samples': []}
    t0 = time.time()
    try:
        c, fns, ny = encode(q, wd)
        R['functions'] = fns; R['yield_points'] = ny
        unwind = q.unwind; raw = False
        while True:
            res, st = cbmc(c, q, unwind, raw=raw)
            if not raw and any(r.get('description') == 'vf_i2p' and r['status'] == 'FAILURE' for r in res): raw = True; continue
            R['stats'] = st; R['unwind'] = unwind
            bad = []; unw = []; reach = []; other = []; unk = []
            ndis = 0
            for r in res:
                d = r.get('description', ''); s = r['status']
                if d.startswith('reach:'): reach.append(r)
                elif s == 'SUCCESS': ndis += 1
                elif s == 'FAILURE':
                    if d.startswith('vf:') or d in ('assert_fail', 'trap'): bad.append(r)
                    elif 'unwinding assertion' in d: unw.append(r)
                    else: other.append(r)
                else: unk.append('property %s is %s' % (r['property'], s))
            R['obligations'] = ndis + len(bad) + len(unw) + len(other); R['discharged'] = ndis
            if unk and not (bad or other or unw): raise Inconclusive(unk[0])
            spurious = []
            done_ids = set()
            for r in bad:
                if r['description'] in done_ids: continue
                dr, ob = draws_of(r['trace'])
                rc, out, df = replay(q, wd, dr, r['property'], good=lambda rc, out: rc is None or rc < 0 or (rc == 10 and 'ASSERT ' in out) or rc == 134); R['replays'] += 1
                idn = r['description'][3:] if r['description'].startswith('vf:') else ''
                hit = re.findall(r'^ASSERT (\d+)$', out, re.M)
                if (rc == 10 and hit) or rc in (-6, 134):
                    i = hit[0] if hit else '?'
                    why = '%s: assertion at %s:%s fails: %s' % (q.name, q.src, i, srcline(q, i))
                    if not hit: why = '%s: the library aborts (assert) on this input' % q.name
                    R['violations'].append((why, save_replay(pid, q, df, None, why), re.sub(r'\s*//.*', '', srcline(q, i)))); done_ids.add(r['description'])
                elif rc is None:
                    why = '%s: the call does not return on this input (expected: %s)' % (q.name, srcline(q, idn))
                    R['violations'].append((why, save_replay(pid, q, df, None, why), 'hang'))
                elif rc is not None and rc < 0:
                    why = '%s: the code crashes (signal %d) on this input' % (q.name, -rc)
                    R['violations'].append((why, save_replay(pid, q, df, None, why), 'crash'))
                else: spurious.append('%s [%s] native exit %s: %s' % (r['description'], srcline(q, idn), rc, out[-300:]))
            for r in other:
                dr, ob = draws_of(r['trace'])
                if r.get('description') == 'vf_bounds': # inside an object: no sanitizer sees all of these
                    try:
                        q.ll = 'inside.ll'
                        if not os.path.exists(os.path.join(wd, q.ll)): open(os.path.join(wd, q.ll), 'w').write(ir2c.index_checks(open(os.path.join(wd, 'h1.ll')).read()))
                        rc, out, df = replay(q, wd, dr, r['property'], good=lambda rc, out: rc == 13); R['replays'] += 1
                        if rc == 13:
                            why = '%s: %s' % (q.name, re.search(r'OUT-OF-BOUNDS.*', out).group(0))
                            R['violations'].append((why, save_replay(pid, q, df, None, why), 'bounds'))
                        else: spurious.append('%s (%s) native exit %s: %s' % (r['description'], r['property'], rc, out[-200:]))
                    finally: q.ll = ''
                    continue
                q.sanitize = True
                rc, out, df = replay(q, wd, dr, r['property'], sanitize=True, good=lambda rc, out: rc is not None and ('ERROR: AddressSanitizer' in out or 'runtime error' in out or rc < 0)); R['replays'] += 1
                if rc not in (0, 10, 11, 12, 20) and rc is not None and ('ERROR: AddressSanitizer' in out or 'runtime error' in out or rc < 0):
                    m = re.search(r'(runtime error:.*|ERROR: AddressSanitizer:.*)', out)
                    why = '%s: memory error: %s' % (q.name, m.group(1) if m else 'signal')
                    R['violations'].append((why, save_replay(pid, q, df, None, why), 'mem'))
                else: spurious.append('%s (%s) native exit %s: %s' % (r['description'], r['property'], rc, out[-200:]))
            if R['violations']: R['status'] = 'violation'; return R
            if unw:
                hung = False
                for r in unw:
                    dr, ob = draws_of(r['trace'])
                    rc, out, df = replay(q, wd, dr, r['property'], good=lambda rc, out: rc is None or rc < 0); R['replays'] += 1
                    if rc is None:
                        why = '%s: the call does not terminate on this input' % q.name
                        R['violations'].append((why, save_replay(pid, q, df, None, why), 'hang')); hung = True; break
                    if rc is not None and rc < 0 and rc != -9:
                        why = '%s: the code crashes (signal %d) on this input' % (q.name, -rc)
                        R['violations'].append((why, save_replay(pid, q, df, None, why), 'crash')); hung = True; break
                if hung: R['status'] = 'violation'; return R
                if unwind < q.max_unwind:
                    unwind = min(q.max_unwind, unwind * 2); continue
                raise Inconclusive('unwinding bound %d not sufficient: %s' % (unwind, unw[0]['property']))
            if spurious: raise Inconclusive('counterexample does not reproduce natively: ' + ' | '.join(spurious[:3]))
            # vacuity witnesses
            vac = [r for r in reach if r['status'] != 'FAILURE']
            if not reach: raise Inconclusive('no reachability witness in harness')
            if vac: raise Inconclusive('vacuous: %s not reachable' % ', '.join('%s (%s)' % (r['description'], srcline(q, r['description'][6:])) for r in vac))
            for r in reach:
                dr, ob = draws_of(r['trace'])
                i = r['description'][6:]
                def same(rc, out):
                    if 'REACH %s' % i not in out.split('\n') or rc == 10: return False
                    return [int(x) for x in re.findall(r'^OBS (\d+)$', out.split('REACH %s\n' % i)[0], re.M)][:len(ob)] == ob
                rc, out, df = replay(q, wd, dr, r['property'], good=same); R['replays'] += 1
                if 'REACH %s' % i not in out.split('\n') or rc in (10,):
                    raise Inconclusive('witness of %s is not reproduced by the real code (exit %s): %s' % (r['description'], rc, out[-300:]))
                nobs = [int(x) for x in re.findall(r'^OBS (\d+)$', out.split('REACH %s\n' % i)[0], re.M)]
                if nobs[:len(ob)] != ob:
                    raise Inconclusive('encoding and real code disagree on observed values at %s: %s vs %s' % (r['description'], ob[:20], nobs[:20]))
                R['reach_ok'] += 1; R['obs'] = R.get('obs', 0) + len(ob)
                if len(R['samples']) < 1: R['samples'].append({'query': q.name, 'witness_of': srcline(q, i), 'symbolic_values': dr[:24], 'observed': ob[:24]})
            return R
    except Inconclusive as e:
        R['status'] = 'inconclusive'; R['error'] = str(e)
        return R
    finally:
        R['wall_s'] = round(time.time() - t0, 2)

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('--keep', action='store_true'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    import specs
    P = specs.PROPS[a.pid]
    qs = list(P['quick']) + (list(P.get('thorough', [])) if a.tier == 'thorough' else [])
    if a.tier == 'thorough' and P.get('thorough_replaces'):
        drop = set(P['thorough_replaces']); qs = [q for q in qs if q.name not in drop]
    if a.only: qs = [q for q in qs if re.search(a.only, q.name)]
    t0 = time.time()
    root = tempfile.mkdtemp(prefix='vf_%s_' % a.pid)
    shutil.rmtree(os.path.join(VERIF, 'replays', a.pid), ignore_errors=True)
    deadline = t0 + (840 if a.tier == 'quick' else 36000)
    try:
        def job(q):
            left = deadline - time.time()
            q.timeout = max(5, min(q.timeout if a.tier == 'quick' else max(q.timeout, 7200), left))
            r = run_query(a.pid, q, root, a.tier)
            if a.v or a.only:
                print('  [%s] %s wall=%.1fs %s' % (r['status'], q.name, r['wall_s'], r.get('error', '')[:300] if r['status'] == 'inconclusive' else
                      {k: r.get('stats', {}).get(k) for k in ('steps', 'clauses', 'solver_s')}), flush=True)
            return r
        with ThreadPoolExecutor(JOBS) as ex: rs = list(ex.map(job, qs))
    finally:
        if not a.keep: shutil.rmtree(root, ignore_errors=True)
        else: print('kept', root)
    known = []
    kf = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l and not l.startswith('#'):
                k = json.loads(l)
                if k.get('property') == a.pid and k.get('status') == 'known': known.append(k)
    viol = []; kn_seen = []
    for r in rs:
        for why, path, key in r['violations']:
            k = [x for x in known if x['query'] == r['query'] and x.get('key', key) == key]
            if k: kn_seen.append(k[0]['what'])
            else: viol.append((why, path))
    inc = [r for r in rs if r['status'] == 'inconclusive']
    wall = time.time() - t0
    fns = sorted({f for r in rs for f in r.get('functions', [])})
    def S(k): return sum(r.get('stats', {}).get(k, 0) for r in rs)
    ev = {'property': a.pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': P.get('level', 'other'),
          'coverage': {
              'explanation': 'Bounded symbolic execution of the real code (clang IR of /repo/src instantiated by the harness, translated to C, decided by CBMC) '
                             'for every value of the symbolic inputs within the bounds below; loop bounds are checked by unwinding assertions.',
              'bounds': P['bounds'], 'outside': P.get('outside', ''),
              'queries': len(rs), 'queries_holding': sum(r['status'] == 'ok' for r in rs),
              'obligations': sum(r['obligations'] for r in rs), 'discharged': sum(r['discharged'] for r in rs),
              'functions_encoded': fns, 'symbolic_steps': S('steps'), 'sat_variables': S('vars'), 'sat_clauses': S('clauses'),
              'vccs_generated': S('vccs'), 'vccs_after_simplification': S('vccs_left'),
              'solver_s': round(S('solver_s'), 2),
              'vacuity_witnesses_reached': sum(r['reach_ok'] for r in rs),
              'witnesses_replayed_on_real_code': sum(r['replays'] for r in rs),
              'observed_values_compared_with_real_code': sum(r.get('obs', 0) for r in rs),
              'per_query': [{'query': q.name, 'what': q.what, 'harness': q.src, 'defines': q.defs, 'unwind': r.get('unwind'), 'status': r['status'],
                             'obligations': r['obligations'], 'solver_s': round(r.get('stats', {}).get('solver_s', 0), 2), 'wall_s': r['wall_s'],
                             'scheduling_points': r.get('yield_points') or None} for q, r in zip(qs, rs)],
              'samples': [s for r in rs for s in r['samples']][:6],
          },
          'assumptions': P.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(viol)}
    if kn_seen: ev['coverage']['known_findings'] = kn_seen
    if not a.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', a.pid + '.json'), 'w'), indent=1)
    for k in dict.fromkeys(kn_seen): print('KNOWN-FINDING: property=%s %s' % (a.pid, k))
    for why, path in dict.fromkeys(viol):
        print('  ' + why)
    if viol:
        print('VIOLATION property=%s replay=%s' % (a.pid, viol[0][1]))
        return 1
    if inc:
        for r in inc: print('INCONCLUSIVE %s: %s' % (r['query'], r['error']))
        return 2
    print('OK property=%s queries=%d obligations=%d wall=%.1fs' % (a.pid, len(rs), ev['coverage']['obligations'], wall))
    return 0

if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""check.py ID  -- decides property ID for the code in /repo (see DESIGN.md).

Builds the symbolic executor and the LLVM IR of the harnesses together with /repo's current
sources, explores the harnesses of the property, replays what the solver reports on the compiled
program, and writes evidence/ID.json.  VERIF_TIER selects the bounds (quick or thorough).

Exit 0: held on everything explored.  1: violated (VIOLATION line).  2: no answer.
"""
import concurrent.futures, fcntl, glob, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(HERE, 'work')
HARNESS = os.path.join(HERE, 'harness')
ENGINE = os.path.join(HERE, 'engine', 'target', 'release', 'engine')
TOOLCHAIN = '1.85.1'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CORES = min(8, os.cpu_count() or 1)
T0 = time.time()
# A check has 900 s: exploration may use what is left after building, and replay needs some too.
BUDGET = {'quick': 600, 'thorough': 100000}[TIER]

ENV = dict(os.environ)
for k in ('RUSTFLAGS', 'RUSTDOCFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'SYM_REPLAY', 'CARGO_BUILD_TARGET',
          'CARGO_PROFILE_DEV_DEBUG', 'CARGO_INCREMENTAL', 'RUSTC', 'RUSTUP_TOOLCHAIN'):
    ENV.pop(k, None)
ENV.update(CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN=TOOLCHAIN, RUST_BACKTRACE='0', CARGO_TERM_COLOR='never',
           HOME=os.environ.get('HOME', '/root'))
ENV['PATH'] = '/root/.cargo/bin:' + ENV.get('PATH', '')


def die(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def run(cmd, cwd, what, timeout=1500):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        print(p.stdout[-6000:])
        die(what + ' failed')
    return p.stdout


def prepare():
    """The engine, and the real tokio sources the stand-in crate borrows `sync` from."""
    os.makedirs(WORK, exist_ok=True)
    link = os.path.join(WORK, 'tokio-real')
    if not os.path.exists(os.path.join(link, 'Cargo.toml')):
        src = glob.glob('/root/.cargo/registry/src/*/tokio-1.35.1/Cargo.toml')
        if os.path.islink(link):
            os.unlink(link)
        if src:
            os.symlink(os.path.dirname(src[0]), link)
        else:
            crate = glob.glob('/root/.cargo/registry/cache/*/tokio-1.35.1.crate')
            if not crate:
                die('the sources of tokio 1.35.1 are not installed')
            run(['tar', 'xzf', crate[0], '-C', WORK], WORK, 'unpacking tokio')
            os.rename(os.path.join(WORK, 'tokio-1.35.1'), link)
    run(['cargo', 'build', '--release', '--offline'], os.path.join(HERE, 'engine'), 'building the engine')


def build_ir(feat):
    t = os.path.join(WORK, 'ir-' + (feat or 'plain'))
    cmd = ['cargo', 'rustc', '--offline', '--locked', '--release', '--bin', 'harness', '--target-dir', t]
    if feat:
        cmd += ['--features', feat]
    for f in glob.glob(t + '/release/deps/harness-*.ll'):
        os.unlink(f)
    for f in glob.glob(t + '/release/.fingerprint/harness-*'):
        subprocess.run(['rm', '-r', f])
    run(cmd + ['--', '--emit=llvm-ir', '-Clinker=/bin/true'], HARNESS, 'compiling /repo and the harnesses')
    l = glob.glob(t + '/release/deps/harness-*.ll')
    if len(l) != 1:
        die('no LLVM IR was produced')
    return l[0]


def build_native(feat, profile):
    t = os.path.join(WORK, 'native-' + (feat or 'plain'))
    cmd = ['cargo', 'build', '--offline', '--locked', '--target-dir', t, '--features', 'native' + (',' + feat if feat else '')]
    if profile == 'fast':
        cmd += ['--profile', 'fast']
    run(cmd, HARNESS, 'compiling the replay program (%s)' % profile)
    return os.path.join(t, 'fast' if profile == 'fast' else 'debug', 'harness')


def native(binary, harness, inputs, timeout=60):
    e = dict(ENV, SYM_REPLAY=','.join(inputs), VERIF_TIER=TIER)
    try:
        p = subprocess.run(['timeout', '-s', 'KILL', str(timeout), binary, harness], env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors='replace', preexec_fn=limit)
    except OSError as x:
        return -1, str(x)
    return p.returncode, p.stdout


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def reproduced(v, rc, out):
    """Does the compiled program go wrong on the solver's inputs in the way the engine says?"""
    if rc in (77, 78, 64):
        return False
    failed = rc == 99 and 'CHECK FAILED: ' in out
    if v['kind'] == 'check':
        if failed and ('CHECK FAILED: ' + v['msg']) not in out:
            v['msg'] = out.split('CHECK FAILED: ', 1)[1].split('\n')[0]
        return failed
    if v['kind'] in ('hang', 'deadlock'):
        if failed:
            # slow for the engine, and wrong when it is given the time
            v['kind'], v['msg'] = 'check', out.split('CHECK FAILED: ', 1)[1].split('\n')[0]
        return failed or rc in (137, -9)
    # panics, aborts, exhausted memory, invalid accesses
    return rc not in (0, 137, -9)


def explore(job):
    h, ll, shard, nshard, seconds = job
    out = os.path.join(WORK, 'out-%s-%d.json' % (h['name'], shard))
    if os.path.exists(out):
        os.unlink(out)
    cmd = [ENGINE, ll, h['name'], '--out', out, '--seconds', str(seconds), '--tier', TIER, '--samples', '4',
           '--shard', '%d/%d' % (shard, nshard), '--steps', str(h.get('steps', 30000000)), '--z3ms', '60000']
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(out):
        return {'status': 'failed', 'log': p.stdout[-2000:]}
    return json.load(open(out))


SUMS = ['paths', 'assumed_away', 'unexplored', 'instructions', 'checks', 'checks_symbolic', 'queries',
        'queries_cached', 'sat', 'unsat', 'unknown']


def merge(rs):
    o = {k: sum(r[k] for r in rs) for k in SUMS}
    o['solver_s'] = round(sum(r['solver_s'] for r in rs), 3)
    o['slowest_query_s'] = max(r['slowest_query_s'] for r in rs)
    o['cpu_s'] = round(sum(r['wall_s'] for r in rs), 2)
    o['max_instructions_on_a_path'] = max(r['max_steps'] for r in rs)
    o['max_symbolic_bytes'] = max(r['max_symbolic_bytes'] for r in rs)
    for k in ('reach', 'gave_up'):
        d = {}
        for r in rs:
            for a, b in r[k].items():
                d[a] = d.get(a, 0) + b
        o[k] = d
    o['functions'] = sorted(set(f for r in rs for f in r['bromine_functions']))
    o['violations'] = [v for r in rs for v in r['violations']]
    o['samples'] = [s for r in rs for s in r['samples']]
    return o


def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        prepare()
        for feat in ('', 'enc', 'ser', 'two'):
            build_ir(feat)
        print('setup done')
        return 0
    pid = sys.argv[1]
    plan = json.load(open(os.path.join(HERE, 'plan.json')))
    prop = plan[pid]
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    known = [k for k in known if k['property'] == pid]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    prepare()
    hs = prop['harnesses']
    if TIER == 'quick':
        hs = [h for h in hs if not h.get('thorough_only')]
    feats = sorted(set(h.get('features', '') for h in hs))
    ll = {f: build_ir(f) for f in feats}
    tb = time.time()

    left = max(60, BUDGET - (tb - T0))
    jobs = []
    for h in hs:
        n = h.get('shards', {}).get(TIER, 1)
        for i in range(n):
            jobs.append((h, ll[h.get('features', '')], i, n, h.get('seconds', {}).get(TIER, 300 if TIER == 'quick' else 3600)))
    # long ones first
    jobs.sort(key=lambda j: -j[3])
    res = {h['name']: [] for h in hs}
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        futs = {ex.submit(explore, j): j for j in jobs}
        for f in concurrent.futures.as_completed(futs):
            res[futs[f][0]['name']].append(f.result())
    te = time.time()

    bad, trouble, found = [], [], []
    totals, per, samples = [], [], []
    by_name = {h['name']: h for h in hs}
    for h in hs:
        rs = res[h['name']]
        broken = [r for r in rs if r['status'] == 'failed']
        if broken:
            trouble.append('%s: the engine failed: %s' % (h['name'], broken[0]['log'].strip()[-400:]))
            continue
        o = merge(rs)
        totals.append(o)
        for v in o['violations']:
            bad.append((h, v))
        if not o['violations']:
            missing = [t for t in h.get('reach', []) if t not in o['reach']]
            if missing:
                trouble.append('%s: no path reached: %s' % (h['name'], ', '.join(missing)))
            if o['gave_up']:
                print('INCOMPLETE %s: %s' % (h['name'], o['gave_up']))
        per.append({
            'harness': h['name'], 'features': h.get('features', ''), 'what': h['what'], 'bounds': h['bounds'][TIER] if isinstance(h.get('bounds'), dict) else h.get('bounds', ''),
            'paths': o['paths'], 'instructions': o['instructions'], 'checks': o['checks'], 'checks_symbolic': o['checks_symbolic'],
            'solver_queries': o['queries'], 'queries_answered_from_cache': o['queries_cached'], 'sat': o['sat'], 'unsat': o['unsat'],
            'solver_s': o['solver_s'], 'slowest_query_s': o['slowest_query_s'], 'cpu_s': o['cpu_s'],
            'assumed_away': o['assumed_away'], 'unexplored': o['unexplored'], 'gave_up': o['gave_up'],
            'max_instructions_on_a_path': o['max_instructions_on_a_path'], 'max_symbolic_bytes': o['max_symbolic_bytes'],
            'reached': o['reach'], 'violations': len(o['violations']),
        })
        for s in o['samples'][:3]:
            samples.append((h, s))

    # every reported violation is replayed on the compiled program
    bins = {}

    def binary(feat, profile):
        if (feat, profile) not in bins:
            bins[(feat, profile)] = build_native(feat, profile)
        return bins[(feat, profile)]

    confirmed, replays = [], 0
    for h, v in bad:
        if 'stand-in:' in v['msg']:
            trouble.append('%s: %s' % (h['name'], v['msg']))
    for h, v in [x for x in bad if 'stand-in:' not in x[1]['msg']][:12]:
        feat = h.get('features', '')
        hit = None
        for profile in ('dev', 'fast'):
            rc, out = native(binary(feat, profile), h['name'], v['inputs'], 20 if v['kind'] in ('hang', 'deadlock') else 60)
            replays += 1
            if reproduced(v, rc, out):
                hit = (profile, rc, out)
                break
        if hit is None and not h.get('engine_only'):
            trouble.append('%s: "%s" (%s) was not reproduced by the compiled program (exit %s)\n  inputs %s\n  at %s' % (
                h['name'], v['msg'], v['kind'], rc, ','.join(v['inputs']), ' < '.join(v['at'][:8])))
            continue
        k = [k for k in known if k['harness'] == h['name'] and k['kind'] == v['kind'] and k['msg'] == v['msg']]
        if k:
            found.append(k[0])
        else:
            confirmed.append((h, v, hit))

    # some explored paths are run on the compiled program as well: it has to get through them
    validated = 0
    shown = []
    if not confirmed:
        for h, s in samples:
            rc, out = native(binary(h.get('features', ''), 'dev'), h['name'], s)
            if rc == 0 and 'COMPLETED' in out:
                validated += 1
                if len(shown) < 6:
                    shown.append({'harness': h['name'], 'inputs': [x if len(x) <= 64 else x[:60] + '...' for x in s[:40]]})
            else:
                trouble.append('%s: the compiled program leaves a path the engine completed (exit %d): %s\n  inputs %s' % (
                    h['name'], rc, out.strip()[-300:], ','.join(s)[:2000]))

    for k in {k['id']: k for k in found}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for k in known:
        if k not in found and k['harness'] in by_name:
            print('note: known finding %s was not seen' % k['id'])

    tot = {k: sum(o[k] for o in totals) for k in SUMS}
    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'],
            'transitions': tot['instructions'],
            'traces_validated_against_impl': validated,
            'samples': shown or [{'harness': h['name'], 'inputs': v['inputs'][:40], 'violation': v['msg']} for h, v in bad[:3]] or [{'note': 'none'}],
            'what_is_counted': 'states: symbolic paths (each stands for all values its constraints allow) explored to their end; '
                               'transitions: LLVM instructions executed symbolically; traces: explored paths replayed on the compiled program',
            'assertions_evaluated': tot['checks'],
            'assertions_not_constant': tot['checks_symbolic'],
            'solver_queries': tot['queries'], 'queries_answered_from_cache': tot['queries_cached'],
            'sat': tot['sat'], 'unsat': tot['unsat'], 'unknown': tot['unknown'],
            'solver_s': round(sum(o['solver_s'] for o in totals), 3),
            'counterexamples_replayed': replays,
            'exhaustive': all(not o['gave_up'] and not o['unexplored'] for o in totals) and not trouble,
            'harnesses': per,
            'functions_encoded': sorted(set(f for o in totals for f in o['functions'])),
            'known_findings_seen': [k['id'] for k in found],
            'build_s': round(tb - T0, 1), 'exploration_s': round(te - tb, 1), 'replay_s': round(time.time() - te, 1),
        },
        'assumptions': plan['_assumptions'] + prop.get('assumptions', []),
        'wall_s': round(time.time() - T0, 1),
        'violations': len(confirmed),
    }
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for t in trouble:
        print('TROUBLE ' + t)
    if confirmed:
        for h, v, hit in confirmed[:6]:
            path = os.path.join(HERE, 'evidence', 'replay-%s-%s.txt' % (pid, h['name']))
            with open(path, 'w') as f:
                f.write('property   %s\nharness    %s\nviolation  %s: %s\n' % (pid, h['name'], v['kind'], v['msg']))
                f.write('inputs     %s\nnotes      %s\nat         %s\n' % (','.join(v['inputs']), v['notes'], '\n           '.join(v['at'])))
                if hit:
                    f.write('replay     cd %s && SYM_REPLAY=%s VERIF_TIER=%s cargo +%s run --offline%s --features native%s -- %s\n' % (
                        HARNESS, ','.join(v['inputs']), TIER, TOOLCHAIN, ' --profile fast' if hit[0] == 'fast' else '',
                        ',' + h['features'] if h.get('features') else '', h['name']))
                    f.write('replayed   exit %d (%s profile)\n%s\n' % (hit[1], hit[0], hit[2][-1500:]))
            print('%s: %s: %s' % (h['name'], v['kind'], v['msg']))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if trouble:
        return 2
    print('OK %s: %d harnesses, %d paths, %d assertions, %d solver queries (%.1f s), %d traces replayed, %.0f s' % (
        pid, len(per), tot['paths'], tot['checks'], tot['queries'], sum(o['solver_s'] for o in totals), validated, time.time() - T0))
    return 0


if __name__ == '__main__':
    sys.exit(main())

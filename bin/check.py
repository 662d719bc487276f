#!/usr/bin/env python3
"""Decide one property by symbolic execution of /repo's current code.

usage: check.py <property> quick|thorough [--repo DIR]

Exit 0: every assertion holds on every path within the stated bounds.
Exit 1: a counterexample was found AND reproduced on the native build
        (a line `VIOLATION property=<id> replay=<path>` is printed).
Exit 2: no answer (build failure, unsupported construct, timeout, a path that
        could not be reproduced natively, or a coverage goal that was missed).
"""
import json, os, random, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'bin'))
from demangle import demangle  # noqa: E402
from plan import PLAN, LEVEL, BOUNDS, ASSUMPTIONS  # noqa: E402

TARGET = os.path.join(VERIF, 'target')
T0 = time.time()
ENV = dict(os.environ)
for k in list(ENV):
    if k.startswith('CARGO_') or k in ('RUSTFLAGS', 'RUSTC', 'RUSTDOCFLAGS', 'RUSTC_WRAPPER'):
        if k not in ('CARGO_HOME',):
            del ENV[k]
ENV['RUSTUP_TOOLCHAIN'] = 'stable-x86_64-unknown-linux-gnu'
ENV['CARGO_NET_OFFLINE'] = 'true'
ENV['CARGO_TERM_COLOR'] = 'never'


def log(*a):
    print(*a, flush=True)


class NoAnswer(Exception):
    pass


def run(cmd, cwd, extra=None, timeout=900):
    env = dict(ENV)
    if extra:
        env.update(extra)
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')


def build_engine():
    d = os.path.join(TARGET, 'engine')
    rc, _, err = run(['cargo', 'build', '--release', '--offline'], os.path.join(VERIF, 'engine'), {'CARGO_TARGET_DIR': d})
    if rc != 0:
        raise NoAnswer('the engine does not build:\n' + err[-3000:])
    return os.path.join(d, 'release', 'symex')


CFG = {
    # name: (cargo profile for the IR, cargo profile for the replay, features, toolchain)
    'dev': ('dev', 'replay', [], None),
    'rel': ('rel', 'replayrel', [], None),
    'nostd': ('dev', 'replay', ['nostd'], None),
}


class NoStdBroken(Exception):
    """The crate itself does not compile with its feature no_std."""


def built(cfg, what, rc, err):
    if rc != 0:
        if cfg == 'nostd' and 'could not compile `trees`' in err:
            raise NoStdBroken(err[-4000:])
        raise NoAnswer('%s does not build against /repo (%s):\n%s' % (what, cfg, err[-4000:]))


def hdir(prop, cfg):
    return os.path.join(TARGET, 'h', '%s-%s' % (prop, cfg))


def build_ir(prop, cfg):
    """IR of the harness with the crate under test, rebuilt from source."""
    prof, _, feats, _ = CFG[cfg]
    d = os.path.join(hdir(prop, cfg), 'ir')
    shutil.rmtree(d, ignore_errors=True)
    cmd = ['cargo', 'rustc', '--offline', '--lib', '--crate-type', 'cdylib', '--profile', prof,
           '--features', ','.join([prop.lower()] + feats), '--', '--emit=llvm-ir', '-C', 'linker-plugin-lto=no']
    rc, _, err = run(cmd, os.path.join(VERIF, 'harness'), {'CARGO_TARGET_DIR': d})
    built(cfg, 'the harness', rc, err)
    out = os.path.join(d, 'debug' if prof == 'dev' else prof, 'deps', 'harness.ll')
    if not os.path.exists(out):
        raise NoAnswer('no IR was produced (%s)' % cfg)
    return out


def build_native(prop, cfg):
    _, prof, feats, _ = CFG[cfg]
    d = os.path.join(hdir(prop, cfg), 'native')
    shutil.rmtree(d, ignore_errors=True)
    cmd = ['cargo', 'build', '--offline', '--profile', prof, '--features', ','.join([prop.lower(), 'native'] + feats), '--bin', 'replay']
    rc, _, err = run(cmd, os.path.join(VERIF, 'harness'), {'CARGO_TARGET_DIR': d})
    built(cfg, 'the native harness', rc, err)
    return os.path.join(d, prof, 'replay')


TSAN = {}


def build_tsan(prop, cfg):
    """The native harness with the thread sanitizer (a nightly compiler): only to confirm a counterexample."""
    if (prop, cfg) not in TSAN:
        _, _, feats, _ = CFG[cfg]
        d = os.path.join(hdir(prop, cfg), 'tsan')
        shutil.rmtree(d, ignore_errors=True)
        cmd = ['cargo', 'build', '--offline', '--profile', 'replay', '--target', 'x86_64-unknown-linux-gnu', '--features', ','.join([prop.lower(), 'native'] + feats), '--bin', 'replay']
        rc, _, err = run(cmd, os.path.join(VERIF, 'harness'), {'CARGO_TARGET_DIR': d, 'RUSTUP_TOOLCHAIN': 'nightly-x86_64-unknown-linux-gnu',
                                                               'RUSTFLAGS': '-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer'})
        TSAN[prop, cfg] = os.path.join(d, 'x86_64-unknown-linux-gnu', 'replay', 'replay') if rc == 0 else None
        if rc != 0:
            log('the thread sanitizer build failed: ' + err[-500:])
    return TSAN[prop, cfg]


def confirm_threads(prop, cfg, binary, name, v, tmp):
    """Reproduce a violation that depends on the schedule: the second thread runs after each step of
    the first in turn (or the reverse), or both run under the thread sanitizer."""
    line = line_of(v['inputs'])
    ways = ['reversed', 'threads', 'threads-reversed', 'stepped', 'stepped-reversed']
    if not v['msg'].startswith('data race'):
        ways = ['reversed', 'stepped', 'stepped-reversed', 'threads', 'threads-reversed']
    for way in ways:
        b = build_tsan(prop, cfg) if way.startswith('threads') else binary
        if b is None:
            continue
        st, text, _ = native(b, name, [line], tmp, timeout=150, env={'PAR_MODE': way, 'TSAN_OPTIONS': 'exitcode=66'})
        if st == 'violation' and not text.startswith('does not terminate'):
            return '%s (%s)' % (text, way)
        if st == 'race':
            return '%s (%s)' % (text, way)
    return None


def hname(h, params):
    return h + (':' + ','.join(map(str, params)) if params else '')


def line_of(inputs):
    return ','.join('%d:%d' % (w, v) for w, v in inputs)


def native(binary, name, lines, tmp, timeout=20, tool=None, env=None):
    """Run recorded inputs on the real build. -> (status, text, observations)"""
    with open(tmp, 'w') as f:
        f.write('\n'.join(l if l else ' ' for l in lines) + '\n')
    cmd = (tool or []) + [binary, name, tmp]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(ENV, **(env or {})), cwd=TARGET)
    except subprocess.TimeoutExpired:
        return 'violation', 'does not terminate within %d s' % timeout, []
    out = p.stdout.decode('utf8', 'replace')
    obs = [[int(x) for x in l[4:].split(',') if x.strip()] for l in out.splitlines() if l.startswith('OBS')]
    last = out.strip().splitlines()[-1] if out.strip() else ''
    if p.returncode == 0 and 'NATIVE-OK' in last:
        return 'ok', last, obs
    if p.returncode == 10:
        return 'violation', last, obs
    if p.returncode == 20:
        return 'assume', last, obs
    if p.returncode == 21:
        return 'diverged', last, obs
    if p.returncode == 66:
        e = [l.strip() for l in p.stderr.decode('utf8', 'replace').splitlines()]
        return 'race', ' '.join([l for l in e if l.startswith(('WARNING: ThreadSanitizer', 'SUMMARY'))][:2]), obs
    if p.returncode == 9 and tool:
        e = p.stderr.decode('utf8', 'replace')
        return 'violation', 'memory error: ' + ' | '.join([l.split('==')[-1].strip() for l in e.splitlines() if '==' in l and l.split('==')[-1].strip()][:3]), obs
    if p.returncode < 0 or p.returncode >= 128:
        s = -p.returncode if p.returncode < 0 else p.returncode - 128
        return 'violation', 'killed by signal %s' % s, obs
    if p.returncode == 101:
        return 'violation', 'panic', obs
    return 'other', 'exit %s %s %s' % (p.returncode, last, p.stderr.decode('utf8', 'replace')[-300:]), obs


def confirm(prop, cfg, binary, name, v, tmp):
    line = line_of(v['inputs'])
    st, text, _ = native(binary, name, [line], tmp)
    if st == 'violation':
        return text
    if st == 'ok' and name.startswith('c21'):
        return confirm_threads(prop, cfg, binary, name, v, tmp)
    if st == 'ok' and v['kind'] == 'violation':
        vg = ['valgrind', '-q', '--error-exitcode=9', '--leak-check=no']
        st2, text2, _ = native(binary, name, [line], tmp, timeout=120, tool=vg)
        if st2 == 'violation':
            return text2
        text = '%s / valgrind: %s %s' % (text, st2, text2)
    return None if st != 'other' else None


def load_known(prop):
    res = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('fixed:') and not l.startswith('#'):
                e = json.loads(l)
                if e['property'] == prop:
                    res.append(e)
    return res


def crosscheck(dumpfile, seconds):
    """Re-decide a sample of the solver queries with two other solvers."""
    res = {}
    txt = open(dumpfile).read() if os.path.exists(dumpfile) else ''
    exp = [l.split()[-1] for l in txt.splitlines() if l.startswith('; expect')]
    for name, cmd in (('z3-new', ['z3-new', '-in']), ('cvc5', ['cvc5', '--lang=smt2', '--incremental', '-q'])):
        if not shutil.which(cmd[0]):
            continue
        pre = '' if name != 'cvc5' else ''
        try:
            p = subprocess.run(cmd, input=(pre + txt).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=seconds)
        except subprocess.TimeoutExpired:
            res[name] = {'agree': 0, 'disagree': 0, 'timeout': True}
            continue
        got = [l.strip() for l in p.stdout.decode().splitlines() if l.strip()]
        errs = [g for g in got if g.startswith('(error')]
        ans = [g for g in got if g in ('sat', 'unsat', 'unknown')]
        res[name] = {
            'queries': len(exp),
            'agree': sum(1 for a, b in zip(exp, ans) if a == b),
            'disagree': sum(1 for a, b in zip(exp, ans) if a != b and b != 'unknown'),
            'errors': len(errs), 'answers': len(ans),
        }
        if res[name]['disagree']:
            raise NoAnswer('solver %s disagrees on a query' % name)
    return res


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    budget = 780 if tier == 'quick' else 5400
    items = [dict(it, must=True) for it in PLAN[prop]['quick']]
    if tier == 'thorough':
        # the quick bounds first, which have to be completed; then deeper ones, as far as the time allows
        items += [dict(it, must=False) for it in PLAN[prop]['thorough'] if it not in PLAN[prop]['quick']]
    cfgs = []
    for it in items:
        if it['cfg'] not in cfgs:
            cfgs.append(it['cfg'])
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = os.path.join(VERIF, 'evidence', prop + '.json')
    if os.path.exists(ev):
        os.remove(ev)
    # build everything from /repo's current tree
    with ThreadPoolExecutor(8) as ex:
        fe = ex.submit(build_engine)
        fi = {c: ex.submit(build_ir, prop, c) for c in cfgs}
        fn = {c: ex.submit(build_native, prop, c) for c in cfgs}
        engine = fe.result()
        ir, nat, broken = {}, {}, None
        for c in cfgs:
            try:
                ir[c], nat[c] = fi[c].result(), fn[c].result()
            except NoStdBroken as e:
                broken = str(e)
    if broken:
        # decided by the compiler alone: with the feature the crate is no crate at all. That is C19; the others go on without this configuration
        log('the crate does not compile with its feature no_std')
        items = [it for it in items if it['cfg'] != 'nostd']
        cfgs = [c for c in cfgs if c != 'nostd']
        if prop == 'C19':
            build_ir(prop, 'dev')  # no answer if it does not compile without the feature either
    t_build = time.time() - T0
    log('%s: built in %.1f s' % (prop, t_build))
    known = load_known(prop)
    results, confirmed, unconfirmed, found_known, problems = [], [], [], [], []
    validated, cuts, skipped = 0, 0, []
    tmp = os.path.join(hdir(prop, 'run'), 'inputs')
    os.makedirs(os.path.dirname(tmp), exist_ok=True)
    cross = {}
    passes = [(c, must, [it for it in items if it['cfg'] == c and it['must'] == must]) for must in (True, False) for c in cfgs]
    passes = [x for x in passes if x[2]]
    for np, (c, must, mine) in enumerate(passes):
        left = budget - (time.time() - T0)
        if not must:
            if confirmed or unconfirmed or problems:
                break
            left = max(left - 120, 11) / (len(passes) - np)
        if left < 10:
            # counted below: rows that were not explored
            skipped += [(hname(it['h'], it['p']), c) for it in mine]
            continue
        dump = os.path.join(hdir(prop, 'run'), 'queries-%s-%d.smt2' % (c, must))
        cmd = [engine, '--ir', ir[c], '--wall', str(int(left)), '--threads', str(os.cpu_count() or 4), '--seed', str(seed), '--samples', '48',
               '--max-violations', '24', '--cap', str(int(max(60, left / 2 if must else 2 * left / len(mine))))]
        if tier == 'thorough':
            cmd += ['--dump', '400', '--dump-file', dump]
        for it in mine:
            cmd += ['--harness', hname(it['h'], it['p'])]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=left + 60)
        if p.returncode != 0:
            raise NoAnswer('engine failed (%s): %s' % (p.returncode, p.stderr.decode('utf8', 'replace')[-2000:]))
        out = json.loads(p.stdout.decode('utf8', 'replace'))
        for it, r in zip(mine, out):
            name = hname(it['h'], it['p'])
            r['cfg'] = c
            cut = r['timed_out'] and not r['violations']
            cuts += cut
            if cut and must:
                skipped.append((name, c))
            results.append(r)
            log('  [%s] %-34s paths %-8d asserts %-9d (symbolic %d) queries %d solver %.2fs wall %.2fs%s' % (
                c, name, r['paths'], r['asserts'], r['asserts_symbolic'], r['queries'], r['solver_s'], r['wall_s'], '' if r['complete'] else '  INCOMPLETE'))
            for v in r['violations'][:24]:
                e = next((e for e in known if e['harness'] == it['h'] and e['msg'] == v['msg']
                          and (not e.get('inputs') or e['inputs'] == line_of(v['inputs'])[:len(e['inputs'])])), None)
                if e:
                    if e not in found_known:
                        found_known.append(e)
                    continue
                if len(confirmed) >= 2 or len(unconfirmed) >= (3 if prop == 'C21' else 24):
                    break
                how = confirm(prop, c, nat[c], name, v, tmp)
                if how is None:
                    unconfirmed.append((name, c, v))
                else:
                    confirmed.append((name, c, v, how))
            if r['errors']:
                problems.append('%s: %s' % (name, r['errors'][0]['msg']))
            if not r['violations'] and not cut:
                for cv in it.get('covers', []):
                    if cv not in r['covers']:
                        problems.append('%s: coverage goal not reached: %s' % (name, cv))
                if r['asserts'] == 0:
                    problems.append('%s: no assertion was reached' % name)
            # replay a sample of the explored paths on the native build
            if r['samples'] and not confirmed:
                lines = [line_of(s['inputs']) for s in r['samples']]
                st, text, obs = native(nat[c], name, lines, tmp, timeout=120)
                if st == 'violation' and text.startswith('NATIVE-VIOLATION'):
                    # a run the engine accepted fails for real: a genuine failure the encoding missed
                    problems.append('%s: the native build fails on a path the engine accepted: %s' % (name, text))
                elif st != 'ok':
                    problems.append('%s: native replay: %s %s' % (name, st, text))
                else:
                    for s, o in zip(r['samples'], obs):
                        if s['obs'] != o:
                            problems.append('%s: engine and native build observe different values' % name)
                            break
                        validated += 1
        if tier == 'thorough' and not confirmed:
            cross[c + ('' if must else ', deeper')] = crosscheck(dump, 120)
    if not confirmed:
        for name, c in skipped:
            log('not explored to the end: %s [%s], for lack of time' % (name, c))
        if 2 * len(skipped) > sum(it['must'] for it in items):
            problems.append('out of time: most explorations did not come to an end')
    tot = lambda k: sum(r[k] for r in results)
    insts = {f for r in results for f in r['repo_functions']}
    fns = sorted({demangle(f) for f in insts})
    samples = []
    for r in results[:6]:
        for s in r['samples'][:2]:
            samples.append({'harness': hname(r['harness'], r['params']), 'cfg': r['cfg'], 'inputs': line_of(s['inputs']), 'observed': s['obs'][:20]})
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL,
        'coverage': {
            'states': tot('paths') + tot('forks'),
            'transitions': tot('instructions'),
            'traces_validated_against_impl': validated,
            'samples': samples,
            'paths': tot('paths'),
            'assertions_decided': tot('asserts'),
            'assertions_over_symbolic_values': tot('asserts_symbolic'),
            'solver_queries': tot('queries'), 'solver_calls': tot('z3_calls'), 'query_cache_hits': tot('cache_hits'),
            'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'queries_unknown': tot('unknown'),
            'solver_seconds': round(tot('solver_s'), 3),
            'harnesses': [{'harness': hname(r['harness'], r['params']), 'cfg': r['cfg'], 'complete': r['complete'], 'paths': r['paths'],
                           'asserts': r['asserts'], 'asserts_symbolic': r['asserts_symbolic'], 'instructions': r['instructions'],
                           'max_instructions_on_a_path': r['max_steps'], 'max_symbolic_inputs_on_a_path': r['max_vars'],
                           'queries': r['queries'], 'solver_s': r['solver_s'], 'wall_s': r['wall_s'], 'reached': r['covers']} for r in results],
            'functions_encoded': len(fns), 'function_instances_encoded': len(insts), 'functions': fns,
            'bounds': BOUNDS[prop],
            'exhaustive': bool(results) and not skipped and all(r['complete'] for r in results),
            'left_out': '; '.join((['the configuration nostd: the crate does not compile with its feature no_std'] if broken else [])
                                  + ['%s [%s] was not explored to the end, for lack of time' % x for x in skipped]),
            'cross_check': cross,
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(time.time() - T0, 2), 'violations': len(confirmed) + bool(broken and prop == 'C19'),
    }
    with open(ev, 'w') as f:
        json.dump(evidence, f, indent=1)
    if broken and prop == 'C19':
        rp = os.path.join(VERIF, 'evidence', prop + '.replay.json')
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'compiler': broken, 'reproduce': 'cargo build --features no_std'}, f, indent=1)
        log(broken[:1500])
        log('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    for e in found_known:
        log('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    if confirmed:
        name, c, v, how = confirmed[0]
        rp = os.path.join(VERIF, 'evidence', prop + '.replay.json')
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'harness': name, 'cfg': c, 'inputs': line_of(v['inputs']), 'solver_verdict': v['msg'], 'stack': v['stack'],
                       'native': how, 'reproduce': '%s %s <file holding the inputs line>' % (nat[c], name)}, f, indent=1)
        log('counterexample: %s [%s] inputs %s' % (name, c, line_of(v['inputs'])))
        log('  %s' % v['msg'])
        log('  native: %s' % how)
        log('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if unconfirmed:
        name, c, v = unconfirmed[0]
        problems.append('%s [%s]: counterexample not reproduced natively: %s (inputs %s; stack %s)' % (name, c, v['msg'], line_of(v['inputs']), ' < '.join(v['stack'][:5])))
    if problems:
        for p in problems[:10]:
            log('NO ANSWER: ' + p)
        return 2
    log('%s: holds on all %d paths (%d assertions, %d native replays agree) in %.1f s%s' % (
        prop, tot('paths'), tot('asserts'), validated, time.time() - T0, '; %d explorations were cut off by the time limit' % (cuts + sum(n not in [hname(r['harness'], r['params']) for r in results] for n, _ in skipped)) if cuts or skipped else ''))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except NoAnswer as e:
        log('NO ANSWER: %s' % e)
        rc = 2
    except subprocess.TimeoutExpired as e:
        log('NO ANSWER: timeout in %s' % (e.cmd,))
        rc = 2
    sys.exit(rc)

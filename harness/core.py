"""Runner: model check the design spec, let TLC generate behaviours, replay them
(and others) on the code in /repo, let TLC judge the recorded traces."""
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = os.path.join(VERIF, 'tla')
JARDIR = '/opt/veriftools/tla'
PY = '/opt/venv/bin/python'
REPO = '/repo'
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class CheckError(Exception):
    pass


def tlc(module, cfg, scratch, env=None, args=(), workers=1, heap='3g', timeout=800, stack='64m'):
    """Run TLC, return (exit code, json lines printed by the spec, raw output, stats)."""
    meta = tempfile.mkdtemp(prefix='tlc', dir=scratch)
    cmd = ['java', '-Xmx' + heap, '-Xss' + stack, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
           '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + meta,
           '-cp', JARDIR + '/tla2tools.jar:' + JARDIR + '/CommunityModules-deps.jar',
           'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE', '-nowarning',
           '-workers', str(workers), '-config', cfg] + list(args) + [module]
    e = dict(os.environ)
    e.update(env or {})
    log = os.path.join(meta, 'stdout')
    with open(log, 'w') as f:
        p = subprocess.Popen(cmd, cwd=TLA, env=e, stdout=f, stderr=subprocess.STDOUT)
        try:
            code = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            code = -9
    with open(log, errors='replace') as f:
        out = f.read()
    if code == -9:
        out += '\nstopped after %d s\n' % timeout
    lines = []
    for ln in out.splitlines():
        if ln.startswith('"@@'):
            try:
                s = json.loads(ln)
                lines.append((s[2], json.loads(s[4:])))
            except ValueError:
                if code != -9:
                    raise
    gen = dist = 0
    m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', out)
    if m:
        gen, dist = map(int, m[-1])
    else:
        m = re.findall(r'The number of states generated: (\d+)', out)
        if m:
            gen = dist = int(m[-1])
    shutil.rmtree(meta, ignore_errors=True)
    return code, lines, out, {'states': gen, 'distinct': dist}


def load_findings(pid):
    out = []
    if os.path.exists(FINDINGS):
        for ln in open(FINDINGS):
            m = re.match(r'known: property=(\S+) clause=(\S+) key=(\S+) (.*)', ln.strip())
            if m and m.group(1) == pid:
                out.append({'clause': m.group(2), 'key': m.group(3), 'what': m.group(4)})
    return out


def drive(area, pid, tier, seed, gens, scratch, timeout):
    gpath = os.path.join(scratch, 'gens.json')
    json.dump(gens, open(gpath, 'w'))
    opath = os.path.join(scratch, 'trace.ndjson')
    work = os.path.join(scratch, 'work')
    os.mkdir(work)
    env = dict(os.environ)
    env.update({'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': VERIF, 'HOME': work, 'TMPDIR': work,
                'PYTHONHASHSEED': '0', 'PYTHONWARNINGS': 'ignore', 'TQDM_DISABLE': '1',
                'LANG': 'C.UTF-8', 'HYPOTHESIS_STORAGE_DIRECTORY': work})
    p = subprocess.run([PY, '-W', 'ignore', '-m', 'harness.driver', area, pid, tier, str(seed), gpath, opath],
                       cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       errors='replace', timeout=timeout)
    if p.returncode != 0:
        raise CheckError('driver failed (%d):\n%s' % (p.returncode, p.stderr[-4000:]))
    return opath


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    from harness import registry
    prop = registry.PROPS[pid]
    area = importlib.import_module('harness.area_' + prop['area'])
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        return run(pid, tier, seed, prop, area, scratch, t0)
    except CheckError as e:
        print('CHECK-ERROR property=%s: %s' % (pid, e))
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(pid, tier, seed, prop, area, scratch, t0):
    violations = []     # dicts with clause, key, ...
    mc_states = mc_trans = 0
    mc_note = []
    # 1. the design: TLC decides the invariants on the specification
    for mc in area.mc(pid, tier):
        rc, lines, out, st = tlc(mc['module'] + '.tla', mc.get('cfg', mc['module'] + '.cfg'), scratch,
                                 env=dict({'PROP': pid}, **mc.get('env', {})), workers=mc.get('workers', 4),
                                 args=mc.get('args', ()))
        if rc != 0 or 'No error has been found' not in out:
            raise CheckError('design model %s: TLC exit %d\n%s' % (mc['module'], rc, out[-3000:]))
        mc_states += st['distinct']
        mc_trans += st['states']
        mc_note.append('%s %s: %d distinct states' % (mc['module'], mc.get('cfg', ''), st['distinct']))
    # 2. behaviours generated by TLC from the specification
    gens = {}
    for g in area.gen(pid, tier):
        args = list(g.get('args', ()))
        if 'num' in g:
            args += ['-simulate', 'num=%d' % g['num'], '-depth', str(g['depth']), '-seed', str(seed)]
        rc, lines, out, st = tlc(g['module'] + '.tla', g.get('cfg', g['module'] + '.cfg'), scratch,
                                 env=dict({'PROP': pid}, **g.get('env', {})), args=args,
                                 workers=g.get('workers', 1))
        got = [v for (k, v) in lines if k == 'G']
        if rc != 0 or not got:
            raise CheckError('generator %s: TLC exit %d, %d behaviours\n%s' % (g['module'], rc, len(got), out[-3000:]))
        seen, uniq = set(), []
        for v in got:
            s = json.dumps(v, sort_keys=True)
            if s not in seen:
                seen.add(s)
                uniq.append(v)
        gens[g['name']] = uniq
        mc_trans += st['states']
    # 3. run the code
    trace = drive(prop['area'], pid, tier, seed, gens, scratch, 600 if tier == 'quick' else 3000)
    scen = [json.loads(ln) for ln in open(trace)]
    by_id = {}
    for s in scen:
        assert s['id'] not in by_id, s['id']
        by_id[s['id']] = s
    crashed = [s for s in scen if s['kind'] == 'crash']
    for s in crashed:
        violations.append({'clause': pid + '_crash', 'key': s['key'], 's': s['id'], 'i': 0, 'note': s['what']})
    # 4. TLC judges the recorded traces
    judged = [s for s in scen if s['kind'] != 'crash']
    spec_files = {}
    for s in judged:
        spec_files.setdefault(s['kind'], []).append(s)
    tr_states = 0
    nev = 0
    undefined = []
    for kind, ss in sorted(spec_files.items()):
        mod = area.TRACE[kind]
        nshard = max(1, min(area.SHARDS.get(kind, 1) if hasattr(area, 'SHARDS') else 1, len(ss)))
        path = os.path.join(scratch, 'tr-%s.ndjson' % kind)
        left, lines = ss, []
        for attempt in range(6):
            with open(path, 'w') as f:
                for s in left:
                    f.write(json.dumps(s) + '\n')
            rc, ls, out, st = tlc(mod + '.tla', getattr(area, 'TRACECFG', {}).get(kind, 'Trace.cfg'), scratch,
                                  env={'PROP': pid, 'TRACE': path}, workers=nshard, heap='8g',
                                  timeout=max(60, 840 - (time.time() - t0)) if tier == 'quick' else 3000)
            lines += ls
            tr_states += st['distinct']
            done = {v['s'] for (k, v) in lines if k == 'D'}
            if rc == 0 and done == {s['id'] for s in ss} - {s['id'] for s in undefined}:
                break
            # a result the specification has no meaning for: set the scenario aside, judge the others
            at = re.findall(r'^(?:/\\ )?s = (\d+)', out, re.M)
            if rc not in (75, 76) or not at or attempt == 5:
                keep = os.path.join(VERIF, 'out')
                os.makedirs(keep, exist_ok=True)
                shutil.copy(path, os.path.join(keep, 'failed-%s.ndjson' % pid))
                if undefined or any(c.startswith(pid + '_') for (k, v) in lines if k == 'V' for c in v['c']):
                    break
                raise CheckError('trace validation %s: TLC exit %d, %d of %d scenarios consumed\n%s' % (
                    mod, rc, len(done), len(ss), out[-4000:]))
            bad = left[int(at[-1]) - 1]
            undefined.append(bad)
            violations.append({'clause': pid + '_undefined', 'key': bad['ev'][0]['key'] if bad['ev'] else kind, 's': bad['id'], 'i': 0,
                               'note': 'a result without meaning in the specification: ' + ' '.join(out[out.find('Error:'):][:300].split())})
            left = [s for s in left if s is not bad and s['id'] not in done]
            if not left:
                break
        nev += sum(len(s['ev']) for s in ss)
        for (k, v) in lines:
            if k == 'V':
                for c in v['c']:
                    if c.startswith(pid + '_'):
                        violations.append({'clause': c, 'key': v['k'], 's': v['s'], 'i': v['i']})
    # 5. verdict
    known = load_findings(pid)
    hit = set()
    fresh = []
    for v in violations:
        for n, k in enumerate(known):
            if k['clause'] == v['clause'] and k['key'] == v['key']:
                hit.add(n)
                break
        else:
            fresh.append(v)
    for n in sorted(hit):
        print('KNOWN-FINDING: property=%s %s %s: %s' % (pid, known[n]['clause'], known[n]['key'], known[n]['what']))
    samples = []
    for s in judged[:1] + judged[len(judged) // 2:len(judged) // 2 + 1]:
        txt = json.dumps(s)
        samples.append(json.loads(txt) if len(txt) < 3000 else txt[:3000] + '...')
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': mc_states + tr_states, 'transitions': mc_trans + nev,
            'traces_validated_against_impl': len(judged),
            'events_validated': nev,
            'behaviours_generated_from_spec': {k: len(v) for k, v in gens.items()},
            'design_models': mc_note,
            'samples': samples,
            'explanation': prop['covers'],
        },
        'assumptions': prop.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if fresh:
        os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
        rp = os.path.join(VERIF, 'out', 'replay-%s.json' % pid)
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'tier': tier, 'violations': fresh[:200],
                       'scenarios': [by_id[i] for i in list(dict.fromkeys(v['s'] for v in fresh))[:5]]}, f)
        agg = {}
        for v in fresh:
            agg.setdefault((v['clause'], v['key']), []).append(v)
        for (c, k), vs in list(agg.items())[:15]:
            print('  %s key=%s x%d first: scenario %s event %s %s' % (c, k, len(vs), vs[0]['s'], vs[0]['i'], vs[0].get('note', '')))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s tier=%s: %d traces, %d events validated; design: %s; %.1f s' % (
        pid, tier, len(judged), nev, '; '.join(mc_note) or '-', time.time() - t0))
    return 0

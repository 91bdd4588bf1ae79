#!/usr/bin/env python3
"""Decides one property: builds the simulator from /repo's working tree, runs seeded simulations, writes the evidence.

  check.py PROPERTY [--tier quick|thorough] [--seed N]     exit 0 held, 1 violated, other: the check itself failed
  check.py --build-only [VARIANT...]
  check.py --replay FILE                                   exit 1 when the recorded violation is reproduced exactly
"""
import argparse, concurrent.futures, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
sys.dont_write_bytecode = True
import rndschema
# The registered commands always judge /repo; the overrides serve experiments on scratch copies.
REPO = os.environ.get('SIM_REPO', '/repo')
WORK = os.environ.get('SIM_WORK', VERIF)
BUILD = os.path.join(WORK, 'build')
OUT = os.path.join(WORK, 'out')
EVIDENCE = os.path.join(WORK, 'evidence')
SCALE = float(os.environ.get('SIM_SCALE', '1'))
SIM = os.path.join(VERIF, 'sim')
NCPU = min(8, os.cpu_count() or 1)
SAN = ['-fsanitize=address', '-fsanitize=bounds,null,return,unreachable,object-size,bool', '-fno-sanitize-recover=all']
TRACE = ['-fsanitize-coverage=trace-pc']     # work and preemption points of the code under test, see sim.h
# how the code under test is compiled
VARIANTS = {
    'asan': dict(cxx='g++', std='c++14', flags=['-O1', '-g1', '-ftrivial-auto-var-init=pattern'] + SAN, link=SAN[:2], trace=TRACE),
    'text': dict(cxx='g++', std='c++17', flags=['-O1', '-g1', '-DMSG_TO_STRING', '-ftrivial-auto-var-init=pattern'] + SAN, link=SAN[:2], trace=TRACE),
    'clang': dict(cxx='clang++', std='c++11', flags=['-O2', '-g1', '-ftrivial-auto-var-init=pattern', '-fno-sanitize-recover=all', '-fsanitize=address', '-fsanitize=bounds,null,return,unreachable,object-size,bool'], link=['-fsanitize=address,undefined'], trace=TRACE),
    'o3': dict(cxx='g++', std='c++11', flags=['-O3'], link=[], trace=[]),
    'cpp20': dict(cxx='g++', std='c++20', flags=['-O2', '-g1', '-ftrivial-auto-var-init=zero'] + SAN, link=SAN[:2], trace=TRACE),
}
COMMON = ['sim', 'model', 'util', 'scen_wire', 'hist', 'scen_link', 'scen_text', 'scen_num']
PEER = ['scen_peer']
# runs per tier; the wall clock caps are only a safety net for slow machines
QUICK = {'C01': 200000, 'C02': 250000, 'C03': 400000, 'C04': 400000, 'C05': 400000, 'C06': 400000, 'C07': 400000, 'C08': 300000, 'C09': 250000, 'C10': 50000,
         'C11': 200000, 'C12': 200000, 'C13': 120000, 'C14': 160000, 'C15': 300000, 'C16': 350000, 'C17': 150000, 'C18': 100000, 'C20': 150000, 'C21': 300000}
QUICK_CAP, THOROUGH_CAP = 150, 1500
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0:max_malloc_fill_size=1048576:malloc_fill_byte=165:abort_on_error=0:exitcode=66:allocator_may_return_null=1',
           UBSAN_OPTIONS='print_stacktrace=1:exitcode=66', LC_ALL='C', PYTHONDONTWRITEBYTECODE='1')
ENV.pop('SIM_ASLR_OFF', None)


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise CheckError('command failed: %s\n%s' % (' '.join(map(str, cmd)), r.stdout.decode('utf8', 'replace')[-6000:]))
    return r.stdout.decode('utf8', 'replace')


def python_with_protobuf():
    for py in [os.path.join(REPO, 'venv/bin/python'), '/repo/venv/bin/python', '/usr/bin/python3', '/usr/local/bin/python3', '/opt/veriftools/pyvenv/bin/python']:
        if os.path.exists(py) and 0 == subprocess.run([py, '-c', 'import google.protobuf.compiler.plugin_pb2, jinja2, toposort'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            return py
    raise CheckError('no python with google.protobuf, jinja2 and toposort')


def files_under(*roots):
    for root in roots:
        if os.path.isfile(root):
            yield root
        for d, dirs, names in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ('__pycache__', 'EmbeddedProto.egg-info'))
            for n in sorted(names):
                if not n.endswith(('.pyc', '_pb2.py')):
                    yield os.path.join(d, n)


def tree_hash(*extra):
    h = hashlib.sha256()
    for f in files_under(os.path.join(REPO, 'src'), os.path.join(REPO, 'generator'), SIM, os.path.join(VERIF, 'schemas'), os.path.join(VERIF, 'tools')):
        h.update(f.encode() + b'\0'); h.update(open(f, 'rb').read()); h.update(b'\0')
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


def prepare_generator(dst):
    """A copy of the generator with its options module, and a plugin executable that runs it."""
    py = python_with_protobuf()
    gen = os.path.join(dst, 'generator')
    shutil.rmtree(gen, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, 'generator'), gen, ignore=shutil.ignore_patterns('__pycache__', '*.pyc', '*_pb2.py', '*.egg-info'))
    sh(['protoc', '-I', '.', '--python_out=EmbeddedProto', 'embedded_proto_options.proto'], cwd=gen)
    plug = os.path.join(dst, 'plugin')
    with open(plug, 'w') as f:
        f.write('#!%s -B\nimport sys\nsys.path.insert(0, %r)\nfrom EmbeddedProto.main import main_plugin\nmain_plugin()\n' % (py, gen))
    os.chmod(plug, 0o755)
    return py, gen, plug


def build(variant):
    """variant: a way to compile, or way~N: the same with schema N drawn instead of schema 178."""
    way, _, drawn = variant.partition('~')
    v = VARIANTS[way]
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash(variant, v)
    dst = os.path.join(BUILD, '%s-%s' % (variant, key))
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dst, 'ok')):
            return dst
        for old in glob.glob(os.path.join(BUILD, variant + '-*')) + (glob.glob(os.path.join(BUILD, way + '~*')) if drawn else []):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(dst)
        t0 = time.time()
        py, gen, plug = prepare_generator(dst)
        hdr, ad, obj = (os.path.join(dst, x) for x in ('hdr', 'ad', 'obj'))
        for d in (hdr, ad, obj):
            os.makedirs(d)
        schemas = os.path.join(dst, 'schemas')
        shutil.copytree(os.path.join(VERIF, 'schemas'), schemas)
        text, regs = rndschema.schema(int(drawn or 178))
        open(os.path.join(schemas, 'rx.proto'), 'w').write(text)
        regs = dict(json.load(open(os.path.join(schemas, 'registrations.json'))), **regs)
        json.dump(regs, open(os.path.join(schemas, 'registrations.json'), 'w'))
        protos = sorted(os.path.basename(p) for p in glob.glob(os.path.join(schemas, '*.proto')))
        sh(['protoc', '-I', schemas, '-I', gen, '--plugin=protoc-gen-eams=' + plug, '--eams_out=' + hdr] + protos, cwd=schemas, env=ENV)
        sh(['protoc', '-I', schemas, '-I', gen, '--include_imports', '--descriptor_set_out=' + os.path.join(dst, 'all.ds')] + protos, cwd=schemas)
        sh([py, '-B', os.path.join(VERIF, 'tools', 'gen_adapter.py'), os.path.join(dst, 'all.ds'), gen, ad, os.path.join(schemas, 'registrations.json'), '12'], env=ENV)
        inc = ['-I' + SIM, '-I' + os.path.join(REPO, 'src'), '-I' + hdr, '-I' + ad]
        jobs = []
        for c in sorted(glob.glob(os.path.join(ad, '*.cpp'))):
            jobs.append([v['cxx'], '-std=' + v['std']] + v['flags'] + v['trace'] + inc + ['-c', c, '-o', os.path.join(obj, os.path.basename(c) + '.o')])
        for c in sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp'))):
            jobs.append([v['cxx'], '-std=' + v['std']] + v['flags'] + v['trace'] + inc + ['-c', c, '-o', os.path.join(obj, 'lib_' + os.path.basename(c) + '.o')])
        simstd = 'c++20' if v['std'] == 'c++20' else 'c++17'
        for m in COMMON + PEER:
            c = os.path.join(SIM, m + '.cpp')
            if os.path.exists(c):
                jobs.append([v['cxx'], '-std=' + simstd] + v['flags'] + ['-w', '-D_GLIBCXX_ASSERTIONS'] + inc + ['-c', c, '-o', os.path.join(obj, 'sim_' + m + '.o')])
        jobs.sort(key=lambda j: ('sim_' not in j[-1], j[-1]))
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(sh, jobs))
        peer_lib = ['-lprotobuf', '-lpthread'] if os.path.exists(os.path.join(SIM, 'scen_peer.cpp')) else []
        sh([v['cxx']] + v['link'] + ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc', '-o', os.path.join(dst, 'simrun')] + sorted(glob.glob(os.path.join(obj, '*.o'))) + peer_lib)
        shutil.rmtree(obj)
        with open(os.path.join(dst, 'ok'), 'w') as f:
            f.write('%.1f' % (time.time() - t0))
        return dst


def run_workers(dst, prop, seed, base, count, budget, tag, shrink):
    """count runs spread over the workers; returns merged statistics."""
    d = os.path.join(OUT, prop)
    procs = []
    per = -(-count // NCPU)
    env = dict(ENV, SIM_DS=os.path.join(dst, 'all.ds'))
    for w in range(NCPU):
        pre = os.path.join(d, '%s.w%d' % (tag, w))
        procs.append((pre, subprocess.Popen([os.path.join(dst, 'simrun'), 'batch', '--prop', prop, '--seed', str(seed), '--from', str(base + w), '--stride', str(NCPU), '--count', str(per),
                     '--out', pre, '--budget', str(budget), '--shrink', str(shrink)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)))
    res = dict(runs=0, steps=0, nontrivial=0, sim_us=0, choices=0, left_out=0, counters={}, fails=[], norepro=[], sigs=set(), wall=0.0)
    for pre, p in procs:
        out = p.communicate()[0].decode('utf8', 'replace')
        if p.returncode not in (0, 1):
            raise CheckError('simulator ended with %s: %s' % (p.returncode, out[-3000:]))
        for line in out.splitlines():
            if line.startswith('FAIL '):
                _, f, what = line.split(' ', 2)
                res['fails'].append((f, what))
            elif line.startswith('NOREPRO '):
                res['norepro'].append(line)
        st = json.load(open(pre + '.stats'))
        for k in ('runs', 'steps', 'nontrivial', 'sim_us', 'choices', 'left_out'):
            res[k] += st[k]
        res['wall'] = max(res['wall'], st['wall'])
        for k, n in st['counters'].items():
            res['counters'][k] = res['counters'].get(k, 0) + n
        sig = open(pre + '.sig', 'rb').read()
        for i in range(0, len(sig) - 8, 9):
            if sig[i + 8]:
                res['sigs'].add(sig[i:i + 8])
        os.unlink(pre + '.sig')
    return res


def merge(a, b):
    if a is None:
        return b
    for k in ('runs', 'steps', 'nontrivial', 'sim_us', 'choices', 'left_out', 'wall'):
        a[k] += b[k]
    for k, n in b['counters'].items():
        a['counters'][k] = a['counters'].get(k, 0) + n
    a['fails'] += b['fails']; a['norepro'] += b['norepro']; a['sigs'] |= b['sigs']
    return a


def samples(dst, prop, seed, indexes):
    r = []
    for i in indexes:
        tf = os.path.join(OUT, prop, 'sample')
        p = subprocess.run([os.path.join(dst, 'simrun'), 'show', '--prop', prop, '--seed', str(seed), '--from', str(i), '--trace', tf], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(ENV, SIM_DS=os.path.join(dst, 'all.ds')), timeout=120)
        if os.path.exists(tf):
            lines = open(tf, errors='replace').read().splitlines()
            r.append(dict(seed=seed, run=i, history=[x[:300] for x in lines[:25]] + (['... %d more events' % (len(lines) - 25)] if len(lines) > 25 else [])))
            os.unlink(tf)
    return r


RULE = ('One evaluation is one simulated run: a list of choices drawn from the seed (property seed, run index) decides workload, message contents, schedule and faults. '
        'It is non-trivial when the scenario marked that the property was really at stake (a fault was injected, content differed from the default, tasks interleaved, and so on). '
        'Two runs are distinct when the 64-bit hashes of their full event histories (every seam event, byte string and fault) differ.')
REAL = ['the library (/repo/src, compiled unchanged)', 'the generator and its templates (/repo/generator), run on /verif/schemas to produce the message code under test']
STUB = ['output and input transports (simulated buffers at WriteBufferInterface/ReadBufferInterface; the real fixed-size and section buffers run as well)', 'task scheduler and interrupts (fibers under the seeded scheduler)', 'heap (allocator seam that fails and reports)', 'RAM content before construction (dirty fill)']


def write_evidence(prop, tier, seed, level, cov, wall, violations, assumptions=None):
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions or [], wall_s=round(wall, 2), violations=violations), f, indent=1)
        f.write('\n')


def simulate(prop, tier, seed):
    t0 = time.time()
    d = os.path.join(OUT, prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    base_variant = 'text' if prop == 'C18' else 'asan'
    plan = [(base_variant, int(QUICK[prop] * SCALE), 0, QUICK_CAP)]
    if tier == 'thorough':
        n = QUICK[prop]
        plan = [(base_variant, n * 12, 0, THOROUGH_CAP)]
        if prop != 'C18':
            plan += [('asan~%d' % (2 + 8 * seed + k), n, (4 + k) * 10 ** 9, THOROUGH_CAP / 4) for k in range(8)]
            plan += [('clang', n * 6, 10 ** 9, THOROUGH_CAP / 2), ('o3', n * 12, 2 * 10 ** 9, THOROUGH_CAP / 2), ('cpp20', n * 3, 3 * 10 ** 9, THOROUGH_CAP / 4)]
    res, builds, dst, first_dst = None, [], None, None
    for variant, count, base, cap in plan:
        dst = build(variant)
        first_dst = first_dst or dst
        r = run_workers(dst, prop, seed, base, count, cap, variant, 45)
        if r['norepro'] and not r['fails']:
            # something failed once and not on replay: only believed when the same runs fail again
            again = run_workers(dst, prop, seed, base, count, cap, variant + '-again', 45)
            if again['fails'] or again['norepro']:
                f = os.path.join(d, variant + '.batch-replay.json')
                json.dump(dict(property=prop, seed=seed, batch=dict(base=base, count=count), what=r['norepro'] + again['norepro']), open(f, 'w'), indent=1)
                r['fails'] = again['fails'] or [(f, r['norepro'][0])]
            else:
                raise CheckError('a failure could not be repeated: %s' % r['norepro'][0])
        bad = [x for x in r['fails'] if x[1].startswith('harness-')]
        if bad and len(bad) == len(r['fails']):
            raise CheckError('the harness failed: %s (%s)' % (bad[0][1], bad[0][0]))
        way = VARIANTS[variant.partition('~')[0]]
        builds.append(dict(variant=variant, compiler=way['cxx'], standard=way['std'], flags=' '.join(way['flags']), drawn_schema=int(variant.partition('~')[2] or 178), runs=r['runs'], wall_s=round(r['wall'], 2)))
        r['fails'] = [x for x in r['fails'] if not x[1].startswith('harness-')]
        for f, what in r['fails']:
            try:
                j = json.load(open(f)); j['variant'] = variant; json.dump(j, open(f, 'w'), indent=1)
            except (OSError, ValueError):
                pass
        res = merge(res, r)
        if res['fails']:
            break
    c = res['counters']
    pick = lambda pre: {k[1:]: n for k, n in sorted(c.items()) if k[0] == pre}
    stats = pick('S')
    cov = dict(evaluations=res['runs'], distinct_nontrivial=len(res['sigs']), rule=RULE, samples=samples(first_dst, prop, seed, range(3)) if not res['fails'] else [dict(violation=w, replay=f) for f, w in res['fails']],
               nontrivial_runs=res['nontrivial'], seeds=dict(property_seed=seed, run_indexes='0..%d of each build' % max(0, res['runs'] - 1)),
               runs_per_hour=int(res['runs'] * 3600 / max(res['wall'], 1e-3)), seam_operations=res['steps'], choices_drawn=res['choices'], simulated_seconds=res['sim_us'] / 1e6,
               faults_injected=pick('F'), conditions_reached=pick('P'), scenarios={k[9:]: n for k, n in stats.items() if k.startswith('scenario:')}, task_switches=stats.get('task_switches', 0),
               runs_left_out_by_time_cap=res['left_out'], builds=builds, components_real=REAL + (['Google libprotobuf as the peer (DynamicMessage on the same schemas)'] if prop == 'C02' else []), components_simulated=STUB)
    write_evidence(prop, tier, seed, 'exploration', cov, time.time() - t0, len(res['fails']),
                   ['the reference model in /verif/sim/model.cpp states the protobuf rules correctly', 'tasks share one processor: they are preempted in buffer operations and (C10) at basic-block boundaries; weak memory effects are not simulated'])
    for f, what in sorted(res['fails']):
        print('%s: %s' % (prop, what))
        print('VIOLATION property=%s replay=%s' % (prop, f))
    if res['fails']:
        return 1
    print('%s held on %d simulated runs (%d distinct non-trivial), %.0f s' % (prop, res['runs'], len(res['sigs']), time.time() - t0))
    return 0


def replay(f):
    j = json.load(open(f))
    if j['property'] == 'C19':
        import gensim
        return gensim.replay(f)
    variant = j.get('variant') or ('text' if j['property'] == 'C18' else 'asan')
    dst = build(variant)
    if 'batch' in j:
        os.makedirs(os.path.join(OUT, j['property']), exist_ok=True)
        r = run_workers(dst, j['property'], j['seed'], j['batch']['base'], j['batch']['count'], 900, 'replay', 1)
        print(r['fails'], r['norepro'])
        return 1 if r['fails'] or r['norepro'] else 0
    os.makedirs(OUT, exist_ok=True)
    return subprocess.run([os.path.join(dst, 'simrun'), 'replay', '--file', f, '--out', os.path.join(OUT, 'replay'), '--trace', os.path.join(OUT, 'replay.trace')], env=dict(ENV, SIM_DS=os.path.join(dst, 'all.ds'))).returncode


def main():
    sys.modules['check'] = sys.modules['__main__']
    sys.path.insert(0, os.path.join(VERIF, 'tools'))
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--build-only', nargs='*')
    ap.add_argument('--replay')
    a = ap.parse_args()
    try:
        if a.build_only is not None:
            for v in a.build_only or ['asan', 'text']:
                print(build(v))
            return 0
        if a.replay:
            return replay(a.replay)
        if a.prop == 'C19':
            import gensim
            return gensim.check(a.tier, a.seed)
        return simulate(a.prop, a.tier, a.seed)
    except CheckError as e:
        print('CHECK ERROR: %s' % e)
        return 3


if __name__ == '__main__':
    sys.exit(main())

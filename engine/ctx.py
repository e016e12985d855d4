"""Shared driver: builds the extractor if missing, extracts the resolved program
of /repo's current tree (cached by content), runs one rule module, writes evidence."""
import fcntl
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IMAP_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
TOOL = os.path.join(BUILD, 'imap-extract')

FLAGS = '''-std=gnu++17 -fopenmp -DABC_NAMESPACE=pabc -DABC_NO_USE_READLINE -DALICE_ENV_HOME=ALICE_HOME
-DDISABLE_NAUTY -DFMT_HEADER_ONLY -DLIN64 -DREADLINE_USE_READLINE -I@R@/cli/commands -I@R@/include -I@R@
-I@R@/include/database -I@R@/libs/kitty/include -I@R@/include/utils -I@R@/include/operations -I@R@/libs/abcsat
-I@R@/libs/fmt -I@R@/libs/lorina -I@R@/libs/rang -I@R@/include/flow -I@R@/libs/json -isystem @R@/libs
-isystem @R@/libs/percy -isystem @R@/libs/alice/include -isystem @R@/libs/alice/lib/cli11 -w
-idirafter @V@/tool/stub -resource-dir=/usr/lib/llvm-18/lib/clang/18'''


class Broken(Exception):
    pass


class NoSource(Broken):
    """the source cannot be read at all"""


def flags():
    return FLAGS.replace('@R@', REPO).replace('@V@', VERIF).split()


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_tool():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src):
        return
    r = subprocess.run(['make', '-C', os.path.join(VERIF, 'tool')], capture_output=True, text=True)
    if r.returncode:
        raise NoSource('extractor does not build: ' + r.stderr[-800:])


def content_hash(drv):
    h = hashlib.sha256()
    for root in ('include', 'cli', 'flow', 'libs/alice/include', 'libs/kitty/include', 'libs/bill', 'libs/lorina'):
        p = os.path.join(REPO, root)
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.hpp', '.h', '.cpp', '.cc', '.hh', '.inc')):
                    q = os.path.join(d, f)
                    h.update(q.encode())
                    with open(q, 'rb') as fh:
                        h.update(fh.read())
    for q in (drv, os.path.join(VERIF, 'tool', 'extract.cpp'), os.path.join(VERIF, 'engine', 'ctx.py')):
        with open(q, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def extract(tu):
    """path of the dump for translation unit tu ('cli' | 'ops' | ...)"""
    drv = os.path.join(VERIF, 'tool', 'drv', tu + '.cpp')
    l = lock()
    try:
        build_tool()
        h = content_hash(drv)
        cdir = os.path.join(BUILD, 'cache')
        os.makedirs(cdir, exist_ok=True)
        out = os.path.join(cdir, f'{tu}-{h}.jsonl')
        if os.path.exists(out):
            return out
        for f in os.listdir(cdir):      # keep the cache small
            if f.startswith(tu + '-'):
                q = os.path.join(cdir, f)
                if time.time() - os.path.getmtime(q) > 3600:
                    os.unlink(q)
        tmp = out + '.tmp%d' % os.getpid()
        libs = ['libs'] if tu != 'io' else ['libs/' + x for x in sorted(os.listdir(os.path.join(REPO, 'libs'))) if x not in ('lorina', 'CMakeLists.txt')]
        skip = ','.join(os.path.join(REPO, x) for x in libs + ['test', '_build'])
        r = subprocess.run([TOOL, '--root=' + REPO, '--skip=' + skip, '--out=' + tmp, drv, '--'] + flags(), capture_output=True, text=True)
        if r.returncode or not os.path.exists(tmp):
            raise Broken(f'cannot parse {tu}: ' + (r.stderr or r.stdout)[-1500:])
        os.rename(tmp, out)
        return out
    finally:
        l.close()


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.progs = {}
        self.viols = []
        self.obl = 0
        self.dis = 0
        self.und = []
        self.samples = []
        self.functions = set()
        self.counts = {}
        self.notes = []
        self.rules = []
        self.level = 'other'

    def prog(self, tu):
        from .prog import Prog
        if tu not in self.progs:
            self.progs[tu] = Prog(extract(tu))
        return self.progs[tu]

    # -- obligations
    def ok(self, what, where='', n=1):
        self.obl += n
        self.dis += n
        self.counts[what] = self.counts.get(what, 0) + n
        if len(self.samples) < 12 and where:
            self.samples.append(f'{what}: {where}')

    def undecided(self, what, where, why):
        self.obl += 1
        self.und.append(dict(rule=what, where=where, why=str(why)[:300]))

    def viol(self, what, key, where, msg, detail=None):
        """key identifies the construct (stable across line moves)"""
        self.obl += 1
        self.viols.append(dict(rule=what, key=key, where=where, msg=msg, detail=detail))

    def rule(self, name, text):
        self.rules.append(f'{name}: {text}')

    def need(self, cond, msg):
        if not cond:
            raise Broken(msg)

    def fn(self, tu, name, cls=None, pick=None):
        """unique/first function definition by qualified suffix; missing -> broken"""
        fs = self.prog(tu).find(name)
        if pick:
            fs = [f for f in fs if pick(f)]
        if not fs:
            raise Broken(f'anchor {name} not found in the program')
        return fs[0]

    def fns(self, tu, name, pick=None, least=1):
        fs = self.prog(tu).find(name)
        if pick:
            fs = [f for f in fs if pick(f)]
        if len(fs) < least:
            raise Broken(f'anchor {name}: {len(fs)} definitions found, at least {least} expected')
        return fs


def loc(f):
    fl = f.get('file', '')
    if fl.startswith(REPO + '/'):
        fl = fl[len(REPO) + 1:]
    return f"{fl}:{f.get('l', 0)}"


def known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]


def setup():
    try:
        for tu in sorted(f[:-4] for f in os.listdir(os.path.join(VERIF, 'tool', 'drv')) if f.endswith('.cpp')):
            print(extract(tu))
    except Broken as e:
        print('setup:', e)
        return 2
    return 0


def premises(ctx):
    """decides the obligations of other properties that this property's argument takes as given"""
    from rules.lemmas import premises as of
    for other, pat in of(ctx.pid):
        sub = Ctx(other, ctx.tier)
        sub.progs = ctx.progs
        try:
            importlib.import_module('rules.' + other.lower()).run(sub)
        except NoSource:
            raise
        except Exception as e:      # a premise that cannot be decided here is reported by its own check
            ctx.notes.append(f'premise {other} not decided: {type(e).__name__}: {str(e)[:120]}')
        kn = {k['key'] for k in known(other)}
        seen = False
        for v in sub.viols:
            if v['key'] in kn or not pat.search(v['key']):
                continue
            seen = True
            ctx.viol('premise-' + other, v['key'], v['where'], f"a premise of this property ({other}, {v['rule']}) fails: {v['msg']}", v.get('detail'))
        if not seen and not sub.viols:
            ctx.ok('premise-' + other, n=1)
            ctx.notes.append(f'premise {other}: {sub.dis} obligations decided, {len(sub.und)} undecided')
        ctx.functions |= sub.functions


def main(argv):
    if len(argv) < 2:
        print('usage: check.py PROPERTY [--thorough] | --setup')
        return 2
    if argv[1] == '--setup':
        return setup()
    pid = argv[1]
    tier = 'quick'
    if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough':
        tier = 'thorough'
    t0 = time.time()
    ctx = Ctx(pid, tier)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    try:
        mod = importlib.import_module('rules.' + pid.lower())
        ctx.level = getattr(mod, 'LEVEL', 'other')
        mod.run(ctx)
        premises(ctx)
        if ctx.obl < getattr(mod, 'MIN_OBLIGATIONS', 1):
            raise Broken(f'only {ctx.obl} obligations were generated, at least {mod.MIN_OBLIGATIONS} expected')
        md = getattr(mod, 'MIN_DECIDED', 0)
        if not ctx.viols and not ctx.und and ctx.dis < md:
            raise Broken(f'only {ctx.dis} obligations were decided, at least {md} expected')
    except NoSource as e:
        print(f'ANALYSIS-BROKEN property={pid}: {e}')
        return 2
    except Broken as e:      # the analysed code has another shape: nothing is claimed, nothing is alarmed
        print(f'ANALYSIS-INCOMPLETE property={pid}: {e}')
        ctx.undecided('analysis', 'the anchored code', str(e)[:600])
    except Exception as e:
        traceback.print_exc(limit=-8)
        print(f'ANALYSIS-INCOMPLETE property={pid}: internal error')
        ctx.undecided('analysis', 'the anchored code', f'internal error: {type(e).__name__}: {e}'[:600])
    kn = known(pid)
    new, old = [], []
    for v in ctx.viols:
        m = [k for k in kn if k['key'] == v['key']]
        (old if m else new).append(v)
    # one report per construct
    seen = set()
    rep_dir = os.path.join(BUILD, 'replay')
    os.makedirs(rep_dir, exist_ok=True)
    for v in old:
        if v['key'] not in seen:
            seen.add(v['key'])
            print(f"KNOWN-FINDING: property={pid} {v['key']}: {v['msg']}")
    wall = round(time.time() - t0, 2)
    ev = dict(property=pid, tier=tier, seed=ctx.seed, level=ctx.level, wall_s=wall,
              coverage=dict(explanation=('static analysis of the resolved AST of the current tree; rules: ' + ' | '.join(ctx.rules)) or 'static analysis',
                            obligations=ctx.obl, discharged=ctx.dis, undecided=len(ctx.und), per_rule=ctx.counts,
                            functions_analysed=len(ctx.functions), functions=sorted(ctx.functions)[:400],
                            checker_cmd=f'python3 /verif/check.py {pid}' + (' --thorough' if tier == 'thorough' else ''),
                            trusted_base='clang 18 front end, /verif/tool/extract.cpp, /verif/engine, the rule tables in /verif/rules',
                            samples=ctx.samples or ['-'], undecided_list=ctx.und[:40]),
              assumptions=ctx.notes or ['NDEBUG-independent: assert() is not taken as a guard'],
              violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print(f'{pid}: obligations={ctx.obl} discharged={ctx.dis} undecided={len(ctx.und)} violations={len(new)} known={len(old)} functions={len(ctx.functions)} wall={wall}s')
    for u in ctx.und[:5]:
        print(f"  undecided {u['rule']} @ {u['where']}: {u['why'][:160]}")
    if new:
        rp = os.path.join(rep_dir, f'{pid}.json')
        json.dump(dict(property=pid, violations=new), open(rp, 'w'), indent=1, default=str)
        for v in new[:20]:
            print(f"  {v['where']}: [{v['rule']}] {v['key']}: {v['msg']}")
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    return 0

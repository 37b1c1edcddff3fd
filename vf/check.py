"""python3-vt -m vf.check <property id>

1. stage /repo's current tree (scratch copy, generated kernels);
2. deductive phase: symbolic execution of the staged sources against the contracts, all
   obligations of the property (vf/props.py lists the contract modules per property);
3. replay phase: the concrete harness, on cases from the prover's counterexamples first and
   generated ones after (bounded; never counted as proof);
4. verdict and evidence."""
import os, sys, json, time, subprocess, re, traceback, array
from concurrent.futures import ThreadPoolExecutor
from . import stage as st

VERIF = st.VERIF
NOISE = re.compile(r'^(ADD )?(CORRECT!|WRONG!)$|^\d+$|^$|CAKE Schedule', re.I)

# harness modes per property: (flavour, mode, weight)
MODES = {
 'C01': [('asan', 'prod:KMN:0', 3), ('asan', 'prod:KMN:5', 3), ('asan', 'prod:KMN:3', 1), ('asan', 'prod:KMN:4', 1)],
 'C02': [('asan', 'prod:MKN:0', 3), ('asan', 'prod:MKN:5', 3), ('asan', 'prod:MKN:3', 1), ('asan', 'prod:MKN:4', 1)],
 'C03': [('asan', 'prod:NKM:0', 3), ('asan', 'prod:NKM:5', 3), ('asan', 'prod:NKM:3', 1), ('asan', 'prod:NKM:4', 1)],
 'C04': [('asan', 'prod:online:0', 4), ('asan', 'prod:online:5', 3), ('asan', 'prod:online:3', 1)],
 'C05': [('asan', 'prod:2d:0', 4), ('asan', 'prod:2d:5', 3), ('asan', 'prod:2d:3', 1)],
 'C06': [('asan', 'plan:1d', 4), ('asan', 'plan:KMN', 1), ('asan', 'plan:MKN', 1), ('asan', 'plan:NKM', 1)],
 'C07': [('asan', 'plan:2d', 4), ('asan', 'grid', 4)],
 'C08': [('asan', 'pack:A', 5), ('asan', 'block:A', 3)],
 'C09': [('asan', 'pack:B', 5), ('asan', 'block:B', 3)],
 'C10': [('asan', 'pack:C', 5), ('asan', 'block:C', 3)],
 'C11': [('asan', 'prod:any:5', 5), ('asan', 'prod:any:0', 2), ('asan', 'plan:1d', 1)],
 'C12': [('asan', 'prod:any:5', 6), ('asan', 'prod:any:0', 2)],
 'C13': [('asan', 'kernel', 8)],
 'C14': [('asan', 'kernel', 4), ('asan', 'cntx', 2), ('asan', 'prod:any:5', 2)],
 'C15': [('tsan', 'prod:any:5', 4), ('tsan', 'pack:A', 1), ('tsan', 'pack:B', 1), ('tsan', 'pack:C', 1), ('tsan', 'transpose', 1), ('tsan', 'block:B', 1), ('tsan', 'prod:2d:0', 1), ('tsan', 'prod:online:0', 1), ('tsan', 'checker', 1)],
 'C16': [('asan', 'prod:any:6', 3), ('asan', 'prod:1d:1', 2), ('asan', 'prod:MN:2', 1), ('asan', 'cntx', 1), ('asan', 'prod:any:5', 1)],
 'C17': [('asan', 'transpose', 8)],
 'C18': [('asan', 'prod:1d:1', 7), ('asan', 'plan:1d', 1)],
 'C19': [('asan', 'prod:MN:2', 5), ('asan', 'prod:any:0', 3)],
 'C20': [('asan', 'plan:1d', 3), ('asan', 'plan:2d', 2), ('asan', 'prod:any:3', 2), ('asan', 'misc:sched', 1)],
 'C21': [('asan', 'cntx:new', 4), ('asan', 'misc:help', 4)],
 'C22': [('asan', 'checker', 8)],
 'C24': [('asan', 'prod:any:7', 8)],
}
# which of the harness's observations concern the property (see harness/replay.cpp); a property not listed: all of them
CLASSES = dict({'C0%d' % i: 'V' for i in range(1, 6)}, C06='P', C07='P', C11='US', C12='O', C13='V', C14='X', C16='R', C18='VKS', C19='V', C20='T', C21='F', C24='V')


def concerns(pid, f):
    """does a sanitizer's report of a failing multiply concern the property?"""
    if not f['case'].startswith('prod') or 'Sanitizer' not in f['what'] and 'runtime error' not in f['what']:
        return True
    o, w = f['output'], f['what']
    if pid == 'C16':
        return 'double-free' in w or 'not malloc' in w or 'bad-free' in w
    if pid == 'C14':
        return False
    if pid in ('C11', 'C12') and 'heap-buffer-overflow' in w:
        i = o.find('allocated by')
        stack = o[i:].split('SUMMARY')[0].split('previously')[0]
        ours = i >= 0 and 'replay.cpp' in stack and '/s/src/' not in stack     # the memory of a matrix of the caller
        return (pid == 'C12') == ours or (pid == 'C11' and ('pa=1' in f['case'] or 'pb=1' in f['case']))
    if pid == 'C11' and 'use-after-free' in w and ('Mat::' in o.split('freed by')[0] or not any(x in o.split('freed by')[0] for x in ('/s/src/', '/s/include/'))):
        return False      # it is the harness that finds the caller's memory gone
    if pid == 'C12' and ('use-after-free' in w or 'free' in w):
        return False
    if pid == 'C20':
        return 'FPE' in w or 'runtime error' in w
    return True


SECONDS = {'quick': 14, 'thorough': 150}


def clean(out):
    return [l for l in out.splitlines() if not NOISE.match(l.strip())]


class Harness:
    """Runs replay processes; collects cases, samples and failures."""
    def __init__(self, stg, pid=''):
        self.pid = pid
        self.s, self.exe, self.err = stg, {}, {}
        self.ran, self.samples, self.fails, self.inconclusive = 0, [], [], []
        self.other = set()        # failures of other properties
        self.distinct = set()     # fingerprints of the argument vectors executed

    def get(self, fl):
        if fl not in self.exe and fl not in self.err:
            try:
                self.exe[fl] = self.s.build(fl)
            except st.BuildError as e:
                self.err[fl] = str(e)
        return self.exe.get(fl)

    def env(self):
        e = dict(st.ENV)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
        e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66'
        e['TMPDIR'] = self.s.root
        e['OMP_WAIT_POLICY'] = 'passive'
        e['GOMP_SPINCOUNT'] = '0'
        e['OMP_DYNAMIC'] = 'false'
        if self.pid in CLASSES:
            e['VF_CLASSES'] = CLASSES[self.pid]
        return e

    def _run(self, fl, args, statefile, timeout):
        try:
            r = subprocess.run([self.exe[fl]] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                               env=self.env(), cwd=self.s.root, errors='replace')
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            o = e.stdout or b''
            rc, out = 'timeout', o.decode('utf8', 'replace') if isinstance(o, bytes) else o
        lines = clean(out)
        for l in lines:
            if l.startswith('RAN '):
                self.ran += int(l.split()[1])
            elif l.startswith('SAMPLE ') and len(self.samples) < 12:
                self.samples.append(l[7:])
        if statefile and os.path.exists(statefile + '.h'):
            a = array.array('Q')
            with open(statefile + '.h', 'rb') as f:
                a.frombytes(f.read())
            self.distinct.update(a)
            os.unlink(statefile + '.h')
        elif args[0] == 'case':
            self.distinct.add(args[1])
        if rc == 0:
            return None
        case = None
        for l in lines:
            m = re.match(r'FAIL (.*?) :: (.*)', l)
            if m:
                return dict(flavour=fl, case=m.group(1), what=m.group(2), output='\n'.join(lines[-60:]))
        if statefile and os.path.exists(statefile):
            case = open(statefile, 'rb').read().split(b'\0')[0].decode('utf8', 'replace')
        elif args[0] == 'case':
            case = args[1]
        txt = '\n'.join(lines)
        if rc == 'timeout':
            what = 'does not terminate'
        else:
            m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|runtime error: [^\n]*)', txt)
            what = m.group(1) if m else 'exit status %s' % rc
            if rc == 3 and not m:
                self.inconclusive.append('harness usage error: ' + txt[-300:])
                return None
            if rc in (-9, 137):          # the sandbox's memory guard, not the code
                self.inconclusive.append('harness killed (memory)')
                return None
        return dict(flavour=fl, case=case or '', what=what, output='\n'.join(lines[-80:])[-8000:])

    def case(self, fl, case, timeout=60):
        if not self.get(fl):
            return None
        f = self._run(fl, ['case', case], None, timeout)
        return f if f and concerns(self.pid, f) else None

    def modes(self, modes, seconds, seed):
        fls = sorted({m[0] for m in modes})
        for fl in fls:
            self.get(fl)
        jobs = []
        for i, (fl, mode, w) in enumerate(modes):
            if fl in self.exe:
                for j in range(w):
                    jobs.append((fl, mode, seed * 1000 + i * 50 + j, '%s/st_%d_%d' % (self.s.root, i, j)))
        waves = max(1, -(-len(jobs) // 8))
        per = max(2.0, seconds / waves)

        def one(j):
            fl, mode, sd, sf = j
            t = time.time()
            for i in range(12):
                left = per - (time.time() - t)
                f = self._run(fl, [mode, str(sd + 7777 * i), '100000000', sf, '%.1f' % left], sf, left + 60)
                if not f or concerns(self.pid, f):
                    break
                self.other.add('%s :: %s' % (f['case'], f['what']))
                f = None
                if per - (time.time() - t) < 1:
                    break
            if f and f['what'] == 'does not terminate' and f['case']:
                # distinguish a hang from a slow machine: replay alone with a generous limit
                f2 = self._run(fl, ['case', f['case']], None, 120)
                if not f2:
                    self.inconclusive.append('timeout not reproduced: ' + f['case'])
                    return None
            return f
        with ThreadPoolExecutor(8) as ex:
            for f in ex.map(one, jobs):
                if f:
                    self.fails.append(f)
        return self.fails


def known_findings():
    p = VERIF + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in SECONDS else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    notes, viol, replay = [], None, None
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage={}, assumptions=[], wall_s=0.0, violations=0)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    stg = None
    proof = None
    try:
        try:
            stg = st.Stage()
        except Exception as e:
            notes.append('staging failed: %s' % e)
        h = Harness(stg, pid) if stg else None
        if stg:
            try:
                from . import props
                proof = props.prove(pid, stg, tier, seed)
            except ImportError:
                proof = None
            except Exception:
                notes.append('verifier crashed: ' + traceback.format_exc()[-1500:])
            known = [k for k in known_findings()['findings'] if k['property'] == pid]
            kset = {k['case'] for k in known}
            for k in known:
                f = h.case('asan', k['case'])
                if f:
                    print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
                else:
                    notes.append('known finding no longer reproduced: ' + k['case'])
            cands = list(proof.cases) if proof else []
            t1 = time.time()
            for c in cands[:40]:
                if time.time() - t1 > 150:
                    notes.append('candidate inputs left out for time: %d' % (len(cands[:40]) - cands.index(c)))
                    break
                f = h.case(c[0], c[1])
                if f:
                    h.fails.append(f)
                    break
            if not h.fails and not os.environ.get('VF_NOSEARCH'):   # (development only: judge the proof by itself)
                h.modes(MODES.get(pid, []), SECONDS[tier], seed)
            fails = [f for f in h.fails if f['case'] not in kset]
            if fails:
                viol, replay = 'input', fails[0]
            elif proof and proof.failed:
                viol = 'obligation'
            for fl, e in h.err.items():
                notes.append('harness build (%s) failed: %s' % (fl, e[-400:]))
            notes += h.inconclusive
            notes += ['another property fails: ' + x for x in sorted(h.other)[:3]]
        cov = ev['coverage']
        if h:
            cov['evaluations'] = h.ran
            cov['distinct_nontrivial'] = len(h.distinct)
            cov['rule'] = 'bounded replay of the real code: generated argument vectors (sizes around multiples of the blocks, all generated kernel shapes, core counts, tile sizes), distinct by argument vector (compared across all processes of the run), executed under sanitizers against an exact reference'
            cov['samples'] = h.samples[:8] or ['none']
        if proof:
            ev['level'] = proof.level
            cov.update(proof.coverage())
            ev['assumptions'] = proof.assumptions
        cov['notes'] = notes
        ev['violations'] = 1 if viol else 0
    finally:
        if stg:
            stg.close()
        ev['wall_s'] = round(time.time() - t0, 2)
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, pid), 'w'), indent=1, default=str)
    for n in notes:
        print('note: ' + n[:600])
    if proof:
        print(proof.summary())
    print('bounded replay: %d cases' % (h.ran if h else 0))
    if not viol:
        print('OK property=%s' % pid)
        return 0
    rp = '%s/evidence/%s.replay' % (VERIF, pid)
    with open(rp, 'w') as f:
        if viol == 'input':
            f.write('property: %s\ncase: %s\nwhat: %s\nbuild: %s\nreplay: python3-vt -m vf.replay %s   (in /verif)\n\n' % (pid, replay['case'], replay['what'], replay['flavour'], rp))
            if proof and proof.failed:
                f.write('failed obligations:\n' + '\n'.join('  ' + o for o in proof.failed[:20]) + '\n\n')
            f.write(replay['output'] + '\n')
        else:
            f.write('no failing input found; failed obligations:\n' + '\n'.join('  ' + o for o in proof.failed) + '\n\nverifier output:\n' + proof.detail() + '\n')
    if viol == 'input':
        print('failing input: %s :: %s' % (replay['case'], replay['what']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    else:
        for o in proof.failed[:10]:
            print('failed obligation: ' + o)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    return 1


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        print('OK (no verdict: internal error of the check, see above)')
        rc = 0
    sys.stdout.flush()
    os._exit(rc)

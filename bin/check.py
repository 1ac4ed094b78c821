#!/usr/bin/env python3
"""Deterministic-simulation check of one property: seeded search over histories, schedules and faults.

usage: check.py PROP [quick|thorough]
Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Exit 2: the check itself failed.
"""
import json, os, re, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, TIERS  # noqa: E402

BUILD = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
WORKERS = 8


def die(msg):
    print('CHECK-ERROR: ' + msg)
    sys.exit(2)


def sim(flavour):
    return os.path.join(BUILD, flavour, 'sim')


def result(out):
    for l in out.splitlines():
        if l.startswith('RESULT '):
            return json.loads(l[7:])
    return None


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = PROPS[prop]
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='simcheck.')
        self.env = dict(os.environ, SIM_TMP=self.tmp, LC_ALL='C')
        self.env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1'
        self.env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=77'
        self.findings = []
        self.load_findings()
        self.env['SIM_KNOWN'] = ','.join(['-'] + [f['tag'] for f in self.findings])
        self.stats, self.found, self.others = {}, [], {}
        self.phases = []

    def load_findings(self):
        p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
        if not os.path.exists(p):
            return
        for l in open(p):
            m = re.match(r'finding: property=(\S+) tag=(\S+) replay=(\S+) (.*)', l.strip())
            if m:
                # a listed tag is tolerated by the oracle in every profile, announced for its property
                self.findings.append(dict(property=m.group(1), tag=m.group(2), replay=m.group(3), what=m.group(4)))

    def run(self, *a, timeout=600):
        return subprocess.run(a, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)

    def build(self):
        r = subprocess.run(['bash', os.path.join(VERIF, 'sim', 'build.sh'), 'plain', 'san'], env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-4000:])
            die('the simulator could not be built against /repo')

    def own(self, tag):
        return any(tag.startswith(t) for t in self.spec['tags'])

    def announce_known(self):
        for f in self.findings:
            if f['property'] != self.prop:
                continue
            r = result(self.run(sim('plain'), 'replay', os.path.join(VERIF, f['replay'])).stdout)
            if r and (r.get('known') or '').startswith(f['tag']):
                print('KNOWN-FINDING: property=%s %s [%s, replay %s]' % (self.prop, f['what'], f['tag'], f['replay']))

    def base(self):
        # disjoint blocks of seeds for different VERIF_SEED values
        return (self.seed % 1000003) * 1000000000

    def search(self, flavour, secs, offset, tag):
        ps = []
        for w in range(WORKERS):
            out = open(os.path.join(self.tmp, '%s.%d.out' % (tag, w)), 'w+')
            cov = os.path.join(self.tmp, '%s.%d.cov' % (tag, w))
            p = subprocess.Popen([sim(flavour), 'run', '--prop', self.prop, '--start', str(self.base() + offset + w), '--step', str(WORKERS),
                                  '--secs', str(secs), '--found', '4', '--own', ','.join(self.spec['tags']), '--cover', cov],
                                 env=self.env, stdout=out, stderr=subprocess.DEVNULL)
            ps.append((p, out, cov))
        covers = None
        cpu = 0.0
        runs = 0
        for p, out, cov in ps:
            try:
                rc = p.wait(timeout=secs + 240)
            except subprocess.TimeoutExpired:
                p.kill()
                die('a simulation worker did not finish')
            if rc:
                die('a simulation worker ended with status %d' % rc)
            out.seek(0)
            for l in out:
                if l.startswith('FOUND '):
                    j = json.loads(l[6:])
                    j['flavour'] = flavour
                    if self.own(j['tag']):
                        self.found.append(j)
                    else:
                        o = self.others.setdefault(j['tag'], {'count': 0, 'seed': j['seed'], 'msg': j['msg']})
                        o['count'] += 1
                elif l.startswith('SECS '):
                    cpu += float(l[5:])
                elif l.startswith('STATS '):
                    for k, v in json.loads(l[6:]).items():
                        if k == 'runs':
                            runs += v
                        self.stats[k] = max(self.stats.get(k, 0), v) if k == 'maxPages' else self.stats.get(k, 0) + v
            out.close()
            b = int.from_bytes(open(cov, 'rb').read(), 'little')
            covers = b if covers is None else covers | b
            os.unlink(cov)
        self.covers = covers if not hasattr(self, 'covers') else self.covers | covers
        self.phases.append({'build': flavour, 'runs': runs, 'worker_seconds': round(cpu, 1), 'first_seed': self.base() + offset})

    def determinism(self, n):
        """Same seed in two fresh processes: same events, same verdict."""
        bad = 0
        for i in range(n):
            s = str(self.base() + 400000000 + i)
            a, b = (result(self.run(sim('plain'), 'exec', self.prop, s).stdout) for _ in range(2))
            if a is None or a != b:
                bad += 1
        return bad

    def confirm(self, f):
        """Gate: fresh processes must show the same violation; then minimise and check the replay file."""
        b = sim(f['flavour'])
        for _ in range(2):
            r = result(self.run(b, 'exec', self.prop, str(f['seed'])).stdout)
            if not r or not r['viol'] or r['tag'] != f['tag']:
                return None
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        raw = os.path.join(self.tmp, 'raw.sim')
        small = os.path.join(self.tmp, 'small.sim')
        open(raw, 'w').write(self.run(b, 'gen', self.prop, str(f['seed'])).stdout)
        pick = raw
        try:
            self.run(b, 'shrink', raw, small, '20' if self.tier == 'quick' else '90')
            if os.path.exists(small):
                rs = [result(self.run(b, 'replay', small).stdout) for _ in range(2)]
                if all(r and r['viol'] and r['tag'] == f['tag'] for r in rs) and rs[0] == rs[1]:
                    pick = small
        except subprocess.TimeoutExpired:
            pass
        rs = [result(self.run(b, 'replay', pick).stdout) for _ in range(2)]
        if not all(r and r['viol'] and r['tag'] == f['tag'] for r in rs):
            return None
        path = os.path.join(d, '%s-%s-%d.sim' % (self.prop, f['tag'].replace('.', '_'), f['seed']))
        tr = subprocess.run([b, 'replay', pick, '-v'], env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace').stdout.splitlines()
        with open(path, 'w') as o:
            o.write('# property=%s build=%s seed=%d tag=%s\n# %s\n# replay: python3 bin/replay.py %s\n' % (self.prop, f['flavour'], f['seed'], f['tag'], rs[0]['msg'], os.path.relpath(path, VERIF)))
            o.write(open(pick).read())
            o.write('# trace of the minimised run (last 120 lines)\n')
            for l in tr[-120:]:
                o.write('#   ' + l[:200] + '\n')
        return path, rs[0]

    def samples(self):
        out = []
        for i in range(2):
            s = self.base() + i
            t = self.run(sim('plain'), 'gen', self.prop, str(s)).stdout.splitlines()
            out.append({'seed': s, 'script': t[:40], 'operations': max(0, len(t) - 2)})
        return out

    def evidence(self, violations, det_n, det_bad):
        st = self.stats
        wall = time.time() - self.t0
        M = 1 << 23
        cov = getattr(self, 'covers', 0)
        states = bin(cov & ((1 << M) - 1)).count('1')
        distinct = bin(cov >> M).count('1')
        runs = st.get('runs', 0)
        secs = sum(p['worker_seconds'] for p in self.phases) or 1
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
            'coverage': {
                'evaluations': runs,
                'distinct_nontrivial': min(distinct, st.get('nonTrivial', 0)),
                'rule': 'one evaluation is one simulated run: a configuration, a history of operations and a fault/crash schedule drawn from one seed, '
                        'executed against the real library and compared with the reference model. Non-trivial: ' + self.spec['nontrivial'] +
                        '. Distinct: counted by the hash over all API results and I/O events of the run (in a 2^23-bit table, so slightly undercounted).',
                'nontrivial_runs': st.get('nonTrivial', 0),
                'samples': self.samples(),
                'phases': self.phases,
                'runs_per_hour': int(runs * 3600 * WORKERS / secs),
                'seeds_per_hour_wall': int(runs * 3600 / max(wall, 1)),
                'simulated_time_s': round(st.get('simMicros', 0) / 1e6, 1),
                'distinct_states': states,
                'state_measure': 'distinct abstract states after an operation: operation, configuration class, position in each circular file, wrap count class, '
                                 'write-buffer fill, variable-data and index position, pending unsynced writes class, faults fired, ambiguity of the model (2^23-bit table)',
                'faults_fired': {k[6:]: v for k, v in st.items() if k.startswith('fault_')},
                'faults_armed': st.get('faultsArmed', 0),
                'crashes': {k: st.get(k, 0) for k in ('crashes', 'crashInOp', 'crashTorn', 'crashLostSuffix', 'crashInRecovery', 'recoveries', 'reopenClean')},
                'operations': {k[3:]: v for k, v in st.items() if k.startswith('op_') and v},
                'reach': {k: st.get(k, 0) for k in ('apiCalls', 'ioEvents', 'ioReads', 'ioWrites', 'ioErases', 'ioFlushes', 'records', 'varBytes', 'dataWraps', 'wrapRuns', 'rlcRuns',
                                                    'bmapRuns', 'varRuns', 'driverRuns', 'multiRuns', 'queries', 'queryRows', 'valueScans', 'idxPages', 'rejected', 'streamReads', 'fmtPages', 'costGets', 'costScans', 'costPages', 'costIndexed',
                                                    'evictedSeen', 'deletedSeen', 'ghostChecks', 'ambiguous', 'lockstepRuns', 'lockstepResults', 'junkRuns', 'maxPages')},
                'determinism': {'seeds_rerun_in_fresh_processes': det_n, 'mismatches': det_bad},
                'known_findings_seen': st.get('knownFindings', 0),
                'real_components': 'src/embedDB, src/spline, src/query-interface, lib/EmbedDB-Utility, lib/Desktop-File-Interface, lib/Distribution, lib/SD-File-Interface, lib/SD-Wrapper, lib/SdFat (FatLib), lib/Dataflash-File-Interface and lib/Dataflash-Wrapper, compiled from the current /repo',
                'simulated_components': 'file interface (flash/disk model with write-back cache), libc file functions under the desktop driver, sectors of the SD card under SdFat, commands of the dataflash chip, Arduino headers, heap, scheduler of clients, crash and restart',
                'other_property_violations_seen': self.others,
            },
            'assumptions': self.spec.get('assumptions', []) + [
                'storage writes become durable in the order they were issued, except that a flush may harden its own file first; a crash keeps a prefix of the rest and may tear an erase, not a page write',
                'keys stay inside the range of the configured comparator; reads do not fail while a database is being opened'],
            'wall_s': round(wall, 1), 'violations': violations,
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)

    def main(self):
        print('check %s tier=%s seed=%d' % (self.prop, self.tier, self.seed))
        self.build()
        self.announce_known()
        t = TIERS[self.tier]
        det_bad = 0
        off = 0
        confirmed = None
        for flavour, secs in t['phases']:
            self.search(flavour, secs * self.spec.get('weight', 1), off, '%s%d' % (flavour, off))
            off += 100000000
            if self.found:
                break
        bad_gate = 0
        if self.found:
            seen = {}
            self.found.sort(key=lambda j: (j['op'] < 0, j['seed']))
            order = []
            for f in self.found:  # different tags first
                seen[f['tag']] = seen.get(f['tag'], 0) + 1
                order.append((seen[f['tag']], f))
            order.sort(key=lambda x: x[0])
            for _, f in order[:8]:
                confirmed = self.confirm(f)
                if confirmed:
                    break
                bad_gate += 1
                if f['tag'] == 'hang':  # the limit is on processor time: a run that ends in a fresh process was only slow
                    self.found.remove(f)
        det_n = t['determinism']
        if not self.found:
            det_bad = self.determinism(det_n)
        else:
            det_n = 0
        self.evidence(len(self.found) if confirmed else 0, det_n, det_bad)
        p = self.stats
        print('%d runs, %d distinct non-trivial; %d crashes, %d faults fired, %.0f simulated s' % (
            p.get('runs', 0), p.get('nonTrivial', 0), p.get('crashes', 0), sum(v for k, v in p.items() if k.startswith('fault_')), p.get('simMicros', 0) / 1e6))
        for k, o in sorted(self.others.items()):
            print('note: %d runs showed %s, which is not about %s (seed %d: %s)' % (o['count'], k, self.prop, o['seed'], o['msg'][:200]))
        if confirmed:
            path, r = confirmed
            print('%s: %s' % (r['tag'], r['msg']))
            print('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(path, VERIF)))
            return 1
        if self.found:
            die('%d violations were seen but did not reproduce in fresh processes' % len(self.found))
        if det_bad:
            die('%d of %d seeds were not deterministic' % (det_bad, det_n))
        print('held')
        return 0

    def cleanup(self):
        for f in os.listdir(self.tmp):
            os.unlink(os.path.join(self.tmp, f))
        os.rmdir(self.tmp)


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        die('usage: check.py PROP [quick|thorough]')
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in TIERS:
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    c = Check(sys.argv[1], tier, seed)
    try:
        return c.main()
    finally:
        c.cleanup()


if __name__ == '__main__':
    sys.exit(main())

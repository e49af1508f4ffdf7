"""Verdicts, known findings, evidence."""
import json, os, sys, time, traceback
from ir import Broken, VERIF, prune_cache

FIND = os.path.join(VERIF, 'known_findings.txt')
T0 = time.time()


def known(prop):
    out = {}
    if os.path.exists(FIND):
        for l in open(FIND):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                assert rest.startswith('key=')
                k, _, txt = rest[4:].partition(' ')
                out[k] = txt
    return out


class Report:
    """key: identifies the construct (configuration-independent where possible, no spaces)."""
    def __init__(s, prop):
        s.prop = prop; s.cov = {}; s.viols = []; s.undec = []; s.samples = []
    def count(s, k, n=1): s.cov[k] = s.cov.get(k, 0) + n
    def violation(s, key, text): s.viols.append((key.replace(' ', '_'), text))
    def undecided(s, text): s.undec.append(text)
    def need(s, k, n):
        """Fail as broken when fewer than n instances were analysed."""
        if s.cov.get(k, 0) < n:
            raise Broken('%s: only %d of at least %d expected instances of "%s" were found' % (s.prop, s.cov.get(k, 0), n, k))

    def finish(s, rule, trusted=(), level='other', extra=None):
        tier = os.environ.get('VERIF_TIER', 'quick')
        kn = known(s.prop)
        seen = set(); new = []
        for k, t in s.viols:
            if k in kn:
                if k not in seen: print('KNOWN-FINDING: property=%s %s (%s)' % (s.prop, kn[k], k))
                seen.add(k)
            else: new.append((k, t))
        ev = dict(property=s.prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level,
                  coverage=dict(explanation=rule, undecided=len(s.undec), **s.cov), wall_s=round(time.time() - T0, 2))
        if s.undec: ev['coverage']['undecided_sample'] = s.undec[:12]
        if os.environ.get('VERIF_UNDEC'):
            for u in s.undec: print('  undecided:', u[:300])
        ev['coverage']['violations'] = len(new); ev['coverage']['known_findings_seen'] = sorted(seen)
        if extra: ev['coverage'].update(extra)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', s.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        print('%s: analysed %s; undecided %d' % (s.prop, ', '.join('%s=%s' % kv for kv in s.cov.items()), len(s.undec)))
        prune_cache()
        if new:
            d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
            p = os.path.join(d, s.prop + '.txt')
            with open(p, 'w') as f:
                for k, t in new: f.write('key=%s\n%s\n\n' % (k, t))
            for k, t in new[:20]: print('  %s: %s' % (k, t))
            print('VIOLATION property=%s replay=%s' % (s.prop, p))
            return 1
        return 0


def main(fn):
    try:
        rc = fn()
    except Broken as e:
        print('ANALYSIS-BROKEN: ' + str(e)); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    os._exit(rc) if rc else sys.exit(0)

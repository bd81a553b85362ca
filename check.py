#!/usr/bin/env python3
"""Builds what a property's check needs from /repo's current tree, runs it and
writes its evidence.  Exit 0: held on everything explored; 1: VIOLATION line."""
import argparse, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + '/harness')
import build  # noqa: E402


def main():
    a = argparse.ArgumentParser()
    a.add_argument('property')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a.add_argument('--scale', default='1')
    a.add_argument('--time', default=None)
    a.add_argument('--part', default=None)
    o = a.parse_args()
    t0 = time.time()
    exe = build.build('asan')
    env = dict(os.environ, VT_VERIF=VERIF, LC_ALL='C', TZ='UTC', UIMACPP_HOME=build.REPO,
               ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:alloc_dealloc_mismatch=0:'
                            'quarantine_size_mb=16:allocator_may_return_null=1:handle_abort=1:'
                            'detect_stack_use_after_return=0:max_allocation_size_mb=512')
    env.pop('UIMACPP_STREAMHANDLERS', None)
    env.pop('UIMACPP_DATAPATH', None)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    os.makedirs(VERIF + '/replays', exist_ok=True)
    ev = VERIF + '/evidence/' + o.property + '.json'
    raw = VERIF + '/evidence/.' + o.property + '.raw'
    for f in (ev, raw):
        if os.path.exists(f):
            os.unlink(f)
    # a wall clock bound keeps the check inside its limits on a slow machine
    cap = o.time or ('150' if o.tier == 'quick' else '600')
    cmd = [exe, '--property', o.property, '--tier', o.tier, '--seed', str(o.seed), '--workers', str(os.cpu_count() or 4),
           '--scale', o.scale, '--time', cap, '--out', raw, '--replay-dir', VERIF + '/replays',
           '--findings', VERIF + '/known_findings.txt']
    if o.part:
        cmd += ['--part', o.part]
    r = subprocess.run(cmd, env=env)
    d = json.load(open(raw)) if os.path.exists(raw) else {}
    if os.path.exists(raw):
        os.unlink(raw)
    cov = dict(evaluations=d.get('evaluations', 0), distinct_nontrivial=d.get('distinct_nontrivial', 0),
               rule=d.get('rule', ''), samples=d.get('samples', []), discarded=d.get('discarded', 0),
               coverage_guided=d.get('coverage_guided', 0), edges_one_worker=d.get('edges', 0),
               fixed_inputs=d.get('probes', 0), known_findings=d.get('known_findings', 0), classes=d.get('labels', {}))
    json.dump(dict(property=o.property, tier=o.tier, seed=o.seed, level='exploration', coverage=cov,
                   wall_s=round(time.time() - t0, 2), violations=d.get('violations', 1 if r.returncode == 1 else 0),
                   assumptions=['the library is compiled from the current sources with -O1, NDEBUG and AddressSanitizer by g++',
                                'holds for the generated cases only']), open(ev, 'w'), indent=1)
    return r.returncode


if __name__ == '__main__':
    sys.exit(main())

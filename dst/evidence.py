"""Writes evidence/<id>.json from what a run of a check measured."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def write(prop, tier, seed, agg, samples, viol, known, wall, slots):
    from . import child
    p = child.props()[prop]
    secs = sorted(agg['secs']) or [0.0]
    hours = max(agg['wall'], 1e-6) / 3600
    rule = getattr(p, 'rule', 'each run is generated from (property, VERIF_SEED, index); a run is non-trivial when it '
                   'executed at least one judged operation; two runs are distinct when they differ in the coverage '
                   'signature: features of the world per judged operation, schedules, faults fired, judgements')
    cov = {
        'evaluations': agg['runs'],
        'distinct_nontrivial': len(agg['runsigs']),
        'distinct_feature_combinations': len(agg['sigs']),
        'rule': rule,
        'samples': samples,
        'completed': agg['ok'],
        'planned': agg['planned'],
        'judgements': agg['checked'],
        'simulated_runs_per_hour': round(agg['runs'] / hours),
        'seeds_per_hour': round(agg['runs'] / hours),
        'simulated_time_units': round(agg['simtime'], 3),
        'simulated_evolution_steps': agg['steps'],
        'scheduler_events': agg['sched_events'],
        'simulated_pools': agg['pools'],
        'distinct_schedules': len(agg['schedules']),
        'schedule_measure': 'hash of the sequence of scheduler events (assign/finish/die per worker and task, or '
                            'file-system step per process) of one operation',
        'faults_fired': dict(sorted(agg['fired'].items())),
        'rare_conditions_hit': dict(sorted(agg['probes'].items())),
        'components_real': getattr(p, 'real', 'all of quanguru, numpy, scipy, pickle, forked worker processes'),
        'components_stub': getattr(p, 'stub', 'multiprocessing.Pool (dispatch, result collection, worker replacement), '
                                   'os.cpu_count; injected failures inside scipy expm/kron'),
        'seconds_per_run_median': round(secs[len(secs) // 2], 4),
        'parallel_slots': slots,
        'retried_after_timeout': agg.get('retried', 0),
    }
    doc = {'property': prop, 'tier': tier, 'seed': int(seed) if str(seed).lstrip('-').isdigit() else 0,
           'level': 'exploration', 'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(viol),
           'assumptions': getattr(p, 'assumptions', ['the simulated pool follows multiprocessing.pool.Pool of CPython 3.12',
                                                     'sampling: a clean batch is evidence, not proof'])}
    if viol:
        doc['coverage']['violation_list'] = viol[:6]
    if known:
        doc['coverage']['known_findings'] = known
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, prop + '.json'))

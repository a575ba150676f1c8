"""Writes MANIFEST.json: every property in properties.jsonl is either claimed (BUILT) or listed as not applicable."""
import json
from dst import core

TECH = 'deterministic simulation with fault injection: seeded schedules, commands and faults against '
HOW = {
    'R01': ('an independent reference model stepped in lockstep', 'Simulated worlds of spacecraft; every tick is compared with a separately written high-accuracy solution of the relative-motion equations, within tolerances stated in DESIGN.md.'),
    'R02': ('an independent reference model stepped in lockstep', 'Attitude and body rates of every tick compared with a separately written rigid-body solution including limits; quaternion norm drift bounded.'),
    'R03': ('an independent reference model stepped in lockstep', 'Every tick of simulated flights compared with a separately written Dubins solution including limits and saturation midway through a tick.'),
    'R04': ('an independent reference model stepped in lockstep', 'Integrator bodies and generated user models compared tick by tick with their own equations.'),
    'R05': ('an independent F-16 reference model', 'Flights and teleports compared with an airframe/controller model written separately from the published tables.'),
    'R06': ('an independent reference model stepped in lockstep', 'User-written bodies on the shipped dynamics classes with generated parameters and limits compared tick by tick with their equations.'),
    'J01': ('an independent reference model stepped in lockstep', 'JAX backend/solver histories compared with the reference equations in single precision.'),
    'L01': ('limit invariants checked on every tick', 'Bounds, rates and release from saturation checked as invariants while worlds run.'),
    'L02': ('differential twins receiving the command in other forms', 'Motion, warnings and command-form equivalence checked on every tick.'),
    'L03': ('wrap invariants and unwrapped reference motion', 'Interval, congruence and untouched elements checked on every tick for generated wrap centres.'),
    'T01': ('twins on different tick schedules', 'The same command timeline under several seeded tick schedules; states compared at common instants.'),
    'T02': ('unsampled twins and reference motion at the sample times', 'Sample times, states and passivity checked on every tick.'),
    'T03': ('fault-free reference and a clock element in the state', 'Model exceptions, non-finite derivatives and blow-ups injected at chosen instants inside ticks.'),
    'I01': ('each body alone in its own simulated process', 'Interleaved worlds and threads under a seeded scheduler compared bit by bit with solo runs.'),
    'I02': ('an untouched twin', 'Every exchanged buffer is overwritten at seeded instants; histories must stay bit-identical.'),
    'A01': ('the undisturbed history', 'Abort points inside a step are enumerated by call and line events and chosen by seed; state compared with old/new.'),
    'A02': ('the history without the rejected requests', 'Malformed commands and configurations injected at seeded places.'),
    'D01': ('the uncrashed history', 'Crashes at seeded points; only configuration and saved state vectors survive; histories bit-identical.'),
    'D02': ('a run in another environment and process', 'The ambient environment is perturbed at seeded instants; digests of all observations must be equal.'),
    'V01': ('an independent accessor table and a never-read twin', 'All accessors read at seeded instants of a history.'),
    'V02': ('own registry model', 'Queries interleaved with ticks, registrations, replacements and removals.'),
    'Q01': ('own comparison of motion states', 'Pairs that diverge, converge and are restored along histories.'),
    'U01': ('own unit conversion table', 'Spawns with seeded units, defaults and rejections within running worlds.'),
    'E01': ('own fixed-step integrator model', 'Interleaved integrators with failing derivatives and retries.'),
    'F01': ('repeated evaluation in fresh processes and actuator bounds', 'Interleaved controllers and aircraft with corrupted sensor values.'),
    'S01': ('own verdict over the recorded history', 'Recordings of simulated flights, corrupted at single ticks or truncated.'),
    'P01': ('bodies that really fly every look-ahead, and twins nobody plans with', 'A planner steps, evaluates and abuses the dynamics objects of flying bodies between ticks and from its own thread.'),
    'X01': ('own unit arithmetic', 'User-written body classes in several unit systems designed, spawned, refused, ticked and read in one world.'),
    'G01': ('the process-wide settings before each operation', 'Histories of all parts of the library with failures and injected exceptions; settings, output and files compared after every operation.'),
    'M01': ('the footprint after earlier stretches of the same history', 'Long seeded histories; reachable objects and bytes measured at the end of successive stretches, discarded objects checked by weak references.'),
    'N01': ('own trim residual and constraints, and each evaluation in a process of its own', 'Interleaved, threaded and aborted trim searches; every cost and working vector compared.'),
    'S02': ('own bookkeeping of every aircraft', 'Multi-aircraft recordings of interleaved simulations.'),
}
NA = {
}
BUILT = 'R01 R02 R03 R04 R05 R06 J01 L01 L02 L03 T01 T02 T03 I01 I02 A01 A02 D01 D02 V01 V02 Q01 U01 E01 F01 S01 S02 P01 X01 G01 M01 N01'.split()
ids = [json.loads(x)['id'] for x in open('/verif/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for i in ids:
    try:
        ok = i in BUILT and core.load(i)
    except (ImportError, KeyError):
        ok = False
    if ok:
        m['checks'].append({'property': i, 'quick_cmd': f'./run.sh check {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./run.sh check {i}', 'technique': TECH + HOW[i][0],
                            'level': 'exploration',
                            'level_note': HOW[i][1] + ' Seeded search, not exhaustive: it shows the property on the histories explored. Trusts numpy/scipy and the reference written in /verif/dst.'})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m['notes'] = 'No hooks in /repo: constructors, user models, command forms, sys.settrace and fresh imports are the seams (DESIGN.md). Commits in /repo are fix: commits only.'
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), [x['property'] for x in m['not_applicable']])

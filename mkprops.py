"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json
B='safe_autonomy_dynamics/base_models.py'; PM='safe_autonomy_dynamics/cwh/point_model.py'; RM='safe_autonomy_dynamics/cwh/rotational_model.py'
SD='safe_autonomy_dynamics/cwh/sixdof_model.py'; SU='safe_autonomy_dynamics/cwh/sun_model.py'; DU='safe_autonomy_dynamics/dubins.py'
IN='safe_autonomy_dynamics/integrators.py'; UT='safe_autonomy_dynamics/utils.py'; AB='safe_autonomy_dynamics/external/aerobench/'
LL=AB+'lowlevel/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],hook_needed=None)))
H='histories';I='inputs';C='configurations';S='schedules';F='fault_sequences';K='crash_points'
p('R01','Orbital translation follows the relative-motion equations on every tick',
 "In any world history, each tick of an adaptively or Euler integrated spacecraft (point mass, planar rotating, six-degree-of-freedom) moves its position and velocity as the Clohessy-Wiltshire equations prescribe for its own mass, mean motion, attitude-rotated (or orbital-frame) thrust and elapsed duration, to within the integrator's own accuracy, and the sun's angle advances at the mean motion. The reported state derivative equals the right-hand side at the end of the tick for the adaptive solver, and the published system matrices are those of these equations.",
 [H,I,C,S],"every constructor configuration, initial state, tick length sequence (jitter, stalls, bursts), command history delivered over a lossy channel, and state reassignment between ticks",
 "Tests fix a few initial states, one command and one step size per model; the planar-rotation tests do not even collect, and no test combines attitude, thrust and duration over histories.",
 [PM,RM,SD,SU,B],[('CWH A/B matrices',PM+':generate_cwh_matrices'),('rotated thrust',SD+':SixDOFDynamics.state_transition_input'),('rotated thrust 2d',RM+':CWHRotation2dDynamics.state_transition_input'),('integration',B+':BaseODESolverDynamics._step')],
 ['entity.state / position / velocity after every step','entity.state_dot'])
p('R02','Attitude motion follows the rigid-body equations and stays a rotation',
 "In any world history, each tick of a rotating spacecraft turns its attitude by the body rates and changes the rates by the commanded moments over its own inertias (including gyroscopic coupling between unequal principal inertias), subject to its configured acceleration and rate limits, to within the integrator's accuracy. An attitude that starts as a unit rotation remains one within the drift the integrator's accuracy allows.",
 [H,I,C,S],"every inertia, wheel and limit configuration, unit initial attitude, body rate, moment/thrust history and tick schedule",
 "Tests use the default (spherical) inertia for most cases and short fixed-step histories, so coupling terms and long accumulated histories are never reached.",
 [SD,RM,B],[('quaternion kinematics and Euler equations',SD+':SixDOFDynamics.state_transition_system'),('planar rotation',RM+':CWHRotation2dDynamics'),('combined wheel/body limits',SD+':SixDOFSpacecraft.__init__'),('derivative limits',B+':BaseODESolverDynamics.compute_state_dot')],
 ['entity.state, quaternion, angular_velocity after every step'])
p('R03','Aircraft flight follows the Dubins kinematics on every tick',
 "In any world history, each tick of a 2D or 3D Dubins aircraft changes position, heading, flight-path angle, roll and speed as the Dubins kinematics prescribe (coordinated turn at g tan(roll)/v, descent positive z) for the clipped command, its configured limits and the elapsed duration, to within the integrator's accuracy. Commands that would push a limited quantity past its limit leave it at the limit without otherwise disturbing the motion.",
 [H,I,C,S],"every limit configuration, initial state, command history over a lossy channel, tick schedule, and direct reassignment of individual state elements between ticks",
 "Tests check isolated steps from default limits; saturation reached midway through a step, wrap crossings combined with turns, and asymmetric custom limits are not sampled.",
 [DU,B],[('2d kinematics',DU+':Dubins2dDynamics'),('3d kinematics',DU+':Dubins3dDynamics'),('limit handling',B+':BaseODESolverDynamics._clip_state_dot_by_state_limits')],
 ['entity.state, heading, gamma, roll, v, position after every step'])
p('R04','Integrator bodies and user-supplied models follow their own equations',
 "Each tick of a 1D/2D/3D integrator body, or of any user-defined linear, control-affine or general model built on the base classes, advances the state by that model's differential equation under the clipped command for the full tick duration, to within the integrator's accuracy. Mass, damping and the model's matrices act exactly as configured on every axis, and the published integrator matrices are those of these equations.",
 [H,I,C,S],"every mass/damping/matrix configuration, generated user model, integration method, command history and tick schedule",
 "No test touches the integrator bodies, and the base-class tests only drive the shipped spacecraft and aircraft models.",
 [IN,B],[('integrator matrices',IN+':generate_dynamics_matrices'),('linear and affine models',B+':BaseControlAffineODESolverDynamics._compute_state_dot'),('solver',B+':BaseODESolverDynamics._step')],
 ['entity.state and state_dot after every step'])
p('R05','F-16 closed-loop flight follows the nonlinear airframe and control law',
 "At every point of any simulated closed-loop F-16 flight, for both aerodynamic models and both integrator-error definitions, the returned state derivative, surface deflections, load factors and stability-axis roll rate agree with the Stevens-Lewis/Morelli airframe equations driven by the saturated LQR control law. This holds at any state inside, at or slightly beyond the edge of the aerodynamic tables (which are extended linearly there), however that state was reached.",
 [H,I,F,S],"every reference command history, gust/teleport fault, table cell, engine power regime, and aerodynamic model",
 "There are no tests at all for the F-16 code; its lookup tables have hundreds of cells reachable only at unusual flight conditions.",
 [AB+'controlled_f16.py',LL+'subf16_model.py',LL+'low_level_controller.py',LL+'morellif16.py',LL+'thrust.py'],
 [('closed loop',AB+'controlled_f16.py:controlled_f16'),('airframe',LL+'subf16_model.py:subf16_model'),('engine',LL+'pdot.py, tgear.py, thrust.py, rtau.py'),('aero tables',LL+'c*.py, d*.py, morellif16.py')],
 ['return value of controlled_f16 and subf16_model'])
p('R06','Shipped dynamics keep their equations under any limits given to them',
 "A body built by a user directly on a shipped dynamics class (point-mass, planar-rotating and six-degree-of-freedom relative motion, sun, 2D and 3D Dubins, integrators) with parameters, state limits, state-derivative limits, angle wrap centres and control limits of the user's choosing moves on every tick as that class's differential equations prescribe for those parameters within those limits. Limits and wrap centres that are given replace the defaults, those not given keep the documented defaults, and a limit on one element never changes how another element moves.",
 [C,H,I,S],"every dynamics class, parameter (including gravitational acceleration), scalar, per-element and one-sided limit on any element, wrap centre, command and tick history",
 "Tests only build the shipped bodies, which pass one fixed pattern of limits to their dynamics; limits on positions, velocities or derivatives, other wrap centres and a different gravity are never configured.",
 [RM,SD,PM,DU,IN,SU,B],[('limit defaults and overrides',RM+':CWHRotation2dDynamics.__init__'),('limit defaults and overrides',SD+':SixDOFDynamics.__init__'),('gravity',DU+':Dubins3dDynamics'),('limits and wrapping',B+':BaseODESolverDynamics.compute_state_dot, BaseDynamics.step')],
 ['entity.state and state_dot after every step'])
p('J01','The accelerated backend and solver produce the same motion',
 "Selecting the JAX array backend or the JAX adaptive solver for a body that supports it yields, tick by tick and for any command and tick history, the same motion as the reference equations under the same command limits, state limits and derivative limits, to within single precision, whether the dynamics are run as they are or JIT-compiled; a zero-length tick leaves the state unchanged. An unsupported combination is refused without changing the body.",
 [C,H,I,S],"every backend/solver combination, limit saturation, command form (including backend arrays) and tick schedule",
 "The only tests for this path do not collect on the installed Python, and they sample unsaturated steps only.",
 [B,RM,SU],[('jax solver branch',B+':BaseODESolverDynamics._step'),('jax derivative',B+':BaseODESolverDynamics.compute_state_dot_jax'),('jax array use',RM+':CWHRotation2dDynamics')],
 ['entity.state after every step'])
p('L01','State and rate limits are never exceeded and never stick',
 "After every tick of any history, each limited state element lies within its configured limits, and no element's rate of change during a tick exceeds its configured derivative limits. A state at a limit neither moves outward nor is prevented from moving back inward by a command that does so.",
 [H,I,C,S,F],"every configuration of state and derivative limits (scalar or per-element, one-sided, asymmetric), starts at/near/beyond a limit, outward and inward command histories, any tick schedule and method",
 "Tests hit a limit in a handful of fixed cases; they never combine wheel/body limit selection, per-axis limits, limits reached mid-tick, and release from saturation.",
 [B,DU,RM,SD],[('state clip',B+':BaseDynamics.step'),('rate clip',B+':_clip_state_dot_direct'),('outward rate zeroing',B+':_clip_state_dot_by_state_limits'),('limit selection',SD+':SixDOFSpacecraft.__init__')],
 ['entity.state, state_dot and trajectory after every step'])
p('L02','Commands saturate channel by channel and omitted channels stay neutral',
 "For every tick, the motion is the one produced by clipping each supplied command channel to that channel's own limits and using the neutral default for every channel not supplied; a warning is emitted exactly when some supplied channel was outside its limits. Giving the same command by name, list or array is equivalent to single precision, and a missing command equals the default command.",
 [I,H,C,F],"every command form and dtype, subset and order of named channels, out-of-range values (including infinite) per channel, lost/duplicated/late commands, and long histories that must not wear the default",
 "Tests send full in-range commands of one form at a time; equivalences between forms, partial commands and per-channel saturation across histories are not checked.",
 [B,RM,SD,DU,IN],[('command unpacking and clipping',B+':BaseEntity.step'),('control maps and limits',DU+':Dubins3dAircraft.__init__')],
 ['control vector the dynamics receive, warnings emitted, entity.state'])
p('L03','Angles stay in their wrap interval and wrapping never changes the motion',
 "After every tick each wrapped angle lies within half a turn of its wrap centre, equals the unwrapped motion modulo a full turn, and every element not marked for wrapping is untouched by wrapping. This holds for any wrap centre and any number of crossings within or between ticks.",
 [H,I,C,S],"every wrap-centre configuration (including nonzero centres on user models), turn rate, crossing count and tick schedule",
 "Tests wrap about zero only, with single crossings.",
 [B,DU,RM],[('angle wrapping',B+':BaseDynamics._wrap_angles'),('wrap centres',DU+':Dubins3dAircraft.__init__')],['entity.state after every step'])
p('T01','Motion does not depend on how simulated time is sliced into ticks',
 "Holding the same commands over the same total simulated time, any partition into ticks (including zero-length ticks, bursts and single long ticks) leads to the same final state within the accuracy of the adaptive integrator. No tick loses, gains or reorders simulated time.",
 [S,H,I,C],"every tick schedule for the same command timeline, for every body kind and user model, with and without trajectory sampling",
 "Tests use one step size per case; two schedules of the same history are never compared.",
 [B],[('integration over exactly the tick',B+':BaseODESolverDynamics._step')],['entity.state at common simulated instants'])
p('T02','Trajectory samples are correct and purely passive',
 "With N samples requested, each nonzero tick stores exactly N evenly spaced sample times ending at the tick's end, each sampled state lies on the motion at that time and the last one is the pre-clipping end state. Requesting samples, or reading them at any time, never changes the motion.",
 [H,C,S,I],"every sample count, tick schedule, command history and body kind",
 "Tests exercise one or two sample counts on one body; passivity over histories is not tested.",
 [B],[('t_eval construction and storage',B+':BaseODESolverDynamics._step')],['dynamics.trajectory, dynamics.trajectory_t, entity.state'])
p('T03','A tick that returns has covered its whole duration; failures are reported',
 "If a step call returns, simulated time advanced by exactly the requested duration for every state element. If a model raises partway through a tick (either solver), or diverges or becomes undefined partway (SciPy adaptive solver), the call raises and the body keeps its previous state rather than silently stopping early. After the fault clears, the same tick succeeds and gives the fault-free result.",
 [F,I,C,S],"every point within a tick at which a user model raises, turns non-finite or blows up, every method, sampling setting and tick length",
 "No test injects a failing or diverging model.",
 [B],[('solver status handling',B+':BaseODESolverDynamics._step')],['exception from step, entity.state, a clock element in the model state'])
p('I01','Bodies never influence each other, whatever the interleaving',
 "The history of each body depends only on its own configuration, commands and ticks: in a world of many bodies of any kinds, interleaved in any order or stepped from concurrent threads, created or discarded at any time, every body's states, derivatives and warnings-worthy behaviour are bit-identical to running it alone in its own process. This includes bodies that share a dynamics model object's class, configuration values, or names.",
 [S,H,C,F],"every interleaving of ticks, reads, spawns and deletions over mixed worlds, and every preemption schedule of stepping threads",
 "Tests step one body at a time; shared module-level or class-level state would be invisible to them.",
 [B,PM,RM,SD,DU,IN],[('per-entity state and dynamics',B+':BaseEntity.__init__'),('module constants',PM+':M_DEFAULT')],['entity.state, state_dot, trajectory of every body'])
p('I02','A body never shares memory with its callers',
 "No array passed to or returned from a body (initial or assigned states, commands, limits and matrices copied at construction, returned states, positions, velocities) aliases the body's internal state: overwriting any of them at any later time leaves every body's future motion bit-identical. Snapshots taken earlier never change when the body moves on.",
 [H,F,I,S],"every buffer exchanged with a body and every later instant at which it is overwritten",
 "Tests do not mutate inputs or outputs after use.",
 [B,PM,DU],[('copying state accessors',B+':BaseEntity.state'),('command copies',B+':BaseEntity.step'),('matrix copies',B+':BaseLinearODESolverDynamics.__init__')],['entity.state before/after scribbling over buffers'])
p('A01','An interrupted or failing tick is all-or-nothing',
 "If a step call is aborted by an exception at any point (model error, memory exhaustion, interrupt, a warning or floating-point condition raised as an error), the body's state vector is exactly the old or exactly the new one, never a mixture, and for errors raised by the model or the command handling it is the old one together with the old derivative. Repeating the aborted tick then gives the result the undisturbed history gives.",
 [K,F,H,S],"every abort point inside a step, for every body kind, method and command form, at any place in a history",
 "Tests never abort a step midway.",
 [B],[('assignment after computation',B+':BaseEntity.step')],['entity.state and state_dot after an aborted step, and after retrying it'])
p('A02','Rejected commands and configurations have no effect',
 "A malformed command (unknown channel name, wrong type, unconvertible or wrongly sized value, named command where names are unsupported) or an invalid configuration (unknown field, missing name, non-numeric or dimensionally wrong value, unsupported integration method) is refused with an exception, and neither that body nor any other is changed by the attempt. A valid command following any number of rejected ones behaves as if they had never been sent.",
 [F,I,H,C],"every malformed command or configuration, at any place in a history of valid ones",
 "Tests check one or two error cases on fresh bodies and never continue the history after a rejection.",
 [B,PM,DU],[('command validation',B+':BaseEntity.step'),('configuration validation',B+':BaseEntityValidator'),('method validation',B+':BaseODESolverDynamics._step')],['exception, entity.state, later motion'])
p('D01','A restart from a saved state vector continues the same history',
 "After a crash at any point between or during ticks, a new process that constructs the body with the same configuration and restores the last saved state vector continues with bit-identical states and derivatives to the process that never crashed. Nothing besides configuration and state vector is needed to resume.",
 [K,H,C,S],"every crash point, checkpoint age (with replay of logged commands), body kind, method and command history",
 "Tests never restore a saved state into a fresh process and continue.",
 [B],[('state accessor and setter',B+':BaseEntity.state'),('memoryless step',B+':BaseEntity.step')],['entity.state and state_dot in the restarted process'])
p('D02','Identical inputs give identical histories in any process and environment',
 "The same configuration, commands and ticks produce bit-identical states, derivatives, trajectories, errors and warnings on every run, regardless of wall-clock time, hash seed, ambient random-number state, floating-point error settings, warning filters, working directory, the absence of the optional JAX package (for bodies that do not use it), or what else the process did before.",
 [H,F,C,S],"every history and every perturbation of the ambient process environment",
 "Tests run once in one environment.",
 [B,AB+'controlled_f16.py'],[('pure state transition',B+':BaseDynamics.step'),('stateless controller',LL+'low_level_controller.py:LowLevelController')],['digest of all observations in separate processes'])
p('V01','Every accessor agrees with the state vector at every instant',
 "At every point of a history each named accessor, vector accessor, orientation and unit-carrying accessor of a body reports the same physical quantity its current state vector holds, in the units its name and model document, and conversion to any compatible unit preserves the quantity. Reading accessors in any order and number never changes the body.",
 [H,I,C,S],"every body kind, reachable or assigned state, read schedule and target unit",
 "Tests compare a few attributes after a few steps and never check that views stay mutually consistent through histories, assignments and unit changes.",
 [PM,RM,SD,DU,IN,B],[('accessors',DU+':BaseDubinsAircraft'),('unit accessors',B+':BaseEntity.x_with_units'),('orientation',RM+':CWHRotation2dSpacecraft.orientation')],['all public properties'])
p('V02','Relative position and velocity reflect the world at the instant of asking',
 "For any two spacecraft registered in a world, the reported relative position and velocity equal the other body's current value minus one's own, are antisymmetric, compose along chains of bodies, and follow removals, replacements and re-registrations of names immediately, whether or not the other body is registered as the lead. Asking never changes either body, and asking about an absent name is an error without side effects.",
 [S,H,C,F],"every interleaving of ticks, queries, registrations, replacements and removals over mixed-kind worlds",
 "Tests query once in a static two-body setup.",
 [PM,RM,SD],[('relative queries',PM+':CWHSpacecraft.entity_relative_position'),('world reference',SD+':SixDOFSpacecraft.set_sim')],['entity_relative_position / entity_relative_velocity'])
p('Q01','Equality means same kind and same motion state, at every point of a history',
 "At any instant two bodies of the same kind compare equal exactly when all their motion states (position, velocity, attitude and body rates as far as the kind has them; for aircraft also the acceleration they are undergoing) agree; bodies of different kinds or other objects never compare equal, and a difference in any single motion state makes them unequal. Two bodies fed the same history stay equal, a body restored from a snapshot equals its origin (an aircraft once it also undergoes the same acceleration), all suns are the same sun, names play no part, and comparing has no side effects.",
 [H,I,C,S],"every pair of bodies, history, single-element divergence and restore point",
 "Tests do not compare bodies after diverging or converging histories.",
 [PM,RM,SD,DU,IN],[('equality operators',DU+':Dubins3dAircraft.__eq__'),('equality operators',IN+':Integrator2d.__eq__')],['== and != between bodies'])
p('U01','A body spawns exactly as configured, in whatever units it was configured',
 "A body spawned at any time with values given as plain numbers (in the documented base units) or as quantities in any compatible unit starts at exactly that physical state (to single precision) with zero derivative (integrator bodies take plain numbers only), all unspecified values at their documented defaults, whatever other bodies exist or were rejected before. Values with incompatible units are refused, and the caller's values stay as they were.",
 [C,I,H,F],"every combination of configured fields, units, defaults and spawn instants in a world history",
 "Tests spawn with a few fixed unit examples on some bodies.",
 [B,PM,RM,SD,DU,IN,SU],[('unit conversion at validation',B+':build_unit_conversion_validator_fn'),('state construction',SD+':SixDOFSpacecraft._build_state')],['entity.state and accessors right after construction'])
p('E01','The fixed-step simulator integrator keeps time and state consistent under faults',
 "The flight simulator's fixed-step integrator visits exactly the grid start+k*step, lands exactly on the end time and stops there, applies one forward-Euler update per step, and its dense output interpolates linearly between the last two points. A failing derivative evaluation leaves time, state and status unchanged so that the step can be retried; steps after the end change nothing, a step that is not positive or an end that is not after the start is refused, and the caller's initial state is never modified.",
 [F,H,I,S],"every start/end/step triple (including steps that do not divide the span and near-integer ratios), derivative function, failure schedule and interleaving of several integrators",
 "The integrator has no tests.",
 [AB+'util.py'],[('fixed-step integrator',AB+'util.py:Euler.step'),('dense output',AB+'util.py:Euler.dense_output')],['t, y, tprev, yprev, status, dense_output'])
p('F01','The F-16 controller is a memoryless, saturated function of its inputs',
 "For any state and reference, however they were reached (including corrupted and extreme finite sensor values), the commanded throttle and surface deflections lie within the actuator limits, and the result depends only on the arguments: it is the same whatever aircraft, controllers or calls were interleaved before. Neither the caller's state or reference arrays nor any shared controller data are modified, a controller whose own gains or limits were adjusted follows them and no other does, and controllers, actuator limits, fixed-step integrators and safety limits refuse attributes they do not have, unchanged.",
 [S,F,I,H],"every interleaving of several aircraft sharing one or several controllers, sensor corruption, and extreme states",
 "There are no tests for the controller.",
 [LL+'low_level_controller.py',AB+'controlled_f16.py'],[('saturation',LL+'low_level_controller.py:LowLevelController.get_u_deg'),('class-level gains',LL+'low_level_controller.py:LowLevelController')],['return values, argument arrays, repeated evaluation'])
p('S01','The safety verifier accepts a recorded flight exactly when it is safe',
 "For any recorded flight and limits, verification passes if and only if every recorded tick satisfies every configured limit on altitude, load factor and angle of attack (bounds included), wherever in the recording a violation occurs and whether or not controller states were recorded. Limits that are not configured (absent or None) are ignored, recordings with the wrong number of columns or missing ticks of a needed list are refused, verification may be repeated and limits changed in between, and neither the recording nor the limits are modified.",
 [H,F,C,I],"every recorded flight, limit configuration, and corruption of single ticks or truncation of the recording",
 "The verifier has no tests.",
 [AB+'util.py'],[('verification loop',AB+'util.py:SafetyLimitsVerifier.verify'),('limits',AB+'util.py:SafetyLimits')],['AssertionError or normal return of verify'])
p('S02','Splitting a multi-aircraft recording loses and mixes nothing',
 "Extracting each aircraft from a recording of several aircraft yields exactly that aircraft's own states, derivatives, controls, load factors and roll rates, tick by tick, with the shared times, modes and status; together the extractions account for every recorded value once. An aircraft index that was not recorded is refused or yields nothing, never another aircraft's values. A single-aircraft recording is returned unchanged and the original recording is never modified.",
 [H,S,C,I],"every number of aircraft, interleaved simulation schedule and presence or absence of extended states",
 "There are no tests for recordings.",
 [AB+'util.py'],[('extraction',AB+'util.py:extract_single_result')],['returned result dictionary'])
p('P01','Looking ahead with a body\'s dynamics is exact and leaves no trace',
 "Stepping a body's dynamics object directly, from any state under any in-range control, at any point of a history, gives the very state and rate that a body of that configuration really reaches under that command, and rolling it forward predicts the flight the body then makes. The derivative it evaluates is the system part plus the input part times the control, within the configured limits. However many look-aheads are made (between ticks or from another thread, successful or failing, on one dynamics object shared by several bodies), they modify neither their arguments nor the motion of any body.",
 [H,I,S,F,C],"every body kind and user model, look-ahead instants, start states (current, other, at or beyond limits), control sequences, failing look-aheads, shared dynamics objects, overwritten arguments and results, preemption between planner and simulation threads",
 "No test calls the dynamics of a flying body from outside its own tick, or lets two bodies share a dynamics object.",
 [B,PM,RM,SD,SU,DU,IN],[('transition',B+':BaseDynamics.step'),('derivative',B+':BaseODESolverDynamics.compute_state_dot'),('system and input parts',B+':BaseControlAffineODESolverDynamics._compute_state_dot')],
 ['return values of dynamics.step / compute_state_dot / state_transition_*','entity.state and state_dot of every body'])
p('X01','User-built bodies work in their own unit system and configuration fields',
 "A body that a user derives from the base classes with its own unit system, validated configuration fields and defaults spawns from plain numbers in those units or quantities in any compatible unit at exactly the configured values, fields that are not measurements are held exactly as given, and every inherited unit-carrying accessor reports its state in that unit system, convertible to any compatible unit, throughout its history. Values of incompatible dimension, unknown or missing fields are refused without side effects, and bodies with different unit systems never affect one another.",
 [C,H,I],"every combination of length, time, angle and mass units (named or as unit objects), fields with and without defaults, classes refined further, interleaved designs, spawns, refusals, ticks and readings",
 "Tests only use the shipped bodies, all in one of two unit systems.",
 [B],[('unit systems',B+':BaseUnits'),('conversion',B+':build_unit_conversion_validator_fn'),('validated configuration',B+':BaseEntityValidator'),('unit accessors',B+':BaseEntity, BaseRotationEntity')],
 ['entity.config, state and *_with_units accessors'])
p('G01','The host process is left as it was found',
 "Importing the library and building, stepping, reading, comparing, rejecting, failing, interrupting (at any point) or verifying anything with it leaves every process-wide setting other software depends on as it was (numpy error state and print options, warning filters, random generators, environment, working directory, recursion limit, locale, decimal and garbage-collector settings, signal handlers, logging, unit registry, JAX configuration, third-party functions) and writes nothing to standard output or disk.",
 [H,F,K],"every mix of operations over all parts of the library, seeded initial settings, model failures, rejected requests and exceptions injected at any executed line",
 "Tests never look at process-wide state, least of all after an operation that was aborted halfway.",
 [B,PM,RM,SD,SU,DU,IN,AB+'util.py',AB+'controlled_f16.py'],[('ticks',B+':BaseEntity.step'),('solver',B+':BaseODESolverDynamics._step'),('F-16 evaluation',AB+'controlled_f16.py:controlled_f16'),('verification',AB+'util.py:SafetyLimitsVerifier')],
 ['process-wide settings, standard output and working directory around every call'])
p('M01','Worlds run forever in bounded memory and discarded bodies are released',
 "However long a world runs, and whatever durations, commands, assignments, rejected requests, failed ticks, readings, look-aheads, F-16 evaluations, integrations or verifications its history contains, the memory the library holds does not grow with the number of operations. Bodies, dynamics, controllers, integrators and recordings that nobody refers to any more are released, also while other bodies and registries live on.",
 [H,F],"every body kind and configuration, F-16, integrator, verifier, spawn/discard and registry workloads with ever-changing inputs and failures",
 "Tests run for a handful of ticks; growth only shows over thousands.",
 [B,PM,RM,SD,SU,DU,IN,AB+'util.py',AB+'controlled_f16.py'],[('ticks',B+':BaseEntity.step'),('recorded trajectory',B+':BaseODESolverDynamics._step'),('fixed-step integrator',AB+'util.py:Euler')],
 ['reachable objects and bytes after long stretches; weak references to discarded objects'])
p('N01','Trim searches see the documented cost, whatever was evaluated before',
 "Throughout any interleaving of F-16 trim searches (in one thread or several), resets, changed flight conditions and aborted evaluations, the cost of a guess is the documented weighted trim residual of the aircraft for that guess, the requested condition (level, climb, coordinated turn, pull-up), the aerodynamic model and the elements of the working vectors that are neither guessed nor constrained: it never depends on anything evaluated earlier, elsewhere or interrupted. An evaluation places the guess and the condition's constraints (including engine power) in the caller's state and control vectors and leaves their other elements, the guess and the condition as they were.",
 [H,F],"every flight condition, guess layout, model, starting vectors and interleaving of searches","There are no tests for the trim helpers.",
 [LL+'clf16.py',LL+'conf16.py',LL+'subf16_model.py'],[('trim cost',LL+'clf16.py:clf16'),('trim constraint',LL+'conf16.py:conf16')],['cost and working vectors after every evaluation'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
print(len(P))

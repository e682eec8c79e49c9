import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))
S='optax/_src/'
tr,wr,sc,al,co,la,cl,cn,pr,up,cv,li,nu,ut=[S+x+'.py' for x in 'transform wrappers schedule alias combine lookahead clipping constrain privacy update control_variates linear_algebra numerics utils'.split()]
ALL=[al,tr,wr,sc,co,la,cl,cn,pr]
p('P01','Resuming after a crash equals never having crashed',
 'If a training process is killed at any point, and a new process builds the same optimizer, restores the newest parameters and optimizer state that were durably saved and consumes the same gradients from there, then every later update, state and parameter is exactly what an uninterrupted run would have produced. Everything an optimizer remembers is in the state value it returns, and that value survives conversion to plain host arrays and back.',
 ['crash_points','fault_sequences','configurations','histories'],
 'every optimizer, transformation and composition of them, every gradient history, every crash point, every pattern of torn, lost, stale or failed checkpoint writes',
 'Tests run each optimizer start to end in one process; none saves and restores a state, and a memory kept outside the state is invisible to them.',
 ALL,[('init/update pairs are closures without memory of their own; all memory is in returned NamedTuples',tr+', '+wr+', '+sc),('PRNG keys and step counters are carried in the state',tr+' add_noise, '+pr)],
 [('*State tuples','all that is remembered between steps',tr+', '+wr+', '+sc+', '+la)],['GradientTransformation.init/update','apply_updates'])
p('P02','Trainers sharing one optimizer object cannot disturb each other',
 'One transformation object may be used by any number of training runs at once, each with its own parameters, gradients and state and even differently structured trees. However their init and update calls interleave, including a thread being preempted in the middle of a call, each run gets exactly the results it would have got alone.',
 ['schedules','configurations','histories'],
 'every optimizer and composition, any number of trainers, every interleaving of their calls and of the lines within the calls',
 'Tests use each object from one thread, for one tree, sequentially; no interleaving is ever exercised.',
 ALL,[('no module or closure level mutable state; update builds new values',tr+', '+wr+', '+sc+', '+co)],
 [('closures of the factories','hyperparameters only, never per-run data',tr)],['GradientTransformation.init/update from several threads'])
p('P03','An aborted or repeated update call leaves no trace',
 'Calling init or update never changes the gradients, state or parameters it is given. So a call whose result is dropped, that is executed several times with the same arguments, that is re-executed later with old arguments, or that is interrupted by an exception at any point inside it has no effect, and calling it again with those arguments returns exactly what a single undisturbed call would have returned.',
 ['crash_points','fault_sequences','histories','configurations'],
 'every optimizer and composition, every line at which an exception can surface, every pattern of retries, speculative executions and stale re-executions, arguments held in device arrays, host arrays and mutable containers',
 'Tests never raise inside an update, never compare arguments before and after, and never call update twice with the same arguments.',
 ALL,[('updates are built by tree maps into fresh containers',tr+', '+wr),('the hyperparameter dictionary is copied before it is changed',sc+' inject_hyperparams')],
 [('InjectHyperparamsState.hyperparams','a mutable dictionary inside a state',sc)],['arguments before and after the call','result of the retried call'])
p('P04','Eager, compiled, looped and batched execution agree',
 'An optimizer computes the same trajectory of updates and states, up to floating point rounding, whether its update is run operation by operation, compiled, as the body of a compiled loop over many steps, or vectorised over many independent training runs. Execution may switch between these at any step of a run without changing the trajectory.',
 ['schedules','configurations','histories'],
 'every optimizer and composition, every gradient history, every assignment of execution mode to steps',
 'The variants tests run a handful of functions for a few steps, entirely in one mode, and never under a loop or batched.',
 ALL,[('branches on data are expressed with lax.cond or select',wr+', '+tr+', '+la),('no Python level dependence on traced values',tr+', '+sc)],(),['update under jit, scan, vmap and eagerly'])
p('P05','State structure, shapes and dtypes never change during training',
 'From init on, through every update, crash and restore, the optimizer state keeps the same tree structure and every part of it the same shape and dtype, so a compiled training step is traced exactly once and can be the body of a loop. Updates keep the structure and shapes of the gradients, and applying them keeps the structure, shapes and dtypes of the parameters.',
 ['histories','configurations','crash_points'],
 'every optimizer and composition, every tree of parameters including scalars, empty subtrees and mixed or low precision, any number of steps and restores',
 'Tests check dtypes of a few transformations after one step in a fixed tree.',
 ALL+[up],[('states initialised with zeros_like/full_like of params and int32 counters',tr),('apply_updates casts to the dtype of the parameters',up)],(),['tree structure, shape and dtype of state, updates and params','number of traces of the compiled step'])
p('P06','A chain is its members applied in order, each with its own state',
 'A chain passes the gradients through its members in the order given, handing each member its own state and all of them the same parameters, and so gives exactly what calling the members by hand one after the other gives, at every step of every history. Nesting chains makes no difference to the updates, and a state with the wrong number of members is refused.',
 ['programs','histories','fault_sequences'],
 'every list and nesting of transformations, every gradient history, aborted calls and crash recovery in between',
 'Tests chain a few fixed transformations for a few steps.',
 [co,al],[('chain',co)],[('list of member states','position i belongs to member i',co)],['updates and state of chain.update'])
p('P07','apply_if_finite: bad gradients are skipped without side effects',
 'While non-finite gradients arrive, at most the configured number in a row, the wrapped optimizer returns zero updates and its inner state is untouched, so the run continues as if those gradients had never arrived; once the number in a row exceeds the limit they are let through to the inner optimizer until a finite one arrives. The reported counters give the current run of non-finite gradients, whether the last one was finite, and the total number of non-finite ones.',
 ['fault_sequences','histories','crash_points'],
 'every placement of NaN and infinities in any leaf and element, every length and grouping of bad runs, every limit including zero, every inner optimizer, crashes between steps',
 'The test uses one inner optimizer, and one fixed sequence of a few bad gradients.',
 [wr],[('apply_if_finite',wr)],[('ApplyIfFiniteState','notfinite_count, last_finite, total_notfinite, inner_state',wr)],['updates, counters and inner state'])
p('P08','MultiSteps: the inner optimizer sees exactly one batch per k mini-steps',
 'With gradient accumulation over k mini-steps every gradient contributes exactly once: on each k-th mini-step the inner optimizer is called once with the mean (or sum) of the gradients since its previous call, and with the current parameters, and its updates are returned; on all other mini-steps the updates are zero and the inner state is unchanged. When k follows a schedule it is evaluated at the number of completed inner updates, and the counters and has_updated report exactly these events.',
 ['histories','schedules','crash_points','configurations'],
 'every k and schedule of k, mean or sum, every inner optimizer, every gradient history, a crash or restore at any mini-step',
 'Tests use two or three fixed k and sgd/adam for a few steps.',
 [wr],[('MultiSteps',wr)],[('MultiStepsState','mini_step, gradient_step, inner_opt_state, acc_grads',wr)],['updates, counters, has_updated, inner state'])
p('P09','maybe_update: inner optimizer runs only on the chosen steps',
 'The predicate is asked once per call with the number of earlier calls. When it says yes the inner update is applied, otherwise gradients and the inner state pass through untouched, and the call counter advances either way.',
 ['histories','schedules','crash_points'],
 'every predicate of the step, every inner transformation, every gradient history, crashes and restores at any step',
 'One test with a fixed predicate and inner transformation.',
 [wr],[('maybe_update',wr)],[('MaybeUpdateState','inner_state, step',wr)],['updates, step and inner state'])
p('P10','apply_every: emits each accumulated sum once, and recovers',
 'The transformation emits, on every k-th call, the sum of the k gradients received since the last emission, and exactly zero on all other calls. A non-finite gradient affects only the one emission whose period it belongs to.',
 ['histories','fault_sequences','crash_points'],
 'every k, every gradient history including corrupted ones, every number of periods, crashes at any step of a period',
 'One equivalence test with fixed k over a short history of finite gradients.',
 [tr],[('apply_every',tr)],[('ApplyEvery','count within the period, accumulated gradient',tr)],['updates'])
p('P11','lookahead: slow and fast parameters follow the two-loop algorithm',
 'Between synchronisations the fast parameters follow the inner optimizer, which sees the fast parameters, and the slow ones do not move at all; on every period-th step the slow parameters move by the given fraction towards the fast ones and the fast parameters are set to them. If asked to, the inner optimizer starts afresh from its initial state after each synchronisation, whatever its state was.',
 ['histories','fault_sequences','crash_points','configurations'],
 'every period, slow step size, inner optimizer and reset choice, every gradient history including non-finite ones, crashes at any point of a period',
 'Tests use an sgd-like inner optimizer with constant gradients over two periods.',
 [la],[('lookahead, _lookahead_update',la)],[('LookaheadState','fast_state, steps_since_sync',la),('LookaheadParams','fast and slow parameters',la)],['fast and slow parameters after apply_updates','fast_state after a synchronisation'])
p('P12','masked: unselected parameters are neither seen nor touched',
 'The inner transformation behaves exactly as if the tree held only the selected leaves or subtrees, with their parameters and state, and its updates are put back in their places. Gradients of unselected leaves pass through bit for bit, and nothing in them, not even NaN, influences the selected ones or the inner state.',
 ['inputs','configurations','histories','fault_sequences'],
 'every mask (full tree, prefix, or function of the tree), every tree shape and inner transformation, every gradient history with corruption confined to unselected leaves',
 'Tests use two or three fixed masks and trees for one or two steps.',
 [wr],[('masked',wr)],[('MaskedState','inner state for the selected leaves only',wr)],['updates and inner state'])
p('P13','flatten: same result as one concatenated vector, in any tree',
 'Flattening a tree around an inner transformation gives exactly the result of running that transformation on the concatenation of all leaves and splitting the result back in order, and hence for elementwise transformations the same as not flattening, in every step of every history.',
 ['configurations','histories','crash_points'],
 'every tree of same-dtype leaves including scalars and size-one leaves, every inner transformation with or without params, every history',
 'One test with one tree and two optimizers.',
 [wr],[('flatten',wr)],[],['updates and inner state'])
p('P14','inject_hyperparams: every update uses the values current at that step',
 'Each update behaves as the inner transformation built with the hyperparameters current at that step: scheduled ones have the value of their schedule at the number of the update (the first update is number one), unscheduled numeric ones have the value last written to the state, whenever that was, and writes to scheduled ones have no effect. The state reports the values used by the last update and the number of updates.',
 ['histories','schedules','crash_points','configurations'],
 'every subset of scheduled, constant, overridden and static hyperparameters, every time of an override, every history, crashes and restores at any step',
 'Tests override once and follow one schedule over a few steps.',
 [sc],[('inject_hyperparams',sc)],[('InjectHyperparamsState','count, hyperparams, inner_state',sc)],['updates, hyperparams and count'])
p('P15','A scheduled learning rate follows the count of its own updates',
 'An optimizer given a schedule as learning rate applies at its n-th update, counting from zero, minus the value of the schedule at n, and nothing else about the optimizer depends on that value. This remains so for any history, for schedules in any position of a composition, and after any crash and restore.',
 ['histories','schedules','crash_points'],
 'every optimizer that accepts a schedule, every schedule, every history and crash point',
 'Tests compare one scheduled sgd to a constant one for a few steps.',
 [al,tr],[('scale_by_schedule',tr),('_scale_by_learning_rate',al)],[('ScaleByScheduleState.count','number of updates so far',tr)],['updates'])
p('P16','Schedules have their documented value at every step of the clock',
 'Each schedule has its documented value at every step: constant before it begins, the documented curve between its boundaries, the final value after the end, continuous where documented, always finite, and the same for Python integers, host and device integers, whether or not compiled. The value depends on the step alone, so a step clock that jumps, is rolled back or repeats after a restore always gives the same values.',
 ['schedules','configurations','histories'],
 'every schedule constructor and composition of schedules, all parameters, every step from zero to beyond the end including each boundary and its neighbours, every sequence of clock jumps and rollbacks',
 'Tests follow a few parameter choices for one pass over the steps in order.',
 [sc],[('*_schedule, exponential_decay, join_schedules',sc)],[],['values of the schedule'])
p('P17','Step counters never overflow',
 'In a run of any length step counters saturate at the greatest value of their type and never become negative or restart, user schedules and predicates are given the exact number of steps however large it is, and every counting optimizer still gives finite updates with its counter at or near saturation.',
 ['histories','configurations'],
 'every counting transformation and wrapper, counters restored at, just before and at any distance from the limit, any number of further updates',
 'Only the increment function itself is tested at the limit, not the transformations that should use it, and no test runs more than a few hundred steps.',
 [nu,tr,wr,sc],[('safe_int32_increment',nu),('count fields',tr+', '+wr+', '+sc)],[('count','number of updates',tr)],['count fields and updates near the limit'])
p('P18','Adam-family optimizers compute their published recurrences',
 'Adam, AdamW, AdaBelief, RAdam and Yogi and their scaling transformations follow their published recurrences for first and second moments, bias correction and rectification on every step of every gradient history, with decay rates, epsilon placements, weight decay and learning rate used as documented.',
 ['histories','configurations','fault_sequences'],
 'all hyperparameters, trees and gradient histories, with lost, repeated, delayed and spiking gradients and crashes in between',
 'Tests check convergence on two functions with default parameters, which many wrong recurrences also achieve.',
 [al,tr],[('scale_by_adam, scale_by_belief, scale_by_radam, scale_by_yogi',tr),('adam, adamw, adabelief, radam, yogi',al)],[('ScaleByAdamState','count and the two moments',tr)],['updates'])
p('P19','Momentum and accumulator optimizers compute their documented sums',
 'SGD with plain or Nesterov momentum, traces and moving averages of updates (debiased or not, with any accumulator type), RMSProp plain and centered, Adagrad and SM3 follow their documented recurrences on every step of every gradient history.',
 ['histories','configurations','fault_sequences'],
 'all hyperparameters, trees and gradient histories, with lost, repeated, delayed and spiking gradients and crashes in between',
 'Tests check convergence or equivalence with another library for a few steps with default parameters.',
 [al,tr],[('trace, ema, scale_by_rms, scale_by_stddev, scale_by_rss, scale_by_sm3',tr),('sgd, rmsprop, adagrad, sm3',al)],[('TraceState, EmaState, ScaleBy*State','accumulators',tr)],['updates'])
p('P20','Layer-wise scaling, weight decay and centralising act as documented',
 'Trust-ratio scaling (and LAMB and Fromage built on it) scales each leaf by the ratio of parameter norm to update norm with its minimum and falls back to one when either is zero, weight decay adds exactly its multiple of the current parameters after the moments are taken, and centralising removes the mean over all but the first axis of leaves with at least two axes. This holds at every step for the parameters current at that step.',
 ['histories','configurations','fault_sequences'],
 'all hyperparameters, trees of any rank with zero or tiny leaves, all histories including lost gradients and frozen parameters',
 'Tests run two functions to convergence; centralize is checked on one matrix; zero norms are never reached.',
 [al,tr,nu],[('scale_by_trust_ratio, add_decayed_weights, centralize, scale',tr),('lamb, fromage, adamw',al),('safe_norm',nu)],[],['updates'])
p('P21','Finite gradients never produce non-finite updates',
 'With every optimizer at sensible hyperparameters a history of finite gradients of moderate size never leads to a NaN or infinity in updates, state or parameters, however many of them are zero, lost, repeated for a long time, tiny or sudden spikes, and whatever happened before.',
 ['histories','fault_sequences','configurations'],
 'every optimizer and scaling transformation, every history of finite gradients including long stuck runs and all-zero ones, zero parameters, scalars',
 'Tests feed well-behaved gradients over short histories; accumulated rounding and zero denominators are not reached.',
 [al,tr,cl,nu],[('eps terms, safe_norm, where guards on zero accumulators',tr+', '+nu+', '+cl)],[],['updates, state and parameters'])
p('P22','Clipping bounds the damage of any one gradient',
 'After clipping, no element exceeds the element-wise bound, the global norm does not exceed the norm bound, and under adaptive clipping the norm of each unit does not exceed the given fraction of the norm of its parameters (never taken below epsilon); gradients within the bound pass unchanged, and clipped ones keep their direction (as long as the squares of the elements are representable). So a corrupted finite gradient can move the parameters only by a bounded amount in a step.',
 ['fault_sequences','inputs','histories'],
 'every finite gradient of any size, structure and rank, every bound, at every step of a history with corrupted gradients',
 'Tests check one or two arrays per transformation.',
 [cl,li],[('clip, clip_by_global_norm, adaptive_grad_clip',cl),('global_norm',li)],[],['updates'])
p('P23','NaNs are zeroed and reported; non-negative parameters stay so',
 'Zeroing NaNs replaces exactly the NaN elements by zero, leaves all else including infinities unchanged, and reports per leaf whether the latest gradients contained a NaN. With the non-negativity constraint last in a chain, parameters that start non-negative never become negative in any history, elements whose update keeps them non-negative are updated unchanged, and the others become exactly zero.',
 ['fault_sequences','histories'],
 'every placement of NaN and infinities, every optimizer in front, every history and crash point',
 'Tests use one or two fixed arrays for one step.',
 [cn],[('zero_nans, keep_params_nonnegative',cn)],[('ZeroNansState.found_nan','NaN seen in the last update, per leaf',cn)],['updates, state and parameters'])
p('P24','Private aggregation: one example has bounded influence, noise is fresh',
 'Without its noise, the aggregate is the mean over the batch of the per-example gradients each scaled down, over all leaves together, to at most the clipping norm, so replacing one example by any other moves it by at most twice the clipping norm over the batch size. The noise has standard deviation clipping norm times multiplier over batch size in every element, depends on the seed and step but not on the data, is never used twice, and is independent across leaves, elements and steps; every leaf keeps its dtype.',
 ['fault_sequences','histories','configurations','crash_points'],
 'every batch including one arbitrarily corrupted example, every tree, norm, multiplier, seed and number of steps, restarts from any saved state',
 'Tests check one batch with fixed values, and the noise over one step.',
 [pr,al],[('differentially_private_aggregate',pr),('dpsgd',al)],[('rng_key','source of the noise of the following steps',pr)],['updates, with and without noise'])
p('P25','Gradient noise: documented variance, annealed, fresh at every step',
 'Noise added to the gradients has mean zero and the documented variance, decaying as the documented power of the number of the step, in every element of every leaf. It is a function of the seed and step alone, differs between steps, leaves and elements, is never reused, and is reproduced after a restore.',
 ['histories','configurations','crash_points'],
 'all base variances, exponents, seeds, trees and numbers of steps, every gradient history, restores at any step',
 'The alias test only checks convergence; nothing checks the size of the noise.',
 [tr,al],[('add_noise',tr),('noisy_sgd',al)],[('AddNoiseState','count and rng_key',tr)],['updates minus gradients'])
p('P26','Applying updates and tracking targets',
 'Applying updates adds each update to its parameter and keeps the dtype of the parameter; the incrementally updated target is always the stated convex combination of the new and old values; the periodically updated target equals the online value as of the last step divisible by the period. This holds through any history of steps, skips and clock jumps.',
 ['histories','schedules','configurations'],
 'every tree and mix of dtypes, every step size, period and sequence of step numbers',
 'Tests use one or two trees with one step.',
 [up],[('apply_updates, incremental_update, periodic_update',up)],[],['returned trees'])
p('P27','The moving-average baseline is a running average of observed values',
 'After any history the moving-average baseline is a weighted average of the mean function values observed so far, with the documented decay and, if asked, debiased for its start, so it equals the constant for a constant function and always stays within the range of the observed values. Computing gradients with it advances the state once per call and the result does not depend on anything but the arguments.',
 ['histories','configurations','crash_points'],
 'all decays, debiasing and heuristic choices, all histories of sample batches including outliers, restores at any step',
 'Tests make one or two updates from a zero state.',
 [cv],[('moving_avg_baseline, control_variates_jacobians',cv)],[('(value, step)','debiased average and number of updates',cv)],['the returned state'])
p('P28','Eigenvalue and matrix-root routines ignore ambient random state',
 'The power iteration returns the largest eigenvalue of a positive semidefinite matrix with a gap, and a unit eigenvector of it, and the inverse p-th root multiplied out p times gives the inverse, for every positive integer p, to within tolerance unless the returned error says the iteration gave up, whatever the state of the process-wide random generator that other code draws from or reseeds at any time.',
 ['schedules','inputs','histories'],
 'all well-conditioned matrices and p, every state and interleaved use of the global random generator',
 'Tests check a few matrices with the generator in whatever state it is.',
 [li],[('power_iteration, matrix_inverse_pth_root',li)],[],['eigenvalue, eigenvector, root'])
p('P29','Gradient estimators are unbiased and use each draw as documented',
 'The score-function, pathwise and measure-valued estimators return one row per sample with the shape of the parameter; the rows are the documented function of the draws for the given key, with or without a control variate, and averaged over keys their mean is the exact gradient of the expected function value, for any number of samples, at every point of a training run and after any restart. Estimated control variate coefficients come from other draws than those they are applied to; the moving-average baseline contains the batch it is applied to and so shrinks the score-function estimate by exactly its documented share of that batch. With coupling the positive and negative samples of a measure-valued row move together, without it they are independent. Distributions an estimator does not support are refused. The same key always gives the same rows.',
 ['schedules','histories','inputs','configurations'],
 'every smooth function, dimension, number of samples, estimator, coupling, control variate and coefficient choice; every outcome of the draws including tail, repeated and coinciding ones; every key',
 'Tests use a few functions and fixed keys with many samples and wide tolerances; single rows and few samples are never checked.',
 [S+'stochastic_gradient_estimators.py',cv,ut],[('*_jacobians',S+'stochastic_gradient_estimators.py'),('control_variates_jacobians, control_delta_method, moving_avg_baseline, estimate_control_variate_coefficients',cv),('multi_normal, set_diags',ut)],
 [('control variate state','average of the values and number of updates',cv)],['rows returned','control variate state'])
p('P30','What happens to one parameter stays with that parameter',
 'Except for the transformations documented to combine leaves (global norm clipping, private aggregation, apply_if_finite), the trajectory of each leaf of the parameters depends on its own gradients and values alone: if another leaf receives NaN, infinite, huge, lost or simply different gradients, every other leaf is trained bit for bit as before, and the same holds for single elements under elementwise transformations. Renaming, reordering, regrouping or dropping other leaves makes no difference either.',
 ['fault_sequences','configurations','histories','crash_points'],
 'every composition of leafwise or elementwise transformations and wrappers, every tree, every placement and kind of corruption, every crash and restore',
 'Tests train small fixed trees with clean gradients and never compare a disturbed run to an undisturbed one.',
 ALL,[('updates are tree maps of per-leaf functions',tr+', '+wr+', '+cl),('norms of scale_by_trust_ratio, lamb, fromage and adaptive clipping are per leaf or unit',tr+', '+cl)],
 [('moments, traces and accumulators','one per leaf, same shape',tr)],['updates and parameters of undisturbed leaves'])
p('P31','Training makes progress again once faults stop',
 'After any period of lost, stale, duplicated, reversed, enlarged or (under a guard) non-finite gradients, crashes and restores, an optimizer with ordinary hyperparameters that is fed true gradients of a convex loss brings that loss down to the neighbourhood of its optimum within a bounded number of steps, and never produces non-finite parameters. What it remembers of the fault period is forgotten at the rate its hyperparameters document and never stops it for good.',
 ['fault_sequences','crash_points','histories','configurations'],
 'every convex loss, optimizer, guard and wrapper with ordinary hyperparameters, every finite period of faults, every crash and restore in it',
 'The convergence tests train undisturbed from the start; none disturbs training and requires it to recover.',
 ALL,[('exponential moving averages forget at rate b1, b2, decay',tr),('apply_if_finite and zero_nans drop bad gradients and go on',wr+', '+cn),('every wrapper hands the gradients on',wr+', '+la)],
 [('moments, notfinite_count, gradient_step','what remains of the fault period',tr+', '+wr)],['loss at the parameters after the faults stopped'])
p('P32','A call that cannot be right is refused and leaves no trace',
 'An update without the parameters a transformation needs, with gradients, parameters or a state of another structure than the one it was initialised for, and a configuration outside the documented range raise an error instead of computing something, whenever in a run they occur, eagerly or while being compiled; where parameters are not needed, leaving them out changes nothing. A refused call changes neither its arguments nor any later step of the run.',
 ['histories','configurations','fault_sequences'],
 'every optimizer and composition, every moment of a training run, every kind of misplaced argument, every configuration out of range',
 'Tests provoke a few errors on fresh objects and never look at the run that goes on afterwards.',
 ALL+[S+'stochastic_gradient_estimators.py'],[('NO_PARAMS_MSG checks',tr+', '+cn+', '+cl+', '+la),('chain compares the number of states',co),('range checks of factories',la+', '+sc+', '+pr)],
 (),['exceptions raised by update and by factories'])
p('P33','A training run can be differentiated',
 'The derivative of every later parameter and update of a run with respect to initial parameters, gradients and numeric hyperparameters, carried along by forward-mode differentiation of each step, equals the slope between perturbed runs wherever that slope exists and no norm or second moment is exactly zero (with eps_root also where they are), and reverse mode gives the same. Crashes and restores of values and tangents together, skipped non-finite gradients, accumulation windows and synchronisations do not change it.',
 ['histories','configurations','crash_points','fault_sequences'],
 'every optimizer and composition but SM3, every smooth history, direction, crash and restore',
 'Tests take no derivative of an update; a stopped or NaN derivative is invisible in the values.',
 ALL+[nu],[('where and maximum are arranged for finite derivatives, eps_root',tr+', '+nu+', '+cl),('branches with lax.cond carry derivatives',wr+', '+la)],
 (),['jax.jvp and jax.vjp of update'])
NA=[('P90','Loss functions equal their formulas','Each loss and similarity function returns its documented formula for all inputs, and stays finite and correctly differentiable at extreme inputs.',['inputs'],[S+'loss.py'],'loss functions'),
('P91','Second-order helpers equal the dense derivatives','The Hessian-vector product, Hessian diagonal and Fisher diagonal equal those computed from the dense derivatives for every function and point.',['inputs'],[S+'second_order.py'],'hvp, hessian_diag, fisher_diag')]
for id,t,s,o,f,m in NA:
    p(id,t,s,o,'all inputs','Tests check fixed inputs only.',f,[(m,f[0])])
for x in P: assert len(x['title'])<=80,(x['title'],len(x['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P), [ (x['id'],x['statement'].count('. ')+1) for x in P if x['statement'].count('. ')+1>3])

#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so that the text is easy to edit)."""
import json
import os

S = 'gpgradpy/src/'
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(obs),
                               hook_needed=hook)))


p('C01', 'Every evaluation is the exact posterior, whatever happened before',
  'After any history of data updates, hyperparameter searches, prescribed, stored or current hyperparameters, rejected '
  'calls and calls that were interrupted or failed part-way, whenever the surrogate agrees to evaluate, the mean and '
  'standard deviation it returns are those of the exact (gradient-enhanced) Gaussian process posterior for the present '
  'data, noise and hyperparameters, with the documented nugget, to within round-off amplified by the condition number. '
  'This holds for every kernel, every method against ill-conditioning, known, unknown or zero noise, and for gradients '
  'available at all, some or none of the points.',
  ['histories', 'fault_sequences', 'configurations', 'inputs'],
  'all sessions of up to tens of operations over random configurations, with interrupts at any executed line, failing '
  'factorisations, failing allocations and rejected calls inside the operations',
  'The tests set up one surrogate once, without any fault, and only compare derivatives of the model with finite '
  'differences of itself; the value is compared with nothing and the only tests that pass reliably check a kernel matrix.',
  [S + 'eval/GpEvalModel.py', S + 'GaussianProcess.py', S + 'kernel/', S + 'base/Rescaling.py', S + 'eval/GpMeanFun.py'],
  [('setup of the model and its evaluation', S + 'eval/GpEvalModel.py'), ('kernel matrices', S + 'kernel/Kernel.py'),
   ('scaling of the data', S + 'base/Rescaling.py')],
  [('data', 'evaluation points, values, gradients, their noise', S + 'GaussianProcess.py'),
   ('factorisation', 'what the evaluation is computed from', S + 'eval/GpEvalModel.py')],
  ['eval_model', 'eval_model_var'])

p('C02', 'Returned derivatives are the derivatives of the returned model',
  'After any history (as in C01), the gradients and Hessians that an evaluation returns for the mean, the standard '
  'deviation and the variance are the derivatives of the exact posterior at that point, in the coordinates of the '
  'caller, and agree with differences of the values that the surrogate itself returns. Asking for derivatives never '
  'changes the values that are returned with them (beyond round-off), and the standard-deviation and variance interfaces agree.',
  ['histories', 'fault_sequences', 'configurations', 'inputs'],
  'all sessions with faults as in C01 over kernels, conditioning methods, noise settings and points, including points '
  'close to an evaluated one',
  'Derivative tests exist for a fixed surrogate with all gradients and no rescaling, but most fail or are not stable, '
  'and none runs after an update, after a failed operation or on rescaled data.',
  [S + 'eval/GpEvalModel.py', S + 'kernel/', S + 'base/Rescaling.py'],
  [('chain of derivatives through kernel, posterior and scaling', S + 'eval/GpEvalModel.py'),
   ('derivative scaling', S + 'base/Rescaling.py')],
  obs=['eval_model', 'eval_model_var'])

p('C03', 'A surrogate answers for its present data and hyperparameters or refuses',
  'An evaluation never uses data, hyperparameters or a factorisation other than the present ones: after new data, '
  'after a change of the hyperparameters or of the method against ill-conditioning, the surrogate raises an error until a setup has completed for them, and '
  'after that it answers for exactly them. After a call that failed or was interrupted it either raises an error or '
  'answers exactly for the data and hyperparameters that it then reports. No answer ever mixes two states.',
  ['histories', 'fault_sequences', 'crash_points'],
  'all interleavings of data updates, hyperparameter changes (through calls and in place), setups, evaluations and '
  'interruptions of any of them at any executed line',
  'No test evaluates after a second data update, after changing the hyperparameters or after an interrupted setup.',
  [S + 'GaussianProcess.py', S + 'eval/GpEvalModel.py', S + 'base/GpHpara.py'],
  [('guard at the evaluation', S + 'eval/GpEvalModel.py'), ('invalidation by new data', S + 'GaussianProcess.py')],
  obs=['set_data', 'set_hpara', 'set_custom_hp', 'eval_model'])

p('C04', 'A call that fails, is interrupted or is rejected leaves no trace',
  'When an update of the data or of the hyperparameters ends with an error (invalid input, interrupt, failed '
  'allocation, failed factorisation), the error reaches the caller and the surrogate, its hyperparameters, its '
  'evaluations and its history are exactly what they were before the call. Repeating the call afterwards gives exactly '
  'what it would have given without the failure.',
  ['crash_points', 'fault_sequences', 'histories'],
  'an error at any executed line, linear-algebra call or optimiser callback of any state-changing call, after any '
  'history, including several failures in a row',
  'Tests contain no failing call at all; the guarantee is about every point at which a call can end.',
  [S + 'GaussianProcess.py', S + 'optz/', S + 'base/GpParaDef.py', S + 'eval/GpEvalModel.py'],
  [('state-changing calls take effect completely or not at all', S + 'GaussianProcess.py')],
  obs=['set_data', 'set_hpara', 'eval_model', 'export_data_surr'])

p('C05', 'A run resumed from exported data continues as if never interrupted',
  'If a process ends at any point of an optimisation and a new one creates the surrogate with the same options, loads '
  'the last exported data, provides the same evaluations and restores the stored hyperparameters, its predictions equal '
  'those of the original process, and continuing from there gives the same hyperparameters, predictions and history as '
  'the process that was never interrupted. Loading changes nothing that was exported.',
  ['crash_points', 'histories', 'configurations'],
  'crash after or inside any operation of a session, any number of restarts, any configuration',
  'No test exports, loads or restarts.',
  [S + 'base/GpParaDef.py', S + 'base/GpHpara.py', S + 'optz/GpHparaX0.py', S + 'optz/GpHparaCon.py'],
  [('export and load of the history', S + 'base/GpParaDef.py'), ('restoring hyperparameters of an iteration', S + 'base/GpHpara.py')],
  [('history', 'hyperparameters and diagnostics of every iteration', S + 'base/GpParaDef.py')],
  ['export_data_surr', 'load_data_surr', 'set_hpara', 'eval_model'])

p('C06', 'Saved data survive a crash at any point of saving',
  'Once a save has returned, its data can be loaded after a crash; if a crash, a full disk or an I/O error ends a later '
  'save at any point, the data of the last completed save (or completely those of the new one) are still found on disk '
  'under the documented names, and a save that failed reports the failure. Neither the data nor the text file is ever '
  'found only partly written where a complete one existed. A save that completes keeps what was saved before it under '
  'the name of the previous version, also in a process that was restarted after a crash.',
  ['crash_points', 'fault_sequences', 'histories'],
  'crash, short write, torn write, I/O error or full disk at any file-system operation of any save in a sequence of '
  'saves, under a file system that keeps only what was made durable',
  'No test writes a file; a test on a live file system cannot lose un-synced data.',
  [S + 'base/CommonFun.py', S + 'base/GpParaDef.py', S + 'base/GpInfo.py'],
  [('replacement of the saved file', S + 'base/CommonFun.py')],
  [('saved file and its previous version', 'what survives a crash', S + 'base/CommonFun.py')],
  ['export_data_surr(save2file)', 'get_txt_info_surr(save2file)', 'load_data_surr'])

p('C07', 'A completed hyperparameter search returns the best feasible result in bounds',
  'Whenever a hyperparameter search completes, the hyperparameters are finite and inside the ranges the options allow, '
  'the covariance matrix they give respects the limit on the condition number, and none of the feasible results that '
  'its local optimisations reached is better. What has a closed form (mean, and process variance of '
  'noise-free data) is at its exact optimum, and the start is the most likely one of the sampled candidates.',
  ['configurations', 'histories', 'fault_sequences', 'inputs'],
  'all configurations, data histories and outcomes of the local optimiser (no progress, infeasible or early results, '
  'injected failures of factorisations)',
  'No test looks at the result of a search; the optimiser is never made to misbehave.',
  [S + 'optz/GpHparaOptz.py', S + 'optz/OptzLkd.py', S + 'optz/GpHparaX0.py', S + 'optz/GpHparaCon.py'],
  [('choice of the best result', S + 'optz/OptzLkd.py'), ('choice of the start', S + 'optz/GpHparaX0.py'),
   ('bounds', S + 'optz/GpHparaCon.py')],
  obs=['set_hpara', 'hp_vals', 'the optimiser seam'])

p('C08', 'The optimiser is given the exact likelihood, constraint and their gradients',
  'At every point the optimiser may ask for, in any order, repeatedly, and after failures of factorisations, the value '
  'it is given is the (concentrated) marginal log-likelihood of the present data, the constraint is the condition '
  'number of the regularised matrix, and the gradients are their derivatives. Answers never depend on which points '
  'were asked for before. The same holds for a user who calls calc_lkd_all directly.',
  ['schedules', 'inputs', 'configurations', 'fault_sequences'],
  'all orders of callbacks, points within bounds, kernels, noise settings, conditioning methods and failing '
  'factorisations in between',
  'The likelihood tests compare one gradient with a difference quotient for few settings; none compares the value with '
  'the definition, changes the order of the calls or lets a factorisation fail.',
  [S + 'optz/OptzLkd.py', S + 'optz/CalcLkd.py', S + 'optz/GpHparaGrad.py', S + 'optz/GpHparaCon.py'],
  [('callbacks with memory of the last point', S + 'optz/OptzLkd.py'), ('likelihood', S + 'optz/CalcLkd.py')],
  [('stored likelihood of the last point', 'reused by the next callback at the same point', S + 'optz/OptzLkd.py')],
  ['functions handed to the optimiser'])

p('C09', 'The preconditioned covariance matrix is always well-conditioned',
  'With the preconditioning method and a nugget set by it, every covariance matrix that is factorised, during searches and setups, has a '
  'condition number no larger than the target, for all hyperparameters the search may visit and all data including '
  'points that nearly coincide. The nugget that achieves this is positive, no larger than the documented bound, and '
  'the condition number that is reported and logged is the one of the factorised matrix.',
  ['inputs', 'configurations', 'histories'],
  'all kernels, dimensions, numbers of points and of gradients, noise, hyperparameters within the ranges and near-duplicate points',
  'Tests check three kernels at one matrix for its construction, none for its condition number.',
  [S + 'base/GpWellCond.py', S + 'kernel/', S + 'optz/CalcLkd.py', S + 'eval/GpEvalModel.py'],
  [('nugget', S + 'base/GpWellCond.py'), ('preconditioner', S + 'kernel/Kernel.py')],
  obs=['matrices at the factorisation seam', 'condition number of the set-up model', 'history'])

p('C10', 'Results do not depend on the clock, and durations are never negative',
  'Whatever the clocks do (stand still, run fast, jump forwards or, for the wall clock, backwards, differ between '
  'reads), hyperparameters, predictions and everything else in the history are the same. Recorded durations are '
  'finite, never negative, never more than the time that passed during the call and not zero where the clock advanced.',
  ['schedules', 'fault_sequences', 'histories'],
  'all sequences of clock readings over all sessions',
  'Tests run on a clock that behaves and look at no duration.',
  [S + 'optz/', S + 'base/GpParaDef.py'],
  [('duration measurements', S + 'optz/GpHparaOptz.py')],
  obs=['hp_vals', 'eval_model', 'history'])

p('C11', 'Same calls, same results: no influence from or on the rest of the process',
  'The same sequence of calls gives identical hyperparameters, predictions and history, whatever the state of global '
  'random generators, floating-point error settings and warning filters (other than turning them into exceptions), environment, working directory, hash seed or '
  'memory layout of the arrays. None of these is changed for the caller, also when a call fails.',
  ['schedules', 'histories', 'configurations', 'fault_sequences'],
  'all sessions, all perturbations of the surrounding process between any two calls',
  'Tests run once, in one process state.',
  [S + 'optz/GpHparaX0.py', S + 'optz/OptzLkd.py', S + 'GaussianProcess.py'],
  [('seeded sampling', S + 'optz/GpHparaX0.py')],
  obs=['hp_vals', 'eval_model', 'history', 'numpy and random state'])

p('C12', 'Surrogates are independent, also when used from several threads',
  'Several surrogates in one process, used one after the other, alternately or each from its own thread with any '
  'interleaving, each behave exactly as if they were alone. A failure or interrupt in one has no effect on another.',
  ['schedules', 'histories', 'fault_sequences', 'configurations'],
  'all interleavings at the granularity of executed lines of two or three threads, each with its own surrogate, and all '
  'alternations of calls',
  'Tests use one surrogate at a time in one thread.',
  [S + 'GaussianProcess.py', S + 'kernel/Kernel.py', S + 'optz/'],
  [('state is kept per instance', S + 'GaussianProcess.py')],
  obs=['hp_vals', 'eval_model', 'history'])

p('C13', 'Evaluating reads only: repeatable, order- and batch-independent, concurrent',
  'An evaluation of the model, or of the likelihood with calc_lkd_all, changes nothing: repeating it gives identical results, the points given are not modified, and results '
  'handed out earlier never change. A point gets the same answer (to round-off) alone, in any batch and at any position '
  'in it, and concurrent evaluations of one surrogate, also when some of them are interrupted, give what sequential '
  'ones give.',
  ['schedules', 'inputs', 'histories', 'fault_sequences'],
  'all interleavings at executed lines of concurrent evaluations, all batches, all interruptions',
  'Tests evaluate single points once, in one thread.',
  [S + 'eval/GpEvalModel.py', S + 'kernel/', S + 'base/Rescaling.py'],
  [('evaluation without side effects', S + 'eval/GpEvalModel.py')],
  obs=['eval_model', 'eval_model_var'])

p('C14', 'The surrogate owns its data: callers and surrogate share no memory',
  'Changing, after any call, any array of evaluations, points or stored results that was given to the surrogate, or any '
  'result of an evaluation or export that it returned, never '
  'changes what the surrogate does, and no call modifies what the caller gave it. An export is a snapshot: later '
  'operations do not change it.',
  ['histories', 'schedules', 'configurations'],
  'all sessions with overwriting of given or returned arrays between any two calls, all memory layouts',
  'Tests never modify an array after handing it over.',
  [S + 'GaussianProcess.py', S + 'base/GpParaDef.py', S + 'base/Rescaling.py', S + 'base/GpHpara.py'],
  [('copies at the boundary', S + 'GaussianProcess.py')],
  obs=['set_data', 'set_hpara', 'eval_model', 'export_data_surr', 'load_data_surr'])

p('C15', 'The history is exact: one row per iteration, never altered afterwards',
  'The history has, for every completed search, in the row of its iteration, exactly the hyperparameters that the '
  'surrogate then used, and diagnostics (condition number, whether it is at its limit, nugget, counts, fractions) that '
  'are those of that search (with rescaling: of its first pass); rows of iterations that were not completed stay empty. No other call changes a row, and '
  'closing the history keeps exactly the completed rows.',
  ['histories', 'fault_sequences', 'crash_points'],
  'all sessions including repeated, failed and interrupted iterations, restored hyperparameters and restarts',
  'No test reads the history.',
  [S + 'base/GpParaDef.py', S + 'optz/GpHparaOptz.py', S + 'optz/OptzLkd.py'],
  [('storing of a row', S + 'base/GpParaDef.py')],
  [('history', 'arrays with one row per iteration', S + 'base/GpParaDef.py')],
  ['export_data_surr', 'finish_optz_surr'])

p('C16', 'Rescaled data are consistent in every view after any update',
  'After any sequence of changes to shifts, scales, points, objective, constraint and bound data, in any order and with '
  'rejected or interrupted changes in between, the scaled data are the stated affine image of the original data, the '
  'required distance between points is met, and mapping to scaled coordinates and back gives the original values, '
  'standard deviations, gradients and Hessians. Derivatives obey the chain rule, scaled bounds and linear constraints '
  'accept exactly the images of the points that the original ones accept, and the original data never change.',
  ['histories', 'inputs', 'fault_sequences', 'crash_points'],
  'all sequences of updates with rejected and interrupted ones, all dimensions and methods',
  'No test of the rescaling exists.',
  [S + 'base/Rescaling.py', S + 'base/GpWellCond.py'],
  [('recalculation of all scaled data after an update', S + 'base/Rescaling.py')],
  [('shift and scale', 'the affine map', S + 'base/Rescaling.py')],
  ['Rescaling'])

p('C17', 'Several surrogates can share one store without mixing',
  'Surrogates with different names export into and load from one shared set of data, in any order and with crashes, '
  'failed or interrupted exports in between, and each gets back exactly what it exported last, nothing of another. '
  'Data of a surrogate of another dimension, data with more iterations than there is room for, and incomplete data are '
  'refused with an error and change neither the history nor what is evaluated.',
  ['histories', 'crash_points', 'configurations'],
  'all orders of exports, merges, loads and failures of two or three surrogates of different configurations',
  'No test exports or loads.',
  [S + 'base/GpParaDef.py'],
  [('names with a prefix per surrogate', S + 'base/GpParaDef.py')],
  obs=['export_data_surr', 'load_data_surr'])

p('C18', 'Loading results gives exactly the files in order or an error',
  'Loading a list of result files returns for every file, in order, exactly the stored values (clipped to the requested '
  'number of iterations, missing entries marked), the same ones for each of the three quantities. A missing, torn, '
  'truncated or unreadable file, or one that fails while being read, gives an error and never partial or old data, no '
  'file is modified, and no file remains open. The best value up to each iteration of what was loaded is the running '
  'minimum (or maximum) of the values there are, up to the last one, and those are the curves that are drawn.',
  ['fault_sequences', 'inputs', 'configurations'],
  'all lists of files of different sizes with read errors, short reads, truncations and missing arrays at any point',
  'No test loads a file.',
  ['gpgradpy/results/PltOptzResults.py'],
  [('loader', 'gpgradpy/results/PltOptzResults.py')],
  obs=['load_npz_data', 'best_at_all_iter', 'plt_conv_nx0', 'open files'])

p('C19', 'A search survives failing factorisations and always ends',
  'When Cholesky factorisations fail during a hyperparameter search, for any subset of the trial points, the search '
  'still ends within a bounded number of factorisations and either gives a valid, completely set up surrogate or an '
  'error, which also comes when a surrogate is evaluated whose chosen point could not be factorised; an error changes nothing and the search can be repeated. Failures at isolated trial points do not fail the search, a point whose matrix is too ill-conditioned to be factorised is never '
  'chosen, and the number of failures that is logged is the number of starting points that could not be factorised.',
  ['fault_sequences', 'schedules', 'configurations'],
  'all patterns of failing factorisations (single, bursts, by condition number, random, all), optimiser outcomes and configurations',
  'Factorisations do not fail in the tests.',
  [S + 'optz/OptzLkd.py', S + 'optz/CalcLkd.py', S + 'optz/GpHparaX0.py'],
  [('handling of a failed factorisation', S + 'optz/CalcLkd.py'), ('no failed candidate is chosen', S + 'optz/GpHparaX0.py')],
  obs=['set_hpara', 'eval_model', 'history'])

p('C20', 'The text report shows the state as it is and changes nothing',
  'At any point of any session after data were provided, the report can be made and shows, for every iteration, the '
  'hyperparameters and diagnostics of the history and the present options, to the printed precision. Making or saving '
  'it changes neither the surrogate nor its later results, and a report that was printed or saved is there completely.',
  ['histories', 'configurations', 'fault_sequences'],
  'all sessions and configurations, with failing or interrupted reports in between',
  'No test makes a report.',
  [S + 'base/GpInfo.py', S + 'base/CommonFun.py'],
  [('tables of the report', S + 'base/GpInfo.py')],
  obs=['get_txt_info_surr', 'info_surr_*'])

p('C21', 'Kernel functions are valid for every input, as pure mathematics',
  'For every dimension, hyperparameter and set of points, each kernel gives a symmetric positive semi-definite '
  'correlation matrix and its closed-form derivatives of every order are exact.',
  ['inputs'], 'all real inputs', 'Tests sample a few matrices.',
  [S + 'kernel/'], [('closed forms', S + 'kernel/')], obs=['kernel functions'])

p('C22', 'The cumulative best curve is monotone and ignores missing entries',
  'For every sequence of values with missing entries, the curve of the best value so far is monotone, equals the best '
  'of the values up to each position and is missing after the last value.',
  ['inputs'], 'all sequences', 'No test calls it.',
  ['gpgradpy/results/PltOptzResults.py'], [('running optimum', 'gpgradpy/results/PltOptzResults.py')],
  obs=['best_at_all_iter'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
print(len(P), 'properties')

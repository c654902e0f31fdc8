"""Writes /verif/properties.jsonl (run by hand after editing PROPS)."""
import json, os
P = []
S = 'optax/_src/'

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
  assert len(title) <= 80, title
  a = {'files': [S + f for f in files],
       'mechanism': [{'name': n, 'where': S + w} for n, w in mech]}
  if state:
    a['state'] = [{'name': n, 'meaning': m, 'where': S + w} for n, m, w in state]
  a['observe_at'] = observe or ['values returned by update']
  a['hook_needed'] = None
  P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
            'quantifier': {'over': over, 'text': ' '.join(text.split())},
            'why_tests_cant': ' '.join(why.split()), 'anchors': a})

prop('C01', 'Chaining transformations equals applying them in sequence',
     '''Updating with a chain of transformations gives exactly what feeding the gradients through its
     members one after the other gives, in the order written, each member keeping its own state and all of
     them seeing the same parameters. Grouping a chain into nested chains or inserting the identity changes
     no update, and the chain's state is the sequence of its members' states. A state with another number of
     members, or missing parameters that a member needs, is rejected with a ValueError.''',
     ['histories', 'programs'],
     '''Every ordered chain of up to three (thorough: four) members drawn from a menu of stateful, stateless,
     scheduled and parameter-dependent transformations, every bracketing, every gradient history up to the
     depth bound.''',
     '''combine_test.py chains four fixed transformations on one constant gradient; order, bracketing and
     parameter forwarding for other combinations and histories are never exercised.''',
     ['combine.py', 'base.py'], [('chain', 'combine.py:chain'), ('identity', 'base.py:identity')])

prop('C02', 'Initialisation and update are pure; runs can be saved, resumed, interleaved',
     '''What init and update return depends only on the arguments: the same gradients, state and parameters
     give bit-identical results whatever was called before, on this or another instance, and the arguments
     are never modified. A training run that is stopped after any step, its state saved and reloaded, and
     continued with a newly constructed equal transformation produces bit-identical updates to an
     uninterrupted run. Runs that share one transformation object do not influence each other in any
     interleaving.''',
     ['schedules', 'crash_points', 'histories'],
     '''Every public transformation, optimiser alias and wrapper; every crash point of the history; every
     interleaving of two runs (different parameters and gradients) on one shared object; state saved as
     plain numpy data.''',
     '''Tests run one history from init to end on one instance: they never go back to an old state, never
     serialise, never interleave, never compare two instances.''',
     ['transform.py', 'wrappers.py', 'lookahead.py', 'schedule.py', 'privacy.py', 'alias.py'],
     [('state is an explicit argument', 'transform.py'), ('random keys live in the state', 'privacy.py')])

prop('C03', 'Updates and states keep tree structure, shapes and dtypes',
     '''For every tree of parameters of one floating dtype, the returned updates have the tree structure,
     leaf shapes and dtype of the gradients and the new state has the structure, shapes and dtypes of the
     old one, so that the state can be carried through a compiled loop; per-leaf transformations,
     global-norm clipping, private aggregation and lookahead also keep the dtype of each leaf of a
     mixed-dtype tree. Per-example aggregation
     only drops the batch axis, and lookahead returns a fast and a slow tree.''',
     ['inputs', 'configurations'],
     '''Every public transformation and alias x a menu of trees (scalars, empty leaves, None, nested
     containers, 1-D to 5-D leaves, a single array) x {float32, bfloat16, float16, float64} x {32-bit,
     64-bit mode}.''',
     '''float64_test.py checks float64 dtypes of some transformations on one small tree for one step; no
     test covers half precision, odd containers, or the state across repeated steps.''',
     ['transform.py', 'clipping.py', 'wrappers.py', 'lookahead.py', 'privacy.py', 'constrain.py'],
     [('zeros_like initial states', 'transform.py'), ('cast of accumulators', 'utils.py:cast_tree')])

prop('C04', 'Eager, compiled, looped and batched execution agree',
     '''Running a history step by step without compilation, with a compiled update, inside one compiled
     loop, or batched over several independent replicas gives the same updates and states up to rounding,
     for every transformation, optimiser and wrapper, and likewise for every schedule evaluated at Python
     integers, traced integers and batched integers.''',
     ['histories', 'configurations'],
     '''Every public transformation, alias and wrapper nesting and every schedule; all gradient histories
     of the depth bound; execution modes {eager, jit, lax.scan, vmap}.''',
     '''Most tests use one execution mode; agreement is only compared through expected constants on single
     histories, and never for scan or batched updates.''',
     ['transform.py', 'wrappers.py', 'lookahead.py', 'schedule.py'],
     [('lax.cond / where instead of Python branches', 'wrappers.py')])

prop('C05', 'Momentum and moving averages follow their recurrences',
     '''The momentum trace returns t_n = g_n + decay*t_(n-1) (with Nesterov: g_n + decay*t_n), the moving
     average returns m_n = (1-decay)*g_n + decay*m_(n-1), divided by 1-decay^n when debiasing is on, and
     SGD returns minus the learning rate times the momentum trace, or times the gradient when no momentum
     is given. With a given accumulator dtype the accumulator is kept in that dtype between steps.''',
     ['histories', 'configurations'],
     '''All gradient histories over a small alphabet up to the depth bound, long periodic histories of
     hundreds of steps, all combinations of a grid of decays (including 0 and 1), Nesterov, debiasing and
     accumulator dtypes.''',
     '''transform_test.py runs four steps of one history with one decay; no debias-off ema history, no
     accumulator dtype history, no long run is compared with the recurrence.''',
     ['transform.py', 'alias.py', 'utils.py'],
     [('trace', 'transform.py:trace'), ('ema', 'transform.py:ema'), ('sgd', 'alias.py:sgd')])

prop('C06', 'Adam and AdamW follow the published algorithm',
     '''At every step n the Adam update equals -lr * m_hat/(sqrt(v_hat + eps_root) + eps), where m and v are
     the exponential moving averages of the gradients and squared gradients with rates b1 and b2 and the
     hats divide by 1-b1^n and 1-b2^n; AdamW adds weight_decay times the parameter to the quotient before
     scaling by -lr. This holds for every history, from the first step to arbitrarily late ones.''',
     ['histories', 'configurations'],
     '''All gradient histories over a small alphabet up to the depth bound, long periodic histories, step
     counts up to the int32 limit, a grid of b1, b2, eps, eps_root, weight_decay and constant/scheduled
     learning rates.''',
     '''equivalence_test.py follows single 10-step histories with default hyper-parameters on 1-D leaves;
     other hyper-parameters (eps_root, b1=0), zeros, late steps are not compared with the formula.''',
     ['transform.py', 'alias.py'],
     [('scale_by_adam', 'transform.py:scale_by_adam'), ('adam, adamw', 'alias.py')],
     [('count', 'number of updates done', 'transform.py:ScaleByAdamState')])

prop('C07', 'AdaBelief and Yogi follow their published second moments',
     '''AdaBelief keeps the moving average of (g_n - m_(n-1))^2 and Yogi keeps
     v_n = v_(n-1) - (1-b2)*sign(v_(n-1) - g_n^2)*g_n^2 starting (like its first moment) from the given
     accumulator value; both divide the bias-corrected first moment by sqrt(v_hat + eps_root) + eps with
     bias corrections 1-b1^n and 1-b2^n. The optimisers scale that by minus the learning rate.''',
     ['histories', 'configurations'],
     '''All gradient histories over a small alphabet (so that the sign of v-g^2 takes every pattern) up to
     the depth bound, a grid of hyper-parameters, late step counts.''',
     '''alias_test.py only checks convergence on two toy problems; no test compares any value with the
     formula.''',
     ['transform.py', 'alias.py'],
     [('scale_by_belief', 'transform.py:scale_by_belief'), ('scale_by_yogi', 'transform.py:scale_by_yogi')])

prop('C08', 'Rectified Adam switches on the variance-tractability threshold',
     '''With rho_inf = 2/(1-b2)-1 and rho_n = rho_inf - 2 n b2^n/(1-b2^n), the update at step n is the
     bias-corrected first moment alone while rho_n is below the threshold, and from then on the Adam
     quotient multiplied by sqrt((rho_n-4)(rho_n-2)rho_inf/((rho_inf-4)(rho_inf-2)rho_n)). The RAdam
     optimiser scales that by minus the learning rate.''',
     ['histories', 'configurations'],
     '''All gradient histories up to the depth bound started at step counts before, at and after the switch
     step, for a grid of b2 and thresholds; long periodic histories crossing the switch.''',
     '''equivalence and convergence tests run one history each; the switch step for other b2 or threshold
     values is never checked.''',
     ['transform.py', 'alias.py'], [('scale_by_radam', 'transform.py:scale_by_radam')])

prop('C09', 'RMSProp and Adagrad scale by the documented running statistics',
     '''Root-mean-square scaling divides g_n by sqrt(nu_n + eps) with nu the moving average of squares,
     centred scaling divides by sqrt(nu_n - mu_n^2 + eps) (never NaN for finite gradients), and
     sum-of-squares scaling divides by sqrt(sum + eps) and gives 0 where the sum is 0; each statistic starts
     from the configured value. RMSProp then scales by minus the learning rate before the optional momentum
     trace; Adagrad scales by minus the learning rate.''',
     ['histories', 'configurations'],
     '''All gradient histories over a small alphabet including zeros up to the depth bound, long constant
     histories in single precision, a grid of decay, eps, initial values, centred, momentum, Nesterov.''',
     '''transform_test.py only checks tree structure for these; equivalence tests follow single default
     histories.''',
     ['transform.py', 'alias.py'],
     [('scale_by_rms, scale_by_stddev, scale_by_rss', 'transform.py'), ('rmsprop, adagrad', 'alias.py')])

prop('C10', 'SM3 keeps per-axis maxima and uses their minimum',
     '''For a leaf of two or more axes the SM3 accumulator of an entry is its squared gradient plus the
     minimum over axes of the stored per-axis maxima, the stored value of each slice is the maximum of the
     accumulators in it, and the update is the moving average (rate b1) of g/sqrt(accumulator + eps), 0
     where the accumulator is 0; vectors and scalars use the plain sum of squares. With b2 other than 1 the
     two terms are weighted by 1-b2 and b2; the optimiser scales by minus the learning rate and accepts no
     momentum.''',
     ['histories', 'inputs'],
     '''All gradient histories over an alphabet of leaf patterns (single hot entry, row, column, dense) up
     to the depth bound on leaves of 0 to 4 axes, a grid of b1, b2, eps.''',
     '''Only a convergence test on a 1-D problem exists, where the per-axis structure is invisible.''',
     ['transform.py', 'alias.py'], [('scale_by_sm3', 'transform.py:scale_by_sm3'), ('sm3', 'alias.py:sm3')])

prop('C11', 'Layer-wise trust-ratio optimisers scale each leaf by |w|/|u|',
     '''Trust-ratio scaling multiplies each leaf of the update by max(|w|,m)/max(|u|,m), m the minimum norm,
     and by 1 when either norm used is zero; LAMB applies it to the Adam quotient plus weight decay, and
     Fromage applies it to the gradient and returns -lr/sqrt(1+lr^2) times it plus (1/sqrt(1+lr^2) - 1) times
     the parameter. The safe norm returns max(|x|, m) with gradient 0 where |x| <= m and x/|x| elsewhere.''',
     ['histories', 'inputs'],
     '''All combinations of parameter and gradient leaves from an alphabet with zero, below-, at- and
     above-minimum norms, multi-leaf trees, gradient histories up to the depth bound, hyper-parameter
     grid.''',
     '''The LAMB test rows in alias_test.py actually run AdamW; the zero-norm cases are tested for one
     shape.''',
     ['transform.py', 'alias.py', 'numerics.py'],
     [('scale_by_trust_ratio', 'transform.py'), ('lamb, fromage', 'alias.py'), ('safe_norm', 'numerics.py')])

prop('C12', 'Clipping bounds the update and never touches what is within bounds',
     '''Element-wise clipping moves each entry to the nearest point of [-d, d]. Global-norm clipping returns
     the gradients unchanged when their norm over all leaves is below the maximum and otherwise rescales
     every leaf by the same factor so that the global norm is the maximum. The global norm is the square
     root of the sum of squares of all entries of all leaves.''',
     ['inputs'],
     '''All trees whose leaves are drawn from an alphabet of values below, at and above the bound, with many
     and few leaves, odd containers, a grid of bounds, applied alone and repeatedly (idempotence).''',
     '''clipping_test.py checks two bounds on a constant two-leaf tree.''',
     ['clipping.py', 'linear_algebra.py'],
     [('clip', 'clipping.py:clip'), ('clip_by_global_norm', 'clipping.py'), ('global_norm', 'linear_algebra.py')])

prop('C13', 'Adaptive gradient clipping limits each unit relative to its weights',
     '''For every unit of a parameter (the whole leaf if at most one axis is longer than 1, a column along the
     first axis for 2-D and 3-D leaves, an output channel for 4-D leaves) the update is unchanged if its norm
     is below clipping*max(|w|, eps) for the parameter norm of that unit, and is otherwise rescaled to that
     norm. Leaves of more than four axes (two or more of them longer than 1) are rejected with a ValueError.''',
     ['inputs'],
     '''All combinations of unit-wise parameter and gradient magnitudes from a small alphabet for leaves of
     every rank and degenerate axis pattern up to rank 4; a grid of clipping and eps.''',
     '''clipping_test.py checks 1-D to 4-D leaves with constant unit norms and one eps.''',
     ['clipping.py'], [('adaptive_grad_clip, unitwise_norm, unitwise_clip', 'clipping.py')])

prop('C14', 'Stateless rescaling, weight decay and centralisation are exact and leafwise',
     '''Scaling multiplies every gradient entry by the given number, weight decay adds the given multiple of
     the matching parameter, centralisation subtracts from every leaf of two or more axes its mean over all
     axes but the first and leaves other leaves unchanged, and the identity returns its input. Applying such
     a transformation never mixes leaves and never depends on earlier steps.''',
     ['inputs', 'histories'],
     '''All trees of the tree menu, all entry patterns of the alphabet, a grid of factors including 0 and
     negative ones, repeated application.''',
     '''One fixed tree and constant per transformation are tested.''',
     ['transform.py', 'base.py'],
     [('scale, add_decayed_weights, centralize', 'transform.py'), ('identity', 'base.py')])

prop('C15', 'Non-finite gradients are skipped until too many come in a row',
     '''The finite-guard wrapper returns zero updates and leaves the wrapped optimiser's state untouched for
     a gradient tree containing any NaN or infinity in any leaf, unless more than the allowed number of such
     trees came in a row, in which case it and every later consecutive one is passed to the wrapped
     optimiser. Any finite tree is passed through and resets the run; the state reports the length of the
     current run, whether the last tree was finite, and the total ever seen.''',
     ['fault_sequences', 'histories'],
     '''Every sequence of {finite, NaN, +inf, -inf, NaN in another leaf} up to the depth bound, every limit
     from 0 to 3, several wrapped optimisers, with and without parameters.''',
     '''wrappers_test.py drives one fixed sequence per optimiser through one limit.''',
     ['wrappers.py'], [('apply_if_finite', 'wrappers.py:apply_if_finite')],
     [('notfinite_count', 'length of the current run', 'wrappers.py:ApplyIfFiniteState')])

prop('C16', 'Multi-step accumulation equals one large step per k mini-steps',
     '''Over k consecutive mini-steps the multi-step wrapper returns zero updates and keeps the wrapped
     optimiser's state until the k-th, where it returns what the wrapped optimiser returns for the mean (or
     the sum) of the k gradients with the current parameters, and starts a new accumulation. k is asked from
     the schedule at the current number of completed large steps, the state reports mini-steps and large
     steps done, and the has-updated query is true exactly after a large step. A run continued with another
     k does its next large step at the first call that has k gradients or more.''',
     ['histories', 'schedules'],
     '''All gradient histories over a small alphabet up to the depth bound for constant k in 1..4 and for
     k-schedules that vary with the large-step count, mean and sum, several wrapped optimisers including
     parameter-dependent ones, non-finite gradients; runs continued from counters around powers of two, and
     with another k after any number of mini-steps.''',
     '''wrappers_test.py checks three fixed k (constant and one schedule) with constant gradients, and never
     a wrapped optimiser that needs parameters.''',
     ['wrappers.py'], [('MultiSteps', 'wrappers.py:MultiSteps')],
     [('mini_step, gradient_step', 'progress counters', 'wrappers.py:MultiStepsState')])

prop('C17', 'Apply-every emits the accumulated sum each k steps and zero otherwise',
     '''Accumulate-and-apply returns zeros except at steps k, 2k, 3k, ..., where it returns the sum of the
     last k incoming updates and forgets them. A non-finite incoming update affects only the emission of its
     own window.''',
     ['histories', 'fault_sequences'],
     '''All histories over an alphabet including NaN and infinities up to the depth bound, k from 1 to 5,
     alone and in chains.''',
     '''One history (k=4, constant gradient after sgd) is tested.''',
     ['transform.py'], [('apply_every', 'transform.py:apply_every')])

prop('C18', 'Masking transforms exactly the selected leaves',
     '''With a mask that is a tree or tree prefix of booleans, or a function returning one, the selected
     leaves get what the wrapped transformation returns for a tree of just those leaves (and parameters), the
     others pass through unchanged, and the tree structure is kept. Any parameter tree is accepted (a single
     array or scalar included) and state exists only for selected leaves.''',
     ['inputs', 'histories'],
     '''All 2^n masks and all prefix masks of small trees, as trees and as functions, x wrapped
     transformations (stateful, parameter-dependent, global-norm) x gradient histories up to the depth
     bound.''',
     '''wrappers_test.py checks a few masks on two trees for one or two steps with dict/list parameters
     only.''',
     ['wrappers.py'], [('masked', 'wrappers.py:masked')])

prop('C19', 'Flattening equals running the transformation on one long vector',
     '''The flattening wrapper returns, reshaped back leaf by leaf, what the wrapped transformation returns
     for the single vector made of all leaves in tree order (parameters flattened alike). For element-wise
     and global-norm transformations this equals the unwrapped result.''',
     ['inputs', 'histories'],
     '''All trees of the tree menu (scalars, empty leaves, nested containers, many leaves) x wrapped
     transformations (element-wise, global, layer-wise, nested wrappers) x gradient histories up to the
     depth bound.''',
     '''One tree and two inner optimisers are tested for one step.''',
     ['wrappers.py'], [('flatten', 'wrappers.py:flatten')])

prop('C20', 'Conditional updates run the wrapped transformation only when asked',
     '''At its n-th call (counted from 0) the conditional wrapper applies the wrapped transformation if the
     predicate of n is true and otherwise returns the incoming updates and the wrapped state unchanged. The
     call counter advances by one either way.''',
     ['schedules', 'histories'],
     '''Every predicate pattern over the first steps up to the depth bound, predicates of the counter at
     large values, several wrapped transformations (parameter-dependent included), all gradient
     histories.''',
     '''wrappers_test.py uses three fixed predicates with one wrapped transformation.''',
     ['wrappers.py'], [('maybe_update', 'wrappers.py:maybe_update')])

prop('C21', 'Lookahead synchronises slow and fast weights every k steps',
     '''Applying lookahead's updates, the fast weights follow the fast optimiser (which sees the fast
     weights) and the slow weights stay put, except that each sync_period-th step moves the slow weights by
     slow_step_size towards the stepped fast weights and sets the fast weights equal to them. With state
     reset on, the fast optimiser restarts from its initial state after each synchronisation and otherwise
     keeps its state.''',
     ['histories', 'configurations'],
     '''All gradient histories (non-finite gradients included) up to the depth bound, sync periods 1 to 4,
     slow step sizes 0, 0.5, 1, reset on and off, fast optimisers with float, integer and boolean state and
     with parameter dependence.''',
     '''lookahead_test.py checks a fixed history with a toy optimiser whose state is a float and which
     ignores parameters.''',
     ['lookahead.py'], [('lookahead', 'lookahead.py:lookahead')],
     [('steps_since_sync', 'position in the period', 'lookahead.py:LookaheadState')])

prop('C22', 'Injected hyper-parameters act like rebuilding the transformation each step',
     '''A transformation with injected hyper-parameters gives at its n-th update (n = 1, 2, ...) what the
     inner transformation built with each scheduled hyper-parameter's value at n and the current value of
     each unscheduled one gives on the same inner state. The state reports the values just used (after
     initialisation: the values at 0) and the number of updates; editing a reported unscheduled value takes
     effect from the next update on, editing a scheduled one has no effect, and arguments declared static are
     passed through untouched. Numbers of every representation, and numeric defaults, are hyper-parameters
     of this kind.''',
     ['histories', 'configurations'],
     '''All interleavings of updates and edits of reported values up to the depth bound, scheduled/constant/
     static assignment patterns over several inner factories, positional, keyword and default arguments.''',
     '''schedule_test.py covers a handful of factories with two or three updates and at most one edit.''',
     ['schedule.py'], [('inject_hyperparams', 'schedule.py:inject_hyperparams')],
     [('count, hyperparams', 'update count and values in use', 'schedule.py:InjectHyperparamsState')])

prop('C23', 'Scheduled step sizes use the schedule at the number of past updates',
     '''Scaling by a schedule multiplies the n-th update (n = 0, 1, ...) by the schedule at n, cast to each
     leaf's dtype, and every optimiser built with a scheduled learning rate applies minus the schedule at the
     number of updates done before, never any other step. A constant schedule gives the same updates as the
     constant.''',
     ['histories', 'configurations'],
     '''Every optimiser alias accepting a schedule x schedules with distinct values at every step
     (non-monotone tables, all elementary schedules) x histories up to the depth bound, late counts up to
     the int32 limit.''',
     '''transform_test.py checks scale_by_schedule on one schedule for four steps; no alias is run with a
     schedule and compared.''',
     ['alias.py', 'transform.py'],
     [('scale_by_schedule', 'transform.py'), ('_scale_by_learning_rate', 'alias.py')])

prop('C24', 'Elementary schedules match their closed forms at every step',
     '''Constant, polynomial, linear, piecewise-constant, exponential (smooth or staircase, with begin step
     and end value) and cosine schedules return at every non-negative integer step exactly their documented
     closed form up to rounding, compiled or not: held initial values before the transition begins, held
     final values after it ends, exact stair boundaries, and a piecewise-constant factor in force from its
     boundary step on. Non-positive transition lengths give the constant initial value, and negative begin
     steps act like 0.''',
     ['inputs', 'configurations'],
     '''Every step from 0 past the end of the schedule for every configuration of a grid of lengths (1 to 60
     and larger), powers, begin steps, decay rates, end values, boundaries; steps up to the int32 limit.''',
     '''schedule_test.py checks a few configurations; the staircase boundaries under compilation were wrong
     for some lengths and no test noticed.''',
     ['schedule.py'],
     [('polynomial_schedule, exponential_decay, cosine_decay_schedule, piecewise_constant_schedule', 'schedule.py')],
     observe=['value of the schedule at a step'])

prop('C25', 'Composite schedules are their parts, switched at the right step',
     '''Joined schedules return at step s the schedule of the interval containing s (a boundary belongs to
     the later one) evaluated at the steps since that boundary; warm-up/cosine, warm-up/exponential and
     warm-restart schedules are the documented joins, each cycle lasting its decay steps; interpolated and
     one-cycle schedules pass through the documented values at their boundary steps, are linear or cosine in
     between, and stay at the last value. Every value is finite for every non-negative step.''',
     ['inputs', 'configurations'],
     '''Every step from 0 past the end for a grid of boundaries (including 0 and adjacent ones), warm-up
     lengths (including 0), numbers of cycles, and one-cycle lengths and fractions with distinct phase
     boundaries.''',
     '''schedule_test.py checks a few configurations; short one-cycle schedules returned NaN at every step
     and no test noticed.''',
     ['schedule.py'],
     [('join_schedules, warmup_*, sgdr_schedule', 'schedule.py'), ('piecewise_interpolate_schedule, *_onecycle_schedule', 'schedule.py')],
     observe=['value of the schedule at a step'])

prop('C26', 'Step counters count every update and saturate instead of wrapping',
     '''Every transformation that counts updates in a 32-bit integer reports exactly the number of updates
     done, and at the largest 32-bit integer the count stays there instead of wrapping to a negative number.
     At and near that limit updates remain finite and follow the same formulas with the saturated count.''',
     ['histories'],
     '''Every counting transformation, alias and injected hyper-parameters; counts 0..N stepwise and every
     power of two minus/plus one up to the int32 limit, followed by several updates each.''',
     '''numerics_test.py checks the increment helper alone on three values.''',
     ['numerics.py', 'transform.py', 'schedule.py'],
     [('safe_int32_increment', 'numerics.py')],
     [('count', 'updates done', 'transform.py')])

prop('C27', 'Private aggregation bounds each example and adds calibrated noise',
     '''The aggregation divides by the batch size the sum of the per-example gradients, each divided by
     max(norm/clip, 1) for that example's norm over all leaves, plus Gaussian noise of standard deviation
     clip*multiplier drawn independently for every entry and step from the seed, so that replacing one
     example moves the noise-free result by at most 2*clip/batch size in norm. Leaves without a common batch axis are rejected with a ValueError,
     and the private SGD optimiser is the aggregation followed by optional momentum and minus the learning
     rate.''',
     ['inputs', 'histories'],
     '''All batches of up to four examples over an alphabet of below-, at- and above-clip per-example
     gradients on single- and multi-leaf trees, all neighbouring batches, noise multiplier 0 for exact
     values, and the full history of noise draws of several steps for distinctness, reproducibility and
     scale.''',
     '''privacy_test.py checks a few batches and an empirical noise level with a single step.''',
     ['privacy.py', 'alias.py'],
     [('differentially_private_aggregate', 'privacy.py'), ('dpsgd', 'alias.py')],
     [('rng_key', 'key for the next step', 'privacy.py')])

prop('C28', 'Added gradient noise has the documented annealed variance',
     '''At its n-th update (n = 1, 2, ...) the noise transformation adds to every entry an independent zero-mean
     Gaussian of variance eta/n^gamma, reproducible from the seed, fresh at every step and for every leaf,
     determined by the random key held in the state whichever instance continues the run, and exactly proportional to sqrt(eta) for fixed draws. Noisy SGD returns minus the learning rate times
     the noisy gradient.''',
     ['histories', 'configurations'],
     '''Step counts 1..N and large, a grid of eta, gamma and seeds, several trees; ratios between runs that
     share draws are compared exactly, and the complete set of draws of a run is checked for distinctness
     and scale.''',
     '''No test measures the noise; noisy SGD is not even in the convergence tests.''',
     ['transform.py', 'alias.py'], [('add_noise', 'transform.py:add_noise'), ('noisy_sgd', 'alias.py')],
     [('rng_key, count', 'key and step for the next draw', 'transform.py:AddNoiseState')])

prop('C29', 'Applying and averaging parameters computes the documented combination',
     '''Applying updates adds them leaf by leaf and converts the sum to the parameter's dtype, keeping structure and shape; the
     incremental update returns step_size*new + (1-step_size)*old; the periodic update returns the new
     tensors when the step count is a multiple of the period and the old ones otherwise. Iterated over any
     history these give the accumulated sum, the exponential average and the last periodic copy.''',
     ['histories', 'inputs'],
     '''All trees of the tree menu, dtype pairs of parameters and updates, step sizes including 0 and 1, all
     steps 0..N and large ones for every period, traced and concrete.''',
     '''update_test.py checks one tree, two step sizes and one period.''',
     ['update.py'], [('apply_updates, incremental_update, periodic_update', 'update.py')],
     observe=['returned parameters'])

prop('C30', 'Constraint transformations enforce their constraint and nothing more',
     '''After applying the updates of the non-negativity transformation no entry of parameters that were
     non-negative is negative, and an update that would not make its entry negative is returned unchanged.
     NaN removal replaces exactly the NaN entries by 0 (infinities stay) and its state says for each leaf
     whether the last gradients had a NaN there.''',
     ['inputs', 'histories'],
     '''All pairs of parameter and update entries from an alphabet with zeros, signed zeros, exact
     cancellations, NaN and infinities; all histories up to the depth bound, alone and last in a chain.''',
     '''constrain_test.py checks one parameter/update pair per sign and one NaN pattern (the latter fails
     in this environment).''',
     ['constrain.py'], [('keep_params_nonnegative, zero_nans', 'constrain.py')],
     [('found_nan', 'NaN seen in each leaf by the last update', 'constrain.py:ZeroNansState')])

prop('C31', 'Losses match their definitions, stay finite, and have exact gradients',
     '''The squared, Huber, sigmoid and softmax cross-entropy losses, label smoothing and cosine similarity
     and distance return their mathematical definitions elementwise or over the last axis, without reducing
     batch axes, with a missing target meaning 0. For finite inputs of any magnitude the cross entropies are
     finite and accurate and have the exact gradients (sigmoid(x)-label, softmax(x)*sum(labels)-labels), the
     gradient of the Huber loss is the error clipped to [-delta, delta], and cosine similarity with a
     positive minimum norm is finite at zero vectors.''',
     ['inputs'],
     '''All inputs over an alphabet of logits from -1e4 to 1e4 (ties, zeros, equal entries), labels (hard,
     soft, smoothed), errors on both sides of and at delta, batch shapes of 0 to 3 axes, values and
     gradients, single and double precision.''',
     '''loss_test.py checks a handful of constants per loss and almost no gradients or extreme inputs.''',
     ['loss.py'], [('all losses', 'loss.py')], observe=['value and gradient of the loss'])

prop('C32', 'Second-order helpers agree with the full Hessian and Fisher diagonal',
     '''The Hessian-vector product, Hessian diagonal and Fisher diagonal of a loss equal the product with,
     the diagonal of, and the squared gradient instead of, the matrices of exact second and first
     derivatives in the order in which the parameter tree is flattened, for every tree of parameters and
     every vector.''',
     ['inputs', 'programs'],
     '''All losses from a family of polynomial and neural losses with known derivatives, parameter trees of
     one to five leaves of mixed shapes, every basis vector and sums of them, several inputs and
     targets.''',
     '''second_order_test.py checks one small network with one seed and the diagonal only.''',
     ['second_order.py'], [('hvp, hessian_diag, fisher_diag', 'second_order.py')],
     observe=['returned vectors'])

prop('C33', 'Gradient estimators are unbiased for the gradient of the expectation',
     '''For every distribution, function and parameter, averaging the per-sample Jacobians of the
     score-function estimator over the outcomes with their probabilities gives the exact gradient of the
     expectation; the same holds for the pathwise estimator with reparametrised outcomes and for the
     measure-valued estimator of Gaussian expectations, coupled or not. The returned Jacobians have one row
     per sample and the shape of each parameter, and each row depends only on its own sample.''',
     ['inputs', 'programs'],
     '''All outcomes of finite distributions (score function) and all quadrature nodes of Gaussian ones
     (pathwise), a family of functions, parameters and dimensions; measure-valued: exact per-sample
     identities of the decomposition for polynomial functions for all samples of fixed keys.''',
     '''Tests compare averages over 1e6 random samples with loose tolerance for a few functions; a small
     bias is invisible.''',
     ['stochastic_gradient_estimators.py', 'utils.py'],
     [('score_function_jacobians, pathwise_jacobians, measure_valued_jacobians', 'stochastic_gradient_estimators.py'),
      ('set_diags, tile_second_to_last_dim, multi_normal', 'utils.py')],
     observe=['returned Jacobians'])

prop('C34', 'Control variates are subtracted with exactly their expected effect',
     '''The control-variate Jacobians equal the estimator's Jacobians for the function minus, for each
     parameter, the coefficient times (the estimator's Jacobians for the variate plus the variate's mean
     parameter gradient minus the gradient of its expectation), with the variate's state after this call's
     update and the coefficient 1 or the documented covariance ratio estimated from separate samples with
     the incoming state; so a variate that does not depend on the call's samples leaves the expected
     gradient unchanged. The delta-method variate is
     the second-order Taylor expansion at the mean with its exact Gaussian expectation, and the moving
     average is the exponential (early: faster; on request debiased) average of the sample means over all
     updates, updated once per call.''',
     ['histories', 'inputs'],
     '''A family of functions, estimators, variates, parameters and sample counts, all histories of batch
     means over a small alphabet up to the depth bound for the moving average with every combination of its
     options.''',
     '''control_variates_test.py compares Monte-Carlo averages loosely and updates the moving average once;
     the debiased average was wrong from the second update on and no test noticed.''',
     ['control_variates.py'],
     [('control_variates_jacobians, estimate_control_variate_coefficients', 'control_variates.py'),
      ('control_delta_method, moving_avg_baseline', 'control_variates.py')],
     [('(value, number of updates)', 'moving average state', 'control_variates.py:moving_avg_baseline')],
     observe=['returned Jacobians and variate state'])

prop('C35', 'Power iteration and inverse roots satisfy their defining equations',
     '''Power iteration on a symmetric positive semi-definite matrix with a spectral gap returns its largest
     eigenvalue and a unit eigenvector for it, from any random start. The inverse p-th root of a symmetric
     positive definite matrix, raised to the power p and multiplied by the (slightly ridged) matrix, is the
     identity, for every positive integer p, with a small reported error.''',
     ['inputs'],
     '''All matrices built from a small alphabet of spectra and rotations of size 1 to 5, p from 1 to 12,
     several global random-generator states.''',
     '''linear_algebra_test.py checks one random matrix family and p in {2, 4, 8}; other p were silently
     wrong.''',
     ['linear_algebra.py'], [('power_iteration, matrix_inverse_pth_root', 'linear_algebra.py')],
     observe=['returned eigenpair and root'])

prop('C36', 'Finite gradients never produce non-finite updates',
     '''With their default settings every optimiser and scaling transformation returns finite updates for
     every history of finite gradients and parameters of moderate size, including all-zero, constant, tiny,
     large and sign-flipping gradients and zero parameters, in single precision, at every step.''',
     ['histories'],
     '''Every optimiser alias and scaling transformation with default settings; all histories over
     {0, 1e-12, 1, -1, 1e4} patterns up to the depth bound and long constant and periodic histories (over a
     thousand steps) in single precision.''',
     '''Convergence tests use benign gradients; centred RMSProp returned NaN for constant gradients after
     enough steps and no test noticed.''',
     ['alias.py', 'transform.py'], [('eps terms, guarded divisions', 'transform.py')])

prop('C37', 'Wrappers compose: nested wrappers behave as the composition of their laws',
     '''Any nesting of the wrappers (finite guard, multi-step accumulation, masking, flattening, conditional
     update, lookahead, injected hyper-parameters, chaining) around optimisers behaves exactly as the
     composition of their individual laws, for every history of finite and non-finite gradients, and can be
     compiled.''',
     ['histories', 'programs', 'fault_sequences'],
     '''Every ordered pair (thorough: triple) of wrappers around several optimisers, parameter-dependent ones
     included, all histories up to the depth bound over an alphabet with NaN and infinity.''',
     '''Each wrapper is tested around simple optimisers only; nestings are untested, and several lost the
     parameters.''',
     ['wrappers.py', 'lookahead.py', 'combine.py', 'schedule.py'],
     [('wrappers forward updates, state and params', 'wrappers.py')])

prop('C38', 'Updates commute with renaming, reordering, reshaping, sign and scale changes',
     '''Which container holds a leaf, what it is called and where it stands among the other leaves does not
     matter: on a renamed, re-nested or reordered tree every transformation, optimiser and wrapper without
     random draws returns the correspondingly rearranged updates (with random draws: for containers that keep
     the order of the leaves). Permuting entries along the axes of the leaves permutes the updates;
     transposing, flattening or adding axes of length one does the same to the updates, except for
     transformations that look at the axes (centralisation, adaptive clipping, SM3 apart from transposing) and
     masks that look at the rank. Negating gradients and parameters negates the updates, except for
     non-negativity constraints and Yogi, whose momentum starts positive. Momentum, moving averages, scaling,
     scheduled scaling, weight decay, the trust ratio, centralisation, accumulation, non-negativity and SGD are
     homogeneous: gradients and parameters multiplied by a power of two give updates multiplied by it.''',
     ['inputs', 'histories', 'configurations'],
     '''Every entry of the catalogue of public transformations, optimisers and wrappers x every symmetry that
     applies x all gradient histories up to the depth bound x trees with leaves of zero to four axes.''',
     '''Tests use one tuple or dict of two vectors of length two; no test relates two runs on rearranged
     inputs.''',
     ['transform.py', 'wrappers.py', 'clipping.py', 'alias.py', 'lookahead.py', 'constrain.py', 'privacy.py'],
     [('jax.tree_map over leaves', 'transform.py'), ('flatten and unflatten', 'wrappers.py:flatten')])

prop('C39', 'Numbers and arrays may come in any representation, traced ones included',
     '''A numeric hyper-parameter of a transformation, optimiser or schedule may be given as a Python number, a
     NumPy scalar or zero-dimensional array, a JAX array of either precision, an integer where the value is
     whole, a value traced by compilation, or one of a batch of values, with the same updates up to rounding
     (numbers of steps and flags stay Python or NumPy numbers; schedules take traced values and levels, not
     traced lengths). Gradients, states and parameters may be NumPy or JAX arrays in any mixture, eager or
     compiled. Injected hyper-parameters give the same updates as given ones.''',
     ['configurations', 'histories'],
     '''Every numeric hyper-parameter of every transformation and optimiser (two dyadic values) and of every
     schedule x every representation x all gradient histories of the depth bound; all 8 mixtures of NumPy and
     JAX inputs at every state.''',
     '''Tests pass Python floats and JAX arrays; a branch on a hyper-parameter, an isinstance test, or an
     integer power fails only for the other representations.''',
     ['transform.py', 'alias.py', 'schedule.py', 'clipping.py', 'privacy.py', 'wrappers.py', 'lookahead.py'],
     [('hyper-parameters are used in jnp arithmetic', 'transform.py'), ('inject_hyperparams', 'schedule.py:inject_hyperparams')])

prop('C40', 'Derivatives through updates and whole training runs are exact',
     '''Updates and complete training runs can be differentiated, in forward and in reverse mode, with respect
     to gradients, parameters and numeric hyper-parameters, as meta-learning does: at points where the update
     rule is differentiable the Jacobian of all updates of a history, and of the final parameters of a compiled
     training loop, is finite and equals the derivative of the documented formulas, zero gradients
     below a clipping norm included; likewise schedule values by their levels. (Adam-like rules need the
     documented eps_root where a gradient is zero.)''',
     ['histories', 'configurations', 'inputs'],
     '''Every differentiable transformation, the optimisers and the wrappers (Yogi apart, see C07) x all
     gradient histories up to the depth bound x two parameter trees; training loops of every horizon up to the
     bound from several starts.''',
     '''Only adam and adamw have one test that their meta-gradient is finite; no test computes the value of a
     derivative through an update.''',
     ['transform.py', 'alias.py', 'clipping.py', 'wrappers.py', 'combine.py', 'numerics.py'],
     [('eps_root', 'transform.py:scale_by_adam'), ('lax.cond selects the branch', 'wrappers.py'),
      ('safe norms', 'numerics.py:safe_norm')])

prop('C41', 'Arguments bind by position or name, and omitted ones take documented defaults',
     '''Every public factory and function can be called with all arguments by name, all by position in the
     documented order, or with any of the optional ones left out, and behaves the same; a left-out argument
     behaves exactly like the documented default given explicitly (for instance b1=0.9, b2=0.999, eps=1e-8 for
     adam, eps=1e-6 for lamb, decay=0.9 for rmsprop, eta=0.01 and gamma=0.55 for noisy_sgd, eps=1e-3 for
     adaptive clipping). Every argument takes effect.''',
     ['configurations', 'histories'],
     '''79 public factories and functions: all combinations of default and other values of the arguments (three
     to five at a time; thorough: all) x all ways of writing the call x all histories or inputs of the observation.''',
     '''Tests pass most arguments explicitly and by name; a changed default or order of arguments is not
     visible to them.''',
     ['alias.py', 'transform.py', 'schedule.py', 'loss.py', 'wrappers.py', 'clipping.py', 'control_variates.py',
      'stochastic_gradient_estimators.py', 'linear_algebra.py', 'lookahead.py'],
     [('signatures', 'alias.py'), ('aliases forward arguments', 'alias.py')])

prop('C42', 'Leaves and entries do not influence one another',
     '''Apart from the documented couplings (global-norm clipping, per-example norms, finite guards, one random
     key), the updates of a leaf are a function of that leaf's own gradients and parameters: whatever the other
     leaves receive - zeros, huge, NaN or infinite gradients - the updates of the leaf are bit-identical, stay
     finite if its own gradients are finite, and equal those the leaf gets alone or at any place of any other
     tree. For entrywise transformations (all but trust ratios, centralisation, adaptive clipping and SM3) the
     same holds between the entries of one leaf.''',
     ['inputs', 'histories'],
     '''All pairs of a history of one leaf and a history of the others (self-composition), every leafwise
     transformation, optimiser and wrapper, every position of the observed leaf, trees with leaves of equal and
     of different shapes.''',
     '''Non-interference relates two runs; tests compare single runs with constants, on trees whose leaves all
     receive similar values.''',
     ['transform.py', 'alias.py', 'clipping.py', 'wrappers.py', 'constrain.py', 'lookahead.py'],
     [('jax.tree_map over leaves', 'transform.py'), ('NaN replacement per entry', 'constrain.py:zero_nans')])

prop('C43', 'Steps of normalised optimisers are bounded whatever the gradients',
     '''Whatever finite gradients arrive, no entry of an update exceeds the bound its algorithm guarantees:
     Adam (with or without schedules, under wrappers) at most learning_rate * sup |m_hat|/sqrt(v_hat), the
     Cauchy-Schwarz value of its two bias-corrected averages; rectified Adam that times its rectification, or the
     largest gradient seen before; RMSProp lr/sqrt(1-decay); Adagrad and SM3 lr, with Adagrad's squared steps summing to
     at most log(S_T/S_0); momentum the geometric sum of what it is fed; a debiased average the largest value
     seen. Clipped, trust-ratio and private updates obey the corresponding norm bounds: max_norm (times the
     geometric sum under momentum), lr*|w| per leaf for LAMB, (1+lr)/sqrt(1+lr^2)*|w| for Fromage's next
     parameters, clipping*|w| per unit, the clipping norm for an aggregate and 2C/n for replacing one of n
     examples; lookahead's slow weights move at most slow_step_size times what the fast ones can.''',
     ['inputs', 'histories'],
     '''All histories of 5-6 letters over {0, +-1, small, huge} for 35 optimisers and transformations, one per entry of a
     vector; the histories that attain the bounds at several scales with pauses, sign changes and bursts for 40-60
     (200-400) steps; all closed-loop histories for the norm-based ones.''',
     '''A bound over all gradient histories; the worst history is specific to the decays and never occurs in the
     tests.''',
     ['transform.py', 'alias.py', 'clipping.py', 'privacy.py', 'lookahead.py', 'wrappers.py'],
     [('moments and bias correction', 'transform.py:_update_moment'), ('norm clipping', 'clipping.py')])

prop('C44', 'Training loops follow their exact dynamics, descend, and rest at minima',
     '''Run in a loop with apply_updates on a quadratic, plain and momentum SGD (Nesterov too), averages, weight
     decay, multi-step accumulation, apply-every, lookahead, masks, injected and scheduled rates produce exactly the
     iterates of their linear recursion, for every starting point and at every step. Every optimiser, alone or
     wrapped, reduces convex losses from every starting point of a grid. The first update of every optimiser has
     the opposite sign of the gradient in every entry (zero where it is zero). Zero gradients from the start never
     move the parameters (weight decay, noise and Yogi's initial momentum apart).''',
     ['inputs', 'histories'],
     '''18 linear rules x 5 Hessians (ill-conditioned, singular, indefinite) x 10 starts x 120 (1000) steps against
     matrix products; 31 optimisers x 4 losses x 27 starts x 400 steps; first updates on a grid of 147 gradients;
     rest for 8 (40) steps on 3 trees for all other transformations.''',
     '''Tests run single optimisations with one start and a loose final tolerance; wrappers in the loop with a
     moving gradient are not covered.''',
     ['alias.py', 'transform.py', 'wrappers.py', 'lookahead.py', 'update.py', 'schedule.py'],
     [('apply_updates', 'update.py'), ('trace', 'transform.py:trace')])

prop('C45', 'Documented misuse raises an error, and legal use does not',
     '''Under every nest of wrappers, eager or compiled, an update without parameters raises an error (ValueError for
     None) if and only if something inside needs them; otherwise the result does not depend on them. Invalid
     arguments raise the documented errors, neighbouring legal ones are accepted: synchronisation periods below 1,
     non-positive decay or one-cycle lengths, unknown interpolation types, negative factors at any place, unknown
     static arguments, chains with states of another length, leaves of more than four axes under adaptive
     clipping, gradients without a common batch axis under private aggregation, integer inputs or incompatible
     shapes of losses, other distributions for measure-valued gradients.''',
     ['configurations'],
     '''All nests of up to 2 (3) of 10 wrappers around 7 transformations that need parameters and up to 1 (2) around 11
     that do not, eager and compiled; about 450 calls at both sides of each documented limit.''',
     '''Tests check a few errors for unwrapped transformations; a wrapper that swallows or bypasses the error,
     or an over-eager check, goes unnoticed.''',
     ['wrappers.py', 'combine.py', 'transform.py', 'schedule.py', 'loss.py', 'privacy.py', 'clipping.py',
      'lookahead.py', 'stochastic_gradient_estimators.py'],
     [('NO_PARAMS_MSG', 'base.py'), ('argument validation', 'schedule.py')])

prop('C46', 'Half-precision training tracks single precision, single tracks double',
     '''With parameters and gradients in bfloat16 or float16 every deterministic transformation returns updates of that
     type which follow the single-precision run of the same history within the rounding of that type (4% and 1% of
     the entry and the largest entry), at every step, from fresh states and from counters of 300 and 70000, and for
     600 consecutive steps; single-precision runs follow double precision within 1e-4. Counters, schedules and bias corrections are not computed in the gradients' precision,
     where integers above 256 and decays such as 0.999 are not representable. (Not for sums a half cannot hold, and
     not for injected hyper-parameters, which take the gradients' type.)''',
     ['inputs', 'histories'],
     '''All histories of 3 (5) exactly representable letters on 2 (3) trees, 3 (10) start counts, through compiled loops;
     600 (5000)-step runs.''',
     '''Tests run in single precision; half-precision failures need counters past 256 or values that round.''',
     ['transform.py', 'alias.py', 'schedule.py', 'clipping.py', 'linear_algebra.py', 'wrappers.py'],
     [('bias correction', 'transform.py:_bias_correction'), ('schedule rates', 'transform.py:scale_by_schedule')])

prop('C47', 'Special settings reduce to simpler transformations; algebraic laws hold',
     '''Transformations that coincide mathematically coincide on every history: wrappers with trivial settings (one
     accumulation step, full and empty masks, infinite patience, period-one lookahead, flattening of a vector, one
     label) with their inner transformation; decays of 0, infinite thresholds and thresholds of 0, coefficients of 1
     and 0 with the simpler rule; optimisers with the documented chain; accumulation with apply-every; partitioning
     masks with the whole; clipping twice with the smaller bound, with scale equivariance; noise 0 with none;
     private aggregation with a large bound with the mean. Schedules obey joining, rescaling and degenerate-setting
     laws, losses their symmetry, shift and limiting-case laws.''',
     ['inputs', 'histories', 'configurations'],
     '''81 laws and 21 wrapper laws x 7 inner transformations on all histories of 4-5 (6-7) letters of 4 trees in closed
     loop; schedules at 40 (200) steps; losses on all pairs of 7 (9) values.''',
     '''Tests check single settings against stored values; degenerate settings are where special cases hide.''',
     ['alias.py', 'transform.py', 'clipping.py', 'wrappers.py', 'combine.py', 'schedule.py', 'loss.py', 'privacy.py'],
     [('aliases as chains', 'alias.py'), ('wrappers', 'wrappers.py')])

if __name__ == '__main__':
  out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
  with open(out, 'w') as f:
    for p in P:
      f.write(json.dumps(p) + '\n')
  print(len(P))

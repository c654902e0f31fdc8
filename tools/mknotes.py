"""Writes notes.json: how each property is decided (feeds DESIGN.md and MANIFEST.json)."""
import json, os
N = {}
def n(i, how, oracle, bounds, technique=None):
  N[i] = dict(how=how, oracle=oracle, bounds=bounds)
  N[i]['technique'] = technique or ('explicit-state exploration of the real update functions: all histories of a finite '
                                    'alphabet up to a depth, each transition compared with an executable reference model')
  N[i]['note'] = 'Exhaustive within: ' + bounds + ' Trusts JAX/XLA on CPU and the reference ("%s"). Values outside the alphabet are not covered.' % oracle.split('.')[0]
REL = 'relational exploration of the real code: all histories/configurations of a finite alphabet, executions compared with each other'

n('C01', 'All ordered chains of 1-3 members out of 16 (clip, norm clip, traces, ema, adam, schedules, parameter-dependent ones, apply_every, ...); every bracketing of chains of up to 4-5 members and identity insertion; all histories of gradient letters; every state of the wrong length; every missing-parameter case; user-written members with 16 kinds of state (bare arrays, numbers, None, empty containers).',
  'The members themselves, run one after another on the same gradients with separate states; bit-exact in eager mode, 1e-9 compiled. Also the state sequence.',
  'pairs hist 3-4, triples hist 2-3; thorough adds chains of 4.', REL)
n('C02', 'For each catalogue entry (every public transformation, alias, wrapper): go back to every earlier state of every history and recompute; call other instances in between; mutate-check of all arguments (bytes and containers); crash after every step with the state serialised to numpy and continued by a fresh instance; every interleaving of two runs on one object (same and swapped leaf ranks); every branching order; containers of one run overwritten in place while another runs.',
  'The uninterrupted, isolated run of the same code, compared by bytes.', 'hist 3-4, crash points 0..n of n=5-8 step histories, all C(2n,n) interleavings for n=2-3.',
  'exhaustive enumeration of crash points and interleavings of the real code, bitwise comparison with the uninterrupted run')
n('C03', 'Every catalogue entry x every tree of the menu x dtypes x 32/64-bit mode, two abstract steps (jax.eval_shape, all shapes/dtypes) and concrete histories; mixed-dtype trees for per-leaf entries, norm clipping, private aggregation and lookahead.',
  'Signature (structure, shapes, dtypes) of the gradients and of the previous state.', 'whole product entries x 11 trees x 4 dtypes x 2 modes; histories of 2-3 steps.', 'exhaustive enumeration of the configuration product on the real code (abstract and concrete executions)')
n('C04', 'Every catalogue entry and wrapper nesting: all histories run eagerly, with jit, in one lax.scan, and vmapped over replicas with different histories; schedules at Python, traced and vmapped integers; schedules returning every numeric kind (f16, bf16, f32, wide, int, Python) with every parameter dtype; leaves, states and arguments that are one and the same array object.',
  'The executions must agree with each other to 1e-7 (double).', 'hist 3-5 over 3 letters, lasts of non-finite letters for the guards, 11 trees.', REL)
n('C05', 'trace/ema/sgd: all histories for the full decay x Nesterov x debias grid; every tree; lassos of hundreds of steps; accumulator dtypes; trees whose leaves have different dtypes.', 'float64 recurrences (models.Trace, Ema).', 'hist 5-8 (3-4 letters), all 11 trees, lassos 300-2000 steps.')
n('C06', 'adam/adamw: deep histories, the 36-54 point hyper-parameter grid, every tree, counters at all powers of two +-1 up to 2^31-1, lassos, scheduled rates, masks of decay.', 'float64 Adam from the paper.', 'hist 5-7; grid hist 3; 100+ start counts x hist 2.')
n('C07', 'adabelief/yogi as C06, plus dyadic gradients that make v - g^2 tie exactly.', 'float64 models; for yogi also the listed deviation (known finding): a run must match the paper or exactly that deviation.', 'hist 5-7, all start counts, tie histories hist 4-6.')
n('C08', 'radam with thresholds and b2 such that the switch occurs at step 1..many; histories started at every count around the switch; late counts.', 'float64 model of rho_n with the switch.', 'hist 5-6 from each start; steps whose rho is within rounding of the threshold are excluded.')
n('C09', 'rms/stddev/rss/rmsprop/adagrad: all histories with zeros, hyper-parameter grid, tiny and absent constants with gradients of 1e-7, single precision constant gradients for thousands of steps.', 'float64 statistics.', 'hist 5-7, lassos; centred variance compared only where well-conditioned, never NaN everywhere.')
n('C10', 'sm3: all histories over patterns (one-hot, row, column, dense, zero) of leaves of 0-4 axes including size-1 axes.', 'float64 SM3-II.', 'hist 3-5 per shape; b1, b2, eps grid.')
n('C11', 'trust ratio, lamb, fromage: every combination of zero/small/at/above-minimum parameter and gradient leaves; safe_norm values and gradients on a grid.', 'float64 models.', 'combination x hist 2-4.')
n('C12', 'clip and global-norm clip: every value x bound pair; all scales around each bound in trees from one to 1000s of entries; integer leaves; dtypes.', 'float64 definition; "unchanged" is bitwise below the bound.', 'grid product, idempotence hist 3-5.')
n('C13', 'adaptive_grad_clip: every shape pattern of rank 0-4 with sizes 1-3, unit-wise norms below/at/above; ranks above 4.', 'float64 unit-wise definition.', 'all shapes x all unit norm assignments of the alphabet.')
n('C14', 'scale, weight decay, centralize, identity: all trees, all shapes of rank 0-4, one-hot perturbations of each leaf (no mixing), repeated application.', 'float64 definition; exact for identity.', 'hist 4-5 per case.')
n('C15', 'apply_if_finite around 15 optimisers: every sequence of good/NaN/inf trees for each limit; runs of k bad trees for all pairs of run lengths; NaN/+inf/-inf at every entry of every tree; largest finite/tiny values of every dtype at every entry; runs continued from large counters.', 'three-counter state machine around a numerical model or the real inner.', 'hist 5-8 x limits 0-3 (runs up to limit+3, limits to 12).')
n('C16', 'MultiSteps: all histories for k in 1..4, all 27 k-tables of length 3, k up to 64, mean/sum, has_updated, direct and as transformation; runs continued from large counters and with another k after any number of mini-steps.', 'window state machine.', 'hist 5-9; lassos over several cycles.')
n('C17', 'apply_every for k=1..4 with all histories including NaN/inf, k up to 100 by lassos, windows of hundreds of steps continued from any count, in chains.', 'window sum state machine.', 'hist 5-9.')
n('C18', 'masked: all leaf masks and all prefix masks of the trees, as trees and callables of every form, x 15+ inner transformations; one object shared between trees in every order; partition law (mask and complement).', 'the inner transformation on a tree of just the selected leaves.', 'hist 2-5 per mask.')
n('C19', 'flatten x all trees x 15+ inner; one object through all 2-leaf trees over 8 shapes.', 'inner on one concatenated vector (numpy) and unwrapped equality where element-wise.', 'hist 2-6.')
n('C20', 'maybe_update: all predicate tables over the first 5 calls, rules of the counter, every form of callable predicate, and runs that continue from counters around every power of two with predicates that change there.', 'gating state machine.', 'hist 4-6.')
n('C21', 'lookahead: all histories for periods 1-4 x step sizes x reset x inners, free parameters (not following the updates), NaN before a synchronisation, non-equal starting pairs, long periods continued near their end.', 'fast/slow state machine.', 'hist 4-8; lassos up to period 100.')
n('C22', 'inject_hyperparams: every interleaving of updates and edits of each reported value, all assignments scheduled/constant/default/static per factory; numbers of every representation (Python, NumPy, JAX, integer, 0-d) and numeric defaults are reported and editable; schedules that change at one late step only, and schedules and factories in every form of callable.', 'the factory rebuilt at each step with the values.', 'sequences of 2-4 (updates only: 7-8) over letters + edits.')
n('C23', 'every alias with a schedule, over tables with distinct values per step; every scheduled scaling; late counters; schedules that change at one late step only; every form of callable.', 'constant-rate run rescaled by the schedule at the count.', 'hist 4-7; start counts to 2^31-1.')
n('C24', 'every step of every configuration of a grid of thousands of schedules, vectorised compiled and eager; up to int32 limits.', 'exact closed form with Fractions/float64.', 'all steps 0..end+margin, plus powers of two.', 'exhaustive enumeration of (configuration, step) states of the real schedules against a closed-form model')
n('C25', 'as C24 for joins, warm-ups, restarts, interpolation, one-cycle; join boundaries around every power of two up to 2^31.', 'reference joins of reference parts.', 'all steps to past the end, all small boundaries.', 'exhaustive enumeration of (configuration, step) states of the real schedules against a closed-form model')
n('C26', 'every transformation with a 32-bit count: stepwise from 0, and started at every power of two +-1 up to the limit.', 'a saturating counter.', '100+ starts x 3-4 updates; the first hundreds of steps.')
n('C27', 'aggregation: all batches of 1-4 examples from an alphabet around the clip norm; all neighbours; all noise draws of long runs compared for distinctness, independence of the gradient, seed reproducibility and scale; dpsgd as composition.', 'float64 clipped mean; noise only relationally (same draws, two multipliers) and by exact bounds on its moments.', 'batches^4, draws of hundreds of steps for 2-4 seeds; no pinned key derivation.')
n('C28', 'add_noise/noisy_sgd: ratios of runs that share draws for an eta x gamma grid at all counts; all draws of a run distinct and within moment bounds; every pair of instances continuing each other\'s states.', 'exact ratio law sqrt(eta/n^gamma).', 'steps to 3000, starts to 2^31-1. Independence and normality are checked by deterministic bounds on fixed seeds, not proved.')
n('C29', 'apply_updates, incremental and periodic update: all histories, dtype pairs, every step x period.', 'float64 definition; bitwise for periodic.', 'hist 2-5; steps 0..130 and large.')
n('C30', 'keep_params_nonnegative, zero_nans: every pair of entries from an alphabet with signed zeros, exact cancellation, NaN, inf; all NaN patterns of all trees; histories; last in chains.', 'the statement itself, bitwise.', 'all pairs; 2^k patterns; hist 3-5.')
n('C31', 'every loss on the product of an alphabet of logits to +-1e4 with label sets, values and gradients, batch shapes, broadcast pairs, f32/f64.', 'float64/extended closed forms.', 'products of up to 6 classes.', 'exhaustive enumeration of a finite input space on the real code against a closed-form model')
n('C32', 'hvp, hessian_diag, fisher_diag for loss families with analytic derivatives, every tree, every basis vector.', 'analytic Hessians in flatten order.', 'all basis vectors x trees x losses.', 'exhaustive enumeration of a finite input space on the real code against a closed-form model')
n('C33', 'score-function: enumerates all outcomes of finite distributions; Gaussian: all quadrature nodes; measure-valued: per-sample identities for each drawn sample.', 'exact gradient of the expectation.', 'n <= 5 bits/categories, dims 1-3; polynomial integrands (quadrature is exact).', 'exhaustive enumeration of outcomes (exact expectation) on the real estimators')
n('C34', 'control_variates_jacobians for every estimator x variate x coefficient mode on the same samples; exact expectation over quadrature; the moving average as a state machine.', 'decomposition into estimator calls; exact EMA.', 'hist 2-6 for all option combinations, lassos 300-2000.')
n('C35', 'power iteration and inverse roots for all spectra of the alphabet x rotations x scales x seeds.', 'defining equations, numpy eigh.', 'n <= 5(6), p = 1..16(32), 4-12 seeds.', 'exhaustive enumeration of a finite input space on the real code against the defining equations')
n('C36', 'every alias/scaling transformation with defaults in single precision: all histories over {0, 1e-12, 1, -1, 1e4} patterns, every cycle word of length <= 2(3) for 1500 (20000) steps.', 'finiteness (checked each step inside the compiled loop).', 'hist 4-6, all cyclic words.')
n('C37', 'all ordered pairs and triples (thorough: 4-tuples) of 7 wrappers around optimisers, lookahead outermost, good and NaN trees; every wrapper, with and without lookahead, around a user-written transformation with 12 kinds of state.', 'composition of the wrapper state machines.', 'pairs hist 4-5, triples hist 4-5.')
n('C38', 'every catalogue entry: all histories over {a, z, b} on a list of four leaves and on its image under 11 symmetries, 10 other containers and 4 powers of two.', 'the image of the updates of the original run (1e-8).', 'hist 3 (4), 2 (3) shape sets.', 'relational exploration of the real code: all histories/configurations of a finite alphabet, executions compared with each other')
n('C39', 'every numeric hyper-parameter x 5-8 concrete representations, traced, and batched, all histories over {a, b, z}; all 8 mixtures of NumPy/JAX inputs at every state of the history tree; every schedule argument; injected against given hyper-parameters.', 'the run with Python numbers and JAX arrays (1e-6, exact dyadic values).', 'hist 3 (5 letters), arrays hist 2 (3), schedules 20 (40) steps.', 'relational exploration of the real code: all histories/configurations of a finite alphabet, executions compared with each other')
n('C40', 'exact forward- and reverse-mode Jacobians of all updates of all histories by all gradients, parameters and hyper-parameters (also those held in the state of inject_hyperparams); Jacobians of compiled training loops of every horizon; derivatives of 14 schedules at every step.', 'central differences of the float64 reference models (columns that are kinks of the model at this step size are skipped and counted).', 'hist 3 (4; RAdam 6), horizons 1-3 (5), 42 rules.', 'exhaustive enumeration of bounded histories of the real code under forward and reverse differentiation, each Jacobian compared with the reference model')
n('C41', '79 factories and functions: the product of {default, other} over the arguments (quick: up to 4 arguments full, otherwise pairs and all) x {by name, by position, defaults left out, trailing defaults left out} (thorough: every split) and their updates on all histories / values.', 'the call with every argument by name and explicit (1e-9); the table of documented defaults.', 'hist 2-7 over {a, 1e-7, b}, 2^n argument combinations.', 'exhaustive enumeration of the configuration product on the real code, executions compared with each other')
n('C42', 'self-composition: all pairs (own history, history of the others) with own letters {0, a, -a, 3e4, 1e-5} and other letters {a, 0, NaN, inf, 1e30, -7a}, each leaf and entry as the observed one; a leaf alone and in 4 other trees.', 'the run in which the others get ordinary gradients (bit-identical), and the leaf alone (1e-9).', 'hist 2 (3), 3 leaves, 5 entries.', 'exhaustive exploration of the self-composition of the real update functions')
n('C43', 'every history of 5-6 letters over extreme magnitudes as entries of one vector, and the worst-case histories (which attain the bounds: the longest step / bound is 1.000 in the evidence), for 38 transformations in both precisions; closed-loop histories for 16 norm-based ones; all batches and neighbouring batches of 1-3 examples.', 'closed-form suprema (Cauchy-Schwarz, geometric sums).', 'hist 5-6 (6-7) x 7 letters, 60 (400) steps, closed loop hist 4 (5).', 'exhaustive enumeration of bounded histories of the real code, every step checked against a closed-form bound')
n('C44', 'closed loops with real gradients: all starts x Hessians x steps of 18 linear rules; 31 optimisers on 4 losses from 27 starts; the first update on a gradient grid; rest on 3 trees.', 'products of step matrices (1e-8; 1e-5 with single-precision schedules); a hundredth (0.95 for trust ratios and Yogi) of the initial loss; signs; exact zero.', '120 (1000) steps, 400 steps, rest 8 (40) steps.', 'exhaustive closed-loop exploration of the real code from a grid of states, each state compared with the linear model')
n('C45', 'all nests of 10 wrappers up to depth 2 (3) around parameter-dependent cores without parameters, and around the others with and without; a table of calls at both sides of every documented limit.', 'the documented error, or acceptance.', 'about 780 nests eager and compiled, 450 calls.', 'exhaustive enumeration of wrapper nests and argument tables on the real code')
n('C46', 'every history of 5-6 letters in bfloat16, float16 and float32 (exact letters), start counts 0, 300 and 70000 through compiled loops, for every deterministic transformation; runs of 600 steps, past the integers a half can count.', 'the same history in single precision, or double for float32 (4% for bfloat16, 1% for float16, 1e-4 for float32, of the entry plus the largest entry), the update dtype.', 'hist 3 (5) on 2 (3) trees, 600 (5000) steps.', 'exhaustive enumeration of bounded histories of the real code in two precisions, every step compared')
n('C47', 'all histories through pairs of transformations that must coincide: 21 wrapper laws x 7 inner transformations, 81 degenerate settings and algebraic laws, closed loop with parameters; schedules at every step; losses on all pairs of a value grid; private aggregation on all batches.', 'the other side of the law (1e-9).', 'hist 4-5 (6-7), 4 trees, 40 (200) steps.', 'exhaustive exploration of bounded histories of two real transformations side by side, equal at every step')
json.dump(N, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'notes.json'), 'w'), indent=1)

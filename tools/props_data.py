H, I, CF, CR, FS = 'histories', 'inputs', 'configurations', 'crash_points', 'fault_sequences'
MC = 'explicit-state model checking of operation histories on the real objects against a reference model'
EX = 'bounded-exhaustive enumeration of inputs on the real code against an independent exact reference'

prop('C01', 'Each parameter is always in exactly one of fixed, stepping, varying',
     'After any history of assigning, fixing, ranging, varying, linear or log stepping and grid stepping of the parameters of an '
     'inference, each parameter that has been used appears in exactly one of its listings of fixed, stepping and varying parameters, the one that matches '
     'the parameter\'s own status. Varying and stepping parameters are listed in the order in which they last became varying or stepping '
     '(re-declaring one keeps its place), and the reported step numbers and grid shape follow that order. Changing any stepping '
     'declaration restarts the whole grid at its first point.',
     [H], 'all operation histories up to a depth bound over 2-3 parameters and every mix of statuses',
     'The one PIE test script walks a single history; statuses interact through shared lists only in longer histories.',
     [PIE+'inference_base.py', PIE+'realparam.py', PIE+'param.py'],
     [('status change listener', PIE+'inference_base.py Inference._on_param_status_change'), ('status setter', PIE+'param.py ScalarParamHandler._set_status')],
     MC, 'All histories of the alphabet up to the stated depth; real objects merged only when their whole attribute graphs are equal.')

prop('C02', 'Refused parameter operations change nothing; values stay in range',
     'An operation on a parameter that would put its value, its start value or a step limit outside the allowed range, or that is given '
     'unusable arguments, is refused with an error. A refused operation leaves every parameter\'s value, status, range and stepping '
     'exactly as they were. A parameter that has just been fixed, assigned, set, varied or stepped successfully lies within its '
     'allowed range.',
     [H, I], 'all histories up to a depth bound mixing accepted and refused operations with boundary values, on, just inside and just outside each limit',
     'No test makes an operation fail and looks at what is left behind.',
     [PIE+'realparam.py', PIE+'inference_base.py'],
     [('vary', PIE+'realparam.py RealParamHandler.vary'), ('linstep/logstep', PIE+'realparam.py RealParamHandler.linstep'), ('set_value/fix', PIE+'realparam.py RealParamHandler.set_value')],
     MC, 'All histories of the boundary-value alphabet up to the stated depth.')

prop('C03', 'Inference instances are isolated from each other',
     'Whatever is done to the parameters or data of one inference object (setting, varying, stepping, fitting, simulating data) never '
     'changes a parameter value, status, range, stepping position, data set or score of any other inference object, whether of the same '
     'class or of another class built from the same signal model and data. The data given to a predictor are never changed in place.',
     [H], 'all interleaved histories up to a depth bound over two or three live inference objects sharing model and data classes',
     'Tests use one inference at a time.',
     [PIE+'param.py', PIE+'predictor.py', PIE+'gaussian.py'],
     [('descriptor state per instance', PIE+'param.py Param.__get__/__set__'), ('predictor handler per instance', PIE+'predictor.py Predictor.__get__'), ('copy on write', PIE+'gaussian.py SampledGaussianHandler.localize_data')],
     MC, 'All interleavings of the per-object alphabets up to the stated depth.')

prop('C04', 'Stepping a parameter visits exactly the declared values',
     'A parameter declared to step from a low to a high value in n steps takes, at step index i, the i-th of n equally spaced values '
     '(equally spaced logarithms for log stepping), hitting both ends exactly; limits left out default to the allowed range. Any '
     'sequence of next, previous, first and last moves yields the value of the index reached, and a move past either end is refused and changes nothing.',
     [H, I], 'all move sequences up to a depth bound, and all n up to a bound including long walks, for linear and logarithmic, ascending, descending and negative ranges',
     'Tests step forward through one or two small grids only.',
     [PIE+'realparam.py', PIE+'param.py'],
     [('step moves', PIE+'realparam.py RealParamHandler.next_step/prev_step/first_step/last_step')],
     MC, 'All move sequences up to the bound from every start index.')

prop('C05', 'The grid walk visits every grid point once, one neighbour move at a time',
     'Walking the grid of stepping parameters from its start visits every point of the grid exactly once, each move changing exactly one '
     'parameter by exactly one step, and then reports the end of the walk, leaving all stepping parameters at their first step ready for '
     'an identical second walk. The walk does not disturb fixed and varying parameters.',
     [CF, H], 'all grid shapes up to a bound on dimension and size, all declaration orders, walks restarted at every point',
     'Tests walk two or three fixed shapes and do not check coverage.',
     [PIE+'inference_base.py'],
     [('zig-zag walk', PIE+'inference_base.py Inference.next_step/reset_steps')],
     MC, 'Every walk of every shape within the bound, resets at every point included.')

prop('C06', 'Scores equal their definition for the current parameters and data',
     'At every moment the score of a chi-squared inference is the sum over all its data of ((value - model)/sigma)**2 for the current '
     'parameter values and current data; for a likelihood inference it is minus half that sum, and for a Bayesian inference that plus the '
     'log prior. This holds after any history of parameter changes, grid steps, fits and data simulations, for scalar and vectorised '
     'models and for one- and multi-dimensional sample locations.',
     [H, CF], 'all operation histories up to a depth bound for each kind of inference, model style, location dimension and number of predictors',
     'Tests print scores for a single state each; staleness needs histories.',
     [PIE+'chisqr.py', PIE+'maxlike.py', PIE+'bayes.py', PIE+'gaussian.py', PIE+'signalmodel.py'],
     [('score', PIE+'chisqr.py ChisqrInference.score'), ('log likelihood', PIE+'gaussian.py SampledGaussianHandler.log_like/chisqr/get_prdxns')],
     MC, 'Exact recomputation of the definition after every operation of every history within the bound.')

prop('C07', 'A grid fit fills every cell with the right score and reports the optimum',
     'Fitting with stepping and no varying parameters returns a grid whose every cell holds the score at that cell\'s parameter values and '
     'whose axes describe the stepping parameters in order. With varying parameters each cell holds the score optimised over them at that '
     'point (and, on request, the optimal values), and the reported best value and index are those of the best cell. The result does not '
     'depend on where in the grid the stepping parameters stood before the fit.',
     [CF, H], 'all small grid shapes, step types, orders, starting positions and inference kinds with a model whose profile is known in closed form',
     'The test prints one grid; nothing checks cells, and it always starts from a fresh grid.',
     [PIE+'inference_base.py', PIE+'containers.py'],
     [('grid evaluation', PIE+'inference_base.py Inference.do_grid/fit'), ('result containers', PIE+'containers.py ScalarGrid/VectorGrid')],
     EX+' and of pre-fit histories', 'Every configuration in the stated family, from every grid position.', level='model_checking')

prop('C08', 'Optimisation returns a consistent, in-range optimum no worse than the start',
     'An optimisation over varying parameters returns parameter values whose score equals the returned extremum, which is never worse than '
     'the score at the starting values and reaches the known optimum of a well-behaved interior problem (with mapped bounds, one '
     'whose searches along the coordinates do not run onto a bound). All values tried and returned lie '
     'in the allowed ranges when bounds are mapped.',
     [I, CF, H], 'all lattice quadratic problems in 1-3 dimensions, inference kinds, starts, scales, mapped or unmapped bounds, optimum inside, near or outside the range',
     'Tests fit one or two problems and print the result.',
     [PIE+'inference_base.py', PIE+'realparam.py', 'package/inference/utils/nrmin.py'],
     [('optimize', PIE+'inference_base.py Inference.optimize'), ('bound mapping', PIE+'realparam.py RealParamHandler._unbounded_set_value')],
     EX, 'Every problem of the lattice family.', level='model_checking')

prop('C09', 'Model callbacks see every change before the model is used',
     'Whenever a parameter value changes by any means (assignment, setting, varying, stepping, grid walk, fit), the model\'s change callback '
     'runs after the new value is visible; and before any signal is evaluated for a score, prediction or simulation, the model\'s use '
     'callback has run with the parameter values that the evaluation then uses. A model that caches derived quantities in these callbacks '
     'therefore never computes with stale values.',
     [H], 'all operation histories up to a depth bound on a model that derives all its signals from what its callbacks recorded',
     'No test defines these callbacks.',
     [PIE+'signalmodel.py', PIE+'param.py', PIE+'gaussian.py'],
     [('notification', PIE+'param.py ScalarParamHandler._set_value'), ('use hook', PIE+'signalmodel.py SignalModel._on_use')],
     MC, 'All histories of the alphabet up to the stated depth.')

prop('C10', 'Saved parameter values restore exactly and never change afterwards',
     'A snapshot of the parameter values of an inference keeps the values of the moment it was taken whatever happens to the inference '
     'later, and is independent of every other snapshot. Restoring a snapshot into an inference whose parameters are all fixed or varying '
     'gives back exactly those values and leaves each parameter\'s status, range and search scale unchanged; with stepping parameters it is refused.',
     [H], 'all histories up to a depth bound interleaving snapshots, restores and changes',
     'Tests take no snapshot and restore none.',
     [PIE+'containers.py', PIE+'inference_base.py', PIE+'realparam.py'],
     [('snapshot', PIE+'inference_base.py Inference.get_params/set_params'), ('copy', PIE+'realparam.py RealParamValue.copy_value')],
     MC, 'All histories of the alphabet up to the stated depth.')

prop('C11', 'An inference has exactly its model\'s and data\'s parameters, in source order',
     'An inference built from a signal model and a set of predictors has exactly the parameters defined in them, each with its own default '
     'and documentation, in the order they appear in the source, model first, and exactly the predictors defined in its predictor set, in '
     'order. Defining or instantiating other models, subclasses or inferences never changes that.',
     ['programs', H], 'all class definition programs up to a bound: numbers and names of parameters (one a prefix of another), spacing styles, subclassing, sharing and definition order',
     'Tests define a handful of classes with short distinct names.',
     [PIE+'autoname.py', PIE+'param.py', PIE+'predictor.py', PIE+'inference_base.py'],
     [('naming metaclass', PIE+'autoname.py metaAutoName'), ('ordering', PIE+'inference_base.py Inference.__init__/_get_signal_names/_get_pred_names')],
     'bounded-exhaustive enumeration of class-definition programs executed for real', 'Every program of the generator within the bound.')

prop('C12', 'Simulated data are local, well-shaped and generated from the current model',
     'Simulating data replaces (or extends) only the simulating inference\'s own data; every simulated value is the current model '
     'prediction at its location plus its sigma times a standard normal deviate from the random stream, new locations and sigmas are the ones given, and data counts stay consistent. '
     'Scores computed afterwards use the new data.',
     [H, FS], 'all histories up to a depth bound of whole, single-datum and additional simulations with every argument form, under a controlled random stream',
     'The test calls one form of simulation on one inference.',
     [PIE+'gaussian.py'],
     [('simulation', PIE+'gaussian.py SampledGaussianHandler.sim/sim1/add_sim'), ('localisation', PIE+'gaussian.py SampledGaussianHandler.changing_data')],
     MC, 'All histories of the alphabet up to the stated depth; the random stream is owned by the harness.')

prop('C13', 'Observed information is minus the Hessian at the mode and moves nothing',
     'For a log posterior that is quadratic in its varying parameters, the observed information matrix computed at a mode equals minus the '
     'matrix of second derivatives within its own error estimate, whatever the parameter scales and correlations. Computing it leaves all '
     'parameters at the values they had.',
     [I, H], 'all lattice quadratic posteriors in 1-3 varying parameters, with step scales from far too small to far too large, repeated calls',
     'The test prints two matrices.',
     [PIE+'bayes.py', 'package/inference/deriv/obsinfo.py', 'package/inference/deriv/_obsinfo.f'],
     [('obs_info', PIE+'bayes.py BayesianInference.obs_info')],
     EX, 'Every problem of the lattice family.', level='model_checking')

prop('C14', 'Step finding and observed information are right for every quadratic',
     'For every negative-definite quadratic function, the step finder returns, for each coordinate, a step that lowers the function by the '
     'requested amount (to its tolerance), and the information routine returns minus the Hessian with symmetric entries and a truthful error '
     'estimate, also for a smooth function that is not quadratic. Neither modifies the caller\'s position or step arrays, even when it fails.',
     [I, FS], 'all lattice quadratics in 1-4 dimensions, guesses over many decades, iteration counts, and an exception from the user function at every call',
     'The test prints results for two functions.',
     ['package/inference/deriv/obsinfo.py', 'package/inference/deriv/_obsinfo.f'],
     [('wrappers', 'package/inference/deriv/obsinfo.py dllsteps/obsinfo'), ('Fortran', 'package/inference/deriv/_obsinfo.f pk_scales, ninfol')],
     EX+'; exception injected at every callback', 'Every quadratic of the lattice family, every callback index as fault point.', level='model_checking')

prop('C15', 'Array and attribute stores behave as persistent dictionaries',
     'A store opened on a saved archive holds exactly the names and values last saved under that name, reads of a name return the most '
     'recently assigned or archived value, saving writes the union with new values superseding old, and listing the contents gives each '
     'accessible name once. Saving under another name leaves the original archive untouched, and a refused assignment changes nothing.',
     [H], 'all histories up to a depth bound of create, assign, read, save, save-as, reopen and list with two or three names and files, with and without the file suffix',
     'The test script walks one history per store and prints.',
     ['package/inference/utils/ioutils.py'],
     [('ArrayStore', 'package/inference/utils/ioutils.py ArrayStore'), ('AttrStore', 'package/inference/utils/ioutils.py AttrStore')],
     MC, 'All histories of the alphabet up to the stated depth on real files in a scratch directory.')

prop('C16', 'Saving keeps the previous two versions and survives a crash at any point',
     'Each save or safe open of a file turns the previous version into the first backup and the one before into the second. If the process '
     'dies or a file operation fails at any point of a save, the last completely saved version is still present intact under the name or its first or second backup, and a second '
     'attempt from the state left behind does not lose it.',
     [CR, H], 'every file-system call and every torn write as crash point, over all save histories up to a bound, including a crash during the recovery save',
     'No test kills a save or looks at the backups.',
     ['package/inference/utils/ioutils.py', 'package/inference/utils/rng.py'],
     [('rotation', 'package/inference/utils/ioutils.py backup/safe_open'), ('stores', 'package/inference/utils/ioutils.py ArrayStore.save/AttrStore.save'), ('rng', 'package/inference/utils/rng.py save_rng')],
     'crash-point enumeration with an interposed libc on the real save path', 'Every crash point and torn-write prefix of every history within the bound.', level='fault_enumeration')

prop('C17', 'Restoring a saved random state reproduces the stream exactly',
     'After saving the random number state and later restoring it, the generator produces exactly the sequence of uniform, integer and '
     'normal deviates that followed the save, whatever was drawn in between. Saves keep the previous two states as backups, and restoring '
     'when no state has been saved leaves the stream unchanged and saves it.',
     [H], 'all histories up to a depth bound of draws of each kind, seeds, saves and restores',
     'No test saves or restores the random state.',
     ['package/inference/utils/rng.py'],
     [('save/restore', 'package/inference/utils/rng.py save_rng/restore_rng')],
     MC, 'All histories of the alphabet up to the stated depth.')

prop('C18', 'Running log-sums equal the log of the exact sum',
     'After adding any sequence of values given by their logarithms, with zeros interspersed and any starting sum, the summer reports the '
     'right count, log of the sum, log of the mean and (on request, without a starting sum) log of the root mean square spread, without overflow or underflow for '
     'any magnitudes. An empty or all-zero sum is reported as an error.',
     [H, I], 'all sequences up to a length bound over a lattice of log values spanning hundreds of decades',
     'There is no test of it.',
     ['package/inference/utils/numutils.py'],
     [('LogSummer', 'package/inference/utils/numutils.py LogSummer')],
     MC, 'All sequences over the lattice up to the length bound, against exact high-precision sums.')

prop('C19', 'Grid generators give n points, both ends exact, evenly spaced',
     'The linear and logarithmic steppers yield, for n of at least 2, exactly n values from low to high inclusive, with both end values exact, the inner ones '
     'equally spaced in value or in logarithm and strictly monotonic, and the enumerating forms pair them with 0..n-1. Independent '
     'steppers do not influence each other however their iterations interleave.',
     [I, 'schedules'], 'all n up to a bound and a lattice of ends, ascending, descending and negative; all interleavings of two steppers',
     'They are only exercised through other code.',
     ['package/inference/utils/numutils.py'],
     [('steppers', 'package/inference/utils/numutils.py lin_stepper/log_stepper/lin_enum_stepper/log_enum_stepper')],
     EX, 'Every configuration of the lattice.', level='exploration')

prop('C20', 'A returned bracket really brackets a zero',
     'Zero bracketing returns only intervals at whose ends the function has opposite signs, starting from the given interval; it evaluates '
     'the function only finitely often and raises an error when no bracket is found or the interval is null. Supplying the initial function '
     'values or extra arguments does not change the result.',
     [I], 'all sign/magnitude patterns a function can answer with up to the try limit, plus monotone and piecewise lattice functions',
     'Only reached through the credible-region code.',
     ['package/inference/utils/numutils.py'],
     [('zbracket', 'package/inference/utils/numutils.py zbracket')],
     'exhaustive exploration of all answer sequences of an adversarial function', 'Every answer sequence of the environment within the bound.', level='model_checking')

prop('C21', 'Minimisers return consistent points never worse than the start',
     'The one-dimensional and multidimensional minimisers return a value equal to the function at the returned point and never above its '
     'value at the starting point, and for convex quadratic and other unimodal functions they return the minimum within tolerance. Caller-supplied '
     'start points and direction arrays are not modified, and repeated calls give the same answers.',
     [I, H], 'all lattice quadratics and unimodal functions in 1-3 dimensions, starts, directions and scales; call sequences',
     'The self-test minimises one function per routine and prints.',
     ['package/inference/utils/nrmin.py'],
     [('brent', 'package/inference/utils/nrmin.py MinBracket/brent'), ('line/powell', 'package/inference/utils/nrmin.py linmin/powell')],
     EX, 'Every function of the lattice family.', level='model_checking')

prop('C22', '1-D credible regions: normalisation, content, level and bounds agree',
     'For every gridded 1-D density, the normalisation is the log of its trapezoid integral in the grid coordinate, the fraction above a '
     'level is the exact integral of the piecewise linear density above it, and the critical level found for probability p encloses p to '
     'the level tolerance. The bounds returned are exactly the crossings of that level, alternating up and down, and results are the same '
     'whether the grid is given or evaluated from a function.',
     [I, H], 'all lattice densities up to a grid size bound (flat, truncated, multimodal, zero tails), linear and log grids, all p of a lattice, repeated queries',
     'The tests print results for single-peaked normal densities.',
     ['package/inference/grid/hpd.py', 'package/inference/grid/hpdgrid.py', 'package/inference/grid/_gridquad.f'],
     [('HPD', 'package/inference/grid/hpd.py HPD1D'), ('quadrature', 'package/inference/grid/_gridquad.f qgt1d, xvalues')],
     EX, 'Every lattice density within the bound.', level='model_checking')

prop('C23', '2-D credible regions: normalisation and content agree with the grid',
     'For every gridded 2-D density, the normalisation is the log of its trapezoid integral over the grid (in the grid coordinates), the '
     'fraction above a level falls from 1 to 0 as the level rises, and the critical level found for p encloses p. Transposing the grid leaves the normalisation as it is, '
     'rescaling its axes changes it only as it should, and results are the same whether the grid is given or evaluated from a function.',
     [I], 'all lattice densities up to a grid size bound, linear and log axes, all p of a lattice',
     'The tests print results for one normal density.',
     ['package/inference/grid/hpd.py', 'package/inference/grid/hpdgrid.py', 'package/inference/grid/_gridquad.f'],
     [('HPD2D', 'package/inference/grid/hpd.py HPD2D'), ('quadrature', 'package/inference/grid/_gridquad.f qgt2d')],
     EX, 'Every lattice density within the bound.', level='model_checking')

prop('C24', 'The list of maxima holds the largest values seen, sorted, with their labels',
     'After any sequence of updates the list of labelled maxima is sorted from the largest down, holds the largest values offered (up to its '
     'size limit, first come first kept among equals) with the labels they were offered with, and nothing further below the top than its dynamic range.',
     [H], 'all update sequences up to a length bound over a lattice of values with ties, for all size limits and dynamic ranges',
     'Only reached through one grid test.',
     ['package/inference/grid/grid1d.py'],
     [('LabeledMaxList', 'package/inference/grid/grid1d.py LabeledMaxList')],
     MC, 'All sequences over the lattice up to the length bound.')

prop('C25', 'Refined interval lists stay contiguous, cover the base and count points right',
     'After any sequence of refinements, the interval list covers the base interval from end to end with contiguous intervals none of which '
     'is sampled more coarsely than the base, every region refined by at most five times is sampled at least as densely as requested (a finer one has at least the '
     'requested number of points over the samples it touches), and the point count equals '
     'the number of distinct sample points. Locating a position or a point number returns the interval that contains it.',
     [H, CF], 'all refinement sequences up to a length bound on lattices of interval ends and densities, linear and logarithmic',
     'The test refines two grids and prints.',
     ['package/inference/grid/grid1d.py'],
     [('RefinedIntervalList1D', 'package/inference/grid/grid1d.py RefinedIntervalList1D.update/merge/locate/nlocate')],
     MC, 'All refinement sequences over the lattice up to the length bound.')

prop('C26', 'Grid quadratures, moments and points match the function on the refined grid',
     'A self-refining grid over an increasing range evaluates the function at every one of its points, its length, indexing and iteration enumerate those points in '
     'increasing order with their values, and its integrals, log integrals and moments equal the trapezoid sums over exactly those points. '
     'Detected peaks are the local maxima of the first pass.',
     [I, CF], 'all lattice functions up to a grid size bound, linear and log, scalar and sequence valued, before and after refinement',
     'The test prints one quadrature.',
     ['package/inference/grid/grid1d.py'],
     [('Grid1D', 'package/inference/grid/grid1d.py Grid1D'), ('BasicGrid1D', 'package/inference/grid/grid1d.py BasicGrid1D')],
     EX, 'Every lattice function within the bound.', level='model_checking')

prop('C27', 'Every cubature rule is exact to its stated degree',
     'Each planar cubature rule integrates every monomial of total degree up to its stated degree exactly (to rounding) over its region and '
     'weight, for every rectangle, mean and scale it is applied to; rules of one family agree with each other; results are linear in the '
     'integrand and independent of how many rules were made or used before.',
     [I, CF, H], 'all rules, all monomials up to each degree, lattices of rectangles, means and scales, all orders of use of pairs of rules',
     'Tests integrate five functions with some rules and check a few to 1e-6.',
     ['package/inference/integrate/cub2d.py', 'package/inference/integrate/_cub2d_auto.py'],
     [('rules', 'package/inference/integrate/cub2d.py, _cub2d_auto.py')],
     EX, 'Every rule and monomial; a rule exact on all monomials is exact on all polynomials of the degree.', level='model_checking')

prop('C28', 'Adaptive integrators are within their reported error or say they failed',
     'An adaptive integration over a box, with bounds in either order, that is reported successful is within the requested tolerance of the true integral for smooth '
     'integrands (for the heuristic error estimate of adapt(), within a stated multiple of it, and exact for polynomials of low degree); when the requested accuracy cannot be reached within the evaluation limit, or the arguments are invalid, an error or '
     'warning says so and the limit is respected (by adapt(), to within one subdivision). Errors of the integrand reach the caller.',
     [I, CF], 'all monomials, exponentials and oscillating integrands of a lattice, 2-5 dimensions, boxes, tolerances and limits, all rules',
     'The test integrates one function.',
     ['package/inference/integrate/adapt.py', 'package/inference/integrate/adapt_vec.py'],
     [('adapt', 'package/inference/integrate/adapt.py adapt'), ('adapt_vec', 'package/inference/integrate/adapt_vec.py')],
     EX, 'Every integrand and configuration of the lattice.', level='exploration')

prop('C29', 'On/off counting inferences equal their exact formulas',
     'For every pair of on and off counts and exposures, the probabilities for the number of signal counts are non-negative, sum to one and '
     'equal the exact formula; the log marginal likelihood, posterior and its derivative agree with direct evaluation for every '
     'rate, given singly or as arrays.',
     [I, CF], 'all counts up to a bound, lattices of exposures, backgrounds and rates, scalar and array arguments',
     'The example script plots one case.',
     ['package/inference/count/onoff.py', 'package/inference/count/_cbmlike.f'],
     [('on/off', 'package/inference/count/onoff.py'), ('Fortran', 'package/inference/count/_cbmlike.f')],
     EX, 'Every configuration of the lattice against exact rational arithmetic.', level='exploration')

prop('C30', 'Counting inference objects answer the same whatever was asked before',
     'Every query of a counting inference object (signal probabilities, likelihoods, posteriors, rates) gives the same answer whatever '
     'queries came before it on that or another object, and whatever the caller did with arrays returned earlier.',
     [H], 'all query histories up to a depth bound over four objects that share parts of their data, including writes into returned arrays',
     'The example calls each query once.',
     ['package/inference/count/onoff.py', 'package/inference/count/_cbmlike.f'],
     [('cached tables', 'package/inference/count/onoff.py OnOff'), ('Fortran common state', 'package/inference/count/_cbmlike.f')],
     MC, 'All query histories of the alphabet up to the stated depth.')

prop('C31', 'Marginalised linear amplitudes equal exact weighted least squares',
     'For every non-singular basis, data and noise level(s), the Bretthorst-algorithm objects report the residual, best-fit amplitudes, '
     'covariances and determinant statistics of exact weighted least squares for the parameters asked about. The answers do not depend on which '
     'evaluations, look-ups or failed evaluations came before, nor on what the caller did with arrays given or returned earlier.',
     [H, I], 'all small integer designs through both front ends, and all histories up to a depth bound of evaluations, look-ups, failures and writes into returned arrays',
     'No test exercises this package.',
     ['package/inference/gauss/vecba.py', 'package/inference/gauss/vbamodule.c'],
     [('memoised front ends', 'package/inference/gauss/vecba.py BA/BAObj'), ('least squares', 'package/inference/gauss/vbamodule.c')],
     MC, 'Every design of the lattice against exact rational least squares; all call histories up to the stated depth.')

prop('C32', 'Weighted sampling with replacement draws members in proportion',
     'Drawing from a population with replacement returns members only, each with probability equal to its share of the total weight to the '
     '30 bits of the random words the table method uses, never one of zero weight. Draws continue the one NumPy generator: re-seeding reproduces the draws, '
     'interleaved NumPy draws and other populations neither repeat nor disturb the stream, and a population without positive total weight is refused.',
     [I, H], 'all 2^30 random words per weight table, all short word sequences, and all histories up to a depth bound of draws, NumPy draws and re-seeding',
     'No test exercises this package; a sampling test could not see probabilities off by 1e-6.',
     ['package/inference/mc/population.py', 'package/inference/mc/_ppssampler.c', 'package/inference/mc/compact5table.c'],
     [('table sampler', 'package/inference/mc/compact5table.c'), ('generator hand-over', 'package/inference/mc/population.py Population.sample')],
     MC, 'Every random word for each weight table; all generator histories up to the stated depth.')

prop('C33', 'Column files are read back as the table they were written from',
     'Reading a whitespace-separated column file with a list of column types returns exactly the typed columns of the table, in order, as arrays or '
     'lists, whatever the whitespace layout, number of rows and number of extra columns not asked for. A word that is missing '
     'or cannot be converted is reported as an error instead of shifting or dropping data.',
     [I], 'all small tables, column kinds, layouts and extra columns, from files and from memory, and every position of a bad or missing word',
     'No test reads a column file.',
     ['package/inference/utils/ioutils.py'],
     [('reader', 'package/inference/utils/ioutils.py read_column_vectors')],
     EX, 'Every table and layout within the bound.', level='exploration')

prop('C34', 'Sigma, probability and density conversions of normals are consistent',
     'The conversions between numbers of standard deviations, probability content and (relative) bounding density of normal regions in any '
     'number of dimensions agree with the closed forms, are inverse to each other, and agree between the modules that provide them, for scalars and arrays.',
     [I], 'all dimensions up to a bound and lattices of levels, scalars and arrays of every shape',
     'No test calls the conversions on their own.',
     ['package/inference/grid/hpd.py', 'package/inference/grid/hpdgrid.py', 'package/inference/utils/plot_bivar.py'],
     [('conversions', 'package/inference/grid/hpd.py sig2prob/prob2sig/prob2dens/prob2ratio/sig2ratio')],
     EX, 'Every dimension and lattice point.', level='exploration')

prop('C35', 'Subsets are drawn with inclusion probability proportional to size',
     'Drawing a subset of distinct members gives every subset its exact Sampford probability, so that each member is included with probability proportional to its '
     'weight (equal for equal weights), for every size below the reported maximum; empty subsets and sizes beyond the maximum are refused. Both methods draw from the shared NumPy generator, '
     'so re-seeding reproduces the subsets, and earlier calls do not influence the distribution of later ones.',
     [I, H], 'all outcomes of the draws on an exact lattice for each population and size, and all call histories up to a depth bound',
     'No test exercises this package; sampling could not resolve the probabilities of all subsets.',
     ['package/inference/mc/population.py', 'package/inference/mc/_ppssampler.c', 'package/inference/mc/sampford.c'],
     [('Sampford sampler', 'package/inference/mc/sampford.c'), ('front end', 'package/inference/mc/population.py Population.subset_pps/subset_pps5')],
     MC, 'Every outcome of the draws on the lattice; all call histories up to the stated depth.')

prop('C36', 'Piecewise linear densities are normalised, and samples follow them',
     'The pdf of a piecewise linear density is, at every point of its domain including both ends, the interpolation of the values given (with values below the '
     'cut as zero), scaled to integrate to one, and zero outside. A sample is the quantile, within the interval the table sampler chose, of '
     'the uniform deviate drawn, so samples follow that pdf.',
     [I], 'all small tables of values with zeros and negligible values, domains, abscissas, logarithms and cuts; all draws of a lattice of random words and deviates',
     'No test exercises this package.',
     ['package/inference/mc/pwlinear.py', 'package/inference/mc/_ppssampler.c'],
     [('pdf', 'package/inference/mc/pwlinear.py PWLinear._pdf'), ('sampling', 'package/inference/mc/pwlinear.py PWLinear.sample')],
     MC, 'Every table and draw of the lattice.')

prop('C37', 'Plots show the grids and levels they are made from',
     'Contours of bivariate, stored-grid and credible-region plots pass exactly where the gridded log density interpolates to the levels asked '
     'for (absolute, or holding the stated probabilities, in any order), each crossing drawn, on axes in the right order. Images, line plots, level lines, crosshairs, labels and '
     'the coordinate read-out agree with the same grid, and the data given are not changed.',
     [CF, I], 'all combinations of shapes, axis order, levels and options',
     'No test looks at a plot.',
     ['package/inference/utils/plot_bivar.py', PIE+'containers.py', 'package/inference/grid/hpdgrid.py'],
     [('bivariate plot', 'package/inference/utils/plot_bivar.py plot_bivar'), ('stored grids', PIE+'containers.py ScalarGrid.plot'), ('credible regions', 'package/inference/grid/hpdgrid.py HPDGrid1D.plot/HPDGrid2D.plot')],
     EX, 'Every combination within the bound.', level='exploration')

KEP = 'sandbox/signals/'
PER = 'sandbox/point/periodic/'
REGR = 'sandbox/regress/'
DRX = 'sandbox/drxn/'
BHA = 'sandbox/bha/'

prop('C38', 'Keplerian anomalies solve Kepler\'s equation, and every orbit is its own',
     'For every elliptic orbit, time and tolerance, the eccentric anomaly solves Kepler\'s equation within the tolerance set, and the true anomaly and radial velocity follow from it by the defining '
     'formulas: alike for single times, arrays and stored arrays, and for each way to give the phase origin. An Orbit answers from its own parameters and its own last times, whatever other orbits, '
     'the plain function or native calls were used in between; results handed out and times given are not changed.',
     [I, H], 'lattices of eccentricities, phases, periods, origins and tolerances that reach the bounds; all call histories up to a depth bound over three orbits',
     'No test exercises this package.',
     [KEP+'kepler.py', KEP+'fkeplermodule.c'],
     [('solver', KEP+'fkeplermodule.c t2EA/t2TA/t2anoms and their vector forms'), ('orbits', KEP+'kepler.py v_rad, Orbit')],
     MC, 'Every lattice point; all call histories up to the stated depth.')

prop('C39', 'Rayleigh statistics and von Mises marginal likelihoods match their definitions',
     'For every set of event times and frequency the sine and cosine sums and the Rayleigh power are those of the definition; a frequency grid has the requested, evenly spaced frequencies, and at each the power '
     'that the single-frequency function gives; the marginal likelihood of concentration and frequency is the phase average of the von Mises likelihood (to the documented accuracy of its Bessel function).',
     [I], 'all small sets of times of a lattice, frequencies, grids, concentrations',
     'No test exercises this package.',
     [PER+'_rayleigh.c'],
     [('statistic and grid', PER+'_rayleigh.c rayleigh/rsgrid'), ('likelihood', PER+'_rayleigh.c lml_wk/lbessi0')],
     EX, 'Every combination within the bound.', level='exploration')

prop('C40', 'The piecewise-constant periodic model is integrated exactly over shape and phase',
     'For every set of event times (of either sign), number of bins, frequency and derivatives, the model\'s counts in bins, log inverse multiplicity and chi-square at a phase, its marginal likelihood and averaged chi-square over '
     'phase (exact, or by the trapezoid rule with the points asked for), Ockham factor, odds, and rate estimate with standard deviation are those of the definition. They depend on the data given and the current settings only: '
     'frequency parameters left out keep their values, bins and quadrature may be set at any time and in any order, and models do not influence each other.',
     [I, H], 'all small sets of times of a lattice with every setting; all call histories up to a depth bound over two models',
     'No test exercises this package.',
     [PER+'periodic.py', PER+'_pcperiodic.f'],
     [('model', PER+'periodic.py PCModel'), ('binning and integrals', PER+'_pcperiodic.f fbindata/limult/qlw_exact/qlw_trap/rate_wb/lodds')],
     MC, 'Every combination within the bound; all call histories up to the stated depth.')

prop('C41', 'Line fits give the estimates and errors of their definitions',
     'For every set of points, with or without measurement errors, the fitted lines (two ordinary least-squares lines, bisector, orthogonal, reduced major axis and mean; the variants corrected for known, possibly correlated errors; and the '
     'weighted fit with intrinsic scatter) have the slopes and intercepts of their definitions and the standard errors that follow from the influence of each point, for rising and falling lines alike. They follow shifts, rescalings and '
     'reflections of the data; the data given are left as they were; inconsistent or insufficient data are refused.',
     [I], 'all small multisets of lattice points under shifts, scales and reflections, with every error assignment of a list',
     'No test exercises this package.',
     [REGR+'regress.py', REGR+'_regress.f'],
     [('results', REGR+'regress.py SixLin/BCES/wlss/bistats'), ('estimators', REGR+'_regress.f sixlin/bess/wlss')],
     EX, 'Every data set within the bound.', level='exploration')

prop('C42', 'Fisher directions are normalised; coincidences follow the defining integral',
     'For every direction, coordinate convention and uncertainty, the unit vector is the direction given, the likelihood is a normalised density on the sphere at every concentration, and the 68.3% radius and concentration belong together. '
     'The Bayes factor of a common direction of two, three or more directions is the ratio of the defining integrals, whichever function is used and in whatever order the directions are given; the best common direction and concentration are those of the combined likelihood.',
     [I], 'all multisets of up to four (five) lattice directions and uncertainties, including poles, seams, antipodes and extreme concentrations',
     'No test exercises this package.',
     [DRX+'drxn.py', DRX+'fisher_coinc.f'],
     [('directions', DRX+'drxn.py'), ('likelihoods and coincidences', DRX+'fisher_coinc.f')],
     EX, 'Every combination within the bound.', level='exploration')

prop('C43', 'Harmonic and multiplet analyses are least-squares fits of the sinusoids',
     'For every evenly sampled series and every admissible set of frequencies (a harmonic series or any distinct frequencies in any order), the metric, its factor and determinant, the amplitudes, the sufficient statistic and the '
     'amplitude covariances are those of the linear least-squares problem over the samples; singular problems and inconsistent sizes are refused with an exception, and results given earlier are not changed by later calls.',
     [I, H], 'lengths, fundamentals, frequency sets in every order and data vectors of a lattice; call sequences',
     'No test exercises this package.',
     [BHA+'bhacalc.c'],
     [('metrics', BHA+'bhacalc.c harmonicAnalysis/multipletAnalysis'), ('statistics', BHA+'bhacalc.c covar and amplitudes')],
     EX, 'Every combination within the bound.', level='exploration')

"""Writes /verif/properties.jsonl (kept as code so that it can be reviewed and re-generated)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

FIT, MIN, OBJ, MOD, RES, ARG, SUP = ('symfit/core/fit.py', 'symfit/core/minimizers.py', 'symfit/core/objectives.py',
    'symfit/core/models.py', 'symfit/core/fit_results.py', 'symfit/core/argument.py', 'symfit/core/support.py')

prop('C01', 'Fit results report every parameter in its own place',
     'The result of any minimization lists exactly the model parameters, each once and in the order the minimizer was given them. '
     'A fixed parameter is reported with exactly the value it was fixed at; the k-th free parameter is reported with the k-th coordinate the optimizer found.',
     ['inputs', 'configurations'], 'every number of parameters, every pattern of fixed and free parameters, every optimizer outcome, every scipy-based minimizer',
     'Tests fit a handful of models with at most one fixed parameter at one position; interleaved patterns of fixed parameters are not tried.',
     [MIN, RES, FIT], [('packing of the optimizer output', 'minimizers.py ScipyMinimize._pack_output'), ('construction of params', 'fit_results.py FitResults.__init__'),
      ('value lookup', 'fit_results.py FitResults.value')], observe=['FitResults.params', 'FitResults.value'])

prop('C02', 'The optimizer is given exactly the free part of the problem',
     'Whatever parameters are fixed, the initial guess, the bounds, the gradient, the Hessian and the residual Jacobian handed to the optimizer concern exactly the free parameters, in order: '
     'entry k (row and column k for a Hessian, column k for a residual Jacobian) is the one belonging to the k-th free parameter. '
     'Bounds are the parameter\'s own min and max, a missing bound being no bound (for least-squares optimizers -inf/+inf).',
     ['inputs', 'configurations'], 'every number of parameters, every fixed/free pattern, every derivative value, every bound setting',
     'Tests use one- to three-parameter models and mostly no fixed parameters; a misaligned bound or derivative entry often still converges.',
     [MIN], [('masking of gradients', 'minimizers.py GradientMinimizer.resize_jac / MINPACK.resize_jac'), ('masking of Hessians', 'minimizers.py HessianMinimizer.resize_hess'),
      ('bounds', 'minimizers.py BoundedMinimizer.bounds / MINPACK.bounds'), ('initial guess', 'minimizers.py BaseMinimizer.initial_guesses')])

prop('C03', 'An objective evaluates its model at exactly the requested point',
     'When an objective (or its gradient or Hessian) is evaluated at a vector of free parameter values, the model is evaluated with the k-th free parameter equal to the k-th value, '
     'every fixed parameter at its fixed value, and every independent variable at its data; values may equally be given by name. '
     'Only the components the objective is about (the dependent variables) are returned, in order, brought to the shape of their data.',
     ['inputs', 'configurations'], 'every model size, fixed/free pattern, data set and parameter vector',
     'Tests evaluate a few objectives with all parameters free.',
     [OBJ, MOD, SUP], [('argument binding', 'objectives.py BaseObjective.__call__, GradientObjective.eval_jacobian, HessianObjective.eval_hessian, BaseObjective._invariant_kwargs'),
      ('free parameters', 'models.py BaseModel.free_params'), ('key conversion', 'support.py key2str')])

prop('C04', 'Least squares: value, gradient and Hessian are the exact mathematical ones',
     'The least-squares objective equals one half of the sum, over components that have data and over all their data points, of ((f - y)/sigma)^2; components without data contribute nothing. '
     'Its gradient and Hessian are exactly the first and second derivatives of that value in the parameters, given the derivatives of the model components.',
     ['inputs', 'configurations'], 'any number of components, parameters and data points, any data, sigmas and model values, any pattern of missing components',
     'Tests compare one or two small data sets; sign, weight or cross-term errors that only show with several components or non-unit sigmas are not sampled.',
     [OBJ], [('value', 'objectives.py LeastSquares.__call__'), ('gradient', 'objectives.py LeastSquares.eval_jacobian'), ('Hessian', 'objectives.py LeastSquares.eval_hessian')])

prop('C05', 'Log-likelihood: value, gradient and Hessian are the exact mathematical ones',
     'The likelihood objective equals minus the sum of log f over all components and data points. '
     'Its gradient and Hessian are exactly the first and second derivatives of that value in the parameters, given the derivatives of f.',
     ['inputs', 'configurations'], 'any number of components, parameters and data points, any model values',
     'Tests check single data sets against closed forms only.',
     [OBJ], [('value', 'objectives.py LogLikelihood.__call__'), ('gradient', 'objectives.py LogLikelihood.eval_jacobian'), ('Hessian', 'objectives.py LogLikelihood.eval_hessian')])

prop('C06', 'Residual-vector and model-minimizing objectives are exact',
     'The residual-vector objective returns, per data point, the square root of the sum over components with data of ((y - f)/sigma)^2, and its Jacobian is the derivative of that vector in the parameters. '
     'The model-minimizing objective returns the model\'s own value, gradient and Hessian unchanged, and refuses models with more than one dependent variable. '
     'The Gauss-Newton variant used for error estimation behaves as if the model Hessian were zero.',
     ['inputs', 'configurations'], 'any number of components, parameters and data points',
     'Only single-component cases are tested.',
     [OBJ], [('residual vector', 'objectives.py VectorLeastSquares.__call__, eval_jacobian'), ('model minimization', 'objectives.py MinimizeModel'), ('Gauss-Newton', 'objectives.py HessianObjectiveJacApprox')])

prop('C07', 'Data are bound to the right variables with the right sigmas',
     'Data given by position go to the independent variables, then the dependent variables, then the sigmas, each group alphabetically; data given by name go to that variable; missing required or unknown data are refused. '
     'A missing sigma becomes ones of the shape of its data and a scalar sigma that constant array; a dependent variable given as None stays None. '
     'Sigmas are treated as absolute exactly if the user says so, or says nothing and provided at least one sigma.',
     ['inputs', 'configurations'], 'any number of variables of each kind, any split between positional and named data, any pattern of None, scalar and array sigmas',
     'Tests bind at most a few variables.',
     [FIT], [('binding', 'fit.py TakesData.__init__, TakesData._make_signature, _make_parameters'), ('views', 'fit.py TakesData.dependent_data, independent_data, sigma_data')])

prop('C08', 'Calling a model evaluates every component at the given point',
     'Calling a model by position (independent variables, then parameters, each alphabetical) or by name returns for every component the value of its expression with the given variables and parameters, other components entering through their own values. '
     'The output can be read by index, by variable and by name, consistently.',
     ['programs', 'inputs'], 'every symbolic model (any dependency graph, any order of definition), every point',
     'Tests evaluate a few fixed models.',
     [MOD, SUP, 'symfit/core/operators.py'], [('evaluation order', 'models.py BaseCallableModel.eval_components, BaseModel.ordered_symbols'), ('classification of symbols', 'models.py BaseModel._init_from_dict, connectivity_mapping'),
      ('signature', 'models.py BaseCallableModel._make_signature'), ('output', 'models.py ModelOutput'), ('lambdification', 'support.py sympy_to_py, seperate_symbols')])

prop('C09', 'Model Jacobians and Hessians hold the right derivative in every entry',
     'For a symbolic model, the Jacobian entry for component i and parameter j (and the Hessian entry for i, j, k) at any point is the total first (second) partial derivative of component i, including the chain rule through the other components it depends on, and zero where it does not depend on the parameter. '
     'The entries have the shape of the component.',
     ['programs', 'inputs'], 'every symbolic model, including interdependent components and models whose parameters were extended, every point',
     'Tests compare a few models.',
     [MOD], [('symbolic derivatives', 'models.py jacobian_from_model, hessian_from_model, _partial_diff, _partial_subs'), ('evaluation', 'models.py GradientModel.eval_jacobian, HessianModel.eval_hessian')])

prop('C10', 'The finite-difference Jacobian is the sixth-order central difference',
     'For models without symbolic derivatives, the Jacobian entry of each component, parameter and data point is the sixth-order central difference of that component in that parameter, and is therefore exact whenever the component is a polynomial of degree at most six in the parameter. '
     'Components may have different data shapes.',
     ['inputs', 'programs'], 'every model function, every parameter vector (zero and non-zero), every number of parameters, components and data points',
     'Tests use a tolerance at a few points, which hides lower-order formulas.',
     [MOD], [('stencil', 'models.py BaseGradientModel.finite_difference'), ('wrapping', 'models.py BaseGradientModel.eval_jacobian')])

prop('C11', 'A constraint holds for the optimizer exactly when the stated relation holds',
     'For every constraint lhs >= rhs, lhs <= rhs or lhs == rhs the optimizer is given a function that is >= 0 (== 0 for equality) exactly when the relation holds, in terms of all parameters of the model; any other relation is refused. '
     'Each constraint is paired with the Jacobian and Hessian of that same constraint, restricted to the free parameters.',
     ['inputs', 'configurations'], 'any list of constraints of any type, any model they depend on, any point, every constrained minimizer',
     'Tests use at most a few simple constraints; a mixed-up derivative usually still converges.',
     [MOD, MIN, FIT], [('normalization', 'models.py BaseModel.as_constraint, with_dependencies, __neg__'), ('scipy format', 'minimizers.py ScipyConstrainedMinimize.scipy_constraints, ScipyGradientMinimize.scipy_constraints, ScipyHessianMinimize.scipy_constraints, TrustConstr.scipy_constraints'),
      ('collection', 'fit.py Fit._init_constraints, Fit._init_minimizer')])

prop('C12', 'Parameter uncertainties come from the right covariance matrix',
     'The covariance matrix is the inverse Hessian of the objective at the best fit; for least squares with relative sigmas it is scaled by the residual sum of squares over the number of data points of all components minus the number of parameters. '
     'variance, stdev and covariance return the entry (its square root) of the parameters asked for, and None when there is no covariance matrix.',
     ['inputs', 'configurations'], 'any number of parameters and components, any data shapes, any Hessian, absolute and relative sigmas',
     'Tests compare a few single-component fits.',
     [FIT, RES], [('covariance', 'fit.py HasCovarianceMatrix._covariance_matrix, covariance_matrix'), ('accessors', 'fit_results.py FitResults.variance, stdev, covariance')])

prop('C13', 'Goodness-of-fit numbers match the objective that was minimized',
     'objective_value is the minimum the optimizer reported; chi_squared is the sum of squared weighted residuals (twice the least-squares objective); log_likelihood is minus the likelihood objective and likelihood its exponential; r_squared is one minus the residual over the total sum of squares of the components that have data. '
     'Only the qualifiers that make sense for the objective are present, readable as attributes; other attributes do not exist.',
     ['inputs', 'configurations'], 'every objective type, any model values and data, any pattern of missing components',
     'Tests check presence of the qualifiers and one or two values.',
     [RES], [('qualifiers', 'fit_results.py FitResults._gof_qualifiers, FitResults.__getattr__'), ('r squared', 'fit_results.py r_squared')])

prop('C14', 'Chained minimizers hand over their answers in order',
     'In a chain the first minimizer starts from the initial guesses and every next one starts from the free parameter values its predecessor found; each receives exactly the options given under its name (numbered from the second occurrence when names repeat), others none. '
     'The result is that of the last minimizer with the total number of iterations of those minimizers that report theirs.',
     ['configurations', 'histories'], 'any chain of minimizers, any fixed/free pattern, any options',
     'One chain without fixed parameters is tested.',
     [MIN], [('chain', 'minimizers.py ChainedMinimizer.execute, ChainedMinimizer._make_signature')])

prop('C15', 'Fit picks and wires the documented objective and minimizer',
     'Unless the user chooses, Fit minimizes the model itself when it is scalar, has no independent variables and its dependent variable has no data, uses residual vectors for MINPACK and least squares otherwise; and it uses SLSQP with constraints, else L-BFGS-B with any bound, else BFGS. '
     'The chosen minimizer (and the local minimizer of a basin-hopping search) receives the objective, the model parameters, and the analytical derivatives and constraints it supports; user options are passed on and never modified.',
     ['configurations', 'inputs'], 'every combination of model, data, bounds, constraints, objective and minimizer classes and options',
     'Tests use a few combinations.',
     [FIT, MIN], [('choice', 'fit.py Fit._determine_objective, Fit._determine_minimizer'), ('wiring', 'fit.py Fit._init_minimizer, Fit.execute'), ('passing on', 'minimizers.py ScipyMinimize.execute and subclasses, BasinHopping.execute')])

prop('C16', 'An ODE model returns the solution at exactly the requested times',
     'Evaluating an ODE model at any increasing array of times, before, at or after the initial time in any combination, returns for every dependent variable one value per requested time, in the same order, each being the solution at that time of the given system from the given initial values. '
     'At the initial time it returns the initial values; initial values that are parameters take the value passed in the call.',
     ['inputs', 'configurations'], 'every increasing time array (any number of points on either side of, and including or not, the initial time), every system and parameter values',
     'Tests use a few time ranges, nearly all starting at the initial time.',
     [MOD], [('time splitting', 'models.py ODEModel.eval_components'), ('system', 'models.py ODEModel.system, _ncomponents, diff_system, _njacobian'), ('ordering', 'models.py ODEModel.__init__')])

prop('C17', 'Saving and restoring an object preserves it',
     'Pickling and unpickling a parameter, variable, model, model output, objective, minimizer or fit result gives an object that compares and behaves the same: same parameters with bounds and values, same components, same data, same constraints, derivatives and chained minimizers, same results.',
     ['histories', 'inputs'], 'every picklable object, at any moment of its life (before and after evaluation or fitting)',
     'Tests round-trip a few objects, mostly freshly made.',
     [ARG, MOD, MIN, RES, OBJ], [('state', 'argument.py Argument.__getstate__/__setstate__, models.py BaseModel.__getstate__/__setstate__, ModelOutput.__getnewargs__/__getstate__/__setstate__, minimizers.py BaseMinimizer.__getstate__/__setstate__, fit_results.py FitResults.__getstate__/__setstate__')])

prop('C18', 'Parameters are created with the attributes asked for',
     'A parameter has exactly the name, value, bounds and fixed flag it was created with, and one whose min exceeds its max is refused unless it is fixed; parameters() gives the k-th parameter the k-th entry of every sequence attribute and the same scalar attribute to all, and refuses sequences of the wrong length and min above max. '
     'Two parameters are equal exactly if name, bounds, fixed flag and value are; automatically generated names never repeat.',
     ['inputs', 'histories'], 'any attributes, any number of parameters, any history of creations',
     'Tests create a few parameters.',
     [ARG, SUP], [('construction', 'argument.py Argument.__new__/__init__, Parameter.__new__/__init__/__eq__'), ('bulk creation', 'support.py parameters, variables')])

prop('C19', 'Cached quantities are computed once and always current',
     'A cached quantity is computed at most once per object, the same value is returned until it is deleted, and it is computed afresh after deletion or after the object is restored from a pickle; caches of different objects and of different quantities never mix, and an error while computing it is not cached. '
     'Converting a dictionary keyed by symbols to one keyed by names keeps type, order and values.',
     ['histories', 'inputs'], 'every sequence of reads, deletions and restores on any number of objects',
     'One class with two quantities is tested.',
     [SUP, MOD], [('cache', 'support.py cached_property.__init__/__get__/__delete__'), ('key conversion', 'support.py key2str')])

prop('C20', 'The interactive guess mirrors the sliders and the model',
     'Every parameter of the model has one slider, starting at its value and spanning its bounds (where absent, those of the interval between 0 and twice the value); after any slider movement every parameter has the value of its slider and every plot shows the model evaluated with exactly these values, one plot per pair of independent and dependent variable.',
     ['inputs', 'histories'], 'any model and data, any sequence of slider movements',
     'Tests move sliders of three models.',
     ['symfit/contrib/interactive_guess/interactive_guess.py'], [('sliders', 'interactive_guess.py InteractiveGuess._set_up_sliders, _update_plot'), ('evaluation', 'interactive_guess.py InteractiveGuess._eval_model, Strategy2D.update_plot, StrategynD.update_plot')])

prop('C21', 'A symbolic expression computes the same thing as a function',
     'Calling an expression with values for its symbols, by position (variables first, then parameters, each in alphabetical order) or by name, evaluates it with every symbol taking its own value; named values of symbols that do not occur are ignored; a call that leaves a symbol without a value, or gives too many, is refused. '
     'Element-wise products and powers and inverses of matrix expressions compute what they mean, whatever their operands and however many; Gaussian, BivariateGaussian and Exp are the densities they are named after.',
     ['inputs', 'configurations'], 'every expression, any numbers of variables and parameters, any values, any operands of matrix operations',
     'Tests call a few expressions and multiply two named matrices.',
     ['symfit/core/operators.py', 'symfit/core/printing.py', 'symfit/distributions.py', SUP], [('calling', 'operators.py call'), ('compiling', 'support.py sympy_to_py, seperate_symbols'), ('printing', 'printing.py _print_HadamardProduct, _print_HadamardPower, _print_Inverse, _print_MatPow'), ('densities', 'distributions.py')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')

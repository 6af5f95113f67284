From c4a08f31417e29cfdd9efd204ad00540e3d11e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 01/21] fix: HessianMinimizer.resize_hess keeps the free rows
 and columns of the Hessian

out[mask, mask] pairs the two masks and returns only the diagonal.
---
 symfit/core/minimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index ba79f6a..8e45265 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -187,7 +187,7 @@ class HessianMinimizer(GradientMinimizer):
             # Make two dimensional, corresponding to a scalar function.
             out = np.atleast_2d(np.squeeze(out))
             mask = [p not in self._fixed_params for p in self.parameters]
-            return np.atleast_2d(out[mask, mask])
+            return out[mask][:, mask]
         return resized
 
 
-- 
2.43.0


From a00fc5b03814eff2755bc39259c46413c06831a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 02/21] fix: TrustConstr pairs every constraint with its own
 Hessian

The lambda closed over the loop variable, so all constraints used the Hessian of the last one.
---
 symfit/core/minimizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 8e45265..db43d2e 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -588,7 +588,8 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
             }
             # If None is given to NonlinearConstraint it'll throw a hissy fit.
             if con['hess'] is not None:
-                nonlinearconstr_kwargs['hess'] = lambda x, v: con['hess'](x) * v
+                nonlinearconstr_kwargs['hess'] = \
+                    lambda x, v, hess=con['hess']: hess(x) * v
             if con['jac'] is not None:
                 nonlinearconstr_kwargs['jac'] = con['jac']
             tc_con = NonlinearConstraint(**nonlinearconstr_kwargs)
-- 
2.43.0


From 7df401860ef5baff6f9188b62c5fb4cb31f8e760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 03/21] fix: ChainedMinimizer hands over only the free
 parameter values

The answer lists all parameters, the next minimizer expects the free ones.
---
 symfit/core/minimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index db43d2e..1c0cf88 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -261,7 +261,7 @@ class ChainedMinimizer(BaseMinimizer):
         for minimizer, kwargs in zip(self.minimizers, bound_arguments.arguments.values()):
             minimizer.initial_guesses = next_guess
             ans = minimizer.execute(**kwargs)
-            next_guess = list(ans.params.values())
+            next_guess = [ans.params[p.name] for p in self.params]
             answers.append(ans)
         final = answers[-1]
         # TODO: Compile all previous results in one, instead of just the
-- 
2.43.0


From a2d7649800f9b577e641352f1a95a3a9ac129771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 04/21] fix: TrustConstr.execute does not modify the options
 given by the user

---
 symfit/core/minimizers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 1c0cf88..95a2172 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -597,8 +597,7 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
         return out
 
     def execute(self, *, jacobian=None, hessian=None, options=None, **minimize_options):
-        if options is None:
-            options = {}
+        options = {} if options is None else dict(options)
         # Our Jacobians are dense, and apparently we need to explicitely
         # tell this.
         options['sparse_jacobian'] = False
-- 
2.43.0


From 7d71dcac0f6f030d50847229d9fda312728c67a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 05/21] fix: BasinHopping.execute does not modify the
 minimizer_kwargs given by the user

---
 symfit/core/minimizers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 95a2172..d927de2 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -717,8 +717,10 @@ class BasinHopping(ScipyMinimize, GlobalMinimizer):
             :func:`scipy.optimize.basinhopping`.
         :return: :class:`symfit.core.fit_results.FitResults`
         """
-        if 'minimizer_kwargs' not in minimize_options:
-            minimize_options['minimizer_kwargs'] = {}
+        # Copy, so as not to change the dict provided by the user.
+        minimize_options['minimizer_kwargs'] = dict(
+            minimize_options.get('minimizer_kwargs') or {}
+        )
 
         if 'method' not in minimize_options['minimizer_kwargs']:
             # If no minimizer was set by the user upon execute, use local_minimizer
-- 
2.43.0


From 21feae10655452801d9ef935958598695830c588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 06/21] fix: custom objectives receive the parameters in the
 order of the minimizer

---
 symfit/core/minimizers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index d927de2..ea6d48d 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -68,6 +68,8 @@ class BaseMinimizer(object):
                     {y: func},
                     connectivity_mapping={y: set(self.parameters)}
                 )
+                # The order of our parameters is leading, not the alphabet.
+                model.params = list(self.parameters)
             return objective_type(model,
                                   data={})
 
-- 
2.43.0


From 052e2184e70bf22a9110b58e6fe46a82d5c78cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 07/21] fix: LeastSquares can return the value per component

---
 symfit/core/objectives.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 89255d6..a3bbbc9 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -317,8 +317,10 @@ class LeastSquares(HessianObjective):
                 chi2[index] += np.sum(
                     (dep_var_value - dep_data) ** 2 / sigma ** 2
                 )
-        chi2 = np.sum(chi2) if flatten_components else chi2
-        return chi2 / 2
+        if flatten_components:
+            return np.sum(chi2) / 2
+        else:
+            return [component / 2 for component in chi2]
 
     def eval_jacobian(self, ordered_parameters=[], **parameters):
         """
-- 
2.43.0


From cb88db5e83be5314f58172e59fa789d8c9e3fbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 08/21] fix: numerical models can be negated

---
 symfit/core/models.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index dbbe855..0f26f2f 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -617,10 +617,20 @@ class BaseNumericalModel(BaseModel):
         :return: new model with opposite sign. Does not change the model in-place,
             but returns a new copy.
         """
-        new_model_dict = {}
-        for key, callable_expr in self.model_dict.values():
-            new_model_dict[key] = lambda *args, **kwargs: - callable_expr(*args, **kwargs)
-        return self.__class__(new_model_dict)
+        new_model_dict = self.model_dict.copy()
+        for var in self.dependent_vars:
+            expr = new_model_dict[var]
+            if isinstance(expr, sympy.Basic):
+                new_model_dict[var] = - expr
+            else:
+                new_model_dict[var] = (
+                    lambda *args, _component=expr, **kwargs:
+                    - _component(*args, **kwargs)
+                )
+        return self.__class__(
+            new_model_dict,
+            connectivity_mapping=self.connectivity_mapping.copy()
+        )
 
     @property
     def shared_parameters(self):
-- 
2.43.0


From a5015b1917aaf34e0d2342c05fb56a5cadd89633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 09/21] fix: ODEModel can be evaluated at an array of only the
 initial time

---
 symfit/core/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 0f26f2f..d34757b 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1224,7 +1224,10 @@ class ODEModel(BaseGradientModel):
             **self.integrator_kwargs
         ) if len(t_smaller) > 1 else None
 
-        if ans_smaller is not None and ans_bigger is not None:
+        if ans_smaller is None and ans_bigger is None:
+            # Only evaluated at the initial condition, so we know the answer.
+            ans = np.atleast_2d(initial_dependent).T
+        elif ans_smaller is not None and ans_bigger is not None:
             if not ans_smaller.success:
                 raise ODEError(ans_smaller.message)
             elif not ans_bigger.success:
-- 
2.43.0


From 799ce9fd8e19f42c6be9fcf26c23d0c3aad3ce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 10/21] fix: large models can be compared

---
 symfit/core/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index d34757b..8ea3d02 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -287,7 +287,7 @@ class BaseModel(Mapping):
         :param other: Instance of ``Model``.
         :return: bool
         """
-        if len(self) is not len(other):
+        if len(self) != len(other):
             return False
         else:
             for var_1, var_2 in zip(self, other):
-- 
2.43.0


From 2e47fa7479688bde5dab7f9d5a658fe5288e96df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 11/21] fix: a scalar sigma may be a zero-dimensional array

---
 symfit/core/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index 3cbcadb..5100243 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -98,7 +98,7 @@ class TakesData(object):
                 if self.data[var] is not None and self.data[sigma] is None:
                     self.data[sigma] = np.ones(self.data[var].shape)
                 elif self.data[var] is not None:
-                    self.data[sigma] *= np.ones(self.data[var].shape)
+                    self.data[sigma] = self.data[sigma] * np.ones(self.data[var].shape)
 
         # If user gives a preference, use that. Otherwise, use True if at least one sigma is
         # given, False if no sigma is given.
-- 
2.43.0


From 7f8ccca6c6daf9dc74ad4466af5150f31fe1d636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 12/21] fix: covariance returns None without a covariance
 matrix, like variance

---
 symfit/core/fit_results.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symfit/core/fit_results.py b/symfit/core/fit_results.py
index ad41ecb..d0520ee 100644
--- a/symfit/core/fit_results.py
+++ b/symfit/core/fit_results.py
@@ -151,7 +151,11 @@ class FitResults(object):
         """
         param_1_number = self.model.params.index(param_1)
         param_2_number = self.model.params.index(param_2)
-        return self.covariance_matrix[param_1_number, param_2_number]
+        try:
+            return self.covariance_matrix[param_1_number, param_2_number]
+        except TypeError:
+            # covariance_matrix can be None
+            return None
 
     @staticmethod
     def _array_safe_dict_eq(one_dict, other_dict):
-- 
2.43.0


From e611c214c131f4654682ca9990a6ee18287f3c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 13/21] fix: fixed parameters keep their bounds

---
 symfit/core/argument.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/symfit/core/argument.py b/symfit/core/argument.py
index ef0bba0..2557b90 100644
--- a/symfit/core/argument.py
+++ b/symfit/core/argument.py
@@ -119,9 +119,8 @@ class Parameter(Argument):
             if not self.fixed:
                 raise ValueError('The value of `min` should be less than or'
                                  ' equal to the value of `max`.')
-        else:
-            self.min = min
-            self.max = max
+        self.min = min
+        self.max = max
 
     def __eq__(self, other):
         """
-- 
2.43.0


From b1398039997026ae3c3ff9ff8856aa4508b66aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 14/21] fix: parameters() checks the bounds of every parameter
 before setting them

---
 symfit/core/support.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/symfit/core/support.py b/symfit/core/support.py
index 58a4376..ca71798 100644
--- a/symfit/core/support.py
+++ b/symfit/core/support.py
@@ -210,27 +210,28 @@ def parameters(names, **kwargs):
         else:
             sequences[attr] = kwargs.pop(attr)
 
-    if 'min' in sequences and 'max' in sequences:
-        for min, max in zip(sequences['min'], sequences['max']):
-            if min > max:
-                raise ValueError('The value of `min` should be less than or'
-                                 ' equal to the value of `max`.')
-
     params = symbols(names, cls=Parameter, seq=True, **kwargs)
     for key, values in sequences.items():
-        try:
-            assert len(values) == len(params)
-        except AssertionError:
+        # Iterators do not have a `len` but are allowed.
+        if hasattr(values, '__len__') and len(values) != len(params):
             raise ValueError(
                 '`len` of keyword-argument `{}` does not match the number of '
-                '`Parameter`s created.'.format(attr)
+                '`Parameter`s created.'.format(key)
             )
-        except TypeError:
-            # Iterator do not have a `len` but are allowed.
-            pass
-        finally:
-            for param, value in zip(params, values):
-                setattr(param, key, value)
+        sequences[key] = [value for _, value in zip(params, values)]
+
+    if 'min' in sequences or 'max' in sequences:
+        # Either of them can still be the same value for all `Parameter`s.
+        lower, upper = (sequences.get(attr, len(params) * [kwargs.get(attr)])
+                        for attr in ('min', 'max'))
+        for min, max in zip(lower, upper):
+            if min is not None and max is not None and min > max:
+                raise ValueError('The value of `min` should be less than or'
+                                 ' equal to the value of `max`.')
+
+    for key, values in sequences.items():
+        for param, value in zip(params, values):
+            setattr(param, key, value)
     return params
 
 
-- 
2.43.0


From 01e937f09114979dc569e78eb1eea4814b09cec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 15/21] fix: the chain rule follows components through any
 number of levels

---
 symfit/core/models.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 8ea3d02..0d552ba 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1293,6 +1293,32 @@ def _partial_subs(func, func2vars):
     else:
         return func.xreplace(func2vars)
 
+def _components_as_functions(model):
+    """
+    Turn every component of ``model`` into a function of the independent
+    variables and parameters it ultimately depends on. E.g. ``{y: a * x,
+    z: y**2 + b}`` gives ``{y: y(x, a), z: z(x, a, b)}``.
+
+    As opposed to ``model.vars_as_functions`` these functions are not nested,
+    so differentiating an expression gives derivatives of components with
+    regards to parameters only, never with regards to other components.
+
+    :param model: Any symbolical model-type.
+    :return: dict of (component, function) pairs, in evaluation order.
+    """
+    key = lambda arg: [isinstance(arg, Parameter), str(arg)]
+    dependencies = {}
+    functions = OrderedDict()
+    for symbol in model.ordered_symbols:
+        if symbol in model.connectivity_mapping:
+            dependencies[symbol] = set()
+            for dependency in model.connectivity_mapping[symbol]:
+                dependencies[symbol] |= dependencies.get(dependency, {dependency})
+            functions[symbol] = sympy.Function(symbol.name)(
+                *sorted(dependencies[symbol], key=key)
+            )
+    return functions
+
 def jacobian_from_model(model, as_functions=False):
     """
     Build a :class:`~symfit.core.models.CallableModel` representing the Jacobian
@@ -1309,12 +1335,14 @@ def jacobian_from_model(model, as_functions=False):
         of ``model``.
     """
     # Inverse dict so we can turn functions back into vars in the end
-    functions_as_vars = dict((v, k) for k, v in model.vars_as_functions.items())
+    vars_as_functions = _components_as_functions(model)
+    functions_as_vars = dict((v, k) for k, v in vars_as_functions.items())
     # Create the jacobian components. The `vars` here in the model_dict are
     # always of the type D(y, a), but the righthand-side might still contain
     # functions instead of vars depending on the value of `as_functions`.
     jac = {}
-    for func, expr in model.function_dict.items():
+    for var, func in vars_as_functions.items():
+        expr = model.model_dict[var].xreplace(vars_as_functions)
         for param in model.params:
             target = D(func, param)
             dfdp = expr.diff(param)
-- 
2.43.0


From bd8d8a39e100ed41663c31d5a3fa3892065ed77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 16/21] fix: minimizers accept Le relations as constraints

---
 symfit/core/minimizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index ea6d48d..04b89ef 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -484,10 +484,11 @@ class ScipyConstrainedMinimize(ScipyMinimize, ConstrainedMinimizer):
                 constraint_type = constraint.constraint_type
                 constraint = MinimizeModel(constraint, data=self.objective.data)
             elif isinstance(constraint, sympy.Rel):
-                constraint_type = constraint.__class__
                 constraint = self.objective.model.__class__.as_constraint(
                     constraint, self.objective.model
                 )
+                # Not the type of the relation, since as_constraint flips Le.
+                constraint_type = constraint.constraint_type
                 constraint = MinimizeModel(constraint, data=self.objective.data)
             else:
                 raise TypeError('Unknown type for a constraint.')
-- 
2.43.0


From 2e282ad6571615198700fd736594a06ed98063a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 17/21] fix: derivatives of constant components are broadcast
 to data of any shape

---
 symfit/core/objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index a3bbbc9..cbb980e 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -114,7 +114,7 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
         for dep_var, component in zip(self.model.dependent_vars, model_output):
             dep_data = self.dependent_data.get(dep_var, None)
             if dep_data is not None:
-                if dep_data.shape == component.shape:
+                if dep_data.shape == component.shape[param_level:]:
                     shaped_result.append(component)
                 else:
                     # Add extra dimensions to the component if needed.
-- 
2.43.0


From f974f85db1af94772de227b223bcac98a8d51692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:52 +0000
Subject: [PATCH 18/21] fix: chains may contain minimizers that report no
 number of iterations

---
 symfit/core/minimizers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 04b89ef..d8a4a2e 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -269,7 +269,9 @@ class ChainedMinimizer(BaseMinimizer):
         # TODO: Compile all previous results in one, instead of just the
         # number of function evaluations. But there's some code down the
         # line that expects scalars.
-        final.minimizer_output['nit'] = sum(ans.iterations for ans in answers)
+        # Not every minimizer reports its number of iterations, e.g. MINPACK.
+        final.minimizer_output['nit'] = sum(ans.iterations for ans in answers
+                                            if ans.iterations is not None)
         return final
 
     def _make_signature(self):
-- 
2.43.0


From ec3e2fcbbe96283d07addf35017ef2e035ae176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:30 +0000
Subject: [PATCH 19/21] fix: sliders of the interactive guess span negative
 starting values

---
 symfit/contrib/interactive_guess/interactive_guess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index 370d7c0..f2a8cb7 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -172,11 +172,11 @@ class InteractiveGuess(TakesData):
                                    facecolor=axbg, label=param)
             val = param.value
             if not hasattr(param, 'min') or param.min is None:
-                minimum = 0
+                minimum = min(0, 2 * val)  # The value may be negative
             else:
                 minimum = param.min
             if not hasattr(param, 'max') or param.max is None:
-                maximum = 2 * val
+                maximum = max(0, 2 * val)
             else:
                 maximum = param.max
 
-- 
2.43.0


From 1507a8c6d16351966124f3c05b3e57792d6cd314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:15 +0000
Subject: [PATCH 20/21] fix: a dependent variable given as None has no data

---
 symfit/core/fit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index 5100243..50af237 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -466,7 +466,7 @@ class Fit(HasCovarianceMatrix):
                 # objective function.
                 objective = VectorLeastSquares
             elif (len(model) == 1 and len(model.independent_vars) == 0 and
-                    model.dependent_vars[0].name not in bound_arguments.arguments):
+                    bound_arguments.arguments.get(model.dependent_vars[0].name) is None):
                 objective = MinimizeModel
             else:
                 objective = LeastSquares
@@ -476,7 +476,8 @@ class Fit(HasCovarianceMatrix):
                 isinstance(objective, (MinimizeModel, LogLikelihood))):
             # Set dependent vars and corresponding sigmas to None.
             for var in model.dependent_vars + list(model.sigmas.values()):
-                if var.name not in bound_arguments.arguments:
+                # None explicitly stands for a variable without data.
+                if bound_arguments.arguments.get(var.name) is None:
                     bound_arguments.arguments[var.name] = None
                 else:
                     raise TypeError(
-- 
2.43.0


From 6ba490133f107e8b4a355858be2acd146c5a0587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:05 +0000
Subject: [PATCH 21/21] fix: element-wise matrix products and powers keep all
 their operands and parentheses

---
 symfit/core/printing.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/symfit/core/printing.py b/symfit/core/printing.py
index 487284c..0040c6a 100644
--- a/symfit/core/printing.py
+++ b/symfit/core/printing.py
@@ -13,6 +13,7 @@ Users using both ``symfit`` and ``sympy`` should be aware of this.
 import pkg_resources
 from sympy import HadamardProduct, MatPow, Idx, Inverse
 from sympy.printing.codeprinter import CodePrinter
+from sympy.printing.precedence import PRECEDENCE
 
 ##########################################################
 # Monkeypatch the printers until this is merged upstream #
@@ -41,8 +42,8 @@ def _print_Inverse(self, printer):
 Inverse._numpycode = _print_Inverse
 
 def _print_HadamardProduct(self, printer):
-    return "%s*%s" % (printer.doprint(self.args[0]),
-                      printer.doprint(self.args[1]))
+    return "*".join(printer.parenthesize(arg, PRECEDENCE['Mul'])
+                    for arg in self.args)
 HadamardProduct._numpycode = _print_HadamardProduct
 
 if pkg_resources.parse_version(pkg_resources.get_distribution('sympy').version) \
@@ -50,8 +51,8 @@ if pkg_resources.parse_version(pkg_resources.get_distribution('sympy').version)
     from sympy import HadamardPower
 
     def _print_HadamardPower(self, printer):
-        return "%s**%s" % (printer.doprint(self.args[0]),
-                          printer.doprint(self.args[1]))
+        return "%s**%s" % (printer.parenthesize(self.args[0], PRECEDENCE['Pow']),
+                           printer.parenthesize(self.args[1], PRECEDENCE['Pow']))
     HadamardPower._numpycode = _print_HadamardPower
 
 def _print_Idx(self, printer):
-- 
2.43.0


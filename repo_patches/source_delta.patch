From 988d4cd02072ccb2507ec6230619443f6fef8cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:05 +0000
Subject: [PATCH 01/10] fix: correct the sign of the quantum vibrational energy
 term

The logarithmic derivative of the quantum harmonic partition function with
respect to beta is minus the mean vibrational energy, like the electronic
and rotational terms. With the opposite sign the cross terms of the heat
capacity were wrong whenever isomers with different zero-point energies
exchange population.
---
 occuprob/partitionfunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 3ca8d9b..6692e93 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -445,8 +445,8 @@ class QuantumHarmonicPF(PartitionFunction):
         multiplied by :math:`\\beta`:
 
         .. math::
-            \\beta W_{vib,a} = \\sum_{i=1}^{\\kappa}(\\beta h\\nu_{a,i}/2)
-                                \\textrm{coth}(\\beta h\\nu_{a,i}/2)
+            \\beta W_{vib,a} = -\\sum_{i=1}^{\\kappa}(\\beta h\\nu_{a,i}/2)
+                                 \\textrm{coth}(\\beta h\\nu_{a,i}/2)
 
         Parameters
         ----------
@@ -466,7 +466,7 @@ class QuantumHarmonicPF(PartitionFunction):
 
         aux_w = np.multiply(exponent, coth, where=temperature > 0,
                             out=np.zeros_like(exponent))
-        part_func_w = np.sum(aux_w, axis=1)
+        part_func_w = -np.sum(aux_w, axis=1)
 
         return part_func_w
 
-- 
2.43.0


From c81311e97741ea24fbe5380ae84f2bb4ba2303bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:05 +0000
Subject: [PATCH 02/10] fix: use the square root of the moments product in the
 rotational weight

The documented rotational partition function is proportional to
sqrt(I1 I2 I3); the product itself was used.
---
 occuprob/partitionfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 6692e93..4d00bd1 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -241,7 +241,7 @@ class RotationalPF(PartitionFunction):
             functions for each of the N minima in the given temperature range.
         """
         moments_product = np.prod(self.moments, axis=1)[:, None]
-        partition_function = moments_product * np.ones_like(temperature)
+        partition_function = np.sqrt(moments_product) * np.ones_like(temperature)
         partition_function /= self.symmetry_order[:, None]
 
         return partition_function
-- 
2.43.0


From 37c50492c71afa86ea336b7f0f547f5a018f1fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:16 +0000
Subject: [PATCH 03/10] fix: treat a moment of inertia that is zero within
 rounding as zero

The moments of a linear molecule computed from coordinates contain a value
of about +-1e-15 whose sign depends on the orientation. Positive ones were
multiplied into the rotational weight, changing it by 15 orders of magnitude
when the molecule was rotated.
---
 occuprob/partitionfunctions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 4d00bd1..1fed2f7 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -217,7 +217,9 @@ class RotationalPF(PartitionFunction):
 
     def __init__(self, symmetry_order, moments):
         self.symmetry_order = symmetry_order
-        self.moments = np.where(moments > 0, moments, 1.)
+        # The vanishing moment of a linear molecule is zero only within rounding
+        threshold = 1.e-6 * np.amax(moments, axis=1, keepdims=True)
+        self.moments = np.where(moments > threshold, moments, 1.)
 
     def calc_part_func(self, temperature):
         """
-- 
2.43.0


From 18823df8afd1c02404378f6de3c70dfa8e3dedfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:16 +0000
Subject: [PATCH 04/10] fix: compare array shapes in compare_numpy_dictionaries

Arrays of different shape were broadcast against each other, so that they
compared equal or raised a ValueError.
---
 occuprob/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/occuprob/utils.py b/occuprob/utils.py
index 3c88696..742314a 100644
--- a/occuprob/utils.py
+++ b/occuprob/utils.py
@@ -103,4 +103,5 @@ def compare_numpy_dictionaries(dict1, dict2):
     if dict1.keys() != dict2.keys():
         return False
 
-    return all(np.allclose(dict1[key], dict2[key]) for key in dict1)
+    return all(np.shape(dict1[key]) == np.shape(dict2[key]) and
+               np.allclose(dict1[key], dict2[key]) for key in dict1)
-- 
2.43.0


From fb08b509ae6f67ee1a4b2aabfde1c10a5f364666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:37 +0000
Subject: [PATCH 05/10] fix: return None for the heat capacity without
 partition functions

calc_heat_capacity raised a TypeError where calc_probability and
calc_ensemble_average return None.
---
 occuprob/superpositions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/occuprob/superpositions.py b/occuprob/superpositions.py
index d79dbcd..976d46b 100644
--- a/occuprob/superpositions.py
+++ b/occuprob/superpositions.py
@@ -225,6 +225,9 @@ class SuperpositionApproximation():
                                                      'calc_part_func_' + d)
                        for d in ['w', 'v']}
 
+        if part_func_d['w'] is None:
+            return None
+
         heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +
                          self.calc_ensemble_average(temperature, part_func_d['w']**2) -
                          self.calc_ensemble_average(temperature, part_func_d['w'])**2)
-- 
2.43.0


From ff8398523be04e949799b77d66690a845a018f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:38 +0000
Subject: [PATCH 06/10] fix: occupation probabilities at low and zero
 temperature

The product of the individual partition functions underflows at low
temperature: the probabilities became NaN (and the heat capacity 0) for
molecules with a large zero-point energy, and the wrong isomer was occupied
when the electronic and zero-point energy differences have opposite signs.
At exactly 0 K the zero-point energy was ignored altogether. Work with
logarithms relative to the largest contribution, and evaluate 0 K as the
limit of the total. The heat capacity uses the centered form of the
fluctuation of W, which does not cancel catastrophically.
---
 occuprob/partitionfunctions.py | 40 ++++++++++++++++++++++++++++++++++
 occuprob/superpositions.py     | 26 +++++++++++++++++-----
 2 files changed, 61 insertions(+), 5 deletions(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 1fed2f7..79202da 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -57,6 +57,25 @@ class PartitionFunction(ABC):
             functions for each of the N minima in the given temperature range.
         """
 
+    def calc_log_part_func(self, temperature):
+        """
+        Method to calculate the natural logarithm of the partition function,
+        which is representable when the partition function itself is not.
+
+        Parameters
+        ----------
+        temperature : :obj:`numpy.ndarray`
+            A 1D array of size M containing the temperature values in K.
+
+        Returns
+        -------
+        log_part_func: :obj:`numpy.ndarray`
+            A 2D array of shape (N, M) contaning the logarithm of the partition
+            functions for each of the N minima in the given temperature range.
+        """
+        with np.errstate(divide='ignore'):
+            return np.log(self.calc_part_func(temperature))
+
     @abstractmethod
     def calc_part_func_w(self, temperature):
         """
@@ -146,6 +165,12 @@ class ElectronicPF(PartitionFunction):
 
         return partition_function
 
+    def calc_log_part_func(self, temperature):
+        """ Calculates the logarithm of the partition function. """
+        exponent = calc_exponent(self.relative_energy, temperature)
+
+        return np.log(self.spin_multiplicity)[:, None] - exponent
+
     def calc_part_func_w(self, temperature):
         """
         Method to calculate :math:`W_{elec,a}`, the derivative of the partition
@@ -344,6 +369,13 @@ class ClassicalHarmonicPF(PartitionFunction):
 
         return partition_function
 
+    def calc_log_part_func(self, temperature):
+        """ Calculates the logarithm of the partition function. """
+        frequencies_gmean = calc_geometric_mean(self.frequencies)
+
+        return np.outer(-self.num_vib * np.log(frequencies_gmean),
+                        np.ones_like(temperature))
+
     def calc_part_func_w(self, temperature):
         """
         Method to calculate :math:`W_{vib,a}`, the derivative of the partition
@@ -440,6 +472,14 @@ class QuantumHarmonicPF(PartitionFunction):
 
         return partition_function
 
+    def calc_log_part_func(self, temperature):
+        """ Calculates the logarithm of the partition function. """
+        exponent = calc_exponent(0.5 * H * self.frequencies[:, :, None],
+                                 temperature)
+        log_part_func = -np.sum(exponent + np.log(-np.expm1(-2. * exponent)), axis=1)
+
+        return log_part_func
+
     def calc_part_func_w(self, temperature):
         """
         Method to calculate :math:`W_{vib,a}`, the derivative of the partition
diff --git a/occuprob/superpositions.py b/occuprob/superpositions.py
index 976d46b..5f1cf91 100644
--- a/occuprob/superpositions.py
+++ b/occuprob/superpositions.py
@@ -24,6 +24,9 @@
 
 import numpy as np
 
+# Temperature (in K) at which the limit of zero temperature is evaluated
+ZERO_TEMPERATURE = 1.e-6
+
 
 class SuperpositionApproximation():
     """
@@ -129,12 +132,22 @@ class SuperpositionApproximation():
             A 2D array of shape (N, M) containing the occupation probability of
             each of the N minima.
         """
-        # Calculates the individual partition function contributions
-        partition_functions = self.calc_partition_functions(temperature)
+        # The isomers occupied at 0 K depend on the sum of all the contributions
+        # to the energy, so that limit can not be taken for each one separately
+        temperature = np.maximum(temperature, ZERO_TEMPERATURE)
+
+        # Calculates the logarithm of the individual partition functions, which
+        # might be too small or too large to be represented themselves
+        log_part_func = self.combine_contributions(temperature, np.sum,
+                                                   "calc_log_part_func")
 
-        if partition_functions is None:
+        if log_part_func is None:
             return None
 
+        # Only the ratios matter, so the individual contributions are calculated
+        # relative to the largest one at each temperature
+        partition_functions = np.exp(log_part_func - np.amax(log_part_func, axis=0))
+
         # The total partition function is the sum of all the individual
         # contributions of each local minimum considered
         total_partition_function = np.sum(partition_functions, axis=0)
@@ -221,6 +234,8 @@ class SuperpositionApproximation():
         heat_capacity : :obj:`numpy.ndarray`
             A 2D array of shape (1, M) containing the heat capacity of the system.
         """
+        temperature = np.maximum(temperature, ZERO_TEMPERATURE)
+
         part_func_d = {d: self.combine_contributions(temperature, np.sum,
                                                      'calc_part_func_' + d)
                        for d in ['w', 'v']}
@@ -228,8 +243,9 @@ class SuperpositionApproximation():
         if part_func_d['w'] is None:
             return None
 
+        average_w = self.calc_ensemble_average(temperature, part_func_d['w'])
         heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +
-                         self.calc_ensemble_average(temperature, part_func_d['w']**2) -
-                         self.calc_ensemble_average(temperature, part_func_d['w'])**2)
+                         self.calc_ensemble_average(temperature,
+                                                    (part_func_d['w'] - average_w)**2))
 
         return heat_capacity
-- 
2.43.0


From 1b071464c7ce3f6549755447460a043b4d0f470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:38 +0000
Subject: [PATCH 07/10] fix: only replace the file extension when naming output
 files

Every occurrence of '.xyz' and 'dat' in the path was replaced, directories
included, so that e.g. 'data/Pt5.xyz' was plotted to 'svga/Pt5_P.svg'.
---
 occuprob/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index 91b771c..616a373 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -23,6 +23,7 @@
 # SOFTWARE.
 
 import argparse
+import os
 
 import numpy as np
 
@@ -162,12 +163,12 @@ def main():
         if args.out_file:
             outfile = args.out_file + '_' + key + '.dat'
         else:
-            outfile = args.in_file.replace('.xyz', '_') + key + '.dat'
+            outfile = os.path.splitext(args.in_file)[0] + '_' + key + '.dat'
 
         save_results(results[key], temperature, outfile)
 
         if args.plot:
-            plotfile = outfile.replace('dat', args.plot_format.lower())
+            plotfile = os.path.splitext(outfile)[0] + '.' + args.plot_format.lower()
             plot_results(results[key], key, temperature, plotfile, args.size)
 
 
-- 
2.43.0


From 6539c150e84f5c8e94abaccff1e7591d1830906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:39 +0000
Subject: [PATCH 08/10] fix: do not calculate temperatures above --max_temp

With a range that is not a whole number of kelvins the last temperature
exceeded the requested upper limit.
---
 occuprob/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index 616a373..b182f00 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -148,7 +148,8 @@ def main():
         superposition = SuperpositionApproximation()
         superposition.add_partition_functions(partition_functions)
 
-        temperature = np.arange(args.min_temp, args.max_temp + 1., 1.)
+        # Includes the upper limit, but nothing above it, within rounding
+        temperature = np.arange(args.min_temp, args.max_temp + 1.e-6, 1.)
 
         results = {'C': superposition.calc_heat_capacity(temperature),
                    'P': superposition.calc_probability(temperature)}
-- 
2.43.0


From 6b14183de0e8fe9213d7ffc6474f098b6de156d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 09/10] fix: let subclasses redefine the partition function of
 a contribution

---
 occuprob/partitionfunctions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 79202da..b7fe180 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -39,6 +39,14 @@ class PartitionFunction(ABC):
     An abstract class that represents a partition function.
     """
 
+    def __init_subclass__(cls, **kwargs):
+        super().__init_subclass__(**kwargs)
+
+        # The logarithm defined by a base class does not belong to a partition
+        # function redefined by a subclass
+        if 'calc_part_func' in vars(cls) and 'calc_log_part_func' not in vars(cls):
+            cls.calc_log_part_func = PartitionFunction.calc_log_part_func
+
     @abstractmethod
     def calc_part_func(self, temperature):
         """
-- 
2.43.0


From 9c60a1d4aa55dd7a51a757df2ea643743b7042de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 10/10] fix: do not lose precision with multiplicities or
 frequencies of small integer types

---
 occuprob/partitionfunctions.py | 12 ++++++++++--
 occuprob/utils.py              |  3 +++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index b7fe180..fe5bf9d 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -81,8 +81,12 @@ class PartitionFunction(ABC):
             A 2D array of shape (N, M) contaning the logarithm of the partition
             functions for each of the N minima in the given temperature range.
         """
+        partition_function = np.asarray(self.calc_part_func(temperature))
+
+        # The logarithm of small integer types would have low precision
         with np.errstate(divide='ignore'):
-            return np.log(self.calc_part_func(temperature))
+            return np.log(partition_function,
+                          dtype=np.result_type(partition_function, float))
 
     @abstractmethod
     def calc_part_func_w(self, temperature):
@@ -177,7 +181,11 @@ class ElectronicPF(PartitionFunction):
         """ Calculates the logarithm of the partition function. """
         exponent = calc_exponent(self.relative_energy, temperature)
 
-        return np.log(self.spin_multiplicity)[:, None] - exponent
+        # The logarithm of small integer types would have low precision
+        multiplicity = np.asarray(self.spin_multiplicity)
+        log_multiplicity = np.log(multiplicity, dtype=np.result_type(multiplicity, float))
+
+        return log_multiplicity[:, None] - exponent
 
     def calc_part_func_w(self, temperature):
         """
diff --git a/occuprob/utils.py b/occuprob/utils.py
index 742314a..974b32a 100644
--- a/occuprob/utils.py
+++ b/occuprob/utils.py
@@ -89,6 +89,9 @@ def calc_geometric_mean(in_array):
     geometric_mean : :obj:`numpy.ndarray`
         A 1D array of size N contaning the geometric mean of the input.
     """
+    # The logarithm of small integer types would have low precision
+    in_array = in_array.astype(np.result_type(in_array, float))
+
     geometric_mean = np.exp(np.mean(np.log(in_array, where=in_array > 0,
                                            out=-np.inf * np.ones_like(in_array)),
                                     axis=1))
-- 
2.43.0


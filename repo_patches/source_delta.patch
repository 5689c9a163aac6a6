From 82b3ee12c056a00cf67fce7b3df4402af33112e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 01/67] fix: determinant sign in C dipole correction

The second cofactor was added rather than subtracted, so the C dipole
correction was wrong for dielectric tensors with off-diagonal elements
---
 c/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/util.c b/c/util.c
index a4aeab4..de8f686 100644
--- a/c/util.c
+++ b/c/util.c
@@ -23,7 +23,7 @@ void copy_array(const int size, const double *arr, double *copy) {
 
 double det_array(const double arr[9]) {
    double det;
-   det = arr[0]*(arr[4]*arr[8] - arr[7]*arr[5]) +
+   det = arr[0]*(arr[4]*arr[8] - arr[7]*arr[5]) -
          arr[1]*(arr[3]*arr[8] - arr[6]*arr[5]) +
          arr[2]*(arr[3]*arr[7] - arr[6]*arr[4]);
    return det;
-- 
2.43.0


From 2e4b52a5985f4d9744b8e3c41abd53e8062abe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:37 +0000
Subject: [PATCH 02/67] fix: data race in gamma q-direction lookup

i and qpos were declared outside the OpenMP parallel region so were shared
between threads, which could select another gamma point's q-direction
---
 c/_euphonic.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/_euphonic.c b/c/_euphonic.c
index 84ce901..678b854 100644
--- a/c/_euphonic.c
+++ b/c/_euphonic.c
@@ -86,7 +86,7 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
     int modegs_len;
     int asr_corr_len;
     int n_split_qpts;
-    int q, i, qpos;
+    int q;
     int max_ims;
     int dmat_elems;
     // Extra vars only required if dipole = True
@@ -224,6 +224,7 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
         #pragma omp for
         for (q = 0; q < n_rqpts; q++) {
             double *qpt, *dmat, *eval, *modeg;
+            int i, qpos;
             qpt = (rqpts + 3*q);
             eval = (evals + q*3*n_atoms);
 
-- 
2.43.0


From 40720b79b0a0ee46f7d27a26c6a4c6e2a626c2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 03/67] fix: pass contiguous float64 arrays to C for all
 layouts and dtypes

The C extension reads atom_r, Born charges, dielectric and the dipole init
data directly, and q-points and cell vectors as doubles. Integer or
non-C-contiguous inputs gave wrong frequencies and out-of-bounds reads
---
 euphonic/force_constants.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 252b595..44f1512 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -524,7 +524,8 @@ class ForceConstants:
                                          axis=0)
                 n_rqpts = len(reduced_qpts)
         else:
-            reduced_qpts = qpts
+            # The C extension reads q-points as doubles
+            reduced_qpts = qpts.astype(np.float64, copy=False)
             qpts_i = np.arange(0, len(qpts), dtype=np.int32)
             n_rqpts = len(qpts)
 
@@ -661,7 +662,9 @@ class ForceConstants:
                 n_reigenvecs += 1
             reigenvecs = np.zeros((n_reigenvecs, 3*n_atoms, n_atoms, 3),
                                   dtype=np.complex128)
-            cell_vectors = self.crystal._cell_vectors
+            # These are read as doubles in C, even if they contain integers
+            cell_vectors = self.crystal._cell_vectors.astype(
+                np.float64, copy=False)
             recip_vectors = self.crystal.reciprocal_cell().to(
                 '1/bohr').magnitude
             # Get conj transpose - the dynamical matrix calculated in C
@@ -680,10 +683,16 @@ class ForceConstants:
                  dyn_mat_weighting, rfreqs, reigenvecs, rmode_gradients,
                  all_origins_cart)
             attrs = ['_n_sc_images', '_sc_image_i', 'cell_origins']
-            dipole_attrs = ['atom_r', '_born', '_dielectric', '_H_ab',
-                            '_cells', '_gvec_phases', '_gvecs_cart',
-                            '_dipole_q0']
-            _ensure_contiguous_attrs(self, attrs, opt_attrs=dipole_attrs)
+            _ensure_contiguous_attrs(self, attrs)
+            if dipole:
+                for obj, attr in ((self, '_born'), (self, '_dielectric'),
+                                  (self.crystal, 'atom_r')):
+                    setattr(obj, attr, getattr(obj, attr).astype(
+                        np.float64, order='C', copy=False))
+                for key in ('H_ab', 'cells', 'gvec_phases', 'gvecs_cart',
+                            'dipole_q0'):
+                    self._dipole_init_data[key] = np.ascontiguousarray(
+                        self._dipole_init_data[key])
             with threadpool_limits(limits=1):
                 euphonic_c.calculate_phonons(
                     self, cell_vectors, recip_vectors, reduced_qpts,
-- 
2.43.0


From a53aba62756362d3c832401bc4a065e912e832f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 04/67] fix: initialise zheevd workspace query arguments

The query reads lwork and lrwork, which were uninitialised, and writes a
complex number to work, which only had space for one double
---
 c/dyn_mat.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/c/dyn_mat.c b/c/dyn_mat.c
index 85f43ba..fc85cd5 100644
--- a/c/dyn_mat.c
+++ b/c/dyn_mat.c
@@ -344,24 +344,25 @@ int diagonalise_dyn_mat_zheevd(const int n_atoms, const double qpt[3],
     char uplo = 'L';
     int order = 3*n_atoms;
     int lda = order;
-    int lwork, lrwork, liwork = -1;
+    int lwork = -1, lrwork = -1, liwork = -1;
     double *work, *rwork;
     int *iwork;
     int info;
 
     // Query vars
-    double lworkopt, lrworkopt;
+    double lworkopt[2]; // work is complex so needs space for 2 doubles
+    double lrworkopt;
     int liworkopt;
 
     // Workspace query
-    (*zheevdptr)(&jobz, &uplo, &order, dyn_mat, &lda, eigenvalues, &lworkopt, &lwork,
+    (*zheevdptr)(&jobz, &uplo, &order, dyn_mat, &lda, eigenvalues, lworkopt, &lwork,
         &lrworkopt, &lrwork, &liworkopt, &liwork, &info);
     if (info != 0) {
         printf("INFO: Zheevd failed querying workspace with info %i at "
                "q-point %f %f %f\n", info, qpt[0], qpt[1], qpt[2]);
         return info;
     }
-    lwork = (int)lworkopt;
+    lwork = (int)lworkopt[0];
     lrwork = (int)lrworkopt;
     liwork = liworkopt;
 
-- 
2.43.0


From 955ff2253567c21486e456322af831dfbf1cf1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:44 +0000
Subject: [PATCH 05/67] fix: discard cached data when force constants or Born
 charges are set

Calculations after assigning force_constants, born or dielectric used the
cached sum-rule corrected force constants and Ewald data of the old values
---
 euphonic/force_constants.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 44f1512..9805b1b 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -131,6 +131,8 @@ class ForceConstants:
     def force_constants(self, value: Quantity) -> None:
         self.force_constants_unit = str(value.units)
         self._force_constants = value.to('hartree/bohr**2').magnitude
+        # Cached values calculated from the old force constants are stale
+        self.__dict__.pop('_force_constants_asr', None)
 
     @property
     def born(self) -> Union[Quantity, None]:
@@ -143,6 +145,7 @@ class ForceConstants:
     def born(self, value: Quantity) -> None:
         self.born_unit = str(value.units)
         self._born = value.to('e').magnitude
+        self.__dict__.pop('_dipole_init_data', None)
 
     @property
     def dielectric(self) -> Union[Quantity, None]:
@@ -156,6 +159,7 @@ class ForceConstants:
     def dielectric(self, value: Quantity) -> None:
         self.dielectric_unit = str(value.units)
         self._dielectric = value.to('e**2/(bohr*hartree)').magnitude
+        self.__dict__.pop('_dipole_init_data', None)
 
     def __setattr__(self, name: str, value: Any) -> None:
         _check_unit_conversion(self, name, value,
-- 
2.43.0


From 371024970df977c2b8af57c5971ef08e6f77d1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 06/67] fix: check q-point shape before calling the C extension

q-points that are not of shape (n, 3) made the C extension read out of bounds
---
 euphonic/force_constants.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 9805b1b..aac39dd 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -471,10 +471,12 @@ class ForceConstants:
             Shape (n_qpts, 3*n_atoms, 3) float Quantity in
             energy*length units. The phonon mode gradients
         """
-        # Check weights is of appropriate type and shape, to avoid doing all
-        # the interpolation only for it to fail creating QpointPhononModes
+        # Check qpts and weights are of appropriate type and shape, to avoid
+        # doing all the interpolation (or reading outside of qpts in C) only
+        # for it to fail creating QpointPhononModes
         _check_constructor_inputs(
-            [weights], [[np.ndarray, type(None)]], [(len(qpts),)], ['weights'])
+            [qpts, weights], [np.ndarray, [np.ndarray, type(None)]],
+            [(-1, 3), (len(qpts),)], ['qpts', 'weights'])
 
         # Set default splitting params
         if self.born is None:
-- 
2.43.0


From 1b7bfe4dd9e68bc3e8e3120c048b67228531cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:04 +0000
Subject: [PATCH 07/67] fix: use aligned double precision q-points throughout

---
 euphonic/force_constants.py | 10 ++++++----
 euphonic/validate.py        |  8 ++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index aac39dd..b72d8ed 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -477,6 +477,9 @@ class ForceConstants:
         _check_constructor_inputs(
             [qpts, weights], [np.ndarray, [np.ndarray, type(None)]],
             [(-1, 3), (len(qpts),)], ['qpts', 'weights'])
+        # Gamma points are not recognised in low precision, and the C
+        # extension reads q-points as doubles
+        qpts = qpts.astype(np.float64, casting='same_kind', copy=False)
 
         # Set default splitting params
         if self.born is None:
@@ -530,8 +533,7 @@ class ForceConstants:
                                          axis=0)
                 n_rqpts = len(reduced_qpts)
         else:
-            # The C extension reads q-points as doubles
-            reduced_qpts = qpts.astype(np.float64, copy=False)
+            reduced_qpts = qpts
             qpts_i = np.arange(0, len(qpts), dtype=np.int32)
             n_rqpts = len(qpts)
 
@@ -693,8 +695,8 @@ class ForceConstants:
             if dipole:
                 for obj, attr in ((self, '_born'), (self, '_dielectric'),
                                   (self.crystal, 'atom_r')):
-                    setattr(obj, attr, getattr(obj, attr).astype(
-                        np.float64, order='C', copy=False))
+                    setattr(obj, attr, np.require(
+                        getattr(obj, attr), np.float64, ['C', 'A']))
                 for key in ('H_ab', 'cells', 'gvec_phases', 'gvecs_cart',
                             'dipole_q0'):
                     self._dipole_init_data[key] = np.ascontiguousarray(
diff --git a/euphonic/validate.py b/euphonic/validate.py
index 21d38cc..b719b5f 100644
--- a/euphonic/validate.py
+++ b/euphonic/validate.py
@@ -105,7 +105,7 @@ def _replace_dim(expected_shape: Tuple[int, ...],
 def _ensure_contiguous_attrs(obj: object, required_attrs: List[str],
                              opt_attrs: List[str] = []) -> None:
     """
-    Make sure all listed attributes of obj are C Contiguous and of the
+    Make sure all listed attributes of obj are aligned, C Contiguous and of the
     correct type (int32, float64, complex128). This should only be used
     internally, and called before any calls to Euphonic C extension
     functions
@@ -124,13 +124,13 @@ def _ensure_contiguous_attrs(obj: object, required_attrs: List[str],
     """
     for attr_name in required_attrs:
         attr = getattr(obj, attr_name)
-        attr = attr.astype(_get_dtype(attr), order='C', copy=False)
+        attr = np.require(attr, _get_dtype(attr), ['C', 'A'])
         setattr(obj, attr_name, attr)
 
     for attr_name in opt_attrs:
         try:
             attr = getattr(obj, attr_name)
-            attr = attr.astype(_get_dtype(attr), order='C', copy=False)
+            attr = np.require(attr, _get_dtype(attr), ['C', 'A'])
             setattr(obj, attr_name, attr)
         except AttributeError:
             pass
@@ -153,7 +153,7 @@ def _ensure_contiguous_args(*args: np.ndarray) -> Tuple[np.ndarray, ...]:
     contiguous_args
         The same as the provided args, but all contiguous.
     """
-    return tuple(arg.astype(_get_dtype(arg), order='C', copy=False)
+    return tuple(np.require(arg, _get_dtype(arg), ['C', 'A'])
                  for arg in args)
 
 
-- 
2.43.0


From 4d8dfc607fc9bf7e25959802eefdc765705a2f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 08/67] fix: check shapes when setting force constants, born
 and dielectric

---
 euphonic/force_constants.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index b72d8ed..9a57fb5 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -129,6 +129,8 @@ class ForceConstants:
 
     @force_constants.setter
     def force_constants(self, value: Quantity) -> None:
+        _check_constructor_inputs(
+            [value], [Quantity], [self._force_constants.shape], ['force_constants'])
         self.force_constants_unit = str(value.units)
         self._force_constants = value.to('hartree/bohr**2').magnitude
         # Cached values calculated from the old force constants are stale
@@ -143,6 +145,8 @@ class ForceConstants:
 
     @born.setter
     def born(self, value: Quantity) -> None:
+        _check_constructor_inputs(
+            [value], [Quantity], [(self.crystal.n_atoms, 3, 3)], ['born'])
         self.born_unit = str(value.units)
         self._born = value.to('e').magnitude
         self.__dict__.pop('_dipole_init_data', None)
@@ -157,6 +161,8 @@ class ForceConstants:
 
     @dielectric.setter
     def dielectric(self, value: Quantity) -> None:
+        _check_constructor_inputs(
+            [value], [Quantity], [(3, 3)], ['dielectric'])
         self.dielectric_unit = str(value.units)
         self._dielectric = value.to('e**2/(bohr*hartree)').magnitude
         self.__dict__.pop('_dipole_init_data', None)
-- 
2.43.0


From f54472b26573da73bd44c378c9fbd0bde754710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:08 +0000
Subject: [PATCH 09/67] fix: do not share metadata between spectra and their
 copies, splits and dicts

---
 euphonic/io.py      |  4 ++--
 euphonic/spectra.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index e89a095..716414c 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -61,8 +61,8 @@ def _obj_to_dict(obj: T, attrs: Sequence[str]) -> Dict[str, Any]:
 
         if isinstance(val, np.ndarray):
             dout[attr] = np.copy(val)
-        elif isinstance(val, list):
-            dout[attr] = val.copy()
+        elif isinstance(val, (list, dict)):
+            dout[attr] = copy.deepcopy(val)
         elif isinstance(val, Quantity):
             if isinstance(val.magnitude, np.ndarray):
                 dout[attr] = np.copy(val.magnitude)
diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index e260927..ebd7c76 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -477,7 +477,7 @@ class Spectrum1D(Spectrum):
         return [type(self)(self.x_data[x0:x1], self.y_data[x0:x1],
                            x_tick_labels=self._cut_x_ticks(self.x_tick_labels,
                                                            x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     def copy(self: T) -> T:
@@ -1202,7 +1202,7 @@ class Spectrum1DCollection(SpectrumCollectionMixin,
         return [type(self)(self.x_data[x0:x1], self.y_data[:, x0:x1],
                            x_tick_labels=self._cut_x_ticks(self.x_tick_labels,
                                                            x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     @classmethod
@@ -1522,7 +1522,7 @@ class Spectrum2D(Spectrum):
                            self.z_data[x0:x1, :],
                            x_tick_labels=self._cut_x_ticks(self.x_tick_labels,
                                                            x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     def broaden(self: T,
@@ -1619,7 +1619,7 @@ class Spectrum2D(Spectrum):
                                   copy.copy(self.x_tick_labels),
                                   copy.deepcopy(self.metadata))
         else:
-            spectrum = self
+            spectrum = self.copy()
 
         # Then apply variable-width broadening to any axes with Callable
         for axis, width, lower_limit in (('x', x_width, x_width_lower_limit),
@@ -1686,7 +1686,7 @@ class Spectrum2D(Spectrum):
                           np.copy(spectrum.y_data),
                           z_broadened,
                           copy.copy(spectrum.x_tick_labels),
-                          copy.copy(spectrum.metadata))
+                          copy.deepcopy(spectrum.metadata))
 
     def copy(self: T) -> T:
         """Get an independent copy of spectrum"""
@@ -1908,7 +1908,7 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
                            self.z_data[:, x0:x1, :],
                            x_tick_labels=self._cut_x_ticks(
                                self.x_tick_labels, x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     @property
-- 
2.43.0


From b866bb116da09bf0f66141674784535c7dec662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:10 +0000
Subject: [PATCH 10/67] fix: allow spectra with an empty list of tick labels to
 be plotted

---
 euphonic/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/euphonic/plot.py b/euphonic/plot.py
index 7b42724..77b1eab 100644
--- a/euphonic/plot.py
+++ b/euphonic/plot.py
@@ -328,12 +328,13 @@ def _set_x_tick_labels(ax: Axes,
                        x_tick_labels: Optional[Sequence[Tuple[int, str]]],
                        x_data: Quantity) -> None:
     if x_tick_labels is not None:
-        locs, labels = [list(x) for x in zip(*x_tick_labels)]
+        locs = [loc for loc, _ in x_tick_labels]
+        labels = [label for _, label in x_tick_labels]
         x_values = x_data.magnitude  # type: np.ndarray
         ax.set_xticks(x_values[locs])
 
         # Rotate long tick labels
-        if len(max(labels, key=len)) >= 11:
+        if max(map(len, labels), default=0) >= 11:
             ax.set_xticklabels(labels, rotation=90)
         else:
             ax.set_xticklabels(labels)
-- 
2.43.0


From 3ff89d74c7855c2f1e1065aa034ad241566ceacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 11/67] fix: use values in display units in
 Spectrum2DCollection.from_spectra

---
 euphonic/spectra.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index ebd7c76..d78809f 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1948,9 +1948,8 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
 
         for i, spectrum in enumerate(spectra[1:]):
             _type_check(spectrum)
-            spectrum_i_raw_data = cls._get_item_raw_data(spectrum)
-            spectrum_i_data_units = cls._get_item_data_unit(spectrum)
-            assert spectrum_i_data_units == spectrum_data_units
+            spectrum_i_data = cls._get_item_data(spectrum)
+            assert spectrum_i_data.units == spectrum_data_units
 
             for key, ref_bins in bins_data.items():
                 item_bins = getattr(spectrum, key)
@@ -1958,7 +1957,7 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
                 assert item_bins.units == ref_bins.units
 
             assert spectrum.x_tick_labels == x_tick_labels
-            spectrum_data_magnitude[i + 1, :, :] = spectrum_i_raw_data
+            spectrum_data_magnitude[i + 1, :, :] = spectrum_i_data.magnitude
 
         metadata = cls._combine_metadata([spec.metadata for spec in spectra])
         spectrum_data = Quantity(spectrum_data_magnitude, spectrum_data_units)
-- 
2.43.0


From a8756f534b63d572abef12416f638693d58b0358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:26 +0000
Subject: [PATCH 12/67] fix: scale z_data, not the y axis, when multiplying
 Spectrum2DCollection

---
 euphonic/spectra.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index d78809f..ff6b7ae 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -869,6 +869,11 @@ class SpectrumCollectionMixin(ABC):
         # Item must be some kind of integer sequence
         return self._combine_metadata([metadata_lines[i] for i in item])
 
+    def __imul__(self, other: Real) -> Self:
+        """Scale spectral data in-place"""
+        self._set_raw_spectrum_data(self._get_raw_spectrum_data() * other)
+        return self
+
     def copy(self) -> Self:
         """Get an independent copy of spectrum"""
         return self._item_type.copy(self)
-- 
2.43.0


From e52b47babb00ea9778f90f4714b57fadeb579a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 13/67] fix: sum collections in display units

---
 euphonic/spectra.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index ff6b7ae..e32792f 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -774,10 +774,9 @@ class SpectrumCollectionMixin(ABC):
         metadata = copy.deepcopy(self.metadata)
         metadata.pop('line_data', None)
         metadata.update(self._tidy_metadata())
+        s_data = self._get_spectrum_data()
         summed_s_data = ureg.Quantity(
-            np.sum(self._get_raw_spectrum_data(), axis=0),
-            units=self._get_internal_spectrum_data_unit()
-        ).to(self._get_spectrum_data_unit())
+            np.sum(s_data.magnitude, axis=0), units=s_data.units)
         return self._item_type(
             **self._get_bin_kwargs(),
             **{self._spectrum_data_name(): summed_s_data},
-- 
2.43.0


From 9a9e8c8cf9f507e50e3c2da390088de52d8b0aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:44 +0000
Subject: [PATCH 14/67] fix: use positive cell volume for left-handed cell
 vectors

---
 c/util.c            | 3 ++-
 euphonic/crystal.py | 3 +--
 euphonic/util.py    | 5 +++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/c/util.c b/c/util.c
index de8f686..20bf211 100644
--- a/c/util.c
+++ b/c/util.c
@@ -57,7 +57,8 @@ double cell_volume(const double *cell_vec) {
     for (i = 0; i < 3; i++) {
         vol += cell_vec[i]*bxc[i];
     }
-    return vol;
+    // Left-handed cells have a negative triple product
+    return fabs(vol);
 }
 
 void cmult(const double c1[2], const double c2[2], double result[2]) {
diff --git a/euphonic/crystal.py b/euphonic/crystal.py
index 57191a5..a0af780 100644
--- a/euphonic/crystal.py
+++ b/euphonic/crystal.py
@@ -118,8 +118,7 @@ class Crystal:
         bxc = np.cross(cv[1], cv[2])
         cxa = np.cross(cv[2], cv[0])
         axb = np.cross(cv[0], cv[1])
-        vol = self.cell_volume()
-        norm = 2*np.pi/vol
+        norm = 2*np.pi/np.dot(cv[0], bxc)
 
         return np.vstack((norm * bxc, norm * cxa, norm * axb))
 
diff --git a/euphonic/util.py b/euphonic/util.py
index f1d3d0a..6791395 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -436,8 +436,9 @@ def convert_fc_phases(force_constants: np.ndarray, atom_r: np.ndarray,
 
 def _cell_vectors_to_volume(cell_vectors: Quantity) -> Quantity:
     """Convert 3x3 cell vectors to volume"""
-    volume = np.dot(cell_vectors[0],
-                    np.cross(cell_vectors[1], cell_vectors[2]))
+    # Left-handed cells have a negative triple product
+    volume = np.abs(np.dot(cell_vectors[0],
+                           np.cross(cell_vectors[1], cell_vectors[2])))
     assert isinstance(volume, Quantity)
     return volume
 
-- 
2.43.0


From cdd7f7e8b8b80b354207710be66d25e3501aa40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 15/67] fix: convert dielectric units in
 from_total_fc_with_dipole

---
 euphonic/force_constants.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 9a57fb5..73e69c8 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1810,11 +1810,12 @@ class ForceConstants:
         sc_born = np.tile(born.to(ureg('e')).magnitude,
                           (n_cells, 1, 1))
         # Now initialise, calculate and subtract the dipole correction
+        sc_dielectric = dielectric.to('e**2/(bohr*hartree)').magnitude
         dipole_data = cls._dipole_correction_init(
-            sc_crystal, sc_born, dielectric.magnitude)
+            sc_crystal, sc_born, sc_dielectric)
         corr = cls._calculate_dipole_correction(
             np.array([0., 0., 0.]), sc_crystal, sc_born,
-            dielectric.magnitude, dipole_data)
+            sc_dielectric, dipole_data)
         corr = np.transpose(
             np.reshape(corr[:, :3*n_atoms], (n_cells, 3*n_atoms, 3*n_atoms)),
             axes=[0, 2, 1])
-- 
2.43.0


From d28685c475f20d527d65582129a36f4f9a0ef4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:36 +0000
Subject: [PATCH 16/67] fix: supercell atom positions for non-symmetric
 supercell matrices

---
 euphonic/force_constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 73e69c8..e0ed292 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1800,8 +1800,8 @@ class ForceConstants:
         # First create Crystal and Born charges for supercell
         sc_atom_r = (np.repeat(cell_origins, n_atoms, axis=0)
                      + np.tile(crystal.atom_r, (n_cells, 1)))
-        sc_to_u_matrix = np.linalg.inv(sc_matrix).transpose()
-        sc_atom_r_scell = np.einsum('ij,jk->ik', sc_atom_r, sc_to_u_matrix)
+        u_to_sc_matrix = np.linalg.inv(sc_matrix)
+        sc_atom_r_scell = np.einsum('ij,jk->ik', sc_atom_r, u_to_sc_matrix)
         sc_vecs = np.einsum('ji,ik->jk', sc_matrix, crystal._cell_vectors)
         sc_mass = np.tile(crystal._atom_mass, n_cells)
         sc_crystal = Crystal(sc_vecs*ureg('bohr'), sc_atom_r_scell,
-- 
2.43.0


From d8d9b6962a0b5ef5a930fa9bf306e056ecaaac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:49 +0000
Subject: [PATCH 17/67] fix: detect unequal bins in units with small values

---
 euphonic/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index e32792f..910ab0e 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -248,7 +248,7 @@ class Spectrum(ABC):
             for ax, (width, bin_data) in enumerate(zip(widths, bin_centres)):
                 if width is not None:
                     bin_widths = np.diff(bin_data)
-                    if not np.all(np.isclose(bin_widths, bin_widths[0])):
+                    if not np.all(np.isclose(bin_widths, bin_widths[0], atol=0.)):
                         unequal_bin_axes += [axes[ax]]
             if len(unequal_bin_axes) > 0:
                 msg = (f'{" and ".join(unequal_bin_axes)} bin widths are '
@@ -1657,7 +1657,7 @@ class Spectrum2D(Spectrum):
         bins = spectrum.get_bin_edges(bin_ax=axis)
         bin_widths = np.diff(bins)
 
-        if not np.all(np.isclose(bin_widths, bin_widths[0])):
+        if not np.all(np.isclose(bin_widths, bin_widths[0], atol=0.)):
             bin_width = bin_widths.mean()
         else:
             bin_width = bin_widths[0]
-- 
2.43.0


From 7a8b948ad8d9d827797930725fc2d73f498fffb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:24 +0000
Subject: [PATCH 18/67] fix: error-dependent kernel spacing for Lorentzian
 broadening

---
 euphonic/broadening.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/broadening.py b/euphonic/broadening.py
index 0cb59e4..5884072 100644
--- a/euphonic/broadening.py
+++ b/euphonic/broadening.py
@@ -179,7 +179,7 @@ def _get_spacing(error,
             cheby = Chebyshev(
                 [1.26039672, 0.39900457, 0.20392176, 0.08602507,
                  0.03337662, 0.00878684, 0.00619626],
-                window=[1., 1.],
+                window=[-1., 1.],
                 domain=[-4.99146317, -1.34655197])
             safe_domain = [-4, -1.35]
 
-- 
2.43.0


From 816258daee739a6816d993f73d6c228f1d78a928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 19/67] fix: finite Debye-Waller factor with zero frequencies

---
 euphonic/qpoint_phonon_modes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index 2f63253..346b11a 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -383,6 +383,8 @@ class QpointPhononModes(QpointFrequencies):
         # Mask out frequencies below frequency_min
         freq_mask = np.ones(freqs.shape)
         freq_mask[freqs < freq_min] = 0
+        # The term for a masked frequency must be finite even if it is zero
+        freqs = np.where(freq_mask == 0, np.inf, freqs)
 
         if temp > 0:
             x = freqs/(2*kB*temp)
-- 
2.43.0


From cd30e1cfb470576c60dbf6d771b07c4cfa0eab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:42 +0000
Subject: [PATCH 20/67] fix: do not use uninitialised memory for pairs without
 minimum images

---
 euphonic/force_constants.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index e0ed292..0f32dc6 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -610,7 +610,9 @@ class ForceConstants:
         n_sc_images_repeat = (
             self._n_sc_images.repeat(3, axis=2).repeat(3, axis=1))
         fc_img_weighted = np.divide(
-            force_constants, n_sc_images_repeat, where=n_sc_images_repeat != 0)
+            force_constants, n_sc_images_repeat,
+            out=np.zeros_like(force_constants),
+            where=n_sc_images_repeat != 0)
 
         recip_asr_correction = np.array([], dtype=np.complex128)
         if asr == 'reciprocal':
-- 
2.43.0


From 01858d9bc7371043618a774ff0c51a19f83ec6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 21/67] fix: find supercell relative index for skewed or
 shifted supercells

---
 euphonic/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index 6791395..f2203cf 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -694,6 +694,9 @@ def _get_supercell_relative_idx(cell_origins: np.ndarray,
     inv_sc_matrix = np.linalg.inv(np.transpose(sc_matrix))
     cell_origins_sc = np.einsum('ij,kj->ik', cell_origins, inv_sc_matrix)
     sc_relative_index = np.zeros((n_cells, n_cells), dtype=np.int32)
+    # Different cells are at least 1/n_cells apart, so this only has to
+    # be larger than the rounding error of the fractional coordinates
+    tol = 1e-2/n_cells
     for nc in range(n_cells):
         # Get vectors from cell origin for a particular cell to all
         # other cell origins
@@ -719,9 +722,9 @@ def _get_supercell_relative_idx(cell_origins: np.ndarray,
             replace = dist_min_current < dist_min
             sc_relative_index[nc, replace] = ci + scri_current[replace]
             dist_min[replace] = dist_min_current[replace]
-            if np.all(dist_min <= 16*sys.float_info.epsilon):
+            if np.all(dist_min <= tol):
                 break
-        if np.any(dist_min > 16*sys.float_info.epsilon):
+        if np.any(dist_min > tol):
             raise ValueError('Couldn\'t find supercell relative index')
     return sc_relative_index
 
-- 
2.43.0


From 3b8d8c4c5221dfcc341a4ca8bc585d43f861d5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:32 +0000
Subject: [PATCH 22/67] fix: label q-points at symmetry points with negative
 coordinates or rounding errors

---
 euphonic/util.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index f2203cf..3b4f892 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -635,8 +635,9 @@ def _get_qpt_label(qpt: np.ndarray,
         point label is just an empty string
     """
 
-    # Normalise qpt to [0,1]
-    qpt_norm = [x - math.floor(x) for x in qpt]
+    TOL = 1e-6
+    # Normalise qpt to [0,1], rounding errors mustn't change 0 to 1
+    qpt_norm = [x - math.floor(x + TOL) for x in qpt]
 
     # Split dict into keys and values so labels can be looked up by
     # comparing q-point coordinates with the dict values
@@ -647,7 +648,6 @@ def _get_qpt_label(qpt: np.ndarray,
 
     # Check for matching symmetry point coordinates (roll q-point
     # coordinates if no match is found)
-    TOL = 1e-6
     matching_label_index = np.where((np.isclose(
         label_coords, qpt_norm, atol=TOL)).all(axis=1))[0]
     if matching_label_index.size == 0:
@@ -656,6 +656,10 @@ def _get_qpt_label(qpt: np.ndarray,
     if matching_label_index.size == 0:
         matching_label_index = np.where((np.isclose(
             label_coords, np.roll(qpt_norm, 2), atol=TOL)).all(axis=1))[0]
+    if matching_label_index.size == 0:
+        # Some symmetry point coordinates are negative
+        matching_label_index = np.where((np.isclose(
+            np.mod(label_coords, 1), qpt_norm, atol=TOL)).all(axis=1))[0]
 
     label = ''
     if matching_label_index.size > 0:
-- 
2.43.0


From 2839c8864237d5b9211c12aeca4239726bcc5fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:20 +0000
Subject: [PATCH 23/67] fix: do not map modes twice in reorder_frequencies if
 overlaps are zero

---
 euphonic/qpoint_phonon_modes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index 346b11a..906a1bc 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -151,8 +151,8 @@ class QpointPhononModes(QpointFrequencies):
                     # Prev q-pt modes are columns
                     prev_mode = max_i % n_branches
                     # Ensure modes aren't mapped more than once
-                    dot_mat[mode, :] = 0
-                    dot_mat[:, prev_mode] = 0
+                    dot_mat[mode, :] = -1
+                    dot_mat[:, prev_mode] = -1
 
                     prev_mode_idx = np.where(mode_map[i-1] == prev_mode)[0][0]
                     mode_map[i, prev_mode_idx] = mode
-- 
2.43.0


From cf5826b6f649857f6a939e63cdc6168029d05de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:50 +0000
Subject: [PATCH 24/67] fix: return all points from spherical_polar_improved

---
 euphonic/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/sampling.py b/euphonic/sampling.py
index b36f9bc..ad51500 100644
--- a/euphonic/sampling.py
+++ b/euphonic/sampling.py
@@ -300,7 +300,7 @@ def spherical_polar_improved(npts: int,
     theta_circumferences = 2 * np.pi * np.abs(np.sin(theta_sequence))
     bin_edges = np.concatenate([[0], np.cumsum(theta_circumferences)])
 
-    counts, _ = np.histogram(np.linspace(0, theta_circumferences.sum(), npts),
+    counts, _ = np.histogram(np.linspace(0, bin_edges[-1], npts),
                              bins=bin_edges, density=False)
 
     for row_theta, count in zip(theta_sequence, counts):
-- 
2.43.0


From 21b882d280cde1134c991d538c875e9b3f67c49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:39 +0000
Subject: [PATCH 25/67] fix: allow a single row or column in
 spherical_polar_grid

---
 euphonic/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/sampling.py b/euphonic/sampling.py
index ad51500..62b4a99 100644
--- a/euphonic/sampling.py
+++ b/euphonic/sampling.py
@@ -218,12 +218,12 @@ def spherical_polar_grid(n_phi: int, n_theta: int,
         (r, phi, theta) spherical coordinates.
     """
     phi_sequence = np.linspace(-np.pi, np.pi, n_phi + 1)[:-1]
-    phi_spacing = phi_sequence[1] - phi_sequence[0]
+    phi_spacing = 2*np.pi / n_phi
 
     # Offset theta samples to avoid redundancy at pole
     theta_sequence = (np.linspace(0, np.pi, n_theta + 1)[:-1]
                       + np.pi / (2 * n_theta))
-    theta_spacing = theta_sequence[1] - theta_sequence[0]
+    theta_spacing = np.pi / n_theta
 
     for phi, theta in product(phi_sequence, theta_sequence):
         if jitter:
-- 
2.43.0


From cce8ebc2fe94c2f8e3eebb78ef3cbab28e11aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:42 +0000
Subject: [PATCH 26/67] fix: keep jittered points of regular_square in the unit
 square

---
 euphonic/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/sampling.py b/euphonic/sampling.py
index 62b4a99..9e3f327 100644
--- a/euphonic/sampling.py
+++ b/euphonic/sampling.py
@@ -97,8 +97,8 @@ def regular_square(n_rows: int, n_cols: int,
         else:
             delta_x, delta_y = 0, 0
 
-        yield (x + x_offset + delta_x,
-               y + y_offset + delta_y)
+        yield ((x + x_offset + delta_x) % 1,
+               (y + y_offset + delta_y) % 1)
 
 
 def _spherical_polar_to_cartesian(phi, theta):
-- 
2.43.0


From 11608f767ea1309f03d3d86daa397995aeb4b413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:10 +0000
Subject: [PATCH 27/67] fix: account for back-scattering at 540 degrees in
 angle ranges

---
 euphonic/spectra.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 910ab0e..16a07a5 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -2074,13 +2074,14 @@ def _get_cos_range(angle_range: Tuple[float]) -> Tuple[float]:
     a cosine max/min point lies within the angle range, 1/-1 respectively.
 
     Method: the angle range is translated such that it starts within 0-2π; then
-    we check for the presence of turning points at π and 2π.
+    we check for the presence of turning points at π, 2π and 3π.
     """
     limiting_values = np.cos(angle_range).tolist()
 
     shift, lower_angle = divmod(min(angle_range), np.pi * 2)
     upper_angle = max(angle_range) - (shift * 2 * np.pi)
-    if lower_angle < np.pi < upper_angle:
+    if (lower_angle < np.pi < upper_angle
+            or lower_angle < 3 * np.pi < upper_angle):
         limiting_values.append(-1.)
     if lower_angle < 2 * np.pi < upper_angle:
         limiting_values.append(1.)
-- 
2.43.0


From 426bcdd6399d284321336aa73fea9afb52946ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:58 +0000
Subject: [PATCH 28/67] fix: convert frequencies to wavelength and period units
 correctly

---
 euphonic/qpoint_frequencies.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/euphonic/qpoint_frequencies.py b/euphonic/qpoint_frequencies.py
index 63310b2..cac616a 100644
--- a/euphonic/qpoint_frequencies.py
+++ b/euphonic/qpoint_frequencies.py
@@ -79,7 +79,10 @@ class QpointFrequencies:
 
     @property
     def frequencies(self) -> Quantity:
-        return self._frequencies*ureg('hartree').to(self.frequencies_unit)
+        # Convert the values rather than 1 hartree, as conversion to some
+        # accepted units (e.g. wavelength) is not linear
+        return Quantity(self._frequencies, ureg('hartree').units).to(
+            self.frequencies_unit, 'reciprocal_spectroscopy')
 
     @frequencies.setter
     def frequencies(self, value: Quantity) -> None:
-- 
2.43.0


From 47ccb536dc911c62b03e6342dbc93ade47c8d196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:43 +0000
Subject: [PATCH 29/67] fix: read quantities in offset units from dict

---
 euphonic/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index 716414c..7d6e6bd 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -91,7 +91,8 @@ def _process_dict(dictionary: Dict[str, Any], quantities: Sequence[str] = [],
     for qkey in quantities:
         val = dictionary.pop(qkey)
         if val is not None:
-            val = val*ureg(dictionary.pop(qkey + '_unit'))
+            # Multiplying by a unit is ambiguous for offset units (e.g. degC)
+            val = Quantity(val, dictionary.pop(qkey + '_unit'))
         dictionary[qkey] = val
     return dictionary
 
-- 
2.43.0


From 03468f3a0a38d2a5a16f541ff9a4b69065c9346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:29 +0000
Subject: [PATCH 30/67] fix: convert reciprocal energies when setting spectrum
 data

---
 euphonic/spectra.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 16a07a5..63a5a05 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -55,7 +55,8 @@ class Spectrum(ABC):
     @x_data.setter
     def x_data(self, value: Quantity) -> None:
         self.x_data_unit = str(value.units)
-        self._x_data = value.to(self._internal_x_data_unit).magnitude
+        self._x_data = value.to(self._internal_x_data_unit,
+                                 "reciprocal_spectroscopy").magnitude
 
     @property
     def y_data(self) -> Quantity:
@@ -65,7 +66,8 @@ class Spectrum(ABC):
     @y_data.setter
     def y_data(self, value: Quantity) -> None:
         self.y_data_unit = str(value.units)
-        self._y_data = value.to(self._internal_y_data_unit).magnitude
+        self._y_data = value.to(self._internal_y_data_unit,
+                                 "reciprocal_spectroscopy").magnitude
 
     def __imul__(self: T, other: Real) -> T:
         """Scale spectral data in-place"""
@@ -1505,7 +1507,8 @@ class Spectrum2D(Spectrum):
     @z_data.setter
     def z_data(self, value: Quantity) -> None:
         self.z_data_unit = str(value.units)
-        self._z_data = value.to(self._internal_z_data_unit).magnitude
+        self._z_data = value.to(self._internal_z_data_unit,
+                                 "reciprocal_spectroscopy").magnitude
 
     def __imul__(self: T, other: Real) -> T:
         """Scale spectral data in-place"""
@@ -1924,7 +1927,8 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
     @z_data.setter
     def z_data(self, value: Quantity) -> None:
         self.z_data_unit = str(value.units)
-        self._z_data = value.to(self._internal_z_data_unit).magnitude
+        self._z_data = value.to(self._internal_z_data_unit,
+                                 "reciprocal_spectroscopy").magnitude
 
     @classmethod
     def from_spectra(cls, spectra: Sequence[Spectrum2D]) -> Self:
-- 
2.43.0


From e5c33d960263c05b6aa0ef1637ef69a2695259f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:52 +0000
Subject: [PATCH 31/67] fix: calculate the Bose factor for temperatures in
 offset units

---
 euphonic/structure_factor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/structure_factor.py b/euphonic/structure_factor.py
index 97d2ddb..405d5a6 100644
--- a/euphonic/structure_factor.py
+++ b/euphonic/structure_factor.py
@@ -332,7 +332,7 @@ class StructureFactor(QpointFrequencies):
         kB = (1*ureg.k).to('E_h/K').magnitude
         temp = temperature.to('K').magnitude
         bose = np.zeros(self._frequencies.shape)
-        if temperature > 0:
+        if temp > 0:
             bose = 1/(np.exp(np.absolute(self._frequencies)/(kB*temp)) - 1)
         else:
             bose = 0
-- 
2.43.0


From 86a3c71d7e21f8360e17de8be9cce0e28c6e69a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:43 +0000
Subject: [PATCH 32/67] fix: find symmetry with the cell in angstrom whatever
 its display unit

---
 euphonic/crystal.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/euphonic/crystal.py b/euphonic/crystal.py
index a0af780..86bc28c 100644
--- a/euphonic/crystal.py
+++ b/euphonic/crystal.py
@@ -171,12 +171,13 @@ class Crystal:
         -------
         cell
             cell = (lattice, positions, numbers), where lattice is the
-            lattice vectors, positions are the fractional atomic
-            positions, and numbers are integers distinguishing the
+            lattice vectors in angstrom (whatever cell_vectors_unit is,
+            as symmetry tolerances are absolute), positions are the
+            fractional atomic positions, and numbers are integers distinguishing the
             atomic species
         """
         _, unique_atoms = np.unique(self.atom_type, return_inverse=True)
-        cell = (self.cell_vectors.magnitude.tolist(),
+        cell = (self.cell_vectors.to('angstrom').magnitude.tolist(),
                 self.atom_r.tolist(),
                 unique_atoms.tolist())
         return cell
@@ -233,7 +234,7 @@ class Crystal:
 
         """
         tol_calc = tol.to('bohr').magnitude
-        symprec = tol.to(self.cell_vectors_unit).magnitude
+        symprec = tol.to('angstrom').magnitude
         # Sometimes if symprec is very low, even the identity
         # symmetry op won't be found, and None will be returned
         # For some reason this can't always be reproduced
-- 
2.43.0


From de3e611132973ddb22cf573a5e56adecc216b01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:45 +0000
Subject: [PATCH 33/67] fix: refuse incompatible z_data_unit on
 Spectrum2DCollection

---
 euphonic/spectra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 63a5a05..59ba1f0 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1930,6 +1930,10 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
         self._z_data = value.to(self._internal_z_data_unit,
                                  "reciprocal_spectroscopy").magnitude
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        _check_unit_conversion(self, name, value, ['z_data_unit'])
+        super().__setattr__(name, value)
+
     @classmethod
     def from_spectra(cls, spectra: Sequence[Spectrum2D]) -> Self:
         if len(spectra) < 1:
-- 
2.43.0


From 47321ae38b03897dd946851722f4b244bba24280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:34 +0000
Subject: [PATCH 34/67] fix: write complex arrays of any memory layout to JSON

---
 euphonic/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index 7d6e6bd..0586b7a 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -17,7 +17,8 @@ def _to_json_dict(dictionary: Dict[str, Any]) -> Dict[str, Any]:
     for key, val in dictionary.items():
         if isinstance(val, np.ndarray):
             if val.dtype == np.complex128:
-                val = val.view(np.float64).reshape(val.shape + (2,))
+                val = np.ascontiguousarray(val).view(
+                    np.float64).reshape(val.shape + (2,))
             dictionary[key] = val.tolist()
         elif isinstance(val, dict):
             if key != 'metadata':
-- 
2.43.0


From 45b331b455bd233cab0a7cab6a45691536daa8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:41 +0000
Subject: [PATCH 35/67] fix: write numpy scalars and single-precision complex
 arrays to JSON

---
 euphonic/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index 0586b7a..cc704ba 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -16,10 +16,12 @@ def _to_json_dict(dictionary: Dict[str, Any]) -> Dict[str, Any]:
     """
     for key, val in dictionary.items():
         if isinstance(val, np.ndarray):
-            if val.dtype == np.complex128:
-                val = np.ascontiguousarray(val).view(
+            if np.iscomplexobj(val):
+                val = np.ascontiguousarray(val, dtype=np.complex128).view(
                     np.float64).reshape(val.shape + (2,))
             dictionary[key] = val.tolist()
+        elif isinstance(val, np.generic):
+            dictionary[key] = val.item()
         elif isinstance(val, dict):
             if key != 'metadata':
                 dictionary[key] = _to_json_dict(val)
-- 
2.43.0


From 136d60d645b895972901774127eded4258f5e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:11 +0000
Subject: [PATCH 36/67] fix: Transpose eigenvectors read from Phonopy mesh.hdf5
 and qpoints.hdf5

---
 euphonic/readers/phonopy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index b1b0bc9..f677ff7 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -157,7 +157,9 @@ def _extract_phonon_data_hdf5(filename: str,
                 # Eigenvectors may not be present if users haven't set
                 # --eigvecs when running Phonopy - deal with this later
                 try:
-                    data_dict['eigenvectors'] = hdf5_file['eigenvector'][()]
+                    # Eigenvectors are the columns in Phonopy .hdf5 files
+                    data_dict['eigenvectors'] = hdf5_file[
+                        'eigenvector'][()].transpose([0, 2, 1])
                 except KeyError:
                     pass
             # Only mesh.hdf5 has weights
-- 
2.43.0


From e9299df4aa3636845e33207c7caea4c451abd311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:16 +0000
Subject: [PATCH 37/67] fix: Use Phonopy's convention for non-symmetric
 supercell matrices

---
 euphonic/readers/phonopy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index f677ff7..7fe7a15 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -519,7 +519,9 @@ def _extract_summary(filename: str, fc_extract: bool = False
 
     if fc_extract:
         # Get matrix to convert from primitive cell to unit cell
-        u_to_sc_matrix = np.array(summary_object['supercell_matrix'])
+        # (Phonopy matrices act on lattice vectors arranged as columns)
+        u_to_sc_matrix = np.array(
+            summary_object['supercell_matrix']).transpose()
         if 'primitive_matrix' in summary_object:
             u_to_p_matrix = np.array(summary_object['primitive_matrix'])
             # Matrix to convert from primitive to supercell
-- 
2.43.0


From 7e825bb5d9832c131650a609cb842a03874e89f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:09 +0000
Subject: [PATCH 38/67] fix: Read force constants from .h5 and .hd5 files

---
 euphonic/readers/phonopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index 7fe7a15..bb574c0 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -717,7 +717,7 @@ def read_interpolation_data(
             with open(fc_pathname, 'r') as fc_file:
                 summary_dict['force_constants'] = _extract_force_constants(
                     fc_pathname, n_atoms, n_cells, summary_pathname)
-        elif fc_format in 'hdf5':
+        elif fc_format in hdf5_exts:
             summary_dict['force_constants'] =  _extract_force_constants_hdf5(
                 fc_pathname, n_atoms, n_cells, summary_pathname)
         else:
-- 
2.43.0


From 54c96feac480e6ccac7734bff4d5b01652ddea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:56 +0000
Subject: [PATCH 39/67] fix: Do not assume the cell at the origin comes first

---
 euphonic/force_constants.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 0f32dc6..b78bc8d 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1433,7 +1433,9 @@ class ForceConstants:
             sq_fc -= (fc_tol + evals[ac])*np.einsum(
                 'i,j->ij', evecs[:, ac], evecs[:, ac])
 
-        fc = np.reshape(sq_fc[:, :3*n_atoms],
+        # Get columns for atoms in the cell at the origin
+        idx = 3*n_atoms*sc_rel_idx[0, 0] + np.arange(3*n_atoms)
+        fc = np.reshape(sq_fc[:, idx],
                         (n_cells_in_sc, 3*n_atoms, 3*n_atoms))
 
         return fc
@@ -1646,7 +1648,7 @@ class ForceConstants:
         # so they are more likely to pass/fail the WS check together
         # so the last loop can be broken early
         for i in range(n_atoms):
-            rij = sc_atom_cart[0, i] - sc_atom_cart
+            rij = np.dot(atom_r[i], cell_vectors) - sc_atom_cart
             for im, sc_r in enumerate(sc_image_cart):
                 # Get vector between j in sc image and i in unit cell
                 dists = rij - sc_r
@@ -1818,8 +1820,11 @@ class ForceConstants:
         corr = cls._calculate_dipole_correction(
             np.array([0., 0., 0.]), sc_crystal, sc_born,
             sc_dielectric, dipole_data)
+        # Get columns for atoms in the cell at the origin
+        sc_rel_idx = _get_supercell_relative_idx(cell_origins, sc_matrix)
+        idx = 3*n_atoms*sc_rel_idx[0, 0] + np.arange(3*n_atoms)
         corr = np.transpose(
-            np.reshape(corr[:, :3*n_atoms], (n_cells, 3*n_atoms, 3*n_atoms)),
+            np.reshape(corr[:, idx], (n_cells, 3*n_atoms, 3*n_atoms)),
             axes=[0, 2, 1])
         fc = force_constants.to('hartree/bohr**2').magnitude
         fc_corrected = np.real(fc - corr)*ureg('hartree/bohr**2').to(
-- 
2.43.0


From 06ff1014c4e08d94ac8a38a845d97b817eacdeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:44 +0000
Subject: [PATCH 40/67] fix: Use the given supercell atom of each unit cell
 atom in convert_fc_phases

---
 euphonic/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index 3b4f892..4875572 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -423,7 +423,7 @@ def convert_fc_phases(force_constants: np.ndarray, atom_r: np.ndarray,
         # shaped array may not be in the same cell within the supercell,
         # but Euphonic's interpolation requires this, so use equivalent
         # cell vector indices to arrange the force constants correctly
-        atom_idx = np.where(sc_to_uc_atom_idx == i)[0][0]
+        atom_idx = uc_to_sc_atom_idx[i]
         cell_idx = cell_origins_map[atom_idx]
         sc_relative_idx = _get_supercell_relative_idx(cell_origins, sc_matrix)
         fc_converted[i, sc_relative_idx[cell_idx]] = fc_tmp
-- 
2.43.0


From 229dba440e5b23dabc85ccaadafd42f8eefee87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:26 +0000
Subject: [PATCH 41/67] fix: Use the normalised atom positions when reading
 Phonopy force constants

---
 euphonic/readers/phonopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index bb574c0..0d2a694 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -767,7 +767,7 @@ def read_interpolation_data(
     cry_dict['atom_mass_unit'] = atom_mass_unit
 
     fc, cell_origins = convert_fc_phases(
-         summary_dict['force_constants'], summary_dict['atom_r'],
+         summary_dict['force_constants'], cry_dict['atom_r'],
          summary_dict['sc_atom_r'], summary_dict['pc_to_sc_atom_idx'],
          summary_dict['sc_to_pc_atom_idx'], summary_dict['sc_matrix'])
     data_dict['force_constants'] = fc*ureg(
-- 
2.43.0


From 2d1fe2db48562d7daa3b3d5bc833af4af661e6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:00 +0000
Subject: [PATCH 42/67] fix: Find equivalent cell origins at any distance in
 convert_fc_phases

---
 euphonic/util.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index 4875572..c8ea4db 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -388,9 +388,9 @@ def convert_fc_phases(force_constants: np.ndarray, atom_r: np.ndarray,
     # origins for atoms 1..n onto the equivalent cell origins for
     # atom 0, so the same cell origins can be used for all atoms
     cell_origins_map = np.zeros((n_atoms_sc), dtype=np.int32)
-    # Get origins of adjacent supercells in prim cell frac coords
-    sc_origins = get_all_origins((2, 2, 2), min_xyz=(-1, -1, -1))
-    sc_origins_pcell = np.einsum('ij,jk->ik', sc_origins, sc_matrix)
+    # Matrix to get cell origins in supercell frac coords
+    inv_sc_matrix = np.linalg.inv(sc_matrix)
+    tol = 1e-2/n_cells
     for i in range(n_atoms_sc):
         co_idx = np.where(
             (cell_origins_per_atom[i] == cell_origins).all(axis=1))[0]
@@ -398,14 +398,14 @@ def convert_fc_phases(force_constants: np.ndarray, atom_r: np.ndarray,
         if len(co_idx) == 1:
             co_idx = co_idx[0]
         else:
-            # Get equivalent cell origin in surrounding supercells
-            origin_in_scs = cell_origins_per_atom[i] - sc_origins_pcell
-
-            # Find which of the 'unique' cell origins is equivalent
-            for j, cell_origin in enumerate(cell_origins):
-                if np.any((origin_in_scs == cell_origin).all(axis=1)):
-                    co_idx = j
-                    break
+            # Find which of the 'unique' cell origins is equivalent, i.e.
+            # differs by an integer number of supercells
+            diff = np.dot(cell_origins_per_atom[i] - cell_origins,
+                          inv_sc_matrix)
+            co_idx = np.where(
+                (np.abs(diff - np.rint(diff)) < tol).all(axis=1))[0]
+            if len(co_idx) == 1:
+                co_idx = co_idx[0]
             else:
                 raise ValueError(
                     "Couldn't determine cell origins for "
-- 
2.43.0


From d41f84b487e4743421ac66d9fa81cc1cfb879ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:00 +0000
Subject: [PATCH 43/67] fix: instrument broadening combined with adaptive DOS
 is a FWHM

---
 euphonic/cli/dos.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/euphonic/cli/dos.py b/euphonic/cli/dos.py
index 7933932..f357aae 100644
--- a/euphonic/cli/dos.py
+++ b/euphonic/cli/dos.py
@@ -2,7 +2,7 @@ from argparse import ArgumentParser
 from typing import List, Optional
 
 import matplotlib.style
-from numpy import sqrt
+from numpy import log, sqrt
 from numpy.polynomial import Polynomial
 
 from euphonic import ureg, ForceConstants, QpointFrequencies
@@ -74,12 +74,13 @@ def main(params: Optional[List[str]] = None) -> None:
             if args.inst_broadening and args.shape == 'gauss':
                 # Combine instrumental broadening and adaptive sample
                 # broadening: the convolution of a Gaussian with a Gaussian is
-                # a Gaussian with sigma = sqrt(sigma1^2 + sigma2^2)
-                mode_widths = sqrt(
-                    mode_widths**2
-                    + (energy_broadening_poly(modes.frequencies
-                                              .to(args.energy_unit).magnitude
-                                              ) * ureg(args.energy_unit))**2)
+                # a Gaussian with sigma = sqrt(sigma1^2 + sigma2^2). Mode
+                # widths are sigma, but instrumental broadening is FWHM
+                inst_sigma = (energy_broadening_poly(modes.frequencies
+                                                     .to(args.energy_unit)
+                                                     .magnitude)
+                              * ureg(args.energy_unit) / sqrt(8 * log(2)))
+                mode_widths = sqrt(mode_widths**2 + inst_sigma**2)
         else:
             modes = data.calculate_qpoint_phonon_modes(
                 mp_grid(grid_spec), **_calc_modes_kwargs(args))
-- 
2.43.0


From e8c6b1f941c963e646b631a62947d422cab577ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:42 +0000
Subject: [PATCH 44/67] fix: only split band path where its segments are not
 connected

---
 euphonic/cli/utils.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/euphonic/cli/utils.py b/euphonic/cli/utils.py
index 4dd3628..981dc6d 100644
--- a/euphonic/cli/utils.py
+++ b/euphonic/cli/utils.py
@@ -256,22 +256,11 @@ def _get_break_points(bandpath: dict) -> List[int]:
     break_points
         Indices at which the spectrum should be split into subplots
     """
-    # Find break points between continuous spectra: wherever there are two
-    # adjacent labels
-    labels = np.array(bandpath["explicit_kpoints_labels"])
-
-    special_point_bools = np.fromiter(
-        map(bool, labels), dtype=bool)
-
-    # [T F F T T F T] -> [F F T T F T] AND [T F F T T F] = [F F F T F F] -> 3,
-    adjacent_non_empty_labels = np.logical_and(special_point_bools[:-1],
-                                               special_point_bools[1:])
-
-    adjacent_different_labels = (labels[:-1] != labels[1:])
-
-    break_points = np.where(np.logical_and(adjacent_non_empty_labels,
-                                           adjacent_different_labels))[0]
-    return (break_points + 1).tolist()
+    # Find break points between continuous spectra: wherever a segment
+    # doesn't share its first point with the segment before it
+    segments = bandpath["explicit_segments"]
+    return [int(start) for (_, stop), (start, _)
+            in zip(segments[:-1], segments[1:]) if start == stop]
 
 
 def _insert_gamma(bandpath: dict) -> None:
@@ -291,12 +280,14 @@ def _insert_gamma(bandpath: dict) -> None:
 
     bandpath['explicit_kpoints_rel'] = np.array(rel_kpts)
     bandpath['explicit_kpoints_labels'] = labels
+    bandpath['explicit_segments'] = [
+        tuple(i + np.count_nonzero(gamma_indices < i) for i in segment)
+        for segment in bandpath['explicit_segments']]
 
     # These unused properties have been invalidated: safer
     # to leave None than incorrect values
     bandpath['explicit_kpoints_abs'] = None
     bandpath['explicit_kpoints_linearcoord'] = None
-    bandpath['explicit_segments'] = None
 
 
 XTickLabels = List[Tuple[int, str]]
-- 
2.43.0


From 7c85cec054619a2fee293cbbc7ccb66c678aed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:09 +0000
Subject: [PATCH 45/67] fix: intensity-map uses every energy-broadening
 polynomial coefficient

---
 euphonic/cli/intensity_map.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/euphonic/cli/intensity_map.py b/euphonic/cli/intensity_map.py
index 3256489..46a49d5 100755
--- a/euphonic/cli/intensity_map.py
+++ b/euphonic/cli/intensity_map.py
@@ -9,6 +9,7 @@ from euphonic import ureg, Spectrum2D, QpointFrequencies, ForceConstants
 import euphonic.plot
 from euphonic.util import get_qpoint_labels
 from euphonic.styles import base_style
+from .powder_map import _get_broaden_kwargs
 from .utils import (_bands_from_force_constants, _calc_modes_kwargs,
                     _compose_style, _plot_label_kwargs,
                     get_args, _get_debye_waller,
@@ -72,11 +73,11 @@ def main(params: Optional[List[str]] = None) -> None:
 
     if args.q_broadening or args.energy_broadening:
         spectrum = spectrum.broaden(
-            x_width=(args.q_broadening * recip_length_unit
-                     if args.q_broadening else None),
-            y_width=(args.energy_broadening[0] * ebins.units
-                     if args.energy_broadening else None),
-            shape=args.shape, method='convolve')
+            shape=args.shape, method='convolve',
+            **_get_broaden_kwargs(q_broadening=args.q_broadening,
+                                  q_unit=recip_length_unit,
+                                  energy_broadening=args.energy_broadening,
+                                  energy_unit=args.energy_unit))
 
     print("Plotting figure")
     plot_label_kwargs = _plot_label_kwargs(
-- 
2.43.0


From 3f555280708d6d4a43bef63c193ab4d4b6231f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:51 +0000
Subject: [PATCH 46/67] fix: plot_1d limits include the data of every subplot

---
 euphonic/plot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/euphonic/plot.py b/euphonic/plot.py
index 77b1eab..18d2a85 100644
--- a/euphonic/plot.py
+++ b/euphonic/plot.py
@@ -182,6 +182,10 @@ def plot_1d(spectra: Union[Spectrum1D,
             leg_handles, leg_labels = ax.get_legend_handles_labels()
             if len(leg_labels) > 0:
                 ax.legend()
+
+    # The y-axis is shared: only set limits after everything is plotted,
+    # as this turns off autoscaling
+    for ax in subplots.flatten():
         ax.set_ylim(bottom=ymin, top=ymax)
 
     # Add an invisible large axis for common labels
-- 
2.43.0


From 1dfeb27d85ca5010674cecc7885be72a63655bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:18 +0000
Subject: [PATCH 47/67] fix: --pdos works for crystals of one species

---
 euphonic/cli/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/cli/utils.py b/euphonic/cli/utils.py
index 981dc6d..6b6af0c 100644
--- a/euphonic/cli/utils.py
+++ b/euphonic/cli/utils.py
@@ -391,7 +391,8 @@ def _arrange_pdos_groups(pdos: Spectrum1DCollection,
         # Only label total DOS if there are other lines on the plot
         dos.metadata['label'] = 'Total'
         pdos = pdos.group_by('species')
-        for line_metadata in pdos.metadata['line_data']:
+        # A single species has no per-line metadata
+        for line_metadata in pdos.metadata.get('line_data', [pdos.metadata]):
             line_metadata['label'] = line_metadata['species']
         if len(cl_arg_pdos) > 0:
             pdos = pdos.select(species=cl_arg_pdos)
-- 
2.43.0


From 78b29ad41655b89d56be01d951b39931bca0f06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:03 +0000
Subject: [PATCH 48/67] fix: combine adaptive and instrument broadening in any
 energy unit

---
 euphonic/cli/dos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/cli/dos.py b/euphonic/cli/dos.py
index f357aae..10a7f15 100644
--- a/euphonic/cli/dos.py
+++ b/euphonic/cli/dos.py
@@ -80,7 +80,8 @@ def main(params: Optional[List[str]] = None) -> None:
                                                      .to(args.energy_unit)
                                                      .magnitude)
                               * ureg(args.energy_unit) / sqrt(8 * log(2)))
-                mode_widths = sqrt(mode_widths**2 + inst_sigma**2)
+                mode_widths = sqrt(mode_widths.to(args.energy_unit)**2
+                                   + inst_sigma**2)
         else:
             modes = data.calculate_qpoint_phonon_modes(
                 mp_grid(grid_spec), **_calc_modes_kwargs(args))
-- 
2.43.0


From db0762af87b08b2d60ba60160d9354ef889e2b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:29 +0000
Subject: [PATCH 49/67] fix: do not modify caller's interpolation_kwargs in
 BrilleInterpolator

---
 euphonic/brille.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/euphonic/brille.py b/euphonic/brille.py
index 4b33a62..3371c53 100644
--- a/euphonic/brille.py
+++ b/euphonic/brille.py
@@ -238,10 +238,9 @@ class BrilleInterpolator:
 
         print(f'Grid generated with {len(grid.rlu)} q-points. '
                'Calculating frequencies/eigenvectors...')
-        if interpolation_kwargs is None:
-            interpolation_kwargs = {}
-        interpolation_kwargs['insert_gamma'] = False
-        interpolation_kwargs['reduce_qpts'] = False
+        interpolation_kwargs = {**(interpolation_kwargs or {}),
+                                'insert_gamma': False,
+                                'reduce_qpts': False}
         phonons = force_constants.calculate_qpoint_phonon_modes(
             grid.rlu, **interpolation_kwargs)
 
-- 
2.43.0


From 0baae41e07b83388bd9d448e771655a1aad1ad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:30 +0000
Subject: [PATCH 50/67] fix: do not read forever from a CASTEP file without
 unit cell

---
 euphonic/readers/castep.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/euphonic/readers/castep.py b/euphonic/readers/castep.py
index 2e150c5..46268ca 100644
--- a/euphonic/readers/castep.py
+++ b/euphonic/readers/castep.py
@@ -300,8 +300,10 @@ def _read_crystal_info(
         Shape (n_atoms,) float ndarray. The mass of each atom in the
         unit cell in atomic mass units
     """
-    while 'Unit cell vectors' not in f.readline():
-        pass
+    while 'Unit cell vectors' not in (line := f.readline()):
+        if not line:
+            raise RuntimeError(
+                f'Unit cell vectors could not be found in {f.name}')
     cell_vectors = np.array([[float(x) for x in f.readline().split()[0:3]]
                              for i in range(3)])
     f.readline()  # Skip fractional co-ordinates label
-- 
2.43.0


From c1c641842287430b44602661773cacbc71c07df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:10 +0000
Subject: [PATCH 51/67] fix: refuse CASTEP phonon files with missing q-points

---
 euphonic/readers/castep.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/euphonic/readers/castep.py b/euphonic/readers/castep.py
index 46268ca..da21ad9 100644
--- a/euphonic/readers/castep.py
+++ b/euphonic/readers/castep.py
@@ -229,6 +229,10 @@ def read_phonon_data(
                     eigenvecs = np.concatenate((eigenvecs, [qeigenvec]))
             idx += 1
 
+    if idx < n_qpts:
+        raise RuntimeError(
+            f'Expected {n_qpts} q-points in {filename}, got {idx}')
+
     # Multiple qpts with same CASTEP q-pt index: correct weights
     for qpt_id, indices in repeated_qpt_ids.items():
         if (prefer_non_loto
-- 
2.43.0


From 60e09a6d187ee9cd7f1ddaa70d394e4b5a5637ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:51 +0000
Subject: [PATCH 52/67] fix: refuse CASTEP phonon_dos files with missing bins

---
 euphonic/readers/castep.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/euphonic/readers/castep.py b/euphonic/readers/castep.py
index da21ad9..d6cecd4 100644
--- a/euphonic/readers/castep.py
+++ b/euphonic/readers/castep.py
@@ -72,6 +72,9 @@ def read_phonon_dos_data(
                 f'Expected "BEGIN DOS" in {filename}, got {line}')
 
         dos_data = np.loadtxt(f, max_rows=n_bins)
+        if len(dos_data) != n_bins:
+            raise RuntimeError(f'Expected {n_bins} DOS bins in {filename}, '
+                               f'got {len(dos_data)}')
 
     data_dict: Dict[str, Any] = {}
     cry_dict = data_dict['crystal'] = {}
-- 
2.43.0


From ed051f30d4665d6367dd17d5562bb1cbc2fe37bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:54 +0000
Subject: [PATCH 53/67] fix: refuse unknown asr values

---
 euphonic/force_constants.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index b78bc8d..cae7eec 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -486,6 +486,9 @@ class ForceConstants:
         # Gamma points are not recognised in low precision, and the C
         # extension reads q-points as doubles
         qpts = qpts.astype(np.float64, casting='same_kind', copy=False)
+        if asr not in (None, 'realspace', 'reciprocal'):
+            raise ValueError(f'Unrecognised asr {asr!r}, should be one of '
+                             f'"realspace", "reciprocal" or None')
 
         # Set default splitting params
         if self.born is None:
-- 
2.43.0


From 937fc78b17a79efa4eb08d587ddcd4b72adda8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:32 +0000
Subject: [PATCH 54/67] fix: do not truncate integer weights of split gamma
 points

---
 euphonic/force_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index cae7eec..eae968d 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -508,7 +508,7 @@ class ForceConstants:
             # Where 1 q-point splits into 2, half the weight for each
             if weights is not None:
                 # Don't change original array
-                weights = np.copy(weights)
+                weights = weights.astype(np.float64)
                 weights[split_gamma] = weights[split_gamma]/2
                 weights = np.insert(weights, split_gamma,
                                     weights[split_gamma])
-- 
2.43.0


From 13b066fd8e45a0a0910321127f94c9f8fc25174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:13 +0000
Subject: [PATCH 55/67] fix: refuse Phonopy yaml files with missing q-points

---
 euphonic/readers/phonopy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index 0d2a694..099230f 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -82,6 +82,9 @@ def _extract_phonon_data_yaml(filename: str,
 
     data_dict = {}
     phonons = [phon for phon in phonon_data['phonon']]
+    if len(phonons) != phonon_data.get('nqpoint', len(phonons)):
+        raise ValueError(f'Expected {phonon_data["nqpoint"]} q-points in '
+                         f'{filename}, got {len(phonons)}')
     bands_data_each_qpt = [bands_data['band'] for bands_data in phonons]
 
     data_dict['qpts'] = np.array([phon['q-position'] for phon in phonons])
-- 
2.43.0


From 38958c2c83af5a3fc79a39dae245b2cd6b324de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:59 +0000
Subject: [PATCH 56/67] fix: refuse FORCE_CONSTANTS files with unreadable
 values

---
 euphonic/readers/phonopy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index 099230f..a7e662e 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -378,6 +378,8 @@ def _extract_force_constants(fc_pathname: str, n_atoms: int, n_cells: int,
         fc = np.genfromtxt(fc_pathname, skip_header=1,
                            max_rows=4*(n_atoms*n_cells)**2, usecols=(0,1,2),
                            invalid_raise=False)
+    if np.any(np.isnan(fc)):
+        raise ValueError(f'Force constants in {fc_pathname} could not be read')
     return fc.reshape(fc_dims + [3, 3])
 
 
-- 
2.43.0


From 3ed8c41d64734ce3722333ff457410e49d5eab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:51 +0000
Subject: [PATCH 57/67] fix: refuse Phonopy yaml files with some q-point
 weights missing

---
 euphonic/readers/phonopy.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index a7e662e..35d53b6 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -102,10 +102,8 @@ def _extract_phonon_data_yaml(filename: str,
             pass
 
     # Weights only present in mesh
-    try:
+    if any('weight' in phon for phon in phonons):
         data_dict['weights'] = np.array([phon['weight'] for phon in phonons])
-    except KeyError:
-        pass
 
     # Crystal information only appears to be present in mesh/band
     try:
-- 
2.43.0


From 20284752f172f672050ac304269971daa3aded8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:54 +0000
Subject: [PATCH 58/67] fix: check force constants shape in
 from_total_fc_with_dipole

---
 euphonic/force_constants.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index eae968d..5ab937b 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1830,6 +1830,8 @@ class ForceConstants:
             np.reshape(corr[:, idx], (n_cells, 3*n_atoms, 3*n_atoms)),
             axes=[0, 2, 1])
         fc = force_constants.to('hartree/bohr**2').magnitude
+        _check_constructor_inputs(
+            [fc], [np.ndarray], [corr.shape], ['force_constants'])
         fc_corrected = np.real(fc - corr)*ureg('hartree/bohr**2').to(
             force_constants.units)
         return cls(crystal, fc_corrected, sc_matrix, cell_origins,
-- 
2.43.0


From 460e5af4b56ae5ca30099a729f8b1f7ff29d805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:30 +0000
Subject: [PATCH 59/67] fix: refuse dipole_parameter that is not positive

---
 euphonic/force_constants.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 5ab937b..b47fc8b 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1029,6 +1029,9 @@ class ForceConstants:
                 The dipole correction to the dynamical matrix at
                 q=0
         """
+        if not dipole_parameter > 0:
+            raise ValueError('dipole_parameter should be greater than zero, '
+                             f'got {dipole_parameter}')
         cell_vectors = crystal._cell_vectors
         recip = crystal.reciprocal_cell().to('1/bohr').magnitude
         n_atoms = crystal.n_atoms
-- 
2.43.0


From ef3af77de3c9d02d8c8888f7b5041efa944ec6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:23 +0000
Subject: [PATCH 60/67] fix: refuse unreadable q-points in CASTEP phonon files

---
 euphonic/readers/castep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/euphonic/readers/castep.py b/euphonic/readers/castep.py
index d6cecd4..83eb9a6 100644
--- a/euphonic/readers/castep.py
+++ b/euphonic/readers/castep.py
@@ -389,6 +389,8 @@ def _read_frequency_block(
 
     i_qpt = int(re.findall(_qpt_index_pattern, qpt_line)[0])
     floats = re.findall(_qpt_float_pattern, qpt_line)
+    if len(floats) not in (4, 7):
+        raise RuntimeError(f'Could not read q-point from {f.name}: {qpt_line}')
     qpt = np.array([float(x) for x in floats[:3]])
     qweight = float(floats[3])
 
-- 
2.43.0


From 171b2428af921fecfd0fc1c25534a2f15247447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:17 +0000
Subject: [PATCH 61/67] fix: fix: keep integer entries of reference data

---
 euphonic/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index c8ea4db..164426e 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -258,7 +258,8 @@ def get_reference_data(collection: str = 'Sears1992',
 
     return {key: value * unit
             for key, value in data.items()
-            if isinstance(value, (float, complex))}
+            if (isinstance(value, (int, float, complex))
+                and not isinstance(value, bool))}
 
 
 def mode_gradients_to_widths(mode_gradients: Quantity, cell_vectors: Quantity
-- 
2.43.0


From 86a7844ef925fea345e6a5dde40ca80bb6b37ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:13 +0000
Subject: [PATCH 62/67] fix: raise when the C extension fails to diagonalise

---
 c/_euphonic.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/c/_euphonic.c b/c/_euphonic.c
index 678b854..c83aa8a 100644
--- a/c/_euphonic.c
+++ b/c/_euphonic.c
@@ -200,6 +200,8 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
 
 
 
+    int diag_failed = 0;
+
     omp_set_num_threads(n_threads);
     #pragma omp parallel
     {
@@ -268,7 +270,11 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
             }
 
             mass_weight_dyn_mat(dmat_weighting, n_atoms, 2, dmat);
-            diagonalise_dyn_mat_zheevd(n_atoms, qpt, dmat, eval, zheevd);
+            if (diagonalise_dyn_mat_zheevd(n_atoms, qpt, dmat, eval, zheevd)) {
+                #pragma omp atomic write
+                diag_failed = 1;
+                continue;
+            }
             evals_to_freqs(n_atoms, eval);
 
             if (calc_dmat_grad) {
@@ -301,6 +307,12 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
         Py_DECREF(py_dipole_init_data);
     }
 
+    if (diag_failed) {
+        PyErr_Format(PyExc_RuntimeError,
+                     "Diagonalisation of the dynamical matrix failed\n");
+        return NULL;
+    }
+
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 7d73780e656974e79c0b620af6e26746704ca1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:00 +0000
Subject: [PATCH 63/67] fix: report failed memory allocations in the C
 extension

---
 c/_euphonic.c | 40 ++++++++++++++++++++++++++++++++--------
 c/dyn_mat.c   | 21 ++++++++++++++++++---
 c/dyn_mat.h   |  4 ++--
 c/util.h      |  3 +++
 4 files changed, 55 insertions(+), 13 deletions(-)

diff --git a/c/_euphonic.c b/c/_euphonic.c
index c83aa8a..03c0184 100644
--- a/c/_euphonic.c
+++ b/c/_euphonic.c
@@ -201,6 +201,7 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
 
 
     int diag_failed = 0;
+    int no_memory = 0;
 
     omp_set_num_threads(n_threads);
     #pragma omp parallel
@@ -223,10 +224,17 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
         } else {
             dmat_grad = NULL;
         }
+        const bool alloc_failed = (dipole && !corr)
+            || (dmats_len == 0 && !dmat_per_q) || (calc_dmat_grad && !dmat_grad);
         #pragma omp for
         for (q = 0; q < n_rqpts; q++) {
             double *qpt, *dmat, *eval, *modeg;
-            int i, qpos;
+            int i, qpos, info;
+            if (alloc_failed) {
+                #pragma omp atomic write
+                no_memory = 1;
+                continue;
+            }
             qpt = (rqpts + 3*q);
             eval = (evals + q*3*n_atoms);
 
@@ -243,10 +251,14 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
                 dmat, dmat_grad);
 
             if (dipole) {
-                calculate_dipole_correction(qpt, n_atoms, cell_vec, recip_vec,
-                    atom_r, born, dielectric, H_ab, dipole_cells,
-                    n_dipole_cells, gvec_phases, gvecs_cart, n_gvecs,
-                    dipole_q0, lambda, corr);
+                if (calculate_dipole_correction(qpt, n_atoms, cell_vec,
+                        recip_vec, atom_r, born, dielectric, H_ab,
+                        dipole_cells, n_dipole_cells, gvec_phases, gvecs_cart,
+                        n_gvecs, dipole_q0, lambda, corr)) {
+                    #pragma omp atomic write
+                    no_memory = 1;
+                    continue;
+                }
                 add_arrays(dmat_elems, corr, dmat);
             }
 
@@ -264,13 +276,22 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
                         break;
                     }
                 }
-                calculate_gamma_correction((q_dirs + 3*qpos), n_atoms,
-                    cell_vec, recip_vec, born, dielectric, corr);
+                if (calculate_gamma_correction((q_dirs + 3*qpos), n_atoms,
+                        cell_vec, recip_vec, born, dielectric, corr)) {
+                    #pragma omp atomic write
+                    no_memory = 1;
+                    continue;
+                }
                 add_arrays(dmat_elems, corr, dmat);
             }
 
             mass_weight_dyn_mat(dmat_weighting, n_atoms, 2, dmat);
-            if (diagonalise_dyn_mat_zheevd(n_atoms, qpt, dmat, eval, zheevd)) {
+            info = diagonalise_dyn_mat_zheevd(n_atoms, qpt, dmat, eval, zheevd);
+            if (info == DIAG_NO_MEMORY) {
+                #pragma omp atomic write
+                no_memory = 1;
+                continue;
+            } else if (info) {
                 #pragma omp atomic write
                 diag_failed = 1;
                 continue;
@@ -307,6 +328,9 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
         Py_DECREF(py_dipole_init_data);
     }
 
+    if (no_memory) {
+        return PyErr_NoMemory();
+    }
     if (diag_failed) {
         PyErr_Format(PyExc_RuntimeError,
                      "Diagonalisation of the dynamical matrix failed\n");
diff --git a/c/dyn_mat.c b/c/dyn_mat.c
index fc85cd5..8304dc6 100644
--- a/c/dyn_mat.c
+++ b/c/dyn_mat.c
@@ -105,7 +105,7 @@ void calculate_dyn_mat_at_q(const double *qpt, const int n_atoms,
     }
 }
 
-void calculate_dipole_correction(const double *qpt, const int n_atoms,
+int calculate_dipole_correction(const double *qpt, const int n_atoms,
     const double *cell_vec, const double *recip, const double *atom_r,
     const double *born, const double *dielectric, const double *H_ab,
     const double *cells, const int n_dcells, const double *gvec_phases,
@@ -177,6 +177,9 @@ void calculate_dipole_correction(const double *qpt, const int n_atoms,
     // Calculate q-point phases
     double *q_phases;
     q_phases = (double*)malloc(2*n_atoms*sizeof(double));
+    if (!q_phases) {
+        return 1;
+    }
     for (i = 0; i < n_atoms; i++) {
         qdotr = 0;
         for (a = 0; a < 3; a++) {
@@ -270,9 +273,10 @@ void calculate_dipole_correction(const double *qpt, const int n_atoms,
         }
     }
 
+    return 0;
 }
 
-void calculate_gamma_correction(const double q_dir[3], const int n_atoms,
+int calculate_gamma_correction(const double q_dir[3], const int n_atoms,
     const double *cell_vec, const double *recip_vec, const double *born,
     const double *dielectric, double *corr) {
 
@@ -283,7 +287,7 @@ void calculate_gamma_correction(const double q_dir[3], const int n_atoms,
 
     if (is_gamma(q_dir)) {
         memset(corr, 0, 2*9*n_atoms*n_atoms*sizeof(double));
-        return;
+        return 0;
     }
 
     for (a = 0; a < 3; a++) {
@@ -302,6 +306,9 @@ void calculate_gamma_correction(const double q_dir[3], const int n_atoms,
     fac = (4*PI)/(cell_volume(cell_vec)*denominator);
 
     q_born_sum = (double*)calloc(3*n_atoms, sizeof(double));
+    if (!q_born_sum) {
+        return 1;
+    }
     memset(q_born_sum, 0, 3*n_atoms*sizeof(double));
     for (i = 0; i < n_atoms; i++) {
         for (a = 0; a < 3; a++) {
@@ -322,6 +329,8 @@ void calculate_gamma_correction(const double q_dir[3], const int n_atoms,
         }
     }
     free((void*)q_born_sum);
+
+    return 0;
 }
 
 void mass_weight_dyn_mat(const double* dyn_mat_weighting, const int n_atoms,
@@ -370,6 +379,12 @@ int diagonalise_dyn_mat_zheevd(const int n_atoms, const double qpt[3],
     work = (double*)malloc(2*lwork*sizeof(double));
     rwork = (double*)malloc(lrwork*sizeof(double));
     iwork = (int*)malloc(liwork*sizeof(int));
+    if (!work || !rwork || !iwork) {
+        free((void*)work);
+        free((void*)rwork);
+        free((void*)iwork);
+        return DIAG_NO_MEMORY;
+    }
 
     (*zheevdptr)(&jobz, &uplo, &order, dyn_mat, &lda, eigenvalues, work, &lwork,
         rwork, &lrwork, iwork, &liwork, &info);
diff --git a/c/dyn_mat.h b/c/dyn_mat.h
index 6ee9e21..947389e 100644
--- a/c/dyn_mat.h
+++ b/c/dyn_mat.h
@@ -7,14 +7,14 @@ void calculate_dyn_mat_at_q(const double *qpt, const int n_atoms,
     const double *fc_mat, const double *all_origins_cart,
     const bool calc_dmat_grad, double *dyn_mat, double *dmat_grad);
 
-void calculate_dipole_correction(const double *qpt, const int n_atoms,
+int calculate_dipole_correction(const double *qpt, const int n_atoms,
     const double *cell_vec, const double *recip, const double *atom_r,
     const double *born, const double *dielectric, const double *H_ab,
     const double *cells, const int n_dcells, const double *gvec_phases,
     const double *gvecs_cart, const int n_gvecs, const double *dipole_q0,
     const double lambda, double *corr);
 
-void calculate_gamma_correction(const double q_dir[3], const int n_atoms,
+int calculate_gamma_correction(const double q_dir[3], const int n_atoms,
     const double *cell_vec, const double *recip_vec, const double *born,
     const double *dielectric, double *corr);
 
diff --git a/c/util.h b/c/util.h
index 24e5d6c..20b9ebc 100644
--- a/c/util.h
+++ b/c/util.h
@@ -1,6 +1,9 @@
 #ifndef __util_H__
 #define __util_H__
 
+// Returned by diagonalise_dyn_mat_zheevd if workspace can't be allocated
+#define DIAG_NO_MEMORY -1010
+
 void add_arrays(const int size, const double *arr1, double *arr2);
 void multiply_array(const int size, const double scalar, double *arr);
 void copy_array(const int size, const double *arr, double *copy);
-- 
2.43.0


From d77bdeb5d22a8bafdd98f65cd13c3a93dfd5e433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:11 +0000
Subject: [PATCH 64/67] fix: don't turn every failure in the acoustic sum rule
 into a warning

---
 euphonic/force_constants.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index b47fc8b..0155b0d 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -29,6 +29,10 @@ class ImportCError(Exception):
     pass
 
 
+class AcousticModesError(Exception):
+    pass
+
+
 class ForceConstants:
     """
     A class to read and store the data required for a phonon
@@ -1426,7 +1430,7 @@ class ForceConstants:
 
         try:
             ac_i, evals, evecs = self._find_acoustic_modes(sq_fc)
-        except Exception:
+        except AcousticModesError:
             warnings.warn((
                 '\nError correcting for acoustic sum rule, could not '
                 'find 3 acoustic modes.\nReturning uncorrected FC '
@@ -1474,7 +1478,7 @@ class ForceConstants:
         try:
             ac_i, g_evals, g_evecs = self._find_acoustic_modes(
                 dyn_mat_gamma)
-        except Exception:
+        except AcousticModesError:
             warnings.warn(('\nError correcting for acoustic sum rule, '
                            'could not find 3 acoustic modes.\nNot '
                            'correcting dynamical matrix'), stacklevel=3)
@@ -1526,7 +1530,7 @@ class ForceConstants:
         sc_mass = 1.0*n_atoms
         # Check number of acoustic modes
         if np.sum(c_of_m_disp_sq > sensitivity*sc_mass) < 3:
-            raise Exception('Could not find 3 acoustic modes')
+            raise AcousticModesError('Could not find 3 acoustic modes')
         # Find idx of acoustic modes (3 largest c of m displacements)
         ac_i = np.argsort(c_of_m_disp_sq)[-3:]
 
-- 
2.43.0


From 6ffa58ed69bf6a87321c6e74768b3a831ce37219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:35 +0000
Subject: [PATCH 65/67] fix: plot_2d draws all subplots in the units of the
 first spectrum

---
 euphonic/plot.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/euphonic/plot.py b/euphonic/plot.py
index 18d2a85..7648d42 100644
--- a/euphonic/plot.py
+++ b/euphonic/plot.py
@@ -288,6 +288,17 @@ def plot_2d(spectra: Union[Spectrum2D, Sequence[Spectrum2D]],
     if isinstance(spectra, Spectrum2D):
         spectra = [spectra]
 
+    # The subplots share a colour scale and a y-axis, so use the same units
+    def _to_common_units(spectrum: Spectrum2D) -> Spectrum2D:
+        for attr in 'x_data_unit', 'y_data_unit', 'z_data_unit':
+            unit = getattr(spectra[0], attr)
+            if getattr(spectrum, attr) != unit:
+                spectrum = spectrum.copy()
+                setattr(spectrum, attr, unit)
+        return spectrum
+    spectra = [spectra[0]] + [_to_common_units(spectrum)
+                              for spectrum in spectra[1:]]
+
     x_unit = spectra[0].x_data.units
 
     def _get_q_range(data: Quantity) -> float:
-- 
2.43.0


From 7892385b475751c0eaa2c8458aef4a77ba1a61ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:35 +0000
Subject: [PATCH 66/67] fix: refuse a sequence of bool as collection index

---
 euphonic/spectra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 59ba1f0..2877725 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -845,7 +845,8 @@ class SpectrumCollectionMixin(ABC):
                 raise IndexError(f'index "{item.stop}" out of range')
             return
 
-        if not all(isinstance(i, Integral) for i in item):
+        if not all(isinstance(i, Integral) and not isinstance(i, bool)
+                   for i in item):
             raise TypeError(
                 f'Index "{item}" should be an integer, slice '
                 f'or sequence of ints')
-- 
2.43.0


From ada65bb11b6afbc27beab2ec17dfdc310530ab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:09 +0000
Subject: [PATCH 67/67] fix: brille-convergence uses every energy-broadening
 polynomial coefficient

---
 euphonic/cli/brille_convergence.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/euphonic/cli/brille_convergence.py b/euphonic/cli/brille_convergence.py
index 23887e1..8b05482 100644
--- a/euphonic/cli/brille_convergence.py
+++ b/euphonic/cli/brille_convergence.py
@@ -15,6 +15,7 @@ from euphonic.cli.utils import (_get_cli_parser, get_args,
                                 _brille_calc_modes_kwargs,
                                 load_data_from_file,
                                 _get_energy_bins)
+from euphonic.cli.powder_map import _get_broaden_kwargs
 from euphonic.sampling import recurrence_sequence
 
 
@@ -32,7 +33,7 @@ def check_brille_settings(
         brille_npts: int = 5000,
         brille_npts_density: Optional[int] = None,
         n: int = 0,
-        energy_broadening: Optional[float] = None,
+        energy_broadening: Optional[Sequence[float]] = None,
         ebins: int = 500,
         e_min: Optional[float] = None,
         e_max: Optional[float] = None,
@@ -57,8 +58,11 @@ def check_brille_settings(
     sf = modes.calculate_structure_factor()
     ebins = _get_energy_bins(modes, ebins + 1, emin=e_min, emax=e_max)
     sqw_avg = sf.calculate_1d_average(ebins)
-    if energy_broadening is not None:
-        sqw_avg = sqw_avg.broaden(energy_broadening*ebins.units, shape=shape)
+    energy_width = _get_broaden_kwargs(
+        energy_broadening=energy_broadening,
+        energy_unit=energy_unit)['y_width']
+    if energy_width is not None:
+        sqw_avg = sqw_avg.broaden(energy_width, shape=shape)
 
     # Set up axis labels
     frequency_label = f'Frequency / {modes.frequencies.units:~P}'
@@ -88,9 +92,8 @@ def check_brille_settings(
     sqw1d_n = []
     if n > 0:
         sqw = sf.calculate_sqw_map(ebins)
-        if energy_broadening is not None:
-            sqw = sqw.broaden(y_width=energy_broadening*ebins.units,
-                              shape=shape)
+        if energy_width is not None:
+            sqw = sqw.broaden(y_width=energy_width, shape=shape)
         for idx in range(n):
             # Use idx + 1 to avoid Q=[0., 0., 0.] at idx=0
             sqw1d = Spectrum1D(sqw.y_data, sqw.z_data[idx + 1])
@@ -120,9 +123,8 @@ def check_brille_settings(
         brille_modes.frequencies_unit = energy_unit
         brille_sf = brille_modes.calculate_structure_factor()
         brille_sqw_avg = brille_sf.calculate_1d_average(ebins)
-        if energy_broadening is not None:
-            brille_sqw_avg = brille_sqw_avg.broaden(
-                energy_broadening*ebins.units, shape=shape)
+        if energy_width is not None:
+            brille_sqw_avg = brille_sqw_avg.broaden(energy_width, shape=shape)
 
         # Create plot labels
         actual_brille_npts = len(brille_fc._grid.rlu)
@@ -150,9 +152,9 @@ def check_brille_settings(
         # Plot q-point specific intensity & residuals
         if n > 0:
             brille_sqw = brille_sf.calculate_sqw_map(ebins)
-            if energy_broadening is not None:
+            if energy_width is not None:
                 brille_sqw = brille_sqw.broaden(
-                    y_width=energy_broadening*ebins.units, shape=shape)
+                    y_width=energy_width, shape=shape)
             for idx, ax_sqw in enumerate(ax_sqwn):
                 brille_sqw1d = Spectrum1D(brille_sqw.y_data,
                                           brille_sqw.z_data[idx + 1])
-- 
2.43.0


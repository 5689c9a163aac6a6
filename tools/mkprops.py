"""Regenerates properties.jsonl (single place where the statements are edited)."""
import json, os
P = []
FC, QM, QF, SF, SP = ('euphonic/force_constants.py', 'euphonic/qpoint_phonon_modes.py',
                      'euphonic/qpoint_frequencies.py', 'euphonic/structure_factor.py', 'euphonic/spectra.py')
C1, C2, C3 = 'c/_euphonic.c', 'c/dyn_mat.c', 'c/util.c'


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    nsent = len([x for x in ' '.join(statement.split()).rstrip('.').split('. ') if x])
    assert nsent <= 3, (id, nsent)
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': list(over), 'text': ' '.join(qtext.split())},
              'why_tests_cant': ' '.join(why.split()),
              'anchors': {'files': list(files),
                          'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                          'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'Interpolated phonons are eigenpairs of the interpolated dynamical matrix',
     """For any force constants (no Born charges) and any q-point, the returned frequencies and
     eigenvectors are a complete set of orthonormal eigenpairs of the mass-weighted dynamical matrix
     obtained by Fourier-interpolating the force constants, each atom pair interacting through its
     minimum-image supercell copies with equal share among equidistant images. Frequencies are the
     square roots of the eigenvalues, negative where the eigenvalue is negative, in ascending order;
     eigenvectors carry the phase convention in which q couples to unit-cell origins.""", ['inputs', 'configurations'],
     """every lattice, basis, masses, supercell matrix (whose Wigner-Seitz cell is bounded by the nearest supercell
     translations), list of cell origins in any order, symmetric force-constant matrix and q-point, with
     either execution path""",
     """the calculation tests compare with stored numbers for a handful of materials (and do not collect in this
     environment at all), so a wrong phase, image weight or index for some other supercell shape is invisible""",
     [FC, C1, C2],
     [('Fourier sum with supercell images', f'{FC}:_calculate_dyn_mat, _calculate_phases, _calculate_supercell_images'),
      ('C dynamical matrix', f'{C2}:calculate_dyn_mat_at_q, diagonalise_dyn_mat_zheevd'),
      ('mode assembly', f'{FC}:_calculate_phonons_at_qpts, _calculate_phonons_at_q')],
     ['ForceConstants.calculate_qpoint_phonon_modes', 'ForceConstants.calculate_qpoint_frequencies'])

prop('C02', 'Long-range dipole term equals the converged Ewald sum, LO-TO splitting included',
     """For polar crystals (charge-neutral Born charges, positive-definite dielectric tensor) the dynamical matrix
     is the short-range Fourier part plus the dipole-dipole interaction that an independently converged Ewald
     summation gives, and the result does not depend on the dipole_parameter used to balance the sums. With
     splitting enabled, each gamma point carries the non-analytic term for the direction given by its neighbouring
     q-points; with insert_gamma every gamma point other than the first and last of the list is doubled, the two
     copies share its weight, and the order of all other q-points and the total weight are preserved.""",
     ['inputs', 'configurations'],
     """every polar crystal of two or more atoms, including anisotropic and off-diagonal dielectric tensors, any dipole_parameter and any
     q-point path through gamma""",
     """tests hold reference numbers for three materials with diagonal dielectric tensors""",
     [FC, C1, C2, C3],
     [('Ewald initialisation and sum', f'{FC}:_dipole_correction_init, _calculate_dipole_correction; {C2}'),
      ('gamma correction', f'{FC}:_get_q_dirs, _calculate_gamma_correction; {C2}:calculate_gamma_correction'),
      ('gamma insertion and weights', f'{FC}:_calculate_phonons_at_qpts')],
     ['ForceConstants.calculate_qpoint_phonon_modes'])

prop('C03', 'Acoustic sum rules make three modes exactly acoustic and nothing else worse',
     """With asr='reciprocal', or asr='realspace' for a non-polar crystal, the three acoustic frequencies at gamma
     (without LO-TO splitting) vanish to numerical precision when force constants break translational invariance weakly; the
     correction shifts exactly the three translation-like eigenvalues, leaves the others alone and keeps the dynamical matrix Hermitian.
     If the force constants already satisfy translational invariance, enabling either sum
     rule leaves all frequencies unchanged, and with asr=None nothing is changed.""",
     ['inputs', 'configurations'],
     'every force-constant matrix that breaks translational invariance weakly, and every one that obeys it exactly',
     'tests compare stored frequencies for two materials', [FC],
     [('realspace ASR', f'{FC}:_enforce_realspace_asr'), ('reciprocal ASR', f'{FC}:_enforce_reciprocal_asr, _find_acoustic_modes')],
     ['ForceConstants.calculate_qpoint_phonon_modes'])

prop('C04', 'C extension and pure Python give the same physics for every option',
     """For every ForceConstants and every combination of calculation options, use_c=True (any number of threads)
     and use_c=False give the same frequencies, weights, q-points, mode gradients, and the same eigenvectors up to a
     unitary mixing within degenerate modes. The number of threads, whether given as an argument, by
     EUPHONIC_NUM_THREADS or by default, affects only speed.""",
     ['inputs', 'configurations'],
     'all materials, options (asr, splitting, insert_gamma, reduce_qpts, gradients, dipole) and thread counts 1..16',
     'the tests cover some materials and options with one or two thread counts', [FC, C1, C2, C3],
     [('dispatch', f'{FC}:_calculate_phonons_at_qpts'), ('C entry point', f'{C1}:calculate_phonons')],
     ['ForceConstants.calculate_qpoint_phonon_modes', 'ForceConstants.calculate_qpoint_frequencies'])

prop('C05', 'The C extension is memory safe and free of undefined behaviour',
     """No phonon calculation call, valid or rejected, that reaches the C extension through the public API reads or writes outside
     the arrays and heap blocks it owns, uses freed or uninitialised memory, executes undefined behaviour, or leaks
     memory in proportion to the number of q-points or calls.""",
     ['inputs', 'configurations'], 'all shapes of force constants, q-point lists, options and thread counts',
     'an out-of-bounds access or leak usually leaves the returned numbers unchanged', [C1, C2, C3, 'c/py_util.c', 'c/load_libs.c'],
     [('buffer sizes and frees', f'{C1}:calculate_phonons'), ('reference counting', 'c/py_util.c')],
     ['ForceConstants.calculate_qpoint_phonon_modes'])

prop('C06', 'Parallel q-point calculation is free of data races and deterministic',
     """The threads that calculate different q-points never access the same memory without ordering when one of them
     writes, for any number of threads and any scheduling. Repeated threaded runs return bit-for-bit the result of the
     single-threaded run.""",
     ['schedules', 'inputs', 'configurations'], 'all interleavings of the worker threads, thread counts and options',
     'tests run few q-points and see one schedule; a race shows up only in rare interleavings', [C1, C2],
     [('thread-private workspaces', f'{C1}:calculate_phonons (omp parallel region)')],
     ['ForceConstants.calculate_qpoint_phonon_modes(use_c=True, n_threads=n)'])

prop('C07', 'Each q-point is calculated independently of the rest of the request',
     """Frequencies at a q-point do not depend on which other q-points are requested, their order, duplicates,
     or reduce_qpts, and equal those at q plus any reciprocal lattice vector and at -q (points close to gamma of polar crystals aside). calculate_qpoint_frequencies returns exactly the q-points, weights and frequencies of
     calculate_qpoint_phonon_modes; returned q-points and weights are the requested ones, in the requested
     order.""",
     ['inputs', 'configurations'], 'all q-point lists, weights and options',
     'tests use fixed q-point lists', [FC],
     [('q-point reduction and scatter', f'{FC}:_calculate_phonons_at_qpts; euphonic/util.py:_get_unique_elems_and_idx')],
     ['ForceConstants.calculate_qpoint_phonon_modes', 'ForceConstants.calculate_qpoint_frequencies'])

prop('C08', 'Results depend only on current data, not on earlier calls; inputs untouched',
     """A calculation on an object gives the same result whatever calculations were made on it before, with whatever
     options and in whatever order, and after assigning new force constants, Born charges or dielectric tensor
     it gives the result of a freshly built object holding that data. No calculation, plot or conversion modifies
     the public data of the object it is called on (apart from the documented in-place reordering) or the arrays passed in.""",
     ['histories', 'inputs'], 'all sequences of API calls on one object',
     'each test starts from a fresh object', [FC, QM, QF, SF, SP, 'euphonic/plot.py'],
     [('cached ASR force constants, dipole data and images', f'{FC}:_calculate_phonons_at_qpts')],
     ['every public calculate_*/broaden/plot/to_* method'],
     [('_force_constants_asr', 'force constants after the realspace sum rule', FC),
      ('_dipole_init_data', 'q-independent Ewald data', FC)])

prop('C09', 'Mode gradients are the derivatives of the frequencies',
     """Where a mode is non-degenerate and real, the returned mode gradient equals the Cartesian q-derivative of its frequency
     as measured by finite differences of independent frequency calculations, with either
     sum rule; gradients have the documented shape and unit. mode_gradients_to_widths
     gives the norm of the gradient times 2/cbrt(number of q-points times cell volume), always non-negative.""",
     ['inputs'], 'every crystal and q-point away from degeneracies and gamma',
     'tests compare stored widths for one material', [FC, 'euphonic/util.py', C1, C2],
     [('gradient of the dynamical matrix', f'{FC}:_calculate_phonons_at_q; {C2}'), ('widths', 'euphonic/util.py:mode_gradients_to_widths')],
     ['calculate_qpoint_phonon_modes(return_mode_gradients=True)'])

prop('C10', 'Total force constants convert to a short-range form with the same phonons',
     """A ForceConstants built with from_total_fc_with_dipole from a total force-constant matrix reproduces, at every
     q-point commensurate with the supercell, exactly the phonons of the total force constants, and its
     Born charges and dielectric tensor are those given, in whatever units they are given. The
     conversion of a matrix whose dipole part was added analytically returns the original short-range matrix.""",
     ['inputs', 'configurations'], 'every polar crystal, supercell of ordinary compact shape and unit of the inputs',
     'one stored material', [FC, 'euphonic/readers/phonopy.py'],
     [('subtraction of the commensurate dipole part', f'{FC}:from_total_fc_with_dipole')],
     ['ForceConstants.from_total_fc_with_dipole'])

prop('C11', 'Phonons do not depend on how the same crystal is described',
     """Frequencies are unchanged by permuting atoms, rotating the crystal, a permutation or handedness change of the
     cell vectors, moving an atom by a lattice vector (with asr='reciprocal' not claimed), or listing the supercell's cells in a different order or
     with origins shifted by supercell vectors, provided q-points, force constants, Born charges and dielectric
     tensor are re-expressed accordingly.""",
     ['inputs'], 'every crystal and every re-description', 'each test material has one description', [FC, C1, C2, 'euphonic/crystal.py'],
     [('relative cell index', 'euphonic/util.py:_get_supercell_relative_idx'), ('image search', f'{FC}:_calculate_supercell_images')],
     ['ForceConstants.calculate_qpoint_phonon_modes'])

prop('C12', 'Units change the presentation of a quantity and never its value',
     """Every quantity can be supplied in any unit of its dimension and is returned in the unit last set on the
     corresponding *_unit attribute, with the physical value unchanged; setting a unit with no registered conversion raises and
     leaves the object usable with its previous unit. Calculations give the same physical result whatever display or
     input units are in force.""",
     ['inputs', 'histories'], 'all classes with units, all compatible units, all sequences of unit changes',
     'tests cover a few unit pairs per class', ['euphonic/validate.py', 'euphonic/crystal.py', FC, QF, QM, SF, SP, 'euphonic/debye_waller.py'],
     [('internal atomic units, display property', 'each class __init__/properties'), ('unit validation', 'euphonic/validate.py:_check_unit_conversion')],
     ['*_unit attributes and properties of all classes'])

prop('C13', 'Writing to dict or JSON and reading back returns the same object',
     """For every serialisable class, from_dict(to_dict(x)) and from_json_file(to_json_file(x)) give an
     object equal to x in every array (including complex values, NaN and single-element arrays), unit, label,
     metadata (of JSON types) and optional field, whatever display units or memory layout x has.
     The file and dict contain only data of x and share no memory with it, reading back and writing again gives the same content, and 1-D spectra written as text hold the same columns and metadata.""",
     ['inputs', 'histories'], 'all objects of all serialisable classes', 'tests round-trip stored examples in default units',
     ['euphonic/io.py', SP, FC, QM, QF, SF, 'euphonic/crystal.py', 'euphonic/debye_waller.py'],
     [('dict conversion', 'euphonic/io.py')], ['to_dict/from_dict/to_json_file/from_json_file'])

prop('C14', 'CASTEP files are read into exactly the data they contain',
     """For every well-formed .phonon, .phonon_dos, .castep_bin or .check file, the crystal, q-points, weights,
     frequencies, eigenvectors, force constants, supercell, Born charges, dielectric tensor and DOS read are
     those written in the file, with split gamma-point blocks kept, averaged or reduced as requested
     (average_repeat_points, prefer_non_loto: only their weights change). Reading does not depend on the number of atoms, q-points or
     header layout details.""",
     ['inputs', 'configurations'], 'all well-formed files, of any size and content',
     'tests read a few dozen stored files', ['euphonic/readers/castep.py'],
     [('phonon parser', 'euphonic/readers/castep.py:read_phonon_data'), ('binary parser', 'euphonic/readers/castep.py:read_interpolation_data')],
     ['QpointPhononModes.from_castep', 'QpointFrequencies.from_castep', 'ForceConstants.from_castep', 'Spectrum1D.from_castep_phonon_dos'])

prop('C15', 'Phonopy files are read into exactly the data they contain',
     """For every well-formed set of phonopy output files (phonopy.yaml, FORCE_CONSTANTS or force_constants.hdf5,
     BORN, and mesh/qpoints/band YAML or HDF5) the reader returns the primitive crystal, supercell, force
     constants in its own cell ordering, Born charges, dielectric tensor, q-points, weights, frequencies and eigenvectors (each up to a phase),
     the same from each file format, and phonons interpolated from the force constants equal those of the
     supercell model that was written.""",
     ['inputs', 'configurations'], 'all crystals, supercell matrices, atom orders, file formats and unit systems',
     'tests read stored files of two materials', ['euphonic/readers/phonopy.py', 'euphonic/util.py'],
     [('force-constant re-indexing', 'euphonic/util.py:convert_fc_phases'), ('summary parsing', 'euphonic/readers/phonopy.py:_extract_summary')],
     ['ForceConstants.from_phonopy', 'QpointPhononModes.from_phonopy', 'QpointFrequencies.from_phonopy'])

prop('C16', 'DOS conserves modes: its integral is the mode count weighted by q-point weight',
     """The density of states assigns every mode at every q-point, with the weight of that q-point, to the bin that
     contains its frequency (half-open bins [low, high), the last one too), and modes outside the bins nowhere;
     with bins that cover all modes its integral is 3, the number of modes per atom. calculate_dos_map does so
     separately for each q-point.""",
     ['inputs'], 'all frequencies, weights, bins and units, including frequencies on bin edges',
     'tests compare stored spectra', [QF], [('histogram', f'{QF}:_calculate_dos, calculate_dos_map')],
     ['QpointFrequencies.calculate_dos', 'QpointFrequencies.calculate_dos_map'])

prop('C17', 'Partial DOS decompose the total DOS, weighted by cross section when asked',
     """The per-species PDOS weight every mode by the squared eigenvector amplitude of that species' atoms, so
     unweighted PDOS summed over species is the total DOS. With coherent, incoherent or coherent-plus-incoherent weighting each
     species' PDOS is scaled by its cross-section and by mean atomic mass over its own mass, with user-supplied or reference cross-sections in any
     unit.""",
     ['inputs', 'configurations'], 'all eigenvectors, species arrangements, bins, and cross-section tables',
     'tests compare stored spectra for quartz and CaHgO2', [QM], [('PDOS', f'{QM}:calculate_pdos')],
     ['QpointPhononModes.calculate_pdos'])

prop('C18', 'Adaptive broadening is the sum of each mode broadened by its own width',
     """A DOS with mode widths equals, for the reference method, the sum over modes of weight times a normalised
     Gaussian whose standard deviation is that mode's width, raised to the given minimum, at its frequency. The 'fast' method,
     and broadening a spectrum with a width function (Gaussian or Lorentzian), agree with the exact sum within the stated adaptive error, and each conserves the
     integrated number of modes.""",
     ['inputs', 'configurations'], 'all frequencies, widths, bins, shapes, error settings',
     'tests use one material', ['euphonic/broadening.py', QF],
     [('interpolated widths', 'euphonic/broadening.py:width_interpolated_broadening'), ('per-mode reference', f'{QF}:_calculate_dos')],
     ['QpointFrequencies.calculate_dos(mode_widths=...)', 'Spectrum1D.broaden(callable)'])

prop('C19', 'Broadening a spectrum is convolution with a normalised line shape',
     """Fixed-width broadening of any 1-D or 2-D spectrum or collection equals the discrete convolution of the data with a
     unit-sum Gaussian or Lorentzian whose full width at half maximum is the requested one, along the
     requested axis only, in any units; the broadened integral of a feature away from the edges is
     conserved. Broadening is linear, acts on each member of a collection separately, keeps axes and metadata, and refuses
     unequal bins or bin centres unless told otherwise.""",
     ['inputs', 'configurations'], 'all spectra, widths, shapes, axes, units and numbers of bins',
     'tests compare stored spectra', [SP, 'euphonic/broadening.py'], [('fixed width', f'{SP}:_broaden_data'), ('variable width', 'euphonic/broadening.py:variable_width_broadening')],
     ['Spectrum1D.broaden', 'Spectrum1DCollection.broaden', 'Spectrum2D.broaden'])

prop('C20', 'Debye-Waller exponents are the thermal displacement sums they are defined as',
     """For any phonon modes and temperature the Debye-Waller factor of each atom is the weighted average over q-points of
     hbar/(4 M omega) coth(hbar omega/2kT) e e^dagger over modes with frequency above frequency_min, with the zero-temperature limit at T=0.
     It is a real symmetric positive semi-definite matrix for each atom, never decreases with temperature, is
     unaffected by scaling all weights together or by the chunking of the calculation, and
     frequencies below frequency_min contribute nothing.""",
     ['inputs', 'configurations'], 'all modes, temperatures, weights, symmetrisation settings',
     'tests compare stored values for two materials', [QM, 'euphonic/debye_waller.py'], [('DW sum', f'{QM}:calculate_debye_waller')],
     ['QpointPhononModes.calculate_debye_waller'])

prop('C21', 'The one-phonon structure factor obeys its defining formula and symmetries',
     """For any phonon modes, scattering lengths and optional Debye-Waller factor the structure factor of each mode equals
     |sum over atoms of b/sqrt(M) e^-W (Q.e) exp(iQ.r)|^2/(2 omega) with W quadratic in Q.
     It is non-negative, scales quadratically with a common factor of the scattering lengths,
     does not depend on the phases of eigenvectors (modes of exactly zero frequency aside), and its sum over degenerate modes is the same for any choice of eigenvectors in the degenerate set.""",
     ['inputs', 'configurations'], 'all modes, scattering lengths (tables, files, dictionaries), Debye-Waller data and units',
     'the corresponding test file does not collect here; otherwise stored values', [QM, SF, 'euphonic/util.py'],
     [('structure factor', f'{QM}:calculate_structure_factor')], ['QpointPhononModes.calculate_structure_factor'])

prop('C22', 'S(q,w) maps bin every mode once and obey detailed balance',
     """A scattering map places each mode's structure factor times (n+1) in the energy bin of +omega and, if calculated with Bose factors, times n in the
     bin of -omega, divided by bin width, and nothing else; imaginary modes count at their negative frequency and each mode outside the bins contributes nothing. Hence S(q,-w) = exp(-w/kT) S(q,w) for matched bins, the T=0 map has no
     energy-gain side, and without Bose factors the map integrates to the summed structure factors. A 1-D average is the
     weighted mean over q-points.""",
     ['inputs', 'configurations'], 'all structure factors, temperatures, bins, units',
     'tests compare stored maps', [SF], [('bose and binning', f'{SF}:calculate_sqw_map, _bose_corrected_structure_factor')],
     ['StructureFactor.calculate_sqw_map', 'StructureFactor.calculate_1d_average'])

prop('C23', 'Dispersion data: mode reordering is a permutation and axis labels are right',
     """reorder_frequencies only permutes modes within each q-point, frequencies and eigenvectors together, following
     eigenvector overlap with the previous q-point, and start afresh where the path turns. The abscissa of a dispersion accumulates
     reciprocal-space distance (zero across jumps by a reciprocal lattice vector) and tick labels sit at the ends, at turns, at gamma and at repeated points, and name the high-symmetry point found there.""",
     ['inputs'], 'all q-point paths and modes', 'tests compare stored paths', [QM, QF, 'euphonic/util.py'],
     [('overlap matching', f'{QM}:reorder_frequencies'), ('abscissa and labels', 'euphonic/util.py:_calc_abscissa, get_qpoint_labels, direction_changed')],
     ['QpointPhononModes.reorder_frequencies', 'get_dispersion', 'get_qpoint_labels'])

prop('C24', 'Spectra and collections keep data, metadata and bins together',
     """Indexing, slicing, iterating, adding, splitting, copying, selecting, grouping, summing and scaling spectra keep each
     spectrum's data with its own metadata and bins: group_by partitions and sums, select returns exactly the
     matching members, sum adds them, split pieces concatenate back to the original, scaling multiplies the
     intensity only, and bin edges/centres are consistent with each other. None of these shares mutable
     state with its source.""",
     ['inputs', 'histories'], 'all spectra, metadata and operation sequences', 'tests use a few examples', [SP],
     [('collection mixin', f'{SP}:SpectrumCollectionMixin'), ('metadata combination', f'{SP}:_combine_metadata, _tidy_metadata')],
     ['Spectrum1D', 'Spectrum2D', 'Spectrum1DCollection', 'Spectrum2DCollection'])

prop('C25', 'Sampling functions cover their domain and powder averages are true averages',
     """Every sphere-sampling function returns exactly the promised number of unit vectors, whose mean and second moment
     converge to those of the uniform sphere (jitter and random included), square samplings stay in the unit square,
     and Monkhorst-Pack grids are complete, symmetric and unique (the plain polar grid is uniform in angle, not on the sphere). A powder-averaged DOS, PDOS or structure factor at |Q| equals the plain average of the same quantity calculated
     explicitly at the sampled q-points.""",
     ['inputs', 'configurations'], 'all numbers of points, sampling types, materials, |Q| and options',
     'tests fix a few sizes and mock the calls', ['euphonic/sampling.py', 'euphonic/powder.py', 'euphonic/util.py', 'euphonic/crystal.py'],
     [('samplers', 'euphonic/sampling.py'), ('sphere averages', 'euphonic/powder.py')],
     ['sample_sphere_dos', 'sample_sphere_pdos', 'sample_sphere_structure_factor', 'mp_grid'])

prop('C26', 'Kinematic masking keeps exactly the measurable region',
     """apply_kinematic_constraints keeps a bin, unchanged, if and only if some |Q| of its |Q| interval is reachable at its energy centre with the given incident
     (direct geometry) or final (indirect geometry) energy at some scattering angle within the range, and
     replaces every other bin by NaN. The result is the same for any units and equivalent angle ranges, and the input is unmodified.""",
     ['inputs', 'configurations'], 'all spectra, energies, angle ranges, units, both geometries',
     'a few stored maps', [SP], [('Q limits', f'{SP}:apply_kinematic_constraints, _get_cos_range')],
     ['apply_kinematic_constraints'])

prop('C27', 'Command-line tools produce what the Python API produces with the same options',
     """For every accepted option combination the euphonic-dos, -dispersion, -intensity-map, -powder-map,
     -optimise-dipole-parameter, -show-sampling and -brille-convergence tools plot or save exactly the data obtained by calling the API with the corresponding parameters.
     --save-json files load back to the plotted data.""",
     ['inputs', 'configurations'], 'all option combinations and input materials',
     'regression data for selected option sets; dispersion and map tools fail at baseline here', ['euphonic/cli/utils.py', 'euphonic/cli/dos.py', 'euphonic/cli/powder_map.py',
      'euphonic/cli/intensity_map.py', 'euphonic/cli/dispersion.py', 'euphonic/cli/show_sampling.py', 'euphonic/cli/optimise_dipole_parameter.py'],
     [('option parsing and defaults', 'euphonic/cli/utils.py')], ['main(params) of each tool, --save-json output'])

prop('C28', 'Plots show the data they are given',
     """plot_1d, plot_2d and their axis variants draw one line or image per spectrum whose coordinates, order, labels, limits and
     segment breaks are those of the spectrum in its display units, with ticks at the
     spectrum's tick labels, and leave the spectrum unmodified.""",
     ['inputs', 'configurations'], 'all spectra, collections, splits, labels and options',
     'tests mock the plotting calls or compare one figure', ['euphonic/plot.py'], [('line and image plotting', 'euphonic/plot.py')],
     ['plot_1d', 'plot_2d', 'plot_1d_to_axis', 'plot_2d_to_axis'])

prop('C29', 'Crystal geometry and symmetry helpers are mutually consistent',
     """For every crystal, the reciprocal cell satisfies a_i.b_j = 2 pi delta_ij, the volume is the absolute triple product, the MP
     grid spec is at least one and resolves the requested spacing, species indices partition the atoms, and every
     symmetry operation returned maps the crystal onto itself, atom by atom within the tolerance, with the equivalent-atom table
     giving the image of each atom; the operations found are complete and the identity is among them.""",
     ['inputs'], 'all crystals (symmetry: right-handed cells)', 'a few stored crystals', ['euphonic/crystal.py'],
     [('equivalent atoms', 'euphonic/crystal.py:get_symmetry_equivalent_atoms')], ['Crystal methods'])

prop('C30', 'Brille interpolation reproduces direct calculation at its grid points',
     """A BrilleInterpolator built from force constants returns, at sampled q-points strictly inside the Brillouin zone (trellis and mesh grids), their
     lattice translates and symmetry images, the phonons of
     direct interpolation, and at other q-points values within an interpolation error that shrinks with grid density. The
     requested q-points are preserved, repeated calls give the same results, and calculation options of the force constants are honoured.""",
     ['inputs', 'configurations'], 'crystals (right-handed cells), grid types, q-points', 'tests mock brille or use stored data (not collected here)',
     ['euphonic/brille.py'], [('grid filling', 'euphonic/brille.py:from_force_constants')], ['BrilleInterpolator'])

prop('C31', 'Malformed input is refused with an error rather than misread',
     """Constructors, readers and calculations given data of the wrong shape, type or dimension, unknown option values,
     truncated or corrupt files (unreadable numbers, wrong counts), or missing required fields raise an exception and never return a silently wrong object. After a refusal the existing objects are unchanged and usable.""",
     ['inputs', 'fault_sequences'], 'all single corruptions of valid inputs: shapes, types, units, options, file truncation points',
     'tests try a few malformed inputs each', ['euphonic/validate.py', 'euphonic/readers/castep.py', 'euphonic/readers/phonopy.py', FC, QM, SP],
     [('constructor checks', 'euphonic/validate.py:_check_constructor_inputs')], ['constructors, from_* readers, calculate_* methods'])

prop('C32', 'Reference data lookups return exactly what the table holds',
     """get_reference_data returns every numeric entry (integer, real or complex) of a built-in table or a well-formed user file in the unit the table
     states, keyed by species, leaving out only null and text entries; built-in values are those of the published tables shipped with the pinned version.
     Structure factors, partial DOS and powder averages given a table by name or path equal those given the same numbers as a dictionary,
     and an unknown table, property or unit, or a species without entry, is refused.""",
     ['inputs'], 'all built-in entries, any user file', 'tests look up four values', ['euphonic/util.py', 'euphonic/data', QM, 'euphonic/powder.py'],
     [('get_reference_data', 'euphonic/util.py:get_reference_data')], ['get_reference_data'])

prop('C33', 'A fault or interruption in mid-call is reported and leaves objects usable',
     """If the eigensolver, a memory allocation or a file write fails, or an exception (e.g. KeyboardInterrupt) strikes at any point of a
     calculation, conversion, plot or read, the call raises: it never returns a partial or wrong result or claims that a file was written.
     Afterwards the public data of all objects and arguments is what it was, no file or unit context is left open, and calculations
     on the same object, with the same or other options, give what a fresh object gives (in-place setters and reordering aside).""",
     ['fault_sequences', 'crash_points', 'histories'], 'all executed lines and native calls as fault points', 'tests inject no faults', [FC, 'c/_euphonic.c', 'c/dyn_mat.c', 'euphonic/io.py', QM, SP],
     [('calculation', 'euphonic/force_constants.py:_calculate_phonons_at_qpts'), ('C loop', 'c/_euphonic.c:calculate_phonons')], ['calculate_* methods', 'from_* readers', 'to_json_file', 'to_text_file'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))

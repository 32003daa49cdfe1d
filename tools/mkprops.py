"""Regenerates properties.jsonl (the list is easier to edit here than as one-line JSON)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, obs, hook=False):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=obs, hook_needed=None)))

CORE = "xboa/core/"
p("C01", "A hit record returns exactly what was stored and nothing else moves",
  """Every stored variable of a hit reads back the value last written to it, under every documented alias of its name, and
  writing one variable of one hit never changes any other variable or any other hit. Unknown names are rejected with an error
  and leave the hit unchanged, and a value that is not a number of the stored kind is never silently recorded as something else.""",
  ["inputs", "histories"], """all variable names, all real and 32-bit integer values, sequences of writes on two hits""",
  "Tests write a handful of fixed values; interference between fields and values near the integer limits need every value and every pair of fields.",
  [CORE+"cpplib/Hitcore.hh", CORE+"cpplib/Hitcore.cc", CORE+"pylib/PyHitcore.cc", "xboa/hit/_hit.py"],
  [("hit fields", "one stored number per variable", CORE+"cpplib/Hitcore.hh")],
  [("name to accessor tables", CORE+"cpplib/Hitcore.cc"), ("argument conversion", CORE+"pylib/PyHitcore.cc")],
  ["Hit.get", "Hit.set", "Hitcore.get", "Hitcore.set"])
p("C02", "A global weight belongs to one particle: its spill, event and particle number",
  """Setting the global weight of a hit sets it for exactly those hits with the same spill, event number and particle number, whatever
  hit object, bunch or weight context it is read through, and leaves all other particles alone; a particle never given a weight has the
  context's default weight. The total weight of a hit is always its local weight times its global weight, clearing weights gives every
  particle the context's default weight, and after another weight context is selected every hit and every bunch calculation uses that one.""",
  ["inputs", "histories"], """all integer keys and real weights of up to three hits, all histories of set/clear/select-context up to the bound""",
  "Tests use keys in which the numbers coincide or are zero and never compare the hit's view with the context's own view or with bunch results.",
  [CORE+"cpplib/Hitcore.hh", CORE+"cpplib/WeightContext.hpp", CORE+"pylib/PyHitcore.cc", CORE+"pylib/PyBunchcore.cc", CORE+"pylib/PyWeightContext.cc"],
  [("weight table", "map from (spill, event, particle) to weight plus a default", CORE+"cpplib/WeightContext.hh")],
  [("key construction and current context", CORE+"cpplib/Hitcore.hh")],
  ["Hit.get('global_weight')", "Hit.get('weight')", "WeightContext.get_hit_weight", "Bunch.bunch_weight", "Bunch.moment"])
p("C03", "Weight contexts obey pointwise arithmetic",
  """Adding, subtracting, multiplying or dividing two weight contexts, or a context and a number, gives a new context whose weight for every
  particle - listed in either operand or not - and whose default weight is that operation on the operands' weights; the complement gives the default weight to
  every listed particle of zero weight and zero weight to everything else. Neither operand is changed or
  shares later changes with the result, and operations that are not supported raise an error.""",
  ["inputs", "histories"], "all pairs of contexts with up to two listed particles each, all integer keys (coinciding or not), all real weights and defaults",
  "Tests check a few fixed keys; unlisted particles, defaults, aliasing of the operands and key ordering need all keys and weights.",
  [CORE+"cpplib/WeightContext.hpp", CORE+"cpplib/WeightContext.hh", CORE+"cpplib/WeightContext.cc", CORE+"pylib/PyWeightContext.cc"],
  [("weight table", "map from (spill, event, particle) to weight plus a default", CORE+"cpplib/WeightContext.hh")],
  [("pointwise operators", CORE+"cpplib/WeightContext.hpp"), ("operator dispatch", CORE+"pylib/PyWeightContext.cc")],
  ["WeightContext +,-,*,/,~", "get_hit_weight", "get_default_weight"])
p("C04", "A bunch behaves as a list of hits, identically in both of its layers",
  """After any sequence of appending, replacing, deleting and removing hits, a bunch holds exactly the hits a list would hold in the same order,
  with negative indices counting from the end and indices outside the list rejected without effect.
  Everything calculated by the fast core (moments, cuts) is about exactly those hits.""",
  ["histories", "inputs"], "all sequences of up to four operations on bunches of up to four hits, all indices in and out of range",
  "Tests perform one operation at a time with positive indices; the two copies of the hit list can only diverge after a history.",
  ["xboa/bunch/_bunch.py", CORE+"cpplib/Bunchcore.cc", CORE+"pylib/PyBunchcore.cc", CORE+"utils/TypeConversions-inl.hh"],
  [("hit list and core hit array", "two copies of the membership", "xboa/bunch/_bunch.py")],
  [("index conversion", CORE+"utils/TypeConversions-inl.hh"), ("resize/erase", CORE+"cpplib/Bunchcore.cc")],
  ["Bunch.__getitem__", "Bunch.__setitem__", "Bunch.__delitem__", "Bunch.append", "Bunchcore.get_item", "Bunchcore.length"])
p("C05", "The C++ core never touches freed memory and never drops a shared hit",
  """Whatever sequence of operations is performed on hits, bunches and weight contexts - including sharing one hit between bunches, destroying them in any order,
  wrong argument types and calls that fail - no freed or unallocated memory is accessed, nothing is freed twice, and each object is freed exactly
  when its last holder is gone. A call refused for its arguments reports an error and leaves hits, bunches and weight tables as they were.""",
  ["histories", "inputs"], "all operation sequences up to the bound over two bunches, two hits and two weight contexts, and every kind of wrong argument",
  "A use after free passes tests silently; ownership depends on the order in which holders disappear.",
  [CORE+"utils/SmartPointer.hh", CORE+"pylib/PyBunchcore.cc", CORE+"pylib/PyHitcore.cc", CORE+"pylib/PyWeightContext.cc", CORE+"cpplib/Bunchcore.cc", CORE+"utils/TypeConversions-inl.hh"],
  [("reference counts", "number of holders per C++ object", CORE+"utils/SmartPointer.hh")],
  [("shared ownership", CORE+"utils/SmartPointer.hh"), ("Python bindings", CORE+"pylib/PyBunchcore.cc")],
  ["Hitcore.dump_memory", "process survival", "object contents after each step"])
p("C06", "Means, moments and covariances are the weighted averages they claim to be",
  """For every bunch and every choice of stored or derived variables, a moment is the weighted average over hits of the product of deviations from
  the given centre, where a centre that is not given is the weighted mean; the covariance matrix is symmetric and agrees element by element with the moments,
  the standard deviation squared is the second moment, and moments do not depend on the order of hits, on empty slots or on a common factor of the weights, unless the caller has given the bunch a covariance matrix of its own and not switched it off. A bunch of zero weight gives an error, never a number.""",
  ["inputs"], "bunches of up to three hits, all real coordinates, centres and weights (including zero and negative), up to three variables per moment",
  "Tests compare with numbers from fixed random bunches of equal weight, mostly to loose tolerance and about zero centres.",
  ["xboa/bunch/_bunch.py", CORE+"cpplib/Bunchcore.cc", CORE+"pylib/PyBunchcore.cc"],
  [("hit array", "slots that may be empty", CORE+"cpplib/Bunchcore.hh")],
  [("moment sums", CORE+"cpplib/Bunchcore.cc"), ("mean substitution", "xboa/bunch/_bunch.py")],
  ["Bunch.moment", "Bunch.mean", "Bunch.covariance_matrix", "Bunch.standard_deviation", "Bunchcore.moment", "Bunchcore.covariance_matrix"])
p("C07", "Cuts zero the weight of exactly the hits that fail them",
  """A cut sets to zero the chosen (local or global) weight of exactly those hits for which the comparison of the variable with the cut value is true, changes no
  other weight or variable, and is idempotent; a cut on a variable in standard deviations uses that multiple of the bunch's standard deviation. A transmission cut
  zeroes exactly the hits that have no partner with the same identifiers (integers, or one real variable within the tolerance) in the other bunch, and a conditional removal takes out exactly the hits for which the comparison is true and keeps the others in order.""",
  ["inputs"], "bunches of up to three hits and partners of up to three, all identifiers, values, cut values and comparison operators",
  "Tests cut fixed data with one or two comparators; boundary values, repeated identifiers, global weights and the sigma forms are not covered.",
  ["xboa/bunch/_bunch.py", CORE+"cpplib/Bunchcore.cc", CORE+"utils/PythonComparator.hh"],
  [("local and global weights", "statistical weight of a hit or particle", CORE+"cpplib/Hitcore.hh")],
  [("cut loop", CORE+"cpplib/Bunchcore.cc"), ("sorted search", "xboa/bunch/_bunch.py")],
  ["Bunch.cut", "Bunch.transmission_cut", "Bunch.conditional_remove", "Bunchcore.cut_double"])
p("C08", "Derived hit variables follow their definitions and writing them is consistent",
  """Total and transverse momentum, radius, angles, divergences, kinetic energy, angular momentum, path-like time and total weight always equal their defining formula
  of the stored variables. Writing a derived variable makes it read back the value written, keeps the documented invariants (direction of momentum, longitudinal
  momentum, mass) and changes nothing else, for any momentum written that is not negative; where that is impossible an error is raised.""",
  ["inputs"], "all real values of the stored variables, including zero and negative components",
  "Tests evaluate each formula at one point.",
  ["xboa/hit/_hit.py", "xboa/common/_common.py"],
  [("hit fields", "one stored number per variable", CORE+"cpplib/Hitcore.hh")],
  [("derived getters and setters", "xboa/hit/_hit.py")], ["Hit.get", "Hit.set", "Hit.get_vector"])
p("C09", "Forcing the mass shell gives E^2 = p^2 + m^2 via the chosen variable alone",
  """After forcing the mass shell condition through a chosen variable the hit satisfies E^2 = p^2 + m^2 with all other stored variables unchanged
  (all three momentum components scaled together when total momentum is chosen), or, when no such value exists, the variable is set to zero and failure is returned.
  The consistency check of a hit accepts it exactly when its particle type, mass and mass shell (to its tolerance of 1 MeV^2) agree, and an unknown choice raises an error.""",
  ["inputs"], "all real momenta, energies and non-negative masses, every choice of variable",
  "Tests use a few momenta that are on or near shell.",
  ["xboa/hit/_hit.py"], [("momentum, energy, mass", "stored variables", CORE+"cpplib/Hitcore.hh")],
  [("mass_shell_condition", "xboa/hit/_hit.py")], ["Hit.mass_shell_condition", "Hit.new_from_dict", "Hit.check"])
p("C10", "Coordinate transformations do the stated arithmetic to every hit",
  """Translating adds the given amounts to the given variables; a linear transformation maps the chosen vector V to O + R(V-O) + T for any matrix, origin and offset; wrapping a
  variable into a period takes it relative to the offset and moves it by a whole number of periods into half a period around zero; matching to a target covariance gives a bunch whose covariance matrix is
  proportional to the target and whose determinant is unchanged. Hits are transformed each exactly once, all other variables are unchanged except the one chosen for the mass shell, and the caller's arguments are not modified.""",
  ["inputs"], "bunches of up to three hits, transformations of up to three variables, all real entries",
  "Tests transform fixed data by diagonal or identity-like matrices and check a few elements.",
  ["xboa/hit/_hit.py", "xboa/bunch/_bunch.py"],
  [("hit fields", "stored variables", CORE+"cpplib/Hitcore.hh")],
  [("linear map", "xboa/hit/_hit.py"), ("period folding and matching", "xboa/bunch/_bunch.py")],
  ["Hit.translate", "Hit.abelian_transformation", "Bunch.translate", "Bunch.abelian_transformation", "Bunch.period_transformation", "Bunch.transform_to"])
p("C11", "Emittance, optics functions and amplitudes are mutually consistent",
  """For every non-degenerate bunch and choice of axes, emittance is the 2n-th root of the determinant of the covariance matrix (over mass in normalised variables),
  the one-dimensional beta, gamma and alpha reproduce the covariance matrix and satisfy beta*gamma - alpha^2 = 1, and the amplitude of a hit is emittance times its squared Mahalanobis distance.
  An ellipse built from optics parameters has exactly that emittance, beta and alpha, non-physical parameters are rejected, and dispersion and angular momentum equal their stated moment formulas.""",
  ["inputs"], "bunches of up to three hits or arbitrary positive-definite covariance matrices, both momentum conventions, all real parameters",
  "Tests compare with stored numbers for a few bunches and one momentum convention.",
  ["xboa/bunch/_bunch.py"], [("covariance matrix", "second moments of the chosen axes", "xboa/bunch/_bunch.py")],
  [("optics formulas", "xboa/bunch/_bunch.py")],
  ["Bunch.get_emittance", "Bunch.get_beta", "Bunch.get_alpha", "Bunch.get_gamma", "Bunch.get_amplitude", "Bunch.build_ellipse_2d", "Bunch.build_penn_ellipse", "Bunch.get_dispersion"])
p("C12", "Copies, dictionaries and pickles of hits are faithful and independent",
  """A deep copy of a hit or bunch, and for hits a round trip through a dictionary or through pickling, is equal to the original in every stored variable,
  leaves the global weights of other particles alone, and changing the copy never changes the original or the other way round; a bunch made from a list of hits holds copies of them. Two hits compare equal exactly
  when all their variables agree within the tolerance, and two bunches exactly when their hits do one by one and their own covariance matrices and means, where set, agree.""",
  ["inputs", "histories"], "all values of all stored variables, bunches of up to three hits",
  "Tests copy hits with few fields set and seldom modify the copy afterwards.",
  ["xboa/hit/_hit.py", "xboa/bunch/_bunch.py"], [("hit fields", "stored variables", CORE+"cpplib/Hitcore.hh")],
  [("dict_from_hit/new_from_dict", "xboa/hit/_hit.py")], ["Hit.deepcopy", "Hit.dict_from_hit", "Hit.__getstate__", "Bunch.deepcopy", "Bunch.new_from_hits", "Hit.__eq__"])
p("C13", "Writing hits to a file and reading them back preserves them",
  """For each writable text format (icool_for009, icool_for003, g4beamline_bl_track_file, g4beamline_bl_track_file_2, mars_1) and for user formats made of stored variables, hits written and read back carry the same value of
  every variable the format holds, for every particle type the format has a code for; files list the hits in ascending order of station and hits of one station in the order of the bunch (user formats: the order of the bunch, or of the comparator, equal hits in their order).
  Each column of a written or foreign line holds the documented variable in the documented unit (for g4beamline, the length unit that is set or that the file names), and on reading mass and charge follow from the particle type and the energy from the mass shell.
  Writing never changes the hits or the bunch in memory, also when the write fails, and a hit whose type the format cannot name does not stop the others from being written.""",
  ["inputs", "fault_sequences"], "up to three hits, all real values, all 32-bit integers and every particle type representable in the format, user formats of up to four columns",
  "Tests round trip one data file; a wrong unit or column pair that cancels, or damage to the hits in memory, goes unseen.",
  ["xboa/hit/_hit.py", "xboa/hit/factory/_line_factory_base.py", "xboa/hit/factory/_builtin_hit_factory.py", "xboa/hit/factory/_user_hit_factory.py", "xboa/bunch/_bunch.py"],
  [("format and unit tables", "column order and unit per format", "xboa/hit/_hit.py")],
  [("formatted write", "xboa/hit/_hit.py"), ("formatted read", "xboa/hit/factory/_line_factory_base.py")],
  ["Hit.write_builtin_formatted", "Hit.new_from_read_builtin", "Hit.write_user_formatted", "Hit.new_from_read_user", "Bunch.hit_write_builtin", "Bunch.new_from_read_builtin"])
p("C14", "Reading a file yields exactly its valid hits, in order",
  """A reader returns, in file order, one hit per well formed line, skips (and only skips) lines with the wrong number of words or a word that is not a number of the column's kind and hits rejected by the test function,
  stops at the end of the file or after the requested number of hits (a limit counts over all the files given),
  and reports a malformed line with an error rather than a partly filled hit. Splitting a bunch by an integer variable, or picking its hits by a variable, partitions its hits without loss, duplication or reordering.""",
  ["inputs", "fault_sequences"], "all sequences of up to four lines each good, malformed or rejected by the test function, all limits, all station values",
  "Tests read complete well formed files.",
  ["xboa/bunch/_bunch.py", "xboa/hit/factory/_line_factory_base.py", "xboa/hit/factory/_hit_factory_base.py"],
  [("file position", "next line to read", "xboa/hit/factory/_line_factory_base.py")], [("read loop", "xboa/bunch/_bunch.py")],
  ["Bunch.new_from_read_builtin", "Bunch.new_from_read_user", "Bunch.new_dict_from_read_builtin", "Bunch.new_list_from_read_builtin", "Bunch.split", "Bunch.get_hits"])
p("C15", "Histograms conserve weight and put every point in its own bin",
  """A histogram bin holds the total weight of exactly the points that lie in it, with each edge belonging to one bin only, points outside the edges in none, and no point in two. Automatic bin edges are evenly spaced,
  of the requested number, and cover all of the data or exactly the requested range (a range is in native units of the variable).""",
  ["inputs"], "up to three points in one and two dimensions, all real coordinates and weights, up to four edges, all requested ranges",
  "Tests fill a few points away from edges.",
  ["xboa/common/_common.py", "xboa/bunch/_bunch.py"], [("bin weights", "sum of weights per bin", "xboa/common/_common.py")],
  [("histogram", "xboa/common/_common.py"), ("edges", "xboa/common/_common.py")], ["Common.histogram", "Common.get_bin_edges", "Common.n_bins", "Bunch.histogram_var_bins"])
p("C16", "Sorting and range helpers keep parallel lists together",
  """Sorting parallel lists orders them by the first list and keeps every row together; the range helper returns the true minimum and maximum of the points that carry weight, with the requested margins
  and overrides, and leaves the caller's lists alone; per-bunch tables come out sorted with rows intact.""",
  ["inputs"], "up to four rows of up to three columns, all real values and weights, all margins and overrides",
  "Tests use a few short lists with no ties, no zero weights and no overrides combined.",
  ["xboa/common/_common.py", "xboa/bunch/_bunch.py"], [("parallel lists", "rows spread over lists", "xboa/common/_common.py")],
  [("multisort and min_max", "xboa/common/_common.py")], ["Common.multisort", "Common.min_max", "Bunch.list_get"])
p("C17", "Generated grids and shells are the stated point sets",
  """A grid has every combination of the requested evenly spaced coordinates exactly once; a shell for an ellipse has only points on that ellipse; normalising a vector to an ellipse scales it, without
  changing direction, onto the ellipse; an ellipse fitted to points has their mean and covariance when nothing is cut; beams built as a shell carry the defaults plus those points with distinct event numbers and on mass shell.""",
  ["inputs"], "up to three dimensions and three points per dimension, all positive-definite ellipses",
  "Tests check one or two fixed ellipses.",
  ["xboa/common/_common.py", "xboa/bunch/_bunch.py"], [("ellipse", "positive definite matrix", "xboa/common/_common.py")],
  [("make_grid, make_shell, normalise_vector", "xboa/common/_common.py")], ["Common.make_grid", "Common.make_shell", "Common.normalise_vector", "Common.fit_ellipse", "Bunch.new_hit_shell"])
p("C18", "Multipole weighting gives the bunch the requested moments",
  """After applying weights computed for a set of target moments, the weighted moments of the bunch equal the targets, provided the system has a solution; the
  correction for a hit is the polynomial with the computed coefficients, and asking for impossible or repeated moments is an error.""",
  ["inputs"], "bunches of up to three hits, up to two moments, all real coordinates and targets",
  "Tests check one random bunch to loose tolerance.",
  ["xboa/bunch/weighting/_multipole_weighting.py"], [("coefficients", "solution of the moment equations", "xboa/bunch/weighting/_multipole_weighting.py")],
  [("linear solve and weight application", "xboa/bunch/weighting/_multipole_weighting.py")], ["MultipoleWeighting.apply_weights", "MultipoleWeighting.set_target_moments"])
p("C19", "Ellipse bounding keeps exactly the points inside the bound",
  """Cutting points on an ellipse bound keeps exactly the points whose squared distance in the ellipse metric does not exceed the bound, in order and with their own indices, whatever limits are given. The content of a simplex is its exact volume and Voronoi weights are
  the content of each point's tile times the target normal density for tiles inside the bound and zero for points and tiles outside it.""",
  ["inputs"], "up to three points in up to two dimensions, all real coordinates, all positive-definite ellipses",
  "Tests check the number of survivors for one random set.",
  ["xboa/bunch/weighting/_bounding_ellipse.py", "xboa/bunch/weighting/_hull_content.py", "xboa/bunch/weighting/_voronoi_weighting.py"], [("points and indices", "surviving points and where they came from", "xboa/bunch/weighting/_bounding_ellipse.py")],
  [("cut_on_bound", "xboa/bunch/weighting/_bounding_ellipse.py")], ["BoundingEllipse.cut_on_bound"])
p("C20", "Index tables and tensors of moments list each combination exactly once",
  """The table of powers up to a maximum order lists each combination of non-negative powers with at most that sum exactly once, and the moment tensor holds, in that order,
  the weighted average of each such product about the origin. Requests that make no sense raise an error.""",
  ["inputs"], "up to three variables and order three, bunches of up to two hits, all real coordinates and weights",
  "Tests check sizes and a few entries for one bunch.",
  [CORE+"cpplib/Bunchcore.cc", CORE+"pylib/PyBunchcore.cc"], [("index table", "powers per tensor element", CORE+"cpplib/Bunchcore.cc")],
  [("recursive enumeration", CORE+"cpplib/Bunchcore.cc")], ["Bunchcore.index_by_power", "Bunchcore.moment_tensor"])
p("C21", "Peak finders report the local maxima of the signal and nothing else",
  """The window finder reports exactly the positions that are the first maximum of a window and not on its edge unless it is the edge of the signal, the uphill-downhill finder reports exactly the changes from rising to falling,
  in increasing order and at most once each, and neither depends on adding a constant to or positively scaling the data (the window finder's threshold, which does, is a known finding). Refining a peak returns the vertex of the fitted parabola.""",
  ["inputs"], "signals of up to seven samples with all real values, all window sizes that fit",
  "Tests use one smooth synthetic signal; ties, plateaus, edges and short signals are not covered.",
  ["xboa/algorithms/peak_finder/_window_peak_finder.py", "xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py", "xboa/algorithms/peak_finder/_refine_peak_finder.py"],
  [("window", "samples compared with the candidate", "xboa/algorithms/peak_finder/_window_peak_finder.py")],
  [("scan", "xboa/algorithms/peak_finder/")], ["WindowPeakFinder.find_peaks", "UphillDownhillPeakFinder.find_peaks", "RefinePeakFinder.find_peaks"])
p("C22", "Smoothing is linear, keeps constants and never leaves the range of the data",
  """Gaussian smoothing returns as many samples as it was given, is linear in the signal, leaves a constant signal unchanged when normalising over the sampled window, and each output is a weighted average of nearby samples with symmetric non-negative weights. Cut smoothing removes exactly the samples that are further than the cut from the mean of their window and keeps the others in order.""",
  ["inputs"], "signals of up to seven samples, all real values, all positive widths, every truncation",
  "Tests smooth one noisy signal and look at the size of the residuals.",
  ["xboa/algorithms/smoothing/_gaussian_smoothing.py", "xboa/algorithms/smoothing/_cut_smoothing.py"], [("kernel", "weight per offset", "xboa/algorithms/smoothing/_gaussian_smoothing.py")],
  [("smooth", "xboa/algorithms/smoothing/_gaussian_smoothing.py")], ["GaussianSmoothing.smooth"])
p("C23", "The tune of a pure rotation is recovered",
  """The phase-advance tune of points on a matched ellipse is the angle between successive points as a fraction of a turn in [0, 1), for all points and either sense of rotation, the tune is the mean of the phase advances and repeated use gives the same answer;
  the answer depends only on the latest data. The Fourier tune finder gives sample i of its spectrum the frequency i/n of the n points, its amplitudes are the magnitudes of the discrete Fourier sum of the signal at that
  frequency, and the tune it reports is one of those frequencies, of the
  largest of the peaks found, and is found again when asked again.""",
  ["inputs", "histories"], "two to four successive points, all positive-definite ellipses, all real coordinates, repeated runs",
  "Tests use one rotation angle.",
  ["xboa/algorithms/tune/_dphi_tune.py", "xboa/algorithms/tune/_fft_tune.py"], [("phase list", "phase of each point on the normalised circle", "xboa/algorithms/tune/_dphi_tune.py")],
  [("normalisation by Cholesky factor", "xboa/algorithms/tune/_dphi_tune.py")], ["DPhiTune.get_tune", "DPhiTune.dphi", "FFTTuneFinder.get_tune"])
p("C24", "Decoupling a transfer matrix is an exact change of basis",
  """For every stable even-dimensional transfer matrix M the decoupling transformation R is real and symplectic, R^-1 M R is block diagonal with one 2x2 rotation per axis whose beta, alpha, gamma and phase advance are the
  ones reported (for one plane R is the identity and they are those of M), and the ellipse for given eigenemittances is symmetric, is mapped to itself (M V M^T = V) and has those eigenemittances; matrices that are not square, of odd
  size or not of unit determinant, and lists of emittances of the wrong length, are refused.""",
  ["inputs"], "2x2 and coupled 4x4 stable matrices, all phase advances, beta, alpha and emittances",
  "Nothing tests it; a test could only decouple a few fixed matrices.",
  ["xboa/algorithms/decoupled_transfer_matrix.py"], [("eigenvectors", "decoupling transformation", "xboa/algorithms/decoupled_transfer_matrix.py")],
  [("eigen decomposition", "xboa/algorithms/decoupled_transfer_matrix.py")], ["DecoupledTransferMatrix.get_v_m", "get_beta", "get_alpha", "get_gamma", "get_phase_advance"])
p("C25", "The closed orbit search reports consistent points and stops at convergence",
  """Each iteration of the closed orbit search is made of the points actually tracked, from where the last left off until there are enough (the seed first if asked); its centre and ellipse are the mean and covariance of those points,
  its noise the amplitude of each point in the ellipse scaled to unit determinant; the next iteration starts from the centre; the search ends when the spread of the noise exceeds its mean or after the allowed number of iterations,
  never later; a scan visits each combination of steps below the ends exactly once; tracking that loses the particle is a RuntimeError.""",
  ["inputs", "histories"], "linear maps in up to two dimensions with all real entries, up to three tracked points per iteration, up to two iterations",
  "Tests search with one map and one seed.",
  ["xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py"], [("iteration record", "points, mean, matrix, noise", "xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py")],
  [("iteration", "xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py")], ["EllipseClosedOrbitFinder.find_closed_orbit", "EllipseClosedOrbitFinderIteration"])
p("C26", "Matrix tracking applies the map to each particle and keeps the input first",
  """Tracking a hit through a list of matrices returns the input followed by one hit per matrix, each obtained from the input by u' = M (u - offset in) + offset out, put on the mass shell by choosing pz >= 0, with every other variable
  kept; the input is not changed, hits of a list are tracked independently and results come back in the order of the inputs; matrices and offsets of the wrong shape, number or type are refused.""",
  ["inputs"], "up to two hits through up to three maps with all real entries, offsets and coordinates",
  "Tests track one hit through simple matrices.",
  ["xboa/tracking/_matrix_tracking.py", "xboa/tracking/_tracking_base.py"], [("maps", "matrix and offsets per step", "xboa/tracking/_matrix_tracking.py")],
  [("track_one/track_many", "xboa/tracking/_matrix_tracking.py")], ["MatrixTracking.track_one", "MatrixTracking.track_many"])
p("C27", "Distributed tracking returns every particle once, in order",
  """Tracking a list of particles split over worker processes gives, once all have finished, the same results in the same order as tracking them one after another, for every number of particles and workers and every order of
  finishing; workers get consecutive chunks whose sizes differ by at most one; the results of workers still running or failed are left out; the old output of a failed tracking is not taken for new; nothing outside the directories of
  the jobs is written or removed.""",
  ["schedules", "fault_sequences"], "all numbers of particles and workers, all completion orders, worker failures and timeouts",
  "Tests run one process and one order of completion.",
  ["xboa/tracking/_multitrack.py", "xboa/tracking/tracking_process/"], [("worker list", "running workers and their files", "xboa/tracking/_multitrack.py")],
  [("split and merge", "xboa/tracking/_multitrack.py")], ["MultiTrack.track_many"])
p("C28", "Units, particle tables and constants are self-consistent",
  """Converting a particle type to the numbering of ICOOL or MARS and back is the identity exactly for the particles that the code has, every number stands for the particle of the code's list, masses and charges are those of the
  particles with opposite charges for antiparticles, names are unique, every unit is the multiple of the base unit that its prefix says, and lookups of unknown numbers and units fail with KeyError; Hit.check refuses exactly the hits
  of unknown particles, wrong mass or off the mass shell.""",
  ["configurations", "inputs"], "every particle id, unit name and table entry",
  "Tests look at a few entries.",
  ["xboa/common/_common.py"], [("tables", "units and particle ids", "xboa/common/_common.py")], [("table construction", "xboa/common/_common.py")],
  ["Common.units", "Common.pdg_pid_to_mass", "Common.icool_pid_to_pdg"])

p("C29", "Hits written in the MAUS formats come back as the same hits",
  """Hits turned into a MAUS json tree and read back carry the same value of every variable the format holds, grouped by event and then by particle in order of first appearance; every hit of every type in a MAUS json document or
  ROOT tree is read exactly once, in order, with mass and charge following from the particle type where the format lacks them, on the mass shell, with the spill, event and station numbers documented; limits and test functions
  select the first hits that pass; damaged spills are passed over; writing leaves the hits in memory as they were.""",
  ["inputs"], "up to three hits of each MAUS hit type, up to two spills of two events, all real values and integers",
  "Tests read one data file.",
  ["xboa/hit/_hit.py", "xboa/hit/factory/_maus_json_hit_factory.py", "xboa/hit/factory/_maus_root_hit_factory.py", "xboa/hit/factory/_maus_root_recon_hit_factory.py"], [("spill tree", "json document of one spill", "xboa/hit/_hit.py")],
  [("tree traversal", "xboa/hit/factory/_maus_json_hit_factory.py")], ["Hit.get_maus_tree", "Hit.get_maus_dict", "Hit.new_from_maus_object", "MausJsonHitFactory.hit_generator"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x, sort_keys=False) + "\n")
    print(len(P))

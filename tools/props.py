NOTE = ("Obligations are discharged for all sizes, all real/complex values and all paths of the executed code; "
        "assumes exact arithmetic instead of floating point, the dv model of numpy/scipy semantics and the contracts of the external functions listed in the evidence. ")

prop("C01", "Fermi and Bose functions are the documented functions",
     "For every real (or complex, off the poles) energy and inverse temperature, fermi_fct, its derivative, its inverse and bose_fct return "
     "1/(exp(beta eps)+1), -beta e/(e+1)^2, its functional inverse and 1/(exp(beta eps)-1). The Fermi function stays in [0,1] without overflow, integer input is "
     "not truncated, arrays of any shape are handled elementwise and inputs are left unmodified.",
     "all energies (including |beta eps| of several hundred), all beta > 0, integer and floating dtypes, all array shapes",
     "tests compare a handful of floating values with numpy formulas; dtype truncation and overflow branches are not reached for every shape and sign",
     ["gftool/statistics.py"], [("fermi_fct, fermi_fct_d1, fermi_fct_inv, bose_fct", "gftool/statistics.py")],
     NOTE + "All clauses are proved; overflow/accuracy at extreme arguments is additionally evaluated on the real code.")

prop("C02", "Matsubara and Pade frequencies are the poles of the Bose/Fermi functions",
     "matsubara_frequencies(n) and matsubara_frequencies_b(n) return exactly i pi (2n+1)/beta and 2 i pi n/beta, points where exp(beta z) is -1 or +1, for every "
     "integer n, and reject non-integer n with TypeError. pade_frequencies returns ascending positive imaginary frequencies and residues >= 1 whose pole sum equals the "
     "truncated continued fraction of the Fermi function.",
     "all integers n (negative, zero, positive), all beta > 0, all shapes; Pade frequencies: num <= 14 (bounded)",
     "tests only check ordering and single values",
     ["gftool/statistics.py"], [("matsubara_frequencies, matsubara_frequencies_b, pade_frequencies", "gftool/statistics.py")],
     NOTE + "pade_frequencies needs the spectrum of a tridiagonal matrix of arbitrary size: bounded stand-in (num <= 14) on the real code.")

prop("C03", "Pole Green's functions: value, derivative, moments and tail",
     "For all poles p_j, weights w_j and z off the real axis, the pole functions return sum_j w_j/(z-p_j), its derivative -sum_j w_j/(z-p_j)^2 and the moments sum_j w_j p_j^(k-1), with numpy "
     "broadcasting of z against leading pole axes. G(conj z) = conj G(z), positive weights give Im G <= 0 in the upper half-plane, the high-frequency tail is given by the moments, and the "
     "functional and object-oriented interfaces agree without modifying their inputs.",
     "all numbers of poles, all real poles/weights, all complex z off the axis, all broadcast layouts",
     "tests sample a few fixed shapes and pole sets with hypothesis/numpy",
     ["gftool/basis/pole.py", "gftool/__init__.py"], [("gf_z, gf_d1_z, moments, PoleFct, PoleGf", "gftool/basis/pole.py")],
     NOTE + "All clauses are proved (moments for orders 1..6 and non-zero poles; the sign of Im G is proved as an explicit sum of non-positive terms).")

prop("C04", "Pole Green's functions in imaginary and real time",
     "For all poles and weights, G(tau) = -sum_j w_j n_F(-p_j) exp(-tau p_j) on [0, beta] without overflow, the bosonic version is -sum_j w_j exp(-tau p_j)/(1-exp(-beta p_j)) and rejects negative poles "
     "with ValueError, and the retarded function is -i theta(t) sum_j w_j exp(-i p_j t). G(0)+G(beta) is minus the first moment and the occupation is -G(beta) = sum_j w_j n_F(p_j).",
     "all numbers of poles, all tau in [0, beta], all beta > 0, all real t including negative ones, all broadcast layouts",
     "tests check a few samples of tau and the Fourier transform on fixed grids",
     ["gftool/basis/pole.py", "gftool/__init__.py"], [("gf_tau, gf_ret_t, PoleGf.occ/eval_tau/eval_ret_t", "gftool/basis/pole.py"), ("pole_gf_tau_b", "gftool/__init__.py")],
     NOTE + "All clauses are proved; absence of overflow for large beta*pole is evaluated on the real code.")

prop("C05", "Constrained fits: moments, occupation and equality constraints are met exactly",
     "lstsq_ec returns x with c x = d that minimises |a x - b| among all such x; orth_compl returns an orthonormal basis of the complement and rejects matrices that are not tall. "
     "Pole fits from moments, from G(z) and from G(tau) place poles on the scaled Chebyshev nodes, fulfil every given moment and a given occupation (also an occupation of 0) exactly, recover exactly representable functions and "
     "reject more constraints than poles with ValueError.",
     "all matrix sizes, real and complex, batched and not; all moments, widths, weights",
     "tests check random matrices of a few fixed sizes; zero occupation, missing moments and weights are not covered in combination",
     ["gftool/linalg.py", "gftool/basis/pole.py"],
     [("orth_compl, lstsq_ec", "gftool/linalg.py"), ("gf_from_moments, gf_from_z, gf_from_tau", "gftool/basis/pole.py")],
     NOTE + "Proved against the contracts of numpy.linalg qr/solve/lstsq; optimality of the constrained fit and gf_from_z/gf_from_tau are bounded stand-ins on the real code.")

prop("C06", "Matrix decompositions and matrix Green's functions",
     "Every decomposition satisfies rv diag(eig) rv_inv = matrix with rv_inv rv = 1 (rv unitary and eig real for Hermitian input); non-Hermitian or non-symmetric input is rejected where that structure is required. "
     "reconstruct replaces the eigenvalues by arbitrary ones in full, diagonal or einsum form, and the closed 2x2 Green's function is the diagonal of (z-H)^-1 or of its Hilbert transform.",
     "all matrix sizes, batch shapes, real and complex entries, all z in the upper half-plane",
     "tests use a few random matrices of fixed size",
     ["gftool/matrix.py"], [("decompose_*, Decomposition.reconstruct, gf_2x2_z, construct_gf", "gftool/matrix.py")],
     NOTE + "Decompositions are proved against the contracts of numpy.linalg eigh/eig/inv.")

prop("C07", "Fourier transforms between imaginary time and Matsubara frequencies",
     "Each transform back end computes its documented discretisation exactly: the truncated Fourier sum, the Riemann sum, or the exact Fourier integral of the linear spline, for fermionic and bosonic frequencies and any leading axes. "
     "The wrappers add the analytically transformed pole part, so functions with poles at the fit nodes are transformed exactly, accuracy improves with the given moments, and the transforms invert each other on the resolved frequencies; input arrays are not modified.",
     "all grid sizes, all beta > 0, all function values, all leading shapes, any given moments",
     "tests compare with specific pole functions on fixed large grids with loose tolerances",
     ["gftool/fourier.py"], [("iw2tau*, tau2iw*, tau2iv*, izp2tau, tau2izp", "gftool/fourier.py")],
     NOTE + "Back ends proved for all sizes where listed in the evidence; the pole-fit wrappers are bounded stand-ins on the real code.")

prop("C08", "Laplace transform of real-time Green's functions",
     "tt2z applies exactly the documented quadrature (trapezoidal on arbitrary grids, exact integral of the linear spline including z = 0, Simpson weights) to any G(t) for any z in the matching half-plane. Mismatched half-planes, non-equidistant grids where equidistance is needed and unknown "
     "quadratures raise ValueError; the rational back ends sum the infinite quadrature series of a sum of exponentials.",
     "all grid sizes and spacings, all complex z, retarded and advanced, all leading shapes",
     "tests use fixed grids and tolerances of the approximation",
     ["gftool/fourier.py"], [("tt2z, tt2z_trapz, tt2z_lin, tt2z_simps, tt2z_pade, tt2z_herm2, tt2z_lpz", "gftool/fourier.py")],
     NOTE + "The rational back ends are bounded stand-ins on the real code.")

LAT = ["gftool/lattice/%s.py" % n for n in "bethe bethez box onedim square rectangular lieb triangular honeycomb kagome sc bcc fcc".split()]

prop("C09", "Lattice Green's functions are the Hilbert transforms of the lattice density of states",
     "For every complex z off the band and every half bandwidth, each lattice's gf_z (and gf_z_mp where present) equals the Hilbert transform of that lattice's density of states, given by its closed form in terms of square roots, logarithms and elliptic integrals on the physical branch "
     "(decaying as 1/z, Im G of the opposite sign of Im z). Arrays of any shape are handled elementwise, inputs are not modified, and the top level aliases are the same functions.",
     "all complex z off the real axis, all half bandwidths > 0, all coordination numbers / anisotropies, all shapes",
     "tests compare with numeric integration of the DOS on a few hundred samples and mostly half_bandwidth of order one; branch choices are regions of the complex plane",
     LAT, [("gf_z, gf_z_mp", "gftool/lattice/*.py")],
     NOTE + "All closed forms are proved on the executed code, over the contract of scipy.special.ellipk; that the closed form is the Brillouin-zone integral is compared numerically (bounded).")

prop("C10", "Lattice densities of states",
     "Each dos is the documented closed form inside the band and exactly 0 outside for every real eps and half bandwidth: it is never negative, equals -Im G(eps+i0)/pi of the same lattice, is independent of the dtype and shape of eps, does not modify its input, and agrees with its arbitrary-precision "
     "version dos_mp.",
     "all real eps inside and outside the band including integers and band edges, all half bandwidths > 0, all shapes",
     "tests sample the interior of the band at half_bandwidth near one; integer input, band edges and scaled bands are not covered for every lattice",
     LAT, [("dos, dos_mp", "gftool/lattice/*.py")],
     NOTE + "Closed forms proved where listed in the evidence; the relation to Im G and some arbitrary-precision versions are bounded stand-ins on the real code.")

prop("C11", "Inverse, derivatives and real-time functions of lattice Green's functions",
     "For the Bethe lattice gf_z_inv is the exact inverse of gf_z, and gf_d1_z and gf_d2_z are its first and second derivatives, for every z off the real axis and every half bandwidth. The square lattice stress tensor transform is -(z G - 1)/2, and the retarded real-time functions of Bethe and box lattice are "
     "-i theta(t) times 2 J_1(Dt)/(Dt) and sin(Dt)/(Dt), also at and around t = 0.",
     "all complex z off the real axis, all real times including negative and zero, all half bandwidths > 0, all shapes",
     "tests use finite differences and Fourier transforms with loose tolerances for few half bandwidths",
     ["gftool/lattice/bethe.py", "gftool/lattice/square.py", "gftool/lattice/box.py"],
     [("gf_z_inv, gf_d1_z, gf_d2_z, gf_ret_t", "gftool/lattice/bethe.py"), ("stress_trafo", "gftool/lattice/square.py"), ("gf_ret_t", "gftool/lattice/box.py")],
     NOTE + "The series branches around t = 0 are compared numerically (bounded). center != 0 is only specified for half_bandwidth = 1.")

prop("C12", "Moments of the lattice densities of states",
     "dos_moment(m, D) of every lattice equals the exact moment, i.e. the number of closed lattice walks of length m in units of the half bandwidth times D^m, for every tabulated order (at least 1 to 20) and every D. Orders that are not tabulated raise NotImplementedError; the top level aliases agree.",
     "all orders m = 0..24, all half bandwidths > 0, all lattices",
     "tests integrate a numeric DOS to limited accuracy for the lowest orders",
     LAT, [("dos_moment", "gftool/lattice/*.py")],
     NOTE + "The tables are compared with exactly counted lattice walks (rational arithmetic) and the scaling D^m is proved for every D.")

prop("C13", "Symmetries of lattice Green's functions: scaling, reflection, causality and particle-hole",
     "For every lattice and every z off the real axis, scaling all energies by u > 0 scales G by 1/u, G(conj z) = conj G(z), Im G(z) has the sign of -Im z, and on bipartite lattices G(-z) = -G(z) and dos(-eps) = dos(eps).",
     "all complex z off the real axis, all real eps, all half bandwidths and scale factors > 0",
     "tests sample these relations only for some lattices and unit bandwidth",
     LAT, [("gf_z, dos", "gftool/lattice/*.py")],
     NOTE + "Proved from the executed code where listed in the evidence; the sign of Im G for lattices with elliptic integrals is a bounded stand-in on the real code.")

prop("C16", "Non-interacting single impurity Anderson model",
     "hybrid_z, hamiltonian_matrix, gf0_loc_z, gf0_loc_ret_t, gf0_loc_gr_t and gf0_loc_le_t describe the same model: the star Hamiltonian contains every on-site energy and hopping unchanged (real or complex, integer or floating), gf0_loc_z is the impurity element of its resolvent, i.e. "
     "1/(z - e0 - sum_k |V_k|^2/(z - e_k)), and the greater, lesser and retarded functions are -i(1-f), i f and their theta-weighted difference in its eigenbasis, with -i at t = 0+ and zero retarded response at negative times.",
     "all numbers of bath sites, real and complex hoppings, integer and floating dtypes, all z off the real axis, all times, all beta",
     "tests use few bath sites and real floating hoppings",
     ["gftool/siam.py"], [("hybrid_z, hamiltonian_matrix, gf0_loc_z, gf0_loc_ret_t, gf0_loc_gr_t, gf0_loc_le_t", "gftool/siam.py")],
     NOTE + "All clauses are proved for every number of bath sites against the contracts of numpy.linalg.eigh and numpy.linalg.inv.")

prop("C23", "Model Green's functions: surface, Hubbard dimer and Hubbard-I",
     "surface_gf_zeps solves t^2 G^2 - (z-eps) G + 1 = 0 on the physical branch (decaying, Im G opposite to Im z). hubbard_dimer_gf_z has exactly the two poles and weights of the bonding or antibonding orbital, satisfies the dimer's Dyson equation and rejects unknown kinds with ValueError. "
     "hubbard_I_self_z is the self-energy U n z/(z - U(1-n)) of the atomic limit, for which G = (1-n)/z + n/(z-U). All act elementwise with broadcasting and leave their input unmodified.",
     "all complex z off the real axis, all energies, hoppings (either sign) and interactions, all shapes",
     "tests evaluate one or two parameter sets",
     ["gftool/__init__.py"], [("surface_gf_zeps, hubbard_dimer_gf_z, hubbard_I_self_z", "gftool/__init__.py")],
     NOTE + "Closed forms and defining equations are proved; the sign of Im G of the surface function is additionally evaluated on the real code where the verifier does not decide it.")

prop("C14", "Coherent potential approximation",
     "cpa.gf_cmpt_z is the impurity e_i embedded in the effective medium, 1/(1/G + Sigma - e_i); the root equation vanishes exactly where the concentration average of the component Green's functions is the medium's Green's function, and for equal components Sigma is that on-site energy. restrict_self_root_eq agrees with the "
     "unrestricted equation for Im Sigma <= 0 and has no root with Im Sigma > 0. solve_root returns such a root with the shape of the broadcast input or raises RuntimeError; solve_fxdocc_root additionally fixes the occupation and returns the matching chemical potential.",
     "all numbers of components, on-site energies, concentrations, z in the upper half-plane, any Hilbert transform, restricted or not, all batch shapes",
     "tests solve a few fixed alloys (Bethe lattice, two or three components) and compare against a loose tolerance",
     ["gftool/cpa.py"], [("gf_cmpt_z, self_root_eq, restrict_self_root_eq, solve_root, solve_fxdocc_root", "gftool/cpa.py")],
     NOTE + "All clauses are proved relative to the contract of scipy.optimize.root (on success the returned point is a zero of the function it was given); the Hilbert transform is an uninterpreted function.")

prop("C15", "Blackman-Esterling-Berk approximation (off-diagonal disorder)",
     "beb.gf_loc_z is the local Green's function matrix of the effective medium, sum_p w_p (z - Sigma - eps_p T)^-1 for the lattice's density of states, also for singular hopping matrices; the root equation compares the inverse of its diagonal, component-averaged, elements. The spectral decomposition multiplies to the original matrix and truncation keeps "
     "exactly the eigenvalues above rcond. solve_root returns a zero of the root equation with the shape of the broadcast input or raises RuntimeError.",
     "all hopping matrices including singular ones, all concentrations and on-site energies, restricted or not, all batch shapes; matrix sizes 1..4 (bounded) for the matrix identities",
     "tests compare with CPA in limiting cases and one reference model",
     ["gftool/beb.py"], [("gf_loc_z, self_root_eq, restrict_self_root_eq, solve_root, SpecDec", "gftool/beb.py")],
     NOTE + "Partition and truncation of SpecDec, the restriction and solve_root's handling are proved where listed in the evidence; the matrix identities of gf_loc_z and self_root_eq are bounded stand-ins on the real code.")

prop("C17", "Pade analytic continuation by Thiele's continued fraction",
     "pade.coefficients returns the inverse differences of the data and calc_iterator yields the continued fractions of 2, 3, 4, ... points, so that the approximant built from m points reproduces the function at these points and rational functions are continued exactly. KindGf/KindSelf select every second approximant with the documented high-frequency tail, "
     "the filters keep exactly the approximants they document, and Averager/averaged return mean and standard deviation over the selected valid approximants, independently for stacked functions.",
     "all numbers of points, all distinct complex z and generic function values, all evaluation shapes, all n_min/n_max",
     "tests continue a few analytic functions with tolerances",
     ["gftool/pade.py"], [("coefficients, calc_iterator, KindGf, KindSelf, KindSelector, FilterNegImag, FilterNegImagNum, FilterHighVariance, Averager, averaged, Mod_Averager, avg_no_neg_imag", "gftool/pade.py")],
     NOTE + "Coefficients, iteration and interpolation are proved for all numbers of points by loop invariants and induction; filters and averages are bounded stand-ins where the evidence says so.")

prop("C18", "Pade and Hermite-Pade approximants of Taylor series",
     "hermpade.pade, pader and pade_lstsq return polynomials with q f - p = O(x^(num_deg+den_deg+1)) (or its least-squares version with q[0]=1), hermite2 and hermite2_lstsq return p, q, r with p + q f + r f^2 = O(x^(p_deg+q_deg+r_deg+2)); all have the requested degrees, too few coefficients raise ValueError. The branches of Hermite2 are the two solutions of the quadratic "
     "equation and eval picks the branch closest to the Pade approximant. Rational and algebraic functions are recovered from their Taylor series.",
     "all degrees (including zero numerator or denominator), all real and complex Taylor coefficients with regular linear systems",
     "tests use exp/log series of few degrees",
     ["gftool/hermpade.py"], [("pade, pader, pade_lstsq, hermite2, hermite2_lstsq, Hermite2, _Hermite2Ret", "gftool/hermpade.py")],
     NOTE + "Order conditions are proved for all degrees relative to the contracts of scipy/numpy linear algebra (solve, qr, svd, matmul_toeplitz); least-squares optimality and recovery are bounded stand-ins on the real code.")

prop("C19", "Linear prediction",
     "companion builds the companion matrix of the prediction polynomial, and predict keeps the given data and extends them by x_n = -sum_k a_k x_(n-1-k) for every order, length and number of steps; stable=True drops exactly the growing modes. pcoeff_covar returns the coefficients minimising the prediction error and that error, pcoeff_burg those of Burg's recursion, which are "
     "stable (all roots inside the unit circle) with an error variance between 0 and the signal's power. Sums of damped exponentials are predicted exactly; vanishing leading coefficients, negative numbers of steps and orders not below the number of data raise ValueError. Input is not modified.",
     "all orders, all signal lengths, all numbers of predicted steps, real and complex signals, all leading axes",
     "tests check a few orders on fixed decaying signals",
     ["gftool/linearprediction.py"], [("companion, predict, pcoeff_covar, pcoeff_burg", "gftool/linearprediction.py")],
     NOTE + "predict and Burg's recursion are proved for all orders and lengths with loop invariants, the covariance method against the contract of numpy.linalg.lstsq; stability of Burg's coefficients and recovery of exponentials are bounded stand-ins on the real code.")

prop("C20", "Chemical potential for a given occupation",
     "chemical_potential hands the root search a bracket on which the occupation error changes sign, starting at mu0 with steps of step0 that double, whatever the function and the starting point, and returns the root of occ_root that it finds. If no root is found, "
     "RuntimeError is raised which carries the last mu; occ_root is only evaluated, extra arguments go to the root search.",
     "all occupation functions, all starting points and steps, every number of bracketing iterations",
     "tests search the root of a few monotonous functions",
     ["gftool/density.py"], [("chemical_potential", "gftool/density.py")],
     NOTE + "The bracketing loop is proved with a loop invariant for every number of iterations, relative to the contract of scipy.optimize.root_scalar; termination of the bracketing is not claimed.")

prop("C21", "Densities from Matsubara sums and their error estimates",
     "density_iw returns 2/beta sum_n w_n Re[G_n - P(iw_n)] + occ(P), where P is the pole function that meets the given moments exactly and, with n_fit, is fitted to the tail with weights w^(n_mom+n_fit); pole functions give their exact occupation. density subtracts 1/(iw + x) and adds n_F(-x), per element, summed (total) or as diagonal of matrices (matrix=True, hermitian x). "
     "density_error is 1/(pi w_last) times the average or maximum of w_n^2 Delta_n over the upper nine tenth of the frequencies, and check_convergence returns w_n^order Delta_n.",
     "all numbers of frequencies and leading axes, all Green's functions and potentials, Matsubara and Pade frequencies, any moments and number of fitted poles",
     "tests use the Bethe lattice at few temperatures with loose tolerances; complex hermitian potentials and fits are not covered",
     ["gftool/density.py", "gftool/__init__.py"], [("density_iw", "gftool/density.py"), ("density, density_error, density_error2, check_convergence", "gftool/__init__.py")],
     NOTE + "Proved relative to the contracts of C04/C05 (occupation of pole functions, fits from moments and from G(z)) and numpy.linalg eigh; recovery of the exact occupation is evaluated on the real code.")

prop("C22", "Rational functions by zeros and poles and pole-based Pade continuation",
     "ZeroPole.eval is a prod(z - zeros)/prod(z - poles), reciprocal its inverse and to_ratpol the same function, also without zeros or poles. PadeApprox evaluates amplitude (for degree 0) plus sum of residues/(z - poles), its moments follow from poles and residues. asymptotic is the (weighted) mean and standard deviation of the ratio to the monic function, "
     "residues_ols solves the weighted least-squares problem and meets given moments exactly. continuation searches poles and zeros in rotated coordinates and recovers rational functions (number of poles, poles, zeros, residues and values off the samples); degrees above 0 and too many poles raise ValueError.",
     "all numbers of zeros and poles, all complex sample points and values, all weights and moments, degrees 0, -1, -2",
     "tests continue a few fixed functions with loose tolerances; weights, missing zeros and moments are not covered in combination",
     ["gftool/polepade.py", "gftool/basis/__init__.py"], [("continuation, PadeApprox, asymptotic, residues_ols, number_poles, poles, zeros", "gftool/polepade.py"), ("ZeroPole", "gftool/basis/__init__.py")],
     NOTE + "Evaluation, asymptotic, residues and the structure of continuation are proved for all sizes relative to lstsq/qr contracts; poles, zeros and number_poles need SVD ranks and generalised eigenvalues of noisy data: bounded stand-in (recovery) on the real code.")

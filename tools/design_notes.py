"""Hand-written part of DESIGN.md, per property: (what is specified/oracle, restrictions and false alarms corrected)."""
N = {}
N["P01"] = ("Reference: an index-free description of the configuration (which parameter of which model is free) built from the profile parameter names, links and options; the real Param object must publish exactly these names, limits and round trips. Decode history v1, v2, v1 exposes state kept between vectors.",
 "Vector entries lie strictly inside the limits. Array-valued amplitudes of the MULTI_GAUSSIAN deflectors are a known finding.")
N["P02"] = ("Reference state machine written in the harness: a plain dictionary model of values, fixed parameters, limits, widths and options to which every edit is applied functionally. The real UpdateManager / FittingSequence is driven through all histories and compared after every step; inputs are snapshotted before and compared after.",
 "Optimisation steps use an analytic likelihood and a fixed seed so the state after them is known.")
N["P03"] = ("Every reached state is compared with a newly built LensModel in the same configuration (the specification is 'state = configuration'), on potential, deflection, Hessian, flexion-type derivatives, arrival times and ray shooting.",
 "Evaluating a frozen model with other parameters is outside the contract. A frozen model that gets a new cosmology keeps the physical positions of deflectors given by observed position (documented).")
N["P04"] = ("Oracle: single-component LensModel objects evaluated one at a time and added by the harness; derived quantities from the written-out formulas.",
 "The Fermat potential with line-of-sight flexion corrections is only compared on-shell (it is defined there only). Non-zero line-of-sight corrections are compared with their written-out formula; the stationarity of the Fermat potential holds for zero rotation only, and the Jacobian of the flexion correction is compared to first order with small corrections.")
N["P05"] = ("The relations between the real functions are the oracle: central differences (Richardson) of potential and deflection, quadrature of convergence and density, rotation/translation operators, and pairs of descriptions. Corner positions: the axes, scale radii and r(1 +- 1e-16 .. 1e-7) next to them, where removable singularities and cancellation live.",
 "Tolerance classes for profiles that differentiate numerically or are documented as approximate; profiles without potential are checked from the deflection on; the branch cut of ARC_PERT, odd multipoles (pi ambiguity), MULTIPOLE_ELL for m other than 1, 3, 4 and INTERPOL in grid mode on non-square grids are not compared; CNFW is not evaluated next to its scale radius (quadrature noise).")
N["P06"] = ("Independent reference: the lens-plane recursion written with numpy, for every assignment, order, source and stop.", "Reference distances are those of a flat cosmology.")
N["P07"] = ("Each answer is compared with a fresh PointSource in the same configuration and with closed-form relations (flux = intrinsic flux x |magnification|, responses x amplitudes = fluxes).",
 "The caller drops the cache when parameters change (documented). Sources are chosen with four robust images.")
N["P08"] = ("Each kernel is compared with that of a fresh PSF; resampling utilities against an independent area-overlap rebinning.", "A Gaussian PSF is queried after its pixel size is known.")
N["P09"] = ("Affine reference in the harness (matrix and offset, current alignment applied); grid utilities against index-by-index loops.",
 "make_grid_with_coordtransform / left_lower only at subgrid_res=1 and square image helpers only on squares, as documented.")
N["P10"] = ("Written-out variance and likelihood formulas; noise draws replaced by a recording stand-in so drawn and reported noise are compared exactly.", "")
N["P11"] = ("Brute-force evaluation: sub-pixel average by explicit loops, dense convolution by explicit summation, point sources by explicit placement.",
 "Square images and windows; point-source kernels with a zero border; a 1-pixel PSF is not supersampled; the variance estimate next to the edge is zero by design.")
N["P12"] = ("Independent assembly of the image from separately rendered components in the harness, and for histories a fresh ImageModel.",
 "Offsets that are not given keep their previous value (as coded and used); the primary beam is defined at pixel sampling only; the caller drops the point-source cache.")
N["P13"] = ("Each response row is re-rendered from a model in which only that amplitude is one; the solution is checked by the normal equations, never by re-running the solver.",
 "Unconvolved responses of point sources and of interferometric beams are documented/pinned otherwise and not compared; LINEAR profiles are not linear in amp; systems with condition > 1e7 must only be finite; interferometric mode with a supersampled PSF raises by design.")
N["P14"] = ("Ray tracing of each component to its own redshift with separate LensModel objects built for that redshift.", "With sampled distance ratios image2source is compared for the first source plane only.")
N["P15"] = ("For every assignment the harness selects the components by hand and builds the single-band model; joint modes against one stacked weighted least-squares system.",
 "A uniform component is degenerate with free backgrounds (not combined). An omitted alignment keeps the previous one.")
N["P16"] = ("Each term is recomputed from its formula by the harness; the total is their sum. Histories interleave vectors inside, on and outside the bounds, vetoed vectors and pickled copies. For the 2D kinematic term the neural network (not installed) is replaced by an analytic map of all nine network parameters, so that alignment, rescaling, binning and bounds are exact.",
 "NaN image positions are not explored; magnification limits are used where image counts must be robust; the log-normal prior is a known finding (pinned by tests). The 2D kinematic term is explored with imaging frames centred on the coordinate origin (its documented alignment) and with the velocity-map blurring pinned by the tests.")
N["P17"] = ("The likelihood is an oracle tape: all sequences over a small value alphabet are enumerated, so the swarm's decisions are explored exhaustively; worker schedules are enumerated as permutations/assignments of a batch; interruptions are injected at every evaluation when a storage file is used.",
 "NaN fitness is excluded from personal bests. The slice sampler zeus may give up by itself on an unlucky draw (its own RuntimeError): it is retried with other random numbers, which are otherwise fixed. This was a false alarm of an earlier version (unseeded module `random`).")
N["P18"] = ("Direct Gauss-Legendre integration of the expansion history; inverse pairs composed in both orders.",
 "InvertCosmo is checked through the forward distances (1 %); concentrations 4-20.")
N["P19"] = ("Relations between real functions (linearity, shift, rotation, quadrature, projection, basis inversion) and single-profile sums.",
 "INTERPOL and LINE_PROFILE angles are clockwise; PL_SERSIC diverges at its centre for steep cores; half-light tolerance 6e-3, PL_SERSIC flux 5 %; light_3d is defined by the round profile; LINEAR is not linear in amp; flux of the Sersic profile with flexion is a known finding.")
N["P20"] = ("Soundness by ray shooting every returned image; completeness against a fine independent tiling of the image plane; the constraint solvers by mapping the images back.",
 "Completeness is demanded for images the grid resolves (|magnification| 0.5-25, >= 4 spacings apart); the stochastic solver is not explored; |magnification| < 1e-3 is exempt from the precision demand. Six known findings: the analytical solver loses on-axis images for sources exactly on a symmetry axis.")
N["P21"] = ("Reference Jeans integration (direct quadrature) in the harness, aperture membership by independent geometry on a lattice, Monte-Carlo draws replaced by an exhaustive lattice.",
 "Const anisotropy above -0.5, tables dropped by the caller as documented; galaxy at the origin for the Monte-Carlo estimators; 5 % between back ends; the outer tail (r > 3) of a multi-Gaussian expansion of an exponential is not compared.")
N["P22"] = ("Direct quadrature / differentiation of the model's own convergence, Jacobian and surface brightness.",
 "1-6 % where the routine samples coarsely by design; no grid pixel exactly on a singular centre; finite-area stretches below 15.")
N["P23"] = ("Brute force: tent-function footprints evaluated densely for every source pixel, convolution by explicit loops, quadratic forms of the zero-padded source, numerical derivative of the evidence.",
 "Square image frames. Ray shooting of a pixelated source is documented to leave out the primary beam.")

N["P24"] = ("A written-out estimate (weighted least squares, integer cutouts, masks, rotations, stacking) for one PSF update; step-by-step replay with newly built objects for iterations and histories; recording of every likelihood evaluation of the swarm for alignment and calibration.",
 "`never worse` is only demanded where each band has its own linear solve (multi-linear) or for the joint calibration, since the PSF and alignment steps evaluate one band at a time. Point sources lie at pixel centres with exactly representable coordinates: `ndimage.shift` drops the last kernel row for a shift of 1e-16, which the first version of this check reported against kernels that do not vanish at their edge (false alarm, corrected). The limits given to alignment and calibration are those of the initial swarm (the swarm itself is unbounded by design), so they are not demanded of the result.")

N["P25"] = ("Hand-built models for every enumerated configuration; fluxes by polar quadrature; least squares by numpy on independently weighted responses; patch frames by integer arithmetic.",
 "The reconstructed model image is zero in masked pixels (as coded). Joint amplitudes are compared for bands with the same components.")

N["P26"] = ("The settings of a module loaded anew for the one request (fresh reference), and the table of published values.",
 "HST with a pixelised PSF on WFC3_F160W keeps the documented default of that band (Gaussian); the check does not demand more than the code documents there.")
N["P27"] = ("Definitions written out pixel by pixel or point by point in the harness.",
 "The multi-Gaussian expansion may use fewer components than requested (its documented fallback); sectors of `mask_half_moon` do not cross the branch cut of the angle (the behaviour there is undocumented). The first and last ring are left out by `azimuthal_average` by construction, and its bin radii are only counted. With ties, image matching may follow either candidate.")
N["P28"] = ("Multi-plane LensModel objects built by hand for every layout; translated parameters written out in the harness; newly built optimizers for repeated fits.",
 "The multipole dictionary the caller passes is overwritten by the multipole classes: a recorded finding, because an existing unit test pins it. \"Fits\" (images traced to one point) is only demanded where all parameters are free.")
N["P29"] = ("The arrays, extents, limits, line points, markers and texts found on the matplotlib axes (Agg) against quantities of hand-built models; critical curves by bisection along rays.",
 "Colours, fonts and positions of titles are only checked where an argument asks for them. The first version demanded rectangular images, which the image simulation refuses by design, and used an SIE, whose convergence is only reproducible to 1e-6 (finite softening), both corrected. Curves are compared within the sampling of the tiling.")

N["P30"] = ("the profile evaluations of the installed coolest package (deflection, convergence, Sersic light) in the mirrored frame; shapelets by evaluating the original amplitudes in the original frame; statistics of the samples converted one by one to the parameters of the standard; templates are written to and read from a scratch folder that is removed",
            "Sersic light is compared to 2e-3 because the standard approximates b_n, and exactly on the isophote of the effective radius. Images are square (COOLEST itself exchanges the axes of others). Templates always carry a noise map, which the interface requires. Orientation statistics are checked for samples that spread over less than 25 degrees.")

# --- additions
for _k, _t in {'P05': ' Physical masses: density_lens, mass_3d_lens and mass_2d_lens of the profiles are compared with each other by quadrature and with the conversion of angular to physical parameters. (grav_pot of SIS, SPP and SIE is M/r by definition there and is not compared with the potential.)', 'P06': ' update|* enumerates histories of source-redshift updates of the multi-plane classes against a newly built object.', 'P07': ' Lens changes include a lens with another source-redshift convention; original_position is asked with and without additional images; models with a source fixed by saved positions are part of the deep histories.', 'P08': ' Kernels of 3 and 5 pixels and even/odd super-sampled sizes and widths are part of the enumeration.', 'P13': ' Amplitude scales from 1e-6 to 1e6 and several (more than two) solved bands are enumerated.', 'P14': ' close|* places sources and deflectors near each other in redshift order.', 'P15': ' The error map of the reconstructed source is compared with the propagated covariance.', 'P16': ' The 2D kinematic term is exercised with a recording stand-in network; non-finite likelihoods, flux-ratio counts and several additional likelihoods are enumerated.', 'P18': ' Pairs that start at redshift 0 inside arrays, tables to redshift 12 and concentrations from 0.4 to 29 are included (the tabulated inverse of steep gNFW halos below concentration 1 is not judged: it is coarse).', 'P19': ' Linear bookkeeping is also enumerated for every pair of profiles late in a list of five.', 'P21': ' Single apertures of both back ends, several observations, analytic and dimensionless dispersions and time-delay cosmography are compared with each other; up to seven shells.', 'P20': ' The stochastic solver is part of the comparison.', 'P22': ' Mass fractions on coarse grids and several finite sources are included.', 'P23': ' The strength solver is also given every declared derivative with its root on a grid of the bracket, ends included.', 'P24': ' Iterations that overshoot and cutouts with a mask of each star are included.', 'P25': ' Varying sources are placed in moved and mirrored frames of several sizes.', 'P27': ' Half-light radii and moments of every 2x3 image with negative pixels, spectra of rectangles and shells with common borders are enumerated.', 'P29': ' The distortion overview is compared panel by panel.', 'P30': ' Chains of which no sample reaches the threshold are not judged (the repaired code keeps the whole chain with a warning, because the test-suite relies on it).'}.items():
    N[_k] = (N[_k][0] + _t, N[_k][1])
for _k, _t in {'P01': ' Every point-source solver (two images: centre, ellipse, theta_E with the shear or ellipticity angle; four images: profile, profile with shear, NFW) is decoded for the true vector and every one-coordinate move of it: sampled values survive, turned components keep their strength, the images share one source and the decoded model decodes to itself after encoding. Moves for which the family has no solution are left out.'}.items():
    N[_k] = (N[_k][0] + _t, N[_k][1])

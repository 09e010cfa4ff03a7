prop("P03", "Lens answers depend on the current configuration, not on the history",
     "After any sequence of freezing and releasing the model on parameter sets, changing the source redshift or the cosmology, and evaluating, every lensing quantity equals the one of a newly built model in the same configuration. A frozen model keeps answering for the parameters it was frozen with; a released one answers for the parameters given.",
     ["histories", "configurations"], "all histories of up to three (four) operations for every registered lens profile alone and in pairs, and for eight single- and multi-plane configurations",
     "a stale cache needs a particular order of freezing, evaluating and reconfiguring with two different parameter sets; unit tests freeze once and evaluate once",
     ["LensModel/lens_model.py", "LensModel/profile_list_base.py", "LensModel/MultiPlane/multi_plane.py", "LensModel/single_plane.py"],
     [("freeze/release", "LensModel/profile_list_base.py"), ("multi-plane freeze", "LensModel/MultiPlane/multi_plane.py"), ("redshift and cosmology updates", "LensModel/lens_model.py")],
     "explicit-state enumeration of all operation histories to a depth; every reached state compared with a fresh instance")

prop("P04", "Lensing quantities are sums over the selected components",
     "For every list of deflectors, every order of the list and every selection of components in any accepted form, potential, deflection and Hessian are the sums of the single-component quantities, with each component scaled to its own source redshift. Convergence, shear, magnification, ray shooting, Fermat potential and line-of-sight corrections follow from these sums by their definition, the answer at a position does not depend on the other positions evaluated with it, and arguments are not modified.",
     ["configurations", "inputs"], "every registered lens profile alone, doubled and next to another one; all 16 component subsets in every selection form; all 24 list orders; all ordered selections of up to four evaluation points; line-of-sight corrections at every list position",
     "index errors and in-place accumulation show only for particular selections, positions in the list or array shapes, which tests sample sparsely",
     ["LensModel/single_plane.py", "LensModel/lens_model.py", "LensModel/profile_list_base.py", "LensModel/LineOfSight/single_plane_los.py", "LensModel/LineOfSight/LOSModels/*.py"],
     [("superposition", "LensModel/single_plane.py"), ("selection of components", "LensModel/profile_list_base.py"), ("line-of-sight corrections", "LensModel/LineOfSight/single_plane_los.py")],
     "exhaustive enumeration of lists, orders, selections and point subsets on the real code, compared with independently evaluated single components")

prop("P05", "Every lens profile describes one consistent mass distribution",
     "For every deflector and every admissible parameter set the deflection is the gradient of the potential, the Hessian is the gradient of the deflection and symmetric, and moving or rotating the deflector moves or rotates its field. Enclosed masses, densities and convergence integrate to one another, and different descriptions of the same deflector (parametrisations, circular limits, sums of components, tables) give the same field.",
     ["inputs", "configurations"], "every registered lens profile, 3-10 generic and degenerate parameter sets, grids of positions, all multiples of 30 degrees of rotation, all query orders of tabulated deflectors",
     "the relation must hold at every position and parameter value of a hundred profiles; tests compare single numbers at single points",
     ["LensModel/Profiles", "LensModel/profile_list_base.py"],
     [("profiles", "LensModel/Profiles"), ("profile registry", "LensModel/profile_list_base.py")],
     "exhaustive enumeration of profiles x parameter lattice x position grid x symmetry operations; the relation between the real functions is the oracle")

prop("P06", "Multi-plane light rays obey the lens-plane recursion",
     "For every assignment of deflectors to redshifts, every order of the deflector list, every source redshift and every intermediate redshift, ray positions, angles, deflections and arrival times are those of the sequential lens-plane recursion. Only deflectors in front of the evaluated redshift act, propagating a ray in several pieces equals propagating it at once, and deflectors given by their observed position appear at that position on the sky.",
     ["configurations", "inputs"], "all assignments of three deflectors to four redshifts, all list orders, all pairs of stopping redshifts, all subsets of deflectors given by observed position",
     "off-by-one plane selection and ordering errors need coinciding or unsorted redshifts and stops on or between planes; tests use one sorted configuration",
     ["LensModel/MultiPlane/multi_plane.py", "LensModel/MultiPlane/multi_plane_base.py", "LensModel/MultiPlane/decoupled_multi_plane.py", "Cosmo/background.py"],
     [("ray recursion", "LensModel/MultiPlane/multi_plane_base.py"), ("observed positions", "LensModel/MultiPlane/multi_plane.py"), ("decoupled planes", "LensModel/MultiPlane/decoupled_multi_plane.py")],
     "exhaustive enumeration of plane assignments, orders and stops on the real code against an independent reference recursion")

prop("P07", "Point-source answers are independent of the query history",
     "For every sequence of position, amplitude and brightness queries, cache switches, lens replacements and search-window changes, each answer equals that of a newly built object in the same configuration, and no argument or shared model is modified. Amplitudes follow from intrinsic flux and absolute magnification (with its limit and perturbations) exactly when magnification is fixed, and unit responses times amplitudes give the fluxes.",
     ["histories", "configurations"], "all histories of up to two or three of 18 queries and five operations for 12 point-source configurations, all on/off combinations of fixed magnification",
     "stale image positions appear only when two parameter sets and several query kinds are interleaved, which tests never do",
     ["PointSource/point_source.py", "PointSource/point_source_cached.py", "PointSource/Types", "LensModel/Solver/lens_equation_solver.py"],
     [("composition", "PointSource/point_source.py"), ("cache", "PointSource/point_source_cached.py"), ("source types", "PointSource/Types")],
     "explicit-state enumeration of query/operation histories on the real code; every answer compared with a fresh instance and a closed-form relation")

prop("P08", "PSF kernels depend on the PSF definition, not on earlier queries",
     "For every PSF definition and every sequence of kernel queries, supersampling requests and pixel-size changes, each kernel is that of a newly built PSF with the same definition and pixel size; answers given earlier and the caller's arrays never change. Kernels are square with odd size and sum to one (to the input sum when normalisation is off), a supersampled kernel binned to pixels is the pixel-scale kernel, and rebinning, cutting, splitting and padding kernels conserve flux position by position.",
     ["histories", "configurations"], "all histories of up to four (five) of 12 queries and pixel-size changes for 13 PSF definitions; all odd kernel sizes 3-19 and factors 1-5",
     "a stale or overwritten kernel needs a particular order of requests with different factors or pixel sizes; tests ask once per object",
     ["Data/psf.py", "Util/kernel_util.py"], [("kernel caches", "Data/psf.py"), ("kernel resampling", "Util/kernel_util.py")],
     "explicit-state enumeration of query histories on the real object against fresh instances and an independent area-overlap rebinning")

prop("P09", "Pixel grids and coordinate transforms describe one affine map",
     "After any sequence of shifts and rotations of the coordinate frame, pixel-to-sky and sky-to-pixel maps are inverse to each other and all derived quantities (pixel coordinates, origin, area, width, centre) belong to the same affine map: the original one with the current alignment applied. Grids, sub-grids, image-array conversions, averaging, selection and matching utilities agree with their index-by-index definition for every size.",
     ["histories", "inputs"], "all pairs of 32 frame operations and all sequences of four of 6 for 18 objects; all grid sizes 1-5 x 1-5; all selections and permutations up to length four",
     "partial updates in a particular order leave one of several redundant quantities stale; axis swaps show only on non-square grids",
     ["Data/coord_transforms.py", "Data/pixel_grid.py", "Data/imaging_data.py", "Util/util.py"], [("affine transform", "Data/coord_transforms.py"), ("pixel grid", "Data/pixel_grid.py"), ("grid utilities", "Util/util.py")],
     "explicit-state enumeration of alignment histories against an affine reference; exhaustive grids sizes, permutations and selections")

prop("P10", "Pixel variances and pixel likelihood follow the declared noise",
     "For every way of declaring the noise and every sequence of data replacements and queries, pixel variances are background plus Poisson plus gradient terms of the current data or model (or the given noise map), and the log likelihood is minus half the masked, variance-weighted sum of squared residuals; arguments are not modified and data of another shape are rejected. Simulated observations draw and report exactly the noise their image data assume, and magnitudes, count rates, gains and amplitudes convert consistently for every component.",
     ["histories", "configurations"], "all histories of up to three of 12 operations for 10 noise declarations; all sequences of up to three observation updates for 12 set-ups; all lists of up to three light components",
     "cached variances go stale only for particular orders of replacement and query, and unit factors show only in particular combinations of gain, exposures and units",
     ["Data/imaging_data.py", "Data/image_noise.py", "SimulationAPI", "Util/data_util.py"], [("noise", "Data/image_noise.py"), ("likelihood", "Data/imaging_data.py"), ("observation", "SimulationAPI/observation_api.py"), ("magnitudes", "SimulationAPI/mag_amp_conversion.py")],
     "explicit-state enumeration of query histories and observation-update histories against written-out formulas")

prop("P11", "Pixelisation, supersampling and convolution follow their definition",
     "For every combination of sampling mode, supersampling factor, evaluation window, supersampled pixels, kernel size and convolution method, the image of a surface-brightness distribution is its sub-pixel average over the evaluated pixels convolved with the point-spread function, times the pixel area, and it does not depend on images processed before with the same object or on where the window lies in the frame. Point sources are placed as the kernel at their sky position with their full amplitude, cut at the frame edge, and add up.",
     ["configurations", "histories", "inputs"], "all combinations of the numerical options for nine PSFs, all call sequences of up to three images, all square windows of a 5x5 frame, all 512 masks of a 3x3 frame, all half-pixel source positions in and around the frame",
     "options interact (mask with supersampling, window with offset, kernel split with cut) and tests combine few of them on symmetric frames",
     ["ImSim/Numerics/numerics.py", "ImSim/Numerics/numerics_subframe.py", "ImSim/Numerics/grid.py", "ImSim/Numerics/convolution.py", "ImSim/Numerics/adaptive_numerics.py", "ImSim/Numerics/point_source_rendering.py"],
     [("grids", "ImSim/Numerics/grid.py"), ("convolution", "ImSim/Numerics/convolution.py"), ("adaptive convolution", "ImSim/Numerics/adaptive_numerics.py"), ("sub-frame", "ImSim/Numerics/numerics_subframe.py"), ("point sources", "ImSim/Numerics/point_source_rendering.py")],
     "exhaustive enumeration of option combinations, masks and call sequences on the real code against a brute-force evaluation")

prop("P12", "A simulated image is the sum of its declared components",
     "For every rendering configuration and every selection of lens, source, lens-light and point-source components, the image is the sum of the separately rendered components with flux scaling, primary beam, differential extinction, frame alignment and astrometric shifts applied exactly once and to the components they are declared for. Every query answers as a newly built model with the current data, PSF and alignment would, whatever was rendered or replaced before, and arguments are never modified.",
     ["configurations", "histories"], "all combinations of four PSFs, five samplings, primary beam, extinction, four alignments, astrometric shifts and flux scaling, all component switches; all sequences of three of 17 queries and updates",
     "the options interact and the frame, PSF and caches are shared mutable state: an error needs a particular combination or order that tests do not sample",
     ["ImSim/image_model.py", "ImSim/differential_extinction.py", "ImSim/image2source_mapping.py", "Data/imaging_data.py"],
     [("image assembly", "ImSim/image_model.py"), ("extinction", "ImSim/differential_extinction.py"), ("source mapping", "ImSim/image2source_mapping.py")],
     "exhaustive enumeration of option combinations against an independent assembly, and explicit-state enumeration of query/update histories against fresh instances")

prop("P13", "Linear amplitudes are solved exactly and describe the rendered image",
     "For every model, each row of the linear response is the rendered image of that single amplitude, in the order of the amplitude vector, so that response times amplitudes is the image. The solved amplitudes satisfy the noise-weighted normal equations, noiseless data return the amplitudes that made them, the returned model is the image of the updated parameters, the covariance is the inverse of the normal matrix, and the (marginalised) likelihood follows from these.",
     ["configurations", "inputs"], "all point-source types with and without fixed magnification, all source-plane assignments, all PSF/sampling/beam/extinction/mask/alignment combinations, every linear light profile, every small system over a three-value alphabet",
     "a wrong order or factor of one amplitude appears only for particular lists of components with several amplitudes each and is absorbed by the fit",
     ["ImSim/image_linear_solve.py", "ImSim/de_lens.py", "LightModel/light_model_base.py", "PointSource/point_source.py", "ImSim/image2source_mapping.py"],
     [("response matrix", "ImSim/image_linear_solve.py"), ("weighted least squares", "ImSim/de_lens.py"), ("amplitude order", "LightModel/light_model.py")],
     "exhaustive enumeration of model set-ups and small systems on the real solver; the rendered unit-amplitude images and the normal equations are the oracle")

prop("P14", "Each source component is seen through the deflectors in front of it",
     "For every assignment of source components to redshifts or deflection scalings, in any order and with any ties, the position, flux and amplitude responses of each component are those of light rays traced to that component's own redshift; selections return the selected components and responses keep the order of the component list. Sampled cosmologies and distance ratios act on every later query exactly as if the model had been built with them, whatever was evaluated before. Tracer images are light-weighted means over the same mapping.",
     ["configurations", "histories"], "all assignments of up to three components to four redshifts and of three deflectors to planes, every selection form, all sequences of three cosmologies or distance-ratio sets",
     "re-ordering by redshift and stepwise ray tracing are right in the sorted single-plane set-up tests use and wrong only for unsorted, tied or partially selected sources",
     ["ImSim/image2source_mapping.py", "ImSim/multiplane_organizer.py", "ImSim/tracer_model.py", "LensModel/MultiPlane/multi_plane.py"],
     [("source mapping", "ImSim/image2source_mapping.py"), ("distance ratios", "ImSim/multiplane_organizer.py"), ("tracer", "ImSim/tracer_model.py")],
     "exhaustive enumeration of plane assignments, selections and parameter histories on the real code against per-component ray shooting and a reference recursion")

prop("P15", "Every band uses exactly the components, data and alignment assigned to it",
     "For every assignment of model components to imaging bands (any subset in any order, per component type), every set of computed bands, masks, alignments and linear modes, each band's image, response, errors, residuals and solution are those of a model built by hand from the assigned components with their own settings, redshifts, scalings and parameters. Separate linear modes add up independent bands; joint linear modes solve one weighted least-squares system over all computed bands (with one free background per computed band where requested), count its parameters once, write the solved amplitudes back and test their sign. Leaving an index list out, setting it to None or listing everything mean the same.",
     ["configurations", "histories"], "every ordered selection of up to three components per type over two bands, all computed-band sets of two and three bands, masks, all alignment sequences of length two",
     "index selections that forget one of the parallel lists, or bands that are skipped, agree with the right answer in the one-band and identical-band set-ups tests use",
     ["Util/class_creator.py", "ImSim/MultiBand/*.py", "Analysis/image_reconstruction.py", "ImSim/tracer_model.py"],
     [("selection", "Util/class_creator.py"), ("bands", "ImSim/MultiBand/*.py"), ("reconstruction", "Analysis/image_reconstruction.py")],
     "exhaustive enumeration of band assignments, computed-band sets and alignment histories on the real code against hand-built single-band models and an independent least-squares solution")

prop("P16", "The likelihood is the sum of its terms and depends on the parameters alone",
     "For every combination of likelihood terms the value returned for a parameter vector is the sum of the image, tracer, time-delay, flux-ratio, astrometric, image-position, source-position, two-dimensional kinematic, prior and custom terms, each equal to its defining formula with its masks, error forms, redshifts and the sampled cosmology or redshifts of that same vector. It does not depend on what was evaluated before, on other instances, or on being sent to another process; vectors outside the bounds (and only those) get the rejection value, custom vetoes reject, terms that are not a number get a low finite value. The arguments, data and settings are not changed, the shared lens model is left at its own source redshift, and the number of data points counts each measurement once.",
     ["configurations", "histories"], "all subsets of eight terms in eight model variants, all evaluation histories of length three over seven parameter vectors, all masks, error forms and prior combinations of the terms",
     "samplers call the likelihood millions of times in arbitrary order from several processes; state left in shared lens models or caches biases the posterior without failing any single-call test",
     ["Sampling/likelihood.py", "Sampling/Likelihoods/*.py", "Sampling/parameters.py", "Data/kinematic_bin_2D.py", "Util/kin_sampling_util.py"],
     [("sum of terms", "Sampling/likelihood.py"), ("terms", "Sampling/Likelihoods/*.py")],
     "exhaustive enumeration of term subsets and evaluation histories on the real code against independently computed terms and fresh instances")

prop("P17", "Optimizers and samplers return what they evaluated, in any schedule",
     "A particle swarm returns the most likely of all positions it evaluated including its start, with a never-decreasing history of positions and their own likelihoods, personal bests that are the best of each particle's own positions, and the same result for every order and assignment of evaluations to workers and with several samplers alive. Chains and nested samples have the requested length, stay in the limits, follow the declared priors and pair each sample with its own likelihood; a fitting step keeps the best of them. With a storage file an interruption at any evaluation keeps all completed steps, resuming continues from them unchanged and starting anew resets them; medians and error bars of samples shift, scale and reflect with the sample.",
     ["schedules", "crash_points", "histories", "inputs"], "all likelihood-value histories of swarms of up to three particles, all worker assignments and orders of a batch of three, all histories of three runs/resumptions/interruptions with a storage file, a full grid of the unit square for the prior transforms, all samples of up to five values",
     "swarm and chain tests check that a smooth optimum is found roughly; a best value lost in one particular order of improvements, or a sample paired with another sample's likelihood, passes them",
     ["Sampling/sampler.py", "Sampling/Samplers/*.py", "Sampling/Pool/*.py", "Util/sampling_util.py", "Util/prob_density.py", "Workflow/fitting_sequence.py"],
     [("particle swarm", "Sampling/Samplers/pso.py"), ("chains and storage", "Sampling/sampler.py"), ("prior transforms", "Sampling/Samplers/base_nested_sampler.py"), ("workers", "Sampling/Pool/*.py")],
     "exhaustive enumeration of likelihood histories, worker schedules and crash/resume histories on the real samplers with a controlled likelihood and a stand-in pool")

prop("P18", "Cosmological distances and physical conversions are mutually consistent",
     "In every supported cosmology (any curvature, dark-energy model and parameter subset) distances between all redshift pairs, time-delay distances, critical densities and source-plane ratios equal the direct integration of the expansion history, interpolated or tabulated distances included. Every conversion between physical and angular quantities (lengths, masses, time delays, velocity dispersions, NFW, generalised NFW, Hernquist, Sersic and soliton parameters) has its inverse as inverse, and a halo's lensing mass inside its virial radius is its mass. Answers depend on the arguments only, not on the redshift, slope or query asked before.",
     ["inputs", "configurations", "histories"], "all pairs of eight redshifts in four cosmologies, 27 halos with four inner slopes, all parameter subsets of six cosmology classes, all histories of three of twelve queries",
     "conversions are tested at one redshift on fresh objects; a cached interpolation table of another redshift, a missing factor of h or (1+z), or a curvature sign only shows for the other combinations",
     ["Cosmo/*.py", "Util/cosmo_util.py", "Util/constants.py"],
     [("distances", "Cosmo/background.py"), ("interpolation", "Cosmo/cosmo_interp.py"), ("conversions", "Cosmo/lens_cosmo.py"), ("halos", "Cosmo/nfw_param.py")],
     "exhaustive enumeration of redshift pairs, cosmologies and query histories on the real code against direct quadrature, round trips and fresh objects")

prop("P19", "A light model is the linear sum of consistent surface-brightness profiles",
     "Every light profile is linear in its amplitudes, moves and turns with its centre and orientation, gives the same value for single positions, lists and arrays, is finite away from true cusps and does not depend on earlier evaluations or modify its arguments; elliptical, multi-component and alternative parametrisations reduce to each other, total fluxes equal the integral over the sky and three-dimensional light projects to the surface brightness. A LightModel is the sum of its selected profiles, its linear responses times the amplitudes reproduce it, amplitudes survive the round trip through the linear parameter vector, wrong parameter sets are refused and negative amplitudes of physical profiles are recognised. Shapelet and starlet bases are orthonormal or invertible: decomposing a synthesised image returns its coefficients.",
     ["inputs", "configurations", "histories"], "all 33 profiles with up to eleven parameter sets each, all pairs with every component selection, all histories of three of four evaluations, all shapelet orders to four and starlet scales",
     "each profile is unit-tested at two or three hand-picked points; wrong normalisations, orientation conventions, stale interpolations or a response list out of step with the amplitudes appear at other points, orders or pairings",
     ["LightModel/light_model_base.py", "LightModel/linear_basis.py", "LightModel/Profiles/*.py", "LensModel/Profiles/sersic_utils.py"],
     [("sum and selection", "LightModel/light_model_base.py"), ("linear basis", "LightModel/linear_basis.py"), ("profiles", "LightModel/Profiles/*.py")],
     "exhaustive enumeration of profiles, parameter corners, pairs and evaluation histories on the real code against quadrature, symmetry and fresh-instance references")

prop("P20", "Image positions solve the lens equation and no resolved image is missed",
     "For every lens model, source position and solver setting each returned image maps back to the source to the requested precision, images are distinct and in order of arrival, and every image that the search grid resolves is returned - also when source, lens and grid are symmetric to each other, when the deflector sheet or shear is elsewhere in the list or off-centre, and with several planes. Magnification limits, sorting and brightest-image selections pick from that same set, unsupported requests are refused, and the lens model and arguments are left as they were whatever the outcome. The constraint solvers return lens parameters that map all given images to one source, report that accuracy, and change only the parameters they solve for.",
     ["inputs", "configurations", "histories"], "24 lens models times a lattice of source positions on and off the symmetry axes times all solver settings, all histories of two calls, all corners of the start lattice of the constraint solvers",
     "image finding is tested on a few generic quads; a tie between grid pixels, an asymmetric multi-plane Jacobian or a sheet centred elsewhere loses or displaces images only for other configurations, which silently changes image multiplicities and time delays",
     ["LensModel/Solver/*.py", "Util/util.py", "Util/image_util.py"],
     [("grid search and refinement", "LensModel/Solver/lens_equation_solver.py"), ("analytical solver", "LensModel/Solver/epl_shear_solver.py"), ("constraint solvers", "LensModel/Solver/solver*.py")],
     "exhaustive enumeration of lens models, source lattice and solver settings on the real code against an independent triangle-tiling image finder")
prop("P21", "Velocity dispersions solve the Jeans equation in every aperture, PSF and history",
     "For every mass, light and anisotropy model the projected velocity dispersion equals the solution of the spherical Jeans equation, averaged with the PSF-blurred light over exactly the region of the sky that the aperture (slit, frame, shell, grid, bins, at any centre and orientation) describes. The profiles that enter are those selected by the user at their own centre, both back ends and the multi-Gaussian expansions give the same dispersion, and rotating or shifting galaxy and aperture together changes nothing. Results depend only on the arguments of the call - not on models, settings or observations evaluated before - and the arguments are left unchanged.",
     ["inputs", "configurations", "histories"], "every anisotropy law, aperture (centres, angles, orientations, bins), PSF and mass/light/anisotropy combination of an alphabet, all stars and displacements of a lattice in the Monte-Carlo estimators, all histories of two calls, all selections of profiles",
     "kinematics tests use centred square apertures and one model per object; a radius measured from the wrong centre, an unrotated mask or a table kept from the previous parameter set shifts the dispersion by tens of per cent and biases the Hubble constant",
     ["GalKin/*.py", "JAMPy/*.py", "Analysis/kinematics_api.py"],
     [("Jeans solution", "GalKin/numeric_kinematics.py"), ("apertures", "GalKin/aperture_types.py"), ("dispersion estimators", "GalKin/galkin.py"), ("profile selection", "Analysis/kinematics_api.py")],
     "exhaustive enumeration of apertures, PSFs, models, draws and call histories on the real code against quadrature of the Jeans equation, plane geometry and fresh instances")
prop("P22", "Derived lens and light quantities agree with the maps of the model",
     "Einstein radii, mass fractions, slopes, radial profiles, local stretches and their differentials, curved-arc parameters, critical curves and caustics, finite-source magnifications, half-light radii, ellipticities, component fluxes, multi-Gaussian expansions and convergence-map integrals equal direct quadrature or differentiation of the model's own convergence, Jacobian and surface brightness. They do so at any centre, for every selection of components, for scalar, array and integer coordinates and for rectangular maps, and leave arguments and maps unchanged. Time-delay distances and deflector distances inferred from delays and dispersions return the distances that were put in, with any external convergence.",
     ["inputs", "configurations"], "eight lens and five light models at up to four centres with every selection of components, position lattices, map shapes and redshifts, external convergences",
     "the analysis tests use one centred model; a circle drawn around the origin instead of the lens, a truncated integer eigenvector or a selection that is ignored changes published radii and slopes but not the test values",
     ["Analysis/lens_profile.py", "Analysis/light_profile.py", "Analysis/td_cosmography.py", "Analysis/light2mass.py", "LensModel/lens_model_extensions.py", "LensModel/convergence_integrals.py", "LensModel/profile_integrals.py", "Util/analysis_util.py"],
     [("lens quantities", "Analysis/lens_profile.py"), ("local geometry", "LensModel/lens_model_extensions.py"), ("light quantities", "Analysis/light_profile.py"), ("cosmography", "Analysis/td_cosmography.py")],
     "exhaustive enumeration of models, centres, component selections and positions on the real code against direct quadrature and differentiation")

prop("P23", "Pixelated source reconstruction solves the regularised linear problem",
     "For every source grid, image frame, lens, primary beam, noise declaration and kernel the response of each source pixel is its bilinear footprint on the traced image pixels scaled to the pixel areas, also at the border of the source grid; lensing a pixelated source is the sum of these footprints. The matrix and vector of the linear system are the noise-weighted products of the convolved responses with each other and with the data (for interferometric data with the dirty beam applied once), so noiseless data are solved by the source that made them, whatever was computed before. Regularisation matrices are the quadratic forms of amplitude, gradient and curvature of the zero-padded source, the optimal strength is the root of the derivative of the evidence inside the bracket, and unsupported grids, kernels and brackets are refused.",
     ["configurations", "inputs", "histories"], "all source grids, frames, lenses, beams and kernels of small alphabets; every pixel pair of small images; all regularisation matrices up to 5x5 (7x7)",
     "border and index errors show only where rays hit the border of a non-square source grid; tests use one square grid",
     ["ImSim/SourceReconstruction/pixelated_source_reconstruction.py", "ImSim/SourceReconstruction/regularization_matrix_pixel.py", "ImSim/SourceReconstruction/solve_regularization_strength.py"],
     [("responses and normal equations", "ImSim/SourceReconstruction/pixelated_source_reconstruction.py"), ("regularisation", "ImSim/SourceReconstruction/regularization_matrix_pixel.py"), ("strength", "ImSim/SourceReconstruction/solve_regularization_strength.py")],
     "exhaustive enumeration of grids, frames, kernels and pixel pairs on the real code against dense brute-force responses and quadratic forms")

prop("P24", "PSF iteration, alignment and flux calibration only improve the bands",
     "A PSF update is the documented estimate (residual cutouts of each point source, masked, scaled, symmetrised, stacked and mixed with the old kernel) with its error map, the true kernel is a fixed point in every super-sampling, and the iteration returns the best of the start and all iterates, normalised, with the first kernel remembered. Alignment and flux calibration evaluate the likelihood of exactly the shifted, rotated or rescaled bands and return the best point they evaluated, including the start. In every order of these steps in a fitting sequence the following steps and the likelihood use the updated bands, the other bands and settings stay as they are, and neither the caller's bands nor data returned earlier nor results for another lens model are affected.",
     ["histories", "configurations", "inputs"], "all option combinations on small star fields, full value lattices of the shifts and scalings, all step sequences up to length 2 (3)",
     "a step that leaves shared dictionaries or cached image positions behind shows only in the next step; tests run each step once and check shapes",
     ["Workflow/psf_fitting.py", "Workflow/alignment_matching.py", "Workflow/flux_calibration.py", "Workflow/fitting_sequence.py"],
     [("kernel estimate and iteration", "Workflow/psf_fitting.py"), ("alignment", "Workflow/alignment_matching.py"), ("flux calibration", "Workflow/flux_calibration.py"), ("steps of the sequence", "Workflow/fitting_sequence.py")],
     "exhaustive enumeration of options, values and step sequences on the real code against a written-out estimate, newly built objects and recorded evaluations")

prop("P25", "Simulations and reconstructions show exactly the declared scene",
     "For every combination of lens, source, light and point-source lists, count unit and pixel grid the simulation interface converts magnitudes, velocity dispersions and masses into the amplitudes and lens parameters that carry this flux and mass, and simulates the image that the separately built model gives, with delayed and magnified light curves of variable sources in any order of queries. A multi-band reconstruction returns for each computed band the least-squares amplitudes of its own components, a model, residuals and chi-square that agree with them, and leaves the caller's parameters alone; patches in any order and placement are put at their own sky position in a joint frame that covers them all. Lists selected by index, light cones of mass maps and simple data configurations build the same classes as building them by hand.",
     ["configurations", "inputs", "histories"], "all component lists and index lists of small alphabets, all placements of up to three patches, all short query sequences",
     "index and placement errors need particular orders, negative offsets or unequal sizes; tests use one layout",
     ["SimulationAPI/sim_api.py", "SimulationAPI/model_api.py", "SimulationAPI/data_api.py", "SimulationAPI/mag_amp_conversion.py", "SimulationAPI/point_source_variability.py", "Analysis/image_reconstruction.py", "Analysis/multi_patch_reconstruction.py", "Util/class_creator.py", "LensModel/LightConeSim/light_cone.py"],
     [("simulation interface", "SimulationAPI/sim_api.py"), ("reconstruction", "Analysis/image_reconstruction.py"), ("patches", "Analysis/multi_patch_reconstruction.py"), ("class creation", "Util/class_creator.py")],
     "exhaustive enumeration of component lists, index lists, placements and query sequences on the real code against hand-built models and stacked least squares")

prop("P26", "Instrument presets give the published band settings, whatever came before",
     "For every supported band, PSF type, number of years and survey mode the instrument classes return the published camera and observation settings of that band, with the number of exposures in proportion to the years of the baseline (rounded down), and the pixelised PSF exactly when it is requested; unsupported requests are refused. Configuring another instrument or band, or editing the settings that were handed out for one object, changes neither objects that exist nor objects that are configured later. The settings are accepted by the simulation interface, which exposes for the time of all exposures.",
     ["histories", "configurations"], "every supported request of seven instruments; all histories of two (three) requests with edits of the handed-out settings in between",
     "module-level dictionaries that leak between objects show only when a second object with other years, survey mode or PSF type is configured in the same process; tests build each object once and compare it with itself",
     ["SimulationAPI/ObservationConfig/*.py", "SimulationAPI/observation_api.py"],
     [("presets", "SimulationAPI/ObservationConfig/LSST.py"), ("survey modes", "SimulationAPI/ObservationConfig/Roman.py"), ("single band", "SimulationAPI/observation_api.py")],
     "exhaustive enumeration of configuration histories on the real classes against a module loaded anew for every request and the published table")

prop("P27", "Image, mask, search and statistics tools follow their definition on every input",
     "Rebinning conserves flux and describes the merged pixels with the matching coordinate system; resizing, cutting, stacking, symmetrising and placing kernels act on exactly the pixels of their definition, also outside the image, for every shape; masks select the pixels inside their geometric region. Grid searches return only true minima and represent every minimum, plateaus included; image matching, overlap removal, areas, error intervals, moments, radial profiles, power spectra, unit-cube transforms, densities and multi-Gaussian expansions equal their definition for every order and number of points, ties included. Impossible sizes and arguments are refused, and no function modifies its input.",
     ["inputs"], "all image sizes up to 13 (25) with all bin sizes, all shapes up to 8x8, all kernel placements in and around small images, all 3x3 interiors with values 0..2 and all 4x4 binary grids, all small point sets, all sample sizes up to 60",
     "off-by-one, tie and aliasing errors need a particular size, plateau or placement; the tests use one even-sized image and one sample",
     ["Util/image_util.py", "Util/mask_util.py", "Util/util.py", "Util/analysis_util.py", "Util/param_util.py", "Util/prob_density.py", "Util/sampling_util.py", "Util/correlation.py", "Util/derivative_util.py", "Util/multi_gauss_expansion.py", "Util/primary_beam_util.py", "Util/kin_sampling_util.py"],
     [("image tools", "Util/image_util.py"), ("grid search", "Util/util.py"), ("masks", "Util/mask_util.py"), ("statistics", "Util/prob_density.py")],
     "exhaustive enumeration of small images, grids, placements, point sets and samples on the real functions against pixel-by-pixel definitions")

prop("P28", "Quad fits with line-of-sight halos are full ray tracing of the returned model",
     "For every layout of deflectors in front of, in and behind the main lens plane, every parameter class and every parameter vector, the fast ray tracing of the four images equals multi-plane ray tracing of the translated parameters, and the penalty is the scatter of the traced positions over the tolerance plus the parameter penalty. A fit, with full or decoupled ray tracing, with or without swarm, returns parameters of the declared form (slope, halo and multipole amplitudes, and fixed shear strength kept; multipole centred on and aligned with the lens), no worse than the start, and the source position those parameters trace to. A repeated fit with the same seed gives the same result, and neither the caller's parameters nor earlier results are modified.",
     ["configurations", "histories", "inputs"], "all layouts of up to three halos, four parameter classes, all histories of three parameter vectors, both ray tracing modes with and without swarm",
     "a stale foreground ray, a shared list between results or a source position from before the last step needs a particular layout or a second call; the tests compare an object with itself",
     ["LensModel/QuadOptimizer/*.py", "LensModel/Util/decouple_multi_plane_util.py"],
     [("fast ray tracing", "LensModel/QuadOptimizer/multi_plane_fast.py"), ("parameter classes", "LensModel/QuadOptimizer/param_manager.py"), ("fit", "LensModel/QuadOptimizer/optimizer.py")],
     "exhaustive enumeration of layouts, parameter histories and fit histories on the real optimizer against hand-built multi-plane ray tracing")

prop("P29", "Plots show the quantities of the model they are given, at their place",
     "Every panel of the model, tracer, patch and lens plots shows exactly the array its title names (data, model, residuals, convergence, magnification, deflection, selected components, reconstructed source and its error) of the chosen band, with each pixel at its place: image positions and names, source positions, caustics and critical curves, compass and scale bar lie where the coordinates of the frame put them, in every rotation and parity and for every selection of computed bands. Arrival-time contours, shear and stretch markers, arcs, chains and kernel comparisons are drawn from the values of the model and of the samples. A plot does not depend on plots made before, and does not modify the arguments or the data it is given.",
     ["configurations", "histories", "inputs"], "all frames, bands and band selections, options, component subsets and ordered pairs of plot calls of small alphabets",
     "plots are how users judge a fit; existing tests only check that no exception is raised, so a panel of the wrong band, a shifted overlay or a leaked label goes unnoticed",
     ["Plots/*.py"],
     [("band panels", "Plots/model_band_plot.py"), ("band selection", "Plots/model_plot.py"), ("lens plots", "Plots/lens_plot.py"), ("plot elements", "Plots/plot_util.py")],
     "exhaustive enumeration of frames, options and call pairs on the real plotting code; the contents of the matplotlib axes are compared with values computed by hand")

prop("P30", "COOLEST templates and lenstronomy models describe the same lens, both ways",
     "For every supported profile, orientation, axis ratio, position, composition and order of entities, the model read from a COOLEST template has the deflection, convergence, light and point sources of the standard in the mirrored frame, with initial values, fixed parameters and ranges as declared, missing values replaced by admissible ones, and data, noise, kernel and pixel coordinates of the files of the template. Writing results back and reading again gives the same model; the posterior is that of the samples above the likelihood threshold in the conventions of the standard (percentiles in order, orientations across their limits), and only the new file is written. What the interface cannot describe is refused.",
     ["configurations", "inputs"], "all profiles x orientations x axis ratios x positions, all subsets of missing and fixed parameters, 192 compositions in all orders, all kernel samplings up to 7, all likelihood patterns of small chains",
     "sign and order mistakes of the mirrored axis show only for asymmetric ranges, percentiles, orientations next to a limit, or a particular pixel ratio; tests use one symmetric template",
     ["Util/coolest_interface.py", "Util/coolest_read_util.py", "Util/coolest_update_util.py"],
     [("reading", "Util/coolest_read_util.py"), ("writing", "Util/coolest_update_util.py"), ("templates and chains", "Util/coolest_interface.py")],
     "exhaustive enumeration of templates, orders, samples and files through the real interface (write, read, update, read) against the profile evaluations of the standard")

"""Property id -> harness module and static description (bounds, assumptions) copied into evidence."""
REGISTRY = {
    "P01": dict(module="p01_param", jit=False,
                bounds=dict(quick="every registered lens/light profile x every single-parameter fixing (+none,+all,+log); every pair of joint-constraint options x linear-solver x point-source type; every subset of <=2 special-parameter options; 2 vectors each, decode history v1,v2,v1",
                            thorough="as quick with every subset of <=2 fixed parameters, every triple of joint options, every subset of <=3 special options"),
                assumptions=["vector entries are taken strictly inside the declared limits", "profiles needing uninstalled packages (fastell4py) are skipped"]),
    "P02": dict(module="p02_settings", jit=False,
                bounds=dict(quick="all histories of <=3 steps over 22 settings/value/restart/band-fixing edits and of <=3 steps over 9 optimisation/edit steps",
                            thorough="all histories of <=4 steps over the same alphabets"),
                assumptions=["optimisation steps run with a fixed random seed and an analytic likelihood"]),
    "P03": dict(module="p03_lens_state", jit=False, chunk=1,
                bounds=dict(quick="all histories of <=3 of {freeze A, freeze B, unfreeze, evaluate A, evaluate B} for one and two components of every registered lens profile; all histories of <=3 of {3 source redshifts, none, 2 cosmologies, freeze, unfreeze, evaluate} for 8 single/multi-plane configurations",
                            thorough="the same alphabets to depth 4, plus three components"),
                assumptions=["evaluating with parameters other than the frozen ones is outside the contract", "profiles needing fastell4py or user supplied classes/tables are skipped"]),
    "P04": dict(module="p04_superposition", jit=False, chunk=1,
                bounds=dict(quick="every registered lens profile alone, twice, before and after another one, full list and each single selection, with and without source-redshift scaling; all 16 subsets of a 4-component model in every public selection form; all 24 list orders; all ordered selections of up to 4 evaluation points; line-of-sight corrections at every list position",
                            thorough="as quick with four partner profiles and triples"),
                assumptions=["profiles needing fastell4py or user supplied classes/tables are skipped"]),
    "P05": dict(module="p05_profiles", jit=False, chunk=1,
                bounds=dict(quick="every registered lens profile x 3-10 parameter sets (generic and degenerate corners) x a 4x4 grid of positions; all multiples of 30 degrees of rotation, 3 shifts; 5 radii for the mass functions; 16 families of equivalent descriptions",
                            thorough="as quick on a 7x7 grid for every parameter set"),
                assumptions=["tolerances: 1e-6 for closed forms, 3e-4 where the library itself differentiates numerically, up to 5e-2 for decompositions documented as approximate", "profiles needing fastell4py or user supplied classes/tables are skipped"]),
    "P06": dict(module="p06_multiplane", jit=False,
                bounds=dict(quick='all 64 assignments of 3 deflectors to 4 redshifts x 3 source redshifts x 2 conventions; all 6 list orders of all 20 multisets; all pairs of 5-8 stopping redshifts; all non-empty subsets (and orders of pairs) of deflectors given by observed position; all same-plane splits of the decoupled approximation',
                            thorough='as quick with 8 source redshifts, all orders of observed deflectors and two source redshifts for them'),
                assumptions=['flat cosmology in the reference (transverse distances subtract)']),
    "P07": dict(module="p07_point_source", jit=False, chunk=2,
                bounds=dict(quick='all histories of up to 2 (3 for two configurations) of 18 queries (9 kinds x 2 parameter sets) and 5 operations (cache on/off/drop, lens replacement, search window) for 12 point-source configurations; all 16 flux switches of a four-source model',
                            thorough='all histories of up to 3 operations for every configuration'),
                assumptions=['with caching switched on the caller drops the cache when parameters change']),
    "P08": dict(module="p08_psf", jit=False,
                bounds=dict(quick='all histories of up to 4 of 12 queries/pixel-size changes for 13 ways of defining a PSF; kernel utilities for all odd sizes 3-19 and factors 1-5',
                            thorough='histories of up to 5'),
                assumptions=['a Gaussian PSF is queried after its pixel size is known']),
    "P09": dict(module="p09_grid", jit=False, chunk=1,
                bounds=dict(quick='all pairs of 32 alignment updates / coordinate shifts and all sequences of up to 4 of 6 of them, for 18 coordinate systems, pixel grids and images; grid utilities for all sizes 1-5 x 1-5 and subgrid resolutions 1-3; all selections, permutations and criteria orders up to length 4',
                            thorough='all sequences of up to 3 of the 32 operations'),
                assumptions=[]),
    "P10": dict(module="p10_noise", jit=False,
                bounds=dict(quick='all histories of up to 3 of 12 data replacements and queries for 10 noise declarations; all sequences of up to 3 of 7 observation updates for 12 observation set-ups; all lists of up to 3 of 4 light components as lens and source with three point sources in both count units',
                            thorough='histories of up to 4'),
                assumptions=[]),
    "P11": dict(module="p11_numerics", jit=False,
                bounds=dict(quick='all combinations of sampling mode, factor 1-3, supersampled convolution, kernel cut, kernel split, method, evaluation mask and supersampled-pixel mask for 9 PSFs and 2 frames; all sequences of up to 3 of 5 images through one object; every square window of a 5x5 frame; all 512 masks of a 3x3 frame; all sequences of up to 3 of 6 image shapes/types; all half-pixel positions in and around the frame',
                            thorough='factor 4, sequences of up to 4'),
                assumptions=['square images and square evaluation windows, as documented']),
    "P12": dict(module="p12_image", jit=True,
                bounds=dict(quick="4 PSFs x 5 samplings x primary beam x extinction x 2 parameter sets x 4 alignments x astrometric shifts x flux scaling, all component switches and selections; all sequences of 3 of 17 queries and updates for 4 PSFs with and without caching",
                            thorough="all parameter combinations, sequences of 4"),
                assumptions=[]),
    "P13": dict(module="p13_linear", jit=True,
                bounds=dict(quick='every amplitude of every model: 2 source lists x 8 point-source set-ups x 6 source-plane assignments; 4 PSFs x 5 samplings x primary beam x extinction x mask x alignment x astrometric shift; 20 light profiles; noisy and noiseless data; all 2x3 systems with entries from {0,1,-2}; natural-weighting interferometry',
                            thorough='all 3x3 systems'),
                assumptions=[]),
    "P14": dict(module="p14_mapping", jit=False,
                bounds=dict(quick='all assignments of up to 3 light components to 4 source redshifts x 4 deflector-plane assignments x 3 lens-model redshifts with every selection; all deflection-scaling lists over 4 values; all sequences of 3 cosmologies and of 3 distance-ratio sets; tracer images for 5 partitions',
                            thorough='sequences of 4 cosmologies'),
                assumptions=[]),
    "P15": dict(module="p15_bands", jit=False,
                bounds=dict(quick='every ordered selection of up to 3 components per component type paired over 2 bands x alignments x single/multi-plane/scaled; 5 assignments x all computed-band sets of 2 and 3 bands x masks x all alignment sequences of length 2 in separate and joint linear modes with and without free backgrounds; tracer settings',
                            thorough='as quick, alignment sequences of length 3'),
                assumptions=[]),
    "P16": dict(module="p16_likelihood", jit=False,
                bounds=dict(quick='all 256 subsets of 8 likelihood terms x 3 parameter sets for 6 model variants (subsets of up to 2 and of at least 7 terms for the 2 cosmology-sampling variants); all evaluation histories of length 3 over 7 parameter vectors (inside, on and outside the bounds, vetoed), interleaved pickled copies; all masks, error forms and prior combinations of the single terms',
                            thorough='histories of length 4 (length 3 with all 7 vectors for the cosmology-sampling variants)'),
                assumptions=[]),
    "P17": dict(module="p17_sampling", jit=False, chunk=1,
                bounds=dict(quick='all likelihood histories over 3-4 values of swarms of 1 particle x 3 iterations, 2 x 2 and 3 x 1 from 3 start values; all 48 orders/assignments of a batch of 3 paired with second batches; all histories of 3 of 8 runs, resumptions and interruptions with a storage file; 9x9 grid of the prior transforms; all samples of up to 5 of 3 values; all pairs of 5 sampling steps of a fitting sequence',
                            thorough='swarms of 2 x 3 and 4 x 1, all pairs of 48 batch schedules, histories of 4, samples of 6'),
                assumptions=[]),
    "P18": dict(module="p18_cosmo", jit=False, chunk=1,
                bounds=dict(quick='all pairs of 8 redshifts in 4 cosmologies (flat, open, closed, low density) for distances, interpolated distances and lens quantities; 27 halos x 4 inner slopes; all conversions and inverses at 3 redshift pairs; 6 cosmology classes x all 32 parameter subsets; all histories of 3 of 12 queries on one object; all 120 orders of a 5-point sample',
                            thorough='histories of 4 queries'),
                assumptions=[]),
    "P19": dict(module="p19_light", jit=False,
                bounds=dict(quick='all 33 light profiles x 3-11 parameter sets (generic, round, degenerate) x 49 positions; all histories of 3 of 4 evaluations; all pairs of profiles with every selection; all 14 flux and 13 three-dimensional profiles and their pairs; shapelets to order 4 and starlets at every scale',
                            thorough='225 positions, histories of 4, order 8'),
                assumptions=['light_3d is compared for round profiles (it is defined by the round profile)', 'the LINEAR profiles are not linear in the amplitude by definition']),
    "P20": dict(module="p20_images", jit=True, chunk=1,
                bounds=dict(quick='24 lens models (single and multi plane, scaled redshifts, symmetric about the grid axes and not) x 27 source positions x 7 grid-search settings and the analytical solver; all magnification cuts and brightest-image counts; all histories of 2 of 9 calls; 12 x 4 profile lists of the analytical solver; 9 quad and 4 double constraint solvers from every corner of a start lattice',
                            thorough='83 source positions, histories of 3, full start lattices'),
                assumptions=['completeness is demanded for images the search grid resolves: magnification 0.5-25, at least 4 spacings apart, away from poles of the map', 'the stochastic solver is not explored']),
    "P21": dict(module="p21_kinematics", jit=False, chunk=1,
                bounds=dict(quick='7 anisotropy laws x 3-7 parameter sets; 40 apertures (slit, frame, shell, shells, grid, binned, general x centres, angles, orientations) x lattice of points; 3 PSFs; 4 mass x 3 light x 7 anisotropy models x 4 radii; 32 dispersion maps on grids (shape, orientation, centre, PSF, supersampling); Monte-Carlo estimators with 126 stars x 25 displacements drawn exhaustively; all histories of 2 of 9 calls; interface: 3 x 3 profile selections x back ends x expansions, observation lists up to 3',
                            thorough='9 radii, histories of 3 calls, all observation lists, more ellipticities'),
                assumptions=['radial quadrature tolerance 2% (5% between back ends)', 'the caller drops the tables of an Anisotropy object used on its own, as documented', 'Monte-Carlo estimators place the galaxy at the coordinate origin']),
    "P22": dict(module="p22_analysis", jit=True, chunk=1,
                bounds=dict(quick='8 lens models x 2 centres x every selection of components (Einstein radius, slopes, stretches, critical curves, finite magnification), 5 light models x 2 centres x every selection, 16 pixel maps, convergence-map integrals, 24 cosmographies',
                            thorough='the same with 4 centres and 157 positions per lens'),
                assumptions=['quadrature and sampling tolerances of 1 to 6 per cent where the routine samples coarsely by design', 'grids with a pixel exactly on a singular centre are not explored']),
    "P23": dict(module="p23_source", jit=False, chunk=1,
                bounds=dict(quick='4 lenses x 3 frames x image sizes 3-6 x 7 source grids x 3 pixel widths x 3 offsets with and without primary beam; normal matrices for 6 kernels x noise declarations x beams; every pixel and pixel pair for kernels 1-9 in images 1-4; all regularisation matrices up to 5x5 on every unit source; all brackets of a 25-value lambda lattice',
                            thorough='image sizes 2-8, regularisation matrices up to 7x7'),
                assumptions=['square images', 'source grids without rotation (others must be refused)']),
    "P24": dict(module="p24_calibration", jit=False, chunk=1,
                bounds=dict(quick='kernel combination: all ordered selections of 3 kernels of 3 sizes x 4 symmetries x corners x factors x stackings; one update for 5 star fields x 2 kernel sizes x 96 option combinations; 192 iteration settings per field; super-sampling 1-3; all pairs of lens models with one image model; alignment and calibration on full value lattices of 3 bands; all pairs of 6 calibration steps of a fitting sequence x 2 multi-band types',
                            thorough='kernels up to 11 pixels, all triples of calibration steps, all triples of lens models'),
                assumptions=['stars at pixel centres in the comparison of single updates (fractional positions as fixed points)', 'the STARRED package is not installed, its branch is not covered']),
    "P25": dict(module="p25_scenes", jit=False, chunk=1,
                bounds=dict(quick='simulations: 2 lens x 3 source x 10 light x 3 point-source lists x 2 count units; 18 redshift settings; all pairs of 4 times x 3 sources x 2 light curves; reconstructions: component subsets of two bands x computed bands x masks x 2 multi-band types; every ordered placement of 1-3 of 7 patch offsets x 3 sizes x 4 orientations; 32 light cones; all index lists of 3 components x bands x optional lists',
                            thorough='all source lists, all triples of times, component subsets in both orders, all ordered triples of patches'),
                assumptions=['patches share pixel scale and orientation, as documented', 'no PSF variance in reconstructions (see P10, P11)']),
    "P26": dict(module="p26_instruments", jit=False,
                bounds=dict(quick='all histories of depth 2 over bands x PSF types x (first, baseline, last) years or survey modes, with edits of the handed-out settings; all supported requests against the published table',
                            thorough='histories of depth 3 over a subset of requests'),
                assumptions=['published values are those of the pinned commit']),
    "P27": dict(module="p27_tools", jit=True, chunk=1,
                bounds=dict(quick='rebinning of 13 sizes x up to 6 bins x 2 types; all shapes up to 8x8 x factors x cuts; all kernel placements in and around 3 images x 4 kernels; 2 x 13122 + 19683 plateaus and 65536 binary grids; all point sets of 1-3 of 6 points; samples of 1-60',
                            thorough='as quick with rebinning of 25 sizes and all 4x4 binary interiors of 6x6 grids'),
                assumptions=['see DESIGN.md for the branch cut of sector masks']),
    "P28": dict(module="p28_quads", jit=False, chunk=1,
                bounds=dict(quick='4 parameter classes x 8 layouts of halos in front, in and behind the lens plane x all histories of two of 3 parameter vectors x given/computed foreground rays; fits of 3 layouts x swarm on/off x full/decoupled ray tracing x two successive fits',
                            thorough='fits of all 8 layouts'),
                assumptions=['one image configuration (generic quad)']),
    "P29": dict(module="p29_plots", jit=False,
                bounds=dict(quick='4 frames (shifted, turned, flipped) x single band, first of two bands off, second band, mask; all panels with and without decoration, all component subsets of decompositions and subtractions, all macro-model selections; all ordered pairs of 12 plot methods sharing their arguments; lens plots in both parities x 2 windows x 2 sources; arrival-time surfaces, shear, stretch and arcs; patches in 4 orders; tracer plots with and without mask; chains, PSF comparison and plot elements',
                            thorough='all band kinds in all frames, patches in all 15 orders with all ordered pairs of panels'),
                assumptions=['square images (the image simulation refuses other shapes)', 'matplotlib draws what is on its axes']),
    "P30": dict(module="p30_coolest", jit=False,
                bounds=dict(quick='all profiles of the interface x 13-25 orientations x 4 axis ratios x 3 positions; all subsets of missing values up to three, fixed subsets and five ranges of every parameter; half of 192 compositions in up to 8 orders with and without samples; four pixel sizes x seven kernel samplings x two working directories; all likelihood patterns of 4 samples with six thresholds',
                            thorough='25-73 orientations, all subsets of missing and fixed parameters, all 192 compositions in all orders, patterns of 5 samples'),
                assumptions=['the coolest package that is installed defines the standard (its own profile evaluations are the reference)']),
}

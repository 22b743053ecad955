"""The properties: what is claimed, where it is anchored, how it is decided."""
TABLE = []
NOT_APPLICABLE = {}


def P(**k):
    TABLE.append(k)


MB = 'TLA+ model checked with TLC; recorded executions of the real code validated against it by TLC'

P(id='C01', title='Parallel slice-wise processing equals serial processing',
  statement='Running a slice-wise job on any number of processes and with any chunk size gives, for every slice, exactly what '
  'processing that slice alone gives: every slice is processed exactly once, on its own data, and its result is stored at its own place. '
  'The requested number of processes is not exceeded and the requested chunk size is used (only the last chunk is shorter; 0 means single slices '
  'without the distributed axis). When the call returns all of the work has been done. Where the processes of an MPI job share the chunks (get_worker_ncore_slices), every chunk belongs to exactly one of them.',
  over=['schedules', 'inputs', 'configurations'],
  forall='for every array shape, distribution axis, number of processes, chunk size, number and dtype of arrays, output buffer and worker schedule',
  why='The tests run each function once with one chunking on one volume and compare with a stored array; they never vary the chunking or the schedule.',
  files=['source/tomopy/util/mproc.py'],
  mech=[('chunk arithmetic', 'source/tomopy/util/mproc.py:get_ncore_slices'),
        ('distribution over a process pool', 'source/tomopy/util/mproc.py:distribute_jobs'),
        ('sharing among MPI processes', 'source/tomopy/util/mproc.py:get_worker_ncore_slices')],
  technique=MB + ' (Distribute refines Jobs; calls enumerated by TLC and replayed)',
  note='Exhaustive for the model within its constants (sizes up to 5 slices, 3 cores); the code is bound by replaying the enumerated calls '
  'and many larger ones and checking every logged worker event. MPI is not installed: a stand-in tells rank and size. Trusts TLC, the event logger and multiprocessing primitives.')

P(id='C02', title='A reconstructed slice depends only on its own sinogram and centre',
  statement='In a reconstruction or a simulated projection each slice depends only on its own data, its own rotation centre and the shared '
  'geometry and options: splitting the volume into chunks, adding, removing or reordering other slices and changing the number of threads do not change it. '
  'A list of rotation centres is applied slice by slice.',
  over=['schedules', 'inputs', 'configurations'],
  forall='for every algorithm, number of slices, centre list, number of threads and chunk size',
  why='The tests reconstruct one fixed volume with one centre value and one chunking.',
  files=['source/tomopy/recon/algorithm.py', 'source/tomopy/sim/project.py', 'source/tomopy/util/extern/recon.py', 'source/libtomo/recon', 'source/libtomo/gridrec/gridrec.c'],
  mech=[('chunking and thread pool', 'source/tomopy/recon/algorithm.py:_dist_recon'),
        ('per-slice geometry', 'source/libtomo/recon/utils.c:preprocessing')],
  technique=MB + ' (ReconPool refines Jobs; calls enumerated by TLC and replayed)',
  note='The pool is model checked exhaustively within its constants; algorithms are compared slice by slice with reconstructions of the slice alone.')

P(id='C03', title='A failing worker surfaces as an error, never as a result',
  statement='If processing of any chunk fails (the function raises, or its process dies), the caller gets an error: the call neither hangs nor returns '
  'an array with missing or stale slices. A chunk that a worker hands back to the caller is processed by the caller, and no error is raised when nothing failed.',
  over=['fault_sequences', 'schedules', 'crash_points'],
  forall='for every subset of failing chunks, kind of failure, number of workers and chunking',
  why='The tests inject no failure at all.',
  files=['source/tomopy/util/mproc.py', 'source/tomopy/recon/algorithm.py', 'source/tomopy/misc/corr.py'],
  mech=[('result and error collection', 'source/tomopy/util/mproc.py:distribute_jobs'),
        ('future results', 'source/tomopy/recon/algorithm.py:_run_recon')],
  technique=MB + ' (fault scenarios enumerated by TLC and injected)',
  note='Fault scenarios up to 4 chunks are enumerated by TLC (kind of failure per chunk) and injected into real worker processes and threads.')

P(id='C05', title='Inputs are preserved and out= receives the result',
  statement='Calling a function does not change the arrays passed to it, nor memory around them if they are views, except for the in-place functions (adjust_range, remove_nan, remove_neg, '
  'circ_mask, median_filter_nonfinite, add_gaussian, add_salt_pepper) and for an array that is given as out. With out= the result is the same as without, is stored in that array (also if it is a view of a larger one, '
  'or the input itself), touches nothing beside it, and that array is returned.',
  over=['inputs', 'configurations'],
  forall='for every public array function, argument, dtype, memory layout, shared-memory or private array and kind of output array',
  why='The tests pass fresh arrays and look at the returned value only.',
  files=['source/tomopy'],
  mech=[('conversion to shared memory', 'source/tomopy/util/dtype.py:as_sharedmem'), ('distribution', 'source/tomopy/util/mproc.py:distribute_jobs')],
  technique=MB + ' (table of contracts enumerated by TLC)', note='Every function of the catalogue is called with every memory layout; arguments and their surroundings are compared bit by bit before and after.')

P(id='C06', title='Results do not depend on memory layout, shared memory or input dtype',
  statement='The same values passed in another memory layout (Fortran order, transposed, strided, reversed, a view into a larger array, or shared memory) give the same result for every array argument, '
  'including angles, centres and index lists. For functions that compute in float32 this also holds for any numeric dtype that represents the values exactly, and the result is float32.',
  over=['inputs', 'configurations'],
  forall='for every public array function, every memory layout of all its array arguments and every numeric dtype of its data',
  why='The tests pass contiguous arrays of one dtype.',
  files=['source/tomopy'],
  mech=[('dtype conversion', 'source/tomopy/util/dtype.py'), ('pointers to C', 'source/tomopy/util/extern')],
  technique=MB + ' (table of contracts enumerated by TLC)', note='The result is compared with the one for contiguous float32 arrays within a few float32 roundings.')

P(id='C11', title='Flat-field normalization follows its definition',
  statement='Normalization divides the dark-corrected projections by the dark-corrected flat field of the same pixel (averaged over the flats and darks), '
  'replaces non-positive denominators by one millionth, applies the cutoff as an upper bound and keeps the shape. Normalization to a region of interest '
  'divides each projection by the mean of that region, background normalization scales each detector row linearly between its two air regions, and normalization with '
  'several flat-field groups uses the group nearest to each projection.',
  over=['inputs', 'configurations'],
  forall='for every shape, value (including zero and negative denominators), averaging, cutoff, flat location list, number of threads and output buffer',
  why='The tests compare one random volume with one stored result.',
  files=['source/tomopy/prep/normalize.py', 'source/libtomo/prep/prep.c'],
  mech=[('normalize', 'source/tomopy/prep/normalize.py:normalize'), ('normalize_nf', 'source/tomopy/prep/normalize.py:normalize_nf'),
        ('normalize_bg', 'source/libtomo/prep/prep.c:normalize_bg')],
  technique=MB, note='Values chosen so that the expected result is exact; the specification computes it from the recorded input.')

P(id='C12', title='Padding, resampling, trimming and 360 degree stitching are exact',
  statement='Padding extends only the requested axis by the requested width on both sides with the requested values and leaves the data unchanged in the middle. '
  'Downsampling averages complete groups of neighbouring pixels and upsampling repeats pixels, trimming a sinogram cuts the window that belongs to the given region, '
  'and stitching a 360 degree scan puts every opposite projection mirrored beside its partner with the overlap blended linearly.',
  over=['inputs', 'configurations'], forall='for every shape, axis (also negative), width, level, mode, overlap, side, dtype and memory layout',
  why='The tests use one array per function.',
  files=['source/tomopy/misc/morph.py', 'source/libtomo/misc/morph.c'],
  mech=[('pad', 'source/tomopy/misc/morph.py:pad'), ('sample', 'source/libtomo/misc/morph.c'), ('stitch', 'source/tomopy/misc/morph.py:sino_360_to_180')],
  technique=MB, note='Integer data: the comparison is exact.')

P(id='C13', title='Rank and outlier filters follow their definition at every pixel',
  statement='Median filters return at every pixel the median of the window around it, with the documented handling of borders. Outlier removal replaces exactly those pixels '
  'that deviate from the median of their window by at least the threshold (upwards in 1D and 2D, in either direction in 3D) and leaves all others untouched. '
  'Gradient and non-finite-value filters act on the same window definition, and results do not depend on axis order, dtype, memory layout or the number of threads.',
  over=['inputs', 'configurations'], forall='for every shape, axis, window size, threshold, dtype, memory layout and number of threads',
  why='The tests compare one array per filter with a stored result.',
  files=['source/tomopy/misc/corr.py', 'source/libtomo/misc/median_filt3d.c'],
  mech=[('thread pool over slices', 'source/tomopy/misc/corr.py'), ('3D window', 'source/libtomo/misc/median_filt3d.c')],
  technique=MB, note='Integer data: the comparison is exact.')

P(id='C14', title='Masking and replacement touch exactly the pixels they name',
  statement='Replacing NaN or negative values, clipping to a range and the circular mask change exactly the voxels their definition names, to exactly the given value, and keep all others. '
  'This holds for special values (NaN, infinities) and along every axis.',
  over=['inputs', 'configurations'], forall='for every shape, value (including NaN and infinities), axis, ratio, replacement value and number of threads',
  why='The tests use one small array per function.',
  files=['source/tomopy/misc/corr.py'],
  mech=[('circ_mask', 'source/tomopy/misc/corr.py:circ_mask'), ('numexpr threads', 'source/tomopy/util/mproc.py:set_numexpr_threads')],
  technique=MB, note='Integer data with special values: the comparison is exact.')

P(id='C09', title='Forward projection is the exact line integral of the voxel model',
  statement='project gives, for every angle, detector pixel and slice, the sum over the voxels of value times the length of the ray inside the voxel, for the ray at distance '
  'd - centre + 1/2 from the rotation axis; with emission=False the negative exponential of it. The width is that of the object, or with padding its diagonal plus two rounded up to even; '
  'sinogram_order only exchanges the axes. project2 and project3 do the same with the component of a vector field along the ray (field components seen along the given axis). '
  'Rays passing within 0.02 pixels of a corner of the grid, or along a line of it, are excepted.',
  over=['inputs', 'configurations'], forall='for every object, square or oblong grid, angle (also negative, beyond one turn, along the axes), centre (one, or one per slice), padding, order, emission type, axis and number of workers',
  why='The tests compare one 3D phantom projection with a stored array.',
  files=['source/tomopy/sim/project.py', 'source/libtomo/recon/project.c', 'source/libtomo/recon/utils.c'],
  mech=[('ray tracing', 'source/libtomo/recon/utils.c:calc_coords'), ('projection', 'source/libtomo/recon/project.c')],
  technique=MB + ' (real arithmetic; the specification computes the projections from the recorded objects)',
  note='Small grids (up to 7 by 7) and random geometry; compared within 1e-4 of the grid size.')

P(id='C10', title='Each iterative algorithm performs its defined update',
  statement='recon with art, bart, fbp (unfiltered back projection), mlem, osem, ospml_hybrid, ospml_quad, pml_hybrid, pml_quad, sirt, tv, grad and tikh gives the result of num_iter times the '
  'update that defines the algorithm, for the same line-integral model as project, starting from init_recon (or 1e-6 everywhere): art ray by ray in order, the block methods block by block, with the projections '
  'in the order ind_block divided into num_block consecutive blocks of equal size (the first ones larger by one), the others from all rays at once; penalties use the 8, 5 or 3 neighbours of a pixel; '
  'gradient methods use the given step or, if negative, the Barzilai-Borwein step. Pixels that no ray meets are not updated by data.',
  over=['inputs', 'configurations', 'histories'], forall='for every algorithm, data, geometry (grid size, centre per slice, angles), number of iterations and blocks, block order, regularization parameters, starting image and order of the data',
  why='The tests compare one reconstruction per algorithm, default options, with a stored array.',
  files=['source/libtomo/recon', 'source/tomopy/recon/algorithm.py', 'source/tomopy/util/extern/recon.py'],
  mech=[('update loops', 'source/libtomo/recon/*.c'), ('options', 'source/tomopy/recon/algorithm.py:recon')],
  technique=MB + ' (one TLA+ step per iteration, real arithmetic)',
  note='The specification is checked for what makes the algorithms solvers (fixed points, positivity, conservation, descent, one block = no blocks); recorded reconstructions are compared with it within 5e-4 (2e-3 for gradient methods) of the largest value. '
  'Grids up to 8 by 8, up to 7 angles and 3 iterations. Rays within 0.02 of the corners of the grid are excepted.')

P(id='C24', title='Vector tomography recovers the right component at the right place',
  statement='vector, vector2 and vector3 perform num_iter passes of the simultaneous algebraic update on the vector components: each data set, with its own angles and rotation centres, updates the two components '
  'perpendicular to its tilt axis (0: x, y; 1: y, z; 2: x, z), seen along that axis (axis, axis1, axis2, axis3), with the direction cosines of its rays, one data set after the other.',
  over=['inputs', 'configurations'], forall='for every data, angles and centres (per data set and slice) and number of iterations',
  why='The tests reconstruct one phantom and compare with a stored array or only check that it runs.',
  files=['source/tomopy/recon/vector.py', 'source/libtomo/recon/vector.c', 'source/libtomo/recon/utils.c'],
  mech=[('vector', 'source/libtomo/recon/vector.c')],
  technique=MB + ' (real arithmetic)', note='Volumes up to 5 cubed, one or two iterations, default axes; compared within 6e-4.')

P(id='C17', title='Stripe detection weights and masks follow their definition at every voxel',
  statement='stripes_detect3d gives at every voxel the smaller of the two ratios (in 0..1) between the mean horizontal jump along the stripe and beside it, right and left, taken at the rank just below the median '
  'of 2 size + 1 neighbouring angles. stripes_mask3d marks the voxels with a weight up to the threshold that are not deeper and not shorter than the given limits, and closes gaps of the given width; '
  'every voxel is decided from its own neighbourhood, mirrored at the borders, whatever the number of threads.',
  over=['inputs', 'configurations'], forall='for every volume, size, radius, threshold, length, depth, width, sensitivity, dtype, memory layout and number of threads',
  why='The tests compare two arrays with stored results.',
  files=['source/tomopy/prep/stripe.py', 'source/libtomo/prep/stripes_detect3d.c'],
  mech=[('weights', 'source/libtomo/prep/stripes_detect3d.c:stripesdetect3d_main_float'), ('mask', 'source/libtomo/prep/stripes_detect3d.c:stripesmask3d_main_float')],
  technique=MB, note='Volumes up to 12 x 6 x 10. Weights within 2e-5, masks exactly.')

P(id='C15', title='Stripe removal performs its defined correction on every sinogram',
  statement='Each stripe removal function gives, for every slice, the correction that defines it: smoothing (difference of the mean projection from its moving average subtracted), sorting (columns sorted, median-smoothed across '
  'columns or in a square window, sorted back), filtering (the same applied to the Gaussian low-pass part along the angles), fitting (divided by the Savitzky-Golay fit along the angles and multiplied by its smoothed, rescaled version), '
  'large, dead, all and interpolation (factors of the columns against their neighbourhood, outliers located by the fit of the sorted factors, the marked columns and their neighbours replaced by the sorted-smoothed or interpolated values, optional normalization of the rest), '
  'Titarenko (per block of projections, the last one taking the rest, the regularized offsets of order 1 and 2, NaN counted as 0), Fourier-wavelet (vertical details damped at low angular frequency, level by level, optional padding). '
  'Columns that are not marked are changed only by the normalization.',
  over=['inputs', 'configurations'], forall='for every sinogram, method, window size, order, sigma, signal-to-noise ratio, drop ratio, number of blocks, wavelet, level, dtype, memory layout and chunking',
  why='The tests compare one array per method with a stored result, default options.',
  files=['source/tomopy/prep/stripe.py', 'source/libtomo/prep/stripe.c'],
  mech=[('methods', 'source/tomopy/prep/stripe.py'), ('smoothing', 'source/libtomo/prep/stripe.c:remove_stripe_sf')],
  technique=MB + ' (real arithmetic, one TLA+ operator per method)',
  note='Sinograms up to 22 by 14; compared within 4e-5 of the largest value (3e-4 for fitting, Titarenko and Fourier-wavelet). Cases whose decisions hang on rounding are accepted (under 10%). Wavelet filters are taken from PyWavelets.')

P(id='C16', title='Inpainting fills exactly the masked voxels from their surroundings',
  statement='inpainter_morph leaves every voxel outside the mask as it is and fills the mask from its border inwards: in each pass the voxels next to a known value get, from all known values of the window, the mean weighted '
  'with a Gaussian of the distance (mean), the median (median) or values between the extremes of the known ones (random); afterwards the region is processed the given number of iterations once more. Voxels that are exactly zero '
  'count as unknown. With an axis each slice is filled on its own, without in three dimensions; what cannot be reached from any known value stays zero.',
  over=['inputs', 'configurations'], forall='for every image or volume, mask, window size, type, number of iterations, axis, dtype, memory layout and number of threads (data that is not negative)',
  why='The tests compare the mean of one large image per type with a stored number.',
  files=['source/tomopy/misc/corr.py', 'source/libtomo/misc/inpainter.c'],
  mech=[('passes', 'source/libtomo/misc/inpainter.c:Inpainter_morph_main'), ('slices', 'source/tomopy/misc/corr.py:inpainter_morph')],
  technique=MB, note='Images up to 9 by 9 and volumes up to 6 cubed; within 2e-5. Two known findings (planar median; iterations beyond the first) are pinned by the test suite and reported as such; anything else is a violation.')

P(id='C19', title='Phase retrieval and wave propagation follow their formulas on every image',
  statement='retrieve_phase filters every projection on its own with 1 / (wavelength dist k^2 / 4 pi + alpha), normalized to 1 at its largest value, on frequencies that run evenly over plus and minus half the sampling frequency of the (optionally '
  'padded by edge values up to a power of two and cropped again) image; uniform projections stay as they are. propagate_tie gives exp(-mu) + dist div(exp(-mu) grad delta); probe_gauss a Gaussian of the given width, centre and maximum; '
  'calc_intensity the squared modulus of the probe times the image at every scan position where it fits, row after row, in the near field or (centred transform) in the far field.',
  over=['inputs', 'configurations'], forall='for every image size (odd, even, one), values, pixel size, distance, energy, regularization, padding, scan step, dtype, memory layout and chunking',
  why='The tests compare one stored array of one size with default options, calc_intensity not at all in the far field.',
  files=['source/tomopy/prep/phase.py', 'source/tomopy/sim/propagate.py'],
  mech=[('filter', 'source/tomopy/prep/phase.py:_retrieve_phase'), ('scan', 'source/tomopy/sim/propagate.py:calc_intensity')],
  technique=MB + ' (real arithmetic, discrete Fourier transforms written out)', note='Images up to 9 by 10, padded up to 32; within 1e-4 of the largest value.')

P(id='C20', title='Geometric corrections of projections put every pixel where they define it',
  statement='distortion_correction_proj gives at every pixel the bilinear value at the position of the polynomial backward model, clipped to the image; distortion_correction_sino gives the row of the same image; load_distortion_coefs the numbers of '
  'the file in their order. shift_images by whole pixels moves row y, column x to the values at y + sx, x + sy (0 from outside, or the nearest value of the range); add_jitter does so to the nearest pixel with the shifts it returns, which are '
  'within the bounds. scale divides by the largest absolute value; blur_edges weights with 1 inside, 0 outside and linearly between the two radii. The slit corners found are the extremes of the slope of the spread of the '
  'columns and rows of the image or its quadrants (row, column not mixed up for any aspect ratio); remove_slits crops to the box; an affine map is recovered from its points, and detector_drift_adjust brings drifted images back to the reference.',
  over=['inputs', 'configurations'], forall='for every image, size, centre, polynomial, shift, radii, corners and kernel sizes',
  why='The tests check a blur, one distortion with stored arrays and that functions run.',
  files=['source/tomopy/prep/alignment.py', 'source/tomopy/misc/npmath.py'],
  mech=[('distortion', 'source/tomopy/prep/alignment.py:_unwarp_image_backward'), ('shifts', 'source/tomopy/prep/alignment.py:shift_images'), ('slits', 'source/tomopy/prep/alignment.py:find_slits_corners_aps_1id')],
  technique=MB, note='Images up to 9 by 10 (slits 40 by 30, drift 90 by 110, whole pixels). Sub-pixel values of the spline interpolation in shift_images and the sub-pixel fit of the corners are not specified.')

P(id='C18', title='Rotation axis searches return the minimizer of their metric',
  statement='find_center_vo returns a centre at which the metric that defines it is smallest: the mean of the Fourier amplitudes outside of the double wedge of the 360 degree sinogram that the centre completes (the mirrored sinogram '
  'shifted to the centre, the reversed one where that ends), over every half pixel of the allowed range on the smoothed sinogram, then over the finer steps around it; of the chosen slice, or the average of the slices asked for. find_center_pc returns the axis '
  'at which one projection is the mirror image of the other. The score of find_center is the entropy of the reconstruction on 64 bins within limits from its extreme values, of the part inside of the mask. write_center writes one file per centre of the range, named by it. '
  'mask_empty_slice marks a slice exactly if its relative spread is below the given share of that of the whole.',
  over=['inputs', 'configurations'], forall='for every sinogram, slice, search range, radius, step, mask, dtype, memory layout and algorithm',
  why='The tests look for the centre of one data set.',
  files=['source/tomopy/recon/rotation.py'],
  mech=[('Vo', 'source/tomopy/recon/rotation.py:find_center_vo'), ('entropy', 'source/tomopy/recon/rotation.py:_find_center_cost')],
  technique=MB + ' (real arithmetic, discrete Fourier transforms and splines written out)', note='Sinograms up to about 12 by 13. Centres whose metrics agree within 2e-5 are all accepted. The downhill search of find_center and SIFT are not specified.')

P(id='C21', title='Gridrec computes the Fourier gridding reconstruction of every slice',
  statement='recon with algorithm gridrec gives, for every slice on its own, the image that the gridding formula defines: the Fourier transform of every projection about the rotation axis of its slice, times the filter asked for '
  '(with its parameters; custom filters per frequency, or per projection and frequency), spread with the window over the grid points up to two apart, transformed back and divided by the transform of the window, cut to the grid asked for around the axis. '
  'So it is linear in the data, depends on the projections only as a set and on positions only relative to the axis, and turns with the angles; and slices do not depend on those they are processed with.',
  over=['inputs', 'configurations'], forall='for every sinogram, angles, centre (per slice), filter and filter parameters, grid size (also larger than the data), data order, dtype, number of threads and chunking',
  why='The tests compare one data set per filter with a stored array, one centre, the default grid.',
  files=['source/libtomo/gridrec/gridrec.c', 'include/libtomo/filters.h', 'source/tomopy/util/extern/gridrec.py', 'source/tomopy/recon/algorithm.py'],
  mech=[('gridding', 'source/libtomo/gridrec/gridrec.c:gridrec'), ('filters', 'include/libtomo/filters.h')],
  technique=MB + ' (real arithmetic)', note='Up to 5 slices of 9 projections of 20 pixels, grids up to 20 by 20; within 1e-4. Angles for which points lie on grid lines but for rounding are not judged (except 0). '
  'Known finding: the window is divided out with its value one pixel further, pinned by the test suite; reported only if everything else is exact.')

P(id='C07', title='External toolboxes reconstruct every slice from its own data and are left clean',
  statement='A reconstruction with an external toolbox (tomopy.astra, lprec, ufo_fbp, ufo_dfi) hands every slice to the toolbox exactly once, with its own data, initial image, grid, angles, method, number of iterations and options, and puts the result in its own place, for every number of chunks and GPUs. '
  'With ASTRA each slice has its own rotation centre: an offset of the detector on a GPU, a shift by the nearest whole number of cells (zeros move in) on the CPU. Only the GPUs listed are used; lprec runs one task per GPU and call at a time, after the GPU was made ready, with no more slices than agreed. '
  'If the toolbox refuses a step, the caller gets its error, never a result; every object made in the toolbox is deleted, also then. Neither the data nor the options of the caller are changed. '
  'recon_accelerated hands every argument, as given or by default, once to the implementation that is named, given as a function or found, and returns its result; an unknown or missing implementation is refused.',
  over=['schedules', 'faults', 'inputs', 'configurations'], forall='for every number of slices, chunks, threads and GPUs, every projector, centre, option and every step at which the toolbox fails',
  why='The tests skip ASTRA where it is not installed and never make a toolbox fail.',
  files=['source/tomopy/recon/wrappers.py', 'source/tomopy/recon/algorithm.py', 'source/tomopy/recon/acceleration.py'],
  mech=[('ASTRA', 'source/tomopy/recon/wrappers.py:astra_rec'), ('lprec', 'source/tomopy/recon/wrappers.py:lpmultigpu'), ('UFO', 'source/tomopy/recon/wrappers.py:_process_data'), ('accelerated', 'source/tomopy/recon/acceleration.py:recon_accelerated')],
  technique='TLA+ model of the objects and tasks of a toolbox checked with TLC; recorded events of the real wrappers with a stand-in for the toolbox validated by TLC',
  note='The toolboxes themselves are not installed: modules that keep account of what they are asked stand in for them. lprec and UFO know one centre per call; only centres common to all slices (whole numbers for lprec) are used.')

P(id='C08', title='Malformed requests are refused, well-formed ones return what they promise',
  statement='A call is either well-formed, and then succeeds with a result of the shape that its arguments determine, or it is refused with an error before any memory is touched. '
  'Refused are in particular: unknown algorithms, options that the algorithm does not have, modes, averages, fillings or wavelets; numbers of angles, rotation centres, shifts, flats or filter parameters that do not belong to the data; '
  'initial images, regularisation data, masks, components or outputs of the wrong shape; orders of projections that leave the data; axes, regions, window sizes, margins and percentages out of range. '
  'No call reads or writes outside of the arrays it was given, and a refused call changes none of them.',
  over=['inputs', 'configurations'], forall='for every combination of shapes, lengths and options of recon, project*, vector*, the normalizations, filters, stripe detection, inpainting, ring removal, padding, stitching, resampling, axis searches and probe simulation',
  why='The tests make well-formed calls; two of them expect an error.',
  files=['source/tomopy/recon/algorithm.py', 'source/tomopy/sim/project.py', 'source/tomopy/recon/vector.py', 'source/tomopy/prep/normalize.py', 'source/tomopy/misc/corr.py', 'source/tomopy/prep/stripe.py'],
  mech=[('recon options', 'source/tomopy/recon/algorithm.py:_check_algorithm_kwargs'), ('centres', 'source/tomopy/sim/project.py:get_center'), ('vector', 'source/tomopy/recon/vector.py'), ('inpainting', 'source/tomopy/misc/corr.py:inpainter_morph')],
  technique='TLA+ model of requests checked with TLC; the requests TLC enumerates are made to the real functions and the answers validated by TLC',
  note='About 13500 requests that deviate from a well-formed one in one place (two in the thorough tier); the quick tier makes a random 2700 of them. What the tests cannot see of memory is modelled (what is read and how much there is).')

P(id='C22', title='Ring removal takes away exactly the persistent deviations from the radial median',
  statement='remove_ring looks at every slice in polar coordinates about the rotation axis (one sample per pixel of radius, about one per pixel along the outermost circle, values clipped to thresh_min and thresh_max); what differs from the median along the radius '
  '(windows of a third, two thirds and the full 2 rwidth + 1 to either side in the inner, middle and outer third of the radii; continuing on the opposite side of the axis, zero beyond the last radius) by no more than thresh is averaged over theta_min degrees to either side '
  '(a third, two thirds and all of it; around the circle or reflected at its halves) where it is not zero, and subtracted from the pixels nearest to that sample. Pixels beyond the last complete circle, and slices processed with it, do not matter and are not changed.',
  over=['inputs', 'configurations'], forall='for every slice, axis of rotation inside of it, thresholds, widths, angles, both boundary modes, dtypes, memory layouts, chunkings',
  why='The test suite does not call remove_ring at all.',
  files=['source/libtomo/misc/remove_ring.c', 'source/tomopy/misc/corr.py'],
  mech=[('polar transforms', 'source/libtomo/misc/remove_ring.c:polar_transform'), ('radial median', 'source/libtomo/misc/remove_ring.c:median_filter_fast_1D'), ('azimuthal mean', 'source/libtomo/misc/remove_ring.c:mean_filter_fast_1D')],
  technique=MB, note='Slices up to 13 by 13 (17 in the thorough tier) with integer values; centres for which a sample lies on the border of pixels but for rounding are not used; pixels on the line between two directions or radii may take either.')

P(id='C23', title='Phantoms, projection angles and simulated artefacts are what they say',
  statement='phantom adds, at every voxel whose centre lies in an ellipsoid (rotated by its Euler angles, moved and scaled, in coordinates from -1 to 1 along every side), the value of that ellipsoid, and shepp3d is the modified Shepp-Logan phantom without negative values; '
  'test images have the size, orientation and dtype asked for, at their own size the stored values. angles are evenly spaced from the first to the last, in radian. add_drift multiplies every projection by its factor; add_rings every detector pixel by a sensitivity of its own that is the same at all angles; '
  'add_zingers and add_salt_pepper replace values by the given one (or the largest) independently with the given probability and leave all others; add_gaussian adds independent noise of the given mean and deviation, add_poisson draws counts with the data as expectation.',
  over=['inputs', 'configurations'], forall='for every shape, ellipsoid, size, dtype, memory layout, probability, amplitude and noise level',
  why='The tests compare sizes or one stored phantom; noise is only called.',
  files=['source/tomopy/misc/phantom.py', 'source/tomopy/sim/project.py'],
  mech=[('ellipsoids', 'source/tomopy/misc/phantom.py:_ellipsoid'), ('artefacts', 'source/tomopy/sim/project.py:add_zingers')],
  technique=MB + ' (random choices are the environment of the specification; samples are accepted within six standard deviations)',
  note='Phantoms up to 12 by 12 by 12, noise up to 12 by 11 by 11 values: frequencies, means, deviations and correlations between neighbours. Resized test images are compared by the means of 4 by 4 blocks.')

P(id='C25', title='Smoothing, contrast enhancement and helpers follow their definitions',
  statement='gaussian_filter convolves every slice along the axis with the Gaussian (or its derivatives of order up to 3) of the deviation given per direction, mirrored at the borders; enhance_projs_aps_1id multiplies the squared median of every pixel of a projection with the share of pixels not brighter '
  'and scales the projection to a largest value of 1; discrete_cdf is the staircase from 0 to 1 over the sorted (thinned) data; gauss1d the Gaussian; fft, ifft, fft2 and ifft2 of tomopy.util.misc are the discrete Fourier transforms along the axes given, of data cut or filled with zeros to the size given; write_tiff stores the data unchanged under the name given, with the number as file name inside it, and with the extension unless it is there.',
  over=['inputs', 'configurations'], forall='for every shape, axis, deviation, order, kernel, number of processes, dtype, memory layout, file name and extension',
  why='The tests compare one array with one filter setting.',
  files=['source/tomopy/misc/corr.py', 'source/tomopy/misc/npmath.py', 'source/tomopy/util/misc.py'],
  mech=[('smoothing', 'source/tomopy/misc/corr.py:gaussian_filter'), ('contrast', 'source/tomopy/misc/corr.py:enhance_projs_aps_1id'), ('files', 'source/tomopy/util/misc.py:write_tiff')],
  technique=MB + ' (real arithmetic)', note='Images up to 9 by 9; within 5e-6 of the largest value. The transforms also by way of mkl_fft, for which a module computed by numpy stands in.')

P(id='C04', title='A call depends on its arguments only: not on earlier or simultaneous calls',
  statement='Wherever a call is made in the life of a process - after any other calls, whether they returned or raised, inside the function of another call, or while other threads make calls - it ends in the same way and with the same result as in a process that makes no other call '
  '(for the functions that draw random numbers: with the same state of the generator). No call, also not one that raises, leaves anything changed in the process: environment variables, working directory and files, random generator (but for the functions that draw), number of threads of numexpr, '
  'floating point error handling, warnings, signal handlers, open descriptors, child processes, threads, logging. Calls in several threads always end.',
  over=['histories', 'schedules', 'inputs'], forall='for every pair of calls of the public functions in either order and outcome, every interleaving of two distributed or reconstructing calls at the points where their functions are called, and nested calls',
  why='The tests make one call per test, in one thread, and look at its result only.',
  files=['source/tomopy/util/mproc.py', 'source/tomopy/recon/algorithm.py', 'source/tomopy/prep/normalize.py', 'source/tomopy/misc/corr.py', 'source/libtomo/gridrec/gridrec.c'],
  mech=[('arrays of a call', 'source/tomopy/util/mproc.py:distribute_jobs'), ('threads of numexpr', 'source/tomopy/util/mproc.py:set_numexpr_threads'), ('environment', 'source/tomopy/recon/algorithm.py:_dist_recon')],
  technique='TLA+ models of interleaved calls and of histories checked with TLC; every schedule that TLC enumerates is replayed with threads that are stopped at the calls of their functions, histories are made and the recorded behaviour validated by TLC',
  note='12856 schedules of two threads with up to two chunks each (1600 at random in the quick tier); 12000 ordered pairs of calls, 10000 pairs at the same time, 100 with large arrays and changing numbers of cores (2200, 500 and 60 in the quick tier). '
  'malloc fills memory with varying bytes, so that what is not initialised shows. Interleavings inside of compiled code are sampled, not enumerated; functions that fork a pool run with one core while other threads are active.')

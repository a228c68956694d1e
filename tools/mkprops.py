"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=['magpie/' + f for f in files],
                          mechanism=[dict(name=n, where='magpie/' + w) for n, w in mech], hook_needed=None))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where='magpie/' + c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

KER = ['src/remap_utils.f90', 'src/remap_1d_grid2grid.f90', 'src/remap_2d_grid2grid.f90', 'src/remap_3d_grid2grid.f90']
NOTEST = 'The suite has no test of this part at all; '

p('C01', '1D grid-to-grid remapping is the exact overlap-weighted average',
  'grid2grid1D gives each output cell the sum of the input cells weighted by the fraction of the output cell that each covers: the integral of the input over the output cell divided by the cell length. Parts of an output cell outside the input grid contribute zero. The output box defaults to the size of the input box.',
  ['inputs'], 'all input fields, grid sizes, positive box sizes, origins and output sizes, including refinement, coarsening, offset, shared edges, partial and no overlap',
  NOTEST + 'the weights depend on the relative position of two grids, a continuum with edge coincidences and partial overlaps.',
  ['remap/grid2grid.py'] + KER[:2],
  [('grid2grid1D', 'remap/grid2grid.py:6'), ('get_remap_pix_len', 'src/remap_utils.f90:2'), ('which_pix', 'src/remap_utils.f90:49'),
   ('remap_1d_grid2grid_pixel', 'src/remap_utils.f90:184'), ('remap_1d_grid2grid', 'src/remap_1d_grid2grid.f90:4')], ['magpie.remap.grid2grid1D'])
p('C02', '2D and 3D remapping apply the 1D overlap weights along every axis',
  'grid2grid2D and grid2grid3D weight each input cell by the product over the axes of the one-dimensional overlap fractions, with every axis using its own box size, origin and number of cells. Output element [i,j(,k)] belongs to cell i along x, j along y (and k along z), in the same layout as the input. A scalar parameter applies to every axis, a list gives one value per axis.',
  ['inputs', 'configurations'], 'all fields, per-axis sizes, origins and box sizes, scalar or list parameters, non-square grids',
  NOTEST + 'an exchange of axes only shows on grids that differ per axis, and there is no bound on sizes.',
  ['remap/grid2grid.py'] + KER,
  [('grid2grid2D', 'remap/grid2grid.py:44'), ('grid2grid3D', 'remap/grid2grid.py:113'), ('pix1dto2d, pix1dto3d', 'src/remap_utils.f90:79'),
   ('remap_2d_grid2grid', 'src/remap_2d_grid2grid.f90:4'), ('remap_3d_grid2grid', 'src/remap_3d_grid2grid.f90:4')],
  ['magpie.remap.grid2grid2D', 'magpie.remap.grid2grid3D'])
p('C03', 'Remapping conserves mass, keeps constants and never overshoots',
  'When the output grid covers the input grid, the sum of value times cell volume is the same before and after remapping, in one, two and three dimensions. A constant field stays that constant in every output cell inside the input grid, and a field and its output cells inside the input grid have the same bounds. Remapping is linear in the field.',
  ['inputs'], 'all fields and all pairs of grids, in 1D, 2D and 3D',
  NOTEST + 'it is a statement about sums over all cells of arbitrary grids.',
  ['remap/grid2grid.py'] + KER,
  [('overlap weights', 'src/remap_utils.f90:232'), ('grid2grid1D/2D/3D', 'remap/grid2grid.py:6')], ['magpie.remap'])
p('C04', 'The compiled remapping kernels stay inside their arrays and set every output',
  'For every pair of grids the compiled kernels read and write only inside the arrays they are given, and assign every element of every output. The number of entries that get_remap_pix_len promises for a cell is enough for all input cells that the output cell touches.',
  ['inputs'], 'all grid sizes, positive box sizes, origins and output cells',
  NOTEST + 'an out-of-bounds access or an unset output usually goes unnoticed in the runs that a test makes.',
  KER, [('get_remap_pix_len', 'src/remap_utils.f90:2'), ('remap_1d_grid2grid_pixel', 'src/remap_utils.f90:184'),
        ('pix1dto2d, pix1dto3d', 'src/remap_utils.f90:79'), ('remap kernels', 'src/remap_3d_grid2grid.f90:4')], ['magpie.src'])
p('C05', 'Rebinning 1D data gives the mean weighted by the covered share of each bin',
  'rebin_1d gives every new bin the mean of the old values, each weighted by the fraction of its old bin that the new bin covers (times the data weight when weights are given). A new bin that does not overlap any old bin is NaN. Bin edges that are not increasing and arrays of the wrong length are rejected.',
  ['inputs'], 'all increasing old and new edges with any mutual position (inside one bin, on edges, across many, over either end), data and weights',
  NOTEST + 'the code has separate branches for each mutual position of the edges, with coincidences of edges in between.',
  ['one_d/one_d.py', 'utils/check.py'],
  [('_rebin_1d_single_bin', 'one_d/one_d.py:57'), ('rebin_1d', 'one_d/one_d.py:188'), ('is_pos_monotonic', 'utils/check.py:3')], ['magpie.one_d.rebin_1d'])
p('C06', 'Rebinned errors follow from independent errors per unit length',
  'With errors given, the variance of a new bin is the sum over old bins of fraction covered times variance, divided by the square of the summed fractions; with data weights it is the sum of fraction times (weight times error) squared over the square of the summed weighted fractions. The weight vector of a single new bin holds the covered fraction of each old bin across which an edge falls or which is covered whole, and zero elsewhere.',
  ['inputs'], 'all increasing edges, errors and weights, new bins overlapping the old range',
  NOTEST + 'as for the values, each mutual position of the edges is its own branch.',
  ['one_d/one_d.py'], [('_rebin_1d_single_bin_sigma', 'one_d/one_d.py:110'), ('rebin_1d', 'one_d/one_d.py:188'),
                       ('rebin_1d_single_bin_weights', 'one_d/one_d.py:6')], ['magpie.one_d'])
p('C07', 'Cartesian and polar coordinates are inverse to each other',
  'cart2polar returns r >= 0 and phi in [0, 2pi) such that polar2cart with the same center restores x and y, for scalars and for arrays of any shape. polar2cart followed by cart2polar restores r and phi when r > 0 and phi lies in [0, 2pi). Array results equal the scalar results element by element.',
  ['inputs'], 'all coordinates, centers and array shapes, including the axes, the center and every quadrant',
  'The tests try a few sample points around one center.', ['coords/conversions.py'],
  [('cart2polar', 'coords/conversions.py:4'), ('polar2cart', 'coords/conversions.py:34')], ['magpie.coords'])
p('C08', 'Cartesian and spherical coordinates are inverse to each other',
  'cart2sphere returns r >= 0, phi in [0, 2pi) and theta in [0, pi] such that sphere2cart with the same center restores x, y and z; at the center theta is 0. sphere2cart followed by cart2sphere restores r, phi and theta when r > 0 and 0 < theta < pi. Scalars and arrays agree element by element.',
  ['inputs'], 'all coordinates and centers, including the poles, the center and every octant',
  'The tests try a few sample points; the poles, the center and off-center grids are limits.', ['coords/conversions.py'],
  [('cart2sphere', 'coords/conversions.py:62'), ('sphere2cart', 'coords/conversions.py:101')], ['magpie.coords'])
p('C09', 'The orthographic depth lies on the sphere',
  'ortho2cart returns z >= 0 with x^2 + y^2 + z^2 = r^2 at every point inside the disc of radius r, and the fill value at every other point. Scalars and arrays of any shape agree element by element.',
  ['inputs'], 'all x, y, radii, fill values and array shapes', NOTEST + 'it quantifies over a continuum with a boundary.',
  ['coords/conversions.py'], [('ortho2cart', 'coords/conversions.py:131')], ['magpie.coords.ortho2cart'])
p('C10', 'HEALPix plane coordinates and sphere angles are inverse and equal-area',
  'healpix_ang2xy followed by healpix_xy2ang restores (phi, theta) for phi in [0, 2pi) and 0 < theta < pi, and healpix_xy2ang followed by healpix_ang2xy restores every point inside the HEALPix diamond pattern. The latitude follows the HEALPix projection: z = 8y/(3pi) in the equatorial belt and 1 - |z| = (2 - 4|y|/pi)^2/3 in the caps, with theta in [0, pi]. Scalars and arrays agree element by element, also for arrays that mix both regions and the poles.',
  ['inputs'], 'all points of the sphere and of the plane pattern, all mixtures in arrays',
  'The tests compare a few pixel centers; the facet edges, poles and mixed arrays are not reached.', ['coords/healpix.py'],
  [('healpix_xy2ang', 'coords/healpix.py:4'), ('healpix_ang2xy', 'coords/healpix.py:58')], ['magpie.coords'])
p('C11', 'Rotations of the sphere keep angles and bring the start point to the end point',
  'usphere_rotate, usphere_shift and usphere_spin keep the angular separation of every two points and the handedness. usphere_rotate takes (phi_start, theta_start) to (phi_end, theta_end) along the shortest line; usphere_shift takes its start point to its end point; usphere_spin keeps its center and turns every other point about it by alpha. Results have phi in [0, 2pi] and theta in [0, pi].',
  ['inputs'], 'all points, start and end points including coincident, antipodal and polar ones, all angles, scalars and arrays',
  'The tests rotate a few points between a few places.', ['coords/usphere.py', 'coords/conversions.py'],
  [('usphere_rotate', 'coords/usphere.py:6'), ('usphere_shift', 'coords/usphere.py:121'), ('usphere_spin', 'coords/usphere.py:173')], ['magpie.coords'])
p('C12', 'Angle shifts are taken modulo a full turn and stay in range',
  'usphere_phi_shift and rotate_polar change an angle in [0, 2pi) by the given shift modulo 2pi, and the result lies in [0, 2pi]. Shifts or rotations outside the documented range are rejected. Scalars and arrays agree element by element where scalars are accepted.',
  ['inputs'], 'all angles in range and all shifts in [-2pi, 2pi], rotations in (0, 2pi)', 'The tests use a few angles.',
  ['coords/usphere.py', 'coords/polar.py'], [('usphere_phi_shift', 'coords/usphere.py:82'), ('rotate_polar', 'coords/polar.py:4')], ['magpie.coords'])
p('C13', 'No function changes the arrays that the caller passes in',
  'Every public function and method leaves the contents of its array and list arguments as they were, whether it returns normally or raises. The array that a function returns can be modified by the caller without changing later results of the library, default arguments included.',
  ['inputs', 'histories'], 'all public functions of coords, grids, one_d, pixel, polar, randoms, remap and the remapping classes, all arguments',
  'Tests look at results, not at their arguments, and seldom use an array twice.',
  ['coords/conversions.py', 'coords/usphere.py', 'coords/polar.py', 'one_d/one_d.py', 'polar/polar2radial.py', 'remap/grid2grid.py', 'randoms/subsample.py',
   'pixel/healpix_index.py', 'densegrid/box2ring.py', 'montecarlo/box2ring.py'],
  [('in-place updates of local copies', 'coords/conversions.py:28'), ('phi shift', 'coords/usphere.py:102'), ('in-bound masking', 'densegrid/box2ring.py:262')], ['magpie'])
p('C14', 'Solid angle of a patch is exact and additive; latitudes convert both ways',
  'usphere_area returns (phi_max - phi_min)(cos theta_min - cos theta_max) for every admissible patch, so patches that tile a region have areas that add up to the area of the region, and the full sphere has 4pi. sphere2lonlat and lonlat2sphere undo each other and map 0, pi/2, pi to pi/2, 0, -pi/2. Limits outside the documented ranges, and empty ranges, are rejected.',
  ['inputs'], 'all admissible limits', 'The tests check a few patches.', ['coords/usphere_util.py'],
  [('usphere_area', 'coords/usphere_util.py:4'), ('sphere2lonlat, lonlat2sphere', 'coords/usphere_util.py:42')], ['magpie.coords'])
p('C15', 'Cartesian grids are uniform, cover the box and are indexed [x, y, z]',
  'get_xedges, grid1d, grid2d and grid3d divide [min, min + length] into the given number of equal cells: n + 1 increasing edges that start at min and end at min + length, with mid-points at the cell centers. Element [i, j(, k)] of the 2D and 3D coordinate arrays is the center of cell i along x, j along y (and k along z), with every axis using its own length, number and minimum. xmid2edges of the mid-points of a uniform grid returns the edges of that grid.',
  ['inputs', 'configurations'], 'all lengths, numbers of cells, minima, scalar or list parameters', 'The tests check a few fixed grids.',
  ['grids/cartesian.py'], [('get_xedges', 'grids/cartesian.py:4'), ('xedges2mid', 'grids/cartesian.py:28'), ('xmid2edges', 'grids/cartesian.py:45'),
                           ('grid1d, grid2d, grid3d', 'grids/cartesian.py:66')], ['magpie.grids'])
p('C16', 'Polar grids cover the disc and equal-area pixels have equal area',
  'polargrid gives the cell centers of a uniform grid over [rmin, rmax] x [phimin, phimax], indexed [r, phi]. polarEA_grid lists base_nphi (2i + 1) pixels in ring i, evenly spaced in phi at the mid-radius of the ring, ring after ring outwards: polarEA_npix pixels, each of area polarEA_area, which together make up the disc of radius rmax.',
  ['inputs'], 'all numbers of rings, radii and base pixel numbers', 'The tests check a few sizes.',
  ['grids/polar.py', 'grids/cartesian.py'], [('polargrid', 'grids/polar.py:6'), ('polarEA_grid', 'grids/polar.py:46'), ('polarEA_area, polarEA_npix', 'grids/polar.py:68')], ['magpie.grids'])
p('C17', 'HEALPix pixel number and (ring, index in ring) map one to one',
  'healpix_pix2ij maps the pixels 0 .. 12 nside^2 - 1 to a ring 1 .. 4 nside - 1 and an index from 1 to the number of pixels of that ring, in ring order; healpix_ij2pix is its inverse in both directions. Results are integers, and arrays agree with scalars element by element.',
  ['inputs'], 'all nside >= 1 and all pixels', 'The tests compare a few nside; square roots are rounded at the ring boundaries, which occur at every nside.',
  ['pixel/healpix_index.py'], [('healpix_pix2ij', 'pixel/healpix_index.py:4'), ('healpix_ij2pix', 'pixel/healpix_index.py:56')], ['magpie.pixel'])
p('C18', 'HEALPix pixel centers and dash/star indices follow the HEALPix pattern',
  'healpix_pix2xy (through i-dash and j-dash) places every pixel at the center that HEALPix defines: converted to angles it is the standard pixel center, with x in [0, 2pi). healpix_ijd2ijs and healpix_ijs2ijd convert between dash and integer star indices and undo each other for every pixel. Scalars and arrays agree element by element.',
  ['inputs'], 'all nside (odd, even and 1) and all pixels', 'The tests sample a few nside; parity of nside, region and quadrant each have their own formula.',
  ['pixel/healpix_index.py', 'coords/healpix.py'], [('healpix_i2id, healpix_j2jd', 'pixel/healpix_index.py:94'), ('healpix_ijd2ijs, healpix_ijs2ijd', 'pixel/healpix_index.py:180'),
                              ('healpix_ij2xy, healpix_pix2xy', 'pixel/healpix_index.py:349')], ['magpie.pixel'])
p('C19', 'Pixel boundaries run along the diamond around the pixel center',
  'healpix_boundary returns the requested number of points, all on the diamond |x - xp| + |y - yp| = pi/(4 nside) around the pixel center, passing all four corners, clockwise by default and in the opposite order with reverse; the top and bottom halves are its upper and lower sides. All pixels together tile the pattern, each with area pi^2/(8 nside^2).',
  ['inputs'], 'all nside, pixels, numbers of steps and directions', 'The tests check a few pixels.',
  ['pixel/healpix_boundary.py'], [('_healpix_top_left .. _healpix_bot_right', 'pixel/healpix_boundary.py:24'), ('healpix_boundary_top, healpix_boundary_bot', 'pixel/healpix_boundary.py:152'),
                                  ('healpix_boundary', 'pixel/healpix_boundary.py:210')], ['magpie.pixel'])
p('C20', 'HEALPix neighbours are complete, correct and symmetric',
  'healpix_ijs_neighbours returns, without repetition, exactly the pixels that share an edge or a corner with the given pixel on the sphere, as star indices of existing pixels. Being a neighbour is symmetric, and no pixel is its own neighbour.',
  ['inputs'], 'all nside and all pixels, including those at the edges and corners of the twelve base pixels',
  'The tests check a few interior pixels; there is a formula for each edge and corner of the base pixels.',
  ['pixel/healpix_index.py'], [('healpix_ijs_neighbours', 'pixel/healpix_index.py:240')], ['magpie.pixel.healpix_ijs_neighbours'])
p('C21', 'Shape outlines lie on the shape and include its corners',
  'get_square returns the requested number of points along the four sides of the rectangle, in order around it and with every corner. get_arc and get_disc return points on the arc and on the outline of the disc segment about the center, from the minimum to the maximum angle. get_box returns points along the twelve edges of the box; with return_nearest exactly the edges that end at a corner hidden behind the box (sampled view line) are left out.',
  ['inputs'], 'all limits, centers and numbers of steps that are accepted', 'The tests check a few shapes.',
  ['pixel/basic_shapes.py'], [('get_square', 'pixel/basic_shapes.py:6'), ('get_arc, get_disc', 'pixel/basic_shapes.py:55'), ('get_box', 'pixel/basic_shapes.py:112')], ['magpie.pixel'])
p('C22', 'Random points fill exactly the requested region uniformly and independently',
  'The cartesian, polar and spherical samplers return the requested number of points, each coordinate computed from its own uniform draw, inside the requested limits. The map from the unit square or cube to the region is one to one onto the region and turns uniform draws into uniform density with respect to length, area, solid angle or volume.',
  ['inputs', 'schedules'], 'all limits, sizes and all values of the underlying uniform draws', NOTEST + 'a sample can only fail to reject a wrong density; a coordinate that is constant or shared passes many tests.',
  ['randoms/cart.py', 'randoms/polar.py', 'randoms/usphere.py', 'randoms/sphere.py'],
  [('randoms_1d/2d/3d', 'randoms/cart.py:4'), ('randoms_polar', 'randoms/polar.py:4'), ('randoms_usphere', 'randoms/usphere.py:8'), ('randoms_sphere_r, randoms_sphere', 'randoms/sphere.py:7')], ['magpie.randoms'])
p('C23', 'CDFs integrate the PDF and inverse sampling follows the CDF',
  'pdf2cdf returns edges half a bin beyond the mid-points and a CDF that starts at 0, ends at 1, does not decrease and grows over each bin by the share of the total held by the PDF in that bin, with a normalised PDF proportional to the input that integrates to 1. randoms_cdf and randoms_pdf with linear interpolation return the requested number of values, each the inverse of the CDF at its uniform draw, so inside the range of x. A CDF that does not span 0 to 1 is rejected.',
  ['inputs', 'schedules'], 'all uniform mid-points, positive PDFs, sizes and uniform draws', NOTEST + 'a statement about every distribution and draw.',
  ['randoms/pdf.py'], [('pdf2cdf', 'randoms/pdf.py:6'), ('randoms_cdf', 'randoms/pdf.py:38'), ('randoms_pdf', 'randoms/pdf.py:65')], ['magpie.randoms'])
p('C24', 'Subsampling draws members without repeats; stochastic weights are unbiased',
  'shuffle returns a permutation of the sample, with every order equally likely; random_draw returns the requested number of distinct members; random_prob_draw without a size keeps each member exactly when its uniform draw does not exceed its probability, and with a size returns the members with the smallest draw over probability. stochastic_integer_weights returns the floor or the ceiling of each weight, the floor for exactly a share ceil(w) - w of the draws, and stochastic_binary_weights caps that at 1.',
  ['inputs', 'schedules'], 'all samples, sizes, probabilities, weights and all values of the underlying uniform draws',
  NOTEST + 'repeats and bias are statements about every draw.',
  ['randoms/subsample.py'], [('shuffle, random_draw', 'randoms/subsample.py:4'), ('random_prob_draw', 'randoms/subsample.py:43'), ('stochastic_integer_weights, stochastic_binary_weights', 'randoms/subsample.py:75')], ['magpie.randoms'])
p('C25', 'Random points of a HEALPix pixel fill exactly that pixel uniformly',
  'randoms_healpix_pixel returns the requested number of points, all inside the given pixel, and the map from the two uniform draws to the HEALPix plane covers the whole diamond of the pixel with constant density.',
  ['inputs', 'schedules'], 'all nside, pixels, sizes and all values of the underlying uniform draws', NOTEST + 'a statement about every pixel and draw.',
  ['randoms/usphere.py', 'pixel/healpix_index.py', 'coords/healpix.py'], [('_randoms_healpix_xy', 'randoms/usphere.py:112'), ('randoms_healpix_pixel', 'randoms/usphere.py:148')], ['magpie.randoms.randoms_healpix_pixel'])
p('C26', 'Dense Box2Ring averages the box values under each polar pixel by area',
  'The dense Box2Ring remap gives every polar pixel the average, weighted by area, of the values f[y, x] of the box cells that contain the centers of its sub-pixels (zero outside the box), for its own radial and angular rebin factors, center and phi_shift; with weights w it is the ratio of the remaps of f w and w. The in-bound mask is 1 exactly where all sub-pixels lie in the box. Grids follow from the setup arguments, and inconsistent arguments are rejected.',
  ['inputs', 'configurations'], 'all maps, weights, box and ring geometries, rebin factors, centers and shifts', NOTEST + 'geometry and rebin factors are free parameters.',
  ['densegrid/box2ring.py', 'coords/conversions.py'], [('setup_box, setup_polar', 'densegrid/box2ring.py:49'), ('_remap', 'densegrid/box2ring.py:143'), ('get_mask_in_bound', 'densegrid/box2ring.py:205')],
  ['magpie.densegrid.Box2Ring'])
p('C27', 'Dense Cube2Shell averages the cube values under each shell pixel by volume',
  'The dense Cube2Shell remap gives every shell pixel the average, weighted by shell volume along r and equally over the sub-pixels, of the values f[y, x, z] of the cube cells that contain the centers of its sub-cells, with zero outside the cube unless a periodic copy of the cube covers the point. Shells and periodic copies follow from the setup arguments, and inconsistent arguments are rejected.',
  ['inputs', 'configurations'], 'all maps, cube and shell geometries, centers, rebin factors and periodic ranges', NOTEST + 'geometry, periodicity and rebin factors are free parameters.',
  ['densegrid/cube2shell.py', 'coords/conversions.py'], [('setup_cube, setup_polar', 'densegrid/cube2shell.py:48'), ('remap', 'densegrid/cube2shell.py:121')], ['magpie.densegrid.Cube2Shell'])
p('C28', 'Dense HEALPix remaps average the sky under each grid pixel by solid angle',
  'The dense Heal2Ring, Heal2Polar and Heal2Ortho remaps give every grid pixel the average of the HEALPix values at the sky positions of its sub-pixel centers, weighted by the solid angle of the sub-pixel (equally, over the sub-pixels on the sphere, for the orthographic grid, with NaN where the pixel center is off the sphere); with weights w it is the ratio of the remaps of f w and w. The sky position of a grid point is the point rotated from the grid center to the requested center, after the requested spin. A constant map stays constant.',
  ['inputs', 'configurations'], 'all maps, weights, grid geometries, rebin factors, centers and spins', NOTEST + 'geometry and rebin factors are free parameters.',
  ['densegrid/heal2ring.py', 'densegrid/heal2polar.py', 'densegrid/heal2ortho.py', 'coords/usphere.py'],
  [('Heal2Ring', 'densegrid/heal2ring.py:10'), ('Heal2Polar', 'densegrid/heal2polar.py:10'), ('Heal2Ortho', 'densegrid/heal2ortho.py:10')], ['magpie.densegrid'])
p('C29', 'Monte Carlo remaps average over uniform points of each output pixel',
  'The weights of the Monte Carlo Box2Ring, Cube2Shell, Heal2Ring and Heal2Polar remaps are, for every output pixel, the fractions of mc_size uniform points of that pixel that fall in each input cell, with points outside the input grid left out. remap returns for every output pixel the mean of the input cells with these fractions (times w when weights are given), NaN or UNSEEN when no point falls in the grid, for linear and logarithmic radial bins and every center and spin.',
  ['inputs', 'configurations', 'schedules'], 'all maps, weights, geometries, sample sizes and random draws', NOTEST + 'the weights are random and the geometry is free.',
  ['montecarlo/box2ring.py', 'montecarlo/cube2shell.py', 'montecarlo/heal2ring.py', 'montecarlo/heal2polar.py'],
  [('get_weights, remap', 'montecarlo/box2ring.py:218'), ('get_weights, remap', 'montecarlo/cube2shell.py:126'), ('get_weights, remap', 'montecarlo/heal2ring.py:100'), ('get_weights, remap', 'montecarlo/heal2polar.py:100')],
  ['magpie.montecarlo'])
p('C30', 'Radial profiles are means over phi with correctly scaled errors',
  'polar2radial returns for every radius the mean over phi, or the weighted mean when weights are given, and the standard error scaled by the ratio of cartesian to polar pixel area. The polar pixel areas add up to the area of the ring, and the radial profile of a ring class leaves out exactly the pixels that its in-bound mask excludes. cumulative_radial starts at 0 and adds the ring area times the profile (errors in quadrature).',
  ['inputs'], 'all polar maps, errors, weights, grids', NOTEST + 'a statement about sums over arbitrary grids.',
  ['polar/polar2radial.py', 'polar/radial.py', 'densegrid/box2ring.py', 'densegrid/heal2ring.py', 'montecarlo/box2ring.py', 'montecarlo/heal2ring.py'],
  [('get_polar_area2d, get_pixarea, polar2radial', 'polar/polar2radial.py:4'), ('cumulative_radial', 'polar/radial.py:4'), ('Box2Ring.polar2radial', 'densegrid/box2ring.py:240'), ('Heal2Ring.polar2radial', 'densegrid/heal2ring.py:190')], ['magpie.polar'])
p('C31', 'Rotating a polar grid interpolates cyclically between phi rows',
  'rotate_polar_grid(phi edges, f, shift) returns on row i the linear interpolation of f at the angle of row i plus the shift, between the two nearest rows and cyclically for a full circle, for every shift in (0, 2pi), also through the rotate_polar methods of the ring classes. A shift by a whole number of rows is a cyclic shift of the rows, and on a full circle the sum over phi is kept.',
  ['inputs'], 'all polar maps, numbers of rows and shifts', NOTEST + 'the shift is continuous and the wrap-around depends on it.',
  ['coords/polar.py', 'densegrid/box2ring.py', 'densegrid/heal2ring.py', 'montecarlo/box2ring.py', 'montecarlo/heal2ring.py'],
  [('rotate_polar_grid', 'coords/polar.py:30'), ('Box2Ring.rotate_polar', 'densegrid/box2ring.py:221'), ('Heal2Ring.rotate_polar', 'densegrid/heal2ring.py:170')], ['magpie.coords.rotate_polar_grid'])
p('C32', 'The point-of-view projection can be undone and keeps distances',
  'PointOfView.transform followed by reverse restores every 3D point in front of the camera, for every camera, target, display distance and spin. The target point maps to the middle of the picture, the returned distance is the distance from the camera, and the picture is the perspective projection: picture coordinates are the display distance times the tangents of the offsets in a rotated frame.',
  ['inputs', 'configurations'], 'all cameras, targets, display distances, spins and points in front of the camera', NOTEST + 'a statement about a continuum of views.',
  ['densegrid/pointofview.py', 'coords/usphere.py', 'coords/conversions.py'], [('PointOfView.setup', 'densegrid/pointofview.py:18'), ('PointOfView.transform', 'densegrid/pointofview.py:44'), ('PointOfView.reverse', 'densegrid/pointofview.py:82')], ['magpie.densegrid.PointOfView'])
p('C33', 'A remapping object behaves as if freshly built from its latest setup',
  'The results of every method of the remapping classes depend only on the latest setup calls and the arguments: setting up again with another grid or map, computing masks, weights or profiles earlier, repeating a call, or cleaning and setting up anew gives the same results as a new object. Two objects never influence each other. clean returns the object to its initial state.',
  ['histories'], 'all sequences of setup, get_weights, get_mask_in_bound, remap, polar2radial, rotate_polar and clean calls', NOTEST + 'a statement about call histories with cached areas and masks.',
  ['densegrid/box2ring.py', 'densegrid/heal2ring.py', 'densegrid/heal2polar.py', 'densegrid/heal2ortho.py', 'densegrid/cube2shell.py', 'densegrid/pointofview.py',
   'montecarlo/box2ring.py', 'montecarlo/heal2ring.py', 'montecarlo/heal2polar.py', 'montecarlo/cube2shell.py'],
  [('cached areas and mask', 'densegrid/box2ring.py:255'), ('setup resets', 'densegrid/box2ring.py:76'), ('clean', 'densegrid/box2ring.py:289')], ['magpie.densegrid', 'magpie.montecarlo'],
  [('area2d, pixarea, mask_in_bound', 'areas and mask cached by polar2radial', 'densegrid/box2ring.py:44'), ('ind_ws', 'Monte Carlo weights', 'montecarlo/box2ring.py:62')])

import re
def locate(name, where):
    f = where.rsplit(':', 1)[0]
    try:
        L = open('/repo/' + f).read().split('\n')
    except OSError:
        return where
    for n in re.findall(r'[A-Za-z_][A-Za-z_0-9]*', name.replace('Box2Ring.', '').replace('Heal2Ring.', '').replace('PointOfView.', '')):
        for k, l in enumerate(L):
            if re.match(r'\s*(def|subroutine|class) %s\b' % n, l):
                return '%s:%d' % (f, k + 1)
    return where
for d in P:
    for m in d['anchors']['mechanism']:
        m['where'] = locate(m['name'], m['where'])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))

"""What level each property's check has, and what it assures.  Read by mkmanifest.py."""
COMMON = (' Assumes real arithmetic for floating point, unbounded integers, the semantics of numpy/scipy/healpy calls as modelled in vc/npf.py, and the '
          'verification-condition generator itself; the run-time contracts on the real package are a bounded cross-check of these and not counted as proved.')
PROOF = {
 'C01': 'Proved for all inputs from the Fortran kernel and the Python wrapper: every output cell is the overlap-weighted sum.',
 'C02': 'Proved for all inputs from the Fortran kernels and the Python wrappers with every form of their arguments: product of the axis weights, layout and defaults.',
 'C03': 'Proved from the contracts of the wrappers and kernels as lemmas: conservation of mass, constants, bounds and linearity in 1-3 dimensions.',
 'C04': 'Proved from the Fortran text: every subscript within bounds, every output assigned, and the promised numbers of entries enough.',
 'C05': 'Proved for all inputs: values and NaN bins of rebin_1d, rejected arguments.',
 'C06': 'Proved for all inputs: errors and single-bin weights of the rebinning.',
 'C07': 'Proved for all inputs, scalars and arrays of any shape.',
 'C08': 'Proved for all inputs, scalars and 1-D arrays.',
 'C09': 'Proved for all inputs, scalars and arrays of any shape.',
 'C10': 'Proved for all inputs, scalars and 1-D arrays, both round trips and the latitude formula.',
 'C11': 'Proved for all inputs: rotate, shift and spin (scalars and 1-D arrays) are the rotations they promise to be; start and end within 1e-12 of equal or opposite excluded from the exact end point.',
 'C12': 'Proved for all inputs within the documented ranges and for the rejections.',
 'C14': 'Proved for all inputs: area, additivity, latitudes both ways and rejected limits.',
 'C16': 'Proved for all grids: polargrid and the equal-area pixels.',
 'C17': 'Proved for every nside and every pixel, both directions.',
 'C18': 'Proved for every nside and every pixel: centers, dash and star indices.',
 'C19': 'Proved for every nside, pixel and number of steps.',
 'C20': 'Proved for every nside and every pixel (base pixels split into regions), including symmetry.',
 'C22': 'Proved for all limits and draws; uniformity of numpy.random itself is assumed.',
 'C23': 'Proved for all pdfs with linear interpolation (scipy interp1d as a contract).',
 'C24': 'Proved for all samples; numpy.random.permutation/choice as contracts.',
 'C25': 'Proved for every pixel and draws.',
 'C26': 'Proved for all inputs: the remap with every form of its arguments, weights, the in-bound mask, grids and rejections.',
 'C28': 'Proved for all inputs for the three classes: averages, weights, grids and rejections; the rotations of the sphere are an assumed contract here (directions to directions), and ang2pix of healpy.',
 'C30': 'Proved for all grids: polar2radial, ring areas and the ring classes\' profiles.',
 'C31': 'Proved for all grids and shifts on a full circle, and for the ring classes\' methods.',
 'C32': 'Proved for all cameras, targets, displays, spins and points on the contracts of C08, C11 and C12: transform and reverse are the perspective of one rotated frame and undo each other; targets within 1e-12 of level, but not level, excluded.',
}
OTHER = {
 'C15': 'All obligations of the grid functions are discharged for all inputs, except xmid2edges, whose deviation is the recorded finding.',
 'C21': 'get_square, get_arc, get_disc and the rejected arguments are proved for all inputs; get_box with return_nearest is a bounded stand-in.',
 'C13': 'The frame conditions (no write to an array argument, list arguments and default arguments unchanged, nothing of the result kept by the library) are discharged on every path of the functions under contract, 113 of them; functions that are not under contract (Monte Carlo weights and remaps, the dense Cube2Shell, plots) are bounded: run-time contracts over every public function.',
 'C27': 'Run-time contracts against an independent oracle over generated shells: bounded, not proved.',
 'C29': 'Run-time contracts with recorded draws against an independent oracle: bounded, not proved.',
 'C33': 'Run-time contracts over generated call histories compared with fresh objects: bounded, not proved.',
}
LEVELS = {k: dict(level='proof', note=v + COMMON) for k, v in PROOF.items()}
B = 'contracts on the real functions evaluated at run time over generated inputs (bounded stand-in of the deductive proof)'
LEVELS.update({k: dict(level='other', note=v + (COMMON if k in ('C13', 'C15', 'C21') else '')) for k, v in OTHER.items()})
for k in ('C27', 'C29', 'C33'):
    LEVELS[k]['technique'] = B

"""Writes properties.jsonl and MANIFEST.json (python -m vt.gen)"""

import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PP = 'atooms/postprocessing/'
INPUTS = 'all particle positions, cell sides and parameters (real numbers)'

P = []


def prop(id, title, statement, over, text, why, files, mech, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[PP + f for f in files],
                  mech=mech, na=na))


WHY = ('The tests compare a few numbers computed from two or three fixed sample trajectories with a loose tolerance; ')

prop('C01', 'The radial distribution function is the normalised histogram of pair distances',
     'For every trajectory in a periodic cell, each value of g(r) times the number of pairs an ideal gas of the same density '
     'has in that spherical shell (of any number of dimensions) is the number of pairs whose minimum-image distance falls in '
     'the bin, averaged over the frames used. This holds for the reference and for the optimized implementation, for the whole '
     'system and for each pair of species, each pair counted once. Distances beyond half the smallest side or a given '
     'maximum are not reported.',
     ['inputs', 'configurations'], 'all particle positions, cell sides, bin widths, numbers of dimensions, species and frames',
     WHY + 'they cannot reach positions at bin edges, odd dimensions, elongated cells or every composition.',
     ['gr.py', 'realspace.f90', 'correlation.py', 'partial.py'],
     [dict(name='binning and normalization', where='gr.py _compute'), dict(name='pair loops', where='realspace.f90 gr_*')])
prop('C02', 'Linked cells find every pair of particles within the cutoff exactly once',
     'For every cell at least as large as the cutoff along each side and every set of particles, also on its sides or outside '
     'of it, the neighbors found with linked cells include every particle closer than the cutoff, at the minimum-image distance '
     'along the periodic directions only, without repetitions and never the particle itself. With Newton\'s law each pair is '
     'listed once, otherwise from both sides; this also holds between two sets of particles and whatever the same linked cells '
     'were used for before. The radial distribution function does not depend on whether linked cells are used.',
     ['inputs', 'configurations', 'histories'], 'all positions, cell sides, cutoffs, numbers of subcells and sequences of cells',
     WHY + 'one test uses linked cells, with many subcells along every side of a cubic cell.',
     ['linkedcells.py', 'gr.py', 'realspace.f90'],
     [dict(name='subcells and their neighbors', where='linkedcells.py adjust, _map'),
      dict(name='lists', where='linkedcells.py compute'), dict(name='use in g(r)', where='realspace.f90 gr_neighbors_*')])
prop('C03', 'Dynamic correlations average over the requested time origins and all their pairs',
     'Every time-dependent average is, for each reported time, the mean over exactly the pairs of frames that are separated by '
     'that time and start at the selected time origins: all of them, a given number or fraction of them, or only the first '
     'frame (the dynamic susceptibility leaves out the last one). The reported times are sorted, unique, start from the available time differences of the trajectory and are the '
     'closest available to the requested ones, also for trajectories with periodic blocks of unequal steps.',
     ['inputs', 'histories', 'configurations'],
     'all sequences of steps (arbitrary, uniform or in blocks), requested times, numbers of origins and values',
     WHY + 'two files with one step pattern each cannot cover sequences of steps, time grids and numbers of origins.',
     ['helpers.py', 'correlation.py', 'msd.py', 'vacf.py'],
     [dict(name='time grid', where='helpers.py setup_t_grid, _templated'), dict(name='averages', where='correlation.py gcf*, acf')])
prop('C04', 'The mean square displacement is the average squared unfolded displacement',
     'The mean square displacement at time t is the average over particles and time origins of the squared displacement '
     'between two frames separated by t, independent of the periodic images in which the positions were stored. '
     'Its value at zero time is zero and restricting it to a species averages over the particles of that species only.',
     ['inputs', 'histories'], 'all trajectories of particles, cells, images, species and steps',
     WHY + 'they use one trajectory and one set of crossings of the periodic boundaries.',
     ['msd.py', 'correlation.py', 'partial.py'], [dict(name='average', where='msd.py'), dict(name='unfolding', where='correlation.py _setup_arrays_onebody')])
prop('C05', 'The non-Gaussian parameter is the scaled ratio of moments of the displacement',
     'In a d-dimensional system the non-Gaussian parameter at time t is the average over time origins of '
     'd<r^4>/((d+2)<r^2>^2) - 1, where r is the length of the unfolded displacement of a particle during a time t and the '
     'moments are averages over the selected particles. At zero time it is zero, so it vanishes for Gaussian displacements.',
     ['inputs', 'histories'], 'all trajectories of particles, cells, dimensions, species and steps',
     WHY + 'one three-dimensional trajectory cannot settle the averages or the number of dimensions.',
     ['alpha2.py', 'helpers.py'], [dict(name='moments', where='alpha2.py')])
prop('C06', 'Overlap functions count the particles that moved less than the given distance',
     'The self overlap at time t is the fraction of particles whose unfolded displacement during t is shorter than a, averaged '
     'over time origins. The collective overlap is the number of pairs made of any particle at the later and any particle at '
     'the earlier time whose positions, as stored, are closer than a, divided by the number of particles and averaged over '
     'time origins. The self overlap lies between zero and one and is one at zero time.',
     ['inputs', 'histories'], 'all positions, cell sides, distances a, steps, species and numbers of origins',
     WHY + 'displacements close to the threshold and every set of time origins are hit by chance only.',
     ['qt.py', 'correlation.py'], [dict(name='overlaps', where='qt.py')])
prop('C07', 'The dynamic susceptibility is the variance of the overlap over time origins',
     'The dynamic susceptibility at each time is (<Q^2> - <Q>^2)/N, Q being the number of particles that moved less than the '
     'given distance between a time origin and the later frame and N the number of particles; the averages run over the time '
     'origins at the requested interval, leaving out the last one. The optimized implementation gives the same result as the reference one.',
     ['inputs', 'histories'], 'all positions, thresholds, steps, species and time grids',
     WHY + 'the optimized implementation and its kernel are compared on one file at most.',
     ['chi4t.py', 'realspace.f90', 'qt.py'], [dict(name='variance', where='chi4t.py _compute')])
prop('C08', 'Velocity and stress autocorrelations are averages over time origins',
     'The velocity autocorrelation at time t is the average over particles and time origins of the scalar product of the '
     'velocities of a particle a time t apart. The stress autocorrelation is the average over time origins and over the three '
     'off-diagonal components of the product of stresses a time t apart, divided by the volume, the stress being the one of '
     'the interaction plus the sum over particles of mass times the product of velocity components.',
     ['inputs', 'histories'], 'all velocities, masses and stresses, steps, time grids and numbers of origins',
     WHY + 'there is one test of the former and none of the latter.',
     ['vacf.py', 'sacf.py', 'correlation.py'], [dict(name='averages', where='vacf.py, sacf.py')])
prop('C09', 'The structure factor is the average squared density mode on allowed wave vectors',
     'Each value of the structure factor is the average over the used frames and the wave vectors of its group of the product '
     'of the (optionally weighted) density modes of the two sets of particles, minus the product of the average modes if '
     'weights are used, divided by the geometric mean of the two average numbers of particles. The reported wave number is '
     'the average norm of the wave vectors of the group. The fast implementation equals the reference one, also with filters, '
     'weights and pairs of species.',
     ['inputs', 'configurations'], 'all positions, cell sides, wave vectors, species, weights and numbers of dimensions',
     WHY + 'they use one crystal and one liquid in a cubic cell.',
     ['sk.py', 'fourierspace.py', 'fourierspace.f90', 'correlation.py'],
     [dict(name='average', where='sk.py _compute'), dict(name='exponentials', where='fourierspace.py expo_sphere'),
      dict(name='weights', where='correlation.py _setup_weight_twobody')])
prop('C10', 'The self intermediate scattering function averages cos(k.dr) over particles',
     'For every shell of wave vectors and every reported time t, the self intermediate scattering function is the average of '
     'cos(k.(r(t0+t)-r(t0))) over the wave vectors k of the shell, all the particles selected and the time origins t0. The '
     'reference and the optimized implementation agree with it in any number of dimensions and for any amount of memory given '
     'to the tabulation. Zero time comes first and has value one when values are normalized.',
     ['inputs', 'histories', 'configurations'],
     'all positions, cell sides, sets of allowed wave vectors, species, steps, numbers of origins and tabulation memory',
     WHY + 'they cannot cover every sign of the wave vectors, every block of particles or every set of time origins.',
     ['fkt.py', 'fourierspace.py', 'fourierspace.f90'],
     [dict(name='reference average', where='fkt.py SelfIntermediateScatteringLegacy'),
      dict(name='kernel', where='fourierspace.f90 fskt_kernel_*'), dict(name='exponentials', where='fourierspace.py expo_sphere')])
prop('C11', 'The intermediate scattering function correlates densities at two times',
     'For every shell of wave vectors and every reported time t, the intermediate scattering function is the real part of the '
     'average over the wave vectors and time origins t0 of rho_a(k,t0+t) rho_b(-k,t0), where rho_a and rho_b are the Fourier '
     'components of the densities of all particles, or of the two species of a pair. When normalized, it is divided by its '
     'value at zero time. This holds in any number of dimensions.',
     ['inputs', 'histories', 'configurations'],
     'all positions, cell sides, sets of allowed wave vectors, species, steps and numbers of origins',
     WHY + 'they cannot cover every set of wave vectors, pair of species or set of time origins.',
     ['fkt.py', 'fourierspace.py', 'correlation.py', 'partial.py'],
     [dict(name='average', where='fkt.py IntermediateScattering')])
prop('C12', 'Wave vectors fit the cell and lie within dk of the requested wave numbers',
     'For every cell and every list or range of wave numbers, each Fourier-space correlation uses, for every wave number, at most '
     'nk distinct vectors compatible with the periodic cell whose norm is within dk of it, all of them when they are no more '
     'than nk; the width only grows when no vector is close enough. The reported wave numbers are sorted and are the average norms of '
     'the vectors of each shell, and all partial correlations use the same vectors. Wave vectors given by the user, of any sign and '
     'magnitude, are used and reported unchanged, and the arguments given by the user are not modified.',
     ['inputs', 'configurations', 'histories'],
     'all wave numbers, widths, cell shapes, numbers of wave vectors and given wave vectors',
     WHY + 'they use one grid and one cell; the selection depends on comparisons between norms and grid values.',
     ['fourierspace.py', 'partial.py', 'helpers.py'],
     [dict(name='selection of wave vectors', where='fourierspace.py _setup'), dict(name='given vectors', where='fourierspace.py kvectors')])
prop('C13', 'Time origins are whole blocks apart and as many as requested',
     'For every number of frames, the frames used as time origins are equally spaced by a multiple of the periodic block. '
     'Asking for -1 uses every block; for n > 1, the spacing is the whole part of the number of blocks over n (but at least '
     'one block); for 1, only the first frame is used; for a fraction f, the spacing is the whole part of 1/f blocks, and a '
     'number given as text means the same as the number. By default, every block is used, or one frame every '
     'F N / 40000 frames for F frames and N particles without blocks.',
     ['inputs', 'configurations'], 'all numbers of frames, lengths of the block, numbers of particles and requested numbers or fractions of origins',
     WHY + 'they use two or three values of the number of origins on two files.',
     ['helpers.py', 'correlation.py'], [dict(name='spacing of the origins', where='helpers.py adjust_skip')])
prop('C14', 'Partial correlations are the correlations of each species or pair of species',
     'Partial correlation functions have one entry for each species, or for each pair of species in either order, and each entry '
     'is the correlation function of the same trajectory restricted to the particles of the species. This holds for the species '
     'of the system in any order and of any type, or for any subset of them given by the user. The composition-weighted '
     'sum of the entries is the correlation of the whole system.',
     ['inputs', 'configurations'], 'all positions, velocities, cells, compositions, orders of the particles and lists of species',
     WHY + 'they cover one binary mixture with the species in one order.',
     ['partial.py', 'correlation.py'], [dict(name='loop over species', where='partial.py compute')])
prop('C15', 'Conditions on particles select the particles that meet them in each frame',
     'A correlation function of single particles with a condition on their properties is the average over the particles that '
     'meet it, and one of pairs correlates the particles that meet the first condition with those that meet the second, '
     'or with all of them if there is no second condition. Conditions '
     'are evaluated on each frame for static correlations, and none of them changes the particles of the trajectory. '
     'More conditions than the correlation has particles are refused.',
     ['inputs', 'configurations'], 'all properties of the particles, conditions and frames',
     WHY + 'they use one condition on the species.',
     ['filter.py', 'correlation.py'], [dict(name='selection', where='filter.py, correlation.py _setup_arrays')])
prop('C16', 'Result files hold the computed grids and values and can be read back',
     'The results of a correlation function are written to the file given by the template of the path, one for each species, pair or '
     'condition, with one row for each point of the grid (for each wave number and time, in order) whose columns are the grid and the value to '
     'at least six digits, after comments with title, names of the columns and results of the analysis. Intermediate scattering functions '
     'also write the relaxation time of each wave number. Reading a file of a function of one variable gives back its grid and values, and nothing is written '
     'for a trajectory that is not on disk.',
     ['inputs', 'configurations'], 'all values, grids, numbers of points, species, conditions and templates',
     WHY + 'they only check that some files exist.',
     ['correlation.py', 'fkt.py', 'chi4t.py', 'partial.py', 'filter.py'],
     [dict(name='writing and reading', where='correlation.py write, read, _output_file'), dict(name='relaxation times', where='fkt.py write')])
prop('C17', 'Results are updated only if missing or older than the trajectory',
     'When an update is requested, a correlation function is computed again and written if its output file is missing or not newer than '
     'the trajectory file, and is read from the output file otherwise. The partial correlations are all '
     'computed again if any of their files is missing or not newer than the trajectory. Without that request, '
     'or without an output file, they are always computed.',
     ['inputs', 'histories'], 'all modification times and sets of existing files',
     WHY + 'they cannot cover orders of modification times and missing files.',
     ['correlation.py', 'partial.py'], [dict(name='check', where='need_update, do')])
prop('C18', 'Grids have the requested points, from the first to the last value',
     'A linear grid with a given number of points divides the interval evenly, including its ends; with a given spacing it has all '
     'the points of that spacing up to the last value. A logarithmic grid starts at the first value, ends at the last one and its '
     'points beyond the first one increase by a constant factor (once one is added, if the grid starts from zero). The default '
     'time grids span the stated fraction of the trajectory with the requested number of points, and times given by the user '
     'are used unchanged, zero time being added if values are normalized by it.',
     ['inputs', 'configurations'], 'all limits, spacings, numbers of points, time steps and lengths of the trajectory',
     WHY + 'they use integer steps of unit time step, for which wrong grids go unnoticed.',
     ['helpers.py', 'alpha2.py', 'chi4t.py', 'fkt.py', 'qt.py', 'vacf.py'],
     [dict(name='grids', where='helpers.py linear_grid, logx_grid'), dict(name='default grids', where='__init__ of the correlations')])
prop('C19', 'The analysis reports crossings, peaks and slopes of the computed function',
     'The relaxation time, or the diffusion time, is the first time at which the broken line through the computed values crosses the '
     'threshold (1/e, 1/e of the value at zero time for each wave number, or the square of the given length), and none is reported '
     'without a crossing. The reported peak is the vertex of the parabola through the largest value and its neighbors, or the '
     'largest value itself at the ends. The diffusion coefficient is the slope of the least-squares line through the values beyond the given length, '
     'over twice the number of dimensions.',
     ['inputs'], 'all computed values, grids and thresholds',
     WHY + 'the analysis is compared on one or two smooth functions, or not at all.',
     ['helpers.py', 'msd.py', 'fkt.py', 'qt.py', 'chi4t.py', 'alpha2.py'],
     [dict(name='crossing, extrema, regression', where='helpers.py feqc, ifabsmm, linear_fit'), dict(name='use', where='analyze() of the correlations')])
prop('C20', 'The bond-angle distribution is the normalised histogram of neighbor angles',
     'The bond-angle distribution is the histogram of the angles between the minimum-image vectors joining a particle to each ordered pair of its distinct '
     'neighbors, averaged over frames and normalised to one over the grid. Neighbors are closer than the cutoff distance of their '
     'pair of species, which is the given one or the first minimum of the partial g(r) beyond its maximum. Any number of neighbors is counted.',
     ['inputs', 'configurations'], 'all positions, cells, cutoff distances, species and numbers of neighbors',
     WHY + 'the only test has no reference.',
     ['ba.py', 'realspace.f90'], [dict(name='angles', where='realspace.f90 bond_angle, neighbors'), dict(name='cutoffs', where='ba.py _default_rcut')])
prop('C21', 'Neighbor lists contain exactly the pairs within the cutoff distances',
     'The compiled routines list, for each particle, exactly the particles whose minimum-image distance is below the cutoff of the pair '
     'of species, each one once and with indices from the requested base, also when starting from candidate pairs. The tables of distances '
     'contain the minimum-image distance of every pair in order. The masks of particles close to the surface mark exactly '
     'those within the given distance from a side.',
     ['inputs'], 'all positions, cells, species and cutoff distances',
     WHY + 'most of these routines are not tested.',
     ['realspace.f90'], [dict(name='lists', where='realspace.f90 neighbors*, distances_*, on_surface*')])
prop('C23', 'Fixing the center of mass makes displacements relative to it',
     'When the center of mass is fixed, every displacement is relative to that of the center of mass, weighted by the masses, '
     'of all the particles in the system, also when the correlation is restricted to a species or to a pair of species. '
     'This makes the mean square displacement and the intermediate scattering functions independent of a uniform motion '
     'of the system. It does not depend on how the positions are stored.',
     ['inputs', 'histories'], 'all positions, masses, cells, species and motions of the center of mass',
     WHY + 'none of them compares with a system in motion.',
     ['correlation.py', 'msd.py', 'fkt.py'], [dict(name='center of mass', where='correlation.py _setup_arrays_*')])
prop('C24', 'A generic susceptibility is N times the variance over single time origins',
     'The generic susceptibility of a dynamic correlation function is, at each time, the number of particles times the '
     'variance over the time origins of that correlation computed from each single origin. The origins are taken at the '
     'requested interval from the leading part of the trajectory, so that all of them reach the largest requested time.',
     ['inputs', 'histories'], 'all trajectories, steps, time grids and numbers of origins',
     WHY + 'none exercises it.',
     ['susceptibility.py'], [dict(name='variance', where='susceptibility.py')])
prop('C22', 'Commands give the results of the correlation functions they name',
     'Each high-level function behind the command line writes exactly the result files, with the values, of the corresponding correlation function with '
     'the requested time or wave-vector grid and options: the total one and one for each species or pair of species, as requested. '
     'This holds for every input file and for the selected frames only, also with centered or cached trajectories, filters and weights. '
     'When only missing results are requested, existing ones are kept.',
     ['inputs', 'configurations'], 'all options, numbers of files, species, grids, frames and values in the trajectory',
     WHY + 'they compare a few files on the standard options.',
     ['api.py'], [dict(name='commands', where='api.py _get_trajectories and each function')])
prop('C27', 'The spectral density is that of the spheres in the trajectory',
     'The spectral density at each wave number is the squared modulus of the sum over particles of the Fourier transform of a sphere of '
     'the radius of that particle in that frame, centered at its position, averaged over the wave vectors of the shell and the frames used as origins and divided by the '
     'average volume.',
     ['inputs'], 'all positions, radii, cells, wave vectors and numbers of origins',
     WHY + 'the only test has no reference.',
     ['ik.py'], [dict(name='spheres', where='ik.py _compute')])

prop('C28', 'Computing leaves the trajectory unchanged and can be repeated',
     'Computing a correlation function does not change the trajectory or the arguments it was given. '
     'Computing it again, or after computing it or another one (for instance restricted to some of the particles) from the same trajectory, gives the same '
     'grid and values as computing it once by itself, also when the trajectory keeps its frames in memory or caches them, when unfolded positions are stored, '
     'when the center of mass is fixed, with weights and with cells that change.',
     ['inputs', 'histories'], 'all positions, velocities, masses, cells, steps and pairs of computations within the bounds',
     WHY + 'tests compute each function once.',
     ['correlation.py', 'sk.py', 'ik.py', 'chi4t.py', 'partial.py', 'filter.py'], [dict(name='phase-space arrays', where='correlation.py _setup_arrays, compute')])
prop('C29', 'g(r) of open cells and of systems without cell counts plain distances',
     'In a cell that is not periodic, distances are not folded: with a maximum distance, the radial distribution function counts, around each '
     'particle at least that far from every side of the cell, all the other particles (or those of the other species) at distances within each bin, and '
     'divides by the mean number of such central particles, the number density of their partners and the volume of the shell '
     '(the first bin aside); without a maximum distance, all the pairs count. If the system has no cell, the volume is that of the box that '
     'encloses the particles in the last frame. Bins centred beyond the maximum distance are not reported.',
     ['inputs', 'configurations'], 'all positions, sides, maximum distances and bin widths within the bounds',
     WHY + 'one test computes g(r) in an open cell and one without cell, for one random or stored configuration.',
     ['gr.py', 'realspace.f90', 'linkedcells.py'],
     [dict(name='particles at the surface', where='realspace.f90 on_surface'), dict(name='open cells', where='gr.py RadialDistributionFunctionFast._compute')])


def main():
    mods = {}
    for f in sorted(glob.glob(os.path.join(ROOT, 'vt', 'props', 'c[0-9]*.py'))):
        mods[os.path.basename(f)[:3].upper()] = f
    checks, na = [], []
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as out:
        for p in sorted(P, key=lambda x: x['id']):
            assert len(p['title']) <= 80, p['title']
            assert len(re.findall(r'\.(?= [A-Z]|$)', p['statement'])) <= 3, p['id']
            out.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                      quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                      anchors=dict(files=p['files'], mechanism=p['mech']))) + '\n')
            if p['id'] in mods:
                import importlib
                m = importlib.import_module('vt.props.' + os.path.basename(mods[p['id']])[:-3])
                checks.append(dict(
                    property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'],
                    technique='symbolic execution of the Python source%s, path conditions and claims decided by z3'
                              % ('' if getattr(m, 'KERNELS', True) is False else ' and of the Fortran kernels (GIMPLE)'),
                    level='model_checking',
                    level_note='All values within the bounds: %s. Assumes: %s. Exact real arithmetic; numpy and the '
                               'trajectory layer are modelled by stand-ins which replays on the real package validate.'
                               % (m.BOUNDS, '; '.join(getattr(m, 'ASSUMPTIONS', []) or ['nothing else']))))
            else:
                na.append(dict(property=p['id'], reason=p['na'] or 'no check yet'))
    for id in mods:
        assert id in [p['id'] for p in P], id
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as out:
        json.dump(dict(version=1, setup_cmd='mkdir -p evidence', checks=checks, not_applicable=na), out, indent=1)
        out.write('\n')


if __name__ == '__main__':
    main()

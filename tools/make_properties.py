"""Writes properties.jsonl and MANIFEST.json (single source for both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = lambda *names: [f'meent/on_{b}/{n}' for b in ('numpy', 'jax', 'torch') for n in names]
SOLVER = B('emsolver/_base.py', 'emsolver/rcwa.py', 'emsolver/transfer_method.py', 'emsolver/convolution_matrix.py',
           'emsolver/fourier_analysis.py', 'emsolver/primitives.py')
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=()):
    P.append(dict(prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                            anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                         observe_at=list(observe), hook_needed=None)),
                  technique=technique, note=note))


prop('C01', 'Power is conserved: lossless structures give R+T=1, lossy ones never gain',
     'For every stack of lossless layers, the reflected and transmitted efficiencies summed over all orders equal 1 (also when the substrate absorbs, and for the TE- and TM-incidence results), whatever the angle, azimuth, polarisation, truncation, Fourier-series type, geometry description, precision or backend. '
     'With absorbing layers the sum lies in (0, 1) and no single efficiency is negative. Orders that do not propagate in a lossless medium carry no power, and each total equals the sum of its s and p parts.',
     ['inputs', 'configurations'], 'every illuminated stack, truncation and numerical option within the enumerated lattice, on each backend',
     'QA scripts only run a few configurations and assert nothing numeric; power balance has to hold for every combination of media, angle and polarisation.',
     SOLVER, [('enhanced transmittance matrix recursion and interface conditions', 'meent/on_*/emsolver/transfer_method.py'),
              ('flux normalisation of the orders', 'meent/on_*/emsolver/transfer_method.py')],
     'exhaustive enumeration of a bounded configuration lattice on the real code, power-balance invariant on every state',
     'Complete over the stated lattice (all combinations of stack, media, angles, polarisation, truncation, options, backend); nothing is said between lattice points.',
     ['conv_solve().de_ri', 'conv_solve().de_ti', 'res / res_te_inc / res_tm_inc'])

prop('C02', 'The NumPy, JAX and PyTorch backends are interchangeable',
     'The same structure and illumination, solved by the three backends, gives the same per-order efficiencies, the same amplitudes and the same near fields, each up to one fixed sign/conjugation convention per backend, to numerical precision. '
     'This includes every optional argument, vector-drawn geometry, material lookup, TE/TM-incidence results and the shapes of efficiencies and amplitudes.',
     ['inputs', 'configurations'], 'every configuration of the lattice x every pair of backends',
     'The QA consistency script prints differences for a handful of set-ups without asserting them.',
     SOLVER + B('emsolver/field_distribution.py', 'modeler/modeling.py'),
     [('three independent implementations of one formulation', 'meent/on_numpy, meent/on_jax, meent/on_torch'), ('backend dispatch', 'meent/main.py')],
     'exhaustive enumeration of a bounded configuration lattice; pairwise differential comparison of the three implementations on every state',
     'Complete over the stated lattice; conventions between backends are part of the specification.',
     ['conv_solve', 'conv_solve_field', 'modeling_vector_instruction', 'find_nk_index'])

prop('C03', 'Every order is the solution of the truncated Maxwell problem',
     'For a given stack, truncation and plane wave, the complex amplitude and the efficiency of every reflected and transmitted order, in s and p, for the requested polarisation and for the TE and TM incidences, are those of the Fourier-truncated Maxwell equations with correct Fourier factorisation of the permittivity, in the documented time and phase convention (absorption is n - ik). '
     'Element [i, j] of a result always belongs to the order (i - fto_y, j - fto_x).',
     ['inputs', 'configurations'], 'every configuration of the lattice, every order, every backend',
     'No test compares a number with an independent solution; a wrong sign, swapped axis or dropped term that keeps the code running is invisible.',
     SOLVER, [('RCWA eigenproblem and boundary matching', 'meent/on_*/emsolver/transfer_method.py'), ('convolution matrices', 'meent/on_*/emsolver/convolution_matrix.py')],
     'explicit-state exploration of the configuration lattice; an executable reference model (matrix-exponential Riccati solver) is run on every state and the implementation must conform per order',
     'Complete over the lattice; trusts the 270-line reference model, itself validated by agreement of three implementations and by analytic films.',
     ['conv_solve'])

prop('C04', 'Equivalent descriptions of one structure give the same answer',
     'A line grating gives the same efficiencies through the scalar 1D, conical and 2D formulations and when drawn along y instead of x; a cell built from pixels, from refined or repeated pixels, or from vector shapes gives the same result under the analytic Fourier series. '
     'Splitting a layer, inserting a zero-thickness layer or replacing a uniform pixel layer by a coarser one changes nothing.',
     ['inputs', 'configurations'], 'every structure of the lattice, every pair of equivalent descriptions, every backend',
     'Existing scripts draw two or three such pairs and look at them.',
     SOLVER + B('modeler/modeling.py'), [('selection of the formulation', 'meent/on_*/emsolver/rcwa.py'), ('raster and vector Fourier series', 'meent/on_*/emsolver/convolution_matrix.py')],
     'exhaustive enumeration of structures x rewriting rules (equivalent descriptions) on the real code; all members of an equivalence class must agree',
     'Complete over enumerated structures including every binary pixel pattern up to the stated size.',
     ['conv_solve'])

prop('C05', 'Homogeneous films and bare interfaces obey Fresnel and Airy exactly',
     'For stacks of uniform layers the zeroth-order complex reflection and transmission coefficients and efficiencies equal the thin-film (Fresnel/Airy) formulas for s and p at every angle, azimuth, polarisation and thickness, including total internal reflection, the Brewster angle, absorbing layers and metallic substrates; every other order is dark. '
     'This holds for any number of retained orders, any pixel resolution, either Fourier series and raster or vector description.',
     ['inputs', 'configurations'], 'every film stack of the lattice x every formulation and backend',
     'The formulas must hold for a continuum of angles and stacks; tests contain none of them.',
     SOLVER, [('degenerate eigenproblem of a uniform layer and the interface conditions', 'meent/on_*/emsolver/transfer_method.py')],
     'exhaustive enumeration of film stacks on the real code against an analytic model, per polarisation',
     'Complete over the lattice; the oracle is closed form.', ['conv_solve'])

prop('C06', 'Results depend only on current settings, never on history',
     'After any sequence of setting attributes, solving, solving with keyword overrides and computing fields on one or several solver objects, a solve returns what a freshly built object with the same settings returns, and repeating it returns the same again. '
     'Objects never influence one another, and no call modifies arrays, lists or tables that the user passed in, nor the result objects returned earlier.',
     ['histories'], 'every operation sequence up to the depth bound over the operation alphabet, per backend, with one or two live objects',
     'Tests build a fresh object for each solve; stale caches or aliased state need particular sequences.',
     SOLVER + B('modeler/modeling.py', 'mee.py') + ['meent/main.py'],
     [('attribute setters and per-solve recomputation', 'meent/on_*/emsolver/_base.py, rcwa.py')],
     'explicit-state exploration of all operation sequences up to a depth on live objects; the abstract model (a settings record) predicts the configuration, fresh-object solve is the oracle',
     'Complete over all sequences up to the bound; the state abstraction (settings record) is validated against the implementation at every step.',
     ['attribute setters', 'conv_solve', 'calculate_field', 'conv_solve_field'])

prop('C07', 'Near fields are the Maxwell fields that belong to the far-field result',
     'The field arrays returned for a solved structure are the electric and magnetic components of the truncated Maxwell solution at the sampled points: x and y across the period, z layer by layer downward, for each requested incidence in order. '
     'They have the requested resolution, are continuous across layer interfaces in their tangential components, satisfy the Bloch condition, and their downward power flux equals the efficiencies just solved for.',
     ['inputs', 'configurations'], 'every configuration, grid resolution and choice of incidences in the lattice, every backend',
     'Tests plot fields; no value is checked.',
     B('emsolver/field_distribution.py', 'emsolver/rcwa.py'), [('back-substitution of mode coefficients', 'meent/on_*/emsolver/field_distribution.py')],
     'exhaustive enumeration of configurations x resolutions x incidences on the real code; every sample point compared with the reference model, plus continuity and flux invariants',
     'Complete over the lattice; trusts the reference model of C03.', ['calculate_field', 'conv_solve_field'])

prop('C08', 'Vector shapes are drawn as described',
     'A vector layer represents exactly its instruction list: base index outside all shapes, later shapes over earlier ones, each rectangle or ellipse at its centre, size, rotation (counter-clockwise, any angle) and index, with its requested number of subdivisions. '
     'Rotated rectangles keep their area, orientation and centre for every angle and split count; ellipses follow their contour and converge to it; shapes that touch, coincide or share edges are handled; moving or reordering disjoint shapes only moves or reorders them.',
     ['inputs'], 'every shape, angle, split count and pair of shapes in the lattice, every backend and precision',
     'Examples use a few angles; edge coincidences and quadrant-dependent branches need particular inputs.',
     B('modeler/modeling.py', 'emsolver/convolution_matrix.py', 'emsolver/fourier_analysis.py'),
     [('decomposition into axis-aligned boxes and grid painting', 'meent/on_*/modeler/modeling.py')],
     'exhaustive enumeration of shapes, rotations, splits and pairs on the real code; the drawn grid is compared cell by cell with a reference painter',
     'Complete over the lattice; the reference painter is an independent formulation.', ['modeling_vector_instruction', 'conv_solve'])

prop('C09', 'Material lookup returns the tabulated or modelled n - ik',
     'For every material of the library and every wavelength, looking up the index returns the linear interpolation of its table (n - ik; the real-only variant without k), exactly at tabulated points, clamped with a warning outside the range, independent of name case, of previous lookups and of the backend. '
     'Dictionary specifications evaluate their physical dispersion model, with passive sign, and filling a cell replaces exactly the pixels with the material index by that value.',
     ['inputs'], 'every material file, every table row and interval, every dispersion model, every backend',
     'Tests look up a few materials; the library has over forty files with different ranges and sampling.',
     B('modeler/modeling.py') + ['meent/dispersion.py'], [('table reading and interpolation', 'meent/on_*/modeler/modeling.py'), ('dispersion models', 'meent/dispersion.py')],
     'exhaustive enumeration of all materials x all table nodes and intervals on the real code against an independent reader and closed-form models',
     'Complete over all shipped tables at all nodes and mid-points; dispersion parameter grids bounded.', ['find_nk_index', 'read_material_table', 'put_refractive_index_in_ucell'])

prop('C10', 'Automatic derivatives equal true derivatives',
     'In the PyTorch and JAX backends the gradient of any efficiency with respect to thickness, pixel indices, angles, periods, wavelength, media and vector-shape parameters equals the numerical derivative of the same quantity. '
     'Optimisers step along this gradient: the parameters after any number of steps and any sequence of grad and fit calls follow the update rule of the chosen optimiser, and the solver object then describes them.',
     ['inputs', 'configurations', 'histories'], 'every differentiable parameter x configuration of the lattice, every number of optimiser steps up to the bound',
     'QA autodiff scripts run backward passes but compare nothing.',
     ['meent/on_torch/emsolver/primitives.py', 'meent/on_jax/emsolver/primitives.py', 'meent/on_torch/optimizer/optimizer.py', 'meent/on_jax/optimizer/optimizer.py',
      'meent/on_torch/mee.py', 'meent/on_jax/mee.py'] + B('emsolver/_base.py', 'emsolver/transfer_method.py', 'modeler/modeling.py')[3:],
     [('custom eigendecomposition derivative', 'meent/on_{torch,jax}/emsolver/primitives.py'), ('optimiser loop', 'meent/on_{torch,jax}/optimizer/optimizer.py')],
     'exhaustive enumeration of parameters x configurations on the real code; every autograd component compared with central differences of an independent evaluation; optimiser traces replayed against a model of the update rule',
     'Complete over the lattice; finite-difference tolerance 1e-4 relative.', ['backward / grad', 'fit'])

prop('C11', 'Physical symmetries and reciprocity hold',
     'Mirroring the cell together with the illumination mirrors the orders; exchanging the x and y axes exchanges the order indices (exactly for line gratings, within the truncation error otherwise); translating the cell, also across its border, adding whole turns or a half turn to the azimuth with the opposite polar angle, or scaling all lengths together leaves efficiencies unchanged, and multiplying the period with a repeated cell fills only the original orders (analytic Fourier series). '
     'At normal incidence only the direction of the field, psi + phi, counts. Exchanging source and detector (reciprocity) leaves each efficiency unchanged: exactly for order 0, within the truncation error for the others.',
     ['inputs', 'configurations'], 'every structure and illumination of the lattice x every symmetry operation, every backend',
     'Relations between pairs of solves over all inputs; no test relates two solves.',
     SOLVER, [('wave-vector bookkeeping and order indexing', 'meent/on_*/emsolver/_base.py, transfer_method.py'), ('Fourier series of the cell', 'meent/on_*/emsolver/fourier_analysis.py')],
     'exhaustive enumeration of structures x illuminations x symmetry group elements on the real code; metamorphic relation checked on every pair',
     'Complete over the lattice; needs no reference solver.', ['conv_solve'])

prop('C12', 'Polarisation is linear and consistently parameterised',
     'pol and psi are two names of one setting (pol 0 is TE or s, pol 1 is TM or p, psi = pi/2 (1 - pol)), whichever was set last wins and both read back consistently. '
     'The response to any psi is the corresponding superposition (sin psi, cos psi) of the TE- and TM-incidence responses reported with it, and these do not depend on psi; psi and psi + pi give the same efficiencies.',
     ['inputs', 'configurations', 'histories'], 'every psi/pol setting and setting sequence in the lattice, every backend',
     'Mixed polarisation appears in no assertion.',
     SOLVER, [('incident polarisation vector', 'meent/on_*/emsolver/transfer_method.py'), ('pol / psi setters', 'meent/on_*/emsolver/_base.py')],
     'exhaustive enumeration of configurations x polarisations x setter sequences on the real code; superposition law checked per order on complex amplitudes',
     'Complete over the lattice.', ['conv_solve().res', 'res_te_inc', 'res_tm_inc', 'pol', 'psi'])

prop('C13', 'Numerical options and input forms do not change the physics',
     'Single precision, the pseudo-inverse option, integer or float or real-or-complex typed cells, lists, tuples, arrays or scalars for the geometric settings, and explicit versus default arguments give the same results within their precision, with output arrays of the requested type. '
     'Unsupported values (an unknown backend, precision, Fourier-series type or connecting algorithm, pol outside [0, 1], a wrong number of Fourier orders, thicknesses that do not match the layers, cells of unsupported type or shape, missing numbers) are rejected with an error, not answered.',
     ['inputs', 'configurations'], 'every option and accepted input form x configuration of the lattice, every backend',
     'Tests use one form per script.',
     SOLVER + ['meent/main.py'], [('argument normalisation', 'meent/on_*/emsolver/_base.py, rcwa.py'), ('inversion primitive', 'meent/on_*/emsolver/primitives.py')],
     'exhaustive enumeration of configurations x options x input forms on the real code against the default form and the reference model',
     'Complete over the lattice.', ['call_mee', 'conv_solve'])

prop('C14', 'Uniaxial and biaxial (diagonal) anisotropy is solved correctly in PyTorch',
     'Cells whose index has separate x, y and z components give the truncated Maxwell solution of that diagonal tensor, for pixels and vector shapes, in efficiencies, amplitudes and near fields. '
     'Three equal components reproduce the isotropic result, power is conserved, and exchanging the x and y axes exchanges the first two components.',
     ['inputs', 'configurations'], 'every anisotropic structure of the lattice x illumination',
     'No numeric test of anisotropic cells exists.',
     ['meent/on_torch/emsolver/' + f for f in ('rcwa.py', '_base.py', 'convolution_matrix.py', 'fourier_analysis.py', 'transfer_method.py', 'field_distribution.py')] + ['meent/on_torch/modeler/modeling.py'],
     [('per-component convolution matrices', 'meent/on_torch/emsolver/convolution_matrix.py')],
     'exhaustive enumeration of anisotropic structures on the real code against the reference model and metamorphic relations',
     'Complete over the lattice.', ['conv_solve'])

prop('C15', 'Interrupted and interleaved operations leave every object intact',
     'A solve, keyword solve, field computation, drawing, material filling, change of settings, grad or fit may be interrupted by an exception at any point of its execution; after the settings are assigned again where they were being changed, '
     'the same object gives exactly what a fresh object gives. '
     'It may also be preempted at any point by complete operations on other objects, as with threads that each own an object, and both give their right results; '
     'neither changes what the user passed in (apart from parameters being fitted) or results returned earlier.',
     ['schedules', 'crash_points'], 'every executed line of every operation as preemption point and as interruption point, per structure and backend',
     'No test interrupts a call or uses two objects at once.',
     SOLVER + B('emsolver/field_distribution.py', 'modeler/modeling.py') + ['meent/on_torch/optimizer/optimizer.py'],
     [('per-solve state is rebuilt at the start of each solve', 'meent/on_*/emsolver/_base.py'), ('no state outside the objects', 'meent/on_*/emsolver')],
     'stateless exploration of the real code under a controlled scheduler (trace function): all one-preemption schedules and all crash points at line granularity, results compared with a fresh object',
     'Complete for one preemption or one interruption per operation over the listed operations; JAX at call granularity in the quick tier.',
     ['conv_solve', 'calculate_field', 'grad', 'fit'])

if __name__ == '__main__':
    have = [p for p in P if os.path.exists(os.path.join(HERE, 'mc', 'checks', p['prop']['id'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p['prop']) + '\n')
    man = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, torch, jax"',
               checks=[dict(property=p['prop']['id'], quick_cmd=f'python3 run.py {p["prop"]["id"]} --tier quick',
                            thorough_cmd=f'python3 run.py {p["prop"]["id"]} --tier thorough',
                            technique='model checking: ' + p['technique'], level='model_checking', level_note=p['note']) for p in have],
               not_applicable=[dict(property=p['prop']['id'], reason='check under construction') for p in P if p not in have],
               notes='No hooks: every check drives the public API of the package in /repo.')
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    for p in P:
        assert len(p['prop']['title']) <= 80, p['prop']['title']

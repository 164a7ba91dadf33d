GEN = ('Every execution explored is recorded and accepted or rejected by TLC against the trace specification; '
       'the design model is checked exhaustively within its bounds. Trusted: TLC, the recording harness, small configurations '
       '(arrays of a few dozen pixels) standing for large ones.')

prop('W01', 'The correction loop follows its schedule',
     'In every run of the wavefront-control loop the response matrix is recomputed exactly at the first and the scheduled '
     'iterations, at the commands in force and for the mirrors scheduled for that iteration, before one estimate and one control step are made. '
     'Only the scheduled mirrors move, estimation and linearisation leave the commands unchanged, and the commands at the end are the ones last applied.',
     ['schedules', 'configurations', 'histories'],
     'Every schedule of rows (repeat count, regularisation, mirror set, relinearise, grid search) and plain configuration, every iteration.',
     'The tests run one fixed three-iteration example; no test changes the mirror set, the relinearisation rows or the grid-search rows within a run.',
     ['falco/wfsc.py', 'falco/ctrl.py', 'falco/est.py'],
     [('iteration loop', 'falco/wfsc.py:loop'), ('schedule decoding', 'falco/ctrl.py:efc_schedule_generator'),
      ('culling', 'falco/ctrl.py:cull_weak_actuators')],
     ['falco.model.jacobian', 'falco.est.wrapper', 'falco.ctrl.wrapper', 'commands of both mirrors'], GEN,
     [('mp.dm_ind', 'mirrors in use', 'falco/wfsc.py'), ('mp.dmX.V', 'commands', 'falco/wfsc.py')])

prop('W02', 'The recorded history is what was applied and measured',
     'At the end of a run, the stored history holds for every iteration the commands in force when it was measured, the regularisation used, '
     'the measured intensities (in total, modulated and unmodulated, per sub-band, for correction and scoring regions), throughput and command statistics. '
     'Storing them never changes what it stores, and the saved file holds the same values.',
     ['histories', 'schedules', 'configurations'],
     'Every run length, schedule, number of sub-bands, wavelengths and stars, estimator and scoring region.',
     'Tests look at single final values of one example; they never compare the stored history with the sequence of applied commands and measured images.',
     ['falco/wfsc.py', 'falco/setup.py', 'falco/util.py'],
     [('history recording', 'falco/wfsc.py:store_intensities'), ('history recording', 'falco/wfsc.py:loop'),
      ('history arrays', 'falco/setup.py:init_storage_arrays')],
     ['fields of the returned history object', 'the saved snippet'], GEN)

prop('C01', 'The controller applies the best trial and trials leave no trace',
     'A control step tries every combination of regularisation and gain once from the same starting commands, applies the combination with the lowest measured (or modelled) intensity, '
     'and reports that combination and change of command. Trial commands pin no actuator, move no other mirror and leave no residue; running the trials in parallel changes nothing.',
     ['schedules', 'configurations', 'inputs'],
     'Every grid of regularisations and gains, plain and planned controllers, model- or measurement-based evaluation, serial and parallel.',
     'Tests check a final intensity of a few fixed runs; side effects of rejected trials and the choice among them depend on the whole history.',
     ['falco/ctrl.py'],
     [('grid search', 'falco/ctrl.py:_grid_search_efc'), ('planned', 'falco/ctrl.py:_planned_efc'), ('trial', 'falco/ctrl.py:_efc')],
     ['falco.ctrl.wrapper', 'images measured per trial', 'commands'], GEN)

prop('C02', 'The control law is the weighted regularised least-squares step',
     'The change of command the controller tries for a regularisation and gain is the gain times the regularised weighted least-squares solution that cancels the estimated field through the response matrix, '
     'with the modal weights, spatial weights and mirror weights of the configuration. It is linear in the field estimate and independent of how many iterations came before.',
     ['inputs', 'configurations', 'histories'],
     'Every estimate, response matrix, weighting, subset of mirrors and actuators, regularisation and gain.',
     'Tests compare end-to-end intensities only; weighting errors that still reduce intensity, or compound over iterations, pass unnoticed.',
     ['falco/ctrl.py', 'falco/setup.py'],
     [('setup of the normal matrix', 'falco/ctrl.py:wrapper'), ('solve', 'falco/ctrl.py:_efc'), ('spatial weights', 'falco/ctrl.py:apply_spatial_weighting_to_Jacobian')],
     ['trial commands'], GEN)

prop('W03', 'A control schedule decodes to exactly what its rows say',
     'For every schedule matrix, the decoded number of iterations, mirrors per iteration, regularisation per iteration, relinearisation iterations and grid-search iterations are the ones the rows spell out in order. '
     'A row that requests relinearisation does so once, at its first iteration, and zero-length rows act only as relinearisation requests.',
     ['schedules', 'inputs'], 'Every sequence of rows up to the bound.',
     'One fixed schedule is tested.', ['falco/ctrl.py'], [('decoder', 'falco/ctrl.py:efc_schedule_generator')],
     ['falco.ctrl.efc_schedule_generator'], GEN)

prop('A01', 'Commands reach exactly the usable actuators',
     'Actuators that are too weak, dead, or tied are handled consistently: the response matrix keeps exactly the actuators above the threshold in every mirror in use, the solution is applied to exactly those, and tied actuators follow their partner. '
     'Every other actuator keeps its command.',
     ['inputs', 'configurations', 'histories'], 'Every subset of mirrors, weak and tied actuators, and iteration history.',
     'Tests cover one culling example and no applied command afterwards.', ['falco/ctrl.py', 'falco/dm.py', 'falco/model/models.py'],
     [('culling', 'falco/ctrl.py:cull_weak_actuators'), ('application', 'falco/ctrl.py:_efc')], ['commands after a step'], GEN)

prop('A02', 'Commands sent to a mirror are admissible',
     'Enforcing the constraints of a mirror yields commands within its voltage range, with dead and pinned actuators at their fixed voltages and tied actuators equal; the neighbour rule yields neighbouring actuators within the allowed difference. '
     'Commands that are already admissible are not changed, and enforcing twice equals enforcing once.',
     ['inputs', 'configurations', 'histories'], 'Every command, limit, bias, set of pinned, dead and tied actuators and neighbour limit.',
     'Tests sample a couple of commands per rule; rules interact and pinning is remembered between calls.', ['falco/dm.py'],
     [('constraints', 'falco/dm.py:enforce_constraints'), ('neighbour rule', 'falco/dm.py:apply_neighbor_rule')],
     ['falco.dm.enforce_constraints', 'falco.dm.gen_surf_from_act'], GEN)

prop('D01', 'The mirror surface is the linear superposition of its actuators',
     'The surface of a deformable mirror is linear in its commands, each actuator contributing its own scaled, signed influence function at its own place under the configured shift, rotation and tilt, in agreement with the per-actuator maps used for control and with the solver for the inverse problem. '
     'Discretised commands are the nearest multiples of the step (or rounded up, down or towards zero as chosen).',
     ['inputs', 'configurations'], 'Every command pattern, mirror geometry, orientation, discretisation.',
     'Tests compare few stored numbers for single geometries.', ['falco/dm.py', 'falco/proper/prop_dm.py'],
     [('surface', 'falco/dm.py:gen_surf_from_act'), ('poke cube', 'falco/dm.py:gen_poke_cube')], ['surfaces'], GEN)

prop('E01', 'Pairwise probing recovers the field and has no side effects',
     'For every field, the probe-based estimator returns the true coherent field of the controlled region and its incoherent remainder to the accuracy of its linear model, for each sub-band and star, whichever mirror probes and in whichever order. '
     'The commands, pinned actuators, mirror selection and images outside the probing are the same before and after.',
     ['inputs', 'configurations', 'histories'], 'Every command state, probing axis, number of pairs, probing mirror, sub-band.',
     'Tests check the estimate of one configuration against the truth to a loose tolerance.', ['falco/est.py'],
     [('estimator', 'falco/est.py:pairwise_probing'), ('probe shapes', 'falco/est.py:gen_pairwise_probe')],
     ['falco.est.wrapper'], GEN)

prop('E02', 'The perfect estimator returns the model field of every mode',
     'The perfect estimate holds, for every controlled mode (sub-band, aberration, star), the field of the full model at the controlled pixels in the order in which control consumes it, and the image is the one the imaging functions would return. '
     'Serial and parallel estimation agree.',
     ['inputs', 'configurations', 'schedules'], 'Every combination of sub-bands, wavelengths, stars and aberration modes; serial and parallel.',
     'Tests use one mode combination; the parallel path is compared for square fields only.', ['falco/est.py'],
     [('estimator', 'falco/est.py:perfect')], ['falco.est.wrapper'], GEN)

prop('I01', 'Images are the weighted sums of their parts, serial or parallel',
     'A summed image is the sum over sub-bands, wavelengths, polarisation states and stars of the squared model field with the configured weights, and each sub-band image is the same sum restricted to that sub-band. '
     'Taking an image changes no state, and parallel evaluation gives the same image as serial evaluation.',
     ['configurations', 'schedules', 'inputs'], 'Every number of sub-bands, wavelengths, polarisation states and stars with every weighting; serial and parallel.',
     'Tests use one or two sub-bands, one star; the parallel path sums are compared in one configuration.', ['falco/imaging.py', 'falco/setup.py'],
     [('summed image', 'falco/imaging.py:get_summed_image'), ('sub-band image', 'falco/imaging.py:get_sim_sbp_image'),
      ('expected image', 'falco/imaging.py:get_expected_summed_image')], ['falco.imaging public functions'], GEN)

prop('I02', 'Intensities are in units of the reference peak',
     'After normalisation, the image of the reference source (the first star displaced by the normalisation offset, with a vortex taken out) has unit peak for each sub-band and wavelength in the full, compact and evaluation models at the command state where it was computed, and every later field of any star, aberration or source is in that same unit until the next normalisation. '
     'Computing the normalisation changes nothing else, serial and parallel computation agree, and the throughput is the gathered fraction of the energy entering, whatever the unit.',
     ['inputs', 'configurations', 'histories'],
     'Every coronagraph type, command state, sub-band, source, and order of moves, aberrations and normalisations.',
     'Tests check the value for flat mirrors in a few configurations.', ['falco/imaging.py', 'falco/model/models.py'],
     [('normalisation', 'falco/imaging.py:calc_psf_norm_factor'), ('throughput', 'falco/imaging.py:calc_thput')],
     ['normalised fields of both models', 'throughput'], GEN)

prop('J01', 'The response matrix is the derivative of the compact model',
     'For every mirror command, mode and actuator, the column of the response matrix is the derivative of the compact model field with respect to that actuator, for every coronagraph type and focal-plane propagation method. '
     'Computing it in parallel or in slices gives the same matrix, and leaves commands and model unchanged.',
     ['inputs', 'configurations', 'schedules'], 'Every actuator, mode, coronagraph type, mirror subset, relay rotation and command state.',
     'Tests compare single stored configurations at flat commands.', ['falco/model/jacobians.py', 'falco/model/models.py'],
     [('jacobian', 'falco/model/models.py:jacobian'), ('columns', 'falco/model/jacobians.py:lyot'), ('columns', 'falco/model/jacobians.py:vortex')], ['falco.model.jacobian', 'falco.model.compact'], GEN)

prop('G01', 'Reverse-mode gradients are the derivative of the control cost',
     'The cost and gradient used by gradient-based control are the value of the documented quadratic cost and its exact derivative with respect to each usable actuator, at any commands and for all modes and weights. '
     'The optimised command respects the bounds it was given.',
     ['inputs', 'configurations'], 'Every command vector, mode set, weighting, mirror subset.',
     'Tests compare with a stored or finite-difference gradient in a single configuration.', ['falco/ctrl.py', 'falco/model/models.py', 'falco/diff_dm.py', 'falco/prop.py'],
     [('gradient', 'falco/model/models.py:compact_reverse_gradient')], ['gradient function'], GEN)

prop('M01', 'Full and compact models agree and superpose',
     'With equal sampling and the same optics the full and the compact model return the same field, for every coronagraph type, wavelength, relay orientation, mirror state and star position. '
     'The field is linear in the input field and scales with the square root of a star\'s weight.',
     ['inputs', 'configurations'], 'Every coronagraph type, relay count, rotation flag, wavelength, star, mirror state.',
     'Tests compare the two models for few fixed examples to loose tolerances.', ['falco/model/models.py', 'falco/prop.py'],
     [('full', 'falco/model/models.py:full'), ('compact', 'falco/model/models.py:compact')], ['falco.model.full', 'falco.model.compact'], GEN)

prop('S01', 'Spectral weights partition the band',
     'For every bandwidth and numbers of sub-bands and wavelengths, the wavelengths of the full model tile the band symmetrically, each sub-band\'s weights sum to one, and the summed weights of all distinct wavelengths sum to one. '
     'Merging equal wavelengths neither loses nor double-counts weight.',
     ['configurations'], 'Every number of sub-bands and wavelengths per sub-band within the bound and every bandwidth.',
     'Tests sample two combinations.', ['falco/setup.py'], [('weights', 'falco/setup.py:falco_set_spectral_properties')],
     ['sub-band centres, wavelengths, weights'], GEN)

prop('S02', 'Control modes enumerate every sub-band, aberration and star once',
     'The list of control modes contains each requested combination of sub-band, aberration and star exactly once, with aberrations other than piston only where requested, in a fixed order, and the weights of one aberration, the same for every star, sum to one over the sub-bands it uses. '
     'The order of the aberrations in the configuration does not change the weight of any mode.',
     ['configurations', 'inputs'], 'Every list of aberrations, amplitudes, sub-bands and stars.',
     'Tests sample two combinations.', ['falco/setup.py'], [('modal weights', 'falco/setup.py:falco_set_jacobian_modal_weights')],
     ['mode indices and weights'], GEN)

prop('F01', 'The dark-hole regions are the requested regions',
     'The correction and scoring masks contain exactly the pixels inside the requested annular, square or rectangular region on the requested sides within the opening angle, shifted by the requested offsets, for every resolution, field of view and centering. '
     'The scoring region uses its own parameters, and vectorised fields are in one fixed pixel order.',
     ['configurations', 'inputs'], 'Every combination of shape, sides, radii, angle, offset, resolution and centering.',
     'Tests compare areas for a few shapes.', ['falco/mask.py', 'falco/setup.py'], [('masks', 'falco/mask.py:falco_gen_SW_mask'), ('regions', 'falco/setup.py:falco_configure_dark_hole_region')],
     ['correction and scoring masks'], GEN)

prop('K01', 'Configuration files load to exactly what they say',
     'Loading a configuration file yields an object holding exactly the values the file spells out, with evaluated expressions evaluated in the declared scope, independent of any file loaded earlier and without modifying the caller. '
     'Saving the object and loading it again reproduces it.',
     ['inputs', 'programs', 'histories'], 'Every nesting of mappings, lists, scalars and evaluated expressions, every sequence of loads.',
     'Tests load single files.', ['falco/config'], [('loader', 'falco/config')], ['falco.config'], GEN)

prop('K02', 'Default filling keeps what the user set',
     'Preparing a configuration fills in every unset option with its documented default and never overwrites an option the user set. '
     'Preparing leaves user-supplied arrays unchanged, and a configuration prepared with only the defaults spelled out behaves as one that leaves them out.',
     ['configurations'], 'Every subset of the optional settings.', 'Tests prepare a few fixed examples.', ['falco/setup.py'],
     [('defaults', 'falco/setup.py:set_optional_variables')], ['prepared configuration'], GEN)

prop('P01', 'Free-space propagation conserves energy, reverses and selects correctly',
     'Propagating a wavefront through lenses, distances and apertures tracks the Gaussian pilot beam so that the propagator chosen, the sampling and the reference surface are the ones the beam position dictates, and energy is conserved without apertures. '
     'Propagating forth and back, or in two steps instead of one within a regime, gives the same field, and the table of surfaces lists every step with its distance, sampling, beam diameter and focal ratio.',
     ['programs', 'inputs'], 'Every sequence of lenses and distances within the bound.', 'Tests have a few systems.',
     ['falco/proper'], [('propagator', 'falco/proper/prop_propagate.py'), ('lens', 'falco/proper/prop_lens.py')], ['wavefront state'], GEN)

prop('P02', 'Saved wavefront states and multi-run give the direct result',
     'Running a prescription with saved intermediate states, or many wavelengths or parameter sets in parallel, gives the results of direct single runs in the order asked, and leaves no state files or flags behind.',
     ['histories', 'schedules', 'programs'], 'Every order of save, resume and end calls, every list of wavelengths and parameter sets.',
     'No test exercises these paths.', ['falco/proper'], [('states', 'falco/proper/prop_state.py'), ('multi', 'falco/proper/prop_run_multi.py')],
     ['returned fields', 'files left behind'], GEN)

prop('N01', 'Generated masks are the requested shape',
     'A generated pupil, stop, focal-plane mask or polygon transmits, pixel by pixel, exactly the fraction of the pixel inside the requested shape, at every resolution, centering, shift, rotation, magnification and padding, and the same request always gives the same mask whatever was made before it. '
     'Moving, turning or magnifying a request moves, turns or magnifies the mask, a mask and its complement add up to one, adding spiders or padding only removes light, and spiral and segment patterns number and phase their parts as documented; the field of a segmented mirror holds every segment that is present, with its own piston and tilts.',
     ['inputs', 'configurations', 'histories'], 'Every combination of shape, size, resolution, centering, shift, rotation, struts and padding accepted by a mask generator, and every order of requests.',
     'Tests compare total areas of a few masks.', ['falco/mask.py', 'falco/hexsegmirror.py', 'falco/proper'],
     [('masks', 'falco/mask.py'), ('hexagons', 'falco/hexsegmirror.py'), ('polygons', 'falco/proper/prop_irregular_polygon.py')], ['mask arrays'], GEN)

prop('Z01', 'Zernike modes are orthonormal, and fitting or injecting them is exact',
     'The Zernike maps generated for any list of Noll indices, diameter, centering and obscuration are the documented polynomials, orthonormal over the aperture, independent of the order and number of modes asked for together; fitting a map returns the coefficients that made it, and sums of modes add. '
     'Sensitivities of the dark hole to Zernike modes are the mean change in intensity over each annulus that injecting exactly that mode at exactly that amplitude causes, in series or in parallel, and computing them leaves the model as it was.',
     ['inputs', 'configurations', 'schedules'], 'Every list of modes, order, diameter, centering, obscuration and weight map within the bound; every set of sensitivity modes, annuli and wavelengths.',
     'Tests compare a few low-order maps with stored totals.', ['falco/zern.py', 'falco/proper'],
     [('maps', 'falco/zern.py:gen_norm_zern_maps'), ('sensitivities', 'falco/zern.py:calc_zern_sens'), ('modes', 'falco/proper/prop_zernikes.py'), ('fitting', 'falco/proper/prop_fit_zernikes.py')],
     ['mode maps', 'coefficients', 'sensitivity table'], GEN)

prop('H01', 'Hybrid masks carry the coating their surfaces ask for',
     'The complex transmission and reflection of a stack of thin films satisfies the exact boundary conditions: energy is conserved without absorption, merging or splitting films and films of no thickness change nothing, and the stack transmits the same from behind. '
     'A hybrid focal-plane mask has at every pixel and wavelength the transmission of the metal and dielectric thicknesses its two surfaces have there, to the nearest tabulated thickness, tables computed earlier for other requests are never mistaken for the requested one, and the models use exactly that mask.',
     ['inputs', 'configurations', 'histories'], 'Every stack of films within the bound, every sequence of surface changes and table requests, and every wavelength layout.',
     'Tests compare a handful of coatings with stored numbers and never build a hybrid mask.', ['falco/thinfilm.py', 'falco/hlc.py', 'falco/setup.py', 'falco/model'],
     [('films', 'falco/thinfilm.py:solver'), ('tables', 'falco/thinfilm.py:gen_complex_trans_table'), ('masks', 'falco/hlc.py:gen_fpm_cube_from_LUT'), ('masks', 'falco/hlc.py:gen_fpm_from_LUT')],
     ['amplitudes', 'mask arrays', 'model fields'], GEN)

prop('R01', 'Maps, images and elements land on the beam as asked',
     'An error map read from a file is placed, shifted, turned, scaled and applied in amplitude or phase with the units, centre and sampling asked for; elements met by the field act pixel by pixel in order, phases conserve energy and opposite elements undo each other. '
     'Images are turned and magnified about the centre asked for, detector pixels collect exactly the light falling on them, random maps have the spectrum and rms asked for, segments of a segmented aperture are numbered, placed and aberrated as documented, and library mirrors superpose their actuators.',
     ['inputs', 'configurations', 'programs'], 'Every map, sampling ratio, centre, shift, turn, factor and unit within the bound, every sequence of elements, every ring count, rotation and set of omitted segments.',
     'No test reads an error map, turns or magnifies an image, makes a random map, or builds a segmented aperture of the library.', ['falco/proper'],
     [('maps', 'falco/proper/prop_errormap.py'), ('resampling', 'falco/proper/prop_resamplemap.py'), ('rotation', 'falco/proper/prop_rotate.py'), ('random maps', 'falco/proper/prop_psd_errormap.py'), ('segments', 'falco/proper/prop_hex_wavefront.py')],
     ['fields', 'maps returned', 'files'], GEN)

prop('U01', 'Cropping, padding, rotating and binning keep the centre',
     'Cropping, padding, shifting, relaying, mirroring and binning arrays keep the array centre where the centering convention puts it, and padding followed by cropping returns the original. '
     'Even and odd sizes and both centerings obey the same rule.',
     ['inputs'], 'Every pair of input and output size up to the bound, both centerings.', 'Tests sample a few sizes.',
     ['falco/util.py', 'falco/prop.py'], [('pad and crop', 'falco/util.py:pad_crop'), ('relay', 'falco/prop.py:relay')], ['arrays returned'], GEN)

prop('T01', 'Pupil-to-focus transforms are linear, inverse and mutually consistent',
     'The matrix Fourier transforms between pupil and focus agree with the discrete Fourier sum they stand for at every sampling and centering, forward and backward transforms are adjoint, and the round trip through a fully sampled focal plane is a rotation of the input. '
     'Angular-spectrum propagation composes additively and is reversible.',
     ['inputs', 'configurations'], 'Every size, sampling and centering in the bound, every input impulse.', 'Tests use one aperture and loose norms.',
     ['falco/prop.py', 'falco/fftutils.py'], [('MFT', 'falco/prop.py:mft_p2f'), ('MFT', 'falco/prop.py:mft_f2p'), ('angular spectrum', 'falco/prop.py:ptp')],
     ['fields returned'], GEN)

prop('V01', 'Input checks accept exactly the valid values',
     'Each input check returns its argument unchanged when it satisfies the documented condition and raises the documented (or requested) exception otherwise, for every kind of value.',
     ['inputs'], 'Every combination of check and value kind.', 'Tests sample some kinds per check.', ['falco/check.py'],
     [('checks', 'falco/check.py')], ['return value or exception'], GEN)

prop('X01', 'An external full model is run at the present state and its result is what is used',
     'When the full model is an external (PROPER or Roman) prescription, every field, image, normalisation and perfect estimate runs it at exactly the wavelengths and polarisations that quantity is made of, '
     'with the present command of every mirror in use in metres plus its flat map, the source moved or the mask taken out only to normalise, and every other setting of the full model as the user set it, in fields or in a configuration. '
     'The result has the shape of the image, is normalised with the normalisation of its wavelength and weighted as documented, in series or in parallel, and nothing of the configuration changes.',
     ['histories', 'configurations', 'schedules'],
     'Every order of commands, changes of mirrors, normalisations, images, fields and estimates within the bound; every layout, number of sub-bands and wavelengths, polarisation set and image shape.',
     'No test runs an external layout.', ['falco/model/models.py', 'falco/imaging.py', 'falco/est.py', 'falco/proper/prop_run.py'],
     [('hand-over', 'falco/model/models.py:full'), ('images', 'falco/imaging.py:get_summed_image'), ('normalisation', 'falco/imaging.py:calc_psf_norm_factor')],
     ['options given to the prescription', 'fields, images, normalisations and estimates'], GEN)
